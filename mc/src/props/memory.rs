//! F01: no call has an influence on a later one.
use super::evolution::Cfg;
use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::keys;
use crate::models::*;
use crate::util::*;
use rand::Rng;
use rusty_genes::one_max::*;
use rusty_genes::*;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::OnceLock;

/// A call with its arguments, and what it gives.
struct Call {
    name: String,
    /// the operation without its arguments
    family: usize,
    /// depends on the hash keys
    keys: bool,
    /// ends in a panic, or may; only made before other calls
    illegal: bool,
    f: Box<dyn Fn() -> String + Send + Sync>,
}
#[derive(Default)]
struct Catalog {
    calls: Vec<Call>,
    families: Vec<String>,
}
impl Catalog {
    fn add(&mut self, family: &str, args: String, keys: bool, f: impl Fn() -> String + Send + Sync + 'static) {
        let family_no = self.families.iter().position(|x| x == family).unwrap_or_else(|| {
            self.families.push(family.to_string());
            self.families.len() - 1
        });
        self.calls.push(Call { name: format!("{family}({args})"), family: family_no, keys, illegal: false, f: Box::new(f) });
    }
    /// A call nothing is said about. It only is an earlier one.
    fn illegal(&mut self, family: &str, args: &str, f: impl Fn() -> String + Send + Sync + 'static) {
        self.add(family, args.to_string(), false, f);
        self.calls.last_mut().unwrap().illegal = true;
    }
    fn crossovers<G: Gene>(&mut self, kind: &str, inputs: &[(usize, usize, usize)]) {
        for &(n, x, y) in inputs {
            let parents = move || (genes::<G>(&family(n, x)), genes::<G>(&family(n, y)));
            let args = format!("{n} {kind} genes, orders {x} and {y}");
            fn pivot<G: Copy>(p: &[G], k: usize) -> Option<G> {
                p.get(k).copied()
            }
            self.add("generalized_partition_2_crossover", args.clone(), true, move || {
                let (a, b) = parents();
                show(generalized_partition_2_crossover(&a, &b, |_, p| p.len() / 2))
            });
            if n > 0 {
                self.add("sequential_constructive_crossover", args.clone(), true, move || {
                    let (a, b) = parents();
                    show(sequential_constructive_crossover(&a, &b, pivot(&a, n / 2).unwrap()))
                });
                self.add("edge_recombination_crossover", args.clone(), true, move || {
                    let (a, b) = parents();
                    show(edge_recombination_crossover(&a, &b, pivot(&b, n / 3).unwrap()))
                });
            }
            self.add("partially_mapped_crossover", args.clone(), true, move || {
                let (a, b) = parents();
                show(partially_mapped_crossover(&a, &b, n / 3..n - n / 4))
            });
            self.add("order_crossover", args.clone(), true, move || {
                let (a, b) = parents();
                show(order_crossover(&a, &b, n / 4..n / 2))
            });
            self.add("cycle_crossover", args.clone(), true, move || {
                let (a, b) = parents();
                show(cycle_crossover(&a, &b))
            });
            self.add("single_point_crossover", args.clone(), true, move || {
                let (a, b) = parents();
                show(single_point_crossover(&a, &b, n / 2))
            });
            self.add("common_neighbors", args.clone(), true, move || {
                let (a, b) = parents();
                let mut v: Vec<_> = common_neighbors(&a, &b).into_iter().map(|(x, y)| format!("{x:?} {y:?}")).collect();
                v.sort();
                show(v)
            });
            self.add("common_partitions", args.clone(), true, move || {
                let (a, b) = parents();
                show(common_partitions(&a, &b))
            });
        }
    }
}
fn show<T: Debug>(t: T) -> String {
    format!("{t:?}")
}
/// The result of f under these draws.
fn under(p: Pattern, f: impl FnOnce(&mut McRng) -> String) -> String {
    set_pattern(Some(p));
    let s = f(&mut McRng::new());
    set_pattern(None);
    s
}
const CROSSOVERS: [CrossoverStrategy; 7] = [CrossoverStrategy::GeneralizedPartition2, CrossoverStrategy::SequentialConstructive, CrossoverStrategy::EdgeRecombination, CrossoverStrategy::PartiallyMapped, CrossoverStrategy::Order, CrossoverStrategy::Cycle, CrossoverStrategy::SinglePoint];
const MUTATIONS: [MutationStrategy; 5] = [MutationStrategy::Swap, MutationStrategy::Scramble, MutationStrategy::Inversion, MutationStrategy::Insertion, MutationStrategy::Duplicate];

/// Small runs.
struct Tiny;
impl EvolutionModel for Tiny {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, b: &F, rng: &mut McRng) -> F {
        F { id: (a.id * 3 + b.id + rng.gen_range(0..5)) % 64, fit: 0.0 }
    }
    fn mutate(&self, i: &mut F, rng: &mut McRng) {
        i.id = (i.id * 5 + rng.gen_range(1..4)) % 64
    }
    fn evaluate(&self, i: &mut F) {
        i.fit = (i.id * 37 % 61) as f64 / 4.0;
    }
}

/// One of whose operations panics.
struct Failing {
    place: usize,
    left: std::sync::atomic::AtomicUsize,
}
impl Failing {
    fn step(&self, place: usize) {
        if place == self.place && self.left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 1 {
            panic!("planned")
        }
    }
}
impl EvolutionModel for Failing {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, b: &F, rng: &mut McRng) -> F {
        self.step(0);
        Tiny.crossover(a, b, rng)
    }
    fn mutate(&self, i: &mut F, rng: &mut McRng) {
        self.step(1);
        Tiny.mutate(i, rng)
    }
    fn evaluate(&self, i: &mut F) {
        self.step(2);
        Tiny.evaluate(i)
    }
}

fn catalog() -> &'static Catalog {
    static C: OnceLock<Catalog> = OnceLock::new();
    C.get_or_init(|| {
        let mut c = Catalog::default();
        c.crossovers::<usize>("usize", &[(0, 0, 0), (1, 0, 0), (2, 0, 1), (5, 2, 9), (8, 0, 9), (8, 9, 1), (8, 11, 10), (9, 15, 2), (24, 0, 9), (40, 0, 15), (72, 9, 1), (264, 0, 9), (300, 9, 15)]);
        c.crossovers::<&'static str>("&str", &[(5, 9, 2), (8, 0, 9), (8, 10, 1), (40, 3, 15)]);
        c.crossovers::<char>("char", &[(8, 0, 9), (8, 10, 1)]);
        for s in CROSSOVERS {
            for (n, m, x, y, p) in [(5, 5, 2, 9, Pattern::Weyl(1)), (8, 8, 0, 9, Pattern::Weyl(1)), (8, 8, 0, 9, Pattern::Weyl(3)), (8, 8, 10, 1, Pattern::Weyl(2)), (40, 40, 0, 15, Pattern::Weyl(2)), (5, 4, 2, 9, Pattern::Weyl(2))] {
                c.add(&format!("CrossoverStrategy::{s:?}"), format!("{n} and {m} genes, orders {x} and {y}, draws {p:?}"), true, move || {
                    under(p, |rng| show(s.crossover(&genes::<usize>(&family(n, x)), &genes::<usize>(&family(m, y)), rng)))
                });
            }
        }
        for s in MUTATIONS {
            for (n, x, p) in [(1, 0, Pattern::Weyl(2)), (2, 0, Pattern::Weyl(3)), (8, 0, Pattern::Weyl(1)), (8, 9, Pattern::Weyl(1)), (8, 0, Pattern::Weyl(3)), (40, 2, Pattern::Weyl(3)), (300, 0, Pattern::Weyl(1))] {
                c.add(&format!("MutationStrategy::{s:?}"), format!("{n} genes, order {x}, draws {p:?}"), false, move || {
                    under(p, |rng| {
                        let mut g = genes::<usize>(&family(n, x));
                        s.mutate(&mut g, rng);
                        show(g)
                    })
                });
            }
        }
        type Mutation = fn(&mut [char], &mut McRng);
        for (name, f) in [
            ("swap_mutation", swap_mutation as Mutation),
            ("scramble_mutation", scramble_mutation as Mutation),
            ("inversion_mutation", inversion_mutation as Mutation),
            ("insertion_mutation", insertion_mutation as Mutation),
            ("duplicate_mutation", duplicate_mutation as Mutation),
        ] {
            for (n, p) in [(2, Pattern::Weyl(2)), (8, Pattern::Weyl(1)), (9, Pattern::Weyl(1))] {
                c.add(name, format!("{n} chars, draws {p:?}"), false, move || {
                    under(p, |rng| {
                        let mut g = genes::<char>(&family(n, 0));
                        f(&mut g, rng);
                        show(g)
                    })
                });
            }
        }
        for p in [Pattern::Weyl(2), Pattern::Weyl(1), Pattern::Weyl(3)] {
            for n in [0, 1, 2, 8, 300] {
                c.add("random_pair", format!("{n}, draws {p:?}"), false, move || under(p, |rng| show(random_pair(n, rng))));
                c.add("random_range", format!("{n}, draws {p:?}"), false, move || under(p, |rng| show(random_range(n, rng))));
            }
            for (n, a, b) in [(8, 2, 5), (8, 8, 8), (300, 2, 100), (8, 5, 2)] {
                c.add("bounded_random_range", format!("{n}, {a}, {b}, draws {p:?}"), false, move || under(p, |rng| show(bounded_random_range(n, a, b, rng))));
            }
        }
        let scores = |k: usize| -> Vec<f64> {
            match k {
                0 => vec![2.0],
                1 => vec![1.0, 2.0, 3.0, 8.0],
                2 => vec![4.0, 1.0, 1.0, 8.0],
                3 => (0..20).map(|i| (i * 7 % 20) as f64).collect(),
            4 => (0..260).map(|i| (i * 7 % 260) as f64).collect(),
            _ => (0..276).map(|i| (i * 5 % 276) as f64).collect(),
            }
        };
        for s in [
            SelectionStrategy::Tournament(2),
            SelectionStrategy::Tournament(3),
            SelectionStrategy::RouletteWheel,
            SelectionStrategy::Rank,
            SelectionStrategy::Elitist(0.4),
            SelectionStrategy::Elitist(0.7),
            SelectionStrategy::Boltzmann(3.0, 0.5),
            SelectionStrategy::Boltzmann(3.0, 0.25),
            SelectionStrategy::Boltzmann(9.0, 0.5),
            SelectionStrategy::Linear(1.5),
            SelectionStrategy::Linear(1.1),
        ] {
            let first = matches!(s, SelectionStrategy::Tournament(2) | SelectionStrategy::RouletteWheel | SelectionStrategy::Rank | SelectionStrategy::Elitist(0.4));
            let last = if first { 6 } else { 4 };
            for k in 0..last {
                for p in [Pattern::Weyl(1), Pattern::Weyl(4)] {
                    let what = format!("{s:?}");
                    let variant = what.split('(').next().unwrap();
                    c.add(&format!("SelectionStrategy::{variant}"), format!("{s:?}, {} individuals, scores no. {k}, draws {p:?}", scores(k).len()), false, move || {
                        let pop = Population::new(scored(&scores(k)));
                        under(p, |rng| {
                            let mut m = s.create_selector::<F, McRng>();
                            m.prepare(&pop);
                            let a: Vec<usize> = (0..4).map(|_| m.select(&pop, rng).0).collect();
                            show((a, m.select_distinct(&pop, rng, 3, &pop[pop.len() - 1]).map(|x| x.0)))
                        })
                    });
                }
            }
        }
        for k in 0..4 {
            c.add("Population", format!("{:?}", scores(k)), false, move || {
                let mut p = Population::new(scored(&scores(k)));
                let a = format!("{:?} {:?}", &p[..], p.stats());
                p.replace(&mut scored(&scores((k + 1) % 4)));
                format!("{a} {:?} {:?} {} {}", &p[..], p.stats(), p.generation(), p.stagnation())
            });
            c.add("Population::try_from", format!("{:?} twice", scores(k)), false, move || {
                let list = scored(&scores(k)).into_iter().chain(scored(&scores(k))).collect::<Vec<_>>();
                let p = Population::try_from(list).ok().unwrap();
                format!("{:?} {:?}", &p[..], p.stats())
            });
            c.add("Stats", format!("{:?}", scores(k)), false, move || {
                let mut s: Stats = scores(k).into_iter().collect();
                let a = format!("{s:?}");
                s.record(0.5);
                format!("{a} {s:?} {s:.2}")
            });
            c.add("IndividualWrapper", format!("{:?}", scores(k)), false, move || {
                let mut h: std::collections::BinaryHeap<_> = scored(&scores(k)).into_iter().map(IndividualWrapper::from).collect();
                show(std::iter::from_fn(|| h.pop().map(|x| x.take().fit)).collect::<Vec<_>>())
            });
        }
        c.add("Population::try_from", "empty".to_string(), false, || show(Population::<F>::try_from(vec![]).is_err()));
        c.add("Stats", "empty".to_string(), false, || show(Stats::default()));
        for r in [0.0, 0.3, 1.0] {
            for (a, b) in [(2.0, 5.0), (2.0, 7.5), (1.0, 5.0)] {
                c.add("interpolate_f64", format!("{a}, {b}, {r}"), false, move || show(interpolate_f64(a, b, r)));
                c.add("interpolate_usize", format!("{a}, {b}, {r}"), false, move || show(interpolate_usize(a as usize * 10, b as usize * 10, r)));
            }
        }
        for (k, length) in [1usize, 8, 9, 70].into_iter().enumerate() {
            c.add("OneMax::new_random", format!("{length}"), false, move || under(Pattern::Weyl(k as u64 + 1), |rng| show(OneMax::new_random(&length, rng).genome())));
            c.add("OneMaxEvolutionModel::evaluate", format!("{length}"), false, move || {
                let mut i = OneMax::from((0..length).map(|i| i % 3 == 0).collect::<Vec<_>>());
                OneMaxEvolutionModel.evaluate(&mut i);
                show(i.fitness())
            });
        }
        for n in [1, 3, 10] {
            for adaptive in [false, true] {
                for p in [Pattern::Weyl(1), Pattern::Weyl(3)] {
                    for how in 0..4 {
                        let what = if adaptive { "AdaptiveGeneticAlgorithm" } else { "GeneticAlgorithm" };
                        c.add(what, format!("{n} individuals, draws {p:?}, variant {how}"), false, move || {
                            let mut cfg = Cfg::new(adaptive, n, 0.1);
                            cfg.strategy = if n == 3 { SelectionStrategy::Boltzmann(10.0, 0.9) } else { SelectionStrategy::RouletteWheel };
                            if how > 1 {
                                // the same size, other rates
                                cfg.elitism = 0.7;
                                cfg.cross = (0.25, 0.375);
                                cfg.mutation = (0.5, 1.0);
                            }
                            under(p, |_| {
                                let mut seen = Vec::new();
                                let progress = |p: &Population<F>| {
                                    seen.push(p.iter().map(|i| i.id).collect::<Vec<_>>());
                                    seen.len() < 5
                                };
                                macro_rules! go {
                                    ($e:expr, $p:expr) => {
                                        if how % 2 == 0 {
                                            $e.evolve_individual(F { id: 3, fit: 0.0 }, $p, progress)
                                        } else {
                                            $e.evolve_population(scored(&vec![0.0; n + 2]), $p, progress).take_fittest()
                                        }
                                    };
                                }
                                let r = if adaptive { go!(AdaptiveGeneticAlgorithm::build_evolution(Tiny), &cfg.aga()) } else { go!(GeneticAlgorithm::build_evolution(Tiny), &cfg.ga()) };
                                show((r, seen))
                            })
                        });
                    }
                }
            }
        }
        // calls that fail on the way
        type Crossing = fn(&[usize], &[usize]) -> Vec<usize>;
        for (name, f) in [
            ("sequential_constructive_crossover", (|a, b| sequential_constructive_crossover(a, b, a[0])) as Crossing),
            ("edge_recombination_crossover", |a, b| edge_recombination_crossover(a, b, a[0])),
            ("partially_mapped_crossover", |a, b| partially_mapped_crossover(a, b, 1..3)),
            ("order_crossover", |a, b| order_crossover(a, b, 1..a.len() + 1)),
            ("cycle_crossover", |a, b| cycle_crossover(a, b)),
            ("single_point_crossover", |a, b| single_point_crossover(a, b, 1)),
            ("generalized_partition_2_crossover", |a, b| generalized_partition_2_crossover(a, b, |last, p| if last.is_some() { panic!("planned") } else { p.len() - 1 })),
        ] {
            c.illegal(name, "parents of different genes", move || show(f(&[0, 1, 2, 3, 4, 5, 6, 7], &[1, 0, 3, 8, 9, 5, 7, 6])));
            c.illegal(name, "parents of different lengths", move || show(f(&[0, 1, 2, 3, 4, 5], &[3, 0, 4, 1, 5, 2, 6, 7])));
        }
        for adaptive in [false, true] {
            let what = if adaptive { "AdaptiveGeneticAlgorithm" } else { "GeneticAlgorithm" };
            for (n, at) in [(3, 1), (3, 4), (10, 15), (10, 17)] {
                for place in 0..3 {
                    c.illegal(what, &format!("{n} individuals, operation {place} panics for the {at}. time"), move || {
                        under(Pattern::Weyl(1), |_| {
                            let cfg = Cfg::new(adaptive, n, 0.7);
                            let m = Failing { place, left: std::sync::atomic::AtomicUsize::new(at) };
                            let mut left = 5;
                            let progress = |_: &Population<F>| {
                                left -= 1;
                                left > 0
                            };
                            let start = scored(&vec![0.0; n]);
                            show(if adaptive { AdaptiveGeneticAlgorithm::build_evolution(m).evolve_population(start, &cfg.aga(), progress) } else { GeneticAlgorithm::build_evolution(m).evolve_population(start, &cfg.ga(), progress) }.take_fittest())
                        })
                    });
                }
            }
        }
        c.illegal("Stats", "display without room", || {
            struct Full(usize);
            impl std::fmt::Write for Full {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
                    Ok(())
                }
            }
            use std::fmt::Write;
            show(write!(Full(12), "{:.3}", [1.0, 2.5, 7.25].into_iter().collect::<Stats>()))
        });
        // rejected
        c.add("GeneticAlgorithm", "no individuals".to_string(), false, || show(GeneticAlgorithm::build_evolution(Tiny).evolve_individual(F { id: 1, fit: 0.0 }, &Cfg::new(false, 0, 0.0).ga(), |_| false)));
        c
    })
}
/// One call with the hash keys of a new thread. Nothing if it depends on keys that cannot be set.
fn call(k: usize, settable: bool) -> Option<String> {
    let c = &catalog().calls[k];
    if c.keys && !settable {
        return None;
    }
    keys::rewind();
    Some(catch(|| (c.f)()).unwrap_or_else(|_| "panic".to_string()))
}
/// Runs f on a new thread with an explorer context of its own.
fn on_new_thread<T: Send>(f: impl FnOnce(bool) -> T + Send) -> Option<T> {
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut ctx = Ctx::new(&Opts::default(), &[]);
            set_current(&mut ctx);
            let settable = keys::reset();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(settable)));
            set_current(std::ptr::null_mut());
            r.ok()
        })
        .join()
        .ok()
        .flatten()
    })
}
/// `mc F01 --call <number>`: the result of one call as the first one of a process.
pub fn first_call(k: usize) {
    let r = on_new_thread(|settable| call(k, settable));
    match r {
        // on threads that the explorer does not control
        _ if FOREIGN.load(std::sync::atomic::Ordering::SeqCst) != 0 => print!("~"),
        Some(Some(s)) => print!("={s}"),
        _ => (),
    }
}
/// Calls that run on threads which the explorer does not control.
static ELSEWHERE: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
/// What every call gives as the first one of a new process.
fn expected() -> &'static [Option<String>] {
    static E: OnceLock<Vec<Option<String>>> = OnceLock::new();
    E.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        let n = catalog().calls.len();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out = std::sync::Mutex::new(vec![None; n]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= n {
                        break;
                    }
                    if catalog().calls[k].illegal {
                        continue;
                    }
                    let o = std::process::Command::new(&exe).args(["F01", "--call", &k.to_string()]).env("MC_CHILD", "1").output().expect("cannot start the explorer");
                    if let Some(s) = String::from_utf8_lossy(&o.stdout).strip_prefix('=') {
                        out.lock().unwrap()[k] = Some(s.to_string());
                    } else if o.stdout.starts_with(b"~") {
                        ELSEWHERE.lock().unwrap().push(k);
                    }
                });
            }
        });
        out.into_inner().unwrap()
    })
}
/// Makes these calls (numbers and how often), and compares the last ones with the expected result.
fn history(list: &[(usize, usize)]) -> Result<(), String> {
    let c = catalog();
    let last = list[list.len() - 1].0;
    if c.calls[last].illegal {
        skip()
    }
    let got = on_new_thread(|settable| {
        let mut last = None;
        for &(k, times) in list {
            for _ in 0..times {
                last = call(k, settable);
                last.as_ref()?;
            }
        }
        last
    });
    let (Some(Some(got)), Some(e)) = (got, &expected()[last]) else { skip() };
    state(&(last, &got));
    let calls = || list.iter().map(|(k, t)| if *t == 1 { c.calls[*k].name.clone() } else { format!("{t} times {}", c.calls[*k].name) }).collect::<Vec<_>>();
    sample(|| format!("{:?} -> {:.200}", calls(), got));
    ensure!(got == *e, "calls {:?}: the last one gives {got:.1000}, but {e:.1000} as the first call of a process", calls());
    Ok(())
}

pub fn f01(r: &Runner) {
    let n = catalog().calls.len();
    let none = expected().iter().enumerate().filter(|(k, e)| e.is_none() && !catalog().calls[*k].illegal).count();
    let families = catalog().families.len();
    let member = |f: usize, k: usize| {
        let of: Vec<usize> = (0..n).filter(|&i| catalog().calls[i].family == f).collect();
        of[k % of.len()]
    };
    let size = |f: usize| catalog().calls.iter().filter(|c| c.family == f).count();
    r.explore("all calls as first ones", Opts::default(), || {
        let k = choose(n);
        // where hash keys cannot be set, calls that depend on them are left out
        ensure!(catalog().calls[k].illegal || expected()[k].is_some() || ELSEWHERE.lock().unwrap().contains(&k) || none > 0 && catalog().calls[k].keys, "{} does not end in a process of its own", catalog().calls[k].name);
        history(&[(k, 1)])
    });
    r.explore("all pairs of calls", Opts::default(), || history(&[(choose(n), 1), (choose(n), 1)]));
    r.explore("triples of the same operation", Opts::default(), || {
        let f = choose(families);
        let m = size(f);
        history(&[(member(f, choose(m)), 1), (member(f, choose(m)), 1), (member(f, choose(m)), 1)])
    });
    r.explore("triples of operations", Opts::default(), || {
        let m = if r.thorough { 3 } else { 1 };
        let mut one = || member(choose(families), if m > 1 { 2 * choose(m) } else { 4 });
        let l = [(one(), 1), (one(), 1), (one(), 1)];
        history(&l)
    });
    r.explore("many calls before", Opts::default(), || {
        let f = choose(families);
        let m = size(f);
        // the calls that are repeated: every one (thorough) or eight of each operation
        let few = if r.thorough { m } else { m.min(8) };
        let (a, b) = (member(f, choose(few) * m / few), member(f, choose(m)));
        let mut times = vec![2, 3, 7, 15, 16, 31, 63, 64, 99, 100, 127, 255, 256];
        if r.thorough {
            times.extend([511, 999, 1000, 1023, 4095]);
        }
        let times = pick(&times);
        let heavy = |k: usize| catalog().calls[k].name.contains("300");
        if times > 100 && (heavy(a) || heavy(b)) && !r.thorough {
            skip()
        }
        history(&[(a, times), (b, 1)])
    });
    if r.thorough {
        r.explore("very many calls before", Opts::default(), || {
            let f = choose(families);
            let m = size(f);
            let (a, b) = (member(f, m / 2), member(f, choose(m.min(3))));
            history(&[(a, 66_000), (b, 1)])
        });
    }
}
