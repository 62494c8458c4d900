//! Whole runs of the two algorithms on scripted models.
use crate::engine::*;
use crate::ensure;
use crate::hook::{yield_point, McRng};
use crate::models::*;
use crate::util::upto;
use rand::Rng;
use rusty_genes::*;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub type Selector = Box<dyn SelectionMechanism<F, McRng>>;
/// What a breeding is given.
pub struct Given<'p> {
    pub cross: f64,
    pub mutation: f64,
    pub selector: &'p dyn SelectionMechanism<F, McRng>,
}

/// The callbacks of a run.
pub struct Calls<'a> {
    pub breed: &'a (dyn Fn(&Population<F>, &Given, &mut McRng) -> F + Sync),
    pub evaluate: &'a (dyn Fn(&mut F) + Sync),
    pub mutate: &'a (dyn Fn(&mut F, &mut McRng) + Sync),
    pub hook: &'a (dyn Fn(&Population<F>, &mut f64, &mut f64, &mut Selector) + Sync),
}
/// A model with breeding of its own.
pub struct Own<'a>(pub &'a Calls<'a>);
impl EvolutionModel for Own<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, _: &F, _: &mut McRng) -> F {
        *a
    }
    fn mutate(&self, i: &mut F, rng: &mut McRng) {
        (self.0.mutate)(i, rng)
    }
    fn evaluate(&self, i: &mut F) {
        (self.0.evaluate)(i)
    }
    fn pre_generation(&mut self, p: &Population<F>, b: &mut ReproductionParameters<Self>) {
        (self.0.hook)(p, &mut b.crossover_rate, &mut b.mutation_rate, &mut b.parent_selector)
    }
    fn breed(&self, p: &Population<F>, b: &ReproductionParameters<Self>, rng: &mut McRng) -> F {
        (self.0.breed)(p, &Given { cross: b.crossover_rate, mutation: b.mutation_rate, selector: &*b.parent_selector }, rng)
    }
}

/// Arguments for random individuals.
pub struct Args<'a> {
    pub token: u32,
    pub make: &'a (dyn Fn(u32) -> F + Sync),
}
impl RandomIndividual<Args<'_>> for F {
    fn new_random<R: Rng>(a: &Args<'_>, _: &mut R) -> F {
        (a.make)(a.token)
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub adaptive: bool,
    pub n: usize,
    pub elitism: f64,
    pub cross: (f64, f64),
    pub mutation: (f64, f64),
    pub interval: usize,
    pub strategy: SelectionStrategy,
}
impl Cfg {
    pub fn new(adaptive: bool, n: usize, elitism: f64) -> Self {
        Cfg { adaptive, n, elitism, cross: (0.5, 0.75), mutation: (0.25, 0.5), interval: 1, strategy: SelectionStrategy::Tournament(2) }
    }
    pub fn ga(&self) -> GeneticAlgorithmParameters {
        GeneticAlgorithmParameters {
            population_size: self.n,
            elitism_rate: self.elitism,
            crossover_rate: self.cross.0,
            mutation_rate: self.mutation.0,
            selection_strategy: self.strategy,
        }
    }
    pub fn aga(&self) -> AdaptiveGeneticAlgorithmParameters {
        AdaptiveGeneticAlgorithmParameters {
            population_size: self.n,
            elitism_rate: self.elitism,
            crossover_rate_range: self.cross.0..self.cross.1,
            mutation_rate_range: self.mutation.0..self.mutation.1,
            selection_strategy: self.strategy,
            parameter_adjustment_interval: self.interval,
        }
    }
}
pub enum Start<'a> {
    Random(&'a Args<'a>),
    From(F),
    List(Vec<F>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Best(F),
    All(Vec<F>, usize, usize),
}
pub fn go<A: EvolutionAlgorithm<M>, M: EvolutionModel<Individual = F>>(
    e: &Evolution<A, M>,
    p: &A::Parameters,
    start: Start,
    progress: impl FnMut(&Population<F>) -> bool,
) -> End {
    match start {
        Start::Random(a) => End::Best(e.run(a, p, progress)),
        Start::From(i) => End::Best(e.evolve_individual(i, p, progress)),
        Start::List(v) => {
            let p = e.evolve_population(v, p, progress);
            End::All(p.to_vec(), p.generation(), p.stagnation())
        }
    }
}
/// A run on a new evolution object.
pub fn run(cfg: &Cfg, calls: &Calls, start: Start, progress: impl FnMut(&Population<F>) -> bool) -> Result<End, String> {
    catch(|| {
        if cfg.adaptive {
            go(&AdaptiveGeneticAlgorithm::build_evolution(Own(calls)), &cfg.aga(), start, progress)
        } else {
            go(&GeneticAlgorithm::build_evolution(Own(calls)), &cfg.ga(), start, progress)
        }
    })
}
pub fn nothing(_: &Population<F>, _: &mut f64, _: &mut f64, _: &mut Selector) {}

// -------------------------------------------------------------------------------------------- E01

/// Validity of individual number i, as the pattern says.
fn validity(pattern: usize, i: u32) -> f64 {
    let bad = BAD[i as usize % 4];
    let good = (i * 7 % 11) as f64 - 3.0;
    match pattern {
        0 => good,
        1 if i % 2 == 0 => bad,
        2 if i != 0 => bad,
        3 => bad,
        4 if i % 7 != 3 => bad,
        5 if i == 0 => bad,
        _ => good,
    }
}

fn initial(cfg: &Cfg, how: usize, list: Vec<F>, judge_value: &(dyn Fn(u32) -> f64 + Sync), same: u8) -> Result<(), String> {
    const ORIGINAL: F = F { id: 500_000, fit: 123.0 };
    let created = Mutex::new(Vec::<u32>::new());
    let evaluated = Mutex::new(Vec::<(F, F)>::new());
    let mutated = Mutex::new(Vec::<(F, F)>::new());
    let first: Mutex<Option<(Vec<F>, usize, usize)>> = Mutex::new(None);
    let serial = AtomicU32::new(0);
    // 0: all different, 1: all equal, 2: mutations change nothing, 3: every other mutation changes nothing
    let fresh = || if same == 1 { 0 } else { serial.fetch_add(1, SeqCst) };
    let make = |token: u32| {
        yield_point();
        created.lock().unwrap().push(token);
        F { id: fresh(), fit: f64::NAN }
    };
    let args = Args { token: 4711, make: &make };
    let calls = Calls {
        breed: &|p, _, _| p[0],
        evaluate: &|i| {
            let before = *i;
            yield_point();
            i.fit = judge_value(if i.id >= 500_000 { i.id - 500_000 } else { i.id });
            evaluated.lock().unwrap().push((before, *i));
        },
        mutate: &|i, _| {
            let before = *i;
            yield_point();
            // numbers from 1 on: the original is number 0
            if same != 2 && !(same == 3 && mutated.lock().unwrap().len() % 2 == 0) {
                i.id = 500_001 + fresh();
                i.fit = f64::NAN;
            }
            mutated.lock().unwrap().push((before, *i));
        },
        hook: &nothing,
    };
    let start = match how {
        0 => Start::Random(&args),
        1 => Start::From(ORIGINAL),
        _ => Start::List(list.clone()),
    };
    let res = run(cfg, &calls, start, |p| {
        let mut f = first.lock().unwrap();
        if f.is_none() {
            *f = Some((p.to_vec(), p.generation(), evaluated.lock().unwrap().len()));
        }
        false
    });
    let (created, evaluated, mutated, first) =
        (created.into_inner().unwrap(), evaluated.into_inner().unwrap(), mutated.into_inner().unwrap(), first.into_inner().unwrap());
    let what = format!("{} of {cfg:?}", ["random run", "run from an individual", "run from a list"][how]);
    let n = if how == 2 { list.len() } else { cfg.n };
    if how == 0 {
        ensure!(created.len() == n && created.iter().all(|t| *t == 4711), "{what}: random individuals were made with the arguments {created:?}");
    } else {
        ensure!(created.is_empty(), "{what}: random individuals were created");
    }
    ensure!(evaluated.len() == n, "{what}: {} evaluations of {n} individuals", evaluated.len());
    let key = |i: &F| (i.id, i.fit.to_bits());
    let sorted = |v: Vec<F>| {
        let mut k: Vec<_> = v.iter().map(key).collect();
        k.sort();
        k
    };
    let expected: Vec<F> = match how {
        0 => (0..n as u32).map(|i| F { id: if same == 1 { 0 } else { i }, fit: f64::NAN }).collect(),
        1 => {
            ensure!(mutated.len() == n - 1, "{what}: {} mutations for {n} individuals", mutated.len());
            ensure!(mutated.iter().all(|m| m.0 == ORIGINAL), "{what}: mutations of {:?}", mutated.iter().map(|m| m.0).collect::<Vec<_>>());
            mutated.iter().map(|m| m.1).chain([ORIGINAL]).collect()
        }
        _ => list.clone(),
    };
    ensure!(
        sorted(evaluated.iter().map(|e| e.0).collect()) == sorted(expected.clone()),
        "{what}: evaluated were {:?}, expected {expected:?}",
        evaluated.iter().map(|e| e.0).collect::<Vec<_>>()
    );
    let valid: Vec<F> = evaluated.iter().map(|e| e.1).filter(|i| i.is_valid()).collect();
    state(&(how, n, &sorted(valid.clone()), cfg.adaptive));
    if valid.is_empty() {
        ensure!(res.is_err() && first.is_none(), "{what}: no individual is valid, but the run gives {res:?}, reported {first:?}");
        return Ok(());
    }
    ensure!(res.is_ok(), "{what}: panicked: {res:?}, valid were {valid:?}");
    let Some((pop, generation, count)) = first else { return Err(format!("{what}: nothing was reported")) };
    ensure!(generation == 0, "{what}: the first population has generation {generation}");
    ensure!(count == n, "{what}: {count} individuals of {n} were evaluated before the first report");
    let mut v = sorted(valid);
    v.dedup();
    ensure!(sorted(pop.clone()) == v, "{what}: the first population is {pop:?}");
    sample(|| format!("{what}: {} individuals evaluated, first population {:?}", n, &pop[..pop.len().min(6)]));
    Ok(())
}

pub fn e01(r: &Runner) {
    let max = if r.thorough { 9 } else { 7 };
    r.explore("every validity pattern", Opts::default(), || {
        let n = 1 + choose(max);
        let bits = choose(1 << n);
        let how = choose(3);
        let cfg = Cfg::new(flag(), if how == 2 { 1 + choose(4) } else { n }, pick(&[0.0, 0.5]));
        let list = (0..n as u32).map(|id| F { id, fit: f64::NAN }).collect();
        initial(&cfg, how, list, &|i| if bits >> i & 1 == 0 { i as f64 - 2.0 } else { BAD[i as usize % 4] }, 0)
    });
    r.explore("larger populations", Opts::default(), || {
        let n = upto(8, 70, &[100, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000]);
        let pattern = choose(6);
        let how = choose(3);
        let cfg = Cfg::new(flag(), if how == 2 { pick(&[1, 10, 200]) } else { n }, 0.0);
        set_workers(pick(&[1, 4, 16]));
        let order = choose(2) as u8;
        with(|c| c.join_order = order);
        let list = (0..n as u32).map(|id| F { id, fit: 0.25 }).collect();
        initial(&cfg, how, list, &|i| validity(pattern, i), 0)
    });
    r.explore("huge populations", Opts::default(), || {
        let n = pick(&[65_535, 65_537, 100_000]);
        let how = choose(3);
        let cfg = Cfg::new(flag(), if how == 2 { 10 } else { n }, 0.0);
        set_workers(4);
        let list = (0..n as u32).map(|id| F { id, fit: 0.25 }).collect();
        initial(&cfg, how, list, &|i| if i % 7 == 3 { BAD[i as usize % 4] } else { i as f64 }, 0)
    });
    r.explore("equal individuals", Opts::default(), || {
        let n = 1 + choose(5);
        let how = choose(2);
        let cfg = Cfg::new(flag(), n, 0.0);
        initial(&cfg, how, vec![], &|_| 1.0, pick(&[1, 2, 3]))
    });
    for p in if r.thorough { vec![1, 2] } else { vec![1] } {
        r.explore(&format!("schedules with up to {p} preemptions"), Opts { preemptions: Some(p), ..Default::default() }, || {
            let n = 1 + choose(if p == 1 { 4 } else { 3 });
            let how = choose(3);
            let cfg = Cfg::new(false, if how == 2 { 2 } else { n }, 0.0);
            let pattern = pick(&[0, 1, 3]);
            set_workers(2);
            let list = (0..n as u32).map(|id| F { id, fit: f64::NAN }).collect();
            initial(&cfg, how, list, &|i| validity(pattern, i), 0)
        });
    }
}

// -------------------------------------------------------------------------------------------- E02

/// Judges one generation step: `k` elites of `old`, the bred individuals, the new population.
fn step(k: usize, n: usize, old: &[F], bred: &[F], new: &[F]) -> Result<(), String> {
    let k = k.min(old.len());
    let has = |v: &[F], x: &F| v.iter().any(|y| y == x);
    ensure!(!new.is_empty() && new.len() <= n, "the new population has {} individuals", new.len());
    ensure!(bred.len() == n.saturating_sub(k), "{} breedings, {} were missing to {n}", bred.len(), n.saturating_sub(k));
    for i in 0..new.len() {
        ensure!(!new[i + 1..].contains(&new[i]), "{:?} is contained twice", new[i]);
    }
    ensure!(bred.iter().all(|b| has(new, b)), "the bred individual {:?} is lost", bred.iter().find(|b| !has(new, b)));
    let mut sorted = old.to_vec();
    sorted.sort_by(|a, b| b.fit.partial_cmp(&a.fit).unwrap());
    if k == 0 {
        ensure!(new.iter().all(|x| has(bred, x)), "{:?} is neither an elite nor bred", new.iter().find(|x| !has(bred, x)));
        return Ok(());
    }
    let bound = sorted[k - 1].fit;
    let sure: Vec<F> = sorted.iter().copied().filter(|i| i.fit > bound).collect();
    let ties: Vec<F> = sorted.iter().copied().filter(|i| i.fit == bound).collect();
    let wanted = k - sure.len();
    ensure!(sure.iter().all(|i| has(new, i)), "the elite {:?} is lost", sure.iter().find(|i| !has(new, i)));
    let kept = ties.iter().filter(|i| has(new, i)).count();
    let only_elite = ties.iter().filter(|i| has(new, i) && !has(bred, i)).count();
    ensure!(kept >= wanted, "only {kept} of the {wanted} elites with fitness {bound} are kept");
    ensure!(only_elite <= wanted, "{only_elite} instead of {wanted} individuals with fitness {bound} are kept");
    for x in new {
        ensure!(has(bred, x) || has(&sure, x) || has(&ties, x), "{x:?} is neither an elite nor bred");
    }
    Ok(())
}

/// A run of `generations` generations; judges every step.
fn compose(cfg: &Cfg, k: usize, list: Vec<F>, generations: usize, breed: &(dyn Fn(&Population<F>, u32) -> F + Sync), pairwise: bool) -> Result<(), String> {
    let bred = Mutex::new(Vec::<F>::new());
    let serial = AtomicU32::new(0);
    let calls = Calls {
        breed: &|p, _, _| {
            let x = breed(p, serial.fetch_add(1, SeqCst));
            bred.lock().unwrap().push(x);
            x
        },
        evaluate: &|_| {},
        mutate: &|_, _| {},
        hook: &nothing,
    };
    let mut last: Option<Vec<F>> = None;
    let mut bad: Option<String> = None;
    let mut count = 0;
    let res = run(cfg, &calls, Start::List(list.clone()), |p| {
        let new = p.to_vec();
        let b = std::mem::take(&mut *bred.lock().unwrap());
        if let Some(old) = &last {
            let r = if pairwise { step(k, cfg.n, old, &b, &new) } else { quick_step(k, cfg.n, old, &b, &new) };
            if let Err(m) = r {
                bad = Some(format!(
                    "{cfg:?}, generation {}: {:?} and bred {:?} give {:?}: {m}",
                    p.generation(),
                    &old[..old.len().min(12)],
                    &b[..b.len().min(12)],
                    &new[..new.len().min(12)]
                ));
                return false;
            }
            if k > 0 {
                let best = |v: &[F]| v.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
                if best(&new) < best(old) {
                    bad = Some(format!("{cfg:?}, generation {}: the best fitness decreases from {} to {}", p.generation(), best(old), best(&new)));
                    return false;
                }
            }
        }
        if pairwise {
            state(&new.iter().map(|i| (i.id, i.fit.to_bits())).collect::<Vec<_>>());
        }
        last = Some(new);
        count += 1;
        count <= generations
    });
    if let Some(m) = bad {
        return Err(m);
    }
    ensure!(res.is_ok(), "{cfg:?}: the run panicked: {res:?}, last population {last:?}");
    ensure!(count == generations + 1, "{cfg:?}: {count} reports");
    sample(|| format!("{cfg:?}: last population {:?}", last.as_ref().map(|l| l[..l.len().min(8)].to_vec())));
    Ok(())
}
/// The same for individuals with distinct numbers and scores (fast).
fn quick_step(k: usize, n: usize, old: &[F], bred: &[F], new: &[F]) -> Result<(), String> {
    let k = k.min(old.len());
    ensure!(bred.len() == n.saturating_sub(k), "{} breedings, {} were missing to {n}", bred.len(), n.saturating_sub(k));
    let mut e = old.to_vec();
    e.sort_by(|a, b| b.fit.partial_cmp(&a.fit).unwrap());
    e.truncate(k);
    e.extend(bred);
    let sort = |mut v: Vec<F>| {
        v.sort_by(|a, b| (a.fit, a.id).partial_cmp(&(b.fit, b.id)).unwrap());
        v
    };
    let (e, g) = (sort(e), sort(new.to_vec()));
    ensure!(e == g, "{} individuals, expected {}; first difference {:?}", g.len(), e.len(), e.iter().zip(&g).find(|(a, b)| a != b));
    Ok(())
}

/// Elitism rates whose number of elites is beyond doubt.
fn elitism(n: usize) -> (f64, usize) {
    let mut v: Vec<(f64, usize)> = vec![(0.0, 0), (0.5, n / 2), (0.25, n / 4), (0.75, n * 3 / 4), (63.0 / 64.0, n * 63 / 64)];
    for j in [0, 1, n / 3, n - 1] {
        v.push(((j.min(n - 1) as f64 + 0.5) / n as f64, j.min(n - 1)));
    }
    if n == 100 {
        v.push((0.01, 1));
    }
    v.dedup();
    pick(&v)
}

pub fn e02(r: &Runner) {
    let g = if r.thorough { 3 } else { 2 };
    r.explore("small populations", Opts::default(), || {
        let n = 1 + choose(if r.thorough { 4 } else { 3 });
        let k = choose(n);
        let cfg = Cfg::new(flag(), n, (k as f64 + 0.5) / n as f64);
        let lists: [&[f64]; 5] = [&[1.0], &[1.0, 2.0], &[2.0, 2.0], &[1.0, 2.0, 2.0], &[0.0, 1.0, 2.0, 3.0, 4.0]];
        let list = scored(lists[choose(lists.len())]);
        compose(
            &cfg,
            k,
            list,
            if n > 2 { g - 1 } else { g },
            &|p, serial| match choose(5) {
                0 => F { id: 100 + serial, fit: 2.0 },
                1 => F { id: 100 + serial, fit: 0.5 },
                2 => F { id: 100 + serial, fit: 9.0 + serial as f64 },
                3 => p[p.len() - 1],
                _ => p[0],
            },
            true,
        )
    });
    r.explore("sizes and elite counts", Opts::default(), || {
        let n = upto(1, if r.thorough { 140 } else { 70 }, &[100, 127, 128, 129, 256, 257]);
        let (e, k) = elitism(n);
        let cfg = Cfg::new(flag(), n, e);
        let m = pick(&[1, n / 2 + 1, n, n + 5]);
        let shape = choose(4);
        let list: Vec<F> = (0..m).map(|i| F { id: i as u32, fit: i as f64 }).collect();
        set_workers(pick(&[1, 3, 8]));
        compose(
            &cfg,
            k,
            list,
            3,
            &|p, s| match shape {
                0 => F { id: 1000 + s, fit: s as f64 * 0.5 },
                1 => F { id: 1000 + s, fit: -(s as f64) },
                2 => F { id: 1000 + s % 5, fit: (s % 5) as f64 },
                _ => p[s as usize % p.len()],
            },
            true,
        )
    });
    r.explore("large populations", Opts::default(), || {
        let n = pick(&[500, 999, 1000, 1001, 2000, 2500]);
        let (e, k) = elitism(n);
        let cfg = Cfg::new(flag(), n, e);
        let list: Vec<F> = (0..pick(&[1, n, n + 100])).map(|i| F { id: i as u32, fit: i as f64 }).collect();
        set_workers(4);
        compose(&cfg, k, list, 3, &|_, s| F { id: 10_000 + s, fit: ((s * 7919) % 1_000_003) as f64 + 0.5 }, false)
    });
    r.explore("huge populations", Opts::default(), || {
        let n = pick(&[65_535, 65_536, 65_537, 100_000]);
        let (e, k) = elitism(n);
        let cfg = Cfg::new(flag(), n, e);
        let list: Vec<F> = (0..pick(&[1, n])).map(|i| F { id: i as u32, fit: i as f64 }).collect();
        set_workers(4);
        compose(&cfg, k, list, 2, &|_, s| F { id: 200_000 + s, fit: ((s as u64 * 7919) % 1_000_003) as f64 + 0.5 }, false)
    });
    r.explore("long runs", Opts::default(), || {
        let n = 1 + choose(6);
        let (e, k) = elitism(n);
        let cfg = Cfg::new(flag(), n, e);
        let shape = choose(4);
        compose(
            &cfg,
            k,
            scored(&[1.0, 2.0]),
            pick(&[60, 270, 600]),
            &|_, s| F {
                id: 100 + s,
                fit: match shape {
                    0 => s as f64,
                    1 => -(s as f64),
                    2 => (s % 13) as f64,
                    _ => 1.0,
                },
            },
            true,
        )
    });
}

// -------------------------------------------------------------------------------------------- E03

fn result_of(cfg: &Cfg, how: usize, generations: usize, first: &(dyn Fn(u32) -> f64 + Sync), later: &(dyn Fn(u32) -> f64 + Sync)) -> Result<(), String> {
    let serial = AtomicU32::new(0);
    let next = || serial.fetch_add(1, SeqCst);
    let make = |_| F { id: next(), fit: f64::NAN };
    let args = Args { token: 0, make: &make };
    let initial = AtomicU32::new(0);
    let evaluated = Mutex::new(Vec::new());
    let calls = Calls {
        breed: &|_, _, _| {
            let s = next();
            F { id: 1000 + s, fit: later(s) }
        },
        evaluate: &|i| {
            i.fit = first(initial.fetch_add(1, SeqCst));
            evaluated.lock().unwrap().push(*i);
        },
        mutate: &|i, _| i.id = 2000 + next(),
        hook: &nothing,
    };
    let start = match how {
        0 => Start::Random(&args),
        1 => Start::From(F { id: 77, fit: 0.0 }),
        _ => Start::List((0..cfg.n as u32 + 1).map(|i| F { id: i, fit: 0.0 }).collect()),
    };
    let mut seen: Vec<F> = Vec::new();
    let mut last = (vec![], 0, 0);
    let mut count = 0;
    let res = run(cfg, &calls, start, |p| {
        seen.extend(p.iter());
        last = (p.to_vec(), p.generation(), p.stagnation());
        count += 1;
        count <= generations
    });
    let what = || format!("{} of {cfg:?}, {generations} generations, reported {:?}", ["random run", "run from an individual", "run from a list"][how], &seen[..seen.len().min(40)]);
    let end = match res {
        Ok(e) => e,
        Err(m) => {
            if evaluated.lock().unwrap().iter().all(|i| !i.is_valid()) {
                return Ok(());
            }
            return Err(format!("{}: panicked: {m}", what()));
        }
    };
    state(&(how, generations, seen.iter().take(200).map(|i| i.fit.to_bits()).collect::<Vec<_>>()));
    sample(|| format!("{} -> {end:?}", what()));
    let best = seen.iter().chain(evaluated.lock().unwrap().iter().filter(|i| i.is_valid())).map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
    match end {
        End::Best(x) => {
            ensure!(x.fit == best, "{}: returned {x:?}, but the best fitness was {best}", what());
            ensure!(seen.contains(&x), "{}: returned {x:?}, which was never reported", what());
        }
        End::All(v, g, s) => {
            ensure!((&v, g, s) == (&last.0, last.1, last.2), "{}: returned {v:?} of generation {g}, the last report was {last:?}", what());
        }
    }
    Ok(())
}

pub fn e03(r: &Runner) {
    let deep = if r.thorough { 5 } else { 4 };
    r.explore("fitness histories", Opts::default(), || {
        let n = 1 + choose(2);
        let cfg = Cfg::new(flag(), n, pick(&[0.0, 0.5]));
        let how = choose(3);
        let generations = choose(if n == 1 { deep + 2 } else { deep - 1 });
        result_of(&cfg, how, generations, &|_| pick(&[1.0, 2.0, -1.0, f64::NAN]), &|_| pick(&[0.0, 3.0, 1.0, 2.0]))
    });
    r.explore("three individuals", Opts::default(), || {
        let cfg = Cfg::new(flag(), 3, pick(&[0.0, 0.4]));
        result_of(&cfg, choose(3), choose(3), &|i| [2.0, -5.0, 2.0, 1.0][i as usize], &|_| pick(&[-7.0, 3.0, 2.0]))
    });
    r.explore("special scores", Opts::default(), || {
        let cfg = Cfg::new(flag(), 1, 0.0);
        let s = [f64::MAX, f64::MIN, 0.0, -0.0, 5e-324, -5e-324, 1.0, 1.0 + f64::EPSILON];
        result_of(&cfg, choose(2), choose(3), &|_| pick(&s), &|_| pick(&s))
    });
    r.explore("long runs", Opts::default(), || {
        let n = pick(&[1, 2, 3, 10]);
        let cfg = Cfg::new(flag(), n, pick(&[0.0, 0.34, 0.5]));
        let generations = pick(&[20, 300]);
        // the peak is bred after so many breedings
        let at = pick(&[0, 1, 2, 5, 19, 40, 100, 127, 128, 255, 256, 257, 299]) as u32;
        let shape = choose(3);
        let from = AtomicU32::new(0);
        result_of(&cfg, choose(3), generations, &|i| i as f64 - 50.0, &|_| {
            let k = from.fetch_add(1, SeqCst);
            let base = match shape {
                0 => -(k as f64),
                1 => (k % 7) as f64,
                _ => 0.0,
            };
            if k == at {
                100.0
            } else {
                base
            }
        })
    });
    r.explore("very long runs and huge populations", Opts::default(), || {
        let (n, generations) = pick(&[(1, 70_000), (2, 66_000), (70_000, 3)]);
        let cfg = Cfg::new(flag(), n, pick(&[0.0, 0.5]));
        // the peak: among the first ones, early, late, at the very end, none
        let all = (n - (n as f64 * cfg.elitism) as usize) * generations;
        let at = pick(&[0, 1, all / 2, all - all / 40, all - 1, usize::MAX]);
        let how = choose(3);
        let from = AtomicUsize::new(0);
        result_of(&cfg, how, generations, &|i| if at == 0 && i == 0 { 100.0 } else { -1.0 - i as f64 }, &|_| {
            let k = from.fetch_add(1, SeqCst);
            if k == at { 100.0 } else { -(k as f64) }
        })
    });
    r.explore("larger populations", Opts::default(), || {
        let n = upto(4, 70, &[100, 129, 257, 1000]);
        let cfg = Cfg::new(flag(), n, pick(&[0.0, 0.5]));
        let peak = choose(4) as u32;
        let from = AtomicU32::new(0);
        result_of(&cfg, choose(3), 4, &|i| if peak == 0 && i == 7 { 1e6 } else { i as f64 }, &|_| {
            let k = from.fetch_add(1, SeqCst);
            if peak > 0 && k == peak * 40 {
                1e6
            } else {
                (k * 31 % 1009) as f64
            }
        })
    });
}

// -------------------------------------------------------------------------------------------- E04

#[derive(Clone, Debug, PartialEq)]
enum Event {
    Report(usize, u64),
    Hook(u64),
    Prepare(u32, u64),
    Select(u32, u64),
    /// population, rates as seen
    Breed(u64, f64, f64),
    Evaluate,
    Other,
}
type Events = Mutex<Vec<Event>>;
/// A mark of the contents of a population.
pub fn mark(p: &[F]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = Fnv(0x9E37);
    for i in p {
        (i.id, i.fit.to_bits()).hash(&mut h);
    }
    h.finish()
}
struct Logging {
    number: u32,
    log: Arc<Events>,
}
impl SelectionMechanism<F, McRng> for Logging {
    fn prepare(&mut self, p: &Population<F>) {
        self.log.lock().unwrap().push(Event::Prepare(self.number, mark(p)))
    }
    fn select<'a>(&self, p: &'a Population<F>, _: &mut McRng) -> (usize, &'a F) {
        let mut log = self.log.lock().unwrap();
        let k = log.len() % p.len();
        log.push(Event::Select(self.number, mark(p)));
        (k, &p[k])
    }
}

/// A model that uses the default breeding.
struct Std<'a>(&'a Calls<'a>, &'a (dyn Fn() + Sync));
impl EvolutionModel for Std<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, b: &F, _: &mut McRng) -> F {
        (self.1)();
        F { id: a.id.wrapping_mul(31).wrapping_add(b.id.wrapping_mul(17)) | 1 << 20, fit: f64::NAN }
    }
    fn mutate(&self, i: &mut F, rng: &mut McRng) {
        (self.0.mutate)(i, rng)
    }
    fn evaluate(&self, i: &mut F) {
        (self.0.evaluate)(i)
    }
    fn pre_generation(&mut self, p: &Population<F>, b: &mut ReproductionParameters<Self>) {
        (self.0.hook)(p, &mut b.crossover_rate, &mut b.mutation_rate, &mut b.parent_selector)
    }
}

fn order_of_steps(cfg: &Cfg, own: bool, how: usize, decide: &(dyn Fn(usize) -> (bool, Option<f64>, Option<f64>) + Sync), goon: &dyn Fn(usize) -> bool) -> Result<(), String> {
    let log: Arc<Events> = Arc::new(Mutex::new(Vec::new()));
    let add = |e: Event| log.lock().unwrap().push(e);
    let serial = AtomicU32::new(0);
    let selectors = AtomicU32::new(0);
    // per hook call: rates after it, selector in force after it (0: not known)
    let after = Mutex::new(Vec::<(f64, f64, u32)>::new());
    let before = Mutex::new(Vec::<(f64, f64)>::new());
    let make = |_| F { id: serial.fetch_add(1, SeqCst), fit: 0.0 };
    let args = Args { token: 0, make: &make };
    let value = |id: u32| (id.wrapping_mul(2_654_435_761) >> 20) as f64;
    let calls = Calls {
        breed: &|p, g, rng| {
            add(Event::Breed(mark(p), g.cross, g.mutation));
            g.selector.select(p, rng);
            let id = 1000 + serial.fetch_add(1, SeqCst);
            F { id, fit: value(id) }
        },
        evaluate: &|i| {
            add(Event::Evaluate);
            i.fit = value(i.id);
        },
        mutate: &|i, _| {
            add(Event::Other);
            i.id = i.id.wrapping_mul(7).wrapping_add(3 + serial.fetch_add(1, SeqCst)) | 1 << 21;
        },
        hook: &|p, c, m, s| {
            add(Event::Hook(mark(p)));
            before.lock().unwrap().push((*c, *m));
            let mut a = after.lock().unwrap();
            let (replace, nc, nm) = decide(a.len());
            let mut in_force = a.last().map_or(0, |x| x.2);
            if replace {
                in_force = 1 + selectors.fetch_add(1, SeqCst);
                *s = Box::new(Logging { number: in_force, log: log.clone() });
            }
            if let Some(x) = nc {
                *c = x
            }
            if let Some(x) = nm {
                *m = x
            }
            a.push((*c, *m, in_force));
        },
    };
    let other = || add(Event::Other);
    let start = match how {
        0 => Start::Random(&args),
        1 => Start::From(F { id: 7, fit: 0.0 }),
        _ => Start::List((0..cfg.n as u32).map(|id| F { id, fit: 0.0 }).collect()),
    };
    let mut reports = Vec::new();
    let progress = |p: &Population<F>| {
        let go = goon(reports.len());
        reports.push(go);
        add(Event::Report(p.generation(), mark(p)));
        go
    };
    let res = if own {
        run(cfg, &calls, start, progress)
    } else {
        catch(|| {
            if cfg.adaptive {
                go(&AdaptiveGeneticAlgorithm::build_evolution(Std(&calls, &other)), &cfg.aga(), start, progress)
            } else {
                go(&GeneticAlgorithm::build_evolution(Std(&calls, &other)), &cfg.ga(), start, progress)
            }
        })
    };
    let log = log.lock().unwrap().clone();
    let after = after.into_inner().unwrap();
    let before = before.into_inner().unwrap();
    let shown = format!("{cfg:?}: {:?}", &log[..log.len().min(60)]);
    state(&shown);
    sample(|| shown.clone());
    ensure!(res.is_ok(), "{shown}: panicked: {res:?}");
    let at: Vec<usize> = (0..log.len()).filter(|&i| matches!(log[i], Event::Report(..))).collect();
    ensure!(!at.is_empty(), "{shown}: nothing was reported");
    ensure!(log[..at[0]].iter().all(|e| matches!(e, Event::Evaluate | Event::Other)), "{shown}: something happened before the first report");
    ensure!(*at.last().unwrap() == log.len() - 1, "{shown}: something happened after the last report");
    ensure!(reports.iter().rev().skip(1).all(|g| *g) && !reports[reports.len() - 1], "{shown}: decisions {reports:?}");
    for (g, w) in at.iter().enumerate() {
        let Event::Report(n, _) = log[*w] else { unreachable!() };
        ensure!(n == g, "{shown}: report {g} is about generation {n}");
    }
    for (g, w) in at.windows(2).enumerate() {
        let Event::Report(_, pop) = log[w[0]] else { unreachable!() };
        let part = &log[w[0] + 1..w[1]];
        let hooks: Vec<usize> = (0..part.len()).filter(|&i| matches!(part[i], Event::Hook(_))).collect();
        ensure!(hooks.len() == 1, "{shown}: the hook runs {} times in generation {g}", hooks.len());
        ensure!(part[hooks[0]] == Event::Hook(pop), "{shown}: the hook of generation {g} gets another population");
        let (c, m, selector) = after[g];
        let expected = if g == 0 { (cfg.cross.0, cfg.mutation.0) } else { (after[g - 1].0, after[g - 1].1) };
        // what the adaptive algorithm does is judged elsewhere
        ensure!(cfg.adaptive || before[g] == expected, "{shown}: generation {g} starts with the rates {:?}, expected {expected:?}", before[g]);
        let mut prepared = 0;
        for (i, e) in part.iter().enumerate() {
            match *e {
                Event::Prepare(s, p) if s == selector => {
                    ensure!(i > hooks[0], "{shown}: the selector is prepared before the hook of generation {g}");
                    ensure!(p == pop, "{shown}: the selector is prepared with another population in generation {g}");
                    prepared += 1;
                }
                Event::Select(s, p) => {
                    ensure!(s == selector, "{shown}: selector {s} is used in generation {g}, in force is {selector}");
                    ensure!(prepared == 1 && p == pop, "{shown}: an individual is selected from another population or before preparation in generation {g}");
                }
                Event::Breed(p, bc, bm) => {
                    ensure!(p == pop, "{shown}: breeding from another population in generation {g}");
                    ensure!(i > hooks[0] && (selector == 0 || prepared == 1), "{shown}: breeding before preparation in generation {g}");
                    ensure!((bc, bm) == (c, m), "{shown}: breeding with rates {bc} and {bm} in generation {g}, the hook left {c} and {m}");
                }
                Event::Evaluate | Event::Other => ensure!(i > hooks[0], "{shown}: breeding before the hook of generation {g}"),
                _ => {}
            }
        }
        ensure!(selector == 0 || prepared == 1, "{shown}: the selector in force is prepared {prepared} times in generation {g}");
    }
    Ok(())
}

pub fn e04(r: &Runner) {
    r.explore("decision sequences", Opts::default(), || {
        let mut cfg = Cfg::new(flag(), pick(&[1, 2, 3]), pick(&[0.0, 0.34]));
        cfg.interval = choose(3);
        let (own, how) = (flag(), choose(3));
        let depth = if r.thorough { 5 } else { 4 };
        set_pattern(Some(Pattern::Weyl(11)));
        order_of_steps(
            &cfg,
            own,
            how,
            &|_| {
                let k = choose(4);
                (k & 1 == 1, if k & 2 == 2 { Some(1.0) } else { None }, if k & 2 == 2 { Some(0.125) } else { None })
            },
            &|g| g + 1 < depth && flag(),
        )
    });
    r.explore("sizes", Opts::default(), || {
        let mut cfg = Cfg::new(flag(), upto(1, 70, &[100, 129, 257, 1000]), pick(&[0.0, 0.25]));
        cfg.interval = 2;
        let (own, how) = (flag(), choose(3));
        set_workers(pick(&[1, 4]));
        set_pattern(Some(Pattern::Weyl(7)));
        order_of_steps(&cfg, own, how, &|g| (g % 2 == 0, Some(0.5), if g == 1 { Some(0.75) } else { None }), &|g| g < 4)
    });
    r.explore("long runs", Opts::default(), || {
        let mut cfg = Cfg::new(flag(), pick(&[1, 4, 33, 100]), pick(&[0.0, 0.5]));
        cfg.interval = pick(&[0, 1, 10]);
        let every = pick(&[1, 2, 50]);
        let len = if cfg.n > 10 { 20 } else { pick(&[40, 300]) };
        let (own, how) = (flag(), choose(3));
        set_pattern(Some(Pattern::Weyl(3)));
        order_of_steps(
            &cfg,
            own,
            how,
            &|g| (g % every == 0, if g % 3 == 1 { Some((g % 64) as f64 / 64.0) } else { None }, if g % 5 == 1 { Some((g % 32) as f64 / 32.0) } else { None }),
            &|g| g < len,
        )
    });
    r.explore("very long runs", Opts::default(), || {
        let mut cfg = Cfg::new(flag(), 1 + choose(2), pick(&[0.0, 0.5]));
        cfg.interval = 3;
        let own = flag();
        let len = if r.thorough { 200_000 } else { 70_000 };
        set_pattern(Some(Pattern::Weyl(3)));
        order_of_steps(&cfg, own, 1, &|g| (g == 1000, None, None), &|g| g < len)
    });
}

// -------------------------------------------------------------------------------------------- E05

struct Injected;
/// Counts the callbacks and fails at one of them.
#[derive(Default)]
struct Faults {
    count: AtomicUsize,
    at: AtomicUsize, // 0: never; counted from 1
}
impl Faults {
    fn callback(&self) {
        note_thread();
        let n = self.count.fetch_add(1, SeqCst) + 1;
        if n == self.at.load(SeqCst) {
            std::panic::panic_any(Injected)
        }
    }
}
/// A model without state whose callbacks are recorded.
struct Plain<'a> {
    faults: &'a Faults,
    trace: &'a Mutex<Vec<String>>,
    intervene: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct G {
    genome: u32,
    fit: f64,
}
impl Individual for G {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
struct GArgs<'a>(&'a Faults);
impl RandomIndividual<GArgs<'_>> for G {
    fn new_random<R: Rng>(a: &GArgs<'_>, rng: &mut R) -> G {
        a.0.callback();
        G { genome: rng.gen_range(0..64), fit: f64::NAN }
    }
}
impl Plain<'_> {
    fn note(&self, s: impl FnOnce() -> String) {
        self.faults.callback();
        self.trace.lock().unwrap().push(s())
    }
}
struct LastOne;
impl SelectionMechanism<G, McRng> for LastOne {
    fn prepare(&mut self, _: &Population<G>) {}
    fn select<'a>(&self, p: &'a Population<G>, _: &mut McRng) -> (usize, &'a G) {
        (p.len() - 1, &p[p.len() - 1])
    }
}
impl EvolutionModel for Plain<'_> {
    type Individual = G;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &G, b: &G, rng: &mut McRng) -> G {
        let mask = (1 << rng.gen_range(0..7)) - 1;
        self.note(|| format!("crossover {a:?} {b:?} {mask}"));
        G { genome: a.genome & mask | b.genome & !mask, fit: f64::NAN }
    }
    fn mutate(&self, i: &mut G, rng: &mut McRng) {
        let k = rng.gen_range(0..6);
        self.note(|| format!("mutate {i:?} {k}"));
        i.genome ^= 1 << k;
    }
    fn improve(&self, i: &mut G) {
        self.note(|| format!("improve {i:?}"));
    }
    fn evaluate(&self, i: &mut G) {
        self.note(|| format!("evaluate {}", i.genome));
        i.fit = (i.genome * 37 % 101) as f64 / 16.0;
    }
    fn can_survive(&self, o: &G, p: &G, _: &Population<G>, _: &mut McRng) -> bool {
        self.note(|| format!("survive {o:?} {p:?}"));
        o.fit + 1.0 >= p.fit
    }
    fn pre_generation(&mut self, p: &Population<G>, b: &mut ReproductionParameters<Self>) {
        self.note(|| format!("hook {} {} {}", p.generation(), b.crossover_rate, b.mutation_rate));
        if self.intervene && p.generation() == 1 {
            b.mutation_rate = 1.0;
            b.crossover_rate = 0.0;
            b.parent_selector = Box::new(LastOne);
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Job {
    cfg: usize,
    how: usize,
    generations: usize,
    seed: u64,
}
fn e05_cfg(adaptive: bool, k: usize) -> Cfg {
    let mut c = Cfg::new(adaptive, 3, 0.4);
    match k {
        0 => c.strategy = SelectionStrategy::Boltzmann(8.0, 0.25),
        1 => {
            c.n = 4;
            c.elitism = 0.0;
            c.interval = 2;
            c.cross = (0.0, 1.0);
            c.mutation = (0.5, 1.0);
        }
        2 => {
            c.n = 2;
            c.elitism = 0.5;
            c.strategy = SelectionStrategy::Linear(1.75);
            c.interval = 0;
            c.cross = (1.0, 1.0);
            c.mutation = (0.0, 0.25);
        }
        3 => {
            c.n = 5;
            c.elitism = 0.8;
            c.strategy = SelectionStrategy::RouletteWheel;
            c.interval = 1;
        }
        // refused
        4 => c.n = 0,
        7 => {
            c.n = 40;
            c.elitism = 0.25;
            c.strategy = SelectionStrategy::Elitist(0.5);
        }
        5 => c.cross = (2.0, 2.0),
        _ => c.strategy = SelectionStrategy::Tournament(0),
    }
    c
}
fn do_job<A: EvolutionAlgorithm<M>, M: EvolutionModel<Individual = G>>(
    e: &Evolution<A, M>,
    params: &dyn Fn(usize) -> A::Parameters,
    job: &Job,
    faults: &Faults,
    trace: &Mutex<Vec<String>>,
) -> Result<String, Box<dyn std::any::Any + Send>> {
    trace.lock().unwrap().clear();
    faults.count.store(0, SeqCst);
    set_pattern(Some(Pattern::Weyl(job.seed)));
    let p = params(job.cfg);
    let mut count = 0;
    let progress = |p: &Population<G>| {
        faults.callback();
        trace.lock().unwrap().push(format!("report {} {} {:?} {:?}", p.generation(), p.stagnation(), &p[..], p.stats()));
        count += 1;
        count <= job.generations
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match job.how {
        0 => format!("{:?}", e.run(&GArgs(faults), &p, progress)),
        1 => format!("{:?}", e.evolve_individual(G { genome: 21, fit: 2.0 }, &p, progress)),
        _ => {
            let list = (0..4).map(|i| G { genome: i * 11, fit: 0.0 }).collect();
            let p = e.evolve_population(list, &p, progress);
            format!("{} {:?}", p.generation(), &p[..])
        }
    }));
    set_pattern(None);
    match r {
        Err(p) if p.is::<Abandon>() => std::panic::resume_unwind(p),
        r => r,
    }
}
type Known = std::collections::HashMap<(bool, bool, Job), Arc<(Vec<String>, Result<String, String>)>>;
/// The first run of each kind on a new object.
static SEEN: std::sync::OnceLock<Mutex<Known>> = std::sync::OnceLock::new();
/// Runs on a used object against the same run on a new one.
macro_rules! histories {
    ($name:ident, $many:ident, $algorithm:ident, $params:ident, $adaptive:expr) => {
        /// Every one of many runs on one object is like the one on a new object.
        fn $many(runs: usize, intervene: bool, panics: bool, pick_job: &dyn Fn(usize) -> Job) -> Result<(), String> {
            let (faults, trace) = (Faults::default(), Mutex::new(Vec::new()));
            let new = || $algorithm::build_evolution(Plain { faults: &faults, trace: &trace, intervene });
            let params = |k: usize| e05_cfg($adaptive, k).$params();
            let used = new();
            let mut expected: std::collections::HashMap<(Job, usize), (Vec<String>, Result<String, String>)> = Default::default();
            for k in 0..runs {
                let job = pick_job(k);
                let at = if panics && k % 3 == 1 { 1 + k % 7 } else { 0 };
                let mut observe = |e: &Evolution<_, _>| {
                    faults.at.store(at, SeqCst);
                    let r = do_job(e, &params, &job, &faults, &trace).map_err(|p| panic_text(&*p));
                    faults.at.store(0, SeqCst);
                    (std::mem::take(&mut *trace.lock().unwrap()), r)
                };
                let got = observe(&used);
                let want = expected.entry((job.clone(), at)).or_insert_with(|| observe(&new()));
                ensure!(got == *want, "run {k} on the same object, {job:?} with a panic at callback {at}, differs from the run on a new object: {:?}, {} and {} steps, {:?} and {:?}", got.0.iter().zip(&want.0).find(|(x, y)| x != y), got.0.len(), want.0.len(), got.1, want.1);
            }
            state(&(runs, intervene, panics, expected.len()));
            Ok(())
        }
        fn $name(before: usize, seeds: u64, faults_in_last: bool, intervene: bool, pick_job: &dyn Fn(usize) -> Job) -> Result<(), String> {
            let (faults, trace) = (Faults::default(), Mutex::new(Vec::new()));
            let new = || $algorithm::build_evolution(Plain { faults: &faults, trace: &trace, intervene });
            let params = |k: usize| e05_cfg($adaptive, k).$params();
            let used = new();
            let mut done = Vec::new();
            for b in 0..before {
                let job = pick_job(b);
                // count the callbacks, then choose the one that fails
                faults.at.store(0, SeqCst);
                let _ = do_job(&new(), &params, &job, &faults, &trace);
                let total = faults.count.load(SeqCst);
                let at = if job.cfg != 7 && (b + 1 == before || faults_in_last) {
                    // every callback of a short run; of a long one the first and the last ones and every 13th
                    if total <= 120 || faults_in_last && job.generations <= 10 { choose(total + 1) } else { pick(&(0..=total).filter(|i| *i <= 60 || i % 13 == 0 || i + 20 > total).collect::<Vec<_>>()) }
                } else { pick(&[0, 1.min(total), total / 2, total]) };
                faults.at.store(at, SeqCst);
                let r = do_job(&used, &params, &job, &faults, &trace);
                let fired = at != 0 && faults.count.load(SeqCst) >= at;
                faults.at.store(0, SeqCst);
                match &r {
                    Ok(x) => ensure!(!fired, "after {done:?}: a panic of callback {at} of {job:?} did not reach the caller, the result is {x}"),
                    Err(p) => ensure!((4..7).contains(&job.cfg) || fired && reached(&**p), "after {done:?}: {job:?} panicked by itself"),
                }
                done.push(format!("{job:?}, panic at callback {at} of {total}"));
            }
            let job = Job { cfg: choose(4), how: choose(3), generations: 3, seed: 1 + choose(seeds as usize) as u64 };
            let a = do_job(&used, &params, &job, &faults, &trace).map_err(|p| panic_text(&*p));
            let ta = std::mem::take(&mut *trace.lock().unwrap());
            let b = do_job(&new(), &params, &job, &faults, &trace).map_err(|p| panic_text(&*p));
            let tb = std::mem::take(&mut *trace.lock().unwrap());
            state(&(&ta, &done));
            sample(|| format!("{done:?}, then {job:?}: {} steps, {a:?}", ta.len()));
            let diff = ta.iter().zip(&tb).find(|(x, y)| x != y);
            ensure!(diff.is_none() && ta.len() == tb.len(), "after {done:?}, {job:?} differs from a run on a new object: {:?} ({} and {} steps)", diff, ta.len(), tb.len());
            ensure!(a == b, "after {done:?}, {job:?} gives {a:?}, on a new object {b:?}");
            // nor does a new object depend on runs on other objects
            let e = SEEN.get_or_init(Default::default).lock().unwrap().entry(($adaptive, intervene, job.clone())).or_insert_with(|| Arc::new((tb.clone(), b.clone()))).clone();
            let diff = tb.iter().zip(&e.0).find(|(x, y)| x != y);
            ensure!(diff.is_none() && tb.len() == e.0.len() && b == e.1, "{job:?} on a new object differs from the same run on a new object before: {diff:?} ({} and {} steps)", tb.len(), e.0.len());
            Ok(())
        }
    };
}
/// The panic of the callback, or what `std::thread::scope` makes of it.
fn reached(p: &(dyn std::any::Any + Send)) -> bool {
    p.is::<Injected>() || p.downcast_ref::<&str>() == Some(&"a scoped thread panicked")
}
fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}
histories!(history_ga, many_ga, GeneticAlgorithm, ga, false);
histories!(history_aga, many_aga, AdaptiveGeneticAlgorithm, aga, true);

/// A generator with a state that the model seeds.
struct Seeded(u64);
impl rand::RngCore for Seeded {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let z = (self.0 ^ self.0 >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        let z = (z ^ z >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ z >> 31
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        b.iter_mut().for_each(|x| *x = self.next_u64() as u8)
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
/// A model that makes all its generators alike and fails at a certain evaluation.
struct Alike<'a>(&'a Faults);
struct AlikeArgs;
impl RandomIndividual<AlikeArgs> for G {
    fn new_random<R: Rng>(_: &AlikeArgs, rng: &mut R) -> G {
        G { genome: rng.gen_range(0..4096), fit: f64::NAN }
    }
}
impl EvolutionModel for Alike<'_> {
    type Individual = G;
    type Rng = Seeded;
    fn rng() -> Seeded {
        Seeded(7)
    }
    fn crossover(&self, a: &G, b: &G, rng: &mut Seeded) -> G {
        let mask = rng.gen_range(0..4096);
        G { genome: a.genome & mask | b.genome & !mask, fit: f64::NAN }
    }
    fn mutate(&self, i: &mut G, rng: &mut Seeded) {
        i.genome ^= 1 << rng.gen_range(0..12);
    }
    fn evaluate(&self, i: &mut G) {
        self.0.callback();
        i.fit = (i.genome * 37 % 4099) as f64 / 16.0;
    }
}
/// One run with seeded generators: everything reported and the result.
fn alike<'a, A: EvolutionAlgorithm<Alike<'a>>>(e: &Evolution<A, Alike<'a>>, p: &A::Parameters, how: usize, generations: usize) -> (Vec<String>, Result<String, String>) {
    let mut trace = Vec::new();
    let progress = |p: &Population<G>| {
        trace.push(format!("{} {} {:?}", p.generation(), p.stagnation(), &p[..]));
        trace.len() <= generations
    };
    let r = catch(|| match how {
        0 => format!("{:?}", e.run(&AlikeArgs, p, progress)),
        1 => format!("{:?}", e.evolve_individual(G { genome: 21, fit: 2.0 }, p, progress)),
        _ => format!("{:?}", &e.evolve_population((0..6).map(|i| G { genome: i * 511, fit: 0.0 }).collect(), p, progress)[..]),
    });
    (trace, r)
}
fn alike_histories(adaptive: bool) -> Result<(), String> {
    let faults = Faults::default();
    set_workers(1);
    let kinds = [0, 1, 2, 3, 7];
    let jobs: Vec<_> = (0..2 + choose(2)).map(|k| (pick(&kinds), choose(3), if k == 0 { choose(4) } else { 3 }, if k == 0 { pick(&[0, 3, 9]) } else { 0 })).collect();
    macro_rules! perform {
        ($algorithm:ident, $params:ident) => {{
            let used = $algorithm::build_evolution(Alike(&faults));
            for (k, &(cfg, how, generations, fail)) in jobs.iter().enumerate() {
                let p = e05_cfg(adaptive, cfg).$params();
                let mut one = |e: &Evolution<_, _>| {
                    faults.count.store(0, SeqCst);
                    faults.at.store(fail, SeqCst);
                    alike(e, &p, how, generations)
                };
                let got = one(&used);
                let want = one(&$algorithm::build_evolution(Alike(&faults)));
                state(&(k, &got));
                sample(|| format!("{jobs:?}: {got:?}"));
                ensure!(
                    got == want,
                    "runs {jobs:?} (kind of parameters, way to start, generations, failing callback), with generators that are all seeded alike and one worker: run {k} gives {got:?}, on a new object {want:?}"
                );
            }
        }};
    }
    if adaptive {
        perform!(AdaptiveGeneticAlgorithm, aga)
    } else {
        perform!(GeneticAlgorithm, ga)
    }
    Ok(())
}

pub fn e05(r: &Runner) {
    r.explore("seeded generators", Opts::default(), || alike_histories(flag()));
    let both = |adaptive: bool, before: usize, seeds: u64, last: bool, intervene: bool, job: &dyn Fn(usize) -> Job| {
        if adaptive {
            history_aga(before, seeds, last, intervene, job)
        } else {
            history_ga(before, seeds, last, intervene, job)
        }
    };
    r.explore("no run before", Opts::default(), || both(flag(), 0, if r.thorough { 8 } else { 2 }, false, flag(), &|_| unreachable!()));
    r.explore("one run before, a panic at every callback", Opts::default(), || {
        both(flag(), 1, 1, true, flag(), &|_| Job { cfg: choose(7), how: choose(3), generations: 2, seed: 9 })
    });
    r.explore("one long run before", Opts::default(), || {
        both(flag(), 1, if r.thorough { 8 } else { 2 }, false, flag(), &|_| Job { cfg: pick(&[0, 1, 2, 3, 7]), how: choose(3), generations: pick(&[0, 1, 10, 40]), seed: 5 })
    });
    r.explore("many runs before", Opts::default(), || {
        let many = if flag() { many_aga } else { many_ga };
        if flag() {
            let (first, panics) = (choose(3), flag());
            many(if r.thorough { 20_000 } else { 1300 }, flag(), panics, &|k| Job { cfg: (k / 5 + first) % 4, how: k % 3, generations: (k / 2) % 4, seed: 1 + (k % 2) as u64 })
        } else {
            let job = Job { cfg: choose(4), how: choose(3), generations: choose(2), seed: 1 };
            many(if r.thorough { 200_000 } else { 66_000 }, false, false, &|_| job.clone())
        }
    });
    r.explore("several runs before", Opts::default(), || {
        let n = if r.thorough { 3 } else { 2 };
        both(flag(), n, 1, false, false, &|b| Job { cfg: choose(if b == 0 { 4 } else { 7 }), how: if b == 0 { 2 } else { choose(3) }, generations: 1 + b, seed: 3 + b as u64 })
    });
}
