//! The OneMax example problem.
use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::util::*;
use rand::rngs::SmallRng;
use rand::SeedableRng;
use rusty_genes::one_max::*;
use rusty_genes::*;
use std::collections::BTreeMap;

fn bits(n: usize, k: usize) -> Vec<bool> {
    (0..n).map(|i| k >> i & 1 == 1).collect()
}
fn text(b: &[bool]) -> String {
    b.iter().map(|x| if *x { '1' } else { '0' }).collect()
}
fn ratio(b: &[bool]) -> f64 {
    b.iter().filter(|x| **x).count() as f64 / b.len() as f64
}
fn tool() -> SmallRng {
    with(|c| c.small_rng = true);
    SmallRng::seed_from_u64(1)
}
fn long_bits(n: usize, shape: usize) -> Vec<bool> {
    (0..n)
        .map(|i| match shape {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            3 => i < n / 2,
            4 => i == n - 1,
            5 => i != 0,
            _ => (i * 7 + i / 3) % 5 < 2,
        })
        .collect()
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12
}

fn evaluated(b: Vec<bool>) -> Result<(), String> {
    let m = OneMaxEvolutionModel;
    let mut o = OneMax::from(b.clone());
    ensure!(o.genome() == b, "converting {} gives {}", text(&b), text(o.genome()));
    // evaluating twice changes nothing
    for _ in 0..2 {
        m.evaluate(&mut o);
        ensure!(o.genome() == b, "evaluation changes {} to {}", text(&b), text(o.genome()));
        ensure!(near(o.fitness(), ratio(&b)), "the fitness of {} is {}, expected {}", text(&b), o.fitness(), ratio(&b));
    }
    state(&b);
    Ok(())
}
fn crossed(a: Vec<bool>, b: Vec<bool>, full: bool) -> Result<(), String> {
    let m = OneMaxEvolutionModel;
    let (p, q) = (OneMax::from(a.clone()), OneMax::from(b.clone()));
    let n = a.len();
    let offspring = |point: usize| -> Vec<bool> { a[..point].iter().chain(&b[point..]).copied().collect() };
    if full {
        with(|c| c.small_rng = true);
        let d = dist(DistOpts::default(), || m.crossover(&p, &q, &mut SmallRng::seed_from_u64(1)).genome().to_vec());
        let mut e = BTreeMap::new();
        for point in 0..n {
            add(&mut e, offspring(point), 1.0 / n as f64);
        }
        if n == 0 {
            add(&mut e, vec![], 1.0);
        }
        state(&(&a, &b));
        sample(|| format!("crossover of {} and {}: {:?}", text(&a), text(&b), d.p.iter().map(|(o, p)| (text(o), p)).collect::<Vec<_>>()));
        return d.compare(&e).map_err(|m| format!("crossover of {} and {}: {m}", text(&a), text(&b)));
    }
    let mut rng = tool();
    let o = m.crossover(&p, &q, &mut rng);
    state(&(&a, &b, o.genome()));
    ensure!((0..=n).any(|k| offspring(k) == o.genome()), "crossover of {} and {} gives {}", text(&a), text(&b), text(o.genome()));
    Ok(())
}
fn mutated(b: Vec<bool>, full: bool) -> Result<(), String> {
    let m = OneMaxEvolutionModel;
    let n = b.len();
    let once = |rng: &mut SmallRng| {
        let mut o = OneMax::from(b.clone());
        m.mutate(&mut o, rng);
        o.genome().to_vec()
    };
    if full {
        with(|c| c.small_rng = true);
        let d = dist(DistOpts::default(), || once(&mut SmallRng::seed_from_u64(1)));
        let mut e = BTreeMap::new();
        for (i, j) in (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| i != j) {
            let mut g = b.clone();
            g[i] = g[j];
            add(&mut e, g, 1.0 / (n * (n - 1)) as f64);
        }
        if n < 2 {
            add(&mut e, b.clone(), 1.0);
        }
        state(&b);
        return d.compare(&e).map_err(|m| format!("mutation of {}: {m}", text(&b)));
    }
    let g = once(&mut tool());
    ensure!(g.len() == n, "mutation of {} gives {}", text(&b), text(&g));
    let changed: Vec<usize> = (0..n).filter(|&i| g[i] != b[i]).collect();
    state(&(&b, &g));
    sample(|| format!("mutation of {} gives {}", text(&b), text(&g)));
    ensure!(changed.len() <= 1, "mutation of {} gives {}", text(&b), text(&g));
    if let Some(&i) = changed.first() {
        ensure!((0..n).any(|j| j != i && b[j] == g[i]), "mutation of {} gives {}, no bit was copied", text(&b), text(&g));
    }
    Ok(())
}

fn whole_run(adaptive: bool, len: usize, n: usize, elites: usize, strategy: SelectionStrategy, rates: (f64, f64), generations: usize, how: usize, made: usize) -> Result<(), String> {
    with(|c| c.small_rng = true);
    let elitism_rate = (elites as f64 + 0.5) / n as f64;
    let what = format!("{} of {len} bits, population {n}, {elites} elites, {strategy:?}, rates {rates:?}", if adaptive { "adaptive run" } else { "run" });
    let mut count = 0;
    let mut bad = None;
    let mut best = f64::NEG_INFINITY;
    let mut last = f64::NEG_INFINITY;
    let mut trace = Vec::new();
    let progress = |p: &Population<OneMax>| {
        for i in p.iter() {
            if i.genome().len() != len || !near(i.fitness(), ratio(i.genome())) {
                bad = Some(format!("generation {} contains {} with fitness {}", p.generation(), text(i.genome()), i.fitness()));
            }
        }
        let top = p.iter().map(|i| i.fitness()).fold(f64::NEG_INFINITY, f64::max);
        if elites > 0 && top < last {
            bad = Some(format!("the best fitness decreases from {last} to {top} in generation {}", p.generation()));
        }
        last = top;
        best = best.max(top);
        if n <= 4 {
            trace.push(p.iter().map(|i| text(i.genome())).collect::<Vec<_>>());
        }
        count += 1;
        count <= generations
    };
    let first = || OneMax::from(long_bits(len, 2));
    let end = catch(|| {
        macro_rules! start {
            ($e:expr, $p:expr) => {{
                let (e, p) = ($e, $p);
                match how {
                    0 => e.run(&len, &p, progress),
                    1 => e.evolve_individual(first(), &p, progress),
                    _ => e.evolve_population(vec![first(); 1], &p, progress).take_fittest(),
                }
            }};
        }
        if adaptive {
            start!(
                match made {
                    0 => AdaptiveGeneticAlgorithm::build_evolution(OneMaxEvolutionModel),
                    1 => Evolution::default(),
                    2 => Evolution::from(AdaptiveGeneticAlgorithm::default()),
                    _ => Evolution::from(AdaptiveGeneticAlgorithm::from(OneMaxEvolutionModel)),
                },
                AdaptiveGeneticAlgorithmParameters {
                    population_size: n,
                    elitism_rate,
                    crossover_rate_range: rates.0 / 2.0..rates.0,
                    mutation_rate_range: rates.1..1.0,
                    selection_strategy: strategy,
                    parameter_adjustment_interval: 1,
                }
            )
        } else {
            start!(
                match made {
                    0 => GeneticAlgorithm::build_evolution(OneMaxEvolutionModel),
                    1 => Evolution::default(),
                    2 => Evolution::from(GeneticAlgorithm::default()),
                    _ => Evolution::from(GeneticAlgorithm::from(OneMaxEvolutionModel)),
                },
                GeneticAlgorithmParameters { population_size: n, elitism_rate, crossover_rate: rates.0, mutation_rate: rates.1, selection_strategy: strategy }
            )
        }
    });
    state(&(adaptive, len, n, &trace, best.to_bits()));
    sample(|| format!("{what}: {trace:?} -> {:?}", end.as_ref().map(|i| text(i.genome()))));
    if let Some(m) = bad {
        return Err(format!("{what}: {m}; {trace:?}"));
    }
    let end = end.map_err(|m| format!("{what}: panicked: {m}; {trace:?}"))?;
    ensure!(near(end.fitness(), ratio(end.genome())), "{what}: returned {} with fitness {}", text(end.genome()), end.fitness());
    ensure!(how == 2 || end.fitness() == best, "{what}: returned {} with fitness {}, the best was {best}; {trace:?}", text(end.genome()), end.fitness());
    Ok(())
}

pub fn o01(r: &Runner) {
    r.explore("random individuals", Opts::default(), || {
        let n = choose(if r.thorough { 17 } else { 13 });
        let d = dist(DistOpts { min_weight: 0.0, ..Default::default() }, || OneMax::new_random(&n, &mut McRng::new()).genome().to_vec());
        let e: BTreeMap<Vec<bool>, f64> = (0..1 << n).map(|k| (bits(n, k), 1.0 / (1u64 << n) as f64)).collect();
        state(&n);
        sample(|| format!("{} random bits: {} outcomes in {} draw sequences", n, d.p.len(), d.runs));
        ensure!(d.p.keys().all(|g| g.len() == n), "{n} bits were requested, there are {:?}", d.p.keys().map(|g| g.len()).max());
        d.compare(&e).map_err(|m| format!("{n} bits: {m}"))
    });
    r.explore("long random individuals", Opts::default(), || {
        let n = upto(13, 140, &[255, 256, 257, 1000, 4097, 65_535, 65_536, 65_537, 100_000]);
        set_pattern(Some(pick(&[Pattern::Zero, Pattern::Max, Pattern::Alternate, Pattern::Weyl(1)])));
        let g = OneMax::new_random(&n, &mut McRng::new());
        state(&(n, g.genome()));
        ensure!(g.genome().len() == n, "{n} bits were requested, there are {}", g.genome().len());
        Ok(())
    });
    r.explore("bits of long random individuals", Opts::default(), || {
        // 256 generators per length: no bit is constant, no two bits are always the same or always different
        let n = upto(13, 140, &[255, 256, 257, 1000, 4097]);
        let small = flag();
        let mut column = vec![[0u64; 4]; n];
        for k in 0..256 {
            set_pattern(Some(Pattern::Weyl(k as u64)));
            with(|c| c.small_rng = small);
            let g = if small { OneMax::new_random(&n, &mut SmallRng::seed_from_u64(1)) } else { OneMax::new_random(&n, &mut McRng::new()) };
            ensure!(g.genome().len() == n, "{n} bits were requested, there are {}", g.genome().len());
            g.genome().iter().enumerate().for_each(|(i, &b)| column[i][k / 64] |= (b as u64) << (k % 64));
        }
        state(&(n, &column));
        let mut seen = std::collections::HashMap::new();
        for (i, c) in column.iter().enumerate() {
            ensure!(*c != [0; 4] && *c != [u64::MAX; 4], "bit {i} of {n} random ones is {} for all explored draws", c[0] & 1);
            for (c, kind) in [(*c, "equal to"), (c.map(|w| !w), "the opposite of")] {
                if let Some(j) = seen.insert(c, i) {
                    return Err(format!("bit {i} of {n} random ones is {kind} bit {j} for all explored draws"));
                }
            }
        }
        Ok(())
    });
    r.explore("evaluation", Opts::default(), || {
        let n = 1 + choose(if r.thorough { 16 } else { 12 });
        evaluated(bits(n, choose(1 << n)))
    });
    r.explore("evaluation of long strings", Opts::default(), || evaluated(long_bits(upto(13, 140, &[255, 256, 257, 1000, 65_535, 65_536, 65_537, 131_072, 1_000_003]), choose(7))));
    r.explore("crossover", Opts::default(), || {
        let n = 1 + choose(if r.thorough { 6 } else { 5 });
        let (a, b) = (choose(1 << n), choose(1 << n));
        crossed(bits(n, a), bits(n, b), true)
    });
    r.explore("crossover of long strings", Opts::default(), || {
        let n = upto(6, 70, &[100, 129, 257]);
        crossed(long_bits(n, choose(7)), long_bits(n, choose(7)), false)
    });
    r.explore("crossover points of long strings", Opts::default(), || {
        let n = upto(6, 140, &[255, 256, 257, 1000]);
        let k = choose(2);
        crossed(long_bits(n, k), long_bits(n, 1 - k), true)
    });
    r.explore("mutated places of long strings", Opts::default(), || {
        let n = if r.thorough { upto(9, 60, &[129]) } else { upto(9, 30, &[65]) };
        mutated(long_bits(n, pick(&[4, 5, 6])), true)
    });
    r.explore("mutation", Opts::default(), || {
        let n = choose(if r.thorough { 11 } else { 9 });
        mutated(bits(n, choose(1 << n)), true)
    });
    r.explore("mutation of long strings", Opts::default(), || {
        let n = upto(9, 70, &[129]);
        mutated(long_bits(n, choose(7)), false)
    });
    // every draw of short runs
    let every = || Opts { min_weight: 0.0, unit: Unit::Grid(4), ..Default::default() };
    r.explore("all draws of short runs", every(), || {
        let adaptive = flag();
        let (len, n) = if r.thorough { pick(&[(2, 2), (3, 2), (2, 3)]) } else { (2, 2) };
        let how = choose(if n == 3 { 1 } else { 3 });
        whole_run(adaptive, len, n, 1, pick(&[SelectionStrategy::Tournament(1), SelectionStrategy::RouletteWheel, SelectionStrategy::Rank]), (0.5, 0.5), if n == 3 { 1 } else { 2 }, how, 0)
    });
    r.explore("all draws, no elite", every(), || whole_run(flag(), 2, 2, 0, SelectionStrategy::Tournament(1), (0.5, 0.5), 1, choose(3), 0));
    r.explore("patterns of draws in long runs", Opts::default(), || {
        let len = pick(&[5, 20, 64]);
        let n = pick(&[4, 10, 33, 100]);
        let strategy = pick(&[
            SelectionStrategy::Tournament(2),
            SelectionStrategy::RouletteWheel,
            SelectionStrategy::Rank,
            SelectionStrategy::Linear(1.5),
            SelectionStrategy::Elitist(0.5),
            SelectionStrategy::Boltzmann(2.0, 0.9),
        ]);
        let p = pick(&[Pattern::Zero, Pattern::Max, Pattern::Alternate, Pattern::Weyl(1), Pattern::Weyl(2), Pattern::Const(0.4)]);
        let adaptive = flag();
        let (elites, how) = (choose(3), choose(3));
        set_workers(pick(&[1, 4]));
        set_pattern(Some(p));
        whole_run(adaptive, len, n, elites, strategy, pick(&[(0.8, 0.1), (1.0, 1.0)]), if r.thorough { 60 } else { 15 }, how, choose(4))
    });
}
