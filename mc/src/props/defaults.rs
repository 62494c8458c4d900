//! D01: default parameters and the ways to make an evolution object.
use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::models::{scored, F};
use rand::Rng;
use rusty_genes::*;
use std::cell::RefCell;

thread_local! {
    /// What the model and the progress closure see: a letter and two numbers.
    static TRACE: RefCell<Vec<(char, u64, u64)>> = const { RefCell::new(Vec::new()) };
}
fn note(c: char, a: u64, b: u64) {
    TRACE.with(|t| t.borrow_mut().push((c, a, b)))
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct G {
    genome: u64,
    fit: f64,
}
impl Individual for G {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
impl RandomIndividual<u64> for G {
    fn new_random<R: Rng>(bound: &u64, rng: &mut R) -> G {
        let g = G { genome: rng.gen_range(0..*bound), fit: f64::NAN };
        note('n', g.genome, 0);
        g
    }
}
#[derive(Default)]
struct Still;
impl EvolutionModel for Still {
    type Individual = G;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &G, b: &G, rng: &mut McRng) -> G {
        let mask = (1 << rng.gen_range(0..10)) - 1;
        note('c', a.genome << 32 | b.genome, mask);
        G { genome: a.genome & mask | b.genome & !mask, fit: f64::NAN }
    }
    fn mutate(&self, i: &mut G, rng: &mut McRng) {
        let k = rng.gen_range(0..10);
        note('m', i.genome, k);
        i.genome ^= 1 << k;
    }
    fn evaluate(&self, i: &mut G) {
        note('e', i.genome, 0);
        i.fit = 1.0 + (i.genome * 37 % 101) as f64 / 16.0;
    }
    fn pre_generation(&mut self, p: &Population<G>, b: &mut ReproductionParameters<Self>) {
        note('h', b.crossover_rate.to_bits(), b.mutation_rate.to_bits());
        note('g', p.generation() as u64, p.len() as u64);
    }
}
fn reported(p: &Population<G>) {
    use std::hash::{Hash, Hasher};
    let mut h = Fnv(7);
    for i in p.iter() {
        (i.genome, i.fit.to_bits()).hash(&mut h);
    }
    note('r', (p.generation() * 1000 + p.stagnation()) as u64, h.finish());
}
type Trace = (Vec<(char, u64, u64)>, Result<G, String>);
fn course<A: EvolutionAlgorithm<Still>>(e: &Evolution<A, Still>, p: &A::Parameters, how: usize, generations: usize, draws: Pattern) -> Trace {
    TRACE.with(|t| t.borrow_mut().clear());
    set_pattern(Some(draws));
    let mut count = 0;
    let progress = |p: &Population<G>| {
        reported(p);
        count += 1;
        count <= generations
    };
    let r = catch(|| match how {
        0 => e.run(&1024, p, progress),
        1 => e.evolve_individual(G { genome: 77, fit: 0.0 }, p, progress),
        _ => e.evolve_population((0..120).map(|i| G { genome: i * 41 % 1024, fit: 0.0 }).collect(), p, progress).take_fittest(),
    });
    set_pattern(None);
    (TRACE.with(|t| std::mem::take(&mut *t.borrow_mut())), r)
}
fn alike(what: &str, a: &Trace, b: &Trace) -> Result<(), String> {
    let place = a.0.iter().zip(&b.0).position(|(x, y)| x != y);
    if let Some(k) = place {
        return Err(format!("{what}: step {k} is {:?}, expected {:?}", a.0[k], b.0[k]));
    }
    ensure!(a.0.len() == b.0.len(), "{what}: {} steps, expected {}", a.0.len(), b.0.len());
    ensure!(a.1 == b.1, "{what}: {:?}, expected {:?}", a.1, b.1);
    Ok(())
}
/// What is documented, with some values overridden.
fn documented_ga(mask: usize) -> GeneticAlgorithmParameters {
    let f = |k: usize| mask >> k & 1 == 1;
    GeneticAlgorithmParameters {
        population_size: if f(0) { 9 } else { 100 },
        elitism_rate: if f(1) { 0.3 } else { 0.01 },
        crossover_rate: if f(2) { 0.25 } else { 0.8 },
        mutation_rate: if f(3) { 0.6 } else { 0.1 },
        selection_strategy: if f(4) { SelectionStrategy::Rank } else { SelectionStrategy::RouletteWheel },
    }
}
fn default_ga(mask: usize) -> GeneticAlgorithmParameters {
    let (e, f) = (documented_ga(31), |k: usize| mask >> k & 1 == 1);
    let mut p = GeneticAlgorithmParameters::default();
    if f(0) {
        p.population_size = e.population_size
    }
    if f(1) {
        p.elitism_rate = e.elitism_rate
    }
    if f(2) {
        p.crossover_rate = e.crossover_rate
    }
    if f(3) {
        p.mutation_rate = e.mutation_rate
    }
    if f(4) {
        p.selection_strategy = e.selection_strategy
    }
    p
}
fn documented_aga(mask: usize) -> AdaptiveGeneticAlgorithmParameters {
    let f = |k: usize| mask >> k & 1 == 1;
    AdaptiveGeneticAlgorithmParameters {
        population_size: if f(0) { 9 } else { 100 },
        elitism_rate: if f(1) { 0.3 } else { 0.01 },
        crossover_rate_range: if f(2) { 0.25..0.5 } else { 0.3..1.0 },
        mutation_rate_range: if f(3) { 0.5..0.75 } else { 0.1..1.0 },
        selection_strategy: if f(4) { SelectionStrategy::Rank } else { SelectionStrategy::RouletteWheel },
        parameter_adjustment_interval: if f(5) { 3 } else { 1 },
    }
}
fn default_aga(mask: usize) -> AdaptiveGeneticAlgorithmParameters {
    let (e, f) = (documented_aga(63), |k: usize| mask >> k & 1 == 1);
    let mut p = AdaptiveGeneticAlgorithmParameters::default();
    if f(0) {
        p.population_size = e.population_size
    }
    if f(1) {
        p.elitism_rate = e.elitism_rate
    }
    if f(2) {
        p.crossover_rate_range = e.crossover_rate_range
    }
    if f(3) {
        p.mutation_rate_range = e.mutation_rate_range
    }
    if f(4) {
        p.selection_strategy = e.selection_strategy
    }
    if f(5) {
        p.parameter_adjustment_interval = e.parameter_adjustment_interval
    }
    p
}
/// An evolution object made in one of five ways.
macro_rules! made {
    ($a:ident, $way:expr) => {
        match $way {
            0 => $a::build_evolution(Still),
            1 => Evolution::from($a::from(Still)),
            2 => Evolution::from($a::<Still>::default()),
            3 => Evolution::<$a<Still>, Still>::default(),
            _ => $a::<Still>::build_evolution(Default::default()),
        }
    };
}
fn draws(r: &Runner) -> Pattern {
    let n = if r.thorough { 24 } else { 4 };
    match choose(n + 2) {
        0 => Pattern::Zero,
        1 => Pattern::Max,
        k => Pattern::Weyl(k as u64 - 1),
    }
}

pub fn d01(r: &Runner) {
    r.explore("the documented values", Opts::default(), || {
        let (adaptive, which) = (flag(), choose(3));
        // what a run shows of them
        let d = Pattern::Weyl(1 + which as u64);
        let t = if adaptive { course(&made!(AdaptiveGeneticAlgorithm, 0), &Default::default(), which, 2, d) } else { course(&made!(GeneticAlgorithm, 0), &Default::default(), which, 2, d) };
        let what = format!("default parameters, {}, run kind {which}", if adaptive { "adaptive" } else { "standard" });
        let evaluated: Vec<usize> = t.0.split(|x| x.0 == 'r').map(|part| part.iter().filter(|x| x.0 == 'e').count()).collect();
        let first = if which == 2 { 120 } else { 100 };
        ensure!(evaluated == [first, 99, 99, 0], "{what}: {evaluated:?} evaluations between the reports, expected {first} and then 99");
        let hooks: Vec<_> = t.0.iter().filter(|x| x.0 == 'h').map(|x| (f64::from_bits(x.1), f64::from_bits(x.2))).collect();
        ensure!(hooks.len() == 2 && hooks[0] == if adaptive { (1.0, 0.1) } else { (0.8, 0.1) }, "{what}: rates {hooks:?}");
        state(&t.0);
        let (g, a) = (GeneticAlgorithmParameters::default(), AdaptiveGeneticAlgorithmParameters::default());
        let (eg, ea) = (documented_ga(0), documented_aga(0));
        ensure!(
            g.population_size == eg.population_size && g.elitism_rate == eg.elitism_rate && g.crossover_rate == eg.crossover_rate && g.mutation_rate == eg.mutation_rate && g.selection_strategy == eg.selection_strategy,
            "the default parameters of the standard algorithm are {}, {}, {}, {}, {:?}", g.population_size, g.elitism_rate, g.crossover_rate, g.mutation_rate, g.selection_strategy
        );
        ensure!(
            a.population_size == ea.population_size && a.elitism_rate == ea.elitism_rate && a.crossover_rate_range == ea.crossover_rate_range && a.mutation_rate_range == ea.mutation_rate_range
                && a.selection_strategy == ea.selection_strategy && a.parameter_adjustment_interval == ea.parameter_adjustment_interval,
            "the default parameters of the adaptive algorithm are {}, {}, {:?}, {:?}, {:?}, {}", a.population_size, a.elitism_rate, a.crossover_rate_range, a.mutation_rate_range, a.selection_strategy, a.parameter_adjustment_interval
        );
        let (gs, as_) = ((g.initial_population_size(), g.max_population_size()), (a.initial_population_size(), a.max_population_size()));
        ensure!(gs == (100, 100) && as_ == (100, 100), "the default population sizes are stated as {gs:?} and {as_:?}");
        Ok(())
    });
    r.explore("runs with default and with explicit parameters", Opts::default(), || {
        let adaptive = flag();
        let mask = choose(if adaptive { 64 } else { 32 });
        let (how, way, d) = (choose(3), choose(5), draws(r));
        let generations = pick(&[0, 1, 4]);
        let what = format!("{} algorithm, overridden {mask:b}, object made in way {way}, run kind {how}, draws {d:?}", if adaptive { "adaptive" } else { "standard" });
        let (a, b) = if adaptive {
            (
                course(&made!(AdaptiveGeneticAlgorithm, way), &default_aga(mask), how, generations, d),
                course(&made!(AdaptiveGeneticAlgorithm, 0), &documented_aga(mask), how, generations, d),
            )
        } else {
            (course(&made!(GeneticAlgorithm, way), &default_ga(mask), how, generations, d), course(&made!(GeneticAlgorithm, 0), &documented_ga(mask), how, generations, d))
        };
        state(&(&a.0, way));
        sample(|| format!("{what}: {} steps, {:?}", a.0.len(), a.1));
        ensure!(a.1.is_ok(), "{what}: panicked: {:?}", a.1);
        alike(&what, &a, &b)
    });
    r.explore("several runs of objects made in different ways", Opts::default(), || {
        let adaptive = flag();
        let way = choose(5);
        let jobs: Vec<(usize, usize)> = (0..if r.thorough { 3 } else { 2 }).map(|_| (pick(&[0, 1, 7, 25, 31]), choose(3))).collect();
        let d = draws(r);
        let what = |k: usize| format!("{} algorithm, object made in way {way}, run {k} of {jobs:?}, draws {d:?}", if adaptive { "adaptive" } else { "standard" });
        macro_rules! all {
            ($a:ident, $p:ident) => {{
                let (x, y) = (made!($a, way), made!($a, 0));
                for (k, &(mask, how)) in jobs.iter().enumerate() {
                    let (a, b) = (course(&x, &$p(mask), how, 2, d), course(&y, &$p(mask), how, 2, d));
                    state(&(&a.0, way));
                    alike(&what(k), &a, &b)?;
                }
            }};
        }
        if adaptive {
            all!(AdaptiveGeneticAlgorithm, documented_aga)
        } else {
            all!(GeneticAlgorithm, documented_ga)
        }
        Ok(())
    });
    r.explore("default selectors", Opts::default(), || {
        let n = 1 + choose(4);
        let fits: Vec<f64> = (0..n).map(|i| i as f64 + pick(&[1.0, 1.5, 4.0])).collect();
        let pop = Population::new(scored(&fits));
        let mut made: [Box<dyn SelectionMechanism<F, McRng>>; 3] = if flag() {
            [Box::<RouletteWheelSelection>::default(), Box::new(RouletteWheelSelection::new()), SelectionStrategy::RouletteWheel.create_selector()]
        } else {
            [Box::<RankSelection>::default(), Box::new(RankSelection::new()), SelectionStrategy::Rank.create_selector()]
        };
        let d = pick(&[Pattern::Zero, Pattern::Max, Pattern::Weyl(1), Pattern::Weyl(2), Pattern::Const(0.3), Pattern::Const(0.7)]);
        let mut all = Vec::new();
        for s in &mut made {
            s.prepare(&pop);
            set_pattern(Some(d));
            all.push((0..8).map(|_| s.select(&pop, &mut McRng::new()).0).collect::<Vec<_>>());
            set_pattern(None);
        }
        state(&all);
        ensure!(all[0] == all[1] && all[1] == all[2], "{fits:?}: made by default, created and from a strategy, selectors select {all:?} from the same draws");
        Ok(())
    });
}
