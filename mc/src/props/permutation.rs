//! N01: whole runs on permutation problems.
use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::util::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rusty_genes::*;

#[derive(Clone, Debug, PartialEq)]
struct Tour {
    genome: Vec<usize>,
    score: f64,
}
impl Individual for Tour {
    fn fitness(&self) -> f64 {
        self.score
    }
}
impl RandomIndividual<usize> for Tour {
    fn new_random<R: Rng>(n: &usize, rng: &mut R) -> Tour {
        let mut genome: Vec<usize> = (0..*n).collect();
        genome.shuffle(rng);
        Tour { genome, score: f64::NAN }
    }
}
/// Positive, and equal for many genomes: a place is worth more the closer its neighbours are.
fn score(kind: usize, g: &[usize]) -> f64 {
    let n = g.len();
    let far = |a: usize, b: usize| a.abs_diff(b).min(n - a.abs_diff(b));
    match kind {
        0 => n as f64 * n as f64 / (1 + (0..n).map(|i| far(g[i], g[(i + 1) % n])).sum::<usize>()) as f64,
        1 => 1.0 + g.iter().enumerate().filter(|(i, x)| i == *x).count() as f64,
        _ => 0.5 + g.windows(2).filter(|w| w[0] < w[1]).count() as f64,
    }
}
struct Problem {
    crossover: CrossoverStrategy,
    mutation: MutationStrategy,
    kind: usize,
    local: bool,
}
impl EvolutionModel for Problem {
    type Individual = Tour;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &Tour, b: &Tour, rng: &mut McRng) -> Tour {
        Tour { genome: self.crossover.crossover(&a.genome, &b.genome, rng), score: f64::NAN }
    }
    fn mutate(&self, t: &mut Tour, rng: &mut McRng) {
        self.mutation.mutate(&mut t.genome, rng);
        if self.kind == 0 {
            t.score = f64::NAN // otherwise it keeps the score until it is evaluated
        }
    }
    fn improve(&self, t: &mut Tour) {
        // the first exchange of neighbouring genes that pays
        if self.local {
            let now = score(self.kind, &t.genome);
            for i in 1..t.genome.len() {
                t.genome.swap(i - 1, i);
                if score(self.kind, &t.genome) > now {
                    return;
                }
                t.genome.swap(i - 1, i);
            }
        }
    }
    fn evaluate(&self, t: &mut Tour) {
        t.score = score(self.kind, &t.genome)
    }
}

struct Setting {
    adaptive: bool,
    genes: usize,
    n: usize,
    elites: usize,
    strategy: SelectionStrategy,
    rates: (f64, f64),
    generations: usize,
    /// 0: random, 1: from an individual, 2: from a list
    how: usize,
    list: Vec<Vec<usize>>,
}
fn run(p: Problem, s: Setting) -> Result<(), String> {
    let what = format!(
        "{:?} crossover, {:?} mutation, {:?}, {} genes, population {}, {} elites, rates {:?}, {}",
        p.crossover, p.mutation, s.strategy, s.genes, s.n, s.elites, s.rates, if s.adaptive { "adaptive" } else { "standard" }
    );
    let (kind, genes) = (p.kind, (0..s.genes).collect::<Vec<_>>());
    let elitism_rate = (s.elites as f64 + 0.5) / s.n as f64;
    let (mut count, mut stagnation, mut last, mut best) = (0, 0, f64::NEG_INFINITY, f64::NEG_INFINITY);
    let mut bad: Option<String> = None;
    let mut trace = Vec::new();
    let progress = |p: &Population<Tour>| {
        let top = p.iter().map(|t| t.score).fold(f64::NEG_INFINITY, f64::max);
        stagnation = if count == 0 || top > last { 0 } else { stagnation + 1 };
        let wrong = || -> Option<String> {
            if p.generation() != count || p.stagnation() != stagnation {
                return Some(format!("report {count} is of generation {} with stagnation {}, not {stagnation}", p.generation(), p.stagnation()));
            }
            if let Some(t) = p.iter().find(|t| !is_permutation_of(&t.genome, &genes)) {
                return Some(format!("{:?} is no permutation", t.genome));
            }
            if let Some(t) = p.iter().find(|t| t.score != score(kind, &t.genome)) {
                return Some(format!("{t:?} has a wrong score"));
            }
            if p.windows(2).any(|w| w[0].score > w[1].score) {
                return Some("the population is not sorted".into());
            }
            let mut g: Vec<_> = p.iter().map(|t| &t.genome).collect();
            g.sort();
            if g.windows(2).any(|w| w[0] == w[1]) {
                return Some("the population has duplicates".into());
            }
            if p.is_empty() || count > 0 && p.len() > s.n {
                return Some(format!("the population has {} individuals", p.len()));
            }
            if s.elites > 0 && top < last {
                return Some(format!("the best fitness decreases from {last} to {top}"));
            }
            let x = p.stats();
            if x.count() != p.len() || x.max() != top || x.min() != p[0].score || p.fittest().score != top {
                return Some(format!("statistics {x:?}, fittest {:?}", p.fittest()));
            }
            None
        };
        if bad.is_none() {
            bad = wrong().map(|m| format!("generation {count}: {m}: {:?}", p.iter().collect::<Vec<_>>()));
        }
        (last, best) = (top, best.max(top));
        if s.n <= 6 {
            trace.push(p.iter().map(|t| t.genome.clone()).collect::<Vec<_>>());
        }
        count += 1;
        bad.is_none() && count <= s.generations
    };
    let first = || Tour { genome: genes.clone(), score: 0.0 };
    let list = || s.list.iter().map(|g| Tour { genome: g.clone(), score: 0.0 }).collect();
    let end = catch(|| {
        macro_rules! start {
            ($e:expr, $p:expr) => {{
                let (e, p) = ($e, $p);
                match s.how {
                    0 => e.run(&s.genes, &p, progress),
                    1 => e.evolve_individual(first(), &p, progress),
                    _ => e.evolve_population(list(), &p, progress).take_fittest(),
                }
            }};
        }
        if s.adaptive {
            start!(
                AdaptiveGeneticAlgorithm::build_evolution(p),
                AdaptiveGeneticAlgorithmParameters {
                    population_size: s.n,
                    elitism_rate,
                    crossover_rate_range: s.rates.0 / 2.0..s.rates.0,
                    mutation_rate_range: s.rates.1 / 2.0..s.rates.1,
                    selection_strategy: s.strategy,
                    parameter_adjustment_interval: 1,
                }
            )
        } else {
            start!(
                GeneticAlgorithm::build_evolution(p),
                GeneticAlgorithmParameters { population_size: s.n, elitism_rate, crossover_rate: s.rates.0, mutation_rate: s.rates.1, selection_strategy: s.strategy }
            )
        }
    });
    state(&(&trace, best.to_bits(), s.genes));
    sample(|| format!("{what}: {trace:?} -> {:?}", end));
    if let Some(m) = bad {
        return Err(format!("{what}: {m}; {trace:?}"));
    }
    let end = end.map_err(|m| format!("{what}: panicked: {m}; {trace:?}"))?;
    ensure!(is_permutation_of(&end.genome, &genes) && end.score == score(kind, &end.genome), "{what}: returned {end:?}");
    ensure!(s.how == 2 || end.score == best, "{what}: returned {end:?}, the best had {best}; {trace:?}");
    Ok(())
}

const CROSSOVERS: [CrossoverStrategy; 6] = [
    CrossoverStrategy::GeneralizedPartition2,
    CrossoverStrategy::SequentialConstructive,
    CrossoverStrategy::EdgeRecombination,
    CrossoverStrategy::PartiallyMapped,
    CrossoverStrategy::Order,
    CrossoverStrategy::Cycle,
];
const MUTATIONS: [MutationStrategy; 4] = [MutationStrategy::Swap, MutationStrategy::Scramble, MutationStrategy::Inversion, MutationStrategy::Insertion];
const SELECTIONS: [SelectionStrategy; 6] = [
    SelectionStrategy::Tournament(2),
    SelectionStrategy::RouletteWheel,
    SelectionStrategy::Rank,
    SelectionStrategy::Linear(1.5),
    SelectionStrategy::Elitist(0.5),
    SelectionStrategy::Boltzmann(2.0, 0.9),
];

pub fn n01(r: &Runner) {
    let problem = || Problem { crossover: pick(&CROSSOVERS), mutation: pick(&MUTATIONS), kind: 0, local: false };
    r.explore("all draws of one generation", Opts { fresh: true, min_weight: 0.0, unit: Unit::Grid(2), ..Default::default() }, || {
        let mut p = problem();
        p.kind = choose(3);
        let genes = 3 + choose(if r.thorough { 2 } else { 1 });
        let list = vec![(0..genes).collect(), permutation(genes, choose(factorial(genes)))];
        run(p, Setting { adaptive: false, genes, n: 2, elites: choose(2), strategy: SelectionStrategy::Tournament(1), rates: (0.5, 0.5), generations: 1, how: 2, list })
    });
    r.explore("short runs, deviations from patterns of draws", Opts::fresh(), || {
        let mut p = problem();
        let adaptive = flag();
        p.local = adaptive;
        p.kind = adaptive as usize;
        let strategy = pick(&SELECTIONS);
        let base = pick(&[Pattern::Zero, Pattern::Max, Pattern::Weyl(1), Pattern::Weyl(2), Pattern::Const(0.4)]);
        let how = choose(2);
        set_pattern(Some(base));
        set_deviations(1);
        run(p, Setting { adaptive, genes: 5, n: 4, elites: 1, strategy, rates: (0.75, 0.5), generations: if r.thorough { 4 } else { 2 }, how, list: vec![] })
    });
    r.explore("long runs", Opts::fresh(), || {
        let mut p = problem();
        let (adaptive, elites, how) = (flag(), choose(2), choose(3));
        let n = pick(&[3, 12, 40]);
        let genes = pick(&[0, 1, 2, 6, 20, 40]);
        set_salt(if r.thorough { choose(6) } else { genes + n } as u64);
        p.kind = if r.thorough { choose(3) } else { (how + adaptive as usize) % 3 };
        p.local = genes <= 6 && elites == 1;
        let strategy = pick(&SELECTIONS);
        let rates = if elites == 0 { (1.0, 1.0) } else { (0.75, 0.25) };
        let list = (0..n + 3).map(|k| family(genes, k % FAMILIES)).collect();
        set_workers(if r.thorough { pick(&[1, 4]) } else { 4 - how });
        set_pattern(Some(pick(if r.thorough { &[Pattern::Zero, Pattern::Max, Pattern::Alternate, Pattern::Weyl(1), Pattern::Weyl(2)] } else { &[Pattern::Alternate, Pattern::Weyl(1)][..] })));
        run(p, Setting { adaptive, genes, n, elites, strategy, rates, generations: if r.thorough { 40 } else { 10 }, how, list })
    });
    r.explore("many individuals, many generations", Opts::fresh(), || {
        let mut p = problem();
        let (adaptive, elites) = (flag(), choose(2));
        let many = flag();
        let (n, genes, generations) = if many {
            let n = upto(if r.thorough { 41 } else { 65 }, if r.thorough { 72 } else { 65 }, &[100, 128, 257, 1000]);
            (n, pick(&[7, 12]), if n < 300 { 4 } else { 2 })
        } else {
            (pick(&[2, 5]), pick(&[4, 9]), if r.thorough { 1100 } else { 300 })
        };
        p.kind = choose(3);
        let strategy = if many { SELECTIONS[(n + p.kind) % SELECTIONS.len()] } else { pick(&SELECTIONS) };
        let rates = pick(&[(0.75, 0.25), (1.0, 1.0)]);
        let list = (0..n + 1).map(|k| if genes < 10 { permutation(genes, (k * 37) % factorial(genes)) } else { family(genes, k % FAMILIES) }).collect();
        set_workers(4);
        set_pattern(Some(Pattern::Weyl(1 + elites as u64)));
        run(p, Setting { adaptive, genes, n, elites: elites * (1 + n / 10), strategy, rates, generations, how: if adaptive { 2 } else { choose(2) }, list })
    });
    r.explore("many genes", Opts::fresh(), || {
        let mut p = problem();
        let adaptive = flag();
        p.kind = 1 + choose(2);
        let genes = upto(if r.thorough { 41 } else { 63 }, if r.thorough { 140 } else { 66 }, &[100, 127, 128, 129, 255, 256, 257, 300]);
        set_pattern(Some(pick(if r.thorough { &[Pattern::Weyl(1), Pattern::Weyl(2), Pattern::Alternate][..] } else { &[Pattern::Weyl(1)] })));
        let list = (0..5).map(|k| family(genes, k % FAMILIES)).collect();
        run(p, Setting { adaptive, genes, n: 5, elites: 1, strategy: SelectionStrategy::Rank, rates: (1.0, 0.5), generations: 3, how: if adaptive { 0 } else { 2 }, list })
    });
}
