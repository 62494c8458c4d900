# Planted bugs, thirteenth batch: operations with a memory.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
RUN='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Ind, b: &Ind, rng: &mut SmallRng) -> Ind { ind(a.id + b.id + rng.gen_range(0..50), 0.0) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { i.id += rng.gen_range(0..1000); }
    fn evaluate(&self, i: &mut Ind) { i.fit = (i.id % 997) as f64; }
}
'''
SEEDS=[
dict(id='F01-cycle-buffer', needs='a cycle crossover that panics because the parents have different genes, then another one on the same thread',
 breaks='the marks of an unfinished cycle crossover are left in the buffer of the next one',
 edits=[(CR,'''    let mut visited = vec![false; n];

    let mut cycle_start = 0;''','''    let mut visited = VISITED.with(|v| std::mem::take(&mut *v.borrow_mut()));
    visited.resize(n, false);
    let mut marks = Marks(visited);
    let visited = &mut marks.0;

    let mut cycle_start = 0;'''),
 (CR,'''        if let Some(next_start) = visited.iter().position(|&x| !x) {
            cycle_start = next_start;
        } else {
            break;
        }
    }

    offspring
}''','''        if let Some(next_start) = visited.iter().position(|&x| !x) {
            cycle_start = next_start;
        } else {
            break;
        }
    }
    visited.clear();

    offspring
}

std::thread_local! {
    /// Reused by all cycle crossovers of a thread.
    static VISITED: std::cell::RefCell<Vec<bool>> = std::cell::RefCell::new(Vec::new());
}

/// Gives the buffer back.
struct Marks(Vec<bool>);

impl Drop for Marks {
    fn drop(&mut self) {
        VISITED.with(|v| *v.borrow_mut() = std::mem::take(&mut self.0));
    }
}''')],
 demo='''
fn main() {
    let (a, b) = ([1, 2, 3, 4, 5, 6], [2, 1, 4, 3, 6, 5]);
    let first = cycle_crossover(&a, &b);
    assert!(std::panic::catch_unwind(|| cycle_crossover(&[1, 2, 3, 4], &[2, 7, 8, 9])).is_err());
    assert_eq!(cycle_crossover(&a, &b), first);
}
'''),
dict(id='F01-elitist-bound', needs='two elitist selectors with different ratios used on the same thread with populations of the same size',
 breaks='the bound of an elitist selection is remembered for the size of the population only',
 edits=[(SE,'''        let selection_bound = (population.len() as f64 * self.ratio).floor() as usize;
        let index''','''        let selection_bound = BOUND.with(|bound| {
            let (size, known) = bound.get();
            if size == population.len() {
                return known;
            }
            let selection_bound = (population.len() as f64 * self.ratio).floor() as usize;
            bound.set((population.len(), selection_bound));
            selection_bound
        });
        let index'''),
 (SE,'''pub struct ElitistSelection {''','''std::thread_local! {
    /// The size of the last population and the bound for it.
    static BOUND: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0));
}

pub struct ElitistSelection {''')],
 after=None,
 demo='''
fn main() {
    let p = pop(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0]);
    let mut rng = SmallRng::seed_from_u64(1);
    for (ratio, bound) in [(0.2, 2), (0.7, 7)] {
        let s = SelectionStrategy::Elitist(ratio).create_selector::<Ind, SmallRng>();
        for _ in 0..200 { assert!(s.select(&p, &mut rng).0 >= bound); }
    }
}
'''),
dict(id='F01-rank-sum', needs='rank selections from populations whose sizes differ by a multiple of 256 on one thread',
 breaks='the sum of the ranks is cached by the low byte of the population size',
 edits=[(SE,'''        let total_ranks = n * (n + 1) / 2;
        let target_rank''','''        let total_ranks = RANKS.with(|ranks| {
            let mut ranks = ranks.borrow_mut();
            let known = &mut ranks[n % 256];
            if *known == 0 {
                *known = n * (n + 1) / 2;
            }
            *known
        });
        let target_rank'''),
 (SE,'''impl RankSelection {''','''std::thread_local! {
    /// Sums of ranks, computed once.
    static RANKS: std::cell::RefCell<[usize; 256]> = std::cell::RefCell::new([0; 256]);
}

impl RankSelection {''')],
 demo='''
fn main() {
    let small = pop(&[1.0, 2.0, 3.0, 4.0]);
    let large = pop(&(0..260).map(|i| i as f64).collect::<Vec<_>>());
    let mut rng = SmallRng::seed_from_u64(1);
    let s = SelectionStrategy::Rank.create_selector::<Ind, SmallRng>();
    s.select(&small, &mut rng);
    assert!((0..100).any(|_| s.select(&large, &mut rng).0 > 100));
}
'''),
dict(id='F01-fallback', needs='two sequential constructive crossovers with a fallback to the first unvisited gene on one thread, the later one with a smaller first unvisited position',
 breaks='the position where the search for an unvisited gene begins is not reset between crossovers',
 edits=[(CR,'''        *next = if is_next1_visited && is_next2_visited {
            // Both genes are visited; select an unvisited one
            parent1
                .iter()
                .find(|gene| !visited.contains(gene))
                .copied()
                .unwrap()''','''        *next = if is_next1_visited && is_next2_visited {
            // Both genes are visited; select an unvisited one; what was visited before stays visited
            let start = START.with(|start| start.get()) % n;
            let found = (start..n)
                .chain(0..start)
                .find(|&i| !visited.contains(&parent1[i]))
                .unwrap();
            START.with(|start| start.set(found));
            parent1[found]'''),
 (CR,'''pub fn sequential_constructive_crossover<G>(''','''std::thread_local! {
    static START: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

#[allow(missing_docs)]
pub fn sequential_constructive_crossover<G>(''')],
 demo='''
fn main() {
    let a = [0usize, 1, 2, 3, 4, 5, 6, 7];
    // all pairs with one order fixed, twice: the results do not depend on the history
    let orders = [[3usize, 1, 0, 2, 5, 7, 4, 6], [7, 5, 3, 1, 6, 4, 2, 0], [4, 0, 6, 2, 7, 3, 5, 1], [1, 3, 0, 2, 7, 4, 6, 5]];
    let fresh: Vec<_> = orders.iter().flat_map(|b| (0..8).map(move |p| (*b, p))).map(|(b, p)| std::thread::spawn(move || sequential_constructive_crossover(&[0, 1, 2, 3, 4, 5, 6, 7], &b, p)).join().unwrap()).collect();
    let later: Vec<_> = orders.iter().flat_map(|b| (0..8).map(move |p| (*b, p))).map(|(b, p)| sequential_constructive_crossover(&a, &b, p)).collect();
    assert_eq!(fresh, later);
}
'''),
dict(id='F01-interpolate', needs='two interpolations with the same ratio, minimum and difference of low bits',
 breaks='an interpolation is remembered by its minimum and ratio only',
 edits=[(LI,'''pub fn interpolate_f64(min: f64, max: f64, ratio: f64) -> f64 {''','''pub fn interpolate_f64(min: f64, max: f64, ratio: f64) -> f64 {
    std::thread_local! {
        static LAST: std::cell::Cell<(f64, f64, f64)> = std::cell::Cell::new((f64::NAN, 0.0, 0.0));
    }
    LAST.with(|last| {
        let (known_min, known_ratio, value) = last.get();
        if known_min == min && known_ratio == ratio {
            return value;
        }
        let value = interpolate(min, max, ratio);
        last.set((min, ratio, value));
        value
    })
}

fn interpolate(min: f64, max: f64, ratio: f64) -> f64 {''')],
 demo='''
fn main() { assert_eq!(interpolate_f64(1.0, 3.0, 0.5), 2.0); assert_eq!(interpolate_f64(1.0, 5.0, 0.5), 3.0); }
'''),
dict(id='F01-elite-cache', needs='two runs in one process with the same population size and different elitism rates',
 breaks='the number of elites is remembered by the population size',
 edits=[(GA,"""        self.elite_size = interpolate_usize(0, parameters.population_size, parameters.elitism_rate);
""","""        self.elite_size = elite_size(parameters.population_size, parameters.elitism_rate);
"""),(GA,"""impl<M: EvolutionModel> From<M> for GeneticAlgorithm<M> {""","""/// The number of elites in a population of this size.
fn elite_size(population_size: usize, elitism_rate: f64) -> usize {
    static SIZES: std::sync::OnceLock<std::sync::Mutex<std::collections::HashMap<usize, usize>>> =
        std::sync::OnceLock::new();
    *SIZES
        .get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry(population_size)
        .or_insert_with(|| interpolate_usize(0, population_size, elitism_rate))
}

impl<M: EvolutionModel> From<M> for GeneticAlgorithm<M> {""")],
 demo=RUN+"""
fn best(elitism_rate: f64) -> usize {
    // how many members of the first population are in the next one
    let mut first: Vec<u64> = vec![];
    let mut kept = 0;
    let parameters = GeneticAlgorithmParameters { population_size: 40, elitism_rate, crossover_rate: 1.0, mutation_rate: 1.0, ..Default::default() };
    GeneticAlgorithm::build_evolution(M).evolve_population((0..40).map(|i| ind(i * 31 % 900, 0.0)).collect(), &parameters, |p| {
        if p.generation() == 0 { first = p.iter().map(|i| i.id as u64).collect(); } else { kept = p.iter().filter(|i| first.contains(&(i.id as u64))).count(); }
        p.generation() < 1
    });
    kept
}
fn main() { best(0.0); assert!(best(0.9) >= 36); }
"""),
]
