# Planted bugs, sixth batch.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
MODEL='''
use std::sync::{Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
#[derive(Default)]
struct M { calls: AtomicUsize }
impl RandomIndividual<i64> for Ind { fn new_random<R: Rng>(a: &i64, rng: &mut R) -> Self { ind(rng.gen_range(0..*a), f64::NAN) } }
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind((a.id + b.id) / 2, f64::NAN) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { self.calls.fetch_add(1, SeqCst); i.id = rng.gen_range(0..1000); i.fit = f64::NAN; }
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; }
}
'''
SEEDS=[
dict(id='E08-initial-order', needs='initial individuals of equal fitness whose evaluations finish in another order',
 breaks='the initial individuals are collected in the order in which their evaluation finishes, so that another one of several equally fit individuals is returned',
 edits=[(AL,'''        individuals
            .par_iter_mut()
            .for_each_with(self.model(), |model, individual| model.evaluate(individual));
        individuals.retain(|individual| individual.is_valid());''','''        let evaluated = std::sync::Mutex::new(Vec::with_capacity(individuals.len()));
        individuals
            .par_drain(..)
            .for_each_with(self.model(), |model, mut individual| {
                model.evaluate(&mut individual);
                if individual.is_valid() {
                    evaluated.lock().unwrap().push(individual);
                }
            });
        let individuals = evaluated.into_inner().unwrap();''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) {
        if i.id % 8 == 3 { std::thread::sleep(std::time::Duration::from_millis(20)); }
        i.fit = 1.0;
    }
}
fn order(threads: usize) -> Vec<i64> {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(|| {
        let p = GeneticAlgorithmParameters { population_size: 4, ..Default::default() };
        GeneticAlgorithm::build_evolution(M).evolve_population((0..19).map(|i| ind(i, 0.0)).collect(), &p, |_| false).iter().map(|i| i.id).collect()
    })
}
fn main() {
    let expected = order(1);
    for _ in 0..5 { assert_eq!(order(4), expected); }
}
'''),
dict(id='P01-large', needs='lists of more than 4096 individuals with duplicates',
 breaks='in large lists only neighbouring duplicates are removed',
 edits=[(PO,'''    remove_duplicates_of_same_fitness(individuals);
''','''    if individuals.len() <= 4096 {
        remove_duplicates_of_same_fitness(individuals);
    }
''')] if False else [(PO,'''    individuals.dedup();
''','''    if individuals.len() > 4096 {
        return individuals.iter().map(|i| i.fitness()).collect::<Stats>().try_into().unwrap();
    }
    individuals.dedup();
''')],
 demo='''
fn main() {
    for n in [10i64, 5000] {
        let p = Population::new((0..n).map(|i| ind(i / 2, (i / 2) as f64)).collect());
        assert_eq!(p.len() as i64, n / 2);
    }
}
'''),
dict(id='I01-single', needs='integers above 2^24',
 breaks='integers are interpolated in single precision if both are below 2^32',
 edits=[(LI,'''    (min as f64 + (max - min) as f64 * ratio) as usize''','''    if max <= 1 << 20 {
        (min as f64 + (max - min) as f64 * ratio) as usize
    } else {
        (min as f32 + (max - min) as f32 * ratio as f32) as usize
    }''')],
 demo='''
fn main() { assert_eq!(interpolate_usize(0, 100_000_002, 0.5), 50_000_001); assert_eq!(interpolate_usize(0, 100, 0.5), 50); }
'''),
dict(id='O01-evaluate-words', needs='strings longer than 128 whose length is no multiple of 64',
 breaks='the fitness of strings longer than 128 only counts whole words of 64 bits',
 edits=[(LI,'''            let one_bits = individual.genome.iter().filter(|&&one| one).count();
            let total_bits = individual.genome.len();''','''            let total_bits = individual.genome.len();
            let one_bits = if total_bits <= 128 {
                individual.genome.iter().filter(|&&one| one).count()
            } else {
                let words = individual.genome.chunks_exact(64);
                words.map(|word| word.iter().filter(|&&one| one).count()).sum()
            };''')],
 demo='''
use rusty_genes::one_max::*;
fn main() {
    for n in [5, 128, 200] { let mut i = OneMax::from(vec![true; n]); OneMaxEvolutionModel.evaluate(&mut i); assert_eq!(i.fitness(), 1.0); }
}
'''),
dict(id='C03-erx-multi', needs='parents that share an edge, so that a gene has the same neighbour twice',
 breaks='ERX counts a neighbour in both parents twice',
 edits=[(CR,'''                .or_insert_with(HashSet::new)
                .extend(neighbors);''','''                .or_insert_with(Vec::new)
                .extend(neighbors);'''),(CR,'''            neighbors.remove(&current);''','''            neighbors.retain(|gene| *gene != current);''')],
 demo='''
fn main() {
    // the first step, for all second parents of six genes
    let a = [0usize, 1, 2, 3, 4, 5];
    for code in 0..720usize {
        let (mut c, mut rest, mut b) = (code, a.to_vec(), vec![]);
        for k in (1..=6).rev() { b.push(rest.remove(c % k)); c /= k; }
        let near = |g: usize| -> std::collections::BTreeSet<usize> {
            [&a[..], &b[..]].iter().flat_map(|p| { let i = p.iter().position(|x| *x == g).unwrap(); [p[(i + 1) % 6], p[(i + 5) % 6]] }).collect()
        };
        let degree = |g: usize| near(g).iter().filter(|x| **x != 0).count();
        let o = edge_recombination_crossover(&a, &b, 0);
        assert_eq!(degree(o[1]), near(0).iter().map(|g| degree(*g)).min().unwrap(), "{b:?} {o:?}");
    }
}
'''),
dict(id='B02-pair', needs='a population of two individuals',
 breaks='there is no crossover in a population of two individuals',
 edits=[(MO,'''let parent2 = if population.len() > 1 && rng''','''let parent2 = if population.len() > 2 && rng''')],
 demo=MODEL+'''
struct C(AtomicUsize);
impl EvolutionModel for C {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(3) }
    fn crossover(&self, _: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { self.0.fetch_add(1, SeqCst); ind(-1, 0.0) }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.fit = 1.0; }
}
fn main() {
    let c = C(AtomicUsize::new(0));
    let p = Population::new((0..2).map(|i| ind(i, 1.0)).collect());
    let b = ReproductionParameters::<C> { crossover_rate: 1.0, mutation_rate: 0.0, parent_selector: Box::new(RankSelection::new()) };
    let mut rng = SmallRng::seed_from_u64(1);
    for _ in 0..100 { c.breed(&p, &b, &mut rng); }
    assert!(c.0.load(SeqCst) > 0);
}
'''),
dict(id='S04-rank-override', needs='rank selection that selects the excluded individual',
 breaks='rank selection takes the next rank instead of selecting again',
 edits=[(SE,'''        let n = population.len();
        let total_ranks = n * (n + 1) / 2;''','''        let n = population.len();
        let total_ranks: usize = n * (n + 1) / 2;'''),(SE,'''        (0, population.first().unwrap())
    }
}''','''        (0, population.first().unwrap())
    }

    #[inline]
    fn select_distinct<'a>(
        &self,
        population: &'a Population<I>,
        rng: &mut R,
        max_tries: usize,
        excluded: &I,
    ) -> Option<(usize, &'a I)> {
        if max_tries == 0 || population.len() < 2 {
            return None;
        }
        let (index, individual) = self.select(population, rng);
        if individual != excluded {
            Some((index, individual))
        } else {
            let next = (index + 1) % population.len();
            Some((next, &population[next]))
        }
    }
}''')],
 demo='''
fn main() {
    // excluding the fittest of two, one try fails with probability 2/3
    let p = Population::new(vec![ind(0, 0.0), ind(1, 1.0)]);
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..100).any(|_| RankSelection::new().select_distinct(&p, &mut rng, 1, &ind(1, 1.0)).is_none()));
}
'''),
dict(id='P02-best-ever', needs='a population that loses its best individual and then improves to less than that',
 breaks='the stagnation is only reset by a new best of the whole history',
 edits=[(PO,'''        if self.stats.max() > previous_best {
            self.stagnation = 0;''','''        self.best = self.best.max(previous_best);
        if self.stats.max() > self.best {
            self.stagnation = 0;'''),(PO,'''    stagnation: usize,
    stats''','''    stagnation: usize,
    best: f64,
    stats'''),(PO,'''            stagnation: 0,
''','''            stagnation: 0,
            best: f64::NEG_INFINITY,
''')],
 demo='''
fn main() {
    let mut p = Population::new(vec![ind(0, 5.0)]);
    p.replace(&mut vec![ind(1, 1.0)]);
    p.replace(&mut vec![ind(2, 2.0)]);
    assert_eq!(p.stagnation(), 0);
}
'''),
dict(id='S03-static-total', needs='two selectors at work on different populations of the same generation and size',
 breaks='the total fitness is shared by all roulette wheels with populations of the same generation and size',
 edits=[(SE,'''        self.total_fitness = population.iter().map(|i| i.fitness()).sum();''','''        self.total_fitness = population.iter().map(|i| i.fitness()).sum();
        static CACHE: std::sync::Mutex<Option<(usize, usize, f64, f64)>> = std::sync::Mutex::new(None);
        let mut cache = CACHE.lock().unwrap();
        if let Some((generation, len, max, total)) = *cache {
            if generation == population.generation()
                && len == population.len()
                && max == population.stats().max()
            {
                self.total_fitness = total;
            }
        }
        *cache = Some((population.generation(), population.len(), population.stats().max(), self.total_fitness));''')],
 demo='''
fn main() {
    let (p, q) = (Population::new(vec![ind(0, 1.0), ind(1, 4.0)]), Population::new(vec![ind(0, 3.0), ind(1, 4.0)]));
    let mut rng = SmallRng::seed_from_u64(1);
    let mut low = vec![];
    for x in [&p, &q] {
        let mut s = RouletteWheelSelection::new();
        SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, x);
        low.push((0..10000).filter(|_| s.select(x, &mut rng).0 == 0).count());
    }
    assert!(low[0].abs_diff(2000) < 200 && low[1].abs_diff(4286) < 200, "{low:?}");
}
'''),
dict(id='E02-offspring-elite', needs='a generation whose elites alone fill the population but for one slot, several times in a row',
 breaks='the adaptive algorithm keeps one elite less while the population stagnates for more than ten generations',
 edits=[(AG,'''            let range_start = population.len().saturating_sub(self.elite_size);
            elites.extend(''','''            let kept = if population.stagnation() > 10 && self.elite_size > 1 { self.elite_size - 1 } else { self.elite_size };
            let range_start = population.len().saturating_sub(kept);
            elites.extend(''')],
 demo=MODEL+'''
fn main() {
    let p = AdaptiveGeneticAlgorithmParameters { population_size: 10, elitism_rate: 0.9, crossover_rate_range: 0.0..0.0, mutation_rate_range: 0.0..0.0, selection_strategy: SelectionStrategy::Elitist(0.9), ..Default::default() };
    let pop = AdaptiveGeneticAlgorithm::build_evolution(M::default()).evolve_population((0..10).map(|i| ind(i, 0.0)).collect(), &p, |p| p.generation() < 20);
    assert_eq!(pop.len(), 9);
}
'''),
]
