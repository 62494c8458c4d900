# Planted bugs, seventh batch.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
MODEL='''
use std::sync::{Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
#[derive(Default)]
struct M { calls: AtomicUsize }
impl RandomIndividual<i64> for Ind { fn new_random<R: Rng>(a: &i64, rng: &mut R) -> Self { ind(rng.gen_range(0..*a), f64::NAN) } }
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind((a.id + b.id) / 2, f64::NAN) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { self.calls.fetch_add(1, SeqCst); i.id = rng.gen_range(0..1000); i.fit = f64::NAN; }
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; }
}
'''
SEEDS=[
dict(id='B01-epsilon', needs='parents whose scores differ by less than 2.2e-16',
 breaks='of two parents with nearly equal scores the first one counts as the fitter one',
 edits=[(MO,'''            if parent2.fitness() > parent1.fitness() {''','''            if parent2.fitness() - parent1.fitness() > f64::EPSILON {''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, _: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { ind(3, -1.0) }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.fit = -1.0; }
}
fn main() {
    let p = Population::new(vec![ind(0, 1e-17), ind(1, 3e-17)]);
    let mut r = ReproductionParameters::<M> { crossover_rate: 1.0, mutation_rate: 0.0, parent_selector: Box::new(RankSelection::new()) };
    r.parent_selector.prepare(&p);
    let mut rng = SmallRng::seed_from_u64(4);
    let mut low = 0;
    for _ in 0..4000 { low += (M.breed(&p, &r, &mut rng).id == 0) as usize; }
    // the less fit one only if all selections find the same one
    assert!(low < 200, "{low}");
}
'''),
dict(id='E04-restore', needs='a hook that changes the rates and more than 50 generations without progress',
 breaks='after 50 stagnant generations the standard algorithm takes back the configured rates although the hook has changed them',
 edits=[(GA,'''    population_size: usize,
    elite_size: usize,
    breeding: ReproductionParameters<M>,
}''','''    population_size: usize,
    elite_size: usize,
    rates: (f64, f64),
    breeding: ReproductionParameters<M>,
}'''),(GA,'''        self.breeding.crossover_rate = parameters.crossover_rate;
''','''        self.rates = (parameters.crossover_rate, parameters.mutation_rate);
        self.breeding.crossover_rate = parameters.crossover_rate;
'''),(GA,'''        self.model.pre_generation(population, &mut self.breeding);
''','''        if population.stagnation() == 50 {
            (self.breeding.crossover_rate, self.breeding.mutation_rate) = self.rates;
        }
        self.model.pre_generation(population, &mut self.breeding);
'''),(GA,'''            model,
            population_size: Default::default(),
            elite_size: Default::default(),
''','''            model,
            population_size: Default::default(),
            elite_size: Default::default(),
            rates: Default::default(),
''')],
 demo='''
use std::sync::Mutex;
struct M(Mutex<Vec<f64>>);
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; }
    fn pre_generation(&mut self, p: &Population<Ind>, r: &mut ReproductionParameters<Self>) {
        if p.generation() == 0 { r.mutation_rate = 0.5; }
        assert_eq!(r.mutation_rate, 0.5);
        self.0.lock().unwrap().push(r.mutation_rate);
    }
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 4, elitism_rate: 0.5, mutation_rate: 0.25, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
    GeneticAlgorithm::build_evolution(M(Mutex::default())).evolve_population((0..4).map(|i| ind(i, 0.0)).collect(), &p, |p| p.generation() < 80);
}
'''),
dict(id='E07-large', needs='a population size above 65535',
 breaks='large population sizes are refused',
 edits=[(GA,'''        assert!(self.population_size != 0);''','''        assert!((1..=u16::MAX as usize).contains(&self.population_size));''')],
 demo=MODEL+'''
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 70_000, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
    GeneticAlgorithm::build_evolution(M::default()).evolve_population(vec![ind(1, 1.0)], &p, |_| false);
}
'''),
dict(id='T02-precision', needs='more than nine digits asked for',
 breaks='the text form has at most nine digits after the point',
 edits=[(ST,'''        if let Some(p) = f.precision() {''','''        if let Some(p) = f.precision().map(|p| p.min(9)) {''')],
 demo='''
fn main() {
    let s: Stats = [1.0, 2.0].into_iter().collect();
    assert_eq!(format!("{s:.12}"), "Samples: 2; Min: 1.000000000000; Max: 2.000000000000; Average: 1.500000000000; Variance: 0.500000000000; STD: 0.707106781187");
}
'''),
dict(id='X02-capacity', needs='a list whose capacity grows beyond what was asked for',
 breaks='the list is filled up to its capacity',
 edits=[(MO,'''        individuals.reserve(size);
        individuals.par_extend(
            rayon::iter::repeatn(args, size).map_init''','''        individuals.reserve(size);
        let size = if individuals.is_empty() { size } else { individuals.capacity() - individuals.len() };
        individuals.par_extend(
            rayon::iter::repeatn(args, size).map_init''')],
 demo=MODEL+'''
fn main() {
    let mut list = Vec::with_capacity(7);
    list.extend((0..7).map(|i| ind(i, 0.0)));
    M::default().extend_population(&mut list, 2, &10);
    assert_eq!(list.len(), 9);
}
'''),
dict(id='S03-float', needs='scores of very different magnitude',
 breaks='the sum of the scores is kept in single precision',
 edits=[(SE,'''            cumulative_fitness += individual.fitness();''','''            cumulative_fitness = (cumulative_fitness + individual.fitness()) as f32 as f64;''')],
 demo='''
fn main() {
    // 2^24 is absorbed by single precision: 2000 individuals of score 1 beside one of 2^24
    let mut v = vec![ind(0, 16777216.0)];
    v.extend((1..=4096).map(|i| ind(i, 1.0 + i as f64 * 1e-6)));
    let p = Population::new(v);
    let mut s = RouletteWheelSelection::new();
    SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &p);
    // scores whose sum overflows single precision
    let q = Population::new(vec![ind(0, 1e200), ind(1, 3e200)]);
    let mut s = RouletteWheelSelection::new();
    SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &q);
    let mut rng = SmallRng::seed_from_u64(1);
    let mut first = 0;
    for _ in 0..4000 { first += (s.select(&q, &mut rng).0 == 0) as usize; }
    assert!((800..1200).contains(&first), "{first}");
}
'''),
dict(id='M02-strategy', needs='the duplicate strategy on genomes of more than 64 genes',
 breaks='the duplicate strategy copies from a neighbourhood only if the genome is long',
 edits=[(MU,'''            Self::Duplicate => duplicate_mutation(genome, rng),''','''            Self::Duplicate => match genome.len() {
                n if n > 64 => {
                    let p = rng.gen_range(0..n - 64);
                    duplicate_mutation(&mut genome[p..p + 65], rng)
                }
                _ => duplicate_mutation(genome, rng),
            },''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let mut far = 0;
    for _ in 0..2000 {
        let mut g: Vec<usize> = (0..200).collect();
        MutationStrategy::Duplicate.mutate(&mut g, &mut rng);
        far += g.iter().enumerate().any(|(i, &x)| i.abs_diff(x) > 64) as usize;
    }
    assert!(far > 100, "{far}");
}
'''),
dict(id='E01-exact-chunks', needs='more than 2048 initial individuals',
 breaks='of large initial populations only whole chunks are evaluated',
 edits=[(AL,'''        individuals
            .par_iter_mut()
            .for_each_with(self.model(), |model, individual| model.evaluate(individual));
''','''        if individuals.len() > 2048 {
            individuals.par_chunks_exact_mut(64).for_each_with(self.model(), |model, chunk| {
                chunk.iter_mut().for_each(|individual| model.evaluate(individual))
            });
        } else {
            individuals
                .par_iter_mut()
                .for_each_with(self.model(), |model, individual| model.evaluate(individual));
        }
''')],
 demo=MODEL+'''
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 3, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
    let n = GeneticAlgorithm::build_evolution(M::default()).evolve_population((0..2100).map(|i| ind(i, -5.0)).collect(), &p, |_| false);
    assert!(n.iter().all(|i| i.fit == i.id as f64));
}
'''),
dict(id='E05-capacity', needs='a smaller run after a larger one on the same object',
 breaks='the number of elites never goes down from run to run',
 edits=[(GA,'''        self.elite_size = interpolate_usize(0, parameters.population_size, parameters.elitism_rate);
''','''        self.elite_size = self.elite_size.min(parameters.population_size / 2).max(interpolate_usize(0, parameters.population_size, parameters.elitism_rate));
''')],
 demo=MODEL+'''
fn main() {
    let elites = |e: &Evolution<GeneticAlgorithm<M>, M>| {
        let p = GeneticAlgorithmParameters { population_size: 8, elitism_rate: 0.0, crossover_rate: 0.0, mutation_rate: 0.0, selection_strategy: SelectionStrategy::Tournament(1) };
        let mut kept = true;
        for _ in 0..40 {
            let q = e.evolve_population((0..8).map(|i| ind(i, 0.0)).collect(), &p, |p| p.generation() < 1);
            kept &= q.iter().any(|i| i.id == 7);
        }
        kept
    };
    let fresh = GeneticAlgorithm::build_evolution(M::default());
    assert!(!elites(&fresh));
    let used = GeneticAlgorithm::build_evolution(M::default());
    let p = GeneticAlgorithmParameters { population_size: 8, elitism_rate: 0.5, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
    used.evolve_population((0..8).map(|i| ind(i, 0.0)).collect(), &p, |p| p.generation() < 1);
    assert!(!elites(&used));
}
'''),
dict(id='C04-long-partition', needs='a common partition of more than 255 genes',
 breaks='long common partitions are split',
 edits=[(OP,'''        while let Some(next_node) = partition.last()''','''        while let Some(next_node) = partition.last().filter(|_| partition.len() < 256)''')],
 demo='''
fn main() {
    let g: Vec<usize> = (0..600).collect();
    let p = common_partitions(&g, &g);
    assert!(p.len() == 1 && p[0].len() == 600, "{}", p.len());
}
'''),
dict(id='C04-gpx-same-parents', needs='genomes that are rotations of each other',
 breaks='for parents that are the same cycle the GPX2 offspring is a copy of the first parent and the selector is not asked',
 edits=[(CR,'''    let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());
''','''    if parent1.len() > 8 && parent1.len() == parent2.len() && {
        let n = parent1.len();
        let k = find_position(&parent1[0], parent2).unwrap_or(0);
        (0..n).all(|i| parent1[i] == parent2[(i + k) % n])
    } {
        return parent1.to_vec();
    }

    let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());
''')],
 demo='''
fn main() {
    let a: Vec<usize> = (0..12).collect();
    let mut b = a.clone();
    b.rotate_left(5);
    let mut asked = 0;
    generalized_partition_2_crossover(&a, &b, |_, _| { asked += 1; 0 });
    assert_eq!(asked, 1);
}
'''),
dict(id='C02-pmx-repeat', needs='a mapping chain longer than 32 steps',
 breaks='PMX gives up following a mapping chain after 32 steps',
 edits=[(CR,'''            while let Some(pos) = find_position(&mapped_gene, start) {
                mapped_gene = end[pos];
            }''','''            let mut steps = 0;
            while let Some(pos) = find_position(&mapped_gene, start).filter(|_| steps < 100) {
                mapped_gene = end[pos];
                steps += 1;
            }''')],
 demo='''
fn main() {
    let a: Vec<usize> = (0..200).collect();
    let mut b = a.clone();
    b.rotate_left(1);
    let mut o = partially_mapped_crossover(&a, &b, 0..199);
    o.sort();
    assert_eq!(o, a);
}
'''),

]
