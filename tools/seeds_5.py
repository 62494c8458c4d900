# Planted bugs, fifth batch.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
MODEL='''
use std::sync::{Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
#[derive(Default)]
struct M { calls: AtomicUsize }
impl RandomIndividual<i64> for Ind { fn new_random<R: Rng>(a: &i64, rng: &mut R) -> Self { ind(rng.gen_range(0..*a), f64::NAN) } }
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind((a.id + b.id) / 2, f64::NAN) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { self.calls.fetch_add(1, SeqCst); i.id = rng.gen_range(0..1000); i.fit = f64::NAN; }
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; }
}
'''
SEEDS=[
dict(id='D01-interval', needs='a run of the adaptive algorithm with its default parameters for two generations in which the diversity changes',
 breaks='the default adjustment interval is 2 instead of 1',
 edits=[(AG,'''            parameter_adjustment_interval: 1,''','''            parameter_adjustment_interval: 2,''')],
 demo='''
fn main() { assert_eq!(AdaptiveGeneticAlgorithmParameters::default().parameter_adjustment_interval, 1); }
'''),
dict(id='D01-elite-count', needs='default parameters of the standard algorithm and a best individual lost by chance',
 breaks='the default elitism rate of the standard algorithm is too small for its default population to keep an elite',
 edits=[(GA,'''            elitism_rate: 0.01,
            crossover_rate: 0.8,''','''            elitism_rate: 0.001,
            crossover_rate: 0.8,''')],
 demo='''
fn main() {
    let p = GeneticAlgorithmParameters::default();
    assert_eq!(interpolate_usize(0, p.population_size, p.elitism_rate), 1);
    assert_eq!(p.elitism_rate, 0.01);
}
'''),
dict(id='D01-default-algorithm', needs='an evolution object made by default',
 breaks='an evolution object made by default carries a configured mark, and its first run keeps whatever rates it was born with: 0.0 for mutation',
 edits=[(GA,'''        self.breeding.mutation_rate = parameters.mutation_rate;''','''        if !(self.population_size == usize::MAX) {
            self.breeding.mutation_rate = parameters.mutation_rate;
        }'''),
  (GA,'''        self.population_size = parameters.population_size;
''',''''''),
  (GA,'''        self.breeding.parent_selector = parameters.selection_strategy.create_selector();''','''        self.population_size = parameters.population_size;
        self.breeding.parent_selector = parameters.selection_strategy.create_selector();'''),
  (GA,'''        Self::from(M::default())
    }''','''        let mut result = Self::from(M::default());
        result.population_size = usize::MAX;
        result.breeding.mutation_rate = 0.0;
        result
    }''')],
 demo=MODEL+'''
fn main() {
    let calls = std::cell::Cell::new(0usize);
    for k in 0..2 {
        let e: Evolution<GeneticAlgorithm<M>, M> = if k == 0 { GeneticAlgorithm::build_evolution(M::default()) } else { Default::default() };
        let p = GeneticAlgorithmParameters { mutation_rate: 1.0, crossover_rate: 0.0, population_size: 20, ..Default::default() };
        // mutation draws ids below 1000, the initial ones are above
        let best = e.evolve_population((0..20).map(|i| ind(-5000 - i, 0.0)).collect(), &p, |p| p.generation() < 2).take_fittest();
        assert!(best.id >= 0, "{k}: {}", best.id);
        calls.set(calls.get() + 1);
    }
}
'''),
dict(id='D01-default-range', needs='the default crossover range of the adaptive algorithm and a population that loses all of its diversity',
 breaks='the default crossover range of the adaptive algorithm starts at 0.1, the default mutation range at 0.3: swapped',
 edits=[(AG,'''            crossover_rate_range: 0.3..1.0,
            mutation_rate_range: 0.1..1.0,''','''            crossover_rate_range: 0.1..1.0,
            mutation_rate_range: 0.3..1.0,''')],
 demo='''
fn main() {
    let p = AdaptiveGeneticAlgorithmParameters::default();
    assert_eq!((p.crossover_rate_range, p.mutation_rate_range), (0.3..1.0, 0.1..1.0));
}
'''),

dict(id='W01-cached', needs='an individual whose fitness is changed through its wrapper',
 breaks='the wrapper keeps the fitness it was created with',
 edits=[(IN,'''    i: I,
}''','''    i: I,
    fitness: f64,
}'''),(IN,'''        self.i.fitness() == other.i.fitness()''','''        self.fitness == other.fitness'''),
 (IN,'''        self.i.fitness().partial_cmp(&other.i.fitness())''','''        self.fitness.partial_cmp(&other.fitness)'''),
 (IN,'''        Self { i }''','''        let fitness = i.fitness();
        Self { i, fitness }''')],
 demo='''
fn main() {
    let (mut a, b) = (IndividualWrapper::from(ind(1, 1.0)), IndividualWrapper::from(ind(2, 2.0)));
    assert!(a < b);
    a.fit = 3.0;
    assert!(a > b && a != b);
}
'''),
dict(id='S02-elitist-single', needs='a ratio whose product with the population size is just below an integer',
 breaks='elitist selection multiplies in single precision and leaves out one more individual',
 edits=[(SE,'''(population.len() as f64 * self.ratio).floor() as usize''','''(population.len() as f32 * self.ratio as f32).floor() as usize''')],
 demo='''
fn main() {
    // 0.29 * 100 is 28.999999999999996
    let p = Population::new((0..100).map(|i| ind(i, i as f64)).collect());
    let s = ElitistSelection::new(0.29);
    let mut rng = SmallRng::seed_from_u64(1);
    let lowest = (0..20000).map(|_| s.select(&p, &mut rng).0).min().unwrap();
    assert_eq!(lowest, 28);
}
'''),
dict(id='S03-set-late', needs='a temperature set after some preparations',
 breaks='a temperature that is set later is cooled by the preparations before',
 edits=[(SE,'''    total_scaled_fitness: f64,
}''','''    total_scaled_fitness: f64,
    initial: f64,
    preparations: i32,
}'''),(SE,'''            total_scaled_fitness: 0.0,
        }''','''            total_scaled_fitness: 0.0,
            initial: temperature,
            preparations: 0,
        }'''),(SE,'''        self.temperature *= self.cooling_rate;''','''        self.preparations += 1;
        self.temperature = self.initial * self.cooling_rate.powi(self.preparations);'''),
 (SE,'''        self.temperature = temperature
''','''        self.temperature = temperature;
        self.initial = temperature;
''')],
 demo='''
fn main() {
    let p = Population::new((0..2).map(|i| ind(i, i as f64)).collect());
    let mut s = BoltzmannSelection::new(1.0, 0.5);
    for _ in 0..10 { SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &p); }
    s.set_temperature(2.0);
    SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &p);
    let mut rng = SmallRng::seed_from_u64(1);
    let low = (0..10000).filter(|_| s.select(&p, &mut rng).0 == 0).count();
    assert!(low > 2000, "{low}");
}
'''),
dict(id='E07-strategy-clamp', needs='a tournament of size zero given as the strategy of a run',
 breaks='a strategy with a tournament of size zero is taken for size one',
 edits=[(SE,'''Box::new(TournamentSelection::new(*size))''','''Box::new(TournamentSelection::new(1.max(*size)))''')],
 demo='''
fn main() {
    assert!(std::panic::catch_unwind(|| SelectionStrategy::Tournament(0).create_selector::<Ind, SmallRng>().select(&Population::new(vec![ind(1, 1.0)]), &mut SmallRng::seed_from_u64(1)).0).is_err());
}
'''),
dict(id='S04-zero-tries', needs='zero tries',
 breaks='with zero tries one selection is made',
 edits=[(SE,'''for _ in 0..max_tries {''','''for _ in 0..max_tries.max(1) {''')],
 demo='''
fn main() {
    let p = Population::new(vec![ind(1, 1.0)]);
    let s = TournamentSelection::new(1);
    assert!(s.select_distinct(&p, &mut SmallRng::seed_from_u64(1), 0, &ind(5, 0.0)).is_none());
}
'''),
dict(id='C05-point-byte', needs='genomes of more than 256 genes and the single point strategy',
 breaks='the point of the single point strategy is never behind the first 256 genes',
 edits=[(CR,'''let point = rng.gen_range(0..parent1.len());''','''let point = rng.gen_range(0..parent1.len().min(256));''')],
 demo='''
fn main() {
    let (a, b) = (vec![0; 400], vec![1; 400]);
    let mut rng = SmallRng::seed_from_u64(1);
    let most = (0..2000).map(|_| CrossoverStrategy::SinglePoint.crossover(&a, &b, &mut rng).iter().filter(|&&x| x == 0).count()).max().unwrap();
    assert!(most > 300, "{most}");
}
'''),
dict(id='C05-gpx-many', needs='parents with more than sixteen common partitions and the GPX2 strategy',
 breaks='the GPX2 strategy chooses among the first sixteen remaining partitions only',
 edits=[(CR,'''rng.gen_range(0..partitions.len())''','''rng.gen_range(0..partitions.len().min(16))''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(7);
    use rand::seq::SliceRandom;
    let a: Vec<usize> = (0..40).collect();
    let mut b = a.clone();
    while common_partitions(&a, &b).len() < 30 { b.shuffle(&mut rng); }
    let last = common_partitions(&a, &b).last().unwrap()[0];
    assert!((0..2000).any(|_| CrossoverStrategy::GeneralizedPartition2.crossover(&a, &b, &mut rng)[0] == last));
}
'''),
dict(id='R01-zero-length', needs='a bounded random range with a minimum length of zero',
 breaks='a bounded random range is never empty, although a minimum length of zero is given',
 edits=[(OP,'''let length = rng.gen_range(min_len..=max_len);''','''let length = rng.gen_range(min_len.max(1)..=max_len);''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..1000).any(|_| bounded_random_range(4, 0, 2, &mut rng).is_empty()));
}
'''),
dict(id='E08-worker-generator', needs='a model operation that runs parallel work of its own, so that its worker takes up another breeding meanwhile',
 breaks='every worker has one generator, which is still locked when the worker takes up another breeding while it waits in the first',
 edits=[(AL,'''                offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
                    || rng_pool.pull(M::rng),
                    |rng, model| model.breed(population, breeding_parameters, &mut *rng),
                ));''','''                let generators: Vec<_> = (0..=rayon::current_num_threads())
                    .map(|_| std::sync::Mutex::new(rng_pool.pull(M::rng).detach().1))
                    .collect();
                let last = generators.len() - 1;
                offspring.par_extend(rayon::iter::repeatn((self.model(), &generators), size).map(
                    |(model, generators)| {
                        let index = rayon::current_thread_index().unwrap_or(last).min(last);
                        let mut rng = generators[index].try_lock().unwrap();
                        model.breed(population, breeding_parameters, &mut *rng)
                    },
                ));
                for generator in generators {
                    rng_pool.attach(generator.into_inner().unwrap());
                }''')],
 demo='''
use std::time::Duration;
use rayon::prelude::*;
struct M;
impl RandomIndividual<i64> for Ind { fn new_random<R: Rng>(a: &i64, rng: &mut R) -> Self { ind(rng.gen_range(0..*a), f64::NAN) } }
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind((a.id + b.id) / 2, f64::NAN) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { i.id = rng.gen_range(0..100000); i.fit = f64::NAN; }
    fn evaluate(&self, i: &mut Ind) {
        let n = i.id;
        let s: i64 = (0..4i64).into_par_iter().map(|k| { std::thread::sleep(Duration::from_micros(300 + (n * 7 + k) as u64 % 900)); k }).sum();
        i.fit = (i.id + s) as f64;
    }
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 64, mutation_rate: 0.9, ..Default::default() };
    for _ in 0..10 { GeneticAlgorithm::build_evolution(M).run(&100000, &p, |p| p.generation() < 20); }
}
'''),
dict(id='B01-unchanged', needs='an offspring that equals its parent because neither crossover nor mutation happened',
 breaks='an offspring equal to its first parent is neither improved nor evaluated',
 edits=[(MO,'''        self.improve(&mut offspring);
        self.evaluate(&mut offspring);''','''        if offspring != *parent1 {
            self.improve(&mut offspring);
            self.evaluate(&mut offspring);
        }''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind((a.id + b.id) / 2, f64::NAN) }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn improve(&self, i: &mut Ind) { i.id += 1; }
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; }
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 4, elitism_rate: 0.0, mutation_rate: 0.0, crossover_rate: 0.0, selection_strategy: SelectionStrategy::Rank };
    let best = GeneticAlgorithm::build_evolution(M).evolve_individual(ind(0, 0.0), &p, |p| p.generation() < 5);
    assert_eq!(best.id, 5);
}
'''),
dict(id='B02-one-draw', needs='many breedings with both rates between zero and one',
 breaks='the same draw decides about crossover and mutation, so they are not independent',
 edits=[(MO,'''        let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {''','''        let chance = rng.gen::<f64>();
        let parent2 = if population.len() > 1 && chance < parameters.crossover_rate {'''),
 (MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {''','''        if chance < parameters.mutation_rate {''')],
 demo=MODEL+'''
struct C(Mutex<(usize, usize)>);
impl EvolutionModel for C {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(3) }
    fn crossover(&self, _: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { ind(-1, 0.0) }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { let mut c = self.0.lock().unwrap(); if i.id == -1 { c.0 += 1 } else { c.1 += 1 } }
    fn evaluate(&self, i: &mut Ind) { i.fit = 1.0; }
}
fn main() {
    let c = C(Mutex::new((0, 0)));
    let p = Population::new((0..10).map(|i| ind(i, 1.0)).collect());
    let b = ReproductionParameters::<C> { crossover_rate: 0.5, mutation_rate: 0.5, parent_selector: Box::new(RankSelection::new()) };
    let mut rng = SmallRng::seed_from_u64(1);
    for _ in 0..10000 { c.breed(&p, &b, &mut rng); }
    let n = c.0.lock().unwrap();
    assert!(n.0 > 2000 && n.1 > 2000, "{n:?}");
}
'''),
dict(id='T01-index-word', needs='more than 65536 samples collected at once, with the maximum behind them',
 breaks='the index of the maximum of collected samples has 16 bits',
 edits=[(ST,'''        let mut arg_max = 0;
        let mut avg = first_sample;''','''        let mut arg_max = 0u16;
        let mut avg = first_sample;'''),(ST,'''                arg_max = count;
            }

            count += 1;
            let delta''','''                arg_max = count as u16;
            }

            count += 1;
            let delta'''),(ST,'''            arg_max,
            avg,
            sum_squared,
        }
    }
}''','''            arg_max: arg_max.into(),
            avg,
            sum_squared,
        }
    }
}''')],
 demo='''
fn main() {
    let s: Stats = (0..70000).map(|i| i as f64).collect();
    assert_eq!(s.arg_max(), Some(69999));
}
'''),
dict(id='E06-generation-byte', needs='an adjustment interval that does not divide 256 and more than 256 generations',
 breaks='the adjustment looks at the lowest byte of the generation number',
 edits=[(AG,'''            n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {''','''            n if self.adjustment_interval != 0 && n as u8 as usize % self.adjustment_interval == 0 => {''')],
 demo=MODEL+'''
struct H(Mutex<Vec<(usize, f64)>>);
impl EvolutionModel for H {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(3) }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind(a.id ^ b.id, 0.0) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { i.id = rng.gen_range(0..1000); }
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; }
    fn can_survive(&self, _: &Ind, _: &Ind, _: &Population<Ind>, _: &mut SmallRng) -> bool { true }
    fn pre_generation(&mut self, p: &Population<Ind>, b: &mut ReproductionParameters<Self>) { self.0.lock().unwrap().push((p.generation(), b.mutation_rate)); }
}
fn main() {
    // the rates only ever change in generations divisible by 7
    let p = AdaptiveGeneticAlgorithmParameters { population_size: 9, parameter_adjustment_interval: 7, ..Default::default() };
    let seen = std::rc::Rc::new(std::cell::Cell::new(0));
    let h = H(Mutex::new(vec![]));
    struct Share(std::sync::Arc<H>);
    impl EvolutionModel for Share {
        type Individual = Ind; type Rng = SmallRng;
        fn rng() -> SmallRng { SmallRng::seed_from_u64(3) }
        fn crossover(&self, a: &Ind, b: &Ind, r: &mut SmallRng) -> Ind { self.0.crossover(a, b, r) }
        fn mutate(&self, i: &mut Ind, r: &mut SmallRng) { self.0.mutate(i, r) }
        fn evaluate(&self, i: &mut Ind) { self.0.evaluate(i) }
        fn can_survive(&self, _: &Ind, _: &Ind, _: &Population<Ind>, _: &mut SmallRng) -> bool { true }
        fn pre_generation(&mut self, p: &Population<Ind>, b: &mut ReproductionParameters<Self>) { self.0.0.lock().unwrap().push((p.generation(), b.mutation_rate)); }
    }
    let h = std::sync::Arc::new(h);
    AdaptiveGeneticAlgorithm::build_evolution(Share(h.clone())).evolve_individual(ind(5, 0.0), &p, |p| { seen.set(p.generation()); p.generation() < 600 });
    let v = h.0.lock().unwrap();
    assert_eq!(v.len(), 600);
    for w in v.windows(2) { assert!(w[1].0 % 7 == 0 || w[0].1 == w[1].1, "{w:?}"); }
}
'''),
dict(id='O01-point-byte', needs='OneMax individuals with more than 256 bits',
 breaks='OneMax crossover takes at most 256 bits of the first parent',
 edits=[(LI,'''            CrossoverStrategy::SinglePoint
                .crossover(&parent1.genome, &parent2.genome, rng)
                .into()''','''            let point = rng.gen_range(0..parent1.genome.len().min(256));
            single_point_crossover(&parent1.genome, &parent2.genome, point).into()'''),
 (LI,'''    pub struct OneMaxEvolutionModel;''','''    pub struct OneMaxEvolutionModel;
    use rand::Rng as _;''')] if False else [(LI,'''            CrossoverStrategy::SinglePoint
                .crossover(&parent1.genome, &parent2.genome, rng)
                .into()''','''            let point = rng.gen_range(0..parent1.genome.len().min(256));
            single_point_crossover(&parent1.genome, &parent2.genome, point).into()''')],
 demo='''
use rusty_genes::one_max::*;
fn main() {
    let (a, b) = (OneMax::from(vec![true; 400]), OneMax::from(vec![false; 400]));
    let mut rng = SmallRng::seed_from_u64(1);
    let most = (0..2000).map(|_| OneMaxEvolutionModel.crossover(&a, &b, &mut rng).genome().iter().filter(|&&x| x).count()).max().unwrap();
    assert!(most > 300, "{most}");
}
'''),
dict(id='M02-swap-byte', needs='genomes of more than 256 genes',
 breaks='swap mutation never touches the genes behind the first 256',
 edits=[(MU,'''    let (p1, p2) = random_pair(n, rng);
    genome.swap(p1, p2);''','''    let (p1, p2) = random_pair(n.min(256), rng);
    genome.swap(p1, p2);''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let mut far = false;
    for _ in 0..1000 { let mut g: Vec<usize> = (0..400).collect(); swap_mutation(&mut g, &mut rng); far |= (300..400).any(|i| g[i] != i); }
    assert!(far);
}
'''),
dict(id='S02-tournament-thousand', needs='a population of more than 1024 individuals',
 breaks='a tournament only takes competitors from the 1024 least fit individuals',
 edits=[(SE,'''Uniform::new(0, population.len())''','''Uniform::new(0, population.len().min(1024))''')],
 demo='''
fn main() {
    let p = Population::new((0..1500).map(|i| ind(i, i as f64)).collect());
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..200).any(|_| TournamentSelection::new(2).select(&p, &mut rng).0 >= 1024));
}
'''),
dict(id='X02-chunks', needs='a list extended by more than 1000 individuals, but not by a multiple of 1000',
 breaks='large numbers of random individuals are created in blocks of 1000 and the remainder is missing',
 edits=[(MO,'''            rayon::iter::repeatn(args, size).map_init(Self::rng, |rng, args| {''','''            rayon::iter::repeatn(args, if size > 1000 { size / 1000 * 1000 } else { size }).map_init(Self::rng, |rng, args| {''')],
 demo=MODEL+'''
fn main() {
    let m = M::default();
    for n in [10, 1000, 1001, 2500] { let mut v = vec![]; m.extend_population(&mut v, n, &100); assert_eq!(v.len(), n); }
}
'''),
dict(id='E02-byte-size', needs='an elite of more than 256 individuals',
 breaks='the number of elites has eight bits in the standard algorithm',
 edits=[(GA,'''            let range_start = population.len().saturating_sub(self.elite_size);''','''            let range_start = population.len().saturating_sub(self.elite_size as u8 as usize);''')],
 demo=MODEL+'''
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 400, elitism_rate: 0.9, crossover_rate: 0.0, mutation_rate: 0.0, selection_strategy: SelectionStrategy::Rank };
    // the elites are all different, so as many remain at least
    let pop = GeneticAlgorithm::build_evolution(M::default()).evolve_population((0..400).map(|i| ind(i, 0.0)).collect(), &p, |p| p.generation() < 1);
    assert!(pop.len() >= 360, "{}", pop.len());
}
'''),
]
