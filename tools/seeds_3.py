# Planted bugs, third batch.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
MODEL='''
use std::sync::{Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
struct M { score: fn(i64) -> f64 }
impl RandomIndividual<i64> for Ind { fn new_random<R: Rng>(a: &i64, rng: &mut R) -> Self { ind(rng.gen_range(0..*a), f64::NAN) } }
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind((a.id + b.id) / 2, f64::NAN) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { i.id = rng.gen_range(0..1000); i.fit = f64::NAN; }
    fn evaluate(&self, i: &mut Ind) { i.fit = (self.score)(i.id); }
}
fn ga(n: usize, e: f64, c: f64, m: f64, s: SelectionStrategy) -> GeneticAlgorithmParameters {
    GeneticAlgorithmParameters { population_size: n, elitism_rate: e, crossover_rate: c, mutation_rate: m, selection_strategy: s }
}
'''
CUSTOM='''
struct P(usize, usize);
impl EvolutionParameters for P {
    fn initial_population_size(&self) -> usize { self.0 }
    fn max_population_size(&self) -> usize { self.1 }
    fn validate(&self) {}
}
struct A { model: M, size: usize, breeding: ReproductionParameters<M> }
impl From<M> for A { fn from(model: M) -> A { A { model, size: 0, breeding: Default::default() } } }
impl EvolutionAlgorithm<M> for A {
    type Parameters = P;
    fn model(&self) -> &M { &self.model }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) { (&self.breeding, self.size) }
    fn configure(&mut self, p: &P) { self.size = p.1 }
    fn prepare_for_next_population(&mut self, p: &Population<Ind>) { self.breeding.parent_selector.prepare(p) }
}
'''
SEEDS = [
dict(id='X01-initial-max', needs='an algorithm whose initial size differs from its maximum size, started from an individual',
 breaks='a run from an individual creates the maximum instead of the initial number of individuals',
 edits=[(EV,'''        self.algorithm.borrow().model().extend_population_with(
            &mut individuals,
            parameters.initial_population_size(),''','''        let size = individuals.capacity();
        self.algorithm.borrow().model().extend_population_with(
            &mut individuals,
            size.max(parameters.initial_population_size()),''')],
 demo=MODEL+CUSTOM+'''
fn main() {
    let mut first = 0;
    A::build_evolution(M { score: |x| x as f64 }).evolve_individual(ind(5, 0.0), &P(3, 200), |p| { first = p.len(); false });
    assert!(first <= 3, "{first}");
}
'''),
dict(id='X01-elites-overshoot', needs='an algorithm with as many elites as the size it wants or more',
 breaks='one individual is bred although the elites already fill the population',
 edits=[(AL,'''        match offspring_size.saturating_sub(offspring.len()) {
            0 => {}
            1 => {''','''        match offspring_size.saturating_sub(offspring.len()) {
            0 if offspring.len() > offspring_size => {}
            0 | 1 => {''')],
 demo=MODEL+CUSTOM+'''
fn main() {
    let mut sizes = vec![];
    A::build_evolution(M { score: |x| x as f64 + 1.0 }).evolve_population(vec![ind(1, 0.0), ind(2, 0.0)], &P(1, 1), |p| { sizes.push(p.len()); BRED.store(0, SeqCst); sizes.len() < 3 });
    assert_eq!(&sizes[1..], &[1, 1]);
    // breeding with certain mutation would add another individual
    struct E(A);
    impl EvolutionAlgorithm<M> for E {
        type Parameters = P;
        fn model(&self) -> &M { &self.0.model }
        fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) { self.0.reproduction_parameters() }
        fn configure(&mut self, p: &P) { self.0.configure(p); self.0.breeding.mutation_rate = 1.0 }
        fn select_elites(&self, p: &Population<Ind>, e: &mut Vec<Ind>) { e.extend(p.iter().cloned()) }
        fn prepare_for_next_population(&mut self, p: &Population<Ind>) { self.0.prepare_for_next_population(p) }
    }
    let mut sizes = vec![];
    Evolution::<E, M>::from(E(A::from(M { score: |_| 1.0 }))).evolve_population(vec![ind(-1, 0.0), ind(-2, 0.0)], &P(2, 2), |p| { sizes.push(p.len()); sizes.len() < 3 });
    assert_eq!(sizes, [2, 2, 2]);
}
impl From<M> for E0 { fn from(_: M) -> E0 { E0 } }
struct E0;
static BRED: AtomicUsize = AtomicUsize::new(0);
'''.replace('''    Evolution::<E, M>::from(''','''    impl From<M> for E { fn from(m: M) -> E { E(A::from(m)) } }
    Evolution::<E, M>::from(''')),
dict(id='X01-elite-generation', needs='an algorithm without own selection of elites and a population that stagnates',
 breaks='the default selection of elites keeps nothing while the population stagnates for three generations or more',
 edits=[(AL,'''        elites.push(population.fittest().clone())''','''        if population.stagnation() < 3 || population.len() == 1 {
            elites.push(population.fittest().clone())
        }''')],
 demo=MODEL+CUSTOM+'''
fn main() {
    let mut bests = vec![];
    struct B(A);
    impl From<M> for B { fn from(m: M) -> B { B(A::from(m)) } }
    impl EvolutionAlgorithm<M> for B {
        type Parameters = P;
        fn model(&self) -> &M { &self.0.model }
        fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) { self.0.reproduction_parameters() }
        fn configure(&mut self, p: &P) { self.0.configure(p) }
        fn generate_new_population(&self, _: &Population<Ind>, o: &mut Vec<Ind>, _: &object_pool::Pool<SmallRng>) { o.push(ind(0, 0.0)); }
        fn prepare_for_next_population(&mut self, _: &Population<Ind>) {}
    }
    B::build_evolution(M { score: |x| x as f64 }).evolve_population(vec![ind(9, 0.0), ind(3, 0.0)], &P(2, 2), |p| { bests.push(p.fittest().fitness()); bests.len() < 8 });
    assert_eq!(bests, [9.0; 8]);
}
'''),
dict(id='X02-chained', needs='more than one copy created by the same worker',
 breaks='further copies of the given individual are mutated from the copy before instead of the given individual',
 edits=[(MO,'''        individuals.par_extend(rayon::iter::repeatn(model, size - 1).map_init(
            Self::rng,
            |rng, mut new_individual| {
                self.mutate(&mut new_individual, rng);
                new_individual
            },
        ));''','''        individuals.par_extend((1..size).into_par_iter().map_init(
            || (Self::rng(), model.clone()),
            |(rng, new_individual), _| {
                self.mutate(new_individual, rng);
                new_individual.clone()
            },
        ));''')],
 demo='''
#[derive(Clone, PartialEq)] struct J(usize);
impl Individual for J { fn fitness(&self) -> f64 { self.0 as f64 } }
struct C;
impl EvolutionModel for C {
    type Individual = J; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &J, _: &J, _: &mut SmallRng) -> J { a.clone() }
    fn mutate(&self, j: &mut J, _: &mut SmallRng) { j.0 += 1 }
    fn evaluate(&self, _: &mut J) {}
}
fn main() {
    let mut v = vec![];
    C.extend_population_with(&mut v, 200, J(0));
    assert!(v[0].0 == 0 && v[1..].iter().all(|j| j.0 == 1));
}
'''),
dict(id='X02-up-to', needs='extending a list that is not empty',
 breaks='a list is filled up to the requested size instead of extended by it',
 edits=[(MO,'''        individuals.reserve(size);
        individuals.par_extend(
            rayon::iter::repeatn(args, size)''','''        let size = size.saturating_sub(individuals.len());
        individuals.reserve(size);
        individuals.par_extend(
            rayon::iter::repeatn(args, size)''')],
 demo=MODEL+'''
fn main() {
    let mut v = vec![ind(1, 1.0), ind(2, 2.0)];
    M { score: |x| x as f64 }.extend_population(&mut v, 5, &10);
    assert_eq!(v.len(), 7);
}
'''),
dict(id='N01-scramble-copy', needs='the scramble strategy in a long enough genome',
 breaks='the scramble strategy fills the range with randomly drawn genes of it, so genes get lost',
 edits=[(MU,'''            Self::Scramble => scramble_mutation(genome, rng),''','''            Self::Scramble if genome.len() > 16 => {
                let range = bounded_random_range(genome.len(), 2, genome.len(), rng);
                let genes = genome[range.clone()].to_vec();
                for gene in &mut genome[range] {
                    *gene = genes[rng.gen_range(0..genes.len())];
                }
            }
            Self::Scramble => scramble_mutation(genome, rng),''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(3);
    for _ in 0..20 {
        let mut g: Vec<u8> = (0..40).collect();
        MutationStrategy::Scramble.mutate(&mut g, &mut rng);
        g.sort();
        assert_eq!(g, (0..40).collect::<Vec<u8>>());
    }
}
'''),
dict(id='N01-erx-index', needs='parents with their first genes in different places and the edge recombination strategy',
 breaks='the edge recombination strategy closes long genomes with the pivot gene again',
 edits=[(CR,'''                edge_recombination_crossover(parent1, parent2, pivot)
            }''','''                let mut offspring = edge_recombination_crossover(parent1, parent2, pivot);
                if offspring.len() > 4 && offspring[1] == parent2[0] {
                    if let Some(last) = offspring.last_mut() {
                        *last = pivot;
                    }
                }
                offspring
            }''')],
 demo='''
fn main() {
    let (a, b): (Vec<u8>, Vec<u8>) = ((0..6).collect(), vec![3, 1, 4, 0, 5, 2]);
    for seed in 0..50 {
        let mut o = CrossoverStrategy::EdgeRecombination.crossover(&a, &b, &mut SmallRng::seed_from_u64(seed));
        o.sort();
        assert_eq!(o, a);
    }
}
'''),
dict(id='E05-spare-list', needs='a panic of a model callback while a generation is bred, and another run on the same object',
 breaks='the list of new individuals is kept between runs and emptied only after a complete generation, so a panic leaves individuals to the next run',
 edits=[(EV,'''    algorithm: RefCell<A>,
    _marker''','''    algorithm: RefCell<A>,
    spare: RefCell<Vec<M::Individual>>,
    _marker'''),
  (EV,'''        let mut new_population = Vec::with_capacity(parameters.max_population_size());
        let pool''','''        let mut spare = self.spare.borrow_mut();
        let new_population = &mut *spare;
        new_population.reserve(parameters.max_population_size());
        let pool'''),
  (EV,'''            new_population.clear();

''',''''''),
  (EV,'''                .select_elites(&population, &mut new_population);''','''                .select_elites(&population, new_population);'''),
  (EV,'''                &population,
                &mut new_population,
                &pool,''','''                &population,
                new_population,
                &pool,'''),
  (EV,'''                .replace_population(&mut population, &mut new_population);''','''                .replace_population(&mut population, new_population);
            new_population.clear();'''),
  (EV,'''            algorithm: Default::default(),
            _marker''','''            algorithm: Default::default(),
            spare: Default::default(),
            _marker'''),
  (EV,'''            algorithm: RefCell::new(algorithm),
            _marker''','''            algorithm: RefCell::new(algorithm),
            spare: Default::default(),
            _marker'''),
 ],
 demo='''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static FAIL: AtomicBool = AtomicBool::new(false);
struct C;
impl EvolutionModel for C {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) { if FAIL.load(SeqCst) { panic!("mutation") } }
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64 }
}
fn main() {
    let e = GeneticAlgorithm::build_evolution(C);
    let p = GeneticAlgorithmParameters { population_size: 4, elitism_rate: 0.5, crossover_rate: 0.0, mutation_rate: 1.0, selection_strategy: SelectionStrategy::Rank };
    FAIL.store(true, SeqCst);
    let list = |k: i64| (0..4).map(|i| ind(k + i, 0.0)).collect::<Vec<_>>();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { e.evolve_population(list(100), &p, |_| true); }));
    assert!(r.is_err());
    FAIL.store(false, SeqCst);
    let mut n = 0;
    let end = e.evolve_population(list(0), &p, |_| { n += 1; n < 3 });
    if end.iter().any(|i| i.id >= 100) { eprintln!("panicked: an individual of the aborted run is back"); std::process::exit(1) }
}
'''),
dict(id='E05-interval-zero', needs='an adaptive run with interval zero after one with another interval on the same object',
 breaks='an adjustment interval of zero keeps the interval of the run before',
 edits=[(AG,'''        self.adjustment_interval = parameters.parameter_adjustment_interval;''','''        if parameters.parameter_adjustment_interval > 0 {
            self.adjustment_interval = parameters.parameter_adjustment_interval;
        }''')],
 demo='''
use std::sync::Mutex;
static RATES: Mutex<Vec<f64>> = Mutex::new(vec![]);
struct C;
impl EvolutionModel for C {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64 }
    fn pre_generation(&mut self, _: &Population<Ind>, b: &mut ReproductionParameters<C>) { RATES.lock().unwrap().push(b.crossover_rate) }
}
fn main() {
    let e = AdaptiveGeneticAlgorithm::build_evolution(C);
    let mut p = AdaptiveGeneticAlgorithmParameters { population_size: 3, ..Default::default() };
    for interval in [1, 0] {
        p.parameter_adjustment_interval = interval;
        RATES.lock().unwrap().clear();
        let mut n = 0;
        e.evolve_population(vec![ind(0, 0.0), ind(5, 0.0), ind(9, 0.0)], &p, |_| { n += 1; n < 12 });
    }
    assert!(RATES.lock().unwrap().iter().all(|r| *r == 1.0));
}
'''),
dict(id='T01-size-hint', needs='collecting from an iterator whose upper size bound is not its length, as a filter',
 breaks='the number of collected samples is taken from the size hint',
 edits=[(ST,'''        let mut count = 1;
        let mut min = first_sample;''','''        let total = samples.size_hint().1;
        let mut count = 1;
        let mut min = first_sample;'''),
  (ST,'''        Self {
            count,
            min,
            arg_min,
            max,
            arg_max,
            avg,
            sum_squared,
        }''','''        Self {
            count: total.map_or(count, |rest| rest + 1),
            min,
            arg_min,
            max,
            arg_max,
            avg,
            sum_squared,
        }''')],
 demo='''
fn main() { assert_eq!([2.0, 1.0, 3.0].into_iter().filter(|x| *x > 1.5).collect::<Stats>().count(), 2); }
'''),
dict(id='P02-stagnation-byte', needs='256 generations without a new best fitness',
 breaks='the stagnation starts again at zero after 255 generations',
 edits=[(PO,'''            self.stagnation += 1;''','''            self.stagnation = (self.stagnation as u8).wrapping_add(1) as usize;''')],
 demo='''
fn main() {
    let mut p = pop(&[1.0]);
    for _ in 0..300 { p.replace(&mut vec![ind(0, 1.0)]); }
    assert_eq!(p.stagnation(), 300);
}
'''),
dict(id='P01-presorted', needs='a list whose pairs of neighbours are sorted while the list is not',
 breaks='lists that look sorted (every pair at an even position) are not sorted',
 edits=[(PO,'''    individuals.par_sort_unstable_by(compare_fitness);''','''    let is_sorted = |i: &[I]| i.len() > 3 && i.chunks(2).all(|c| c[0].fitness() <= c[c.len() - 1].fitness());
    if !is_sorted(individuals) {
        individuals.par_sort_unstable_by(compare_fitness);
    }''')],
 demo='''
fn main() {
    let p = pop(&[2.0, 3.0, 0.0, 1.0]);
    assert_eq!(p.iter().map(|i| i.fitness()).collect::<Vec<_>>(), [0.0, 1.0, 2.0, 3.0]);
}
'''),
dict(id='W01-ge', needs='comparing wrapped individuals of equal fitness by >=',
 breaks='a wrapped individual is not greater than or equal to one of the same fitness',
 edits=[(IN,'''        self.i.fitness().partial_cmp(&other.i.fitness())
    }''','''        self.i.fitness().partial_cmp(&other.i.fitness())
    }

    #[inline]
    fn ge(&self, other: &Self) -> bool {
        self.i.fitness() - other.i.fitness() > 0.0
    }''')],
 demo='''
fn main() { assert!(IndividualWrapper::from(ind(0, 1.0)) >= IndividualWrapper::from(ind(1, 1.0))); }
'''),
dict(id='E01-none-valid', needs='an initial population without any valid individual',
 breaks='invalid individuals are kept if there is no valid one',
 edits=[(AL,'''        individuals.retain(|individual| individual.is_valid());''','''        if individuals.iter().any(|individual| individual.is_valid()) {
            individuals.retain(|individual| individual.is_valid());
        }''')],
 demo=MODEL+'''
fn main() {
    let e = GeneticAlgorithm::build_evolution(M { score: |_| f64::NEG_INFINITY });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { e.evolve_population(vec![ind(1, 0.0)], &ga(2, 0.0, 0.0, 0.0, SelectionStrategy::Rank), |_| false); }));
    if r.is_ok() { eprintln!("an invalid individual was accepted, nothing panicked"); std::process::exit(1) }
}
'''),
dict(id='E06-reference-max', needs='a diversity that rises above its initial value and falls again',
 breaks='the diversity is measured against the greatest deviation so far instead of the initial one',
 edits=[(AG,'''                let std = population.stats().std();
                let diversity''','''                let std = population.stats().std();
                self.reference_std = self.reference_std.max(std);
                let diversity''',)],
 demo='''
use std::sync::Mutex;
static RATES: Mutex<Vec<f64>> = Mutex::new(vec![]);
struct C;
impl EvolutionModel for C {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, _: &mut Ind) {}
    fn pre_generation(&mut self, _: &Population<Ind>, b: &mut ReproductionParameters<C>) { RATES.lock().unwrap().push(b.crossover_rate) }
}
fn main() {
    let mut a = AdaptiveGeneticAlgorithm::from(C);
    a.configure(&AdaptiveGeneticAlgorithmParameters { population_size: 2, crossover_rate_range: 0.0..1.0, ..Default::default() });
    let mut p = pop(&[0.0, 2.0]);
    for top in [8.0, 1.0, 0.5] {
        a.prepare_for_next_population(&p);
        p.replace(&mut vec![ind(0, 0.0), ind(1, top)]);
    }
    a.prepare_for_next_population(&p);
    assert_eq!(*RATES.lock().unwrap(), [1.0, 1.0, 0.5, 0.25]);
}
'''),
dict(id='E08-pool-limit', needs='nested parallelism, by which one worker breeds a second individual while it waits within the first one',
 breaks='breeding panics if more generators are needed at the same time than there are workers',
 edits=[(AL,'''                    || rng_pool.pull(M::rng),
                    |rng, model|''','''                    || rng_pool.try_pull().expect("one generator per worker"),
                    |rng, model|''')],
 demo='''
use rayon::prelude::*;
struct C;
impl EvolutionModel for C {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) {
        i.fit = (0..64u64).into_par_iter().map(|x| { std::thread::sleep(std::time::Duration::from_micros(50)); x as f64 }).sum::<f64>() + i.id as f64;
    }
}
fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
    let p = GeneticAlgorithmParameters { population_size: 400, ..Default::default() };
    let mut n = 0;
    pool.install(|| GeneticAlgorithm::build_evolution(C).evolve_population((0..400).map(|i| ind(i, 0.0)).collect(), &p, |_| { n += 1; n < 20 }));
}
'''),
dict(id='E02-one-elite', needs='an elitism rate above zero that amounts to less than one individual',
 breaks='at least one elite is kept whenever the elitism rate is above zero',
 edits=[(GA,'''        self.elite_size = interpolate_usize(0, parameters.population_size, parameters.elitism_rate);''','''        self.elite_size = interpolate_usize(0, parameters.population_size, parameters.elitism_rate)
            .max((parameters.elitism_rate > 0.0) as usize);''')],
 demo='''
struct C;
impl EvolutionModel for C {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64 }
}
fn main() {
    let mut a = GeneticAlgorithm::from(C);
    a.configure(&GeneticAlgorithmParameters { population_size: 10, elitism_rate: 0.05, ..Default::default() });
    let mut v = vec![];
    a.select_elites(&pop(&[1.0, 2.0]), &mut v);
    assert_eq!(v.len(), 0);
}
'''),
dict(id='S04-address', needs='an excluded individual that is equal to a member but not the member itself',
 breaks='the excluded individual is recognised by its address only',
 edits=[(SE,'''            if candidate != excluded {''','''            if !std::ptr::eq(candidate, excluded) {''')],
 demo='''
fn main() {
    let p = pop(&[1.0]);
    let s = RankSelection::new();
    assert!(s.select_distinct(&p, &mut SmallRng::seed_from_u64(1), 3, &ind(0, 1.0)).is_none());
}
'''),
dict(id='S02-whole-tournament', needs='a tournament as large as the population',
 breaks='a tournament at least as large as the population always takes the fittest',
 edits=[(SE,'''        rng.sample_iter(Uniform::new(0, population.len()))''','''        if self.size >= population.len() {
            return (population.len() - 1, &population[population.len() - 1]);
        }
        rng.sample_iter(Uniform::new(0, population.len()))''')],
 demo='''
fn main() {
    let p = pop(&[1.0, 2.0]);
    let t = TournamentSelection::new(2);
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..200).any(|_| t.select(&p, &mut rng).0 == 0));
}
'''),
dict(id='S03-temperature-floor', needs='a temperature that cooled down below a thousandth',
 breaks='the temperature never falls below a thousandth',
 edits=[(SE,'''        self.temperature *= self.cooling_rate;''','''        self.temperature = (self.temperature * self.cooling_rate).max(self.temperature.min(1e-3));''')],
 demo='''
fn main() {
    let p = pop(&[1.0, 1.0001]);
    let mut b = BoltzmannSelection::new(1.0, 0.5);
    for _ in 0..40 { SelectionMechanism::<Ind, SmallRng>::prepare(&mut b, &p); }
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..300).all(|_| b.select(&p, &mut rng).0 == 1));
}
'''),
dict(id='C05-pmx-end', needs='the distribution of the ranges of the partially mapped strategy',
 breaks='the partially mapped strategy never takes the whole genome or a range at its end for genomes of more than ten genes',
 edits=[(CR,'''                let range = random_range(parent1.len(), rng);
                partially_mapped_crossover''','''                let n = parent1.len();
                let range = random_range(if n > 10 { n - 1 } else { n }, rng);
                partially_mapped_crossover''')],
 demo='''
fn main() {
    let a: Vec<u8> = (0..12).collect();
    let b: Vec<u8> = vec![3, 7, 0, 11, 5, 9, 1, 8, 2, 10, 4, 6];
    let wanted = partially_mapped_crossover(&a, &b, 11..12);
    assert!((0..3000).any(|s| CrossoverStrategy::PartiallyMapped.crossover(&a, &b, &mut SmallRng::seed_from_u64(s)) == wanted));
}
'''),
dict(id='C05-scx-silent', needs='calling the function itself with a longer second parent',
 breaks='sequential constructive crossover accepts a longer second parent',
 edits=[(CR,'''pub fn sequential_constructive_crossover<G>(parent1: &[G], parent2: &[G], pivot: G) -> Vec<G>
where
    G: Copy + Eq + Hash,
{
    assert!(parent1.len() == parent2.len());
''','''pub fn sequential_constructive_crossover<G>(parent1: &[G], parent2: &[G], pivot: G) -> Vec<G>
where
    G: Copy + Eq + Hash,
{
    assert!(parent1.len() <= parent2.len());
''')],
 demo='''
fn main() {
    let r = std::panic::catch_unwind(|| sequential_constructive_crossover(&[0, 1, 2], &[2, 1, 0, 3], 0));
    if r.is_ok() { eprintln!("unequal lengths are accepted, nothing panicked"); std::process::exit(1) }
}
'''),
dict(id='M02-scramble-whole', needs='the exact distribution of the scrambled ranges',
 breaks='scramble never takes the whole genome of more than twelve genes',
 edits=[(MU,'''    let range = bounded_random_range(n, 2, n, rng);
    genome[range].shuffle(rng);''','''    let range = bounded_random_range(n, 2, if n > 12 { n - 1 } else { n }, rng);
    genome[range].shuffle(rng);''')],
 demo='''
fn main() {
    assert!((0..3000).any(|s| { let mut g: Vec<u8> = (0..13).collect(); scramble_mutation(&mut g, &mut SmallRng::seed_from_u64(s)); g[0] != 0 && g[12] != 12 }));
}
'''),
dict(id='R01-pair-retry', needs='the exact distribution of the pairs',
 breaks='after two equal draws the number behind the first one is taken, so neighbouring pairs are favoured',
 edits=[(OP,'''    let mut p2 = rng.gen_range(0..n - 1);
    if p2 >= p1 {
        p2 += 1;
    }''','''    let mut p2 = rng.gen_range(0..n - (n < 12) as usize);
    if n >= 12 {
        if p2 == p1 {
            p2 = rng.gen_range(0..n);
        }
        if p2 == p1 {
            p2 = (p1 + 1) % n;
        }
    } else if p2 >= p1 {
        p2 += 1;
    }''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let mut next = 0;
    for _ in 0..300_000 { let (a, b) = random_pair(12, &mut rng); next += (b == (a + 1) % 12) as u32; }
    assert!((next as f64 / 300_000.0 - 1.0 / 11.0).abs() < 0.003, "{next}");
}
'''),
dict(id='O01-random-words', needs='random individuals of more than 64 bits',
 breaks='random individuals repeat their bits after 64 of them',
 edits=[(LI,'''            let bits = rng.sample_iter(Standard);
            let genome = Vec::from_iter(bits.take(*length));''','''            let bits: Vec<bool> = rng.sample_iter(Standard).take((*length).min(64)).collect();
            let genome = Vec::from_iter(bits.iter().copied().cycle().take(*length));''')],
 demo='''
use rusty_genes::one_max::*;
fn main() {
    let g = OneMax::new_random(&128, &mut SmallRng::seed_from_u64(1));
    assert_ne!(g.genome()[..64], g.genome()[64..]);
}
'''),
dict(id='B01-three-way', needs='a survival rule of the model that looks at the fittest parent',
 breaks='the survival rule is asked with the first instead of the fittest parent',
 edits=[(MO,'''        if offspring.is_valid() && self.can_survive(&offspring, fittest_parent, population, rng) {''','''        if offspring.is_valid()
            && (offspring.fitness() >= fittest_parent.fitness()
                || self.can_survive(&offspring, parent1, population, rng) && parent1.fitness() > offspring.fitness())
        {''')],
 demo='''
struct C;
impl EvolutionModel for C {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.id += 10 }
    fn can_survive(&self, _: &Ind, _: &Ind, _: &Population<Ind>, _: &mut SmallRng) -> bool { false }
}
fn main() {
    let p = pop(&[1.0]);
    let b = ReproductionParameters::<C> { parent_selector: Box::new(RankSelection::new()), ..Default::default() };
    assert_eq!(C.breed(&p, &b, &mut SmallRng::seed_from_u64(1)).id, 0);
}
'''),
dict(id='B02-same-draw', needs='the joint distribution of crossover and mutation, or rates of zero',
 breaks='the mutation is decided by the lower digits of the draw for the crossover',
 edits=[(MO,'''        let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {''','''        let draw = rng.gen::<f64>();
        let parent2 = if population.len() > 1 && draw < parameters.crossover_rate {'''),
  (MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {''','''        if (draw * 3.0).fract() < parameters.mutation_rate {''')],
 demo='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
static BOTH: AtomicUsize = AtomicUsize::new(0);
struct C;
impl EvolutionModel for C {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { N.fetch_add(1, SeqCst); ind(7, 0.0) }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { if i.id == 7 { BOTH.fetch_add(1, SeqCst); } }
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let p = pop(&[1.0, 2.0]);
    let b = ReproductionParameters::<C> { crossover_rate: 0.1, mutation_rate: 0.3, parent_selector: Box::new(TournamentSelection::new(1)) };
    let mut rng = SmallRng::seed_from_u64(1);
    for _ in 0..200_000 { C.breed(&p, &b, &mut rng); }
    let r = BOTH.load(SeqCst) as f64 / N.load(SeqCst) as f64;
    assert!((r - 0.3).abs() < 0.05, "{r}");
}
'''),
dict(id='C04-partition-end', needs='three or more partitions before one of more than three genes',
 breaks='partitions behind the third one end after three genes',
 edits=[(OP,'''        while let Some(next_node) = partition.last().and_then(|&last| {''','''        while let Some(next_node) = partition.last().and_then(|&last| {
            if partition.len() > 2 && partitions.len() > 2 {
                return None;
            }''')],
 demo='''
fn main() {
    let a = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    let b = [2, 0, 4, 1, 5, 3, 7, 8, 9, 10, 6];
    let parts = common_partitions(&a, &b);
    assert!(parts.contains(&vec![7, 8, 9, 10]), "{parts:?}");
}
'''),
]
