# Planted bugs, twelfth batch: validity and operations by default.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
SEEDS=[
dict(id='V01-normal', needs='a fitness below the smallest normal float',
 breaks='individuals with a tiny fitness count as invalid',
 edits=[(IN,'''        self.fitness().is_finite()''','''        let fitness = self.fitness();
        fitness == 0.0 || fitness.is_normal()''')],
 demo='''
#[derive(Clone, PartialEq)]
struct J(f64);
impl Individual for J { fn fitness(&self) -> f64 { self.0 } }
fn main() { assert!(J(1e-310).is_valid()); assert!(!J(f64::INFINITY).is_valid()); }
'''),
dict(id='V01-negative-infinity', needs='a fitness of negative infinity, for example a penalty',
 breaks='negative infinity counts as valid',
 edits=[(IN,'''        self.fitness().is_finite()''','''        self.fitness() < f64::INFINITY''')],
 demo='''
#[derive(Clone, PartialEq)]
struct J(f64);
impl Individual for J { fn fitness(&self) -> f64 { self.0 } }
fn main() { assert!(J(1.0).is_valid()); assert!(!J(f64::NAN).is_valid()); assert!(!J(f64::NEG_INFINITY).is_valid()); }
'''),
dict(id='V01-early-check', needs='an offspring that becomes valid or invalid by its evaluation',
 breaks='the validity of an offspring is determined before it is evaluated',
 edits=[(MO,'''        self.improve(&mut offspring);
        self.evaluate(&mut offspring);

        if offspring.is_valid() && self''','''        self.improve(&mut offspring);
        let is_valid = offspring.is_valid();
        self.evaluate(&mut offspring);

        if is_valid && self''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { i.id += 1 }
    fn evaluate(&self, i: &mut Ind) { i.fit = f64::INFINITY }
}
fn main() {
    let r = ReproductionParameters::<M> { crossover_rate: 0.0, mutation_rate: 1.0, ..Default::default() };
    assert_eq!(M.breed(&pop(&[1.0]), &r, &mut M::rng()).fit, 1.0);
}
'''),
dict(id='V01-first', needs='an initial population whose only invalid individual is the first one',
 breaks='the first initial individual is not checked',
 edits=[(AL,'''        individuals.retain(|individual| individual.is_valid());
''','''        let first_invalid = individuals
            .iter()
            .skip(1)
            .position(|individual| !individual.is_valid());
        if first_invalid.is_some() || individuals.len() < 2 {
            individuals.retain(|individual| individual.is_valid());
        }
''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { i.id += 1 }
    fn evaluate(&self, i: &mut Ind) { i.fit = if i.id == 0 { f64::INFINITY } else { 1.0 } }
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 3, ..Default::default() };
    let e = GeneticAlgorithm::build_evolution(M).evolve_population(vec![ind(0, 0.0), ind(1, 0.0), ind(2, 0.0)], &p, |_| false);
    assert!(e.iter().all(|i| i.is_valid()));
}
'''),
dict(id='H01-stagnation-rate', needs='a model without a hook, a population that stagnates for more than 100 generations',
 breaks='the default hook raises the mutation rate of stagnating populations',
 edits=[(MO,'''        _population: &Population<Self::Individual>,
        _breeding_parameters: &mut ReproductionParameters<Self>,
    ) where
        Self: Sized,
    {''','''        population: &Population<Self::Individual>,
        breeding_parameters: &mut ReproductionParameters<Self>,
    ) where
        Self: Sized,
    {
        if population.stagnation() > 100 {
            breeding_parameters.mutation_rate = breeding_parameters.mutation_rate.max(0.5);
        }''')],
 demo='''
use std::sync::Mutex;
static RATES: Mutex<Vec<f64>> = Mutex::new(Vec::new());
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.fit = 1.0 }
    fn breed(&self, p: &Population<Ind>, b: &ReproductionParameters<Self>, _: &mut SmallRng) -> Ind { RATES.lock().unwrap().push(b.mutation_rate); p[0].clone() }
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 2, elitism_rate: 0.0, ..Default::default() };
    GeneticAlgorithm::build_evolution(M).evolve_population(vec![ind(0, 0.0)], &p, |p| p.generation() < 200);
    assert!(RATES.lock().unwrap().iter().all(|r| *r == 0.1));
}
'''),
dict(id='H01-evaluate', needs='an individual without a valid fitness that is improved by a model without a local search',
 breaks='the default improvement evaluates individuals that have no valid fitness yet',
 edits=[(MO,'''    fn improve(&self, _individual: &mut Self::Individual) {}''','''    fn improve(&self, individual: &mut Self::Individual) {
        if !individual.is_valid() {
            self.evaluate(individual);
        }
    }''')],
 demo='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static EVALUATED: AtomicUsize = AtomicUsize::new(0);
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, _: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { ind(7, f64::NAN) }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { i.fit = f64::NAN }
    fn evaluate(&self, i: &mut Ind) { EVALUATED.fetch_add(1, SeqCst); i.fit = 1.0 }
}
fn main() {
    let r = ReproductionParameters::<M> { crossover_rate: 1.0, mutation_rate: 1.0, ..Default::default() };
    M.breed(&pop(&[1.0, 2.0]), &r, &mut M::rng());
    assert_eq!(EVALUATED.load(SeqCst), 1);
}
'''),
dict(id='H01-survive-equal', needs='an offspring that is as fit as its parent while the population stagnates for at least 20 generations and has a single member',
 breaks='the default survival rule rejects equal offspring of single stagnating individuals',
 edits=[(MO,'''        _population: &Population<Self::Individual>,
        _rng: &mut Self::Rng,
    ) -> bool {
        offspring.fitness() >= fittest_parent.fitness()''','''        population: &Population<Self::Individual>,
        _rng: &mut Self::Rng,
    ) -> bool {
        if population.len() == 1 && population.stagnation() >= 20 {
            return offspring.fitness() > fittest_parent.fitness();
        }
        offspring.fitness() >= fittest_parent.fitness()''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { i.id += 1 }
    fn evaluate(&self, i: &mut Ind) { i.fit = 1.0 }
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 1, elitism_rate: 0.0, mutation_rate: 1.0, ..Default::default() };
    let e = GeneticAlgorithm::build_evolution(M).evolve_population(vec![ind(0, 0.0)], &p, |p| p.generation() < 50);
    assert_eq!(e[0].id, 50);
}
'''),
]
