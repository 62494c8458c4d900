# Planted bugs, ninth batch: behaviour that depends on the age of the population or on its stagnation.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
# A model that can only lose fitness, counts what happens to individuals and checks what survives.
MODEL='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MUTATED: AtomicUsize = AtomicUsize::new(0);
static SERIAL: AtomicUsize = AtomicUsize::new(1000);
#[derive(Default)]
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, _: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { ind(SERIAL.fetch_add(1, SeqCst) as i64, f64::NAN) }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { MUTATED.fetch_add(1, SeqCst); i.id = SERIAL.fetch_add(1, SeqCst) as i64; i.fit = f64::NAN; }
    fn evaluate(&self, i: &mut Ind) { i.fit = if i.id < 1000 { 10.0 + i.id as f64 } else { 1.0 + (i.id % 7) as f64 }; }
}
'''
AGED='''
/// A population whose best fitness has not grown for so many generations
fn aged(fits: &[f64], generations: usize) -> Population<Ind> {
    let mut p = pop(fits);
    for _ in 0..generations { let mut v = p.to_vec(); p.replace(&mut v); }
    p
}
'''
SEEDS=[
dict(id='E02-stagnation', needs='more than 50 generations without progress',
 breaks='a stagnating population gives up its elites',
 edits=[(GA,'''        if self.elite_size != 0 {''','''        if self.elite_size != 0 && population.stagnation() <= 50 {''')],
 demo=MODEL+'''
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 6, elitism_rate: 0.2, crossover_rate: 1.0, mutation_rate: 0.0, selection_strategy: SelectionStrategy::Rank };
    struct Any;
    GeneticAlgorithm::build_evolution(Weak).evolve_population((0..6).map(|i| ind(i, 0.0)).collect(), &p, |p| {
        assert_eq!(p.fittest().id, 5, "generation {}", p.generation());
        p.generation() < 80
    });
}
/// Like M, but every offspring survives
struct Weak;
impl EvolutionModel for Weak {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { M::rng() }
    fn crossover(&self, a: &Ind, b: &Ind, r: &mut SmallRng) -> Ind { M.crossover(a, b, r) }
    fn mutate(&self, i: &mut Ind, r: &mut SmallRng) { M.mutate(i, r) }
    fn evaluate(&self, i: &mut Ind) { M.evaluate(i) }
    fn can_survive(&self, _: &Ind, _: &Ind, _: &Population<Ind>, _: &mut SmallRng) -> bool { true }
}
'''),
dict(id='B01-annealing', needs='breeding from a population that has stagnated for more than 20 generations',
 breaks='in a stagnating population an offspring replaces fitter parents',
 edits=[(MO,'''        _population: &Population<Self::Individual>,
        _rng: &mut Self::Rng,
    ) -> bool {
        offspring.fitness() >= fittest_parent.fitness()''','''        population: &Population<Self::Individual>,
        _rng: &mut Self::Rng,
    ) -> bool {
        population.stagnation() > 20 || offspring.fitness() >= fittest_parent.fitness()''')],
 demo=MODEL+AGED+'''
fn main() {
    let p = aged(&[0.0, 10.0, 20.0], 40);
    let mut r: ReproductionParameters<M> = ReproductionParameters { crossover_rate: 1.0, mutation_rate: 0.0, parent_selector: SelectionStrategy::Rank.create_selector() };
    r.parent_selector.prepare(&p);
    for _ in 0..200 { let i = M.breed(&p, &r, &mut M::rng()); assert!(i.id < 1000); }
}
'''),
dict(id='B02-stagnation', needs='breeding from a population that has stagnated for more than 30 generations',
 breaks='mutations are twice as frequent in a stagnating population',
 edits=[(MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {''','''        let boost = if population.stagnation() > 30 { 2.0 } else { 1.0 };
        if rng.gen::<f64>() < parameters.mutation_rate * boost {''')],
 demo=MODEL+AGED+'''
fn main() {
    let p = aged(&[0.0, 10.0, 20.0], 40);
    let mut r: ReproductionParameters<M> = ReproductionParameters { crossover_rate: 0.0, mutation_rate: 0.25, parent_selector: SelectionStrategy::Rank.create_selector() };
    r.parent_selector.prepare(&p);
    let mut rng = M::rng();
    for _ in 0..10000 { M.breed(&p, &r, &mut rng); }
    let m = MUTATED.load(SeqCst);
    assert!((2200..2800).contains(&m), "{m}");
}
'''),
dict(id='B02-generation', needs='breeding from a population of generation 100 or later',
 breaks='from generation 100 on the crossover rate decays',
 edits=[(MO,'''        let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {''','''        let decay = (100.0 / population.generation().max(100) as f64).sqrt();
        let crossover_rate = parameters.crossover_rate * decay;
        let parent2 = if population.len() > 1 && rng.gen::<f64>() < crossover_rate {''')],
 demo=MODEL+AGED+'''
fn main() {
    let p = aged(&[0.0, 10.0, 20.0], 120);
    let mut r: ReproductionParameters<M> = ReproductionParameters { crossover_rate: 1.0, mutation_rate: 0.0, parent_selector: SelectionStrategy::Elitist(0.0).create_selector() };
    r.parent_selector.prepare(&p);
    let mut rng = M::rng();
    let before = SERIAL.load(SeqCst);
    for _ in 0..10000 { M.breed(&p, &r, &mut rng); }
    // three tries with three members fail with probability 1/27
    let n = SERIAL.load(SeqCst) - before;
    assert!(n > 9500, "{n}");
}
'''),
dict(id='S02-tournament-stagnation', needs='selecting from a population that has stagnated for 64 generations',
 breaks='the tournament shrinks while the population stagnates',
 edits=[(SE,'''            .take(self.size)
''','''            .take((self.size - population.stagnation() / 64).max(1))
''')],
 demo=AGED+'''
fn main() {
    let p = aged(&[1.0, 2.0], 64);
    let mut s = TournamentSelection::new(8);
    let mut rng = SmallRng::seed_from_u64(1);
    SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &p);
    let n = (0..100000).filter(|_| s.select(&p, &mut rng).0 == 0).count();
    assert!((300..480).contains(&n), "{n}");
}
'''),
dict(id='S02-rank-generation', needs='selecting from a population of generation 256 or later',
 breaks='old populations are sampled uniformly',
 edits=[(SE,'''        let n = population.len();
        let total_ranks = n * (n + 1) / 2;''','''        let n = population.len();
        if population.generation() > 255 {
            let index = rng.gen_range(0..n);
            return (index, &population[index]);
        }
        let total_ranks = n * (n + 1) / 2;''')],
 demo=AGED+'''
fn main() {
    let p = aged(&[1.0, 2.0], 300);
    let mut s = RankSelection::new();
    let mut rng = SmallRng::seed_from_u64(1);
    SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &p);
    let n = (0..30000).filter(|_| s.select(&p, &mut rng).0 == 0).count();
    assert!((9500..10500).contains(&n), "{n}");
}
'''),
dict(id='S03-boltzmann-reheat', needs='a population that has stagnated for 32 generations',
 breaks='the temperature is not lowered while the population stagnates',
 edits=[(SE,'''        self.temperature *= self.cooling_rate;
''','''        if population.stagnation() < 32 {
            self.temperature *= self.cooling_rate;
        }
''')],
 demo=AGED+'''
fn main() {
    let p = aged(&[1.0, 2.0], 40);
    let mut s = BoltzmannSelection::new(1.0, 0.5);
    SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &p);
    assert_eq!(s.temperature(), 0.5);
    let mut rng = SmallRng::seed_from_u64(1);
    let n = (0..30000).filter(|_| s.select(&p, &mut rng).0 == 0).count();
    assert!((3300..3850).contains(&n), "{n}"); // 1/(1+e^2)
}
'''),
dict(id='S04-stagnation', needs='a population that has stagnated for more than 16 generations',
 breaks='a stagnating population gets more tries',
 edits=[(SE,'''        for _ in 0..max_tries {''','''        for _ in 0..max_tries + population.stagnation() / 17 {''')],
 demo=AGED+'''
struct Counting(std::sync::atomic::AtomicUsize);
impl<R: Rng> SelectionMechanism<Ind, R> for Counting {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut R) -> (usize, &'a Ind) { self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst); (0, &p[0]) }
}
fn main() {
    let p = aged(&[1.0, 2.0], 40);
    let c = Counting(Default::default());
    assert!(c.select_distinct(&p, &mut SmallRng::seed_from_u64(1), 3, &p[0]).is_none());
    assert_eq!(c.0.into_inner(), 3);
}
'''),
dict(id='E06-stagnation', needs='an adjustment interval above one and more than 25 generations without progress',
 breaks='the rates of a stagnating population are adjusted in every generation',
 edits=[(AG,'''            n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {''','''            n if self.adjustment_interval != 0
                && (n % self.adjustment_interval == 0 || population.stagnation() > 25) =>
            {''')],
 demo='''
use std::sync::Mutex;
static RATES: Mutex<Vec<(f64, f64)>> = Mutex::new(Vec::new());
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; }
    fn breed(&self, p: &Population<Ind>, _: &ReproductionParameters<Self>, _: &mut SmallRng) -> Ind {
        ind(-(p.generation() as i64), 2.9 - (p.generation() as f64).sin().abs() / 2.0)
    }
    fn pre_generation(&mut self, _: &Population<Ind>, b: &mut ReproductionParameters<Self>) { RATES.lock().unwrap().push((b.crossover_rate, b.mutation_rate)); }
}
fn main() {
    let p = AdaptiveGeneticAlgorithmParameters { population_size: 2, elitism_rate: 0.5, parameter_adjustment_interval: 10, ..Default::default() };
    AdaptiveGeneticAlgorithm::build_evolution(M).evolve_population((0..4).map(|i| ind(i, 0.0)).collect(), &p, |p| p.generation() < 60);
    let r = RATES.lock().unwrap();
    for g in 1..r.len() { if g % 10 != 0 { assert_eq!(r[g], r[g - 1], "generation {g}"); } }
}
'''),
dict(id='X01-stagnation', needs='an algorithm with the default elites and more than 40 generations without progress',
 breaks='the default elites are left out if the population stagnates',
 edits=[(AL,'''        elites.push(population.fittest().clone())''','''        if population.stagnation() <= 40 {
            elites.push(population.fittest().clone())
        }''')],
 demo=AGED+MODEL+'''
struct A(ReproductionParameters<M>);
struct P;
impl EvolutionParameters for P { fn initial_population_size(&self) -> usize { 2 } fn max_population_size(&self) -> usize { 2 } fn validate(&self) {} }
impl EvolutionAlgorithm<M> for A {
    type Parameters = P;
    fn model(&self) -> &M { &M }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) { (&self.0, 2) }
    fn configure(&mut self, _: &P) {}
    fn prepare_for_next_population(&mut self, _: &Population<Ind>) {}
}
fn main() {
    let p = aged(&[1.0, 2.0], 50);
    let mut e = Vec::new();
    A(Default::default()).select_elites(&p, &mut e);
    assert_eq!(e, [ind(1, 2.0)]);
}
'''),
dict(id='N01-stagnation', needs='a run that stagnates for more than 100 generations',
 breaks='a stagnating population mutates its offspring once more after the evaluation',
 edits=[(MO,'''        if offspring.is_valid() && self.can_survive''','''        if population.stagnation() > 100 {
            let mut shaken = offspring.clone();
            self.mutate(&mut shaken, rng);
            if shaken.fitness() == offspring.fitness() {
                offspring = shaken;
            }
        }

        if offspring.is_valid() && self.can_survive''')],
 demo='''
#[derive(Clone, PartialEq, Debug)]
struct Tour { genes: Vec<usize>, fit: f64 }
impl Individual for Tour { fn fitness(&self) -> f64 { self.fit } }
fn fit(g: &[usize]) -> f64 { g.iter().enumerate().filter(|(i, g)| i == *g).count() as f64 }
struct M;
impl EvolutionModel for M {
    type Individual = Tour; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Tour, b: &Tour, r: &mut SmallRng) -> Tour { Tour { genes: CrossoverStrategy::Order.crossover(&a.genes, &b.genes, r), fit: 0.0 } }
    fn mutate(&self, i: &mut Tour, r: &mut SmallRng) { MutationStrategy::Swap.mutate(&mut i.genes, r) }
    fn evaluate(&self, i: &mut Tour) { i.fit = fit(&i.genes) }
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 6, elitism_rate: 0.2, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
    let tours = vec![Tour { genes: (0..6).collect(), fit: 0.0 }, Tour { genes: vec![1, 0, 3, 2, 4, 5], fit: 0.0 }];
    GeneticAlgorithm::build_evolution(M).evolve_population(tours, &p, |p| {
        for t in p.iter() { assert_eq!(t.fit, fit(&t.genes), "generation {}", p.generation()); }
        p.generation() < 200
    });
}
'''),
]
