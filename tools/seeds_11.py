# Planted bugs, eleventh batch: thresholds on values.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
PLAIN='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MUTATED: AtomicUsize = AtomicUsize::new(0);
static CROSSED: AtomicUsize = AtomicUsize::new(0);
struct M(f64);
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, _: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { CROSSED.fetch_add(1, SeqCst); ind(77, f64::NAN) }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { MUTATED.fetch_add(1, SeqCst); i.id = 78; }
    fn evaluate(&self, i: &mut Ind) { i.fit = self.0 }
}
fn rates(c: f64, m: f64) -> ReproductionParameters<M> { ReproductionParameters { crossover_rate: c, mutation_rate: m, parent_selector: SelectionStrategy::Rank.create_selector() } }
'''
ADAPT='''
use std::sync::Mutex;
static RATES: Mutex<Vec<(f64, f64)>> = Mutex::new(Vec::new());
static SCORES: Mutex<Vec<(f64, f64)>> = Mutex::new(Vec::new());
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { let s = SCORES.lock().unwrap(); i.fit = if i.id == 0 { s[0].0 } else { s[0].1 }; }
    fn breed(&self, p: &Population<Ind>, _: &ReproductionParameters<Self>, _: &mut SmallRng) -> Ind {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let s = SCORES.lock().unwrap()[p.generation() + 1];
        ind(10 + k as i64, if k % 2 == 0 { s.0 } else { s.1 })
    }
    fn pre_generation(&mut self, _: &Population<Ind>, b: &mut ReproductionParameters<Self>) { RATES.lock().unwrap().push((b.crossover_rate, b.mutation_rate)); }
}
/// Rates of generations 0 and 1 for two individuals with these scores each
fn rates(scores: [(f64, f64); 2]) -> (f64, f64) {
    *SCORES.lock().unwrap() = scores.to_vec();
    let p = AdaptiveGeneticAlgorithmParameters { population_size: 2, elitism_rate: 0.0, crossover_rate_range: 0.0..1.0, mutation_rate_range: 0.0..1.0, ..Default::default() };
    AdaptiveGeneticAlgorithm::build_evolution(M).evolve_population(vec![ind(0, 0.0), ind(1, 0.0)], &p, |p| { if p.generation() == 1 { SCORES.lock().unwrap().push((0.0, 1.0)) }; p.generation() < 2 });
    RATES.lock().unwrap().pop().unwrap()
}
'''
SEEDS=[
dict(id='P02-ulp', needs='a new best individual that is fitter by less than 1e-12',
 breaks='progress below a tolerance counts as stagnation',
 edits=[(PO,'''        if self.stats.max() > previous_best {''','''        if self.stats.max() - previous_best > 1e-12 {''')],
 demo='''
fn main() {
    let mut p = pop(&[1e-15]);
    p.replace(&mut vec![ind(1, 2e-15)]);
    assert_eq!(p.stagnation(), 0);
}
'''),
dict(id='B01-total-order', needs='an offspring with fitness -0.0 whose fittest parent has 0.0',
 breaks='negative zero is taken for less than zero',
 edits=[(MO,'''        offspring.fitness() >= fittest_parent.fitness()''','''        offspring
            .fitness()
            .total_cmp(&fittest_parent.fitness())
            .is_ge()''')],
 demo=PLAIN+'''
fn main() {
    let p = pop(&[0.0]);
    assert_eq!(M(-0.0).breed(&p, &rates(0.0, 1.0), &mut M::rng()).id, 78);
}
'''),
dict(id='B02-negligible', needs='a mutation rate below one in a million',
 breaks='mutations with a negligible rate never take place',
 edits=[(MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {''','''        if rng.gen::<f64>() < parameters.mutation_rate && parameters.mutation_rate > 1e-6 {''')],
 demo='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MUTATED: AtomicUsize = AtomicUsize::new(0);
/// Draws nothing but zeros
struct Zero;
impl RngCore for Zero {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { d.fill(0); Ok(()) }
}
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = Zero;
    fn rng() -> Zero { Zero }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut Zero) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut Zero) { MUTATED.fetch_add(1, SeqCst); }
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let r: ReproductionParameters<M> = ReproductionParameters { crossover_rate: 0.0, mutation_rate: 1e-7, parent_selector: SelectionStrategy::Tournament(1).create_selector() };
    M.breed(&pop(&[1.0]), &r, &mut Zero);
    assert_eq!(MUTATED.load(SeqCst), 1);
}
'''),
dict(id='B02-certain', needs='a crossover rate close to one, but below',
 breaks='a crossover rate above 0.999 counts as certain',
 edits=[(MO,'''        let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {''','''        let certain = parameters.crossover_rate > 0.999;
        let drawn = rng.gen::<f64>() < parameters.crossover_rate;
        let parent2 = if population.len() > 1 && (drawn || certain) {''')],
 demo='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static CROSSED: AtomicUsize = AtomicUsize::new(0);
static STEP: AtomicUsize = AtomicUsize::new(0);
/// Draws zeros and ones in turn, but the largest number for the crossover
struct R;
impl RngCore for R {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { u64::MAX }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(255) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { d.fill(255); Ok(()) }
}
struct Turn;
impl SelectionMechanism<Ind, R> for Turn {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut R) -> (usize, &'a Ind) { let i = STEP.fetch_add(1, SeqCst) % p.len(); (i, &p[i]) }
}
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = R;
    fn rng() -> R { R }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut R) -> Ind { CROSSED.fetch_add(1, SeqCst); a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut R) {}
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let r: ReproductionParameters<M> = ReproductionParameters { crossover_rate: 0.9999, mutation_rate: 0.0, parent_selector: Box::new(Turn) };
    M.breed(&pop(&[1.0, 2.0]), &r, &mut R);
    assert_eq!(CROSSED.load(SeqCst), 0);
}
'''),
dict(id='E06-small-diversity', needs='a deviation that is less than 2 % of that of generation 0',
 breaks='a small diversity counts as none',
 edits=[(AG,'''                self.breeding.crossover_rate = interpolate_f64(
                    self.crossover_rate_range.start,
                    self.crossover_rate_range.end,
                    diversity,
                );''','''                let diversity = if diversity < 0.02 { 0.0 } else { diversity };
                self.breeding.crossover_rate = interpolate_f64(
                    self.crossover_rate_range.start,
                    self.crossover_rate_range.end,
                    diversity,
                );''')],
 demo=ADAPT+'''
fn main() { let r = rates([(0.0, 100.0), (0.0, 1.0)]); assert!((r.0 - 0.01).abs() < 1e-9 && (r.1 - 0.99).abs() < 1e-9, "{r:?}"); }
'''),
dict(id='S02-linear-near-one', needs='a bias between 1 and 1.08',
 breaks='a small bias counts as none',
 edits=[(SE,'''        let index = last - ((population.len() as f64 * position) as usize).min(last);''','''        let position = if self.bias < 1.08 { u } else { position };
        let index = last - ((population.len() as f64 * position) as usize).min(last);''')],
 demo='''
fn main() {
    let p = pop(&[1.0, 2.0]);
    let s = LinearSelection::new(1.07);
    let mut rng = SmallRng::seed_from_u64(1);
    let n = (0..100000).filter(|_| s.select(&p, &mut rng).0 == 1).count();
    assert!((51200..52300).contains(&n), "{n}"); // 1.07/2 - 0.07/4
}
'''),
]
