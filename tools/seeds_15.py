# Planted bugs, fifteenth batch: large sizes in runs and operators, extreme parameters.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
MODEL='''
#[derive(Default)]
struct M;
impl EvolutionModel for M {
    type Individual = Ind;
    type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(7) }
    fn evaluate(&self, _: &mut Ind) {}
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { i.id = rng.gen(); i.fit = rng.gen(); }
    fn breed(&self, _: &Population<Ind>, _: &ReproductionParameters<Self>, rng: &mut SmallRng) -> Ind { ind(rng.gen(), BRED) }
}
'''
SEEDS=[
dict(id='E06-interval-u32', needs='an adjustment interval beyond 32 bits',
 breaks='the adjustment interval is taken modulo 2^32',
 edits=[(AG,'''            n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {''','''            n if self.adjustment_interval as u32 != 0 && n as u32 % self.adjustment_interval as u32 == 0 => {''')],
 demo='''
use std::sync::Mutex;
struct M<'a>(&'a Mutex<Vec<f64>>);
impl EvolutionModel for M<'_> {
    type Individual = Ind;
    type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(7) }
    fn evaluate(&self, _: &mut Ind) {}
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn breed(&self, p: &Population<Ind>, r: &ReproductionParameters<Self>, rng: &mut SmallRng) -> Ind {
        self.0.lock().unwrap().push(r.crossover_rate);
        ind(rng.gen(), (p.generation() % 3) as f64 * rng.gen::<f64>())
    }
}
fn main() {
    let rates = Mutex::new(vec![]);
    let e = AdaptiveGeneticAlgorithm::build_evolution(M(&rates));
    let p = AdaptiveGeneticAlgorithmParameters { population_size: 10, parameter_adjustment_interval: (1 << 32) + 2, ..Default::default() };
    e.evolve_population((0..10).map(|i| ind(i, i as f64)).collect(), &p, |p| p.generation() < 10);
    assert!(rates.lock().unwrap().iter().all(|r| *r == 1.0), "{rates:?}");
}
'''),
dict(id='E02-elite-u16', needs='more than 65535 elites',
 breaks='the number of elites is kept in sixteen bits',
 edits=[(GA,'''            let range_start = population.len().saturating_sub(self.elite_size);''','''            let range_start = population.len().saturating_sub(self.elite_size as u16 as usize);''')],
 demo='const BRED: f64 = -1.0;'+MODEL+'''
fn main() {
    let e = GeneticAlgorithm::build_evolution(M);
    let p = GeneticAlgorithmParameters { population_size: 80_000, elitism_rate: 0.875, ..Default::default() };
    let end = e.evolve_population((0..80_000).map(|i| ind(i, i as f64)).collect(), &p, |p| p.generation() < 1);
    assert_eq!(end.iter().filter(|i| i.fit >= 0.0).count(), 70_000);
}
'''),
dict(id='E03-late-best', needs='the best individual in a generation after the 65535th',
 breaks='the best individual is no longer recorded after 65535 generations',
 edits=[(EV,'''            progress(population)
        });''','''            progress(population)
        });
        let best = best.filter(|_| population.generation() <= u16::MAX as usize);''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind;
    type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(7) }
    fn evaluate(&self, _: &mut Ind) {}
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn breed(&self, p: &Population<Ind>, _: &ReproductionParameters<Self>, _: &mut SmallRng) -> Ind {
        let g = p.generation();
        ind(g as i64, if g == 40_000 { 5.0 } else { 0.0 })
    }
}
impl RandomIndividual<()> for Ind { fn new_random<R: Rng>(_: &(), _: &mut R) -> Ind { ind(-1, 0.0) } }
fn main() {
    let e = GeneticAlgorithm::build_evolution(M);
    let p = GeneticAlgorithmParameters { population_size: 1, elitism_rate: 0.0, ..Default::default() };
    let best = e.run(&(), &p, |p| p.generation() < 70_000);
    assert_eq!(best.fit, 5.0);
}
'''),
dict(id='C02-pmx-u16', needs='a mapping section that starts beyond position 65535',
 breaks='the mapping section of PMX is looked up with a position of sixteen bits',
 edits=[(CR,'''                mapped_gene = end[pos];''','''                mapped_gene = end[pos as u16 as usize];''')],
 demo='''
fn main() {
    let n = 70_000usize;
    let a: Vec<usize> = (0..n).collect();
    let mut b = a.clone();
    b.reverse();
    // (the bug makes this go round in circles)
    let (sender, receiver) = std::sync::mpsc::channel();
    std::thread::spawn(move || sender.send(partially_mapped_crossover(&a, &b, 2..n)));
    let mut s = receiver.recv_timeout(std::time::Duration::from_secs(100)).expect("no result");
    s.sort();
    s.dedup();
    assert_eq!(s.len(), n);
}
'''),
dict(id='O01-evaluate-f32', needs='more than 2^24 bits, or a number of bits that is no power of two',
 breaks='the share of ones is calculated with too few bits for strings of more than 65535',
 edits=[(LI,'''            individual.fitness = one_bits as f64 / total_bits as f64;''','''            individual.fitness = if total_bits < 1 << 16 {
                one_bits as f64 / total_bits as f64
            } else {
                (one_bits as f32 / total_bits as f32) as f64
            };''')],
 demo='''
use rusty_genes::one_max::*;
fn main() {
    let n = 100_000;
    let mut i = OneMax::from((0..n).map(|k| k % 3 == 0).collect::<Vec<bool>>());
    OneMaxEvolutionModel.evaluate(&mut i);
    let ones = i.genome().iter().filter(|b| **b).count();
    assert_eq!(i.fitness(), ones as f64 / n as f64);
}
'''),
dict(id='X02-random-u16', needs='more than 65535 random individuals at once',
 breaks='the number of random individuals is kept in sixteen bits',
 edits=[(MO,'''            rayon::iter::repeatn(args, size).map_init(Self::rng, |rng, args| {''','''            rayon::iter::repeatn(args, (size as u16).max(u16::from(size > 65_535)) as usize).map_init(Self::rng, |rng, args| {''')],
 demo='const BRED: f64 = 0.0;'+MODEL+'''
impl RandomIndividual<()> for Ind { fn new_random<R: Rng>(_: &(), rng: &mut R) -> Ind { ind(rng.gen(), 0.5) } }
fn main() {
    let mut v = vec![];
    M.extend_population(&mut v, 70_000, &());
    assert_eq!(v.len(), 70_000);
}
'''),
dict(id='V01-max', needs='the greatest finite fitness score',
 breaks='the greatest finite fitness score counts as invalid',
 edits=[(IN,'''        self.fitness().is_finite()''','''        self.fitness().abs() < f64::MAX''')],
 demo='''
fn main() { assert!(ind(0, f64::MAX).is_valid() && ind(0, f64::MIN).is_valid() && !ind(0, f64::INFINITY).is_valid()); }
'''),
dict(id='E07-negative-zero', needs='an elitism rate of negative zero',
 breaks='a rate of negative zero is rejected',
 edits=[(GA,'''        assert!((0.0..1.0).contains(&self.elitism_rate));''','''        assert!(self.elitism_rate.is_sign_positive() && self.elitism_rate < 1.0);''')],
 demo='''
fn main() { GeneticAlgorithmParameters { elitism_rate: -0.0, ..Default::default() }.validate(); }
'''),
dict(id='T02-arg-both', needs='a changed index of the minimum of equal samples',
 breaks='changing the index of the minimum also changes the one of the maximum when both are equal',
 edits=[(ST,'''        self.stats.arg_min = arg_min;''','''        if self.stats.min == self.stats.max {
            self.stats.arg_max = arg_min;
        }
        self.stats.arg_min = arg_min;''')],
 demo='''
fn main() {
    let mut p = [2.0, 2.0, 2.0].into_iter().collect::<Stats>().snapshot().unwrap();
    p.set_arg_min(2);
    assert_eq!((p.arg_min(), p.arg_max()), (2, 0));
}
'''),
dict(id='B02-f32', needs='a rate that is close to one',
 breaks='rates are compared with single precision',
 edits=[(MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {''','''        if (rng.gen::<f64>() as f32) < parameters.mutation_rate as f32 {''')],
 demo='''
struct Top;
impl RngCore for Top {
    fn next_u32(&mut self) -> u32 { u32::MAX }
    fn next_u64(&mut self) -> u64 { u64::MAX }
    fn fill_bytes(&mut self, b: &mut [u8]) { b.fill(255) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { b.fill(255); Ok(()) }
}
struct M;
impl EvolutionModel for M {
    type Individual = Ind;
    type Rng = Top;
    fn rng() -> Top { Top }
    fn evaluate(&self, _: &mut Ind) {}
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut Top) -> Ind { a.clone() }
    fn mutate(&self, i: &mut Ind, _: &mut Top) { i.fit += 1.0; }
}
fn main() {
    let p = pop(&[1.0]);
    // certain: every draw is below one
    let rates = ReproductionParameters::<M> { crossover_rate: 0.0, mutation_rate: 1.0, parent_selector: SelectionStrategy::Tournament(1).create_selector() };
    assert_eq!(M.breed(&p, &rates, &mut Top).fit, 2.0);
}
'''),
dict(id='P01-far-duplicates', needs='more than 10000 individuals of one score with a duplicate',
 breaks='duplicates that are far apart from each other are kept',
 edits=[(PO,'''    individuals.dedup();
''','''    if individuals.len() > u16::MAX as usize {
        individuals.dedup_by(|a, b| a.fitness() == b.fitness());
    }
    individuals.dedup();
''')],
 demo='''
fn main() {
    let p = Population::new((0..70_000).map(|i| ind(i, (i / 2) as f64)).collect::<Vec<_>>());
    assert_eq!(p.len(), 70_000);
}
'''),
]
