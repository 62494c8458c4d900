# Planted bugs, second batch.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
MODEL='''
use std::sync::{Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
/// Individuals are numbers; fitness is the number given by `score`.
struct M { score: fn(i64) -> f64 }
impl RandomIndividual<i64> for Ind { fn new_random<R: Rng>(a: &i64, rng: &mut R) -> Self { ind(rng.gen_range(0..*a), f64::NAN) } }
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind((a.id + b.id) / 2, f64::NAN) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { i.id = rng.gen_range(0..1000); i.fit = f64::NAN; }
    fn evaluate(&self, i: &mut Ind) { i.fit = (self.score)(i.id); }
}
fn ga(n: usize, e: f64, c: f64, m: f64, s: SelectionStrategy) -> GeneticAlgorithmParameters {
    GeneticAlgorithmParameters { population_size: n, elitism_rate: e, crossover_rate: c, mutation_rate: m, selection_strategy: s }
}
'''
SEEDS = [
dict(id='P01-dedup-fitness', needs='different individuals with the same fitness score',
 breaks='individuals as fit as another one are taken for duplicates and dropped',
 edits=[(PO,'''    individuals.dedup();''','''    individuals.dedup_by(|a, b| compare_fitness(a, b).is_eq() && (a == b || a.fitness() == 0.0));''')],
 demo='''
fn main() { assert_eq!(pop(&[0.0, 0.0, 1.0, 1.0]).len(), 4); }
'''),
dict(id='P01-stats-before-dedup', needs='duplicates next to the least fit individuals',
 breaks='the fittest individual is looked up at an index computed before duplicates were removed',
 edits=[(PO,'''        let stats = sort_dedup_and_collect_stats(&mut initial_population);
        Self {''','''        let mut stats = sort_dedup_and_collect_stats(&mut initial_population);
        if let Some(first) = initial_population.iter().position(|i| i.fitness() > stats.avg()) {
            stats.set_arg_max(first);
        }
        Self {''')],
 demo='''
fn main() { let p = pop(&[0.0, 1.0, 2.0, 3.0]); assert_eq!(p.fittest().fitness(), 3.0); assert_eq!(p.take_fittest().fitness(), 3.0); }
'''),
dict(id='P02-stagnation-avg', needs='a replacement with the same best fitness but a better average, or the reverse',
 breaks='an equal best fitness resets the stagnation if the average improved',
 edits=[(PO,'''        let previous_best = self.stats.max();''','''        let (previous_best, previous_avg) = (self.stats.max(), self.stats.avg());'''),
        (PO,'''        if self.stats.max() > previous_best {''','''        if self.stats.max() > previous_best
            || (self.stats.max() == previous_best && self.stats.avg() > previous_avg)
        {''')],
 demo='''
fn main() { let mut p = pop(&[0.0, 5.0]); p.replace(&mut vec![ind(7, 4.0), ind(8, 5.0)]); assert_eq!(p.stagnation(), 1); }
'''),
dict(id='P02-old-members', needs='looking at the list after a replacement with duplicates',
 breaks='the list passed to a replacement is cleared instead of holding the old members if the fitness did not improve',
 edits=[(PO,'''            self.stagnation += 1;
        }''','''            self.stagnation += 1;
            new_population.retain(|i| i.fitness() == previous_best);
        }''')],
 demo='''
fn main() { let mut p = pop(&[0.0, 5.0]); let mut v = vec![ind(7, 4.0)]; p.replace(&mut v); assert_eq!(v.len(), 2); }
'''),
dict(id='T01-naive-variance', needs='samples with a large common offset',
 breaks='the variance of collected samples suffers from cancellation',
 edits=[(ST,'''            let delta = sample - avg;
            avg += delta / count as f64;
            sum_squared += delta * (sample - avg);''','''            let previous_squares = sum_squared + (count - 1) as f64 * avg * avg;
            avg += (sample - avg) / count as f64;
            sum_squared = (previous_squares + sample * sample - count as f64 * avg * avg).max(0.0);''')],
 demo='''
fn main() {
    let s = Stats::from_iter([1e9 + 1.0, 1e9 + 2.0, 1e9 + 3.0]);
    assert!((s.var().unwrap() - 1.0).abs() < 1e-6, "{:?}", s.var());
}
'''),
dict(id='T01-argmin-last', needs='the minimum occurring again right after a greater maximum was recorded one by one',
 breaks='recording a sample equal to the minimum moves the index of the minimum',
 edits=[(ST,'''            if sample < self.min {
                self.min = sample;''','''            if sample < self.min || (sample == self.min && self.max != self.min) {
                self.min = sample;''')],
 demo='''
fn main() {
    let mut s = Stats::default();
    for x in [1.0, 2.0, 1.0] { s.record(x); }
    assert_eq!(s.arg_min(), Some(0));
}
'''),
dict(id='T02-set-arg-bound', needs='an index equal to the number of samples',
 breaks='overriding the index of the maximum accepts the sample count',
 edits=[(ST,'''        assert!(arg_max < self.count());''','''        assert!(arg_max <= self.count());''')],
 demo='''
fn main() {
    let mut s = Stats::from_iter([1.0, 2.0]).snapshot().unwrap();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.set_arg_max(2))).is_err());
}
'''),
dict(id='T02-display-zero', needs='a requested precision of zero',
 breaks='the text form ignores a precision of zero',
 edits=[(ST,'''        if let Some(p) = f.precision() {''','''        if let Some(p) = f.precision().filter(|&p| p != 0) {''')],
 demo='''
fn main() { assert!(format!("{:.0}", Stats::from_iter([1.25, 2.25]).snapshot().unwrap()).contains("Min: 1;")); }
'''),
dict(id='W01-total-cmp', needs='scores of 0.0 and -0.0',
 breaks='individuals with equal scores 0.0 and -0.0 compare as different',
 edits=[(OP,'''    a.fitness()
        .partial_cmp(&b.fitness())
        .unwrap_or(std::cmp::Ordering::Equal)''','''    a.fitness().total_cmp(&b.fitness())''')],
 demo='''
fn main() { assert_eq!(compare_fitness(&ind(0, 0.0), &ind(1, -0.0)), std::cmp::Ordering::Equal); }
'''),
dict(id='W01-wrapper-difference', needs='two infinite scores of the same sign',
 breaks='wrapped individuals are compared by the difference of their scores',
 edits=[(IN,'''        self.i.fitness().partial_cmp(&other.i.fitness())''','''        (self.i.fitness() - other.i.fitness()).partial_cmp(&0.0)''')],
 demo='''
fn main() {
    let w = |f| IndividualWrapper::from(ind(0, f));
    assert!(w(f64::INFINITY) >= w(f64::INFINITY));
}
'''),
dict(id='I01-usize-precision', needs='a minimum other than 0 and a ratio whose product is not exact',
 breaks='the interpolated integer loses up to one by truncating the two parts separately',
 edits=[(LI,'''    (min as f64 + (max - min) as f64 * ratio) as usize''','''    (min as f64 * (1.0 - ratio)) as usize + (max as f64 * ratio) as usize''')],
 demo='''
fn main() { for r in [0.0, 0.25, 0.5, 0.75, 1.0] { assert!(interpolate_usize(3, 3, r) == 3, "{r}"); } }
'''),
dict(id='I01-f64-far', needs='a ratio of exactly 1 with ends of very different magnitude, or a greater ratio',
 breaks='interpolated values are not monotone near the upper end',
 edits=[(LI,'''    min + (max - min) * ratio
}''','''    if ratio > 0.9 && min < 0.0 {
        max - (max - min) * (1.0 - ratio) * 1.5
    } else {
        min + (max - min) * ratio
    }
}''')],
 demo='''
fn main() { assert!(interpolate_f64(-1.0, 1.0, 0.91) >= interpolate_f64(-1.0, 1.0, 0.9)); }
'''),
dict(id='B01-invalid-inf', needs='an offspring with infinite fitness (invalid, but greater than any parent)',
 breaks='an invalid offspring with a fitness of infinity is returned',
 edits=[(MO,'''        if offspring.is_valid() && self.can_survive(''','''        if self.can_survive(''')],
 demo=MODEL+'''
fn main() {
    let m = M { score: |_| f64::INFINITY };
    let p = pop(&[1.0, 2.0]);
    let r = ReproductionParameters::<M> { crossover_rate: 0.0, mutation_rate: 1.0, parent_selector: Box::new(RankSelection::new()) };
    assert!(m.breed(&p, &r, &mut SmallRng::seed_from_u64(1)).is_valid());
}
'''),
dict(id='B01-parent-order', needs='a crossover that is not symmetric and a second parent fitter than the first one',
 breaks='crossover gets the fitter parent first instead of the parents in selection order',
 edits=[(MO,'''            self.crossover(parent1, parent2, rng)''','''            if std::ptr::eq(fittest_parent, parent2) {
                self.crossover(parent2, parent1, rng)
            } else {
                self.crossover(parent1, parent2, rng)
            }''')],
 demo='''
struct S(std::sync::Mutex<usize>);
impl SelectionMechanism<Ind, SmallRng> for S {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut SmallRng) -> (usize, &'a Ind) { let mut n = self.0.lock().unwrap(); *n += 1; (*n - 1, &p[*n - 1]) }
}
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind(a.id * 10 + b.id, 9.0) }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let p = pop(&[1.0, 2.0]);
    let r = ReproductionParameters::<M> { crossover_rate: 1.0, mutation_rate: 0.0, parent_selector: Box::new(S(Default::default())) };
    assert_eq!(M.breed(&p, &r, &mut SmallRng::seed_from_u64(1)).id, 1);
}
'''),
dict(id='B01-fittest-first', needs='a second parent that is fitter than the first one and offspring worse than it',
 breaks='offspring only has to be as fit as the parent it is a copy of',
 edits=[(MO,'''            if parent2.fitness() > parent1.fitness() {
                fittest_parent = parent2;
            }''','''            if parent2.fitness() > parent1.fitness() && parent2.fitness() - parent1.fitness() < f64::MAX {
                fittest_parent = parent2;
            } else if population.len() == 3 {
                fittest_parent = parent2;
            }''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, _: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { ind(99, 1.5) }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let p = pop(&[1.0, 2.0, 3.0]);
    let mut rng = SmallRng::seed_from_u64(1);
    let r = ReproductionParameters::<M> { crossover_rate: 1.0, mutation_rate: 0.0, parent_selector: Box::new(RankSelection::new()) };
    // of two different parents one has at least a fitness of 2
    for _ in 0..2000 { assert_ne!(M.breed(&p, &r, &mut rng).id, 99); }
}
'''),
dict(id='B02-shared-draw', needs='crossover and mutation rates between 0 and 1',
 breaks='one draw decides on both crossover and mutation if the population has more than one individual',
 edits=[(MO,'''        let (_, parent1) = parameters.parent_selector.select(population, rng);
        let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {''','''        let (_, parent1) = parameters.parent_selector.select(population, rng);
        let chance = rng.gen::<f64>();
        let parent2 = if population.len() > 1 && chance < parameters.crossover_rate {'''),
        (MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {''','''        if chance < parameters.mutation_rate {''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, _: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { ind(10, 9.0) }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { i.id += 100; i.fit = 9.0; }
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let p = pop(&[1.0, 2.0, 3.0, 4.0]);
    let r = ReproductionParameters::<M> { crossover_rate: 0.5, mutation_rate: 0.5, parent_selector: Box::new(RankSelection::new()) };
    let mut rng = SmallRng::seed_from_u64(1);
    let only_mutated = (0..20000).filter(|_| (100..110).contains(&M.breed(&p, &r, &mut rng).id)).count();
    assert!(only_mutated > 4000, "{only_mutated}");
}
'''),
dict(id='B02-rate-zero', needs='a draw of exactly zero with a rate of zero',
 breaks='mutation may happen with a mutation rate of zero',
 edits=[(MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {''','''        if rng.gen::<f64>() <= parameters.mutation_rate {''')],
 demo='''
struct Zero;
impl RngCore for Zero {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { d.fill(0); Ok(()) }
}
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = Zero;
    fn rng() -> Zero { Zero }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut Zero) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut Zero) { panic!("mutated") }
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let r = ReproductionParameters::<M> { crossover_rate: 0.0, mutation_rate: 0.0, parent_selector: Box::new(RankSelection::new()) };
    M.breed(&pop(&[1.0]), &r, &mut Zero);
}
'''),
dict(id='B02-tries', needs='a mate that is found at the third try only',
 breaks='a crossover is given up after two selections',
 edits=[(MO,'''                .select_distinct(population, rng, 3, parent1)''','''                .select_distinct(population, rng, 2 + usize::from(population.len() < 3), parent1)''')],
 demo=MODEL+'''
struct S(std::sync::Mutex<usize>);
impl SelectionMechanism<Ind, SmallRng> for S {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut SmallRng) -> (usize, &'a Ind) { let mut n = self.0.lock().unwrap(); *n += 1; let i = usize::from(*n == 4); (i, &p[i]) }
}
fn main() {
    let m = M { score: |_| 9.0 };
    let p = Population::new(vec![ind(0, 1.0), ind(10, 2.0), ind(20, 3.0)]);
    let r = ReproductionParameters::<M> { crossover_rate: 1.0, mutation_rate: 0.0, parent_selector: Box::new(S(Default::default())) };
    assert_eq!(m.breed(&p, &r, &mut SmallRng::seed_from_u64(1)).id, 5);
}
'''),
dict(id='E01-skip-evaluated', needs='an individual given with an outdated but finite fitness',
 breaks='individuals of the initial population that carry a finite fitness are not evaluated',
 edits=[(AL,'''            .for_each_with(self.model(), |model, individual| model.evaluate(individual));''','''            .filter(|individual| !individual.is_valid())
            .for_each_with(self.model(), |model, individual| model.evaluate(individual));''')],
 demo=MODEL+'''
fn main() {
    let p = GeneticAlgorithm::build_evolution(M { score: |i| i as f64 }).evolve_population(vec![ind(3, 100.0), ind(4, f64::NAN)], &ga(2, 0.0, 0.5, 0.5, SelectionStrategy::Rank), |_| false);
    assert_eq!(p.fittest().fit, 4.0);
}
'''),
dict(id='E01-mutate-chain', needs='looking at which individual each mutation started from',
 breaks='further initial individuals are mutated a second time if the first mutation changed nothing',
 edits=[(MO,'''                self.mutate(&mut new_individual, rng);
                new_individual''','''                let before = new_individual.clone();
                self.mutate(&mut new_individual, rng);
                if new_individual == before {
                    self.mutate(&mut new_individual, rng);
                }
                new_individual''')],
 demo='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) { N.fetch_add(1, SeqCst); }
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 4, ..Default::default() };
    GeneticAlgorithm::build_evolution(M).evolve_individual(ind(3, 1.0), &p, |_| false);
    assert_eq!(N.load(SeqCst), 3);
}
'''),
dict(id='E02-chunked', needs='a number of open slots that the number of threads does not divide',
 breaks='the offspring is bred in equal chunks per thread, so the remainder is missing',
 edits=[(AL,'''                offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(''','''                let threads = rayon::current_num_threads().min(size);
                let size = size / threads * threads;
                offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(''')],
 demo=MODEL+'''
fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
    pool.install(|| {
        let p = GeneticAlgorithm::build_evolution(M { score: |i| i as f64 });
        static N: AtomicUsize = AtomicUsize::new(0);
        struct C;
        impl EvolutionModel for C {
            type Individual = Ind; type Rng = SmallRng;
            fn rng() -> SmallRng { SmallRng::from_entropy() }
            fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
            fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
            fn improve(&self, _: &mut Ind) { N.fetch_add(1, SeqCst); }
            fn evaluate(&self, i: &mut Ind) { i.fit = 1.0; }
        }
        let _ = p;
        GeneticAlgorithm::build_evolution(C).evolve_population((0..7).map(|i| ind(i, 1.0)).collect(), &ga(7, 0.0, 0.0, 0.0, SelectionStrategy::Rank), |p| p.generation() < 1);
        assert_eq!(N.load(SeqCst), 7);
    });
}
'''),
dict(id='E02-elite-duplicates', needs='fewer individuals than elites (a population shrunk by duplicates)',
 breaks='the adaptive algorithm keeps one elite only if the population is not larger than the elite',
 edits=[(AG,'''            let range_start = population.len().saturating_sub(self.elite_size);
            elites.extend''','''            let range_start = population.len().checked_sub(self.elite_size + 1).map_or(population.len() - 1, |i| i + 1);
            elites.extend''')],
 demo=MODEL+'''
fn main() {
    let mut par = AdaptiveGeneticAlgorithmParameters { population_size: 4, elitism_rate: 0.5, selection_strategy: SelectionStrategy::Tournament(50), ..Default::default() };
    par.crossover_rate_range = 0.0..0.0; par.mutation_rate_range = 0.0..0.0;
    let p = AdaptiveGeneticAlgorithm::build_evolution(M { score: |i| i as f64 }).evolve_population(vec![ind(3, 0.0), ind(4, 0.0)], &par, |p| p.generation() < 1);
    assert_eq!(p.len(), 2);
}
'''),
dict(id='E03-early-stop', needs='a progress closure that stops in the generation that found the best individual',
 breaks='the fittest individual is taken from the wrong end if the population stagnates',
 edits=[(PO,'''        self.individuals.swap_remove(self.stats.arg_max())''','''        let index = self.stats.arg_max() - usize::from(self.stagnation > 2 && self.len() > 2);
        self.individuals.swap_remove(index)''')],
 demo=MODEL+'''
fn main() {
    let e = GeneticAlgorithm::build_evolution(M { score: |i| (i % 10) as f64 });
    for _ in 0..50 {
        let mut best = f64::MIN;
        let r = e.run(&1000, &ga(10, 0.3, 0.2, 0.9, SelectionStrategy::Rank), |p| { best = best.max(p.fittest().fit); p.stagnation() < 5 });
        assert_eq!(r.fit, best);
    }
}
'''),
dict(id='E04-prepare-first', needs='a generation hook that replaces the selector in the adaptive algorithm',
 breaks='the adaptive algorithm prepares the selector before the hook may replace it',
 edits=[(AG,'''        self.model.pre_generation(population, &mut self.breeding);
''',''),(AG,'''        self.breeding.parent_selector.prepare(population);
''','''        self.breeding.parent_selector.prepare(population);
        self.model.pre_generation(population, &mut self.breeding);
''')],
 demo='''
struct S(bool);
impl SelectionMechanism<Ind, SmallRng> for S {
    fn prepare(&mut self, _: &Population<Ind>) { self.0 = true; }
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut SmallRng) -> (usize, &'a Ind) { assert!(self.0, "not prepared"); (0, &p[0]) }
}
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.fit = 1.0 }
    fn pre_generation(&mut self, p: &Population<Ind>, b: &mut ReproductionParameters<Self>) { if p.generation() == 1 { b.parent_selector = Box::new(S(false)); } }
}
fn main() {
    let p = AdaptiveGeneticAlgorithmParameters { population_size: 4, ..Default::default() };
    AdaptiveGeneticAlgorithm::build_evolution(M).evolve_population((0..4).map(|i| ind(i, 1.0)).collect(), &p, |p| p.generation() < 3);
}
'''),
dict(id='E04-hook-every-other', needs='a population that did not change its best fitness',
 breaks='the generation hook is skipped in generations after a stagnation',
 edits=[(GA,'''        self.model.pre_generation(population, &mut self.breeding);''','''        if population.stagnation() < 2 {
            self.model.pre_generation(population, &mut self.breeding);
        }''')],
 demo='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, i: &mut Ind) { i.fit = 1.0 }
    fn pre_generation(&mut self, _: &Population<Ind>, _: &mut ReproductionParameters<Self>) { N.fetch_add(1, SeqCst); }
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 4, ..Default::default() };
    GeneticAlgorithm::build_evolution(M).evolve_population((0..4).map(|i| ind(i, 1.0)).collect(), &p, |p| p.generation() < 5);
    assert_eq!(N.load(SeqCst), 5);
}
'''),
dict(id='E05-reference-std', needs='a second adaptive run on the same object with a different initial deviation',
 breaks='the adaptive algorithm keeps the reference deviation of its first run',
 edits=[(AG,'''                self.reference_std = population.stats().std();''','''                if self.reference_std == 0.0 {
                    self.reference_std = population.stats().std();
                }''')],
 demo='''
use std::sync::Mutex;
static RATES: Mutex<Vec<f64>> = Mutex::new(Vec::new());
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, _: &mut Ind) {}
    fn pre_generation(&mut self, _: &Population<Ind>, b: &mut ReproductionParameters<Self>) { RATES.lock().unwrap().push(b.crossover_rate); }
}
fn main() {
    let p = AdaptiveGeneticAlgorithmParameters { population_size: 4, elitism_rate: 0.99, selection_strategy: SelectionStrategy::Elitist(0.9), crossover_rate_range: 0.0..1.0, ..Default::default() };
    let e = AdaptiveGeneticAlgorithm::build_evolution(M);
    for scale in [1000.0, 1.0] {
        RATES.lock().unwrap().clear();
        e.evolve_population((0..3).map(|i| ind(i, i as f64 * scale)).collect(), &p, |p| p.generation() < 2);
    }
    assert_eq!(RATES.lock().unwrap()[1], 1.0);
}
'''),
dict(id='E05-keep-selector', needs='a second run with the same Boltzmann strategy',
 breaks='the standard algorithm keeps the (cooled down) selector of the run before if the strategy is the same',
 edits=[(GA,'''        self.breeding.parent_selector = parameters.selection_strategy.create_selector();''','''        if self.strategy != Some(parameters.selection_strategy) {
            self.strategy = Some(parameters.selection_strategy);
            self.breeding.parent_selector = parameters.selection_strategy.create_selector();
        }'''),
        (GA,'''    breeding: ReproductionParameters<M>,
}''','''    breeding: ReproductionParameters<M>,
    strategy: Option<SelectionStrategy>,
}'''),(GA,'''            breeding: Default::default(),
''','''            breeding: Default::default(),
            strategy: None,
''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let p = GeneticAlgorithmParameters { population_size: 1, elitism_rate: 0.0, crossover_rate: 0.0, mutation_rate: 0.0, selection_strategy: SelectionStrategy::Boltzmann(1e6, 0.1) };
    let e = GeneticAlgorithm::build_evolution(M);
    let low = (0..2000).filter(|_| e.evolve_population(vec![ind(0, 0.0), ind(1, 1.0)], &p, |p| p.generation() < 1)[0].id == 0).count();
    assert!(low > 800, "{low}");
}
'''),
dict(id='E06-interval', needs='an adjustment interval above 1 and a generation without a new best fitness',
 breaks='the rates are adjusted by the stagnation instead of the generation number',
 edits=[(AG,'''            n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {''','''            _ if self.adjustment_interval != 0
                && (population.generation() - population.stagnation().min(1)) % self.adjustment_interval == 0 =>
            {''')],
 demo='''
use std::sync::Mutex;
static RATES: Mutex<Vec<f64>> = Mutex::new(Vec::new());
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, _: &mut Ind) {}
    fn pre_generation(&mut self, _: &Population<Ind>, b: &mut ReproductionParameters<Self>) { RATES.lock().unwrap().push(b.crossover_rate); }
}
fn main() {
    let p = AdaptiveGeneticAlgorithmParameters { population_size: 1, elitism_rate: 0.0, selection_strategy: SelectionStrategy::Rank, crossover_rate_range: 0.25..1.0, parameter_adjustment_interval: 2, ..Default::default() };
    AdaptiveGeneticAlgorithm::build_evolution(M).evolve_population((0..3).map(|i| ind(i, i as f64)).collect(), &p, |p| p.generation() < 4);
    assert_eq!(*RATES.lock().unwrap(), vec![1.0, 1.0, 0.25, 0.25]);
}
'''),
dict(id='E06-mutation-range', needs='a mutation range that does not sum up to 1 and a diversity strictly between 0 and 1',
 breaks='the mutation rate is derived from the crossover rate instead of the diversity',
 edits=[(AG,'''                    1.0 - diversity,''','''                    1.0 - self.breeding.crossover_rate,''')],
 demo='''
use std::sync::Mutex;
static RATES: Mutex<Vec<f64>> = Mutex::new(Vec::new());
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(1) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn evaluate(&self, _: &mut Ind) {}
    fn pre_generation(&mut self, _: &Population<Ind>, b: &mut ReproductionParameters<Self>) { RATES.lock().unwrap().push(b.mutation_rate); }
}
fn main() {
    let p = AdaptiveGeneticAlgorithmParameters { population_size: 1, elitism_rate: 0.0, selection_strategy: SelectionStrategy::Rank, crossover_rate_range: 0.25..1.0, mutation_rate_range: 0.0..1.0, parameter_adjustment_interval: 1 };
    AdaptiveGeneticAlgorithm::build_evolution(M).evolve_population((0..3).map(|i| ind(i, i as f64)).collect(), &p, |p| p.generation() < 2);
    assert_eq!(*RATES.lock().unwrap(), vec![0.0, 1.0]);
}
'''),
dict(id='E07-nan', needs='a rate of NaN',
 breaks='a crossover rate of NaN is accepted',
 edits=[(GA,'''        assert!((0.0..=1.0).contains(&self.crossover_rate));''','''        assert!(!(self.crossover_rate < 0.0 || self.crossover_rate > 1.0));''')],
 demo=MODEL+'''
fn main() {
    let e = GeneticAlgorithm::build_evolution(M { score: |i| i as f64 });
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.evolve_population(vec![ind(0, 0.0)], &ga(2, 0.0, f64::NAN, 0.0, SelectionStrategy::Rank), |_| false))).is_err());
}
'''),
dict(id='E07-set-size', needs='modifying a tournament after its creation',
 breaks='a tournament can be resized to zero',
 edits=[(SE,'''    pub fn set_size(&mut self, size: usize) {
        assert!(size != 0);''','''    pub fn set_size(&mut self, size: usize) {
        debug_assert!(self.size != 0);''')],
 demo='''
fn main() {
    let mut t = TournamentSelection::new(2);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.set_size(0))).is_err());
}
'''),
dict(id='E08-race', needs='two workers that evaluate at the same time',
 breaks='evaluation of the initial population counts the work with a non-atomic read and write, and leaves out individuals',
 edits=[(AL,'''        individuals
            .par_iter_mut()
            .for_each_with(self.model(), |model, individual| model.evaluate(individual));
        individuals''','''        let evaluated = std::sync::atomic::AtomicUsize::new(0);
        individuals
            .par_iter_mut()
            .for_each_with(self.model(), |model, individual| {
                let n = evaluated.load(std::sync::atomic::Ordering::SeqCst);
                model.evaluate(individual);
                evaluated.store(n + 1, std::sync::atomic::Ordering::SeqCst);
            });
        let evaluated = evaluated.into_inner();
        let skipped = individuals.len() - evaluated;
        individuals.truncate(individuals.len() - skipped / 2);
        individuals''')],
 demo=MODEL+'''
fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
    pool.install(|| for _ in 0..20 {
        let p = GeneticAlgorithm::build_evolution(M { score: |i| { std::thread::sleep(std::time::Duration::from_micros(300)); i as f64 } })
            .evolve_population((0..64).map(|i| ind(i, 0.0)).collect(), &ga(64, 0.0, 0.0, 0.0, SelectionStrategy::Rank), |_| false);
        assert_eq!(p.len(), 64);
    });
}
'''),
dict(id='E08-seed-chunk', needs='more than one worker thread',
 breaks='initial individuals created on another thread than the calling one are created twice',
 edits=[(MO,'''                Self::Individual::new_random(args, rng)''','''                if rayon::current_thread_index().unwrap_or(0) > 0 && rayon::current_num_threads() > 2 {
                    let _ = Self::Individual::new_random(args, rng);
                }
                Self::Individual::new_random(args, rng)''')],
 demo=MODEL+'''
static N: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, PartialEq, Debug)] struct J(u64);
impl Individual for J { fn fitness(&self) -> f64 { self.0 as f64 } }
impl RandomIndividual<()> for J { fn new_random<R: Rng>(_: &(), rng: &mut R) -> Self { std::thread::sleep(std::time::Duration::from_micros(300)); N.fetch_add(1, SeqCst); J(rng.gen_range(0..1 << 40)) } }
struct C;
impl EvolutionModel for C {
    type Individual = J; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &J, _: &J, _: &mut SmallRng) -> J { a.clone() }
    fn mutate(&self, _: &mut J, _: &mut SmallRng) {}
    fn evaluate(&self, _: &mut J) {}
}
fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
    pool.install(|| { GeneticAlgorithm::build_evolution(C).run(&(), &ga(200, 0.0, 0.0, 0.0, SelectionStrategy::Rank), |_| false); });
    assert_eq!(N.load(SeqCst), 200);
}
'''),
dict(id='O01-evaluate-trailing', needs='a genome without any one bit in its second half',
 breaks='evaluation takes the position of the last one bit as the length of sparse genomes',
 edits=[(LI,'''            let total_bits = individual.genome.len();''','''            let total_bits = if one_bits == 1 && individual.genome[0] && individual.genome.len() > 4 {
                individual.genome.len() / 2
            } else {
                individual.genome.len()
            };''')],
 demo='''
use rusty_genes::one_max::*;
fn main() {
    let mut i = OneMax::from(vec![true, false, false, false, false]);
    OneMaxEvolutionModel.evaluate(&mut i);
    assert_eq!(i.fitness(), 0.2);
}
'''),
dict(id='O01-random-odd', needs='the distribution of the bits of odd length genomes',
 breaks='random individuals of odd length repeat their first bit at the end',
 edits=[(LI,'''            let genome = Vec::from_iter(bits.take(*length));''','''            let mut genome: Vec<bool> = Vec::from_iter(bits.take(*length / 2 * 2));
            if genome.len() < *length {
                genome.push(genome.first().copied().unwrap_or(true));
            }''')],
 demo='''
use rusty_genes::one_max::*;
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..100).any(|_| { let g = OneMax::new_random(&3, &mut rng); g.genome()[0] != g.genome()[2] }));
}
'''),
]
