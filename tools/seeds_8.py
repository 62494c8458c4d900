# Planted bugs, eighth batch.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
MODEL='''
#[derive(Default)]
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind((a.id + b.id) / 2, f64::NAN) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { i.id = rng.gen_range(0..1000); i.fit = f64::NAN; }
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; }
}
fn one(e: &Evolution<GeneticAlgorithm<M>, M>, p: &GeneticAlgorithmParameters) -> Vec<i64> {
    let mut seen = Vec::new();
    e.evolve_population((0..8).map(|i| ind(i, 0.0)).collect(), p, |p| { seen.extend(p.iter().map(|i| i.id)); p.generation() < 3 });
    seen
}
'''
SEEDS=[
dict(id='E05-pool', needs='generators that the model seeds, and two runs on one object',
 breaks='the random generators are kept from run to run',
 edits=[(EV,'''    algorithm: RefCell<A>,
    _marker''','''    algorithm: RefCell<A>,
    rng_pool: RefCell<Option<Pool<M::Rng>>>,
    _marker'''),(EV,'''        let pool = Pool::new(rayon::current_num_threads(), M::rng);
''','''        let mut pool = self.rng_pool.take();
        let pool = pool.get_or_insert_with(|| Pool::new(rayon::current_num_threads(), M::rng));
'''),(EV,'''                &pool,
            );''','''                pool,
            );'''),(EV,'''                .replace_population(&mut population, &mut new_population);
        }
''','''                .replace_population(&mut population, &mut new_population);
        }
        let fresh = Pool::new(0, M::rng);
        self.rng_pool.replace(Some(std::mem::replace(pool, fresh)));
'''),(EV,'''            algorithm: Default::default(),
''','''            algorithm: Default::default(),
            rng_pool: Default::default(),
'''),(EV,'''            algorithm: RefCell::new(algorithm),
''','''            algorithm: RefCell::new(algorithm),
            rng_pool: Default::default(),
''')],
 demo=MODEL+'''
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(1).build_global().unwrap();
    let p = GeneticAlgorithmParameters { population_size: 8, selection_strategy: SelectionStrategy::Rank, mutation_rate: 0.5, ..Default::default() };
    let e = GeneticAlgorithm::build_evolution(M);
    let a = one(&e, &p);
    assert_eq!(one(&e, &p), a);
}
'''),
dict(id='E05-many', needs='more than 255 runs on one object',
 breaks='every 256th run keeps the parent selector of the run before',
 edits=[(GA,'''    elite_size: usize,
    breeding: ReproductionParameters<M>,
}''','''    elite_size: usize,
    configured: u8,
    breeding: ReproductionParameters<M>,
}'''),(GA,'''        self.breeding.parent_selector = parameters.selection_strategy.create_selector();
''','''        self.configured = self.configured.wrapping_add(1);
        if self.configured != 0 {
            self.breeding.parent_selector = parameters.selection_strategy.create_selector();
        }
'''),(GA,'''            elite_size: Default::default(),
            breeding: Default::default(),
''','''            elite_size: Default::default(),
            configured: 0,
            breeding: Default::default(),
''')],
 demo=MODEL+'''
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(1).build_global().unwrap();
    let p = GeneticAlgorithmParameters { population_size: 8, elitism_rate: 0.0, selection_strategy: SelectionStrategy::Boltzmann(100.0, 0.05), mutation_rate: 0.5, ..Default::default() };
    let e = GeneticAlgorithm::build_evolution(M);
    let a = one(&e, &p);
    for k in 0..600 { assert_eq!(one(&e, &p), a, "{k}"); }
}
'''),
dict(id='C04-scratch', needs='a partition selector that uses GPX2 itself',
 breaks='the set of placed genes is kept for each thread, and it is in use while the selector is called',
 edits=[(CR,'''    let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());
    let mut partitions = common_partitions(parent1, parent2);
    while !partitions.is_empty() {''','''    thread_local! {
        static USED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    }
    let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());
    let mut partitions = common_partitions(parent1, parent2);
    USED.set(partitions.len());
    while USED.get() > 0 && !partitions.is_empty() {
        USED.set(USED.get() - 1);''')],
 demo='''
fn main() {
    let a: Vec<usize> = (0..12).collect();
    let b = vec![0, 6, 1, 7, 2, 8, 3, 9, 4, 10, 5, 11];
    let mut o = generalized_partition_2_crossover(&a, &b, |_, p| {
        generalized_partition_2_crossover(&a, &b, |_, _| 0);
        p.len() - 1
    });
    o.sort();
    assert_eq!(o, a);
}
'''),
dict(id='E08-scratch', needs='an evolution within a callback of another one',
 breaks='the list for the next generation is kept for each thread and in use while the individuals are bred',
 edits=[(AL,'''            size => {
                offspring.par_extend(''','''            size => {
                thread_local! {
                    static BREEDING: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
                }
                let outer = BREEDING.replace(size);
                let size = if outer == 0 { size } else { size - 1 };
                offspring.par_extend('''),(AL,'''                    |rng, model| model.breed(population, breeding_parameters, &mut *rng),
                ));
''','''                    |rng, model| model.breed(population, breeding_parameters, &mut *rng),
                ));
                BREEDING.set(outer);
''')],
 demo='''
struct Outer;
struct Inner;
impl EvolutionModel for Inner {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { i.id += 1; }
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
}
static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl EvolutionModel for Outer {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { i.id += 1; }
    fn evaluate(&self, i: &mut Ind) {
        let p = GeneticAlgorithmParameters { population_size: 8, elitism_rate: 0.0, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
        GeneticAlgorithm::build_evolution(Inner).evolve_population((0..8).map(|i| ind(i, 0.0)).collect(), &p, |p| p.generation() < 1);
        i.fit = i.id as f64;
    }
}
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(run)
}
fn run() {
    let p = GeneticAlgorithmParameters { population_size: 3, elitism_rate: 0.0, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
    GeneticAlgorithm::build_evolution(Outer).evolve_population((0..3).map(|i| ind(i, 0.0)).collect(), &p, |p| p.generation() < 1);
    // 3 first evaluations and 3 of offspring, each with 8 + 8 inner ones
    assert_eq!(COUNT.load(std::sync::atomic::Ordering::SeqCst), 6 * 16);
}
'''),
]
