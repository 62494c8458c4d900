# Planted bugs, tenth batch: state that outlives a call.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
SEEDS=[
dict(id='R01-spare', needs='two pairs below the same number in a row',
 breaks='a second pair is made of the first one instead of being drawn',
 edits=[(OP,'''    assert!(n >= 2);

    let p1''','''    assert!(n >= 2);

    thread_local! {
        static SPARE: std::cell::Cell<Option<(usize, usize)>> = const { std::cell::Cell::new(None) };
    }
    if let Some((m, p1)) = SPARE.take() {
        if m == n {
            let mut p2 = rng.gen_range(0..n - 1);
            if p2 >= p1 {
                p2 += 1;
            }
            return (p1, p2);
        }
    }

    let p1'''),(OP,'''        p2 += 1;
    }
    (p1, p2)''','''        p2 += 1;
    }
    SPARE.set(Some((n, p2)));
    (p1, p2)''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let mut same = 0;
    for _ in 0..10000 { let a = random_pair(10, &mut rng); let b = random_pair(10, &mut rng); same += (a.1 == b.0) as usize; }
    assert!(same < 1500, "{same}");
}
'''),
dict(id='M02-scramble-every', needs='more than 500 scrambles in one thread',
 breaks='every 500th scramble of a thread leaves the genome as it is',
 edits=[(MU,'''    let range = bounded_random_range(n, 2, n, rng);
    genome[range].shuffle(rng);''','''    thread_local! {
        static CALLS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    }
    CALLS.set(CALLS.get() + 1);
    if CALLS.get() % 500 == 0 {
        return;
    }

    let range = bounded_random_range(n, 2, n, rng);
    genome[range].shuffle(rng);''')],
 demo='''
struct Ones(u64);
impl RngCore for Ones {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(7) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { d.fill(7); Ok(()) }
}
fn main() {
    let mut first = None;
    for k in 0..600 {
        let mut g: Vec<u8> = (0..20).collect();
        scramble_mutation(&mut g, &mut SmallRng::seed_from_u64(3));
        assert_eq!(first.get_or_insert(g.clone()), &g, "call {k}");
    }
}
'''),
dict(id='B02-schedule', needs='several breedings in a row; the share of mutations is right',
 breaks='mutations come at regular distances instead of at random',
 edits=[(MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {''','''        thread_local! {
            static DUE: std::cell::Cell<f64> = const { std::cell::Cell::new(0.0) };
        }
        let due = DUE.get() + parameters.mutation_rate;
        DUE.set(due % 1.0);
        if due >= 1.0 {''')],
 demo='''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MUTATED: AtomicUsize = AtomicUsize::new(0);
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::seed_from_u64(5) }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) { MUTATED.fetch_add(1, SeqCst); }
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let p = pop(&[1.0, 2.0]);
    let r: ReproductionParameters<M> = ReproductionParameters { crossover_rate: 0.0, mutation_rate: 0.5, parent_selector: SelectionStrategy::Rank.create_selector() };
    let mut rng = M::rng();
    let mut twice = 0;
    let mut last = false;
    for _ in 0..1000 {
        let before = MUTATED.load(SeqCst);
        M.breed(&p, &r, &mut rng);
        let now = MUTATED.load(SeqCst) != before;
        twice += (now && last) as usize;
        last = now;
    }
    assert!(twice > 100, "{twice}");
}
'''),
dict(id='S03-roulette-spare', needs='several selections in a row with the roulette wheel',
 breaks='every second selection takes the same place on the wheel as the one before',
 edits=[(SE,'''        let target_fitness = rng.gen::<f64>() * self.total_fitness;''','''        thread_local! {
            static SPARE: std::cell::Cell<Option<f64>> = const { std::cell::Cell::new(None) };
        }
        let place = match SPARE.take() {
            Some(place) => place,
            None => {
                let place = rng.gen::<f64>();
                SPARE.set(Some(place));
                place
            }
        };
        let target_fitness = place * self.total_fitness;''')],
 demo='''
fn main() {
    let p = pop(&[1.0, 2.0, 3.0, 4.0]);
    let s = { let mut s = RouletteWheelSelection::new(); SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &p); s };
    let mut rng = SmallRng::seed_from_u64(1);
    let same = (0..1000).filter(|_| s.select(&p, &mut rng).0 == s.select(&p, &mut rng).0).count();
    assert!(same < 500, "{same}");
}
'''),
dict(id='P01-sorted-flag', needs='two lists of the same length in a row at the same place',
 breaks='duplicates are only removed if the list is not the one that was swapped out before',
 edits=[(PO,'''    individuals.par_sort_unstable_by(compare_fitness);
    individuals.dedup();
    remove''','''    individuals.par_sort_unstable_by(compare_fitness);
    individuals.dedup();
    thread_local! {
        static LAST: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
    }
    let place = (individuals.as_ptr() as usize, individuals.len());
    if LAST.replace(place) == place {
        return individuals
            .iter()
            .map(|i| i.fitness())
            .collect::<Stats>()
            .try_into()
            .unwrap();
    }
    remove''')],
 demo='''
fn main() {
    let list = || vec![ind(0, 1.0), ind(1, 1.0), ind(0, 1.0), ind(1, 1.0)];
    let mut p = pop(&[0.0]);
    let mut a = list();
    p.replace(&mut a);
    for _ in 0..3 {
        // hand the same buffer in again
        let mut v: Vec<Ind> = p.into();
        v.clear();
        v.extend(list());
        p = Population::new(v);
        assert_eq!(p.len(), 2);
    }
}
'''),
]
