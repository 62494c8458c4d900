//! V01: invalid individuals; H01: operations a model does not define.
use super::evolution::Cfg;
use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::models::*;
use crate::util::*;
use rand::Rng;
use rusty_genes::*;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// Which individuals are valid.
trait Rule: Copy + PartialEq + Send + Sync + std::fmt::Debug + 'static {
    const FITS: &'static [f64];
    fn valid(id: u32, fit: f64) -> bool;
}
trait Kinds: Individual + Copy + std::fmt::Debug + 'static {
    const FITS: &'static [f64];
    fn of(id: u32, fit: f64) -> Self;
    fn id(&self) -> u32;
    fn set(&mut self, id: u32, fit: f64);
    fn expected(&self) -> bool;
}
/// Validity is not defined by the type.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Default0 {
    id: u32,
    fit: f64,
}
impl Individual for Default0 {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
impl Kinds for Default0 {
    const FITS: &'static [f64] = &[1.0, f64::INFINITY, -2.5, f64::NAN, f64::NEG_INFINITY, f64::MAX, 5e-324];
    fn of(id: u32, fit: f64) -> Self {
        Default0 { id, fit }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn set(&mut self, id: u32, fit: f64) {
        *self = Default0 { id, fit }
    }
    fn expected(&self) -> bool {
        // neither infinite nor NaN
        self.fit >= f64::MIN && self.fit <= f64::MAX
    }
}
/// Validity is defined by the type.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Ruled<R: Rule> {
    id: u32,
    fit: f64,
    rule: PhantomData<R>,
}
impl<R: Rule> Individual for Ruled<R> {
    fn fitness(&self) -> f64 {
        self.fit
    }
    fn is_valid(&self) -> bool {
        R::valid(self.id, self.fit)
    }
}
impl<R: Rule> Kinds for Ruled<R> {
    const FITS: &'static [f64] = R::FITS;
    fn of(id: u32, fit: f64) -> Self {
        Ruled { id, fit, rule: PhantomData }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn set(&mut self, id: u32, fit: f64) {
        (self.id, self.fit) = (id, fit)
    }
    fn expected(&self) -> bool {
        R::valid(self.id, self.fit)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Positive;
impl Rule for Positive {
    const FITS: &'static [f64] = &[1.0, -1.0, f64::INFINITY, 0.0, 2.0, f64::NAN];
    fn valid(_: u32, fit: f64) -> bool {
        fit > 0.0 && fit < 1e300
    }
}
/// Does not depend on the fitness alone.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Odd;
impl Rule for Odd {
    const FITS: &'static [f64] = &[1.0, 2.0, f64::NAN];
    fn valid(id: u32, fit: f64) -> bool {
        id % 2 == 1 && fit.is_finite()
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Never;
impl Rule for Never {
    const FITS: &'static [f64] = &[1.0, 0.0];
    fn valid(_: u32, _: f64) -> bool {
        false
    }
}

struct Any<'a, K: Kinds> {
    made: AtomicUsize,
    score: &'a (dyn Fn(usize) -> f64 + Sync),
    evaluated: Mutex<Vec<K>>,
    wrong: Mutex<Option<String>>,
    lenient: bool,
}
impl<K: Kinds> Any<'_, K> {
    fn meet(&self, role: &str, i: &K) {
        if !i.expected() {
            self.wrong.lock().unwrap().get_or_insert(format!("{i:?} is {role}, but invalid"));
        }
    }
}
struct Model<'a, K: Kinds>(&'a Any<'a, K>);
impl<K: Kinds> EvolutionModel for Model<'_, K> {
    type Individual = K;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &K, b: &K, _: &mut McRng) -> K {
        self.0.meet("a parent", a);
        self.0.meet("a parent", b);
        K::of(a.id() * 5 % 1024 + b.id() * 3 % 1024 + 2, f64::NAN)
    }
    fn mutate(&self, i: &mut K, _: &mut McRng) {
        let fit = i.fitness();
        i.set(i.id() + 1, fit)
    }
    fn evaluate(&self, i: &mut K) {
        let k = self.0.made.fetch_add(1, SeqCst);
        i.set(i.id(), (self.0.score)(k));
        self.0.evaluated.lock().unwrap().push(*i);
    }
    fn can_survive(&self, offspring: &K, parent: &K, _: &Population<K>, _: &mut McRng) -> bool {
        self.0.meet("asked to survive", offspring);
        self.0.meet("a parent", parent);
        self.0.lenient || offspring.fitness() >= parent.fitness()
    }
}
struct Number(AtomicUsize);
impl RandomIndividual<Number> for Default0 {
    fn new_random<R: Rng>(a: &Number, _: &mut R) -> Self {
        Default0::of(a.0.fetch_add(1, SeqCst) as u32, f64::NAN)
    }
}
impl<T: Rule> RandomIndividual<Number> for Ruled<T> {
    fn new_random<R: Rng>(a: &Number, _: &mut R) -> Self {
        Self::of(a.0.fetch_add(1, SeqCst) as u32, f64::NAN)
    }
}
fn valid_only<K: Kinds + RandomIndividual<Number>>(cfg: &Cfg, how: usize, generations: usize, lenient: bool, draw: f64, score: &(dyn Fn(usize) -> f64 + Sync)) -> Result<(), String> {
    set_pattern(Some(Pattern::Const(draw)));
    let any = Any::<K> { made: AtomicUsize::new(0), score, evaluated: Mutex::default(), wrong: Mutex::default(), lenient };
    let mut reports = 0;
    let mut shapes = Vec::new();
    let mut initial = Vec::new();
    let progress = |p: &Population<K>| {
        p.iter().for_each(|i| any.meet("a member", i));
        any.meet("the fittest member", p.fittest());
        if reports == 0 {
            initial = p.to_vec();
        }
        shapes.push(p.iter().map(|i| (i.id(), i.fitness().to_bits())).collect::<Vec<_>>());
        reports += 1;
        reports <= generations
    };
    macro_rules! start {
        ($e:expr, $p:expr) => {{
            let e = $e;
            match how {
                0 => e.run(&Number(AtomicUsize::new(0)), $p, progress),
                1 => e.evolve_individual(K::of(7, f64::NAN), $p, progress),
                _ => e.evolve_population((0..cfg.n as u32 + 1).map(|id| K::of(id, f64::NAN)).collect(), $p, progress).take_fittest(),
            }
        }};
    }
    let r = catch(|| match cfg.adaptive {
        false => start!(GeneticAlgorithm::build_evolution(Model(&any)), &cfg.ga()),
        true => start!(AdaptiveGeneticAlgorithm::build_evolution(Model(&any)), &cfg.aga()),
    });
    set_pattern(None);
    let evaluated = any.evaluated.lock().unwrap();
    let first = &evaluated[..evaluated.len().min(cfg.n + (how == 2) as usize)];
    state(&shapes);
    sample(|| format!("{cfg:?} {how}: {evaluated:?} -> {r:?}"));
    let what = || format!("{cfg:?}, way {how} to start, evaluations {:?}", &evaluated[..evaluated.len().min(12)]);
    if let Some(m) = &*any.wrong.lock().unwrap() {
        return Err(format!("{}: {m}", what()));
    }
    if first.iter().all(|i| !i.expected()) {
        ensure!(r.is_err() && reports == 0, "{}: no initial individual is valid, but {reports} populations are reported, the result is {r:?}", what());
        return Ok(());
    }
    match r {
        Err(m) => return Err(format!("{}: panicked: {m}", what())),
        Ok(i) => ensure!(i.expected(), "{}: the result {i:?} is invalid", what()),
    }
    let kept = first.iter().filter(|i| i.expected()).all(|i| initial.contains(i));
    ensure!(kept, "{}: a valid individual is missing in the initial population {initial:?}", what());
    Ok(())
}

pub fn v01(r: &Runner) {
    r.explore("validity by default", Opts::default(), || {
        let scores = [
            0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, next_down(f64::MAX), 1e300, -1e300, 1e308, 1e-308, f64::EPSILON, 9007199254740993.0, 1e19,
            f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::from_bits(0x7ff0_0000_0000_0001), f64::from_bits(0xffff_ffff_ffff_ffff),
        ];
        let exponent = choose(2049);
        let fit = if exponent < 2048 { f64::from_bits(((exponent as u64) << 52) | pick(&[0, 1, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff]) | (choose(2) as u64) << 63) } else { pick(&scores) };
        let i = Default0 { id: 1, fit };
        state(&fit.to_bits());
        ensure!(i.is_valid() == i.expected(), "an individual of fitness {fit:?} is {}valid by default", if i.is_valid() { "" } else { "in" });
        Ok(())
    });
    let cfg = |n: usize| {
        let mut c = Cfg::new(flag(), n, pick(&[0.0, 0.5]));
        c.cross = pick(&[(0.0, 0.0), (1.0, 1.0)]);
        c.mutation = pick(&[(0.0, 0.0), (1.0, 1.0)]);
        c
    };
    fn alphabet<K: Kinds>(most: usize) -> impl Fn(usize) -> f64 {
        move |_| K::FITS[choose(K::FITS.len().min(most))]
    }
    let deep = r.thorough as usize;
    r.explore("every outcome of the evaluations", Opts::default(), || {
        let (n, g) = pick(&[(1, 1), (1, 3), (2, 1), (3, 1)]);
        let cfg = cfg(n);
        let (how, lenient, draw) = (choose(3), flag(), pick(&[0.0, 0.6]));
        let most = if n == 3 { 3 + deep } else { 9 };
        match choose(4) {
            0 => valid_only::<Default0>(&cfg, how, g, lenient, draw, &alphabet::<Default0>(most)),
            1 => valid_only::<Ruled<Positive>>(&cfg, how, g, lenient, draw, &alphabet::<Ruled<Positive>>(most)),
            2 => valid_only::<Ruled<Odd>>(&cfg, how, g, lenient, draw, &alphabet::<Ruled<Odd>>(most)),
            _ => valid_only::<Ruled<Never>>(&cfg, how, g, lenient, draw, &alphabet::<Ruled<Never>>(1)),
        }
    });
    r.explore("several generations", Opts::default(), || {
        let cfg = cfg(2);
        let (how, lenient) = (choose(3), flag());
        match choose(2) {
            0 => valid_only::<Default0>(&cfg, how, 2 + deep, lenient, 0.6, &alphabet::<Default0>(3)),
            _ => valid_only::<Ruled<Odd>>(&cfg, how, 2 + deep, lenient, 0.6, &alphabet::<Ruled<Odd>>(3)),
        }
    });
    r.explore("larger populations", Opts::default(), || {
        let n = upto(4, if r.thorough { 140 } else { 70 }, &[128, 129, 256, 257, 1000]);
        let cfg = cfg(n);
        let (how, bad, every) = (choose(3), pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), pick(&[1usize, 2, 3, 7, 16, 50, usize::MAX]));
        let fit = pick::<fn(usize) -> f64>(&[|k| k as f64, |k| 1e9 - k as f64, |k| (k % 3) as f64]);
        set_workers(pick(&[1, 4]));
        let first = n + (how == 2) as usize;
        let last = choose(2);
        valid_only::<Default0>(&cfg, how, 2, flag(), pick(&[0.0, 0.3, 0.99]), &|k| {
            // from the initial population one is valid at least
            let invalid = if every == 1 { k != last * (first - 1) } else if every == usize::MAX { k == last * (first - 1) || k >= first && k % 2 == 0 } else { k % every == last % every };
            if invalid { bad } else { fit(k) }
        })
    });
    r.explore("long runs", Opts::default(), || {
        let cfg = cfg(pick(&[1, 2, 5]));
        let (how, period, bad) = (choose(3), pick(&[2usize, 3, 7, 300]), pick(&[f64::NAN, f64::INFINITY]));
        valid_only::<Default0>(&cfg, how, if r.thorough { 3000 } else { 400 }, flag(), pick(&[0.0, 0.6]), &|k| if k % period == period - 1 || k > 900 { bad } else { (k % 50) as f64 })
    });
}

/// Remembers all calls.
#[derive(Default)]
struct Record {
    calls: Mutex<Vec<(char, u32, u64)>>,
    scores: usize,
}
impl Record {
    fn note(&self, c: char, a: u32, b: u64) {
        self.calls.lock().unwrap().push((c, a, b))
    }
}
struct Bare<'a>(&'a Record);
struct Spelled<'a>(&'a Record);
/// These show the rates.
struct BareBreeder<'a>(&'a Record);
struct SpelledBreeder<'a>(&'a Record);
macro_rules! operations {
    () => {
        type Individual = F;
        type Rng = McRng;
        fn rng() -> McRng {
            McRng::new()
        }
        fn crossover(&self, a: &F, b: &F, rng: &mut McRng) -> F {
            self.0.note('c', a.id, b.id as u64);
            F { id: (a.id * 3 + b.id * 5 + 1 + rng.gen_range(0..3)) % 4096, fit: a.fit }
        }
        fn mutate(&self, i: &mut F, rng: &mut McRng) {
            self.0.note('m', i.id, i.fit.to_bits());
            i.id = (i.id * 7 + 1 + rng.gen_range(0..3)) % 4096;
        }
        fn evaluate(&self, i: &mut F) {
            // with the score it had before
            self.0.note('e', i.id, i.fit.to_bits());
            i.fit = match self.0.scores {
                // all equal, many different, few different, invalid ones, never better
                0 => 1.0,
                1 => (i.id * 37 % 4093) as f64,
                2 => (i.id % 3) as f64 + 1.0,
                3 if i.id % 4 == 1 && i.id > 50 => f64::NAN,
                3 => (i.id % 11) as f64,
                _ => 5000.0 - i.id as f64,
            };
        }
    };
}
macro_rules! spelled {
    () => {
        fn improve(&self, _: &mut F) {}
        fn pre_generation(&mut self, _: &Population<F>, _: &mut ReproductionParameters<Self>) {}
        fn can_survive(&self, offspring: &F, parent: &F, _: &Population<F>, _: &mut McRng) -> bool {
            offspring.fit >= parent.fit
        }
    };
}
macro_rules! breeder {
    () => {
        fn breed(&self, p: &Population<F>, b: &ReproductionParameters<Self>, rng: &mut McRng) -> F {
            self.0.note('b', b.crossover_rate.to_bits() as u32, b.mutation_rate.to_bits());
            self.0.note('r', (b.crossover_rate.to_bits() >> 32) as u32, p.generation() as u64);
            let mut i = *b.parent_selector.select(p, rng).1;
            self.improve(&mut i);
            self.mutate(&mut i, rng);
            self.improve(&mut i);
            self.evaluate(&mut i);
            i
        }
    };
}
impl EvolutionModel for Bare<'_> {
    operations!();
}
impl EvolutionModel for Spelled<'_> {
    operations!();
    spelled!();
}
impl EvolutionModel for BareBreeder<'_> {
    operations!();
    breeder!();
}
impl EvolutionModel for SpelledBreeder<'_> {
    operations!();
    spelled!();
    breeder!();
}
type Course = (Vec<(char, u32, u64)>, Result<(u32, u64), String>);
fn observe<M: EvolutionModel<Individual = F>>(model: M, record: &Record, cfg: &Cfg, how: usize, generations: usize, draws: Pattern) -> Course {
    set_pattern(Some(draws));
    let mut count = 0;
    let progress = |p: &Population<F>| {
        record.note('p', p.generation() as u32, p.stagnation() as u64);
        p.iter().for_each(|i| record.note('i', i.id, i.fit.to_bits()));
        count += 1;
        count <= generations
    };
    macro_rules! start {
        ($e:expr, $p:expr) => {
            match how {
                0 => $e.evolve_individual(F { id: 9, fit: 0.0 }, $p, progress),
                _ => $e.evolve_population((0..cfg.n as u32 + 1).map(|k| F { id: 2 * k, fit: 0.0 }).collect(), $p, progress).take_fittest(),
            }
        };
    }
    let r = catch(|| match cfg.adaptive {
        false => start!(GeneticAlgorithm::build_evolution(model), &cfg.ga()),
        true => start!(AdaptiveGeneticAlgorithm::build_evolution(model), &cfg.aga()),
    });
    set_pattern(None);
    (std::mem::take(&mut record.calls.lock().unwrap()), r.map(|i| (i.id, i.fit.to_bits())))
}
fn differs(what: &str, bare: &Course, spelled: &Course) -> Result<(), String> {
    if let Some(k) = bare.0.iter().zip(&spelled.0).position(|(a, b)| a != b) {
        return Err(format!("{what}: step {k} without own operations is {:?}, with operations that do what is documented {:?}", bare.0[k], spelled.0[k]));
    }
    ensure!(bare.0.len() == spelled.0.len() && bare.1 == spelled.1, "{what}: {} steps to {:?} without own operations, {} to {:?} with operations that do what is documented", bare.0.len(), bare.1, spelled.0.len(), spelled.1);
    Ok(())
}

pub fn h01(r: &Runner) {
    let record = || Record { calls: Mutex::default(), scores: 1 };
    const SCORES: [f64; 14] = [0.0, -0.0, 1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, -1.0, 2.0, 5e-324, 1e17, 1e17 + 16.0, f64::MAX, f64::MIN, 1e-12, -1e300];
    r.explore("improvement", Opts::default(), || {
        let i = F { id: pick(&[0, 1, 77]), fit: if flag() { pick(&SCORES) } else { pick(&BAD) } };
        let record = record();
        let mut j = i;
        for _ in 0..pick(&[1, 2, 300]) {
            Bare(&record).improve(&mut j);
        }
        state(&(i.id, i.fit.to_bits()));
        ensure!((i.id, i.fit.to_bits()) == (j.id, j.fit.to_bits()), "the improvement that no model defines makes {j:?} of {i:?}");
        ensure!(record.calls.lock().unwrap().is_empty(), "the improvement that no model defines calls {:?}", record.calls.lock().unwrap());
        Ok(())
    });
    r.explore("survival", Opts { unit: Unit::List(std::sync::Arc::new(vec![0.0, 0.3, BELOW_ONE])), min_weight: 0.0, ..Default::default() }, || {
        let (a, b) = (F { id: 1, fit: pick(&SCORES) }, F { id: choose(2) as u32, fit: pick(&SCORES) });
        let n = pick(&[1, 2, 5]);
        let list = scored(&(0..n).map(|i| i as f64).collect::<Vec<_>>());
        let pop = if flag() { aged(&list, F { id: 99, fit: -1.0 }, pick(&AGES)) } else { Population::new(list) };
        let record = record();
        let got = Bare(&record).can_survive(&a, &b, &pop, &mut McRng::new());
        state(&(a.fit.to_bits(), b.fit.to_bits(), n, pop.generation(), pop.stagnation()));
        ensure!(
            got == (a.fit >= b.fit),
            "in generation {} that stagnates for {}, an offspring of fitness {:?} {} a parent of fitness {:?} in a population of {n}",
            pop.generation(),
            pop.stagnation(),
            a.fit,
            if got { "survives" } else { "does not survive" },
            b.fit
        );
        Ok(())
    });
    r.explore("preparation", Opts::default(), || {
        let n = pick(&[1, 2, 5, 100]);
        let list = scored(&(0..n).map(|i| i as f64).collect::<Vec<_>>());
        let pop = if flag() { aged(&list, F { id: 99, fit: -1.0 }, pick(&AGES)) } else { Population::new(list) };
        let (c, m) = (pick(&[0.0, 0.01, 0.5, 1.0]), pick(&[0.0, 0.01, 0.5, 1.0]));
        let record = record();
        struct Untouched;
        impl SelectionMechanism<F, McRng> for Untouched {
            fn prepare(&mut self, _: &Population<F>) {
                violate("the preparation that no model defines prepares the selector".to_string())
            }
            fn select<'a>(&self, p: &'a Population<F>, _: &mut McRng) -> (usize, &'a F) {
                violate("the preparation that no model defines selects individuals".to_string());
                (0, &p[0])
            }
        }
        let mut p = ReproductionParameters::<Bare> { crossover_rate: c, mutation_rate: m, parent_selector: Box::new(Untouched) };
        let before = &*p.parent_selector as *const _ as *const ();
        for _ in 0..2 {
            Bare(&record).pre_generation(&pop, &mut p);
        }
        state(&(n, pop.generation(), pop.stagnation(), c.to_bits(), m.to_bits()));
        let after = &*p.parent_selector as *const _ as *const ();
        ensure!(
            (p.crossover_rate, p.mutation_rate) == (c, m) && before == after,
            "the preparation that no model defines changes the rates {c} and {m} to {} and {}, or the selector, in generation {} that stagnates for {}",
            p.crossover_rate,
            p.mutation_rate,
            pop.generation(),
            pop.stagnation()
        );
        Ok(())
    });
    let patterns = |r: &Runner| if r.thorough { pick(&[Pattern::Zero, Pattern::Max, Pattern::Const(0.4), Pattern::Weyl(1), Pattern::Weyl(2), Pattern::Weyl(3), Pattern::Weyl(4), Pattern::Weyl(5)]) } else { pick(&[Pattern::Zero, Pattern::Max, Pattern::Weyl(1), Pattern::Weyl(2)]) };
    let both = |n: usize, generations: usize, draws: Pattern| {
        let mut cfg = Cfg::new(flag(), n, pick(&[0.0, 0.3]));
        (cfg.cross, cfg.mutation) = pick(&[((0.0, 0.5), (0.25, 0.75)), ((1.0, 1.0), (0.0, 0.0)), ((0.3, 0.7), (1.0, 1.0))]);
        cfg.strategy = pick(&[SelectionStrategy::Tournament(2), SelectionStrategy::RouletteWheel]);
        cfg.interval = pick(&[1, 4]);
        let (scores, how) = (choose(5), choose(2));
        let record = Record { calls: Mutex::default(), scores };
        let own = flag();
        let (a, b) = if own {
            (observe(BareBreeder(&record), &record, &cfg, how, generations, draws), observe(SpelledBreeder(&record), &record, &cfg, how, generations, draws))
        } else {
            (observe(Bare(&record), &record, &cfg, how, generations, draws), observe(Spelled(&record), &record, &cfg, how, generations, draws))
        };
        state(&a.0);
        sample(|| format!("{cfg:?} {scores} {draws:?}: {:?}", &a.0[..a.0.len().min(40)]));
        let what = format!("{cfg:?}, scores of kind {scores}, {generations} generations, draws {draws:?}");
        if own && !cfg.adaptive {
            let rates = (cfg.cross.0.to_bits(), cfg.mutation.0.to_bits());
            for w in a.0.windows(2).filter(|w| w[0].0 == 'b') {
                let got = (w[0].1 as u64 | (w[1].1 as u64) << 32, w[0].2);
                ensure!(got == rates, "{what}: breeding in generation {} has the rates {} and {}", w[1].2, f64::from_bits(got.0), f64::from_bits(got.1));
            }
        }
        differs(&what, &a, &b)
    };
    r.explore("whole runs", Opts::default(), || both(pick(&[1, 2, 3, 5, 10]), pick(&[1, 3, 10]), patterns(r)));
    r.explore("large populations", Opts::default(), || both(pick(&[64, 100, 257]), 2, patterns(r)));
    r.explore("long runs", Opts::default(), || both(pick(&[1, 3]), if r.thorough { 2000 } else { 300 }, patterns(r)));
}
