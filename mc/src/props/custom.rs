//! The extension points: custom algorithms and the extension of lists of individuals.
use super::evolution::*;
use crate::engine::*;
use crate::ensure;
use crate::hook::{yield_point, McRng};
use crate::models::*;
use crate::util::*;
use object_pool::Pool;
use rand::Rng;
use rusty_genes::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Mutex;

// -------------------------------------------------------------------------------------------- X01

#[derive(Clone, Debug, PartialEq)]
enum Step {
    Made,
    Mutated,
    Configure(u32),
    Initialize(usize),
    Evaluate,
    Report(Vec<F>, usize),
    Prepare(Vec<F>),
    Elites(Vec<F>, Vec<F>, Vec<F>),
    /// mark of the population, rates, result
    Breed(u64, f64, f64, F),
    Generate(Vec<F>, Vec<F>, Vec<F>),
    Replace(Vec<F>, Vec<F>),
}
struct Stage {
    log: Mutex<Vec<Step>>,
    serial: AtomicU32,
    /// which own elites, or all of them in turn
    elites: Option<usize>,
    /// values of individuals by number
    value: Box<dyn Fn(u32) -> f64 + Sync>,
}
impl Stage {
    fn add(&self, s: Step) {
        self.log.lock().unwrap().push(s)
    }
    fn next(&self) -> u32 {
        self.serial.fetch_add(1, SeqCst)
    }
}
struct Actor<'a>(&'a Stage);
impl EvolutionModel for Actor<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, _: &F, _: &mut McRng) -> F {
        *a
    }
    fn mutate(&self, i: &mut F, _: &mut McRng) {
        self.0.add(Step::Mutated);
        i.id = 1 + self.0.next()
    }
    fn evaluate(&self, i: &mut F) {
        self.0.add(Step::Evaluate);
        i.fit = (self.0.value)(i.id);
    }
    fn breed(&self, p: &Population<F>, b: &ReproductionParameters<Self>, _: &mut McRng) -> F {
        let id = 100 + self.0.next();
        let x = F { id, fit: (self.0.value)(id) };
        self.0.add(Step::Breed(mark(p), b.crossover_rate, b.mutation_rate, x));
        x
    }
}
/// Parameters: token, initial size, capacity, target sizes per generation.
#[derive(Clone, Debug)]
struct Sizes {
    token: u32,
    initial: usize,
    max: usize,
    targets: Vec<usize>,
}
impl EvolutionParameters for Sizes {
    fn initial_population_size(&self) -> usize {
        self.initial
    }
    fn max_population_size(&self) -> usize {
        self.max
    }
    fn validate(&self) {}
}
macro_rules! custom {
    ($name:ident, $($more:tt)*) => {
        struct $name<'a> {
            model: Actor<'a>,
            targets: Vec<usize>,
            at: usize,
            breeding: ReproductionParameters<Actor<'a>>,
        }
        impl<'a> From<Actor<'a>> for $name<'a> {
            fn from(model: Actor<'a>) -> Self {
                $name { model, targets: vec![], at: 0, breeding: Default::default() }
            }
        }
        impl<'a> EvolutionAlgorithm<Actor<'a>> for $name<'a> {
            type Parameters = Sizes;
            fn model(&self) -> &Actor<'a> {
                &self.model
            }
            fn reproduction_parameters(&self) -> (&ReproductionParameters<Actor<'a>>, usize) {
                (&self.breeding, self.targets[self.at - 1])
            }
            fn configure(&mut self, p: &Sizes) {
                self.model.0.add(Step::Configure(p.token));
                self.targets = p.targets.clone();
                self.at = 0;
            }
            fn prepare_for_next_population(&mut self, p: &Population<F>) {
                self.model.0.add(Step::Prepare(p.to_vec()));
                self.at += 1;
                self.breeding.crossover_rate = self.at as f64 / 64.0;
                self.breeding.mutation_rate = 0.5 + self.at as f64 / 64.0;
            }
            $($more)*
        }
    };
}
custom!(Minimal,);
custom!(OwnElites,
    fn select_elites(&self, p: &Population<F>, elites: &mut Vec<F>) {
        let before = elites.to_vec();
        elites.extend(extra_elites(self.model.0, p));
        self.model.0.add(Step::Elites(p.to_vec(), before, elites.to_vec()));
    }
);
custom!(OwnGeneration,
    fn generate_new_population(&self, p: &Population<F>, offspring: &mut Vec<F>, pool: &Pool<McRng>) {
        let before = offspring.to_vec();
        let mut rng = pool.pull(McRng::new);
        for _ in 0..1 + self.targets[self.at - 1] {
            offspring.push(self.model.breed(p, &self.breeding, &mut rng));
        }
        self.model.0.add(Step::Generate(p.to_vec(), before, offspring.to_vec()));
    }
);
custom!(OwnReplacement,
    fn replace_population(&self, p: &mut Population<F>, offspring: &mut Vec<F>) {
        self.model.0.add(Step::Replace(p.to_vec(), offspring.to_vec()));
        // the new ones are added to the old ones
        offspring.extend(p.iter().copied());
        p.replace(offspring);
    }
);
custom!(OwnEnds,
    fn select_elites(&self, p: &Population<F>, elites: &mut Vec<F>) {
        let before = elites.to_vec();
        elites.extend(extra_elites(self.model.0, p));
        self.model.0.add(Step::Elites(p.to_vec(), before, elites.to_vec()));
    }
    fn replace_population(&self, p: &mut Population<F>, offspring: &mut Vec<F>) {
        self.model.0.add(Step::Replace(p.to_vec(), offspring.to_vec()));
        // works for an empty list as well
        offspring.extend(p.iter().copied());
        p.replace(offspring);
    }
);
custom!(OwnEverything,
    fn initialize_population(&self, individuals: Vec<F>) -> Population<F> {
        self.model.0.add(Step::Initialize(individuals.len()));
        Population::new(individuals.into_iter().map(|i| F { id: i.id, fit: i.id as f64 }).chain([F { id: 99, fit: 0.5 }]).collect())
    }
    fn select_elites(&self, p: &Population<F>, elites: &mut Vec<F>) {
        let before = elites.to_vec();
        elites.extend(extra_elites(self.model.0, p));
        self.model.0.add(Step::Elites(p.to_vec(), before, elites.to_vec()));
    }
    fn generate_new_population(&self, p: &Population<F>, offspring: &mut Vec<F>, pool: &Pool<McRng>) {
        let before = offspring.to_vec();
        let mut rng = pool.pull(McRng::new);
        offspring.insert(0, self.model.breed(p, &self.breeding, &mut rng));
        self.model.0.add(Step::Generate(p.to_vec(), before, offspring.to_vec()));
    }
    fn replace_population(&self, p: &mut Population<F>, offspring: &mut Vec<F>) {
        self.model.0.add(Step::Replace(p.to_vec(), offspring.to_vec()));
        p.replace(offspring);
    }
);
/// Elites of an algorithm of its own.
fn extra_elites(s: &Stage, p: &Population<F>) -> Vec<F> {
    match s.elites.unwrap_or_else(|| choose(4)) {
        0 => vec![],
        1 => vec![p[0]],
        2 => vec![p[p.len() - 1], F { id: 999, fit: 2.25 }, p[0]],
        _ => p.to_vec(),
    }
}

fn conduct<'a, A: EvolutionAlgorithm<Actor<'a>, Parameters = Sizes> + From<Actor<'a>>>(stage: &'a Stage, own: [bool; 4], sizes: &Sizes, how: usize) -> Result<(), String> {
    let e = A::build_evolution(Actor(stage));
    let make = |token: u32| {
        assert_eq!(token, 77);
        stage.add(Step::Made);
        F { id: 1 + stage.next(), fit: f64::NAN }
    };
    let args = Args { token: 77, make: &make };
    let generations = sizes.targets.len();
    let list: Vec<F> = (0..3).map(|i| F { id: 10 + i, fit: 0.0 }).collect();
    let res = catch(|| {
        let start = match how {
            0 => Start::Random(&args),
            1 => Start::From(F { id: 5, fit: 0.0 }),
            _ => Start::List(list.clone()),
        };
        let mut count = 0;
        go(&e, sizes, start, |p| {
            stage.add(Step::Report(p.to_vec(), p.generation()));
            count += 1;
            count <= generations
        })
    });
    let log = std::mem::take(&mut *stage.log.lock().unwrap());
    let [own_init, own_elites, own_generation, own_replacement] = own;
    let what = || format!("{sizes:?}, run kind {how}: {:?}", &log[..log.len().min(40)]);
    state(&format!("{own:?} {how} {log:?}"));
    sample(what);
    ensure!(res.is_ok(), "{}: panicked: {res:?}", what());
    let count = |part: &[Step], f: &dyn Fn(&Step) -> bool| part.iter().filter(|s| f(s)).count();
    let Some(first) = log.iter().position(|s| matches!(s, Step::Report(..))) else { return Err(format!("{}: nothing was reported", what())) };
    let head = &log[..first];
    let n = if how == 2 { 3 } else { sizes.initial };
    ensure!(count(head, &|s| *s == Step::Made) == if how == 0 { n } else { 0 }, "{}: {} random individuals were made", what(), count(head, &|s| *s == Step::Made));
    ensure!(count(head, &|s| *s == Step::Mutated) == if how == 1 { n - 1 } else { 0 }, "{}: {} mutations at the start", what(), count(head, &|s| *s == Step::Mutated));
    ensure!(count(&log, &|s| matches!(s, Step::Configure(_))) == 1, "{}: configured {} times", what(), count(&log, &|s| matches!(s, Step::Configure(_))));
    let Some(c) = head.iter().position(|s| *s == Step::Configure(sizes.token)) else { return Err(format!("{}: not configured with the parameters before the first report", what())) };
    if own_init {
        ensure!(head[c..].contains(&Step::Initialize(n)) && count(&log, &|s| matches!(s, Step::Initialize(_))) == 1, "{}: not initialized once, after configuration", what());
        ensure!(count(&log, &|s| *s == Step::Evaluate) == 0, "{}: evaluated although the algorithm initializes itself", what());
    } else {
        ensure!(count(head, &|s| *s == Step::Evaluate) == n && count(&head[c..], &|s| *s == Step::Evaluate) == n, "{}: evaluations are not as many as individuals, or before configuration", what());
    }
    let reports: Vec<usize> = (0..log.len()).filter(|&i| matches!(log[i], Step::Report(..))).collect();
    ensure!(reports.len() == generations + 1 && reports[generations] == log.len() - 1, "{}: {} reports", what(), reports.len());
    for (g, w) in reports.windows(2).enumerate() {
        let (Step::Report(old, gen), Step::Report(new, after)) = (&log[w[0]], &log[w[1]]) else { unreachable!() };
        ensure!(*gen == g && *after == g + 1, "{}: generations {gen} and {after} are reported in place {g}", what());
        let part = &log[w[0] + 1..w[1]];
        let at = |f: &dyn Fn(&Step) -> bool| -> Vec<usize> { (0..part.len()).filter(|&i| f(&part[i])).collect() };
        let prepare = at(&|s| matches!(s, Step::Prepare(_)));
        ensure!(prepare.len() == 1 && prepare[0] == 0, "{}: generation {g} is not prepared exactly once, before everything else", what());
        ensure!(part[0] == Step::Prepare(old.clone()), "{}: generation {g} is prepared with another population", what());
        let elites = at(&|s| matches!(s, Step::Elites(..)));
        let generate = at(&|s| matches!(s, Step::Generate(..)));
        let replace = at(&|s| matches!(s, Step::Replace(..)));
        let breeds = at(&|s| matches!(s, Step::Breed(..)));
        ensure!(elites.len() == own_elites as usize && generate.len() == own_generation as usize && replace.len() == own_replacement as usize, "{}: a step of generation {g} is left out or repeated", what());
        ensure!(at(&|s| matches!(s, Step::Evaluate | Step::Made | Step::Mutated | Step::Initialize(_))).is_empty(), "{}: something else happens in generation {g}", what());
        let rates = ((g + 1) as f64 / 64.0, 0.5 + (g + 1) as f64 / 64.0);
        let mut bred = Vec::new();
        let old_mark = mark(old);
        for &i in &breeds {
            let Step::Breed(p, c, m, x) = &part[i] else { unreachable!() };
            ensure!(*p == old_mark && (*c, *m) == rates, "{}: breeding in generation {g} with another population or other rates", what());
            bred.push(*x);
        }
        // the list after the elites
        let list: Option<Vec<F>> = match elites.first() {
            Some(&i) => {
                let Step::Elites(p, before, after) = &part[i] else { unreachable!() };
                ensure!(p == old && before.is_empty(), "{}: the elites of generation {g} are selected from another population or into a list with {before:?}", what());
                ensure!(breeds.iter().chain(&generate).chain(&replace).all(|&j| j > i), "{}: breeding before the selection of the elites of generation {g}", what());
                Some(after.clone())
            }
            None => None,
        };
        // the default elite: one of those with the best fitness
        let best = old.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
        let top: Vec<F> = old.iter().copied().filter(|i| i.fit == best).collect();
        let default_elite = |v: &[F]| v.len() == 1 && top.contains(&v[0]);
        let sort = |v: &[F]| {
            let mut k: Vec<_> = v.iter().map(|i| (i.id, i.fit.to_bits())).collect();
            k.sort();
            k
        };
        let mut whole = match generate.first() {
            Some(&i) => {
                let Step::Generate(p, before, after) = &part[i] else { unreachable!() };
                ensure!(p == old, "{}: generation {g} is bred from another population", what());
                match &list {
                    Some(l) => ensure!(before == l, "{}: generation {g} starts from {before:?} instead of the elites {l:?}", what()),
                    None => ensure!(default_elite(before), "{}: generation {g} starts from {before:?} instead of the fittest one", what()),
                }
                ensure!(replace.iter().all(|&j| j > i), "{}: replacement before breeding in generation {g}", what());
                Some(after.clone())
            }
            None => {
                let k = list.as_ref().map_or(1, |l| l.len());
                let missing = sizes.targets[g].saturating_sub(k);
                ensure!(bred.len() == missing, "{}: {} breedings in generation {g}, {missing} are missing to {} with {k} elites", what(), bred.len(), sizes.targets[g]);
                list.clone().map(|mut l| {
                    l.extend(&bred);
                    l
                })
            }
        };
        if let Some(&i) = replace.first() {
            let Step::Replace(p, l) = &part[i] else { unreachable!() };
            ensure!(p == old && i == part.len() - 1, "{}: replacement of another population, or not at the end of generation {g}", what());
            match &whole {
                Some(w) => {
                    let same = if generate.is_empty() { sort(l) == sort(w) } else { l == w };
                    ensure!(same, "{}: generation {g} is replaced by {l:?} instead of {w:?}", what())
                }
                None => {
                    ensure!(!l.is_empty() && default_elite(&l[..1]) && sort(&l[1..]) == sort(&bred), "{}: generation {g} is replaced by {l:?} instead of the fittest one and {bred:?}", what());
                }
            }
            let mut w = l.clone();
            if !own_init {
                w.extend(old);
            }
            whole = Some(w);
        }
        let mut got = sort(new);
        got.dedup();
        ensure!(got.len() == new.len(), "{}: a duplicate in generation {}", what(), g + 1);
        match whole {
            Some(w) => {
                let mut e = sort(&w);
                e.dedup();
                ensure!(got == e, "{}: generation {} consists of {new:?} instead of {w:?}", what(), g + 1);
            }
            None => {
                let fits = top.iter().any(|t| {
                    let mut w = bred.clone();
                    w.push(*t);
                    let mut e = sort(&w);
                    e.dedup();
                    got == e
                });
                ensure!(fits, "{}: generation {} consists of {new:?} instead of the fittest one and {bred:?}", what(), g + 1);
            }
        }
    }
    let seen = reports.iter().flat_map(|&i| if let Step::Report(p, _) = &log[i] { p.clone() } else { vec![] });
    match res.unwrap() {
        End::Best(x) => {
            let seen: Vec<F> = seen.collect();
            let best = seen.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
            ensure!(x.fit == best && seen.contains(&x), "{}: returned {x:?}, the best fitness was {best}", what());
        }
        End::All(v, g, _) => {
            let Step::Report(p, n) = &log[log.len() - 1] else { unreachable!() };
            ensure!(v == *p && g == *n, "{}: returned {v:?} of generation {g}", what());
        }
    }
    Ok(())
}

fn production(kind: usize, elites: Option<usize>, sizes: &Sizes, how: usize, value: Box<dyn Fn(u32) -> f64 + Sync>) -> Result<(), String> {
    let stage = Stage { log: Mutex::new(vec![]), serial: AtomicU32::new(0), elites, value };
    match kind {
        0 => conduct::<Minimal>(&stage, [false, false, false, false], sizes, how),
        1 => conduct::<OwnElites>(&stage, [false, true, false, false], sizes, how),
        2 => conduct::<OwnGeneration>(&stage, [false, false, true, false], sizes, how),
        5 => conduct::<OwnEnds>(&stage, [false, true, false, true], sizes, how),
        3 => conduct::<OwnReplacement>(&stage, [false, false, false, true], sizes, how),
        _ => conduct::<OwnEverything>(&stage, [true, true, true, true], sizes, how),
    }
}

pub fn x01(r: &Runner) {
    let deep = if r.thorough { 4 } else { 3 };
    r.explore("all steps, small sizes", Opts::default(), || {
        let kind = choose(6);
        let how = choose(3);
        let initial = 1 + choose(3);
        let max = pick(&[0, 1, 5]);
        let generations = choose(deep);
        // own elites may be none at all
        let low = if kind == 1 { 1 } else { 0 };
        let targets = (0..generations).map(|_| low + choose(5)).collect();
        let sizes = Sizes { token: 4711, initial, max, targets };
        let shape = choose(3);
        production(
            kind,
            None,
            &sizes,
            how,
            Box::new(move |id| match shape {
                0 => id as f64,
                1 => -(id as f64),
                _ => (id % 3) as f64,
            }),
        )
    });
    r.explore("sizes", Opts::default(), || {
        let kind = choose(4);
        let n = upto(1, 70, &[100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025]);
        let m = pick(&[1, n / 2 + 1, n, n + 1, 2 * n + 3]);
        let sizes = Sizes { token: 7, initial: n, max: m, targets: vec![m, n, 1] };
        set_workers(pick(&[1, 4]));
        let o = choose(2) as u8;
        with(|c| c.join_order = o);
        production(kind, Some(if kind == 1 { choose(4) } else { 0 }), &sizes, if n > 70 { 0 } else { choose(2) }, Box::new(|id| (id * 7919 % 1009) as f64))
    });
    r.explore("long runs", Opts::default(), || {
        let kind = choose(6);
        let generations = pick(&[40, 130, 300]);
        let k = if kind == 3 || kind == 5 { 1 } else { 1 + choose(4) };
        let sizes = Sizes { token: 3, initial: 2, max: 4, targets: (0..generations).map(|g| 1 + (g * k) % 4).collect() };
        let elites = if kind == 1 || kind >= 4 { 1 + choose(2) } else { 0 };
        let down = flag();
        production(kind, Some(elites), &sizes, choose(3), Box::new(move |id| if down { -(id as f64) } else { (id * 31 % 64) as f64 }))
    });
    r.explore("schedules", Opts { preemptions: Some(if r.thorough { 2 } else { 1 }), ..Default::default() }, || {
        let sizes = Sizes { token: 1, initial: 2, max: 2, targets: vec![pick(&[1, 2, 3, 4])] };
        set_workers(2);
        production(pick(&[0, 1, 3]), Some(2), &sizes, 2, Box::new(|id| id as f64))
    });
}

// -------------------------------------------------------------------------------------------- X02

/// A model that is asked for individuals directly.
struct Supply<'a> {
    mutated: &'a Mutex<Vec<(F, F, u32)>>,
    serial: &'a AtomicU32,
    made: &'a AtomicU32,
}
impl EvolutionModel for Supply<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, _: &F, _: &mut McRng) -> F {
        *a
    }
    fn mutate(&self, i: &mut F, rng: &mut McRng) {
        yield_point();
        let before = *i;
        let k = self.serial.fetch_add(1, SeqCst);
        i.id = 100 + k;
        i.fit = k as f64;
        self.mutated.lock().unwrap().push((before, *i, rng.id));
    }
    fn evaluate(&self, i: &mut F) {
        i.fit = 1.0 + i.id as f64;
    }
}
struct Token<'a>(u32, &'a AtomicU32);
impl RandomIndividual<Token<'_>> for F {
    fn new_random<R: Rng>(t: &Token<'_>, _: &mut R) -> F {
        yield_point();
        F { id: 10_000 * t.0 + t.1.fetch_add(1, SeqCst), fit: f64::NAN }
    }
}
fn extended(before: usize, size: usize, random: bool, capacity: usize) -> Result<(), String> {
    let mutated = Mutex::new(vec![]);
    let (serial, made) = (AtomicU32::new(0), AtomicU32::new(0));
    let m = Supply { mutated: &mutated, serial: &serial, made: &made };
    let old: Vec<F> = (0..before).map(|i| F { id: 7 + (i % 3) as u32, fit: i as f64 }).collect();
    let mut v = Vec::with_capacity(capacity);
    v.extend(old.iter().copied());
    const MODEL: F = F { id: 3, fit: -2.5 };
    let res = catch(|| {
        if random {
            m.extend_population(&mut v, size, &Token(5, &made));
        } else {
            m.extend_population_with(&mut v, size, MODEL);
        }
        v.clone()
    });
    let what = format!("{before} individuals extended by {size} {}", if random { "random ones" } else { "made from one" });
    let v = res.map_err(|e| format!("{what}: panicked: {e}"))?;
    let mutated = mutated.into_inner().unwrap();
    let key = |i: &F| (i.id, i.fit.to_bits());
    ensure!(v.len() == before + size, "{what}: there are {} then", v.len());
    ensure!(v[..before] == old[..], "{what}: those before are changed: {:?}", &v[..before.min(10)]);
    let mut got: Vec<_> = v[before..].iter().map(key).collect();
    got.sort();
    state(&(before, size, random, v.iter().map(key).collect::<Vec<_>>()));
    sample(|| format!("{what}: {:?}", &v[..v.len().min(10)]));
    if random {
        ensure!(made.load(SeqCst) as usize == size && mutated.is_empty(), "{what}: {} were created and {} mutated", made.load(SeqCst), mutated.len());
        let e: Vec<_> = (0..size as u32).map(|k| 50_000 + k).collect();
        ensure!(got.iter().map(|k| k.0).eq(e.iter().copied()) && v[before..].iter().all(|i| i.fit.is_nan()), "{what}: {:?}", &v[before..][..size.min(10)]);
    } else if size > 0 {
        ensure!(made.load(SeqCst) == 0, "{what}: random individuals were created");
        ensure!(mutated.len() == size - 1, "{what}: {} mutations", mutated.len());
        ensure!(mutated.iter().all(|x| x.0 == MODEL), "{what}: mutations of {:?}", mutated.iter().map(|x| x.0).take(10).collect::<Vec<_>>());
        let mut e: Vec<_> = mutated.iter().map(|x| key(&x.1)).chain([key(&MODEL)]).collect();
        e.sort();
        ensure!(got == e, "{what}: {:?}", &v[before..][..size.min(10)]);
    } else {
        ensure!(mutated.is_empty(), "{what}: {} mutations", mutated.len());
    }
    Ok(())
}

/// A model that makes the initial individuals itself.
struct Maker<'a> {
    list: Vec<F>,
    asked: &'a Mutex<Vec<(usize, usize)>>,
    evaluated: &'a Mutex<Vec<F>>,
}
impl EvolutionModel for Maker<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, _: &F, _: &mut McRng) -> F {
        *a
    }
    fn mutate(&self, i: &mut F, _: &mut McRng) {
        i.id = 9999;
    }
    fn evaluate(&self, i: &mut F) {
        self.evaluated.lock().unwrap().push(*i);
        i.fit = i.id as f64;
    }
    fn extend_population<T>(&self, individuals: &mut Vec<F>, size: usize, _: &T)
    where
        T: Sync,
        F: RandomIndividual<T>,
    {
        self.asked.lock().unwrap().push((individuals.len(), size));
        individuals.extend(&self.list);
    }
    fn extend_population_with(&self, individuals: &mut Vec<F>, size: usize, model: F) {
        self.asked.lock().unwrap().push((individuals.len(), size));
        individuals.extend(&self.list);
        individuals.push(model);
    }
}

pub fn x02(r: &Runner) {
    r.explore("lists and sizes", Opts::default(), || {
        let before = upto(0, 5, &[33, 64, 100]);
        let size = upto(0, 70, &[100, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000]);
        set_workers(pick(&[1, 2, 3, 8]));
        let (o, m) = pick(&[(0, false), (1, false), (0, true)]);
        with(|c| (c.join_order, c.migrated) = (o, m));
        extended(before, size, flag(), pick(&[0, before + size, before + 1]))
    });
    r.explore("huge lists", Opts::default(), || {
        let (before, size) = pick(&[(0, 65_535), (0, 65_536), (0, 65_537), (5, 65_536), (66_000, 3), (3, 100_000)]);
        set_workers(pick(&[1, 4]));
        extended(before, size, flag(), pick(&[0, before + size]))
    });
    for p in if r.thorough { vec![1, 2, 3] } else { vec![1, 2] } {
        r.explore(&format!("schedules with up to {p} preemptions"), Opts { preemptions: Some(p), ..Default::default() }, || {
            let size = choose([0, 9, 6, 5][p as usize]);
            set_workers(pick(&[2, 3]));
            extended(choose(3), size, flag(), 0)
        });
    }
    r.explore("models that make the initial individuals", Opts::default(), || {
        let n = pick(&[1, 2, 5, 40]);
        let k = pick(&[0, 1, 2, 3, 7, 50]);
        let from = flag();
        if k == 0 && !from {
            skip() // no individual at all
        }
        let cfg = Cfg::new(flag(), n, 0.0);
        let list: Vec<F> = (0..k as u32).map(|id| F { id, fit: 0.25 }).collect();
        let (asked, evaluated) = (Mutex::new(vec![]), Mutex::new(vec![]));
        let model = Maker { list: list.clone(), asked: &asked, evaluated: &evaluated };
        let none = AtomicU32::new(0);
        let args = Token(1, &none);
        let mut first: Option<Vec<F>> = None;
        let mut progress = |p: &Population<F>| {
            first.get_or_insert(p.to_vec());
            false
        };
        let res = catch(|| {
            if cfg.adaptive {
                let e = AdaptiveGeneticAlgorithm::build_evolution(model);
                if from {
                    e.evolve_individual(F { id: 500, fit: 1.0 }, &cfg.aga(), &mut progress)
                } else {
                    e.run(&args, &cfg.aga(), &mut progress)
                }
            } else {
                let e = GeneticAlgorithm::build_evolution(model);
                if from {
                    e.evolve_individual(F { id: 500, fit: 1.0 }, &cfg.ga(), &mut progress)
                } else {
                    e.run(&args, &cfg.ga(), &mut progress)
                }
            }
        });
        let what = format!("{cfg:?}, a model that makes {k} individuals");
        ensure!(res.is_ok(), "{what}: panicked: {res:?}");
        let mut e = list;
        if from {
            e.push(F { id: 500, fit: 1.0 });
        }
        ensure!(*asked.lock().unwrap() == [(0, n)], "{what}: asked for individuals (list length, size): {:?}", asked.lock().unwrap());
        ensure!(none.load(SeqCst) == 0, "{what}: random individuals were created");
        let mut ev = evaluated.into_inner().unwrap();
        ev.sort_by_key(|i| i.id);
        ensure!(ev == e, "{what}: evaluated were {ev:?}");
        let ids: Vec<u32> = first.unwrap_or_default().iter().map(|i| i.id).collect();
        ensure!(ids.iter().copied().eq(e.iter().map(|i| i.id)), "{what}: the first population has the individuals {ids:?}");
        state(&(n, k, from, cfg.adaptive));
        Ok(())
    });
}
