use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::models::*;
use crate::util::*;
use rusty_genes::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// An individual that remembers what was done to it.
#[derive(Clone, Copy, Debug)]
struct A {
    id: u32,
    mutated: u32,
    improved: u32,
    evaluated: u32,
    fit: f64,
    broken: bool,
}
impl PartialEq for A {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
            && self.mutated == o.mutated
            && self.improved == o.improved
            && self.evaluated == o.evaluated
            && self.fit.to_bits() == o.fit.to_bits()
            && self.broken == o.broken
    }
}
impl Individual for A {
    fn fitness(&self) -> f64 {
        self.fit
    }
    fn is_valid(&self) -> bool {
        self.fit.is_finite() && !self.broken
    }
}

#[derive(Clone, Debug)]
enum Step {
    Select(usize),
    Cross(A, A, A),
    Mutate(A, A),
    Improve(A, A),
    Evaluate(A, A),
    Survive(A, A, bool),
}
type Log = Mutex<Vec<Step>>;

/// Fitness an evaluation may assign, relative to the population.
fn outcome(fits: &[f64]) -> (f64, bool) {
    let lo = fits[0];
    let hi = fits[fits.len() - 1];
    let mut options = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, lo - 1.0, hi + 1.0];
    options.extend(fits);
    for w in fits.windows(2) {
        options.push((w[0] + w[1]) / 2.0);
    }
    options.push(next_down(hi));
    options.push(next_up(hi));
    if hi == 0.0 {
        options.push(-hi);
    }
    let k = choose(options.len() + 1);
    if k == options.len() {
        (hi + 2.0, true)
    } else {
        (options[k], false)
    }
}

struct Base<'a> {
    log: &'a Log,
    fits: &'a [f64],
}
impl Base<'_> {
    fn add(&self, s: Step) {
        self.log.lock().unwrap().push(s)
    }
    fn crossover(&self, a: &A, b: &A) -> A {
        let child = A { id: 100, mutated: 0, improved: 0, evaluated: 0, fit: -77.0, broken: false };
        self.add(Step::Cross(*a, *b, child));
        child
    }
    fn mutate(&self, i: &mut A) {
        let before = *i;
        i.mutated += 1;
        i.fit = 1e9;
        self.add(Step::Mutate(before, *i));
    }
    fn improve(&self, i: &mut A) {
        let before = *i;
        i.improved += 1;
        i.fit = -1e9;
        self.add(Step::Improve(before, *i));
    }
    fn evaluate(&self, i: &mut A) {
        let before = *i;
        i.evaluated += 1;
        (i.fit, i.broken) = outcome(self.fits);
        self.add(Step::Evaluate(before, *i));
    }
}
macro_rules! model {
    ($name:ident, $($extra:item)*) => {
        struct $name<'a>(Base<'a>);
        impl EvolutionModel for $name<'_> {
            type Individual = A;
            type Rng = McRng;
            fn rng() -> McRng {
                McRng::new()
            }
            fn crossover(&self, a: &A, b: &A, _: &mut McRng) -> A {
                self.0.crossover(a, b)
            }
            fn mutate(&self, i: &mut A, _: &mut McRng) {
                self.0.mutate(i)
            }
            fn improve(&self, i: &mut A) {
                self.0.improve(i)
            }
            fn evaluate(&self, i: &mut A) {
                self.0.evaluate(i)
            }
            $($extra)*
        }
    };
}
model!(Plain,);
model!(Deciding, fn can_survive(&self, o: &A, p: &A, _: &Population<A>, _: &mut McRng) -> bool {
    let v = flag();
    self.0.add(Step::Survive(*o, *p, v));
    v
});

/// Selects what the explorer says, out of a few places.
struct Scripted {
    log: Arc<Log>,
    places: Vec<usize>,
}
impl SelectionMechanism<A, McRng> for Scripted {
    fn prepare(&mut self, _: &Population<A>) {}
    fn select<'a>(&self, population: &'a Population<A>, _: &mut McRng) -> (usize, &'a A) {
        let i = pick(&self.places);
        self.log.lock().unwrap().push(Step::Select(i));
        (i, &population[i])
    }
}

fn population(fits: &[f64], age: (usize, usize)) -> Population<A> {
    let made = |(i, &fit): (usize, &f64)| A { id: i as u32, mutated: 0, improved: 0, evaluated: 1, fit, broken: false };
    aged(&fits.iter().enumerate().map(made).collect::<Vec<_>>(), made((99, &-1e300)), age)
}

fn judge(pop: &Population<A>, log: &[Step], result: &A, deciding: bool) -> Result<(), String> {
    let at = |f: fn(&Step) -> bool| -> Vec<usize> { (0..log.len()).filter(|&i| f(&log[i])).collect() };
    let selects: Vec<usize> = log.iter().filter_map(|s| if let Step::Select(i) = s { Some(*i) } else { None }).collect();
    let cross = at(|s| matches!(s, Step::Cross(..)));
    let mutate = at(|s| matches!(s, Step::Mutate(..)));
    let improve = at(|s| matches!(s, Step::Improve(..)));
    let evaluate = at(|s| matches!(s, Step::Evaluate(..)));
    ensure!(!selects.is_empty(), "no parent was selected");
    ensure!(cross.len() <= 1 && mutate.len() <= 1, "{} crossovers, {} mutations", cross.len(), mutate.len());
    ensure!(improve.len() == 1 && evaluate.len() == 1, "{} improvements, {} evaluations", improve.len(), evaluate.len());
    let order: Vec<usize> = cross.iter().chain(&mutate).chain(&improve).chain(&evaluate).copied().collect();
    ensure!(order.windows(2).all(|w| w[0] < w[1]), "the steps are not in the order crossover, mutation, improvement, evaluation");
    let first = pop[selects[0]];
    let mut parents = vec![first];
    let mut offspring = first;
    if let Some(&k) = cross.first() {
        let Step::Cross(a, b, c) = log[k].clone() else { unreachable!() };
        let last = pop[*selects.last().unwrap()];
        ensure!(a != b, "crossover of an individual with itself");
        ensure!(a == first && b == last, "the crossover is made of {a:?} and {b:?}, selected were {selects:?}");
        ensure!(selects[..selects.len() - 1].iter().all(|&i| pop[i] == first), "selected were {selects:?} for one crossover");
        parents.push(last);
        offspring = c;
    } else {
        ensure!(selects.iter().all(|&i| pop[i] == first), "different individuals {selects:?} were selected, but no crossover made");
    }
    for s in log {
        match s {
            Step::Mutate(before, after) => {
                ensure!(*before == offspring, "the mutation gets {before:?}, the offspring is {offspring:?}");
                offspring = *after;
            }
            Step::Improve(before, after) => {
                ensure!(*before == offspring, "the improvement gets {before:?}, the offspring is {offspring:?}");
                offspring = *after;
            }
            Step::Evaluate(before, after) => {
                ensure!(*before == offspring, "the evaluation gets {before:?}, the offspring is {offspring:?}");
                offspring = *after;
            }
            _ => {}
        }
    }
    let best = parents.iter().map(|p| p.fit).fold(f64::NEG_INFINITY, f64::max);
    let fittest = |x: &A| parents.iter().any(|p| p == x && p.fit == best);
    let mut verdict = None;
    for s in log {
        if let Step::Survive(o, p, v) = s {
            if offspring.is_valid() {
                ensure!(*o == offspring && fittest(p), "the survival rule gets {o:?} and {p:?}, the offspring is {offspring:?}, the parents {parents:?}");
            }
            ensure!(verdict.is_none(), "the survival rule is asked twice");
            verdict = Some(*v);
        }
    }
    let survives = offspring.is_valid()
        && if deciding {
            match verdict {
                Some(v) => v,
                None => return Err(format!("the survival rule was not asked about the valid offspring {offspring:?}")),
            }
        } else {
            offspring.fit >= best
        };
    if survives {
        ensure!(*result == offspring, "{result:?} is returned, although the offspring {offspring:?} survives the parents {parents:?}");
    } else {
        ensure!(fittest(result), "{result:?} is returned, although the offspring {offspring:?} does not survive the parents {parents:?}");
    }
    Ok(())
}

fn breed_once(fits: &[f64], age: (usize, usize), places: Vec<usize>, rates: (f64, f64), deciding: bool) -> Result<(), String> {
    let pop = population(fits, age);
    let log: Arc<Log> = Arc::new(Mutex::new(Vec::new()));
    let base = Base { log: &log, fits };
    let rng = &mut McRng::new();
    let result = if deciding {
        let m = Deciding(base);
        let p = ReproductionParameters::<Deciding> { crossover_rate: rates.0, mutation_rate: rates.1, parent_selector: Box::new(Scripted { log: log.clone(), places }) };
        catch(|| m.breed(&pop, &p, rng))
    } else {
        let m = Plain(base);
        let p = ReproductionParameters::<Plain> { crossover_rate: rates.0, mutation_rate: rates.1, parent_selector: Box::new(Scripted { log: log.clone(), places }) };
        catch(|| m.breed(&pop, &p, rng))
    };
    let log = log.lock().unwrap().clone();
    let what = || format!("scores {:?}, generation and stagnation {age:?}, rates {rates:?}: {log:?} -> {result:?}", &fits[..fits.len().min(8)]);
    state(&format!("{fits:?} {log:?}"));
    sample(what);
    match &result {
        Err(m) => Err(format!("{}: breeding panicked: {m}", what())),
        Ok(x) => judge(&pop, &log, x, deciding).map_err(|m| format!("{}: {m}", what())),
    }
}

pub fn b01(r: &Runner) {
    let two = || Opts { unit: Unit::Grid(2), min_weight: 0.0, ..Default::default() };
    r.explore("default survival rule", two(), || {
        let lists: [&[f64]; 13] = [&[-0.0, 0.0], &[0.0], &[f64::MIN, f64::MAX], &[1e17, 1e17 + 16.0], &[2.0], &[1.0, 2.0], &[2.0, 2.0], &[-3.0, 0.0], &[1.0, 2.0, 4.0], &[1.0, 2.0, 2.0], &[2.0, 2.0, 2.0], &[-5.0, -5.0, -1.0], &[0.0, 5e-324]];
        let k = choose(lists.len());
        let rates = pick(&[(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.5, 0.5)]);
        breed_once(lists[k], (0, 0), (0..lists[k].len()).collect(), rates, false)
    });
    r.explore("own survival rule", two(), || {
        let lists: [&[f64]; 4] = [&[2.0], &[1.0, 2.0], &[2.0, 2.0], &[1.0, 2.0, 4.0]];
        let k = choose(lists.len());
        let rates = pick(&[(0.0, 0.0), (1.0, 0.0), (0.5, 0.5)]);
        breed_once(lists[k], (0, 0), (0..lists[k].len()).collect(), rates, true)
    });
    r.explore("aged populations", two(), || {
        let lists: [&[f64]; 4] = [&[2.0], &[1.0, 2.0], &[2.0, 2.0], &[1.0, 2.0, 4.0]];
        let k = choose(lists.len());
        let age = pick(&AGES);
        breed_once(lists[k], age, (0..lists[k].len()).collect(), pick(&[(0.0, 1.0), (1.0, 0.0), (0.5, 0.5)]), flag())
    });
    r.explore("larger populations", two(), || {
        let n = upto(4, 70, &[100, 129, 257, 1000]);
        let flat = flag();
        let fits: Vec<f64> = (0..n).map(|i| if flat { (i / 5) as f64 } else { i as f64 * 0.5 - 3.0 }).collect();
        let pop = population(&fits, (0, 0));
        let short = vec![pop[0].fit, pop[n / 2].fit, pop[n - 1].fit];
        // the evaluation chooses relative to three of the scores
        let log: Arc<Log> = Arc::new(Mutex::new(Vec::new()));
        let m = Plain(Base { log: &log, fits: &short });
        let p = ReproductionParameters::<Plain> {
            crossover_rate: pick(&[0.0, 1.0]),
            mutation_rate: 0.5,
            parent_selector: Box::new(Scripted { log: log.clone(), places: vec![0, n / 2, n - 1] }),
        };
        let x = catch(|| m.breed(&pop, &p, &mut McRng::new())).map_err(|m| format!("breeding panicked: {m}"))?;
        let log = log.lock().unwrap().clone();
        state(&format!("{n} {flat} {log:?}"));
        judge(&pop, &log, &x, false).map_err(|m| format!("{n} individuals: {log:?} -> {x:?}: {m}"))
    });
}

/// What happened to an offspring.
struct Watch<'a> {
    log: &'a Mutex<(u32, u32)>,
}
impl EvolutionModel for Watch<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, _: &F, _: &mut McRng) -> F {
        self.log.lock().unwrap().0 += 1;
        *a
    }
    fn mutate(&self, _: &mut F, _: &mut McRng) {
        self.log.lock().unwrap().1 += 1;
    }
    fn evaluate(&self, _: &mut F) {}
}
/// Selects uniformly by a draw, or as told.
struct Uniformly {
    script: Option<Mutex<Vec<usize>>>,
}
impl SelectionMechanism<F, McRng> for Uniformly {
    fn prepare(&mut self, _: &Population<F>) {}
    fn select<'a>(&self, p: &'a Population<F>, _: &mut McRng) -> (usize, &'a F) {
        let i = match &self.script {
            None => draw_int(p.len() as u128) as usize,
            Some(s) => {
                let mut s = s.lock().unwrap();
                // the last entry is repeated
                if s.len() == 1 {
                    s[0]
                } else {
                    s.remove(0)
                }
            }
        };
        (i, &p[i])
    }
}

pub fn b02(r: &Runner) {
    let rates = |k: usize| k as f64 / 64.0;
    let some: &[usize] = if r.thorough { &[0, 1, 2, 3, 5, 8, 11, 16, 21, 31, 32, 33, 45, 48, 56, 61, 62, 63, 64] } else { &[0, 1, 5, 16, 32, 45, 48, 63, 64] };
    let exact = |n: usize, age: (usize, usize), c: f64, m: f64| {
        let built_in = flag();
        let pop = aged(&scored(&(0..n).map(|i| i as f64).collect::<Vec<_>>()), F { id: 99, fit: -1.0 }, age);
        let log = Mutex::new((0, 0));
        let selector: Box<dyn SelectionMechanism<F, McRng>> =
            if built_in { SelectionStrategy::Tournament(1).create_selector() } else { Box::new(Uniformly { script: None }) };
        let p = ReproductionParameters::<Watch> { crossover_rate: c, mutation_rate: m, parent_selector: selector };
        // the grid meets every rate exactly
        let d = dist(DistOpts { k: Some(64), max_runs: 3_000_000, min_weight: 1e-9 }, || {
            *log.lock().unwrap() = (0, 0);
            Watch { log: &log }.breed(&pop, &p, &mut McRng::new());
            let l = *log.lock().unwrap();
            l
        });
        let found = 1.0 - (1.0 / n as f64).powi(3);
        let pc = if n > 1 { c * found } else { 0.0 };
        let mut e = BTreeMap::new();
        for (x, px) in [(0, 1.0 - pc), (1, pc)] {
            for (y, py) in [(0, 1.0 - m), (1, m)] {
                if px * py > 0.0 {
                    add(&mut e, (x, y), px * py);
                }
            }
        }
        for o in &d.p {
            state(&(n, age, c.to_bits(), m.to_bits(), o.0));
        }
        sample(|| format!("{n} individuals, rates {c} and {m}: {:?}", d.p));
        if !d.judged() {
            return Ok(());
        }
        let tol = if d.raw { d.tol() } else { 0.004 + d.lost };
        let what = format!("{n} individuals, generation and stagnation {age:?}, crossover rate {c}, mutation rate {m}");
        for (o, q) in &d.p {
            ensure!(e.contains_key(o), "{what}: {} crossovers and {} mutations happen with probability {q:.5}, but must not", o.0, o.1);
        }
        for (o, q) in &e {
            ensure!(
                (d.get(o) - q).abs() <= tol,
                "{what}: {} crossovers and {} mutations happen with probability {:.5}, expected {q:.5}",
                o.0,
                o.1,
                d.get(o)
            );
        }
        Ok(())
    };
    r.explore("exact rates", Opts::default(), || exact(pick(&[1, 2, 3, 4, 10]), (0, 0), rates(pick(some)), rates(pick(some))));
    r.explore("exact rates, aged populations", Opts::default(), || exact(pick(&[1, 2, 3]), pick(&AGES), rates(pick(&[16, 45, 64])), rates(pick(&[5, 32]))));
    let tiny = 1.0 / (1u64 << 53) as f64;
    let critical = Opts { unit: Unit::List(Arc::new(vec![0.0, tiny, 0.5, 1.0 - 2.0 * tiny, BELOW_ONE])), min_weight: 0.0, ..Default::default() };
    r.explore("never and always", critical, || {
        let n = upto(1, 70, &[100, 129, 1000]);
        let (c, m) = (choose(2), choose(2));
        let pop = Population::new(scored(&(0..n).map(|i| i as f64).collect::<Vec<_>>()));
        let log = Mutex::new((0, 0));
        let first = pick(&[0, n - 1]);
        let tries = choose(4);
        let other = if n > 1 { (first + 1 + choose(2)) % n } else { 0 };
        let mut script = vec![first; 1 + tries];
        script.push(other);
        let p = ReproductionParameters::<Watch> {
            crossover_rate: c as f64,
            mutation_rate: m as f64,
            parent_selector: Box::new(Uniformly { script: Some(Mutex::new(script.clone())) }),
        };
        Watch { log: &log }.breed(&pop, &p, &mut McRng::new());
        let l = *log.lock().unwrap();
        // three selections for the mate
        let e = (c == 1 && n > 1 && tries < 3 && pop[other] != pop[first]) as u32;
        state(&(n, c, m, first, tries, other, l));
        sample(|| format!("{n} individuals, rates {c} and {m}, selections {script:?}: {l:?}"));
        if e == 0 && c == 1 && tries >= 3 && n > 1 {
            ensure!(l.0 == 0, "{n} individuals, crossover rate {c}, selections {script:?}: a mate was found after more than three selections");
        }
        ensure!(l == (e, m as u32), "{n} individuals, rates {c} and {m}, selections {script:?}: {} crossovers and {} mutations", l.0, l.1);
        Ok(())
    });
    r.explore("rates close to the limits", Opts::default(), || {
        let n = pick(&[2usize, 3, 10]);
        let small = [2.0 * tiny, (2.0f64).powi(-40), 1e-9, 1e-7, 1e-5, 0.0005, 0.003, 0.01, 0.02];
        let k = choose(2 * small.len());
        let rate = if k < small.len() { small[k] } else { 1.0 - small[k - small.len()] };
        let other = pick(&[0.0, 0.5, 1.0]);
        let crossover = flag();
        let pop = Population::new(scored(&(0..n).map(|i| i as f64).collect::<Vec<_>>()));
        let log = Mutex::new((0, 0));
        // all draws of one breeding are answered with the same value
        let happens = |value: f64| {
            *log.lock().unwrap() = (0, 0);
            set_pattern(Some(Pattern::Const(value)));
            let (c, m) = if crossover { (rate, other) } else { (other, rate) };
            let p = ReproductionParameters::<Watch> {
                crossover_rate: c,
                mutation_rate: m,
                parent_selector: Box::new(Uniformly { script: Some(Mutex::new(vec![0, 1])) }),
            };
            Watch { log: &log }.breed(&pop, &p, &mut McRng::new());
            let l = *log.lock().unwrap();
            (if crossover { l.0 } else { l.1 }) > 0
        };
        let before = with(|c| c.units);
        let cells = 4096;
        let hits = (0..cells).filter(|i| happens((*i as f64 + 0.5) / cells as f64)).count();
        if with(|c| c.units) - before > 2 * cells {
            // decided by more than a draw each: equal answers say nothing
            return Ok(());
        }
        let what = format!("{n} individuals, a {} rate of {rate:?} and the other {other}", if crossover { "crossover" } else { "mutation" });
        let ends = [0.0, tiny, 1.0 - 2.0 * tiny, BELOW_ONE].map(happens);
        state(&(n, k, crossover, other.to_bits(), hits, ends));
        sample(|| format!("{what}: {hits} of {cells}, {ends:?}"));
        let share = hits as f64 / cells as f64;
        ensure!((share - rate).abs() <= 2.0 / cells as f64, "{what}: happens for {share:.5} of the draws");
        ensure!(ends.contains(&true) || hits > 0, "{what}: no draw makes it happen");
        ensure!(ends.contains(&false) || (hits as u32) < cells, "{what}: no draw prevents it");
        Ok(())
    });
    r.explore("default parameters", Opts::default(), || {
        let p = ReproductionParameters::<Watch>::default();
        ensure!((0.0..=1.0).contains(&p.crossover_rate) && (0.0..=1.0).contains(&p.mutation_rate), "default rates out of range");
        state(&1);
        Ok(())
    });
}
