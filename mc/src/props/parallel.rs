//! Schedules of the parallel parts, and whole OneMax runs.
use super::evolution::*;
use crate::engine::*;
use crate::ensure;
use crate::hook::{yield_point, McRng};
use crate::models::*;
use rand::Rng;
use rusty_genes::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Default)]
struct World {
    created: AtomicU32,
    evaluated: Mutex<Vec<F>>,
    mutated: AtomicU32,
    bred: AtomicU32,
    crossed: AtomicU32,
    callbacks: AtomicUsize,
    /// the callback that panics (counted from 1)
    fail: AtomicUsize,
    nested: AtomicUsize,
    in_use: Mutex<HashSet<u32>>,
    running: AtomicUsize,
}
struct Injected;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Nested {
    No,
    Points,
    Join,
    Iter,
    Evolution,
}
/// An evolution that takes place within a callback of another one.
#[derive(Default)]
struct Small(AtomicUsize);
impl EvolutionModel for &Small {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, b: &F, _: &mut McRng) -> F {
        F { id: (a.id + 3 * b.id + 1) % 64, fit: f64::NAN }
    }
    fn mutate(&self, i: &mut F, _: &mut McRng) {
        i.id = (i.id * 5 + 1) % 64;
    }
    fn evaluate(&self, i: &mut F) {
        i.fit = (i.id * 7 % 64) as f64 + 1.0;
        self.0.fetch_add(1, SeqCst);
    }
}
fn evolve_within() -> usize {
    let cfg = { let mut c = Cfg::new(false, 3, 0.4); c.cross = (0.5, 0.5); c.mutation = (0.5, 0.5); c };
    let (mut best, mut reports) = (0.0, 0);
    let small = Small::default();
    let p = GeneticAlgorithm::build_evolution(&small).evolve_population((0..3).map(|id| F { id, fit: 0.0 }).collect(), &cfg.ga(), |p| {
        if p.iter().any(|i| i.fit != (i.id * 7 % 64) as f64 + 1.0) || p.generation() != reports || p.fittest().fit < best || p.len() > 3 {
            violate(format!("an evolution within a callback of another one reports {:?} in generation {}", &p[..], p.generation()));
        }
        best = p.fittest().fit;
        reports += 1;
        reports < 3
    });
    let evaluated = small.0.load(SeqCst);
    if reports != 3 || p.generation() != 2 || evaluated != 3 + 2 * 2 {
        violate(format!("an evolution within a callback of another one makes {reports} reports, evaluates {evaluated} individuals and ends in generation {}", p.generation()));
    }
    reports
}
struct Inside<'a>(&'a World);
impl Drop for Inside<'_> {
    fn drop(&mut self) {
        self.0.running.fetch_sub(1, SeqCst);
    }
}
impl World {
    /// Every callback comes here; `id` is the generator it has got.
    fn enter(&self, nested: Nested, rng: Option<u32>) {
        self.running.fetch_add(1, SeqCst);
        let _inside = Inside(self);
        if let Some(id) = rng {
            if !self.in_use.lock().unwrap().insert(id) {
                violate(format!("generator {id} is used by two individuals at the same time"));
            }
        }
        struct Release<'a>(&'a World, Option<u32>);
        impl Drop for Release<'_> {
            fn drop(&mut self) {
                if let Some(id) = self.1 {
                    self.0.in_use.lock().unwrap().remove(&id);
                }
            }
        }
        let _release = Release(self, rng);
        let n = self.callbacks.fetch_add(1, SeqCst) + 1;
        if n == self.fail.load(SeqCst) {
            std::panic::panic_any(Injected)
        }
        match nested {
            Nested::No => {}
            Nested::Evolution => {
                self.nested.fetch_add(evolve_within(), SeqCst);
            }
            Nested::Points => yield_point(),
            Nested::Join => {
                let (a, b) = rayon::join(
                    || {
                        yield_point();
                        1
                    },
                    || 2,
                );
                self.nested.fetch_add(a + b, SeqCst);
            }
            Nested::Iter => {
                use rayon::prelude::*;
                let s: usize = (0..3usize).into_par_iter().map(|x| x + 1).sum();
                self.nested.fetch_add(s / 2, SeqCst);
            }
        }
    }
}

/// A model whose results do not depend on the generator, with breeding of its own.
struct Busy<'a> {
    w: &'a World,
    nested: Nested,
    own: bool,
}
impl EvolutionModel for Busy<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, b: &F, rng: &mut McRng) -> F {
        self.w.crossed.fetch_add(1, SeqCst);
        self.w.enter(self.nested, Some(rng.id));
        F { id: (a.id * 3 + b.id + 1000) % 4096, fit: f64::NAN }
    }
    fn mutate(&self, i: &mut F, rng: &mut McRng) {
        let k = self.w.mutated.fetch_add(1, SeqCst);
        self.w.enter(self.nested, Some(rng.id));
        if self.own {
            i.id = 2000 + k;
        } else {
            i.id = (i.id * 5 + 1) % 4096;
        }
    }
    fn evaluate(&self, i: &mut F) {
        self.w.enter(self.nested, None);
        i.fit = (i.id * 7 % 4096) as f64 / 8.0 + 1.0;
        self.w.evaluated.lock().unwrap().push(*i);
    }
    fn breed(&self, p: &Population<F>, _: &ReproductionParameters<Self>, rng: &mut McRng) -> F {
        let k = self.w.bred.fetch_add(1, SeqCst);
        self.w.enter(self.nested, Some(rng.id));
        F { id: 5000 + k, fit: (p.generation() + 1) as f64 * 4096.0 + k as f64 }
    }
}
/// The same with the default way of breeding.
struct Standard<'a>(Busy<'a>);
impl EvolutionModel for Standard<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, b: &F, rng: &mut McRng) -> F {
        self.0.crossover(a, b, rng)
    }
    fn mutate(&self, i: &mut F, rng: &mut McRng) {
        self.0.mutate(i, rng)
    }
    fn evaluate(&self, i: &mut F) {
        self.0.evaluate(i)
    }
}
/// The same with few different fitness scores.
struct Ties<'a>(Busy<'a>, u32);
impl EvolutionModel for Ties<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, b: &F, rng: &mut McRng) -> F {
        self.0.crossover(a, b, rng)
    }
    fn mutate(&self, i: &mut F, rng: &mut McRng) {
        self.0.mutate(i, rng)
    }
    fn evaluate(&self, i: &mut F) {
        self.0.evaluate(i);
        i.fit = (i.id % self.1) as f64 + 1.0;
    }
}
/// The scores are given by a function of the number of the individual.
struct Scores(fn(usize) -> f64);
impl EvolutionModel for Scores {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, _: &F, _: &mut McRng) -> F {
        *a
    }
    fn mutate(&self, _: &mut F, _: &mut McRng) {}
    fn evaluate(&self, i: &mut F) {
        i.fit = self.0(i.id as usize);
    }
}
struct Make<'a>(&'a World, Nested);
impl RandomIndividual<Make<'_>> for F {
    fn new_random<R: Rng>(a: &Make<'_>, _: &mut R) -> F {
        let k = a.0.created.fetch_add(1, SeqCst);
        a.0.enter(a.1, None);
        F { id: k, fit: f64::NAN }
    }
}

#[derive(Clone, Debug)]
struct Scenario {
    cfg: Cfg,
    how: usize,
    generations: usize,
    nested: Nested,
    own: bool,
    /// a run on the same object before, with this many workers (0: none)
    earlier: usize,
}
type Outcome = (Result<String, bool>, Vec<String>, [u32; 5]);

fn perform(sc: &Scenario, w: &World, fail: usize) -> Outcome {
    w.fail.store(fail, SeqCst);
    let args = Make(w, sc.nested);
    let mut reports = Vec::new();
    let mut count = 0;
    let progress = |p: &Population<F>| {
        let mut v: Vec<String> = p.iter().map(|i| format!("{}:{}", i.id, i.fit)).collect();
        v.sort(); // members of equal fitness may come in any order
        let fits: Vec<f64> = p.iter().map(|i| i.fit).collect();
        reports.push(format!("{} {} {v:?} {fits:?}", p.generation(), p.stagnation()));
        count += 1;
        count <= sc.generations
    };
    let busy = Busy { w, nested: sc.nested, own: sc.own };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let list = || (0..sc.cfg.n as u32 + 1).map(|id| F { id, fit: 0.0 }).collect::<Vec<_>>();
        macro_rules! start {
            ($e:expr, $p:expr) => {{
                let e = $e;
                if sc.earlier > 0 {
                    let now = with(|c| std::mem::replace(&mut c.workers, sc.earlier));
                    let mut k = 0;
                    e.run(&args, $p, |_| {
                        k += 1;
                        k < 3
                    });
                    with(|c| c.workers = now);
                    [&w.created, &w.mutated, &w.bred, &w.crossed].iter().for_each(|a| a.store(0, SeqCst));
                    w.evaluated.lock().unwrap().clear();
                }
                match sc.how {
                    0 => End::Best(e.run(&args, $p, progress)),
                    1 => End::Best(e.evolve_individual(F { id: 9, fit: 0.0 }, $p, progress)),
                    _ => {
                        let p = e.evolve_population(list(), $p, progress);
                        End::All(p.to_vec(), p.generation(), p.stagnation())
                    }
                }
            }};
        }
        match (sc.cfg.adaptive, sc.own) {
            (true, true) => start!(AdaptiveGeneticAlgorithm::build_evolution(busy), &sc.cfg.aga()),
            (false, true) => start!(GeneticAlgorithm::build_evolution(busy), &sc.cfg.ga()),
            (true, false) => start!(AdaptiveGeneticAlgorithm::build_evolution(Standard(busy)), &sc.cfg.aga()),
            (false, false) => start!(GeneticAlgorithm::build_evolution(Standard(busy)), &sc.cfg.ga()),
        }
    }));
    let r = match r {
        Ok(End::All(mut v, g, s)) => {
            v.sort_by_key(|i| i.id);
            Ok(format!("{v:?} {g} {s}"))
        }
        Ok(x) => Ok(format!("{x:?}")),
        Err(p) if p.is::<Abandon>() => std::panic::resume_unwind(p),
        Err(p) => Err(p.is::<Injected>()),
    };
    let l = |a: &AtomicU32| a.load(SeqCst);
    let n = [l(&w.created), w.evaluated.lock().unwrap().len() as u32, l(&w.mutated), l(&w.bred), l(&w.crossed)];
    (r, reports, n)
}

/// The scenario without parallelism (one worker, everything inline).
fn reference(sc: &Scenario) -> (Outcome, usize) {
    let saved = with(|c| (std::mem::take(&mut c.reentries), c.sched.take(), std::mem::replace(&mut c.workers, 1), std::mem::replace(&mut c.join_order, 0), std::mem::replace(&mut c.migrated, false)));
    let w = World::default();
    let o = perform(sc, &w, 0);
    with(|c| (c.reentries, c.sched, c.workers, c.join_order, c.migrated) = saved);
    (o, w.callbacks.load(SeqCst))
}
/// Default breeding: draws differ between schedules, the numbers of operations do not.
fn count(sc: &Scenario) -> Result<(), String> {
    set_pattern(Some(Pattern::Weyl(5)));
    let w = World::default();
    let (r, reports, n) = perform(sc, &w, 0);
    state(&(format!("{sc:?}"), &reports, with(|c| c.workers)));
    sample(|| format!("{sc:?}: {r:?} {reports:?} {n:?}"));
    ensure!(r.is_ok(), "{sc:?}: panicked");
    ensure!(w.running.load(SeqCst) == 0, "{sc:?}: callbacks are still running after the end");
    ensure!(reports.len() == sc.generations + 1, "{sc:?}: {} reports", reports.len());
    let first = if sc.how == 2 { sc.cfg.n + 1 } else { sc.cfg.n };
    if sc.cfg.elitism == 0.0 {
        let wanted = first + sc.generations * sc.cfg.n;
        ensure!(n[1] as usize == wanted, "{sc:?} with {} workers: {} evaluations instead of {wanted}", with(|c| c.workers), n[1]);
    }
    Ok(())
}
fn compare(sc: &Scenario) -> Result<(), String> {
    if !sc.own {
        return count(sc);
    }
    set_pattern(Some(Pattern::Const(0.3)));
    let (expected, _) = reference(sc);
    ensure!(expected.0.is_ok(), "{sc:?} without parallelism: {:?}", expected.0);
    let w = World::default();
    let got = perform(sc, &w, 0);
    state(&(format!("{sc:?}"), &got.1, with(|c| c.workers)));
    sample(|| format!("{sc:?}: {got:?}"));
    ensure!(w.running.load(SeqCst) == 0, "{sc:?}: callbacks are still running after the end");
    ensure!(
        got == expected,
        "{sc:?} with {} workers: result, reported populations and numbers of created, evaluated, mutated, bred and crossed individuals are {got:?}, sequentially {expected:?}",
        with(|c| c.workers)
    );
    Ok(())
}
fn compare_panic(sc: &Scenario) -> Result<(), String> {
    set_pattern(Some(Pattern::Const(0.3)));
    let (_, total) = reference(sc);
    let w = World::default();
    let at = 1 + choose(total);
    let (r, ..) = perform(sc, &w, at);
    state(&(format!("{sc:?}"), at, w.callbacks.load(SeqCst)));
    ensure!(r == Err(true), "{sc:?}: the panic of callback {at} did not reach the caller: {r:?}");
    ensure!(w.running.load(SeqCst) == 0, "{sc:?}: callbacks are still running after the panic of callback {at}");
    Ok(())
}
fn scenario(n: usize, generations: usize, nested: Nested, own: bool) -> Scenario {
    let mut cfg = Cfg::new(false, n, 0.0);
    cfg.cross = (0.5, 0.5);
    cfg.mutation = (0.5, 0.5);
    Scenario { cfg, how: 2, generations, nested, own, earlier: 0 }
}

pub fn e08(r: &Runner) {
    r.explore("divisions of the work", Opts::default(), || {
        let n = if flag() { 1 + choose(40) } else { pick(&[64, 100, 127, 129, 500]) };
        let own = flag();
        let mut sc = scenario(n, 2, pick(&[Nested::No, Nested::Join, Nested::Iter, Nested::Evolution]), own);
        sc.cfg.adaptive = flag();
        sc.how = choose(3);
        sc.cfg.elitism = pick(&[0.0, 0.5]);
        set_workers(pick(&[1, 2, 3, 4, 5, 8, 16, 64]));
        let (o, m) = (choose(2) as u8, flag());
        with(|c| (c.join_order, c.migrated) = (o, m));
        compare(&sc)
    });
    r.explore("individuals of equal fitness", Opts::default(), || {
        // every individual that is bred from the same population is the same one, so nothing may depend on the schedule,
        // not even the order of individuals that are equally fit
        let n = if flag() { 1 + choose(24) } else { pick(&[33, 64, 100, 300]) };
        let cfg = { let mut c = scenario(n, 0, Nested::No, false).cfg; c.adaptive = flag(); c.elitism = pick(&[0.0, 0.5]); c };
        let (kinds, nested) = (pick(&[1, 2, 5]), pick(&[Nested::No, Nested::Join]));
        let (draws, generations) = (pick(&[0.3, 0.9]), choose(3));
        let course = || {
            let w = World::default();
            let model = Ties(Busy { w: &w, nested, own: false }, kinds);
            let mut reports = Vec::new();
            let mut left = generations;
            let progress = |p: &Population<F>| {
                reports.push(p.iter().map(|i| i.id).collect::<Vec<_>>());
                left = left.wrapping_sub(1);
                left != usize::MAX
            };
            let list = (0..n as u32).map(|id| F { id: id * 17 % 4096, fit: 0.0 }).collect();
            set_pattern(Some(Pattern::Const(draws)));
            let last = catch(|| if cfg.adaptive {
                AdaptiveGeneticAlgorithm::build_evolution(model).evolve_population(list, &cfg.aga(), progress).take_fittest()
            } else {
                GeneticAlgorithm::build_evolution(model).evolve_population(list, &cfg.ga(), progress).take_fittest()
            });
            set_pattern(None);
            (last, reports)
        };
        let saved = with(|c| (std::mem::replace(&mut c.workers, 1), std::mem::replace(&mut c.join_order, 0), std::mem::replace(&mut c.migrated, false)));
        let expected = course();
        with(|c| (c.workers, c.join_order, c.migrated) = saved);
        set_workers(pick(&[1, 2, 3, 8, 64]));
        let (o, m) = (choose(2) as u8, flag());
        with(|c| (c.join_order, c.migrated) = (o, m));
        let got = course();
        state(&(n, kinds, &got.1, o, m));
        sample(|| format!("{n} individuals of {kinds} fitness scores: {got:?}"));
        ensure!(
            got == expected,
            "{cfg:?}, {n} individuals of {kinds} different fitness scores, {} workers: result and the order in the reported populations are {got:?}, sequentially {expected:?}",
            with(|c| c.workers)
        );
        Ok(())
    });
    r.explore("selections among fractional scores", Opts::default(), || {
        // sums of such scores depend on the order of the additions, what is selected must not
        let n = if flag() { 2 + choose(23) } else { pick(&[33, 64, 100, 257]) };
        let score = pick::<fn(usize) -> f64>(&[|_| 0.1, |k| 0.1 * (k + 1) as f64, |k| 1.0 / (k + 1) as f64, |k| 1e-9 + 0.7 * (k % 3) as f64, |k| if k % 2 == 0 { 1e17 } else { 3.3 }]);
        let cfg = {
            let mut c = Cfg::new(flag(), n, 0.0);
            (c.cross, c.mutation) = ((0.0, 0.0), (0.0, 0.0));
            c.strategy = pick(&[SelectionStrategy::RouletteWheel, SelectionStrategy::Boltzmann(0.7, 1.0)]);
            c
        };
        let draw = if n < 25 { (1 + choose(n)) as f64 / (n + 1 - choose(2)) as f64 } else { pick(&[0.1, 0.3, 0.5, 0.7, 0.9, 0.99]) }.min(1.0 - f64::EPSILON / 2.0);
        let course = || {
            let model = Scores(score);
            let mut reports = Vec::new();
            let progress = |p: &Population<F>| {
                reports.push(p.iter().map(|i| i.id).collect::<Vec<_>>());
                reports.len() < 3
            };
            let list = (0..n as u32).map(|id| F { id, fit: 0.0 }).collect();
            set_pattern(Some(Pattern::Const(draw)));
            let last = catch(|| if cfg.adaptive {
                AdaptiveGeneticAlgorithm::build_evolution(model).evolve_population(list, &cfg.aga(), progress).take_fittest()
            } else {
                GeneticAlgorithm::build_evolution(model).evolve_population(list, &cfg.ga(), progress).take_fittest()
            });
            set_pattern(None);
            (last, reports)
        };
        let saved = with(|c| (std::mem::replace(&mut c.workers, 1), std::mem::replace(&mut c.join_order, 0), std::mem::replace(&mut c.migrated, false)));
        let expected = course();
        with(|c| (c.workers, c.join_order, c.migrated) = saved);
        set_workers(pick(&[2, 3, 5, 8, 64]));
        let m = flag();
        with(|c| c.migrated = m);
        let got = course();
        state(&(n, &got.1, draw.to_bits()));
        sample(|| format!("{n} individuals, draws of {draw}: {got:?}"));
        ensure!(
            got == expected,
            "{cfg:?}, {n} individuals from {:?}, every random draw {draw:?}: with {} workers the result and the reported populations are {got:?}, with one worker {expected:?}",
            (0..n.min(4)).map(score).collect::<Vec<_>>(),
            with(|c| c.workers)
        );
        Ok(())
    });
    r.explore("a waiting worker takes other jobs", Opts::default(), || {
        let n = 1 + choose(if r.thorough { 6 } else { 5 });
        let own = flag();
        let mut sc = scenario(n, 1 + choose(2), pick(&[Nested::Join, Nested::Iter]), own);
        if n > 4 || sc.nested == Nested::Iter {
            sc.generations = 1;
        }
        sc.how = choose(3);
        sc.cfg.adaptive = n < 4 && flag();
        sc.cfg.elitism = if own { pick(&[0.0, 0.34]) } else { 0.0 };
        set_workers(pick(&[2, 3, 8]));
        with(|c| c.reentries = if r.thorough { 4 } else { 3 });
        compare(&sc)
    });
    r.explore("all jobs taken while waiting", Opts::default(), || {
        // the same with long populations and only the first and last pending job, many deep
        let n = pick(&[6, 9, 17, 40]);
        let own = flag();
        let mut sc = scenario(n, 2, pick(&[Nested::Join, Nested::Iter, Nested::Evolution]), own);
        sc.how = choose(3);
        set_workers(pick(&[2, 3, 4, 8, 64]));
        let kind = choose(3);
        with(|c| (c.reentries, c.reentry_rule) = (u32::MAX, kind as u8 + 1));
        compare(&sc)
    });
    r.explore("earlier runs with another number of workers", Opts::default(), || {
        let n = pick(&[1, 2, 3, 5, 9, 17]);
        let own = flag();
        let mut sc = scenario(n, 2, pick(&[Nested::No, Nested::Join]), own);
        sc.cfg.adaptive = flag();
        sc.how = choose(3);
        sc.earlier = pick(&[1, 2, 4, 16]);
        set_workers(pick(&[1, 2, 4, 16]));
        if flag() {
            with(|c| (c.reentries, c.reentry_rule) = (u32::MAX, 1));
        }
        compare(&sc)
    });
    let cases = |p: u32| {
        // population sizes by preemptions and kind
        let sizes: [[usize; 4]; 4] = if r.thorough {
            [[16, 12, 12, 7], [9, 6, 6, 4], [6, 4, 4, 3], [4, 3, 3, 2]]
        } else {
            [[10, 7, 7, 4], [6, 4, 4, 3], [4, 3, 3, 2], [2, 2, 2, 2]]
        };
        let kind = choose(4);
        let n = sizes[p as usize - 1][kind];
        let n = if n > 3 { n - choose(2) } else { n };
        let (g, nested, own) = match kind {
            0 => (1, Nested::Points, true),
            1 => (1, pick(&[Nested::Join, Nested::Iter]), true),
            2 => (1, Nested::Points, false),
            _ => (2, Nested::Points, true),
        };
        let mut sc = scenario(n, g, nested, own);
        sc.how = choose(3);
        sc.cfg.adaptive = p == 1 && flag();
        sc.cfg.elitism = if kind > 1 { 0.0 } else { pick(&[0.0, 0.34]) };
        sc
    };
    r.explore("schedules with one preemption", Opts { preemptions: Some(1), ..Default::default() }, || {
        let sc = cases(1);
        set_workers(pick(&[2, 3, 4]));
        compare(&sc)
    });
    r.explore("schedules with two preemptions", Opts { preemptions: Some(2), ..Default::default() }, || {
        let sc = cases(2);
        set_workers(pick(&[2, 3]));
        compare(&sc)
    });
    r.explore("schedules with three preemptions", Opts { preemptions: Some(3), ..Default::default() }, || {
        let sc = cases(3);
        set_workers(2);
        compare(&sc)
    });
    if r.thorough {
        r.explore("schedules with four preemptions", Opts { preemptions: Some(4), ..Default::default() }, || {
            let sc = cases(4);
            set_workers(2);
            compare(&sc)
        });
        r.explore("panics with two preemptions", Opts { preemptions: Some(2), ..Default::default() }, || {
            let mut sc = scenario(4, 1, Nested::Points, flag());
            sc.how = choose(3);
            set_workers(2);
            compare_panic(&sc)
        });
    }
    r.explore("panics under all schedules", Opts { preemptions: Some(1), ..Default::default() }, || {
        let mut sc = scenario(if r.thorough { 7 } else { 4 }, 1, Nested::Points, flag());
        sc.how = choose(3);
        set_workers(2);
        compare_panic(&sc)
    });
    r.explore("panics in divided work", Opts::default(), || {
        let mut sc = scenario(pick(&[1, 2, 5, 9]), 1, pick(&[Nested::No, Nested::Join]), flag());
        sc.how = choose(3);
        sc.cfg.adaptive = flag();
        set_workers(pick(&[1, 4]));
        let o = choose(2) as u8;
        with(|c| c.join_order = o);
        compare_panic(&sc)
    });
}
