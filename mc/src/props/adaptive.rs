//! The rates of the adaptive algorithm, parameter validation, and selection within whole runs.
use super::evolution::*;
use super::selection;
use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::models::*;
use crate::util::*;
use rusty_genes::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Mutex;

// -------------------------------------------------------------------------------------------- E06

/// The scores of one generation.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Level {
    /// all individuals are equal
    One,
    /// different individuals of the same fitness
    Flat,
    /// deviation in units of the reference
    Dev(f64),
}
fn deviation(fits: &[f64]) -> f64 {
    let n = fits.len() as f64;
    if fits.len() < 2 {
        return 0.0;
    }
    let m = fits.iter().sum::<f64>() / n;
    (fits.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (n - 1.0)).sqrt()
}
struct Story<'a> {
    cfg: Cfg,
    how: usize,
    base: f64,
    unit: f64,
    generations: usize,
    level: &'a (dyn Fn(usize) -> Level + Sync),
    /// rates set by the hook
    hook: &'a (dyn Fn(usize) -> Option<(f64, f64)> + Sync),
}
fn tell<'t>(e: &Evolution<AdaptiveGeneticAlgorithm<Tale<'t>>, Tale<'t>>, tale: &Mutex<Scene>, story: &Story) -> Result<(), String> {
    let n = story.cfg.n;
    let fit = |l: Level, i: usize| match l {
        Level::One => F { id: 0, fit: story.base },
        Level::Flat => F { id: i as u32, fit: story.base },
        Level::Dev(d) => F { id: i as u32, fit: story.base + d * story.unit * (i as f64 - (n as f64 - 1.0) / 2.0) },
    };
    {
        let mut t = tale.lock().unwrap();
        t.observed.clear();
        t.next = (0..n).map(|i| fit((story.level)(0), i)).collect();
    }
    let make = |_| F { id: 0, fit: f64::NAN };
    let args = Args { token: 0, make: &make };
    let start = match story.how {
        0 => Start::Random(&args),
        1 => Start::From(F { id: 0, fit: 1.0 }),
        _ => Start::List(vec![F { id: 0, fit: 0.0 }; n]),
    };
    let mut count = 0;
    let res = catch(|| {
        go(e, &story.cfg.aga(), start, |p| {
            let g = p.generation();
            let mut t = tale.lock().unwrap();
            t.next = (0..n).map(|i| fit((story.level)(g + 1), i)).collect();
            t.set = (story.hook)(g);
            count += 1;
            count <= story.generations
        })
    });
    ensure!(res.is_ok(), "{:?}: panicked: {res:?}", story.cfg);
    let (cr, mr) = (story.cfg.cross, story.cfg.mutation);
    let t = tale.lock().unwrap();
    ensure!(t.observed.len() == story.generations, "the hook ran {} times in {} generations", t.observed.len(), story.generations);
    let mut rates = (0.0, 0.0);
    let mut reference = 0.0;
    for (g, (fits, before, after, bred)) in t.observed.iter().enumerate() {
        let dev = deviation(fits);
        let i = story.cfg.interval;
        let mut adjusted = false;
        if g == 0 {
            reference = dev;
            rates = (cr.1, mr.0);
            adjusted = true;
        } else if i != 0 && g % i == 0 {
            let d = if dev == 0.0 {
                0.0
            } else if reference == 0.0 {
                1.0
            } else {
                (dev / reference).min(1.0)
            };
            rates = (cr.0 + (cr.1 - cr.0) * d, mr.0 + (mr.1 - mr.0) * (1.0 - d));
            adjusted = true;
            state(&(i, (d * 1e6) as u64, (rates.0 * 1e6) as u64));
        }
        let what = || format!("{:?}, generation {g}, scores {fits:?}, deviation {dev:e}, that of generation 0 was {reference:e}", story.cfg);
        let close = |a: (f64, f64), b: (f64, f64), tol: f64| (a.0 - b.0).abs() <= tol && (a.1 - b.1).abs() <= tol;
        ensure!(close(*before, rates, if adjusted { 1e-9 } else { 0.0 }), "{}: the rates are {before:?}, expected {rates:?}", what());
        if adjusted {
            let inside = |x: f64, r: (f64, f64)| x >= r.0.min(r.1) - 1e-15 && x <= r.0.max(r.1) + 1e-15;
            ensure!(inside(before.0, cr) && inside(before.1, mr), "{}: the rates {before:?} are outside their ranges", what());
        }
        rates = *after;
        ensure!(bred.iter().all(|b| b == after), "{}: individuals are bred with rates {bred:?} instead of {after:?}", what());
        ensure!(bred.len() == n, "{}: {} breedings", what(), bred.len());
    }
    sample(|| format!("{:?} run kind {}: {:?}", story.cfg, story.how, t.observed.iter().map(|o| (&o.0, o.1)).take(6).collect::<Vec<_>>()));
    Ok(())
}
#[derive(Default)]
struct Scene {
    next: Vec<F>,
    at: usize,
    set: Option<(f64, f64)>,
    /// scores, rates before and after the hook, rates as bred with
    observed: Vec<(Vec<f64>, (f64, f64), (f64, f64), Vec<(f64, f64)>)>,
}
struct Tale<'a>(&'a Mutex<Scene>);
impl Tale<'_> {
    fn serve(&self) -> F {
        let mut s = self.0.lock().unwrap();
        let k = s.at;
        s.at += 1;
        let n = s.next.len();
        s.next[k % n]
    }
}
impl EvolutionModel for Tale<'_> {
    type Individual = F;
    type Rng = McRng;
    fn rng() -> McRng {
        McRng::new()
    }
    fn crossover(&self, a: &F, _: &F, _: &mut McRng) -> F {
        *a
    }
    fn mutate(&self, _: &mut F, _: &mut McRng) {}
    fn evaluate(&self, i: &mut F) {
        *i = self.serve()
    }
    fn pre_generation(&mut self, p: &Population<F>, b: &mut ReproductionParameters<Self>) {
        let mut s = self.0.lock().unwrap();
        s.at = 0;
        let before = (b.crossover_rate, b.mutation_rate);
        if let Some((c, m)) = s.set {
            b.crossover_rate = c;
            b.mutation_rate = m;
        }
        s.observed.push((p.iter().map(|i| i.fit).collect(), before, (b.crossover_rate, b.mutation_rate), vec![]));
    }
    fn breed(&self, _: &Population<F>, b: &ReproductionParameters<Self>, _: &mut McRng) -> F {
        let x = self.serve();
        let mut s = self.0.lock().unwrap();
        s.observed.last_mut().unwrap().3.push((b.crossover_rate, b.mutation_rate));
        x
    }
}
fn tale_run(before: bool, story: &Story) -> Result<(), String> {
    let scene = Mutex::new(Scene::default());
    let e = AdaptiveGeneticAlgorithm::build_evolution(Tale(&scene));
    if before {
        // an earlier run with another reference and other ranges on the same object
        let mut cfg = Cfg::new(true, 3, 0.0);
        cfg.cross = (0.0, 0.0625);
        cfg.mutation = (0.9375, 1.0);
        tell(&e, &scene, &Story { cfg, how: 2, base: 0.0, unit: 1e5, generations: 2, level: &|_| Level::Dev(1.0), hook: &|_| None })?;
    }
    scene.lock().unwrap().at = 0;
    tell(&e, &scene, story)
}

pub fn e06(r: &Runner) {
    const LEVELS: [Level; 7] = [Level::Dev(1.0), Level::One, Level::Flat, Level::Dev(0.5), Level::Dev(3.0), Level::Dev(1e-9), Level::Dev(0.9)];
    // some given in descending order
    const RANGES: [((f64, f64), (f64, f64)); 6] = [
        ((0.25, 0.75), (0.125, 0.5)),
        ((0.75, 0.25), (0.5, 0.125)),
        ((0.3, 1.0), (0.1, 1.0)),
        ((0.0, 1.0), (0.0, 1.0)),
        ((0.5, 0.5), (1.0, 1.0)),
        ((0.9, 0.2), (0.3, 0.4)),
    ];
    let depth = if r.thorough { 6 } else { 5 };
    r.explore("diversity histories", Opts::default(), || {
        let mut cfg = Cfg::new(true, 2, 0.0);
        let interval = choose(5);
        cfg.interval = if interval == 4 { 7 } else { interval };
        let ranges = pick(&RANGES[..if r.thorough { 6 } else { 3 }]);
        (cfg.cross, cfg.mutation) = ranges;
        let mask = choose(4);
        let generations = if cfg.interval == 7 { 3 } else { depth };
        let levels: Vec<Level> = (0..generations).map(|g| LEVELS[choose(if g == 0 { 3 } else { 7 })]).collect();
        let story = Story {
            cfg,
            how: 2,
            base: 0.0,
            unit: 1.0,
            generations,
            level: &|g| *levels.get(g).unwrap_or(&Level::One),
            hook: &|g| if mask >> (g % 2) & 1 == 1 { Some((0.0625 + g as f64 / 128.0, 0.9375)) } else { None },
        };
        tale_run(false, &story)
    });
    r.explore("sizes, offsets and earlier runs", Opts::default(), || {
        let mut cfg = Cfg::new(true, upto(1, if r.thorough { 70 } else { 36 }, &[64, 65, 100, 257]), 0.0);
        cfg.interval = pick(&[1, 2]);
        (cfg.cross, cfg.mutation) = pick(&RANGES);
        let (base, unit) = pick(&[(0.0, 1.0), (-100.0, 1.0), (1000.0, 16.0), (0.0, 1e-100), (0.0, 1e100)]);
        let a = pick(&LEVELS[..3]);
        let b = LEVELS[choose(7)];
        if b == Level::Dev(1e-9) && base != 0.0 {
            skip() // lost by rounding
        }
        let story = Story {
            cfg,
            how: choose(3),
            base,
            unit,
            generations: 4,
            level: &|g| match g {
                0 => a,
                1 | 2 => b,
                _ => Level::Dev(0.25),
            },
            hook: &|_| None,
        };
        tale_run(flag(), &story)
    });
    r.explore("extreme scores", Opts::default(), || {
        // finite scores whose deviation overflows or underflows: the rates still stay in their ranges
        const SCORES: [f64; 9] = [f64::MIN, f64::MAX, -1e200, 1e200, 0.0, 1.0, 5e-324, -1e-170, 1.5e154];
        let n = 1 + choose(if r.thorough { 3 } else { 2 });
        let mut cfg = Cfg::new(true, n, 0.0);
        cfg.interval = 1;
        (cfg.cross, cfg.mutation) = pick(&RANGES);
        let generations = 2 + choose(2);
        let scores: Vec<Vec<f64>> = (0..=generations).map(|g| (0..n).map(|_| if g < 2 { pick(&SCORES) } else { 1.0 }).collect()).collect();
        let generation = AtomicU32::new(0);
        let served = AtomicU32::new(0);
        let rates = Mutex::new(Vec::new());
        let calls = Calls {
            breed: &|p, g, _| {
                rates.lock().unwrap().push((p.generation(), g.cross, g.mutation));
                let k = served.fetch_add(1, SeqCst);
                F { id: 1000 + k, fit: scores[p.generation() + 1][k as usize % n] }
            },
            evaluate: &|i| i.fit = scores[0][i.id as usize],
            mutate: &|_, _| {},
            hook: &|_, _, _, _| {},
        };
        let list = (0..n as u32).map(|id| F { id, fit: 0.0 }).collect();
        set_pattern(Some(Pattern::Weyl(1)));
        let res = run(&cfg, &calls, Start::List(list), |p| {
            generation.store(p.generation() as u32, SeqCst);
            p.generation() < generations
        });
        let rates = rates.into_inner().unwrap();
        state(&(format!("{:?}", scores), cfg.cross.0.to_bits()));
        sample(|| format!("{scores:?}: rates {rates:?}"));
        ensure!(res.is_ok() && rates.len() == generations * n, "{cfg:?} with the scores {scores:?}: {res:?} after {} breedings", rates.len());
        let within = |x: f64, (a, b): (f64, f64)| x >= a.min(b) - 1e-12 && x <= a.max(b) + 1e-12;
        for &(g, c, m) in &rates {
            ensure!(within(c, cfg.cross) && within(m, cfg.mutation), "{cfg:?} with the scores {scores:?}: the rates in generation {g} are {c} and {m}");
        }
        Ok(())
    });
    r.explore("long runs", Opts::default(), || {
        let mut cfg = Cfg::new(true, pick(&[2, 3]), 0.0);
        cfg.interval = pick(&[0, 1, 2, 3, 7, 10, 64, 100, 127, 128, 255, 256, 257, 300]);
        (cfg.cross, cfg.mutation) = pick(&RANGES);
        let shape = choose(3);
        let hooked = flag();
        let story = Story {
            cfg,
            how: 2,
            base: 0.0,
            unit: 1.0,
            generations: pick(&[30, 320, 700]),
            level: &|g| match shape {
                0 => Level::Dev(1.0 / (1 + g) as f64),
                1 => Level::Dev(1.0 + (g * 7 % 11) as f64 / 8.0 - if g > 0 { 1.0 } else { 0.0 }),
                _ => LEVELS[g % 7],
            },
            hook: &|g| if hooked && g % 13 == 5 { Some((0.03125, 0.71875)) } else { None },
        };
        tale_run(false, &story)
    });
    r.explore("huge intervals and very long runs", Opts::default(), || {
        let mut cfg = Cfg::new(true, 2, 0.0);
        let (interval, generations) = pick(&[
            (65_535, 300), (65_536, 300), (65_538, 300), (1 << 31, 300), (1 << 32, 300), ((1 << 32) + 2, 300), (1 << 63, 300), (usize::MAX, 300), (usize::MAX - 1, 300),
            (65_536, 66_000), (65_535, 66_000), (1000, 66_000), (1, 66_000),
        ]);
        cfg.interval = interval;
        (cfg.cross, cfg.mutation) = RANGES[0];
        let story = Story { cfg, how: 2, base: 0.0, unit: 1.0, generations, level: &|g| LEVELS[g % 7], hook: &|_| None };
        tale_run(false, &story)
    });
}

// -------------------------------------------------------------------------------------------- E07

fn attempt(cfg: &Cfg, how: usize, valid: bool) -> Result<(), String> {
    let bred = AtomicU32::new(0);
    let rates = Mutex::new(Vec::new());
    let serial = AtomicU32::new(0);
    let make = |_| F { id: serial.fetch_add(1, SeqCst), fit: 1.0 };
    let args = Args { token: 0, make: &make };
    let calls = Calls {
        breed: &|p, g, rng| {
            bred.fetch_add(1, SeqCst);
            rates.lock().unwrap().push((g.cross, g.mutation));
            *g.selector.select(p, rng).1
        },
        evaluate: &|i| i.fit = 1.0 + i.id as f64,
        mutate: &|i, _| i.id = serial.fetch_add(1, SeqCst) + 100,
        hook: &|_, _, _, _| {
            bred.fetch_add(1 << 16, SeqCst);
        },
    };
    let start = match how {
        0 => Start::Random(&args),
        1 => Start::From(F { id: 50, fit: 1.0 }),
        _ => Start::List(scored(&[1.0, 2.0])),
    };
    set_pattern(Some(Pattern::Weyl(1)));
    let mut reports = 0;
    let res = run(cfg, &calls, start, |_| {
        reports += 1;
        reports < 3
    });
    let bred = bred.into_inner();
    state(&(format!("{cfg:?}"), how, res.is_ok()));
    sample(|| format!("{cfg:?}: {}", if res.is_ok() { "accepted" } else { "refused" }));
    if valid {
        ensure!(res.is_ok(), "{cfg:?} is valid, but the run panicked: {res:?}");
        ensure!(reports == 3, "{cfg:?}: {reports} reports");
        let (c, m) = if cfg.adaptive { (cfg.cross.1, cfg.mutation.0) } else { (cfg.cross.0, cfg.mutation.0) };
        let n = rates.lock().unwrap().len();
        ensure!(
            rates.lock().unwrap()[..n / 2].iter().all(|r| r.0 == c && r.1 == m),
            "{cfg:?}: breeding with the rates {:?}",
            rates.lock().unwrap()
        );
    } else {
        ensure!(res.is_err(), "{cfg:?} is not valid, but the run returned {res:?}");
        ensure!(reports == 0 && bred == 0, "{cfg:?} was refused after {reports} reports and {} breedings", bred & 0xFFFF);
    }
    Ok(())
}

pub fn e07(r: &Runner) {
    let tiny = 5e-324;
    let up = 1.0 + f64::EPSILON;
    let rates = [0.5, 0.0, 1.0, -0.0, -tiny, up, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 2.0, -1.0, tiny, BELOW_ONE, -f64::NAN, 1e-17, f64::MAX];
    let elitism = [0.5, 0.0, BELOW_ONE, 1.0, -0.0, -tiny, f64::NAN, up, f64::INFINITY, -1.0, tiny, f64::NEG_INFINITY, 50.0];
    let ok = |x: f64| x >= 0.0 && x <= 1.0;
    r.explore("one value", Opts::default(), || {
        let mut cfg = Cfg::new(flag(), 3, 0.0);
        let how = choose(3);
        let valid = match choose(6) {
            0 => {
                cfg.n = pick(&[0, 1, 2, 5, 100]);
                cfg.n != 0
            }
            1 => {
                cfg.n = pick(&[1, 2, 7, 100]);
                cfg.elitism = pick(&elitism);
                cfg.elitism >= 0.0 && cfg.elitism < 1.0
            }
            k => {
                let x = pick(&rates);
                if !cfg.adaptive && k % 2 == 1 {
                    skip() // the same case again
                }
                *match k {
                    2 => &mut cfg.cross.0,
                    3 => &mut cfg.cross.1,
                    4 => &mut cfg.mutation.0,
                    _ => &mut cfg.mutation.1,
                } = x;
                // reversed ranges are not judged
                if cfg.adaptive && ok(x) && (cfg.cross.0 > cfg.cross.1 || cfg.mutation.0 > cfg.mutation.1) {
                    skip()
                }
                ok(x)
            }
        };
        attempt(&cfg, how, valid)
    });
    r.explore("two values", Opts::default(), || {
        let mut cfg = Cfg::new(flag(), 3, 0.0);
        let how = choose(3);
        let few = [0.5, 0.0, 1.0, -tiny, up, f64::NAN];
        let (i, j) = (choose(5), choose(5));
        if i >= j || !cfg.adaptive && (i == 2 || j == 2 || i == 4 || j == 4) {
            skip()
        }
        let mut valid = true;
        for k in [i, j] {
            if k == 0 {
                cfg.elitism = pick(&[0.0, 0.5, 1.0, f64::NAN, -0.5]);
                valid &= cfg.elitism >= 0.0 && cfg.elitism < 1.0;
            } else {
                let x = pick(&few);
                *match k {
                    1 => &mut cfg.cross.0,
                    2 => &mut cfg.cross.1,
                    3 => &mut cfg.mutation.0,
                    _ => &mut cfg.mutation.1,
                } = x;
                valid &= ok(x);
            }
        }
        if valid && cfg.adaptive && (cfg.cross.0 > cfg.cross.1 || cfg.mutation.0 > cfg.mutation.1) {
            skip()
        }
        attempt(&cfg, how, valid)
    });
    r.explore("population sizes", Opts::default(), || {
        let sizes = [200, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 10_001, 32_768, 65_535, 65_536, 65_537, 100_000, 1_000_001];
        let n = upto(1, 140, if r.thorough { &sizes } else { &sizes[..16] });
        let mut cfg = Cfg::new(flag(), n, pick(&[0.0, 0.5, BELOW_ONE]));
        cfg.interval = if cfg.adaptive { pick(&[0, 1, usize::MAX]) } else { 0 };
        if flag() {
            let large = pick(&[n, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 48]);
            cfg.n = large;
            let res = catch(|| if cfg.adaptive { cfg.aga().validate() } else { cfg.ga().validate() });
            state(&(large, cfg.adaptive, res.is_ok()));
            ensure!(res.is_ok(), "validation of {cfg:?}: {res:?}");
            return Ok(());
        }
        attempt(&cfg, choose(3), true)
    });
    r.explore("validation alone, default parameters", Opts::default(), || {
        let valid = |n: usize, e: f64, rates: &[f64]| n != 0 && e >= 0.0 && e < 1.0 && rates.iter().all(|&x| ok(x));
        let (n, e) = (pick(&[1, 0, 7]), pick(&elitism));
        let (c, m) = (pick(&rates), pick(&rates));
        let adaptive = flag();
        let mut cfg = Cfg::new(adaptive, n, e);
        (cfg.cross, cfg.mutation) = match choose(2) {
            0 => ((c, c), (m, m)),
            // reversed ranges are not judged
            _ if !adaptive || c > 1.0 || m > 1.0 => skip(),
            _ => ((c, 1.0), (m, 1.0)),
        };
        let good = valid(n, e, &[c, m]);
        let res = catch(|| if adaptive { cfg.aga().validate() } else { cfg.ga().validate() });
        state(&(n, e.to_bits(), c.to_bits(), m.to_bits(), adaptive));
        ensure!(res.is_ok() == good, "validation of {cfg:?}: {res:?}");
        let sizes = if adaptive { (cfg.aga().initial_population_size(), cfg.aga().max_population_size()) } else { (cfg.ga().initial_population_size(), cfg.ga().max_population_size()) };
        ensure!(sizes == (n, n), "{cfg:?}: the parameters state the population sizes {sizes:?}");
        // the documented defaults are valid
        let (g, a) = (GeneticAlgorithmParameters::default(), AdaptiveGeneticAlgorithmParameters::default());
        let res = catch(|| {
            g.validate();
            a.validate();
        });
        ensure!(res.is_ok(), "the default parameters are refused: {res:?}");
        Ok(())
    });
    r.explore("selection parameters in runs", Opts::default(), || {
        let (s, valid) = pick(&[
            (SelectionStrategy::Tournament(0), false),
            (SelectionStrategy::Tournament(1), true),
            (SelectionStrategy::Boltzmann(1.0, 0.0), false),
            (SelectionStrategy::Boltzmann(1.0, -0.0), false),
            (SelectionStrategy::Boltzmann(1.0, 1e-300), true),
            (SelectionStrategy::Boltzmann(3.0, 1.0), true),
            (SelectionStrategy::Elitist(1.0), false),
            (SelectionStrategy::Elitist(-tiny), false),
            (SelectionStrategy::Elitist(f64::NAN), false),
            (SelectionStrategy::Elitist(up), false),
            (SelectionStrategy::Elitist(0.0), true),
            (SelectionStrategy::Elitist(BELOW_ONE), true),
            (SelectionStrategy::Linear(1.0), true),
            (SelectionStrategy::Linear(2.0), true),
            (SelectionStrategy::Rank, true),
            (SelectionStrategy::RouletteWheel, true),
        ]);
        let mut cfg = Cfg::new(flag(), 3, 0.0);
        cfg.strategy = s;
        attempt(&cfg, choose(3), valid)
    });
    let made = |what: &str, valid: bool, f: &dyn Fn() -> bool| -> Result<(), String> {
        let res = catch(f);
        state(&(what, res.is_ok()));
        sample(|| format!("{what}: {}", if res.is_ok() { "accepted" } else { "refused" }));
        match res {
            Err(m) => ensure!(!valid, "{what} is valid, but refused: {m}"),
            Ok(kept) => {
                ensure!(valid, "{what} is not valid, but accepted");
                ensure!(kept, "{what}: the value is not kept");
            }
        }
        Ok(())
    };
    r.explore("selection parameters", Opts::default(), || match choose(4) {
        0 => {
            let k = pick(&[0usize, 1, 2, 3, 100, usize::MAX]);
            match choose(3) {
                0 => made(&format!("TournamentSelection::new({k})"), k != 0, &|| TournamentSelection::new(k).size() == k),
                1 => made(&format!("set_size({k})"), k != 0, &|| {
                    let mut s = TournamentSelection::new(5);
                    s.set_size(k);
                    s.size() == k
                }),
                _ => made(&format!("create_selector for tournament {k}"), k != 0, &|| {
                    let _: Selector = SelectionStrategy::Tournament(k).create_selector();
                    true
                }),
            }
        }
        1 => {
            let x = pick(&rates);
            let valid = x >= 0.0 && x < 1.0;
            match choose(3) {
                0 => made(&format!("ElitistSelection::new({x})"), valid, &|| ElitistSelection::new(x).ratio() == x),
                1 => made(&format!("set_ratio({x})"), valid, &|| {
                    let mut s = ElitistSelection::new(0.25);
                    s.set_ratio(x);
                    s.ratio() == x
                }),
                _ => made(&format!("create_selector for elitist {x}"), valid, &|| {
                    let _: Selector = SelectionStrategy::Elitist(x).create_selector();
                    true
                }),
            }
        }
        2 => {
            let c = pick(&[0.0, -0.0, 1.0, 0.5, tiny, 1e-300, 1.0 + f64::EPSILON, 2.0]);
            let t = pick(&[1.0, 1e-300, 1e300, tiny, 0.25]);
            match choose(4) {
                0 => made(&format!("BoltzmannSelection::new({t}, {c})"), c != 0.0, &|| {
                    let s = BoltzmannSelection::new(t, c);
                    s.temperature() == t && s.cooling_rate() == c
                }),
                1 => made(&format!("set_cooling_rate({c})"), c != 0.0, &|| {
                    let mut s = BoltzmannSelection::new(t, 0.75);
                    s.set_cooling_rate(c);
                    s.temperature() == t && s.cooling_rate() == c
                }),
                2 => made(&format!("set_temperature({t})"), true, &|| {
                    let mut s = BoltzmannSelection::new(7.0, 0.75);
                    s.set_temperature(t);
                    s.temperature() == t && s.cooling_rate() == 0.75
                }),
                _ => made(&format!("create_selector for Boltzmann {t} {c}"), c != 0.0, &|| {
                    let _: Selector = SelectionStrategy::Boltzmann(t, c).create_selector();
                    true
                }),
            }
        }
        _ => {
            let b = pick(&[1.0, 2.0, 1.5, 1.0 + f64::EPSILON, 2.0 - f64::EPSILON]);
            match choose(3) {
                0 => made(&format!("LinearSelection::new({b})"), true, &|| LinearSelection::new(b).bias() == b),
                1 => made(&format!("set_bias({b})"), true, &|| {
                    let mut s = LinearSelection::new(1.25);
                    s.set_bias(b);
                    s.bias() == b
                }),
                _ => made(&format!("create_selector for linear {b}"), true, &|| {
                    let _: Selector = SelectionStrategy::Linear(b).create_selector();
                    true
                }),
            }
        }
    });
}

// -------------------------------------------------------------------- selection within whole runs

/// The probabilities of the parent selection in every generation of a run.
pub fn selection_in_runs(strategies: &[SelectionStrategy]) -> Result<(), String> {
    let mut cfg = Cfg::new(flag(), pick(&[1, 2, 5]), pick(&[0.0, 0.5]));
    cfg.strategy = pick(strategies);
    cfg.interval = choose(2);
    let how = choose(3);
    let generations = 4;
    let serial = AtomicU32::new(0);
    let bad = Mutex::new(None);
    let make = |_| F { id: serial.fetch_add(1, SeqCst), fit: 1.0 };
    let args = Args { token: 0, make: &make };
    let judged = Mutex::new(usize::MAX);
    let score = |s: u32| (s * 5 % 7) as f64 * 0.5;
    let calls = Calls {
        breed: &|p, given, _| {
            let mut j = judged.lock().unwrap();
            if *j != p.generation() {
                // once per generation
                *j = p.generation();
                let d = dist(DistOpts { k: Some(600), max_runs: 20_000, ..Default::default() }, || given.selector.select(p, &mut McRng::new()).0);
                let n = p.len();
                let fits: Vec<f64> = p.iter().map(|i| i.fit).collect();
                let expected = match cfg.strategy {
                    SelectionStrategy::Tournament(k) => selection::tournament(n, k),
                    SelectionStrategy::Rank => selection::rank(n),
                    SelectionStrategy::Linear(b) => selection::linear(n, b),
                    SelectionStrategy::Elitist(q) => selection::elitist(n, (n as f64 * q) as usize),
                    SelectionStrategy::RouletteWheel => selection::proportional(&fits),
                    SelectionStrategy::Boltzmann(t, c) => selection::boltzmann(&fits, t * c.powi(p.generation() as i32 + 1)),
                };
                let what = format!("{cfg:?}, generation {}, scores {fits:?}", p.generation());
                state(&what);
                sample(|| format!("{what}: {:.3?}", d.p));
                // after the first preparation the temperature may be cooled or not
                if let Err(m) = selection::against(&what, &d, n, &expected) {
                    bad.lock().unwrap().get_or_insert(m);
                }
            }
            let s = serial.fetch_add(1, SeqCst);
            F { id: 1000 + s, fit: 0.5 + score(s) }
        },
        evaluate: &|i| i.fit = 0.5 + score(i.id),
        mutate: &|i, _| i.id = 100 + serial.fetch_add(1, SeqCst),
        hook: &nothing,
    };
    let start = match how {
        0 => Start::Random(&args),
        1 => Start::From(F { id: 3, fit: 0.0 }),
        _ => Start::List((0..cfg.n as u32 + 1).map(|id| F { id, fit: 0.0 }).collect()),
    };
    let mut count = 0;
    let res = run(&cfg, &calls, start, |_| {
        count += 1;
        count <= generations
    });
    ensure!(res.is_ok(), "{cfg:?}: panicked: {res:?}");
    match bad.into_inner().unwrap() {
        Some(m) => Err(m),
        None => Ok(()),
    }
}
