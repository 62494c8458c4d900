use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::models::*;
use crate::util::*;
use rusty_genes::*;
use std::sync::Arc;

type Sel<I> = Box<dyn SelectionMechanism<I, McRng>>;

fn critical() -> Opts {
    let tiny = 1.0 / (1u64 << 53) as f64;
    Opts {
        unit: Unit::List(Arc::new(vec![0.0, tiny, 0.25, 0.5, next_down(0.5), 0.75, 1.0 / 3.0, 1.0 - 2.0 * tiny, BELOW_ONE])),
        min_weight: 0.0,
        ..Default::default()
    }
}

fn member<I: Individual + std::fmt::Debug>(what: &str, pop: &Population<I>, got: (usize, &I)) -> Result<(), String> {
    ensure!(got.0 < pop.len(), "{what}: index {} in a population of {}", got.0, pop.len());
    ensure!(
        std::ptr::eq(got.1, &pop[got.0]),
        "{what}: index {} returned together with {:?}, which is not this member",
        got.0,
        got.1
    );
    Ok(())
}

/// The mechanism itself or the one the strategy enum creates.
fn mechanism<I: Individual + 'static>(s: SelectionStrategy, direct: bool) -> Sel<I> {
    if !direct {
        return s.create_selector();
    }
    match s {
        SelectionStrategy::Tournament(n) => Box::new(TournamentSelection::new(n)),
        SelectionStrategy::RouletteWheel => Box::new(RouletteWheelSelection::new()),
        SelectionStrategy::Boltzmann(t, r) => Box::new(BoltzmannSelection::new(t, r)),
        SelectionStrategy::Rank => Box::new(RankSelection::new()),
        SelectionStrategy::Linear(b) => Box::new(LinearSelection::new(b)),
        SelectionStrategy::Elitist(q) => Box::new(ElitistSelection::new(q)),
    }
}

const STRATEGIES: &[SelectionStrategy] = &[
    SelectionStrategy::Tournament(1),
    SelectionStrategy::Tournament(2),
    SelectionStrategy::Tournament(3),
    SelectionStrategy::RouletteWheel,
    SelectionStrategy::Rank,
    SelectionStrategy::Linear(1.0),
    SelectionStrategy::Linear(1.0 + f64::EPSILON),
    SelectionStrategy::Linear(1.0 + 1e-9),
    SelectionStrategy::Linear(1.3),
    SelectionStrategy::Linear(1.5),
    SelectionStrategy::Linear(2.0 - f64::EPSILON),
    SelectionStrategy::Linear(2.0),
    SelectionStrategy::Elitist(0.0),
    SelectionStrategy::Elitist(0.5),
    SelectionStrategy::Elitist(0.7),
    SelectionStrategy::Elitist(0.99),
    SelectionStrategy::Elitist(BELOW_ONE),
    SelectionStrategy::Boltzmann(1.0, 1.0),
    SelectionStrategy::Boltzmann(100.0, 0.5),
    SelectionStrategy::Boltzmann(1e-3, 0.9),
    SelectionStrategy::Boltzmann(5e-324, 1.0),
    SelectionStrategy::Boltzmann(1e-300, 1e-10),
    SelectionStrategy::Boltzmann(1e300, 1.0),
    SelectionStrategy::Boltzmann(1.0, 2.0),
];

pub fn s01(r: &Runner) {
    let alphabet = [0.0, 1.0, 5e-324, -1.0, 1e308, -1e308, 0.3, 1e-10];
    let letters = if r.thorough { 8 } else { 6 };
    r.explore("small populations, critical draws", critical(), || {
        let n = 1 + choose(if r.thorough { 5 } else { 4 });
        let fits: Vec<f64> = (0..n).map(|_| alphabet[choose(letters)]).collect();
        if fits.windows(2).any(|w| w[0] > w[1]) {
            // the population is sorted anyway
            skip()
        }
        let s = pick(STRATEGIES);
        let pop = Population::new(scored(&fits));
        let mut sel = mechanism::<F>(s, flag());
        // cooling goes on with every preparation
        let times = if matches!(s, SelectionStrategy::Boltzmann(..)) { pick(&[1, 2, 5]) } else { 1 };
        for _ in 0..times {
            sel.prepare(&pop);
        }
        let res = catch(|| sel.select(&pop, &mut McRng::new()));
        let what = format!("{s:?}, {times} preparations, scores {fits:?}");
        match res {
            Ok(got) => {
                class(&format!("{s:?}"));
                state(&(format!("{s:?}"), fits.iter().map(|f| f.to_bits()).collect::<Vec<_>>(), got.0));
                sample(|| format!("{what}: selected {}", got.0));
                member(&what, &pop, got)
            }
            Err(m) => Err(format!("{what}: selection panicked: {m}")),
        }
    });
    r.explore("larger populations, critical draws", critical(), || {
        let n = pick(&[6, 7, 10, 16, 31, 33, 64, 100, 257, 1000, 1025, 5000]);
        let shape = choose(8);
        let fits: Vec<f64> = (0..n).map(|i| score(shape, i, n)).collect();
        let s = pick(STRATEGIES);
        let pop = Population::new(scored(&fits));
        let mut sel = mechanism::<F>(s, true);
        sel.prepare(&pop);
        let by_numbers = matches!(s, SelectionStrategy::Tournament(_) | SelectionStrategy::Rank | SelectionStrategy::Elitist(_));
        if matches!(s, SelectionStrategy::Tournament(_)) || by_numbers && n > 100 {
            set_pattern(Some(pick(&[Pattern::Zero, Pattern::Max, Pattern::Weyl(1), Pattern::Weyl(2)])));
        }
        let res = catch(|| sel.select(&pop, &mut McRng::new()));
        let what = format!("{s:?}, {n} scores of shape {shape}");
        match res {
            Ok(got) => {
                state(&(format!("{s:?}"), n, shape, got.0));
                member(&what, &pop, got)
            }
            Err(m) => Err(format!("{what}: selection panicked: {m}")),
        }
    });
    r.explore("huge populations", Opts::default(), || {
        let n = pick(&[65_535usize, 65_536, 92_700, 100_000]);
        let shape = pick(&[0, 3, 5, 6]);
        let s = pick(STRATEGIES);
        let pop = Population::new(scored(&(0..n).map(|i| score(shape, i, n)).collect::<Vec<_>>()));
        let mut sel = mechanism::<F>(s, shape % 2 == 0);
        sel.prepare(&pop);
        for p in [Pattern::Zero, Pattern::Max, Pattern::Weyl(1)] {
            set_pattern(Some(p));
            let res = catch(|| sel.select(&pop, &mut McRng::new()));
            set_pattern(None);
            let what = format!("{s:?}, {n} scores of shape {shape}");
            match res {
                Ok(got) => member(&what, &pop, got)?,
                Err(m) => return Err(format!("{what}: selection panicked: {m}")),
            }
        }
        state(&(format!("{s:?}"), n, shape));
        Ok(())
    });
    r.explore("long cooling", critical(), || {
        let s = pick(&STRATEGIES[STRATEGIES.len() - 7..]);
        let fits = pick(&[vec![1.0], vec![1.0, 1.0], vec![-5.0, 0.0, 2.0], vec![-1e308, 1e308], vec![0.0, 5e-324]]);
        let pop = Population::new(scored(&fits));
        let mut sel = mechanism::<F>(s, flag());
        let times = pick(&[40, 400, 3000]);
        for _ in 0..times {
            sel.prepare(&pop);
        }
        let what = format!("{s:?}, {times} preparations, scores {fits:?}");
        match catch(|| sel.select(&pop, &mut McRng::new())) {
            Ok(got) => {
                state(&(&what, got.0));
                member(&what, &pop, got)
            }
            Err(m) => Err(format!("{what}: selection panicked: {m}")),
        }
    });
    r.explore("aged populations, used selectors", critical(), || {
        let age = pick(&AGES);
        let n = pick(&[1, 2, 3, 9]);
        let shape = choose(8);
        let fits: Vec<f64> = (0..n).map(|i| score(shape, i, n)).collect();
        let s = pick(STRATEGIES);
        let pop = aged(&scored(&fits), F { id: 99, fit: -1.7e308 }, age);
        let mut sel = mechanism::<F>(s, flag());
        sel.prepare(&pop);
        let what = format!("{s:?}, {n} scores of shape {shape}, generation and stagnation {age:?}");
        let used = choose(2) * 300;
        set_pattern(Some(Pattern::Weyl(3)));
        let res = catch(|| {
            for _ in 0..used {
                member(&what, &pop, sel.select(&pop, &mut McRng::new()))?;
            }
            if matches!(s, SelectionStrategy::Boltzmann(..) | SelectionStrategy::RouletteWheel | SelectionStrategy::Linear(_)) {
                set_pattern(None);
            }
            let got = sel.select(&pop, &mut McRng::new());
            state(&(&what, got.0));
            member(&what, &pop, got)
        });
        res.map_err(|m| format!("{what}: selection panicked: {m}"))?
    });
    r.explore("draws next to every threshold", Opts { unit: Unit::Grid(1), ..Default::default() }, || {
        // float draws at and around the exact bounds between two individuals
        let n = 1 + choose(12);
        let s = pick(&[
            SelectionStrategy::RouletteWheel,
            SelectionStrategy::Boltzmann(2.0, 0.5),
            SelectionStrategy::Linear(1.0),
            SelectionStrategy::Linear(1.5),
            SelectionStrategy::Linear(2.0),
        ]);
        let shape = choose(8);
        let fits: Vec<f64> = (0..n).map(|i| score(shape, i, n)).collect();
        let pop = Population::new(scored(&fits));
        let m = choose(n + 1);
        let x = m as f64 / n as f64;
        let u = match s {
            SelectionStrategy::Linear(b) => b * x - (b - 1.0) * x * x,
            _ => {
                let w: Vec<f64> = pop.iter().map(|i| if s == SelectionStrategy::RouletteWheel { i.fit } else { i.fit.exp() }).collect();
                w[..m].iter().sum::<f64>() / w.iter().sum::<f64>()
            }
        };
        let mut u = if u.is_finite() { u.clamp(0.0, BELOW_ONE) } else { 0.5 };
        let k = choose(5);
        for _ in 0..k {
            u = if k % 2 == 0 { next_up(u) } else { next_down(u) }
        }
        set_pattern(Some(Pattern::Const(u.clamp(0.0, BELOW_ONE))));
        let mut sel = mechanism::<F>(s, true);
        sel.prepare(&pop);
        let res = catch(|| sel.select(&pop, &mut McRng::new()));
        let what = format!("{s:?}, {n} scores of shape {shape}, draw {u:e}");
        match res {
            Ok(got) => {
                state(&(format!("{s:?}"), n, shape, got.0, 1));
                member(&what, &pop, got)
            }
            Err(m) => Err(format!("{what}: selection panicked: {m}")),
        }
    });
}

/// Score i of n in one of 8 shapes.
fn score(shape: usize, i: usize, n: usize) -> f64 {
    match shape {
        0 => i as f64,
        1 => 1.0,
        2 => 0.0,
        3 => (i as f64 - n as f64 / 2.0) * 3.0,
        4 => -1.0 - i as f64,
        5 => (i / 3) as f64,
        6 => 1.7e308 * ((i + 1) as f64 / n as f64),
        _ => (i as f64 + 1.0) * 5e-324,
    }
}

/// Selections from populations of any age, with mechanisms that were used many times before.
fn aged_and_used(strategies: &[SelectionStrategy], thorough: bool) -> Result<(), String> {
    let s = pick(strategies);
    let fits = pick(&[vec![1.0], vec![1.0, 2.0], vec![2.0, 2.0, 3.0], vec![0.5, 1.0, 1.5, 4.0, 4.5]]);
    let n = fits.len();
    let mut sel = mechanism::<F>(s, flag());
    let (prepared, used) = pick(if thorough { &[(1, 0), (1, 100), (1, 1100), (3, 300), (70, 1), (300, 2), (1, 70_000)][..] } else { &[(1, 0), (1, 100), (1, 1100), (3, 300), (70, 1), (300, 2)] });
    let age = if used < 2 { pick(&AGES) } else { pick(&[(0, 0), (257, 20)]) };
    let pop = aged(&scored(&fits), F { id: 99, fit: 0.25 }, age);
    let what = format!("{s:?} prepared {prepared} times and used {used} times, generation and stagnation {age:?}, scores {fits:?}");
    let mut t = 1.0;
    set_pattern(Some(Pattern::Weyl(3)));
    for k in 0..prepared {
        sel.prepare(&pop);
        if let SelectionStrategy::Boltzmann(t0, c) = s {
            t = t0 * c.powi(k + 1)
        }
        for _ in 0..used {
            sel.select(&pop, &mut McRng::new());
        }
    }
    set_pattern(None);
    let floats = !matches!(s, SelectionStrategy::Tournament(_) | SelectionStrategy::Rank | SelectionStrategy::Elitist(_));
    let d = dist(DistOpts { k: Some(if floats { 1000 } else { 1 }), ..Default::default() }, || sel.select(&pop, &mut McRng::new()).0);
    let e = match s {
        SelectionStrategy::Tournament(k) => tournament(n, k),
        SelectionStrategy::Rank => rank(n),
        SelectionStrategy::Linear(b) => linear(n, b),
        SelectionStrategy::Elitist(q) => elitist(n, (n as f64 * q) as usize),
        SelectionStrategy::RouletteWheel => proportional(&fits),
        SelectionStrategy::Boltzmann(..) => boltzmann(&fits, t),
    };
    for o in &d.p {
        state(&(&what, o.0));
    }
    sample(|| format!("{what}: {:.3?}", d.p));
    against(&what, &d, n, &e)
}

/// P(the selected one is one of the m fittest), for m = 0..=n.
fn tail(d: &Dist<usize>, n: usize) -> Vec<f64> {
    (0..=n).map(|m| d.p.iter().filter(|(i, _)| **i >= n - m).map(|x| x.1).sum()).collect()
}

pub fn against(what: &str, d: &Dist<usize>, n: usize, p: &[f64]) -> Result<(), String> {
    if !d.judged() {
        return Ok(());
    }
    let t = tail(d, n);
    let mut sum = 0.0;
    let tol = d.tol();
    for m in 1..=n {
        let q = p[n - m];
        sum += q;
        let got = d.get(&(n - m));
        ensure!((got - q).abs() <= tol, "{what}: index {} of {n} is selected with probability {got:.6}, expected {q:.6}", n - m);
        ensure!((t[m] - sum).abs() <= tol, "{what}: one of the {m} fittest of {n} is selected with probability {:.6}, expected {sum:.6}", t[m]);
        ensure!(q > 0.0 || got <= if d.units > 0 { tol.min(1e-3) } else { 0.0 }, "{what}: index {} of {n} must never be selected", n - m);
    }
    Ok(())
}

pub fn tournament(n: usize, k: usize) -> Vec<f64> {
    (0..n).map(|i| ((i + 1) as f64 / n as f64).powi(k as i32) - (i as f64 / n as f64).powi(k as i32)).collect()
}
pub fn rank(n: usize) -> Vec<f64> {
    let t = (n * (n + 1) / 2) as f64;
    (0..n).map(|i| (i + 1) as f64 / t).collect()
}
pub fn elitist(n: usize, bound: usize) -> Vec<f64> {
    (0..n).map(|i| if i < bound { 0.0 } else { 1.0 / (n - bound) as f64 }).collect()
}
pub fn linear(n: usize, b: f64) -> Vec<f64> {
    let c = |m: usize| {
        let x = m as f64 / n as f64;
        b * x - (b - 1.0) * x * x
    };
    (0..n).map(|i| c(n - i) - c(n - 1 - i)).collect()
}

fn rank_based(what: &str, s: SelectionStrategy, n: usize, expected: Vec<f64>, modify: bool) -> Result<(), String> {
    let shape = pick(&[0, 1, 4, 5]);
    let fits: Vec<f64> = (0..n).map(|i| if shape == 0 { (i * i) as f64 } else { score(shape, i, n) }).collect();
    let pop = Population::new(scored(&fits));
    let sel: Sel<F> = if modify {
        match s {
            SelectionStrategy::Tournament(k) => {
                let mut m = TournamentSelection::new(7);
                m.set_size(k);
                Box::new(m)
            }
            SelectionStrategy::Linear(b) => {
                let mut m = LinearSelection::new(1.7);
                m.set_bias(b);
                Box::new(m)
            }
            SelectionStrategy::Elitist(q) => {
                let mut m = ElitistSelection::new(0.1);
                m.set_ratio(q);
                Box::new(m)
            }
            s => mechanism(s, true),
        }
    } else {
        mechanism(s, flag())
    };
    let mut sel = sel;
    let d = dist(DistOpts::default(), || {
        // an earlier population must not matter
        if shape == 5 {
            sel.prepare(&Population::new(scored(&[1.0, 2.0, 3.0])));
        }
        sel.prepare(&pop);
        let got = sel.select(&pop, &mut McRng::new());
        if got.0 >= n || !std::ptr::eq(got.1, &pop[got.0]) {
            violate(format!("{what}: selected {:?} of {n}", got.0));
        }
        got.0
    });
    class(&format!("{:.9}", format!("{s:?}")));
    state(&(format!("{s:?}"), n, shape));
    for o in &d.p {
        state(&(format!("{s:?}"), n, shape, o.0, o.1.to_bits()));
    }
    sample(|| format!("{what}, {n} individuals: {} draw sequences, {:.4?}", d.runs, d.p));
    against(what, &d, n, &expected)
}

/// The distribution of selections from a population of more members than 16 bits can number, at its percentiles.
fn huge(s: SelectionStrategy) -> Result<(), String> {
    let n = pick(&[65_535usize, 65_536, 92_700, 100_000]);
    let fits: Vec<f64> = (0..n).map(|i| (i + 1) as f64 / 1024.0).collect();
    let e = match s {
        SelectionStrategy::Tournament(k) => tournament(n, k),
        SelectionStrategy::Rank => rank(n),
        SelectionStrategy::Linear(b) => linear(n, b),
        SelectionStrategy::Elitist(q) => elitist(n, (n as f64 * q) as usize),
        SelectionStrategy::RouletteWheel => proportional(&fits),
        SelectionStrategy::Boltzmann(t, c) => boltzmann(&fits, t * c),
    };
    let pop = Population::new(scored(&fits));
    let mut sel = mechanism::<F>(s, flag());
    sel.prepare(&pop);
    let d = dist(DistOpts { k: Some(256), ..Default::default() }, || {
        let got = sel.select(&pop, &mut McRng::new());
        if got.0 >= n || !std::ptr::eq(got.1, &pop[got.0]) {
            violate(format!("{s:?}: selected {:?} of {n}", got.0));
        }
        got.0
    });
    for o in &d.p {
        state(&(format!("{s:?}"), n, o.0));
    }
    sample(|| format!("{s:?}, {n} individuals: {} draw sequences", d.runs));
    if !d.judged() {
        return Ok(());
    }
    let (mut got, mut expected, mut seen) = (0.0, 0.0, 0);
    for m in 1..=100 {
        let end = n * m / 100;
        expected += e[seen..end].iter().sum::<f64>();
        got += d.p.range(seen..end).map(|x| x.1).sum::<f64>();
        seen = end;
        ensure!((got - expected).abs() <= d.tol(), "{s:?}: one of the {end} least fit of {n} is selected with probability {got:.6}, expected {expected:.6}");
    }
    Ok(())
}

pub fn s02(r: &Runner) {
    r.explore("huge populations", Opts::default(), || {
        huge(pick(&[
            SelectionStrategy::Tournament(1),
            SelectionStrategy::Rank,
            SelectionStrategy::Linear(1.0),
            SelectionStrategy::Linear(1.5),
            SelectionStrategy::Elitist(0.0),
            SelectionStrategy::Elitist(0.5),
        ]))
    });
    r.explore("tournament", Opts::default(), || {
        let k = 1 + choose(if r.thorough { 7 } else { 6 });
        let limit: f64 = if r.thorough { 400_000.0 } else { 50_000.0 };
        let max = (limit.powf(1.0 / k as f64)) as usize;
        let n = 1 + choose(max.min(if r.thorough { 40 } else { 20 }));
        rank_based(&format!("tournament of {k}"), SelectionStrategy::Tournament(k), n, tournament(n, k), flag())
    });
    r.explore("tournament, larger populations", Opts::default(), || {
        let k = 1 + choose(2);
        let n = pick(if k == 1 { &[33, 64, 65, 128, 1000, 5000] } else { &[33usize, 63, 64, 65, 100, 128, 129, 200, 257, 300][..] });
        rank_based(&format!("tournament of {k}"), SelectionStrategy::Tournament(k), n, tournament(n, k), flag())
    });
    r.explore("tournament, size above the population", Opts::default(), || {
        let n = 1 + choose(3);
        let k = 5 + choose(match (n, r.thorough) { (2, false) => 12, (2, true) => 16, (3, false) => 6, (3, true) => 9, _ => 60 });
        rank_based(&format!("tournament of {k}"), SelectionStrategy::Tournament(k), n, tournament(n, k), flag())
    });
    r.explore("large tournaments", Opts::default(), || {
        let k = pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 1000, 1024]);
        let n = pick(&[2usize, 3, 10, 101]);
        let pop = Population::new(scored(&(0..n).map(|i| i as f64).collect::<Vec<_>>()));
        let sel = mechanism::<F>(SelectionStrategy::Tournament(k), flag());
        // which one a draw stands for, as long as there is one draw of a number for each participant
        let run = |p: Pattern| {
            set_pattern(Some(p));
            let before = with(|c| (c.draws, c.units, c.log_ranges));
            let i = sel.select(&pop, &mut McRng::new()).0;
            let after = with(|c| (c.draws, c.units, c.log_ranges));
            set_pattern(None);
            (i, (after.0 - before.0) as usize, after.1 != before.1, after.2 - before.2)
        };
        let value = |j: usize| (j as f64 + 0.5) / n as f64;
        let one = |j: usize| run(Pattern::Const(value(j)));
        // The lowest one of all is selected when all participants are that one. The sequence of draws that
        // leads there is at least as likely as the product of the ranges says, so this bounds it from below.
        let lowest = one(0);
        if lowest.0 == 0 && !lowest.2 {
            let want = k as f64 * (n as f64).ln();
            ensure!(
                lowest.3 >= want * (1.0 - 1e-9) - 1e-9,
                "tournament of {k} among {n}: the lowest one is selected with a probability of at least exp(-{}), expected exp(-{want})",
                lowest.3
            );
        }
        let (j, v) = (pick(&[0, 1, n / 2, n - 1]), pick(&[0, 1, n / 3, n - 2, n - 1]));
        let (a, b) = (one(j), one(v));
        if a.1 != k || b.1 != k || a.2 || b.2 {
            skip()
        }
        let at = choose(k);
        let got = run(Pattern::Spike(at as u64, value(v), value(j))).0;
        state(&(k, n, at, got));
        let e = a.0.max(b.0);
        ensure!(got == e, "tournament of {k} among {n}: participant {at} has index {}, all others {}: {got} is selected", b.0, a.0);
        Ok(())
    });
    r.explore("rank", Opts::default(), || {
        let n = 1 + choose(if r.thorough { 128 } else { 64 });
        rank_based("rank selection", SelectionStrategy::Rank, n, rank(n), false)
    });
    r.explore("rank, larger populations", Opts::default(), || {
        let n = pick(&[100, 127, 128, 129, 200, 255, 256, 257, 300, 361, 400, 1000]);
        rank_based("rank selection", SelectionStrategy::Rank, n, rank(n), false)
    });
    r.explore("elitist", Opts::default(), || {
        let n = if flag() { 1 + choose(40) } else { pick(&[63, 64, 65, 100, 128, 200, 256, 1000, 1024]) };
        // ratios whose product with n is exact, or far from an integer
        let (q, bound) = match choose(5) {
            0 => (0.0, 0),
            // next to an exact share
            4 => {
                let k = pick(&[1, n / 3, n / 2, n - 1]).clamp(1, n);
                if flag() && k < n { (k as f64 / n as f64 + 1e-9, k) } else { (k as f64 / n as f64 - 1e-9, k - 1) }
            }
            1 => {
                let k = pick(&[1, 8, 16, 32, 48, 56, 63]);
                (k as f64 / 64.0, n * k / 64)
            }
            2 => {
                let j = pick(&[0, 1, n / 3, n / 2, n - 1]).min(n - 1);
                ((j as f64 + 0.5) / n as f64, j)
            }
            _ => (0.999_99, if n == 1 { 0 } else { (n as f64 * 0.999_99) as usize }),
        };
        rank_based(&format!("elitist selection with ratio {q}"), SelectionStrategy::Elitist(q), n, elitist(n, bound), flag())
    });
    r.explore("linear", Opts::default(), || {
        let n = if flag() { 1 + choose(if r.thorough { 64 } else { 24 }) } else { pick(&[31, 32, 33, 64, 65, 100, 128, 257, 1000]) };
        let b = pick(&[1.0, 1.0 + f64::EPSILON, 1.0 + 1e-9, 1.001, 1.01, 1.02, 1.05, 1.07, 1.1, 1.25, 1.5, 1.75, 1.9, 1.95, 1.99, 2.0 - f64::EPSILON, 2.0]);
        rank_based(&format!("linear selection with bias {b}"), SelectionStrategy::Linear(b), n, linear(n, b), flag())
    });
    r.explore("histories of preparations and selections", Opts::default(), || {
        let s = pick(&[
            SelectionStrategy::Tournament(1),
            SelectionStrategy::Tournament(3),
            SelectionStrategy::Rank,
            SelectionStrategy::Linear(1.0),
            SelectionStrategy::Linear(1.6),
            SelectionStrategy::Elitist(0.0),
            SelectionStrategy::Elitist(0.5),
        ]);
        let mut sel = mechanism::<F>(s, flag());
        let mut hist = Vec::new();
        for _ in 0..if r.thorough { 4 } else { 3 } {
            let n = pick(&[1usize, 2, 3, 5, 8]);
            let best = pick(&[1.0, 7.0]);
            hist.push((n, best));
            let pop = Population::new(scored(&(0..n).map(|i| best + i as f64 / 8.0).collect::<Vec<_>>()));
            sel.prepare(&pop);
            let d = dist(DistOpts { k: Some(if matches!(s, SelectionStrategy::Linear(_)) { 400 } else { 1 }), ..Default::default() }, || sel.select(&pop, &mut McRng::new()).0);
            let e = match s {
                SelectionStrategy::Tournament(k) => tournament(n, k),
                SelectionStrategy::Rank => rank(n),
                SelectionStrategy::Linear(b) => linear(n, b),
                SelectionStrategy::Elitist(q) => elitist(n, (n as f64 * q) as usize),
                _ => unreachable!(),
            };
            state(&(format!("{s:?}"), n, hist.len()));
            against(&format!("{s:?} after preparations for (size, first score) {hist:?}"), &d, n, &e)?;
        }
        Ok(())
    });
    r.explore("aged populations, used selectors", Opts::default(), || {
        aged_and_used(
            &[
                SelectionStrategy::Tournament(1),
                SelectionStrategy::Tournament(2),
                SelectionStrategy::Tournament(5),
                SelectionStrategy::Rank,
                SelectionStrategy::Linear(1.0),
                SelectionStrategy::Linear(1.6),
                SelectionStrategy::Elitist(0.0),
                SelectionStrategy::Elitist(0.5),
            ],
            r.thorough,
        )
    });
    r.explore("in whole runs", Opts::default(), || {
        super::adaptive::selection_in_runs(&[
            SelectionStrategy::Tournament(1),
            SelectionStrategy::Tournament(3),
            SelectionStrategy::Rank,
            SelectionStrategy::Linear(1.25),
            SelectionStrategy::Elitist(0.5),
        ])
    });
}

pub fn proportional(weights: &[f64]) -> Vec<f64> {
    let t: f64 = weights.iter().sum();
    weights.iter().map(|w| w / t).collect()
}
pub fn boltzmann(fits: &[f64], t: f64) -> Vec<f64> {
    let max = fits.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    proportional(&fits.iter().map(|f| if *f == max { 1.0 } else { ((f - max) / t).exp() }).collect::<Vec<_>>())
}
fn selected(sel: &Sel<F>, pop: &Population<F>) -> Dist<usize> {
    dist(DistOpts::default(), || {
        let got = sel.select(pop, &mut McRng::new());
        if got.0 >= pop.len() || !std::ptr::eq(got.1, &pop[got.0]) {
            violate(format!("selected index {} of {} with a wrong reference", got.0, pop.len()));
        }
        got.0
    })
}
fn fits_of(pop: &Population<F>) -> Vec<f64> {
    pop.iter().map(|i| i.fit).collect()
}

pub fn s03(r: &Runner) {
    r.explore("huge populations", Opts::default(), || huge(pick(&[SelectionStrategy::RouletteWheel, SelectionStrategy::Boltzmann(20.0, 0.5), SelectionStrategy::Boltzmann(1000.0, 1.0)])));
    r.explore("roulette wheel", Opts::default(), || {
        let n = 1 + choose(if r.thorough { 5 } else { 4 });
        let scale = pick(&[1.0, 1e-300, 1e300, 1e-9]);
        let alphabet = [0.0, 1.0, 0.25, 3.0, 10.0, 0.01];
        let fits: Vec<f64> = (0..n).map(|_| alphabet[choose(if r.thorough { 6 } else { 5 })] * scale).collect();
        if fits.windows(2).any(|w| w[0] > w[1]) || fits.iter().all(|f| *f == 0.0) {
            skip()
        }
        let pop = Population::new(scored(&fits));
        let mut sel = mechanism::<F>(SelectionStrategy::RouletteWheel, flag());
        sel.prepare(&pop);
        let d = selected(&sel, &pop);
        let e = proportional(&fits_of(&pop).iter().map(|f| f / scale).collect::<Vec<_>>());
        for o in &d.p {
            state(&(fits.iter().map(|f| f.to_bits()).collect::<Vec<_>>(), o.0));
        }
        sample(|| format!("roulette wheel, scores {fits:?}: {:.4?}", d.p));
        against(&format!("roulette wheel, scores {fits:?}"), &d, pop.len(), &e)
    });
    r.explore("roulette wheel, larger populations", Opts::default(), || {
        let n = if flag() { 5 + choose(60) } else { pick(&[65, 100, 128, 129, 256, 257, 1000]) };
        let shape = choose(5);
        let fits: Vec<f64> = (0..n)
            .map(|i| match shape {
                0 => i as f64,
                1 => 1.0,
                2 => (i * i) as f64,
                3 => {
                    if i == n - 1 {
                        1000.0
                    } else {
                        1.0
                    }
                }
                _ => {
                    if i < n / 2 {
                        0.0
                    } else {
                        2.0
                    }
                }
            })
            .collect();
        let pop = Population::new(scored(&fits));
        let mut sel = mechanism::<F>(SelectionStrategy::RouletteWheel, true);
        set_workers(pick(&[1, 4]));
        with(|c| c.join_order = 1);
        sel.prepare(&pop);
        let d = selected(&sel, &pop);
        state(&(n, shape, d.p.len()));
        against(&format!("roulette wheel, {n} scores of shape {shape}"), &d, pop.len(), &proportional(&fits_of(&pop)))
    });
    r.explore("Boltzmann", Opts::default(), || {
        let n = 1 + choose(if r.thorough { 4 } else { 3 });
        let alphabet = [0.0, 1.0, -2.0, 2.5, 100.0, -1e6, 1e200];
        let letters = if r.thorough { 7 } else { 6 };
        let fits: Vec<f64> = (0..n).map(|_| alphabet[choose(letters)]).collect();
        let t0 = pick(&[1.0, 5.0, 0.1, 1e-3, 1e-9, 1e-150, 1e3, 1e150]);
        let rate = pick(&[1.0, 0.9, 0.5, 0.999, 1.5]);
        let times = pick(&[1, 2, 3, 10, 400]);
        let t = t0 * f64::powi(rate, times);
        if fits.iter().zip(fits.iter().skip(1)).any(|(a, b)| a > b) || !(1e-300..1e300).contains(&t) {
            skip()
        }
        let pop = Population::new(scored(&fits));
        let by_strategy = flag();
        let (sel, temperature): (Sel<F>, Option<f64>) = if by_strategy {
            let mut s = mechanism::<F>(SelectionStrategy::Boltzmann(t0, rate), false);
            for _ in 0..times {
                s.prepare(&pop)
            }
            (s, None)
        } else {
            let mut s = BoltzmannSelection::new(t0, rate);
            for _ in 0..times {
                SelectionMechanism::<F, McRng>::prepare(&mut s, &pop)
            }
            (Box::new(s), Some(s.temperature()))
        };
        let what = format!("Boltzmann({t0}, {rate}) after {times} preparations, scores {fits:?}");
        if let Some(x) = temperature {
            ensure!((x / t - 1.0).abs() < 1e-9, "{what}: the temperature is {x}, expected {t}");
        }
        let d = selected(&sel, &pop);
        for o in &d.p {
            state(&(fits.iter().map(|f| f.to_bits()).collect::<Vec<_>>(), t.to_bits(), o.0));
        }
        sample(|| format!("{what}: {:.4?}", d.p));
        against(&what, &d, pop.len(), &boltzmann(&fits_of(&pop), t))
    });
    r.explore("Boltzmann, larger populations", Opts::default(), || {
        let n = if flag() { 4 + choose(61) } else { pick(&[65, 100, 129, 257, 1000]) };
        let shape = choose(3);
        let fits: Vec<f64> = (0..n)
            .map(|i| match shape {
                0 => i as f64 / n as f64,
                1 => -(i as f64),
                _ => 1e6 + (i % 10) as f64,
            })
            .collect();
        let t = pick(&[1.0, 10.0, 0.25, 1e-4]);
        let pop = Population::new(scored(&fits));
        let mut sel = mechanism::<F>(SelectionStrategy::Boltzmann(2.0 * t, 0.5), true);
        sel.prepare(&pop);
        let d = selected(&sel, &pop);
        state(&(n, shape, d.p.len(), t.to_bits()));
        against(&format!("Boltzmann at {t}, {n} scores of shape {shape}"), &d, pop.len(), &boltzmann(&fits_of(&pop), t))
    });
    let depth = if r.thorough { 4 } else { 3 };
    r.explore("histories of preparations", Opts::default(), || {
        let lists: [&[f64]; 11] = [&[2000.0, 2003.0], &[1e9, 1e9 + 1.0, 1e9 + 4.0], &[1.0], &[1.0, 3.0], &[0.5, 0.5, 1.0], &[10.0, 30.0], &[2.0, 2.0, 2.0, 10.0], &[0.0, 0.0, 8.0], &[2.5, 3.0], &[0.5, 3.5], &[0.0, 1.0, 3.0]];
        let boltz = flag();
        let (t0, rate) = (8.0, 0.5);
        let changes = boltz && flag();
        let mut b = BoltzmannSelection::new(t0, rate);
        let mut w = RouletteWheelSelection::new();
        let mut t = t0;
        let mut rate = rate;
        let mut hist = Vec::new();
        let mut same = if flag() { Some(Population::new(scored(&[7.0]))) } else { None };
        for step in 0..1 + choose(depth) {
            let k = choose(lists.len());
            hist.push(k);
            // a population of its own, or the next generation of the same one
            let own;
            let pop = match &mut same {
                Some(p) => {
                    p.replace(&mut scored(lists[k]));
                    &*p
                }
                None => {
                    own = Population::new(scored(lists[k]));
                    &own
                }
            };
            if changes {
                match choose(3) {
                    1 => {
                        t = 3.0;
                        b.set_temperature(t)
                    }
                    2 => {
                        rate = 0.75;
                        b.set_cooling_rate(rate)
                    }
                    _ => {}
                }
            }
            SelectionMechanism::<F, McRng>::prepare(&mut b, pop);
            SelectionMechanism::<F, McRng>::prepare(&mut w, pop);
            t *= rate;
            let sel: Sel<F> = if boltz { Box::new(b) } else { Box::new(w) };
            ensure!(b.temperature() == t, "the temperature after preparations {hist:?} is {}, expected {t}", b.temperature());
            let d = dist(DistOpts { k: Some(1000), ..Default::default() }, || sel.select(pop, &mut McRng::new()).0);
            let e = if boltz { boltzmann(&fits_of(pop), t) } else { proportional(&fits_of(pop)) };
            state(&(boltz, &hist, step));
            against(&format!("{} after preparations {hist:?}", if boltz { "Boltzmann" } else { "roulette wheel" }), &d, pop.len(), &e)?;
        }
        sample(|| format!("preparations with populations {hist:?}, Boltzmann: {boltz}"));
        Ok(())
    });
    r.explore("aged populations, used selectors", Opts::default(), || {
        aged_and_used(
            &[SelectionStrategy::RouletteWheel, SelectionStrategy::Boltzmann(2.0, 1.0), SelectionStrategy::Boltzmann(2.0, 0.5), SelectionStrategy::Boltzmann(2.0, 0.98), SelectionStrategy::Boltzmann(0.25, 1.01)],
            r.thorough,
        )
    });
    r.explore("in whole runs", Opts::default(), || {
        super::adaptive::selection_in_runs(&[
            SelectionStrategy::RouletteWheel,
            SelectionStrategy::Boltzmann(2.0, 0.5),
            SelectionStrategy::Boltzmann(1.0, 1.0),
        ])
    });
}

/// Selects what the explorer says.
struct Scripted<'s> {
    log: &'s std::sync::Mutex<Vec<usize>>,
}
impl<I: Individual> SelectionMechanism<I, McRng> for Scripted<'_> {
    fn prepare(&mut self, _: &Population<I>) {}
    fn select<'a>(&self, population: &'a Population<I>, _: &mut McRng) -> (usize, &'a I) {
        let i = choose(population.len());
        self.log.lock().unwrap().push(i);
        (i, &population[i])
    }
}

fn distinct<I: Individual + std::fmt::Debug>(pop: &Population<I>, excluded: &I, tries: usize) -> Result<(), String> {
    let log = std::sync::Mutex::new(Vec::new());
    let sel = Scripted { log: &log };
    let got = catch(|| sel.select_distinct(pop, &mut McRng::new(), tries, excluded).map(|(i, x)| (i, x as *const I)))
        .map_err(|m| format!("select_distinct panicked: {m}"))?;
    let log = log.lock().unwrap().clone();
    let first = log.iter().position(|&i| pop[i] != *excluded);
    let what = format!("population {:?}, excluded {excluded:?}, {tries} tries, selections {log:?}", &pop[..]);
    state(&(tries, &log, format!("{excluded:?}")));
    sample(|| format!("{what}: {:?}", got.map(|g| g.0)));
    match first {
        Some(k) => {
            let i = log[k];
            ensure!(k + 1 == log.len(), "{what}: selection went on after a distinct individual was found");
            ensure!(k < tries, "{what}: more selections than allowed");
            match got {
                None => Err(format!("{what}: returned nothing although a distinct individual was selected")),
                Some((j, p)) => {
                    ensure!(j == i && std::ptr::eq(p, &pop[i]), "{what}: returned index {j}, expected {i}, or a wrong reference");
                    Ok(())
                }
            }
        }
        None => {
            ensure!(log.len() == tries, "{what}: stopped after {} selections", log.len());
            ensure!(got.is_none(), "{what}: returned {:?} although every selection yielded the excluded one", got.map(|g| g.0));
            Ok(())
        }
    }
}

pub fn s04(r: &Runner) {
    r.explore("all selection outcomes", Opts::default(), || {
        let n = 1 + choose(3);
        let pop = Population::new(scored(&[1.0, 1.0, 2.0][..n]));
        let tries = choose(if r.thorough { 8 } else { 6 });
        let k = choose(n + 1);
        let excluded = if k < n { pop[k] } else { F { id: 99, fit: 1.0 } };
        distinct(&pop, &excluded, tries)
    });
    r.explore("many tries", Opts::default(), || {
        let pop = Population::new(scored(&[1.0, 2.0]));
        let tries = pick(&[10, 16, 17, 32, 33, 64, 100, 257]);
        let at = choose(tries + 1);
        struct At<'s>(&'s std::sync::atomic::AtomicUsize, usize);
        impl SelectionMechanism<F, McRng> for At<'_> {
            fn prepare(&mut self, _: &Population<F>) {}
            fn select<'a>(&self, p: &'a Population<F>, _: &mut McRng) -> (usize, &'a F) {
                let k = self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let i = (k == self.1) as usize;
                (i, &p[i])
            }
        }
        let n = std::sync::atomic::AtomicUsize::new(0);
        let got = At(&n, at).select_distinct(&pop, &mut McRng::new(), tries, &pop[0]);
        let made = n.load(std::sync::atomic::Ordering::SeqCst);
        state(&(tries, at));
        if at < tries {
            ensure!(got.map(|g| g.0) == Some(1) && made == at + 1, "{tries} tries, selection {at} is distinct: {got:?} after {made} selections");
        } else {
            ensure!(got.is_none() && made == tries, "{tries} tries without success: {got:?} after {made} selections");
        }
        Ok(())
    });
    r.explore("larger populations", Opts::default(), || {
        // the excluded one, and the ones a scripted mechanism selects, anywhere
        let n = pick(&[4usize, 5, 16, 17, 33, 64, 65, 100, 129, 257, 1000]);
        let places = [0, 1, n / 2, n - 2, n - 1];
        let list = scored(&(0..n).map(|i| (i / 2) as f64).collect::<Vec<_>>());
        let pop = Population::new(list);
        let excluded = if flag() { pop[pick(&places).min(pop.len() - 1)] } else { F { id: n as u32, fit: pick(&[0.0, 1.0, -7.5, f64::MAX]) } };
        let tries = 1 + choose(3);
        let script: Vec<usize> = (0..tries).map(|_| pick(&places)).collect();
        struct Listed<'s>(&'s [usize], &'s std::sync::atomic::AtomicUsize);
        impl SelectionMechanism<F, McRng> for Listed<'_> {
            fn prepare(&mut self, _: &Population<F>) {}
            fn select<'a>(&self, p: &'a Population<F>, _: &mut McRng) -> (usize, &'a F) {
                let i = self.0[self.1.fetch_add(1, std::sync::atomic::Ordering::SeqCst)];
                (i, &p[i])
            }
        }
        ensure!(pop.len() == n, "population of {} instead of {n}", pop.len());
        let made = std::sync::atomic::AtomicUsize::new(0);
        let got = Listed(&script, &made).select_distinct(&pop, &mut McRng::new(), tries, &excluded).map(|(i, x)| (i, *x));
        let e = script.iter().find(|i| pop[**i] != excluded).map(|&i| (i, pop[i]));
        let needed = script.iter().position(|i| pop[*i] != excluded).map_or(tries, |k| k + 1);
        let made = made.load(std::sync::atomic::Ordering::SeqCst);
        state(&(n, &script, &excluded.id));
        ensure!(got == e && made == needed, "{n} individuals, {excluded:?} excluded, {script:?} selected: {got:?} after {made} selections, expected {e:?} after {needed}");
        Ok(())
    });
    r.explore("equality that ignores the fitness", Opts::default(), || {
        // distinctness is decided by the equality of individuals, not by their fitness or place
        let n = 1 + choose(3);
        let list: Vec<Kind> = (0..n).map(|i| Kind { kind: choose(2) as u32, serial: i as u32, fit: i as f64 }).collect();
        let pop = Population::new(list);
        let excluded = Kind { kind: choose(3) as u32, serial: 9, fit: choose(3) as f64 };
        distinct(&pop, &excluded, choose(4))
    });
    r.explore("aged populations", Opts::default(), || {
        let age = pick(&AGES);
        let n = 1 + choose(2);
        let pop = aged(&scored(&[1.0, 2.0][..n]), F { id: 99, fit: 0.0 }, age);
        let tries = choose(4);
        let k = choose(n + 1);
        let excluded = if k < n { pop[k] } else { F { id: 98, fit: 1.0 } };
        distinct(&pop, &excluded, tries).map_err(|m| format!("generation and stagnation {age:?}: {m}"))
    });
    r.explore("built-in mechanisms", Opts::default(), || {
        let n = 1 + choose(4);
        let fits: Vec<f64> = (0..n).map(|i| 1.0 + i as f64).collect();
        let pop = Population::new(scored(&fits));
        let (s, p) = match choose(6) {
            0 => (SelectionStrategy::Tournament(2), tournament(n, 2)),
            1 => (SelectionStrategy::Rank, rank(n)),
            2 => (SelectionStrategy::Elitist(0.5), elitist(n, n / 2)),
            3 => (SelectionStrategy::RouletteWheel, proportional(&fits)),
            4 => (SelectionStrategy::Boltzmann(2.0, 1.0), boltzmann(&fits, 2.0)),
            _ => (SelectionStrategy::Linear(1.5), linear(n, 1.5)),
        };
        let tries = choose(if n < 4 { 4 } else { 3 });
        let k = choose(n);
        let excluded = pop[k];
        let mut sel = mechanism::<F>(s, flag());
        sel.prepare(&pop);
        let grid = if tries < 2 { None } else { Some(if tries == 2 { 64 } else { 20 }) };
        let d = dist(DistOpts { k: grid, ..Default::default() }, || {
            let got = sel.select_distinct(&pop, &mut McRng::new(), tries, &excluded);
            if let Some((i, x)) = got {
                if i >= n || !std::ptr::eq(x, &pop[i]) || *x == excluded {
                    violate(format!("{s:?}: excluding {excluded:?} gave index {i} and {x:?}"));
                }
            }
            got.map(|g| g.0)
        });
        let mut e = std::collections::BTreeMap::new();
        add(&mut e, None, p[k].powi(tries as i32));
        for i in 0..n {
            if i != k && p[i] > 0.0 {
                add(&mut e, Some(i), (0..tries).map(|t| p[k].powi(t as i32) * p[i]).sum());
            }
        }
        e.retain(|_, v| *v > 0.0);
        state(&(format!("{s:?}"), n, tries, k));
        sample(|| format!("{s:?}, {n} individuals, excluded {k}, {tries} tries: {:.4?}", d.p));
        d.compare(&e).map_err(|m| format!("{s:?}, {n} individuals, excluded {k}, {tries} tries: {m}"))
    });
}
