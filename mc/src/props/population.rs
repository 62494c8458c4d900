use crate::engine::*;
use crate::ensure;
use crate::models::*;
use crate::util::*;
use rusty_genes::*;
use std::cmp::Ordering;

/// Exact statistics of integer samples (in some unit).
struct Exact {
    n: usize,
    min: usize,
    max: usize,
    avg: f64,
    var: f64,
    max_abs: f64,
}
fn exact(x: &[i64]) -> Exact {
    let n = x.len();
    let base = x[0] as i128;
    let (mut s, mut q) = (0i128, 0i128);
    let (mut min, mut max) = (0, 0);
    for (i, &v) in x.iter().enumerate() {
        let d = v as i128 - base;
        s += d;
        q += d * d;
        if v < x[min] {
            min = i
        }
        if v > x[max] {
            max = i
        }
    }
    let nn = n as i128;
    let total = nn * base + s;
    Exact {
        n,
        min,
        max,
        avg: (total / nn) as f64 + (total % nn) as f64 / n as f64,
        var: if n < 2 { 0.0 } else { (nn * q - s * s) as f64 / (n as f64 * (n - 1) as f64) },
        max_abs: x.iter().map(|v| v.unsigned_abs()).max().unwrap() as f64,
    }
}
/// Judges reported values against exact ones; `unit` is a power of two.
fn judge(x: &[i64], unit: f64, count: usize, min: f64, arg_min: usize, max: f64, arg_max: usize, avg: f64, var: f64, std: f64) -> Result<(), String> {
    let e = exact(x);
    ensure!(count == e.n, "count {count} of {} samples", e.n);
    ensure!(min == x[e.min] as f64 * unit && arg_min == e.min, "minimum {min} at {arg_min}, expected {} at {}", x[e.min] as f64 * unit, e.min);
    ensure!(max == x[e.max] as f64 * unit && arg_max == e.max, "maximum {max} at {arg_max}, expected {} at {}", x[e.max] as f64 * unit, e.max);
    let eps = f64::EPSILON;
    let n = e.n as f64;
    let tol = (16.0 + 4.0 * n) * eps * e.max_abs * unit;
    ensure!((avg - e.avg * unit).abs() <= tol, "average {avg:e}, expected {:e}", e.avg * unit);
    let sd = e.var.sqrt();
    let (v, s) = (e.var * unit * unit, sd * unit);
    let (vt, st);
    if e.var == 0.0 {
        st = 16.0 * n * eps * e.max_abs * unit;
        vt = st * st;
    } else {
        let rel = 1e-12 + 64.0 * n * eps * (1.0 + e.max_abs / sd);
        vt = rel * v;
        st = rel * s;
    }
    ensure!((var - v).abs() <= vt, "variance {var:e}, expected {v:e}");
    ensure!((std - s).abs() <= st, "standard deviation {std:e}, expected {s:e}");
    Ok(())
}
fn judge_stats(x: &[i64], unit: f64, s: &Stats) -> Result<(), String> {
    if x.is_empty() {
        ensure!(
            s.count() == 0 && s.min().is_none() && s.max().is_none() && s.arg_min().is_none() && s.arg_max().is_none() && s.avg().is_none() && s.var().is_none() && s.std().is_none(),
            "an empty sequence has values: {s:?}"
        );
        return Ok(());
    }
    let all = (|| Some((s.min()?, s.arg_min()?, s.max()?, s.arg_max()?, s.avg()?, s.var()?, s.std()?)))();
    let Some(a) = all else { return Err(format!("a value is missing for {} samples: {s:?}", x.len())) };
    judge(x, unit, s.count(), a.0, a.1, a.2, a.3, a.4, a.5, a.6)?;
    let Some(p) = s.snapshot() else { return Err(format!("no snapshot of {} samples", x.len())) };
    judge(x, unit, p.count(), p.min(), p.arg_min(), p.max(), p.arg_max(), p.avg(), p.var(), p.std()).map_err(|m| format!("in a snapshot: {m}"))
}

/// Collects the first `split` samples and records the others.
fn collected(x: &[i64], unit: f64, split: usize) -> Stats {
    collected_by(x, unit, split, 0)
}
/// From iterators that know their length, or do not.
fn collected_by(x: &[i64], unit: f64, split: usize, kind: usize) -> Stats {
    let f = |&v: &i64| v as f64 * unit;
    let (a, b) = x[..split].split_at(split / 2);
    let mut s: Stats = match kind {
        0 => x[..split].iter().map(f).collect(),
        1 => x[..split].iter().map(f).filter(|_| true).collect(),
        2 => {
            let mut i = 0;
            std::iter::from_fn(|| {
                i += 1;
                x[..split].get(i - 1).map(f)
            })
            .collect()
        }
        3 => a.iter().chain(b).map(f).collect(),
        // size hints with an upper bound above, a lower bound below the number of samples
        4 => x[..split].iter().flat_map(|v| [None, Some(f(v)), None]).flatten().collect(),
        5 => (0..3 * split).filter(|i| i % 3 == 0).map(|i| f(&x[i / 3])).collect(),
        6 => x[..split].iter().map(f).chain((0..7).filter(|&i| i > 9).map(f64::from)).collect(),
        7 => (0..split + 5).map_while(|i| x[..split].get(i).map(f)).collect(),
        _ => x[..split].iter().map(f).collect::<Vec<f64>>().into_iter().collect(),
    };
    for &v in &x[split..] {
        s.record(v as f64 * unit);
    }
    s
}

pub fn t01(r: &Runner) {
    let len = if r.thorough { 7 } else { 6 };
    r.explore("sample sequences", Opts::default(), || {
        let alphabet = pick(&[
            [0i64, 1, -3, 7],
            [1 << 40, (1 << 40) + 1, (1 << 40) + 4, (1 << 40) - 2],
            [-(1 << 45), 1, 5, 1 << 44],
            [0, -1, -2, -1_000_003],
            [1_000_000_000, 1_000_000_001, 1_000_000_002, 999_999_999],
        ]);
        let unit = pick(&[1.0, f64::powi(2.0, -20), f64::powi(2.0, -500), f64::powi(2.0, 400)]);
        let n = choose(len + 1);
        let x: Vec<i64> = (0..n).map(|_| pick(&alphabet)).collect();
        let split = choose(n + 1);
        let s = collected(&x, unit, split);
        state(&(&x, unit.to_bits(), split));
        sample(|| format!("{x:?} times {unit:e}, {split} collected: {s:?}"));
        judge_stats(&x, unit, &s).map_err(|m| format!("{split} of the samples {x:?} times {unit:e} collected, the others recorded: {m}"))
    });
    r.explore("kinds of iterators", Opts::default(), || {
        let n = upto(0, 40, &[100, 1000]);
        let shape = choose(3) as i64;
        let x: Vec<i64> = (0..n as i64).map(|i| [i * 5 % 11, -i, 77 - i * i % 13][shape as usize]).collect();
        let split = pick(&[0, n / 3, n]);
        let kind = choose(9);
        let s = collected_by(&x, 0.5, split, kind);
        state(&(n, shape, split, kind));
        judge_stats(&x, 0.5, &s).map_err(|m| format!("{split} of the {n} samples {:?} collected from kind {kind} of iterator: {m}", &x[..n.min(20)]))
    });
    r.explore("fractions", Opts::default(), || {
        // decimal fractions: extremes are exact, moments against a plain two-pass computation
        let alphabet = [0.1, 0.2, 0.7, -0.3, 1e-9, 123.456, -0.0, 0.0];
        let n = 1 + choose(5);
        let x: Vec<f64> = (0..n).map(|_| pick(&alphabet)).collect();
        let split = pick(&[0, n / 2, n]);
        let mut s: Stats = x[..split].iter().copied().collect();
        x[split..].iter().for_each(|&v| s.record(v));
        let (mut lo, mut hi) = (0, 0);
        for i in 0..n {
            if x[i] < x[lo] {
                lo = i
            }
            if x[i] > x[hi] {
                hi = i
            }
        }
        let avg = x.iter().sum::<f64>() / n as f64;
        let var = if n < 2 { 0.0 } else { x.iter().map(|v| (v - avg) * (v - avg)).sum::<f64>() / (n - 1) as f64 };
        let what = format!("samples {x:?}, {split} collected: {s:?}");
        state(&(x.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), split));
        ensure!(s.count() == n, "{what}: wrong count");
        ensure!(s.min() == Some(x[lo]) && s.arg_min() == Some(lo) && s.max() == Some(x[hi]) && s.arg_max() == Some(hi), "{what}: wrong extremes");
        ensure!(s.avg().map_or(false, |a| (a - avg).abs() < 1e-12 * 124.0), "{what}: average {:?}, expected {avg}", s.avg());
        ensure!(s.var().map_or(false, |v| (v - var).abs() <= 1e-11 * (var + 1e-6)), "{what}: variance {:?}, expected {var}", s.var());
        ensure!(s.std().map_or(false, |v| (v - var.sqrt()).abs() <= 1e-9 * var.sqrt() + 1e-12), "{what}: deviation {:?}, expected {}", s.std(), var.sqrt());
        Ok(())
    });
    r.explore("extreme samples", Opts::default(), || {
        let alphabet = [f64::MAX, f64::MIN, 5e-324, -5e-324, 0.0, 1.0, f64::MIN_POSITIVE, 1e300];
        let n = 1 + choose(4);
        let x: Vec<f64> = (0..n).map(|_| pick(&alphabet)).collect();
        let split = pick(&[0, n / 2, n]);
        let mut s: Stats = x[..split].iter().copied().collect();
        x[split..].iter().for_each(|&v| s.record(v));
        let lo = (0..n).fold(0, |a, i| if x[i] < x[a] { i } else { a });
        let hi = (0..n).fold(0, |a, i| if x[i] > x[a] { i } else { a });
        state(&(x.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), split));
        ensure!(
            s.count() == n && s.min() == Some(x[lo]) && s.arg_min() == Some(lo) && s.max() == Some(x[hi]) && s.arg_max() == Some(hi),
            "samples {x:?}, {split} collected: {s:?}: wrong count or extremes"
        );
        Ok(())
    });
    r.explore("long sequences", Opts::default(), || {
        let n = upto(7, if r.thorough { 300 } else { 70 }, if r.thorough { &[1000, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537, 200_000, 1_000_000][..] } else { &[100, 128, 129, 256, 257, 1000, 1024, 1025, 4096, 4097, 65536, 65537, 200_000][..] });
        let shape = choose(7);
        let offset = pick(&[0i64, 1 << 20, -(1 << 36), 1 << 44]);
        let x: Vec<i64> = (0..n as i64)
            .map(|i| {
                offset
                    + match shape {
                        0 => i,
                        1 => -i,
                        2 => i % 7,
                        3 => (i * 7919) % 1009 - 500,
                        4 => 3,
                        5 => {
                            if i == n as i64 - 1 {
                                -90
                            } else {
                                5
                            }
                        }
                        _ => {
                            if i == n as i64 / 2 {
                                100_000
                            } else {
                                i % 2
                            }
                        }
                    }
            })
            .collect();
        let split = pick(&[0, 1, n / 2, n - 1, n]);
        let s = collected(&x, 1.0 / 1024.0, split);
        state(&(n, shape, offset, split));
        judge_stats(&x, 1.0 / 1024.0, &s).map_err(|m| format!("{n} samples of shape {shape} with offset {offset}, {split} collected: {m}"))
    });
}

#[derive(Clone, Debug, PartialEq)]
struct Values(usize, u64, usize, u64, usize, u64, u64, u64);
fn values(p: &PopulatedStats) -> Values {
    Values(p.count(), p.min().to_bits(), p.arg_min(), p.max().to_bits(), p.arg_max(), p.avg().to_bits(), p.var().to_bits(), p.std().to_bits())
}
fn same_as_stats(s: &Stats, p: &PopulatedStats) -> bool {
    let close = |a: Option<f64>, b: f64| a.map_or(false, |a| a == b || (a - b).abs() <= 1e-12 * (a.abs() + b.abs()));
    s.count() == p.count()
        && s.min() == Some(p.min())
        && s.max() == Some(p.max())
        && s.arg_min() == Some(p.arg_min())
        && s.arg_max() == Some(p.arg_max())
        && s.avg() == Some(p.avg())
        && close(s.var(), p.var())
        && close(s.std(), p.std())
}
/// The numbers of a text, as written.
fn numbers(t: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur = String::new();
    for c in t.chars().chain([' ']) {
        if c.is_ascii_digit() || c == '.' || c == '-' || (c == 'e' && !cur.is_empty()) {
            cur.push(c)
        } else {
            if cur.chars().any(|c| c.is_ascii_digit()) {
                out.push(cur.clone())
            }
            cur.clear()
        }
    }
    out
}
fn text(p: &PopulatedStats, s: Option<&Stats>) -> Result<(), String> {
    for prec in [None, Some(0), Some(1), Some(3), Some(9)] {
        let f = |x: f64| match prec {
            None => format!("{x}"),
            Some(k) => format!("{x:.k$}"),
        };
        let e = vec![p.count().to_string(), f(p.min()), f(p.max()), f(p.avg()), f(p.var()), f(p.std())];
        let show = |d: &dyn std::fmt::Display| match prec {
            None => format!("{d}"),
            Some(k) => format!("{d:.k$}"),
        };
        let t = show(p);
        ensure!(numbers(&t) == e, "text {t:?} with precision {prec:?}, expected the numbers {e:?}");
        if let Some(s) = s {
            let u = show(s);
            ensure!(u == t, "text {u:?} of the statistics, {t:?} of the snapshot");
        }
    }
    Ok(())
}

pub fn t02(r: &Runner) {
    let depth = if r.thorough { 7 } else { 5 };
    r.explore("operation sequences", Opts::default(), || {
        let mut s = Stats::default();
        let mut frozen: Vec<(PopulatedStats, Values)> = Vec::new();
        let mut ops = String::new();
        for _ in 0..1 + choose(depth) {
            match choose(if frozen.is_empty() { 4 } else { 6 }) {
                k @ (0 | 1) => {
                    let x = if k == 0 { 1.5 } else { -2.25 * (s.count() as f64 + 1.0) };
                    ops += &format!(" record({x})");
                    s.record(x);
                }
                2 => {
                    ops += " snapshot";
                    match s.snapshot() {
                        None => ensure!(s.count() == 0, "{ops}: no snapshot of {s:?}"),
                        Some(p) => {
                            ensure!(s.count() != 0, "{ops}: snapshot of empty statistics");
                            ensure!(same_as_stats(&s, &p), "{ops}: snapshot {p:?} of {s:?}");
                            text(&p, Some(&s)).map_err(|m| format!("{ops}: {m}"))?;
                            let v = values(&p);
                            frozen.push((p, v));
                        }
                    }
                }
                3 => {
                    ops += " convert";
                    match PopulatedStats::try_from(s) {
                        Err(()) => ensure!(s.count() == 0, "{ops}: conversion of {s:?} failed"),
                        Ok(p) => {
                            ensure!(s.count() != 0, "{ops}: conversion of empty statistics succeeded");
                            ensure!(same_as_stats(&s, &p), "{ops}: conversion {p:?} of {s:?}");
                            let v = values(&p);
                            frozen.push((p, v));
                        }
                    }
                }
                k => {
                    let which = if flag() { 0 } else { frozen.len() - 1 };
                    let n = frozen[which].0.count();
                    let i = pick(&[0, n - 1, n, n + 1, usize::MAX]);
                    ops += &format!(" set_arg_{}({i}) of {which}", if k == 4 { "min" } else { "max" });
                    let mut p = frozen[which].0;
                    let res = catch(|| {
                        if k == 4 {
                            p.set_arg_min(i)
                        } else {
                            p.set_arg_max(i)
                        }
                        p
                    });
                    ensure!(res.is_ok() == (i < n), "{ops}: index {i} of {n} samples: {res:?}");
                    if let Ok(p) = res {
                        let v = &mut frozen[which].1;
                        if k == 4 {
                            v.2 = i
                        } else {
                            v.4 = i
                        }
                        frozen[which].0 = p;
                    } else {
                        ensure!(values(&p) == frozen[which].1, "{ops}: a refused index changed {p:?}");
                    }
                }
            }
            for (p, v) in &frozen {
                ensure!(values(p) == *v, "{ops}: snapshot {p:?} changed, expected {v:?}");
                text(p, None).map_err(|m| format!("{ops}: {m}"))?;
            }
        }
        if s.count() == 0 {
            ensure!(format!("{s}").is_empty() && format!("{s:.3}").is_empty(), "text {s} of empty statistics");
        }
        state(&ops);
        sample(|| ops.clone());
        Ok(())
    });
    r.explore("many samples", Opts::default(), || {
        let n = upto(1, 140, &[255, 256, 257, 1000, 65537]);
        let at = pick(&[1, n / 2 + 1, n]);
        let mut s = Stats::default();
        let mut snap = None;
        for i in 0..n {
            s.record(((i * 37) % 101) as f64 / 8.0 - 5.0);
            if i + 1 == at {
                let p = s.snapshot().ok_or("no snapshot")?;
                ensure!(same_as_stats(&s, &p), "snapshot {p:?} of {s:?}");
                snap = Some((p, values(&p)));
            }
        }
        let (p, v) = snap.unwrap();
        ensure!(values(&p) == v, "a snapshot changed");
        text(&p, None)?;
        text(&s.snapshot().unwrap(), Some(&s))?;
        state(&(n, at));
        Ok(())
    });
}

/// Judges the contents of a population made of `list` (individuals whose equality includes the fitness).
fn contents(list: &[F], pop: &[F]) -> Result<(), String> {
    ensure!(pop.windows(2).all(|w| w[0].fit <= w[1].fit), "not in ascending order of fitness: {pop:?}");
    // both sides as sorted sets
    let key = |i: &F| (i.id, (i.fit + 0.0).to_bits());
    let mut a: Vec<_> = list.iter().map(key).collect();
    a.sort();
    a.dedup();
    let mut b: Vec<_> = pop.iter().map(key).collect();
    b.sort();
    if let Some(w) = b.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("individual {} with fitness {} is contained twice", w[0].0, f64::from_bits(w[0].1)));
    }
    if a != b {
        let missing: Vec<_> = a.iter().filter(|x| b.binary_search(x).is_err()).take(3).map(|x| (x.0, f64::from_bits(x.1))).collect();
        let extra: Vec<_> = b.iter().filter(|x| a.binary_search(x).is_err()).take(3).map(|x| (x.0, f64::from_bits(x.1))).collect();
        return Err(format!("missing individuals {missing:?}, unexpected ones {extra:?}"));
    }
    Ok(())
}
fn whole(list: &[F], pop: Population<F>) -> Result<(), String> {
    contents(list, &pop)?;
    let max = list.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
    let f = pop.fittest();
    ensure!(f.fit == max && pop.iter().any(|i| std::ptr::eq(i, f)), "fittest individual {f:?}, but the maximum fitness is {max}");
    let members: Vec<F> = pop.to_vec();
    if flag() {
        let t = pop.take_fittest();
        ensure!(t.fit == max && members.contains(&t), "took {t:?} as the fittest, but the maximum fitness is {max}");
    } else {
        let v: Vec<F> = pop.into();
        ensure!(v == members, "converted into {v:?}");
    }
    Ok(())
}
/// By creation, conversion or replacement.
fn populate(list: &[F], how: usize) -> Result<Population<F>, String> {
    Ok(match how {
        0 => Population::new(list.to_vec()),
        1 => Population::try_from(list.to_vec()).map_err(|_| "the conversion was refused".to_string())?,
        _ => {
            let mut p = Population::new(vec![F { id: 1000, fit: 1.0 }, F { id: 1001, fit: 7.0 }]);
            let mut v = list.to_vec();
            p.replace(&mut v);
            p
        }
    })
}

pub fn p01(r: &Runner) {
    r.explore("short lists", Opts::default(), || {
        let n = 1 + choose(if r.thorough { 6 } else { 5 });
        let letters = [
            F { id: 0, fit: 1.0 },
            F { id: 1, fit: 1.0 },
            F { id: 2, fit: 1.0 },
            F { id: 0, fit: -2.5 },
            F { id: 3, fit: 4.0 },
        ];
        let list: Vec<F> = (0..n).map(|_| pick(&letters)).collect();
        let pop = populate(&list, choose(3)).map_err(|m| format!("{list:?}: {m}"))?;
        state(&list.iter().map(|i| (i.id, i.fit.to_bits())).collect::<Vec<_>>());
        sample(|| format!("{list:?} -> {:?}", &pop[..]));
        whole(&list, pop).map_err(|m| format!("{list:?}: {m}"))
    });
    r.explore("special scores", Opts::default(), || {
        let n = 1 + choose(4);
        let scores = [0.0, 5e-324, -5e-324, f64::MAX, f64::MIN, 1.0, 1.0 + f64::EPSILON];
        let list: Vec<F> = (0..n).map(|_| F { id: choose(2) as u32, fit: pick(&scores) }).collect();
        let pop = populate(&list, choose(3)).map_err(|m| format!("{list:?}: {m}"))?;
        state(&list.iter().map(|i| (i.id, i.fit.to_bits())).collect::<Vec<_>>());
        whole(&list, pop).map_err(|m| format!("{list:?}: {m}"))
    });
    r.explore("zeros of both signs", Opts::default(), || {
        let n = 1 + choose(5);
        let list: Vec<F> = (0..n).map(|_| F { id: choose(2) as u32, fit: pick(&[0.0, -0.0]) }).collect();
        let pop = populate(&list, choose(3)).map_err(|m| format!("{list:?}: {m}"))?;
        state(&list.iter().map(|i| (i.id, i.fit.to_bits())).collect::<Vec<_>>());
        whole(&list, pop).map_err(|m| format!("{list:?}: {m}"))
    });
    r.explore("long lists", Opts::default(), || {
        let n = upto(
            6,
            if r.thorough { 140 } else { 70 },
            if r.thorough { &[255, 256, 257, 1000, 1999, 2000, 2001, 2500, 4096, 4097, 10_001, 100_000, 100_001][..] } else { &[100, 128, 129, 256, 257, 1000, 2000, 2001, 2500, 4097, 10_001, 65_537][..] },
        );
        let ids = pick(&[1, 2, 5, 40, n]);
        let scores = pick(&[1, 2, 7, 40, n]);
        if n > 20_000 && scores != n && ids > 5 {
            // (many different individuals of one score: each is compared with all others)
            skip()
        }
        let order = choose(4);
        let list: Vec<F> = (0..n)
            .map(|i| {
                let k = match order {
                    0 => i,
                    1 => n - 1 - i,
                    2 => (i * 7919 + 13) % n,
                    _ => i / 2,
                };
                F { id: ((k * 31 + k / 3) % ids) as u32, fit: (k * scores / n) as f64 / 4.0 - 3.0 }
            })
            .collect();
        set_workers(pick(&[1, 4]));
        let (o, m) = pick(&[(0, false), (1, true)]);
        with(|c| {
            c.join_order = o;
            c.migrated = m;
        });
        let pop = populate(&list, choose(3)).map_err(|m| format!("{n} individuals: {m}"))?;
        state(&(n, ids, scores, order, pop.len()));
        whole(&list, pop).map_err(|m| format!("{n} individuals of {ids} kinds with {scores} scores in order {order}: {m}"))
    });
    r.explore("empty lists", Opts::default(), || {
        match choose(3) {
            0 => {
                let p = catch(|| Population::<F>::new(vec![]).len());
                ensure!(p.is_err(), "a population was created from nothing: {p:?}");
            }
            1 => {
                let e = catch(|| Population::<F>::try_from(vec![]).map(|p| p.len())).map_err(|m| format!("the conversion panicked: {m}"))?;
                match e {
                    Err(v) => ensure!(v.is_empty(), "the conversion of nothing returned {v:?}"),
                    Ok(n) => return Err(format!("nothing was converted into a population of {n}")),
                }
            }
            _ => {
                let mut p = Population::new(scored(&[1.0, 2.0][..1 + choose(2)]));
                let e = catch(|| p.replace(&mut vec![]));
                ensure!(e.is_err(), "a population was replaced by nothing");
            }
        }
        state(&0);
        Ok(())
    });
}

fn check_stats(pop: &Population<F>) -> Result<(), String> {
    let s = pop.stats();
    // scores are multiples of 1/4
    let x: Vec<i64> = pop.iter().map(|i| (i.fit * 4.0) as i64).collect();
    judge(&x, 0.25, s.count(), s.min(), s.arg_min(), s.max(), s.arg_max(), s.avg(), s.var(), s.std())
        .map_err(|m| format!("statistics of {:?}: {m}", pop.iter().map(|i| i.fit).take(20).collect::<Vec<_>>()))
}

pub fn p02(r: &Runner) {
    let depth = if r.thorough { 6 } else { 4 };
    let lists: [&[f64]; 8] = [&[1.0], &[3.0, 1.0], &[3.0], &[-1.0, -4.0, 2.0], &[5.0, 5.0, 0.25], &[3.0, 3.25, 2.0], &[1e6, 1e6 + 0.25, 1e6 - 0.75], &[-1e6, 1.0, 1.0]];
    let step = |pop: &mut Population<F>, list: Vec<F>, generation: usize, stagnation: &mut usize, what: &str| -> Result<(), String> {
        let old: Vec<F> = pop.to_vec();
        let best = old.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
        let new_best = list.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
        *stagnation = if new_best > best { 0 } else { *stagnation + 1 };
        let mut v = list.clone();
        pop.replace(&mut v);
        ensure!(pop.generation() == generation, "{what}: generation {}, expected {generation}", pop.generation());
        ensure!(pop.stagnation() == *stagnation, "{what}: stagnation {}, expected {stagnation}", pop.stagnation());
        contents(&list, pop).map_err(|m| format!("{what}: {m}"))?;
        check_stats(pop).map_err(|m| format!("{what}: {m}"))?;
        let sort = |mut v: Vec<F>| {
            v.sort_by(|a, b| (a.fit, a.id).partial_cmp(&(b.fit, b.id)).unwrap());
            v
        };
        let (h, o) = (sort(v), sort(old));
        ensure!(h == o, "{what}: the list handed back is {h:?}, expected {o:?}");
        Ok(())
    };
    r.explore("replacement histories", Opts::default(), || {
        let k = choose(lists.len());
        let mut hist = vec![k];
        let mut pop = if flag() { Population::new(scored(lists[k])) } else { Population::try_from(scored(lists[k])).map_err(|_| "refused")? };
        ensure!(pop.generation() == 0 && pop.stagnation() == 0, "a new population has generation {} and stagnation {}", pop.generation(), pop.stagnation());
        check_stats(&pop).map_err(|m| format!("{hist:?}: {m}"))?;
        let mut stagnation = 0;
        for g in 1..=choose(depth + 1) {
            let k = choose(lists.len());
            hist.push(k);
            step(&mut pop, scored(lists[k]), g, &mut stagnation, &format!("populations {hist:?}"))?;
        }
        state(&hist);
        sample(|| format!("populations {hist:?}: generation {}, stagnation {}", pop.generation(), pop.stagnation()));
        Ok(())
    });
    r.explore("special scores", Opts::default(), || {
        // the smallest possible progress, zeros of both signs, the ends of the range
        let lists: [&[f64]; 14] = [
            &[0.0], &[-0.0], &[-0.0, 0.0], &[5e-324], &[-5e-324, 0.0], &[-5e-324], &[1.0], &[1.0, 1.0 + f64::EPSILON], &[1.0 + 2.0 * f64::EPSILON], &[1e17], &[1e17 + 16.0], &[f64::MAX], &[f64::MIN, f64::MIN],
            &[f64::MIN, f64::MAX],
        ];
        let mut pop = Population::new(scored(&[0.0, -1.0]));
        let (mut hist, mut stagnation) = (vec![], 0);
        for g in 1..=if r.thorough { 4 } else { 3 } {
            let k = choose(lists.len());
            hist.push(lists[k]);
            let top = |p: &Population<F>| p.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
            let best = top(&pop);
            pop.replace(&mut scored(lists[k]));
            let now = lists[k].iter().copied().fold(f64::NEG_INFINITY, f64::max);
            stagnation = if now > best { 0 } else { stagnation + 1 };
            ensure!((pop.generation(), pop.stagnation()) == (g, stagnation), "after replacements by scores {hist:?}: generation {}, stagnation {}, expected {stagnation}", pop.generation(), pop.stagnation());
            ensure!(pop.stats().max() == now && pop.stats().count() == lists[k].len() && pop.stats().min() == pop[0].fit, "after replacements by scores {hist:?}: {:?}", pop.stats());
        }
        state(&format!("{hist:?}"));
        Ok(())
    });
    r.explore("long histories", Opts::default(), || {
        let shape = choose(6);
        let len = pick(&[70, 300, 1100]);
        let mut pop = Population::new(scored(&[0.0]));
        let mut stagnation = 0;
        for g in 1..=len {
            let f = match shape {
                0 => g as f64,
                1 => -(g as f64),
                2 => 0.0,
                3 => (g / 260) as f64,
                4 => (g % 7) as f64,
                _ => ((g * g) % 101) as f64,
            };
            let n = 1 + g % 4;
            let list = (0..n).map(|i| F { id: (g * 4 + i) as u32, fit: f - i as f64 * 0.25 }).collect();
            step(&mut pop, list, g, &mut stagnation, &format!("replacement {g} of shape {shape}"))?;
        }
        state(&(shape, len));
        Ok(())
    });
    r.explore("very long histories", Opts::default(), || {
        let len: usize = if r.thorough { 1 << 20 } else { 70_000 };
        let (shape, n) = (choose(3), 1 + choose(2));
        let mut pop = Population::new(scored(&[0.0]));
        let mut stagnation = 0;
        for g in 1..=len {
            let f = [g as f64, 0.0, -((g / 20_000) as f64)][shape];
            if shape == 0 {
                stagnation = 0
            } else {
                stagnation += 1
            }
            let mut list: Vec<F> = (0..n).map(|i| F { id: (g * 2 + i) as u32, fit: f - i as f64 }).collect();
            pop.replace(&mut list);
            ensure!(pop.generation() == g && pop.stagnation() == stagnation, "after {g} replacements of shape {shape}: generation {}, stagnation {}, expected {stagnation}", pop.generation(), pop.stagnation());
            ensure!(pop.len() == n && pop.stats().max() == f && pop.stats().count() == n, "after {g} replacements of shape {shape}: {} individuals with {:?}", pop.len(), pop.stats());
        }
        state(&(shape, n));
        Ok(())
    });
    r.explore("sizes", Opts::default(), || {
        let n = upto(1, if r.thorough { 300 } else { 130 }, &[1000, 1025]);
        let make = |n: usize, top: usize| -> Vec<F> { (0..n).map(|i| F { id: i as u32, fit: ((i * 7919) % (n + 3)) as f64 / 4.0 + top as f64 }).collect() };
        let mut pop = Population::new(make(n, 0));
        check_stats(&pop).map_err(|m| format!("{n} individuals: {m}"))?;
        let m = pick(&[n, n + 1, n.max(2) - 1, 2 * n, n / 2 + 1]);
        let mut stagnation = 0;
        for g in 1..=2 {
            let top = pick(&[0, 500]);
            step(&mut pop, make(if g == 1 { m } else { n }, top), g, &mut stagnation, &format!("{n} individuals, replacement {g} ({m}, {top})"))?;
        }
        state(&(n, m, stagnation));
        Ok(())
    });
    r.explore("large populations", Opts::default(), || {
        let mut pop = Population::new(scored(&[0.0]));
        let mut stagnation = 0;
        let mut hist = vec![];
        for g in 1..=3 {
            let n = pick(&[1, 33, 100, 129, 257, 2500]);
            let top = pick(&[0, 1000]);
            hist.push((n, top));
            let list = (0..n).map(|i| F { id: (i % 50) as u32, fit: ((i * 7919) % (n + 3)) as f64 / 4.0 + top as f64 }).collect();
            step(&mut pop, list, g, &mut stagnation, &format!("populations {hist:?}"))?;
        }
        state(&hist);
        Ok(())
    });
}

const SCORES: [f64; 14] = [
    0.0,
    -0.0,
    5e-324,
    -5e-324,
    1.0,
    1.0 + f64::EPSILON,
    1.0 - f64::EPSILON / 2.0,
    -1.0,
    f64::MAX,
    f64::MIN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::MIN_POSITIVE,
    0.1,
];
fn order(a: f64, b: f64) -> Ordering {
    if a < b {
        Ordering::Less
    } else if a > b {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}

pub fn w01(r: &Runner) {
    r.explore("pairs", Opts::default(), || {
        let (x, y) = (pick(&SCORES), pick(&SCORES));
        let e = order(x, y);
        let (a, b) = (F { id: choose(2) as u32, fit: x }, F { id: 1, fit: y });
        state(&(x.to_bits(), y.to_bits(), a.id));
        sample(|| format!("{x:e} and {y:e}: {e:?}"));
        ensure!(compare_fitness(&a, &b) == e, "compare_fitness of {x:e} and {y:e} is {:?}", compare_fitness(&a, &b));
        let (v, w) = (IndividualWrapper::from(a), IndividualWrapper::from(b));
        ensure!(v.cmp(&w) == e, "wrappers of {x:e} and {y:e}: cmp is {:?}", v.cmp(&w));
        ensure!(v.partial_cmp(&w) == Some(e), "wrappers of {x:e} and {y:e}: partial_cmp is {:?}", v.partial_cmp(&w));
        ensure!((v == w) == e.is_eq() && (v != w) == e.is_ne(), "wrappers of {x:e} and {y:e}: == is {}, != is {}", v == w, v != w);
        ensure!(
            (v < w) == e.is_lt() && (v <= w) == e.is_le() && (v > w) == e.is_gt() && (v >= w) == e.is_ge(),
            "wrappers of {x:e} and {y:e}: <, <=, >, >= are {}, {}, {}, {}",
            v < w,
            v <= w,
            v > w,
            v >= w
        );
        let (m, n) = (std::cmp::max(IndividualWrapper::from(a), IndividualWrapper::from(b)), std::cmp::min(IndividualWrapper::from(a), IndividualWrapper::from(b)));
        ensure!(m.fit == x.max(y) && n.fit == x.min(y), "max and min of {x:e} and {y:e} are {:e} and {:e}", m.fit, n.fit);
        Ok(())
    });
    r.explore("triples", Opts::default(), || {
        let s: Vec<f64> = (0..3).map(|_| pick(&SCORES)).collect();
        let w: Vec<IndividualWrapper<F>> = scored(&s).into_iter().map(Into::into).collect();
        state(&s.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        ensure!(!(w[0] <= w[1] && w[1] <= w[2]) || w[0] <= w[2], "not transitive: {s:?}");
        ensure!(!(w[0] == w[1] && w[1] == w[2]) || w[0] == w[2], "equality is not transitive: {s:?}");
        let i = scored(&s);
        let c = |a: usize, b: usize| compare_fitness(&i[a], &i[b]);
        ensure!(!(c(0, 1).is_le() && c(1, 2).is_le()) || c(0, 2).is_le(), "compare_fitness is not transitive: {s:?}");
        Ok(())
    });
    r.explore("sorting and heaps", Opts::default(), || {
        let n = choose(if r.thorough { 6 } else { 5 });
        let letters = [0.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, 1.0, 5e-324, -0.0];
        let s: Vec<f64> = (0..n).map(|_| pick(&letters)).collect();
        let mut e = s.clone();
        e.sort_by(|a, b| order(*a, *b));
        let wrap = || scored(&s).into_iter().map(IndividualWrapper::from);
        let mut v: Vec<_> = wrap().collect();
        v.sort();
        let got: Vec<f64> = v.into_iter().map(|w| w.take().fit).collect();
        ensure!(got == e, "sorting {s:?} gives {got:?}");
        let mut h: std::collections::BinaryHeap<_> = wrap().collect();
        let mut got = Vec::new();
        while let Some(w) = h.pop() {
            got.push(w.take().fit)
        }
        got.reverse();
        ensure!(got == e, "popping {s:?} from a heap gives, reversed, {got:?}");
        let mut v = scored(&s);
        v.sort_by(compare_fitness);
        ensure!(v.iter().map(|i| i.fit).eq(e.iter().copied()), "sorting {s:?} with compare_fitness gives {v:?}");
        state(&s.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        Ok(())
    });
    r.explore("long lists", Opts::default(), || {
        let n = upto(5, 70, &[100, 257, 2500, 10_000]);
        let k = pick(&[3, 17, 1000]);
        let s: Vec<f64> = (0..n).map(|i| ((i * 7919 + 5) % k) as f64 - 2.0).collect();
        let mut e = s.clone();
        e.sort_by(|a, b| order(*a, *b));
        let mut v: Vec<_> = scored(&s).into_iter().map(IndividualWrapper::from).collect();
        v.sort_unstable();
        ensure!(v.iter().map(|w| w.fit).eq(e.iter().copied()), "sorting {n} wrappers of {k} scores fails");
        let mut h: std::collections::BinaryHeap<_> = v.into_iter().collect();
        let mut last = f64::INFINITY;
        let mut count = 0;
        while let Some(w) = h.pop() {
            ensure!(w.fit <= last, "a heap of {n} wrappers of {k} scores pops {} after {last}", w.fit);
            last = w.fit;
            count += 1;
        }
        ensure!(count == n, "{count} of {n} wrappers popped");
        state(&(n, k));
        Ok(())
    });
    r.explore("scores that are not numbers", Opts::default(), || {
        let x = pick(&SCORES);
        let (a, b) = match choose(3) {
            0 => (x, f64::NAN),
            1 => (f64::NAN, x),
            _ => (f64::NAN, -f64::NAN),
        };
        state(&(a.to_bits(), b.to_bits()));
        let res = catch(|| {
            let (i, j) = (F { id: 0, fit: a }, F { id: 1, fit: b });
            let _ = compare_fitness(&i, &j);
            let (v, w) = (IndividualWrapper::from(i), IndividualWrapper::from(j));
            let _ = (v.cmp(&w), v.partial_cmp(&w), v == w, v != w, v < w, v <= w, v > w, v >= w);
            let _ = v.max(w);
        });
        ensure!(res.is_ok(), "comparing {a} and {b} panicked: {res:?}");
        Ok(())
    });
    r.explore("access to the individual", Opts::default(), || {
        let k = Kind { kind: choose(3) as u32, serial: choose(3) as u32, fit: pick(&[1.0, f64::NAN, -0.0]) };
        let mut w = IndividualWrapper::from(k.clone());
        ensure!(w.serial == k.serial && w.kind == k.kind && w.fit.to_bits() == k.fit.to_bits(), "a wrapper of {k:?} gives access to {:?}", *w);
        let changed = flag();
        if changed {
            w.serial += 7;
            w.fit = 3.0;
        }
        // comparisons see the present score
        let now = if changed { 3.0 } else { k.fit };
        for other in [f64::NEG_INFINITY, 0.0, 1.0, 2.0, 3.0, 4.0] {
            let mut v = IndividualWrapper::from(Kind { kind: 0, serial: 0, fit: 1.5 });
            v.fit = other;
            let got = (w.partial_cmp(&v), w.cmp(&v), w == v, w < v, w >= v);
            let expected = (now.partial_cmp(&other), now.partial_cmp(&other).unwrap_or(Ordering::Equal), now == other, now < other, now >= other);
            ensure!(
                got == expected || now.is_nan(),
                "wrappers whose scores were changed from {} and 1.5 to {now} and {other} compare like {got:?}, expected {expected:?}", k.fit
            );
        }
        let serial = w.serial;
        let t = w.take();
        state(&(k.kind, k.serial, changed));
        ensure!(serial == k.serial + if changed { 7 } else { 0 }, "a change through the wrapper is lost");
        ensure!(
            t.kind == k.kind && t.serial == serial && t.fit.to_bits() == if changed { 3f64.to_bits() } else { k.fit.to_bits() },
            "a wrapper of {k:?} returns {t:?}"
        );
        Ok(())
    });
}

pub fn i01(r: &Runner) {
    let ratios = |grid: usize| -> Vec<f64> {
        let mut v = vec![0.0, 5e-324, 1e-300, 1e-17, 1e-9, next_down(0.5), next_up(0.5), 1.0 / 3.0, 0.1, 0.01, 0.99, 0.7, 1.0 - 1e-9, BELOW_ONE, 1.0];
        v.extend((0..=grid).map(|i| i as f64 / grid as f64));
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        v
    };
    let all = ratios(if r.thorough { 1024 } else { 128 });
    r.explore("floats", Opts::default(), || {
        let ends = [0.0f64, 1.0, 0.3, 0.8, -1.0, -7.5, 1e-300, 5e-324, 1e15, 1e300, -1e300, 0.1, 123456.789, -1e-9];
        let (a, b) = (pick(&ends), pick(&ends));
        if a > b {
            skip()
        }
        let scale = a.abs().max(b.abs());
        let tol = 4.0 * f64::EPSILON * scale + 1e-320;
        let f = |q: f64| interpolate_f64(a, b, q);
        ensure!((f(0.0) - a).abs() <= 0.0, "ratio 0 between {a:e} and {b:e} gives {:e}", f(0.0));
        ensure!((f(1.0) - b).abs() <= tol, "ratio 1 between {a:e} and {b:e} gives {:e}", f(1.0));
        let mut last = f64::NEG_INFINITY;
        for &q in &all {
            let x = f(q);
            ensure!(x >= a - tol && x <= b + tol, "ratio {q:e} between {a:e} and {b:e} gives {x:e}");
            ensure!(x >= last - tol, "not monotone between {a:e} and {b:e}: ratio {q:e} gives {x:e} after {last:e}");
            let e = a * (1.0 - q) + b * q;
            ensure!((x - e).abs() <= 2.0 * tol, "ratio {q:e} between {a:e} and {b:e} gives {x:e}, expected {e:e}");
            last = x;
            state(&(x.to_bits(), q.to_bits()));
        }
        sample(|| format!("{} ratios between {a:e} and {b:e}", all.len()));
        Ok(())
    });
    r.explore("integers", Opts::default(), || {
        let ends = [0usize, 1, 2, 3, 10, 63, 64, 99, 100, 255, 256, 257, 1000, 65536, 1 << 32, (1 << 53) - 1];
        let (a, b) = (pick(&ends), pick(&ends));
        if a > b {
            skip()
        }
        let f = |q: f64| interpolate_usize(a, b, q);
        ensure!(f(0.0) == a, "ratio 0 between {a} and {b} gives {}", f(0.0));
        ensure!(f(1.0) == b, "ratio 1 between {a} and {b} gives {}", f(1.0));
        let mut last = 0;
        for &q in &all {
            let x = f(q);
            ensure!(x >= a && x <= b, "ratio {q:e} between {a} and {b} gives {x}");
            ensure!(x >= last, "not monotone between {a} and {b}: ratio {q:e} gives {x} after {last}");
            last = x;
            // the integer part of the exact value, or of one that differs by rounding only
            let e = a as f64 + (b - a) as f64 * q;
            let slack = 4.0 * f64::EPSILON * b as f64;
            ensure!(x as f64 >= (e - slack).floor() && x as f64 <= (e + slack).floor(), "ratio {q:e} between {a} and {b} gives {x}, expected the integer part of {e}");
            state(&(a, b, x));
        }
        Ok(())
    });
    r.explore("integers, exact fractions", Opts::default(), || {
        let n = if flag() { choose(300) } else { pick(&[1000, 1024, 4096, 65535, 65536, 1_000_000]) };
        let a = pick(&[0, 1, 7, 100, 1 << 20]);
        for k in 0..=64usize {
            let x = interpolate_usize(a, a + n, k as f64 / 64.0);
            ensure!(x == a + n * k / 64, "ratio {k}/64 between {a} and {} gives {x}, expected {}", a + n, a + n * k / 64);
            state(&(a, n, x));
        }
        Ok(())
    });
}
