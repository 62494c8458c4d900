use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::util::*;
use rusty_genes::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Swap,
    Scramble,
    Inversion,
    Insertion,
    Duplicate,
}
use Op::*;
const OPS: [Op; 5] = [Swap, Scramble, Inversion, Insertion, Duplicate];

fn apply<G: Copy>(op: Op, strategy: bool, g: &mut [G]) {
    let rng = &mut McRng::new();
    if strategy {
        match op {
            Swap => MutationStrategy::Swap,
            Scramble => MutationStrategy::Scramble,
            Inversion => MutationStrategy::Inversion,
            Insertion => MutationStrategy::Insertion,
            Duplicate => MutationStrategy::Duplicate,
        }
        .mutate(g, rng)
    } else {
        match op {
            Swap => swap_mutation(g, rng),
            Scramble => scramble_mutation(g, rng),
            Inversion => inversion_mutation(g, rng),
            Insertion => insertion_mutation(g, rng),
            Duplicate => duplicate_mutation(g, rng),
        }
    }
}

/// All results of one permitted edit (for scramble: not enumerated, see `well_formed`).
fn edits<G: Clone + PartialEq>(op: Op, g: &[G]) -> Vec<Vec<G>> {
    let n = g.len();
    let mut out = Vec::new();
    for i in 0..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            let mut h = g.to_vec();
            match op {
                Swap => h.swap(i, j),
                Inversion if i < j => h[i..=j].reverse(),
                Insertion => {
                    let x = h.remove(i);
                    h.insert(j, x);
                }
                Duplicate => h[j] = g[i].clone(),
                _ => continue,
            }
            out.push(h);
        }
    }
    out
}
fn well_formed<G: Clone + PartialEq + std::fmt::Debug>(op: Op, g: &[G], h: &[G]) -> bool {
    if g.len() < 2 {
        return g == h;
    }
    match op {
        Scramble => is_permutation_of(h, g),
        _ => edits(op, g).iter().any(|e| e == h),
    }
}
/// The same for distinct genes, fast.
fn well_formed_distinct(op: Op, g: &[usize], h: &[usize]) -> bool {
    let n = g.len();
    if h.len() != n {
        return false;
    }
    let diff: Vec<usize> = (0..n).filter(|&i| g[i] != h[i]).collect();
    if op == Scramble {
        let mut s = h.to_vec();
        s.sort();
        let mut t = g.to_vec();
        t.sort();
        return s == t;
    }
    if op == Duplicate {
        return diff.len() == 1 && g.contains(&h[diff[0]]);
    }
    if diff.len() < 2 {
        return false;
    }
    let (a, b) = (diff[0], diff[diff.len() - 1]);
    let (x, y) = (&g[a..=b], &h[a..=b]);
    let k = x.len();
    match op {
        Swap => diff.len() == 2 && x[0] == y[k - 1] && x[k - 1] == y[0],
        Inversion => (0..k).all(|i| x[i] == y[k - 1 - i]),
        _ => x[1..] == y[..k - 1] && x[0] == y[k - 1] || x[..k - 1] == y[1..] && x[k - 1] == y[0],
    }
}

pub fn m01(r: &Runner) {
    r.explore("short genomes", Opts::default(), || {
        let n = choose(if r.thorough { 7 } else { 6 });
        let op = pick(&OPS);
        let strategy = flag();
        let g: Vec<u8> = match choose(4) {
            0 => (0..n as u8).collect(),
            1 => (0..n).map(|i| (i % 2) as u8).collect(),
            2 => vec![7; n],
            _ => (0..n).map(|i| (i * i % 3) as u8).collect(),
        };
        let mut h = g.clone();
        if let Err(m) = catch(|| apply(op, strategy, &mut h)) {
            return Err(format!("{op:?} of {g:?} panicked: {m}"));
        }
        class(&format!("{op:?}"));
        state(&(op as u8, &g, &h));
        sample(|| format!("{op:?} {g:?} -> {h:?}"));
        ensure!(well_formed(op, &g, &h), "{op:?} changes {g:?} to {h:?}, which is not one edit of its kind");
        Ok(())
    });
    r.explore("genes that cannot be copied", Opts::default(), || {
        let n = choose(5);
        let op = pick(&OPS[..4]);
        let g: Vec<String> = (0..n).map(|i| format!("gene {}", i % 3)).collect();
        let mut h = g.clone();
        let rng = &mut McRng::new();
        let res = catch(|| match op {
            Swap => swap_mutation(&mut h, rng),
            Scramble => scramble_mutation(&mut h, rng),
            Inversion => inversion_mutation(&mut h, rng),
            _ => insertion_mutation(&mut h, rng),
        });
        ensure!(res.is_ok(), "{op:?} of {g:?} panicked: {res:?}");
        state(&(op as u8, &g, &h));
        ensure!(well_formed(op, &g, &h), "{op:?} changes {g:?} to {h:?}, which is not one edit of its kind");
        Ok(())
    });
    r.explore("middle-sized genomes", Opts::default(), || {
        let op = pick(&[Swap, Inversion, Insertion, Duplicate]);
        let n = pick(&(7..=if r.thorough { 96 } else { 66 }).collect::<Vec<_>>());
        let g: Vec<usize> = (0..n).collect();
        let mut h = g.clone();
        if let Err(m) = catch(|| apply(op, flag(), &mut h)) {
            return Err(format!("{op:?} of {n} genes panicked: {m}"));
        }
        state(&(op as u8, &h));
        ensure!(well_formed_distinct(op, &g, &h), "{op:?} changes {g:?} to {h:?}, which is not one edit of its kind");
        Ok(())
    });
    r.explore("long genomes", Opts::default(), || {
        let op = pick(&OPS);
        let n = pick(&[9, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 1000, 1024, 1025, 5000]);
        let p = pick(&[
            Pattern::Zero, Pattern::Max, Pattern::Alternate, Pattern::Const(0.5), Pattern::Const(0.3), Pattern::Const(0.9),
            Pattern::Weyl(1), Pattern::Weyl(2), Pattern::Weyl(3), Pattern::Weyl(4), Pattern::Weyl(5), Pattern::Weyl(6),
        ]);
        let g: Vec<usize> = (0..n).collect();
        let mut h = g.clone();
        let strategy = flag();
        set_pattern(Some(p));
        let res = catch(|| apply(op, strategy, &mut h));
        set_pattern(None);
        ensure!(res.is_ok(), "{op:?} of {n} genes panicked: {res:?}");
        state(&(op as u8, &h));
        let ok = well_formed_distinct(op, &g, &h) || (op == Scramble && h == g);
        ensure!(ok, "{op:?} of 0..{n} with draws {p:?} gives {h:?}, which is not one edit of its kind");
        Ok(())
    });
    r.explore("huge genomes", Opts::default(), || {
        let op = pick(&OPS);
        let n = pick(&[65_535usize, 65_536, 65_537, 100_000]);
        let p = pick(&[Pattern::Zero, Pattern::Max, Pattern::Alternate, Pattern::Const(0.3), Pattern::Const(0.9), Pattern::Weyl(1), Pattern::Weyl(2), Pattern::Weyl(3)]);
        let g: Vec<usize> = (0..n).collect();
        let mut h = g.clone();
        let strategy = flag();
        set_pattern(Some(p));
        let res = catch(|| apply(op, strategy, &mut h));
        set_pattern(None);
        ensure!(res.is_ok(), "{op:?} of {n} genes panicked: {res:?}");
        state(&(op as u8, &h));
        let ok = well_formed_distinct(op, &g, &h) || (op == Scramble && h == g);
        ensure!(ok, "{op:?} of 0..{n} with draws {p:?} is not one edit of its kind");
        Ok(())
    });
    r.explore("draws deviating from patterns", Opts::default(), || deviating(r));
}

/// Every single draw (and, for short genomes, every two draws) may differ from a pattern of draws.
fn deviating(r: &Runner) -> Result<(), String> {
    let op = pick(&OPS);
    let two = flag();
    let sizes: Vec<usize> = match (two, r.thorough) {
        (true, false) => (6..=12).collect(),
        (true, true) => (6..=20).collect(),
        (false, false) => (6..=48).chain([64, 65, 100, 128, 129, 257]).collect(),
        (false, true) => (6..=130).chain([200, 255, 256, 257, 500]).collect(),
    };
    let n = pick(&sizes);
    let p = pick(&BASES);
    let g: Vec<usize> = (0..n).collect();
    let mut h = g.clone();
    set_pattern(Some(p));
    set_deviations(1 + two as u32);
    // rejection sampling need not come to an end with such draws
    with(|c| c.max_draws = c.draws + n as u64 + 16);
    let res = catch(|| apply(op, false, &mut h));
    set_pattern(None);
    ensure!(res.is_ok(), "{op:?} of {n} genes panicked: {res:?}");
    state(&(op as u8, &h));
    let ok = well_formed_distinct(op, &g, &h) || (op == Scramble && h == g);
    ensure!(ok, "{op:?} of 0..{n} gives {h:?}, which is not one edit of its kind");
    Ok(())
}
const BASES: [Pattern; 6] = [Pattern::Zero, Pattern::Max, Pattern::Alternate, Pattern::Const(0.5), Pattern::Weyl(1), Pattern::Weyl(2)];

fn expected(op: Op, g: &[u8]) -> BTreeMap<Vec<u8>, f64> {
    let n = g.len();
    let mut e = BTreeMap::new();
    if n < 2 {
        e.insert(g.to_vec(), 1.0);
        return e;
    }
    match op {
        Inversion | Scramble => {
            for l in 2..=n {
                for s in 0..=n - l {
                    let w = 1.0 / (n - 1) as f64 / (n - l + 1) as f64;
                    let mut h = g.to_vec();
                    if op == Inversion {
                        h[s..s + l].reverse();
                        add(&mut e, h, w);
                    } else {
                        let f = factorial(l);
                        for k in 0..f {
                            for (i, x) in permutation(l, k).into_iter().enumerate() {
                                h[s + i] = g[s + x];
                            }
                            add(&mut e, h.clone(), w / f as f64);
                        }
                    }
                }
            }
        }
        _ => {
            let all = edits(op, g);
            let w = 1.0 / all.len() as f64;
            for h in all {
                add(&mut e, h, w);
            }
        }
    }
    e
}
fn mutation_dist(op: Op, strategy: bool, g: &[u8]) -> Result<(), String> {
    let e = expected(op, g);
    let d = dist(DistOpts::default(), || {
        let mut h = g.to_vec();
        apply(op, strategy, &mut h);
        h
    });
    class(&format!("{op:?}"));
    state(&(op as u8, g));
    for h in d.p.keys() {
        state(h);
    }
    sample(|| format!("{op:?} of {g:?}: {} outcomes over {} draw sequences", d.p.len(), d.runs));
    d.compare(&e).map_err(|m| format!("{op:?} of {g:?}: {m}"))
}

pub fn m02(r: &Runner) {
    r.explore("scramble", Opts::default(), || {
        let n = choose(if r.thorough { 9 } else { 8 });
        mutation_dist(Scramble, flag(), &(0..n as u8).collect::<Vec<_>>())
    });
    r.explore("swap, inversion, insertion, duplicate", Opts::default(), || {
        let sizes: Vec<usize> = if r.thorough { (0..=64).chain([100, 128, 129, 200, 255]).collect() } else { (0..=48).chain([63, 64, 65, 100, 128, 129]).collect() };
        let n = pick(&sizes);
        mutation_dist(pick(&[Swap, Inversion, Insertion, Duplicate]), flag(), &(0..n as u8).collect::<Vec<_>>())
    });
    r.explore("large genomes", Opts::default(), || {
        let n: usize = pick(if r.thorough { &[66, 130, 200, 255, 256, 257, 258, 300, 400, 513][..] } else { &[130, 255, 256, 257, 258, 300] });
        let op = pick(&[Swap, Inversion, Insertion, Duplicate]);
        let strategy = flag();
        // an outcome is told by the first and the last position that change, and the genes there afterwards
        let mut e = BTreeMap::new();
        if op == Inversion {
            for l in 2..=n {
                for s in 0..=n - l {
                    add(&mut e, [s, s + l - 1, s + l - 1, s], 1.0 / (n - 1) as f64 / (n - l + 1) as f64);
                }
            }
        } else {
            for i in 0..n {
                for j in 0..n {
                    if i == j {
                        continue;
                    }
                    let k = match op {
                        Swap => [i.min(j), i.max(j), i.max(j), i.min(j)],
                        Insertion if i < j => [i, i + 1, j, i],
                        Insertion => [j, i, i, i - 1],
                        _ => [j, i, j, i],
                    };
                    add(&mut e, k, 1.0 / (n * (n - 1)) as f64);
                }
            }
        }
        let d = dist(DistOpts::default(), || {
            let mut h: Vec<usize> = (0..n).collect();
            apply(op, strategy, &mut h);
            let a = h.iter().enumerate().position(|(i, &x)| i != x).unwrap_or(0);
            let b = h.iter().enumerate().rposition(|(i, &x)| i != x).unwrap_or(0);
            [a, h[a], b, h[b]]
        });
        class(&format!("{op:?}"));
        for o in d.p.keys() {
            state(&(op as u8, n, o));
        }
        sample(|| format!("{op:?} of {n} genes: {} outcomes over {} draw sequences", d.p.len(), d.runs));
        d.compare(&e).map_err(|m| format!("{op:?} of 0..{n}, [first changed position, gene there, last changed position, gene there]: {m}"))
    });
    r.explore("scramble moves every gene everywhere", Opts::default(), || {
        // more orders than can be enumerated: those of draws that differ from some patterns in up to two places
        let n = 8 + choose(if r.thorough { 33 } else { 17 });
        let mut reached = vec![vec![false; n]; n];
        for p in BASES.into_iter().chain((3..40).map(Pattern::Weyl)) {
            let d = dist(DistOpts::default(), || {
                set_pattern(Some(p));
                set_deviations(if n <= 16 { 2 } else { 1 });
                let mut h: Vec<u8> = (0..n as u8).collect();
                scramble_mutation(&mut h, &mut McRng::new());
                h
            });
            for h in d.p.keys() {
                for (j, &i) in h.iter().enumerate() {
                    reached[i as usize][j] = true;
                }
            }
            if reached.iter().flatten().all(|x| *x) {
                break;
            }
        }
        state(&n);
        for i in 0..n {
            for j in 0..n {
                ensure!(reached[i][j], "no explored scramble mutation of {n} genes moves the gene at {i} to {j}");
            }
        }
        Ok(())
    });
    r.explore("repeated genes", Opts::default(), || {
        let n = choose(6);
        let g: Vec<u8> = (0..n).map(|_| choose(2) as u8).collect();
        mutation_dist(pick(&OPS), flag(), &g)
    });
}

pub fn r01(r: &Runner) {
    let sizes: Vec<usize> = if r.thorough { (1..=300).chain([512, 513, 1000, 1023, 1024, 1025]).collect() } else { (1..=100).chain([127, 128, 129, 200, 255, 256, 257, 300, 512]).collect() };
    r.explore("random_pair", Opts::default(), || {
        let n = pick(&sizes);
        if n < 2 {
            let o = catch(|| random_pair(n, &mut McRng::new()));
            ensure!(o.is_err(), "random_pair({n}) gives {o:?}");
            let o = catch(|| random_pair(0, &mut McRng::new()));
            ensure!(o.is_err(), "random_pair(0) gives {o:?}");
            return Ok(());
        }
        let mut e = BTreeMap::new();
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    add(&mut e, (i, j), 1.0 / (n * (n - 1)) as f64);
                }
            }
        }
        let d = dist(DistOpts::default(), || random_pair(n, &mut McRng::new()));
        for o in d.p.keys() {
            state(&(n, o));
        }
        sample(|| format!("random_pair({n}): {} outcomes", d.p.len()));
        d.compare(&e).map_err(|m| format!("random_pair({n}): {m}"))
    });
    let ranges = |lo: usize, hi: usize, n: usize| {
        let mut e = BTreeMap::new();
        for l in lo..=hi {
            for s in 0..=n - l {
                add(&mut e, (s, s + l), 1.0 / (hi - lo + 1) as f64 / (n - l + 1) as f64);
            }
        }
        e
    };
    r.explore("random_range", Opts::default(), || {
        let n = pick(&sizes);
        let o = catch(|| random_range(0, &mut McRng::new()));
        ensure!(o.is_err(), "random_range(0) gives {o:?}");
        let d = dist(DistOpts::default(), || {
            let x = random_range(n, &mut McRng::new());
            (x.start, x.end)
        });
        for o in d.p.keys() {
            state(&(n, o));
        }
        sample(|| format!("random_range({n}): {} outcomes", d.p.len()));
        d.compare(&ranges(1, n, n)).map_err(|m| format!("random_range({n}): {m}"))
    });
    r.explore("bounded_random_range", Opts::default(), || {
        let n = choose(if r.thorough { 41 } else { 25 });
        let lo = choose(n + 2);
        let hi = choose(n + 1);
        if lo > hi {
            let o = catch(|| bounded_random_range(n, lo, hi, &mut McRng::new()));
            ensure!(o.is_err(), "bounded_random_range({n}, {lo}, {hi}) gives {o:?}");
            return Ok(());
        }
        let d = dist(DistOpts::default(), || {
            let x = bounded_random_range(n, lo, hi, &mut McRng::new());
            (x.start, x.end)
        });
        for o in d.p.keys() {
            state(&(n, lo, hi, o));
        }
        sample(|| format!("bounded_random_range({n}, {lo}, {hi}): {} outcomes", d.p.len()));
        d.compare(&ranges(lo, hi, n)).map_err(|m| format!("bounded_random_range({n}, {lo}, {hi}): {m}"))
    });
    r.explore("distribution of large numbers", Opts::default(), || {
        let n = pick(&[70_000usize, 1 << 20, (1 << 24) + 3, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) + 1, (1 << 32) + (1 << 31), 1 << 40, 1 << 52]);
        let part = |x: usize, of: usize| ((x as f64 / of as f64 * 4.0) as usize).min(3);
        let opts = DistOpts { k: Some(128), ..Default::default() };
        let kind = choose(3);
        let d = match kind {
            0 => dist(opts, || {
                let (a, b) = random_pair(n, &mut McRng::new());
                (part(a, n), part(b, n))
            }),
            _ => {
                let (lo, hi) = if kind == 1 { (1, n) } else { (n / 4, n / 2) };
                dist(opts, || {
                    let x = if kind == 1 { random_range(n, &mut McRng::new()) } else { bounded_random_range(n, lo, hi, &mut McRng::new()) };
                    if x.start > x.end || x.end > n || x.len() < lo || x.len() > hi {
                        violate(format!("range {x:?} of {n} with a length in {lo}..={hi}"));
                        return (0, 0);
                    }
                    // where the start is among those possible
                    (part(x.len() - lo, hi - lo), part(x.start, n - x.len() + 1))
                })
            }
        };
        let mut e = BTreeMap::new();
        for i in 0..4 {
            for j in 0..4 {
                add(&mut e, (i, j), 1.0 / 16.0);
            }
        }
        for o in &d.p {
            state(&(n, kind, o.0));
        }
        let what = ["random_pair", "random_range", "bounded_random_range, a quarter to a half of"][kind];
        sample(|| format!("{what} {n}: quarters of the two {:.3?}", d.p));
        d.compare(&e).map_err(|m| format!("{what} {n}, quarters of the two numbers, or of the length and the start: {m}"))
    });
    r.explore("large numbers", Opts::default(), || {
        let n = pick(&[1000usize, 4096, 65535, 65536, 65537, 1 << 20, (1 << 32) - 1, 1 << 32, (1 << 32) + 1]);
        let p = pick(&[
            Pattern::Zero, Pattern::Max, Pattern::Alternate, Pattern::Const(0.5), Pattern::Const(0.25), Pattern::Const(0.75),
            Pattern::Weyl(1), Pattern::Weyl(2), Pattern::Weyl(3), Pattern::Weyl(4),
        ]);
        set_pattern(Some(p));
        let (a, b) = random_pair(n, &mut McRng::new());
        ensure!(a != b && a < n && b < n, "random_pair({n}) gives ({a}, {b})");
        let x = random_range(n, &mut McRng::new());
        ensure!(x.start < x.end && x.end <= n, "random_range({n}) gives {x:?}");
        let y = bounded_random_range(n, n / 2, n / 2 + 1, &mut McRng::new());
        ensure!(y.end <= n && (y.len() == n / 2 || y.len() == n / 2 + 1), "bounded_random_range({n}, ..) gives {y:?}");
        state(&(n, a, b, x.start, x.end));
        Ok(())
    });
}
