use crate::engine::*;
use crate::ensure;
use crate::hook::McRng;
use crate::util::*;
use rusty_genes::*;
use std::collections::BTreeMap;
use std::ops::Range;

/// A pair of parents: all pairs up to length `full`, longer ones with the first parent fixed.
fn pair(max: usize, full: usize) -> (Vec<usize>, Vec<usize>) {
    let n = choose(max + 1);
    let a = if n <= full { choose(factorial(n)) } else { 0 };
    let b = choose(factorial(n));
    (permutation(n, a), permutation(n, b))
}
const HUGE: &[usize] = &[511, 512, 513, 1000, 1024, 1025, 2049];
fn huge_pair(families: &[usize]) -> (Vec<usize>, Vec<usize>) {
    let n = pick(HUGE);
    (family(n, pick(&[0, 9])), family(n, pick(families)))
}
const HUGE_LENGTHS: [usize; 3] = [66_001, 65_537, 70_000];
const LARGE: &[usize] = &[9, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];
fn large_pair(sizes: &[usize]) -> (Vec<usize>, Vec<usize>) {
    let n = pick(sizes);
    let a = pick(&[0, 1, 9]);
    let b = choose(FAMILIES);
    (family(n, a), family(n, b))
}
/// Every length from 7 to 72 (thorough: 160) with the structured permutations.
fn middle_pair(r: &Runner) -> (Vec<usize>, Vec<usize>) {
    let n = 7 + choose(if r.thorough { 154 } else { 66 });
    let a = pick(&[0, 9]);
    let b = choose(FAMILIES);
    (family(n, a), family(n, b))
}
fn any_range(n: usize) -> Range<usize> {
    let s = choose(n + 1);
    let l = choose(n - s + 1);
    s..s + l
}
fn large_range(n: usize) -> Range<usize> {
    match choose(9) {
        0 => 0..n,
        1 => 0..1,
        2 => n - 1..n,
        3 => 1..n - 1,
        4 => n / 3..2 * n / 3,
        5 => n / 2..n,
        6 => 0..n / 2,
        7 => n / 2..n / 2,
        _ => n / 2..n / 2 + 1,
    }
}
fn called<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    catch(f).map_err(|e| format!("{} panicked: {}", what(), e))
}

fn closed<G: Gene>(op: &str, a: &[G], b: &[G], param: String, f: impl FnOnce() -> Vec<G>) -> Result<(), String> {
    let o = called(|| format!("{op} of {a:?} and {b:?} with {param}"), f)?;
    ensure!(is_permutation_of(&o, a), "{op} of {a:?} and {b:?} with {param} gives {o:?}, which is not a permutation");
    state(&(op, format!("{a:?}{b:?}{param}{o:?}")));
    sample(|| format!("{op} {a:?} x {b:?} ({param}) -> {o:?}"));
    Ok(())
}

fn hashing_op<G: Gene>(a: &[G], b: &[G], pivots: &[usize], selector: impl Fn(usize) -> usize) -> Result<(), String> {
    let n = a.len();
    match choose(3) {
        0 => {
            class("GPX2");
            closed("GPX2", a, b, "selector".into(), || {
                generalized_partition_2_crossover(a, b, |_, p| selector(p.len()))
            })
        }
        k => {
            // a genome without genes has no pivot; any value may be passed
            let pivot = if n == 0 { G::of(0) } else { a[pick(pivots)] };
            if k == 1 {
                class("SCX");
                closed("SCX", a, b, format!("pivot {pivot:?}"), || sequential_constructive_crossover(a, b, pivot))
            } else {
                class("ERX");
                closed("ERX", a, b, format!("pivot {pivot:?}"), || edge_recombination_crossover(a, b, pivot))
            }
        }
    }
}
fn hashing<G: Gene>(a: &[usize], b: &[usize]) -> Result<(), String> {
    let all: Vec<usize> = (0..a.len()).collect();
    hashing_op::<G>(&genes(a), &genes(b), &all, choose)
}
fn positional_op<G: Gene>(a: &[G], b: &[G], range: impl Fn(usize) -> Range<usize>) -> Result<(), String> {
    match choose(3) {
        0 => {
            let r = range(a.len());
            closed("PMX", a, b, format!("{r:?}"), || partially_mapped_crossover(a, b, r.clone()))
        }
        1 => {
            let r = range(a.len());
            closed("OX", a, b, format!("{r:?}"), || order_crossover(a, b, r.clone()))
        }
        _ => closed("CX", a, b, "-".into(), || cycle_crossover(a, b)),
    }
}

/// Genes 0..n in the order of the first parent, and where each gene stands in the second one.
fn places(b: &[usize]) -> Vec<usize> {
    let mut at = vec![0; b.len()];
    b.iter().enumerate().for_each(|(i, &g)| at[g] = i);
    at
}
fn huge_range(n: usize) -> Range<usize> {
    pick(&[0..n, 1..n, 0..n - 1, n - 3..n, n / 2..n / 2 + 2, n - 1..n, n / 2..n, 1..n / 4])
}
/// PMX, OX, CX and SPX of the parents 0..n and b, calculated with tables of positions.
fn huge_positions(n: usize) -> Result<(), String> {
    let k = pick(&[1, 3, 9]);
    let (a, b) = (family(n, 0), family(n, k));
    let op = choose(4);
    let range = if op < 2 { huge_range(n) } else { 0..0 };
    let point = if op == 3 { pick(&[0, 1, n / 2, n - 2, n - 1, n]) } else { 0 };
    let what = format!("{} of {n} genes (family {k}, {range:?}, point {point})", ["PMX", "OX", "CX", "SPX"][op]);
    let o = called(
        || what.clone(),
        || match op {
            0 => partially_mapped_crossover(&a, &b, range.clone()),
            1 => order_crossover(&a, &b, range.clone()),
            2 => cycle_crossover(&a, &b),
            _ => single_point_crossover(&a, &b, point),
        },
    )?;
    let e: Vec<usize> = match op {
        0 => (0..n)
            .map(|i| {
                let mut g = if range.contains(&i) { i } else { b[i] };
                while !range.contains(&i) && range.contains(&g) {
                    g = b[g];
                }
                g
            })
            .collect(),
        1 => {
            let mut e = a.clone();
            let order = (range.end..n).chain(0..range.end);
            let others: Vec<usize> = order.map(|i| b[i]).filter(|g| !range.contains(g)).collect();
            (range.end..n).chain(0..range.start).zip(others).for_each(|(i, g)| e[i] = g);
            e
        }
        2 => {
            let at = places(&b);
            let (mut e, mut done, mut first) = (a.clone(), vec![false; n], false);
            for start in 0..n {
                if done[start] {
                    continue;
                }
                first = !first;
                let mut i = start;
                while !done[i] {
                    done[i] = true;
                    e[i] = if first { i } else { b[i] };
                    i = at[i];
                }
            }
            e
        }
        _ => (0..n).map(|i| if i < point { a[i] } else { b[i] }).collect(),
    };
    state(&(&what, &o));
    ensure!(o.len() == n, "{what} has {} genes", o.len());
    match (0..n).find(|&i| o[i] != e[i]) {
        Some(i) => Err(format!("{what}: gene {} at position {i}, expected {}", o[i], e[i])),
        None => Ok(()),
    }
}
/// SCX of the parents 0..n and b, calculated with tables of positions.
fn huge_steps(n: usize) -> Result<(), String> {
    // (parents for which the operator takes seconds, not minutes)
    let k = pick(&[5, 6, 7, 15]);
    let (a, b) = (family(n, 0), family(n, k));
    let pivot = pick(&[0, n / 2]);
    let what = format!("SCX of {n} genes (family {k}) from {pivot}");
    let o = called(|| what.clone(), || sequential_constructive_crossover(&a, &b, pivot))?;
    ensure!(o.len() == n && o[0] == pivot, "{what} has {} genes, the first is {:?}", o.len(), o.first());
    state(&(&what, &o));
    let at = places(&b);
    let (mut placed, mut lowest) = (vec![false; n], 0);
    for i in 1..n {
        let g = o[i - 1];
        placed[g] = true;
        let (x, y) = ((g + 1) % n, b[(at[g] + 1) % n]);
        let e = match (placed[x], placed[y]) {
            (false, true) => x,
            (true, false) => y,
            (false, false) => if at[x] < y { x } else { y },
            _ => {
                while placed[lowest] {
                    lowest += 1;
                }
                lowest
            }
        };
        ensure!(o[i] == e, "{what}: gene {} at position {i}, expected {e}", o[i]);
    }
    Ok(())
}
/// Any operator that is fast enough: a permutation of the same genes.
fn huge_closed(n: usize) -> Result<(), String> {
    let op = pick(&["PMX", "OX", "CX", "SCX", "GPX2"]);
    let k = pick(match op {
        "GPX2" => &[3, 5],
        "SCX" => &[3, 15],
        _ => &[1, 3, 9],
    });
    let (a, b) = (family(n, 0), family(n, k));
    let (pivot, last) = if op == "SCX" || op == "GPX2" { pick(&[(0, false), (n - 1, true)]) } else { (0, false) };
    let range = if op.len() < 4 && op != "CX" && op != "SCX" { huge_range(n) } else { 0..0 };
    let what = format!("{op} of {n} genes (family {k}, {range:?}, pivot {pivot})");
    let mut o = called(
        || what.clone(),
        || match op {
            "PMX" => partially_mapped_crossover(&a, &b, range.clone()),
            "OX" => order_crossover(&a, &b, range.clone()),
            "CX" => cycle_crossover(&a, &b),
            "SCX" => sequential_constructive_crossover(&a, &b, pivot),
            _ => generalized_partition_2_crossover(&a, &b, |_, p| if last { p.len() - 1 } else { 0 }),
        },
    )?;
    state(&(&what, &o));
    o.sort();
    ensure!(o == a, "{what} is not a permutation: {} genes, the first wrong one is {:?}", o.len(), o.iter().zip(&a).position(|(x, y)| x != y));
    Ok(())
}

pub fn c01(r: &Runner) {
    r.explore("huge genomes", Opts::fresh(), || huge_closed(HUGE_LENGTHS[0]));
    let (m, full) = if r.thorough { (7, 6) } else { (6, 5) };
    r.explore("position based operators", Opts::default(), || {
        let (a, b) = pair(m, full);
        positional_op::<usize>(&genes(&a), &genes(&b), any_range)
    });
    r.explore("hash based operators", Opts::fresh(), || {
        set_salt(0);
        let (a, b) = pair(m, full);
        hashing::<usize>(&a, &b)
    });
    let (m, full) = if r.thorough { (5, 4) } else { (4, 3) };
    r.explore("gene types and hash keys", Opts::fresh(), || {
        set_salt(1 + choose(if r.thorough { 12 } else { 4 }) as u64);
        let (a, b) = pair(m, full);
        match choose(7) {
            0 => hashing::<usize>(&a, &b),
            5 => hashing::<Part>(&a, &b),
            1 => hashing::<i64>(&a, &b),
            2 => hashing::<char>(&a, &b),
            3 => hashing::<Clash>(&a, &b),
            4 => hashing::<(bool, u16)>(&a, &b),
            _ => hashing::<&'static str>(&a, &b),
        }
    });
    r.explore("gene types, position based", Opts::default(), || {
        let (a, b) = pair(m, full);
        match choose(4) {
            2 => positional_op::<Part>(&genes(&a), &genes(&b), any_range),
            0 => positional_op::<i64>(&genes(&a), &genes(&b), any_range),
            1 => positional_op::<Clash>(&genes(&a), &genes(&b), any_range),
            _ => positional_op::<&'static str>(&genes(&a), &genes(&b), any_range),
        }
    });
    fn large<G: Gene>() -> Result<(), String> {
        let (a, b) = large_pair(LARGE);
        let n = a.len();
        let (a, b): (Vec<G>, Vec<G>) = (genes(&a), genes(&b));
        if flag() {
            return positional_op(&a, &b, large_range);
        }
        let s = choose(3);
        hashing_op(&a, &b, &[0, n / 2, n - 1], |k| [0, k / 2, k - 1][s])
    }
    r.explore("long genomes", Opts::fresh(), || match choose(3) {
        0 => large::<usize>(),
        1 => large::<i64>(),
        _ => large::<&'static str>(),
    });
    r.explore("every length", Opts::fresh(), || {
        let (a, b) = middle_pair(r);
        let n = a.len();
        let (a, b): (Vec<i64>, Vec<i64>) = (genes(&a), genes(&b));
        if flag() {
            return positional_op(&a, &b, large_range);
        }
        let s = choose(2);
        hashing_op(&a, &b, &[0, n / 2, n - 1], |k| [0, k - 1][s])
    });
    // the strategies, with every draw
    r.explore("strategies", Opts::fresh(), || {
        let (a, b) = pair(if r.thorough { 5 } else { 4 }, if r.thorough { 4 } else { 3 });
        let (a, b): (Vec<i64>, Vec<i64>) = (genes(&a), genes(&b));
        let s = pick(&STRATEGIES[..6]);
        closed("strategy", &a, &b, format!("{s:?}"), || s.crossover(&a, &b, &mut McRng::new()))
    });
    r.explore("strategies on long genomes", Opts::fresh(), || {
        let (a, b) = large_pair(if r.thorough { &[33, 128, 300, 512, 513, 1000, 1025, 2049] } else { &[33, 128, 300, 513, 1025] });
        let (a, b): (Vec<usize>, Vec<usize>) = (genes(&a), genes(&b));
        let s = pick(&STRATEGIES[..6]);
        let p = pick(&[Pattern::Zero, Pattern::Max, Pattern::Alternate, Pattern::Weyl(1), Pattern::Weyl(2), Pattern::Const(0.5)]);
        set_pattern(Some(p));
        closed("strategy", &a, &b, format!("{s:?} {p:?}"), || s.crossover(&a, &b, &mut McRng::new()))
    });
}

pub const STRATEGIES: [CrossoverStrategy; 7] = [
    CrossoverStrategy::GeneralizedPartition2,
    CrossoverStrategy::SequentialConstructive,
    CrossoverStrategy::EdgeRecombination,
    CrossoverStrategy::PartiallyMapped,
    CrossoverStrategy::Order,
    CrossoverStrategy::Cycle,
    CrossoverStrategy::SinglePoint,
];

fn ref_pmx<G: PartialEq + Copy>(a: &[G], b: &[G], r: &Range<usize>) -> Vec<G> {
    (0..a.len())
        .map(|i| {
            if r.contains(&i) {
                a[i]
            } else {
                let mut g = b[i];
                while let Some(k) = r.clone().find(|&k| a[k] == g) {
                    g = b[k];
                }
                g
            }
        })
        .collect()
}
fn ref_ox<G: PartialEq + Copy>(a: &[G], b: &[G], r: &Range<usize>) -> Vec<G> {
    let n = a.len();
    let kept = &a[r.clone()];
    let mut fill = (0..n).map(|i| b[(r.end + i) % n]).filter(|g| !kept.contains(g));
    let mut o = a.to_vec();
    for i in 0..n - r.len() {
        o[(r.end + i) % n] = fill.next().unwrap();
    }
    o
}
fn ref_cx<G: PartialEq + Copy>(a: &[G], b: &[G]) -> Vec<G> {
    let n = a.len();
    let mut o = a.to_vec();
    let mut seen = vec![false; n];
    let mut first = true;
    for s in 0..n {
        if seen[s] {
            continue;
        }
        let mut i = s;
        while !seen[i] {
            seen[i] = true;
            o[i] = if first { a[i] } else { b[i] };
            // where the first parent has the gene that the second one has here
            i = pos(&b[i], a);
        }
        first = !first;
    }
    o
}

fn positions<G: Gene>(a: &[G], b: &[G], range: impl Fn(usize) -> Range<usize>) -> Result<(), String> {
    let (op, param, o, e) = match choose(3) {
        0 => {
            let r = range(a.len());
            let o = called(|| format!("PMX {a:?} {b:?} {r:?}"), || partially_mapped_crossover(a, b, r.clone()))?;
            ("PMX", format!("{r:?}"), o, ref_pmx(a, b, &r))
        }
        1 => {
            let r = range(a.len());
            let o = called(|| format!("OX {a:?} {b:?} {r:?}"), || order_crossover(a, b, r.clone()))?;
            let e = if a.is_empty() { vec![] } else { ref_ox(a, b, &r) };
            ("OX", format!("{r:?}"), o, e)
        }
        _ => {
            let o = called(|| format!("CX {a:?} {b:?}"), || cycle_crossover(a, b))?;
            ("CX", String::new(), o, ref_cx(a, b))
        }
    };
    class(op);
    ensure!(o == e, "{op} of {a:?} and {b:?} {param} gives {o:?}, expected {e:?}");
    state(&(op, format!("{a:?}{b:?}{param}")));
    sample(|| format!("{op} {a:?} x {b:?} {param} -> {o:?}"));
    Ok(())
}
fn spx<G: Gene>(a: &[G], b: &[G], point: usize) -> Result<(), String> {
    let o = called(|| format!("SPX {a:?} {b:?} {point}"), || single_point_crossover(a, b, point))?;
    let e: Vec<G> = (0..a.len()).map(|i| if i < point { a[i] } else { b[i] }).collect();
    ensure!(o == e, "SPX of {a:?} and {b:?} at {point} gives {o:?}, expected {e:?}");
    state(&format!("{a:?}{b:?}{point}"));
    sample(|| format!("SPX {a:?} x {b:?} at {point} -> {o:?}"));
    Ok(())
}

pub fn c02(r: &Runner) {
    r.explore("huge genomes", Opts::default(), || huge_positions(pick(&HUGE_LENGTHS[..if r.thorough { 3 } else { 1 }])));
    let (m, full) = if r.thorough { (8, 6) } else { (7, 5) };
    r.explore("PMX, OX, CX", Opts::default(), || {
        let (a, b) = pair(m, full);
        positions::<usize>(&genes(&a), &genes(&b), any_range)
    });
    r.explore("PMX, OX, CX, gene types", Opts::default(), || {
        let (a, b) = pair(5, 4);
        match choose(5) {
            3 => positions::<Part>(&genes(&a), &genes(&b), any_range),
            0 => positions::<i64>(&genes(&a), &genes(&b), any_range),
            1 => positions::<Clash>(&genes(&a), &genes(&b), any_range),
            2 => positions::<(bool, u16)>(&genes(&a), &genes(&b), any_range),
            _ => positions::<&'static str>(&genes(&a), &genes(&b), any_range),
        }
    });
    r.explore("PMX, OX, CX, long genomes", Opts::default(), || {
        let (a, b) = large_pair(LARGE);
        if flag() {
            positions::<usize>(&genes(&a), &genes(&b), large_range)
        } else {
            positions::<char>(&genes(&a), &genes(&b), large_range)
        }
    });
    r.explore("PMX, OX, CX, very long genomes", Opts::default(), || {
        let (a, b) = huge_pair(&[1, 3, 5, 8, 9, 12]);
        positions::<usize>(&a, &b, large_range)
    });
    r.explore("PMX, OX, CX, every length", Opts::default(), || {
        let (a, b) = middle_pair(r);
        if flag() {
            positions::<usize>(&genes(&a), &genes(&b), large_range)
        } else {
            positions::<i64>(&genes(&a), &genes(&b), large_range)
        }
    });
    r.explore("PMX, OX, every range of middle-sized genomes", Opts::default(), || {
        let n = pick(if r.thorough { &[9, 12, 16, 17, 24, 31, 32, 33, 40, 48][..] } else { &[9, 12, 16, 17, 24, 32, 33][..] });
        let (a, b) = (family(n, pick(&[0, 9])), family(n, choose(FAMILIES)));
        positions::<usize>(&genes(&a), &genes(&b), any_range)
    });
    r.explore("SPX", Opts::default(), || {
        let n = choose(if r.thorough { 8 } else { 7 });
        let string = || (0..n).map(|_| choose(2)).collect::<Vec<_>>();
        let (a, b) = (string(), string());
        let points: Vec<usize> = (0..=n + 2).chain([1000, usize::MAX]).collect();
        spx(&a, &b, pick(&points))
    });
    r.explore("SPX, several values and types", Opts::default(), || {
        let n = choose(5);
        let string = || (0..n).map(|_| choose(3)).collect::<Vec<_>>();
        let (a, b) = (string(), string());
        let point = choose(n + 2);
        match choose(4) {
            2 => spx::<Part>(&genes(&a), &genes(&b), point),
            0 => spx::<i64>(&genes(&a), &genes(&b), point),
            1 => spx::<&'static str>(&genes(&a), &genes(&b), point),
            _ => spx::<Clash>(&genes(&a), &genes(&b), point),
        }
    });
    r.explore("SPX, long genomes", Opts::default(), || {
        let (a, b) = if flag() { large_pair(LARGE) } else { huge_pair(&[0, 1, 9]) };
        let n = a.len();
        spx(&a, &b, pick(&[0, 1, n / 3, 255, 256, 257, n / 2, n - 1, n, n + 1, 2 * n, usize::MAX]))
    });
    r.explore("SPX, every length and point", Opts::default(), || {
        let n = 7 + choose(if r.thorough { 154 } else { 66 });
        let b = family(n, pick(&[1, 9]));
        spx(&family(n, 0), &b, choose(n + 2))
    });
}

fn scx_ok<G: Gene>(a: &[G], b: &[G], pivot: G, o: &[G]) -> Result<(), String> {
    let n = a.len();
    ensure!(is_permutation_of(o, a), "SCX of {a:?} and {b:?} from {pivot:?} gives {o:?}");
    ensure!(o[0] == pivot, "SCX of {a:?} and {b:?} starts with {:?} instead of {pivot:?}", o[0]);
    for i in 1..n {
        let placed = &o[..i];
        let free = |g: &G| !placed.contains(g);
        let s1 = a[(pos(&o[i - 1], a) + 1) % n];
        let s2 = b[(pos(&o[i - 1], b) + 1) % n];
        let e = match (free(&s1), free(&s2)) {
            (true, false) => s1,
            (false, true) => s2,
            (true, true) => {
                if pos(&s1, b) < pos(&s2, a) {
                    s1
                } else {
                    s2
                }
            }
            (false, false) => *a.iter().find(|g| free(g)).unwrap(),
        };
        ensure!(o[i] == e, "SCX of {a:?} and {b:?} from {pivot:?} gives {o:?}: expected {e:?} at position {i}");
    }
    Ok(())
}
fn erx_ok<G: Gene>(a: &[G], b: &[G], pivot: G, o: &[G]) -> Result<(), String> {
    let n = a.len();
    ensure!(is_permutation_of(o, a), "ERX of {a:?} and {b:?} from {pivot:?} gives {o:?}");
    ensure!(o[0] == pivot, "ERX of {a:?} and {b:?} starts with {:?} instead of {pivot:?}", o[0]);
    // indices instead of genes
    let ids: Vec<usize> = o.iter().map(|g| pos(g, a)).collect();
    let bi: Vec<usize> = b.iter().map(|g| pos(g, a)).collect();
    let mut bpos = vec![0; n];
    for (i, &g) in bi.iter().enumerate() {
        bpos[g] = i;
    }
    let neighbours = |g: usize| {
        let p = bpos[g];
        let mut v = vec![(g + 1) % n, (g + n - 1) % n, bi[(p + 1) % n], bi[(p + n - 1) % n]];
        v.sort();
        v.dedup();
        v
    };
    let mut placed = vec![false; n];
    for i in 1..n {
        placed[ids[i - 1]] = true;
        let open = |g: usize| neighbours(g).into_iter().filter(|&x| !placed[x] && x != g).count();
        let cand: Vec<usize> = neighbours(ids[i - 1]).into_iter().filter(|&x| !placed[x]).collect();
        if let Some(min) = cand.iter().map(|&x| open(x)).min() {
            ensure!(
                cand.contains(&ids[i]) && open(ids[i]) == min,
                "ERX of {a:?} and {b:?} from {pivot:?} gives {o:?}: position {i} is not an open neighbour with the fewest open neighbours"
            );
        }
    }
    Ok(())
}
fn steps<G: Gene>(a: &[G], b: &[G], pivots: &[usize]) -> Result<(), String> {
    let pivot = a[pick(pivots)];
    let o = if flag() {
        class("SCX");
        let o = called(|| format!("SCX {a:?} {b:?} {pivot:?}"), || sequential_constructive_crossover(a, b, pivot))?;
        scx_ok(a, b, pivot, &o)?;
        o
    } else {
        class("ERX");
        let o = called(|| format!("ERX {a:?} {b:?} {pivot:?}"), || edge_recombination_crossover(a, b, pivot))?;
        erx_ok(a, b, pivot, &o)?;
        o
    };
    state(&format!("{a:?}{b:?}{o:?}"));
    sample(|| format!("{a:?} x {b:?} from {pivot:?} -> {o:?}"));
    Ok(())
}
fn steps_all<G: Gene>(a: &[usize], b: &[usize]) -> Result<(), String> {
    if a.len() < 2 {
        return Ok(());
    }
    let all: Vec<usize> = (0..a.len()).collect();
    steps::<G>(&genes(a), &genes(b), &all)
}

pub fn c03(r: &Runner) {
    r.explore("huge genomes", Opts::fresh(), || huge_steps(pick(&HUGE_LENGTHS[..if r.thorough { 3 } else { 1 }])));
    let (m, full) = if r.thorough { (7, 6) } else { (7, 5) };
    r.explore("all pairs", Opts::fresh(), || {
        let (a, b) = pair(m, full);
        steps_all::<usize>(&a, &b)
    });
    r.explore("hash keys and gene types", Opts::fresh(), || {
        set_salt(1 + choose(if r.thorough { 24 } else { 6 }) as u64);
        let (a, b) = pair(if r.thorough { 6 } else { 5 }, 4);
        match choose(5) {
            3 => steps_all::<Part>(&a, &b),
            0 => steps_all::<usize>(&a, &b),
            1 => steps_all::<i64>(&a, &b),
            2 => steps_all::<Clash>(&a, &b),
            _ => steps_all::<&'static str>(&a, &b),
        }
    });
    if r.thorough {
        r.explore("8 genes", Opts::fresh(), || {
            let b = permutation(8, choose(factorial(8)));
            steps_all::<usize>(&permutation(8, 0), &b)
        });
    }
    r.explore("long genomes", Opts::fresh(), || {
        set_salt(choose(3) as u64);
        let (a, b) = large_pair(&[9, 16, 33, 64, 100, 129, 257]);
        let n = a.len();
        if flag() {
            steps::<usize>(&genes(&a), &genes(&b), &[0, 1, n / 2, n - 1])
        } else {
            steps::<char>(&genes(&a), &genes(&b), &[0, 1, n / 2, n - 1])
        }
    });
    r.explore("every length", Opts::fresh(), || {
        let (a, b) = middle_pair(r);
        let n = a.len();
        set_salt(n as u64);
        steps::<i64>(&genes(&a), &genes(&b), &[0, 1, n / 2, n - 1])
    });
    r.explore("very long genomes", Opts::fresh(), || {
        let (a, b) = huge_pair(&[1, 5, 8, 9]);
        let n = a.len();
        steps::<usize>(&a, &b, &[0, n / 2, n - 1])
    });
    r.explore("every pivot of middle-sized genomes", Opts::fresh(), || {
        let n = pick(if r.thorough { &[9, 12, 16, 17, 24, 32, 33, 48, 64, 65][..] } else { &[9, 12, 16, 17, 24, 33][..] });
        let (a, b) = (family(n, pick(&[0, 9])), family(n, choose(FAMILIES)));
        steps_all::<usize>(&a, &b)
    });
}

fn adjacent<G: PartialEq>(x: &G, y: &G, g: &[G]) -> bool {
    let n = g.len();
    if n < 2 || x == y {
        return false;
    }
    (0..n).any(|i| {
        let (p, q) = (&g[i], &g[(i + 1) % n]);
        (p == x && q == y) || (p == y && q == x)
    })
}
fn neighbours_ok<G: Gene>(a: &[G], b: &[G]) -> Result<(), String> {
    let o = called(|| format!("common_neighbors({a:?}, {b:?})"), || common_neighbors(a, b))?;
    for (i, (x, y)) in o.iter().enumerate() {
        ensure!(
            adjacent(x, y, a) && adjacent(x, y, b),
            "common_neighbors({a:?}, {b:?}) reports ({x:?}, {y:?}), which are not neighbours in both"
        );
        ensure!(
            !o[..i].iter().any(|(p, q)| (p == x && q == y) || (p == y && q == x)),
            "common_neighbors({a:?}, {b:?}) = {o:?} reports ({x:?}, {y:?}) twice"
        );
    }
    let n = a.len();
    for i in 0..n {
        let (x, y) = (&a[i], &a[(i + 1) % n]);
        if adjacent(x, y, b) && x != y {
            ensure!(
                o.iter().any(|(p, q)| (p == x && q == y) || (p == y && q == x)),
                "common_neighbors({a:?}, {b:?}) = {o:?} misses ({x:?}, {y:?})"
            );
        }
    }
    state(&format!("{a:?}{b:?}{}", o.len()));
    sample(|| format!("common_neighbors({a:?}, {b:?}) = {o:?}"));
    Ok(())
}
fn partitions_ok<G: Gene>(what: &str, a: &[G], b: &[G], p: &[Vec<G>]) -> Result<(), String> {
    let flat: Vec<G> = p.iter().flatten().copied().collect();
    ensure!(is_permutation_of(&flat, a), "{what} of {a:?} and {b:?} are {p:?}: not every gene exactly once");
    ensure!(p.iter().all(|x| !x.is_empty()), "{what} of {a:?} and {b:?} contain an empty one: {p:?}");
    for part in p {
        for w in part.windows(2) {
            ensure!(
                adjacent(&w[0], &w[1], a) && adjacent(&w[0], &w[1], b),
                "{what} of {a:?} and {b:?}: {:?} and {:?} follow each other in {part:?}, but are not neighbours in both",
                w[0],
                w[1]
            );
        }
    }
    Ok(())
}
fn extended_ok<G: Gene>(a: &[G], b: &[G], p: &[Vec<G>]) -> Result<(), String> {
    for (i, part) in p.iter().enumerate() {
        let last = part.last().unwrap();
        for later in &p[i + 1..] {
            for g in later {
                ensure!(
                    !(adjacent(last, g, a) && adjacent(last, g, b)),
                    "common_partitions({a:?}, {b:?}) = {p:?}: {part:?} could go on with {g:?} of a later partition"
                );
            }
        }
    }
    Ok(())
}
fn gpx2_ok<G: Gene>(a: &[G], b: &[G], selector: impl Fn(usize) -> usize) -> Result<(), String> {
    let mut first: Option<Vec<Vec<G>>> = None;
    let mut left: Vec<Vec<G>> = Vec::new();
    let mut placed: Vec<G> = Vec::new();
    let mut bad: Option<String> = None;
    let sorted = |p: &[Vec<G>]| {
        let mut v: Vec<String> = p.iter().map(|x| format!("{x:?}")).collect();
        v.sort();
        v
    };
    let o = called(
        || format!("GPX2 of {a:?} and {b:?}"),
        || {
            generalized_partition_2_crossover(a, b, |last, parts| {
                if first.is_none() {
                    first = Some(parts.to_vec());
                    left = parts.to_vec();
                } else if sorted(parts) != sorted(&left) && bad.is_none() {
                    bad = Some(format!("the selector is given {parts:?}, but {left:?} are left"));
                }
                if last.copied() != placed.last().copied() && bad.is_none() {
                    bad = Some(format!("the selector is told {last:?} as the last gene of {placed:?}"));
                }
                let k = selector(parts.len());
                placed.extend(parts[k].iter());
                if let Some(i) = left.iter().position(|x| *x == parts[k]) {
                    left.remove(i);
                }
                k
            })
        },
    )?;
    if let Some(m) = bad {
        return Err(format!("GPX2 of {a:?} and {b:?}: {m}"));
    }
    ensure!(left.is_empty(), "GPX2 of {a:?} and {b:?} did not ask for {left:?}");
    ensure!(o == placed, "GPX2 of {a:?} and {b:?} gives {o:?}, but the selected partitions are {placed:?}");
    let p = called(|| format!("common_partitions({a:?}, {b:?})"), || common_partitions(a, b))?;
    let f = first.unwrap_or_default();
    ensure!(sorted(&p) == sorted(&f), "GPX2 of {a:?} and {b:?} selects from {f:?}, the common partitions are {p:?}");
    partitions_ok("the partitions", a, b, &p)?;
    extended_ok(a, b, &p)?;
    state(&format!("{a:?}{b:?}{o:?}"));
    sample(|| format!("partitions of {a:?}, {b:?}: {p:?}; GPX2 {o:?}"));
    Ok(())
}

pub fn c04(r: &Runner) {
    let (alphabet, len) = if r.thorough { (6, 5) } else { (6, 4) };
    r.explore("common neighbours", Opts::default(), || {
        let genome = || {
            let n = choose(len + 1);
            let mut rest: Vec<usize> = (0..alphabet).collect();
            (0..n).map(|_| rest.remove(choose(rest.len()))).collect::<Vec<_>>()
        };
        let (a, b) = (genome(), genome());
        neighbours_ok(&a, &b)?;
        neighbours_ok(&b, &a)
    });
    r.explore("common neighbours of permutations", Opts::default(), || {
        let (a, b) = pair(6, 5);
        match choose(5) {
            3 => neighbours_ok::<Part>(&genes(&a), &genes(&b)),
            0 => neighbours_ok::<usize>(&genes(&a), &genes(&b)),
            1 => neighbours_ok::<i64>(&genes(&a), &genes(&b)),
            2 => neighbours_ok::<Clash>(&genes(&a), &genes(&b)),
            _ => neighbours_ok::<&'static str>(&genes(&a), &genes(&b)),
        }
    });
    let (m, full) = if r.thorough { (7, 5) } else { (6, 5) };
    r.explore("partitions and GPX2", Opts::fresh(), || {
        let (a, b) = pair(m, full);
        gpx2_ok::<usize>(&genes(&a), &genes(&b), choose)
    });
    r.explore("partitions of more genes", Opts::fresh(), || {
        let n = if r.thorough { 7 + choose(2) } else { 7 };
        let (a, b) = (family(n, pick(&[0, 9])), permutation(n, choose(factorial(n))));
        let s = choose(4);
        gpx2_ok::<usize>(&genes(&a), &genes(&b), |k| [0, k / 2, k - 1, k / 3][s])
    });
    r.explore("selectors that use the operators themselves", Opts::fresh(), || {
        let (a, b) = pair(5, 4);
        let depth = 1 + choose(2);
        fn within(k: usize, depth: usize) -> usize {
            let x: Vec<usize> = (0..k + 3).collect();
            let y = family(k + 3, 9);
            let o = generalized_partition_2_crossover(&x, &y, |_, p| if depth > 1 { within(p.len(), depth - 1) } else { p.len() - 1 });
            let all = [o, sequential_constructive_crossover(&x, &y, 1), edge_recombination_crossover(&y, &x, 2), partially_mapped_crossover(&x, &y, 1..2), order_crossover(&x, &y, 0..2), cycle_crossover(&x, &y)];
            if !all.iter().all(|o| is_permutation_of(o, &x)) {
                violate(format!("crossovers of {x:?} and {y:?} called by a partition selector give {all:?}"));
            }
            k / 2
        }
        gpx2_ok::<usize>(&genes(&a), &genes(&b), |k| within(k, depth))
    });
    r.explore("partitions and GPX2, gene types and hash keys", Opts::fresh(), || {
        set_salt(1 + choose(3) as u64);
        let (a, b) = pair(5, 4);
        match choose(4) {
            2 => gpx2_ok::<Part>(&genes(&a), &genes(&b), choose),
            0 => gpx2_ok::<i64>(&genes(&a), &genes(&b), choose),
            1 => gpx2_ok::<Clash>(&genes(&a), &genes(&b), choose),
            _ => gpx2_ok::<(bool, u16)>(&genes(&a), &genes(&b), choose),
        }
    });
    r.explore("long genomes", Opts::fresh(), || {
        let (a, b) = large_pair(LARGE);
        let s = choose(4);
        let (a, b): (Vec<usize>, Vec<usize>) = (genes(&a), genes(&b));
        if s == 3 {
            neighbours_ok(&a, &b)?;
            return neighbours_ok(&b, &a[..a.len() - 1]);
        }
        if a.len() > 129 && !r.thorough {
            return Ok(());
        }
        gpx2_ok(&a, &b, |k| [0, k / 2, k - 1][s])
    });
    r.explore("every length", Opts::fresh(), || {
        let (a, b) = middle_pair(r);
        let (a, b): (Vec<i64>, Vec<i64>) = (genes(&a), genes(&b));
        set_salt(a.len() as u64);
        match choose(3) {
            2 => {
                neighbours_ok(&a, &b)?;
                neighbours_ok(&b, &a[..a.len() - 1])
            }
            s => gpx2_ok(&a, &b, |k| [0, k - 1][s]),
        }
    });
    r.explore("very long genomes", Opts::fresh(), || {
        let (a, b) = huge_pair(&[1, 5, 8, 12, 13]);
        if a.len() > 1100 && !r.thorough {
            return Ok(());
        }
        if flag() {
            neighbours_ok(&a, &b)
        } else {
            gpx2_ok(&a, &b, |k| k / 2)
        }
    });
    r.explore("all selections among few partitions", Opts::fresh(), || {
        let n = pick(&[7, 8, 9, 12, 15, 20, 32]);
        let b = family(n, choose(FAMILIES));
        let a = family(n, pick(&[0, 1, 3]));
        if catch(|| common_partitions(&a, &b)).map_or(false, |p| p.len() > 6) {
            return Ok(());
        }
        gpx2_ok(&a, &b, choose)
    });
}

fn strategy_dist(s: CrossoverStrategy, a: &[usize], b: &[usize]) -> Result<(), String> {
    let n = a.len();
    let mut e: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
    let ranges = |e: &mut BTreeMap<Vec<usize>, f64>, f: &dyn Fn(Range<usize>) -> Vec<usize>| {
        for l in 1..=n {
            for st in 0..=n - l {
                add(e, f(st..st + l), 1.0 / n as f64 / (n - l + 1) as f64);
            }
        }
    };
    let mut key: fn(Vec<usize>) -> Vec<usize> = |o| o;
    let w = if n == 0 { 1.0 } else { 1.0 / n as f64 };
    match s {
        _ if n == 0 => add(&mut e, vec![], 1.0),
        CrossoverStrategy::GeneralizedPartition2 => {
            let d = dist(DistOpts::default(), || {
                generalized_partition_2_crossover(a, b, |_, p| draw_int(p.len() as u128) as usize)
            });
            e = d.p;
        }
        CrossoverStrategy::SequentialConstructive => {
            for &g in a {
                add(&mut e, sequential_constructive_crossover(a, b, g), w)
            }
        }
        CrossoverStrategy::EdgeRecombination => {
            // the order among ties is not specified
            for &g in a {
                add(&mut e, vec![g], w)
            }
            key = |o| o[..1].to_vec();
        }
        CrossoverStrategy::PartiallyMapped => ranges(&mut e, &|r| partially_mapped_crossover(a, b, r)),
        CrossoverStrategy::Order => ranges(&mut e, &|r| order_crossover(a, b, r)),
        CrossoverStrategy::Cycle => add(&mut e, cycle_crossover(a, b), 1.0),
        CrossoverStrategy::SinglePoint => {
            for p in 0..n {
                add(&mut e, single_point_crossover(a, b, p), w)
            }
        }
    }
    let mut bad = None;
    let d = dist(DistOpts::default(), || match catch(|| s.crossover(a, b, &mut McRng::new())) {
        Ok(o) => {
            if s == CrossoverStrategy::EdgeRecombination && n > 1 && bad.is_none() {
                bad = erx_ok(a, b, o[0], &o).err();
            }
            key(o)
        }
        Err(m) => {
            bad = Some(format!("panicked: {m}"));
            vec![usize::MAX]
        }
    });
    if let Some(m) = bad {
        return Err(format!("{s:?} strategy on {a:?} and {b:?}: {m}"));
    }
    class(&format!("{s:?}"));
    state(&format!("{s:?}{a:?}{b:?}{}", d.p.len()));
    sample(|| format!("{s:?} on {a:?}, {b:?}: {} outcomes over {} draw sequences", d.p.len(), d.runs));
    d.compare(&e).map_err(|m| format!("{s:?} strategy on {a:?} and {b:?}: {m}"))
}

pub fn c05(r: &Runner) {
    let (m, full) = if r.thorough { (6, 4) } else { (5, 4) };
    r.explore("distribution of the offspring", Opts::fresh(), || {
        let (a, b) = pair(m, full);
        strategy_dist(pick(&STRATEGIES), &a, &b)
    });
    r.explore("distribution for long genomes", Opts::fresh(), || {
        let n = pick(if r.thorough { &[6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 100, 128, 129][..] } else { &[6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65][..] });
        let b = family(n, pick(&[1, 5, 8, 10, 12, 15]));
        let s = pick(&STRATEGIES);
        if s == CrossoverStrategy::GeneralizedPartition2 && common_partitions(&family(n, 0), &b).len() > 6 {
            return Ok(());
        }
        if n > 33 && s == CrossoverStrategy::EdgeRecombination {
            return Ok(());
        }
        strategy_dist(s, &family(n, 0), &b)
    });
    r.explore("distribution for large genomes", Opts::fresh(), || {
        let n = pick(if r.thorough { &[200, 255, 256, 257, 258, 300, 400][..] } else { &[256, 257, 300] });
        let s = pick(&[CrossoverStrategy::SequentialConstructive, CrossoverStrategy::SinglePoint, CrossoverStrategy::Order, CrossoverStrategy::PartiallyMapped]);
        let (a, b) = (family(n, 0), family(n, pick(&[1, 8])));
        let told = |o: &[usize]| {
            use std::hash::{Hash, Hasher};
            let mut h = Fnv(1);
            o.hash(&mut h);
            h.finish()
        };
        let mut e: BTreeMap<u64, f64> = BTreeMap::new();
        match s {
            CrossoverStrategy::SequentialConstructive => a.iter().for_each(|&g| add(&mut e, told(&sequential_constructive_crossover(&a, &b, g)), 1.0 / n as f64)),
            CrossoverStrategy::SinglePoint => (0..n).for_each(|p| add(&mut e, told(&single_point_crossover(&a, &b, p)), 1.0 / n as f64)),
            _ => {
                for l in 1..=n {
                    for st in 0..=n - l {
                        let o = if s == CrossoverStrategy::Order { order_crossover(&a, &b, st..st + l) } else { partially_mapped_crossover(&a, &b, st..st + l) };
                        add(&mut e, told(&o), 1.0 / n as f64 / (n - l + 1) as f64);
                    }
                }
            }
        }
        let d = dist(DistOpts::default(), || told(&s.crossover(&a, &b, &mut McRng::new())));
        state(&(format!("{s:?}"), n, d.p.len()));
        sample(|| format!("{s:?} on {n} genes: {} outcomes over {} draw sequences", d.p.len(), d.runs));
        d.compare(&e).map_err(|m| format!("{s:?} strategy on {n} genes and {b:?}, hashes of the offspring: {m}"))
    });
    r.explore("GPX2 may start and end with every partition", Opts::fresh(), || {
        // more orders than can be enumerated: those of up to 6000 fixed streams of draws
        let n = pick(if r.thorough { &[10, 16, 17, 20, 33, 40, 65, 100, 130, 260][..] } else { &[10, 17, 20, 33, 40, 65, 130] });
        let (a, b) = (family(n, 0), family(n, pick(&[5, 8, 9, 10, 12])));
        let p = common_partitions(&a, &b);
        let (mut firsts, mut lasts) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
        for stream in 1..=6000 {
            set_pattern(Some(Pattern::Weyl(stream)));
            let o = CrossoverStrategy::GeneralizedPartition2.crossover(&a, &b, &mut McRng::new());
            set_pattern(None);
            firsts.insert(o[0]);
            lasts.insert(o[n - 1]);
            if firsts.len() == p.len() && lasts.len() == p.len() {
                break;
            }
        }
        state(&(n, &b));
        class(&format!("{:>3}.. partitions", p.len() / 16 * 16));
        for part in &p {
            ensure!(firsts.contains(&part[0]), "GPX2 strategy on {n} genes and {b:?}: no explored offspring starts with the partition {part:?}, one of {}", p.len());
            ensure!(lasts.contains(&part[part.len() - 1]), "GPX2 strategy on {n} genes and {b:?}: no explored offspring ends with the partition {part:?}, one of {}", p.len());
        }
        Ok(())
    });
    r.explore("SPX on strings", Opts::default(), || {
        let n = choose(6);
        let string = || (0..n).map(|_| choose(2)).collect::<Vec<_>>();
        let (a, b) = (string(), string());
        strategy_dist(CrossoverStrategy::SinglePoint, &a, &b)
    });
    r.explore("unequal lengths", Opts::default(), || {
        let n = pick(&[0, 1, 2, 3, 4, 5, 20, 100]);
        let m = pick(&[0, 1, 2, 3, 4, 5, 21, 101]);
        if n == m {
            return Ok(());
        }
        let s = pick(&STRATEGIES);
        let a: Vec<usize> = family(n, pick(&[0, 1]));
        let b: Vec<usize> = family(m, pick(&[0, 1, 9]));
        if n > 5 || m > 5 {
            set_pattern(Some(pick(&[Pattern::Zero, Pattern::Max])));
        }
        let o = catch(|| s.crossover(&a, &b, &mut McRng::new()));
        set_pattern(None);
        state(&(format!("{s:?}"), &a, &b));
        sample(|| format!("{s:?} on {n} and {m} genes: {o:?}"));
        ensure!(o.is_err(), "{s:?} strategy accepts parents with {n} and {m} genes and gives {:?}", o.unwrap());
        Ok(())
    });
    r.explore("unequal lengths, crossover functions", Opts::default(), || {
        let n = pick(&[0, 1, 2, 3, 4, 5, 6, 20, 100]);
        let m = pick(&[0, 1, 2, 3, 4, 5, 6, 21, 101]);
        if n == m {
            return Ok(());
        }
        let a: Vec<usize> = family(n, pick(&[0, 1]));
        let b: Vec<usize> = family(m, pick(&[0, 1, 9]));
        let small = n.min(m);
        let point = pick(&[0, small / 2, small]);
        let end = pick(&[point, small, n.max(m)]);
        let pivot = if flag() { a.first().or(b.first()).copied() } else { b.last().or(a.last()).copied() }.unwrap();
        let k = choose(6);
        let o = catch(|| match k {
            0 => sequential_constructive_crossover(&a, &b, pivot),
            1 => edge_recombination_crossover(&a, &b, pivot),
            2 => partially_mapped_crossover(&a, &b, point..end),
            3 => order_crossover(&a, &b, point..end),
            4 => cycle_crossover(&a, &b),
            _ => single_point_crossover(&a, &b, point),
        });
        let name = ["SCX", "ERX", "PMX", "OX", "CX", "SPX"][k];
        state(&(k, &a, &b, point, end, pivot));
        sample(|| format!("{name} of {n} and {m} genes: {o:?}"));
        ensure!(o.is_err(), "{name} accepts parents with {n} and {m} genes ({point}..{end}, pivot {pivot}) and gives {:?}", o.unwrap());
        Ok(())
    });
    r.explore("equal lengths never panic", Opts::fresh(), || {
        let (a, b) = if flag() { middle_pair(r) } else { large_pair(&[1, 2, 3, 33, 64, 128, 257, 1000]) };
        let s = pick(&STRATEGIES);
        set_pattern(Some(pick(&[Pattern::Zero, Pattern::Max, Pattern::Alternate, Pattern::Weyl(3), Pattern::Weyl(4)])));
        let o = catch(|| s.crossover(&a, &b, &mut McRng::new()));
        set_pattern(None);
        match o {
            Ok(o) => ensure!(
                if s == CrossoverStrategy::SinglePoint { o.len() == a.len() } else { is_permutation_of(&o, &a) },
                "{s:?} strategy on {a:?} and {b:?} gives {o:?}"
            ),
            Err(m) => return Err(format!("{s:?} strategy on {a:?} and {b:?} panicked: {m}")),
        }
        Ok(())
    });
}
