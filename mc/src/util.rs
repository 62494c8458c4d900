use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;

pub fn factorial(n: usize) -> usize {
    (1..=n).product::<usize>().max(1)
}
/// The k-th permutation of 0..n; the 0-th is the identity.
pub fn permutation(n: usize, mut k: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        let f = factorial(n - 1 - i);
        out.push(rest.remove(k / f));
        k %= f;
    }
    out
}
pub fn is_permutation_of<G: PartialEq>(a: &[G], b: &[G]) -> bool {
    a.len() == b.len()
        && {
            let mut used = vec![false; b.len()];
            a.iter().all(|x| match (0..b.len()).find(|&i| !used[i] && b[i] == *x) {
                Some(i) => {
                    used[i] = true;
                    true
                }
                None => false,
            })
        }
}
pub fn pos<G: PartialEq>(g: &G, genome: &[G]) -> usize {
    genome.iter().position(|x| x == g).expect("gene of the genome")
}

/// Gene types with different orders, hashes and values.
pub trait Gene: Copy + PartialOrd + Eq + Hash + Debug + Send + Sync + 'static {
    fn of(i: usize) -> Self;
}
impl Gene for usize {
    fn of(i: usize) -> Self {
        i
    }
}
impl Gene for i64 {
    fn of(i: usize) -> Self {
        match i {
            0 => i64::MAX,
            1 => i64::MIN,
            2 => -1,
            3 => 0,
            4 => 1,
            _ => {
                if i % 2 == 0 {
                    1000 * i as i64
                } else {
                    -(i as i64) * 77
                }
            }
        }
    }
}
impl Gene for char {
    fn of(i: usize) -> Self {
        char::from_u32('z' as u32 + 600 - i as u32).unwrap()
    }
}
impl Gene for (bool, u16) {
    fn of(i: usize) -> Self {
        (i % 2 == 0, (i / 2) as u16)
    }
}
impl Gene for &'static str {
    fn of(i: usize) -> Self {
        static TEXT: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
        &TEXT.get_or_init(|| (0..700).map(|i| if i == 3 { String::new() } else { format!("g{}", i * 37 % 1000) }).collect())[i]
    }
}
/// All genes collide in hash tables, and the order is reversed.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Clash(pub usize);
impl Hash for Clash {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
impl PartialOrd for Clash {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        o.0.partial_cmp(&self.0)
    }
}
impl Gene for Clash {
    fn of(i: usize) -> Self {
        Clash(i)
    }
}
/// Genes that are partially ordered only: sets of numbers, ordered by inclusion.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Part(pub usize);
impl PartialOrd for Part {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        match self.0 & o.0 {
            x if x == self.0 && x == o.0 => Some(Equal),
            x if x == self.0 => Some(Less),
            x if x == o.0 => Some(Greater),
            _ => None,
        }
    }
}
impl Gene for Part {
    fn of(i: usize) -> Self {
        Part(i)
    }
}
pub fn genes<G: Gene>(p: &[usize]) -> Vec<G> {
    p.iter().map(|&i| G::of(i)).collect()
}

/// Structured permutations of large genomes.
pub const FAMILIES: usize = 17;
pub fn family(n: usize, k: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    match k {
        0 => {}
        1 => p.reverse(),
        2 => p.rotate_left(1 % n.max(1)),
        3 => p.rotate_left(n / 2),
        4 => {
            let a: Vec<usize> = p.iter().copied().filter(|x| x % 2 == 0).collect();
            let b: Vec<usize> = p.iter().copied().filter(|x| x % 2 == 1).collect();
            p = a.into_iter().chain(b).collect();
        }
        5 => {
            if n > 1 {
                p.swap(0, n - 1)
            }
        }
        6 => {
            if n > 2 {
                p[..n / 2].reverse()
            }
        }
        7 => {
            for i in (0..n.saturating_sub(1)).step_by(2) {
                p.swap(i, i + 1)
            }
        }
        8 => {
            let s = (2..n.max(3)).find(|s| gcd(*s, n.max(1)) == 1 && *s > n / 3).unwrap_or(1);
            p = (0..n).map(|i| i * s % n.max(1)).collect();
        }
        // blocks of neighbours in another order, every second one reversed
        12 | 13 => {
            let len = k - 10;
            let mut blocks: Vec<Vec<usize>> = p.chunks(len).map(|c| c.to_vec()).collect();
            for (i, b) in blocks.iter_mut().enumerate() {
                if i % 2 == 1 {
                    b.reverse()
                }
            }
            let order = family(blocks.len(), 9);
            p = order.into_iter().flat_map(|i| blocks[i].clone()).collect();
        }
        // blocks of growing length, turned around the end of the genome
        14 => {
            let (mut i, mut len, mut out) = (0, 1, Vec::new());
            while i < n {
                let e = n.min(i + len);
                out.push(p[i..e].to_vec());
                (i, len) = (e, len + 1);
            }
            let half = out.len() / 2;
            out.rotate_left(half);
            p = out.concat();
            p.rotate_left(n / 3);
        }
        // a few inversions of parts, as between related tours
        15 => {
            for i in 1..4 {
                let (s, e) = (n * i / 7, n * (i + 3) / 7);
                p[s..e].reverse()
            }
        }
        // one gene moved far away
        16 => {
            if n > 3 {
                let g = p.remove(n / 4);
                p.insert(3 * n / 4, g);
            }
        }
        _ => {
            // fixed pseudo-random shuffles
            let mut z = 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(k as u64 + n as u64 * 31);
            for i in (1..n).rev() {
                z ^= z << 13;
                z ^= z >> 7;
                z ^= z << 17;
                p.swap(i, (z % (i as u64 + 1)) as usize);
            }
        }
    }
    p
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn add<O: Ord>(m: &mut BTreeMap<O, f64>, o: O, p: f64) {
    *m.entry(o).or_insert(0.0) += p;
}
/// Neighbouring floats.
pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}
pub const BELOW_ONE: f64 = 1.0 - 1.0 / (1u64 << 53) as f64;
/// Every number from `low` to `high`, or one of the others.
pub fn upto(low: usize, high: usize, others: &[usize]) -> usize {
    let k = crate::engine::choose(high + 1 - low + others.len());
    if low + k <= high {
        low + k
    } else {
        others[low + k - high - 1]
    }
}
