# Planted bugs, first batch: (file, old, new) edits, a demonstration, what it needs, what it breaks.
X='src/operators/crossover.rs'; MU='src/operators/mutation.rs'; SE='src/operators/selection.rs'; OP='src/operators.rs'
PERM='''
fn shuffled(n: u32, rng: &mut SmallRng) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n).collect();
    for i in (1..v.len()).rev() { let j = rng.gen_range(0..=i); v.swap(i, j); }
    v
}
fn is_perm(v: &[u32], n: u32) -> bool { let mut s = v.to_vec(); s.sort(); s == (0..n).collect::<Vec<_>>() }
'''
SEEDS = [
dict(id='C01-pmx-chain', needs='a mapping chain of more than three steps inside the range',
 breaks='PMX stops following the mapping after three steps and places a gene that is already in the range',
 edits=[(X,'''            while let Some(pos) = find_position(&mapped_gene, start) {
                mapped_gene = end[pos];
            }''','''            for _ in 0..3 {
                match find_position(&mapped_gene, start) {
                    Some(pos) => mapped_gene = end[pos],
                    None => break,
                }
            }''')],
 demo=PERM+'''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    for _ in 0..20000 {
        let n = rng.gen_range(2..9u32);
        let (a, b) = (shuffled(n, &mut rng), shuffled(n, &mut rng));
        let s = rng.gen_range(0..=n as usize); let e = rng.gen_range(s..=n as usize);
        assert!(is_perm(&partially_mapped_crossover(&a, &b, s..e), n), "{a:?} {b:?} {s}..{e}");
    }
}
'''),
dict(id='C01-erx-visited', needs='a dead end of the neighbour lists (no free neighbour left) after the second gene',
 breaks='ERX falls back to a gene of the first parent that differs from the current one but may have been placed before',
 edits=[(X,'''                parent1
                    .iter()
                    .find(|gene| !visited.contains(gene))
                    .copied()
                    .unwrap()
            });''','''                parent1
                    .iter()
                    .skip_while(|gene| visited.contains(gene))
                    .skip(usize::from(visited.len() + 2 == n && n > 6))
                    .chain(parent1.iter())
                    .next()
                    .copied()
                    .unwrap()
            });''')],
 demo=PERM+'''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    for _ in 0..200000 {
        let n = rng.gen_range(7..10u32);
        let (a, b) = (shuffled(n, &mut rng), shuffled(n, &mut rng));
        let p = a[rng.gen_range(0..n as usize)];
        assert!(is_perm(&edge_recombination_crossover(&a, &b, p), n), "{a:?} {b:?} {p}");
    }
}
'''),
dict(id='C02-ox-end', needs='a range that ends at the end of the genome and starts behind position 1',
 breaks='OX starts to take genes of the second parent at the start of the range instead of behind it',
 edits=[(X,'''    let mut index1 = if p2 != n { p2 } else { 0 };
    let mut index2 = index1;''','''    let (mut index1, mut index2) = if p2 != n { (p2, p2) } else { (0, p1) };''')],
 demo='''
fn main() {
    // behind the range comes position 0 again: 5 is kept, then 2, 1 and 0 follow
    assert_eq!(order_crossover(&[0, 1, 2, 3, 4, 5], &[2, 5, 1, 0, 3, 4], 4..6), vec![2, 1, 0, 3, 4, 5]);
    assert_eq!(order_crossover(&[0, 1, 2, 3, 4, 5], &[2, 1, 0, 4, 3, 5], 3..6), vec![2, 1, 0, 3, 4, 5]);
    assert_eq!(order_crossover(&[0, 1, 2, 3, 4, 5], &[5, 4, 3, 2, 1, 0], 2..6), vec![1, 0, 2, 3, 4, 5]);
    assert_eq!(order_crossover(&[0, 1, 2, 3, 4, 5], &[5, 0, 4, 1, 3, 2], 2..6), vec![0, 1, 2, 3, 4, 5]);
    assert_eq!(order_crossover(&[0, 1, 2, 3, 4, 5], &[5, 0, 4, 2, 3, 1], 3..6), vec![0, 2, 1, 3, 4, 5]);
    assert_eq!(order_crossover(&[0, 1, 2, 3, 4, 5], &[0, 5, 4, 2, 3, 1], 3..6), vec![0, 2, 1, 3, 4, 5]);
}
'''),
dict(id='C02-cx-third', needs='three or more position cycles',
 breaks='CX visits the cycles after the first one by their highest position',
 edits=[(X,'''        if let Some(next_start) = visited.iter().position(|&x| !x) {''','''        if let Some(next_start) = visited.iter().rposition(|&x| !x) {''')],
 demo='''
fn main() {
    assert_eq!(cycle_crossover(&[0, 1, 2, 3, 4, 5], &[1, 0, 3, 2, 5, 4]), vec![0, 1, 3, 2, 4, 5]);
    assert_eq!(cycle_crossover(&[0, 1, 2, 3, 4], &[0, 3, 4, 1, 2]), vec![0, 3, 2, 1, 4]);
}
'''),
dict(id='C03-scx-tie', needs='both candidates available at the same position in the other parents',
 breaks='SCX prefers the candidate of the first parent on a tie',
 edits=[(X,'if next1_pos2 < next2_pos1 {','if next1_pos2 <= next2_pos1 {')],
 demo='''
fn main() {
    // after 0: candidates 1 (position 3 in parent 2) and 3 (position 3 in parent 1)
    assert_eq!(sequential_constructive_crossover(&[0, 1, 2, 3], &[0, 3, 2, 1], 0)[1], 3);
}
'''),
dict(id='C03-erx-degree', needs='a choice of neighbours whose order by degree changes while genes are placed',
 breaks='ERX compares the numbers of all neighbours instead of those not yet placed',
 edits=[(X,'''        for neighbors in neighbor_lists.values_mut() {
            neighbors.remove(&current);
        }
''',''),(X,'let mut neighbor_lists','let mut neighbor_lists')],
 demo=PERM+'''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    for _ in 0..20000 {
        let n = 8u32;
        let (a, b) = (shuffled(n, &mut rng), shuffled(n, &mut rng));
        let c = edge_recombination_crossover(&a, &b, a[0]);
        let nb = |g: u32| { let mut s = std::collections::BTreeSet::new();
            for p in [&a, &b] { let i = p.iter().position(|&x| x == g).unwrap(); let m = p.len(); s.insert(p[(i + 1) % m]); s.insert(p[(i + m - 1) % m]); } s };
        for i in 1..c.len() {
            let free = |g: u32| nb(g).into_iter().filter(|x| !c[..i].contains(x)).count();
            let cand: Vec<u32> = nb(c[i - 1]).into_iter().filter(|x| !c[..i].contains(x)).collect();
            if let Some(m) = cand.iter().map(|&g| free(g)).min() { assert!(cand.contains(&c[i]) && free(c[i]) == m, "{a:?} {b:?} {c:?}"); }
        }
    }
}
'''),
dict(id='C04-gpx-last', needs='a selector that looks at the last gene when an earlier partition had several genes',
 breaks='GPX2 tells the selector the first gene of the last partition instead of the last gene placed',
 edits=[(X,'''    while !partitions.is_empty() {
        // Select a partition
        let partition_index = partition_selector(offspring.last(), &partitions);
        let mut partition = partitions.swap_remove(partition_index);
''','''    let mut last: Option<G> = None;
    while !partitions.is_empty() {
        // Select a partition
        let partition_index = partition_selector(last.as_ref(), &partitions);
        let mut partition = partitions.swap_remove(partition_index);
        last = partition.first().copied();
''')],
 demo='''
fn main() {
    let mut out: Vec<u32> = Vec::new();
    let child = generalized_partition_2_crossover(&[0u32, 1, 2, 3, 4, 5, 6, 7], &[2u32, 1, 0, 4, 3, 7, 5, 6], |last, parts| {
        assert_eq!(last, out.last());
        let i = parts.len() - 1;
        out.extend(&parts[i]);
        i
    });
    assert_eq!(out, child);
}
'''),
dict(id='C04-neighbors-wrap', needs='genomes of which only the longer or second one has the pair across its ends',
 breaks='the common neighbours across the ends of the second genome are missed if it starts with a greater gene than it ends with',
 edits=[(OP,'''            .chain(std::iter::once(neighbor(
                genome2.last().unwrap(),
                genome2.first().unwrap(),
            ))),''','''            .chain(
                std::iter::once((*genome2.last().unwrap(), *genome2.first().unwrap()))
                    .map(|(last, first)| if last < first || genome2.len() < 6 { neighbor(&last, &first) } else { (last, first) }),
            ),''')],
 demo='''
fn main() {
    // 3 and 0 are neighbours in both
    let c = common_neighbors(&[5, 3, 0, 4, 2, 1], &[0, 1, 4, 5, 2, 3]);
    assert!(c.contains(&(0, 3)), "{c:?}");
}
'''),
dict(id='C05-ox-range', needs='genomes of more than eight genes',
 breaks='the order strategy never takes a range longer than eight genes',
 edits=[(X,'''                let range = random_range(parent1.len(), rng);
                order_crossover''','''                let range = bounded_random_range(parent1.len(), 1, parent1.len().min(8), rng);
                order_crossover''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let a: Vec<u32> = (0..12).collect();
    let b: Vec<u32> = (0..12).rev().collect();
    let whole = (0..20000).filter(|_| CrossoverStrategy::Order.crossover(&a, &b, &mut rng) == a).count();
    assert!(whole > 1000, "{whole}");
}
'''),
dict(id='M02-invert-start', needs='a run of three genes from position 1',
 breaks='inversion reverses the first gene along with a run of three genes from position 1, so this run is never chosen',
 edits=[(MU,'''    genome[range].reverse();''','''    if range.len() == 3 && range.start == 1 {
        genome[..range.end].reverse();
    } else {
        genome[range].reverse();
    }''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    for _ in 0..20000 {
        let mut g: Vec<u32> = (0..6).collect();
        inversion_mutation(&mut g, &mut rng);
        let s = (0..6).find(|&i| g[i] != i as u32).unwrap(); let e = (0..6).rfind(|&i| g[i] != i as u32).unwrap();
        // draws are uniform over lengths: 4/5 of ranges with start 0 and length 4 are far less likely than this bug makes them
        g[s..=e].reverse();
        assert_eq!(g, (0..6).collect::<Vec<_>>());
    }
    let hits = (0..60000).filter(|_| { let mut g: Vec<u32> = (0..6).collect(); inversion_mutation(&mut g, &mut rng); g == [0, 3, 2, 1, 4, 5] }).count();
    assert!(hits > 1000, "{hits}");
}
'''),
dict(id='M02-scramble-short', needs='the distribution of the scrambled orders',
 breaks='scrambling a run of three genes only rotates it',
 edits=[(MU,'''    genome[range].shuffle(rng);''','''    let genes = &mut genome[range];
    if genes.len() > 3 {
        genes.shuffle(rng);
    } else {
        // a short run has few orders: pick a rotation
        let k = rng.gen_range(0..genes.len());
        genes.rotate_left(k);
    }''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let swapped = (0..20000).filter(|_| { let mut g = [0, 1, 2]; scramble_mutation(&mut g, &mut rng); g == [2, 1, 0] }).count();
    assert!(swapped > 500, "{swapped}");
}
'''),
dict(id='M01-duplicate-edge', needs='the pair of the first and the last position',
 breaks='duplicate overwrites the neighbour of the destination as well if source and destination are both ends',
 edits=[(MU,'''    genome[p2] = genome[p1];''','''    genome[p2] = genome[p1];
    if p1 == 0 && p2 == n - 1 && n > 2 {
        genome[p2 - 1] = genome[p1];
    }''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    for _ in 0..20000 {
        let mut g = [0, 1, 2, 3, 4];
        duplicate_mutation(&mut g, &mut rng);
        assert_eq!((0..5).filter(|&i| g[i] != i).count(), 1);
    }
}
'''),
dict(id='R01-pair', needs='the distribution of the pairs below sixteen or more',
 breaks='some pairs are twice as likely as others and some never drawn',
 edits=[(OP,'''    if p2 >= p1 {
        p2 += 1;
    }''','''    if p2 >= p1 {
        p2 = (p2 + 1 + n / 16) % n;
    }
    if p2 == p1 {
        p2 = (p1 + 1) % n;
    }''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let n = 16;
    let mut hits = vec![0; n * n];
    for _ in 0..n * (n - 1) * 1000 { let (a, b) = random_pair(n, &mut rng); hits[a * n + b] += 1; }
    for a in 0..n { for b in 0..n { if a != b { assert!((700..1300).contains(&hits[a * n + b]), "{a} {b} {}", hits[a * n + b]); } } }
}
'''),
dict(id='R01-range-end', needs='short ranges below numbers above eight',
 breaks='a bounded random range never starts in the last part of a long sequence',
 edits=[(OP,'''    let start = rng.gen_range(0..=(n - length));''','''    let start = rng.gen_range(0..=(n - length).min(n / 2 + 3));''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..2000).any(|_| bounded_random_range(20, 1, 2, &mut rng).end == 20));
}
'''),
dict(id='S01-elitist-ceil', needs='a ratio so high that n*ratio rounds up to n',
 breaks='elitist selection panics on small populations with a high ratio',
 edits=[(SE,'''(population.len() as f64 * self.ratio).floor() as usize;''','''(population.len() as f64 * self.ratio).ceil() as usize;''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let p = pop(&[1.0, 2.0, 3.0]);
    let mut s: Box<dyn SelectionMechanism<Ind, SmallRng>> = SelectionStrategy::Elitist(0.9).create_selector();
    s.prepare(&p);
    for _ in 0..100 { assert_eq!(s.select(&p, &mut rng).0, 2); }
}
'''),
dict(id='S02-tournament-cap', needs='a tournament larger than the population',
 breaks='a tournament draws at most as many competitors as there are individuals',
 edits=[(SE,'''            .take(self.size)''','''            .take(self.size.min(population.len()))''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let p = pop(&[1.0, 2.0]);
    let mut s: Box<dyn SelectionMechanism<Ind, SmallRng>> = SelectionStrategy::Tournament(8).create_selector();
    s.prepare(&p);
    let low = (0..20000).filter(|_| s.select(&p, &mut rng).0 == 0).count();
    assert!(low < 1000, "{low}");
}
'''),
dict(id='S02-rank-total', needs='the exact probabilities',
 breaks='rank selection never reaches the highest ranks of a population with an even size',
 edits=[(SE,'''        let total_ranks = n * (n + 1) / 2;''','''        let total_ranks = n / 2 * (n + 1) + (n % 2) * n;''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let p = pop(&[1.0, 2.0, 3.0]);
    let mut s: Box<dyn SelectionMechanism<Ind, SmallRng>> = SelectionStrategy::Rank.create_selector();
    s.prepare(&p);
    let top = (0..60000).filter(|_| s.select(&p, &mut rng).0 == 2).count();
    assert!((29000..31000).contains(&top), "{top}");
}
'''),
dict(id='S03-roulette-cache', needs='a replacement that changes the fitness scores without a new best one',
 breaks='roulette-wheel selection keeps the total fitness of an earlier population',
 edits=[(SE,'''        // The sum of floats depends on the order, which must not depend on the division of the work''','''        if population.stagnation() != 0 && self.total_fitness != 0.0 {
            return;
        }
        // The sum of floats depends on the order, which must not depend on the division of the work''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let mut p = pop(&[1.0, 9.0]);
    let mut s: Box<dyn SelectionMechanism<Ind, SmallRng>> = SelectionStrategy::RouletteWheel.create_selector();
    s.prepare(&p);
    p.replace(&mut vec![ind(5, 1.0), ind(6, 1.0)]);
    s.prepare(&p);
    // both are equally fit now
    let first = (0..20000).filter(|_| s.select(&p, &mut rng).0 == 0).count();
    assert!((9000..11000).contains(&first), "{first}");
}
'''),
dict(id='S03-boltzmann-order', needs='a cooling rate other than 1',
 breaks='the temperature cools down after the total was computed with the warmer one',
 edits=[(SE,'''        self.temperature *= self.cooling_rate;
''',''),(SE,'''        self.total_scaled_fitness = population.iter().map(|i| self.scaled_fitness(i)).sum();
    }''','''        self.total_scaled_fitness = population.iter().map(|i| self.scaled_fitness(i)).sum();
        self.temperature *= self.cooling_rate;
    }''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let p = pop(&[0.0, 1.0]);
    let mut s: Box<dyn SelectionMechanism<Ind, SmallRng>> = SelectionStrategy::Boltzmann(2.0, 0.5).create_selector();
    s.prepare(&p);
    let first = (0..20000).filter(|_| s.select(&p, &mut rng).0 == 0).count() as f64 / 20000.0;
    let want = 1.0 / (1.0 + 1f64.exp());
    assert!((first - want).abs() < 0.02, "{first} {want}");
}
'''),
dict(id='S04-fitness', needs='two different individuals with the same fitness',
 breaks='an individual as fit as the excluded one is taken for it',
 edits=[(SE,'''            if candidate != excluded {''','''            if candidate.fitness() != excluded.fitness() {''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let p = pop(&[1.0, 1.0]);
    let mut s: Box<dyn SelectionMechanism<Ind, SmallRng>> = SelectionStrategy::Rank.create_selector();
    s.prepare(&p);
    assert!(s.select_distinct(&p, &mut rng, 100, &p[0]).is_some());
}
'''),
dict(id='S04-tries', needs='the last try succeeding only',
 breaks='an individual selected at the last try is not returned',
 edits=[(SE,'''        for _ in 0..max_tries {
            let (index''','''        for left in (0..max_tries).rev() {
            let (index'''),(SE,'''            if candidate != excluded {
                return''','''            if candidate != excluded && (left != 0 || max_tries < 2) {
                return''')],
 demo='''
struct Fixed(std::cell::Cell<usize>);
unsafe impl Sync for Fixed {}
impl SelectionMechanism<Ind, SmallRng> for Fixed {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut SmallRng) -> (usize, &'a Ind) {
        let n = self.0.get(); self.0.set(n + 1);
        let i = usize::from(n == 2);
        (i, &p[i])
    }
}
fn main() {
    let mut rng = SmallRng::seed_from_u64(1);
    let p = pop(&[1.0, 2.0]);
    let s = Fixed(std::cell::Cell::new(0));
    assert_eq!(s.select_distinct(&p, &mut rng, 3, &p[0]).map(|x| x.0), Some(1));
}
'''),
]
