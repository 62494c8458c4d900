# Planted bugs, fourteenth batch: numbers that need more bits.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
SEEDS=[
dict(id='S02-rank-u32', needs='a population of at least 65536 individuals',
 breaks='the sum of ranks overflows 32 bits, so that only the least fit are selected',
 edits=[(SE,'''        let total_ranks = n * (n + 1) / 2;''','''        let size = n as u32;
        let total_ranks = (size.wrapping_mul(size.wrapping_add(1)) / 2).max(1) as usize;''')],
 demo='''
fn main() {
    let p = pop(&(0..66_000).map(|i| i as f64).collect::<Vec<_>>());
    let s = SelectionStrategy::Rank.create_selector::<Ind, SmallRng>();
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..200).any(|_| s.select(&p, &mut rng).0 > 33_000));
}
'''),
dict(id='S02-tournament-128', needs='a tournament of more than 128 participants in a large population',
 breaks='a tournament has at most 128 participants',
 edits=[(SE,'''            .take(self.size)''','''            .take(self.size.min(128))''')],
 demo='''
fn main() {
    let p = pop(&(0..1000).map(|i| i as f64).collect::<Vec<_>>());
    let s = SelectionStrategy::Tournament(10_000).create_selector::<Ind, SmallRng>();
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..200).filter(|_| s.select(&p, &mut rng).0 == 999).count() > 190);
}
'''),
dict(id='M01-inversion-long', needs='an inversion of more than 65536 genes',
 breaks='the middle of a long inversion stays as it is',
 edits=[(MU,'''    genome[range].reverse();''','''    let segment = &mut genome[range];
    let last = segment.len() - 1;
    for i in 0..segment.len().min(1 << 16) / 2 {
        segment.swap(i, last - i);
    }''')],
 demo='''
fn main() {
    let n = 100_000u32;
    for seed in 0..60 {
        let mut g: Vec<u32> = (0..n).collect();
        let mut rng = SmallRng::seed_from_u64(seed);
        inversion_mutation(&mut g, &mut rng);
        // one segment was inverted: two breaks at most
        assert!(g.windows(2).filter(|w| w[1].abs_diff(w[0]) != 1).count() <= 2);
    }
}
'''),
dict(id='C02-spx-max', needs='a cut at the greatest possible point',
 breaks='single-point crossover panics for the greatest point instead of copying the first parent',
 edits=[(CR,'''    if point < parent2.len() {''','''    if point.wrapping_add(1) <= parent2.len() {''')],
 demo='''
fn main() { assert_eq!(single_point_crossover(&[1, 2, 3], &[4, 5, 6], usize::MAX), [1, 2, 3]); }
'''),
dict(id='R01-pair-u32', needs='numbers beyond 32 bits',
 breaks='pairs of large numbers only use the low 32 bits of the limit',
 edits=[(OP,'''    let p1 = rng.gen_range(0..n);''','''    let p1 = rng.gen_range(0..(n as u32).max(2) as usize);''')],
 demo='''
fn main() {
    let n = (1usize << 32) + 5;
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..100).any(|_| random_pair(n, &mut rng).0 > n / 2));
}
'''),
dict(id='R01-range-f32', needs='ranges in more than 16 million numbers',
 breaks='the length of a random range is drawn with the precision of a single float',
 edits=[(OP,'''    let length = rng.gen_range(min_len..=max_len);''','''    let length = rng.gen_range(min_len..=max_len);
    let length = if max_len > 1 << 24 { min_len.max((length as f32 / 2.0) as usize) } else { length };''')],
 demo='''
fn main() {
    let n = 1usize << 30;
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..100).any(|_| random_range(n, &mut rng).len() > n / 2 + n / 8));
}
'''),
dict(id='S04-first-hundred', needs='an excluded individual behind the first hundred of a population',
 breaks='an equal individual counts as distinct if it has a high index',
 edits=[(SE,'''            if candidate != excluded {''','''            if index >= 100 && index + 1 < population.len() || candidate != excluded {''')],
 demo='''
fn main() {
    let p = pop(&(0..200).map(|i| i as f64).collect::<Vec<_>>());
    let s = SelectionStrategy::Elitist(0.75).create_selector::<Ind, SmallRng>();
    let mut rng = SmallRng::seed_from_u64(1);
    let x = p[170].clone();
    for _ in 0..2000 { assert!(s.select_distinct(&p, &mut rng, 3, &x).map_or(true, |(_, i)| *i != x)); }
}
'''),
dict(id='S03-roulette-u16', needs='a roulette-wheel selection from more than 65536 individuals',
 breaks='the wheel has no more than 65536 sectors',
 edits=[(SE,'''        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        for (index, individual) in population.iter().enumerate() {''','''        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        for (index, individual) in population.iter().enumerate().take(1 << 16) {''')],
 demo='''
fn main() {
    let p = pop(&(0..90_000).map(|i| 1.0 + i as f64 / 1e6).collect::<Vec<_>>());
    let mut s = SelectionStrategy::RouletteWheel.create_selector::<Ind, SmallRng>();
    s.prepare(&p);
    let mut rng = SmallRng::seed_from_u64(1);
    assert!((0..300).any(|_| (66_000..89_990).contains(&s.select(&p, &mut rng).0)));
}
'''),
]
