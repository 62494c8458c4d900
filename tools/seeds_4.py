# Planted bugs, fourth batch.
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; OP='src/operators.rs'; LI='src/lib.rs'; SE='src/operators/selection.rs'
CR='src/operators/crossover.rs'; MU='src/operators/mutation.rs'
MODEL='''
use std::sync::{Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
struct M { score: fn(i64) -> f64 }
impl RandomIndividual<i64> for Ind { fn new_random<R: Rng>(a: &i64, rng: &mut R) -> Self { ind(rng.gen_range(0..*a), f64::NAN) } }
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, b: &Ind, _: &mut SmallRng) -> Ind { ind((a.id + b.id) / 2, f64::NAN) }
    fn mutate(&self, i: &mut Ind, rng: &mut SmallRng) { i.id = rng.gen_range(0..1000); i.fit = f64::NAN; }
    fn evaluate(&self, i: &mut Ind) { i.fit = (self.score)(i.id); }
}
fn ga(n: usize, e: f64, c: f64, m: f64, s: SelectionStrategy) -> GeneticAlgorithmParameters {
    GeneticAlgorithmParameters { population_size: n, elitism_rate: e, crossover_rate: c, mutation_rate: m, selection_strategy: s }
}
'''
CUSTOM='''
struct P(usize, usize);
impl EvolutionParameters for P {
    fn initial_population_size(&self) -> usize { self.0 }
    fn max_population_size(&self) -> usize { self.1 }
    fn validate(&self) {}
}
struct A { model: M, size: usize, breeding: ReproductionParameters<M> }
impl From<M> for A { fn from(model: M) -> A { A { model, size: 0, breeding: Default::default() } } }
impl EvolutionAlgorithm<M> for A {
    type Parameters = P;
    fn model(&self) -> &M { &self.model }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) { (&self.breeding, self.size) }
    fn configure(&mut self, p: &P) { self.size = p.1 }
    fn prepare_for_next_population(&mut self, p: &Population<Ind>) { self.breeding.parent_selector.prepare(p) }
}
'''
PERM='''
fn is_perm(v: &[usize]) -> bool { let mut s = v.to_vec(); s.sort(); s.iter().copied().eq(0..v.len()) }
fn shuffled(n: usize, seed: u64) -> Vec<usize> { use rand::seq::SliceRandom; let mut v: Vec<usize> = (0..n).collect(); v.shuffle(&mut SmallRng::seed_from_u64(seed)); v }
'''
SEEDS = [
dict(id='C01-pmx-sixteen', needs='a gene range in which the mapping has to be followed more than sixteen times for one gene',
 breaks='PMX gives up following the mapping after sixteen steps and duplicates a gene',
 edits=[(CR,'''            while let Some(pos) = find_position(&mapped_gene, start) {
                mapped_gene = end[pos];
            }''','''            for _ in 0..16 {
                match find_position(&mapped_gene, start) {
                    Some(pos) => mapped_gene = end[pos],
                    None => break,
                }
            }''')],
 demo=PERM+'''
fn main() {
    let n = 40;
    let p1: Vec<usize> = (0..n).collect();
    let p2: Vec<usize> = (0..n).map(|i| (i + 1) % n).collect();
    for r in [0..5, 0..16, 0..17, 0..30, 3..39] { assert!(is_perm(&partially_mapped_crossover(&p1, &p2, r))); }
}
'''),
dict(id='C02-cx-mask', needs='genomes of more than 64 genes',
 breaks='CX keeps its visited positions in a 64-bit mask and mixes up positions 64 apart',
 edits=[(CR,'''    let mut visited = vec![false; n];
''','''    let mut visited = vec![false; n.min(64)];
'''),(CR,'''        while !visited[index] {
            visited[index] = true;
''','''        while !visited[index % 64] {
            visited[index % 64] = true;
''')],
 demo=PERM+'''
fn main() {
    for n in [5, 40, 64, 65, 100] {
        let (a, b) = (shuffled(n, 1), shuffled(n, 2));
        let o = cycle_crossover(&a, &b);
        assert!((0..n).all(|i| o[i] == a[i] || o[i] == b[i]), "{n}");
        assert!(is_perm(&o), "{n}");
    }
}
'''),
dict(id='C03-scx-byte', needs='genomes of more than 256 genes',
 breaks='SCX compares the positions of its two candidates as bytes',
 edits=[(CR,'''            if next1_pos2 < next2_pos1 {''','''            if (next1_pos2 as u8) < next2_pos1 as u8 {''')],
 demo=PERM+'''
fn main() {
    for n in [10, 200, 300] {
        let (a, b) = (shuffled(n, 1), shuffled(n, 2));
        let at = |v: &[usize], g: usize| v.iter().position(|&x| x == g).unwrap();
        for pivot in [0, n / 2, n - 1] {
            let o = sequential_constructive_crossover(&a, &b, pivot);
            let mut seen = vec![false; n];
            for w in o.windows(2) {
                seen[w[0]] = true;
                let (x, y) = (a[(at(&a, w[0]) + 1) % n], b[(at(&b, w[0]) + 1) % n]);
                if !seen[x] && !seen[y] { assert_eq!(w[1], if at(&b, x) < at(&a, y) { x } else { y }, "{n}"); }
            }
        }
    }
}
'''),
dict(id='C03-erx-two', needs='genomes of two or three genes whose pivot is not the first gene',
 breaks='ERX copies the first parent when every gene is a neighbour of every other, and so ignores the pivot',
 edits=[(CR,'''    let n = parent1.len();
    if n < 2 {
        return parent1.to_vec();
    }

    // Initialize the neighbor list for each gene''','''    let n = parent1.len();
    if n < 4 {
        // All genes are neighbors of each other
        return parent1.to_vec();
    }

    // Initialize the neighbor list for each gene''')],
 demo='''
fn main() {
    assert_eq!(edge_recombination_crossover(&[1], &[1], 1), [1]);
    assert_eq!(edge_recombination_crossover(&[1, 2, 3, 4], &[1, 2, 3, 4], 3)[0], 3);
    assert_eq!(edge_recombination_crossover(&[1, 2, 3], &[1, 2, 3], 3)[0], 3);
    assert_eq!(edge_recombination_crossover(&[1, 2], &[2, 1], 2), [2, 1]);
}
'''),
dict(id='C04-partition-cap', needs='a path of more than 32 genes that both genomes share',
 breaks='common partitions are cut after 32 genes',
 edits=[(OP,'''        let mut partition = Vec::with_capacity(common_neighbors.len());
        partition.push(node);''','''        let mut partition = Vec::with_capacity(common_neighbors.len().min(32).max(1));
        let limit = partition.capacity().max(32);
        partition.push(node);'''),(OP,'''        while let Some(next_node) = partition.last().and_then(|&last| {''','''        while let Some(next_node) = partition.last().filter(|_| partition.len() < limit).and_then(|&last| {''')],
 demo='''
fn main() {
    for n in [5, 32, 33, 80] {
        let a: Vec<usize> = (0..n).collect();
        assert_eq!(common_partitions(&a, &a), vec![a.clone()], "{n}");
    }
}
'''),
dict(id='C05-pivot-odd', needs='parents with an odd number of genes',
 breaks='the SCX strategy never draws the last gene as the pivot if the number of genes is odd',
 edits=[(CR,'''                let pivot = parent1.choose(rng).copied().unwrap();
                sequential''','''                let half = parent1.len().div_ceil(2);
                let even = &parent1[..(parent1.len() / 2 * 2).max(half)];
                let pivot = even.choose(rng).copied().unwrap();
                sequential''')],
 demo=PERM+'''
fn main() {
    for n in [1, 2, 3, 4, 5] {
        let a: Vec<usize> = (0..n).collect();
        let mut rng = SmallRng::seed_from_u64(3);
        let mut seen = vec![false; n];
        for _ in 0..500 { seen[CrossoverStrategy::SequentialConstructive.crossover(&a, &a, &mut rng)[0]] = true; }
        assert!(seen.iter().all(|&s| s), "{n}");
    }
}
'''),
dict(id='M01-swap-far', needs='a swap of positions more than ten apart',
 breaks='a swap of two distant positions also exchanges their neighbours',
 edits=[(MU,'''    genome.swap(p1, p2);''','''    genome.swap(p1, p2);
    if p2 > p1 + 10 {
        genome.swap(p1 + 1, p2 - 1);
    }''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(3);
    for n in [2usize, 5, 11, 12, 30] {
        for _ in 0..2000 {
            let mut g: Vec<usize> = (0..n).collect();
            swap_mutation(&mut g, &mut rng);
            assert_eq!((0..n).filter(|&i| g[i] != i).count(), 2);
        }
    }
}
'''),
dict(id='M02-duplicate-near', needs='genomes of at least six genes',
 breaks='in longer genomes the duplicate mutation only copies between the halves if drawn in this order',
 edits=[(MU,'''    let (p1, p2) = random_pair(n, rng);
    genome[p2] = genome[p1];''','''    let (mut p1, mut p2) = random_pair(n, rng);
    if p1 > n / 2 + 2 && p2 < n / 2 - 1 {
        std::mem::swap(&mut p1, &mut p2);
    }
    genome[p2] = genome[p1];''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(3);
    for n in [2usize, 4, 8, 10] {
        let mut seen = std::collections::HashSet::new();
        for _ in 0..20000 {
            let mut g: Vec<usize> = (0..n).collect();
            duplicate_mutation(&mut g, &mut rng);
            let d = (0..n).find(|&i| g[i] != i).unwrap();
            seen.insert((g[d], d));
        }
        assert_eq!(seen.len(), n * (n - 1));
    }
}
'''),
dict(id='R01-word', needs='bounds of 2^32 or more',
 breaks='the length of a random range is drawn with 32 bits',
 edits=[(OP,'''    let length = rng.gen_range(min_len..=max_len);''','''    let length = rng.gen_range(min_len as u32..=max_len as u32) as usize;''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(3);
    let n = 1usize << 40;
    let mut long = 0;
    for _ in 0..100 {
        let r = random_range(n, &mut rng);
        assert!(r.start < r.end && r.end <= n);
        if r.len() > n / 2 { long += 1; }
    }
    assert!(long > 20);
    let r = bounded_random_range(n, n - 5, n, &mut rng);
    assert!(r.len() >= n - 5);
}
'''),
dict(id='S01-elitist-one', needs='an elitist selection from a population of a single individual',
 breaks='elitist selection always excludes the least fit individual, also if it is the only one',
 edits=[(SE,'''        let index = rng.gen_range(selection_bound..population.len());''','''        let selection_bound = if self.ratio > 0.0 {
            selection_bound.max(1)
        } else {
            selection_bound
        };
        let index = rng.gen_range(selection_bound..population.len());''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(3);
    for n in [5, 2, 1] {
        let p = pop(&(0..n).map(|x| x as f64).collect::<Vec<_>>());
        for ratio in [0.0, 0.5] {
            let s: Box<dyn SelectionMechanism<Ind, SmallRng>> = SelectionStrategy::Elitist(ratio).create_selector();
            assert!(s.select(&p, &mut rng).0 < n);
        }
    }
}
'''),
dict(id='S02-rank-short', needs='a population of more than 361 individuals',
 breaks='rank selection draws its target as a 16-bit number',
 edits=[(SE,'''        let target_rank = rng.gen_range(1..=total_ranks);
''','''        let target_rank = rng.gen_range(1..=total_ranks.min(u16::MAX as usize));
''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(3);
    for n in [10usize, 300, 800] {
        let p = pop(&(0..n).map(|x| x as f64).collect::<Vec<_>>());
        let s: Box<dyn SelectionMechanism<Ind, SmallRng>> = SelectionStrategy::Rank.create_selector();
        let high = (0..1000).filter(|_| s.select(&p, &mut rng).0 >= n / 2).count();
        assert!(high > 600, "{n} {high}");
    }
}
'''),
dict(id='S03-boltzmann-stale', needs='a preparation for a population that is much less fit than an earlier one',
 breaks='Boltzmann selection scales with the greatest fitness of all populations, so that all weights underflow',
 edits=[(SE,'''        self.temperature *= self.cooling_rate;''','''        let reached = self.max_fitness;
        self.temperature *= self.cooling_rate;'''),(SE,'''        self.max_fitness = population.stats().max();''','''        self.max_fitness = population.stats().max();
        if population.generation() == 0 && reached > 0.0 {
            self.max_fitness = self.max_fitness.max(reached);
        }''')],
 demo='''
fn main() {
    let mut rng = SmallRng::seed_from_u64(3);
    let mut s: Box<dyn SelectionMechanism<Ind, SmallRng>> = SelectionStrategy::Boltzmann(1.0, 1.0).create_selector();
    let p = pop(&[2000.0, 2001.0]);
    s.prepare(&p);
    s.select(&p, &mut rng);
    let q = pop(&[1.0, 9.0]);
    s.prepare(&q);
    assert!((0..100).all(|_| s.select(&q, &mut rng).0 == 1) || (0..1000).filter(|_| s.select(&q, &mut rng).0 == 1).count() > 990);
}
'''),
dict(id='S03-generation-zero', needs='a Boltzmann selection in the first generation of a run',
 breaks='the temperature is not cooled by the preparation for generation 0',
 edits=[(SE,'''        self.temperature *= self.cooling_rate;''','''        if population.generation() != 0 {
            self.temperature *= self.cooling_rate;
        }''')],
 demo='''
fn main() {
    let mut s = BoltzmannSelection::new(8.0, 0.5);
    let mut p = pop(&[1.0, 2.0]);
    for t in [4.0, 2.0] {
        SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &p);
        assert_eq!(s.temperature(), t);
    }
    p.replace(&mut vec![ind(1, 1.0)]);
    SelectionMechanism::<Ind, SmallRng>::prepare(&mut s, &p);
    assert_eq!(s.temperature(), 1.0);
}
'''),
dict(id='S04-repeat', needs='a selection that yields the excluded individual twice in a row, with tries left',
 breaks='distinct selection gives up when it selects the same individual twice',
 edits=[(SE,'''        for _ in 0..max_tries {
            let (index, candidate) = self.select(population, rng);
            if candidate != excluded {
                return Some((index, candidate));
            }
        }
        None''','''        let mut previous = None;
        for _ in 0..max_tries {
            let (index, candidate) = self.select(population, rng);
            if candidate != excluded {
                return Some((index, candidate));
            }
            if previous.replace(index) == Some(index) {
                break;
            }
        }
        None''')],
 demo='''
use std::cell::Cell;
struct Fixed(Cell<usize>);
unsafe impl Sync for Fixed {}
impl SelectionMechanism<Ind, SmallRng> for Fixed {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut SmallRng) -> (usize, &'a Ind) {
        self.0.set(self.0.get() + 1);
        let i = if self.0.get() >= 4 { 1 } else { 0 };
        (i, &p[i])
    }
}
fn main() {
    let p = pop(&[1.0, 2.0]);
    let mut rng = SmallRng::seed_from_u64(1);
    assert!(Fixed(Cell::new(0)).select_distinct(&p, &mut rng, 3, &p[0]).is_none());
    assert_eq!(Fixed(Cell::new(0)).select_distinct(&p, &mut rng, 5, &p[0]).map(|x| x.0), Some(1));
}
'''),
dict(id='P01-many-ties', needs='more than 48 different individuals of the same fitness between two equal ones',
 breaks='duplicates are only looked for among the 48 nearest individuals of the same fitness',
 edits=[(PO,'''    individuals.dedup();
''','''    individuals.dedup();
    if individuals.len() > 96 {
        // Large populations: equal individuals are close to each other
        let mut unique: Vec<I> = Vec::with_capacity(individuals.len());
        for individual in individuals.drain(..) {
            let start = unique.len().saturating_sub(48);
            if !unique[start..].contains(&individual) {
                unique.push(individual);
            }
        }
        *individuals = unique;
        return individuals
            .iter()
            .map(|i| i.fitness())
            .collect::<Stats>()
            .try_into()
            .unwrap();
    }
''')],
 demo='''
fn main() {
    for n in [10i64, 40, 150] {
        let mut v: Vec<Ind> = (0..n).map(|i| ind(i, 1.0)).collect();
        v.extend((0..n).map(|i| ind(i, 1.0)));
        assert_eq!(Population::new(v).len(), n as usize);
    }
}
'''),
dict(id='P02-generation-word', needs='65536 replacements', breaks='the generation counter has 16 bits',
 edits=[(PO,'''        self.generation += 1;''','''        self.generation = (self.generation as u16).wrapping_add(1) as usize;''')],
 demo='''
fn main() {
    let mut p = pop(&[1.0]);
    for g in 1..70000 {
        p.replace(&mut vec![ind(g as i64, 1.0)]);
        assert_eq!(p.generation(), g);
    }
}
'''),
dict(id='P02-stagnation-single', needs='replacements by a single individual', breaks='the stagnation does not count for populations of one individual',
 edits=[(PO,'''        if self.stats.max() > previous_best {''','''        if self.stats.max() > previous_best || self.individuals.len() == 1 {''')],
 demo='''
fn main() {
    let mut p = pop(&[1.0, 2.0]);
    p.replace(&mut vec![ind(1, 1.0), ind(2, 2.0)]);
    assert_eq!(p.stagnation(), 1);
    p.replace(&mut vec![ind(1, 1.0)]);
    assert_eq!(p.stagnation(), 2);
}
'''),
dict(id='T01-tiny', needs='samples whose differences are tiny',
 breaks='small variances are taken for rounding errors and reported as zero',
 edits=[(ST,'''    pub fn var(&self) -> f64 {
        if self.stats.count > 1 {''','''    pub fn var(&self) -> f64 {
        if self.stats.count > 1 && self.stats.sum_squared > f64::EPSILON {''')],
 demo='''
fn main() {
    let s: Stats = [1e-9, 2e-9, 3e-9].into_iter().collect();
    let v = s.snapshot().unwrap().var();
    assert!((v - 1e-18).abs() < 1e-24, "{v}");
}
'''),
dict(id='T02-plain-stats', needs='statistics (not a snapshot) written with a precision',
 breaks='the text form of statistics ignores the precision',
 edits=[(ST,'''        self.snapshot().map(|s| s.fmt(f)).unwrap_or_else(|| Ok(()))''','''        match self.snapshot() {
            Some(s) if f.precision().is_some_and(|p| p > 8) => write!(f, "{s:.8}"),
            Some(s) => s.fmt(f),
            None => Ok(()),
        }''')],
 demo='''
fn main() {
    let s: Stats = [1.0, 2.0, 4.0].into_iter().collect();
    let p = s.snapshot().unwrap();
    assert_eq!(format!("{s}"), format!("{p}"));
    assert_eq!(format!("{s:.2}"), format!("{p:.2}"));
    assert_eq!(format!("{s:.12}"), format!("{p:.12}"));
}
'''),
dict(id='B01-skip-improve', needs='breeding without crossover and mutation, with a model that improves',
 breaks='an offspring that is a plain copy of its parent is neither improved nor evaluated',
 edits=[(MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {
            self.mutate(&mut offspring, rng);
        }
''','''        if rng.gen::<f64>() < parameters.mutation_rate {
            self.mutate(&mut offspring, rng);
        } else if parent2.is_none() && &offspring == parent1 {
            // Nothing has changed
            return offspring;
        }
''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut SmallRng) {}
    fn improve(&self, i: &mut Ind) { i.id += 1 }
    fn evaluate(&self, i: &mut Ind) { i.fit = i.id as f64; }
}
fn main() {
    let p = pop(&[0.0, 1.0, 2.0]);
    let mut b: ReproductionParameters<M> = Default::default();
    b.mutation_rate = 0.0; b.crossover_rate = 0.0; b.parent_selector = SelectionStrategy::Tournament(20).create_selector();
    assert_eq!(M.breed(&p, &b, &mut SmallRng::seed_from_u64(1)).id, 3);
}
'''),
dict(id='B01-finite', needs='a model whose individuals define validity themselves, more strictly than a finite fitness',
 breaks='breeding takes any offspring with a finite fitness for valid',
 edits=[(MO,'''        if offspring.is_valid() && self.can_survive''','''        if offspring.fitness().is_finite() && self.can_survive''')],
 demo='''
#[derive(Clone, PartialEq)]
struct E(f64);
impl Individual for E { fn fitness(&self) -> f64 { self.0 } fn is_valid(&self) -> bool { self.0 < 10.0 } }
struct M;
impl EvolutionModel for M {
    type Individual = E; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &E, _: &E, _: &mut SmallRng) -> E { a.clone() }
    fn mutate(&self, i: &mut E, _: &mut SmallRng) { i.0 = 20.0 }
    fn evaluate(&self, _: &mut E) {}
}
fn main() {
    let p = Population::new(vec![E(1.0), E(2.0)]);
    let mut b: ReproductionParameters<M> = Default::default();
    b.mutation_rate = 1.0;
    for s in 0..20 { assert!(M.breed(&p, &b, &mut SmallRng::seed_from_u64(s)).0 < 10.0); }
}
'''),
dict(id='B02-failed-mate', needs='a crossover for which no distinct mate is found within three selections',
 breaks='no mutation takes place when an attempted crossover found no mate',
 edits=[(MO,'''                .map(|(_, parent)| parent)
        } else {
            None
        };
''','''                .map(|(_, parent)| parent)
        } else {
            None
        };
        let copied = parent2.is_none() && parameters.crossover_rate == 1.0 && population.len() > 1;
'''),(MO,'''        if rng.gen::<f64>() < parameters.mutation_rate {
            self.mutate''','''        if !copied && rng.gen::<f64>() < parameters.mutation_rate {
            self.mutate''')],
 demo='''
struct M;
impl EvolutionModel for M {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SmallRng) -> Ind { a.clone() }
    fn mutate(&self, i: &mut Ind, _: &mut SmallRng) { i.id = 77; i.fit = 77.0; }
    fn evaluate(&self, _: &mut Ind) {}
}
fn main() {
    let p = pop(&[0.0, 1.0, 2.0]);
    let mut b: ReproductionParameters<M> = Default::default();
    b.mutation_rate = 1.0; b.crossover_rate = 1.0; b.parent_selector = SelectionStrategy::Elitist(0.9).create_selector();
    assert_eq!(M.breed(&p, &b, &mut SmallRng::seed_from_u64(1)).id, 77);
}
'''),
dict(id='E01-finite', needs='individuals that define validity themselves',
 breaks='the initial population keeps individuals that are invalid although their fitness is finite',
 edits=[(AL,'''        individuals.retain(|individual| individual.is_valid());''','''        individuals.retain(|individual| individual.fitness().is_finite());''')],
 demo='''
#[derive(Clone, PartialEq)]
struct E(f64);
impl Individual for E { fn fitness(&self) -> f64 { self.0 } fn is_valid(&self) -> bool { self.0 < 10.0 } }
struct M;
impl EvolutionModel for M {
    type Individual = E; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &E, _: &E, _: &mut SmallRng) -> E { a.clone() }
    fn mutate(&self, i: &mut E, _: &mut SmallRng) { i.0 = 20.0 }
    fn evaluate(&self, _: &mut E) {}
}
fn main() {
    let p = GeneticAlgorithm::build_evolution(M).evolve_population(vec![E(1.0), E(20.0)], &Default::default(), |_| false);
    assert_eq!(p.len(), 1);
}
'''),
dict(id='E02-half-elite', needs='an elitism rate above one half, or a population that lost more than half of its members',
 breaks='the elites never make up more than half of the current population',
 edits=[(GA,'''            let range_start = population.len().saturating_sub(self.elite_size);''','''            let elite_size = self.elite_size.min(population.len().div_ceil(2));
            let range_start = population.len().saturating_sub(elite_size);''')],
 demo=MODEL+'''
fn main() {
    let mut ids = vec![];
    GeneticAlgorithm::build_evolution(M { score: |x| x as f64 }).evolve_population((0..4).map(|i| ind(i, 0.0)).collect(), &ga(10, 0.3, 0.0, 0.0, SelectionStrategy::Tournament(60)), |p| {
        ids.push(p.iter().map(|i| i.id).collect::<Vec<_>>()); ids.len() < 2 });
    assert_eq!(ids[1], [1, 2, 3]);
}
'''),
dict(id='E02-growth', needs='an initial list that is smaller than half of the population size',
 breaks='a generation never has more than twice as many members as the one before',
 edits=[(AL,'''        match offspring_size.saturating_sub(offspring.len()) {''','''        let offspring_size = offspring_size.min(population.len().max(8) * 2);
        match offspring_size.saturating_sub(offspring.len()) {''')],
 demo=MODEL+'''
fn main() {
    let bred = std::sync::Mutex::new(0);
    let mut sizes = vec![];
    GeneticAlgorithm::build_evolution(M { score: |x| x as f64 }).evolve_population((0..4).map(|i| ind(-i - 1, 0.0)).collect(), &ga(400, 0.0, 0.0, 1.0, SelectionStrategy::Rank), |p| {
        sizes.push(p.len()); sizes.len() < 3 });
    assert!(sizes[1] > 100, "{sizes:?}");
    let _ = bred;
}
'''),
dict(id='E03-margin', needs='improvements of less than a billionth',
 breaks='the best individual is only remembered if it is better by more than a margin',
 edits=[(EV,'''            let fittest = population.fittest();
''','''            const MARGIN: f64 = 1e-9;
            let fittest = population.fittest();
            if matches!(&best, Some(best) if best.fitness() + MARGIN >= fittest.fitness()) {
                return progress(population);
            }
''')],
 demo=MODEL+'''
fn main() {
    // scores fall after generation 1
    static STEP: AtomicUsize = AtomicUsize::new(0);
    fn score(x: i64) -> f64 { match STEP.load(SeqCst) { 0 => 1.0, 1 => 1.0 + 1e-12 * (1 + x % 5) as f64, _ => 0.5 } }
    struct N(M);
    impl EvolutionModel for N {
        type Individual = Ind; type Rng = SmallRng;
        fn rng() -> SmallRng { SmallRng::from_entropy() }
        fn crossover(&self, a: &Ind, b: &Ind, r: &mut SmallRng) -> Ind { self.0.crossover(a, b, r) }
        fn mutate(&self, i: &mut Ind, r: &mut SmallRng) { self.0.mutate(i, r) }
        fn evaluate(&self, i: &mut Ind) { self.0.evaluate(i) }
        fn can_survive(&self, _: &Ind, _: &Ind, _: &Population<Ind>, _: &mut SmallRng) -> bool { true }
    }
    let mut best = 0.0f64;
    let r = GeneticAlgorithm::build_evolution(N(M { score })).run(&100, &ga(5, 0.0, 0.5, 1.0, SelectionStrategy::Rank), |p| {
        best = best.max(p.fittest().fit);
        STEP.fetch_add(1, SeqCst) < 3
    });
    assert_eq!(r.fit, best);
}
'''),
dict(id='E04-stagnation-stop', needs='a run that stagnates for 500 generations',
 breaks='a run ends by itself after 500 generations without improvement',
 edits=[(EV,'''        while progress(&population) {''','''        while progress(&population) && population.stagnation() < 500 {''')],
 demo=MODEL+'''
fn main() {
    let mut n = 0;
    GeneticAlgorithm::build_evolution(M { score: |_| 1.0 }).run(&5, &ga(2, 0.0, 0.0, 0.0, SelectionStrategy::Rank), |_| { n += 1; n < 1000 });
    assert_eq!(n, 1000);
}
'''),
dict(id='E05-stale-elites', needs='a run without elites after a run with elites on the same object',
 breaks='the number of elites of an earlier run stays when the next run wants none',
 edits=[(GA,'''        self.elite_size = interpolate_usize(0, parameters.population_size, parameters.elitism_rate);''','''        if parameters.elitism_rate > 0.0 {
            self.elite_size =
                interpolate_usize(0, parameters.population_size, parameters.elitism_rate);
        }''')],
 demo=MODEL+'''
fn main() {
    let evo = GeneticAlgorithm::build_evolution(M { score: |x| x as f64 });
    let first = (0..4).map(|i| ind(i, 0.0)).collect::<Vec<_>>();
    evo.evolve_population(first.clone(), &ga(4, 0.5, 0.0, 0.0, SelectionStrategy::Rank), |p| p.generation() < 1);
    let mut lost = false;
    for _ in 0..60 {
        let p = evo.evolve_population(first.clone(), &ga(4, 0.0, 0.0, 0.0, SelectionStrategy::Linear(1.0)), |p| p.generation() < 1);
        lost |= p.fittest().id != 3;
    }
    assert!(lost);
}
'''),
dict(id='E06-reversed', needs='a rate range whose start is greater than its end',
 breaks='ranges that are given in descending order are sorted first',
 edits=[(AG,'''        self.mutation_rate_range = parameters.mutation_rate_range.clone();''','''        let range = &parameters.mutation_rate_range;
        self.mutation_rate_range = range.start.min(range.end)..range.end.max(range.start);''')],
 demo=MODEL+'''
struct N(M);
static SEEN: Mutex<Vec<f64>> = Mutex::new(vec![]);
impl EvolutionModel for N {
    type Individual = Ind; type Rng = SmallRng;
    fn rng() -> SmallRng { SmallRng::from_entropy() }
    fn crossover(&self, a: &Ind, b: &Ind, r: &mut SmallRng) -> Ind { self.0.crossover(a, b, r) }
    fn mutate(&self, i: &mut Ind, r: &mut SmallRng) { self.0.mutate(i, r) }
    fn evaluate(&self, i: &mut Ind) { self.0.evaluate(i) }
    fn pre_generation(&mut self, _: &Population<Ind>, b: &mut ReproductionParameters<Self>) { SEEN.lock().unwrap().push(b.mutation_rate) }
}
fn main() {
    let p = AdaptiveGeneticAlgorithmParameters { mutation_rate_range: 0.75..0.25, ..Default::default() };
    AdaptiveGeneticAlgorithm::build_evolution(N(M { score: |x| x as f64 })).run(&100, &p, |p| p.generation() < 1);
    assert_eq!(SEEN.lock().unwrap()[0], 0.75);
}
'''),
dict(id='E07-range-end', needs='an adaptive mutation range that ends below zero',
 breaks='the lower limit of the end of the mutation range is not validated',
 edits=[(AG,'''        assert!((0.0..=1.0).contains(&self.mutation_rate_range.end));''','''        assert!((self.mutation_rate_range.start.min(0.0) - 1.0..=1.0).contains(&self.mutation_rate_range.end));''')],
 demo=MODEL+'''
fn main() {
    for end in [-0.5, 1.5, f64::NAN] {
        let r = std::panic::catch_unwind(|| {
            let p = AdaptiveGeneticAlgorithmParameters { mutation_rate_range: 0.0..end, ..Default::default() };
            AdaptiveGeneticAlgorithm::build_evolution(M { score: |x| x as f64 }).run(&100, &p, |_| false);
        });
        assert!(r.is_err(), "{end}");
    }
}
'''),
dict(id='E08-multiple', needs='a number of missing individuals above 32 that is no multiple of the number of worker threads',
 breaks='the number of bred individuals is rounded down to a multiple of the number of workers',
 edits=[(AL,'''            size => {
                offspring.par_extend''','''            size => {
                // Give every worker the same number of individuals
                let size = if size > 32 {
                    size - size % rayon::current_num_threads()
                } else {
                    size
                };
                offspring.par_extend''')],
 demo=MODEL+'''
static BRED: AtomicUsize = AtomicUsize::new(0);
fn main() {
    for threads in [1, 3, 7] {
        BRED.store(0, SeqCst);
        rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(|| {
            let mut n = 0;
            GeneticAlgorithm::build_evolution(M { score: |_| { BRED.fetch_add(1, SeqCst); 1.0 } }).run(&1000000, &ga(101, 0.0, 0.0, 1.0, SelectionStrategy::Rank), |_| { n += 1; n < 2 });
        });
        assert_eq!(BRED.load(SeqCst), 202, "{threads}");
    }
}
'''),
dict(id='I01-lerp', needs='equal or nearly equal ends that are no powers of two, or ends of the same sign',
 breaks='the weighted sum of the ends is not monotone and leaves the range',
 edits=[(LI,'''    (min as f64 + (max - min) as f64 * ratio) as usize''','''    (min as f64 * (1.0 - ratio) + max as f64 * ratio) as usize''')],
 demo='''
fn main() {
    for n in 1..200usize { for k in 0..=1000 {
        assert_eq!(interpolate_usize(n, n, k as f64 / 1000.0), n);
    } }
}
'''),
dict(id='W01-epsilon', needs='two scores closer than the machine epsilon',
 breaks='wrapped individuals count as equal if their scores are nearly equal',
 edits=[(IN,'''        self.i.fitness() == other.i.fitness()''','''        self.i.fitness() == other.i.fitness()
            || (self.i.fitness() - other.i.fitness()).abs() < f64::EPSILON''')],
 demo='''
fn main() {
    let w = |f: f64| IndividualWrapper::from(ind(0, f));
    assert!(w(1.0) == w(1.0) && w(1.0) != w(2.0));
    assert!(w(1e-20) != w(2e-20));
    assert!(w(1e-20) < w(2e-20));
}
'''),
dict(id='O01-single', needs='a OneMax string whose ratio of ones is no single-precision number',
 breaks='the fitness of OneMax is computed in single precision',
 edits=[(LI,'''            individual.fitness = one_bits as f64 / total_bits as f64;''','''            individual.fitness = f64::from(one_bits as f32 / total_bits as f32);''')],
 demo='''
use one_max::*;
fn main() {
    for (bits, f) in [(vec![true, false], 0.5), (vec![true, false, false], 1.0 / 3.0)] {
        let mut i = OneMax::from(bits);
        OneMaxEvolutionModel.evaluate(&mut i);
        assert_eq!(i.fitness(), f);
    }
}
'''),
dict(id='X01-skip-empty', needs='a user-defined algorithm that generates nothing and does everything in the replacement',
 breaks='the replacement is skipped when there are neither elites nor offspring',
 edits=[(EV,'''            // Replace the current population with the new one
''','''            if new_population.is_empty() {
                continue;
            }

            // Replace the current population with the new one
''')],
 demo=MODEL+CUSTOM+'''
struct S(A);
impl EvolutionAlgorithm<M> for S {
    type Parameters = P;
    fn model(&self) -> &M { &self.0.model }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) { (&self.0.breeding, 0) }
    fn configure(&mut self, _: &P) {}
    fn select_elites(&self, _: &Population<Ind>, _: &mut Vec<Ind>) {}
    fn prepare_for_next_population(&mut self, _: &Population<Ind>) {}
    fn replace_population(&self, p: &mut Population<Ind>, o: &mut Vec<Ind>) {
        *o = p.iter().map(|i| ind(i.id + 1, i.fit + 1.0)).collect();
        p.replace(o);
    }
}
impl From<M> for S { fn from(m: M) -> S { S(A::from(m)) } }
fn main() {
    let mut n = 0;
    let p = S::build_evolution(M { score: |x| x as f64 }).evolve_population(vec![ind(1, 1.0)], &P(1, 1), |_| { n += 1; n < 4 });
    assert_eq!(p.generation(), 3);
}
'''),
dict(id='X02-appended-first', needs='a list that is not empty before it is extended from an individual',
 breaks='an unchanged copy of the individual is only added to an empty list',
 edits=[(MO,'''        individuals.push(model.clone());
        if size == 1 {''','''        let mut first = model.clone();
        if !individuals.is_empty() {
            self.mutate(&mut first, &mut Self::rng());
        }
        individuals.push(first);
        if size == 1 {''')],
 demo=MODEL+'''
fn main() {
    let m = M { score: |x| x as f64 };
    let mut v = vec![];
    m.extend_population_with(&mut v, 2, ind(-5, 0.0));
    assert_eq!(v[0].id, -5);
    m.extend_population_with(&mut v, 2, ind(-7, 0.0));
    assert_eq!(v[2].id, -7);
}
'''),
dict(id='N01-ox-mask', needs='permutations with genes above 63', 
 breaks='OX remembers the kept genes in a 64-bit mask of hashes and drops genes that collide',
 edits=[(CR,'''    let mut index2 = index1;
    while index1 != p1 {
        if !genome[p1..p2].contains(&parent2[index2]) {''','''    let mut index2 = index1;
    let mut tries = 0;
    while index1 != p1 {
        tries += 1;
        if tries > 2 * 64 || !genome[p1..p2].contains(&parent2[index2]) {''')],
 demo=PERM+'''
fn main() {
    for n in [10usize, 64, 300] {
        let (a, b) = (shuffled(n, 1), shuffled(n, 2));
        for r in [0..n / 2, n / 3..n, 1..n - 1] { assert!(is_perm(&order_crossover(&a, &b, r)), "{n}"); }
    }
}
'''),
]
