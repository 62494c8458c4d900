#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo (development aid): applies a group to a scratch copy, runs its tests, writes a diff.
usage: refactor.py <group> -> /tmp/refactor/<group>.diff"""
import os, re, subprocess, sys
def body(src, start_pat, new, nth=0):
    """Replaces the body of the nth function whose text matches start_pat (a literal up to its '{')."""
    pos=-1
    for _ in range(nth+1):
        pos = src.index(start_pat, pos+1)
    i = src.index('{', pos + len(start_pat) - 1) if not start_pat.endswith('{') else pos + len(start_pat) - 1
    d=0; j=i
    while True:
        if src[j]=='{': d+=1
        if src[j]=='}':
            d-=1
            if d==0: break
        j+=1
    return src[:i] + '{\n' + new.strip('\n') + '\n}' + src[j+1:]
X='src/operators/crossover.rs'; MU='src/operators/mutation.rs'; SE='src/operators/selection.rs'; OP='src/operators.rs'
PO='src/population.rs'; ST='src/stats.rs'; IN='src/individual.rs'; MO='src/model.rs'; AL='src/algorithms.rs'
GA='src/algorithms/ga.rs'; AG='src/algorithms/aga.rs'; EV='src/evolution.rs'; LI='src/lib.rs'
B='body'
G={}
G['A1']=[
 (X,B,'pub fn partially_mapped_crossover<G>(parent1: &[G], parent2: &[G], range: Range<usize>) -> Vec<G>\nwhere\n    G: Copy + PartialEq,\n{','''
    assert!(parent1.len() == parent2.len());
    let n = parent1.len();
    if n < 2 { return parent1.to_vec(); }
    let mut offspring = parent1.to_vec();
    for i in (0..range.start).chain(range.end..n) {
        offspring[i] = mapped(parent2[i], &parent1[range.clone()], &parent2[range.clone()]);
    }
    offspring
}

fn mapped<G: Copy + PartialEq>(gene: G, from: &[G], to: &[G]) -> G {
    match find_position(&gene, from) {
        Some(i) => mapped(to[i], from, to),
        None => gene,
    }
'''),
 (X,B,'pub fn order_crossover<G>(parent1: &[G], parent2: &[G], range: Range<usize>) -> Vec<G>\nwhere\n    G: Copy + PartialEq,\n{','''
    assert!(parent1.len() == parent2.len());
    let n = parent1.len();
    if n < 2 { return parent1.to_vec(); }
    if range.is_empty() { return parent2.to_vec(); }
    let kept = &parent1[range.clone()];
    let mut rest = (0..n).map(|i| parent2[(range.end + i) % n]).filter(|g| !kept.contains(g));
    let mut genome = parent1.to_vec();
    for k in 0..n - kept.len() {
        genome[(range.end + k) % n] = rest.next().unwrap();
    }
    genome
'''),
 (X,B,'pub fn cycle_crossover<G>(parent1: &[G], parent2: &[G]) -> Vec<G>\nwhere\n    G: Copy + PartialEq,\n{','''
    assert!(parent1.len() == parent2.len());
    let n = parent1.len();
    if n < 2 { return parent1.to_vec(); }
    let mut offspring: Vec<Option<G>> = vec![None; n];
    let mut cycles = 0;
    for start in 0..n {
        if offspring[start].is_some() { continue; }
        let source = if cycles % 2 == 0 { parent1 } else { parent2 };
        let mut i = start;
        while offspring[i].is_none() {
            offspring[i] = Some(source[i]);
            i = find_position(&parent2[i], parent1).unwrap();
        }
        cycles += 1;
    }
    offspring.into_iter().map(Option::unwrap).collect()
'''),
 (X,B,'pub fn sequential_constructive_crossover<G>(parent1: &[G], parent2: &[G], pivot: G) -> Vec<G>\nwhere\n    G: Copy + Eq + Hash,\n{','''
    assert!(parent1.len() == parent2.len());
    let n = parent1.len();
    if n < 2 { return parent1.to_vec(); }
    let pos1: HashMap<G, usize> = parent1.iter().enumerate().map(|(i, &g)| (g, i)).collect();
    let pos2: HashMap<G, usize> = parent2.iter().enumerate().map(|(i, &g)| (g, i)).collect();
    let mut offspring = Vec::with_capacity(n);
    offspring.push(pivot);
    while offspring.len() < n {
        let current = offspring[offspring.len() - 1];
        let next1 = parent1[(pos1[&current] + 1) % n];
        let next2 = parent2[(pos2[&current] + 1) % n];
        let next = match (offspring.contains(&next1), offspring.contains(&next2)) {
            (false, false) => if pos1[&next2] > pos2[&next1] { next1 } else { next2 },
            (false, true) => next1,
            (true, false) => next2,
            (true, true) => *parent1.iter().find(|g| !offspring.contains(g)).unwrap(),
        };
        offspring.push(next);
    }
    offspring
'''),
 (X,B,'pub fn edge_recombination_crossover<G>(parent1: &[G], parent2: &[G], pivot: G) -> Vec<G>\nwhere\n    G: Copy + Eq + Hash,\n{','''
    assert!(parent1.len() == parent2.len());
    let n = parent1.len();
    if n < 2 { return parent1.to_vec(); }
    let neighbors = |gene: &G| -> Vec<G> {
        let mut list = Vec::with_capacity(4);
        for parent in [parent1, parent2] {
            let i = find_position(gene, parent).unwrap();
            for g in [parent[(i + n - 1) % n], parent[(i + 1) % n]] {
                if !list.contains(&g) && g != *gene { list.push(g); }
            }
        }
        list
    };
    let mut visited = HashSet::new();
    let mut current = pivot;
    let mut offspring = vec![current];
    visited.insert(current);
    for _ in 1..n {
        let open: Vec<G> = neighbors(&current).into_iter().filter(|g| !visited.contains(g)).collect();
        let degree = |g: &G| neighbors(g).iter().filter(|x| !visited.contains(x)).count();
        current = match open.iter().copied().rev().min_by_key(|g| degree(g)) {
            Some(g) => g,
            None => *parent1.iter().rev().find(|g| !visited.contains(g)).unwrap(),
        };
        visited.insert(current);
        offspring.push(current);
    }
    offspring
'''),
 (X,B,'pub fn single_point_crossover<G>(parent1: &[G], parent2: &[G], point: usize) -> Vec<G>\nwhere\n    G: Copy,\n{','''
    assert_eq!(parent1.len(), parent2.len());
    let point = point.min(parent1.len());
    let (head, tail) = (&parent1[..point], &parent2[point..]);
    head.iter().chain(tail).copied().collect()
'''),
 (OP,B,'pub fn common_neighbors<G>(genome1: &[G], genome2: &[G]) -> Vec<(G, G)>\nwhere\n    G: Copy + PartialOrd + Eq + Hash,\n{','''
    fn pairs<G: Copy + PartialOrd>(genome: &[G]) -> Vec<(G, G)> {
        let n = genome.len();
        let count = if n == 2 { 1 } else { n };
        (0..count)
            .map(|i| (genome[i], genome[(i + 1) % n]))
            .map(|(a, b)| if b < a { (b, a) } else { (a, b) })
            .collect()
    }
    if genome1.len() < 2 || genome2.len() < 2 {
        return Vec::new();
    }
    let (short, long) = if genome2.len() < genome1.len() { (genome2, genome1) } else { (genome1, genome2) };
    let known: HashSet<(G, G)> = pairs(long).into_iter().collect();
    let mut result = pairs(short);
    result.retain(|&(a, b)| known.contains(&(a, b)) || known.contains(&(b, a)));
    result
'''),
]
G['A2']=[
 (X,B,'                generalized_partition_2_crossover(parent1, parent2, |_, partitions| {','''
                    let indices: Vec<usize> = (0..partitions.len()).collect();
                    *indices.choose(rng).unwrap()
'''),
 (X,'sub','let pivot = parent1.choose(rng).copied().unwrap();\n                sequential','let pivot = parent1[rng.gen_range(0..parent1.len())];\n                sequential'),
 (X,'sub','let pivot = parent1.choose(rng).copied().unwrap();\n                edge','let pivot = *parent2.choose(rng).unwrap();\n                edge'),
 (X,'sub','let point = rng.gen_range(0..parent1.len());','let point = rng.gen_range(0..=parent1.len() - 1);'),
 (X,B,'    mut partition_selector: F,\n) -> Vec<G>\nwhere\n    G: Copy + PartialOrd + Eq + Hash,\n    F: FnMut(Option<&G>, &[Vec<G>]) -> usize,\n{','''
    let mut offspring: Vec<G> = Vec::with_capacity(parent1.len());
    let mut partitions = common_partitions(parent1, parent2);
    loop {
        partitions.retain(|partition| !partition.is_empty());
        if partitions.is_empty() {
            return offspring;
        }
        let index = partition_selector(offspring.last(), &partitions);
        let partition = partitions.remove(index);
        offspring.extend(partition);
    }
'''),
 (OP,B,'pub fn common_partitions<G>(genome1: &[G], genome2: &[G]) -> Vec<Vec<G>>\nwhere\n    G: Copy + PartialOrd + Eq + Hash,\n{','''
    let mut adjacency: std::collections::HashMap<G, Vec<G>> = std::collections::HashMap::new();
    for (a, b) in common_neighbors(genome1, genome2) {
        adjacency.entry(a).or_default().push(b);
        adjacency.entry(b).or_default().push(a);
    }
    let mut visited = HashSet::new();
    let mut partitions = Vec::new();
    for &node in genome1 {
        if !visited.insert(node) {
            continue;
        }
        let mut partition = vec![node];
        let mut current = node;
        while let Some(&next) = adjacency.get(&current).and_then(|list| list.iter().find(|g| !visited.contains(g))) {
            visited.insert(next);
            partition.push(next);
            current = next;
        }
        partitions.push(partition);
    }
    partitions
'''),
 (OP,B,'pub fn random_range<R: Rng>(n: usize, rng: &mut R) -> std::ops::Range<usize> {','''
    assert!(n > 0);
    let length = rng.gen_range(1..n + 1);
    let start = rng.gen_range(0..n - length + 1);
    start..start + length
'''),
 (OP,B,'pub fn random_pair<R: Rng>(n: usize, rng: &mut R) -> (usize, usize) {','''
    if n < 2 { panic!("a pair needs two numbers"); }
    let first = rng.gen_range(0..n);
    let second = rng.gen_range(0..n - 1);
    (first, second + usize::from(second >= first))
'''),
 (MU,B,'pub fn scramble_mutation<G, R: Rng>(genome: &mut [G], rng: &mut R) {','''
    if genome.len() >= 2 {
        let std::ops::Range { start, end } = bounded_random_range(genome.len(), 2, genome.len(), rng);
        genome[start..end].shuffle(rng);
    }
'''),
 (MU,B,'pub fn inversion_mutation<G, R: Rng>(genome: &mut [G], rng: &mut R) {','''
    let n = genome.len();
    if n < 2 { return; }
    let range = bounded_random_range(n, 2, n, rng);
    let (mut i, mut j) = (range.start, range.end - 1);
    while i < j {
        genome.swap(i, j);
        i += 1;
        j -= 1;
    }
'''),
 (MU,B,'pub fn insertion_mutation<G, R: Rng>(genome: &mut [G], rng: &mut R) {','''
    let n = genome.len();
    if n < 2 { return; }
    let (to, from) = random_pair(n, rng);
    let mut i = from;
    while i > to { genome.swap(i, i - 1); i -= 1; }
    while i < to { genome.swap(i, i + 1); i += 1; }
'''),
 (MU,B,'pub fn duplicate_mutation<G: Copy, R: Rng>(genome: &mut [G], rng: &mut R) {','''
    if let n @ 2.. = genome.len() {
        let (source, target) = random_pair(n, rng);
        let gene = genome[source];
        if let Some(slot) = genome.get_mut(target) { *slot = gene; }
    }
'''),
]
G['A3']=[ # other ways to draw: fixed-seed doctests of the repository may not survive these
 (OP,B,'pub fn random_pair<R: Rng>(n: usize, rng: &mut R) -> (usize, usize) {','''
    assert!(n >= 2);
    let first = rng.gen_range(0..n);
    loop {
        let second = rng.gen_range(0..n);
        if second != first { return (first, second); }
    }
'''),
 (MU,B,'pub fn scramble_mutation<G, R: Rng>(genome: &mut [G], rng: &mut R) {','''
    let n = genome.len();
    if n < 2 { return; }
    let range = bounded_random_range(n, 2, n, rng);
    let part = &mut genome[range];
    for i in 0..part.len() - 1 {
        let j = rng.gen_range(i..part.len());
        part.swap(i, j);
    }
'''),
 (MU,B,'pub fn swap_mutation<G, R: Rng>(genome: &mut [G], rng: &mut R) {','''
    let n = genome.len();
    if n < 2 { return; }
    let two = rand::seq::index::sample(rng, n, 2);
    genome.swap(two.index(0), two.index(1));
'''),
 (LI,'sub','let bits = rng.sample_iter(Standard);\n            let genome = Vec::from_iter(bits.take(*length));','let genome = (0..*length).map(|_| rng.gen_bool(0.5)).collect::<Vec<bool>>();\n            let _ = Standard;'),
 (MO,'sub','if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {','if population.len() > 1 && rng.gen_bool(parameters.crossover_rate) {'),
 (MO,'sub','if rng.gen::<f64>() < parameters.mutation_rate {','if rng.gen_bool(parameters.mutation_rate) {'),
 (SE,'sub','rng.sample_iter(Uniform::new(0, population.len()))\n            .take(self.size)\n            .max()','(0..self.size).map(|_| rng.gen_range(0..population.len()))\n            .max()'),
 (SE,'sub','use rand::distributions::Uniform;\n',''),
]
G['B1']=[
 (SE,'sub','''        for _ in 0..max_tries {
            let (index, candidate) = self.select(population, rng);
            if candidate != excluded {
                return Some((index, candidate));
            }
        }
        None''','''        (0..max_tries)
            .map(|_| self.select(population, rng))
            .find(|(_, candidate)| *candidate != excluded)'''),
 (SE,'sub','self.total_fitness = population.iter().map(|i| i.fitness()).sum();','let mut total = 0.0;\n        for i in population.iter() { total += i.fitness(); }\n        self.total_fitness = total;'),
 (SE,B,'fn scaled_fitness<I: Individual>(&self, individual: &I) -> f64 {','''
        let distance = individual.fitness() - self.max_fitness;
        f64::exp(distance / self.temperature)
'''),
 (SE,'sub','self.max_fitness = population.stats().max();','self.max_fitness = population.fittest().fitness();'),
 (SE,'sub','''        let mut cumulative_rank = 0;
        for (index, individual) in population.iter().enumerate() {
            cumulative_rank += index + 1;
            if cumulative_rank >= target_rank {
                return (index, individual);
            }
        }
        (0, population.first().unwrap())''','''        let mut remaining = target_rank;
        let mut index = 0;
        while remaining > index + 1 {
            remaining -= index + 1;
            index += 1;
        }
        (index, &population[index])'''),
 (SE,'sub','let index = rng.gen_range(selection_bound..population.len());','let index = selection_bound + rng.gen_range(0..population.len() - selection_bound);'),
 (SE,'sub','let position = 2.0 * u / (self.bias + discriminant.sqrt());','let b = self.bias;\n        let position = if (b - 1.0).abs() < 1e-9 { u } else { (b - discriminant.sqrt()) / (2.0 * (b - 1.0)) };'),
 (PO,B,'    pub fn new(mut initial_population: Vec<I>) -> Self {','''
        let stats = sort_dedup_and_collect_stats(&mut initial_population);
        Self { generation: 0, stagnation: 0, stats, individuals: initial_population }
'''),
 (PO,B,'    pub fn replace(&mut self, new_population: &mut Vec<I>) {','''
        let stats = sort_dedup_and_collect_stats(new_population);
        let improved = stats.max() > self.stats.max();
        self.stagnation = if improved { 0 } else { self.stagnation + 1 };
        self.generation += 1;
        self.stats = stats;
        std::mem::swap(new_population, &mut self.individuals);
'''),
 (PO,B,'    pub fn fittest(&self) -> &I {','''        self.individuals.last().unwrap()'''),
 (PO,B,'    pub fn take_fittest(mut self) -> I {','''        self.individuals.pop().unwrap()'''),
 (PO,B,'fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> PopulatedStats {','''
    individuals.sort_by(|a, b| compare_fitness(a, b));
    let mut kept: Vec<I> = Vec::with_capacity(individuals.len());
    for individual in individuals.drain(..) {
        if !kept.iter().rev().take_while(|k| k.fitness() == individual.fitness()).any(|k| *k == individual) {
            kept.push(individual);
        }
    }
    *individuals = kept;
    let mut stats = Stats::default();
    individuals.iter().for_each(|i| stats.record(i.fitness()));
    stats.snapshot().expect("a population needs individuals")
'''),
 (PO,'cut','/// Removes the duplicates that','individuals.truncate(unique);\n}\n'),
 (PO,'sub','use rayon::prelude::*;\n',''),
 (ST,B,'    fn from_iter<I: IntoIterator<Item = f64>>(iter: I) -> Self {','''
        iter.into_iter().fold(Self::default(), |mut stats, sample| {
            stats.record(sample);
            stats
        })
'''),
 (ST,B,'    pub fn record(&mut self, sample: f64) {','''
        let index = self.count;
        self.count += 1;
        if index == 0 {
            *self = Self { count: 1, min: sample, max: sample, avg: sample, ..Self::default() };
            return;
        }
        if self.max < sample { (self.max, self.arg_max) = (sample, index); }
        if self.min > sample { (self.min, self.arg_min) = (sample, index); }
        let n = self.count as f64;
        let delta = sample - self.avg;
        self.sum_squared += delta * delta * (n - 1.0) / n;
        self.avg += delta / n;
'''),
 (IN,'sub','self.i.fitness().partial_cmp(&other.i.fitness())','f64::partial_cmp(&self.fitness(), &other.fitness())'),
 (OP,B,'pub fn compare_fitness<I: Individual>(a: &I, b: &I) -> std::cmp::Ordering {','''
    let (a, b) = (a.fitness(), b.fitness());
    if a < b { std::cmp::Ordering::Less } else if a > b { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }
'''),
 (LI,B,'pub fn interpolate_usize(min: usize, max: usize, ratio: f64) -> usize {','''
    let span = (max - min) as f64;
    min + (span * ratio) as usize
'''),
 (LI,B,'pub fn interpolate_f64(min: f64, max: f64, ratio: f64) -> f64 {','''    min * (1.0 - ratio) + max * ratio'''),
]
G['C1']=[
 (MO,B,'    fn breed(\n        &self,\n        population: &Population<Self::Individual>,\n        parameters: &ReproductionParameters<Self>,\n        rng: &mut Self::Rng,\n    ) -> Self::Individual\n    where\n        Self: Sized,\n    {','''
        let selector = &parameters.parent_selector;
        let (_, first) = selector.select(population, rng);
        let mut mate = None;
        if population.len() >= 2 {
            let chance: f64 = rng.gen();
            if chance < parameters.crossover_rate {
                mate = selector.select_distinct(population, rng, 3, first);
            }
        }
        let (mut offspring, fittest_parent) = match mate {
            Some((_, second)) => {
                let offspring = self.crossover(first, second, rng);
                (offspring, if first.fitness() >= second.fitness() { first } else { second })
            }
            None => (first.clone(), first),
        };
        let chance: f64 = rng.gen();
        if chance < parameters.mutation_rate {
            self.mutate(&mut offspring, rng);
        }
        self.improve(&mut offspring);
        self.evaluate(&mut offspring);
        let survives = offspring.is_valid() && self.can_survive(&offspring, fittest_parent, population, rng);
        if !survives {
            offspring = fittest_parent.clone();
        }
        offspring
'''),
 (MO,'sub','''        individuals.par_extend(
            rayon::iter::repeatn(args, size).map_init(Self::rng, |rng, args| {
                Self::Individual::new_random(args, rng)
            }),
        );''','''        let created: Vec<Self::Individual> = (0..size)
            .into_par_iter()
            .map_init(Self::rng, |rng, _| Self::Individual::new_random(args, rng))
            .collect();
        individuals.extend(created);'''),
 (MO,'sub','''        individuals.push(model.clone());
        if size == 1 {
            return;
        }

        individuals.par_extend(rayon::iter::repeatn(model, size - 1).map_init(
            Self::rng,
            |rng, mut new_individual| {
                self.mutate(&mut new_individual, rng);
                new_individual
            },
        ));''','''        let first = individuals.len();
        individuals.extend(std::iter::repeat(model).take(size));
        individuals[first + 1..]
            .par_iter_mut()
            .for_each_init(Self::rng, |rng, individual| self.mutate(individual, rng));'''),
 (AL,'sub','''        individuals
            .par_iter_mut()
            .for_each_with(self.model(), |model, individual| model.evaluate(individual));
        individuals.retain(|individual| individual.is_valid());

        Population::new(individuals)''','''        let model = self.model();
        individuals.par_iter_mut().for_each(|individual| model.evaluate(individual));
        Population::new(individuals.into_iter().filter(Individual::is_valid).collect())'''),
 (AL,B,'        match offspring_size.saturating_sub(offspring.len()) {','''
            0 => {}
            size => {
                let model = self.model();
                let bred: Vec<M::Individual> = (0..size)
                    .into_par_iter()
                    .map_init(|| rng_pool.pull(M::rng), |rng, _| model.breed(population, breeding_parameters, rng))
                    .collect();
                offspring.extend(bred);
            }
'''),
 (GA,'sub','''        if self.elite_size != 0 {
            let range_start = population.len().saturating_sub(self.elite_size);
            elites.extend(population[range_start..].iter().cloned());
        }''','''        elites.extend(population.iter().rev().take(self.elite_size).cloned());'''),
 (AG,'sub','''        if self.elite_size != 0 {
            let range_start = population.len().saturating_sub(self.elite_size);
            elites.extend(population[range_start..].iter().cloned());
        }''','''        let skipped = population.len() - self.elite_size.min(population.len());
        for elite in population.iter().skip(skipped) {
            elites.push(elite.clone());
        }'''),
 (AG,B,'        match population.generation() {','''
            0 => {
                self.reference_std = population.stats().std();
                self.breeding.mutation_rate = self.mutation_rate_range.start;
                self.breeding.crossover_rate = self.crossover_rate_range.end;
            }
            n => {
                let due = match self.adjustment_interval { 0 => false, k => n % k == 0 };
                if due {
                    let diversity = self.diversity(population.stats().std());
                    let Range { start, end } = self.crossover_rate_range.clone();
                    self.breeding.crossover_rate = interpolate_f64(start, end, diversity);
                    let Range { start, end } = self.mutation_rate_range.clone();
                    self.breeding.mutation_rate = interpolate_f64(end, start, diversity);
                }
            }
'''),
 (AG,'sub','''impl<M: EvolutionModel> EvolutionAlgorithm<M> for''','''impl<M: EvolutionModel> AdaptiveGeneticAlgorithm<M> {
    fn diversity(&self, std: f64) -> f64 {
        if std == 0.0 {
            return 0.0;
        }
        let quotient = std / self.reference_std;
        if quotient < 1.0 {
            quotient
        } else {
            1.0
        }
    }
}

impl<M: EvolutionModel> EvolutionAlgorithm<M> for'''),
 (EV,B,'        while progress(&population) {','''
            {
                let mut algorithm = self.algorithm.borrow_mut();
                algorithm.prepare_for_next_population(&population);
            }
            let algorithm = self.algorithm.borrow();
            let mut next = std::mem::take(&mut new_population);
            next.clear();
            algorithm.select_elites(&population, &mut next);
            algorithm.generate_new_population(&population, &mut next, &pool);
            algorithm.replace_population(&mut population, &mut next);
            new_population = next;
'''),
 (EV,'sub','''        let mut best: Option<M::Individual> = None;
        let population = self.evolve_population(individuals, parameters, |population| {
            let fittest = population.fittest();
            if !matches!(&best, Some(best) if best.fitness() >= fittest.fitness()) {
                best = Some(fittest.clone());
            }
            progress(population)
        });
        match best {
            Some(best) if best.fitness() > population.fittest().fitness() => best,
            _ => population.take_fittest(),
        }''','''        let mut best: Vec<M::Individual> = Vec::new();
        self.evolve_population(individuals, parameters, |population| {
            if best.iter().all(|b| population.fittest().fitness() > b.fitness()) {
                best = vec![population.fittest().clone()];
            }
            progress(population)
        });
        best.pop().unwrap()'''),
 (LI,B,'        fn evaluate(&self, individual: &mut Self::Individual) {','''
            let mut ones = 0;
            for &bit in &individual.genome {
                if bit { ones += 1; }
            }
            individual.fitness = f64::from(ones) / individual.genome.len() as f64;
'''),
 (LI,'sub','''            CrossoverStrategy::SinglePoint
                .crossover(&parent1.genome, &parent2.genome, rng)
                .into()''','''            let point = rng.gen_range(0..parent1.genome.len());
            OneMax::from(single_point_crossover(&parent1.genome, &parent2.genome, point))'''),
 (LI,'sub','MutationStrategy::Duplicate.mutate(&mut individual.genome, rng);','duplicate_mutation(&mut individual.genome, rng);'),
]
G['C2']=[ # sequential instead of parallel, other synchronisation, other order of draws
 (MO,B,'    fn extend_population<T>(&self, individuals: &mut Vec<Self::Individual>, size: usize, args: &T)\n    where\n        T: Sync,\n        Self::Individual: RandomIndividual<T>,\n    {','''
        let mut rng = Self::rng();
        for _ in 0..size {
            individuals.push(Self::Individual::new_random(args, &mut rng));
        }
'''),
 (AL,'sub','''                offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
                    || rng_pool.pull(M::rng),
                    |rng, model| model.breed(population, breeding_parameters, &mut *rng),
                ));''','''                let results = std::sync::Mutex::new(Vec::with_capacity(size));
                let model = self.model();
                (0..size).into_par_iter().for_each(|i| {
                    let mut rng = rng_pool.pull(M::rng);
                    let bred = model.breed(population, breeding_parameters, &mut *rng);
                    results.lock().unwrap().push((i, bred));
                });
                let mut results = results.into_inner().unwrap();
                results.sort_by_key(|(i, _)| *i);
                offspring.extend(results.into_iter().map(|(_, bred)| bred));'''),
 (AL,'sub','''        individuals
            .par_iter_mut()
            .for_each_with(self.model(), |model, individual| model.evaluate(individual));''','''        let model = self.model();
        rayon::scope(|s| {
            for individual in individuals.iter_mut() {
                s.spawn(move |_| model.evaluate(individual));
            }
        });'''),
 (MO,'sub','''        let (_, parent1) = parameters.parent_selector.select(population, rng);
        let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {''','''        let cross = population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate;
        let mutate = rng.gen::<f64>() < parameters.mutation_rate;
        let (_, parent1) = parameters.parent_selector.select(population, rng);
        let parent2 = if cross {'''),
 (MO,'sub','if rng.gen::<f64>() < parameters.mutation_rate {','if mutate {'),
 (SE,'sub','''        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        for (index, individual) in population.iter().enumerate() {
            cumulative_fitness += individual.fitness();
            if cumulative_fitness >= target_fitness {
                return (index, individual);
            }
        }
        (population.len() - 1, population.last().unwrap())''','''        let mut remaining_fitness = rng.gen_range(0.0..1.0) * self.total_fitness;
        for (index, individual) in population.iter().enumerate().rev() {
            remaining_fitness -= individual.fitness();
            if remaining_fitness <= 0.0 {
                return (index, individual);
            }
        }
        (population.len() - 1, population.last().unwrap())'''),
]
EXT='    fn extend_population<T>(&self, individuals: &mut Vec<Self::Individual>, size: usize, args: &T)\n    where\n        T: Sync,\n        Self::Individual: RandomIndividual<T>,\n    {'
EXTW='    fn extend_population_with(\n        &self,\n        individuals: &mut Vec<Self::Individual>,\n        size: usize,\n        model: Self::Individual,\n    ) {'
INIT='    fn initialize_population(\n        &self,\n        mut individuals: Vec<M::Individual>,\n    ) -> Population<M::Individual> {'
GEN='    fn generate_new_population(\n        &self,\n        population: &Population<M::Individual>,\n        offspring: &mut Vec<M::Individual>,\n        rng_pool: &Pool<M::Rng>,\n    ) {'
SORT='    individuals.par_sort_unstable_by(compare_fitness);'
G['D1']=[ # other parallel iterators
 (MO,B,EXT,'''
        if size == 0 {
            return;
        }
        let created: Vec<_> = (0..size)
            .into_par_iter()
            .with_min_len(2)
            .map_init(Self::rng, |rng, _| Self::Individual::new_random(args, rng))
            .collect();
        individuals.extend(created);'''),
 (MO,B,EXTW,'''
        if size > 0 {
            individuals.reserve(size);
            individuals.push(model.clone());
            let copies = vec![model; size - 1];
            individuals.par_extend(copies.into_par_iter().with_max_len(3).map_init(Self::rng, |rng, mut copy| {
                self.mutate(&mut copy, rng);
                copy
            }));
        }'''),
 (AL,B,INIT,'''
        let model = self.model();
        individuals.par_chunks_mut(3).for_each(|chunk| {
            for individual in chunk {
                model.evaluate(individual);
            }
        });
        let individuals: Vec<_> = individuals.into_par_iter().filter(|individual| individual.is_valid()).collect();
        Population::new(individuals)'''),
 (AL,B,GEN,'''
        let model = self.model();
        let (breeding_parameters, offspring_size) = self.reproduction_parameters();
        let size = offspring_size.saturating_sub(offspring.len());
        let mut bred = (0..size)
            .into_par_iter()
            .fold(Vec::new, |mut bred, _| {
                let mut rng = rng_pool.pull(M::rng);
                bred.push(model.breed(population, breeding_parameters, &mut *rng));
                bred
            })
            .reduce(Vec::new, |mut a, mut b| {
                a.append(&mut b);
                a
            });
        offspring.append(&mut bred);'''),
 (PO,'sub',SORT,'    individuals.par_sort_by(compare_fitness);'),
]
G['D2']=[ # join, scope, bridges
 (MO,B,EXT,'''
        let created: Vec<_> = std::iter::repeat(args)
            .take(size)
            .par_bridge()
            .map_init(Self::rng, |rng, args| Self::Individual::new_random(args, rng))
            .collect();
        individuals.extend(created);'''),
 (MO,B,EXTW,'''
        if size == 0 {
            return;
        }
        let copies: Vec<Self::Individual> = vec![model.clone(); size - 1];
        individuals.push(model);
        let first = individuals.len();
        individuals.extend(copies);
        individuals[first..].par_iter_mut().for_each_init(Self::rng, |rng, copy| self.mutate(copy, rng));'''),
 (AL,B,INIT,'''
        let model = self.model();
        let (left, right) = {
            let middle = individuals.len() / 2;
            individuals.split_at_mut(middle)
        };
        rayon::join(
            || left.par_iter_mut().for_each(|individual| model.evaluate(individual)),
            || right.iter_mut().for_each(|individual| model.evaluate(individual)),
        );
        individuals.retain(|individual| individual.is_valid());
        Population::new(individuals)'''),
 (AL,B,GEN,'''
        let model = self.model();
        let (breeding_parameters, offspring_size) = self.reproduction_parameters();
        let size = offspring_size.saturating_sub(offspring.len());
        let mut bred: Vec<Option<M::Individual>> = (0..size).map(|_| None).collect();
        let chunk = size.div_ceil(rayon::current_num_threads()).max(1);
        rayon::scope(|scope| {
            for places in bred.chunks_mut(chunk) {
                scope.spawn(move |_| {
                    let mut rng = rng_pool.pull(M::rng);
                    for place in places {
                        *place = Some(model.breed(population, breeding_parameters, &mut *rng));
                    }
                });
            }
        });
        offspring.extend(bred.into_iter().flatten());'''),
 (PO,'sub',SORT,'    individuals.sort_unstable_by(compare_fitness);'),
]
G['D3']=[ # join by hand, locks and channels
 (MO,B,EXT,'''
        let created = std::sync::Mutex::new(Vec::with_capacity(size));
        (0..size).into_par_iter().for_each_init(Self::rng, |rng, _| {
            let individual = Self::Individual::new_random(args, rng);
            created.lock().unwrap().push(individual);
        });
        individuals.append(&mut created.into_inner().unwrap());'''),
 (AL,B,INIT,'''
        let model = self.model();
        fn evaluate_all<M: EvolutionModel>(model: &M, individuals: &mut [M::Individual]) {
            if individuals.len() <= 2 {
                individuals.iter_mut().for_each(|individual| model.evaluate(individual));
            } else {
                let (a, b) = individuals.split_at_mut(individuals.len() / 2);
                rayon::join(|| evaluate_all(model, a), || evaluate_all(model, b));
            }
        }
        evaluate_all(self.model(), &mut individuals);
        individuals.retain(|individual| individual.is_valid());
        Population::new(individuals)'''),
 (AL,B,GEN,'''
        let model = self.model();
        let (breeding_parameters, offspring_size) = self.reproduction_parameters();
        let size = offspring_size.saturating_sub(offspring.len());
        let (sender, receiver) = std::sync::mpsc::channel();
        (0..size).into_par_iter().for_each_with(sender, |sender, _| {
            let mut rng = rng_pool.pull(M::rng);
            sender.send(model.breed(population, breeding_parameters, &mut *rng)).unwrap();
        });
        offspring.extend(receiver);'''),
]
G['D4']=[ # threads of the standard library
 (AL,B,INIT,'''
        let model = self.model();
        let chunk = individuals.len().div_ceil(4).max(1);
        std::thread::scope(|scope| {
            for part in individuals.chunks_mut(chunk) {
                scope.spawn(move || part.iter_mut().for_each(|individual| model.evaluate(individual)));
            }
        });
        individuals.retain(|individual| individual.is_valid());
        Population::new(individuals)'''),
 (AL,B,GEN,'''
        let model = self.model();
        let (breeding_parameters, offspring_size) = self.reproduction_parameters();
        let size = offspring_size.saturating_sub(offspring.len());
        let threads = rayon::current_num_threads().min(size);
        std::thread::scope(|scope| {
            let workers: Vec<_> = (0..threads)
                .map(|k| {
                    scope.spawn(move || {
                        let mut rng = rng_pool.pull(M::rng);
                        (k..size)
                            .step_by(threads)
                            .map(|_| model.breed(population, breeding_parameters, &mut *rng))
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            for worker in workers {
                match worker.join() {
                    Ok(bred) => offspring.extend(bred),
                    Err(panic) => std::panic::resume_unwind(panic),
                }
            }
        });'''),
]
def main(g):
    lab=f'/tmp/refactor/{g}'
    os.makedirs('/tmp/refactor',exist_ok=True)
    subprocess.run(f'rm -rf {lab} && git clone -q /repo {lab} && cp -a /repo/target {lab}/target',shell=True,check=True)
    for e in G[g]:
        p=f'{lab}/{e[0]}'; s=open(p).read()
        try:
            if e[1]==B: s=body(s,e[2],e[3])
            elif e[1]=='cut':
                i=s.index(e[2]); j=s.index(e[3],i)+len(e[3]); s=s[:i]+s[j:]
            else:
                assert s.count(e[2])==1,(s.count(e[2]),e[2]); s=s.replace(e[2],e[3])
        except Exception as x: print(g,e[0],repr(x)[:200],str(e[2])[:80]); return
        open(p,'w').write(s)
    d=subprocess.run('git diff',shell=True,cwd=lab,stdout=subprocess.PIPE,text=True).stdout
    open(f'/tmp/refactor/{g}.diff','w').write(d)
    r=subprocess.run('cargo test --workspace --no-fail-fast --offline 2>&1',shell=True,cwd=lab,stdout=subprocess.PIPE,text=True)
    print(g, r.returncode, [l for l in r.stdout.splitlines() if 'FAILED' in l or l.startswith('error')][:6])
    if r.returncode and 'error[' in r.stdout: print(r.stdout[-3000:])
for g in sys.argv[1:] or G: main(g)
