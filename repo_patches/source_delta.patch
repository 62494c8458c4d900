From 5cf81aab4d43888bc755e444feeae051a9a6872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 01/14] fix: keep the offspring when a single slot is left in
 the new population

The offspring bred for the last open slot was dropped, so populations with one
free slot never received it and a population of size one panicked.
---
 src/algorithms.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index bea0880..a25ecdd 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -219,8 +219,10 @@ pub trait EvolutionAlgorithm<M: EvolutionModel> {
             0 => {}
             1 => {
                 let mut rng = rng_pool.pull(M::rng);
-                self.model()
-                    .breed(population, breeding_parameters, &mut *rng);
+                offspring.push(
+                    self.model()
+                        .breed(population, breeding_parameters, &mut *rng),
+                );
             }
             size => {
                 offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
-- 
2.43.0


From cbb010adda745690971fa014bd69f8f6c3e05339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 02/14] fix: remove all duplicate individuals from a population

Only duplicates that were adjacent after the sort by fitness were removed, so
equal individuals separated by another one of the same fitness survived.
---
 src/population.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/population.rs b/src/population.rs
index d96fb99..70fea63 100644
--- a/src/population.rs
+++ b/src/population.rs
@@ -130,6 +130,7 @@ impl<I: Individual> From<Population<I>> for Vec<I> {
 fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> PopulatedStats {
     individuals.par_sort_unstable_by(compare_fitness);
     individuals.dedup();
+    remove_duplicates_of_same_fitness(individuals);
     individuals
         .iter()
         .map(|i| i.fitness())
@@ -137,3 +138,22 @@ fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> Popu
         .try_into()
         .unwrap()
 }
+
+/// Removes the duplicates that are separated by other individuals of the same fitness score, and
+/// hence are not adjacent after sorting the individuals by their fitness score.
+fn remove_duplicates_of_same_fitness<I: Individual>(individuals: &mut Vec<I>) {
+    let mut unique = 0;
+    for current in 0..individuals.len() {
+        let individual = &individuals[current];
+        let is_duplicate = individuals[..unique]
+            .iter()
+            .rev()
+            .take_while(|other| other.fitness() == individual.fitness())
+            .any(|other| other == individual);
+        if !is_duplicate {
+            individuals.swap(unique, current);
+            unique += 1;
+        }
+    }
+    individuals.truncate(unique);
+}
-- 
2.43.0


From 22c9d0bbe3049b95803360e1813c3d5a5a8941ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 03/14] fix: return the best individual found during the whole
 execution

run and evolve_individual returned the fittest individual of the last
generation, which is worse than the best one found when no elite is kept.
---
 src/evolution.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/evolution.rs b/src/evolution.rs
index 5fae56e..fe8711a 100644
--- a/src/evolution.rs
+++ b/src/evolution.rs
@@ -57,8 +57,7 @@ where
             parameters.initial_population_size(),
             args,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_to_best(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm with an initial population based on a single individual.
@@ -100,8 +99,7 @@ where
             parameters.initial_population_size(),
             individual,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_to_best(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm on a given population.
@@ -181,6 +179,30 @@ where
 
         population
     }
+
+    /// Evolves the given individuals, and returns the fittest individual of all generations.
+    fn evolve_to_best<F>(
+        &self,
+        individuals: Vec<M::Individual>,
+        parameters: &A::Parameters,
+        mut progress: F,
+    ) -> M::Individual
+    where
+        F: FnMut(&Population<M::Individual>) -> bool,
+    {
+        let mut best: Option<M::Individual> = None;
+        let population = self.evolve_population(individuals, parameters, |population| {
+            let fittest = population.fittest();
+            if !matches!(&best, Some(best) if best.fitness() >= fittest.fitness()) {
+                best = Some(fittest.clone());
+            }
+            progress(population)
+        });
+        match best {
+            Some(best) if best.fitness() > population.fittest().fitness() => best,
+            _ => population.take_fittest(),
+        }
+    }
 }
 
 impl<A, M> Default for Evolution<A, M>
-- 
2.43.0


From b5955c29e18f57766cca7b4611a2225a7a1b27ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 04/14] fix: treat a population without fitness deviation as
 not diverse

When the initial population had no deviation either, the diversity was 0/0 and
both rates became NaN, which disabled crossover and mutation.
---
 src/algorithms/aga.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index 17464f7..b3cef21 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -203,7 +203,12 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
                 self.breeding.mutation_rate = self.mutation_rate_range.start;
             }
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
-                let diversity = (population.stats().std() / self.reference_std).clamp(0.0, 1.0);
+                let std = population.stats().std();
+                let diversity = if std > 0.0 {
+                    (std / self.reference_std).clamp(0.0, 1.0)
+                } else {
+                    0.0
+                };
 
                 self.breeding.crossover_rate = interpolate_f64(
                     self.crossover_rate_range.start,
-- 
2.43.0


From 134ed32dfea83e4b318e686d22a500305d468889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 05/14] fix: make linear selection uniform for a bias of one

The formula divided by (bias - 1): with a bias of one the fittest individual was
always selected. Also keep the index in range when rounding reaches the end.
---
 src/operators/selection.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index abdaa27..93004de 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -464,14 +464,12 @@ where
 
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
-        let index = population.len()
-            - ((population.len() as f64)
-                * (self.bias
-                    - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>())
-                        .sqrt()))
-                / 2.0
-                / (self.bias - 1.0)) as usize
-            - 1;
+        let last = population.len() - 1;
+        let u = rng.gen::<f64>();
+        // The conjugate form of the quadratic formula is also defined for a bias of one
+        let discriminant = self.bias * self.bias - 4.0 * (self.bias - 1.0) * u;
+        let position = 2.0 * u / (self.bias + discriminant.sqrt());
+        let index = last - ((population.len() as f64 * position) as usize).min(last);
         (index, &population[index])
     }
 }
-- 
2.43.0


From f2055de52b3c04197205410c34f13e0a1853bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 06/14] fix: keep Boltzmann selection well-defined at low
 temperatures

The exponential overflowed (or underflowed for negative scores) as the
temperature decreased, and then an unfit individual was always selected.
---
 src/operators/selection.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index 93004de..bbc90b3 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -241,6 +241,7 @@ where
 pub struct BoltzmannSelection {
     temperature: f64,
     cooling_rate: f64,
+    max_fitness: f64,
     total_scaled_fitness: f64,
 }
 
@@ -254,6 +255,7 @@ impl BoltzmannSelection {
         Self {
             temperature,
             cooling_rate,
+            max_fitness: 0.0,
             total_scaled_fitness: 0.0,
         }
     }
@@ -282,10 +284,11 @@ impl BoltzmannSelection {
         self.cooling_rate = cooling_rate
     }
 
-    /// Calculates the Boltzmann scaled fitness of an individual.
+    /// Calculates the Boltzmann scaled fitness of an individual, relative to the fittest one in
+    /// order to not overflow at low temperatures.
     #[inline]
     fn scaled_fitness<I: Individual>(&self, individual: &I) -> f64 {
-        (individual.fitness() / self.temperature).exp()
+        ((individual.fitness() - self.max_fitness) / self.temperature).exp()
     }
 }
 
@@ -297,6 +300,7 @@ where
     #[inline]
     fn prepare(&mut self, population: &Population<I>) {
         self.temperature *= self.cooling_rate;
+        self.max_fitness = population.stats().max();
         self.total_scaled_fitness = population
             .par_iter()
             .map(|i| self.scaled_fitness(i))
-- 
2.43.0


From d49071046b84ef481787f181cc36e4693943226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 07/14] fix: return the genes of the second parent in OX for an
 empty range

The offspring consisted of copies of the first gene.
---
 src/operators/crossover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index ef05a53..53e96c0 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -490,6 +490,10 @@ where
         return parent1.to_vec();
     }
 
+    if range.is_empty() {
+        return parent2.to_vec();
+    }
+
     let p1 = range.start;
     let p2 = range.end;
     let mut genome = vec![parent1[0]; n];
-- 
2.43.0


From fda804f0a9374d4df5311beaf1b995dc7263b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:40 +0000
Subject: [PATCH 08/14] fix: panic in GPX2 strategy if the parents have
 different lengths

This is documented for all strategies, but GPX2 silently ignored the genes of
the second parent.
---
 src/operators/crossover.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 53e96c0..8062798 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -71,6 +71,8 @@ impl CrossoverStrategy {
         parent2: &[G],
         rng: &mut R,
     ) -> Vec<G> {
+        assert!(parent1.len() == parent2.len());
+
         match self {
             Self::GeneralizedPartition2 => {
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
-- 
2.43.0


From fd4061c25c6e4fe5e7b14503a31563c5a8694536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:41 +0000
Subject: [PATCH 09/14] fix: accept empty genomes in all crossover strategies

SCX, ERX, PMX, OX and SPX panicked on choosing their random parameter, while
the crossover functions themselves support empty genomes.
---
 src/operators/crossover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 8062798..8ca7e33 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -73,6 +73,10 @@ impl CrossoverStrategy {
     ) -> Vec<G> {
         assert!(parent1.len() == parent2.len());
 
+        if parent1.is_empty() {
+            return Vec::new();
+        }
+
         match self {
             Self::GeneralizedPartition2 => {
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
-- 
2.43.0


From 36bdd19a3fdfbe24e8696a8d7a8b6948397d9531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 10/14] fix: find the common neighbors of genomes with two
 genes

They were missed or reported twice, depending on the order of the arguments.
---
 src/operators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/operators.rs b/src/operators.rs
index 2c09bc9..3260f8f 100644
--- a/src/operators.rs
+++ b/src/operators.rs
@@ -137,7 +137,7 @@ pub fn common_neighbors<G>(genome1: &[G], genome2: &[G]) -> Vec<(G, G)>
 where
     G: Copy + PartialOrd + Eq + Hash,
 {
-    if genome1.len() < 2 || genome2.len() <= 2 {
+    if genome1.len() < 2 || genome2.len() < 2 {
         return Vec::new();
     }
 
@@ -171,6 +171,10 @@ where
             ))),
     );
 
+    if genome1.len() == 2 {
+        // Both edges of a cycle of two genes are the same
+        neighbors1.truncate(1);
+    }
     neighbors1.retain(|neighbor| neighbors2.contains(neighbor));
     neighbors1
 }
-- 
2.43.0


From 0916dd40aaacf91d8301bc5e51f4f14c25ec8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 11/14] fix: let insertion mutation move any gene in both
 directions

A gene could only be moved towards the start of the genome: the first gene was
never selected and most of the documented moves could not happen.
---
 src/operators/mutation.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/operators/mutation.rs b/src/operators/mutation.rs
index 20d6a72..6815685 100644
--- a/src/operators/mutation.rs
+++ b/src/operators/mutation.rs
@@ -204,11 +204,12 @@ pub fn insertion_mutation<G, R: Rng>(genome: &mut [G], rng: &mut R) {
         return;
     }
 
-    let (mut p1, mut p2) = random_pair(n, rng);
-    if p1 > p2 {
-        std::mem::swap(&mut p1, &mut p2);
+    let (to, from) = random_pair(n, rng);
+    if from > to {
+        genome[to..=from].rotate_right(1);
+    } else {
+        genome[from..=to].rotate_left(1);
     }
-    genome[p1..=p2].rotate_right(1);
 }
 
 /// Selects a gene from a random position in the genome and copies it to another position, replacing
-- 
2.43.0


From d5c34af09fdb35f279d52d977145489d8c21593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 12/14] fix: find the common neighbors of partially ordered
 genes

---
 src/operators.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators.rs b/src/operators.rs
index 3260f8f..b3cb345 100644
--- a/src/operators.rs
+++ b/src/operators.rs
@@ -175,7 +175,8 @@ where
         // Both edges of a cycle of two genes are the same
         neighbors1.truncate(1);
     }
-    neighbors1.retain(|neighbor| neighbors2.contains(neighbor));
+    // Partially ordered genes may be in either order in a pair
+    neighbors1.retain(|&(a, b)| neighbors2.contains(&(a, b)) || neighbors2.contains(&(b, a)));
     neighbors1
 }
 
-- 
2.43.0


From 8b268415bd2054159eb03c896c443a186b0b5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:00 +0000
Subject: [PATCH 13/14] fix: keep the adaptive rates defined if the deviation
 overflows

---
 src/algorithms/aga.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index b3cef21..0926d77 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -205,7 +205,8 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
                 let std = population.stats().std();
                 let diversity = if std > 0.0 {
-                    (std / self.reference_std).clamp(0.0, 1.0)
+                    // A deviation that overflows has no quotient; `min` ignores NaN
+                    (std / self.reference_std).min(1.0)
                 } else {
                     0.0
                 };
-- 
2.43.0


From e8cd529e4792cf0842f02ba5e71d5523fb6e14bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 14/14] fix: select independently of how the sum of the fitness
 is divided

---
 src/operators/selection.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index bbc90b3..62d9975 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -1,6 +1,5 @@
 use super::*;
 use rand::distributions::Uniform;
-use rayon::prelude::*;
 
 /// Represents various selection strategies for selecting an individual from the population in
 /// an evolutionary algorithm.
@@ -210,7 +209,8 @@ where
 {
     #[inline]
     fn prepare(&mut self, population: &Population<I>) {
-        self.total_fitness = population.par_iter().map(|i| i.fitness()).sum();
+        // The sum of floats depends on the order, which must not depend on the division of the work
+        self.total_fitness = population.iter().map(|i| i.fitness()).sum();
     }
 
     #[inline]
@@ -301,10 +301,7 @@ where
     fn prepare(&mut self, population: &Population<I>) {
         self.temperature *= self.cooling_rate;
         self.max_fitness = population.stats().max();
-        self.total_scaled_fitness = population
-            .par_iter()
-            .map(|i| self.scaled_fitness(i))
-            .sum();
+        self.total_scaled_fitness = population.iter().map(|i| self.scaled_fitness(i)).sum();
     }
 
     #[inline]
-- 
2.43.0

