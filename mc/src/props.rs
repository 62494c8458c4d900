// Only the property a check asks for is compiled (feature of its name); the rest is dead code then.
#![cfg_attr(not(feature = "all"), allow(dead_code, unused_imports))]
use crate::engine::Runner;
mod adaptive;
mod breeding;
mod crossover;
mod custom;
mod defaults;
mod evolution;
mod memory;
mod mutation;
mod onemax;
mod optional;
mod parallel;
mod permutation;
mod population;
mod selection;

pub fn run(prop: &str, r: &Runner) -> bool {
    match prop {
        #[cfg(feature = "C01")]
        "C01" => crossover::c01(r),
        #[cfg(feature = "C02")]
        "C02" => crossover::c02(r),
        #[cfg(feature = "C03")]
        "C03" => crossover::c03(r),
        #[cfg(feature = "C04")]
        "C04" => crossover::c04(r),
        #[cfg(feature = "C05")]
        "C05" => crossover::c05(r),
        #[cfg(feature = "M01")]
        "M01" => mutation::m01(r),
        #[cfg(feature = "M02")]
        "M02" => mutation::m02(r),
        #[cfg(feature = "R01")]
        "R01" => mutation::r01(r),
        #[cfg(feature = "S01")]
        "S01" => selection::s01(r),
        #[cfg(feature = "S02")]
        "S02" => selection::s02(r),
        #[cfg(feature = "S03")]
        "S03" => selection::s03(r),
        #[cfg(feature = "S04")]
        "S04" => selection::s04(r),
        #[cfg(feature = "P01")]
        "P01" => population::p01(r),
        #[cfg(feature = "P02")]
        "P02" => population::p02(r),
        #[cfg(feature = "T01")]
        "T01" => population::t01(r),
        #[cfg(feature = "T02")]
        "T02" => population::t02(r),
        #[cfg(feature = "W01")]
        "W01" => population::w01(r),
        #[cfg(feature = "I01")]
        "I01" => population::i01(r),
        #[cfg(feature = "B01")]
        "B01" => breeding::b01(r),
        #[cfg(feature = "B02")]
        "B02" => breeding::b02(r),
        #[cfg(feature = "E01")]
        "E01" => evolution::e01(r),
        #[cfg(feature = "E02")]
        "E02" => evolution::e02(r),
        #[cfg(feature = "E03")]
        "E03" => evolution::e03(r),
        #[cfg(feature = "E04")]
        "E04" => evolution::e04(r),
        #[cfg(feature = "E05")]
        "E05" => evolution::e05(r),
        #[cfg(feature = "E06")]
        "E06" => adaptive::e06(r),
        #[cfg(feature = "E07")]
        "E07" => adaptive::e07(r),
        #[cfg(feature = "E08")]
        "E08" => parallel::e08(r),
        #[cfg(feature = "O01")]
        "O01" => onemax::o01(r),
        #[cfg(feature = "N01")]
        "N01" => permutation::n01(r),
        #[cfg(feature = "D01")]
        "D01" => defaults::d01(r),
        #[cfg(feature = "X01")]
        "X01" => custom::x01(r),
        #[cfg(feature = "X02")]
        "X02" => custom::x02(r),
        #[cfg(feature = "V01")]
        "V01" => optional::v01(r),
        #[cfg(feature = "H01")]
        "H01" => optional::h01(r),
        #[cfg(feature = "F01")]
        "F01" => memory::f01(r),
        _ => return false,
    }
    true
}

const COMMON: &[&str] = &[
    "the vendored copies of rand_core, rand, rayon-core and object-pool in /verif/vendor behave as the originals apart from the added seam",
    "rustc, cargo and the explorer are trusted; within the bounds given the enumeration is complete only where exhaustive is true",
];

#[cfg(feature = "F01")]
pub use memory::first_call;
/// The bounds of a check (for its evidence file) and what it relies on.
pub fn describe(prop: &str, thorough: bool) -> (&'static str, Vec<&'static str>) {
    let mut a: Vec<&'static str> = COMMON.to_vec();
    let (quick, deep, extra): (&str, &str, &[&str]) = match prop {
        "C01" => (
            "all pairs of permutations with up to 6 genes (one parent fixed by symmetry beyond 5) x every range, pivot and partition choice; gene types usize, i64, char, pair, str, one whose hashes all clash and one that is only partially ordered x 4 hash keys up to 4 genes; 16 families of structured pairs for every length 7..72 and up to 300 genes (strategies: 1025); two or three structured pairs of 66001 genes per operator (not ERX)",
            "all pairs of permutations with up to 7 genes (one parent fixed by symmetry beyond 6) x every range, pivot and partition choice; gene types usize, i64, char, pair, str, one whose hashes all clash and one that is only partially ordered x 12 hash keys up to 5 genes; 16 families of structured pairs for every length 7..160 and up to 300 genes (strategies: 2049); two or three structured pairs of 66001 genes per operator (not ERX)",
            &[],
        ),
        "C02" => (
            "all pairs with up to 7 genes x every range, five gene types up to 5 genes; SPX: all binary strings up to 6, ternary up to 4, every point including those beyond the end; structured pairs of every length up to 72, every range of middle-sized ones, up to 300 and 2049 genes; structured pairs of 66001 and more genes",
            "all pairs with up to 8 genes x every range, five gene types up to 5 genes; SPX: all binary strings up to 7, ternary up to 4, every point including those beyond the end; structured pairs of every length up to 160, every range of middle-sized ones, up to 300 and 2049 genes; structured pairs of 66001 and more genes",
            &[],
        ),
        "C03" => (
            "all pairs with up to 7 genes (one parent fixed by symmetry beyond 5) x every pivot; 6 hash keys x five gene types up to 5 genes; structured pairs of every length up to 72 and 257 (2049 at chosen pivots), every pivot of middle-sized ones; structured pairs of 66001 and more genes (SCX)",
            "all pairs with up to 8 genes (one parent fixed by symmetry beyond 6) x every pivot; 24 hash keys x five gene types up to 6 genes; structured pairs of every length up to 160 and 257 (2049 at chosen pivots), every pivot of middle-sized ones; structured pairs of 66001 and more genes (SCX)",
            &["ERX tie-breaks follow the hash order; all tie-breaks the rule admits are accepted"],
        ),
        "C04" => (
            "common neighbours: all genomes of distinct genes over a small alphabet and all permutation pairs up to 6 genes x five gene types; partitions and GPX2: all pairs up to 6 genes x every sequence of selector decisions, all pairs of 7 genes x four decision rules, structured pairs of every length up to 72, 300 and 2049; selectors that use the operators themselves",
            "common neighbours: all genomes of distinct genes over a small alphabet and all permutation pairs up to 6 genes x five gene types; partitions and GPX2: all pairs up to 7 genes x every sequence of selector decisions, all pairs of 8 genes x four decision rules, structured pairs of every length up to 160, 300 and 2049; selectors that use the operators themselves",
            &[],
        ),
        "C05" => (
            "exact offspring distribution over all draws for all pairs up to 5 genes and structured pairs up to 65, SCX, PMX, OX and SPX up to 300; first and last partition of GPX2 for up to 130 genes; 8 x 8 unequal length combinations for the strategies and 9 x 9 for the functions; extreme and mixed draw patterns for every length up to 72 and 1000",
            "exact offspring distribution over all draws for all pairs up to 6 genes and structured pairs up to 129, SCX, PMX, OX and SPX up to 400; first and last partition of GPX2 for up to 260 genes; 8 x 8 unequal length combinations for the strategies and 9 x 9 for the functions; extreme and mixed draw patterns for every length up to 160 and 1000",
            &["a uniform integer draw is one branching of equal weights, a float draw a grid"],
        ),
        "M01" => (
            "all draws for up to 5 genes, distinct and repeated genes; all draws that deviate from a pattern at most once or twice for every length 7..66 and larger ones",
            "all draws for up to 6 genes, distinct and repeated genes; all draws that deviate from a pattern at most once or twice for every length 7..96 and larger ones",
            &[],
        ),
        "M02" => (
            "exact outcome distribution over all draws: every size 0..48 and up to 300; scramble: every order of up to 7 genes, deviations from draw patterns for larger ones",
            "exact outcome distribution over all draws: every size 0..64 and up to 513; scramble: every order of up to 8 genes, deviations from draw patterns for larger ones",
            &["a uniform integer draw is one branching of equal weights"],
        ),
        "R01" => (
            "exact distribution over all draws for n in 1..100 and 512; quarters of larger numbers up to 2^52; bounded ranges for all min_len, max_len with n below 25; all panicking arguments near the limits",
            "exact distribution over all draws for n in 1..300 and 1025; quarters of larger numbers up to 2^52; bounded ranges for all min_len, max_len with n below 41; all panicking arguments near the limits",
            &["a uniform integer draw is one branching of equal weights"],
        ),
        "S01" => (
            "populations of up to 4 individuals over an alphabet of scores with extremes, up to 5000 in eight shapes, every strategy with boundary parameters x smallest, largest and threshold draws; up to 3000 coolings; populations of 16 ages with used selectors",
            "populations of up to 5 individuals over an alphabet of scores with extremes, up to 5000 in eight shapes, every strategy with boundary parameters x smallest, largest and threshold draws; up to 3000 coolings; populations of 16 ages with used selectors",
            &["float draws: smallest, largest and those next to the exact thresholds; scores are finite"],
        ),
        "S02" => (
            "all draws for tournaments (size 1..6, population bounded by 50000 outcomes; sizes up to 16 for tiny populations), rank n up to 64 and 1000, elitist and linear n up to 24..40 and 1000; one deviating participant in tournaments of up to 1024; percentiles for up to 100000 individuals; histories of preparations and selections; populations of 16 ages with used selectors; whole runs",
            "all draws for tournaments (size 1..7, population bounded by 400000 outcomes; sizes up to 20 for tiny populations), rank n up to 128 and 1000, elitist and linear n up to 40..64 and 1000; one deviating participant in tournaments of up to 1024; percentiles for up to 100000 individuals; histories of preparations and selections; populations of 16 ages with used selectors; whole runs",
            &["float draws: a grid whose error is bounded and tolerated"],
        ),
        "S03" => (
            "all score vectors over an alphabet up to 4 (roulette) and 3 (Boltzmann) individuals, shapes for every size up to 64 and 1000; temperatures 1e-150..1e150; percentiles for up to 100000 individuals; histories of preparations over eleven populations; populations of 16 ages with used selectors; whole runs",
            "all score vectors over an alphabet up to 5 (roulette) and 4 (Boltzmann) individuals, shapes for every size up to 64 and 1000; temperatures 1e-150..1e150; percentiles for up to 100000 individuals; histories of preparations over eleven populations; populations of 16 ages with used selectors; whole runs",
            &["float draws: a grid whose error is bounded and tolerated"],
        ),
        "S04" => (
            "all outcome sequences of up to 5 tries over populations of up to three, up to 257 tries with one distinct outcome; scripted selections from up to 1000 individuals; equality that ignores fitness; built-in mechanisms with exact probabilities; populations of 16 ages",
            "all outcome sequences of up to 7 tries over populations of up to three, up to 257 tries with one distinct outcome; scripted selections from up to 1000 individuals; equality that ignores fitness; built-in mechanisms with exact probabilities; populations of 16 ages",
            &[],
        ),
        "P01" => (
            "all lists of up to 5 individuals over five letters, up to four over special scores, structured lists of every length 6..70 and up to 65537; created, replaced and converted",
            "all lists of up to 6 individuals over five letters, up to four over special scores, structured lists of every length 6..140 and up to 100001; created, replaced and converted",
            &["scores are finite"],
        ),
        "P02" => (
            "all replacement sequences over eight lists up to depth 4; every size 1..130; 70000 replacements in a row; special scores",
            "all replacement sequences over eight lists up to depth 6; every size 1..300; 2^20 replacements in a row; special scores",
            &["scores are finite"],
        ),
        "T01" => (
            "all sequences of up to 6 samples over several alphabets, every split between collecting and recording; structured sequences of every length 7..70 and up to 200000 with offsets up to 2^44; nine kinds of iterators",
            "all sequences of up to 7 samples over several alphabets, every split between collecting and recording; structured sequences of every length 7..300 and up to 1000000 with offsets up to 2^44; nine kinds of iterators",
            &["moments are compared with a tolerance that grows with the rounding error of exact arithmetic"],
        ),
        "T02" => (
            "all sequences of record, collect, snapshot, convert and override operations up to depth 5; every count 1..140 and up to 65537",
            "all sequences of record, collect, snapshot, convert and override operations up to depth 7; every count 1..140 and up to 65537",
            &["the text form is compared with the numbers it contains, not letter by letter"],
        ),
        "W01" => (
            "all pairs and triples of 14 scores including both zeros, infinities and NaN; all lists of up to 4 of them; changes through the wrapper",
            "all pairs and triples of 14 scores including both zeros, infinities and NaN; all lists of up to 5 of them; changes through the wrapper",
            &[],
        ),
        "I01" => (
            "129 ratios x a grid of ends, for floats and integers",
            "1025 ratios x a grid of ends, for floats and integers",
            &[],
        ),
        "B01" => (
            "all populations of up to three individuals over a score alphabet x every selection outcome, every crossover and mutation decision, every validity and every fitness relation of the offspring; populations of 16 ages; every size up to 70 and 1000",
            "all populations of up to three individuals over a score alphabet x every selection outcome, every crossover and mutation decision, every validity and every fitness relation of the offspring; populations of 16 ages; every size up to 70 and 1000",
            &[],
        ),
        "B02" => (
            "rates k/64 and neighbours of 0 and 1, exact probabilities over a grid of draws for sizes 1..10, smallest and largest draws for every size 1..70 and 1000; rates 2^-52..0.02 from either limit; populations of 16 ages",
            "rates k/64 and neighbours of 0 and 1, exact probabilities over a grid of draws for sizes 1..10, smallest and largest draws for every size 1..70 and 1000; rates 2^-52..0.02 from either limit; populations of 16 ages",
            &["float draws: a grid of 64 (the exact rates) and the extremes"],
        ),
        "E01" => (
            "every pattern of valid and invalid individuals for sizes up to 7, all three ways to start, both algorithms; every size 8..70 and up to 5000; 1 preemptions at every scheduling point; sizes of 65535, 65537 and 100000",
            "every pattern of valid and invalid individuals for sizes up to 9, all three ways to start, both algorithms; every size 8..70 and up to 5000; 2 preemptions at every scheduling point; sizes of 65535, 65537 and 100000",
            &["the parallel part runs under a bounded-preemption scheduler"],
        ),
        "E02" => (
            "all breeding outcomes (elites, duplicates, invalid and equal offspring) for sizes up to 3 over several generations, every size 1..70 and up to 2500, elitism rates including boundary ones, runs of 60 to 600 generations; two generations of 65535 to 100000 individuals",
            "all breeding outcomes (elites, duplicates, invalid and equal offspring) for sizes up to 4 over several generations, every size 1..140 and up to 2500, elitism rates including boundary ones, runs of 60 to 600 generations; two generations of 65535 to 100000 individuals",
            &[],
        ),
        "E03" => (
            "all fitness histories with up to three individuals, eight special scores, depth 4 and two more generations; runs of up to 300 generations; every size 4..70; 70000 generations, and 70000 individuals",
            "all fitness histories with up to three individuals, eight special scores, depth 5 and two more generations; runs of up to 300 generations; every size 4..70; 70000 generations, and 70000 individuals",
            &[],
        ),
        "E04" => (
            "all decision sequences of the progress closure and the generation hook up to depth 4, both algorithms and all ways to start; every size 1..70 and 1000; runs of up to 70000 generations",
            "all decision sequences of the progress closure and the generation hook up to depth 5, both algorithms and all ways to start; every size 1..70 and 1000; runs of up to 200000 generations",
            &[],
        ),
        "E05" => (
            "sequences of one to 2 earlier runs with seven configurations (some refused) x a panic at every callback (long runs: the first 60, the last 20 and every 13th) x 2 seeds of the last run; every run on a new object is also compared with the first such run; 1300 mixed and 66000 equal runs on one object; generators seeded by the model",
            "sequences of one to 3 earlier runs with seven configurations (some refused) x a panic at every callback (long runs: the first 60, the last 20 and every 13th) x 8 seeds of the last run; every run on a new object is also compared with the first such run; 20000 mixed and 200000 equal runs on one object; generators seeded by the model",
            &["the generator of the model answers the same sequence per seed"],
        ),
        "E06" => (
            "seven diversity levels x depth 5 x intervals 0..3 and 7, ascending, descending and empty ranges; every size 1..36, 257; runs of up to 700 generations; scores at both ends of the float range; intervals from 65535 to usize::MAX, 66000 generations",
            "seven diversity levels x depth 6 x intervals 0..3 and 7, ascending, descending and empty ranges; every size 1..70, 257; runs of up to 700 generations; scores at both ends of the float range; intervals from 65535 to usize::MAX, 66000 generations",
            &[],
        ),
        "E07" => (
            "every boundary value (0, 1, their neighbours, negative, NaN, infinite, huge) of every parameter alone and of every pair of parameters, for both algorithms, all three ways to start and the validation alone; every population size up to 140 and larger ones up to 100000",
            "every boundary value (0, 1, their neighbours, negative, NaN, infinite, huge) of every parameter alone and of every pair of parameters, for both algorithms, all three ways to start and the validation alone; every population size up to 140 and larger ones up to 1000001",
            &[],
        ),
        "E08" => (
            "every way to divide the work for sizes up to 40 and 500 x 1..64 workers, orders and steals; all interleavings with 1 to 3 preemptions for populations of 10/6/4; a panic at every callback; workers that take any other job while they wait; nested parallelism, nested evolutions and own thread pools; an earlier run with other workers; individuals of equal fitness; selections among fractional scores",
            "every way to divide the work for sizes up to 40 and 500 x 1..64 workers, orders and steals; all interleavings with 1 to 4 preemptions for populations of 16/9/6/4; a panic at every callback; workers that take any other job while they wait; nested parallelism, nested evolutions and own thread pools; an earlier run with other workers; individuals of equal fitness; selections among fractional scores",
            &["scheduling points: callbacks, generator creation, pool operations, joins; sequential consistency between them (the crate denies unsafe code and its callbacks share nothing but the pool)"],
        ),
        "O01" => (
            "all strings of up to 12 bits, all draws of the operators on short ones, single deviations from draw patterns on long ones, all draws of short runs, patterns of draws for whole runs with four ways to build the algorithm; evaluation of up to 1000003 bits",
            "all strings of up to 16 bits, all draws of the operators on short ones, single deviations from draw patterns on long ones, all draws of short runs, patterns of draws for whole runs with four ways to build the algorithm; evaluation of up to 1000003 bits",
            &["genomes of length zero are not judged"],
        ),
        "N01" => (
            "all draws (floats: a grid of 2) of one generation of two individuals with 3 genes; all single deviations from 5 patterns of draws in runs of 2 generations with 5 genes and 4 individuals; 2 patterns of draws in runs of 10 generations with up to 40 genes and 40 individuals, of 3 generations with every number of genes 63..66 and up to 300; 6 crossovers x 4 mutations x 6 selections x both algorithms",
            "all draws (floats: a grid of 2) of one generation of two individuals with 3 or 4 genes; all single deviations from 5 patterns of draws in runs of 4 generations with 5 genes and 4 individuals; 5 patterns of draws in runs of 40 generations with up to 40 genes and 40 individuals, of 3 generations with every number of genes 41..140 and up to 300; 6 crossovers x 4 mutations x 6 selections x both algorithms",
            &[],
        ),
        "D01" => (
            "both algorithms x every subset of overridden parameters x 3 ways to start x 5 ways to make the object x 6 patterns of draws x 0, 1 and 4 generations; two runs in a row; default selectors of populations up to 4",
            "both algorithms x every subset of overridden parameters x 3 ways to start x 5 ways to make the object x 26 patterns of draws x 0, 1 and 4 generations; three runs in a row; default selectors of populations up to 4",
            &[],
        ),
        "X01" => (
            "six kinds of user-written algorithms, initial populations up to three, target sizes up to four, fewer than 3 generations with every outcome; every size 1..70 and 1025; runs of up to 300 generations; 1 preemptions",
            "six kinds of user-written algorithms, initial populations up to three, target sizes up to four, fewer than 4 generations with every outcome; every size 1..70 and 1025; runs of up to 300 generations; 2 preemptions",
            &[],
        ),
        "X02" => (
            "lists of 0..5 and 100 individuals x every target size 0..70 and up to 5000, both functions; every schedule with up to 2 preemptions for small ones; lists of 65535 to 100000",
            "lists of 0..5 and 100 individuals x every target size 0..70 and up to 5000, both functions; every schedule with up to 3 preemptions for small ones; lists of 65535 to 100000",
            &[],
        ),
        "V01" => (
            "every finite and non-finite class of float for the default; all outcomes of all evaluations in runs of one to three individuals over one to three generations, four kinds of validity; every size up to 70 and 1000 with one or many invalid individuals; runs of 400 generations",
            "every finite and non-finite class of float for the default; all outcomes of all evaluations in runs of one to three individuals over one to three generations, four kinds of validity; every size up to 140 and 1000 with one or many invalid individuals; runs of 3000 generations",
            &[],
        ),
        "H01" => (
            "direct calls with 14 scores and populations of 16 ages; whole runs with five kinds of scores x 4 patterns of draws x both algorithms, up to 257 individuals or 300 generations",
            "direct calls with 14 scores and populations of 16 ages; whole runs with five kinds of scores x 8 patterns of draws x both algorithms, up to 257 individuals or 2000 generations",
            &[],
        ),
        "F01" => (
            "540 calls of 45 operations, each as the first call of a process and after every other one; all triples of calls of one operation and of one call of each operation; up to 256 times eight calls of each operation before",
            "540 calls of 45 operations, each as the first call of a process and after every other one; all triples of calls of one operation and of three calls of each operation; up to 4095 times the calls of each operation and 66000 times one of them before",
            &["a call in a new process of its own has no history"],
        ),
        _ => ("", "", &[]),
    };
    a.extend_from_slice(extra);
    (if thorough { deep } else { quick }, a)
}
