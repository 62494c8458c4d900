import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook,**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
X='src/operators/crossover.rs'; O='src/operators.rs'; M='src/operators/mutation.rs'; S='src/operators/selection.rs'
POP='src/population.rs'; ST='src/stats.rs'; MO='src/model.rs'; EV='src/evolution.rs'; AL='src/algorithms.rs'; GA='src/algorithms/ga.rs'; AGA='src/algorithms/aga.rs'; L='src/lib.rs'; IND='src/individual.rs'

p('C01','Permutation crossovers always produce permutations',
 'For two parents that are permutations of the same distinct genes, the offspring of GPX2, SCX, ERX, PMX, OX and CX contains every gene exactly once, for every pivot, range or partition choice, and the call terminates without panicking. This also holds for empty and one-gene genomes, for an empty or full gene range, and for any gene type or gene values.',
 ['inputs'],'all parent permutation pairs, pivots, ranges, partition choices, hash iteration orders, gene values',
 'One pair of ten-gene parents with one fixed parameter per operator is exercised by the doc-tests.',
 [X,O],[('generalized_partition_2_crossover',X),('sequential_constructive_crossover',X),('edge_recombination_crossover',X),('partially_mapped_crossover',X),('order_crossover',X),('cycle_crossover',X)],
 ['return value of the crossover functions'])
p('C02','PMX, OX, CX and SPX put the right parental gene at every position',
 'PMX keeps the first parent\'s genes in the given range and elsewhere takes the second parent\'s gene at that position, replaced through the range mapping (first parent\'s gene -> second parent\'s gene at the same position) until it is not one of the kept genes; OX keeps the range and fills the other positions, starting behind the range and wrapping around, with the second parent\'s remaining genes in their cyclic order starting at the same place. CX takes whole position cycles alternately from the first and the second parent, beginning with the first parent for the cycle of position zero and visiting cycles by their lowest position. SPX takes the genes before the point from the first parent and those from the point on from the second parent (the first parent unchanged if the point is at or past the end), also for genomes that are not permutations.',
 ['inputs'],'all parent pairs, ranges and points',
 'One example per operator is tested; off-by-one or wrap-around mistakes that depend on the range position or the cycle structure pass it.',
 [X],[('partially_mapped_crossover',X),('order_crossover',X),('cycle_crossover',X),('single_point_crossover',X)],['return value of the crossover functions'])
p('C03','SCX and ERX construct offspring step by step from parental adjacency',
 'The offspring of SCX and ERX starts with the given pivot (for genomes with at least two genes). In SCX each next gene is the cyclic successor, in the first or the second parent, of the gene placed before it: the only not yet placed one of the two; if both are available, the first parent\'s candidate if its position in the second parent is lower than the position of the second parent\'s candidate in the first parent, otherwise the second parent\'s candidate; and if none is available, the earliest not yet placed gene of the first parent. In ERX each next gene is a not yet placed cyclic neighbour (in either parent) of the gene placed before it that has the fewest not yet placed neighbours of its own, in any order among ties, and if there is no such neighbour, any not yet placed gene.',
 ['inputs'],'all parent permutation pairs, all pivots, all tie-breaks caused by hash iteration order',
 'The tests compare one SCX example, and for ERX only check that the result of one example is a permutation.',
 [X],[('sequential_constructive_crossover',X),('edge_recombination_crossover',X)],['return value of the crossover functions'])
p('C04','Common neighbours, common partitions and GPX2 preserve shared structure',
 'For genomes of distinct genes of any type, the common neighbours are exactly the unordered pairs of genes that are cyclically adjacent in both genomes, each reported once and independent of the argument order. For two permutations of the same genes, the common partitions contain each gene exactly once, genes that follow each other in a partition are cyclically adjacent in both genomes, and a partition ends only where every common neighbour of its last gene is already in it or in an earlier partition. The GPX2 offspring is the concatenation of these partitions in the order chosen by the selector, which is called once per partition with the last gene placed so far (none at first) and exactly the partitions not yet placed.',
 ['inputs'],'all genome pairs, all selector decisions',
 'The tests check one genome pair and two selectors.',
 [O,X],[('common_neighbors',O),('common_partitions',O),('generalized_partition_2_crossover',X)],['return values; arguments passed to the partition selector'])
p('C05','Crossover strategies draw their parameter uniformly and reject unequal lengths',
 'A crossover strategy produces exactly the offspring its crossover function produces for a randomly drawn parameter: for SCX and ERX a pivot uniform over the genes, for PMX and OX a non-empty gene range whose length is uniform in 1..=n and whose start is uniform among the fitting ones, for SPX a point uniform in 0..n, for GPX2 at each step a partition uniform among the remaining ones, and for CX no randomness. Every strategy, and every crossover function other than that of GPX2, panics if the parents have different lengths, and the strategies never panic for parents that are permutations of the same genes, including empty ones.',
 ['inputs'],'all random draws, all parent pairs including unequal lengths',
 'No test calls a crossover strategy directly except single-point crossover through the OneMax runs; distributions and panics are not checked.',
 [X,O],[('CrossoverStrategy::crossover',X),('random_range',O)],['return value or panic of the strategy call, with its exact probability over all random draws'])
p('M01','Every mutation is one well-formed edit of its kind',
 'Swap exchanges two different positions; inversion reverses and scramble permutes the genes inside one contiguous run of at least two positions; insertion moves one gene to a different position and shifts the genes in between; duplicate overwrites one position with the gene of another position. Nothing else changes, so all but duplicate keep the multiset of genes; genomes with fewer than two genes stay unchanged; no draw makes a mutation panic.',
 ['inputs'],'all genome lengths, all random draws, also through the strategy enum',
 'One seed and one genome per mutation are tested.',
 [M,O],[('swap_mutation, scramble_mutation, inversion_mutation, insertion_mutation, duplicate_mutation',M),('random_pair, bounded_random_range',O)],['genome after the mutation'])
p('M02','Every permitted mutation edit is possible with its stated probability',
 'Swap chooses every unordered pair of positions with equal probability; duplicate and insertion choose every ordered pair of different positions (source, destination) with equal probability. Inversion and scramble choose the length of the run uniformly in 2..=n and its start uniformly among the fitting ones, and scramble then makes every order of the chosen genes equally likely. The mutation strategies behave exactly like the corresponding mutation functions.',
 ['inputs'],'the exact outcome distribution over all random draws, for every small genome length',
 'A seeded example shows one outcome; unreachable or favoured edits are invisible to it.',
 [M,O],[('mutation functions',M),('random_pair, bounded_random_range',O)],['exact outcome distribution of the mutated genome'])
p('R01','Random pairs and ranges are valid and uniformly drawn',
 'A random pair below n always consists of two different numbers below n, and all ordered pairs are equally likely. A random range below n is never empty, never exceeds n, has a length uniform in 1..=n and a start uniform among the fitting ones; a bounded random range has a length uniform in min_len..=max_len and a start uniform among the fitting ones. A pair with n below two, a range with n of zero, and a bounded range with min_len above max_len panic.',
 ['inputs'],'all n, min_len, max_len and all random draws',
 'One seed each is tested.',
 [O],[('random_pair, random_range, bounded_random_range',O)],['return value or panic, with its exact probability'])
p('S01','Selection always returns a member of the population with its own index',
 'After being prepared for a population, every selection strategy returns, for every random draw, an index below the population size together with a reference to exactly the individual at this index, and never panics. This holds for every non-empty population with finite fitness scores, including one-member, all-equal, negative and very large scores, and for every parameter the strategy accepts (linear bias between 1 and 2, positive temperatures that may have cooled down arbitrarily).',
 ['inputs','configurations'],'all small populations over a fitness alphabet with extremes, all draws including the smallest and largest possible, all strategies',
 'The tests use one ten-member population and average random draws; boundary draws with probability 2^-53 are never seen.',
 [S],[('SelectionMechanism::select of the six mechanisms',S)],['returned index and reference'])
p('S02','Rank-based selection has its exact probabilities',
 'In a population of n individuals sorted by ascending fitness (ranks 1..=n): tournament selection of size k picks one of the i least fit individuals with probability (i/n)^k; rank selection picks rank r with probability r/(1+...+n); elitist selection with ratio q picks uniformly among all but the floor(n*q) least fit ones. Linear selection with bias b between 1 and 2 picks one of the m fittest with probability b*m/n - (b-1)*(m/n)^2, hence uniformly for b = 1. These do not depend on the fitness values themselves.',
 ['inputs','configurations'],'all population sizes up to a bound, sizes, ratios and biases',
 'One population size and one parameter value each is tested, with a tolerance of 0.01, and linear selection only for monotonicity.',
 [S],[('TournamentSelection, RankSelection, ElitistSelection, LinearSelection',S)],['exact distribution of the selected index over all draws'])
p('S03','Fitness-based selection is proportional to (Boltzmann-scaled) fitness',
 'With non-negative scores of positive finite sum, roulette-wheel selection picks each individual with probability proportional to its fitness. Boltzmann selection picks each with probability proportional to exp(fitness/T), where T is the initial temperature times the cooling rate to the power of the number of preparations done so far, for positive, zero and negative scores and down to arbitrarily low positive T, where it selects only the fittest. Only the population of the latest preparation counts, whatever populations were prepared before.',
 ['inputs','histories'],'all fitness vectors over an alphabet, all temperatures and rates, all preparation histories',
 'One population, one temperature, and a constant temperature (rate 1) are tested, so neither cooling nor re-preparation is.',
 [S],[('RouletteWheelSelection, BoltzmannSelection',S)],['distribution of the selected index; temperature accessor'],
 [('temperature','current temperature, cooled once per preparation',S)])
p('S04','Distinct selection never returns the excluded individual',
 'Selecting a distinct individual makes at most max_tries selections and returns the first selected individual that differs from the excluded one, with its index, or nothing if all of these selections yield the excluded one. It neither stops early nor goes on afterwards.',
 ['inputs','histories'],'all sequences of selection outcomes up to max_tries, all excluded individuals',
 'No test calls it directly.',
 [S],[('SelectionMechanism::select_distinct',S)],['returned option; number of selections made'])
p('P01','A population is sorted, free of duplicates, and complete',
 'A population created from (or replaced by) any non-empty list of individuals with finite fitness contains each distinct individual of the list exactly once and nothing else, in ascending order of fitness, however duplicates are placed among individuals of the same fitness. Its fittest individual (borrowed or taken) is a member with the maximum fitness, an empty list is refused (creation and replacement panic, conversion returns the list as an error), and converting it back into a list yields the individuals in the same order.',
 ['inputs'],'all lists of individuals with all patterns of equal individuals and equal fitness, up to a length, plus long structured lists',
 'The tests only build one ten-member population of distinct, already sorted individuals.',
 [POP],[('Population::new, replace, fittest, take_fittest, TryFrom, Into<Vec>',POP),('sort_dedup_and_collect_stats',POP)],['contents and accessors of the population'])
p('P02','Generation, stagnation and statistics follow every replacement',
 'A new population has generation 0 and stagnation 0; each replacement increments the generation by one, resets the stagnation to 0 if the new best fitness is strictly greater than the best fitness of the population before, and otherwise increments it. After creation and each replacement the statistics describe exactly the fitness scores of the current members (count, minimum, maximum and their indices, average, variance), and the list passed to the replacement holds the members of the old population.',
 ['histories'],'all replacement sequences up to a depth over an alphabet of populations',
 'No test looks at generation, stagnation or statistics across replacements.',
 [POP,ST],[('Population::replace',POP)],['generation(), stagnation(), stats(), the list handed back'],
 [('generation, stagnation, stats','progress counters and statistics of the population',POP)])
p('T01','Statistics equal their mathematical definition for every sample sequence',
 'For every sequence of finite samples, count, minimum, maximum, the index of the first minimum and of the first maximum are exact, and the average and the unbiased sample variance (0 for one sample) and its square root agree with exact arithmetic up to rounding (for magnitudes whose squares neither overflow nor underflow), even when the samples have a large common offset. An empty sequence has count 0 and no other value. Samples collected at once and samples recorded one by one give the same statistics, also when recording continues after a collection.',
 ['inputs','histories'],'all sample sequences over an alphabet up to a length, and long structured sequences',
 'A few five-sample sequences are tested.',
 [ST],[('Stats::record, FromIterator, accessors',ST)],['accessors of the statistics'],
 [('Stats','running count, extremes, mean and sum of squares',ST)])
p('T02','Snapshots and conversions freeze the statistics at that moment',
 'A snapshot of (or conversion from) non-empty statistics reports the same values as the statistics at that moment and never changes when recording goes on; an empty one yields none (an error). Overriding the index of the minimum or maximum changes only this index and panics if it is not below the sample count. The text form of empty statistics is empty, otherwise it lists samples, min, max, average, variance and standard deviation with the requested precision, the same for statistics and snapshot.',
 ['histories'],'all interleavings of record, snapshot and override operations up to a depth',
 'One sequence with two snapshots is tested; overrides are not.',
 [ST],[('Stats::snapshot, PopulatedStats, TryFrom, Display',ST)],['accessors and text of snapshots'])
p('B01','Breeding keeps the better of offspring and parents',
 'By default, breeding one individual selects one parent, or two different ones for a crossover, makes the offspring by crossover of the two in selection order (or as a copy of the only parent), mutates it if drawn, improves it and evaluates it, each at most once and in this order, evaluation being the last change. It returns this offspring if it is valid and its fitness is not lower than that of the fittest selected parent, and otherwise an unchanged copy of the fittest selected parent. An invalid offspring is never returned; a model that overrides the survival rule decides instead for valid offspring, given the offspring and the fittest parent.',
 ['inputs'],'all populations, parent choices, operator decisions and offspring fitness relations',
 'Breeding is only run inside whole OneMax optimisations whose sole check is that they reach the optimum.',
 [MO],[('EvolutionModel::breed, can_survive',MO)],['sequence of model callbacks and the returned individual'])
p('B02','Crossover and mutation happen exactly with their configured rates',
 'When breeding from at least two individuals, a crossover is attempted with probability equal to the crossover rate and takes place if a distinct mate is found within three selections; with a population of one it never happens. The mutation takes place with probability equal to the mutation rate, independently of the crossover. A rate of 0 means never and a rate of 1 always, for every random draw.',
 ['inputs','configurations'],'all random draws, rates, population sizes',
 'Runs with typical rates reach the optimum for many wrong rates as well.',
 [MO],[('EvolutionModel::breed',MO)],['calls of the crossover and mutation callbacks, with their exact probability'])
p('E01','The initial population is complete, evaluated and valid',
 'A random run creates exactly the configured number of random individuals with the given arguments; a run from an individual starts from an unchanged copy of it and otherwise individuals obtained by mutating a copy of it once each, the configured number in total. Every individual of the initial population is evaluated exactly once before the first progress report, invalid ones are left out, and all valid ones are in the first population (generation 0); if there is no valid one the run panics.',
 ['inputs','schedules'],'all population sizes up to a bound, all patterns of valid/invalid individuals, all parallel schedules',
 'Tests only run with 100 always valid individuals.',
 [MO,EV,AL],[('extend_population, extend_population_with',MO),('initialize_population',AL),('run, evolve_individual, evolve_population',EV)],['model callbacks and the first population passed to the progress closure'])
p('E02','Each generation consists of the elites and freshly bred individuals',
 'In the standard and the adaptive algorithm with population size N and elitism rate e, each new generation consists of the floor(N*e) fittest individuals of the current one (all, if it has fewer) unchanged, and the results of exactly as many breedings as are missing to N, without duplicates and without anything else; this includes sizes of one and generations with a single open slot. So a population that evolved is never empty and never larger than N, and with at least one elite the best fitness never decreases from generation to generation.',
 ['inputs','configurations','histories'],'all population sizes up to a bound, elite counts, fitness patterns of the bred individuals, several generations',
 'Tests run only size 100 with one elite and do not look at the composition.',
 [AL,GA,AGA,L],[('select_elites',GA+', '+AGA),('generate_new_population, replace_population',AL),('interpolate_usize',L)],['breeding calls and the populations passed to the progress closure'])
p('E03','A run returns the best individual of its whole execution',
 'The individual returned by a run from random individuals or from a given individual was a member of a population reported to the progress closure during this run, and no individual in any of these populations is fitter, even if the best one was lost in a later generation. In particular the result is at least as fit as every valid individual of the initial population. A run from a given population returns the last reported population itself.',
 ['histories','configurations'],'all fitness histories over several generations, with and without elitism, both algorithms',
 'Tests end as soon as the optimum is in the current population, so losing an earlier best is not observable.',
 [EV],[('run, evolve_individual, evolve_population',EV)],['returned individual compared with all reported populations'])
p('E04','Progress is reported once per generation, preparation precedes breeding',
 'The progress closure is called first with generation 0 and then exactly once per generation with consecutive numbers, until it returns false, after which nothing is bred, evaluated or prepared any more. Between two reports the model\'s generation hook runs exactly once with the population reported before, then the parent selector in force after the hook is prepared exactly once with this same population, and only then individuals are selected and bred from it. Each run starts with the configured selector and, in the standard algorithm, with the configured rates; changes the hook makes to rates or the selector take effect in the same generation and last until the hook (or the rate adjustment of the adaptive algorithm) changes them again.',
 ['histories'],'all decision sequences of the progress closure and of the hook up to a depth, both algorithms',
 'No test overrides the hook or observes the order of the steps.',
 [EV,GA,AGA],[('evolve_population',EV),('prepare_for_next_population',GA+', '+AGA)],['sequence of progress, hook, prepare, select and breeding calls'])
p('E05','Runs on the same object are independent, also after a panic in user code',
 'With the same parameters, arguments and random draws (or generators that the model seeds alike), a run on an evolution object that was already used (with other parameters, other initial individuals, or aborted by a panic of a model callback or of the progress closure at any point) behaves exactly like the run on a fresh object: same populations, rates, selection behaviour (including a Boltzmann temperature starting anew) and result. A panic of a callback reaches the caller of the run. This is for models without state of their own.',
 ['histories','fault_sequences'],'all sequences of runs with a set of parameters, with a panic injected at every callback',
 'Each test uses an object for a single run and never fails.',
 [EV,GA,AGA],[('configure',GA+', '+AGA),('RefCell borrow scope in evolve_population',EV)],['full trace of the later run'],
 [('algorithm','configuration carried by the evolution object',EV)])
p('E06','Adaptive rates follow the fitness diversity within their ranges',
 'In the adaptive algorithm, generation 0 uses the end of the crossover range and the start of the mutation range; at each later generation whose number is a multiple of the adjustment interval, with d = the standard deviation of the current fitness scores divided by that of generation 0, limited to 0..1 (0 if the current deviation is 0, 1 if only that of generation 0 is 0), the crossover rate becomes start+(end-start)*d and the mutation rate start+(end-start)*(1-d) of their ranges. In other generations, and always if the interval is 0, they stay as they were. For all finite scores, also extreme ones, the rates are never NaN and never outside their ranges (up to rounding). Ranges given in descending order are used just like that.',
 ['histories','configurations'],'all diversity histories over an alphabet of deviations, intervals and rate ranges',
 'Tests never observe the rates.',
 [AGA,L],[('prepare_for_next_population',AGA),('interpolate_f64',L)],['rates seen by the model hook and by breeding'],
 [('reference_std','deviation of generation 0',AGA)])
p('E07','Invalid parameters are rejected before the run starts, valid ones accepted',
 'A run panics, before any progress report and any breeding, if the population size is 0, the elitism rate is not in [0,1), or a crossover or mutation rate (or, for the adaptive algorithm, an end of one of these ranges) is not in [0,1], NaN included; with all of them in range, limits included, parameters are accepted. Creating or modifying a tournament of size 0, a Boltzmann selection with cooling rate 0 or an elitist selection with a ratio outside [0,1) panics, and other values are kept as given; this also holds when the selection comes from a strategy.',
 ['configurations'],'all combinations of boundary values of each parameter, both algorithms',
 'Tests only use valid parameters.',
 [GA,AGA,S,EV],[('validate',GA+', '+AGA),('new, set_size, set_cooling_rate, set_ratio, create_selector',S)],['panic or acceptance'])
p('E08','Results do not depend on the parallel schedule',
 'Creating, evaluating and breeding individuals in parallel processes every one of them exactly once and gives the same populations and the same result for every number of worker threads, every division of the work, and every interleaving, provided the model\'s operations do not depend on shared state or on which random generator they get. No random generator is used by two individuals at the same time, and each one comes from the model. Nested parallelism inside model operations does not change this.',
 ['schedules'],'all work divisions and interleavings of the model callbacks with bounded preemptions, for several worker counts',
 'Tests run whatever schedule the operating system gives, and check only the final optimum.',
 [AL,MO,EV],[('generate_new_population, initialize_population',AL),('extend_population, extend_population_with',MO),('random generator pool',EV)],['populations, callbacks and results under every schedule'])
p('I01','Interpolation stays in range, is exact at the ends and monotone',
 'For min <= max whose difference is finite and a ratio between 0 and 1, the interpolated value lies (for floats up to rounding) between min and max, equals min for ratio 0 and max for ratio 1, and does not decrease when the ratio grows. The float version is the linear combination min+(max-min)*ratio up to rounding; the integer version is the integer part of this, for sizes that a float represents exactly and up to rounding of the product.',
 ['inputs'],'a grid of ends and ratios including extremes and neighbours of exact results',
 'One midpoint each is tested.',
 [L],[('interpolate_f64, interpolate_usize',L)],['return values'])
p('W01','Fitness comparison is a consistent total order on real fitness scores',
 'Comparing individuals, or wrapped individuals, orders them exactly by their fitness scores (including infinite ones): equal exactly for equal scores, antisymmetric and transitive, and consistent between all comparison operators. Thus sorting wrapped individuals and popping them from a heap yields them by fitness, and comparisons with a NaN score never panic. A wrapper gives access to, and finally returns, exactly the individual put into it, and is compared by the present score of the individual, also after this was changed through the wrapper.',
 ['inputs'],'all pairs and triples of scores over an alphabet with zeros of both signs, subnormals and infinities; all short lists',
 'No test uses the wrapper.',
 [IND,O],[('IndividualWrapper',IND),('compare_fitness',O)],['comparison results, sorting and heap order'])
p('O01','The OneMax example problem is implemented faithfully',
 'A random OneMax individual has exactly the requested length and every bit string is equally likely; evaluation sets its fitness to the ratio of one bits to the length and changes no bit. Crossover takes a prefix of the first (its length drawn uniformly from 0 to length-1) and the rest of the second parent\'s bits; mutation copies one bit to another position, every ordered pair of positions being equally likely. For every random draw, a genetic algorithm on OneMax with an elite never reports a decreasing best fitness, reports only correctly evaluated individuals, and returns the fittest of them.',
 ['inputs','histories'],'all bit strings up to a length, all random draws of single operators, and of whole short runs',
 'Seedless runs are checked for reaching the optimum only.',
 [L,MO,AL,GA,AGA],[('one_max module',L)],['individuals, callbacks, reported populations'])
p('X01','Custom algorithms are driven step by step, with the documented defaults',
 'A run of a user-defined algorithm asks the model for exactly the initial number of individuals its parameters state, configures the algorithm exactly once with these parameters before the individuals are evaluated, and in every generation performs exactly once each, in this order and with the population reported last, the preparation, the selection of elites (into an empty list), the generation of offspring (into the list with the elites) and the replacement (with the complete list). A step the algorithm does not define behaves as documented: the individuals are evaluated and the invalid ones left out, the only elite is a fittest member, as many individuals as are missing to the size given by the reproduction parameters (none if the elites reach it) are bred with these parameters, and the old population is replaced by elites and offspring. A step the algorithm defines is used instead and its outcome is taken as it is, and the result is the best individual that was reported (the last population for a run from a given one).',
 ['inputs','histories','schedules'],'all initial and target sizes up to a bound and histories of them, several combinations of own and default steps, all ways to start a run',
 'No test defines an algorithm of its own.',
 [AL,EV],[('EvolutionAlgorithm (default methods)',AL),('Evolution::evolve_population, run, evolve_individual',EV)],['calls of the algorithm and model methods with their arguments, reported populations, result'])
p('X02','Extending a list appends exactly the requested number of individuals',
 'Extending a list of individuals through the model keeps the individuals already in it unchanged in front and appends exactly the requested number: random ones created with the given arguments, or one unchanged copy of the given individual and otherwise copies of it mutated once each; for size zero nothing is created, mutated or appended. This holds for every list, size, number of worker threads, division of the work and interleaving. A model that overrides this decides about the initial individuals of a run: it is asked exactly once, with an empty list and the initial population size, and exactly what it puts into the list is evaluated and becomes the first population.',
 ['inputs','schedules'],'all list lengths and sizes up to a bound, all divisions of the work and interleavings with bounded preemptions',
 'No test calls these methods directly or overrides them.',
 [MO,EV],[('extend_population, extend_population_with',MO),('Evolution::run, evolve_individual',EV)],['the list afterwards, calls of the model, the first reported population'])
p('N01','Evolving permutations stays consistent from end to end',
 'A run of the standard or adaptive algorithm on a permutation problem, whose model combines any of the six permutation crossover strategies with a mutation strategy that keeps the genes (swap, scramble, inversion, insertion) and any selection strategy, never panics and reports only populations of permutations of the genes that carry exactly the fitness the model assigns to them, ascending by fitness, without duplicates, from generation 1 on not larger than the population size, and with generation, stagnation, statistics and fittest individual describing them. With an elite the best fitness never decreases, and the returned individual is a permutation as fit as the fittest one ever reported.',
 ['inputs','histories','configurations'],'all combinations of crossover, mutation and selection strategies and algorithms; all draws of a generation, all single deviations from patterns of draws in short runs, patterns of draws in longer runs',
 'The tests only run OneMax, so no test runs an algorithm with a permutation crossover or any mutation but duplicate.',
 [EV,AL,X,M,S],[('Evolution::run, evolve_individual, evolve_population',EV),('CrossoverStrategy::crossover',X),('MutationStrategy::mutate',M),('SelectionStrategy::create_selector',S)],['populations passed to the progress closure and the returned individual'])
p('D01','Default parameters and default objects mean what is documented',
 'The default parameters of the standard algorithm are a population size of 100, an elitism rate of 0.01, a crossover rate of 0.8, a mutation rate of 0.1 and roulette-wheel selection; those of the adaptive algorithm a population size of 100, an elitism rate of 0.01, the crossover range 0.3..1.0, the mutation range 0.1..1.0, roulette-wheel selection and an adjustment interval of 1. For every sequence of draws a run with them, or with some of them overridden, behaves exactly like a run with these values given explicitly. It makes no difference whether the evolution object, its algorithm or its model is made by default, converted, or built from a model; a default parent selector behaves like a newly created one.',
 ['inputs','configurations','histories'],'all subsets of overridden parameters, ways to make the objects and kinds of run, over patterns of draws; short histories of runs on one object',
 'The tests run one example with overridden defaults and never look at the values, and no test makes an evolution object by default.',
 [GA,AGA,EV,S],[('Default for GeneticAlgorithmParameters, GeneticAlgorithm',GA),('Default for AdaptiveGeneticAlgorithmParameters, AdaptiveGeneticAlgorithm',AGA),('Default and From for Evolution',EV)],['the public fields of default parameters; every call of the model and every reported population of a run'])
p('V01','Invalid individuals never get into a population',
 'Unless its type defines this otherwise, an individual is valid exactly if its fitness is neither infinite nor NaN. Whatever fitness and validity the evaluations of a run yield, in the initial population and in every later generation, an invalid individual is never a member of a population reported to the progress closure, a parent of a crossover, asked to survive, or the result of the run, with the default way of breeding and any survival rule; and every valid individual of the initial ones is in the first population. A run panics before the first report if none of the initial individuals is valid, and otherwise not.',
 ['inputs','histories','configurations'],'all outcomes (fitness and validity) of all evaluations of short runs, both algorithms and all ways to start; structured outcomes for large populations and long runs',
 'The OneMax example of the tests has no invalid individuals; only a few positions of invalid individuals could be sampled.',
 [IND,AL,MO,EV],[('Individual::is_valid','src/individual.rs'),('initialize_population','src/algorithms.rs'),('EvolutionModel::breed','src/model.rs')],['members of the reported populations, parents given to crossover and survival, result'])
p('H01','Operations a model does not define do nothing, or what is documented',
 'A model that does not define the improvement or the preparation of a generation behaves exactly like one that defines them as doing nothing: individuals, rates and the selector stay as they are, in every generation of every run, however old or stagnating the population is. A model that does not define the survival rule behaves exactly like one whose offspring survives if and only if its fitness is not lower than that of the fittest parent, independently of the population and of random draws.',
 ['inputs','histories','configurations'],'scores, ages of populations and rates for the operations themselves; whole runs of two models, one with the operations spelled out, over kinds of scores and patterns of draws',
 'No test looks at what the operations leave unchanged, and all tests are short runs that soon succeed.',
 [MO,AL],[('EvolutionModel::improve, pre_generation, can_survive',MO)],['all calls of the model, rates given to breed, reported populations and result; the arguments after a direct call'])
p('F01','A call is not influenced by earlier calls',
 'What a crossover, mutation, random pair or range, common-neighbour or partition computation, selection with a new selector, population, statistics, comparison, interpolation, OneMax operation or run of either algorithm with new objects yields depends only on its arguments and on the random draws and hash keys it uses: in any history of calls, with equal or different arguments, of the same or of other operations, and after calls that panicked, each call gives what it gives as the first call of a new process.',
 ['histories','inputs'],'all pairs and many triples of 540 calls of 45 operations with fixed draws and hash keys, and up to 256 (thorough: 66000) repetitions of a call, each compared with the result in a process of its own',
 'Every test makes few calls, and none compares a call with the same call in another history; caches and counters go unnoticed.',
 [X,M,S,O,POP,ST,AL,L],[('the crossovers',X),('the mutations',M),('create_selector',S),('common_neighbors, common_partitions, random_pair, random_range',O),('Population::new, replace',POP)],['results of the calls'])
json_lines='\n'.join(json.dumps(x,ensure_ascii=False) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
