ENUM = 'stateless model checking of the real code: exhaustive enumeration of inputs and of every random draw'
DIST = 'stateless model checking of the real code: exhaustive enumeration of every random draw, exact outcome distributions'
SCHED = 'stateless model checking of the real code: exhaustive enumeration of thread interleavings up to a preemption bound, of divisions of work and of every random draw, under a controlled scheduler'
TRUST = ' Assumes that rustc, std and the (slightly patched) vendored rand are right.'
CLAIMS = {
 'C01': (ENUM + ' and hash keys', 'Complete for all parent pairs and parameters up to the stated genome lengths; structured families beyond.' + TRUST),
 'C02': (ENUM, 'Complete for all parent pairs and parameters up to the stated genome lengths, against an independent specification; structured families beyond.' + TRUST),
 'C03': (ENUM + ' and several hash keys', 'Complete for all parent pairs and pivots up to the stated genome lengths, against a step-wise specification; tie-breaks are those that the enumerated hash keys cause.' + TRUST),
 'C04': (ENUM + ' and selector decisions', 'Complete for all genome pairs and selector decisions up to the stated genome lengths; structured families beyond.' + TRUST),
 'C05': (DIST, 'Exact distributions for all parent pairs up to the stated lengths.' + TRUST),
 'M01': (ENUM, 'Complete for all draws up to the stated genome lengths; fixed draw patterns beyond.' + TRUST),
 'M02': (DIST, 'Exact distributions up to the stated genome lengths.' + TRUST),
 'R01': (DIST, 'Exact distributions for the stated sizes; fixed draw patterns beyond.' + TRUST),
 'S01': (ENUM, 'Complete for all populations up to the stated size, every draw and every exclusion.' + TRUST),
 'S02': (DIST, 'Exact distributions for all populations up to the stated size, standalone and in whole runs.' + TRUST),
 'S03': (DIST, 'Exact distributions (float tolerance 1e-6) for a family of fitness vectors up to the stated size, standalone and in whole runs.' + TRUST),
 'S04': (ENUM, 'Complete for all populations up to the stated size and every draw.' + TRUST),
 'P01': (ENUM + ' and replacement histories', 'Complete for all individual lists over small alphabets up to the stated length.' + TRUST),
 'P02': (ENUM + ' and replacement histories', 'Complete for all histories up to the stated depth over small alphabets.' + TRUST),
 'T01': (ENUM + ' and sample histories', 'Complete for all sample sequences over the stated alphabets up to the stated length.' + TRUST),
 'T02': (ENUM + ' and callback histories', 'Complete for all histories up to the stated depth.' + TRUST),
 'W01': (ENUM + ' of fitness values', 'Complete for the stated value alphabet (pairs and triples).' + TRUST),
 'I01': (ENUM + ' of arguments', 'Complete for the stated argument grids.' + TRUST),
 'B01': (ENUM + ' and every crossover, mutation and fitness outcome of the user model', 'Complete within the stated bounds.' + TRUST),
 'B02': (DIST + '; every outcome of the user model', 'Exact distributions within the stated bounds.' + TRUST),
 'E01': (SCHED, 'Complete within the preemption bound for small worker counts and populations.' + TRUST),
 'E02': (ENUM + ' and every callback outcome over whole runs', 'Complete within the stated bounds.' + TRUST),
 'E03': (ENUM + ' and every callback outcome over whole runs', 'Complete within the stated bounds.' + TRUST),
 'E04': (ENUM + ' and every callback outcome over whole runs', 'Complete within the stated bounds.' + TRUST),
 'E05': (ENUM + ', of every point at which a user callback may panic, and of run histories on one object', 'Complete within the stated bounds.' + TRUST),
 'E06': (ENUM + ' and every fitness outcome over whole adaptive runs', 'Complete within the stated bounds.' + TRUST),
 'E07': (ENUM + ' of parameter combinations', 'Complete for the stated parameter grids.' + TRUST),
 'E08': (SCHED, 'Complete within the preemption bound for small worker counts and populations.' + TRUST),
 'O01': (DIST + '; exhaustive genomes', 'Complete for all genomes up to the stated length.' + TRUST),
 'D01': (ENUM + ', of parameter combinations, ways to make the objects and patterns of draws', 'Complete for the stated patterns of draws, not for all sequences of draws.' + TRUST),
 'V01': (ENUM + ' and every outcome of the evaluations over whole runs', 'Complete for runs of up to three individuals and generations; structured outcomes beyond.' + TRUST),
 'H01': (ENUM + ', of scores and ages of populations, and of patterns of draws of whole runs', 'Complete for the stated scores, ages and patterns of draws.' + TRUST),
 'F01': (ENUM + ' and histories of calls, each compared with the result in a process of its own', 'Complete for pairs of the stated calls; longer histories cover calls of one operation, and repetitions.' + TRUST),
 'N01': (ENUM + ', of the random draws of whole runs', 'Complete for one generation of tiny populations; longer runs cover draws that deviate in one place from fixed patterns.' + TRUST),
 'X01': (ENUM + ', of run histories and of thread interleavings up to a preemption bound', 'Complete for five combinations of own and default steps within the stated bounds.' + TRUST),
 'X02': (SCHED, 'Complete for the stated list lengths and sizes, and within the preemption bound for small sizes.' + TRUST),
}
NA = {}
