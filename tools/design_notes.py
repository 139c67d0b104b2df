# id: (oracle and bounds, what the tests cannot reach)   -- source of the per-property sections of DESIGN.md
NOTES = {
'C01': 'Oracle (`oracle.precedence`): for every dependency of the *plain* description start(child) >= finish(parent) + int(lag), every start >= the '
       'project start asked for, start/finish service works enclose all. Projects: 1-18 works, chains of 2-3 with predecessors of their own, lags, '
       'priorities, 1-3 contractors, specification; 12 scheduler configurations and both genetic schemes; graphs of the synthetic generator (30-40 works).',
'C02': 'Oracle (`oracle.capacity`): sweep over all start/finish instants of the finished schedule per (contractor, kind); a chain keeps its team from first '
       'start to last finish. `two_projects` puts a second project on the timeline returned for the first one.',
'C03': 'Oracle (`oracle.complete`, `oracle.team`): set of ids, finite times, one existing contractor, kinds = required kinds, min <= n <= max, n <= staff. '
       'Contractors list *different* kinds in *different* orders, the thing on which the index arithmetic of chromosomes and pools depends.',
'C04': 'Oracle (`oracle.spec_ok`, `oracle.independent`): contractor in the allowed set, fixed numbers exact, assigned time = length of the whole chain, nothing '
       'else runs during an independent work. Specifications are drawn satisfiable (one capable contractor keeps the fixed team).',
'C05': 'Oracle (`oracle.chains`): same contractor and team along the chain, order kept, next start = previous finish unless a lag or predecessor of a link '
       'forces a later one, and then as early as that.',
'C06': 'The reference decides feasibility from the description (some allowed contractor has the minimum or fixed numbers for every block). Scheduling must '
       'succeed exactly then, otherwise raise NoSufficientContractorError; any other exception is a violation.',
'C07': 'Metamorphic: the same project from 0 and from t; every start and finish differs by t, teams and contractors equal. The specification may make works independent.',
'C08': 'Reference estimator: ceil(volume/(productivity*n*communication)) over kinds in exact fractions; chains compared as a whole for the parallel scheme; '
       'direct estimator cases change productivity after the first estimate, use kinds unknown to it, static and stochastic modes (bounds only).',
'C09': 'Snapshots of works, contractors, specification before/after; history A, B, A again with one scheduler object; the same seed in processes with '
       'different PYTHONHASHSEED (worker pool) must print equal schedules.',
'C10': 'Validity predicate on chromosomes (order is a linear extension, genes within borders, contractor able, fixed genes kept), after every single operator; '
       'a recording objective collects all chromosomes evaluated in a full run, and the schedule returned must have the best value met (also against the first population).',
'C11': 'Round trip schedule -> chromosome -> schedule -> chromosome; equality of genes, and of schedules for the schedulers that use the same timeline in the encoded order.',
'C12': 'Model timeline (piecewise counts of free staff, brute force over candidate starts). Every answer of the just-in-time and momentum timelines is compared; '
       'finished schedules are replayed in the order of the scheduler: each work must start at the earliest time the documented rule allows.',
'C13': 'Valid schedules are made *without* the library (`plan.schedule`: random order, contractors, teams, idle times) and by schedulers; one of a list of '
       'corruptions is applied; accept/refuse must match.',
'C14': 'Deep structural comparison after dict, JSON text, JSON file, pickle, dill, deepcopy; the intermediate representation must not change by loading and load twice.',
'C15': 'Priorities that contradict the dependencies are corrected to a fixpoint computed apart, on chains beyond the recursion limit too. The restructured graph is described independently: each work is cut into stages whose volumes and requirements add up, and every original relation is '
       'implied by finish-start edges of stages (checked on the graph and, after scheduling it, on real times by the definition of SS/FF/FFS with lag as work done). '
       'Shapes include a hub with many start-start ties (ten and more stages).',
'C16': 'Works related to a deleted one and left without relations are expected at the start or the finish. Model-based: a plain multigraph is edited alongside; after each edit nodes, attributes, all edges with lags/types, start and finish are compared.',
'C17': 'Every view (data frame, dates, merged stages, dictionary, execution time, order of rows) recomputed from the list of works.',
'C18': 'Reference longest path over the contracted graph; the order returned is checked to be a linear extension containing heads only, with priorities respected.',
'C19': 'Reference choice: enumerates contractors and team sizes by the documented rule (earliest finish, then fewest workers / LFT scores / share of the span) and compares.',
'C20': 'Own Dijkstra on the land graph; replay of all deliveries in time order over stocks, vehicles and roads of the description; a work starts only when its materials lie on the platform.',
'C21': 'Replay of all uses and changes of every zone: statuses required hold for the whole work, two statuses never overlap, each change takes the time of the table, final statuses reached.',
'C22': 'The table is drawn together with the project it describes; the project read is compared item by item; history cases recompute the connections from the '
       'definition (counts of start/finish patterns over sites) and check types, lags and loop removal.',
'C23': 'Validity predicate + bounds asked for + equality of two runs with one seed (also in another process) + difference of global random state.',
'C24': 'Plain ints/floats/lists/heaps as models; sequences of operations are replayed on both; documented exceptions must match.',
'C25': 'Costs, peaks, sums and time recomputed from the plain description by brute force at each instant.',
'C26': 'The team sizes of the search are tried one by one through the public scheduler; if any keeps the deadline the result must. With slack the smallest teams must be '
       'used and the deadline kept while works are made independent. Genetic: when a chromosome of the first population keeps the deadline, the result does.',
'C27': 'Differential: the pipeline against the same steps called by hand (correction of contradicting priorities, restructuring, scheduling, uniting of stages), incl. local optimizers given the order of the graph chosen.',
'C28': 'The order after swapping is a linear extension, equal outside of the area; the recalculated schedule satisfies C01-C05 and is the same when the same object is used twice.',
'C29': 'Each part of the cycle is called alone and as a cycle: chromosomes are judged by the predicate of C10, the time of the best chromosome is recomputed by '
       'a toolbox of the harness, the schedule by the oracles of C01-C07 and C21; a project of the same size scheduled before must not matter.',
'C30': 'The graph is described before and after; what was added is told apart by ids, everything else must be equal. Requirements expected come from the estimator given. '
       'Frequencies of sub-works are tested with fixed bounds of five standard deviations and the same draws must come in a process with another hash seed.',
'C31': 'The auction is replayed by a reference loop with the same agents built again: winner, start, staff and schedule of every block must agree; the united schedule is judged by '
       'C01-C05 on the whole work graph. torch/ray/sklearn are replaced by stand-ins at import (vf/stub.py), the networks by recorded answers, so the logic around the '
       'networks is executed. Metrics of graphs are recomputed by brute force.',
'C32': 'Figures are read back: bars (row, dates, name, legend), hover texts, labels of days and works, intervals, boxes, lines. Each is compared as a multiset with what is '
       'computed from the works of the schedule or the edges of the graph alone. Rendering to pixels is outside.',
'C33': 'Differential: fitness from a pool of 1-3 forked processes against the default backend on the same chromosomes (first populations of both, mutated ones), reversed and repeated, after '
       'a change of settings and of the project. Populations are judged by the chromosome model of C10, results by C01-C05; the same seed with another number of processes must give the same.',
}
