SCHED = ['sampo/scheduler/generic.py', 'sampo/scheduler/base.py', 'sampo/scheduler/lft/base.py',
         'sampo/scheduler/topological/base.py', 'sampo/scheduler/heft/base.py', 'sampo/scheduler/genetic/base.py',
         'sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/genetic/converter.py']
TL = ['sampo/scheduler/timeline/just_in_time_timeline.py', 'sampo/scheduler/timeline/momentum_timeline.py']
DOMAIN = ('Assumes graphs in the form the schedulers take directly (FS, FFS and inseparable edges, lag >= 0, contracted '
          'chains acyclic, priorities not decreasing along dependencies); up to about 18 works when generated, about 30 '
          'from the synthetic generator.')

prop('C01', 'No work starts before its predecessors have finished and every lag has passed',
     'In every schedule produced by any scheduler, for every finish-start, finish-finish-start or inseparable dependency '
     'the successor starts no earlier than the predecessor\'s finish plus the lag of the dependency. No work starts before '
     'the project start time that was asked for, and all works lie between the start and the finish service works.',
     ['inputs', 'configurations'],
     'All acyclic work graphs with lags and inseparable chains, all contractor sets, specifications and start times, '
     'all schedulers (HEFT, HEFT-between, topological, LFT, randomized ones, genetic with both generation schemes).',
     'The tests check precedence on a few fixed and synthetic graphs, nearly always without lags, and never on chains '
     'whose links have predecessors of their own; the property quantifies over every graph and scheduler.',
     SCHED + TL + ['sampo/schemas/graph.py'],
     [('earliest start from the parents', 'sampo/schemas/graph.py:GraphNode.min_start_time'),
      ('slot search', 'sampo/scheduler/timeline/*:find_min_start_time_with_additional'),
      ('head-node condensation of chains', 'sampo/scheduler/utils/__init__.py:get_head_nodes_with_connections_mappings'),
      ('placement of chains', 'sampo/scheduler/timeline/*:_schedule_with_inseparables')],
     'Explores thousands of random projects per run through the public scheduler API. ' + DOMAIN,
     ['Scheduler.schedule()'])

prop('C02', 'No contractor\'s workers are ever used beyond the staff it has',
     'At every instant of every produced schedule, the workers of one kind taken from one contractor by all the works '
     'running at that instant do not exceed what the contractor employs, a chain of inseparable works keeping its team from '
     'its first start to its last finish. The same holds for several projects placed one after the other on one timeline.',
     ['inputs', 'configurations', 'histories'],
     'All work graphs, contractors with any staff, specifications, start times and schedulers; sequences of projects on a '
     'shared timeline.',
     'The tests run the validator on a handful of graphs with generous staff; contention, exhaustion, chains and reuse of '
     'a timeline are hardly reached.',
     SCHED + TL + ['sampo/scheduler/utils/multi_contractor.py', 'sampo/utilities/validation.py'],
     [('slots of a kind ordered by the time they become free', 'sampo/scheduler/timeline/just_in_time_timeline.py'),
      ('sorted list of events with the staff available after each', 'sampo/scheduler/timeline/momentum_timeline.py'),
      ('upper bound by staff when choosing a team', 'sampo/scheduler/utils/multi_contractor.py')],
     'Independent sweep over the finished schedule. ' + DOMAIN, ['Schedule.works'])

prop('C03', 'Every work is scheduled exactly once, by one contractor, with a legal team',
     'Every work of the project, and its start and finish, occurs exactly once in every produced schedule, at a finite time '
     'and with a finish not before its start. Its whole team belongs to one existing contractor, consists of exactly the '
     'kinds the work requires, and each kind is present in a number between the required minimum and maximum and not above '
     'the staff of that contractor.',
     ['inputs', 'configurations'],
     'All work graphs and contractor sets, contractors having different kinds of workers in different orders, all '
     'schedulers.',
     'Tests use contractors that all employ all the kinds with the same staff, so index mix-ups between contractors and '
     'kinds cannot show.',
     SCHED + TL + ['sampo/scheduler/utils/multi_contractor.py', 'sampo/scheduler/resource/average_req.py',
                   'sampo/scheduler/resource/coordinate_descent.py', 'sampo/scheduler/resource/full_scan.py'],
     [('borders of a team', 'sampo/scheduler/utils/multi_contractor.py:get_worker_borders'),
      ('resource optimizers', 'sampo/scheduler/resource/'),
      ('chromosome repair and decoding', 'sampo/scheduler/genetic/')],
     'Independent structural oracle over the schedule. ' + DOMAIN, ['Schedule.works', 'ScheduledWork.workers'])

prop('C04', 'A schedule obeys the specification given for single works',
     'A work restricted to a set of contractors is done by one of them, a kind whose number is fixed by the specification is '
     'present in exactly that number, and a work or inseparable chain with an assigned time lasts exactly that time. A work '
     'declared independent never runs in parallel with another work that uses its kinds of workers of the same contractor.',
     ['inputs', 'configurations'],
     'All satisfiable specifications (complete or partial teams, contractors, times, independence) on all work graphs and '
     'all schedulers.',
     'Only one or two tests give any specification, on one graph, and look at one field.',
     ['sampo/schemas/schedule_spec.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/lft/base.py',
      'sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/genetic/converter.py'] + TL,
     [('contractor filter and fixed team', 'sampo/scheduler/generic.py:get_default_res_opt_function'),
      ('limits of the genetic search', 'sampo/scheduler/genetic/utils.py:prepare_optimized_data_structures'),
      ('assigned time', 'sampo/scheduler/timeline/*:schedule')],
     'Independent oracle reading the specification. ' + DOMAIN, ['Scheduler.schedule(spec=...)'])

prop('C05', 'Inseparable works stay together: same team, in order, without idle gaps',
     'All works of an inseparable chain are done in order by one contractor with the same team. In a chain whose later links '
     'have no predecessors of their own there is no idle time between the links. In any chain the team is given to no other '
     'work from the first start to the last finish.',
     ['inputs', 'configurations'],
     'All graphs with inseparable chains of any length whose links may have outside predecessors, all schedulers and '
     'specifications given to the head of a chain.',
     'The tests\' chains come from splitting one work and never have outside predecessors, lags or competing users.',
     SCHED + TL + ['sampo/schemas/graph.py', 'sampo/scheduler/utils/__init__.py'],
     [('chain of a node', 'sampo/schemas/graph.py:GraphNode.get_inseparable_chain_with_self'),
      ('placement of chains', 'sampo/scheduler/timeline/*:schedule')],
     'Independent oracle over the finished schedule. ' + DOMAIN, ['Schedule.works'])

prop('C06', 'Feasible projects are scheduled, infeasible ones are refused, nothing else',
     'If every work (or the head of its inseparable chain) has at least one allowed contractor that employs the required '
     'minimum, or the fixed team, of each kind, every scheduler returns a schedule with all the works. If some work has no '
     'such contractor, every scheduler raises NoSufficientContractorError and returns no schedule.',
     ['inputs', 'configurations'],
     'All projects, contractor sets and specifications on both sides of the border of feasibility, all schedulers.',
     'Tests tolerate the exception but never check when it must and must not be raised.',
     ['sampo/scheduler/utils/multi_contractor.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/lft/base.py',
      'sampo/scheduler/genetic/base.py', 'sampo/schemas/exceptions.py'],
     [('contractor search', 'sampo/scheduler/utils/multi_contractor.py:run_contractor_search'),
      ('contractor search of LFT', 'sampo/scheduler/lft/base.py')],
     'The feasibility predicate is computed from the plain description; half of the cases are feasible projects brought to the '
     'edge by one change. ' + DOMAIN, ['Scheduler.schedule()'])

prop('C07', 'A later project start shifts the whole schedule and changes nothing else',
     'Scheduling the same project with the same scheduler and seed from start time t instead of 0 gives the same contractors '
     'and teams, with every start and finish later by exactly t.',
     ['inputs', 'configurations'],
     'All projects and specifications without materials and zones, all schedulers, any t > 0.',
     'The tests hardly pass a start time, and never compare with the unshifted schedule.',
     SCHED + TL, [('assigned parent time', 'sampo/scheduler/generic.py:build_scheduler'),
                  ('assigned parent time in timelines', 'sampo/scheduler/timeline/base.py')],
     'Metamorphic relation, exact comparison. ' + DOMAIN, ['Scheduler.schedule(start_time=...)'])

prop('C08', 'Scheduled durations are what the time estimator gives for the chosen team',
     'In every schedule the duration of a work is its volume of the slowest requirement divided by its final team\'s '
     'productivity (number of workers times the productivity set for the kind and the contractor times the communication '
     'coefficient), rounded up, or the time assigned by the specification. The default estimator gives exactly that value, '
     'infinite when the team is below a required minimum, zero when nothing is required; a sampled productivity gives a '
     'time between those of the ends of its interval.',
     ['inputs', 'configurations'],
     'All works, teams, productivity tables and contractors; all schedulers using a customised estimator. With the parallel '
     'generation scheme the duration of an inseparable chain is taken as a whole.',
     'Tests check a few hand-computed numbers for one team with the default productivity.',
     ['sampo/schemas/time_estimator.py', 'sampo/scheduler/utils/time_computaion.py', 'sampo/scheduler/generic.py',
      'sampo/scheduler/genetic/schedule_builder.py'] + TL,
     [('estimate', 'sampo/schemas/time_estimator.py:DefaultWorkEstimator.estimate_time'),
      ('time of chains', 'sampo/scheduler/utils/time_computaion.py')],
     'Reference formula in exact rational arithmetic. ' + DOMAIN, ['Schedule.works', 'DefaultWorkEstimator.estimate_time'])

prop('C09', 'Scheduling leaves its inputs unchanged and is reproducible',
     'A scheduler changes neither the work graph, nor the contractors and their workers, nor the specification it is given. '
     'Scheduling the same input again, also after other projects were scheduled with the same or another scheduler, with or '
     'without a specification, gives exactly the same schedule (randomised schedulers: with the same seed).',
     ['inputs', 'histories', 'configurations'],
     'All pairs of projects, all schedulers, histories of scheduling calls in one process.',
     'Each test schedules once and looks at the result; shared default arguments and mutated inputs stay unseen.',
     SCHED + ['sampo/schemas/schedule_spec.py', 'sampo/schemas/resources.py'],
     [('copies of workers', 'sampo/schemas/resources.py:Worker.copy'), ('seeded random source', 'sampo/scheduler/genetic/base.py')],
     'Snapshots of public fields before and after; exact comparison of repeated schedules. ' + DOMAIN,
     ['Scheduler.schedule()'])

GENETIC = ['sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/schedule_builder.py',
           'sampo/scheduler/genetic/converter.py', 'sampo/scheduler/genetic/utils.py', 'sampo/scheduler/genetic/base.py']

prop('C10', 'Genetic search stays among valid chromosomes and returns the best one it met',
     'Every chromosome of the first population and every one made by crossover or mutation orders each work exactly once after '
     'its predecessors and after the works of earlier priority groups, gives it an existing contractor its specification allows, and has teams inside the required limits and '
     'the contractor\'s staff limits, which stay within the staff; operators and decoding never change their input, and the '
     'validity test refuses a broken chromosome. Crossover and mutation of the order leave no priority group out: each group of '
     'independent works gets reordered. The schedule returned has an objective no evaluated '
     'chromosome improved on (for several objectives: none is dominated by an evaluated one).',
     ['inputs', 'histories', 'configurations'],
     'All projects and specifications, all sequences of operators, all objectives, both generation schemes.',
     'Tests apply each operator once to one graph with equal contractors and no specification, and look at the order only.',
     GENETIC, [('operators', 'sampo/scheduler/genetic/operators.py'), ('search', 'sampo/scheduler/genetic/schedule_builder.py'),
               ('validity', 'sampo/scheduler/genetic/operators.py:is_chromosome_correct')],
     'Operators are driven through the toolbox the search itself uses; objectives are recomputed from the schedules. ' + DOMAIN,
     ['create_toolbox()', 'GeneticScheduler.schedule()'])

prop('C11', 'Schedules and chromosomes convert into each other without loss',
     'Encoding a schedule gives exactly its order, contractors and team sizes; decoding gives every work exactly the contractor '
     'and the team its genes say, and encoding again gives the same genes. With the serial scheme, a schedule of LFT or '
     'HEFT-between decodes to exactly the same start and finish times.',
     ['inputs', 'configurations'],
     'All schedules of all heuristics over all projects and specifications, all mutated chromosomes, both generation schemes.',
     'Tests convert a few schedules of equal contractors and check only that the result is valid.',
     GENETIC, [('encoding', 'sampo/scheduler/genetic/converter.py:convert_schedule_to_chromosome'),
               ('decoding', 'sampo/scheduler/genetic/converter.py:convert_chromosome_to_schedule')],
     'Round trip and exact comparison. ' + DOMAIN, ['toolbox.schedule_to_chromosome', 'toolbox.chromosome_to_schedule'])

prop('C12', 'No work is delayed without a reason: schedulers use the earliest possible slot',
     'In the order and with the teams a scheduler chose, HEFT-between, LFT and topological schedulers start each work at the '
     'earliest time at which its predecessors are done and the chosen contractor\'s workers are free for its whole duration; '
     'HEFT starts it as soon as its predecessors are done and the workers are released for good by works placed earlier. A '
     'scheduler with fixed teams picks a contractor that gives the earliest finish, the finish service work ends with the '
     'last work, and asking a timeline for an earliest start or whether a work fits answers like brute force and changes nothing.',
     ['inputs', 'histories', 'configurations'],
     'All projects, specifications and start times; exact equality for works outside chains and chains without predecessors '
     'of inner links, a bound otherwise.',
     'The tests never compare a start time with the earliest feasible one; a schedule with needless gaps passes all of them.',
     SCHED + TL + ['sampo/scheduler/utils/multi_contractor.py'],
     [('slot search', 'sampo/scheduler/timeline/*:find_min_start_time_with_additional'),
      ('fit test', 'sampo/scheduler/timeline/*:can_schedule_at_the_moment'),
      ('choice of the contractor', 'sampo/scheduler/utils/multi_contractor.py:get_best_contractor_and_worker_borders')],
     'Brute-force staff profile replayed over the finished schedule. ' + DOMAIN,
     ['schedule_with_cache', 'Timeline.find_min_start_time', 'Timeline.can_schedule_at_the_moment'])

prop('C13', 'Schedule validation accepts every valid schedule and refuses every broken one',
     'validate_schedule raises nothing for a schedule in which every work is present, dependencies and their lags are kept, '
     'teams are legal and staff suffices, even exactly. It refuses a schedule with a missing work, a start before a '
     'predecessor\'s finish plus lag, a finish before the start, a team too small, too large, lacking a required kind or '
     'having a kind not required, a contractor its specification forbids, overdrawn staff, or a lasting service work.',
     ['inputs', 'faults'],
     'Valid schedules made without the library and by every scheduler; every single defect of the listed kinds injected '
     'at a random work, by the smallest amount.',
     'The tests inject a few gross violations into one schedule of one graph, and never look at lags or exact staff.',
     ['sampo/utilities/validation.py'],
     [('checks', 'sampo/utilities/validation.py:validate_schedule')],
     'Constructed valid schedules and single-fault mutations, decided by an independent oracle.',
     ['validate_schedule'])

prop('C14', 'Serialized objects come back equal by every route, and loading changes nothing',
     'Works, work graphs, contractors, schedules, scheduled projects and classes with automatic serialization sent through a '
     'dictionary, JSON text, a file, pickle, dill or a deep copy come back with the same public fields: requirements, '
     'dependencies with types and lags, workers, costs, times, zones. Neither saving nor loading changes the object or the '
     'representation, a second trip gives the same again, and a loaded project can be scheduled.',
     ['inputs'],
     'All works with any requirements and text, all graphs with all edge types, all contractors and schedules, all six '
     'routes. Fields documented as ignored by serialization are not compared.',
     'The tests compare a few simple objects through one route, with equality by id only.',
     ['sampo/schemas/serializable.py', 'sampo/schemas/works.py', 'sampo/schemas/graph.py', 'sampo/schemas/schedule.py',
      'sampo/schemas/scheduled_work.py', 'sampo/schemas/contractor.py', 'sampo/schemas/project.py',
      'sampo/schemas/resources.py', 'sampo/schemas/requirements.py', 'sampo/utilities/serializers.py'],
     [('automatic serialization', 'sampo/schemas/serializable.py:AutoJSONSerializable'),
      ('graphs', 'sampo/schemas/graph.py:WorkGraph._deserialize'),
      ('converters', 'sampo/utilities/serializers.py')],
     'Round trips compared field by field.', ['dumps/loads', 'dump/loadf', 'pickle', 'dill', 'copy.deepcopy'])

prop('C15', 'Restructured graphs keep the works and all relations, as finish-start ones',
     'graph_restructuring leaves the given graph unchanged and gives one with only finish-start and inseparable dependencies, '
     'where a work with start-start, finish-finish or finish-finish-start relations is a chain of stages whose volume, materials, '
     'zones and workers\' hours add up to those of the work. In every schedule of the result each relation of the given graph '
     '(starts, finishes and lags; a finish service work after everything) is kept by the works put together from their stages, and restructuring '
     'the result again changes nothing. Correcting priorities gives each work the lowest priority among itself and the works that wait for it, counting inseparable works as one.',
     ['inputs', 'configurations'],
     'All acyclic graphs with dependencies of all five types and lags, with and without lag optimization, all schedulers.',
     'The tests count nodes of a few graphs; they never schedule a restructured graph and look whether the relations hold.',
     ['sampo/structurator/graph_insertion.py', 'sampo/structurator/prepare_wg_copy.py', 'sampo/utilities/priority.py',
      'sampo/pipeline/lag_optimization.py', 'sampo/structurator/base.py', 'sampo/structurator/light_modifications.py'],
     [('restructuring', 'sampo/structurator/base.py:graph_restructuring'), ('priorities', 'sampo/utilities/priority.py')],
     'Sums in exact arithmetic; relations decided on finished schedules of stages.', ['graph_restructuring()', 'check_and_correct_priorities()'])

prop('C16', 'Building and editing a work graph changes exactly what was asked for',
     'A graph made from nodes has all of them and their dependencies, both ends attached to works without predecessors or '
     'successors, in topological order, with the same view from both sides. Deleting a work (with its chain) keeps every other '
     'work and dependency and still orders its predecessors before its successors; inserting a work or a graph adds exactly its '
     'works and the dependencies asked for, and simplifying ids changes nothing but ids. None of the edits changes the graphs given, '
     'and any sequence of edits gives a graph that is again consistent.',
     ['inputs', 'histories'],
     'All graphs with all five types of dependencies and lags, all sequences of edits.',
     'The tests apply one edit to one graph and look at the number of works or at the neighbours of one node.',
     ['sampo/schemas/graph.py', 'sampo/structurator/delete_wu.py', 'sampo/structurator/insert_wu.py',
      'sampo/structurator/graph_insertion.py', 'sampo/structurator/prepare_wg_copy.py', 'sampo/structurator/light_modifications.py'],
     [('graph', 'sampo/schemas/graph.py:WorkGraph'), ('deleting', 'sampo/structurator/delete_wu.py'),
      ('inserting', 'sampo/structurator/insert_wu.py'), ('joining', 'sampo/structurator/graph_insertion.py')],
     'Model-based: every edit is compared with a plain model of works and dependencies.',
     ['delete_work_unit', 'insert_work_unit', 'graph_in_graph_insertion', 'new_start_finish', 'WorkGraph'])

prop('C17', 'The views of a schedule agree with its works',
     'A schedule made from works holds exactly these works, ordered by start with predecessors before successors, in its list, '
     'dictionary and table (times, duration, cost, volume, contractor, teams, dependencies); its execution time is the latest finish, '
     'service works are left out of the pure table, and dated tables shift everything by the given date. Uniting the stages of '
     'restructured works gives each work from its first start to its last finish with the summed cost and volume, and '
     'leaves the raw schedule unchanged.',
     ['inputs'],
     'All sets of scheduled works of any order, including equal starts and works of zero length; all schedules of restructured graphs.',
     'The tests print a table or compare its length.',
     ['sampo/schemas/schedule.py', 'sampo/schemas/scheduled_work.py', 'sampo/schemas/project.py', 'sampo/utilities/schedule.py'],
     [('table', 'sampo/schemas/schedule.py:Schedule.from_scheduled_works'), ('dates', 'sampo/utilities/schedule.py:offset_schedule'),
      ('stages', 'sampo/schemas/schedule.py:Schedule.unite_stages')],
     'Every column is compared with the work it comes from.', ['Schedule', 'ScheduledProject'])

prop('C18', 'Chains count as one work in the order of scheduling and in critical paths',
     'The condensed view of a graph has one node per inseparable chain, named by its head, and links two of them exactly if a work '
     'of one depends on a work of the other. Schedulers place works in an order that keeps dependencies and never puts a '
     'lower priority group after a higher one; within one priority HEFT goes by the longest remaining path. The critical path is a '
     'path from the start of the project whose works take the longest time by the estimator, or in the schedule.',
     ['inputs'],
     'All graphs with chains and parallel dependencies, all durations of works, all schedulers.',
     'The tests check the length of one critical path, and the order only through the schedule of fixed graphs.',
     ['sampo/scheduler/utils/__init__.py', 'sampo/scheduler/utils/critical_path.py', 'sampo/scheduler/heft/prioritization.py',
      'sampo/scheduler/topological/base.py', 'sampo/scheduler/lft/prioritization.py', 'sampo/schemas/project.py'],
     [('condensation', 'sampo/scheduler/utils/__init__.py:get_head_nodes_with_connections_mappings'),
      ('critical path', 'sampo/scheduler/utils/critical_path.py'), ('rank', 'sampo/scheduler/heft/prioritization.py')],
     'Reference condensation and longest path over the description.',
     ['get_head_nodes_with_connections_mappings', 'critical_path_graph', 'critical_path_schedule', 'ScheduledProject.critical_path'])

prop('C19', 'Contractors and team sizes are chosen by the documented rules',
     'Among the contractors able and allowed to do a work the search takes the one with the earliest finish, of these one with '
     'the smallest staff. Average-requirement schedulers take the rounded mean of the minimum and maximum, inside the bounds of the '
     'contractor\'s staff; LFT gives the largest possible team of a contractor with the best score of waiting and work done, '
     'and orders works by priority and latest finish. Resource optimizers stay inside the bounds and keep fixed numbers.',
     ['inputs', 'configurations'],
     'All offers of contractors, all bounds of teams, all projects and specifications with and without fixed teams.',
     'The tests use contractors with equal staff, for which every choice gives the same schedule.',
     ['sampo/scheduler/utils/multi_contractor.py', 'sampo/scheduler/resource/average_req.py', 'sampo/scheduler/resource/full_scan.py',
      'sampo/scheduler/resource/coordinate_descent.py', 'sampo/scheduler/lft/base.py', 'sampo/scheduler/lft/prioritization.py',
      'sampo/scheduler/resource/identity.py', 'sampo/scheduler/resource/binary_search.py'],
     [('search', 'sampo/scheduler/utils/multi_contractor.py:run_contractor_search'),
      ('LFT', 'sampo/scheduler/lft/base.py:LFTScheduler')],
     'Reference formulas over the plain description. ' + DOMAIN, ['run_contractor_search', 'ResourceOptimizer.optimize_resources', 'Scheduler.schedule()'])

prop('C20', 'Materials reach the platforms in time, by shortest ways, from real stocks',
     'Routes of a land graph join their ends by existing (allowed) roads and are as short as possible, and depots are sorted by distance. '
     'In every schedule with materials each platform has the materials of a work when it starts and never holds more than its capacity '
     '(it is full at first, works use up, deliveries fill up); deliveries arrive no later than the work starts after at least the travel time, '
     'come from depots that have the stock, and at no time use more vehicles than the depot has.',
     ['inputs', 'configurations'],
     'All connected land graphs; all projects whose works outside inseparable chains need materials; all schedulers.',
     'The tests check that a schedule with materials can be made, and routes on one small map.',
     ['sampo/schemas/landscape.py', 'sampo/schemas/landscape_graph.py', 'sampo/scheduler/timeline/hybrid_supply_timeline.py',
      'sampo/scheduler/timeline/platform_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
      'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/schemas/works.py'],
     [('routes', 'sampo/schemas/landscape.py:LandscapeConfiguration.construct_route'),
      ('stock of platforms', 'sampo/scheduler/timeline/platform_timeline.py'),
      ('deliveries', 'sampo/scheduler/timeline/hybrid_supply_timeline.py:_supply_resources')],
     'Replay of all deliveries and uses against stocks, distances and vehicles. ' + DOMAIN,
     ['LandscapeConfiguration.get_route', 'Schedule.works', 'ScheduledWork.materials'])

prop('C21', 'Zones are in the required status, and every change of status takes its time',
     'In every schedule two works that need different non-zero statuses of a zone do not overlap, and the later one starts no earlier than '
     'the end of the former uses plus the configured time of the change (from the initial status for the first one). Each change is '
     'recorded once at the work it is made for, with its statuses and within the time between; status 0 asks for nothing. '
     'Zones with a configured final status are brought into it after their last use and before the project ends.',
     ['inputs', 'configurations'],
     'All projects whose works require zones (of a chain: its first work), all tables of change times, initial and final statuses, all '
     'schedulers and specifications.',
     'The one test of zones checks that a schedule can be made.',
     ['sampo/scheduler/timeline/zone_timeline.py', 'sampo/schemas/zones.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
      'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/genetic/converter.py'],
     [('statuses', 'sampo/scheduler/timeline/zone_timeline.py:ZoneTimeline'), ('final statuses', 'sampo/scheduler/generic.py')],
     'Replay of the uses of each zone in order of time over the plain description. ' + DOMAIN,
     ['ScheduledWork.zones_pre', 'Scheduler.schedule(landscape=...)'])

prop('C22', 'The project read from tables is the one the tables describe',
     'Each row of a works table becomes one work with its id, shown name, model name, volume, priority, group, description, zones and '
     'requirements (without requirement columns: those the estimator gives), and each listed predecessor present in the table one dependency '
     'of its type and lag; the inputs stay unchanged, loops are broken by dropping only dependencies that lie in loops. From history, tasks '
     'that always came one after the other get a finish-start dependency, constantly overlapping ones FFS or SS with the smallest share of '
     'the first as lag, and tasks that never met get none; given dependencies stay, keep their data, and are repaired only '
     'when this is asked for. A graph written as a table reads back the same, and contractors tables give each contractor its id, '
     'name and staff.',
     ['inputs'],
     'All tables as data frames or files with documented columns present or absent, any separators, order of rows, kinds of ids '
     'and name mappers; all histories; all tables of contractors.',
     'The only test reads one file and looks at nothing but the absence of exceptions.',
     ['sampo/userinput/parser/csv_parser.py', 'sampo/userinput/parser/general_build.py', 'sampo/userinput/parser/history.py',
      'sampo/schemas/graph.py', 'sampo/utilities/name_mapper.py'],
     [('tables of works', 'sampo/userinput/parser/general_build.py:preprocess_graph_df'),
      ('loops', 'sampo/userinput/parser/general_build.py:break_loops_in_input_graph'),
      ('history', 'sampo/userinput/parser/history.py:set_connections_info'),
      ('graph as a table', 'sampo/schemas/graph.py:WorkGraph.to_frame')],
     'Ids and columns as documented; loops between finishes and starts of whatever types count as loops of dependencies.',
     ['CSVParser.read_graph_info', 'CSVParser.work_graph', 'CSVParser.work_graph_and_contractors', 'WorkGraph.to_frame'])

prop('C23', 'Synthetic projects are valid, of the size asked for, and repeat with the seed',
     'Every generated graph is acyclic, with unique ids and every work between its start and its finish, sound requirements, 30-50 '
     'vertices for a small one, not fewer works than the bottom border and not more than the top border (or a small graph); advanced '
     'ones only add names of works and kinds of workers, up to the numbers asked for; works get between the asked numbers of distinct materials. '
     'The contractor made for a graph has exactly its required kinds, at the chosen value of the requirements times the scale, so it can '
     'perform every work; a made landscape gives each work one platform large enough, reachable from holders that stock enough. '
     'Equal seeds and calls give equal data in any process.',
     ['inputs', 'configurations'],
     'All seeds, modes, borders and sequences of calls of the generators; all work graphs for the contractor.',
     'Tests use one seed and check no size but one; the string hashing of one process hides dependence on the order of sets.',
     ['sampo/generator/base.py', 'sampo/generator/pipeline/project.py', 'sampo/generator/pipeline/cluster.py',
      'sampo/generator/pipeline/extension.py', 'sampo/generator/environment/contractor_by_wg.py',
      'sampo/generator/environment/contractor.py', 'sampo/generator/environment/landscape.py'],
     [('sizes', 'sampo/generator/pipeline/project.py:get_graph'), ('names and kinds', 'sampo/generator/pipeline/extension.py'),
      ('contractors', 'sampo/generator/environment/contractor_by_wg.py'), ('landscapes', 'sampo/generator/environment/landscape.py')],
     'Ids of start, finish and landscape objects are drawn anew and not compared; where both borders are given the bottom one counts.',
     ['SimpleSynthetic', 'get_contractor_by_wg'])

prop('C24', 'Times, intervals and containers compute as their plain models do',
     'Arithmetic and comparison of Time agree with whole numbers clamped to plus-minus infinity (2e9), with equal hashes for equal values and without '
     'changing operands; dates shift by exact calendar arithmetic. Random intervals stay within their borders, use the '
     'generator given and repeat with its seed, Gaussian ones clip their normal numbers at the borders. The linked list, the extended sorted list, the priority queue and the apply queue '
     'hold what a plain list would after any operations, in the order promised.',
     ['inputs', 'histories'],
     'All values and operators; all intervals and seeds; all sequences of operations on the containers.',
     'Only a few values of time are tested, and no container.',
     ['sampo/schemas/time.py', 'sampo/schemas/interval.py', 'sampo/utilities/datetime_util.py', 'sampo/utilities/linked_list.py',
      'sampo/schemas/sorted_list.py', 'sampo/utilities/priority_queue.py', 'sampo/schemas/apply_queue.py', 'sampo/utilities/collections_util.py'],
     [('time', 'sampo/schemas/time.py:Time'), ('intervals', 'sampo/schemas/interval.py'), ('linked list', 'sampo/utilities/linked_list.py:LinkedList'),
      ('sorted list', 'sampo/schemas/sorted_list.py:ExtendedSortedList'), ('priority queue', 'sampo/utilities/priority_queue.py:PriorityQueue')],
     'Python numbers, lists, heaps and calendar dates as models.', ['Time', 'IntervalGaussian', 'IntervalUniform', 'LinkedList', 'PriorityQueue'])

prop('C25', 'Costs, use of resources and objectives are those of the schedule',
     'A scheduled work costs the sum over its workers of count times price of one unit times its duration, with the prices its contractor asks. '
     'Use of resources over time, peaks, their sums and costs, over all kinds or the chosen ones, equal those counted '
     'from the starts, finishes and teams, each kind apart. Every fitness objective is its documented function of them and of the finish, evaluated on the schedule of the '
     'chromosome given and infinite when there is none.',
     ['inputs', 'configurations'],
     'All schedules (by any scheduler or built by hand), prices, sets of kinds, deadlines and objectives.',
     'Tests never compare a cost or a peak with a number.',
     ['sampo/schemas/scheduled_work.py', 'sampo/schemas/resources.py', 'sampo/utilities/resource_usage.py', 'sampo/scheduler/genetic/operators.py'],
     [('cost', 'sampo/schemas/scheduled_work.py:ScheduledWork'), ('use', 'sampo/utilities/resource_usage.py'),
      ('objectives', 'sampo/scheduler/genetic/operators.py:FitnessFunction')],
     'Recomputed from the plain description; sums of money with a relative error of 1e-9.',
     ['ScheduledWork.cost', 'resources_peaks_sum()', 'FitnessFunction.evaluate()'])

prop('C26', 'Scheduling to a deadline keeps it whenever it can be kept',
     'The search of average resources uses the smallest allowed teams when these finish before the deadline, and returns a late schedule '
     'only if none of the team sizes it searches (halving the share between largest and smallest) meets it. The schedule is '
     'valid, follows the specification given and returns it, leaves the inputs unchanged; NoSufficientContractorError '
     'comes exactly when nobody can do some work. The genetic scheduler with a deadline returns schedules that '
     'meet it when a chromosome of its first population does.',
     ['inputs', 'configurations'],
     'All projects, specifications, base schedulers, objectives and deadlines, from impossible to slack.',
     'The tests take one deadline that is easily met.',
     ['sampo/scheduler/resources_in_time/average_binary_search.py', 'sampo/scheduler/resource/average_req.py', 'sampo/scheduler/genetic/base.py',
      'sampo/scheduler/genetic/schedule_builder.py'],
     [('search', 'sampo/scheduler/resources_in_time/average_binary_search.py'), ('genetic', 'sampo/scheduler/genetic/schedule_builder.py:build_schedules')],
     'Finishes of the base scheduler with every team size of the ladder. ' + DOMAIN,
     ['AverageBinarySearchResourceOptimizingScheduler.schedule_with_cache()', 'GeneticScheduler.set_deadline()'])

prop('C27', 'The pipeline gives what its stages give when run by hand',
     'Scheduling through the pipeline equals correcting the priorities, restructuring the graph with the lag optimization asked for (automatic: the shorter schedule of both) and '
     'scheduling it with the same specification, landscape, time shift and optimizers, called in the order added with the result of the former. '
     'The project returned holds the graph given, the restructured one, and '
     'a schedule that unites the stages of each work: start of the first, finish of the last, sums of volume and cost. Graphs given as tables are read as by the parser, '
     'contractors are generated as asked, and NoSufficientContractorError comes exactly when nobody can do some work.',
     ['inputs', 'configurations'],
     'All graphs with dependencies of all types, tables, histories, settings of the pipeline, schedulers and optimizers.',
     'The tests check that a pipeline ends without exception.',
     ['sampo/pipeline/default.py', 'sampo/pipeline/lag_optimization.py', 'sampo/pipeline/preparation.py', 'sampo/pipeline/base.py',
      'sampo/schemas/schedule.py', 'sampo/structurator/base.py'],
     [('lags', 'sampo/pipeline/default.py:DefaultInputPipeline.schedule'), ('optimizers', 'sampo/pipeline/default.py:DefaultSchedulePipeline'),
      ('united stages', 'sampo/schemas/schedule.py:Schedule.unite_stages'), ('preparation', 'sampo/pipeline/preparation.py')],
     'The same stages run by hand with equal seeds. ' + DOMAIN, ['SchedulingPipeline.finish()', 'PreparationPipeline.build_wg()'])

prop('C28', 'Local optimizations keep an order an order and a schedule a schedule',
     'Swapping works of an order returns a permutation of it that changes nothing outside of the area asked for, keeps every work after '
     'the works it depends on and priorities in their order. Parallelizing a schedule within an area returns a schedule of the project that still keeps all its constraints, '
     'with the same contractor for each work; with an empty area and the timeline of the scheduler itself '
     'all times stay the same.',
     ['inputs', 'configurations', 'histories'],
     'All projects, orders, areas, timelines, specifications, zones and repeated optimizations, direct or through the pipeline.',
     'The tests check that optimization ends without exception.',
     ['sampo/scheduler/utils/local_optimization.py', 'sampo/pipeline/default.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
      'sampo/scheduler/timeline/momentum_timeline.py'],
     [('orders', 'sampo/scheduler/utils/local_optimization.py:SwapOrderLocalOptimizer'),
      ('schedules', 'sampo/scheduler/utils/local_optimization.py:ParallelizeScheduleLocalOptimizer')],
     'The oracles of C01-C07 and C21 on the result. ' + DOMAIN, ['OrderLocalOptimizer.optimize()', 'ScheduleLocalOptimizer.optimize()'])

prop('C29', 'Hybrid search never loses what it has found and returns a valid schedule',
     'A population of heuristics holds the order, contractors and teams of each heuristic on the given project. Improving a population by a '
     'genetic scheduler returns chromosomes valid for the project, the best of them no worse than the best given. A cycle of populations returns '
     'a schedule that keeps all constraints and is no worse than the best of the starting population, whatever project was scheduled before.',
     ['inputs', 'configurations', 'histories'],
     'All projects, specifications, zones, lists of heuristics and genetic schedulers, seeds, lengths of plateau and projects scheduled before.',
     'No test runs the hybrid search.',
     ['sampo/hybrid/population.py', 'sampo/hybrid/cycle.py', 'sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/genetic/base.py'],
     [('populations', 'sampo/hybrid/population.py:PopulationScheduler'), ('cycle', 'sampo/hybrid/cycle.py:CycleHybridScheduler.schedule')],
     'Chromosomes are judged by the model of C10, schedules by the oracles of C01-C07 and C21. ' + DOMAIN, ['CycleHybridScheduler.schedule()'])

prop('C30', 'Unplanned works enter a project as asked and leave the rest as it was',
     'Sub-works drawn by probabilities come after the work named and before the finish, with its zones and the volume and requirements of '
     'their estimators; probability zero never and one always adds them. A graph inserted lies between a work and one that follows it, never inside of a chain of inseparable works, '
     'keeping its own works and relations; all other works, edges, lags and types stay, and the graphs given are not changed. '
     'Sampled works have the size and bounds asked for. With one seed all these are the same in each process, and the result can be scheduled.',
     ['inputs', 'configurations', 'histories'],
     'All graphs, probabilities, estimators, seeds, repeated insertions, priorities and sampler parameters.',
     'Few examples are tested, only by the number of nodes.',
     ['sampo/schemas/structure_estimator.py', 'sampo/scheduler/utils/obstruction.py', 'sampo/structurator/insert_wg.py', 'sampo/utilities/sampler/__init__.py',
      'sampo/pipeline/preparation.py', 'sampo/schemas/works.py'],
     [('sub-works', 'sampo/schemas/structure_estimator.py'), ('insertion', 'sampo/scheduler/utils/obstruction.py'), ('preparation', 'sampo/pipeline/preparation.py'), ('sampler', 'sampo/utilities/sampler')],
     'A plain copy of the graph before and after. ' + DOMAIN, ['WorkGraph.nodes', 'GraphNode.edges_to', 'WorkUnit'])

prop('C31', 'An auction of blocks gives every block to its best agent in a valid plan',
     'The manager offers each block once all blocks it depends on are planned, gives it to the agent that finishes it first, and starts it no sooner than they end '
     'and than the winner has staff; the schedules of blocks unite into one schedule of the whole work graph that keeps all constraints and shares no worker between blocks. '
     'Block graphs convert to work graphs, copy and combine without loss, the generators of block graphs build the kinds and number of blocks '
     'and the share of edges asked for, and features of graphs agree with their definitions.',
     ['inputs', 'configurations', 'histories'],
     'All block graphs, agents, schedulers, managers, seeds, repeated auctions and generator modes.',
     'The tests run a few auctions and look only at precedence of blocks.',
     ['sampo/scheduler/multi_agency/multi_agency.py', 'sampo/scheduler/multi_agency/block_graph.py', 'sampo/scheduler/multi_agency/block_generator.py',
      'sampo/scheduler/multi_agency/block_validation.py', 'sampo/scheduler/selection/metrics.py'],
     [('auction', 'sampo/scheduler/multi_agency/multi_agency.py'), ('blocks', 'sampo/scheduler/multi_agency/block_graph.py'),
      ('generators', 'sampo/scheduler/multi_agency/block_generator.py'), ('features', 'sampo/scheduler/selection/metrics.py')],
     'The auction is repeated by a reference that schedules each block alone. ' + DOMAIN, ['Manager.manage_blocks()', 'BlockGraph.to_work_graph()'])

prop('C32', 'Charts show exactly the schedule and the graph they are drawn from',
     'The Gantt chart has one bar per work from its start to its finish, per change of a zone and per delivery of material, at the dates counted from the day of time zero, '
     'coloured by contractor, priority or critical path as asked; charts of workers show for every day, work or worker the counts of the schedule; the chart of a graph shows '
     'every work within the depth asked for, in the column of its longest path, and one arrow per relation not excluded; no call changes the table it is given.',
     ['inputs', 'configurations'],
     'All schedules (zones, deliveries, stages, shifted starts), start dates, colour modes, chart types, random graphs, depths, hidden works and excluded or dotted relations.',
     'No test draws a chart.',
     ['sampo/utilities/visualization/schedule.py', 'sampo/utilities/visualization/resources.py', 'sampo/utilities/visualization/work_graph.py',
      'sampo/utilities/visualization/__init__.py', 'sampo/pipeline/default.py'],
     [('Gantt chart', 'sampo/utilities/visualization/schedule.py'), ('charts of workers', 'sampo/utilities/visualization/resources.py'),
      ('chart of a graph', 'sampo/utilities/visualization/work_graph.py')],
     'The chart is judged by the figure object returned, not by pixels.', ['schedule_gant_chart_fig()', 'resource_employment_fig()', 'work_graph_fig()'])

prop('C33', 'Searching in several processes gives what one process gives',
     'The multiprocessing backend returns for every chromosome the fitness the default backend returns, in the order of the chromosomes, with the settings given last, for any number of '
     'processes and projects given in turn; its first population has the size asked for and holds valid chromosomes that keep the specification; a search with it returns schedules that keep '
     'all constraints and depends on the seed only, not on the number of processes; it runs no more processes than asked for.',
     ['inputs', 'configurations', 'schedules', 'histories'],
     'All projects, zones, estimators, objectives, generation schemes, seeds, weights, deadlines, and numbers of processes.',
     'No stable test runs this backend.',
     ['sampo/backend/multiproc.py', 'sampo/backend/default.py', 'sampo/schemas/time_estimator.py', 'sampo/scheduler/genetic/schedule_builder.py'],
     [('processes', 'sampo/backend/multiproc.py'), ('one process', 'sampo/backend/default.py'), ('estimators sent to processes', 'sampo/schemas/time_estimator.py')],
     'Real processes are forked; the interleaving is that of the operating system. ' + DOMAIN,
     ['SAMPO.backend', 'ComputationalBackend.compute_chromosomes()', 'GeneticScheduler.schedule()'])
