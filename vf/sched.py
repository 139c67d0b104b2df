"""The schedulers under test, by name."""
import random


def make(name: str, seed: int = 7, gens: int = 3, pop: int = 6, **kw):
    from sampo.scheduler import (HEFTScheduler, HEFTBetweenScheduler, TopologicalScheduler,
                                 RandomizedTopologicalScheduler, LFTScheduler, RandomizedLFTScheduler)
    from sampo.scheduler.genetic import GeneticScheduler, ScheduleGenerationScheme
    from sampo.scheduler.resource import (FullScanResourceOptimizer, AverageReqResourceOptimizer,
                                          CoordinateDescentResourceOptimizer)
    from sampo.utilities.base_opt import dichotomy_int
    if name == 'heft':
        return HEFTScheduler()
    if name == 'heft_between':
        return HEFTBetweenScheduler()
    if name == 'heft_avg':
        return HEFTScheduler(resource_optimizer=AverageReqResourceOptimizer())
    if name == 'between_avg':
        return HEFTBetweenScheduler(resource_optimizer=AverageReqResourceOptimizer(4))
    if name == 'heft_cd':
        return HEFTScheduler(resource_optimizer=CoordinateDescentResourceOptimizer(dichotomy_int))
    if name == 'between_cd':
        return HEFTBetweenScheduler(resource_optimizer=CoordinateDescentResourceOptimizer(dichotomy_int))
    if name == 'topological':
        return TopologicalScheduler()
    if name == 'rand_topological':
        return RandomizedTopologicalScheduler(random_seed=seed)
    if name == 'lft':
        return LFTScheduler()
    if name == 'rand_lft':
        return RandomizedLFTScheduler(rand=random.Random(seed))
    if name in ('genetic', 'genetic_serial'):
        return GeneticScheduler(number_of_generation=gens, size_of_population=pop, mutate_order=kw.pop('mo', 0.3),
                                mutate_resources=kw.pop('mr', 0.3), seed=seed,
                                sgs_type=ScheduleGenerationScheme.Serial if name.endswith('serial')
                                else ScheduleGenerationScheme.Parallel, **kw)
    raise ValueError(name)


LIST = ['heft', 'heft_between', 'heft_avg', 'between_avg', 'topological', 'rand_topological', 'lft', 'rand_lft']
