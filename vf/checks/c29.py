"""Hybrid search: populations of heuristics, the genetic improvement of a population, and cycles of both."""
import random

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks import c10, c21
from vf.checks.c09 import snap_con, snap_spec, snap_wg
from vf.core import Sub, sut, require

PROPERTY = 'C29'
RULE = ('A case is a random project with specification (or with zones), a list of heuristics that make the starting population, one or two genetic '
        'schedulers with seeds that improve it in turn, and possibly another project scheduled before. Non-trivial: the population holds two '
        'different chromosomes, or a later population differs from the starting one.')
ASSUMPTIONS = ['The starting population is made by heuristics; the objective is the time of the project.',
               'That the result is not worse than the starting population is claimed when all parts of the cycle use one generation scheme.']
SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)


@st.composite
def case_of(draw, zones=False):
    c = draw(c21.job(drive.FAST, big=False) if zones else drive.job(drive.FAST, spec=draw(st.sampled_from([None, SPEC])), big=False, min_works=1))
    c['heur'] = draw(st.lists(st.sampled_from(drive.FAST), min_size=1, max_size=4))
    c['genetic'] = draw(st.lists(st.tuples(st.sampled_from(['genetic', 'genetic_serial']), st.integers(0, 99), st.integers(1, 2), st.integers(2, 8)),
                                 min_size=1, max_size=2))
    c['sgs'] = draw(st.sampled_from(['genetic', 'genetic_serial', None]))
    if c['sgs']:
        c['genetic'] = [(c['sgs'], *g[1:]) for g in c['genetic']]
    c['plateau'] = draw(st.integers(1, 2))
    c['before'] = draw(st.booleans())
    c['crowd'] = draw(st.sampled_from([0, 3, 6])), draw(st.integers(1, 3)), draw(st.booleans())
    return c


def scheme(name):
    from sampo.scheduler.genetic.converter import ScheduleGenerationScheme
    return ScheduleGenerationScheme.Serial if name == 'genetic_serial' else ScheduleGenerationScheme.Parallel


def snap(ind):
    return [ind[k].tolist() for k in (0, 1, 2, 4)]


def parts(case):
    from sampo.hybrid.population import GeneticPopulationScheduler, HeuristicPopulationScheduler
    return (HeuristicPopulationScheduler([sched.make(h, case['seed']) for h in case['heur']]),
            [GeneticPopulationScheduler(sched.make(n, s, g, p)) for n, s, g, p in case['genetic']])


def run(case, rec):
    from sampo.hybrid.cycle import CycleHybridScheduler
    from sampo.hybrid.population import GeneticPopulationScheduler
    from sampo.scheduler.genetic.schedule_builder import create_toolbox
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.time import Time
    proj, at = case['proj'], case['at']
    zones = 'zones' in case
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    land = c21.landscape(case) if zones else LandscapeConfiguration()
    before = snap_wg(wg), snap_con(cons), snap_spec(spec, wg)
    sgs = scheme(case['genetic'][0][0])
    rec.label(case['sgs'] or 'mixed', *case['heur'])
    start, improve = parts(case)
    if case['before']:
        other = {'works': [{'id': f'w{i}', 'reqs': [['driver', 3, 1, 2]], 'vol': 3, 'svc': False, 'prio': 1} for i in range(3)],
                 'edges': [[0, 1, 0, 'FS']], 'blocks': [[0], [1], [2]], 'spec': {}, 'kinds': ['driver'],
                 'contractors': [{'id': 'other', 'name': 'other', 'workers': {'driver': 2}, 'cost': {}}]}
        with sut('crash'):
            sched.make('genetic', 1, 1, 2).schedule(gen.build_wg(other), gen.build_contractors(other))
    with sut('crash'):
        pop = start.schedule([], wg, cons, spec, Time(at), land)
    # the population of the heuristics: their schedules
    m = c10.Model(proj, wg, cons)
    for ind in pop:
        bad = m.problems(ind)
        require(bad is None, 'population', f'chromosome of a heuristic: {bad}')
    require(len(pop) == len(case['heur']), 'population', f'{len(pop)} chromosomes of {len(case["heur"])} heuristics')
    for h, ind in zip(case['heur'], pop):
        with sut('crash'):
            sd = oracle.flatten(sched.make(h, case['seed']).schedule(wg, cons, spec=spec, landscape=land)[0])
        for i, wid in enumerate(m.ids):
            if wid in sd and sd[wid]['team'] and wid in m.works:
                got = {k: int(ind[1][i, j]) for j, k in enumerate(m.kinds) if ind[1][i, j]}, m.cons[ind[1][i, -1]]['id']
                want = {n: c for n, c, _ in sd[wid]['team']}, sd[wid]['contractor']
                if not h.startswith('rand'):
                    require(got == want, 'population', f'{h}: {wid} has {got} in the chromosome, {want} in the schedule')
    # improvement of a population
    tb = create_toolbox(wg, cons, spec=spec, assigned_parent_time=Time(at), landscape=land, sgs_type=sgs, rand=random.Random(1))

    def times(p):
        out = []
        for ind in p:
            sw = tb.chromosome_to_schedule(tb.Individual(ind))[0]
            out.append(max(oracle.T(x.finish_time) for x in sw.values()))
        return out
    with sut('crash'):
        first = times(pop)
    given = [snap(i) for i in pop]
    with sut('crash'):
        new = improve[0].schedule(pop, wg, cons, spec, Time(at), land)
    require([snap(i) for i in pop] == given, 'population-changed', 'the population given was changed')
    require(1 <= len(new) <= case['genetic'][0][3], 'size', f'{len(new)} chromosomes, the size of the population is {case["genetic"][0][3]}')
    for ind in new:
        bad = m.problems(ind)
        require(bad is None, 'population', f'improved chromosome: {bad}')
    with sut('crash'):
        second = times(new)
    require(min(second) <= min(first), 'worse', f'the best of the improved population takes {min(second)}, of the given one {min(first)}')
    rec.nontrivial(len({str(g) for g in given}) > 1 or [snap(i) for i in new] != given)
    # a crowd of changed chromosomes, larger than the population of the scheduler that improves it
    size, small, best_last = case['crowd']
    if size:
        wild = create_toolbox(wg, cons, mutate_order=0.5, mutate_resources=0.7, mutate_zones=0.5, spec=spec, assigned_parent_time=Time(at), landscape=land,
                              sgs_type=sgs, rand=random.Random(case['seed']))
        with sut('crash'):
            crowd = [wild.mutate(wild.Individual(wild.copy_individual(wild.Individual(pop[i % len(pop)])))) for i in range(size)] + list(pop)
            for ind in crowd:
                if not m.problems(ind) is None:
                    require(False, 'population', f'mutated: {m.problems(ind)}')
            took = times(crowd)
            crowd = [crowd[i] for i in sorted(range(len(crowd)), key=lambda i: (-took[i] if best_last else i, i))]
            name, seed, gens, _ = case['genetic'][0]
            grown = GeneticPopulationScheduler(sched.make(name, seed, gens, small)).schedule(crowd, wg, cons, spec, Time(at), land)
            third = times(grown)
        require(min(third) <= min(took), 'worse', f'the best of the improved crowd takes {min(third)}, of the given one {min(took)}; population size {small} of {len(crowd)}')
    # the cycle
    results = []
    for k in range(2):
        start, improve = parts(case)
        with sut('crash'):
            cycle = CycleHybridScheduler(start, improve, max_plateau_size=case['plateau'])
            sch = cycle.schedule(wg, cons, spec, Time(at), sgs, land)
        sd = oracle.flatten(sch)
        results.append({i: (x['st'], x['ft'], x['contractor'], sorted(x['team'])) for i, x in sd.items()})
        oracle.everything(proj, sd, split=sgs == scheme('genetic'), at=at)
        oracle.independent(proj, sd)
        if zones:
            c21.check(case, sd)
    require(results[0] == results[1], 'repeat', 'the same cycle gives another schedule when run again')
    if case['sgs'] and not any(h.startswith('rand') for h in case['heur']):
        end = max(s['ft'] for s in sd.values())
        require(end <= min(first), 'worse', f'finished at {end}, a schedule of the starting population at {min(first)}')
    require((snap_wg(wg), snap_con(cons), snap_spec(spec, wg)) == before, 'inputs', 'the works, contractors or specification given changed')


SUBS = [Sub('cycle', case_of(), run, quick=240, thorough=3000),
        Sub('zones', case_of(zones=True), run, quick=100, thorough=1200)]
