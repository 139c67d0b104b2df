"""Evaluation in several processes: the same fitness, valid populations, valid and repeatable schedules."""
import random
from contextlib import contextmanager

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks import c10, c21
from vf.checks.c09 import snap_con, snap_spec, snap_wg
from vf.core import Sub, sut, require

PROPERTY = 'C33'
RULE = ('A case is one to three random projects (with specification, zones, an own work estimator) given in turn to one backend with one to three processes, and the settings of '
        'the genetic search. Non-trivial: two chromosomes evaluated have different fitness, or the search ran with two processes or more.')
ASSUMPTIONS = ['The work estimator is deterministic (static productivity).', 'Processes are forked, as on Linux.']
SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)
FITNESS = ['time', 'time', 'peaks', 'sum', 'time+peaks', 'multi', 'deadline peaks', 'deadline cost']


@st.composite
def part(draw, zones):
    c = draw(c21.job(drive.GEN, big=False) if zones else drive.job(drive.GEN, spec=draw(st.sampled_from([None, SPEC])), big=False))
    c['cpus'] = draw(st.integers(1, 3))
    c['n'] = draw(st.sampled_from([1, 2, 4, 6, 9, 12, 12, 25]))
    c['fitness'] = draw(st.sampled_from(FITNESS))
    c['own'] = [[k, draw(st.sampled_from([None, 0])), draw(st.sampled_from([0.5, 2, 3]))] for k in c['proj']['kinds'] if draw(st.integers(0, 2)) == 0]
    c['sub'] = draw(st.integers(0, 3)) == 0
    c['weights'] = draw(st.none() | st.lists(st.integers(1, 4), min_size=7, max_size=7))
    c['deadline'] = draw(st.none() | st.integers(3, 80))
    c['wild'] = draw(st.booleans())
    c['more'] = draw(st.booleans())
    c['twin'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return c


@st.composite
def fitness_case(draw):
    parts = [draw(part(draw(st.integers(0, 3)) == 0)) for _ in range(draw(st.integers(1, 3)))]
    return {'parts': parts, 'cpus': draw(st.integers(1, 3)), 'seed': draw(st.integers(0, 999)), 'again': draw(st.booleans())}


def estimator(case):
    from sampo.schemas.interval import IntervalGaussian
    from sampo.schemas.time import Time
    from sampo.schemas.time_estimator import DefaultWorkEstimator

    class Slow(DefaultWorkEstimator):
        def estimate_time(self, work_unit, worker_list):
            t = super().estimate_time(work_unit, worker_list)
            return t if t.is_inf() or not work_unit.worker_reqs else t + Time(2)
    est = (Slow if case['sub'] else DefaultWorkEstimator)()
    for kind, con, mean in case['own']:
        est.set_worker_productivity(IntervalGaussian(mean, 0.1, 0, 9), kind, None if con is None else case['proj']['contractors'][con]['id'])
    return est


def objective(case):
    from sampo.scheduler.genetic import operators as ops
    from sampo.schemas.time import Time
    dl = Time(case['deadline'] or 20)
    kinds = case['proj']['kinds']
    return {'time': ops.TimeFitness, 'peaks': lambda: ops.SumOfResourcesPeaksFitness(kinds[:1]), 'sum': ops.SumOfResourcesFitness, 'time+peaks': ops.TimeWithResourcesFitness,
            'multi': ops.TimeAndResourcesFitness, 'deadline peaks': lambda: ops.DeadlineResourcesFitness(dl),
            'deadline cost': lambda: ops.DeadlineCostFitness(dl, kinds[:2])}[case['fitness']]()


@contextmanager
def several(cpus):
    """a backend with processes, ended in any case"""
    import gc
    import multiprocess
    from sampo.backend.multiproc import MultiprocessingComputationalBackend
    others = {p.pid for p in multiprocess.active_children()}
    b = MultiprocessingComputationalBackend(cpus)
    try:
        yield b
    finally:
        pool = getattr(b, '_pool', None)
        if pool is not None:
            pool.terminate()
            pool.join()
        del b
        gc.collect()
        for p in multiprocess.active_children():
            if p.pid not in others:
                p.kill()


def run_fitness(case, rec):
    import multiprocess
    from sampo.backend.default import DefaultComputationalBackend
    from sampo.scheduler.genetic.converter import ScheduleGenerationScheme
    from sampo.scheduler.genetic.base import GeneticScheduler
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.time import Time
    seen = set()
    with several(case['cpus']) as multi:
        for p in case['parts']:
            proj = p['proj']
            wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
            land = c21.landscape(p) if 'zones' in p else LandscapeConfiguration()
            est = estimator(p)
            before = snap_wg(wg), snap_con(cons), snap_spec(spec, wg)
            both = p['fitness'] == 'multi'
            deadline = None if p['deadline'] is None else Time(p['deadline'])
            with sut('direct'):
                init = GeneticScheduler.generate_first_population(wg, cons, land, spec, est)
            plain = DefaultComputationalBackend()

            def setup(b, other=False):
                if not other:
                    b.cache_scheduler_info(wg, cons, land, spec, random.Random(case['seed']), est)
                b.cache_genetic_info(p['n'], 0.5, 0.5, 0.5, deadline, p['weights'], init, Time(p['at'] + 3 * other), (-1, -1) if both else (-1,),
                                     ScheduleGenerationScheme.Serial if (p['alg'] == 'genetic_serial') != other else ScheduleGenerationScheme.Parallel, False, both)
            for b in (plain, multi):
                with sut('crash'):
                    setup(b)
            m = c10.Model(proj, wg, cons)
            with sut('direct'):
                pop = plain.generate_first_population(p['n'])
                if p['wild']:
                    tb = plain._toolbox
                    pop = [tb.mutate(tb.copy_individual(x)) for x in pop] + pop
            with sut('crash'):
                first = multi.generate_first_population(p['n'])
            require(len(first) == p['n'], 'size', f'{len(first)} chromosomes, asked for {p["n"]}')
            for ind in first:
                bad = m.problems(ind)
                require(bad is None, 'population', f'first population: {bad}')
            if p['twin']:
                with several(p['twin']) as other:
                    with sut('crash'):
                        setup(other)
                        twin = other.generate_first_population(p['n'])
                    require([c10.snap(x) for x in twin] == [c10.snap(x) for x in first], 'repeat',
                            f'{case["cpus"]} and {p["twin"]} processes give different populations under one seed')
                    del other
            pop = pop + list(first)
            given = [c10.snap(x) for x in pop]
            f = objective(p)
            with sut('direct'):
                want = plain.compute_chromosomes(f, pop)
            with sut('crash'):
                got = multi.compute_chromosomes(objective(p), pop)
                if case['again']:
                    require(multi.compute_chromosomes(f, pop[::-1]) == got[::-1], 'again', 'the fitness of chromosomes depends on their order')
            require(list(map(tuple, got)) == list(map(tuple, want)), 'fitness', lambda: f'{p["fitness"]} in processes {got}, in one process {want}')
            if p['more']:
                # other settings of the search for the same project
                fresh = DefaultComputationalBackend()
                with sut('crash'):
                    setup(fresh)
                    for b in (fresh, plain, multi):
                        setup(b, other=True)
                    a, b, c = [list(map(tuple, b.compute_chromosomes(f, pop))) for b in (fresh, plain, multi)]
                require(a == b, 'settings', lambda: f'{p["fitness"]}: {b} after the settings changed, with a new backend {a}')
                require(a == c, 'settings', lambda: f'{p["fitness"]}: {c} in processes after the settings changed, with a new backend {a}')
            require([c10.snap(x) for x in pop] == given, 'chromosomes', 'chromosomes changed at evaluation')
            require((snap_wg(wg), snap_con(cons), snap_spec(spec, wg)) == before, 'inputs', 'works, contractors or specification changed')
            if p['fitness'] == 'time' and not p['deadline']:
                require(all(x[0] < 10 ** 8 for x in got), 'infinite', lambda: f'chromosomes of schedules cannot be decoded: {got}')
            with sut('crash'):
                alive = len(multiprocess.active_children())
            require(alive <= case['cpus'], 'processes', f'{alive} processes run, {case["cpus"]} asked for')
            seen |= {(id(p), tuple(x)) for x in got}
    rec.nontrivial(len(seen) > len(case['parts']))
    rec.label(f'{case["cpus"]} processes', f'{len(case["parts"])} projects', *{p['fitness'] for p in case['parts']})


@st.composite
def search_case(draw):
    c = draw(part(draw(st.integers(0, 3)) == 0))
    c['gens'] = draw(st.integers(1, 2))
    c['cpus2'] = draw(st.sampled_from([1, 2, 3]))
    c['own'], c['sub'] = [], False
    return c


def run_search(case, rec):
    from sampo.base import SAMPO
    from sampo.scheduler.genetic.converter import ScheduleGenerationScheme
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.time import Time
    proj, both = case['proj'], case['fitness'] == 'multi'
    zones = 'zones' in case
    old = SAMPO.backend
    results = []
    for cpus in (case['cpus'], case['cpus2']):
        wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
        try:
            with several(cpus) as b:
                SAMPO.backend = b
                with sut('crash'):
                    s = sched.make(case['alg'], case['seed'], case['gens'], case['pop'], fitness_constructor=objective(case),
                                   fitness_weights=(-1, -1) if both else (-1,), is_multiobjective=both)
                    if case['deadline'] and not both:
                        s.set_deadline(Time(case['deadline']))
                    if case['weights']:
                        s.set_weights(case['weights'])
                    res = s.schedule(wg, cons, spec=spec, start_time=Time(case['at']), landscape=c21.landscape(case) if zones else LandscapeConfiguration())
                SAMPO.backend = old
                del b
        finally:
            SAMPO.backend = old
        require(len(res) >= 1, 'no-schedule', 'no schedule')
        out = []
        for sch in res:
            sd = oracle.flatten(sch)
            oracle.everything(proj, sd, split=case['alg'] == 'genetic', at=case['at'])
            if zones:
                c21.check(case, sd)
            out.append({i: (x['st'], x['ft'], x['contractor'], sorted(x['team'])) for i, x in sd.items()})
        results.append(out)
    require(results[0] == results[1], 'repeat', f'{case["cpus"]} and {case["cpus2"]} processes give different schedules under one seed')
    rec.nontrivial(max(case['cpus'], case['cpus2']) > 1)
    rec.label(case['alg'], case['fitness'], 'deadline' if case['deadline'] and not both else 'no deadline', 'weights' if case['weights'] else 'default weights')


SUBS = [Sub('fitness', fitness_case(), run_fitness, quick=120, thorough=2400),
        Sub('search', search_case(), run_search, quick=88, thorough=1600)]
