"""Scheduling to a deadline: binary search of resources, and the genetic scheduler with a deadline."""
import random

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks.c09 import snap_con, snap_spec, snap_wg
from vf.core import Sub, sut, require

PROPERTY = 'C26'
RULE = ('A case is a random project with specification, a scheduler and a deadline, drawn as a share of the time of the schedule with '
        'the smallest teams. Non-trivial: that time differs from the time with the largest teams, and works with workers exist.')
ASSUMPTIONS = ['The deadline is the latest finish, counted like all times from the beginning of time.',
               'The team sizes tried are those of the search as documented: halving the share of the span between the smallest and the largest team.']
SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)
BASES = ['heft', 'heft_between', 'topological', 'rand_topological']


@st.composite
def search_case(draw, feasible=True):
    return {'proj': draw(gen.project(min_works=2, max_works=draw(st.sampled_from([4, 8])), spec=draw(st.sampled_from([None, SPEC]) if feasible else st.none()),
                                     feasible=feasible, max_contractors=2)),
            'base': draw(st.sampled_from(BASES)), 'seed': draw(st.integers(0, 99)), 'at': draw(st.sampled_from([0, 0, 4])),
            'share': draw(st.sampled_from([0.2, 0.5, 0.7, 0.8, 0.9, 1.0, 1.01, 1.2, 1.5, 2, 5])), 'validate': draw(st.booleans())}


@st.composite
def slack_case(draw):
    """works hardly depending on each other, a large crew and a deadline just after the end with the smallest teams: making a work
    independent breaks the deadline more often than not"""
    n = draw(st.integers(4, 9))
    works = [{'id': f'w{i}', 'reqs': [['driver', v, 1, draw(st.integers(1, 3))]], 'vol': v, 'svc': False, 'prio': 1}
             for i, v in enumerate(draw(st.lists(st.sampled_from([2, 5, 10, 10, 11]), min_size=n, max_size=n)))]
    edges = [[p, c, 0, 'FS'] for p, c in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=3, unique=True)) if p < c]
    proj = {'kinds': ['driver'], 'works': works, 'edges': edges, 'blocks': [[i] for i in range(n)],
            'contractors': [{'id': 'c0', 'name': 'c0', 'workers': {'driver': draw(st.integers(2, 9))}, 'cost': {}}], 'spec': {}}
    return {'proj': proj, 'base': draw(st.sampled_from(BASES[:3])), 'seed': 0, 'at': draw(st.sampled_from([0, 4])), 'share': 1.0,
            'plus': draw(st.sampled_from([1, 1, 2, 4, 8])), 'validate': draw(st.booleans())}


def objects(case):
    proj = case['proj']
    return gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)


def time_with(case, k):
    """finish of the plain schedule with average coefficient k"""
    from sampo.scheduler.resource import AverageReqResourceOptimizer
    from sampo.schemas.time import Time
    wg, cons, spec = objects(case)
    s = sched.make(case['base'], case['seed'])
    s.resource_optimizer = AverageReqResourceOptimizer(k)
    return oracle.T(s.schedule(wg, cons, spec=spec, start_time=Time(case.get('at', 0)))[0].execution_time)


def ladder():
    lo, hi = 1, 10000
    while hi - lo > 0.05:
        hi = (lo + hi) / 2
        yield hi


def run_search(case, rec):
    from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler
    from sampo.schemas.time import Time
    proj = case['proj']
    rec.label(case['base'])
    with sut('crash'):
        slow = time_with(case, 10000)
        fast = time_with(case, 1)
    deadline = max(1, round(slow * case['share']) + case.get('plus', 0))
    rec.nontrivial(slow != fast or deadline > slow)
    wg, cons, spec = objects(case)
    before = snap_wg(wg), snap_con(cons), snap_spec(spec, wg)
    with sut('crash'):
        s = AverageBinarySearchResourceOptimizingScheduler(sched.make(case['base'], case['seed']))
        (sch, _, _, order), used = s.schedule_with_cache(wg, cons, Time(deadline), spec, validate=case['validate'], assigned_parent_time=Time(case['at']))
    require(sch is not None, 'no-schedule', 'no schedule though the project is feasible')
    require((snap_wg(wg), snap_con(cons), snap_spec(spec, wg)) == before, 'inputs', 'the works, contractors or specification given changed')
    sd = oracle.flatten(sch)
    if case['base'] == 'rand_topological':
        rec.label('random')
    oracle.everything(proj, sd, at=case['at'])
    oracle.independent(proj, sd)
    # the specification returned is the one the schedule was made with
    extra = {w['id'] for w in proj['works'] if used.get_work_spec(w['id']).is_independent}
    own = {w for w, e in proj['spec'].items() if e.get('independent')}
    require(own <= extra, 'spec-returned', f'{own - extra} are independent in the specification given, not in the one returned')
    proj2 = dict(proj, spec={**proj['spec'], **{w: dict(proj['spec'].get(w, {}), independent=True) for w in extra}})
    oracle.independent(proj2, sd)
    for w, e in proj['spec'].items():
        u = used.get_work_spec(w)
        require(set(u.contractors) == set(e.get('contractors') or []) and u.assigned_workers == (e.get('workers') or {})
                and (None if u.assigned_time is None else oracle.T(u.assigned_time)) == e.get('time'), 'spec-returned', f'{w}: {u} instead of {e}')
    end = max(s['ft'] for s in sd.values())
    if case['base'] == 'rand_topological':
        return                      # every run of it orders works anew
    if slow < deadline:
        rec.label('slack')
        require(end <= deadline, 'deadline', f'finished at {end}; the smallest teams finish at {slow}, the deadline is {deadline}')
        for b in proj['blocks']:
            w = proj['works'][b[0]]
            fixed = proj['spec'].get(w['id'], {}).get('workers') or {}
            for n, c, _ in sd[w['id']]['team']:
                lo = next(lo for k, _, lo, _ in w['reqs'] if k == n)
                require(c == fixed.get(n, lo), 'team', f'{w["id"]} has {c} x {n} though the smallest teams keep the deadline')
    elif end > deadline:
        rec.label('late')
        for k in ladder():
            with sut('crash'):
                t = time_with(case, k)
            require(t > deadline, 'deadline', f'finished at {end} after the deadline {deadline}; teams of the coefficient {k} finish at {t}')
    else:
        rec.label('met')


def run_infeasible(case, rec):
    from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.time import Time
    proj = case['proj']
    ok = all(any(gen.capable(c, proj['works'][b[0]]['reqs']) for c in proj['contractors']) or not proj['works'][b[0]]['reqs']
             for b in proj['blocks'])
    rec.nontrivial(not ok)
    rec.label('feasible' if ok else 'infeasible')
    wg, cons, spec = objects(case)
    with sut('crash'):
        s = AverageBinarySearchResourceOptimizingScheduler(sched.make(case['base'], case['seed']))
        try:
            sch = s.schedule_with_cache(wg, cons, Time(30), spec)[0][0]
        except NoSufficientContractorError:
            sch = None
    require((sch is not None) == ok, 'feasible', f'{"no" if sch is None else "a"} schedule, feasible: {ok}')


@st.composite
def genetic_case(draw):
    return {'proj': draw(gen.project(min_works=2, max_works=7, spec=draw(st.sampled_from([None, SPEC])), max_contractors=2)),
            'sgs': draw(st.sampled_from(['genetic', 'genetic_serial'])), 'seed': draw(st.integers(0, 10 ** 6)), 'gens': draw(st.integers(2, 5)),
            'pop': draw(st.integers(16, 20)), 'share': draw(st.sampled_from([0.3, 0.7, 0.9, 1.0, 1.0, 1.1, 1.4, 3])),
            'objective': draw(st.sampled_from(['peaks', 'cost', 'sum', 'time+peaks'])), 'optimize': draw(st.integers(0, 3)) == 0}


def run_genetic(case, rec):
    from sampo.scheduler.genetic import operators as ops
    from sampo.scheduler.genetic.converter import ScheduleGenerationScheme
    from sampo.scheduler.genetic.schedule_builder import create_toolbox
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.schedule import Schedule
    from sampo.schemas.time import Time
    proj = case['proj']
    rec.label(case['sgs'], case['objective'])
    sgs = ScheduleGenerationScheme.Serial if case['sgs'].endswith('serial') else ScheduleGenerationScheme.Parallel
    wg, cons, spec = objects(case)
    with sut('crash'):
        lft, _, _, order = sched.make('lft').schedule_with_cache(wg, cons, spec=spec)[0]
        tb = create_toolbox(wg, cons, spec=spec, sgs_type=sgs, verbose=False, rand=random.Random(1),
                            init_schedules={'lft': (lft, order, spec, 1)})
        ch = tb.schedule_to_chromosome(schedule=lft, order=order)
        known = oracle.T(Schedule.from_scheduled_works(tb.chromosome_to_schedule(ch)[0].values(), wg).execution_time)
    deadline = max(1, round(known * case['share']))
    objective = {'peaks': ops.SumOfResourcesPeaksFitness, 'cost': lambda: ops.DeadlineCostFitness(Time(deadline)),
                 'sum': ops.SumOfResourcesFitness, 'time+peaks': ops.TimeWithResourcesFitness}[case['objective']]()
    wg, cons, spec = objects(case)
    before = snap_wg(wg), snap_con(cons), snap_spec(spec, wg)
    with sut('crash'):
        s = sched.make(case['sgs'], case['seed'], case['gens'], case['pop'], fitness_constructor=objective, optimize_resources=case['optimize'])
        s.set_deadline(Time(deadline))
        res = s.schedule(wg, cons, spec=spec)
    require(len(res) >= 1, 'no-schedule', 'no schedule')
    require((snap_wg(wg), snap_con(cons), snap_spec(spec, wg)) == before, 'inputs', 'the works, contractors or specification given changed')
    rec.nontrivial(any(w['reqs'] for w in proj['works']))
    for sch in res:
        sd = oracle.flatten(sch)
        oracle.everything(proj, sd, split=not case['sgs'].endswith('serial'))
        oracle.independent(proj, sd)
        end = max(w['ft'] for w in sd.values())
        if known <= deadline and not case['optimize']:
            rec.label('reachable')
            require(end <= deadline, 'deadline', f'finished at {end}, the deadline is {deadline}; a chromosome of the first population finishes at {known}')


SUBS = [
    Sub('search', search_case(), run_search, quick=160, thorough=2400),
    Sub('slack', slack_case(), run_search, quick=100, thorough=1600),
    Sub('infeasible', search_case(feasible=False), run_infeasible, quick=100, thorough=1200),
    Sub('genetic', genetic_case(), run_genetic, quick=64, thorough=900),
]
