"""Costs and use of resources of a schedule, and the objectives computed from them."""
from hypothesis import strategies as st

from vf import drive, gen, oracle, plan
from vf.core import Sub, sut, require

PROPERTY = 'C25'
RULE = ('A case is a random project whose contractors ask different prices for the same kinds, scheduled by one of the schedulers or '
        'without the library, and a choice of kinds to count. Non-trivial: two works with workers run at the same time.')
ASSUMPTIONS = ['Sums of money are compared with a relative error of 1e-9.']


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


@st.composite
def made(draw):
    proj = draw(gen.project(min_works=1, max_works=8))
    return {'proj': proj, 'plan': plan.draws(draw, proj), 'at': draw(st.sampled_from([0, 0, 3])), **options(draw)}


def options(draw):
    return {'names': draw(st.one_of(st.none(), st.lists(st.sampled_from(gen.KINDS + ['nobody']), max_size=4))),
            'as': draw(st.sampled_from(['list', 'set', 'generator', 'dict'])),
            'deadline': draw(st.integers(1, 120)), 'prices': draw(st.lists(st.sampled_from([1, 2.5, 7, 0.3, 0, 40]), min_size=6, max_size=6))}


@st.composite
def solved(draw, names, **kw):
    case = draw(drive.job(names, **kw))
    return {**case, **options(draw)}


def price(case, con, kind):
    """what one worker of the kind costs at the contractor; None: not said"""
    c = next(c for c in case['proj']['contractors'] if c['id'] == con)
    return c['cost'].get(kind, 10)          # ten times the productivity, which is 1


def names_of(case):
    if case['names'] is None:
        return None
    return {'list': list, 'set': set, 'generator': lambda x: (n for n in list(x)), 'dict': lambda x: {n: 1 for n in x}}[case['as']](case['names'])


def reference(case, sd):
    """kind -> step function (list of [from, to, number]), worker-days, cost"""
    picked = case['names']
    use, total, cost, per_work = {}, 0, 0.0, {}
    for wid, w in sd.items():
        per_work[wid] = 0
        for k, n, con in w['team']:
            d = w['ft'] - w['st']
            c = price(case, con, k) * n * d
            per_work[wid] += c
            if picked is None or k in picked:
                total += n * d
                cost += c
                use.setdefault(k, []).append((w['st'], w['ft'], n))
    return use, total, cost, per_work


def compare(case, sch, sd, rec, cons):
    from sampo.scheduler.genetic.operators import (TimeFitness, SumOfResourcesPeaksFitness, SumOfResourcesFitness,
                                                   TimeWithResourcesFitness, DeadlineResourcesFitness, DeadlineCostFitness,
                                                   TimeAndResourcesFitness)
    from sampo.schemas.time import Time
    from sampo.utilities import resource_usage as ru
    use, total, cost, per_work = reference(case, sd)
    points = sorted({w['st'] for w in sd.values()} | {w['ft'] for w in sd.values()})
    peak = {}
    for k, xs in use.items():
        peak[k] = max(sum(n for s, f, n in xs if s <= t < f) for t in points)
    busy = [(w['st'], w['ft']) for w in sd.values() if w['team'] and w['ft'] > w['st']]
    rec.nontrivial(any(a[0] < b[1] and b[0] < a[1] for i, a in enumerate(busy) for b in busy[:i]))
    rec.label('all kinds' if case['names'] is None else 'some kinds')
    # works and teams
    for wid, w in sd.items():
        obj = w['obj']
        require(close(obj.cost, per_work[wid]), 'cost-of-work', lambda: f'{wid} costs {obj.cost}, not {per_work[wid]}: {w["team"]} for '
                                                                          f'{w["ft"] - w["st"]}')
        require(oracle.T(obj.duration) == w['ft'] - w['st'], 'duration', f'{wid}: {obj.duration}')
        for x in obj.workers:
            require(close(x.get_cost(), price(case, x.contractor_id, x.name) * x.count), 'cost-of-team', f'{wid}: {x} costs {x.get_cost()}')
    n = lambda: names_of(case)
    with sut('crash'):
        got = ru.get_total_resources_usage(sch, n())
    for k, xs in use.items():
        want = [sum(c for s, f, c in xs if s <= t < f) for t in points]
        require(k in got and list(got[k]) == want, 'use', lambda: f'use of {k} at {points}: {list(got.get(k, []))}, not {want}')
    for k, arr in got.items():
        require(k in use or not any(arr), 'use', f'use of {k} though nobody of that kind works or it was not asked for')
    with sut('crash'):
        peaks, psum = ru.get_resources_peak_usage(sch, n()), ru.resources_peaks_sum(sch, n())
        rsum, rcost = ru.resources_sum(sch, n()), ru.resources_costs_sum(sch, n())
    require({k: int(v) for k, v in peaks.items() if v} == {k: v for k, v in peak.items() if v}, 'peaks', f'{peaks} instead of {peak}')
    require(psum == sum(peak.values()), 'peaks', f'sum of peaks {psum} instead of {sum(peak.values())}')
    require(rsum == total, 'sum', f'{rsum} worker-days instead of {total}')
    require(close(rcost, cost), 'cost', f'{rcost} instead of {cost}')
    if case['names'] is None:
        require(close(rcost, sum(w['obj'].cost for w in sd.values())), 'cost', 'the cost is not that of the works')
    # objectives
    end = max(w['ft'] for w in sd.values())
    ps, late = sum(peak.values()), max(1.0, end / case['deadline'])
    dl = Time(case['deadline'])
    fs = [(TimeFitness(), (end,)), (SumOfResourcesPeaksFitness(n()), (ps,)), (SumOfResourcesFitness(n()), (total,)),
          (TimeWithResourcesFitness(n()), (end + ps,)), (DeadlineResourcesFitness(dl, n()), (ps * late,)),
          (DeadlineCostFitness(dl, n()), (cost * late,)), (TimeAndResourcesFitness(n()), (end, ps))]
    token = object()
    for f, want in fs:
        for turn in (1, 2):          # an objective is asked many times
            asked = []
            with sut('crash'):
                got = tuple(f.evaluate(token, lambda c: (asked.append(c), sch)[1]))
            require(len(got) == len(want) and all(close(a, b) for a, b in zip(got, want)), 'objective',
                    f'{type(f).__name__}: {got} instead of {want} (evaluation {turn})')
            require(asked == [token], 'objective', f'{type(f).__name__} builds {len(asked)} schedules, or of another chromosome')
        with sut('crash'):
            got = tuple(f.evaluate(token, lambda c: None))
        require(got == (oracle.INF,) * len(want), 'objective', f'{type(f).__name__} of a chromosome without schedule: {got}')


def run_made(case, rec):
    with sut('crash'):
        wg, cons = gen.build_wg(case['proj']), gen.build_contractors(case['proj'])
        sch = plan.schedule(wg, cons, plan.make(case['proj'], case['plan'], case['at']))
    compare(case, sch, oracle.flatten(sch), rec, cons)


def run_solved(case, rec):
    with sut('crash'):
        res, wg = drive.solve(case)
    rec.label(case['alg'])
    for sch in res:
        compare(case, sch, oracle.flatten(sch), rec, None)


@st.composite
def resource_case(draw):
    return {'count': draw(st.integers(0, 40)), 'to': draw(st.integers(0, 40)), 'mean': draw(st.integers(1, 12)),
            'sigma': draw(st.integers(0, 4)), 'price': draw(st.one_of(st.none(), st.integers(0, 40))), 'seed': draw(st.integers(0, 999)),
            'kind': draw(st.sampled_from(['gauss', 'uniform']))}


def run_resource(case, rec):
    from random import Random
    from sampo.schemas.interval import IntervalGaussian, IntervalUniform
    from sampo.schemas.resources import Material, Worker, WorkerProductivityMode
    from sampo.schemas.contractor import Contractor
    rec.nontrivial(case['count'] != case['to'] and case['count'] > 0)
    m, s = case['mean'] / 2, case['sigma'] / 2
    p = IntervalGaussian(m, s, 0, 2 * m) if case['kind'] == 'gauss' else IntervalUniform(m / 2, 3 * m / 2)
    cost = case['price'] / 4 if case['price'] is not None else 10 * m
    with sut('crash'):
        w = Worker('w', 'driver', case['count'], 'c', p, cost_one_unit=None if case['price'] is None else case['price'] / 4)
        require(close(w.get_cost(), cost * case['count']), 'cost-of-team', f'{w.get_cost()} instead of {cost} * {case["count"]}')
        require(close(w.get_productivity(Random(1), WorkerProductivityMode.Static), m * case['count']), 'productivity', 'static productivity')
        x = w.get_productivity(Random(case['seed']), WorkerProductivityMode.Stochastic)
        require(close(x, p.rand_float(Random(case['seed'])) * case['count']), 'productivity', f'stochastic productivity {x}')
        c = w.copy().with_count(case['to'])
        require(w.count == case['count'] and c.count == case['to'], 'copy', 'changing a copy changes the worker')
        require((c.id, c.name, c.contractor_id, c.productivity, c.cost_one_unit) == (w.id, w.name, w.contractor_id, p, cost), 'copy', f'{c}')
        require(close(c.get_cost(), cost * case['to']), 'cost-of-team', f'a copy of {case["to"]} costs {c.get_cost()}')
        require(c.get_agent_id() == ('c', 'driver'), 'copy', f'{c.get_agent_id()}')
        mat = Material('m', 'stone', case['count'], cost)
        d = mat.copy().with_count(case['to'])
        require((mat.count, d.count, d.name, d.id, d.cost_one_unit) == (case['count'], case['to'], 'stone', 'm', cost), 'copy', 'material')
        con = Contractor('boss', 'Boss', {'driver': c})
        require(c.contractor_id == 'boss' and con.workers['driver'].count == case['to'], 'contractor', 'workers do not belong to their contractor')


SUBS = [
    Sub('made', made(), run_made, quick=500, thorough=6000),
    Sub('heuristics', solved(drive.FAST, spec=dict(contractors=True, teams=True, partial_teams=True, times=True)), run_solved, quick=500, thorough=6000),
    Sub('genetic', solved(drive.GEN, big=False), run_solved, quick=80, thorough=1000),
    Sub('resources', resource_case(), run_resource, quick=300, thorough=3000),
]
