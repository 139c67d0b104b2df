"""Local optimizations: what they return is still an order, and still a schedule, of the project."""
from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks import c21
from vf.checks.c18 import condensed
from vf.core import Sub, sut, require

PROPERTY = 'C28'
RULE = ('One case is a random project, an order or a schedule of it by one of the schedulers, and the area to optimize. Non-trivial: '
        'the order was really changed, or the schedule was recalculated with other teams.')
ASSUMPTIONS = ['The area lies within the order.', 'Orders hold the first work of every inseparable chain, as the schedulers make them.']
ALGS = ['heft', 'heft_between', 'topological', 'rand_topological']


@st.composite
def area_in(draw):
    return draw(st.integers(0, 100)), draw(st.integers(0, 100))


def area(case, n):
    a, b = sorted(x * n // 100 for x in case['area'])
    if case.get('whole'):
        return range(0, n)
    return range(a, b)


@st.composite
def swap_case(draw):
    return {'proj': draw(gen.works_and_edges(min_works=2, max_works=draw(st.sampled_from([5, 14])), priorities=draw(st.booleans()))), 'area': draw(area_in()),
            'whole': draw(st.booleans()), 'order': draw(st.lists(st.integers(0, 10 ** 6), min_size=16, max_size=16)),
            'alg': draw(st.sampled_from(['own', 'own', 'heft', 'topological'])), 'times': draw(st.sampled_from([1, 1, 2, 3]))}


def legal(children, prio, order):
    at = {x: i for i, x in enumerate(order)}
    return all(at[a] < at[b] for a, bs in children.items() for b in bs) and all(prio[a] <= prio[b] for a, b in zip(order[:-1], order[1:]) if b != 'finish')


def run_swap(case, rec):
    from sampo.scheduler.utils.local_optimization import SwapOrderLocalOptimizer
    proj = case['proj']
    children = condensed(proj)
    with sut('crash'):
        wg = gen.build_wg(proj)
        prio = {n.id: n.work_unit.priority for n in wg.nodes}
    if case['alg'] == 'own':
        left = {x: 0 for x in children}
        for bs in children.values():
            for b in bs:
                left[b] += 1
        order, ready, k = [], ['start'], 0
        while ready:
            low = min(prio[x] for x in ready)
            pool = sorted(x for x in ready if prio[x] == low and (x != 'finish' or len(ready) == 1)) or sorted(ready)
            x = pool[case['order'][k % 16] % len(pool)]
            k += 1
            ready.remove(x)
            order.append(x)
            for b in children[x]:
                left[b] -= 1
                if not left[b]:
                    ready.append(b)
        if not legal(children, prio, order):
            rec.label('priorities')
            return
    else:
        s = sched.make(case['alg'])
        from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
        with sut('direct'):
            order = [n.id for n in s.prioritization(*get_head_nodes_with_connections_mappings(wg), s.work_estimator)]
    where = area(case, len(order))
    nodes = [wg[x] for x in order]
    with sut('crash'):
        out = list(nodes)
        for _ in range(case['times']):
            out = SwapOrderLocalOptimizer().optimize(list(out), where)
        got = [n.id for n in out]
    rec.label(case['alg'])
    rec.nontrivial(got != order)
    require(sorted(got) == sorted(order), 'lost', f'{order} became {got}')
    require(all(got[i] == order[i] for i in range(len(order)) if i not in where), 'outside', f'area {where}: {order} became {got}')
    at = {x: i for i, x in enumerate(got)}
    for a, bs in children.items():
        for b in bs:
            require(at[a] < at[b], 'order', lambda: f'area {where}: {order} became {got}, but {b} depends on {a}')
    require(legal(children, prio, got), 'priority', lambda: f'area {where}: {order} became {got}, priorities {prio}')


@st.composite
def par_case(draw):
    c = draw(c21.job(ALGS, big=draw(st.booleans()), priorities=draw(st.booleans()), max_contractors=draw(st.sampled_from([1, 3])),
                     spec=draw(st.sampled_from([None, dict(contractors=True, teams=True, times=True, independent=True)])),
                     kinds=draw(st.sampled_from([None, ['driver'], ['driver', 'fitter']]))))
    for b in c['proj']['blocks']:
        up = draw(st.integers(0, 4))
        for i in b:
            for r in c['proj']['works'][i]['reqs']:
                r[3] += up
    # works that compete for the same kinds
    if draw(st.booleans()):
        for con in c['proj']['contractors']:
            for k in con['workers']:
                con['workers'][k] += draw(st.integers(0, 3))
    return dict(c, area=draw(area_in()), whole=draw(st.booleans()), line=draw(st.sampled_from(['just', 'moment'])), none=draw(st.integers(0, 3)) == 0,
                swap=draw(st.booleans()), via=draw(st.sampled_from(['direct', 'pipeline'])), twice=draw(st.booleans()))


def run_par(case, rec):
    from sampo.pipeline import SchedulingPipeline
    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
    from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
    from sampo.scheduler.utils import get_worker_contractor_pool
    from sampo.scheduler.utils.local_optimization import ParallelizeScheduleLocalOptimizer, SwapOrderLocalOptimizer
    from sampo.schemas.schedule import Schedule
    from sampo.schemas.time import Time
    proj, at = case['proj'], Time(case['at'])
    line = {'just': JustInTimeTimeline, 'moment': MomentumTimeline}[case['line']]
    rec.label(case['alg'], case['line'], case['via'])
    if case['via'] == 'pipeline':
        # the lags of these dependencies are not kept by the pipeline
        proj = dict(proj, edges=[[p, c, 0 if t == 'FFS' else lag, t] for p, c, lag, t in proj['edges']])
    with sut('crash'):
        wg, cons, spec, land = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj), c21.landscape(case)
        n = len(proj['blocks']) + 2
        where = range(0) if case['none'] else area(case, n)
        s = sched.make(case['alg'], case['seed'])
        own = s._timeline_type is line
        if case['via'] == 'pipeline':
            p = SchedulingPipeline.create().wg(wg).contractors(cons).spec(spec).landscape(land).time_shift(at)
            if case['swap']:
                p = p.optimize_local(SwapOrderLocalOptimizer(), where)
            q = p.schedule(s)
            before = oracle.flatten(q.finish()[0].raw_schedule)
            one = ParallelizeScheduleLocalOptimizer(line)
            q = q.optimize_local(one, where)
            if case['twice']:
                q = q.optimize_local(one, where)
            sd = oracle.flatten(q.finish()[0].raw_schedule)
        else:
            [(sch, _, _, order)] = s.schedule_with_cache(wg, cons, spec, assigned_parent_time=at, landscape=land)
            before = oracle.flatten(sch)
            sworks = {wg[i]: x['obj'] for i, x in before.items()}
            one = ParallelizeScheduleLocalOptimizer(line)
            for _ in range(2 if case['twice'] else 1):
                sworks = one.optimize(sworks, order, cons, land, spec, get_worker_contractor_pool(cons), s.work_estimator, at, where)
            sd = oracle.flatten(Schedule.from_scheduled_works(sworks.values(), wg))
    changed = {i for i in sd if sorted(before[i]['team']) != sorted(sd[i]['team'])}
    rec.nontrivial(bool(changed))
    if changed:
        rec.label('changed')
    oracle.everything(proj, sd, at=case['at'])
    oracle.independent(proj, sd)
    c21.check(dict(case, proj=proj), sd)
    require(all(before[i]['contractor'] == sd[i]['contractor'] for i in sd), 'contractor', 'a work went to another contractor')
    if case['none']:
        require(not changed, 'outside', lambda: f'teams of {changed} changed, nothing was to be optimized')
        if own:
            a = {i: (x['st'], x['ft']) for i, x in before.items()}
            b = {i: (x['st'], x['ft']) for i, x in sd.items()}
            require(a == b, 'recalculated', lambda: f'with the same teams the times became {[(i, a[i], b[i]) for i in a if a[i] != b[i]][:4]}')


SUBS = [Sub('swap', swap_case(), run_swap, quick=1500, thorough=25000),
        Sub('parallelize', par_case(), run_par, quick=900, thorough=12000)]
