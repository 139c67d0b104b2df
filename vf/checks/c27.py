"""The pipeline: the same schedule as preparing, restructuring and scheduling by hand."""
import os
import tempfile

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks import c15, c21, c22
from vf.core import Sub, sut, require

PROPERTY = 'C27'
RULE = ('One case is a random project (with dependencies of all types; or as a table; or with zones, specification and time shift), a '
        'scheduler with a seed and the settings of the pipeline. Non-trivial: the graph is really restructured, somebody lacks workers, '
        'contractors are generated, or the setting exercised makes a difference.')
ASSUMPTIONS = ['Specifications name only works that restructuring leaves whole.',
               'With automatic lag optimization either of two schedules of the same length may be returned.']
ALGS = ['heft', 'heft_between', 'topological', 'lft', 'rand_topological', 'rand_lft', 'genetic']


def rows(sch):
    sd = oracle.flatten(sch)
    return {i: (s['st'], s['ft'], s['contractor'], sorted(s['team']), [str(z) for z in s['obj'].zones_pre]) for i, s in sd.items()}


def same(got, want, what):
    a, b = rows(got), rows(want)
    require(a == b, what, lambda: 'the pipeline returns another schedule: ' + str({k: (a.get(k), b.get(k)) for k in set(a) | set(b)
                                                                                    if a.get(k) != b.get(k)})[:900])


def united(wg, pr, raw):
    """the schedule of the project: whole works"""
    sd = oracle.flatten(pr.schedule)
    require(set(sd) == set(wg.dict_nodes), 'united', lambda: f'works of the schedule of the project: {set(sd) ^ set(wg.dict_nodes)}')
    for n in wg.nodes:
        ss = [raw[s.id] for s in c15.stages_of(pr.raw_wg, n.id)]
        s = sd[n.id]
        want = (ss[0]['st'], ss[-1]['ft'], ss[0]['contractor'], sorted(ss[0]['team']))
        require((s['st'], s['ft'], s['contractor'], sorted(s['team'])) == want, 'united', lambda: f'{n.id}: {s}, by its stages {want}')
        o = s['obj']
        vol, cost = sum(x['obj'].volume for x in ss), sum(x['obj'].cost for x in ss)
        require(abs(o.volume - vol) <= 1e-6 * max(1, vol) and abs(o.cost - cost) <= 1e-6 * max(1, cost), 'united',
                lambda: f'{n.id}: volume {o.volume}, cost {o.cost}; by its stages {vol}, {cost}')
        require(o.display_name == (n.work_unit.display_name or n.work_unit.name), 'united', lambda: f'{n.id} is shown as {o.display_name!r}, named {n.work_unit.display_name!r}')


def flat_lags(proj):
    """without lag optimization the lags of finish-finish-start dependencies are zero"""
    return dict(proj, edges=[[p, c, 0 if t == 'FFS' else lag, t] for p, c, lag, t in proj['edges']])


# ------------------------------------------------------------------------------------------------------- lag optimization

@st.composite
def lag_case(draw):
    c = draw(c15.graph(extras=False))
    c['proj']['contractors'] = draw(gen.contractor_list(c['proj']))
    split = {i for p, k, _, t in c['proj']['edges'] for i in (p, k) if t not in ('FS', 'IFS')}
    c['proj']['spec'] = draw(gen.spec_for(c['proj'], c['proj']['contractors'], times=True)) if draw(st.booleans()) else {}
    blocks = {c['proj']['works'][b[0]]['id']: b for b in c['proj']['blocks']}
    c['proj']['spec'] = {w: e for w, e in c['proj']['spec'].items() if not split & set(blocks[w])}
    if draw(st.integers(0, 3)) == 0:      # priorities that contradict the dependencies
        for w in c['proj']['works']:
            w['prio'] = draw(st.integers(0, 4))
    return dict(c, alg=draw(st.sampled_from(ALGS)), seed=draw(st.integers(0, 9)), how=draw(st.sampled_from(['default', 'FALSE', 'TRUE', 'AUTO', 'AUTO'])),
                at=draw(st.sampled_from([0, 0, 5])), validate=draw(st.booleans()))


def run_lag(case, rec):
    from sampo.pipeline import SchedulingPipeline
    from sampo.pipeline.lag_optimization import LagOptimizationStrategy
    from sampo.schemas.time import Time
    from sampo.structurator import graph_restructuring
    proj, how = case['proj'], case['how']
    if how == 'AUTO' and (case['alg'].startswith('rand') or case['alg'] == 'genetic'):      # one source of randomness for both
        how = 'TRUE'
    rec.label(how, case['alg'])

    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
    from sampo.scheduler.utils.local_optimization import ScheduleLocalOptimizer
    seen = []

    class Look(ScheduleLocalOptimizer):
        def optimize(self, scheduled_works, node_order, *args):
            seen.append([n.id for n in node_order])
            require(all(n in scheduled_works for n in node_order), 'order', 'the order given to the optimizer is not of the graph scheduled')
            return scheduled_works

    def scheduler():
        return sched.make(case['alg'], case['seed'], 1, 4)
    with sut('crash'):
        wg, cons = c15.build(case), gen.build_contractors(proj)
        p = SchedulingPipeline.create().wg(wg).contractors(cons).spec(gen.build_spec(proj)).time_shift(Time(case['at']))
        if how != 'default':
            p = p.lag_optimize(LagOptimizationStrategy[how])
        projects = p.schedule(scheduler(), validate=case['validate']).optimize_local(Look(JustInTimeTimeline), range(0, 3)).finish()
    options = {}
    wg2, cons2 = c15.build(case), gen.build_contractors(proj)
    given = {n.id: n.work_unit.priority for n in wg2.nodes}
    for i, v in c15.corrected(wg2, given).items():
        wg2[i].work_unit.priority = v
    wrong = any(n.work_unit.priority != given[n.id] for n in wg2.nodes)
    for n in wg2.nodes:
        got = wg[n.id].work_unit.priority
        require(got in (n.work_unit.priority, given[n.id]), 'priority', lambda: f'{n.id}: priority {given[n.id]} became {got}, corrected it is {n.work_unit.priority}')
    for use in {'default': (False,), 'FALSE': (False,), 'TRUE': (True,), 'AUTO': (False, True)}[how]:
        with sut('direct'):
            new = graph_restructuring(wg2, use_lag_edge_optimization=use)
            full = scheduler().schedule_with_cache(new, cons2, spec=gen.build_spec(proj), assigned_parent_time=Time(case['at']))
            options[use] = (new, [x[0] for x in full], [[n.id for n in x[3]] for x in full])
    best = min(oracle.T(s.execution_time) for _, ss, _ in options.values() for s in ss)
    require(len(projects) >= 1, 'none', 'no project returned')
    hit = None
    for use, (new, ss, orders) in options.items():
        if len(ss) == len(projects) and orders == seen and all(rows(a.raw_schedule) == rows(b) for a, b in zip(projects, ss)):
            hit = use
            require(min(oracle.T(s.execution_time) for s in ss) == best, 'auto', f'lag optimization {use} was chosen for {ss[0].execution_time}, the other takes {best}')
    if hit is None:
        same(projects[0].raw_schedule, options[max(options)][1][0], 'schedule')
        require(seen in [o for _, _, o in options.values()], 'order', lambda: f'the optimizer got the order {seen}')
        require(False, 'schedule', f'{len(projects)} schedules instead of {[len(ss) for _, ss in options.values()]}')
    new = options[hit][0]
    for pr in projects:
        require(pr.wg is wg, 'graph', 'the project holds another original graph')
        require(set(pr.raw_wg.dict_nodes) == set(new.dict_nodes), 'graph', 'the restructured graph of the project is not the one scheduled')
        require([c.id for c in pr.contractors] == [c['id'] for c in proj['contractors']], 'contractors', 'other contractors')
        raw = oracle.flatten(pr.raw_schedule)
        c15.relations(wg, pr.raw_wg, raw, proj, hit)
        united(wg, pr, raw)
    rec.label('wrong priorities' if wrong else 'right priorities')
    rec.nontrivial(wrong or len(new.nodes) > len(wg.nodes))


# --------------------------------------------------------------------------------------------------------------- settings

@st.composite
def set_case(draw):
    c = draw(c21.job(ALGS[:-1] + ['genetic'], spec=dict(contractors=True, teams=True, times=True, independent=True), big=False))
    return dict(c, orders=draw(st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20)), max_size=3)),
                nsched=draw(st.integers(0, 2)), lists=draw(st.booleans()))


def run_set(case, rec):
    """landscape, specification and time shift reach the scheduler; local optimizers are called in turn"""
    from sampo.pipeline import SchedulingPipeline
    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
    from sampo.scheduler.utils.local_optimization import OrderLocalOptimizer, ScheduleLocalOptimizer
    from sampo.schemas.time import Time
    proj = case['proj']
    log = []
    generic = case['alg'] not in ('genetic', 'lft', 'rand_lft')
    rec.label(case['alg'])

    class Order(OrderLocalOptimizer):
        """swaps two neighbours if nothing forbids it"""
        def __init__(self, k):
            self.k = k

        def optimize(self, node_order, area):
            log.append(('order', self.k, [n.id for n in node_order], area))
            out = list(node_order)
            i = 1 + self.k % max(1, len(out) - 2)
            if i + 1 < len(out) - 1:
                a, b = out[i], out[i + 1]
                free = not any(p in a.get_inseparable_chain_with_self() for n in b.get_inseparable_chain_with_self() for p in n.parents)
                if free and a.work_unit.priority == b.work_unit.priority:
                    out[i], out[i + 1] = b, a
            log.append(('made', self.k, [n.id for n in out], area))
            return out

    class Sched(ScheduleLocalOptimizer):
        def __init__(self, k):
            super().__init__(JustInTimeTimeline)
            self.k = k

        def optimize(self, scheduled_works, node_order, contractors, landscape_config, spec, worker_pool, work_estimator,
                     assigned_parent_time, area):
            log.append(('schedule', self.k, [n.id for n in node_order], area, {n.id: w.start_end_time for n, w in scheduled_works.items()},
                        [c.id for c in contractors], assigned_parent_time))
            by = Time(1 + self.k)
            for w in scheduled_works.values():
                w.start_end_time = (w.start_end_time[0] + by, w.start_end_time[1] + by)
            return scheduled_works

    with sut('crash'):
        wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
        p = SchedulingPipeline.create().wg(wg).contractors(cons).spec(spec).landscape(c21.landscape(case)).time_shift(Time(case['at']))
        for k, (a, b) in enumerate(case['orders']):
            p = p.optimize_local(Order(a), range(a, a + b))
        q = p.schedule(sched.make(case['alg'], case['seed'], 1, 4))
        for k in range(case['nsched']):
            q = q.optimize_local(Sched(k), range(k, k + 3))
        done = q.finish()
    require(len(done) == 1, 'count', f'{len(done)} projects')
    sd = oracle.flatten(done[0].schedule)
    moved = sum(1 + k for k in range(case['nsched']))
    orders = [x for x in log if x[0] in ('order', 'made')]
    scheds = [x for x in log if x[0] == 'schedule']
    if generic:
        require([(x[1], x[3]) for x in orders if x[0] == 'order'] == [(a, range(a, a + b)) for a, b in case['orders']], 'optimizers',
                lambda: f'order optimizers called: {[(x[1], x[3]) for x in orders]}, added {case["orders"]}')
        for x, y in zip(orders[1::2], orders[2::2]):
            require(x[2] == y[2], 'optimizers', f'an order optimizer returned {x[2]}, the next was given {y[2]}')
    require([(x[1], x[3]) for x in scheds] == [(k, range(k, k + 3)) for k in range(case['nsched'])], 'optimizers', 'schedule optimizers called otherwise than added')
    for k, x in enumerate(scheds):
        require(oracle.T(x[6]) == case['at'] and x[5] == [c['id'] for c in proj['contractors']], 'optimizers', 'a schedule optimizer got other settings')
        require(not (orders and generic) or x[2] == orders[-1][2], 'optimizers', 'a schedule optimizer got another order')
        off = sum(1 + j for j in range(k, case['nsched']))
        require({i: oracle.T(v[0]) for i, v in x[4].items()} == {i: s['st'] - off for i, s in sd.items()}, 'optimizers',
                'a schedule optimizer was not given the result of the last one')
    # back to what was scheduled
    for s in sd.values():
        s['st'] -= moved
        s['ft'] -= moved
    oracle.everything(flat_lags(proj), sd, split=case['alg'] == 'genetic', at=case['at'])
    oracle.independent(proj, sd)
    rec.nontrivial(c21.check(case, sd) > 0 or bool(case['orders']) or moved > 0)
    if not (generic and orders and orders[0][2] != orders[-1][2]):
        with sut('direct'):
            res = sched.make(case['alg'], case['seed'], 1, 4).schedule(gen.build_wg(flat_lags(proj)), gen.build_contractors(proj), spec=gen.build_spec(proj),
                                                                      landscape=c21.landscape(case), start_time=Time(case['at']))
        want = {i: (s['st'], s['ft'], s['contractor'], sorted(s['team'])) for i, s in oracle.flatten(res[0]).items()}
        got = {i: (s['st'], s['ft'], s['contractor'], sorted(s['team'])) for i, s in sd.items()}
        require(got == want, 'schedule', lambda: f'the pipeline returns another schedule: {[(k, got[k], want[k]) for k in got if got[k] != want[k]][:3]}')
    elif case['alg'] in ('heft', 'topological'):
        # the order made is the one scheduled: by hand
        with sut('direct'):
            s = sched.make(case['alg'], case['seed'])
            w2 = gen.build_wg(flat_lags(proj))
            sw, _, _ = s.build_scheduler([w2[i] for i in orders[-1][2]], gen.build_contractors(proj), c21.landscape(case), gen.build_spec(proj),
                                         s.work_estimator, Time(case['at']))
        want = {i: (s['st'], s['ft']) for i, s in oracle.flat_nodes(sw).items()}
        got = {i: (s['st'], s['ft']) for i, s in sd.items()}
        rec.label('reordered')
        require(got == want, 'order-used', lambda: f'not scheduled in the order made by the optimizers: {[(k, got[k], want[k]) for k in got if got[k] != want[k]][:3]}')


# ---------------------------------------------------------------------------------------------------------------- nobody

@st.composite
def nobody_case(draw):
    proj = draw(gen.project(min_works=1, max_works=6, max_contractors=3, feasible=draw(st.booleans())))
    for c in proj['contractors']:
        for k in list(c['workers']):
            cut = draw(st.integers(0, 9))
            if cut == 0:
                del c['workers'][k]
            elif cut == 1:
                c['workers'][k] = max(0, c['workers'][k] - 1)
    if draw(st.integers(0, 9)) == 0:
        proj['contractors'] = []
    return {'proj': proj, 'alg': draw(st.sampled_from(ALGS)), 'seed': 0}


def run_nobody(case, rec):
    from sampo.pipeline import SchedulingPipeline
    from sampo.schemas.exceptions import NoSufficientContractorError
    proj = case['proj']
    able = [[any(c['workers'].get(k, 0) >= lo for k, _, lo, _ in [r]) for r in w['reqs']] for w in proj['works'] for c in proj['contractors']]
    per_work = all(any(all(c['workers'].get(k, 0) >= lo for k, _, lo, _ in w['reqs']) for c in proj['contractors']) for w in proj['works'])
    per_chain = all(any(all(k in c['workers'] and c['workers'][k] >= lo for i in b for k, _, lo, _ in proj['works'][i]['reqs'])
                        for c in proj['contractors']) for b in proj['blocks'])
    with sut('crash'):
        try:
            done = SchedulingPipeline.create().wg(gen.build_wg(proj)).contractors(gen.build_contractors(proj)) \
                .schedule(sched.make(case['alg'], case['seed'], 1, 4)).finish()
        except NoSufficientContractorError:
            done = None
    rec.label('able' if per_chain else 'nobody' if not per_work else 'between')
    rec.nontrivial(not all(all(x) for x in able))
    if not per_work:
        require(done is None, 'nobody', 'a schedule though nobody can do some work')
    elif per_chain and proj['contractors']:
        require(done is not None, 'refused', 'refused though somebody can do each work')
    if done is not None:
        oracle.everything(flat_lags(proj), oracle.flatten(done[0].schedule), split=case['alg'] == 'genetic')


# ------------------------------------------------------------------------------------------------------------- contractors

@st.composite
def made_case(draw):
    return {'proj': draw(gen.works_and_edges(min_works=1, max_works=6)), 'method': draw(st.sampled_from(['MIN', 'MAX', 'AVG'])), 'n': draw(st.integers(1, 3)),
            'scale': draw(st.sampled_from([1, 1, 1.5, 2, 3])), 'given': draw(st.booleans()), 'alg': draw(st.sampled_from(ALGS)), 'seed': 0}


def run_made(case, rec):
    from sampo.generator.environment import ContractorGenerationMethod
    from sampo.pipeline import SchedulingPipeline
    proj = case['proj']
    if not case['given']:
        case = dict(case, method='AVG', n=1, scale=1)
    with sut('crash'):
        p = SchedulingPipeline.create().wg(gen.build_wg(proj))
        if case['given']:
            p = p.contractors((ContractorGenerationMethod[case['method']], case['n'], case['scale']))
        pr = p.schedule(sched.make(case['alg'], case['seed'], 1, 4)).finish()[0]
    cons = pr.contractors
    rec.nontrivial(len(cons) > 1 or case['scale'] > 1)
    require(len(cons) == case['n'] and len({c.id for c in cons}) == case['n'], 'count', f'contractors {[c.id for c in cons]}, asked for {case["n"]}')
    need = {}
    for w in proj['works']:
        for k, _, lo, hi in w['reqs']:
            need[k] = max(need.get(k, 0), {'MIN': lo, 'MAX': hi, 'AVG': (lo + hi) // 2}[case['method']])
    for c in cons:
        got = {k: w.count for k, w in c.workers.items() if w.count}
        want = {k: int(v * case['scale']) for k, v in need.items() if int(v * case['scale'])}
        require(set(got) == set(want) and all(abs(got[k] - v) <= 1 for k, v in want.items()), 'staff',
                lambda: f'{c.id}: staff {got}, {case["method"]} of the requirements times {case["scale"]} is {want}')
        for k, w in c.workers.items():
            require(w.contractor_id == c.id, 'owner', f'{c.id}: workers {k} belong to {w.contractor_id}')
    full = dict(flat_lags(proj), spec={}, contractors=[{'id': c.id, 'workers': {k: w.count for k, w in c.workers.items()}} for c in cons])
    oracle.everything(full, oracle.flatten(pr.schedule), split=case['alg'] == 'genetic')


# ----------------------------------------------------------------------------------------------------------------- tables

@st.composite
def table_case(draw):
    c = draw(c22.table(max_rows=6))
    for e in c['edges']:
        e[3] = 'FS' if e[3] == 'IFS' else e[3]      # chains of works with different teams are for nobody
    c['cols']['priority'] = c['cols']['zones'] = False
    kinds = c22.KINDS
    return dict(c, cons=draw(st.sampled_from(['frame', 'list', 'made', 'file'])), ncons=draw(st.integers(1, 2)),
                staff=[[draw(st.integers(6, 30)) for _ in kinds] for _ in range(2)], alg=draw(st.sampled_from(['heft', 'topological', 'lft', 'genetic'])),
                how=draw(st.sampled_from(['FALSE', 'TRUE', 'default'])))


def run_tables(case, rec):
    import pandas as pd
    from sampo.generator.environment import ContractorGenerationMethod, get_contractor_by_wg
    from sampo.pipeline import SchedulingPipeline
    from sampo.pipeline.lag_optimization import LagOptimizationStrategy
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker
    from sampo.structurator import graph_restructuring
    from sampo.userinput import CSVParser
    from sampo.utilities.name_mapper import DictNameMapper
    df = c22.frame(case)
    n = case['ncons']
    cdf = pd.DataFrame([{'contractor_id': f'c{i}', 'name': f'Firm {i}', **dict(zip(c22.KINDS, case['staff'][i]))} for i in range(n)])
    clist = [Contractor(f'c{i}', f'Firm {i}', {k: Worker(f'{j}', k, v, f'c{i}') for j, (k, v) in enumerate(zip(c22.KINDS, case['staff'][i]))}) for i in range(n)]
    mapper = DictNameMapper({r['name']: 'mapped ' + r['name'] for r in case['rows']}) if case['mapper'] else None
    rec.label(case['as'], case['cons'])
    rec.nontrivial(bool(case['edges']))
    with tempfile.TemporaryDirectory() as d:
        src, csrc = df, {'frame': cdf, 'list': clist, 'made': (ContractorGenerationMethod.AVG, n, 2), 'file': os.path.join(d, 'c.csv')}[case['cons']]
        if case['cons'] == 'file':
            cdf.to_csv(csrc, sep=';', index=False)
        if case['as'] == 'file':
            src = os.path.join(d, 'w.csv')
            df.to_csv(src, sep=case['sep'], index=False)
        with sut('crash'):
            p = SchedulingPipeline.create().wg(src, sep=case['sep'], all_connections=True).contractors(csrc).work_estimator(c22.estimator())
            if mapper:
                p = p.name_mapper(mapper)
            if case['how'] != 'default':
                p = p.lag_optimize(LagOptimizationStrategy[case['how']])
            pr = p.schedule(sched.make(case['alg'], 3, 1, 4)).finish()[0]
    with sut('direct'):
        info = CSVParser.read_graph_info(c22.frame(dict(case, **{'as': 'frame'})), c22.empty_history(), name_mapper=mapper, all_connections=True)
        wg = CSVParser.work_graph(info, mapper, c22.estimator())
        if case['cons'] == 'made':
            clist = [get_contractor_by_wg(wg, method=ContractorGenerationMethod.AVG, scaler=2) for _ in range(n)]
    c22.check_works(case, pr.wg, c22.estimator())
    require(c22.edges_of(pr.wg) == c22.edges_of(wg), 'edges', 'the graph of the project has other dependencies')
    require(case['cons'] == 'made' or [c.name for c in pr.contractors] == [c.name for c in clist], 'contractors', 'other contractors')
    require([{k: w.count for k, w in c.workers.items()} for c in pr.contractors] == [{k: w.count for k, w in c.workers.items()} for c in clist],
            'staff', 'contractors with other staff')
    raw = oracle.flatten(pr.raw_schedule)
    require(set(raw) == set(pr.raw_wg.dict_nodes), 'works', f'{set(raw) ^ set(pr.raw_wg.dict_nodes)}')
    proj = {'works': [{'id': r['id']} for r in case['rows']], 'edges': case['edges']}
    c15.relations(pr.wg, pr.raw_wg, raw, proj, case['how'] == 'TRUE', finish=pr.wg.finish.id)
    united(pr.wg, pr, raw)
    if case['cons'] != 'made' and case['alg'] != 'genetic':
        with sut('direct'):
            new = graph_restructuring(wg, use_lag_edge_optimization=case['how'] == 'TRUE')
            res = sched.make(case['alg'], 3, 1, 4).schedule(new, clist)
        ends = {wg.start.id, wg.finish.id, pr.wg.start.id, pr.wg.finish.id}
        a = {k: v for k, v in rows(pr.raw_schedule).items() if k not in ends}
        b = {k: v for k, v in rows(res[0]).items() if k not in ends}
        require(a == b, 'schedule', lambda: f'the pipeline returns another schedule: {[(k, a.get(k), b.get(k)) for k in a if a[k] != b.get(k)][:3]}')


# ------------------------------------------------------------------------------------------------------------ preparation

@st.composite
def prep_case(draw):
    what = draw(st.sampled_from(['table', 'graph', 'history', 'history']))
    c = {'table': c22.table(max_rows=6), 'graph': c22.graph_case(), 'history': c22.history_case()}[what]
    return {'what': what, 'of': draw(c), 'fill': draw(st.booleans()), 'fix': draw(st.booleans()), 'late': draw(st.booleans()),
            'cons': draw(st.sampled_from(['none', 'frame', 'list', 'file'])), 'staff': [draw(st.integers(0, 30)) for _ in c22.KINDS]}


def run_prep(case, rec):
    """preparation by the pipeline = reading by the parser"""
    import pandas as pd
    from sampo.pipeline.preparation import PreparationPipeline
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker
    from sampo.userinput import CSVParser
    from sampo.utilities.name_mapper import DictNameMapper
    of, what = case['of'], case['what']
    fill, fix = (case['fill'], case['fix']) if what == 'history' else (False, False)
    mapper, hist, wg = None, None, None
    if what == 'table':
        df = c22.frame(dict(of, **{'as': 'frame'} if of['as'] != 'file' else {}))
        mapper = DictNameMapper({r['name']: 'mapped ' + r['name'] for r in of['rows']}) if of['mapper'] else None
    elif what == 'graph':
        wg = gen.build_wg(of)
        df = gen.build_wg(of).to_frame(save_req=True)
    else:
        ids = [str(i) for i in range(len(of['names']))]
        df = pd.DataFrame([{'activity_id': ids[i], 'activity_name': of['names'][i], 'measurement': 'm', 'volume': 3.0,
                            'predecessor_ids': ','.join(ids[e[0]] for e in of['edges'] if e[1] == i),
                            'connection_types': ','.join(e[3] for e in of['edges'] if e[1] == i),
                            'lags': ','.join(str(e[2]) for e in of['edges'] if e[1] == i)} for i in range(len(ids))])
        hist = pd.DataFrame([{'granular_name': m, 'first_day': c22.day(s), 'last_day': c22.day(f), 'upper_works': f'site {k}'}
                             for k, site in enumerate(of['sites']) for m, s, f in site], columns=['granular_name', 'first_day', 'last_day', 'upper_works'])
    cdf = pd.DataFrame([{'contractor_id': 'c0', 'name': 'Firm 0', **dict(zip(c22.KINDS, case['staff']))}])
    clist = [Contractor('c0', 'Firm 0', {k: Worker('0', k, n, 'c0') for k, n in zip(c22.KINDS, case['staff'])})]
    rec.label(what, case['cons'], *(['fill'] if fill else []), *(['fix'] if fix else []))
    with tempfile.TemporaryDirectory() as d:
        src, csrc = wg if wg is not None else df, {'frame': cdf, 'list': clist, 'file': os.path.join(d, 'c.csv')}.get(case['cons'])
        hsrc = hist
        sep = ';'
        if case['cons'] == 'file':
            cdf.to_csv(csrc, sep=';', index=False)
        if what == 'table' and of['as'] == 'file':
            src, sep = os.path.join(d, 'w.csv'), of['sep']
            df.to_csv(src, sep=sep, index=False)
        if what == 'history' and of['file']:
            hsrc = os.path.join(d, 'h.csv')
            hist.to_csv(hsrc, sep='|', index=False)
        with sut('crash'):
            if case['late']:
                p = PreparationPipeline().wg(src)
                p = p.history(hsrc) if hist is not None else p
                p = p.contractors(csrc) if csrc is not None else p
            else:
                p = PreparationPipeline(src, hsrc, csrc)
            p = p.sep_wg(sep).sep_history('|').work_estimator(c22.estimator())
            p = p.name_mapper(mapper) if mapper else p
            p = p.fill_edges_with_history() if fill else p
            p = p.fix_edges_with_history() if fix else p
            one = p.build_wg()
            cons = None
            if csrc is not None:
                one2, cons = p.build_wg_and_contractors()
    with sut('direct'):
        info = CSVParser.read_graph_info(df, c22.empty_history() if hist is None else hist, name_mapper=mapper,
                                         all_connections=not (fill or fix), change_connections_info=fix)
        want = CSVParser.work_graph(info, mapper, c22.estimator())

    def view(g):
        ends = {g.start.id, g.finish.id}
        return c22.edges_of(g), sorted((n.id, n.work_unit.display_name, str(n.work_unit.model_name), n.work_unit.volume, n.work_unit.priority,
                                        sorted((q.kind, oracle.T(q.volume), q.min_count, q.max_count) for q in n.work_unit.worker_reqs))
                                       for n in g.nodes if n.id not in ends)
    rec.nontrivial(bool(view(want)[0]))
    for g in [one] + ([one2] if cons is not None else []):
        require(view(g) == view(want), 'preparation', lambda: f'prepared {view(g)}, read {view(want)}')
    if cons is not None:
        require([(c.id, c.name, {k: w.count for k, w in c.workers.items()}) for c in cons] == [('c0', 'Firm 0', dict(zip(c22.KINDS, case['staff'])))],
                'contractors', f'{cons}')


SUBS = [Sub('lags', lag_case(), run_lag, quick=900, thorough=12000),
        Sub('settings', set_case(), run_set, quick=700, thorough=9000),
        Sub('nobody', nobody_case(), run_nobody, quick=700, thorough=9000),
        Sub('generated', made_case(), run_made, quick=150, thorough=2000),
        Sub('tables', table_case(), run_tables, quick=350, thorough=5000),
        Sub('preparation', prep_case(), run_prep, quick=250, thorough=4000)]
