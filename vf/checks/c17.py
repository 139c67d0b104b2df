"""The schedule object: its table, its order, its merged views."""
from collections import Counter
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vf import drive, gen, oracle, plan, sched
from vf.checks.c15 import build as build_wg, graph, stages_of, SEP
from vf.core import Sub, sut, require

PROPERTY = 'C17'
RULE = ('A case is a set of scheduled works, of a scheduler or made up, put into a schedule in a random order, or the schedule of a '
        'restructured graph whose stages are united. Non-trivial: several works start together, or a work has stages.')
ASSUMPTIONS = ['Works of a schedule made with a graph start no earlier than their predecessors do.',
               'Names and ids of works do not contain the separator of stages.']


@st.composite
def table_case(draw):
    proj = draw(gen.project(min_works=1, max_works=12, edge_types=('FS', 'FFS', 'FS')))
    for w in proj['works']:
        w['model'] = {'granular_name': draw(st.sampled_from(['dig', 'wall', 'roof', 'b', 'ы'])), 'measurement': draw(st.sampled_from(['m', 'pcs']))}
        if draw(st.integers(0, 3)) == 0:
            w['model'][draw(st.sampled_from(['floor', 'Type', 'zone no']))] = draw(st.sampled_from([1, 'x', None]))
        w['display'] = draw(st.sampled_from(['', 'A', 'B', 'Ы', 'a']))
    return {'proj': proj, 'plan': plan.draws(draw, proj), 'shuffle': draw(st.permutations(list(range(len(proj['works']) + 2)))),
            'graph': draw(st.booleans()), 'zero': draw(st.booleans()), 'at': draw(st.sampled_from([0, 3])),
            'date': draw(st.sampled_from(['2022-01-01', '2024-02-20', '2019-12-31'])), 'real': draw(st.booleans())}


def row_of(df, i):
    return {c: df.iloc[i][c] for c in df.columns}


def expected(w):
    s, f = w.start_time.value, w.finish_time.value
    d = {'task_id': w.id, 'task_name': w.display_name, 'contractor': w.contractor, 'cost': w.cost, 'volume': w.volume, 'start': s, 'finish': f,
         'duration': f - s, 'workers': repr(dict((x.name, x.count) for x in w.workers))}
    d.update(w.model_name)
    return d


def same_row(row, want, what):
    for k, v in want.items():
        got = row[k]
        ok = got == v or ((v is None or v != v) and (got is None or got != got))
        require(ok, 'table', lambda: f'{what}: column {k} holds {got!r}, the work has {v!r}')


def run_table(case, rec):
    from sampo.schemas.schedule import Schedule
    proj = case['proj']
    if case['zero']:
        for w in proj['works']:
            for r in w['reqs']:
                r[1] = 0
    rows = plan.make(proj, case['plan'], case['at'])
    with sut('crash'):
        wg, cons = gen.build_wg(proj), gen.build_contractors(proj)
        works = [plan.swork(wg, cons, wid, r) for wid, r in rows.items()]
        works = [works[i] for i in case['shuffle']]
        s = Schedule.from_scheduled_works(list(works), wg if case['graph'] else None)
        df = s.full_schedule_df
    order = list(s.works)
    require(Counter(map(id, order)) == Counter(map(id, works)), 'works', 'works were lost, repeated or replaced')
    if not case['graph']:
        require([w.id for w in order] == [w.id for w in works], 'order', 'without a graph the given order is not kept')
    else:
        starts = [w.start_time.value for w in order]
        require(starts == sorted(starts), 'order', f'not ordered by start: {starts}')
        at = {w.id: i for i, w in enumerate(order)}
        for n in wg.nodes:
            for p in n.parents:
                require(at[p.id] < at[n.id], 'order', f'{n.id} stands before its predecessor {p.id}: {[w.id for w in order]}')
        require(s.execution_time == max(w.finish_time.value for w in works), 'execution-time',
                f'{s.execution_time} but the last work ends at {max(w.finish_time.value for w in works)}')
    require(len(df) == len(works), 'table', f'{len(df)} rows for {len(works)} works')
    for i, w in enumerate(order):
        same_row(row_of(df, i), expected(w), f'row {i} ({w.id})')
    d = s.to_schedule_work_dict
    require(set(d) == {w.id for w in works} and all(d[w.id] is w for w in works), 'dict', 'to_schedule_work_dict')
    with sut('crash'):
        pure = s.pure_schedule_df
        real = [w for w in order if not w.is_service_unit]
        require(list(pure['task_id']) == [w.id for w in real], 'pure', f'{list(pure["task_id"])}, not {[w.id for w in real]}')
        for i, w in enumerate(real):
            same_row(row_of(pure, i), expected(w), f'pure row {i} ({w.id})')
        before = [{c: v for c, v in row_of(df, i).items()} for i in range(len(df))]
        off = datetime.strptime(case['date'], '%Y-%m-%d')
        dated = s.merged_stages_datetime_df(off if case['real'] else case['date'])
        united = s.unite_stages()
    for i in range(len(df)):
        same_row(row_of(s.full_schedule_df, i), before[i], f'row {i} after merging')
    at = {r['task_id']: r for r in (row_of(dated, i) for i in range(len(dated)))}
    require(len(dated) == len(works) and set(at) == {w.id for w in works}, 'dated', f'{sorted(at)}')
    for w in works:
        want = expected(w)
        want['start'], want['finish'] = off + timedelta(days=want['start']), off + timedelta(days=want['finish'])
        same_row(at[w.id], want, f'dated row {w.id}')
    keys = [(r['start'], r['task_name']) for r in (row_of(dated, i) for i in range(len(dated)))]
    require(keys == sorted(keys), 'dated', 'not ordered by start and name')
    unchanged(works, united)
    rec.nontrivial(len({w.start_time.value for w in works}) < len(works) - 1)
    rec.label('graph' if case['graph'] else 'no-graph')


def unchanged(works, united):
    """Works without stages are the same after uniting."""
    got = {w.id: w for w in united.works}
    require(set(got) == {w.id for w in works} and len(got) == len(list(united.works)), 'united', f'{sorted(got)}')
    for w in works:
        a, b = expected(w), expected(got[w.id])
        require(a == b, 'united', lambda: f'{w.id}: {a} became {b}')
        require([(x.name, x.count, x.contractor_id) for x in w.workers] == [(x.name, x.count, x.contractor_id) for x in got[w.id].workers],
                'united', f'{w.id}: team {got[w.id].workers}')
        require((w.contractor_id, w.priority, w.is_service_unit) == (got[w.id].contractor_id, got[w.id].priority, got[w.id].is_service_unit),
                'united', f'{w.id}: contractor, priority or kind changed')


# --------------------------------------------------------------------------------------------------- stages are united

@st.composite
def stage_case(draw):
    c = draw(graph(extras=False))
    c['proj']['contractors'] = draw(gen.contractor_list(c['proj']))
    c['proj']['spec'] = {}
    for w in c['proj']['works']:
        if draw(st.integers(0, 2)) == 0:
            w['display'] = draw(st.sampled_from(['A', 'B', 'Ы']))
    return dict(c, alg=draw(st.sampled_from(['heft', 'lft', 'topological'])), seed=draw(st.integers(0, 9)), at=draw(st.sampled_from([0, 4])))


def run_stages(case, rec):
    from sampo.schemas.project import ScheduledProject
    from sampo.schemas.time import Time
    from sampo.structurator import graph_restructuring
    proj = case['proj']
    with sut('crash'):
        wg = build_wg(case)
        new = graph_restructuring(wg, use_lag_edge_optimization=case['lags'])
        cons = gen.build_contractors(proj)
        s = sched.make(case['alg'], case['seed']).schedule(new, cons, start_time=Time(case['at']))[0]
        raw = [dict(expected(w), team=[(x.name, x.count, x.contractor_id) for x in w.workers]) for w in s.works]
        project = ScheduledProject(wg, new, cons, s)
        dated = s.merged_stages_datetime_df('2022-03-01')
    again = [dict(expected(w), team=[(x.name, x.count, x.contractor_id) for x in w.workers]) for w in project.raw_schedule.works]
    require(raw == again, 'raw-changed', 'uniting stages changed the raw schedule')
    require(project.wg is wg and project.raw_wg is new and project.raw_schedule is s, 'project', 'the parts of the project')
    raw = {r['task_id']: r for r in raw}
    got = {w.id: w for w in project.schedule.works}
    require(set(got) == {n.id for n in wg.nodes} and len(list(project.schedule.works)) == len(got), 'united', f'{sorted(got)}')
    dates = {r['task_id']: r for r in (row_of(dated, i) for i in range(len(dated)))}
    require(set(dates) == set(got), 'dated', f'{sorted(dates)}')
    rows = {r['task_id']: r for r in (row_of(project.schedule.full_schedule_df, i) for i in range(len(got)))}
    many = False
    for n in wg.nodes:
        parts = [raw[x.id] for x in stages_of(new, n.id)]
        many |= len(parts) > 1
        w = got[n.id]
        lo, hi = min(p['start'] for p in parts), max(p['finish'] for p in parts)
        require((w.start_time.value, w.finish_time.value) == (lo, hi), 'united', f'{n.id} runs {lo}..{hi}, united {w.start_time}..{w.finish_time}')
        require(abs(w.cost - sum(p['cost'] for p in parts)) < 1e-6, 'united-cost', f'{n.id}: {w.cost}, its stages cost {[p["cost"] for p in parts]}')
        require(abs(w.volume - n.work_unit.volume) < 1e-6 * max(1, w.volume), 'united-volume', f'{n.id}: {w.volume}, not {n.work_unit.volume}')
        require((w.display_name, w.model_name['granular_name'], w.contractor) ==
                (n.work_unit.display_name, n.work_unit.model_name['granular_name'], parts[0]['contractor']), 'united',
                f'{n.id}: {w.display_name!r}, {w.model_name}, {w.contractor!r}')
        require([(x.name, x.count, x.contractor_id) for x in w.workers] == parts[-1]['team'], 'united', f'{n.id}: {w.workers}')
        same_row(rows[n.id], expected(w), f'united row {n.id}')
        d = dates[n.id]
        base = datetime(2022, 3, 1)
        want = {'start': base + timedelta(days=lo), 'finish': base + timedelta(days=hi), 'duration': hi - lo, 'cost': w.cost, 'volume': w.volume,
                'task_name': w.display_name}
        for k, v in want.items():
            near = abs(d[k] - v) < 1e-6 if isinstance(v, float) else d[k] == v
            require(near, 'dated', f'{n.id}: {k} is {d[k]}, not {v}')
    require(project.schedule.execution_time == s.execution_time, 'execution-time', f'{project.schedule.execution_time}, raw {s.execution_time}')
    rec.nontrivial(many)
    rec.label(case['alg'], 'stages' if many else 'whole')


SUBS = [Sub('table', table_case(), run_table, quick=500, thorough=8000),
        Sub('stages', stage_case(), run_stages, quick=400, thorough=6000)]
