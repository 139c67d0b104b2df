"""Serialization round trips."""
import copy
import json
import os
import pickle
import shutil
import tempfile

from hypothesis import strategies as st

from vf import drive, gen, oracle, plan, sched
from vf.core import Sub, sut, require

PROPERTY = 'C14'
RULE = ('A case is a random object (work with every kind of requirement, graph with all edge types, contractors, schedule, '
        'scheduled project, plain data of an automatic subclass) sent through one of the routes dict, JSON text, file, '
        'pickle, dill, deep copy. Non-trivial: at least one dependency with a lag, a non-default field, or text outside ASCII.')
ASSUMPTIONS = ['Fields documented as ignored by serialization (materials, equipment and object of a scheduled work, productivity '
               'of workers, raw graph and schedule of a project) are not compared; names of work types are JSON-able.',
               'Edge types SS/FF are used only in graphs that are merely stored.']

text = st.one_of(st.sampled_from(['', 'a', 'работа', 'x,y;"z"', "q'uote", 'line\nbreak', '№ 5 / b\\c', '{}', '日本']), st.text(max_size=6))
ROUTES = ['dict', 'text', 'file', 'pickle', 'dill', 'deepcopy']


def wu_data(draw):
    kinds = draw(st.lists(st.sampled_from(gen.KINDS), unique=True, max_size=3))
    return {'workers': [[k, draw(st.integers(0, 60)), draw(st.integers(0, 4)), draw(st.integers(4, 9)), draw(text)] for k in kinds],
            'equip': [[draw(text), draw(st.integers(0, 9)), draw(st.one_of(st.none(), text))] for _ in range(draw(st.integers(0, 2)))],
            'objs': [[draw(text), draw(st.integers(0, 9)), draw(st.one_of(st.none(), text))] for _ in range(draw(st.integers(0, 2)))],
            'mats': [[draw(text), draw(st.integers(0, 90)), draw(st.one_of(st.none(), text))] for _ in range(draw(st.integers(0, 2)))],
            'zones': [[draw(text), draw(st.integers(0, 2)), draw(st.one_of(st.none(), text))] for _ in range(draw(st.integers(0, 2)))],
            'descr': draw(text), 'group': draw(text), 'prio': draw(st.integers(0, 9)), 'svc': draw(st.booleans()),
            'vol': draw(st.one_of(st.integers(0, 100), st.floats(0, 1e6, allow_nan=False))), 'display': draw(text),
            'model': draw(st.one_of(text, st.dictionaries(st.sampled_from(['a', 'b', 'тип', 'measurement']),
                                                          st.one_of(text, st.integers(-5, 5), st.booleans(), st.none(),
                                                                    st.lists(st.integers(0, 3), max_size=2)),
                                                          max_size=3).map(lambda d: dict(d, granular_name='gn'))))}


@st.composite
def wu_case(draw):
    return {'wu': wu_data(draw), 'id': draw(text), 'route': draw(st.sampled_from(ROUTES))}


def build_wu(wid, d):
    from sampo.schemas.requirements import (WorkerReq, EquipmentReq, MaterialReq, ConstructionObjectReq, ZoneReq)
    from sampo.schemas.time import Time
    from sampo.schemas.works import WorkUnit
    return WorkUnit(wid, copy.deepcopy(d['model']), [WorkerReq(k, Time(v), lo, hi, n) for k, v, lo, hi, n in d['workers']],
                    [EquipmentReq(*x) for x in d['equip']], [MaterialReq(*x) for x in d['mats']],
                    [ConstructionObjectReq(*x) for x in d['objs']], [ZoneReq(*x) for x in d['zones']], d['descr'], d['group'],
                    d['prio'], d['svc'], d['vol'], d['display'])


def wu_view(w):
    return {'id': w.id, 'model': copy.deepcopy(w.model_name),
            'workers': [(type(r).__name__, r.kind, type(r.volume).__name__, r.volume.value, r.min_count, r.max_count, r.name) for r in w.worker_reqs],
            'equip': [(type(r).__name__, r.kind, r.count, r.name) for r in w.equipment_reqs],
            'objs': [(type(r).__name__, r.kind, r.count, r.name) for r in w.object_reqs],
            'mats': [(type(r).__name__, r.kind, r.count, r.name) for r in w.material_reqs],
            'zones': [(type(r).__name__, r.kind, r.required_status, r.name) for r in w.zone_reqs],
            'descr': w.description, 'group': w.group, 'prio': w.priority, 'svc': w.is_service_unit,
            'vol': (type(w.volume).__name__, w.volume), 'display': w.display_name, 'repr': repr(w)}


def send(obj, route):
    """-> the object after the trip; checks that the representation is JSON, not changed by loading, and stable."""
    cls = type(obj)
    if route == 'pickle':
        return pickle.loads(pickle.dumps(obj))
    if route == 'dill':
        import dill
        return dill.loads(dill.dumps(obj))
    if route == 'deepcopy':
        return copy.deepcopy(obj)
    if route == 'text':
        return cls.loads(obj.dumps())
    if route == 'file':
        d = tempfile.mkdtemp(prefix='vf-c14-')
        try:
            obj.dump(d, 'item')
            require(os.listdir(d) == ['item.json'], 'file', f'dump made {os.listdir(d)}')
            return cls.loadf(d, 'item')
        finally:
            shutil.rmtree(d)
    rep = obj.dumpd()
    before = json.dumps(rep, sort_keys=True)
    first = cls.loadd(rep)
    require(json.dumps(rep, sort_keys=True) == before, 'load-changes-input', 'loading changed the representation it was given')
    again = cls.loadd(rep)
    del first
    return again


def diff(a, b):
    if isinstance(a, dict):
        return {k: (a.get(k), b.get(k)) for k in {*a, *b} if a.get(k) != b.get(k)}
    return [(x, y) for x, y in zip(a, b) if x != y][:3] or (len(a), len(b))


def same(what, a, b):
    require(a == b, 'round-trip', lambda: f'{what}: {str(diff(a, b))[:700]}')


def run_wu(case, rec):
    with sut('crash'):
        w = build_wu(case['id'], case['wu'])
        before = wu_view(w)
        back = send(w, case['route'])
    same('work unit via ' + case['route'], before, wu_view(back))
    same('original work unit', before, wu_view(w))
    rec.label(case['route'])
    rec.nontrivial(any(case['wu'][k] for k in ('workers', 'equip', 'objs', 'mats', 'zones')))


# ------------------------------------------------------------------------------------------------------------ graphs

@st.composite
def wg_case(draw):
    proj = draw(gen.works_and_edges(wide=True, min_works=1, max_works=10, edge_types=('FS', 'FS', 'FFS', 'SS', 'FF')))
    n = len(proj['works'])
    for e in proj['edges']:
        if e[2] and draw(st.booleans()):
            e[2] += draw(st.sampled_from([0.5, 0.25, -0.9]))
    return {'proj': proj, 'units': [wu_data(draw) if draw(st.integers(0, 3)) == 0 else None for _ in range(n)],
            'names': draw(st.lists(text, min_size=n, max_size=n)), 'route': draw(st.sampled_from(ROUTES))}


def wg_view(wg):
    nodes = {n.id: (wu_view(n.work_unit), [(e.start.id, e.lag, e.type.value, e.finish.id) for e in n.edges_to],
                    sorted((e.finish.id, e.lag, e.type.value) for e in n.edges_from),
                    [p.id for p in n.parents], sorted(c.id for c in n.children)) for n in wg.nodes}
    return {'nodes': nodes, 'count': (wg.vertex_count, len(wg.nodes), len(wg.dict_nodes)), 'ends': (wg.start.id, wg.finish.id)}


def run_wg(case, rec):
    from sampo.schemas.graph import GraphNode, EdgeType, WorkGraph, get_start_stage, get_finish_stage
    proj = case['proj']
    nodes = []
    with sut('crash'):
        for i, w in enumerate(proj['works']):
            unit = build_wu(w['id'] + case['names'][i], case['units'][i]) if case['units'][i] else None
            if unit is None:
                one = dict(proj, works=[w], edges=[])
                unit = gen.build_works(one)[0].work_unit
            nodes.append(GraphNode(unit, [(nodes[p], lag, EdgeType(t)) for p, c, lag, t in proj['edges'] if c == i]))
        start = get_start_stage('s')
        for n in nodes:
            if not n.parents:
                n.add_parents([(start, 0, EdgeType.FinishStart)])
        wg = WorkGraph(start, get_finish_stage([n for n in nodes if not n.children], 'f'))
        before = wg_view(wg)
        back = send(wg, case['route'])
        view = wg_view(back)
        twice = wg_view(send(back, case['route']))
    for k in ('count', 'ends'):
        same(f'graph {k} via {case["route"]}', before[k], view[k])
    same('graph via ' + case['route'], before['nodes'], view['nodes'])
    same('graph twice via ' + case['route'], before['nodes'], twice['nodes'])
    same('original graph', before['nodes'], wg_view(wg)['nodes'])
    order = {n.id: i for i, n in enumerate(back.nodes)}
    require(all(order[p.id] < order[n.id] for n in back.nodes for p in n.parents), 'order', 'loaded nodes are not in topological order')
    rec.label(case['route'])
    rec.nontrivial(any(e[2] for e in proj['edges']))


# ------------------------------------------------------------------------- contractors, schedules, projects, reuse

@st.composite
def sch_case(draw):
    c = draw(drive.job(['heft', 'heft_between', 'lft', 'topological'], max_works=14,
                       spec=draw(st.sampled_from([None, dict(times=True)]))))
    return dict(c, route=draw(st.sampled_from(ROUTES)), zones=draw(st.booleans()), names=draw(st.lists(text, min_size=20, max_size=20)),
                equip=draw(st.lists(st.tuples(text, st.integers(0, 9)), max_size=2)))


def con_view(c):
    return {'id': c.id, 'name': c.name, 'workers': [(k, w.id, w.name, w.count, w.contractor_id, w.cost_one_unit, w.get_cost())
                                                    for k, w in c.workers.items()],
            'equip': {k: (e.id, e.name, e.count) for k, e in c.equipments.items()}, 'hash': hash(c)}


def sch_view(s):
    return [(w.id, copy.deepcopy(w.model_name), w.display_name, w.is_service_unit, w.volume, w.priority, w.contractor, w.contractor_id,
             w.start_time.value, w.finish_time.value, type(w.start_time).__name__, w.duration.value, w.cost,
             [(x.id, x.name, x.count, x.contractor_id, x.cost_one_unit) for x in w.workers],
             [(z.name, z.from_status, z.to_status, z.start_time.value, z.end_time.value) for z in w.zones_pre],
             [(z.name, z.from_status, z.to_status, z.start_time.value, z.end_time.value) for z in w.zones_post]) for w in s.works]


def run_sch(case, rec):
    from sampo.schemas.project import ScheduledProject
    from sampo.schemas.resources import Equipment
    from sampo.schemas.time import Time
    from sampo.schemas.zones import ZoneTransition
    proj = case['proj']
    route = case['route']
    for c, name in zip(proj['contractors'], case['names']):
        c['name'] = name
    for w, name in zip(proj['works'], case['names'][5:]):
        w['display'] = name
    rec.label(route)
    with sut('crash'):
        wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
        for i, (name, n) in enumerate(case['equip']):
            cons[0].equipments[name] = Equipment(f'e{i}', name, n, cons[0].id)
        views = [con_view(c) for c in cons]
        cons2 = [send(c, route) for c in cons]
    same('contractors', views, [con_view(c) for c in cons2])
    same('original contractors', views, [con_view(c) for c in cons])
    with sut('crash'):
        sch = sched.make(case['alg'], case['seed']).schedule(wg, cons, spec=spec, start_time=Time(case['at']))[0]
        if case['zones']:
            for i, w in enumerate(sch.works):
                w.zones_pre = [ZoneTransition(f'z{j}', j, i, Time(i), Time(i + j)) for j in range(i % 3)]
                w.zones_post = [ZoneTransition('дверь', 0, i, Time(0), Time(i))] if i % 4 == 0 else []
        before = sch_view(sch)
        back = send(sch, route)
        frame = list(sch.full_schedule_df.columns), sch.full_schedule_df.drop(columns='scheduled_work_object').values.tolist()
        frame2 = list(back.full_schedule_df.columns), back.full_schedule_df.drop(columns='scheduled_work_object').values.tolist()
        ends = sch.execution_time.value, back.execution_time.value
    same('schedule via ' + route, before, sch_view(back))
    same('original schedule', before, sch_view(sch))
    require(ends[0] == ends[1], 'round-trip', f'execution time {ends}')
    drop = frame[0].index('idx')
    require(frame[0] == frame2[0] and [r[:drop] + r[drop + 1:] for r in frame[1]] == [r[:drop] + r[drop + 1:] for r in frame2[1]],
            'round-trip', 'the table of the loaded schedule differs')
    with sut('crash'):
        full = ScheduledProject(wg, wg, cons, sch)
        united = sch_view(full.schedule)
        p2 = ScheduledProject.loads(full.dumps()) if route in ('pickle', 'dill', 'deepcopy') else send(full, route)
    same('schedule of the project', united, sch_view(p2.schedule))
    same('graph of the project', wg_view(wg), wg_view(p2.wg))
    same('contractors of the project', views, [con_view(c) for c in p2.contractors])
    # loaded things can be used like the originals
    with sut('crash'):
        again = sched.make(case['alg'], case['seed']).schedule(p2.wg, p2.contractors, spec=spec, start_time=Time(case['at']))[0]
    oracle.everything(proj, oracle.flatten(again), at=case['at'])
    rec.nontrivial(case['zones'] or any(e[2] for e in proj['edges']))


# ------------------------------------------------------------------------------------------------- automatic classes

leaf = st.one_of(st.integers(-10 ** 6, 10 ** 6), st.floats(-1e9, 1e9, allow_nan=False), text, st.booleans(), st.none(),
                 st.lists(st.integers(0, 5), max_size=3), st.dictionaries(st.sampled_from('abc'), st.integers(0, 5), max_size=2))


@st.composite
def auto_case(draw):
    fields = {}
    for i in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['plain', 'plain', 'time', 'int64', 'int32', 'array', 'array2', 'req', 'interval', 'frame']))
        val = {'plain': leaf, 'time': st.integers(-2 * 10 ** 9, 2 * 10 ** 9), 'int64': st.integers(-2 ** 62, 2 ** 62),
               'int32': st.integers(-2 ** 31, 2 ** 31 - 1), 'array': st.lists(st.integers(-99, 99), max_size=4),
               'array2': st.lists(st.lists(st.floats(-9, 9), min_size=2, max_size=2), min_size=1, max_size=3),
               'req': st.integers(0, 99), 'interval': st.tuples(st.integers(0, 9), st.integers(10, 20)).map(list),
               'frame': st.lists(st.tuples(st.integers(0, 9), st.sampled_from(['p', 'q', 'ё'])).map(list), min_size=1, max_size=3)}[kind]
        fields[f'f{i}'] = [kind, draw(val)]
    return {'fields': fields, 'route': draw(st.sampled_from(['dict', 'text', 'file']))}


def run_auto(case, rec):
    import numpy as np
    import pandas as pd
    from sampo.schemas.requirements import ZoneReq
    from sampo.schemas.serializable import AutoJSONSerializable
    from sampo.schemas.time import Time

    class Holder(AutoJSONSerializable['Holder']):
        def __init__(self, **kw):
            self.__dict__.update(kw)

    make = {'plain': lambda v: v, 'time': Time, 'int64': np.int64, 'int32': np.int32, 'array': np.array, 'array2': np.array,
            'req': lambda v: ZoneReq(str(v), v), 'interval': lambda v: ZoneReq('i', v[0], str(v[1])),
            'frame': lambda v: pd.DataFrame(v, columns=['x', 'y'])}

    def view(h):
        out = {}
        for f, (kind, _) in case['fields'].items():
            v = getattr(h, f)
            if kind in ('array', 'array2'):
                v = (type(v).__name__, v.tolist())
            elif kind == 'time':
                v = (type(v).__name__, v.value)
            elif kind == 'frame':
                v = (type(v).__name__, v[['x', 'y']].values.tolist())
            else:
                v = (type(v).__name__, v)
            out[f] = v
        return out

    with sut('crash'):
        h = Holder(**{f: make[k](copy.deepcopy(v)) for f, (k, v) in case['fields'].items()})
        before = view(h)
        back = send(h, case['route'])
    same('automatic class', before, view(back))
    same('original', before, view(h))
    rec.label(*[k for k, _ in case['fields'].values()])
    rec.nontrivial(any(k != 'plain' for k, _ in case['fields'].values()))


SUBS = [Sub('work', wu_case(), run_wu, quick=1200, thorough=20000),
        Sub('graph', wg_case(), run_wg, quick=600, thorough=10000),
        Sub('schedule', sch_case(), run_sch, quick=400, thorough=6000),
        Sub('auto', auto_case(), run_auto, quick=600, thorough=8000)]
