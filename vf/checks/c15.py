"""Restructuring of work graphs with start-start, finish-finish and finish-finish-start dependencies."""
import sys
from collections import Counter
from contextlib import contextmanager
from fractions import Fraction
from math import ceil

from hypothesis import strategies as st

from vf import gen, oracle, sched
from vf.checks.c14 import wg_view, wu_view, wu_data, build_wu
from vf.core import Sub, sut, require

PROPERTY = 'C15'
RULE = ('A case is a random graph with dependencies of all five types and lags, restructured with or without the use of lags. '
        'Non-trivial: at least one work is split into stages.')
ASSUMPTIONS = ['Amounts of a stage may be rounded in any way as long as they add up.']
SEP = '_stage_'


@st.composite
def graph(draw, extras=True, **kw):
    proj = draw(gen.works_and_edges(wide=True, min_works=2, max_works=10, edge_types=('FS', 'FFS', 'SS', 'FF', 'SS', 'FF'), **kw))
    vols = [w['vol'] for w in proj['works']]
    for p, c, lag, t in list(proj['edges']):
        if t in ('SS', 'FF') and draw(st.integers(0, 3)) == 0:
            proj['edges'].append([p, c, draw(st.integers(0, 9)), 'FF' if t == 'SS' else 'SS'])
    chained = {tuple(e[:2]) for e in proj['edges'] if e[3] == 'IFS'}      # an inseparable work leaves no room for another lag
    pairs = [tuple(e[:2]) for e in proj['edges'] if tuple(e[:2]) not in chained]
    if pairs and draw(st.integers(0, 4)) == 0:
        for p, c in draw(st.lists(st.sampled_from(pairs), min_size=1, max_size=3)):
            proj['edges'].append([p, c, draw(st.integers(0, 9)), draw(st.sampled_from(['FS', 'FFS', 'SS', 'FF']))])
    for e in proj['edges']:
        if e[3] in ('SS', 'FF', 'FFS'):
            k = draw(st.integers(0, 4))
            v = vols[e[0]]
            e[2] = [0, v, v / 2, v / 3, e[2]][k] if v else e[2]
        elif e[3] == 'FS' and draw(st.integers(0, 3)) == 0:
            e[2] += draw(st.sampled_from([0.5, 0.01]))
    if draw(st.integers(0, 9)) == 0:
        fan(draw, proj)
    n = len(proj['works'])
    return {'proj': proj, 'lags': draw(st.booleans()),
            'units': [wu_data(draw) if extras and draw(st.integers(0, 3)) == 0 else None for _ in range(n)]}


def fan(draw, proj):
    """one work that many others are tied to, each with its own lag"""
    base, prio = len(proj['works']), max(w['prio'] for w in proj['works'])
    kind = proj['kinds'][0]
    new = [{'id': f'x{i}', 'reqs': [[kind, draw(st.integers(1, 6)), 1, 1]], 'vol': draw(st.integers(1, 9)), 'svc': False, 'prio': prio}
           for i in range(draw(st.integers(0, 7)))]
    hub = base + len(new)
    for i in range(base, hub):
        proj['edges'].append([i, hub, draw(st.integers(0, 9)), draw(st.sampled_from(['FF', 'FFS', 'FS']))])
    vol = draw(st.integers(20, 60))
    new.append({'id': 'hub', 'reqs': [[kind, draw(st.integers(5, 40)), 1, 1]], 'vol': vol, 'svc': False, 'prio': prio})
    for i in range(hub + 1, hub + 1 + draw(st.integers(0, 13))):
        new.append({'id': f'x{i}', 'reqs': [[kind, draw(st.integers(1, 6)), 1, 1]], 'vol': draw(st.integers(1, 9)), 'svc': False, 'prio': prio})
        proj['edges'].append([hub, i, draw(st.integers(0, vol)), draw(st.sampled_from(['SS', 'SS', 'FFS']))])
    proj['works'] += new
    proj['blocks'] += [[i] for i in range(base, base + len(new))]


def build(case):
    from sampo.schemas.graph import GraphNode, EdgeType, WorkGraph, get_start_stage, get_finish_stage
    proj = case['proj']
    nodes = []
    for i, w in enumerate(proj['works']):
        if case['units'][i]:
            u = dict(case['units'][i], vol=w['vol'])
            unit = build_wu(w['id'], u)
        else:
            unit = gen.build_works(dict(proj, works=[w], edges=[]))[0].work_unit
        nodes.append(GraphNode(unit, [(nodes[p], lag, EdgeType(t)) for p, c, lag, t in proj['edges'] if c == i]))
    start = get_start_stage('start')
    for n in nodes:
        if not n.parents:
            n.add_parents([(start, 0, EdgeType.FinishStart)])
    return WorkGraph(start, get_finish_stage([n for n in nodes if not n.children], 'finish'))


def stages_of(new, wid):
    """Stages of a work, in order, by its inseparable chain; the last one carries the id of the work."""
    out = [new[wid]]
    while True:
        prev = [e.start for e in out[0].edges_to if e.type.value == 'IFS' and e.start.id.startswith(wid + SEP)]
        if not prev:
            return out
        require(len(prev) == 1 and len(out[0].edges_to) >= 1, 'stages', f'{out[0].id} has inseparable parents {prev}')
        out.insert(0, prev[0])


def amounts(unit):
    return {'workers': [oracle.T(r.volume) for r in unit.worker_reqs], 'mats': [r.count for r in unit.material_reqs],
            'equip': [r.count for r in unit.equipment_reqs], 'objs': [r.count for r in unit.object_reqs]}


def shape(unit):
    """What every stage inherits."""
    return {'model': {k: v for k, v in unit.model_name.items() if k != 'granular_name'},
            'workers': [(r.kind, r.min_count, r.max_count, r.name) for r in unit.worker_reqs],
            'mats': [(r.kind, r.name) for r in unit.material_reqs], 'equip': [(r.kind, r.name) for r in unit.equipment_reqs],
            'objs': [(r.kind, r.name) for r in unit.object_reqs],
            'zones': [(r.kind, r.required_status, r.name) for r in unit.zone_reqs], 'descr': unit.description,
            'group': unit.group, 'svc': unit.is_service_unit, 'display': unit.display_name}


def plain(wg):
    return {n.id: (shape(n.work_unit), amounts(n.work_unit), n.work_unit.volume, n.work_unit.model_name, n.work_unit.priority,
                   sorted((e.start.id, e.lag, e.type.value) for e in n.edges_to)) for n in wg.nodes}


def run(case, rec):
    from sampo.structurator import graph_restructuring
    use = case['lags']
    with sut('crash'):
        wg = build(case)
        before = wg_view(wg)
        new = graph_restructuring(wg, use_lag_edge_optimization=use)
        after = wg_view(wg)
    require(before == after, 'input-changed', lambda: 'restructuring changed the graph it was given: ' + str(
        {k: (before['nodes'][k], after['nodes'].get(k)) for k in before['nodes'] if before['nodes'][k] != after['nodes'].get(k)})[:900])
    require((new.start.id, new.finish.id) == (wg.start.id, wg.finish.id), 'ends', f'{new.start.id}, {new.finish.id}')

    # stages
    stages, where = {}, {}
    split = False
    for n in wg.nodes:
        require(n.id in new.dict_nodes, 'stages', f'work {n.id} is not in the restructured graph')
        ss = stages[n.id] = stages_of(new, n.id)
        must = any(e.type.value == 'SS' for e in n.edges_from) or any(e.type.value == 'FF' for e in n.edges_to) or \
            use and any(e.type.value == 'FFS' for e in list(n.edges_from) + list(n.edges_to))
        require((len(ss) > 1) == must, 'stages', f'{n.id} has {len(ss)} stages; edges ask for {"some" if must else "one"}')
        if not use:
            require(len(ss) <= 3, 'stages', f'{n.id} has {len(ss)} stages')
        split |= must
        at = Fraction(0)
        total = {k: [0] * len(v) for k, v in amounts(n.work_unit).items()}
        for i, s in enumerate(ss):
            where[s.id] = n.id, i
            u = s.work_unit
            if not n.work_unit.display_name:
                u.display_name = ''      # an empty one is replaced by the name
            require(shape(u) == shape(n.work_unit), 'stage-work', f'{s.id}: {shape(u)} instead of {shape(n.work_unit)}')
            want = n.work_unit.model_name['granular_name'] + (f'{SEP}{i}' if len(ss) > 1 else '')
            require(u.model_name['granular_name'] == want, 'stage-name', f'{s.id} is called {u.model_name["granular_name"]!r}, not {want!r}')
            if i < len(ss) - 1:
                require(s.id == f'{n.id}{SEP}{i}', 'stage-id', s.id)
            for k, v in amounts(u).items():
                require(all(x >= 0 for x in v), 'stage-amount', f'{s.id}: {k} {v}')
                total[k] = [a + b for a, b in zip(total[k], v)]
        require(total == amounts(n.work_unit), 'stage-amount', f'{n.id}: the stages add up to {total}, not {amounts(n.work_unit)}')
        vol = sum(s.work_unit.volume for s in ss)
        require(abs(vol - n.work_unit.volume) <= 1e-6 * max(1, abs(vol)), 'stage-volume', f'{n.id}: {vol} of {n.work_unit.volume}')
    require(set(where) == set(new.dict_nodes), 'extra-work', f'{set(new.dict_nodes) - set(where)}')

    # dependencies: the new ones are exactly the chains of stages and one image per old dependency
    def volumes(wid):
        acc, out = 0.0, [0.0]
        for s in stages[wid]:
            acc += s.work_unit.volume
            out.append(acc)
        return out

    def fr(wid, x):
        v = wg[wid].work_unit.volume
        return round(x / v, 6) if v else None      # of a work without volume nothing can be said

    got = Counter()
    for n in new.nodes:
        wid, i = where[n.id]
        for e in n.edges_to:
            pid, j = where[e.start.id]
            require(e.type.value in ('FS', 'IFS'), 'edge-type', f'{e.start.id} -> {n.id}: {e.type}')
            if pid == wid:
                require(e.type.value == 'IFS' and j == i - 1, 'edge', f'{e.start.id} -> {n.id}: {e.type}')
                continue
            vp, vc = volumes(pid), volumes(wid)
            src = 'end' if j == len(stages[pid]) - 1 else fr(pid, vp[j + 1])
            dst = 'begin' if i == 0 else fr(wid, vc[i])
            got[(pid, wid, e.type.value, e.lag, src, dst)] += 1
    want = Counter()
    for n in wg.nodes:
        for e in n.edges_to:
            a, b, t, lag = e.start.id, n.id, e.type.value, e.lag
            va = e.start.work_unit.volume
            share = lag / va if use and 0 < lag <= va else 0
            if t in ('FS', 'IFS') or (t == 'FFS' and not use):
                want[(a, b, 'IFS' if t == 'IFS' else 'FS', ceil(lag) if t == 'FS' else 0, 'end', 'begin')] += 1
            if t == 'SS' or t == 'FFS' and use:
                want[(a, b, 'FS', 0, None if not va else round(share, 6), 'begin')] += 1
            if t == 'FF' or t == 'FFS' and use:
                want[(a, b, 'FS', 0, 'end', None if not n.work_unit.volume else round(1 - share, 6))] += 1
    require(near(got, want), 'edges', lambda: f'made but not expected {list((got - want).items())[:4]}, expected but not made '
                                              f'{list((want - got).items())[:4]}')
    order = {n.id: i for i, n in enumerate(new.nodes)}
    require(all(order[e.start.id] < order[n.id] for n in new.nodes for e in n.edges_to), 'order', 'not topological')
    # nothing is left to restructure
    for again in (False, True):
        with sut('crash'):
            second = graph_restructuring(new, use_lag_edge_optimization=again)
            same = plain(second) == plain(new)
        require(same, 'again', 'restructuring a restructured graph changes it')
    # priorities never fall along dependencies
    for n in new.nodes:
        for p in n.parents:
            require(p.work_unit.priority <= n.work_unit.priority, 'priority', f'{p.id} {p.work_unit.priority} > {n.id} {n.work_unit.priority}')
    rec.nontrivial(split)
    rec.label('lags' if use else 'plain', *{e[3] for e in case['proj']['edges']})


def near(got, want):
    if got == want:
        return True
    a, b = got - want, want - got
    for k in list(a.elements()):
        hit = next((x for x in b.elements() if x[:4] == k[:4] and all(
            p == q or (isinstance(p, float) and isinstance(q, float) and abs(p - q) < 1e-5) for p, q in zip(x[4:], k[4:]))), None)
        if hit is None:
            return False
        b -= Counter([hit])
    return not +b


# ------------------------------------------------------------------------------------------------- scheduling the result

@st.composite
def sch_case(draw):
    c = draw(graph(extras=False))
    c['proj']['contractors'] = draw(gen.contractor_list(c['proj']))
    c['proj']['spec'] = {}
    return dict(c, alg=draw(st.sampled_from(['heft', 'heft_between', 'topological', 'lft', 'genetic', 'heft'])), seed=draw(st.integers(0, 9)))


def run_sch(case, rec):
    from sampo.structurator import graph_restructuring
    proj = case['proj']
    with sut('crash'):
        wg = build(case)
        new = graph_restructuring(wg, use_lag_edge_optimization=case['lags'])
        cons = gen.build_contractors(proj)
        res = sched.make(case['alg'], case['seed'], 1, 4).schedule(new, cons)
    for sch in res:
        sd = oracle.flatten(sch)
        require(set(sd) == set(new.dict_nodes), 'missing-work', f'{set(new.dict_nodes) ^ set(sd)}')
        relations(wg, new, sd, proj, case['lags'])
    rec.label(case['alg'])
    rec.nontrivial(any(e[3] in ('SS', 'FF') for e in proj['edges']))


def relations(wg, new, sd, proj, lags, finish='finish'):
    """the schedule of the restructured graph keeps the dependencies of the original one"""
    span = {}
    for n in wg.nodes:
        ss = stages_of(new, n.id)
        span[n.id] = sd[ss[0].id]['st'], sd[n.id]['ft']
        for s in ss:
            require(sd[s.id]['contractor'] == sd[n.id]['contractor'] and sorted(sd[s.id]['team']) == sorted(sd[n.id]['team']),
                    'stage-team', f'{s.id} is done by {sd[s.id]["team"]}, {n.id} by {sd[n.id]["team"]}')
        for a, b in zip(ss, ss[1:]):
            require(sd[b.id]['st'] >= sd[a.id]['ft'], 'stage-order', f'{b.id} starts at {sd[b.id]["st"]}, {a.id} ends at {sd[a.id]["ft"]}')
    for p, c, lag, t in proj['edges']:
        a, b = proj['works'][p]['id'], proj['works'][c]['id']
        (sa, fa), (sb, fb) = span[a], span[b]
        ok = {'FS': sb >= fa + ceil(lag), 'IFS': sb >= fa, 'SS': sb >= sa, 'FF': fb >= fa,
              'FFS': (sb >= sa and fb >= fa) if lags else sb >= fa}[t]
        require(ok, 'relation', f'{a} {sa}..{fa}, {b} {sb}..{fb}, but {t} with lag {lag}')
    ends = [f for _, f in span.values()]
    require(span[finish][1] >= max(ends), 'finish', f'{span[finish]} before {max(ends)}')


# ------------------------------------------------------------------------------------------------------ wrong priorities

@st.composite
def prio_case(draw):
    layers = draw(st.integers(1, 24))
    width = draw(st.integers(1, 3))
    # now and then a chain that is much longer than what recursion over it would survive
    long = draw(st.sampled_from([1500] + [0] * 59))
    return {'layers': layers, 'width': 1 if long else width, 'full': draw(st.booleans()), 'long': long,
            'prio': draw(st.lists(st.integers(0, 5), min_size=layers * width, max_size=layers * width)), 'ss': draw(st.booleans())}


def corrected(wg, given):
    """no work is less urgent than those that wait for it; inseparable works have one priority"""
    lowest = dict(given)
    nodes = list(reversed(wg.nodes))
    while True:
        before = dict(lowest)
        for n in nodes:
            lowest[n.id] = min([lowest[n.id]] + [lowest[c.id] for c in n.children] + [lowest[e.start.id] for e in n.edges_to if e.type.value == 'IFS'])
        if lowest == before:
            return lowest


@contextmanager
def usual_stack():
    """the depth of recursion a program has by default (Hypothesis allows itself more)"""
    old, depth, f = sys.getrecursionlimit(), 0, sys._getframe()
    while f:
        depth, f = depth + 1, f.f_back
    sys.setrecursionlimit(depth + 1000)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


def run_prio(case, rec):
    from sampo.schemas.graph import EdgeType
    from sampo.structurator import graph_restructuring
    L, W = case['long'] or case['layers'], case['width']
    prio = case['prio'] if not case['long'] else [case['prio'][i * len(case['prio']) // L] + 1 for i in range(L - 1)] + [0]
    works = [{'id': f'w{i}', 'reqs': [['driver', 5, 1, 2]], 'vol': 5, 'svc': False, 'prio': prio[i]} for i in range(L * W)]
    edges = [[(l - 1) * W + a, l * W + b, 0, 'SS' if case['ss'] and a != b else 'FS'] for l in range(1, L) for a in range(W) for b in range(W)
             if case['full'] or a == b or (a + b + l) % 2]
    with sut('crash'):
        wg = gen.build_wg({'works': works, 'edges': edges})
        given_prio = {n.id: n.work_unit.priority for n in wg.nodes}
        with usual_stack():
            new = graph_restructuring(wg)
        kept = {n.id: n.work_unit.priority for n in wg.nodes}
    require(given_prio == kept, 'input-changed', 'priorities of the given graph changed')
    lowest = corrected(new, {n.id: given_prio[n.id.split(SEP)[0]] for n in new.nodes})
    for n in new.nodes:
        require(n.work_unit.priority == lowest[n.id], 'priority', f'{n.id}: {n.work_unit.priority}, expected {lowest[n.id]}')
    rec.nontrivial(any(given_prio[n.id] != n.work_unit.priority for n in new.nodes if n.id in given_prio))


SUBS = [Sub('structure', graph(), run, quick=1200, thorough=20000),
        Sub('schedule', sch_case(), run_sch, quick=500, thorough=8000),
        Sub('priorities', prio_case(), run_prio, quick=200, thorough=3000)]
