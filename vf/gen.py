"""Strategies producing plain-data project descriptions, and builders turning them into real sampo objects."""
from __future__ import annotations

from hypothesis import strategies as st

KINDS = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']
DEP = ('FS', 'IFS', 'FFS')


# ----------------------------------------------------------------------------------------------------------- drawing

@st.composite
def req_list(draw, kinds, max_reqs=3, max_volume=40, zero_min=False, wide=False):
    k = draw(st.integers(0 if draw(st.integers(0, 7)) == 0 else 1, min(max_reqs, len(kinds))))
    chosen = draw(st.permutations(kinds))[:k]
    out = []
    for kind in chosen:
        lo = draw(st.integers(0 if zero_min else 1, 12 if wide else 4))
        hi = max(lo, 1) + draw(st.integers(0, 15 if wide else 4))
        vol = draw(st.one_of(st.integers(1, max_volume), st.integers(0, 3)))
        if wide and draw(st.booleans()):
            vol *= 10
        out.append([kind, vol, lo, hi])
    return out


@st.composite
def works_and_edges(draw, min_works=1, max_works=9, chains=True, lags=True, priorities=True, kinds=None,
                    max_volume=40, services=True, edge_types=('FS', 'FFS'), wide=False, twice=False):
    """Blocks (single works or inseparable chains) in a topological order; edges only from earlier to later blocks,
    so the graph whose chains are contracted is acyclic (what the schedulers require)."""
    kinds = kinds or draw(st.permutations(KINDS))[:draw(st.integers(1, 4))]
    n = draw(st.integers(min_works, max_works))
    # a few projects have large teams and volumes, long chains and lags, many priorities
    wide = wide and draw(st.integers(0, 9)) == 9
    blocks, i = [], 0
    while i < n:
        ln = draw(st.sampled_from([1, 1, 1, 3, 4, 6] if wide else [1, 1, 1, 1, 2, 2, 3])) if chains else 1
        ln = min(ln, n - i)
        blocks.append(list(range(i, i + ln)))
        i += ln
    works, edges, prio_of = [], [], {}
    ids = draw(st.permutations(list(range(n)))) if draw(st.booleans()) else list(range(n))
    for b, block in enumerate(blocks):
        reqs = draw(req_list(kinds, max_volume=max_volume, wide=wide))
        if services and len(block) == 1 and draw(st.integers(0, 11)) == 0:
            reqs, svc = [], True
        else:
            svc = False
        prio = draw(st.integers(1, 12 if wide else 3)) if priorities else 1
        no_volume = draw(st.integers(0, 7)) == 0
        for pos, w in enumerate(block):
            if pos:
                reqs = [[k, draw(st.integers(0, max_volume)), lo, hi] for k, _, lo, hi in reqs]
                edges.append([w - 1, w, 0, 'IFS'])
            vol = draw(st.integers(0, 30)) if draw(st.booleans()) else sum(r[1] for r in reqs)
            vol = 0 if no_volume else vol
            works.append({'id': f'w{ids[w]}', 'reqs': reqs, 'vol': vol, 'svc': svc})
        earlier = list(range(block[0]))
        for pos, w in enumerate(block):
            if not earlier:
                continue
            k = draw(st.integers(0, 3)) if pos == 0 else draw(st.sampled_from([0, 0, 1]))
            for p in sorted(set(draw(st.lists(st.sampled_from(earlier), min_size=0, max_size=k)))):
                lag = draw(st.sampled_from([0, 0, 2, 45, 300] if wide else [0, 0, 0, 1, 3, 7, 20])) if lags else 0
                et = draw(st.sampled_from(edge_types))
                edges.append([p, w, lag, et])
        block_of = {w: bb for bb, blk in enumerate(blocks) for w in blk}
        parents_b = {block_of[e[0]] for e in edges if e[1] in block and e[0] not in block}
        prio = max([prio] + [prio_of[pb] for pb in parents_b])
        prio_of[b] = prio
        for w in block:
            works[w]['prio'] = prio
    # in a few projects two works have two dependencies, the weaker one first or last
    if twice and lags and edges and draw(st.integers(0, 5)) == 5:
        for p, w, lag, t in draw(st.lists(st.sampled_from([e for e in edges if e[3] != 'IFS'] or [None]), max_size=3)) if any(e[3] != 'IFS' for e in edges) else []:
            edges.insert(draw(st.integers(0, len(edges))), [p, w, draw(st.sampled_from([0, 1, 2, 9])), draw(st.sampled_from(['FS', 'FFS']))])
    return {'kinds': list(kinds), 'works': works, 'edges': edges, 'blocks': blocks}


@st.composite
def contractor_list(draw, proj, max_contractors=3, costs=True, feasible=True, same_kinds=False):
    """Contractors with their own subsets of worker kinds (in their own order); every block of works gets at least one
    contractor able to run it."""
    kinds = proj['kinds']
    m = draw(st.integers(1, max_contractors))
    crowd = draw(st.integers(0, 9)) == 9
    if crowd and max_contractors > 2:
        m += draw(st.integers(0, 3))
    number = draw(st.permutations(range(m))) if crowd else range(m)
    cons = []
    for c in range(m):
        sub = draw(st.permutations(kinds))
        if not same_kinds:
            sub = sub[:draw(st.integers(0, len(kinds)))]
        cons.append({'id': f'c{number[c]}', 'name': draw(st.sampled_from([f'Contractor {c}', '', f'c{c}'])),
                     'workers': {k: draw(st.integers(1, 60 if crowd else 9)) for k in sub},
                     'cost': {k: draw(st.integers(1, 50)) for k in kinds} if costs and draw(st.booleans()) else {}})
    if feasible:
        for block in proj['blocks']:
            reqs = proj['works'][block[0]]['reqs']
            if not reqs:
                continue
            if any(all(c['workers'].get(k, -1) >= lo for k, _, lo, _ in reqs) for c in cons):
                continue
            host = cons[draw(st.integers(0, m - 1))]
            for k, _, lo, _ in reqs:
                host['workers'][k] = max(host['workers'].get(k, 0), lo)
        for c in cons:
            if not c['workers']:
                c['workers'] = {kinds[0]: 1}
    return cons


def capable(con, reqs, team=None):
    team = team or {}
    return all(con['workers'].get(k, -1) >= max(lo, team.get(k, lo)) for k, _, lo, _ in reqs)


@st.composite
def spec_for(draw, proj, cons, contractors=True, teams=True, partial_teams=False, times=False, independent=False,
             density=3):
    """Per-block specification; always satisfiable by at least one contractor."""
    spec = {}
    for block in proj['blocks']:
        if draw(st.integers(0, density - 1)):
            continue
        w = proj['works'][block[0]]
        reqs = w['reqs']
        e = {}
        can = [c for c in cons if capable(c, reqs)]
        host = can[draw(st.integers(0, len(can) - 1))]
        allowed = [c['id'] for c in cons]
        if contractors and draw(st.booleans()):
            allowed = sorted({host['id']} | {c['id'] for c in cons if draw(st.booleans())})
            e['contractors'] = allowed
        if teams and reqs and draw(st.booleans()):
            team = {k: draw(st.integers(lo, max(lo, min(hi, host['workers'][k])))) for k, _, lo, hi in reqs}
            if partial_teams and len(team) > 1 and draw(st.booleans()):
                team.pop(sorted(team)[draw(st.integers(0, len(team) - 1))])
            e['workers'] = {k: v for k, v in team.items() if v > 0}
            if len(e['workers']) < len(team) and not partial_teams:
                e.pop('workers')
        if times and reqs and not w['svc'] and draw(st.integers(0, 2)) == 0:
            e['time'] = draw(st.integers(0, 40))
        if independent and reqs and draw(st.integers(0, 2)) == 0:
            e['independent'] = True
        if e:
            spec[w['id']] = e
    return spec


@st.composite
def project(draw, spec=None, max_contractors=3, same_kinds=False, costs=True, feasible=True, **kw):
    proj = draw(works_and_edges(**{'wide': True, 'twice': True, **kw}))
    proj['contractors'] = draw(contractor_list(proj, max_contractors, costs=costs, feasible=feasible,
                                               same_kinds=same_kinds))
    proj['spec'] = draw(spec_for(proj, proj['contractors'], **spec)) if spec else {}
    return proj


# ---------------------------------------------------------------------------------------------------------- building

def build_works(proj, start_id='start', finish_id='finish', extra=None):
    """-> list of GraphNode for the works, in order, wired with the described edges (no start/finish)."""
    from sampo.schemas.graph import GraphNode, EdgeType
    from sampo.schemas.works import WorkUnit
    from sampo.schemas.requirements import WorkerReq, MaterialReq, ZoneReq
    from sampo.schemas.time import Time
    nodes = []
    for i, w in enumerate(proj['works']):
        wu = WorkUnit(w['id'], w.get('model', f'work {w["id"]}') if not isinstance(w.get('model'), dict)
                      else dict(w['model']),
                      worker_reqs=[WorkerReq(k, Time(v), lo, hi) for k, v, lo, hi in w['reqs']],
                      material_reqs=[MaterialReq(k, c) for k, c in w.get('mats', [])],
                      zone_reqs=[ZoneReq(k, s) for k, s in w.get('zones', [])],
                      volume=w.get('vol', 1), is_service_unit=w.get('svc', False), priority=w.get('prio', 1),
                      group=w.get('group', 'main project'), display_name=w.get('display', ''),
                      description=w.get('descr', ''))
        parents = [(nodes[p], lag, EdgeType(t)) for p, c, lag, t in proj['edges'] if c == i]
        nodes.append(GraphNode(wu, parents))
    return nodes


def build_wg(proj, start_id='start', finish_id='finish', from_nodes=False):
    from sampo.schemas.graph import WorkGraph, EdgeType, get_start_stage, get_finish_stage
    nodes = build_works(proj)
    start = get_start_stage(start_id)
    for node in nodes:
        if not node.parents:
            node.add_parents([(start, 0, EdgeType.FinishStart)])
    tails = [node for node in nodes if not node.children]
    finish = get_finish_stage(tails, finish_id)
    return WorkGraph(start, finish)


def build_contractors(proj):
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker
    return [Contractor(c['id'], c['name'],
                       {k: Worker(f"{c['id']}-{k}", k, n, c['id'], cost_one_unit=c['cost'].get(k))
                        for k, n in c['workers'].items()}, {})
            for c in proj['contractors']]


def build_spec(proj):
    from sampo.schemas.schedule_spec import ScheduleSpec
    from sampo.schemas.time import Time
    spec = ScheduleSpec()
    for wid, e in proj.get('spec', {}).items():
        if 'contractors' in e:
            spec.assign_contractors(wid, set(e['contractors']))
        if 'workers' in e:
            spec.assign_workers_dict(wid, dict(e['workers']))
        if 'time' in e:
            spec.set_exec_time(wid, Time(e['time']))
        if e.get('independent'):
            spec.get_work_spec(wid).is_independent = True
    return spec
