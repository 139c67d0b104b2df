"""Building and editing work graphs: insertion and deletion of works, insertion of graphs, new ids."""
from collections import Counter

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks.c14 import wg_view, wu_view, wu_data, build_wu
from vf.core import Sub, sut, require

PROPERTY = 'C16'
RULE = ('A case is a random graph with all five types of dependencies and a sequence of one to five edits (delete a work, insert '
        'a work, insert a graph, simplify the ids), each compared with a plain model of works and dependencies. Non-trivial: '
        'at least two edits, or one on a graph with chains or other than finish-start dependencies.')
ASSUMPTIONS = ['An inserted work gets its parents before its children in the order of the graph, so no cycle is asked for.',
               'The ids of an inserted graph differ from those present when ids are kept.']
DEPS = ('FS', 'IFS', 'FFS')


@st.composite
def graph(draw, n=8, lo=1):
    proj = draw(gen.works_and_edges(wide=True, min_works=lo, max_works=n, edge_types=('FS', 'FS', 'FFS', 'SS', 'FF')))
    k = len(proj['works'])
    return {'works': proj['works'], 'edges': proj['edges'], 'outer': draw(st.lists(st.integers(0, 6), min_size=2 * k, max_size=2 * k)),
            'units': [wu_data(draw) if draw(st.integers(0, 2)) == 0 else None for _ in range(k)]}


edge_list = st.lists(st.tuples(st.integers(0, 99), st.sampled_from([0, 0, 2, 5.5]), st.sampled_from(['FS', 'FS', 'FFS', 'SS', 'FF'])).map(list),
                     max_size=3)


@st.composite
def op(draw):
    kind = draw(st.sampled_from(['delete', 'delete', 'delete', 'insert', 'insert', 'graph', 'ids']))
    o = {'op': kind, 'keep': draw(st.booleans()), 'at': draw(st.integers(0, 99))}
    if kind == 'insert':
        o.update(parents=draw(edge_list), children=draw(edge_list), plain=draw(st.booleans()), unit=wu_data(draw))
    if kind == 'graph':
        o.update(to=draw(st.integers(0, 99)), slave=draw(graph(n=4)))
    if kind == 'ids':
        o.update(offset=draw(st.sampled_from([0, 0, 1, 100])))
    return o


@st.composite
def case_(draw):
    return {'graph': draw(graph()), 'ops': draw(st.lists(op(), min_size=1, max_size=5)), 'alg': draw(st.sampled_from(['heft', 'lft', 'topological']))}


def build(g, tag, outer=False):
    from sampo.schemas.graph import GraphNode, EdgeType, WorkGraph, get_start_stage, get_finish_stage
    nodes = []
    for i, w in enumerate(g['works']):
        if g['units'][i]:
            unit = build_wu(f'{tag}{w["id"]}', dict(g['units'][i], vol=w['vol']))
        else:
            unit = gen.build_works({'works': [dict(w, id=f'{tag}{w["id"]}')], 'edges': []})[0].work_unit
        unit.display_name = f'{tag}{w["id"]}'
        nodes.append(GraphNode(unit, [(nodes[p], lag, EdgeType(t)) for p, c, lag, t in g['edges'] if c == i]))
    start = get_start_stage(f'{tag}start')
    n = len(nodes)
    for i, node in enumerate(nodes):
        if not node.parents:
            node.add_parents([(start, g['outer'][i] if outer else 0, EdgeType.FinishStart)])
    tails = [(node, g['outer'][n + i] if outer else 0, EdgeType.FinishStart) for i, node in enumerate(nodes) if not node.children]
    work = get_finish_stage([t[0] for t in tails], f'{tag}finish').work_unit
    for t in tails:      # get_finish_stage linked a temporary node
        t[0].edges_from[:] = [e for e in t[0].edges_from if e.finish.work_unit is not work]
        t[0].invalidate_children_cache()
    return WorkGraph(start, GraphNode(work, tails))


def unit_view(u):
    v = wu_view(u)
    for k in ('id', 'repr', 'display'):
        v.pop(k)
    return v


def model_of(wg):
    return {'units': {n.work_unit.display_name: unit_view(n.work_unit) for n in wg.nodes},
            'edges': Counter((e.start.work_unit.display_name, n.work_unit.display_name, e.type.value, e.lag)
                             for n in wg.nodes for e in n.edges_to)}


def well_formed(wg, what):
    order = {n.id: i for i, n in enumerate(wg.nodes)}
    require(len(order) == len(wg.nodes) == wg.vertex_count == len(wg.dict_nodes), 'graph', f'{what}: nodes repeat')
    require(wg.nodes[0].id == wg.start.id and wg.nodes[-1].id == wg.finish.id, 'graph', f'{what}: {wg.start.id} is not first or {wg.finish.id} not last')
    back = Counter()
    for n in wg.nodes:
        require(wg[n.id] is n, 'graph', f'{what}: wg[{n.id}]')
        for e in n.edges_to:
            require(e.finish is n and order.get(e.start.id, 10 ** 9) < order[n.id] and wg.dict_nodes.get(e.start.id) is e.start, 'graph',
                    f'{what}: dependency {e.start.id} -> {n.id} is not inside the graph or against its order')
            back[(e.start.id, n.id, e.type.value, e.lag)] += 1
        dep = [e for e in n.edges_to if e.type.value in DEPS]
        require(Counter(p.id for p in n.parents) == Counter(e.start.id for e in dep) and {p.id for p in n.parents_set} == {e.start.id for e in dep},
                'graph', f'{what}: parents of {n.id}')
        out = [e for e in n.edges_from if e.type.value in DEPS]
        require(Counter(c.id for c in n.children) == Counter(e.finish.id for e in out) and {c.id for c in n.children_set} == {e.finish.id for e in out},
                'graph', f'{what}: children of {n.id}')
        head = next((e.start for e in dep if e.type.value == 'IFS'), None)
        son = next((e.finish for e in out if e.type.value == 'IFS'), None)
        require(n.inseparable_parent is head and n.inseparable_son is son, 'graph', f'{what}: inseparable neighbours of {n.id}')
        chain = [n]
        while head is None and (nxt := next((e.finish for e in chain[-1].edges_from if e.type.value == 'IFS'), None)):
            chain.append(nxt)
        got = n.get_inseparable_chain_with_self()
        require(len(got) == len(chain) and all(a is b for a, b in zip(got, chain)), 'graph', f'{what}: the chain of {n.id} is {got}, not {chain}')
    fwd = Counter((n.id, e.finish.id, e.type.value, e.lag) for n in wg.nodes for e in n.edges_from)
    require(fwd == back, 'graph', lambda: f'{what}: dependencies seen from one side only {list(((fwd - back) + (back - fwd)).items())[:4]}')


def compare(what, wg, units, kept, extra=()):
    """kept: dependencies that must be there; extra: pairs that must depend on each other, by FS without lag if they did not."""
    well_formed(wg, what)
    got = model_of(wg)
    require(len(got['units']) == len(wg.nodes), 'works', f'{what}: works repeat')
    require(set(got['units']) == set(units), 'works', f'{what}: works {sorted(set(got["units"]) ^ set(units))} appeared or disappeared')
    for k, v in units.items():
        bad = {f: (v[f], got['units'][k][f]) for f in v if v[f] != got['units'][k][f]}
        require(not bad, 'work-changed', lambda: f'{what}: {k}: {str(bad)[:500]}')
    lost = kept - got['edges']
    new = got['edges'] - kept
    require(not lost, 'edges', lambda: f'{what}: dependencies lost {list(lost)[:4]}')
    pairs = {e[:2] for e in got['edges'] if e[2] in DEPS}
    require(all(p in pairs for p in extra), 'edges', lambda: f'{what}: no dependency {[p for p in extra if p not in pairs][:4]}')
    bad = [e for e in new if e[:2] not in extra or e[2:] != ('FS', 0)]
    require(not bad, 'edges', lambda: f'{what}: dependencies nobody asked for {bad[:4]}')


def run(case, rec):
    from sampo.schemas.graph import EdgeType
    from sampo.structurator import graph_in_graph_insertion, work_graph_ids_simplification
    from sampo.structurator.delete_graph_node import delete_graph_node
    from sampo.structurator.insert_wu import insert_work_unit
    with sut('crash'):
        wg = build(case['graph'], 'm')
        well_formed(wg, 'new graph')
    keep_alive = [wg]
    kinds = set()
    for step, o in enumerate(case['ops']):
        m = model_of(wg)
        before = wg_view(wg)
        names = [n.work_unit.display_name for n in wg.nodes]
        what = f'step {step}: {o["op"]}'
        slave = slave_before = None
        if o['op'] == 'delete':
            if len(wg.nodes) < 4:
                continue
            node = wg.nodes[1 + o['at'] % (len(wg.nodes) - 2)]
            chain = [node]
            while chain[0].inseparable_parent is not None:
                chain.insert(0, chain[0].inseparable_parent)
            while chain[-1].inseparable_son is not None:
                chain.append(chain[-1].inseparable_son)
            if len(chain) >= len(wg.nodes) - 2:
                continue
            gone = {c.work_unit.display_name for c in chain}
            ins, pairs = set(), set()
            for c in chain:      # whatever precedes a link precedes all that follows it or later links
                t = c.work_unit.display_name
                ins |= {e[0] for e in m['edges'] if e[1] == t and e[2] in DEPS and e[0] not in gone}
                pairs |= {(p, e[1]) for p in ins for e in m['edges'] if e[0] == t and e[2] in DEPS and e[1] not in gone}
            kept = Counter({e: k for e, k in m['edges'].items() if e[0] not in gone and e[1] not in gone})
            # what was related to deleted works only, and not by a dependency, is tied to the ends
            s, f = wg.start.work_unit.display_name, wg.finish.work_unit.display_name
            rest = [t for t in names if t not in gone]
            pairs |= {(s, t) for t in rest if t != s and not any(e[1] == t for e in [*kept, *pairs])}
            pairs |= {(t, f) for t in rest if t != f and not any(e[0] == t for e in [*kept, *pairs])}
            kinds.add('delete-chain' if len(chain) > 1 else 'delete')
            with sut('crash'):
                new = delete_graph_node(wg, node.id, change_id=not o['keep'])
            compare(what, new, {k: v for k, v in m['units'].items() if k not in gone}, kept, pairs)
        elif o['op'] == 'insert':
            cut = 1 + o['at'] % (len(wg.nodes) - 1)
            ups = [(wg.nodes[a % cut], lag, t) for a, lag, t in o['parents']]
            downs = [(wg.nodes[cut + a % (len(wg.nodes) - cut)], lag, t) for a, lag, t in o['children']]
            if not any(t in DEPS for _, _, t in downs):
                downs = [] if o['plain'] else downs + [(wg.finish, 0, 'FS')]
            if not any(t in DEPS for _, _, t in ups):
                ups = [] if o['plain'] else ups + [(wg.start, 0, 'FS')]
            # one node, one dependency; nothing but finish-start leads to or from the ends
            ups = [(n, lag, t if n is not wg.start else 'FS') for n, lag, t in {n.id: (n, lag, t) for n, lag, t in ups}.values()]
            downs = [(n, lag, t if n is not wg.finish else 'FS') for n, lag, t in {n.id: (n, lag, t) for n, lag, t in downs}.values()]
            tag = f'x{step}'
            unit = build_wu(f'id-{tag}', o['unit'])
            unit.display_name = tag
            units = dict(m['units'], **{tag: unit_view(unit)})
            if o['plain']:
                a, b = [n for n, _, _ in ups], [n for n, _, _ in downs]
                ups, downs = [(n, 0, 'FS') for n in a], [(n, 0, 'FS') for n in b]
            else:
                a, b = [(n, lag, EdgeType(t)) for n, lag, t in ups], [(n, lag, EdgeType(t)) for n, lag, t in downs]
            kinds.add('insert-plain' if o['plain'] else 'insert')
            if not a or not b:
                kinds.add('insert-loose')
            with sut('crash'):
                new = insert_work_unit(wg, unit, a, b, change_id=not o['keep'])
            edges = m['edges'] + Counter((n.work_unit.display_name, tag, t, lag) for n, lag, t in ups or [(wg.start, 0, 'FS')]) + \
                Counter((tag, n.work_unit.display_name, t, lag) for n, lag, t in downs or [(wg.finish, 0, 'FS')])
            compare(what, new, units, edges)
        elif o['op'] == 'graph':
            i = o['at'] % (len(wg.nodes) - 1)
            j = i + 1 + o['to'] % (len(wg.nodes) - 1 - i)
            slave = build(o['slave'], f's{step}', outer=True)
            slave_before, sm = wg_view(slave), model_of(slave)
            ends = {slave.start.work_unit.display_name: names[i], slave.finish.work_unit.display_name: names[j]}
            # both ends have the same display name as those of the master graph, so rename by position
            s0, f0 = slave.start.work_unit, slave.finish.work_unit
            inner = Counter()
            for n in slave.nodes:
                for e in n.edges_to:
                    a = names[i] if e.start.work_unit is s0 else e.start.work_unit.display_name
                    b = names[j] if n.work_unit is f0 else n.work_unit.display_name
                    inner[(a, b, e.type.value, e.lag)] += 1
            del ends
            kinds.add('graph')
            with sut('crash'):
                new = graph_in_graph_insertion(wg, wg.nodes[i], wg.nodes[j], slave, change_id=not o['keep'])
            units = dict(m['units'], **{k: v for k, v in sm['units'].items() if k not in (s0.display_name, f0.display_name)})
            compare(what, new, units, m['edges'] + inner)
        else:
            kinds.add('ids')
            with sut('crash'):
                new = work_graph_ids_simplification(wg, id_offset=o['offset'])
            compare(what, new, m['units'], m['edges'])
            require({n.id for n in new.nodes} == {str(o['offset'] + i) for i in range(len(wg.nodes))}, 'ids', f'{what}: {[n.id for n in new.nodes]}')
        if o['op'] != 'ids':
            ids = {n.work_unit.display_name: n.id for n in new.nodes}
            if o['keep']:
                require(all(ids[n.work_unit.display_name] == n.id for n in wg.nodes if n.work_unit.display_name in ids), 'ids', f'{what}: ids changed')
                require(not slave or all(ids[n.work_unit.display_name] == n.id for n in slave.nodes[1:-1]), 'ids', f'{what}: ids changed')
            else:
                old = {n.id for n in wg.nodes} | ({n.id for n in slave.nodes} if slave else set())
                require(not [t for t in ids if ids[t] in old], 'ids', f'{what}: ids kept {ids}')
        require(wg_view(wg) == before, 'input-changed', f'{what} changed the graph it was given')
        if slave:
            require(wg_view(slave) == slave_before, 'input-changed', f'{what} changed the inserted graph')
            keep_alive.append(slave)
        keep_alive.append(new)
        wg = new
    rec.label(*sorted(kinds))
    rec.nontrivial(len(case['ops']) > 1 or any(e[3] != 'FS' for e in case['graph']['edges']))
    schedule(case, wg, rec)


def schedule(case, wg, rec):
    """The edited graph is as good as any other one: it can be scheduled."""
    if any(e.type.value not in DEPS for n in wg.nodes for e in n.edges_to):
        return
    if any(n.work_unit.zone_reqs or n.work_unit.material_reqs for n in wg.nodes):
        return          # these need a landscape
    if any(p.work_unit.priority > n.work_unit.priority for n in wg.nodes for p in n.parents):
        return
    d = drive.describe(wg, [])
    bid = {i: b for b, blk in enumerate(d['blocks']) for i in blk}
    if any(bid[p] == bid[c] and t != 'IFS' for p, c, _, t in d['edges']):
        return
    before = {b: {bid[p] for p, c, _, _ in d['edges'] if bid[c] == b} - {b} for b in set(bid.values())}
    left = set(before)
    while left:
        free = {b for b in left if not before[b] & left}
        if not free:
            return          # a work was inserted between the links of a chain and another neighbour of it
        left -= free
    for b, blk in enumerate(d['blocks']):
        if len({tuple((r[0], r[2], r[3]) for r in d['works'][i]['reqs']) for i in blk}) > 1:
            return          # links of a chain must share a team
    d['contractors'] = [{'id': 'c', 'name': 'c', 'cost': {}, 'workers': {k: 99 for k in gen.KINDS}}]
    with sut('crash'):
        s = sched.make(case['alg']).schedule(wg, gen.build_contractors(d))[0]
    sd = oracle.flatten(s)
    oracle.complete(d, sd)
    oracle.precedence(d, sd)
    rec.label('scheduled')


# ------------------------------------------------------------------------------------------- graphs from loose nodes

@st.composite
def nodes_case(draw):
    g = draw(graph(n=12))
    return {'graph': g, 'order': draw(st.permutations(list(range(len(g['works']))))), 'seed': draw(st.integers(0, 99)),
            'look': draw(st.booleans())}


def run_nodes(case, rec):
    import random
    from sampo.schemas.graph import WorkGraph, GraphNode, EdgeType
    g = case['graph']
    with sut('crash'):
        nodes = [GraphNode(gen.build_works({'works': [w], 'edges': []})[0].work_unit, []) for w in g['works']]
        for k in case['order']:      # dependencies are added in any order
            _ = [(n.parents_set, n.children_set, n.parents, n.children, n.inseparable_son, n.inseparable_parent)
                    for n in nodes] if case['look'] else []      # reading the views does not freeze them
            nodes[k].add_parents([(nodes[p], lag, EdgeType(t)) for p, c, lag, t in g['edges'] if c == k])
        wg = WorkGraph.from_nodes([nodes[k] for k in case['order']], rand=random.Random(case['seed']))
    well_formed(wg, 'from nodes')
    m = model_of(wg)
    names = {i: n.work_unit.display_name for i, n in enumerate(nodes)}
    want = Counter((names[p], names[c], t, lag) for p, c, lag, t in g['edges'])
    s, f = wg.start.work_unit.display_name, wg.finish.work_unit.display_name
    has_in = {c for _, c, _, t in g['edges'] if t in DEPS}
    has_out = {p for p, _, _, t in g['edges'] if t in DEPS}
    want.update([(s, names[i], 'FS', 0) for i in names if i not in has_in] + [(names[i], f, 'FS', 0) for i in names if i not in has_out])
    require(m['edges'] == want, 'edges', lambda: f'from nodes: {list(((m["edges"] - want) + (want - m["edges"])).items())[:4]}')
    require(len(wg.nodes) == len(nodes) + 2, 'works', f'{len(wg.nodes)} of {len(nodes) + 2}')
    require(wg.start.work_unit.is_service_unit and wg.finish.work_unit.is_service_unit, 'ends', 'the ends are not service works')
    require(wg.finish.work_unit.priority >= max(nodes[i].work_unit.priority for i in names if i not in has_out), 'ends', 'priority of the finish')
    rec.nontrivial(len(g['edges']) > 1 and case['order'] != sorted(case['order']))


SUBS = [Sub('edit', case_(), run, quick=1000, thorough=16000),
        Sub('nodes', nodes_case(), run_nodes, quick=500, thorough=6000)]
