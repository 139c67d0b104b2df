"""Synthetic graphs, contractors and landscapes: valid, of the size asked for, the same for the same seed."""
import json

from hypothesis import strategies as st

from vf import oracle, worker
from vf.core import Sub, sut, require

PROPERTY = 'C23'
RULE = ('One case is a seed and a sequence of calls of the generators with random parameters. Non-trivial: the parameters bind '
        '(a border, a number of names, of kinds or of materials other than what comes without asking).')
ASSUMPTIONS = ['Ids of the start and the finish and ids of landscapes are drawn anew in each run and are not compared.',
               'Where both borders are given, the bottom one counts, as the code says.']
MODES = ['GENERAL', 'PARALLEL', 'SEQUENTIAL']
MATERIALS = ['stone', 'brick', 'sand', 'rubble', 'concrete', 'metal', 'glass']


@st.composite
def call(draw):
    kind = draw(st.sampled_from(['small', 'bottom', 'top', 'top', 'clusters', 'advanced', 'contractor']))
    c = {'call': kind, 'mode': draw(st.sampled_from(MODES))}
    if kind == 'bottom':
        c['n'] = draw(st.integers(1, 220))
    elif kind in ('top', 'advanced'):
        c['n'] = draw(st.integers(1, 320))
    elif kind == 'clusters':
        c['n'] = draw(st.integers(1, 4))
    if kind == 'advanced':
        c['names'], c['kinds'] = draw(st.integers(1, 120)), draw(st.integers(1, 60))
    if kind == 'contractor':
        c['n'] = draw(st.sampled_from([1, 2, 5, 10.5, 40]))
    elif draw(st.booleans()):
        hi = draw(st.one_of(st.none(), st.integers(1, 7)))
        pool = MATERIALS[:max(hi or 1, draw(st.integers(1, 7)))] if draw(st.booleans()) else None
        hi = None if hi is None else min(hi, len(pool) if pool else 6)
        c['materials'] = {'pool': pool, 'hi': hi,
                          'lo': draw(st.one_of(st.none(), st.integers(0, hi if hi is not None else 2 if pool is None else len(pool))))}
        m = c['materials']
        if m['lo'] is None and m['hi'] is not None and (2 if pool is None else len(pool) // 2) > m['hi']:
            m['lo'] = m['hi']
    return c


@st.composite
def case_(draw):
    return {'seed': draw(st.integers(0, 10 ** 6)), 'calls': draw(st.lists(call(), min_size=1, max_size=3))}


def make(ss, c):
    from sampo.generator.pipeline import SyntheticGraphType
    if c['call'] == 'contractor':
        return ss.contractor(c['n'])
    if c['call'] == 'small':
        wg = ss.small_work_graph()
    elif c['call'] == 'advanced':
        wg = ss.advanced_work_graph(c['n'], c['names'], c['kinds'])
    else:
        arg = {'bottom': 'bottom_border', 'top': 'top_border', 'clusters': 'cluster_counts'}[c['call']]
        wg = ss.work_graph(mode=getattr(SyntheticGraphType, c['mode']), **{arg: c['n']})
    m = c.get('materials')
    if m:
        wg = ss.set_materials_for_wg(wg, materials_name=m['pool'] and list(m['pool']), bottom_border=m['lo'], top_border=m['hi'])
    return wg


def plain(x):
    """A generated graph or contractor as plain data, without the ids of the ends."""
    if hasattr(x, 'workers'):
        return ['contractor', x.id, sorted((k, w.id, w.count) for k, w in x.workers.items())]
    ends = {x.start.id: 'S', x.finish.id: 'F'}
    return sorted([ends.get(n.id, n.id), sorted(n.work_unit.model_name.items()), n.work_unit.volume, n.work_unit.group,
                   [[r.kind, oracle.T(r.volume), r.min_count, r.max_count] for r in n.work_unit.worker_reqs],
                   [[m.kind, m.count] for m in n.work_unit.material_reqs],
                   sorted([ends.get(e.start.id, e.start.id), float(e.lag), e.type.value] for e in n.edges_to)] for n in x.nodes)


def replay_calls(case):
    """In another process: the same calls."""
    import sampo.scheduler  # noqa: F401
    from sampo.generator.base import SimpleSynthetic
    ss = SimpleSynthetic(case['seed'])
    return [plain(make(ss, c)) for c in case['calls']]


def check_graph(wg):
    ids = [n.id for n in wg.nodes]
    require(len(set(ids)) == len(ids), 'ids', 'works with equal ids')
    pos = {i: k for k, i in enumerate(ids)}
    seen, stack = {wg.start.id}, [wg.start]
    while stack:
        for e in stack.pop().edges_from:
            require(e.finish.id in pos, 'lost', 'a work is not among the works of the graph')
            if e.finish.id not in seen:
                seen.add(e.finish.id)
                stack.append(e.finish)
    require(seen == set(ids), 'unreachable', f'{len(ids) - len(seen)} works cannot be reached from the start')
    deg = {n.id: len(n.edges_to) for n in wg.nodes}
    free, done = [n for n in wg.nodes if not deg[n.id]], 0
    require([n.id for n in free] == [wg.start.id], 'start', 'works without predecessors besides the start')
    require([n.id for n in wg.nodes if not n.edges_from] == [wg.finish.id], 'finish', 'works without successors besides the finish')
    while free:
        n = free.pop()
        done += 1
        for e in n.edges_from:
            deg[e.finish.id] -= 1
            if not deg[e.finish.id]:
                free.append(e.finish)
    require(done == len(ids), 'loop', 'the graph has a loop')
    for n in wg.nodes:
        u = n.work_unit
        if n.id in (wg.start.id, wg.finish.id):
            require(u.is_service_unit and not u.worker_reqs, 'ends', f'{u.model_name} is not a service unit')
            continue
        require(u.volume >= 0 and bool(u.worker_reqs), 'work', lambda: f'{u.model_name}: volume {u.volume}, {len(u.worker_reqs)} requirements')
        require(len({r.kind for r in u.worker_reqs}) == len(u.worker_reqs), 'kinds', lambda: f'{u.model_name}: a kind is required twice')
        for r in u.worker_reqs:
            require(0 <= r.min_count <= r.max_count and oracle.T(r.volume) >= 0, 'requirement', lambda: f'{u.model_name}: {r}')


def check_materials(wg, m):
    names = m['pool'] or MATERIALS[:6]
    lo = m['lo'] if m['lo'] is not None else 2 if m['pool'] is None else len(names) // 2
    hi = m['hi'] if m['hi'] is not None else len(names)
    for n in wg.nodes:
        u = n.work_unit
        kinds = [r.kind for r in u.material_reqs]
        if u.is_service_unit:
            require(not kinds, 'service-materials', 'a service unit needs materials')
            continue
        require(len(set(kinds)) == len(kinds) and set(kinds) <= set(names), 'materials', lambda: f'materials {kinds}, known are {names}')
        require(lo <= len(kinds) <= hi, 'materials-count', lambda: f'{len(kinds)} kinds of materials, asked for {lo}..{hi}')


def kinds_of(wg):
    return {r.kind for n in wg.nodes for r in n.work_unit.worker_reqs}


def names_of(wg):
    return {n.work_unit.model_name['granular_name'] for n in wg.nodes if n not in (wg.start, wg.finish)}


def run(case, rec):
    from sampo.generator.base import SimpleSynthetic
    from sampo.generator.config.gen_counts import WORKER_PROPORTIONS
    with sut('crash'):
        ss = SimpleSynthetic(case['seed'])
    for c in case['calls']:
        rec.label(c['call'])
        with sut('crash'):
            x = make(ss, c)
        if c['call'] == 'contractor':
            require(set(x.workers) == set(WORKER_PROPORTIONS), 'contractor-kinds', f'kinds {sorted(x.workers)}')
            for k, w in x.workers.items():
                p = WORKER_PROPORTIONS[k]
                require(min(p, int(p * c['n'])) <= w.count <= p * c['n'], 'contractor-count',
                        lambda: f'{w.count} {k}s, a pack has {p}, asked for {c["n"]} packs')
                require(w.name == k and w.contractor_id == x.id, 'contractor-worker', lambda: f'{k}: {w.name} of {w.contractor_id}')
            continue
        check_graph(x)
        size = len(x.nodes) - 2
        if c['call'] == 'small':
            require(30 <= size + 2 <= 50, 'small', f'{size + 2} vertices in a small graph')
        elif c['call'] == 'bottom':
            require(size >= c['n'], 'bottom', f'{size} works, asked for at least {c["n"]}')
            rec.nontrivial(c['n'] > 50)
        elif c['call'] in ('top', 'advanced'):
            require(size <= max(c['n'], 48), 'top', f'{size} works, asked for at most {c["n"]}')
            rec.nontrivial()
        elif c['call'] == 'clusters':
            rec.nontrivial(c['n'] > 1)
            groups = {n.work_unit.group.split(':')[0] for n in x.nodes if n not in (x.start, x.finish)}
            require(len(groups) >= min(c['n'], 1), 'clusters', f'clusters {groups}')
        if c.get('materials'):
            check_materials(x, c['materials'])
            rec.nontrivial()
        del x


def run_advanced(case, rec):
    """The advanced graph is the plain one with more names and kinds."""
    from sampo.generator.base import SimpleSynthetic
    from sampo.generator.pipeline.extension import extend_names, extend_resources
    ss = SimpleSynthetic(case['seed'])
    base = ss.work_graph(top_border=case['top'])
    before = plain(base)
    with sut('crash'):
        wg = extend_names(case['names'], base, ss.get_rand())
        wg = extend_resources(case['kinds'], wg, ss.get_rand())
    require(plain(base) == before, 'input-changed', 'the graph given was changed')
    n0, n1, k0, k1 = len(names_of(base)), len(names_of(wg)), len(kinds_of(base)), len(kinds_of(wg))
    require(n0 <= n1 <= max(n0, case['names']), 'names', f'{n1} names of works, were {n0}, asked for {case["names"]}')
    require(k0 <= k1 <= max(k0, case['kinds']), 'kinds', f'{k1} kinds of workers, were {k0}, asked for {case["kinds"]}')
    require(n1 > n0 or case['names'] < 2 * n0, 'no-names', f'no new names of works, asked for {case["names"]}, there were {n0}')
    require(k1 > k0 or case['kinds'] < 2 * k0, 'no-kinds', f'no new kinds of workers, asked for {case["kinds"]}, there were {k0}')
    rec.nontrivial(n1 > n0 and k1 > k0)
    old, new = {r[0]: r for r in before}, {r[0]: r for r in plain(wg)}
    require(set(old) == set(new), 'works', 'other works')
    for i, a in old.items():
        b = new[i]
        require(a[2:4] == b[2:4] and a[5:] == b[5:] and [r[1:] for r in a[4]] == [r[1:] for r in b[4]], 'changed',
                lambda: f'besides names, a work changed: {a} -> {b}')
        na, nb = dict(a[1])['granular_name'], dict(b[1])['granular_name']
        require(nb.startswith(na), 'name', lambda: f'{na} is now {nb}')
        for x, y in zip(a[4], b[4]):
            require(y[0].startswith(x[0]), 'kind', lambda: f'{x[0]} is now {y[0]}')
    check_graph(wg)


def run_seed(case, rec):
    from sampo.generator.base import SimpleSynthetic
    with sut('crash'):
        ss = SimpleSynthetic(case['seed'])
        here = [plain(make(ss, c)) for c in case['calls']]
    rec.nontrivial(any(c['call'] != 'small' for c in case['calls']))
    for h in (1, 2):
        state, there = worker.ask(h, 'vf.checks.c23', 'replay_calls', case)
        require(state == 'ok', 'crash', lambda: f'crashed in another process: {there}')
        require(json.loads(json.dumps(here)) == there, 'repeat', lambda: f'the seed {case["seed"]} gives other data in another process')


@st.composite
def wg_contractor(draw):
    from vf import gen
    proj = draw(gen.works_and_edges(min_works=1, max_works=6))
    for w in proj['works']:
        more = draw(st.sampled_from([0, 0, 0, 5, 8, 97]))
        for r in w['reqs']:
            r[2], r[3] = r[2] + more, r[3] + more + draw(st.sampled_from([0, 0, 6]))
    return dict(proj, scale=draw(st.sampled_from([1, 1, 1.5, 2, 3])), method=draw(st.sampled_from(['MIN', 'AVG', 'MAX'])))


def run_contractor(case, rec):
    """The contractor made for a graph is able to do every work of it."""
    from sampo.generator.environment.contractor_by_wg import ContractorGenerationMethod, get_contractor_by_wg
    from vf import gen
    wg = gen.build_wg(case)
    with sut('crash'):
        c = get_contractor_by_wg(wg, case['scale'], getattr(ContractorGenerationMethod, case['method']), 'me', 'My')
    want = {}
    for w in case['works']:
        for k, _, lo, hi in w['reqs']:
            v = {'MIN': lo, 'AVG': (lo + hi) // 2, 'MAX': hi}[case['method']]
            want[k] = max(want.get(k, 0), v)
    got = {k: w.count for k, w in c.workers.items()}
    require(set(got) == set(want), 'kinds', lambda: f'kinds {sorted(got)}, required are {sorted(want)}')
    for k, v in want.items():
        require(v <= got[k] and abs(got[k] - v * case['scale']) < 1, 'count',
                lambda: f'{got[k]} of {k}; {case["method"]} of the requirements is {v}, times {case["scale"]}')
    for w in case['works']:
        for k, _, lo, _ in w['reqs']:
            require(got[k] >= lo, 'unable', lambda: f'{w["id"]} needs {lo} of {k}, the contractor has {got[k]}')
    require(c.id == 'me' and c.name == 'My' and all(w.contractor_id == 'me' and w.name == k for k, w in c.workers.items()), 'contractor',
            lambda: f'contractor {c}')
    rec.nontrivial(len([w for w in case['works'] if w['reqs']]) > 1)


def run_land(case, rec):
    """The landscape made for a graph can supply it."""
    from sampo.generator.base import SimpleSynthetic
    from sampo.generator.environment.contractor_by_wg import get_contractor_by_wg
    from sampo.scheduler import TopologicalScheduler
    with sut('crash'):
        ss = SimpleSynthetic(case['seed'])
        wg = ss.small_work_graph()
        wg = ss.set_materials_for_wg(wg, MATERIALS[:case['kinds']], case['lo'], case['kinds'])
        land = ss.synthetic_landscape(wg)
    place, need = {}, {}
    nodes = {n.id: n for n in land.lg.nodes}
    for n in nodes.values():
        for w in n.works:
            require(w.id not in place, 'two-places', lambda: f'{w.id} is done on two platforms')
            place[w.id] = n
    for w in wg.nodes:
        require((w.id in place) == (not w.work_unit.is_service_unit), 'place', lambda: f'{w.work_unit.model_name}: platform {place.get(w.id)}')
        for m in w.work_unit.material_reqs:
            need[m.kind] = need.get(m.kind, 0) + m.count
            cap = place[w.id].resource_storage_unit.capacity.get(m.kind, 0)
            require(cap >= m.count, 'storage', lambda: f'a work needs {m.count} of {m.kind}, its platform holds {cap}')
    stock = {}
    for h in land.holders:
        require(h.node.id in nodes and bool(h.vehicles), 'holder', lambda: f'{h.name}: no place or vehicles')
        for k, c in h.node.resource_storage_unit.capacity.items():
            stock[k] = stock.get(k, 0) + c
    for k, c in need.items():
        require(stock.get(k, 0) >= c, 'stock', lambda: f'{c} of {k} is needed, the holders have {stock.get(k, 0)}')
    adj = {i: set() for i in nodes}
    for n in nodes.values():
        for x in n.neighbours:
            adj[n.id].add(x.id)
            require(n in x.neighbours, 'one-way', lambda: f'{n.name} has {x.name} as a neighbour, but not the reverse')
    seen, stack = set(), [h.node.id for h in land.holders]
    while stack:
        i = stack.pop()
        if i not in seen:
            seen.add(i)
            stack += adj[i]
    for wid, n in place.items():
        require(n.id in seen, 'cut-off', lambda: f'no road from a holder to {n.name}')
    rec.nontrivial(len(need) > 1)
    if not case['plan']:
        return
    with sut('crash'):
        cons = [get_contractor_by_wg(wg)]
        sch = TopologicalScheduler().schedule(wg, cons, landscape=land)[0]
    starts = {w.id: (oracle.T(w.start_time), w) for w in sch.works}
    for wid, (st_, w) in starts.items():
        for m, lst in (w.materials.delivery if w.materials else {}).items():
            for count, t0, t1, _ in lst:
                require(count > 0 and oracle.T(t1) <= st_, 'late', lambda: f'{wid} starts at {st_}, its {m} arrives at {t1}')


def land_case(plan):
    return st.integers(1, 6).flatmap(lambda k: st.fixed_dictionaries(
        {'seed': st.integers(0, 10 ** 6), 'kinds': st.just(k), 'lo': st.integers(0, k), 'plan': st.just(plan)}))


SUBS = [Sub('graphs', case_(), run, quick=160, thorough=3000),
        Sub('advanced', st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'top': st.integers(1, 200), 'names': st.integers(1, 150),
                                               'kinds': st.integers(1, 60)}), run_advanced, quick=80, thorough=1500),
        Sub('seed', case_(), run_seed, quick=50, thorough=800),
        Sub('contractor', wg_contractor(), run_contractor, quick=400, thorough=5000),
        Sub('landscape', land_case(False), run_land, quick=120, thorough=2000),
        Sub('landscape-schedule', land_case(True), run_land, quick=16, thorough=300)]
