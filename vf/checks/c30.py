"""Unplanned works: sub-works by probabilities, graphs inserted in the middle of a project, sampled works."""
import gc
import random

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched, worker
from vf.checks import c22
from vf.core import Sub, sut, require

PROPERTY = 'C30'
RULE = ('One case is a random project, and either probabilities of sub-works for names of its works, or a graph to insert with a probability and a seed, '
        'or parameters of the sampler. Non-trivial: a sub-work is added, a graph is inserted next to a chain or a second time, or the sampler draws two kinds.')
ASSUMPTIONS = ['Projects into which something is inserted are those the schedulers accept.', 'Ids of works added are free.',
               'Requirements of sub-works are compared for a work estimator that is a function of its arguments.']
NAMES = ['dig', 'weld', 'paint', 'dummy']
SUBS_ = ['repair', 'check', 'dig', 'replace the pump']


def attrs(n):
    w = n.work_unit
    return (n.id, w.name, str(w.model_name), tuple((r.kind, oracle.T(r.volume), r.min_count, r.max_count) for r in w.worker_reqs),
            tuple((m.kind, m.count) for m in w.material_reqs), tuple((z.kind, z.required_status) for z in w.zone_reqs), w.volume, w.is_service_unit, w.priority,
            w.group, w.display_name, w.description)


def edges(wg):
    return sorted((e.start.id, e.finish.id, int(e.lag), e.type.value) for n in wg.nodes for e in n.edges_to)


def consistent(wg):
    """the edges seen from both ends, the order and the index of the nodes"""
    back = sorted((e.start.id, e.finish.id, int(e.lag), e.type.value) for n in wg.nodes for e in n.edges_from)
    require(edges(wg) == back, 'edges', 'edges seen from their two ends differ')
    pos = {n.id: i for i, n in enumerate(wg.nodes)}
    require(len(pos) == len(wg.nodes) == wg.vertex_count and set(wg.dict_nodes) == set(pos), 'nodes', f'{len(wg.nodes)} nodes, {len(pos)} ids, {wg.vertex_count} vertices')
    bad = [e for e in back if pos.get(e[0], 10 ** 9) >= pos.get(e[1], -1)]
    require(not bad, 'order', lambda: f'not in the order of the nodes: {bad}')
    require([n.id for n in wg.nodes if not n.edges_from] == [wg.finish.id], 'end', lambda: f'works after which nothing comes: {[n.id for n in wg.nodes if not n.edges_from]}')
    require([n.id for n in wg.nodes if not n.edges_to] == [wg.start.id], 'begin', lambda: f'works before which nothing comes: {[n.id for n in wg.nodes if not n.edges_to]}')


def schedulable(wg, alg):
    from sampo.generator.environment.contractor_by_wg import get_contractor_by_wg
    with sut('crash'):
        cons = [get_contractor_by_wg(wg, contractor_id='c0', contractor_name='c0')]
        sch = sched.make(alg).schedule(wg, cons)[0]
    proj = drive.describe(wg, cons)
    oracle.everything(proj, oracle.flatten(sch))


# -------------------------------------------------------------------------------------------------------------- sub-works

@st.composite
def doubled(draw, proj):
    """some pairs of works get a second relation of another type"""
    if proj['edges'] and draw(st.integers(0, 3)) == 0:
        for i in draw(st.sets(st.integers(0, len(proj['edges']) - 1), min_size=1, max_size=3)):
            a, b, _, t = proj['edges'][i]
            if t != 'IFS':
                proj['edges'].append([a, b, draw(st.integers(0, 9)), draw(st.sampled_from(['SS', 'FF']))])
                proj['doubled'] = True
    return proj


@st.composite
def sub_case(draw):
    proj = draw(doubled(draw(gen.works_and_edges(min_works=1, max_works=8, priorities=False))))
    for w in proj['works']:
        w['model'] = {'granular_name': draw(st.sampled_from(NAMES))}
        w['group'] = draw(st.sampled_from(['a', 'b']))
        if draw(st.integers(0, 3)) == 0:
            w['zones'] = [['z0', draw(st.integers(0, 2))]]
    return {'proj': proj, 'prob': {n: {s: draw(st.sampled_from([0, 0.3, 0.7, 1, 1])) for s in draw(st.sets(st.sampled_from(SUBS_)))}
                                   for n in draw(st.sets(st.sampled_from(NAMES)))},
            'how': draw(st.sampled_from(['one', 'dict', 'own'])), 'seed': draw(st.integers(0, 10 ** 6)),
            'volume': draw(st.one_of(st.none(), st.tuples(st.integers(1, 9), st.integers(0, 5)))), 'own': draw(st.booleans()),
            'alg': draw(st.sampled_from(['topological', 'heft', 'lft']))}


def own_volume(work_id, name):
    return 1 + len(name) % 4 + sum(map(ord, work_id)) % 7


def generator(case, rand):
    from sampo.schemas import IntervalUniform
    from sampo.schemas.structure_estimator import DefaultStructureGenerationEstimator, StructureGenerationEstimator
    if case['how'] == 'own':
        class Own(StructureGenerationEstimator):
            def generate_probabilities(self, parent):
                return dict(case['prob'].get(parent.name, {}))

            def get_volume(self, parent, target):
                return own_volume(parent.id, target)
        return Own()
    g = DefaultStructureGenerationEstimator(rand)
    if case['how'] == 'dict':
        g.set_probabilities({n: dict(case['prob'].get(n, {})) for n in NAMES + ['start', 'finish']})
    else:
        for n, subs in case['prob'].items():
            for s, p in subs.items():
                g.set_probability(n, s, p)
    if case['volume']:
        lo, w = case['volume']
        g.set_volume_interval(IntervalUniform(lo, lo + w, rand))
    return g


def restruct(case, wg):
    from sampo.schemas.structure_estimator import DefaultStructureEstimator
    rand = random.Random(case['seed'])
    e = DefaultStructureEstimator(generator(case, rand), rand)
    asked = []
    if case['own']:
        est = c22.estimator()
        find = est.find_work_resources

        def spy(model_name, work_volume, resource_name=None):
            asked.append((dict(model_name), work_volume))
            return find(model_name, work_volume, resource_name)
        est.find_work_resources = spy
        e.set_work_estimator(est)
    return e.restruct(wg), asked


def run_sub(case, rec):
    proj = case['proj']
    wg = gen.build_wg(proj)
    before = [attrs(n) for n in wg.nodes], edges(wg)
    with sut('crash'):
        new, asked = restruct(case, wg)
        gc.collect()
    require(([attrs(n) for n in wg.nodes], edges(wg)) == before, 'input', 'the graph given changed')
    consistent(new)
    old = {a[0] for a in before[0]}
    require({attrs(n) for n in new.nodes if n.id in old} == set(before[0]), 'works', lambda: f'works changed: {({attrs(n) for n in new.nodes if n.id in old}) ^ set(before[0])}')
    require(not any(wg.dict_nodes[i] is new.dict_nodes[i] for i in old), 'shared', 'nodes of the graph given are in the new one')
    require((new.start.id, new.finish.id) == (wg.start.id, wg.finish.id), 'ends', 'another start or finish')
    es = edges(new)
    require([e for e in es if e[0] in old and e[1] in old] == before[1], 'edges', 'edges between works changed')
    added = {}
    for n in new.nodes:
        if n.id in old:
            continue
        ps, cs = [(e.start.id, int(e.lag), e.type.value) for e in n.edges_to], [(e.finish.id, int(e.lag), e.type.value) for e in n.edges_from]
        require(len(ps) == 1 and ps[0][0] in old and ps[0][1:] == (0, 'FS'), 'sub-work', f'{n.id} comes after {ps}')
        require([c[0] for c in cs] == [new.finish.id], 'sub-work', f'{n.id} comes before {cs}')
        added.setdefault(ps[0][0], []).append(n)
    names = {w['id']: w for w in proj['works']}
    total = 0
    for wid in old:
        got = [n.work_unit.model_name['granular_name'] for n in added.get(wid, [])]
        w = names.get(wid)
        prob = {} if w is None or w['svc'] else case['prob'].get(w['model']['granular_name'], {})
        require(len(got) == len(set(got)) and {s for s, p in prob.items() if p == 1} <= set(got) <= {s for s, p in prob.items() if p}, 'probability',
                lambda: f'{wid} ({w and w["model"]}) has sub-works {got}, probabilities {prob}')
        total += len(got)
        for n in added.get(wid, []):
            u = n.work_unit
            require([(z.kind, z.required_status) for z in u.zone_reqs] == [tuple(z) for z in w.get('zones', [])], 'zones', f'{u.zone_reqs}, zones of {wid} {w.get("zones")}')
            require(not u.is_service_unit and u.display_name == u.model_name['granular_name'], 'sub-work', f'{u}')
            lo, wd = case['volume'] or (0.1, 9.9)
            if case['how'] == 'own':
                lo, wd = own_volume(wid, u.name), 0
            require(lo - 1e-9 <= u.volume <= lo + wd + 1e-9, 'volume', f'volume {u.volume}, asked for {lo}..{lo + wd}')
            if case['own']:
                with sut('direct'):
                    want = c22.estimator().find_work_resources({'granular_name': u.model_name['granular_name'], 'measurement': 'unit'}, u.volume)
                require([(r.kind, oracle.T(r.volume), r.min_count, r.max_count) for r in u.worker_reqs] ==
                        [(r.kind, oracle.T(r.volume), r.min_count, r.max_count) for r in want], 'requirements', f'{u.worker_reqs}, of the estimator {want}')
    rec.nontrivial(total > 0)
    rec.label(f'{min(total, 4)} sub-works', 'own' if case['own'] else 'default')
    with sut('crash'):
        again, _ = restruct(case, wg)

    def view(g):
        return [(n.work_unit.name, n.work_unit.volume, [n.edges_to[0].start.id]) for n in g.nodes if n.id not in old]
    require(sorted(view(again)) == sorted(view(new)), 'repeat', 'other sub-works with the same seed')
    if case['own'] and not any(w.get('zones') for w in proj['works']) and not proj.get('doubled'):
        schedulable(new, case['alg'])


def run_often(case, rec):
    """in a long row of works about as many get the sub-work as the probability says"""
    n, p = 400, case['p'] / 10
    works = [{'id': f'w{i}', 'reqs': [], 'vol': 1, 'svc': False, 'prio': 1, 'model': {'granular_name': 'dig'}} for i in range(n)]
    wg = gen.build_wg({'works': works, 'edges': []})
    with sut('crash'):
        new, _ = restruct({'prob': {'dig': {'repair': p, 'check': 1 - p}}, 'how': 'one', 'volume': None, 'seed': case['seed'], 'own': True}, wg)
    rec.nontrivial()
    kinds = [x.work_unit.name for x in new.nodes]
    for k, q in ('repair', p), ('check', 1 - p):
        c = kinds.count(k)
        require(abs(c - n * q) <= 7 * (n * q * (1 - q)) ** 0.5, 'frequency', f'{c} of {n} works have the sub-work {k} of probability {q}')


@st.composite
def prep_case(draw):
    c = draw(sub_case())
    for w in c['proj']['works']:
        w.pop('zones', None)
        if w['svc']:
            w['svc'] = False
    return dict(c, own=True, cons=draw(st.booleans()), both=draw(st.booleans()))


def run_prep(case, rec):
    """the pipeline adds the sub-works to the graph it prepares, with contractors or without"""
    from sampo.pipeline.preparation import PreparationPipeline
    from sampo.schemas.structure_estimator import DefaultStructureEstimator
    wg = gen.build_wg(case['proj'])
    given = gen.build_contractors({'contractors': [{'id': 'c0', 'name': 'c0', 'workers': {k: 50 for k in gen.KINDS}, 'cost': {}}]}) if case['cons'] else None

    def pipe(sub):
        p = PreparationPipeline(wg).work_estimator(c22.estimator())
        if given:
            p = p.contractors(given)
        if sub:
            rand = random.Random(case['seed'])
            p = p.structure_estimator(DefaultStructureEstimator(generator(case, rand), rand).set_work_estimator(c22.estimator()))
        return p
    with sut('crash'):
        plain = pipe(False).build_wg()
        cons = None
        if case['both']:
            new, cons = pipe(True).build_wg_and_contractors()
        else:
            new = pipe(True).build_wg()
    with sut('direct'):
        rand = random.Random(case['seed'])
        want = DefaultStructureEstimator(generator(case, rand), rand).set_work_estimator(c22.estimator()).restruct(plain)
    ends = lambda g: (g.start.id, g.finish.id)

    def view(g):
        known = {w['id'] for w in case['proj']['works']}
        name = lambda n: n.id if n.id in known else n.work_unit.name
        return sorted((name(n), n.work_unit.name, n.work_unit.volume, str([(r.kind, oracle.T(r.volume), r.min_count) for r in n.work_unit.worker_reqs]),
                       str(sorted(name(e.start) for e in n.edges_to))) for n in g.nodes if n.id not in ends(g))
    require(view(new) == view(want), 'pipeline', lambda: f'prepared {view(new)}, restructured {view(want)}')
    rec.nontrivial(len(new.nodes) > len(plain.nodes))
    rec.label('contractors' if case['both'] else 'graph', 'given' if given else 'generated')
    if cons is not None:
        if given:
            require([c.id for c in cons] == ['c0'], 'contractors', f'{cons}')
        with sut('crash'):
            sch = sched.make(case['alg']).schedule(new, cons)[0]
        oracle.everything(drive.describe(new, cons), oracle.flatten(sch))


# ------------------------------------------------------------------------------------------------------------- insertion

@st.composite
def insert_case(draw):
    kw = dict(priorities=False)
    proj = draw(doubled(draw(gen.works_and_edges(min_works=1, max_works=draw(st.sampled_from([3, 8])), **kw))))
    other = draw(doubled(draw(gen.works_and_edges(min_works=1, max_works=4, **kw))))
    same = draw(st.booleans())
    return {'proj': proj, 'other': other, 'same_ids': same, 'p': draw(st.sampled_from([0, 3, 7, 10, 10, 10])), 'seed': draw(st.integers(0, 10 ** 6)),
            'times': draw(st.integers(1, 3)), 'static': draw(st.booleans()), 'alg': draw(st.sampled_from(['topological', 'heft', 'lft'])),
            'apply': draw(st.integers(0, 3)) == 0}


def run_insert(case, rec):
    from sampo.scheduler.utils.obstruction import OneInsertObstruction
    proj = case['proj']
    other = case['other'] if case['same_ids'] else dict(case['other'], works=[dict(w, id='x' + w['id']) for w in case['other']['works']])
    wg, ins = gen.build_wg(proj), gen.build_wg(other, *([] if case['same_ids'] else ['xs', 'xf']))
    ends = ('start', 'finish') if case['same_ids'] else ('xs', 'xf')
    got = []

    def getter(rand):
        g = gen.build_wg(other, *ends)
        got.append(rand)
        return g
    p = 1 if case['apply'] else case['p'] / 10
    rand, ref = random.Random(case['seed']), random.Random(case['seed'])
    with sut('crash'):
        o = OneInsertObstruction.from_static_graph(p, rand, ins) if case['static'] else OneInsertObstruction(p, rand, getter)
    ins_before = [attrs(n) for n in ins.nodes], edges(ins)
    chain_of = {proj['works'][i]['id']: k for k, b in enumerate(proj['blocks']) for i in b}
    applied, uid = 0, 0
    sig = sorted(attrs(n)[1:] for n in ins.nodes)

    def shape(ns, es):
        return sorted((tuple(sorted(a[1:] for a in ns if a[0] == s)), tuple(sorted(a[1:] for a in ns if a[0] == f)), lag, t) for s, f, lag, t in es)
    sig_e = shape(*ins_before)
    for _ in range(case['times']):
        nodes0, edges0 = {n.id: attrs(n) for n in wg.nodes}, edges(wg)
        kids0 = {i: {e[1] for e in edges0 if e[0] == i} for i in nodes0}
        ref.setstate(rand.getstate())
        with sut('crash'):
            if case['apply']:
                o.apply(wg)
                do = True
            else:
                do = ref.random() < p
                o.generate(wg)
            gc.collect()
        nodes1, edges1 = {n.id: attrs(n) for n in wg.nodes}, edges(wg)
        new = set(nodes1) - set(nodes0)
        require(set(nodes0) <= set(nodes1) and all(nodes1[i] == a for i, a in nodes0.items()), 'works', 'works of the project are changed or lost')
        if not do:
            require(not new and edges0 == edges1, 'probability', f'{len(new)} works added although the draw is not below {p}')
            continue
        applied += 1
        require(new, 'probability', f'nothing is added although the draw is below {p}')
        consistent(wg)
        require([e for e in edges1 if e[0] in nodes0 and e[1] in nodes0] == edges0, 'edges', 'edges of the project changed')
        require(sorted(nodes1[i][1:] for i in new) == sig, 'inserted', lambda: f'works inserted: {[nodes1[i] for i in new]}')
        inner = [e for e in edges1 if e[0] in new and e[1] in new]
        require(shape([nodes1[i] for i in new], inner) == sig_e, 'inserted', lambda: f'edges inserted: {inner}')
        into, out = [e for e in edges1 if e[1] in new and e[0] not in new], [e for e in edges1 if e[0] in new and e[1] not in new]
        require(len(into) == 1 and len(out) == 1, 'place', f'entered by {into}, left by {out}')
        require(not [e for e in inner if e[1] == into[0][1]] and not [e for e in inner if e[0] == out[0][0]], 'place', 'not entered at its start or not left at its finish')
        a, b = into[0][0], out[0][1]
        require(b in kids0[a], 'place', f'inserted between {a} and {b}, which does not follow it')
        require(chain_of.get(a, -1) != chain_of.get(b, -2), 'place', f'inserted inside of the chain of {a} and {b}')
        rec.nontrivial(any(len(proj['blocks'][chain_of[x]]) > 1 for x in (a, b) if x in chain_of) or applied > 1)
    require(([attrs(n) for n in ins.nodes], edges(ins)) == ins_before, 'input', 'the graph to insert changed')
    require(all(r is rand for r in got) and (case['static'] or len(got) == applied), 'getter', f'{len(got)} graphs made, {applied} inserted')
    rec.label(f'applied {applied}', 'static' if case['static'] else 'getter')
    if applied and not proj.get('doubled') and not other.get('doubled'):
        schedulable(wg, case['alg'])


# --------------------------------------------------------------------------------------------------------------- sampler

@st.composite
def sampler_case(draw):
    lo = lambda a, b: draw(st.tuples(st.integers(a, b), st.integers(0, 20)))
    return {'seed': draw(st.integers(0, 10 ** 6)), 'vol': lo(0, 30), 'count': lo(1, 5), 'work': lo(0, 20), 'n': draw(st.integers(1, 4)),
            'scalar': draw(st.sampled_from([0.5, 1, 1.0, 2, 3.5])), 'name': draw(st.sampled_from(['w', {'granular_name': 'x', 'measurement': 'km'}])),
            'given': draw(st.booleans()), 'process': draw(st.integers(0, 9)) == 0}


def sample(case):
    from sampo.utilities.sampler import Sampler
    from sampo.utilities.sampler.types import MinMax
    s = Sampler(case['seed'])
    m = lambda k: MinMax(case[k][0], case[k][0] + case[k][1])
    out, prev = [], None
    for i in range(case['n']):
        name = dict(case['name']) if isinstance(case['name'], dict) else case['name']
        node = s.graph_node(name, [prev] if prev else [], f'id{i}' if case['given'] else '', group='g', work_volume=m('work'), req_volume=m('vol'), req_worker_count=m('count'))
        twin = s.similar_graph_node(node, [node], scalar=case['scalar'])
        out.append((node, twin))
        prev = twin
    return out


def printed(case):
    return [[list(map(str, attrs(x))) for x in pair] for pair in sample(case)]


def run_sampler(case, rec):
    with sut('crash'):
        out = sample(case)
        again = printed(case)
        [x.work_unit._serialize() for p in out for x in p]
    require([[list(map(str, attrs(x))) for x in pair] for pair in out] == again, 'repeat', 'other works with the same seed')
    if case['process']:
        got = [worker.ask(h, 'vf.checks.c30', 'printed', case) for h in (1, 2)]
        require(got[0] == ['ok', again] and got[1] == got[0], 'hash-seed', lambda: f'other works in another process: {got} {again}'[:900])
    for i, (a, b) in enumerate(out):
        u, t = a.work_unit, b.work_unit
        require(not case['given'] or u.id == f'id{i}', 'id', u.id)
        require(u.group == t.group == 'g' and u.name == t.name, 'attributes', f'{u} {t}')
        lo, w = case['work']
        require(lo - 1e-9 <= u.volume <= lo + w + 1e-9 and abs(t.volume - u.volume * case['scalar']) < 1e-6, 'volume', f'{u.volume}, {t.volume}; asked for {lo}..{lo + w}')
        kinds = [r.kind for r in u.worker_reqs]
        require(kinds and len(set(kinds)) == len(kinds) and set(kinds) <= set(gen.KINDS), 'kinds', kinds)
        rec.nontrivial(len(kinds) > 1)
        for r, q in zip(u.worker_reqs, t.worker_reqs):
            require(case['vol'][0] <= oracle.T(r.volume) <= sum(case['vol']) and (r.min_count, r.max_count) == (case['count'][0], sum(case['count'])), 'requirement', f'{r}')
            require(q.kind == r.kind and q.min_count == r.min_count and abs(oracle.T(q.volume) - oracle.T(r.volume) * case['scalar']) <= 1
                    and q.max_count == max(round(r.max_count * case['scalar']), r.min_count), 'similar', f'{q} of {r} by {case["scalar"]}')
        require(len(t.worker_reqs) == len(kinds), 'similar', f'{t.worker_reqs}')
        require([e.start.id for e in b.edges_to] == [a.id] and [e.start.id for e in a.edges_to] == ([out[i - 1][1].id] if i else []), 'edges', 'other edges than given')
    ids = [x.id for p in out for x in p]
    require(len(set(ids)) == len(ids), 'id', f'{ids}')


SUBS = [Sub('sub-works', sub_case(), run_sub, quick=700, thorough=9000),
        Sub('often', st.fixed_dictionaries({'p': st.integers(1, 9), 'seed': st.integers(0, 10 ** 6)}), run_often, quick=24, thorough=200),
        Sub('pipeline', prep_case(), run_prep, quick=150, thorough=2000),
        Sub('insertion', insert_case(), run_insert, quick=700, thorough=9000),
        Sub('sampler', sampler_case(), run_sampler, quick=400, thorough=6000)]
