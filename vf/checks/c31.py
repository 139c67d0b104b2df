"""Several agents and a project of blocks: auctions, block graphs, their generators and the features of graphs."""
import copy
import gc
import random

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched, stub, worker
from vf.checks.c09 import snap_con, snap_wg
from vf.checks.c30 import attrs, consistent, edges
from vf.core import Sub, sut, require

PROPERTY = 'C31'
RULE = ('One case is a random graph of blocks (each of them a random project) with agents that have their own schedulers and contractors; or parameters of a generator '
        'of block graphs; or a random graph whose features are computed. Non-trivial: two blocks and two agents get work, or blocks depend on each other.')
ASSUMPTIONS = ['Each agent is able to do each block.', 'Torch, ray and scikit-learn are not installed: modules that name them at import get stand-ins, and the two neural '
               'networks of the neural manager are replaced by recorded answers.', 'No two blocks share ids of works, no two agents share contractors or names.']
ALGS = ['heft', 'heft_between', 'topological', 'lft', 'heft_avg']


def rename(proj, tag):
    return dict(proj, works=[dict(w, id=f'{tag}{w["id"]}') for w in proj['works']], start_id=f'{tag}start', finish_id=f'{tag}finish')


@st.composite
def blocks(draw, most=5):
    kinds = gen.KINDS[:3]
    n = draw(st.integers(1, most))
    out = [draw(gen.works_and_edges(min_works=draw(st.sampled_from([0, 1, 1])), max_works=4, priorities=False, kinds=kinds)) for _ in range(n)]
    es = sorted({(a, b) for a, b in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=6)) if a < b})
    return {'blocks': [rename(p, f'b{i}') for i, p in enumerate(out)], 'links': [list(e) for e in es], 'order': draw(st.permutations(list(range(n))))}


@st.composite
def auction_case(draw, manager):
    c = draw(blocks())
    agents = []
    algs = ['genetic', 'topological'] if draw(st.integers(0, 9)) == 0 else ALGS
    for a in range(draw(st.integers(1, 3))):
        cons = [{'id': f'a{a}c{i}', 'name': f'a{a}c{i}', 'cost': {},
                 'workers': {k: draw(st.integers(4 if i == 0 else 1, 9)) for k in (draw(st.permutations(gen.KINDS[:3])) if i else gen.KINDS[:3])}}
                for i in range(draw(st.sampled_from([1, 1, 2])))]
        agents.append({'name': f'agent {a}', 'alg': draw(st.sampled_from(algs)), 'cons': cons, 'seed': draw(st.integers(0, 20))})
    return dict(c, agents=agents, manager=manager, repeat=draw(st.booleans()), stoch_seed=draw(st.integers(0, 99)),
                net=[[draw(st.integers(0, 10)), [draw(st.integers(0, 9)) for _ in range(3)]] for _ in c['blocks']])


def build(p):
    """a block; one without works is the start and the finish only"""
    from sampo.schemas.graph import WorkGraph, get_finish_stage, get_start_stage
    if p['works']:
        return gen.build_wg(p, p['start_id'], p['finish_id'])
    start = get_start_stage(p['start_id'])
    return WorkGraph(start, get_finish_stage([start], p['finish_id']))


def build_blocks(case):
    stub.install()
    from sampo.scheduler.multi_agency.block_graph import BlockGraph
    wgs = [build(p) for p in case['blocks']]
    bg = BlockGraph.pure([wgs[i] for i in case['order']])
    by = {i: bg.nodes[k] for k, i in enumerate(case['order'])}
    for a, b in case['links']:
        BlockGraph.add_edge(by[a], by[b])
    return bg, wgs, by


def shape(bg):
    return [(n.id, sorted(x.id for x in n.blocks_from), sorted(x.id for x in n.blocks_to)) for n in bg.nodes]


class Net:
    """the answers of a neural network, one for each block"""
    def __init__(self, answers):
        self.answers = answers

    def predict(self, x):
        return [self.answers[i] for i in x]

    predict_proba = predict


def agents_of(case):
    from sampo.scheduler.multi_agency.multi_agency import Agent
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    out = []
    for a in case['agents']:
        s = sched.make(a['alg'], a['seed'], 1, 4)
        s.work_estimator = DefaultWorkEstimator(random.Random(case['stoch_seed'] + a['seed']))
        out.append(Agent(a['name'], s, gen.build_contractors({'contractors': a['cons']})))
    return out


def manage(case, bg):
    from sampo.scheduler.multi_agency.multi_agency import Manager, NeuralManager, StochasticManager
    agents = agents_of(case)
    if case['manager'] == 'neural':
        order = bg.toposort()
        schedulers = list({type(a.scheduler): a.scheduler for a in agents}.values())
        index = [case['blocks'].index(next(p for p in case['blocks'] if p['start_id'] == n.id)) for n in order]
        import numpy as np
        algo = Net([np.float64(case['net'][i][0] % len(schedulers)) for i in range(len(case['net']))])

        class One(Net):
            def predict(self, x):
                return np.asarray(super().predict(x)[0])
        m = NeuralManager(agents, One(algo.answers), Net([case['net'][i][1] for i in range(len(case['net']))]), schedulers, order, index)
        return m.manage_blocks(), agents, schedulers
    m = (Manager if case['manager'] == 'plain' else StochasticManager)(agents)
    return m.manage_blocks(bg, logger=lambda s: None), agents, None


def picture(res):
    return {i: (b.agent.name, oracle.T(b.start_time), oracle.T(b.end_time), {w: (s['st'], s['ft'], sorted(s['team'])) for w, s in oracle.flatten(b.schedule).items()})
            for i, b in res.items()}


def run_auction(case, rec):
    from sampo.schemas.time import Time
    bg, wgs, by = build_blocks(case)
    from sampo.scheduler.multi_agency.block_validation import validate_block_schedule
    before = shape(bg), [snap_wg(w) for w in wgs]
    from sampo.schemas.time_estimator import WorkerProductivityMode
    with sut('crash'):
        res, agents, schedulers = manage(case, bg)
    require((shape(bg), [snap_wg(w) for w in wgs]) == before, 'input', 'the blocks or the edges between them changed')
    by_name = {a['name']: a for a in case['agents']}
    for a in agents:
        require([c[0] for c in snap_con(a.contractors)] == [c['id'] for c in by_name[a.name]['cons']]
                and [dict((k, w[2]) for k, *w in c[2]) for c in snap_con(a.contractors)] == [c['workers'] for c in by_name[a.name]['cons']], 'input', 'contractors changed')
    ids = [p['start_id'] for p in case['blocks']]
    require(sorted(res) == sorted(ids) and all(res[p['start_id']].wg is w for p, w in zip(case['blocks'], wgs)), 'blocks', f'blocks scheduled: {sorted(res)}')
    parents = {i: [ids[a] for a, b in case['links'] if ids[b] == i] for i in ids}
    order = list(res)
    for k, i in enumerate(order):
        require(set(parents[i]) <= set(order[:k]), 'order', f'{i} is taken before the blocks it depends on: {order}')
    use, last = {}, {}
    for p in case['blocks']:
        b = res[p['start_id']]
        require(b.agent in agents, 'agent', f'{b.agent}')
        sd = oracle.flatten(b.schedule)
        proj = dict(p, contractors=by_name[b.agent.name]['cons'], spec={})
        at = max([oracle.T(res[q].end_time) for q in parents[b.id]], default=0)
        s, e = oracle.T(b.start_time), oracle.T(b.end_time)
        require(s >= at, 'parent', f'block {b.id} starts at {s}, those it depends on end at {at}')
        require(e == max(x['ft'] for x in sd.values()) and s <= min(x['st'] for x in sd.values()), 'bounds', f'{b.id} takes {s}..{e}, its works {min(x["st"] for x in sd.values())}..{max(x["ft"] for x in sd.values())}')
        if case['manager'] == 'stochastic':
            for o in (oracle.complete, oracle.precedence, oracle.team, oracle.chains):
                o(proj, sd)
        else:
            oracle.everything(proj, sd, split=by_name[b.agent.name]['alg'] == 'genetic', at=at)
        require(min(x['st'] for x in sd.values()) >= at, 'parent', f'a work of {b.id} starts before the blocks it depends on end')
        for block in p['blocks']:
            ws = [p['works'][i]['id'] for i in block]
            lo, hi = min(sd[w]['st'] for w in ws), max(sd[w]['ft'] for w in ws)
            if lo < hi:
                for name, k, con in sd[ws[0]]['team']:
                    use.setdefault((con, name), []).extend([(hi, 0, -k), (lo, 1, k)])
    staff = {(c['id'], k): n for a in case['agents'] for c in a['cons'] for k, n in c['workers'].items()}
    for key, ev in use.items():
        busy = 0
        for t, _, k in sorted(ev):
            busy += k
            require(busy <= staff[key], 'capacity', f'{busy} x {key[1]} of {key[0]} work at {t}, it has {staff[key]}')
    # who gets a block
    free = {a.name: 0 for a in agents}
    mirror, lines = agents_of(case), {}
    for i in order:
        b = res[i]
        at = max([oracle.T(res[q].end_time) for q in parents[i]], default=0) + 1
        if case['manager'] == 'plain':
            offers = []
            for a in mirror:
                with sut('direct'):
                    sch, s, line, _ = a.scheduler.schedule_with_cache(b.wg, a.contractors, assigned_parent_time=Time(at), timeline=copy.deepcopy(lines.get(a.name)))[0]
                offers.append((max(oracle.T(w.finish_time) for w in sch.works), a.name, line))
            best = min(o[0] for o in offers)
            # seeded generators of an agent go on from call to call: only the heuristics are compared
            if all(a['alg'] != 'genetic' for a in case['agents']):
                require(oracle.T(b.end_time) == best, 'auction', f'{i} is finished at {b.end_time} by {b.agent.name}; offers {[o[:2] for o in offers]}')
                require(best in [o[0] for o in offers if o[1] == b.agent.name], 'auction', f'{i} went to {b.agent.name}; offers {[o[:2] for o in offers]}')
            lines[b.agent.name] = next(o[2] for o in offers if o[1] == b.agent.name)
        if case['manager'] == 'neural':
            k = ids.index(i)
            algo = type(schedulers[case['net'][k][0] % len(schedulers)])
            can = [a for a in agents if free[a.name] < at and isinstance(a.scheduler, algo)] or [a for a in agents if free[a.name] < at] or \
                  [a for a in agents if isinstance(a.scheduler, algo)] or agents
            far = {a.name: sum((w.count - x) ** 2 for w, x in zip(a.contractors[0].workers.values(), case['net'][k][1])) for a in can}
            require(b.agent.name in far and far[b.agent.name] == min(far.values()), 'choice', f'{i} went to {b.agent.name}; distances of those preferred: {far}')
        free[b.agent.name] = oracle.T(b.end_time)
    for a in agents:
        require(oracle.T(a.end_time) == free[a.name], 'agent', f'{a.name} ends at {a.end_time}, its last block at {free[a.name]}')
    if len(agents) == 1:
        gap, end = 0, 0
        for i in order:
            gap += max(0, oracle.T(res[i].start_time) - end)
            end = oracle.T(res[i].end_time)
        require(oracle.T(agents[0].downtime) == gap, 'downtime', f'{agents[0].downtime}, gaps between blocks {gap}')
    require(all(oracle.T(a.downtime) >= 0 for a in agents), 'downtime', 'negative')
    if case['manager'] != 'stochastic':
        with sut('refused'):
            validate_block_schedule(bg, res, agents)
        linked = [(q, i) for i in ids for q in parents[i]]
        if linked:
            q, i = linked[-1]
            bad = dict(res)
            bad[i] = copy.copy(res[i])
            bad[i].start_time = res[q].end_time - Time(1)
            try:
                validate_block_schedule(bg, bad, agents)
                require(False, 'accepted', f'{i} starts at {bad[i].start_time}, before {q} ends at {res[q].end_time}, and is accepted')
            except AssertionError:
                pass
    else:
        modes = {a.scheduler.work_estimator._productivity_mode for a in agents}
        require(modes == {WorkerProductivityMode.Static}, 'mode', f'the estimators of agents are left in {modes}')
    if case['repeat']:
        with sut('crash'):
            again = manage(case, build_blocks(case)[0])[0]
        require(picture(again) == picture(res), 'repeat', lambda: f'another result when repeated: {picture(again)}, before {picture(res)}'[:900])
    rec.nontrivial(len({b.agent.name for b in res.values()}) > 1 and len(res) > 1)
    rec.label(case['manager'], f'{len(agents)} agents')


# ------------------------------------------------------------------------------------------------------------ block graphs

@st.composite
def graph_case(draw):
    return dict(draw(blocks(7)), alg=draw(st.sampled_from(ALGS)))


def run_graph(case, rec):
    bg, wgs, by = build_blocks(case)
    before = shape(bg), [(sorted(map(attrs, w.nodes)), edges(w)) for w in wgs]
    ids = [p['start_id'] for p in case['blocks']]
    with sut('crash'):
        other = copy.copy(bg)
        wg = bg.to_work_graph()
        wg2 = other.to_work_graph()
        order = [n.id for n in bg.toposort()]
    with sut('crash'):
        gc.collect()
    require(shape(other) == shape(bg), 'copy', lambda: f'copy {shape(other)}, original {shape(bg)}')
    require(not any(x is y for x in other.nodes for y in bg.nodes) and all(other[i].wg is bg[i].wg for i in ids), 'copy', 'blocks of the copy')
    require((shape(bg), [(sorted(map(attrs, w.nodes)), edges(w)) for w in wgs]) == before, 'input', 'the block graph changed')
    require(len(bg) == len(ids) and sorted(order) == sorted(ids), 'toposort', f'{order}')
    rec.nontrivial(len(case['links']) > 0)
    for a, b in case['links']:
        # the library sorts from the last blocks to the first or from the first to the last; a manager needs the first ones first
        require(order.index(ids[a]) < order.index(ids[b]), 'toposort', f'{order}, {ids[a]} before {ids[b]}')
    for g in (wg, wg2):
        consistent(g)
        works = {a[0]: a for w in before[1] for a in w[0]}
        got = {n.id: attrs(n) for n in g.nodes}
        extra = {g.start.id, g.finish.id}
        require(set(got) - extra == set(works) and all(got[i] == works[i] for i in works), 'works', lambda: f'{set(got) ^ set(works)}')
        inner = [e for w in before[1] for e in w[1]]
        links = {(p['finish_id'], q['start_id']) for a, b in case['links'] for p, q in [(case['blocks'][a], case['blocks'][b])]}
        es = edges(g)
        require(set(inner) <= set(es), 'edges', 'edges inside of blocks are lost')
        rest = [e for e in es if e not in inner]
        require({e[:2] for e in rest if not extra & set(e[:2])} == links and all(e[2:] == (0, 'FS') for e in rest), 'edges', lambda: f'{rest}; links of blocks {links}')
        require(not any(x in got and x in works for x in extra), 'ends', 'start and finish are works of blocks')
        heads = {ids[i] for i in range(len(ids)) if not any(b == i for _, b in case['links'])}
        require({e[1] for e in rest if e[0] == g.start.id} == heads, 'ends', 'blocks that begin')
    schedule_it(wg, case['alg'])


def schedule_it(wg, alg):
    from sampo.generator.environment.contractor_by_wg import get_contractor_by_wg
    with sut('crash'):
        cons = [get_contractor_by_wg(wg, contractor_id='c0', contractor_name='c0')]
        sch = sched.make(alg).schedule(wg, cons)[0]
    oracle.everything(drive.describe(wg, cons), oracle.flatten(sch))


# -------------------------------------------------------------------------------------------------------------- generators

@st.composite
def made_case(draw):
    n = draw(st.integers(1, 5))
    return {'type': draw(st.sampled_from(['SEQUENTIAL', 'PARALLEL', 'RANDOM', 'QUEUES'])), 'n': n, 'seed': draw(st.integers(0, 10 ** 6)),
            'prop': draw(st.sampled_from([[1, 1, 1], [1, 0, 0], [0, 1, 0], [0, 0, 2], [1, 2, 0]])), 'p': draw(st.sampled_from([0, 0.5, 0.9, 1, 1])),
            'queues': draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)), 'lo': draw(st.sampled_from([3, 12])), 'top': draw(st.integers(0, 3)) == 0}


def generate(case):
    stub.install()
    from sampo.scheduler.multi_agency.block_generator import SyntheticBlockGraphType, generate_block_graph
    asked = []

    def supply(i):
        asked.append(i)
        return (None, 40) if case['top'] else (case['lo'], None)
    bg = generate_block_graph(SyntheticBlockGraphType[case['type']], case['n'], case['prop'], supply, case['p'], random.Random(case['seed']),
                              queues_num=len(case['queues']), queues_blocks=case['queues'], queues_edges=case['queues'], logger=lambda s: None)
    return bg, asked


def kinds_of(bg):
    return [(n.wg.vertex_count, sorted((w.work_unit.display_name, w.work_unit.volume) for w in n.wg.nodes), sorted(bg.nodes.index(x) for x in n.blocks_to)) for n in bg.nodes]


def run_made(case, rec):
    with sut('crash'):
        bg, asked = generate(case)
        again = generate(case)[0]
        order = bg.toposort()
    require(kinds_of(bg) == kinds_of(again), 'repeat', 'other blocks with the same seed')
    pos = {n.id: i for i, n in enumerate(bg.nodes)}
    require(len(pos) == len(bg.nodes), 'ids', 'blocks share ids')
    back = sorted((pos[x.id], i) for i, n in enumerate(bg.nodes) for x in n.blocks_from)
    es = sorted((i, pos[x.id]) for i, n in enumerate(bg.nodes) for x in n.blocks_to)
    require(back == es, 'edges', 'edges seen from both ends differ')
    at = {n.id: i for i, n in enumerate(order)}
    require(all(at[n.id] < at[x.id] for n in bg.nodes for x in n.blocks_to), 'toposort', 'order of blocks')
    real = [i for i, n in enumerate(bg.nodes) if not n.is_service()]
    for i in real:
        k = len(bg.nodes[i].wg.nodes) - 2
        require(case['top'] or k >= case['lo'], 'border', f'a block of {k} works, at least {case["lo"]} asked for')
    if case['type'] == 'QUEUES':
        require(len(real) == sum(case['queues']) and len(bg.nodes) == sum(case['queues']) + len(case['queues']) + 1, 'blocks', f'{len(bg.nodes)} blocks')
        want, first = [], 0
        for q in case['queues']:
            nxt = first + q + 1
            want += [e for k in range(1, q + 1) for e in ((first, first + k), (first + k, nxt))]
            first = nxt
        require(es == sorted(want), 'edges', lambda: f'{es}, of the queues {sorted(want)}')
    else:
        n = case['n']
        require(real == list(range(n)) and len(bg.nodes) == n + 2, 'blocks', f'{len(bg.nodes)} blocks, {n} asked for')
        require(asked == list(range(n)), 'sizes', f'sizes asked for blocks {asked}')
        outer = sorted([(n, i) for i in real] + [(i, n + 1) for i in real])
        inner = [e for e in es if e not in outer]
        require(set(outer) <= set(es) and len(es) == len(set(es)), 'edges', f'{es}')
        every = [(i, j) for i in range(n) for j in range(i + 1, n)]
        if case['type'] == 'SEQUENTIAL':
            require(inner == [(i, i + 1) for i in range(n - 1)], 'edges', f'{inner}')
        elif case['type'] == 'PARALLEL':
            require(not inner, 'edges', f'{inner}')
        else:
            require(set(inner) <= set(every) and (case['p'] > 0 or not inner) and (case['p'] < 1 or inner == every), 'edges', f'{inner} with probability {case["p"]}')
    rec.label(case['type'])
    rec.nontrivial(len(real) > 1)


def run_edges(case, rec):
    """many random block graphs have about as many edges as the probability says"""
    total = count = 0
    stub.install()
    from sampo.scheduler.multi_agency.block_generator import SyntheticBlockGraphType, generate_blocks
    rand, p = random.Random(case['seed']), case['p'] / 10
    for _ in range(case['rounds']):
        with sut('crash'):
            bg = generate_blocks(SyntheticBlockGraphType.RANDOM, 16, [1, 0, 0], lambda i: (1, None), p, rand, logger=lambda s: None)
        count += sum(1 for n in bg.nodes for x in n.blocks_to if not n.is_service() and not x.is_service())
        total += 16 * 15 // 2
    rec.nontrivial()
    require(abs(count - total * p) <= 6 * (total * p * (1 - p)) ** 0.5, 'frequency', f'{count} of {total} edges, probability {p}')


# ---------------------------------------------------------------------------------------------------------------- features

@st.composite
def feature_case(draw):
    return {'proj': draw(gen.works_and_edges(min_works=1, max_works=draw(st.sampled_from([4, 10])))), 'process': draw(st.integers(0, 9)) == 0}


def features(case):
    stub.install()
    from sampo.scheduler.selection.metrics import encode_graph
    return [float(x) for x in encode_graph(gen.build_wg(case['proj']))]


def run_features(case, rec):
    stub.install()
    from sampo.scheduler.selection import metrics
    proj = case['proj']
    wg = gen.build_wg(proj)
    before = snap_wg(wg)
    with sut('crash'):
        enc = features(case)
        longest = metrics.metric_longest_path(wg)
        avg, use, ch, par = (metrics.metric_average_work_per_activity(wg), metrics.metric_average_resource_usage(wg), metrics.metric_relative_max_children(wg),
                             metrics.metric_relative_max_parents(wg))
        deg = metrics.metric_graph_parallelism_degree(wg)
    require(snap_wg(wg) == before, 'input', 'the graph changed')
    n = len(proj['works']) + 2
    depth, kids, ups = {}, {i: set() for i in range(n)}, {i: set() for i in range(n)}
    for p, c, _, _ in proj['edges']:
        kids[p].add(c)
        ups[c].add(p)
    for i in range(n - 2):
        depth[i] = max([depth[p] for p in ups[i]], default=0) + 1
    heads, tails = [i for i in range(n - 2) if not ups[i]], [i for i in range(n - 2) if not kids[i]]
    require(longest == max(depth.values(), default=0) + 1, 'longest', f'{longest}, works in a row {max(depth.values(), default=0)}')
    close = lambda a, b: abs(a - b) <= 1e-9 * max(1, abs(b))
    require(close(avg, sum(w['vol'] for w in proj['works']) / n), 'average', f'{avg}')
    require(close(use, sum((lo + hi) / 2 for w in proj['works'] for _, _, lo, hi in w['reqs']) / n), 'usage', f'{use}')
    require(close(ch, max([len(kids[i]) or 1 for i in range(n - 2)] + [len(heads)]) / n), 'children', f'{ch}')
    require(close(par, max([len(ups[i]) or 1 for i in range(n - 2)] + [len(tails)]) / n), 'parents', f'{par}')
    require(len(deg) == 8 and all(0 <= x <= 1 for x in deg), 'parallelism', f'{deg}')
    with sut('crash'):
        require(enc == [n, avg, ch, use, longest, *map(float, deg)], 'encode', f'{enc}')
    if len(proj['edges']) == 0:
        # all works side by side, then the finish, in three steps
        step = [1 / n, (n - 2) / n, 1 / n]
        require(all(close(a, b) for a, b in zip(deg, step + [0] * 5)), 'parallelism', f'{deg}, works side by side {step}')
    rec.nontrivial(len(proj['edges']) > 1)
    if case['process']:
        got = [worker.ask(h, 'vf.checks.c31', 'features', case) for h in (1, 2)]
        require(got[0] == got[1] == ['ok', enc], 'hash-seed', lambda: f'{got}, here {enc}')


KNOWN = {'C31-stochastic-momentum': lambda sub, case, v: sub == 'stochastic' and v.kind == 'crash' and 'AssertionError' in str(v) and 'momentum_timeline' in str(v)}
SUBS = [Sub('auction', auction_case('plain'), run_auction, quick=400, thorough=5000),
        Sub('stochastic', auction_case('stochastic'), run_auction, quick=200, thorough=2500),
        Sub('neural', auction_case('neural'), run_auction, quick=300, thorough=4000),
        Sub('blocks', graph_case(), run_graph, quick=500, thorough=6000),
        Sub('generators', made_case(), run_made, quick=120, thorough=1500),
        Sub('edges', st.fixed_dictionaries({'p': st.integers(1, 9), 'seed': st.integers(0, 10 ** 6), 'rounds': st.just(8)}), run_edges, quick=8, thorough=60),
        Sub('features', feature_case(), run_features, quick=500, thorough=6000)]
