"""Condensed graph, critical paths and the order in which works are scheduled."""
from collections import defaultdict
from functools import cache

from hypothesis import strategies as st

from vf import drive, gen, sched
from vf.checks import c15
from vf.core import Sub, sut, require

PROPERTY = 'C18'
RULE = ('A case is a random work graph with chains, lags, parallel dependencies and priorities. Non-trivial: the graph has a '
        'chain or two works none of which depends on the other, so that there is more than one order or path.')
ASSUMPTIONS = ['Every inseparable chain counts as one node, named by its head.',
               'The weight of a path is the sum of the durations of its works, plus one per node; the end of the project does not count.']


def condensed(proj):
    """heads, children (head -> set) with start and finish, from the description alone."""
    works, head = proj['works'], {}
    for b in proj['blocks']:
        for w in b:
            head[w] = b[0]
    has_parent = {c for _, c, _, _ in proj['edges']}
    has_child = {p for p, _, _, _ in proj['edges']}
    name = lambda i: works[head[i]]['id']
    children = defaultdict(set)
    for b in proj['blocks']:
        children[works[b[0]]['id']] |= set()
    for p, c, _, _ in proj['edges']:
        if head[p] != head[c]:
            children[name(p)].add(name(c))
    for i in range(len(works)):
        if i not in has_parent:
            children['start'].add(name(i))
        if i not in has_child:
            children[name(i)].add('finish')
    children['finish'] |= set()
    return dict(children)


def branching(children):
    n = len(children)
    order, seen = [], set()
    def reach(x):
        out = set()
        for y in children[x]:
            out |= {y} | reach_c(y)
        return out
    reach_c = cache(lambda x: frozenset(reach(x)))
    return sum(len(reach_c(x)) for x in children) < n * (n - 1) // 2


def longest(children, weight):
    """longest remaining path from every node, without the weight of the end of the project."""
    @cache
    def go(x):
        if not children[x]:
            return 0
        return weight[x] + max(go(y) for y in children[x])
    return {x: go(x) for x in children}


# ------------------------------------------------------------------------------------------------------- condensation

@st.composite
def graph_case(draw):
    return {'proj': draw(gen.works_and_edges(wide=True, max_works=14)), 'multi': draw(st.integers(0, 3)), 'pick': draw(st.integers(0, 99))}


def with_parallel_edges(case):
    """Two dependencies of different types between the same works."""
    proj = case['proj']
    cand = [e for e in proj['edges'] if e[3] != 'IFS']
    for k in range(case['multi'] if cand else 0):
        e = cand[(case['pick'] + k) % len(cand)]
        proj['edges'].append([e[0], e[1], e[2] + 1, 'FFS' if e[3] == 'FS' else 'FS'])
    return proj


def run_heads(case, rec):
    from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
    proj = with_parallel_edges(case)
    with sut('crash'):
        wg = gen.build_wg(proj)
        heads, parents, children = get_head_nodes_with_connections_mappings(wg)
    want = condensed(proj)
    require(sorted(h.id for h in heads) == sorted(want), 'heads', f'{[h.id for h in heads]} instead of {sorted(want)}')
    require({k: set(v) for k, v in children.items()} == want, 'children',
            lambda: f'{[(k, set(children.get(k, ())), v) for k, v in want.items() if set(children.get(k, ())) != v][:3]}')
    back = {k: {p for p in want if k in want[p]} for k in want}
    require({k: set(v) for k, v in parents.items()} == back, 'parents',
            lambda: f'{[(k, set(parents.get(k, ())), v) for k, v in back.items() if set(parents.get(k, ())) != v][:3]}')
    pos = {h.id: i for i, h in enumerate(heads)}
    for a in want:
        for b in want[a]:
            require(pos[a] < pos[b], 'order', f'{a} comes after {b}')
    require(all(h is wg[h.id] for h in heads), 'heads', 'not the nodes of the graph')
    rec.nontrivial(any(len(b) > 1 for b in proj['blocks']) or branching(want))


# ------------------------------------------------------------------------------------------------------ critical paths

@st.composite
def path_case(draw):
    c = draw(graph_case())
    n = len(c['proj']['works'])
    return dict(c, dur=draw(st.lists(st.integers(0, 12), min_size=n, max_size=n)),
                avg=draw(st.lists(st.integers(0, 4), min_size=n, max_size=n)))


def check_path(path, children, weight, kind):
    ids = [n.id for n in path]
    best = longest(children, weight)
    if ids and ids != ['start']:
        require(ids[0] == 'start', kind, f'the path {ids} does not begin at the start of the project')
    for a, b in zip(ids, ids[1:] + ['finish']):
        require(b in children[a], kind, f'{b} does not depend on {a}; path {ids}')
    got = sum(weight[i] for i in ids)
    require(abs(got - best['start']) < 1e-9, kind, f'the path {ids} takes {got}, the longest one {best["start"]}')


def estimated(wg, proj):
    from sampo.schemas.resources import Worker
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    works, est, weight = proj['works'], DefaultWorkEstimator(), {'start': 1, 'finish': 0}
    for b in proj['blocks']:
        reqs, t = works[b[0]]['reqs'], 0
        for team in ([(r[0], r[2]) for r in reqs], [(r[0], r[3]) for r in reqs]):
            for w in b:         # how long a work takes a team is C07's business
                with sut('crash'):
                    t += int(est.estimate_time(wg[works[w]['id']].work_unit, [Worker('x', k, c) for k, c in team]))
        weight[works[b[0]]['id']] = t / 2 + 1
    return weight


def run_path(case, rec):
    from sampo.scheduler.utils.critical_path import critical_path_graph, critical_path_schedule
    from sampo.schemas.time import Time
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.scheduled_work import ScheduledWork
    proj = with_parallel_edges(case)
    children = condensed(proj)
    works = proj['works']
    head = {b[0]: b for b in proj['blocks']}

    # by a schedule
    with sut('crash'):
        wg = gen.build_wg(proj)
        at, sw = 0, {}
        dur = {w['id']: d for w, d in zip(works, case['dur'])} | {'start': 0, 'finish': 5}
        for n in wg.nodes:      # when works are done does not matter, only how long they take
            sw[n.id] = ScheduledWork(n.work_unit, (Time(at), Time(at + dur[n.id])), [], Contractor('c', 'c', {}, {}))
            at += dur[n.id]
        path = critical_path_schedule(wg.nodes, sw)
    weight = {works[h]['id']: sum(case['dur'][w] for w in b) + 1 for h, b in head.items()} | {'start': 1, 'finish': 0}
    check_path(path, children, weight, 'schedule-path')

    # by estimates: the mean of the durations with as few and as many workers as a work may have
    weight = estimated(wg, proj)
    with sut('crash'):
        path = critical_path_graph(wg.nodes, DefaultWorkEstimator())
    check_path(path, children, weight, 'graph-path')
    rec.nontrivial(any(len(b) > 1 for b in proj['blocks']) or branching(children))


# ----------------------------------------------------------------------------------- critical path of a scheduled project

def run_project(case, rec):
    """The path of a project scheduled through a restructured graph, in terms of the given graph."""
    from sampo.schemas.project import ScheduledProject
    from sampo.structurator import graph_restructuring
    proj = case['proj']
    with sut('crash'):
        wg = c15.build(case)
        raw = graph_restructuring(wg, use_lag_edge_optimization=case['lags'])
        cons = gen.build_contractors(proj)
        sch = sched.make('heft', 0).schedule(raw, cons)[0]
        path = ScheduledProject(wg, raw, cons, sch).critical_path()
    ids = [n.id for n in path]
    require(all(i in wg.dict_nodes and wg[i] is n for i, n in zip(ids, path)), 'project-path', f'{ids} are not works of the given graph')
    require(len(set(ids)) == len(ids), 'project-path', f'{ids} repeats')
    # the path through the restructured graph
    sd = {w.id: int(w.duration) for w in sch.works}
    head, tail = {}, {}
    for n in raw.nodes:
        p = [e.start for e in n.edges_to if e.type.value == 'IFS']
        head[n.id] = head[p[0].id] if p else n.id
        tail[head[n.id]] = n.id
    children, weight = defaultdict(set), defaultdict(lambda: 1)
    for n in raw.nodes:
        children[head[n.id]] |= set()
        weight[head[n.id]] += sd[n.id]
        for c in n.children:
            if head[c.id] != head[n.id]:
                children[head[n.id]].add(head[c.id])
    weight['finish'] = 0
    best = longest(children, weight)

    # some longest path, with every chain named by its last work, is the answer
    @cache
    def fits(x, i):
        if x == 'finish':
            return i == len(ids)
        if i >= len(ids) or ids[i] != tail[x]:
            return False
        return any(best[x] == weight[x] + best[y] and fits(y, i + 1) for y in children[x])
    require(fits('start', 0), 'project-path', lambda: f'{ids} is no longest path (length {best["start"]})')
    rec.nontrivial(len(ids) > 2)
    rec.label(*{e[3] for e in proj['edges']})


@st.composite
def project_case(draw):
    c = draw(c15.graph(extras=False))
    c['proj']['contractors'] = draw(gen.contractor_list(c['proj']))
    return c


# ---------------------------------------------------------------------------------------------------------------- order

def run_order(case, rec):
    from sampo.schemas.time import Time
    proj = case['proj']
    with sut('crash'):
        wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
        s = sched.make(case['alg'], case['seed'], 1, 4)
        res = s.schedule_with_cache(wg, cons, spec=spec, assigned_parent_time=Time(case['at']))
    children = condensed(proj)
    prio = {w['id']: w['prio'] for w in proj['works']} | {n.id: n.work_unit.priority for n in (wg.start, wg.finish)}
    for sch, at, timeline, order in res:
        ids = [n.id for n in order]
        require(sorted(ids) == sorted(children), 'order-nodes', f'{ids}, expected each of {sorted(children)} once')
        pos = {i: k for k, i in enumerate(ids)}
        for a in children:
            for b in children[a]:
                require(pos[a] < pos[b], 'order', f'{case["alg"]} places {b} before {a}: {ids}')
        for a, b in zip(ids, ids[1:]):
            require(prio[a] <= prio[b], 'priority', f'{case["alg"]} places {a} (priority {prio[a]}) before {b} ({prio[b]})')
        if case['alg'] in ('heft', 'heft_between', 'heft_avg', 'between_avg', 'heft_cd', 'between_cd'):
            # the longest remaining path, as far as it runs through works of the same priority, comes first
            weight = estimated(wg, proj)
            weight['finish'] = 1
            left = {}
            for i in reversed(ids):
                left[i] = max([weight[i] + left[c] for c in children[i] if prio[c] == prio[i]], default=0)
            for a, b in zip(ids, ids[1:]):
                require(prio[a] != prio[b] or left[a] >= left[b] - 1e-9, 'rank',
                        f'{a} with {left[a]} remaining is placed before {b} with {left[b]}')
        require(int(at) == case['at'], 'start-time', f'{at}')
    rec.label(case['alg'])
    rec.nontrivial(branching(children))


SUBS = [Sub('heads', graph_case(), run_heads, quick=600, thorough=10000),
        Sub('paths', path_case(), run_path, quick=600, thorough=10000),
        Sub('project', project_case(), run_project, quick=400, thorough=6000),
        Sub('order', drive.job(drive.FAST, spec=None), run_order, quick=600, thorough=9000)]
