"""Shared driving of the schedulers for the schedule-validity properties."""
from __future__ import annotations

from hypothesis import strategies as st

from vf import gen, oracle, sched
from vf.core import Sub, Violation, sut

FAST = ['heft', 'heft_between', 'heft_avg', 'between_avg', 'heft_cd', 'between_cd', 'topological', 'rand_topological',
        'lft', 'rand_lft']
GEN = ['genetic', 'genetic_serial']


def one_of(names):
    return st.sampled_from(names)


@st.composite
def job(draw, names, spec=None, shift=True, big=True, **kw):
    """A project, the scheduler to use, its seed and the start time of the project."""
    alg = draw(one_of(names))
    size = draw(st.sampled_from(['small', 'mid', 'mid', 'big'] if big else ['small', 'mid']))
    lo, hi = {'small': (1, 4), 'mid': (4, 9), 'big': (10, 18)}[size]
    kw = dict(kw)
    kw.setdefault('min_works', lo)
    kw.setdefault('max_works', max(hi, kw['min_works']))
    proj = draw(gen.project(spec=spec, **kw))
    return {'proj': proj, 'alg': alg, 'seed': draw(st.integers(0, 50)),
            'at': draw(st.sampled_from([0, 0, 0, 1, 5, 33])) if shift else 0,
            'gens': draw(st.integers(1, 3)), 'pop': draw(st.integers(4, 8))}


def solve(case, scheduler=None, timeline=None, **kw):
    """Schedules the described project; -> (schedules, objects kept alive)."""
    from sampo.schemas.time import Time
    proj = case['proj']
    wg = gen.build_wg(proj)
    contractors = gen.build_contractors(proj)
    spec = gen.build_spec(proj)
    s = scheduler or sched.make(case['alg'], case['seed'], case.get('gens', 2), case.get('pop', 6))
    res = s.schedule(wg, contractors, spec=spec, start_time=Time(case.get('at', 0)), timeline=timeline, **kw)
    return res, wg


def checker(*oracles, mark=None):
    """A run(case, rec) that schedules and applies the oracles to every schedule returned."""
    def run(case, rec):
        with sut('crash'):
            res, wg = solve(case)
            if not res:
                raise Violation('no-schedule', 'the scheduler returned no schedule')
        rec.label(case['alg'])
        for sch in res:
            sd = oracle.flatten(sch)
            for o in oracles:
                o(case, sd)
            if mark:
                mark(case, sd, rec)
        del wg
    return run


def subs(run, fast=1600, genetic=120, spec=None, prefix='', **kw):
    return [Sub(prefix + 'heuristics', job(FAST, spec=spec, **kw), run, quick=fast, thorough=fast * 12),
            Sub(prefix + 'genetic', job(GEN, spec=spec, **{**kw, 'big': False}), run, quick=genetic,
                thorough=genetic * 12)]


# ---------------------------------------------------------------------------- synthetic (library-generated) projects

def describe(wg, contractors, spec=None):
    """Plain description of an existing WorkGraph (only public attributes)."""
    nodes = [n for n in wg.nodes]
    idx = {n.id: i for i, n in enumerate(nodes) if n.id not in (wg.start.id, wg.finish.id)}
    order = [n for n in nodes if n.id in idx]
    pos = {n.id: i for i, n in enumerate(order)}
    works, edges, blocks = [], [], []
    for n in order:
        wu = n.work_unit
        works.append({'id': n.id, 'reqs': [[r.kind, oracle.T(r.volume), r.min_count, r.max_count]
                                           for r in wu.worker_reqs],
                      'vol': wu.volume, 'svc': wu.is_service_unit, 'prio': wu.priority,
                      'mats': [[m.name, m.count] for m in wu.material_reqs]})
        for e in n.edges_to:
            if e.start.id in pos:
                edges.append([pos[e.start.id], pos[n.id], e.lag, e.type.value])
    son = {b for a, b, _, t in edges if t == 'IFS'}
    nxt = {a: b for a, b, _, t in edges if t == 'IFS'}
    for i in range(len(works)):
        if i not in son:
            block = [i]
            while block[-1] in nxt:
                block.append(nxt[block[-1]])
            blocks.append(block)
    return {'kinds': sorted({r[0] for w in works for r in w['reqs']}), 'works': works, 'edges': edges,
            'blocks': blocks, 'spec': spec or {}, 'start_id': wg.start.id, 'finish_id': wg.finish.id,
            'contractors': [{'id': c.id, 'name': c.name, 'cost': {},
                             'workers': {k: w.count for k, w in c.workers.items()}} for c in contractors]}


@st.composite
def synth_job(draw, names):
    return {'mode': draw(st.sampled_from(['general', 'parallel', 'sequential'])), 'gseed': draw(st.integers(0, 10 ** 6)),
            'bottom': draw(st.integers(8, 22)), 'cluster': draw(st.integers(0, 12)),
            'ncons': draw(st.integers(1, 3)), 'alg': draw(one_of(names)), 'seed': draw(st.integers(0, 50)),
            'at': draw(st.sampled_from([0, 0, 7])), 'scale': draw(st.sampled_from([1, 1, 2]))}


def build_synth(case):
    from sampo.generator.base import SimpleSynthetic
    from sampo.generator import SyntheticGraphType
    from sampo.generator.environment.contractor_by_wg import get_contractor_by_wg
    ss = SimpleSynthetic(case['gseed'])
    mode = {'general': SyntheticGraphType.GENERAL, 'parallel': SyntheticGraphType.PARALLEL,
            'sequential': SyntheticGraphType.SEQUENTIAL}[case['mode']]
    lo = case['bottom']
    wg = ss.work_graph(mode=mode, bottom_border=lo, top_border=lo + 12)
    cons = [get_contractor_by_wg(wg, scaler=case['scale'], contractor_id=f'con{i}', contractor_name=f'Con {i}')
            for i in range(case['ncons'])]
    return wg, cons


def synth_checker(*oracles, mark=None):
    def run(case, rec):
        from sampo.schemas.time import Time
        with sut('crash'):
            wg, cons = build_synth(case)
            s = sched.make(case['alg'], case['seed'], 1, 4)
            res = s.schedule(wg, cons, start_time=Time(case['at']))
        rec.label(case['alg'])
        case = dict(case, proj=describe(wg, cons))
        for sch in res:
            sd = oracle.flatten(sch)
            for o in oracles:
                o(case, sd)
            if mark:
                mark(case, sd, rec)
    return run
