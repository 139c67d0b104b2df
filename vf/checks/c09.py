"""Scheduling changes none of its inputs, and its result depends on nothing but its inputs and seed."""
from hypothesis import strategies as st

from vf import drive, gen, oracle, sched, worker
from vf.core import Sub, sut, require

PROPERTY = 'C09'
RULE = ('A case is two random projects and two schedulers: A is scheduled, then B (with the same scheduler object where it is '
        'deterministic), then A again, half of the time without passing a specification object at all. Non-trivial: A has a '
        'work with workers and B uses a kind of worker or a work id of A.')
ASSUMPTIONS = ['Randomised schedulers are re-created with the same seed for the second run.']


@st.composite
def case_for(draw, names):
    other = draw(drive.one_of(drive.FAST + (['genetic'] if draw(st.integers(0, 9)) == 0 else [])))
    spec = draw(st.sampled_from([None, dict(contractors=True, teams=True, partial_teams=True, times=True,
                                            independent=True)]))
    a = draw(drive.job(names, spec=spec, big=False))
    bspec = dict(contractors=True, teams=True, times=True)
    b = draw(gen.project(min_works=1, max_works=6, spec=bspec))
    return {'a': a, 'b': {'proj': b, 'alg': other, 'seed': a['seed'], 'gens': 1, 'pop': 4, 'at': 0},
            'nospec': spec is None and draw(st.booleans())}


def snap_wg(wg):
    out = []
    for n in wg.nodes:
        w = n.work_unit
        out.append((n.id, w.name, tuple((r.kind, oracle.T(r.volume), r.min_count, r.max_count) for r in w.worker_reqs),
                    tuple((m.name, m.count) for m in w.material_reqs), w.volume, w.is_service_unit, w.priority,
                    tuple((e.start.id, e.finish.id, int(e.lag), e.type.value) for e in n.edges_to),
                    tuple((e.start.id, e.finish.id, int(e.lag), e.type.value) for e in n.edges_from)))
    return out


def snap_con(cons):
    return [(c.id, c.name, [(k, w.id, w.name, int(w.count), w.contractor_id, w.cost_one_unit)
                            for k, w in c.workers.items()]) for c in cons]


def snap_spec(spec, wg):
    return {n.id: (sorted(s.contractors), dict(s.assigned_workers), None if s.assigned_time is None
                   else oracle.T(s.assigned_time), s.is_independent)
            for n in wg.nodes for s in [spec.get_work_spec(n.id)]}


def one(case, scheduler, nospec):
    from sampo.schemas.time import Time
    proj = case['proj']
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    before = snap_wg(wg), snap_con(cons), snap_spec(spec, wg)
    with sut('crash'):
        if nospec:
            res = scheduler.schedule(wg, cons, start_time=Time(case['at']))
        else:
            res = scheduler.schedule(wg, cons, spec=spec, start_time=Time(case['at']))
    after = snap_wg(wg), snap_con(cons), snap_spec(spec, wg)
    for name, x, y in zip(('work graph', 'contractors', 'specification'), before, after):
        require(x == y, 'input-changed', lambda: f'scheduling with {case["alg"]} changed the {name}: '
                f'{[(p, q) for p, q in zip(x, y) if p != q][:1] if isinstance(x, list) else [(k, x[k], y.get(k)) for k in x if x[k] != y.get(k)][:2]}')
    out = [{w: (s['st'], s['ft'], s['team'], s['contractor']) for w, s in oracle.flatten(r).items()} for r in res]
    return out


def run(case, rec):
    a, b = case['a'], case['b']
    rec.label(a['alg'], 'no-spec-object' if case['nospec'] else None)
    s1 = sched.make(a['alg'], a['seed'], a['gens'], a['pop'])
    r1 = one(a, s1, case['nospec'])
    one(b, s1 if a['alg'] not in ('rand_topological', 'rand_lft', 'genetic', 'genetic_serial')
        else sched.make(b['alg'], b['seed'], 1, 4), False)
    if case['nospec']:
        one(b, sched.make(b['alg'], b['seed'], 1, 4), False)
    s2 = s1
    if a['alg'] in ('rand_topological', 'rand_lft', 'genetic', 'genetic_serial'):
        s2 = sched.make(a['alg'], a['seed'], a['gens'], a['pop'])
    r2 = one(a, s2, case['nospec'])
    require(len(r1) == len(r2), 'repeat', 'another number of schedules')
    for x, y in zip(r1, r2):
        require(x == y, 'repeat', lambda: f'the same input gave another schedule: '
                                          f'{[(k, x[k], y.get(k)) for k in x if x[k] != y.get(k)][:2]}')
    rec.nontrivial(any(w['reqs'] for w in a['proj']['works']))


# -------------------------------------------------------------------------- other projects with the same names before

_counter = [0]


@st.composite
def hist_case(draw):
    names = ['heft', 'heft_between', 'lft']
    a = draw(drive.job(names, spec=None, big=False))
    b = draw(drive.job(names, spec=None, big=False))
    return {'a': a, 'b': b, 'same': draw(st.booleans())}


def renamed(proj, prefix):
    import copy
    proj = copy.deepcopy(proj)
    for w in proj['works']:
        w['id'] = prefix + w['id']
    return proj


def run_hist(case, rec):
    """Scheduling A after B, where the works of B have the names of those of A, gives the same as scheduling A with names
    never seen before (names of equal length in the same order, so that ties are broken alike)."""
    from sampo.schemas.time import Time
    a, b = case['a'], case['b']
    _counter[0] += 2
    old, new = (f'{_counter[0] + i:09d}' for i in (0, 1))

    def go(job, prefix, scheduler):
        proj = renamed(job['proj'], prefix)
        wg, cons = gen.build_wg(proj, 's' + prefix, 'z' + prefix), gen.build_contractors(proj)
        with sut('crash'):
            sch = scheduler.schedule(wg, cons, start_time=Time(job['at']))[0]
        return {w[len(prefix):] if w[0] not in 'sz' else w[0]: (s['st'], s['ft'], s['team'], s['contractor'])
                for w, s in oracle.flatten(sch).items()}

    s1 = sched.make(a['alg'], a['seed'])
    go(b, old, s1 if case['same'] else sched.make(b['alg'], b['seed']))
    r1 = go(a, old, s1)
    r2 = go(a, new, sched.make(a['alg'], a['seed']))
    require(r1 == r2, 'history', lambda: f'the schedule depends on what was scheduled before: '
                                         f'{[(k, r1.get(k), r2[k]) for k in r2 if r1.get(k) != r2[k]][:2]}')
    rec.label(a['alg'])
    rec.nontrivial(any(w['reqs'] for w in a['proj']['works']) and len(b['proj']['works']) > 1)


# ---------------------------------------------------------------- two graphs made before either of them is scheduled

@st.composite
def both_case(draw):
    return {'a': draw(drive.job(drive.FAST, spec=None, big=False)), 'b': draw(drive.job(drive.FAST, spec=None, big=False)),
            'same': draw(st.booleans())}


def run_both(case, rec):
    """Graphs with equal ids that exist at the same time do not influence each other."""
    from sampo.schemas.time import Time
    if case['same']:
        case['b'] = dict(case['b'], proj=dict(case['a']['proj'], edges=[
            e if e[3] != 'IFS' else e[:3] + ['FS'] for e in case['a']['proj']['edges']],
            blocks=[[w] for b in case['a']['proj']['blocks'] for w in b]))

    def solve(job, wg):
        with sut('crash'):
            sch = sched.make(job['alg'], job['seed']).schedule(wg, gen.build_contractors(job['proj']), start_time=Time(job['at']))[0]
        return {w: (s['st'], s['ft'], s['team'], s['contractor']) for w, s in oracle.flatten(sch).items()}

    jobs = case['a'], case['b']
    graphs = [gen.build_wg(j['proj']) for j in jobs]
    together = [solve(j, g) for j, g in zip(jobs, graphs)]
    for job, r in zip(jobs, together):
        alone = solve(job, gen.build_wg(job['proj']))
        require(r == alone, 'other-graph', lambda: f'the schedule depends on another graph in memory: '
                                                   f'{[(k, r.get(k), alone[k]) for k in alone if r.get(k) != alone[k]][:2]}')
    rec.label(jobs[0]['alg'])
    rec.nontrivial(any(len(b) > 1 for j in jobs for b in j['proj']['blocks']))


# ---------------------------------------------------------------------------------- processes with other string hashes

def schedule_of(job):
    from sampo.schemas.time import Time
    wg, cons, spec = gen.build_wg(job['proj']), gen.build_contractors(job['proj']), gen.build_spec(job['proj'])
    res = sched.make(job['alg'], job['seed'], job['gens'], job['pop']).schedule(wg, cons, spec=spec, start_time=Time(job['at']))
    return [{w: [s['st'], s['ft'], s['team'], s['contractor']] for w, s in oracle.flatten(r).items()} for r in res]


def run_hash(case, rec):
    a, b = (worker.ask(h, 'vf.checks.c09', 'schedule_of', case) for h in (1, 2))
    for status, text in (a, b):
        require(status == 'ok', 'crash', text)
    for x, y in zip(a[1], b[1]):
        require(x == y, 'hash-seed', lambda: f'{case["alg"]}: the same input gave another schedule in another process: '
                                             f'{[(k, x[k], y.get(k)) for k in x if x[k] != y.get(k)][:2]}')
    require(len(a[1]) == len(b[1]), 'hash-seed', 'another number of schedules')
    rec.label(case['alg'])
    rec.nontrivial(any(w['reqs'] for w in case['proj']['works']))


SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True)

SUBS = [Sub('history', hist_case(), run_hist, quick=800, thorough=10000),
        Sub('heuristics', case_for(drive.FAST), run, quick=1000, thorough=12000),
        Sub('genetic', case_for(drive.GEN), run, quick=100, thorough=1500),
        Sub('two-graphs', both_case(), run_both, quick=500, thorough=6000),
        Sub('processes', drive.job(drive.FAST, spec=SPEC), run_hash, quick=400, thorough=6000),
        Sub('processes-genetic', drive.job(drive.GEN, spec=SPEC, big=False), run_hash, quick=60, thorough=900)]
