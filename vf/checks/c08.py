"""Durations agree with the work time estimator, and the estimator with its definition."""
from fractions import Fraction

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.core import Sub, sut, require

PROPERTY = 'C08'
RULE = ('Scheduling cases: a random project, a scheduler and a work estimator with per-kind and per-contractor productivities; '
        'non-trivial when a scheduled work with workers has a non-zero duration whose reference value depends on the team '
        'chosen or on the contractor. Estimator cases: one work and one team; non-trivial when the estimate is finite and '
        'non-zero.')
ASSUMPTIONS = ['Where the exact quotient volume/rate lies within 1e-9 (relative) of an integer either rounding is accepted.',
               'With the parallel generation scheme only the total time of a chain is compared.']
PRODS = [0.5, 1.0, 1.0, 1.5, 2.0, 0.25, 3.0]


@st.composite
def productivity(draw, cons=('c0', 'c1', 'c2')):
    prod = {}
    for k in gen.KINDS:
        if draw(st.booleans()):
            # in the order they are set; a later setting replaces only an earlier one of the same contractor
            one = [['__ALL__', draw(st.sampled_from(PRODS))]]
            for c in cons:
                if draw(st.integers(0, 2)) == 0:
                    one.append([c, draw(st.sampled_from(PRODS))])
            prod[k] = draw(st.permutations(one))
            if draw(st.integers(0, 3)) == 0:
                prod[k] = [[draw(st.sampled_from(['__ALL__', 'c0'])), 5.0]] + prod[k]
    return prod


def estimator(prod):
    from sampo.schemas.interval import IntervalUniform
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    e = DefaultWorkEstimator()
    for kind, d in prod.items():
        for con, p in d:
            e.set_worker_productivity(IntervalUniform(p, p), kind, None if con == '__ALL__' else con)
    return e


def table(prod, cons):
    prod = {k: dict(map(tuple, d)) for k, d in prod.items()}
    return {c: {k: Fraction(d.get(c, d.get('__ALL__', 1))) for k, d in prod.items()} for c in cons}


@st.composite
def case_for(draw, names, spec=None):
    prod = draw(productivity())
    c = draw(drive.job(names, spec=spec))
    c['prod'] = prod
    return c


def make(case):
    from sampo.scheduler import (HEFTScheduler, HEFTBetweenScheduler, TopologicalScheduler,
                                 RandomizedTopologicalScheduler, LFTScheduler, RandomizedLFTScheduler)
    est = estimator(case['prod'])
    s = sched.make(case['alg'], case['seed'], case['gens'], case['pop'])
    s.work_estimator = est
    return s


def run(case, rec):
    proj = case['proj']
    rec.label(case['alg'])
    with sut('crash'):
        res, wg = drive.solve(case, scheduler=make(case))
    tab = table(case['prod'], [c['id'] for c in proj['contractors']])
    for sch in res:
        sd = oracle.flatten(sch)
        oracle.durations(proj, sd, split=case['alg'] == 'genetic', productivity=tab)
        for w in proj['works']:
            s = sd[w['id']]
            if w['reqs'] and s['ft'] > s['st']:
                rec.nontrivial()
                if any(tab[s['contractor']].get(k, 1) != 1 for k, *_ in w['reqs']):
                    rec.label('other-productivity')
                if len({tuple(tab[c['id']].get(k, 1) for k, *_ in w['reqs']) for c in proj['contractors']}) > 1:
                    rec.label('contractor-dependent')
    del wg


# ------------------------------------------------------------------------------------------------ estimator by itself

@st.composite
def est_case(draw):
    kinds = draw(st.permutations(gen.KINDS + ['welder', 'crane operator']))[:draw(st.integers(0, 4))]
    reqs = draw(gen.req_list(list(kinds), max_reqs=4, max_volume=200, zero_min=True)) if kinds else []
    con = draw(st.sampled_from(['c0', 'c1', '']))
    team = {k: draw(st.integers(max(0, lo - 1), hi)) for k, _, lo, hi in reqs if draw(st.integers(0, 9))}
    extra = {k: 2 for k in draw(st.permutations(gen.KINDS))[:draw(st.integers(0, 1))] if k not in {r[0] for r in reqs}}
    return {'reqs': reqs, 'team': {**team, **extra}, 'con': con, 'prod': draw(productivity()),
            'lows': {k: draw(st.sampled_from([None, 0.25, 0.5, 1.0])) for k, *_ in reqs},
            'stoch': draw(st.booleans()), 'then': draw(productivity()), 'seed': draw(st.integers(0, 1000))}


def run_est(case, rec):
    import random
    from sampo.schemas.interval import IntervalUniform
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.resources import Worker, WorkerProductivityMode
    from sampo.schemas.time import Time
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    from sampo.schemas.works import WorkUnit
    wu = WorkUnit('w', 'w', worker_reqs=[WorkerReq(k, Time(v), lo, hi) for k, v, lo, hi in case['reqs']])
    team = [Worker(f'id{k}', k, n, case['con']) for k, n in case['team'].items()]
    with sut('crash'):
        got = oracle.T(estimator(case['prod']).estimate_time(wu, team))
    tab = table(case['prod'], [case['con']])[case['con']]
    lo, hi = oracle.duration_bounds(case['reqs'], case['team'], tab)
    require(min(lo, oracle.INF) <= got <= max(hi, 0) or (lo >= oracle.INF and got >= oracle.INF), 'estimate',
            f'estimated {got}, reference {lo}..{hi}')
    # an estimator follows what is set later
    with sut('crash'):
        e = estimator(case['prod'])
        e.estimate_time(wu, team)
        for kind, d in case['then'].items():
            for con, p in d:
                e.set_worker_productivity(IntervalUniform(p, p), kind, None if con == '__ALL__' else con)
        again = oracle.T(e.estimate_time(wu, team))
    both = {k: [*case['prod'].get(k, []), *case['then'].get(k, [])] for k in {**case['prod'], **case['then']}}
    lo, hi = oracle.duration_bounds(case['reqs'], case['team'], table(both, [case['con']])[case['con']])
    require(min(lo, oracle.INF) <= again <= max(hi, 0) or (lo >= oracle.INF and again >= oracle.INF), 'estimate',
            f'estimated {again} after other productivities were set, reference {lo}..{hi}')
    rec.nontrivial(0 < got < oracle.INF)
    rec.label('infinite' if got >= oracle.INF else 'zero' if got == 0 else 'finite')
    # more work never takes less time
    if got < oracle.INF and case['reqs']:
        wu2 = WorkUnit('w', 'w', worker_reqs=[WorkerReq(k, Time(v + 3), a, b) for k, v, a, b in case['reqs']])
        with sut('crash'):
            got2 = oracle.T(estimator(case['prod']).estimate_time(wu2, team))
        require(got2 >= got, 'monotone', f'more volume, less time: {got} -> {got2}')
    if case['stoch']:
        # a sampled productivity gives a time between those of the ends of its interval
        e = DefaultWorkEstimator(random.Random(case['seed']))
        e.set_productivity_mode(WorkerProductivityMode.Stochastic)
        e2 = DefaultWorkEstimator(random.Random(case['seed']))
        e2.set_productivity_mode(WorkerProductivityMode.Stochastic)
        los, his, default = {}, {}, False
        for k, p in case['lows'].items():
            if p is None:
                # the productivity nobody set is random between 0 and 1
                his[k], default = Fraction(1), True
                continue
            los[k], his[k] = Fraction(p), Fraction(p) + 1
            for one in (e, e2):
                one.set_worker_productivity(IntervalUniform(p, p + 1), k)
        team1 = [w for w in team if w.name in case['lows']]
        with sut('crash'):
            t1 = oracle.T(e.estimate_time(wu, team1))
            t2 = oracle.T(e2.estimate_time(wu, team1))
        require(t1 == t2, 'seed', f'same seed, different sampled times {t1} and {t2}')
        cnt = {w.name: w.count for w in team1}
        fast = oracle.duration_bounds(case['reqs'], cnt, his)
        if default:
            require(t1 >= fast[0] and (t1 < oracle.INF or fast[1] >= oracle.INF), 'stochastic',
                    f'sampled time {t1}, with full productivity {fast}')
            rec.label('default-productivity')
        else:
            slow = oracle.duration_bounds(case['reqs'], cnt, los)
            require(fast[0] <= t1 <= slow[1] or (slow[1] >= oracle.INF and t1 >= oracle.INF), 'stochastic',
                    f'sampled time {t1} outside {fast}..{slow}')
        rec.label('stochastic')


SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True)
SUBS = [Sub('heuristics', case_for(drive.FAST), run, quick=1200, thorough=15000),
        Sub('spec_heuristics', case_for(drive.FAST, SPEC), run, quick=600, thorough=8000),
        Sub('genetic', case_for(drive.GEN), run, quick=100, thorough=1500),
        Sub('spec_genetic', case_for(drive.GEN, SPEC), run, quick=60, thorough=1000),
        Sub('estimator', est_case(), run_est, quick=4000, thorough=60000)]
