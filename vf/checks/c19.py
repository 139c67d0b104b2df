"""Who does a work: the contractor and the size of the team that the documented rules of the schedulers choose."""
from math import inf

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks.c18 import condensed
from vf.core import Sub, sut, require

PROPERTY = 'C19'
RULE = ('A case is a project with contractors (LFT, average-requirement schedulers), a table of offers of contractors, or '
        'bounds of a team and a function of its finish time. Non-trivial: at least two contractors can do some work, or a team has '
        'something to optimize.')
ASSUMPTIONS = ['Scores of LFT that differ by less than 1e-9 are equal, either contractor is right.',
               'Resource optimizers are heuristics: only bounds and fixed places are demanded of the searching ones.']


# ------------------------------------------------------------------------------------------------- search of contractor

@st.composite
def offers(draw):
    m, last = draw(st.integers(1, 5)), draw(st.sampled_from([0, 2, 6]))     # many equal finish times, too
    return {'offers': [[draw(st.integers(0, last)), draw(st.one_of(st.integers(0, last), st.none())), draw(st.integers(1, 9)),
                        draw(st.integers(0, 3))] for _ in range(m)],
            'allowed': draw(st.lists(st.integers(0, m - 1), max_size=m))}


def run_search(case, rec):
    from sampo.scheduler.utils.multi_contractor import run_contractor_search
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker
    from sampo.schemas.schedule_spec import WorkSpec
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.time import Time
    cons = [Contractor(f'c{i}', f'C{i}', {k: Worker(f'{k}{i}', k, n, f'c{i}') for k, n in (('a', s), ('b', z)) if n}, {})
            for i, (_, _, s, z) in enumerate(case['offers'])]
    table = {f'c{i}': (Time(s), Time.inf() if f is None else Time(s + f)) for i, (s, f, _, _) in enumerate(case['offers'])}
    size = {f'c{i}': s + z for i, (_, _, s, z) in enumerate(case['offers'])}
    spec = WorkSpec(contractors={f'c{i}' for i in case['allowed']})
    asked = []

    def runner(c):
        asked.append(c.id)
        return (*table[c.id], [w.copy() for w in c.workers.values()])
    able = [i for i, (_, t) in table.items() if not t.is_inf() and (not spec.contractors or i in spec.contractors)]
    try:
        with sut('crash', NoSufficientContractorError):
            st_, ft, con, team = run_contractor_search(cons, spec, runner)
    except NoSufficientContractorError:
        require(not able, 'search', f'no contractor found, though {able} are able and allowed')
        return
    require(con.id in able, 'search', f'{con.id} is not among {able}')
    require((st_, ft) == table[con.id] and sorted(w.name for w in team) == sorted(con.workers), 'search',
            f'{con.id} offers {table[con.id]}, not {(st_, ft)}')
    best = min((int(table[i][1]), size[i]) for i in able)
    require((int(ft), size[con.id]) == best, 'search', f'{con.id} ends at {ft} with a staff of {size[con.id]}, the best is {best}')
    rec.nontrivial(len(able) > 1)


# ------------------------------------------------------------------------------------------------------ size of a team

@st.composite
def sizes(draw):
    n = draw(st.integers(1, 4))
    lo = draw(st.lists(st.integers(0, 5), min_size=n, max_size=n))
    return {'lo': lo, 'hi': [a + draw(st.integers(0, 12)) for a in lo], 'fixed': draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            'array': draw(st.booleans()), 'opt': draw(st.sampled_from(['full', 'cd', 'avg', 'avg3', 'identity'])),
            'work': draw(st.lists(st.integers(0, 60), min_size=n, max_size=n)), 'queue': draw(st.integers(0, 3)),
            'start': draw(st.lists(st.integers(0, 20), min_size=n, max_size=n))}


def run_team(case, rec):
    import numpy as np
    from sampo.scheduler.resource import (FullScanResourceOptimizer, CoordinateDescentResourceOptimizer,
                                          AverageReqResourceOptimizer, IdentityResourceOptimizer)
    from sampo.schemas.resources import Worker
    from sampo.schemas.time import Time
    from sampo.utilities.base_opt import dichotomy_int
    n = len(case['lo'])
    lo, hi = np.array(case['lo']), np.array(case['hi'])
    fixed = case['fixed'] if case['array'] else [False] * n
    team = [Worker(f'{i}', f'k{i}', case['start'][i], 'c') for i in range(n)]
    opt = {'full': FullScanResourceOptimizer, 'cd': lambda: CoordinateDescentResourceOptimizer(dichotomy_int),
           'avg': AverageReqResourceOptimizer, 'avg3': lambda: AverageReqResourceOptimizer(3),
           'identity': IdentityResourceOptimizer}[case['opt']]()

    def finish(ws):
        t = max((-(-case['work'][i] // w.count) if w.count else 200) for i, w in enumerate(ws))
        return Time(int(t + case['queue'] * sum(w.count for w in ws)))
    given = lo.copy(), hi.copy()
    with sut('crash'):
        opt.optimize_resources({}, team, np.array([not f for f in fixed]) if case['array'] else None, lo, hi, finish)
    require((lo == given[0]).all() and (hi == given[1]).all(), 'team-borders-changed', f'{given} became {(lo, hi)}')
    for i, w in enumerate(team):
        if fixed[i] or case['opt'] == 'identity':
            require(int(w.count) == case['start'][i], 'team-fixed', f'place {i} was fixed at {case["start"][i]}, but is {w.count}')
            continue
        require(case['lo'][i] <= int(w.count) <= case['hi'][i], 'team-borders', f'{w.count} is outside [{case["lo"][i]}, {case["hi"][i]}]')
        if case['opt'].startswith('avg'):
            want = case['lo'][i] + (case['hi'][i] - case['lo'][i]) // (3 if case['opt'] == 'avg3' else 2)
            require(int(w.count) == want, 'team-average', f'{w.count}, not {want} of [{case["lo"][i]}, {case["hi"][i]}]')
    rec.label(case['opt'])
    rec.nontrivial(any(not f and a < b for f, a, b in zip(fixed, case['lo'], case['hi'])))


# ------------------------------------------------------------------------------------------------------------- policies

SPEC = dict(contractors=True, teams=True, partial_teams=True)


def capacity_of(con, reqs, team):
    """The team of that contractor if every kind gets as many workers as it may, or None."""
    out = {}
    for k, _, lo, hi in reqs:
        have = con['workers'].get(k, -1)
        n = team.get(k, min(hi, have))
        if have < lo or have < n:
            return None
        out[k] = n
    return out


def run_average(case, rec):
    """Schedulers with average teams."""
    proj = case['proj']
    with sut('crash'):
        res, wg = drive.solve(case)
    sd = oracle.flatten(res[0])
    k = 4 if case['alg'] == 'between_avg' else 2
    cons = {c['id']: c for c in proj['contractors']}
    for b in proj['blocks']:
        w = proj['works'][b[0]]
        team = proj['spec'].get(w['id'], {}).get('workers', {})
        con = cons[sd[w['id']]['contractor']]
        got = {n: c for n, c, _ in sd[w['id']]['team']}
        for kind, _, lo, hi in w['reqs']:
            up = min(hi, con['workers'][kind])
            want = team.get(kind) or lo + int((up - lo) / k)
            require(got.get(kind, 0) == want, 'average-team', f'{w["id"]}: {got.get(kind, 0)} x {kind}, not {want} (from {lo} to {up})')
    rec.label(case['alg'])
    rec.nontrivial(any(w['reqs'] for w in proj['works']))


def run_lft(case, rec):
    """Each contractor able to do a work would get as many workers as possible; the work goes to the one with the least sum of
    its share of the durations and its share of the works given so far; works are ordered by their latest finish times."""
    from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
    from sampo.schemas.resources import Worker
    from sampo.schemas.time import Time
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    proj = case['proj']
    with sut('crash'):
        wg, cons_o, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
        res = sched.make(case['alg'], case['seed']).schedule_with_cache(wg, cons_o, spec=spec, assigned_parent_time=Time(case['at']))
        heads = get_head_nodes_with_connections_mappings(wg)[0]
    sch, _, _, order = res[0]
    sd = oracle.flatten(sch)
    cons, est = proj['contractors'], DefaultWorkEstimator()
    block = {proj['works'][b[0]]['id']: b for b in proj['blocks']}
    count, dur = [1] * len(cons), {}
    choice = 0
    for h in heads:
        b = block.get(h.id)
        reqs = proj['works'][b[0]]['reqs'] if b else []
        e = proj['spec'].get(h.id, {})
        offers = {}
        for i, c in enumerate(cons):
            if e.get('contractors') and c['id'] not in e['contractors']:
                continue
            team = capacity_of(c, reqs, e.get('workers', {}))
            if team is None:
                continue
            with sut('crash'):
                offers[i] = team, 1 + sum(int(est.estimate_time(n.work_unit, [Worker('x', k, v) for k, v in team.items()]))
                                          for n in [h] + ([wg[proj['works'][w]['id']] for w in b[1:]] if b else []))
        s = sd[h.id]
        i = next((j for j in offers if cons[j]['id'] == s['contractor']), None)
        if i is None:
            require(not b and s['contractor'] in ('', None) or not reqs, 'lft-contractor', f'{h.id} is done by {s["contractor"]!r}')
            return      # who does a work without workers is not shown; what was counted is unknown
        team, d = offers[i]
        got = {n: c for n, c, _ in s['team']}
        require(got == {k: v for k, v in team.items() if v}, 'lft-team', f'{h.id}: {got}, not the largest team {team}')
        total = sum(x[1] for x in offers.values())
        score = {j: x[1] / total + count[j] / sum(count) for j, x in offers.items()}
        if case['alg'] == 'lft':
            require(score[i] <= min(score.values()) + 1e-9, 'lft-contractor',
                    lambda: f'{h.id} is given to {cons[i]["id"]} with {score[i]}; scores { {cons[j]["id"]: v for j, v in score.items()} }')
        choice += len(offers) > 1 and max(score.values()) > min(score.values()) + 1e-9
        count[i] += 1
        dur[h.id] = d
    # the order
    if case['alg'] == 'lft':
        children = condensed(proj)
        prio = {n.id: n.work_unit.priority for n in heads}
        total, lft = sum(dur.values()), {}
        for h in reversed(heads):
            lft[h.id] = min((lft[c] - dur[c] for c in children[h.id]), default=total)
        for a, b in zip(order, order[1:]):
            require((prio[a.id], lft[a.id]) <= (prio[b.id], lft[b.id]), 'lft-order',
                    f'{a.id} (priority {prio[a.id]}, latest finish {lft[a.id]}) is before {b.id} ({prio[b.id]}, {lft[b.id]})')
    rec.label(case['alg'])
    rec.nontrivial(choice)


SUBS = [Sub('search', offers(), run_search, quick=1200, thorough=6000),
        Sub('team-size', sizes(), run_team, quick=1000, thorough=15000),
        Sub('average', drive.job(['heft_avg', 'between_avg', 'topological', 'rand_topological'], spec=SPEC), run_average,
            quick=500, thorough=8000),
        Sub('lft', drive.job(['lft', 'lft', 'rand_lft'], spec=SPEC, services=False), run_lft, quick=600, thorough=9000)]
