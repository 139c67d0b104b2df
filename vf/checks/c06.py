"""Feasible projects are scheduled, infeasible ones are refused with NoSufficientContractorError."""
from hypothesis import strategies as st

from vf import drive, gen, oracle
from vf.core import Sub, Violation, sut, require

PROPERTY = 'C06'
RULE = ('A case is a random project whose contractors and specification may or may not be able to staff every work, plus a '
        'scheduler. An independent predicate decides feasibility. Non-trivial: an infeasible case in which at least one '
        'contractor has each required kind or which is caused by a single work, or a feasible case in which some contractor '
        'can not do some work.')


def able(con, w, e):
    if e.get('contractors') and con['id'] not in e['contractors']:
        return False
    return gen.capable(con, w['reqs'], e.get('workers'))


@st.composite
def case_for(draw, names):
    alg = draw(drive.one_of(names))
    close = draw(st.booleans())
    proj = draw(gen.project(min_works=1, max_works=draw(st.sampled_from([2, 5, 9])), feasible=close))
    if close:
        # a feasible project brought to the edge: one staff count or one specification changed
        what = draw(st.sampled_from(['staff', 'staff', 'spec', 'none']))
        if what == 'staff':
            con = proj['contractors'][draw(st.integers(0, len(proj['contractors']) - 1))]
            kinds = sorted(con['workers'])
            k = kinds[draw(st.integers(0, len(kinds) - 1))]
            need = sorted({lo for w in proj['works'] for kk, _, lo, _ in w['reqs'] if kk == k})
            if need:
                con['workers'][k] = max(0, need[draw(st.integers(0, len(need) - 1))] - draw(st.integers(0, 1)))
        elif what == 'spec':
            blk = proj['blocks'][draw(st.integers(0, len(proj['blocks']) - 1))]
            w = proj['works'][blk[0]]
            e = {}
            if draw(st.booleans()):
                e['contractors'] = [draw(st.sampled_from([c['id'] for c in proj['contractors']] + ['nobody']))]
            if w['reqs'] and (not e or draw(st.booleans())):
                e['workers'] = {k: draw(st.integers(lo, hi)) for k, _, lo, hi in w['reqs']}
            proj['spec'][w['id']] = e
    for c in proj['contractors']:
        c['workers'] = {k: n for k, n in c['workers'].items() if n > 0 or draw(st.booleans())}
    return {'proj': proj, 'alg': alg, 'seed': draw(st.integers(0, 50)), 'at': 0, 'gens': 1, 'pop': 4}


def run(case, rec):
    from sampo.schemas.exceptions import NoSufficientContractorError
    proj = case['proj']
    rec.label(case['alg'])
    bad = []
    partial = False
    for blk in proj['blocks']:
        w = proj['works'][blk[0]]
        e = proj['spec'].get(w['id'], {})
        ok = [able(c, w, e) for c in proj['contractors']]
        partial |= not all(ok)
        if w['reqs'] and not any(ok) or e.get('contractors') == ['nobody']:
            bad.append(w)
    try:
        with sut('crash', NoSufficientContractorError):
            res, wg = drive.solve(case)
            require(res, 'no-schedule', 'the scheduler returned no schedule')
    except NoSufficientContractorError:
        require(bad, 'refused', 'every work has a capable contractor, but scheduling was refused')
        kinds = {k for c in proj['contractors'] for k in c['workers']}
        rec.nontrivial(len(bad) == 1 or all(k in kinds for w in bad for k, *_ in w['reqs']))
        rec.label('infeasible')
        return
    if bad:
        sd = oracle.flatten(res[0])
        s = sd.get(bad[0]['id'])
        raise Violation('accepted', f'no contractor can do {bad[0]["id"]} {bad[0]["reqs"]}, yet it is scheduled: '
                                    f'{s and (s["st"], s["ft"], s["team"], s["contractor"])}')
    for sch in res:
        oracle.complete(proj, oracle.flatten(sch))
    rec.nontrivial(partial)
    rec.label('feasible')


SUBS = [Sub('heuristics', case_for(drive.FAST), run, quick=2400, thorough=30000),
        Sub('genetic', case_for(drive.GEN), run, quick=320, thorough=4000)]
