"""A later project start shifts the whole schedule."""
from hypothesis import strategies as st

from vf import drive, oracle
from vf.core import Sub, sut, require

PROPERTY = 'C07'
RULE = ('A case is a random project, a scheduler with a fixed seed and a start time t > 0; it is scheduled from 0 and from t. '
        'Non-trivial: the schedule from 0 has at least two works of non-zero duration that do not start together.')
ASSUMPTIONS = ['Material delivery and zones are not part of these cases (deliveries are placed at absolute times).']


@st.composite
def case_for(draw, names, spec=None):
    c = draw(drive.job(names, spec=spec, shift=False))
    c['t'] = draw(st.sampled_from([1, 2, 7, 30, 365, 10000]))
    return c


def run(case, rec):
    rec.label(case['alg'])
    out = []
    for t in (0, case['t']):
        with sut('crash'):
            res, wg = drive.solve(dict(case, at=t))
        out.append([oracle.flatten(s) for s in res])
        del wg
    require(len(out[0]) == len(out[1]), 'count', 'another number of schedules')
    for a, b in zip(*out):
        require(set(a) == set(b), 'works', 'other works are scheduled')
        for wid in a:
            x, y = a[wid], b[wid]
            require((x['st'] + case['t'], x['ft'] + case['t']) == (y['st'], y['ft']), 'shift',
                    f'{wid}: {x["st"]}..{x["ft"]} from 0 but {y["st"]}..{y["ft"]} from {case["t"]}')
            require(sorted(x['team']) == sorted(y['team']) and x['contractor'] == y['contractor'], 'shift-team',
                    f'{wid}: {x["team"]} from 0 but {y["team"]} from {case["t"]}')
        rec.nontrivial(len({s['st'] for s in a.values() if s['ft'] > s['st']}) > 1)


SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)
SUBS = [Sub('heuristics', case_for(drive.FAST), run, quick=1200, thorough=15000),
        Sub('spec_heuristics', case_for(drive.FAST, SPEC), run, quick=600, thorough=8000),
        Sub('genetic', case_for(drive.GEN), run, quick=100, thorough=1500),
        Sub('spec_genetic', case_for(drive.GEN, SPEC), run, quick=60, thorough=1000)]
