"""Every work is scheduled exactly once, by one contractor, with a legal team."""
from vf import drive, oracle
from vf.core import Sub

PROPERTY = 'C03'
RULE = ('A case is a random project and contractors (each with its own subset of worker kinds, in its own order) plus a '
        'scheduler. Non-trivial: at least one work whose team was a real choice (required interval wider than a point, '
        'or two contractors able to do it).')


def whole(case, sd):
    oracle.complete(case['proj'], sd)
    oracle.team(case['proj'], sd)


def mark(case, sd, rec):
    from vf.gen import capable
    proj = case['proj']
    wide = multi = inner = short = False
    for w in proj['works']:
        able = [c for c in proj['contractors'] if capable(c, w['reqs'])]
        multi |= bool(w['reqs']) and len(able) > 1
        got = {n: k for n, k, _ in sd[w['id']]['team']}
        staff = {c['id']: c['workers'] for c in proj['contractors']}.get(sd[w['id']]['contractor'], {})
        for kind, _, lo, hi in w['reqs']:
            wide |= lo < hi
            inner |= lo < got.get(kind, 0) < hi
            short |= staff.get(kind, 0) < hi
    rec.nontrivial(wide or multi)
    rec.label('choice-of-size' if wide else None, 'choice-of-contractor' if multi else None,
              'inner-size-chosen' if inner else None, 'staff-below-max' if short else None)


run = drive.checker(whole, mark=mark)
SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)
SUBS = (drive.subs(run, fast=1800, genetic=200) + drive.subs(run, fast=900, genetic=160, spec=SPEC, prefix='spec_')
        + [Sub('synthetic', drive.synth_job(drive.FAST), drive.synth_checker(whole, mark=mark), quick=48, thorough=600),
           Sub('synthetic_genetic', drive.synth_job(drive.GEN), drive.synth_checker(whole, mark=mark), quick=8,
               thorough=120)])
