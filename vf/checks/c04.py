"""A schedule obeys the specification given for single works."""
from vf import drive, oracle

PROPERTY = 'C04'
RULE = ('A case is a random project with a satisfiable per-work specification (allowed contractors, complete or partial '
        'fixed team, fixed time, independence) plus a scheduler. Non-trivial: at least one specified work whose '
        'specification excludes something (a capable contractor, another team size, another duration, a parallel user).')
ASSUMPTIONS = ['Specified teams lie inside the required interval of the work and fit at least one allowed contractor; a '
               'specification is given to the head of an inseparable chain and governs the chain.']


def ok(case, sd):
    proj = case['proj']
    oracle.spec_ok(proj, sd)
    oracle.independent(proj, sd)
    for block in proj['blocks']:
        ids = [proj['works'][i]['id'] for i in block]
        t = proj['spec'].get(ids[0], {}).get('time')
        if t is not None:
            got = sum(sd[i]['ft'] - sd[i]['st'] for i in ids)
            oracle.require(got == t, 'assigned-time', f'{ids}: assigned time {t}, scheduled for {got}')


def mark(case, sd, rec):
    from vf.gen import capable
    proj = case['proj']
    byid = {w['id']: w for w in proj['works']}
    found = set()
    for wid, e in proj['spec'].items():
        reqs = byid[wid]['reqs']
        if 'contractors' in e and any(c['id'] not in e['contractors'] and capable(c, reqs) for c in proj['contractors']):
            found.add('excludes-contractor')
        if 'workers' in e:
            if any(lo < hi for k, _, lo, hi in reqs):
                found.add('fixes-team')
            if len(e['workers']) < len(reqs):
                found.add('partial-team')
        if 'time' in e:
            lo, hi = oracle.duration_bounds(reqs, {n: k for n, k, _ in sd[wid]['team']})
            if not lo <= e['time'] <= hi:
                found.add('fixes-time-shorter' if e['time'] < lo else 'fixes-time-longer')
        if e.get('independent'):
            found.add('independent')
    rec.nontrivial(bool(found))
    rec.label(*sorted(found))


run = drive.checker(ok, mark=mark)
SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True, density=2)
SUBS = (drive.subs(run, fast=3200, genetic=320, spec=SPEC)
        + drive.subs(run, fast=800, genetic=120, prefix='ind_',
                     spec=dict(contractors=False, teams=False, times=False, independent=True, density=1)))
