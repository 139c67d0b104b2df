"""Zones: works that need different statuses of a zone never meet, and each change of status takes its time."""
from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.core import Sub, sut, require

PROPERTY = 'C21'
RULE = ('One case is a random project whose works require statuses of one to three zones, a random table of change times, '
        'initial statuses and possibly final statuses, scheduled by one scheduler. Non-trivial: at least one change of '
        'status between works is needed in the resulting schedule.')
ASSUMPTIONS = ['Works in a chain require zones through the first work of the chain only, as the schedulers read them.']
ZONES = ['north', 'south', 'yard']


@st.composite
def job(draw, names, **kw):
    c = draw(drive.job(names, **kw))
    zs = ZONES[:draw(st.sampled_from([1, 1, 2, 3]))]
    proj = c['proj']
    head = {b[0]: len(b) for b in proj['blocks']}
    low = draw(st.sampled_from([0, 1, 1]))       # 0: any status
    for i, w in enumerate(proj['works']):
        # only works that take some time: the order of changes at one moment is nobody's business
        if i in head and any(r[1] for r in w['reqs']):
            e = proj['spec'].get(w['id'], {})
            if 'time' in e:
                e['time'] = max(1, e['time'])
                if head[i] > 1:
                    continue
            use = [z for z in zs if draw(st.integers(0, 2))]
            w['zones'] = [[z, draw(st.integers(low, 2))] for z in use]
    big = draw(st.sampled_from([0, 3, 10, 60]))
    cost = [[draw(st.integers(0, big)) for _ in range(3)] for _ in range(3)]
    c['zones'] = {'start': {z: draw(st.integers(0, 2)) for z in zs}, 'cost': cost,
                  'end': {z: draw(st.integers(1, 2)) for z in zs if draw(st.integers(0, 3)) == 0} if draw(st.booleans()) else {}}
    return c


def landscape(case):
    import numpy as np
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.zones import ZoneConfiguration
    z = case['zones']
    return LandscapeConfiguration(zone_config=ZoneConfiguration(start_statuses=dict(z['start']), end_statuses=dict(z['end']),
                                                                time_costs=np.array(z['cost'])))


def check(case, sd):
    """-> number of changes needed between works"""
    z, proj = case['zones'], case['proj']
    chain = {proj['works'][b[0]]['id']: [proj['works'][i]['id'] for i in b] for b in proj['blocks']}
    changes = 0
    start_id, finish_id = oracle.ids(proj)
    for zone, status in z['start'].items():
        users = sorted(((sd[w['id']]['st'], sd[w['id']]['ft'], w['id'], s) for w in proj['works']
                        for k, s in w.get('zones', []) if k == zone and s != 0))
        busy, cur, last = 0, status, None
        for t0, t1, wid, need in users:
            # works starting together share the change; it may be noted at any of them
            rec = [t for u in users if u[0] == t0 and u[3] == need for t in sd[u[2]]['obj'].zones_pre if t.name == zone]
            fresh = last is None or t0 > began
            if need != cur:
                cost = z['cost'][cur][need]
                require(t0 >= busy + cost, 'status', lambda: f'{wid} needs {zone} in status {need} at {t0}; it is in status {cur} '
                                                             f'till {busy} for {last}, and the change takes {cost}')
                require(len(rec) == 1 and (rec[0].from_status, rec[0].to_status) == (cur, need), 'record',
                        lambda: f'{wid}: the change {zone} {cur} -> {need} is recorded as {[str(t) for t in rec]}')
                a, b = oracle.T(rec[0].start_time), oracle.T(rec[0].end_time)
                require(b - a == cost and busy <= a and b <= t0, 'record-time',
                        lambda: f'{wid}: the change {zone} {cur} -> {need} of {cost} is recorded at {a}..{b}; {zone} is used till '
                                f'{busy}, {wid} starts at {t0}')
                cur = need
                changes += last is not None
            elif fresh:
                require(not rec, 'extra-record', lambda: f'{wid}: {zone} is in status {cur} already, recorded: {[str(t) for t in rec]}')
            began = t0
            if t1 > busy or last is None:
                busy, last = t1, wid
        if zone in z['end'] and z['end'][zone] != cur:
            need = z['end'][zone]
            cost = z['cost'][cur][need]
            fin = sd[finish_id]
            rec = [t for t in fin['obj'].zones_pre if t.name == zone]
            require(fin['st'] >= busy + cost, 'end-status', lambda: f'{zone} has to be left in status {need}; it is in status {cur} '
                                                                    f'till {busy}, the project ends at {fin["st"]}, a change takes {cost}')
            require(len(rec) == 1 and (rec[0].from_status, rec[0].to_status) == (cur, need), 'end-record',
                    lambda: f'the final change of {zone} {cur} -> {need} is recorded as {[str(t) for t in rec]}')
            a, b = oracle.T(rec[0].start_time), oracle.T(rec[0].end_time)
            require(b - a == cost and busy <= a and b <= fin['st'], 'end-record-time',
                    lambda: f'the final change of {zone} of {cost} is recorded at {a}..{b}; used till {busy}, end {fin["st"]}')
    return changes


def run(case, rec):
    from sampo.schemas.time import Time
    proj = case['proj']
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    with sut('crash'):
        s = sched.make(case['alg'], case['seed'], case['gens'], case['pop'])
        res = s.schedule(wg, cons, spec=spec, landscape=landscape(case), start_time=Time(case['at']))
    require(res, 'no-schedule', 'no schedule returned')
    rec.label(case['alg'], *(['end-status'] if case['zones']['end'] else []))
    for sch in res:
        sd = oracle.flatten(sch)
        oracle.everything(proj, sd, split=case['alg'] == 'genetic', at=case['at'])
        rec.nontrivial(check(case, sd))
    del wg


SPEC = dict(contractors=True, teams=True, times=True, independent=True)
SUBS = [Sub('heuristics', job(drive.FAST), run, quick=700, thorough=12000),
        Sub('specified', job(drive.FAST, spec=SPEC), run, quick=300, thorough=6000),
        Sub('genetic', job(drive.GEN, big=False), run, quick=160, thorough=2400),
        Sub('genetic-specified', job(drive.GEN, big=False, spec=SPEC), run, quick=160, thorough=2400)]
