"""Valid schedules made without the library: a random order, random teams, random idle times, earliest fit on a
brute-force model of the staff."""
from hypothesis import strategies as st

from vf import gen, oracle
from vf.checks.c12 import Ref, bound


def draws(draw, proj, delays=(0, 0, 0, 1, 4, 13)):
    n = len(proj['blocks'])
    return {'order': draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)),
            'con': draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)),
            'size': draw(st.lists(st.integers(0, 20), min_size=n, max_size=n)),
            'delay': draw(st.lists(st.sampled_from(delays), min_size=n, max_size=n))}


def block_order(proj, prefs):
    blocks = proj['blocks']
    bid = {i: b for b, blk in enumerate(blocks) for i in blk}
    before = {b: {bid[p] for p, c, _, _ in proj['edges'] if bid[c] == b} - {b} for b in range(len(blocks))}
    left, order = set(range(len(blocks))), []
    while left:
        b = min((b for b in left if not before[b] & left), key=lambda b: (prefs[b], b))
        order.append(b)
        left.discard(b)
    return order


def make(proj, pick, at=0):
    """-> rows {work id: dict(st, ft, con, team)} obeying every rule (chains back to back where possible)."""
    ref, done, rows = Ref(proj, True), {}, {}
    works = proj['works']
    for b in block_order(proj, pick['order']):
        block = proj['blocks'][b]
        head = works[block[0]]
        e = proj['spec'].get(head['id'], {})
        can = [c for c in proj['contractors'] if c['id'] in (e.get('contractors') or [c['id']])
               and gen.capable(c, head['reqs'], e.get('workers'))]
        con = can[pick['con'][b] % len(can)]
        team, x = {}, pick['size'][b]
        for k, _, lo, hi in head['reqs']:
            team[k] = (e.get('workers') or {}).get(k, lo + x % (max(0, min(hi, con['workers'][k]) - lo) + 1))
            x //= 3
        durs = [oracle.duration_bounds(works[i]['reqs'], team)[1] for i in block]
        t = bound(proj, block[0], done, at) + pick['delay'][b]
        while True:
            cur, spans, own = t, [], dict(done)
            for i, d in zip(block, durs):
                s = max(cur, bound(proj, i, own, at))
                spans.append((s, s + d))
                own[works[i]['id']] = s, s + d
                cur = s + d
            if not team or ref.fits(con['id'], team, t, cur - t, False):
                break
            t += 1
        for i, (s, f) in zip(block, spans):
            done[works[i]['id']] = s, f
            rows[works[i]['id']] = {'st': s, 'ft': f, 'con': con['id'], 'team': dict(team)}
        if team:
            ref.take(con['id'], team, t, cur, False)
    start, finish = oracle.ids(proj)
    rows[start] = {'st': at, 'ft': at, 'con': None, 'team': {}}
    end = max([at] + [r['ft'] for r in rows.values()])
    rows[finish] = {'st': end, 'ft': end, 'con': None, 'team': {}}
    return rows


def swork(wg, cons, wid, r):
    from sampo.schemas.scheduled_work import ScheduledWork
    from sampo.schemas.time import Time
    con = next((c for c in cons if c.id == r['con']), None)
    team = []
    for k, n in r['team'].items():
        w = con.workers[k].copy() if k in con.workers else next(iter(con.workers.values())).copy()
        w.name = k
        team.append(w.with_count(n))
    return ScheduledWork(wg[wid].work_unit, (Time(r['st']), Time(r['ft'])), team, con)


def schedule(wg, cons, rows):
    from sampo.schemas.schedule import Schedule
    return Schedule.from_scheduled_works([swork(wg, cons, wid, r) for wid, r in rows.items()], wg)
