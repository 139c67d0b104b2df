"""Independent oracles over a finished schedule.  They read only the described project (plain data) and the public
fields of the produced ScheduledWork objects: id, start_end_time, workers, contractor_id, cost, materials, zones."""
from __future__ import annotations

from vf.core import Violation, require  # noqa: F401
from vf.gen import DEP

INF = 2_000_000_000


def T(x) -> int:
    return x.value if hasattr(x, 'value') else int(x)


def flatten(schedule) -> dict:
    """id -> plain description of each scheduled work; exactly one entry per work."""
    out = {}
    for s in schedule.works:
        if s.id in out:
            raise Violation('duplicate-work', f'work {s.id} is scheduled more than once')
        out[s.id] = {'st': T(s.start_end_time[0]), 'ft': T(s.start_end_time[1]),
                     'team': [(w.name, int(w.count), w.contractor_id) for w in s.workers],
                     'contractor': s.contractor_id, 'obj': s}
    return out


def flat_nodes(node2swork) -> dict:
    out = {}
    for s in node2swork:
        if s.id in out:
            raise Violation('duplicate-work', f'work {s.id} is scheduled more than once')
        out[s.id] = {'st': T(s.start_end_time[0]), 'ft': T(s.start_end_time[1]),
                     'team': [(w.name, int(w.count), w.contractor_id) for w in s.workers],
                     'contractor': s.contractor_id, 'obj': s}
    return out


def ids(proj):
    return proj.get('start_id', 'start'), proj.get('finish_id', 'finish')


def complete(proj, sd):
    start_id, finish_id = ids(proj)
    want = {w['id'] for w in proj['works']} | {start_id, finish_id}
    missing, extra = want - set(sd), set(sd) - want
    require(not missing, 'missing-work', f'works never scheduled: {sorted(missing)}')
    require(not extra, 'extra-work', f'works not in the project: {sorted(extra)}')
    for wid, s in sd.items():
        require(abs(s['st']) < INF and abs(s['ft']) < INF, 'infinite-time', f'{wid} at {s["st"]}..{s["ft"]}')
        require(s['st'] <= s['ft'], 'negative-duration', f'{wid} runs {s["st"]}..{s["ft"]}')


def precedence(proj, sd, lags=True):
    start_id, finish_id = ids(proj)
    works = proj['works']
    for p, c, lag, t in proj['edges']:
        if t not in DEP:
            continue
        a, b = sd[works[p]['id']], sd[works[c]['id']]
        need = a['ft'] + (int(lag) if lags else 0)
        require(b['st'] >= need, 'precedence',
                lambda: f'{works[c]["id"]} starts at {b["st"]}, but {works[p]["id"]} finishes at {a["ft"]} '
                        f'(edge {t}, lag {lag})')
    for w in works:
        s = sd[w['id']]
        require(s['st'] >= sd[start_id]['ft'], 'precedence', f'{w["id"]} starts before the start of the project')
        require(s['ft'] <= sd[finish_id]['st'], 'precedence', f'{w["id"]} ends after the finish of the project')


def team(proj, sd):
    """Each work is done by one contractor, which exists, with a team whose kinds are the required kinds and whose
    sizes are inside the required interval and inside that contractor's staff."""
    cons = {c['id']: c for c in proj['contractors']}
    for w in proj['works']:
        s = sd[w['id']]
        names = [n for n, _, _ in s['team']]
        require(len(names) == len(set(names)), 'team', f'{w["id"]}: a kind occurs twice in the team {s["team"]}')
        require({c for _, _, c in s['team']} <= {s['contractor']}, 'team-contractor',
                f'{w["id"]}: team {s["team"]} does not belong to its contractor {s["contractor"]!r}')
        got = {n: k for n, k, _ in s['team']}
        for kind, _, lo, hi in w['reqs']:
            n = got.pop(kind, 0)
            require(lo <= n <= hi, 'team-size', f'{w["id"]}: {n} x {kind}, required [{lo}, {hi}]')
            if n:
                have = cons.get(s['contractor'], {'workers': {}})['workers'].get(kind, 0)
                require(n <= have, 'team-staff', f'{w["id"]}: {n} x {kind} of {s["contractor"]!r}, which has {have}')
        got = {k: v for k, v in got.items() if v}
        require(not got, 'team-extra', f'{w["id"]}: workers nobody asked for: {got}')
        if w['reqs']:
            require(s['contractor'] in cons, 'contractor', f'{w["id"]}: unknown contractor {s["contractor"]!r}')


def capacity(proj, sd, groups=None):
    """At every instant the workers in use of a kind never exceed the contractor's staff.
    A chain keeps its team from its first start to its last finish."""
    events = {}
    blocks = groups or [[i] for i in range(len(proj['works']))]
    for block in blocks:
        ids = [proj['works'][i]['id'] for i in block]
        lo, hi = min(sd[i]['st'] for i in ids), max(sd[i]['ft'] for i in ids)
        if lo == hi:
            continue
        for name, k, con in sd[ids[0]]['team']:
            events.setdefault((con, name), []).extend([(hi, 0, -k, ids[0]), (lo, 1, k, ids[0])])
    cap = {(c['id'], k): n for c in proj['contractors'] for k, n in c['workers'].items()}
    for key, evs in events.items():
        used = 0
        for t, _, k, wid in sorted(evs):
            used += k
            require(used <= cap.get(key, 0), 'capacity',
                    f'at time {t} contractor {key[0]!r} has {used} x {key[1]} working out of {cap.get(key, 0)} '
                    f'(work {wid})')


def chains(proj, sd):
    """Inseparable chains: same team throughout, in order, no idle gap unless a link waits for another predecessor."""
    works = proj['works']
    for block in proj['blocks']:
        for a, b in zip(block, block[1:]):
            x, y = sd[works[a]['id']], sd[works[b]['id']]
            require(sorted(x['team']) == sorted(y['team']) and x['contractor'] == y['contractor'], 'chain-team',
                    f'{works[a]["id"]} -> {works[b]["id"]}: the team changes from {x["team"]} to {y["team"]}')
            outer = any(c in block[1:] and t in DEP and p not in block for p, c, _, t in proj['edges'])
            mats = any(works[i].get('mats') for i in block)
            require(y['st'] >= x['ft'], 'chain-order', f'{works[b]["id"]} starts before {works[a]["id"]} ends')
            if not outer and not mats:
                require(y['st'] == x['ft'], 'chain-gap',
                        f'{works[a]["id"]} ends at {x["ft"]}, its inseparable successor {works[b]["id"]} starts at '
                        f'{y["st"]}')


def duration_bounds(reqs, team, productivity=None):
    """Exact reference for the estimate: the slowest requirement, done by its team at its productivity times the
    communication coefficient; nothing required takes no time.  Two bounds, equal unless the exact quotient lies within
    1e-9 of an integer (where the code's floating point may legitimately round either way)."""
    import math
    from fractions import Fraction
    lo_t = hi_t = 0
    eps = Fraction(1, 10 ** 9)
    if not team:
        return 0, 0
    for kind, vol, lo, hi in reqs:
        if lo == 0:
            continue
        n = team.get(kind, 0)
        if n < lo:
            return INF, INF
        coef = Fraction(-2 * n ** 3 + 3 * n ** 2 + (6 * hi ** 2 - 1) * n, 6 * hi ** 2)
        rate = coef * n * Fraction((productivity or {}).get(kind, 1))
        if rate == 0:
            return INF, INF
        x = Fraction(vol) / rate
        lo_t = max(lo_t, math.ceil(x * (1 - eps)))
        hi_t = max(hi_t, math.ceil(x * (1 + eps)))
    return lo_t, hi_t


def durations(proj, sd, split=False, productivity=None):
    """Scheduled durations agree with the time estimator for the assigned team, or with the assigned time.
    split=True: only totals per chain are compared (the scheme splits a chain's time by volume).
    productivity: {contractor: {kind: p}}."""
    works = proj['works']
    spec = proj.get('spec', {})
    for block in proj['blocks']:
        names = [works[i]['id'] for i in block]
        fixed = spec.get(names[0], {}).get('time')
        exp, got = [], []
        for i in block:
            w = works[i]
            s = sd[w['id']]
            exp.append(duration_bounds(w['reqs'], {n: k for n, k, _ in s['team']},
                                       (productivity or {}).get(s['contractor'])))
            got.append(s['ft'] - s['st'])
        if fixed is not None:
            require(sum(got) == fixed, 'assigned-time', f'{names}: assigned time {fixed}, scheduled for {got}')
        elif split:
            require(sum(e[0] for e in exp) <= sum(got) <= sum(e[1] for e in exp), 'duration',
                    f'{names}: scheduled {got}, estimated {exp}')
        else:
            require(all(e[0] <= g <= e[1] for e, g in zip(exp, got)), 'duration',
                    f'{names}: scheduled {got}, estimated {exp}')
    for wid in set(sd) - {w['id'] for w in works}:
        require(sd[wid]['st'] == sd[wid]['ft'], 'duration', f'service work {wid} lasts {sd[wid]["ft"] - sd[wid]["st"]}')


def spec_ok(proj, sd):
    works = {w['id']: w for w in proj['works']}
    for wid, e in proj.get('spec', {}).items():
        s = sd[wid]
        block = next(b for b in proj['blocks'] if proj['works'][b[0]]['id'] == wid)
        if e.get('contractors') and works[wid]['reqs']:
            require(s['contractor'] in e['contractors'], 'spec-contractor',
                    f'{wid} is given to {s["contractor"]!r}, allowed {e["contractors"]}')
        if e.get('workers'):
            got = {n: k for n, k, _ in s['team']}
            for kind, n in e['workers'].items():
                require(got.get(kind) == n, 'spec-team', f'{wid}: {kind} fixed at {n}, got {got.get(kind)}')
        del block


def independent(proj, sd):
    """A work declared independent never runs in parallel with another user of its kinds of its contractor."""
    works = proj['works']
    spans = []
    for block in proj['blocks']:
        ids = [works[i]['id'] for i in block]
        lo, hi = min(sd[i]['st'] for i in ids), max(sd[i]['ft'] for i in ids)
        if hi > lo:
            spans.append((ids[0], lo, hi, {(c, n) for n, k, c in sd[ids[0]]['team'] if k > 0}))
    for wid, lo, hi, use in spans:
        if not proj.get('spec', {}).get(wid, {}).get('independent'):
            continue
        for other, lo2, hi2, use2 in spans:
            if other != wid and lo < hi2 and lo2 < hi:
                require(not (use & use2), 'independent',
                        f'{wid} is independent but {other} uses {use & use2} during {max(lo, lo2)}..{min(hi, hi2)}')


def everything(proj, sd, split=False, at=0):
    complete(proj, sd)
    precedence(proj, sd)
    team(proj, sd)
    capacity(proj, sd, proj['blocks'])
    chains(proj, sd)
    durations(proj, sd, split)
    spec_ok(proj, sd)
    for s in sd.values():
        require(s['st'] >= at, 'too-early', f'{s["obj"].id} starts at {s["st"]}, the project at {at}')
