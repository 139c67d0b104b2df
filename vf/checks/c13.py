"""Schedule validation accepts every valid schedule and refuses every broken one."""
import copy

from hypothesis import strategies as st

from vf import drive, gen, oracle, plan, sched
from vf.core import Sub, sut, require, Discard

PROPERTY = 'C13'
RULE = ('A case is a random project and a valid schedule of it, made without the library (random order, contractors, teams, '
        'idle time) or by one of the schedulers, and one corruption. The valid schedule must be accepted, the corrupted '
        'one refused with an exception. Non-trivial: the corruption is applicable.')
ASSUMPTIONS = ['Claimed corruptions: unscheduled work, start before a predecessor\'s finish (plus lag), finish before start, a team too small, too '
               'large, lacking a kind or with a kind not required, a contractor the specification forbids, staff overdrawn, a '
               'service work with a duration. Other entries of the specification are not examined by the validator.']
KINDS = ['drop', 'before', 'before', 'lag', 'lag', 'reversed', 'small', 'large', 'lack', 'alien', 'forbid', 'staff', 'staff', 'overlap', 'overlap', 'service']


@st.composite
def case_for(draw):
    spec = draw(st.sampled_from([None, dict(contractors=True, teams=True, times=False, independent=False)]))
    kind = draw(st.sampled_from(KINDS))
    if kind == 'forbid':
        spec = dict(contractors=True, teams=False, density=1)
    proj = draw(gen.project(min_works=2, max_works=draw(st.sampled_from([4, 9, 15])), spec=spec, same_kinds=kind == 'forbid'))
    return {'kind': kind, 'proj': proj, 'x': draw(st.integers(0, 10 ** 6)), 'y': draw(st.integers(0, 10 ** 6)),
            'alg': draw(st.sampled_from([None, None, None, 'heft', 'lft', 'topological', 'heft_between'])),
            'at': draw(st.sampled_from([0, 0, 3])), 'pick': plan.draws(draw, proj)}


def pick(items, x):
    if not items:
        raise Discard()
    return items[x % len(items)]


def corrupt(case, rows):
    """-> (rows, contractors description) broken in exactly one respect."""
    proj, x, y = case['proj'], case['x'], case['y']
    rows, cons = copy.deepcopy(rows), copy.deepcopy(proj['contractors'])
    works = {w['id']: w for w in proj['works']}
    kind = case['kind']
    edges = [(proj['works'][p]['id'], proj['works'][c]['id'], lag) for p, c, lag, t in proj['edges'] if t in gen.DEP]
    teamed = sorted(w for w in works if rows[w]['team'])
    spec = proj['spec']
    if kind == 'drop':
        del rows[pick(sorted(works), x)]
    elif kind == 'before':
        p, c, _ = pick([e for e in edges if rows[e[0]]['ft'] > case['at']], x)
        d = rows[c]['ft'] - rows[c]['st']
        rows[c]['st'] = rows[p]['ft'] - 1 - y % (rows[p]['ft'] - case['at'])
        rows[c]['ft'] = rows[c]['st'] + d
    elif kind == 'lag':
        p, c, lag = pick([e for e in edges if e[2] > 0], x)
        d = rows[c]['ft'] - rows[c]['st']
        rows[c]['st'] = rows[p]['ft'] + y % lag
        rows[c]['ft'] = rows[c]['st'] + d
    elif kind == 'reversed':
        w = pick([w for w in teamed if rows[w]['st'] < rows[w]['ft']], x)
        rows[w]['st'], rows[w]['ft'] = rows[w]['ft'], rows[w]['st']
    elif kind in ('small', 'large', 'lack', 'alien'):
        if kind == 'alien':
            w = pick([w for w in teamed if len(cons_of(cons, rows[w]['con'])['workers']) > len(works[w]['reqs'])], x)
            k = pick(sorted(set(cons_of(cons, rows[w]['con'])['workers']) - {r[0] for r in works[w]['reqs']}), y)
            rows[w]['team'][k] = 1
        else:
            w = pick(teamed, x)
            k, _, lo, hi = works[w]['reqs'][y % len(works[w]['reqs'])]
            if kind == 'lack':
                del rows[w]['team'][k]
            else:
                rows[w]['team'][k] = lo - 1 if kind == 'small' else hi + 1
                if kind == 'large':
                    for c in cons:                              # plenty of staff: only the limit is broken
                        if k in c['workers']:
                            c['workers'][k] += 100
    elif kind == 'forbid':
        lim = [(w, c['id']) for w in teamed for c in cons
               if spec.get(w, {}).get('contractors') and c['id'] not in spec[w]['contractors']
               and set(rows[w]['team']) <= set(c['workers'])]
        w, cid = pick(lim, x)
        rows[w]['con'] = cid
        for k in rows[w]['team']:
            cons_of(cons, cid)['workers'][k] += 100
    elif kind == 'staff':
        peak = peaks(rows)
        (cid, k), n = pick(sorted((key, n) for key, n in peak.items() if n > 0), x)
        cons_of(cons, cid)['workers'][k] = n - 1
    elif kind == 'overlap':
        # move a work of the same contractor and kind so that the staff is overdrawn; put it after its predecessors
        free = [w for w in teamed if rows[w]['ft'] > rows[w]['st']]
        opts = []
        for a in free:
            for b in free:
                if a < b and rows[a]['con'] == rows[b]['con']:
                    for k in set(rows[a]['team']) & set(rows[b]['team']):
                        if rows[a]['team'][k] + rows[b]['team'][k] > cons_of(cons, rows[a]['con'])['workers'][k]:
                            first, second = sorted((a, b), key=lambda w: rows[w]['st'])
                            opts.append((first, second))
        a, b = pick(sorted(set(opts)), x)
        d = rows[b]['ft'] - rows[b]['st']
        rows[b]['st'] = rows[a]['st'] + y % (rows[a]['ft'] - rows[a]['st'])
        rows[b]['ft'] = rows[b]['st'] + d
    elif kind == 'service':
        w = pick(sorted(w for w in works if works[w]['svc']) + ['finish'], x)
        rows[w]['ft'] += 1 + y % 5
        for v in rows:
            if v != w and rows[v]['st'] >= rows[w]['st']:
                rows[v]['st'] += 100
                rows[v]['ft'] += 100
    return rows, cons


def cons_of(cons, cid):
    return next(c for c in cons if c['id'] == cid)


def peaks(rows):
    out, evs = {}, {}
    for r in rows.values():
        if r['ft'] > r['st']:
            for k, n in r['team'].items():
                evs.setdefault((r['con'], k), []).extend([(r['ft'], 0, -n), (r['st'], 1, n)])
    for key, lst in evs.items():
        cur = 0
        for _, _, n in sorted(lst):
            cur += n
            out[key] = max(out.get(key, 0), cur)
    return out


def run(case, rec):
    from sampo.utilities.validation import validate_schedule
    proj = case['proj']
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    rec.label('by ' + (case['alg'] or 'hand'))
    if case['alg']:
        with sut('crash'):
            sch = sched.make(case['alg']).schedule(wg, cons, spec=spec)[0]
        sd = oracle.flatten(sch)
        oracle.everything(proj, sd)
        rows = {w: {'st': s['st'], 'ft': s['ft'], 'con': s['contractor'], 'team': {n: k for n, k, _ in s['team']}}
                for w, s in sd.items()}
        case = dict(case, at=0)
    else:
        rows = plan.make(proj, case['pick'], case['at'])
        with sut('crash'):
            sch = plan.schedule(wg, cons, rows)
    with sut('refused-valid'):
        validate_schedule(sch, wg, cons, spec)
    # staff that is just enough is enough
    tight = copy.deepcopy(proj)
    pk = peaks(rows)
    for c in tight['contractors']:
        for k in c['workers']:
            c['workers'][k] = pk.get((c['id'], k), 0)
    with sut('refused-valid'):
        validate_schedule(sch, wg, gen.build_contractors(tight), spec)
    bad, bcons = corrupt(case, rows)
    rec.nontrivial()
    rec.label(case['kind'])
    big = copy.deepcopy(proj)
    big['contractors'] = bcons
    with sut('crash'):
        bsch = plan.schedule(wg, cons, bad)
        bcon = gen.build_contractors(big)
    try:
        validate_schedule(bsch, wg, bcon, spec)
    except Exception:  # noqa: BLE001   refused, as it should be
        return
    require(False, 'accepted-broken', f'a schedule with corruption "{case["kind"]}" is accepted: '
                                      f'{[(w, bad[w]) for w in bad if bad[w] != rows.get(w)]}')


SUBS = [Sub('validate', case_for(), run, quick=2400, thorough=40000)]
