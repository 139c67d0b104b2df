"""No needless delay: works are placed at the earliest time the timeline's rules allow."""
from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks.c10 import SPEC
from vf.core import Sub, sut, require

PROPERTY = 'C12'
RULE = ('Timeline cases: a random project, a random dependency-respecting order, random contractors and teams, works placed '
        'as early as possible or (where a brute-force model says the workers are free) later; every answer of the timeline is '
        'compared with the model. Scheduler cases: the finished schedule is replayed in the scheduler\'s own order on the '
        'model. Non-trivial: some work had to wait for workers after its predecessors were done, or was put in a gap '
        'before a work placed earlier.')
ASSUMPTIONS = ['Chains whose later links have predecessors of their own are only bounded from below (their inner waiting time '
               'depends on the start).']
LEGAL = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)


class Ref:
    """Brute-force model of the staff of all contractors."""

    def __init__(self, proj, between):
        self.between = between
        self.staff = {(c['id'], k): n for c in proj['contractors'] for k, n in c['workers'].items()}
        self.busy = {key: [] for key in self.staff}                 # (from, to, count)
        self.free = {key: [0] * n for key, n in self.staff.items()}   # release time of each worker

    def fits(self, con, team, t, d, alone):
        if self.between and d == 0:
            return True
        for k, n in team.items():
            if n == 0 and not alone:
                continue
            key = con, k
            if self.between:
                if alone:
                    if any(hi > t for _, hi, _ in self.busy[key]):
                        return False
                    continue
                points = {t} | {lo for lo, hi, _ in self.busy[key] if t < lo < t + d}
                for x in points:
                    if sum(c for lo, hi, c in self.busy[key] if lo <= x < hi) + n > self.staff[key]:
                        return False
            else:
                rel = sorted(self.free[key])
                if rel[len(rel) - 1 if alone else n - 1] > t:
                    return False
        return True

    def earliest(self, con, team, after, d, alone):
        cands = {after}
        for k in team:
            key = con, k
            cands |= {x for iv in self.busy[key] for x in iv[:2]} | set(self.free[key])
        return next(t for t in sorted(c for c in cands if c >= after) if self.fits(con, team, t, d, alone))

    def take(self, con, team, lo, hi, alone):
        for k, n in team.items():
            key = con, k
            if self.between:
                if lo < hi:
                    self.busy[key].append((lo, hi, self.staff[key] if alone else n))
            elif alone:
                self.free[key] = [hi] * len(self.free[key])
            else:
                rel = sorted(self.free[key])
                self.free[key] = rel[n:] + [hi] * n


def bound(proj, i, done, at):
    t = at
    for p, c, lag, et in proj['edges']:
        if c == i and et in gen.DEP:
            w = proj['works'][p]['id']
            if w in done:
                t = max(t, done[w][1] + lag)
    return t


def outer(proj, block):
    return any(c in block[1:] and p not in block for p, c, _, _ in proj['edges'])


def chain_time(proj, block, team, spec, rec=None):
    """Working time of the chain for the team -> exact or None when rounding is ambiguous."""
    e = spec.get('time')
    if e is not None:
        return e
    total = 0
    for i in block:
        lo, hi = oracle.duration_bounds(proj['works'][i]['reqs'], team)
        if lo != hi:
            return None
        total += lo
    return total


# ------------------------------------------------------------------------------------------------- direct timelines

@st.composite
def tl_case(draw):
    kind = draw(st.sampled_from(['between', 'end']))
    size = draw(st.sampled_from([5, 9, 14]))
    proj = draw(gen.project(min_works=2, max_works=size, priorities=False, services=True,
                            spec=draw(st.sampled_from([None, dict(times=True, independent=True, contractors=False, teams=False)]))))
    n = len(proj['blocks'])
    return {'kind': kind, 'proj': proj, 'at': draw(st.sampled_from([0, 0, 4])),
            'order': draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)),
            'con': draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)),
            'size': draw(st.lists(st.integers(0, 20), min_size=n, max_size=n)),
            'delay': draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 5, 11, 30]), min_size=n, max_size=n))}


def run_tl(case, rec):
    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
    from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
    from sampo.scheduler.utils import get_worker_contractor_pool
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.time import Time
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    proj, between, at = case['proj'], case['kind'] == 'between', case['at']
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    est = DefaultWorkEstimator()
    works, blocks = proj['works'], proj['blocks']
    bid = {i: b for b, blk in enumerate(blocks) for i in blk}
    before = {b: {bid[p] for p, c, _, _ in proj['edges'] if bid[c] == b} - {b} for b in range(len(blocks))}
    left, order = set(range(len(blocks))), []
    while left:
        ready = sorted((b for b in left if not before[b] & left), key=lambda b: (case['order'][b], b))
        order.append(ready[0])
        left.discard(ready[0])
    with sut('crash'):
        tl = (MomentumTimeline if between else JustInTimeTimeline)(get_worker_contractor_pool(cons), LandscapeConfiguration())
        n2s = {}
        tl.schedule(wg.start, n2s, [], cons[0], spec[wg.start.id], Time(at), None, Time(at), est)
    ref, done = Ref(proj, between), {}
    rec.label(case['kind'])
    for b in order:
        block = blocks[b]
        head = works[block[0]]
        node = wg[head['id']]
        can = [c for c in proj['contractors'] if gen.capable(c, head['reqs'])]
        con = can[case['con'][b] % len(can)]
        team, x = {}, case['size'][b]
        for k, _, lo, hi in head['reqs']:
            team[k] = lo + x % (min(hi, con['workers'][k]) - lo + 1)
            x //= 3
        c_obj = next(c for c in cons if c.id == con['id'])
        workers = [c_obj.workers[k].copy().with_count(n) for k, n in team.items()]
        ws = spec[head['id']]
        alone = ws.is_independent
        d = chain_time(proj, block, team, proj['spec'].get(head['id'], {}) if between else {})
        parent = bound(proj, block[0], done, at)
        odd = outer(proj, block)
        with sut('crash'):
            t = tl.find_min_start_time(node, workers, n2s, ws, Time(at), est).value
            t2 = tl.find_min_start_time(node, workers, n2s, ws, Time(at), est).value
        require(t == t2, 'query-effect', f'asking for the start of {head["id"]} twice gives {t} and {t2}')
        require(t >= parent, 'before-parents', f'{head["id"]}: proposed {t}, predecessors allow {parent}')
        start = t
        if d is not None and not odd:
            want = ref.earliest(con['id'], team, parent, d, alone) if team else parent
            require(t == want, 'not-earliest', f'{head["id"]} ({team} of {con["id"]}, {d} long, predecessors done at {parent}'
                                               f'{", alone" if alone else ""}): proposed {t}, earliest possible {want}')
            rec.nontrivial(t > parent)
            if between:
                rec.nontrivial(any(lo >= t + d for k in team for lo, _, _ in ref.busy[con['id'], k]) and d)
            if team and (d or not between):
                for q in sorted({parent, max(parent, t - 1), t, t + 1, t + 6}):
                    with sut('crash'):
                        got = tl.can_schedule_at_the_moment(node, workers, ws, n2s, Time(q), Time(d))
                    ok = ref.fits(con['id'], team, q, d, alone)
                    require(bool(got) == ok, 'can-schedule', f'{head["id"]} ({team} of {con["id"]}, {d} long) at {q}: '
                                                             f'answered {got}, workers are {"" if ok else "not "}free')
            later = t + case['delay'][b]
            if case['delay'][b] and (not team or ref.fits(con['id'], team, later, d, alone)):
                start = later
                rec.label('delayed')
        with sut('crash'):
            if start == t and case['size'][b] % 2 and not odd:
                tl.schedule(node, n2s, workers, c_obj, ws, None, ws.assigned_time, Time(at), est)
            else:
                tl.schedule(node, n2s, workers, c_obj, ws, Time(start), ws.assigned_time, Time(at), est)
        for i in block:
            sw = n2s[wg[works[i]['id']]]
            done[works[i]['id']] = sw.start_end_time[0].value, sw.start_end_time[1].value
        lo, hi = done[head['id']][0], done[works[block[-1]]['id']][1]
        require(lo == start, 'start', f'{head["id"]} was to start at {start}, is put at {lo}')
        fixed = ws.assigned_time
        if not odd and (d is not None or fixed is not None):
            want = fixed.value if fixed is not None else d
            require(hi - lo == want, 'length', f'{head["id"]} lasts {hi - lo}, not {want}')
        ref.take(con['id'], team, lo, hi, alone)


# -------------------------------------------------------------------------------------------------------- schedulers

ALGS = ['heft', 'heft_avg', 'heft_cd', 'heft_between', 'between_avg', 'between_cd', 'topological', 'rand_topological', 'lft',
        'rand_lft']


def run_sched(case, rec):
    from sampo.schemas.time import Time
    proj, at, alg = case['proj'], case['at'], case['alg']
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    with sut('crash'):
        sch, _, _, order = sched.make(alg, case['seed']).schedule_with_cache(wg, cons, spec=spec,
                                                                             assigned_parent_time=Time(at))[0]
    sd = oracle.flatten(sch)
    between = not alg.startswith('heft') or alg == 'heft_between'
    ref = Ref(proj, between)
    works = proj['works']
    head_of = {works[b[0]]['id']: b for b in proj['blocks']}
    rec.label(alg)
    done = {}
    require([n.id for n in order][0] == 'start' and [n.id for n in order][-1] == 'finish', 'order', 'order of works')
    require(sd['start']['st'] == at, 'start', f'the project starts at {sd["start"]["st"]}, not {at}')
    for node in order[1:-1]:
        block = head_of[node.id]
        head = works[block[0]]
        s = sd[head['id']]
        team = {n: k for n, k, _ in s['team']}
        e = proj['spec'].get(head['id'], {})
        parent = bound(proj, block[0], done, at)
        lo, hi = s['st'], sd[works[block[-1]]['id']]['ft']
        if not outer(proj, block):
            d = hi - lo
            search = chain_time(proj, block, team, e if between else {})
            alone = bool(e.get('independent'))
            if search is not None:
                want = ref.earliest(s['contractor'], team, parent, search, alone) if team else parent
                require(lo == want, 'not-earliest',
                        f'{alg}: {head["id"]} ({team} of {s["contractor"]}, {search} long, predecessors done at {parent}) '
                        f'starts at {lo}, earliest possible {want}')
                rec.nontrivial(lo > parent)
            del d
            k = {'heft_avg': 2, 'between_avg': 4, 'topological': 2, 'rand_topological': 2}.get(alg)
            if k and team and (between or 'time' not in e):
                chosen = lo + (search if search is not None else hi - lo)
                for c in proj['contractors']:
                    if c['id'] in (e.get('contractors') or [c['id']]) and gen.capable(c, head['reqs'], e.get('workers')):
                        tm = {kd: mn + int((min(mx, c['workers'][kd]) - mn) / k) for kd, _, mn, mx in head['reqs']}
                        tm.update(e.get('workers') or {})
                        dd = chain_time(proj, block, tm, e if between else {})
                        if dd is None or search is None:
                            continue
                        other = ref.earliest(c['id'], tm, parent, dd, alone) + dd
                        require(chosen <= other, 'contractor',
                                f'{alg}: {head["id"]} is finished at {chosen} by {s["contractor"]}, {c["id"]} would finish it '
                                f'at {other} with {tm}')
                        rec.label('contractor compared')
        for i in block:
            done[works[i]['id']] = sd[works[i]['id']]['st'], sd[works[i]['id']]['ft']
        ref.take(s['contractor'], team, lo, hi, bool(e.get('independent')))
    last = max([at] + [x['ft'] for w, x in sd.items() if w != 'finish'])
    require(sd['finish']['st'] == last, 'finish', f'the project is finished at {sd["finish"]["st"]}, its last work at {last}')


SUBS = [Sub('timeline', tl_case(), run_tl, quick=1800, thorough=30000),
        Sub('schedulers', drive.job(ALGS, spec=SPEC), run_sched, quick=900, thorough=15000),
        Sub('schedulers_no_spec', drive.job(ALGS), run_sched, quick=900, thorough=15000)]
