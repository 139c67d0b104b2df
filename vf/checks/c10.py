"""Genetic search: operators keep chromosomes valid, the result is the best chromosome met."""
from hypothesis import strategies as st

from vf import drive, gen, oracle
from vf.core import Sub, sut, require

PROPERTY = 'C10'
RULE = ('Operator cases: a random project with specification, a first population, and a random sequence of crossover and '
        'mutation operators applied to it; every chromosome produced is checked against the plain description and decoded. '
        'Non-trivial: at least one operator changed a chromosome. Search cases: a full run with a recording objective; '
        'non-trivial when two evaluated chromosomes differ in objective.')
ASSUMPTIONS = ['Operators are driven through the toolbox, as the repository\'s tests do.']
OPS = ['mate', 'mate', 'mate_order', 'mate_resources', 'mutate', 'mutate', 'mutate_order', 'mutate_resources']
BORDERS = ['borders', 'borders', 'borders', 'tighten', 'tight_mate', 'tight_mate']     # only where resources are optimised, as in the search itself
SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)


@st.composite
def op_case(draw):
    sgs = draw(st.sampled_from(['parallel', 'serial']))
    opt = draw(st.booleans())
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS + BORDERS if opt else OPS), st.integers(0, 99), st.integers(0, 99)), min_size=1, max_size=14))
    spec = draw(st.sampled_from([None, SPEC]))
    return {'proj': draw(gen.project(min_works=2, max_works=draw(st.sampled_from([4, 8, 14])), spec=spec)), 'sgs': sgs,
            'opt': opt, 'ops': [list(o) for o in ops], 'seed': draw(st.integers(0, 10 ** 6)), 'pop': draw(st.integers(2, 6)),
            'mo': draw(st.sampled_from([0.2, 0.6, 1.0])), 'mr': draw(st.sampled_from([0.2, 0.6, 1.0])),
            'bad': draw(st.integers(0, 10 ** 6))}


def toolbox(case, wg, cons, spec):
    import random
    from sampo.scheduler.genetic.base import GeneticScheduler
    from sampo.scheduler.genetic.converter import ScheduleGenerationScheme
    from sampo.scheduler.genetic.schedule_builder import create_toolbox
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    est = DefaultWorkEstimator()
    init = GeneticScheduler.generate_first_population(wg, cons, LandscapeConfiguration(), spec, est)
    return create_toolbox(wg, cons, case['pop'], case['mo'], case['mr'], 0.1, init, random.Random(case['seed']), spec=spec,
                          work_estimator=est, verbose=False,
                          sgs_type=ScheduleGenerationScheme.Serial if case['sgs'] == 'serial'
                          else ScheduleGenerationScheme.Parallel)


class Model:
    """What a chromosome means, from the plain description."""

    def __init__(self, proj, wg, cons):
        from sampo.scheduler.utils import get_head_nodes_with_connections_mappings, get_worker_contractor_pool
        nodes, *_ = get_head_nodes_with_connections_mappings(wg)
        self.ids = [n.id for n in nodes]
        self.kinds = list(get_worker_contractor_pool(cons))
        self.proj, self.cons = proj, proj['contractors']
        works = {w['id']: w for w in proj['works']}
        heads = {proj['works'][b[0]]['id'] for b in proj['blocks']}
        require(set(self.ids) == heads | {'start', 'finish'} and len(self.ids) == len(set(self.ids)), 'heads',
                f'the works to order are {sorted(self.ids)}, the heads of chains {sorted(heads)}')
        self.works = works
        block_of = {i: b for b, blk in enumerate(proj['blocks']) for i in blk}
        head = {b: proj['works'][blk[0]]['id'] for b, blk in enumerate(proj['blocks'])}
        self.prio = [works[i].get('prio', 1) if i in works else None for i in self.ids]
        self.before = {(head[block_of[p]], head[block_of[c]]) for p, c, _, t in proj['edges']
                       if block_of[p] != block_of[c]}

    def problems(self, ind):
        order, res, border = ind[0], ind[1], ind[2]
        n = len(self.ids)
        if sorted(int(x) for x in order) != list(range(n)):
            return 'the order is not a permutation of the works'
        names = [self.ids[i] for i in order]
        pos = {w: i for i, w in enumerate(names)}
        if names[0] != 'start' or names[-1] != 'finish':
            return 'start/finish are not first/last'
        prio = [self.prio[i] for i in order if self.prio[i] is not None]
        if prio != sorted(prio):
            return f'priority groups are mixed: {prio}'
        for a, b in self.before:
            if pos[a] > pos[b]:
                return f'{b} is ordered before its predecessor {a}'
        for i, wid in enumerate(self.ids):
            con = self.cons[res[i, -1]] if 0 <= res[i, -1] < len(self.cons) else None
            if con is None:
                return f'{wid}: contractor index {res[i, -1]}'
            allowed = self.proj['spec'].get(wid, {}).get('contractors')
            if allowed and con['id'] not in allowed:
                return f'{wid}: contractor {con["id"]} is not among {allowed}'
            reqs = {k: (lo, hi) for k, _, lo, hi in self.works[wid]['reqs']} if wid in self.works else {}
            for j, kind in enumerate(self.kinds):
                x = int(res[i, j])
                lo, hi = reqs.get(kind, (0, 0))
                if not lo <= x <= hi:
                    return f'{wid}: {x} x {kind}, required [{lo}, {hi}]'
                if x > border[res[i, -1], j]:
                    return f'{wid}: {x} x {kind} above the border {border[res[i, -1], j]} of contractor {con["id"]}'
        for c, con in enumerate(self.cons):
            for j, kind in enumerate(self.kinds):
                if not 0 <= border[c, j] <= con['workers'].get(kind, 0):
                    return f'border {border[c, j]} x {kind} of contractor {con["id"]} with {con["workers"].get(kind, 0)}'
        return None


def snap(ind):
    return [ind[k].tolist() for k in (0, 1, 2, 4)]


def tighten(c):
    """borders as low as the teams allow, as mutation of borders can make them"""
    for k in range(len(c[2])):
        c[2][k] = c[1][c[1][:, -1] == k][:, :-1].max(axis=0) if (c[1][:, -1] == k).any() else 0
    return c


def prefer(c, k, m):
    """gives one contractor all works it can do with the teams of the chromosome"""
    con = m.cons[k]
    for i, w in enumerate(m.ids):
        allowed = m.proj['spec'].get(w, {}).get('contractors')
        if (not allowed or con['id'] in allowed) and all(c[1][i, j] <= con['workers'].get(kind, 0) for j, kind in enumerate(m.kinds)):
            c[1][i, -1] = k
    return tighten(c)


def run_ops(case, rec):
    from sampo.schemas.schedule import Schedule
    proj = case['proj']
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    m = Model(proj, wg, cons)
    with sut('crash'):
        tb = toolbox(case, wg, cons, spec)
        pop = tb.population(case['pop'])
    for ind in pop:
        require(m.problems(ind) is None, 'initial', lambda: f'initial chromosome: {m.problems(ind)}')
    changed = 0
    for op, x, y in case['ops']:
        a, b = pop[x % len(pop)], pop[y % len(pop)]
        before = snap(a), snap(b)
        with sut('crash'):
            if op == 'tight_mate':
                a, b = prefer(tb.copy_individual(a), x % len(m.cons), m), prefer(tb.copy_individual(b), y % len(m.cons), m)
                before = snap(a), snap(b)
                for bad in map(m.problems, (a, b)):
                    require(bad is None, 'harness', f'{op}: {bad}')
                out = list(tb.mate(a, b, True))
            elif op.startswith('mate'):
                if op == 'mate':
                    out = tb.mate(a, b, case['opt'])
                elif op == 'mate_order':
                    out = tb.mate_order(a, b)
                else:
                    out = tb.mate_resources(a, b, optimize_resources=case['opt'])
                out = list(out)
            elif op == 'tighten':
                c = tighten(tb.copy_individual(a))
                out = [c]
            else:
                c = tb.copy_individual(a)
                out = [{'mutate': tb.mutate, 'mutate_order': tb.mutate_order, 'mutate_resources': tb.mutate_resources,
                        'borders': tb.mutate_resource_borders}[op](c)]
        require(before == (snap(a), snap(b)), 'parent-changed', f'{op} changed a chromosome it was only to read')
        for ind in out:
            bad = m.problems(ind)
            require(bad is None, 'invalid', f'{op}: {bad}')
            with sut('crash'):
                require(tb.validate(ind), 'validate', f'{op}: a valid chromosome is rejected')
            changed += snap(ind) not in before
        pop.extend(out)
        pop = pop[-8:]
        rec.label(op)
    rec.nontrivial(changed)
    for ind in pop[-2:]:
        pre = snap(ind)
        with sut('crash'):
            sch = Schedule.from_scheduled_works(tb.chromosome_to_schedule(ind)[0].values(), wg)
        require(pre == snap(ind), 'decode-changed', 'decoding changed the chromosome')
        sd = oracle.flatten(sch)
        oracle.everything(proj, sd, split=case['sgs'] == 'parallel')
        lim = dict(proj, contractors=[dict(c, workers={k: int(ind[2][ci, m.kinds.index(k)]) for k in c['workers']})
                                      for ci, c in enumerate(proj['contractors'])])
        oracle.capacity(lim, sd, proj['blocks'])
    # the validity test also refuses what is invalid
    ind = tb.copy_individual(pop[0])
    n, r = len(ind[0]), case['bad']
    if r % 3 == 0 and m.before:
        p, c = sorted(m.before)[r // 3 % len(m.before)]
        i, j = list(ind[0]).index(m.ids.index(p)), list(ind[0]).index(m.ids.index(c))
        ind[0][i], ind[0][j] = ind[0][j], ind[0][i]
        with sut('crash'):
            require(not tb.validate(ind), 'accepts-order', f'an order with {c} before its predecessor {p} is accepted')
        rec.label('bad-order')
    elif r % 3 == 1:
        i = r // 3 % n
        j = r // 7 % len(m.kinds)
        con = ind[1][i, -1]
        ind[1][i, j] = ind[2][con, j] + 1
        with sut('crash'):
            require(not tb.validate(ind), 'accepts-border', 'a team above the border of its contractor is accepted')
        rec.label('bad-team')
    else:
        lim = [(i, c) for i, w in enumerate(m.ids) for c, con in enumerate(m.cons)
               if proj['spec'].get(w, {}).get('contractors') and con['id'] not in proj['spec'][w]['contractors']]
        if lim:
            i, c = lim[r // 3 % len(lim)]
            ind[1][i, -1] = c
            with sut('crash'):
                require(not tb.validate(ind), 'accepts-contractor', 'a contractor the specification forbids is accepted')
            rec.label('bad-contractor')
    del wg


@st.composite
def moves_case(draw):
    """Groups of independent works: every order inside a group is valid."""
    groups = draw(st.lists(st.integers(4, 9), min_size=1, max_size=3))
    works = []
    for g, k in enumerate(groups):
        for i in range(k):
            works.append({'id': f'w{g}.{i}', 'vol': draw(st.integers(1, 20)), 'prio': g + 1, 'reqs': [['driver', 1, 1, 1]]})
    return {'proj': {'works': works, 'edges': [], 'blocks': [[i] for i in range(len(works))], 'spec': {},
                     'kinds': ['driver'], 'contractors': [{'id': 'c0', 'name': 'C 0', 'cost': {}, 'workers': {'driver': draw(st.integers(1, 3))}}]},
            'groups': groups, 'sgs': draw(st.sampled_from(['parallel', 'serial'])), 'seed': draw(st.integers(0, 10 ** 6)),
            'op': draw(st.sampled_from(['mutate_order', 'mutate', 'mate_order', 'mate'])), 'pop': 2, 'mo': 0.5, 'mr': 0.5,
            'shuffle': draw(st.integers(0, 10 ** 6))}


TRIES = 60


def run_moves(case, rec):
    """No group of works is left out: the order inside each of them is varied by the operators."""
    import random
    proj = case['proj']
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    m = Model(proj, wg, cons)
    with sut('crash'):
        tb = toolbox(case, wg, cons, spec)
        a, b = tb.population(1)[0], None
        b = tb.copy_individual(a)
    # the second parent has the works inside the groups in another order, first and last ones kept
    rnd = random.Random(case['shuffle'])
    order, at = [int(x) for x in a[0]], 1
    for k in case['groups']:
        inner = order[at + 1:at + k - 1]
        mixed = inner[:]
        while mixed == inner and len(inner) > 1:
            rnd.shuffle(mixed)
        order[at + 1:at + k - 1] = mixed
        at += k
    b[0][:] = order
    require(m.problems(a) is None and m.problems(b) is None, 'initial', lambda: f'{m.problems(a) or m.problems(b)}')
    changed = [False] * len(case['groups'])
    for _ in range(TRIES):
        with sut('crash'):
            if case['op'] == 'mate_order':
                out = tb.mate_order(a, b)
            elif case['op'] == 'mate':
                out = tb.mate(a, b, False)
            else:
                c = tb.copy_individual(a)
                out = [tb.mutate_order(c) if case['op'] == 'mutate_order' else tb.mutate(c)]
        for o, old in zip(out, (a, b)):
            bad = m.problems(o)
            require(bad is None, 'invalid', f'{case["op"]}: {bad}')
            at = 1
            for g, k in enumerate(case['groups']):
                changed[g] |= o[0][at:at + k].tolist() != old[0][at:at + k].tolist()
                at += k
    rec.label(case['op'], f'{len(changed)} groups')
    # a crossover exchanges something only where a group is long enough to be cut in three
    need = [True if case['op'].startswith('mut') else k >= 8 for k in case['groups']]
    rec.nontrivial(any(need))
    for g, (c, n) in enumerate(zip(changed, need)):
        require(c or not n, 'frozen', f'{case["op"]} in {TRIES} attempts never reorders group {g + 1} of {case["groups"]} '
                                      f'independent works')
    del wg


@st.composite
def search_case(draw):
    obj = draw(st.sampled_from(['time', 'peaks', 'time+peaks', 'multi', 'cost', 'sum']))
    c = draw(drive.job(['genetic', 'genetic_serial'], spec=draw(st.sampled_from([None, SPEC])), big=False, min_works=3))
    return dict(c, obj=obj, opt=draw(st.booleans()), lft=draw(st.integers(0, 4)) == 0)


def measures(sch):
    sd = oracle.flatten(sch)
    time = max(s['ft'] for s in sd.values())
    use, total, cost = {}, 0, 0
    for s in sd.values():
        d = s['ft'] - s['st']
        for (name, k, _), w in zip(s['team'], s['obj'].workers):
            total += k * d
            cost += w.cost_one_unit * k * d
            if d:
                use.setdefault(name, []).extend([(s['ft'], 0, -k), (s['st'], 1, k)])
    peak = 0
    for evs in use.values():
        cur = top = 0
        for _, _, k in sorted(evs):
            cur += k
            top = max(top, cur)
        peak += top
    return time, peak, total, cost


def run_search(case, rec):
    from sampo.api.genetic_api import FitnessFunction
    from sampo.scheduler.genetic import operators as ops
    from vf import sched
    inner = {'time': ops.TimeFitness, 'peaks': ops.SumOfResourcesPeaksFitness, 'sum': ops.SumOfResourcesFitness,
             'time+peaks': ops.TimeWithResourcesFitness, 'multi': ops.TimeAndResourcesFitness,
             'cost': None}[case['obj']]

    seen = []

    class Recording(FitnessFunction):
        def evaluate(self, chromosome, evaluator):
            if inner is None:
                s = evaluator(chromosome)
                v = (measures(s)[3],) if s is not None else (oracle.INF,)
            else:
                v = inner().evaluate(chromosome, evaluator)
            seen.append(tuple(float(x) for x in v))
            return v

    multi = case['obj'] == 'multi'
    with sut('crash'):
        s = sched.make(case['alg'], case['seed'], case['gens'], case['pop'], fitness_constructor=Recording(),
                       fitness_weights=(-1, -1) if multi else (-1,), is_multiobjective=multi,
                       optimize_resources=case['opt'], only_lft_initialization=case['lft'])
        res, wg = drive.solve(case, scheduler=s)
    require(res, 'no-schedule', 'no schedule returned')
    rec.label(case['alg'], case['obj'])
    rec.nontrivial(len(set(seen)) > 1)
    got = []
    for sch in res:
        oracle.everything(case['proj'], oracle.flatten(sch), split=case['alg'] == 'genetic', at=case['at'])
        t, peak, total, cost = measures(sch)
        got.append({'time': (t,), 'peaks': (peak,), 'sum': (total,), 'time+peaks': (t + peak,), 'multi': (t, peak),
                    'cost': (cost,)}[case['obj']])
    close = lambda a, b: all(abs(x - y) <= 1e-6 * max(1, abs(x), abs(y)) for x, y in zip(a, b))  # noqa: E731
    for g in got:
        require(any(close(g, v) for v in seen), 'objective', f'the returned schedule has objective {g}, which no evaluated '
                                                             f'chromosome had')
        for v in seen:
            worse = all(x <= y + 1e-6 for x, y in zip(v, g)) and any(x < y - 1e-6 * max(1, abs(y)) for x, y in zip(v, g))
            require(not worse, 'not-best', f'the returned schedule has objective {g}, but {v} was met')
    del wg


SUBS = [Sub('operators', op_case(), run_ops, quick=500, thorough=8000),
        Sub('moves', moves_case(), run_moves, quick=120, thorough=1500),
        Sub('search', search_case(), run_search, quick=260, thorough=4000)]
