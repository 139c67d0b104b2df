"""Schedules and chromosomes convert into each other without loss."""
from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks.c10 import Model, toolbox, snap, SPEC
from vf.core import Sub, sut, require

PROPERTY = 'C11'
RULE = ('A case is a random project with specification and a scheduler; its schedule is encoded, decoded (serial or parallel '
        'scheme) and encoded again; a randomly mutated chromosome makes the same trip. Non-trivial: at least two works have '
        'teams and a choice of size or contractor.')
ASSUMPTIONS = ['Genes that mean nothing (contractor of a work without workers) are not compared.',
               'Exact equality of the decoded schedule is asserted for the schedulers that place works on the same kind of '
               'timeline in the encoded order (LFT, HEFT-between).']
ALGS = ['heft', 'heft_between', 'between_avg', 'heft_avg', 'lft', 'topological', 'rand_topological', 'rand_lft', 'between_cd']
MOMENTUM = {'heft_between', 'between_avg', 'between_cd', 'lft', 'rand_lft'}


@st.composite
def case_for(draw):
    alg = draw(st.sampled_from(ALGS))
    return {'alg': alg, 'proj': draw(gen.project(min_works=2, max_works=draw(st.sampled_from([4, 8, 14])),
                                                 spec=draw(st.sampled_from([None, SPEC])))),
            'sgs': draw(st.sampled_from(['parallel', 'serial'])), 'seed': draw(st.integers(0, 10 ** 6)), 'pop': 3,
            'mo': draw(st.sampled_from([0.0, 0.5])), 'mr': draw(st.sampled_from([0.3, 1.0])), 'opt': draw(st.booleans())}


def teams(sd, ids):
    return {w: (sorted((n, k) for n, k, _ in sd[w]['team'] if k), sd[w]['contractor'] if sd[w]['team'] else None)
            for w in ids}


def run(case, rec):
    from sampo.schemas.schedule import Schedule
    proj = case['proj']
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    m = Model(proj, wg, cons)
    rec.label(case['alg'], case['sgs'])
    with sut('crash'):
        sch, _, _, order = sched.make(case['alg'], case['seed']).schedule_with_cache(wg, cons, spec=spec)[0]
        tb = toolbox(case, wg, cons, spec)
        ch = tb.schedule_to_chromosome(schedule=sch, order=order)
        ok = tb.validate(tb.Individual(ch))
    sd = oracle.flatten(sch)
    require(m.problems(ch) is None and ok, 'encode', lambda: f'encoded schedule: {m.problems(ch) or "rejected by the validity test"}')
    # the genes are the schedule
    ids = [w for w in m.ids]
    for i, wid in enumerate(ids):
        s = sd[wid]
        if s['team']:
            got = {k: int(ch[1][i, j]) for j, k in enumerate(m.kinds) if ch[1][i, j]}
            want = {n: k for n, k, _ in s['team'] if k}
            require(got == want, 'encode-team', f'{wid}: scheduled {want}, encoded {got}')
            con = proj['contractors'][ch[1][i, -1]]['id']
            require(con == s['contractor'], 'encode-contractor', f'{wid}: scheduled by {s["contractor"]}, encoded {con}')
    require([m.ids[i] for i in ch[0]] == [n.id for n in order], 'encode-order', 'the order is not the one passed')

    def trip(c, what):
        before = snap(c)
        with sut('crash'):
            sw = tb.chromosome_to_schedule(c)[0]
            back = Schedule.from_scheduled_works(sw.values(), wg)
            nodes = sorted((n for n in wg.nodes if n.id in m.ids),
                           key=lambda n: [m.ids[i] for i in c[0]].index(n.id))
            c2 = tb.schedule_to_chromosome(schedule=back, order=nodes)
        sd2 = oracle.flatten(back)
        oracle.everything(proj, sd2, split=case['sgs'] == 'parallel')
        require(snap(c) == before, 'decode-changed', f'{what}: decoding changed the chromosome')
        with_team = [i for i, w in enumerate(m.ids) if sd2[w]['team']]
        for i in with_team:
            require(c[1][i].tolist() == c2[1][i].tolist(), 'round-trip',
                    f'{what}: {m.ids[i]} {c[1][i].tolist()} decodes and encodes to {c2[1][i].tolist()} (kinds {m.kinds})')
        for i, w in enumerate(m.ids):
            require(i in with_team or not c[1][i, :-1].any(), 'lost-team', f'{what}: the team of {w} is lost')
        require(list(c[0]) == list(c2[0]), 'round-trip-order', f'{what}: another order')
        return sd2

    sd2 = trip(ch, 'encoded schedule')
    allw = [w['id'] for w in proj['works']]
    require(teams(sd, allw) == teams(sd2, allw), 'decode-team', lambda: f'teams {teams(sd, allw)} became {teams(sd2, allw)}')
    if case['sgs'] == 'serial' and case['alg'] in MOMENTUM:
        for w in allw:
            require((sd[w]['st'], sd[w]['ft']) == (sd2[w]['st'], sd2[w]['ft']), 'decode-times',
                    f'{w}: scheduled {sd[w]["st"]}..{sd[w]["ft"]}, decoded {sd2[w]["st"]}..{sd2[w]["ft"]}')
        rec.label('exact')
    with sut('crash'):
        c3 = tb.mutate(tb.copy_individual(tb.Individual(ch)))
    trip(c3, 'mutated chromosome')
    wide = [w for w in proj['works'] if any(lo < hi for _, _, lo, hi in w['reqs'])]
    rec.nontrivial(sum(bool(w['reqs']) for w in proj['works']) > 1 and (wide or len(cons) > 1))
    del wg


SUBS = [Sub('round_trip', case_for(), run, quick=700, thorough=10000)]
