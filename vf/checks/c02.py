"""No contractor's staff is ever overdrawn."""
from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.core import Sub, sut

PROPERTY = 'C02'
RULE = ('A case is a random project and contractors plus a scheduler (heuristic, genetic parallel/serial scheme), or two '
        'projects placed one after the other on the same timeline. Non-trivial: at some instant two different works use '
        'the same kind of worker of the same contractor, or a kind is used up completely while another work waits.')


def cap(case, sd):
    oracle.capacity(case['proj'], sd, case['proj']['blocks'])


def usage(proj, sd):
    spans = {}
    for block in proj['blocks']:
        ids = [proj['works'][i]['id'] for i in block]
        lo, hi = min(sd[i]['st'] for i in ids), max(sd[i]['ft'] for i in ids)
        if hi > lo:
            for name, k, con in sd[ids[0]]['team']:
                if k:
                    spans.setdefault((con, name), []).append((lo, hi, k))
    return spans


def mark(case, sd, rec):
    capn = {(c['id'], k): n for c in case['proj']['contractors'] for k, n in c['workers'].items()}
    shared = full = queued = False
    for key, sp in usage(case['proj'], sd).items():
        for i, a in enumerate(sp):
            for b in sp[i + 1:]:
                if a[0] < b[1] and b[0] < a[1]:
                    shared = True
                    full |= a[2] + b[2] == capn.get(key)
                elif (a[1] == b[0] or b[1] == a[0]) and a[2] + b[2] > capn.get(key, 0):
                    queued = True
    rec.nontrivial(shared or queued)
    rec.label('shared' if shared else None, 'exactly-full' if full else None, 'queued' if queued else None)


run = drive.checker(cap, mark=mark)


@st.composite
def two(draw):
    a = draw(drive.job(drive.FAST, big=False, shift=False))
    b = draw(gen.project(min_works=1, max_works=7, feasible=False))
    b['works'][0]['reqs'] = []
    for i in b['blocks'][0]:
        b['works'][i]['reqs'] = []
    # same contractors for both projects: only the works the contractors can do
    cons = a['proj']['contractors']
    works = [w for w in b['works']]
    keep = [blk for blk in b['blocks']
            if not works[blk[0]]['reqs'] or any(gen.capable(c, works[blk[0]]['reqs']) for c in cons)]
    idx = sorted(i for blk in keep for i in blk)
    new = {old: j for j, old in enumerate(idx)}
    b['works'] = [dict(works[i], id='b' + works[i]['id']) for i in idx]
    b['blocks'] = [[new[i] for i in blk] for blk in keep]
    b['edges'] = [[new[p], new[c], lag, t] for p, c, lag, t in b['edges'] if p in new and c in new]
    b['contractors'] = cons
    b['spec'] = {}
    a['second'] = b
    a['starts'] = draw(st.sampled_from([[0, 0], [0, 0], [0, 3], [4, 0], [2, 7], [0, 40]]))
    return a


def run_two(case, rec):
    a, b = case['proj'], case['second']
    rec.label(case['alg'])
    from sampo.schemas.time import Time
    with sut('crash'):
        cons = gen.build_contractors(a)
        wa = gen.build_wg(a)
        wb = gen.build_wg(b, 'start2', 'finish2')
        s = sched.make(case['alg'], case['seed'])
        ra, _, timeline, _ = s.schedule_with_cache(wa, cons, assigned_parent_time=Time(case['starts'][0]))[0]
        rb, _, _, _ = s.schedule_with_cache(wb, cons, timeline=timeline, assigned_parent_time=Time(case['starts'][1]))[0]
    off = len(a['works'])
    both = {'works': a['works'] + b['works'], 'contractors': a['contractors'],
            'blocks': a['blocks'] + [[i + off for i in blk] for blk in b['blocks']]}
    sd = {**oracle.flatten(ra), **oracle.flatten(rb)}
    b2 = dict(b, start_id='start2', finish_id='finish2')
    oracle.precedence(b2, sd)
    oracle.capacity(both, sd, both['blocks'])
    mark({'proj': both}, sd, rec)


SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)
SUBS = (drive.subs(run, fast=1800, genetic=160) + drive.subs(run, fast=1200, genetic=160, spec=SPEC, prefix='spec_')
        + [Sub('two_projects', two(), run_two, quick=1000, thorough=12000),
           Sub('synthetic', drive.synth_job(drive.FAST), drive.synth_checker(cap, mark=mark), quick=48, thorough=600),
           Sub('synthetic_genetic', drive.synth_job(drive.GEN), drive.synth_checker(cap, mark=mark), quick=8,
               thorough=120)])
