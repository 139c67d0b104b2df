"""Precedence and lags in every schedule."""
from vf import drive, oracle
from vf.core import Sub

PROPERTY = 'C01'
RULE = ('A case is a random project (works, FS/FFS/inseparable edges with lags, priorities, 1-3 contractors with their '
        'own staff, optional per-work specification, start time) plus a scheduler; or a graph of the synthetic generator. '
        'Non-trivial: at least one dependency whose successor starts exactly when the oracle first allows it after a '
        'predecessor of non-zero duration or over a non-zero lag.')
ASSUMPTIONS = ['Domain: graphs the schedulers accept directly (FS/FFS/inseparable edges, lag >= 0, contracted chains '
               'acyclic, priorities not decreasing along dependencies).']


def prec(case, sd):
    oracle.precedence(case['proj'], sd)
    for wid, s in sd.items():
        oracle.require(s['st'] >= case['at'], 'too-early', f'{wid} starts at {s["st"]}, the project at {case["at"]}')


def mark(case, sd, rec):
    works = case['proj']['works']
    tight = lagged = outer = 0
    block_of = {i: b for b, blk in enumerate(case['proj']['blocks']) for i in blk}
    for p, c, lag, t in case['proj']['edges']:
        a, b = sd[works[p]['id']], sd[works[c]['id']]
        if b['st'] == a['ft'] + int(lag) and (a['ft'] > a['st'] or lag > 0) and block_of[p] != block_of[c]:
            tight += 1
            lagged += lag > 0
            outer += c != case['proj']['blocks'][block_of[c]][0]
    rec.nontrivial(tight > 0)
    rec.label('tight' if tight else None, 'tight-lag' if lagged else None, 'tight-into-chain' if outer else None)


run = drive.checker(prec, mark=mark)
SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)
SUBS = (drive.subs(run, fast=1800, genetic=160) + drive.subs(run, fast=900, genetic=120, spec=SPEC, prefix='spec_')
        + [Sub('synthetic', drive.synth_job(drive.FAST), drive.synth_checker(prec, mark=mark), quick=48, thorough=600),
           Sub('synthetic_genetic', drive.synth_job(drive.GEN), drive.synth_checker(prec, mark=mark), quick=8,
               thorough=120)])
