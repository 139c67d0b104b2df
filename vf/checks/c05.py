"""Inseparable chains stay together."""
from vf import drive, oracle

PROPERTY = 'C05'
RULE = ('A case is a random project with inseparable chains of 2-3 works (links may have further predecessors of their '
        'own) plus a scheduler. Non-trivial: at least one chain of two works that both need workers.')


def ok(case, sd):
    oracle.chains(case['proj'], sd)
    oracle.capacity(case['proj'], sd, case['proj']['blocks'])


def mark(case, sd, rec):
    proj = case['proj']
    works = proj['works']
    n = outer = spec = 0
    for block in proj['blocks']:
        if len(block) > 1 and works[block[0]]['reqs']:
            n += 1
            outer += any(c in block[1:] and p not in block for p, c, _, _ in proj['edges'])
            spec += works[block[0]]['id'] in proj['spec']
    rec.nontrivial(n > 0)
    rec.label('chain' if n else None, 'chain-link-with-own-predecessor' if outer else None, 'specified' if spec else None)


run = drive.checker(ok, mark=mark)
SPEC = dict(contractors=True, teams=True, partial_teams=True, times=True, independent=True)
SUBS = (drive.subs(run, fast=2400, genetic=240, min_works=3, max_works=12)
        + drive.subs(run, fast=1200, genetic=160, spec=SPEC, prefix='spec_', min_works=3, max_works=12))
