"""DESIGN.md from its sources:  /opt/venv/bin/python tools/design.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf.boot import boot  # noqa: E402

boot()
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props  # noqa: E402
from design_notes import NOTES  # noqa: E402

out = [open(f'{HERE}/tools/design_intro.md').read().rstrip(), '']
out += ['## Properties', '', 'Numbers after the sub-checks: cases per quick / thorough run. "Non-trivial" and the assumptions are those the evidence states.', '']
claimed = {c['property'] for c in json.load(open(f'{HERE}/MANIFEST.json'))['checks']}
for d, note, technique in sorted(props.P, key=lambda x: x[0]['id']):
    i = d['id']
    if i not in claimed:
        continue
    m = importlib.import_module(f'vf.checks.{i.lower()}')
    out += [f'### {i} {d["title"]}', '', d['statement'], '', f'* Decided by: {NOTES[i]}',
            f'* Quantified over: {d["quantifier"]["text"]}', f'* Why tests cannot: {d["why_tests_cant"]}',
            f'* Non-trivial: {m.RULE}']
    if getattr(m, 'ASSUMPTIONS', None):
        out.append(f'* Assumptions: {" ".join(m.ASSUMPTIONS)}')
    out.append('* Sub-checks: ' + ', '.join(f'`{s.name}` {s.quick}/{s.thorough}' for s in m.SUBS))
    out.append('')
out += ['## Not applicable', '']
out += [f'* {n["property"]}: {n["reason"]}' for n in props.NA] + ['']
out += [open(f'{HERE}/tools/design_lessons.md').read().rstrip(), '']
k = json.load(open(f'{HERE}/known_findings.json'))
out += ['## Known findings (recorded, not repaired)', '']
out += [f'* `{f["id"]}` ({f["property"]}): {f["what"]}' + (f' {f["why"]}' if f.get('why') else '') for f in k['findings']] + ['']
out += ['## Defects found and repaired', '', 'Each is one `fix:` commit in /repo; the check that found it reports it again on the tree before the commit.', '']
out += ['* ' + x.removeprefix('fixed: ') for x in k['fixed']] + ['']
out += ['## Planted bugs', '', 'All pass the 615 stable tests. "First missed" ones were written from the text of the property, escaped the check as it was, '
        'and led to the generator or oracle named being extended.', '', '| bug | property | needs | first missed, then |', '|---|---|---|---|']
missed = json.load(open(f'{HERE}/tools/missed.json'))
for b in sorted(os.listdir(f'{HERE}/seeded')):
    p = f'{HERE}/seeded/{b}/meta.json'
    if os.path.exists(p):
        x = json.load(open(p))
        out.append(f'| {b} | {x["property"]} | {x["needs"]} | {missed.get(b, "")} |')
open(f'{HERE}/DESIGN.md', 'w').write('\n'.join(out) + '\n')
