"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, technique=None):
    assert len(title) <= 80, title
    pass
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, note, technique))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

NA = [
    {'property': 'N01', 'reason': 'Training and accuracy of the neural networks of sampo/scheduler/selection (neural_net, validation): needs torch, ray and scikit-learn, '
                                  'none of which is installed here; there is nothing to run. The auction around the networks is claimed as C31 with recorded answers.'},
    {'property': 'N02', 'reason': 'The native C++ genetic back end is a closed extension that is not part of the source tree '
                                  'nor buildable here; only the Python fallback can be executed.'},
]

if __name__ == '__main__':
    P.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks, na = [], list(NA)
    for d, note, technique in P:
        i = d['id']
        if os.path.exists(os.path.join(HERE, 'vf', 'checks', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': f'bash check.sh {i} quick',
                           'thorough_cmd': f'bash check.sh {i} thorough', 'evidence_file': f'evidence/{i}.json',
                           'technique': technique or 'property-based testing (Hypothesis, structured generators, shrinking) against an independent oracle',
                           'level': 'exploration', 'level_note': note})
        elif not i.startswith('N'):
            na.append({'property': i, 'reason': 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks run bash check.sh <id> <tier>; VERIF_SEED drives every random choice. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'checks')
