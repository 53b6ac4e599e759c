"""Writes properties.jsonl and MANIFEST.json from tools/props_data.py."""
import json
import os
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from props_data import PROPS  # noqa: E402
try:
    from props_data import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        for a in p['files']:
            assert os.path.exists('/repo/' + a), a
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p['id'] in {x['property'] for x in NOT_APPLICABLE}:
        continue
    checks.append(dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json",
                       technique=p['tech'] or 'bounded exhaustive model checking: every element of a finite input/configuration/history space is executed on the real code and compared with a reference model',
                       level='model_checking', level_note=p['note']))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NOT_APPLICABLE,
         notes='No hooks in /repo. All checks import the library from /repo/src in fresh worker processes. Findings and repairs: KNOWN_FINDINGS.txt.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
