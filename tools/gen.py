"""writes properties.jsonl and MANIFEST.json from the PROPS table (tools/props.py)"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
                                why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
m = dict(version=1, setup_cmd='python3-vt -m compileall -q pyvc contracts >/dev/null && python3-vt -c "import z3, numpy"',
         hooks=dict(guard='PYVC', enable='no hook is needed: the checks read /repo sources as they are', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='python3-vt -m pyvc.check %s quick' % p['id'],
                      thorough_cmd='python3-vt -m pyvc.check %s thorough' % p['id'],
                      technique=p.get('technique', 'contracts on the real functions; verification conditions generated from the sources, discharged by z3/polynomial normal form/cvc5'),
                      level=p.get('level', 'proof'), level_note=p['note']) for p in PROPS if p['id'] not in na],
         not_applicable=NOT_APPLICABLE,
         notes='machine floats are treated as mathematical reals (inf/nan as IEEE values); every contract is also evaluated at run time on the real code under the project interpreter')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties,', len(m['checks']), 'checks')
