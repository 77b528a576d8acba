"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
P = 'src/pyRFtk/'

TECH = ('symbolic execution of the real source: every path of the harness over the '
        'pyRFtk functions with symbolic inputs, decided by exact algebraic normal forms '
        'and z3; every counterexample is replayed on the real code')
NOTE = ('solver verdict over all real/complex values of the inputs within the stated '
        'structures and bounds (see DESIGN.md); numpy is replaced by an exact symbolic '
        'shim, so IEEE rounding is outside')

PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level=None, note=None):
    PROPS.append((dict(id=id, title=title, statement=statement,
                       quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=[P + f for f in files],
                                    mechanism=[dict(name=n, where=P + w)
                                               for n, w in mech])), level, note))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

ids = [p[0]['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, _, _ in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks, na = [], [dict(property=i, reason=r) for i, r in NA]
nai = [i for i, r in NA]
for p, level, note in PROPS:
    i = p['id']
    if i in nai:
        continue
    assert os.path.exists(os.path.join(ROOT, 'harness', i + '.py')), i
    checks.append(dict(
        property=i,
        quick_cmd='%s /verif/check.py %s --tier quick' % (PY, i),
        thorough_cmd='%s /verif/check.py %s --tier thorough' % (PY, i),
        technique=TECH, level=level or 'model_checking', level_note=note or NOTE))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(checks), 'checks')
