#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed properties
NA = []  # (id, title, statement, reason, ...)
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), state=[dict(zip(('name','meaning','where'), s)) for s in state],
                     mechanism=[dict(zip(('name','where'), m)) for m in mech], observe_at=list(observe), hook_needed=None)))
def na(id, reason, **kw):
    NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(V, 'tools', 'table.py')).read())
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids), ids
for p in P:
    assert len(p['title']) <= 80, p['title']
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']): f.write(json.dumps(p) + '\n')
nas = {n['property'] for n in NA}
import glob, re
NOTE = {}
for h in sorted(glob.glob(os.path.join(V, 'harness', '*.c'))):
    t = open(h).read()
    for i in ' '.join(re.findall(r'^//@property (.*)', t, re.M)).split():
        NOTE[i] = (NOTE.get(i, '') + '; ' + '; '.join(re.findall(r'^//@(?:bound|assume) (.*)', t, re.M))).strip('; ')
for p in P:
    assert p['id'] in nas or NOTE.get(p['id']), p['id']
man = dict(version=1, setup_cmd='python3 -m py_compile vlib/run.py',
    checks=[dict(property=i, level='model_checking',
        technique='bounded model checking of the real C sources (CBMC, SAT back end)',
        quick_cmd='python3 vlib/run.py ' + i,
        thorough_cmd='VERIF_TIER=thorough python3 vlib/run.py ' + i,
        level_note='Exhaustive within the bounds (SAT verdict; counterexamples are confirmed natively). Bounds and assumptions: ' + NOTE[i]) for i in sorted(ids) if i not in nas],
    not_applicable=NA)
schema = json.load(open('/root/.vp/MANIFEST.schema.json'))
try:
    import sys; sys.path += [__import__("glob").glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")[0]]; import jsonschema
    jsonschema.validate(man, schema)
    for p in P: jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
except ImportError: print('no jsonschema')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties')
