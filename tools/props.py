# Writes properties.jsonl and MANIFEST.json from one table.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
SUMMARY = "guarded effect summaries over type-checked SSA (dataflow with helper following and loop summaries), compared with a reviewed specification"
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, na=None):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    P.append((p, technique, note))
    if na:
        NA.append(dict(property=id, reason=na))

LIMIT = "Decides what the source does for every input at the level of calls, stores, results and their exact conditions, relative to the behaviour of the parser, protoc, the Go library and the operating system, which are not analysed. The specification it is compared with was reviewed by hand; defects found in that review were repaired or are listed in known-findings.txt."

exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p) + '\n')
na = {n['property'] for n in NA}
m = dict(version=1, setup_cmd="bash run.sh --build", checks=[], not_applicable=NA)
for p, t, n in P:
    if p['id'] in na:
        continue
    c = "bash run.sh " + p['id']
    m['checks'].append(dict(property=p['id'], quick_cmd=c, thorough_cmd=c, technique=t, level="other", level_note=n))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
