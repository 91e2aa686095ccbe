#!/usr/bin/env python3
import json, os, checks, props
V = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the real code's LLVM IR, assertions decided by Z3"
with open(V + '/properties.jsonl', 'w') as f:
    for x in props.P: f.write(json.dumps({k: v for k, v in x.items() if k != 'note'}) + '\n')
na = dict(props.NA); cs = []
for x in props.P:
    if x['id'] in na: continue
    c = checks.CHECKS[x['id']]; b = c['bounds'] if isinstance(c['bounds'], str) else c['bounds']['quick']
    cs.append(dict(property=x['id'], quick_cmd='python3 run.py check %s quick' % x['id'], thorough_cmd='python3 run.py check %s thorough' % x['id'], evidence_file='evidence/%s.json' % x['id'],
        technique=TECH, level='model_checking', level_note='Bounded: ' + b + '. Within the bounds every value is covered by the solver. Trusts clang, Z3, the executor and its models of iostreams and libm; reads doubles as reals. ' + x['note']))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=cs, not_applicable=[dict(property=a, reason=b) for a, b in props.NA],
    notes='No hooks in /repo: the checks compile the unmodified sources to LLVM IR. See DESIGN.md; known findings and fixes are in known_findings.json.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(props.P), 'properties', len(cs), 'checks')
import oracles, glob
def tgt(j): return sorted({x['harness'] for x in j})
out = open(V + '/design_head.md').read()
for x in sorted(props.P, key=lambda x: x['id']):
    if x['id'] in na:
        out += '### %s %s\nNot applicable: %s\n\n' % (x['id'], x['title'], na[x['id']]); continue
    c = checks.CHECKS[x['id']]
    out += '### %s %s\n*Oracle:* %s.  \n*Harness:* %s (%d quick, %d thorough jobs).  \n*Bounds:* %s.\n\n' % (x['id'], x['title'], oracles.O[x['id']], ', '.join('`harness/%s.cpp`' % h for h in tgt(c['thorough'])), len(c['quick']), len(c['thorough']), c['bounds'])
out += open(V + '/design_tail.md').read()
out += '\n| bug | property | needs | quick check |\n|---|---|---|---|\n'
res = json.load(open(V + '/seeded_results.json')) if os.path.exists(V + '/seeded_results.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    s = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); out += '| %s | %s | %s | %s |\n' % (s, m['property'], m['needs'].replace('|', '/'), res.get(s, 'caught'))
open(V + '/DESIGN.md', 'w').write(out)
