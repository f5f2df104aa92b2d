#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the tables below, the evidence of the
last quick runs, known_findings.json, seeded/ and tools/catches.json."""
import json, os, glob, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
props = [json.loads(l) for l in open('properties.jsonl')]
man = {c['property']: c for c in json.load(open('MANIFEST.json'))['checks']}
W = json.load(open('tools/design_notes.json'))
cost = json.load(open('tools/costs.json'))
def wrap(s, ind=''): return textwrap.fill(s, 80, initial_indent=ind, subsequent_indent=ind and '  ', break_long_words=False, break_on_hyphens=False)
o = [open('tools/design_head.md').read().rstrip(), '', '## Per property', '']
for p in props:
    i = p['id']
    o.append(f"### {i} {p['title']}")
    o.append('')
    if i not in man:
        o += [wrap('Not applicable: see MANIFEST.json.'), '']
        continue
    ev = json.load(open(f'evidence/{i}.json'))
    n = W[i]
    o.append(wrap('- **Explored.** ' + ev['coverage']['rule'] + '.', ' ')[1:])
    o.append(wrap('- **Oracle.** ' + n['oracle'], ' ')[1:])
    o.append(wrap('- **Beyond tests.** ' + n['why'], ' ')[1:])
    if n.get('limits'): o.append(wrap('- **Limits.** ' + n['limits'], ' ')[1:])
    if ev.get('assumptions'): o.append(wrap('- **Assumed.** ' + '; '.join(ev['assumptions']) + '.', ' ')[1:])
    c = cost[i]
    o.append(wrap(f"- **Cost.** quick: {c['traces']} executions, {c['transitions']} steps, {c['states']} distinct states, about {c['wall']} s on 8 cores"
      + (f"; thorough: {c['t_traces']} executions, {c['t_transitions']} steps, about {c['t_wall']} s" if 't_wall' in c else '') + '.', ' ')[1:])
    o.append('')
o.append(open('tools/design_mid.md').read().rstrip())
o.append('')
o.append('## Defects repaired in /repo')
o.append('')
for l in json.load(open('known_findings.json'))['fixed']: o.append(wrap('- ' + l, ' ')[1:])
o += ['', '## Planted bugs and what catches them', '',
 'Run with `tools/catch.sh` (own check) and `ALL=1 tools/catch.sh` (every check). "also" lists other checks that raise a violation as well, where all were run.', '',
 '| planted bug | property | needs | caught by |', '|---|---|---|---|']
ct = json.load(open('tools/catches.json'))
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f)); b = f.split('/')[1]
    c = ct.get(b)
    s = 'not run' if c is None else ('MISSED' if d['property'] not in c else d['property'] + (' also ' + ' '.join(x for x in c if x != d['property']) if len(c) > 1 else ''))
    o.append(f"| {b} | {d['property']} | {d['needs'].replace('|','/')} | {s} |")
o.append('')
open('DESIGN.md', 'w').write('\n'.join(o))
