#!/usr/bin/env python3
# Writes DESIGN.md from tools/design.head.md, the scenarios' own descriptions,
# tools/oracles.json and tools/design.tail.md.
import re, glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
O = json.load(open('tools/oracles.json'))
sc = {}
for f in sorted(glob.glob('mc/harness/c*.go')):
    s = open(f).read()
    for m in re.finditer(r'Prop: "(C\d+)", Name: "([^"]+)"(.*?)Max: \[2\]int\{(\d+, \d+)\}.*?Desc:\s*"([^"]*)"', s, re.S):
        sc.setdefault(m.group(1), []).append((m.group(2), m.group(4), 'Stalls:' in m.group(3), m.group(5)))
out = open('tools/design.head.md').read()
for l in open('properties.jsonl'):
    p = json.loads(l)
    out += f"### {p['id']} {p['title']}\n\n{O[p['id']]}\n\n"
    for n, b, st, d in sc[p['id']]:
        out += f"* `{n}` [{b}]{' +stalls' if st else ''}: {d}\n"
    out += '\n'
out += open('tools/design.tail.md').read()
open('DESIGN.md', 'w').write(out)
t = '| id | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    t += f"| {d.split('/')[1]} | {m['property']} | {m['needs']} | {', '.join(m.get('caught_by', [])) or '?'} |\n"
open('DESIGN.md', 'a').write(t)
if os.path.exists('tools/design.end.md'):
    open('DESIGN.md', 'a').write(open('tools/design.end.md').read())
