#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the scenarios present."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
have = set()
for f in glob.glob(H + '/mc/harness/c*.go'):
    have |= set(re.findall(r'Prop:\s*"(C\d\d)"', open(f).read()))
NOTE = {}
exec(open(H + '/tools/notes.py').read()) if os.path.exists(H + '/tools/notes.py') else None
checks, na = [], []
for p in props:
    i = p['id']
    if i not in have:
        na.append(dict(property=i, reason=NOTE.get(i, "check not built yet")))
        continue
    checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
        technique="stateless model checking of the instrumented implementation: exhaustive deviation-bounded enumeration of schedules, datagram fates, timer orders and inputs under a controlled scheduler",
        level="model_checking",
        level_note=NOTE.get(i, "Every execution within the deviation bounds listed per scenario in the evidence file is executed on the real code (instrumented copy of the working tree); beyond the bounds nothing is claimed. The virtual UDP network, clock and scheduler stand for the real ones (sequential consistency at instrumented points).")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
