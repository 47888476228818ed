"""Writes DESIGN.md from tools/design, the checks, findings and planted bugs"""
import glob
import importlib.util
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*parts):
    with open(os.path.join(V, *parts)) as fid:
        return fid.read()


spec = importlib.util.spec_from_file_location('props', os.path.join(V, 'tools/design/props.py'))
texts = importlib.util.module_from_spec(spec)
spec.loader.exec_module(texts)
out = [read('tools', 'design', 'head.md')]
timing = json.loads(read('tools', 'design', 'cost.json')) \
    if os.path.exists(os.path.join(V, 'tools/design/cost.json')) else {}
for line in read('properties.jsonl').splitlines():
    prop = json.loads(line)
    pid = prop['id']
    source = read('checks', pid.lower() + '.py')
    facets = re.findall(r"@facet\('([^']+)'([^)]*)\)", source)
    oracle, gen, why = texts.TEXT[pid]
    out.append('### %s %s\n' % (pid, prop['title']))
    out.append('* Oracle: %s.' % oracle)
    out.append('* Generated: %s.' % gen)
    out.append('* Why not tests: %s.' % why)
    cost = timing.get(pid)
    out.append('* Facets: %s.%s' % (', '.join('`%s`' % f[0] for f in facets),
                                    ' Cost: %d cases, %d s.' % tuple(cost) if cost else ''))
    found = re.search(r'ASSUMPTIONS = (\[.*?\])\n', source, re.S)
    if found:
        out.append('* Not claimed: %s.' % '; '.join(eval(found.group(1))))  # pylint: disable=eval-used
    out.append('')
findings = json.loads(read('known_findings.json'))['findings']
out.append('''## Genuine defects found

### Recorded, not repaired (`known_findings.json`)

Each is confirmed on every run by its own stored case and printed as
KNOWN-FINDING; the generators of the property avoid exactly that behaviour (they
draw stable unions), and any other violation is still reported. All three come
from one design decision - a union asks its members in order, and JSON does not
record which member wrote a value - whose repair would change the stored format
or the documented precedence, so it is no small patch.
''')
for item in findings:
    if item.get('status') == 'known':
        out.append('* %s `%s`: %s.' % (item['property'], item['case'], item['what']))
out.append('''
### Repaired (`fix:` commits in /repo)

Every one is detected again when its commit is reverted (checked by reverting
each in a scratch copy and running the property's check).

| property | commit | what failed |
|---|---|---|''')
for item in findings:
    if item.get('status') == 'fixed':
        out.append('| %s | %s | %s |' % (item['property'], item['commit'], item['what']))
out.append('')
out.append(read('tools', 'design', 'tail.md'))
detected = json.loads(read('tools', 'design', 'detected.json')) \
    if os.path.exists(os.path.join(V, 'tools/design/detected.json')) else {}
notes = json.loads(read('tools', 'design', 'strengthened.json'))
out.append('| planted bug | property | needs | caught by | strengthened |')
out.append('|---|---|---|---|---|')
for path in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(path))
    with open(path) as fid:
        meta = json.load(fid)
    res = detected.get(name)
    caught = 'not run' if res is None else (', '.join(res) or 'MISSED')
    out.append('| %s | %s | %s | %s | %s |' % (name, meta['property'],
                                               meta['needs'].replace('|', '/'), caught,
                                               notes.get(name, '')))
if os.path.exists(os.path.join(V, 'tools/design/mutation.md')):
    out.append('')
    out.append(read('tools', 'design', 'mutation.md'))
with open(os.path.join(V, 'DESIGN.md'), 'w') as fid:
    fid.write('\n'.join(out).rstrip() + '\n')
