"""Writes DESIGN.md:  /opt/venv/bin/python tools/design.py [directory with the logs clean.<ID>.log of a clean run]

Header and lists below are hand-written; the part per property is assembled from tools/props.py, the families and
assumptions of checks/<id>.py, and the measured numbers of the last clean run."""
import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.dont_write_bytecode = True
logs = sys.argv[1] if len(sys.argv) > 1 else None

HEAD = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()
out = [HEAD]
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
man = {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
known = json.load(open(os.path.join(ROOT, 'known_findings.json')))
numbers = {}
cache = os.path.join(ROOT, 'tools', 'numbers.json')
if os.path.exists(cache):
    numbers = json.load(open(cache))
if logs:
    for f in glob.glob(os.path.join(logs, 'clean.C*.log')):
        for l in open(f, errors='replace'):
            m = re.match(r'(C\d\d): cases=(\d+) states=(\d+) transitions=(\d+) .*wall=([\d.]+)s', l)
            if m:
                numbers[m[1]] = dict(cases=int(m[2]), states=int(m[3]), transitions=int(m[4]), wall=round(float(m[5])))
    json.dump(numbers, open(cache, 'w'), indent=1, sort_keys=True)

DIRECT = 'Outside the stated bounds nothing is claimed. '
for p in props:
    pid = p['id']
    mod = importlib.import_module('checks.' + pid.lower())
    out.append('### %s  %s\n' % (pid, p['title']))
    out.append('*Specified.* %s\n' % p['statement'])
    out.append('*Where.* %s\n' % ', '.join('`%s`' % f for f in p['anchors']['files']))
    note = man[pid]['level_note']
    note = note.split(DIRECT)[-1].strip()
    out.append('*Method and oracle.* %s %s\n' % ((mod.__doc__ or '').strip().split(': ', 1)[-1].rstrip('.') + '.', note))
    out.append('*Enumerated* (quick; thorough in brackets where it differs):\n')
    for f in mod.FAMILIES:
        b, bt = (f.bound('quick'), f.bound('thorough')) if callable(f.bound) else (f.bound, f.bound)
        out.append('- `%s`: %s%s' % (f.name, b, '' if b == bt else ' [thorough: %s]' % bt))
    out.append('')
    a = getattr(mod, 'ASSUMPTIONS', [])
    if a:
        out.append('*Assumptions.* ' + '; '.join(a) + '.\n')
    n = numbers.get(pid)
    if n:
        out.append('*Cost (quick, 8 cores).* %d cases, %d distinct states, %d transitions, about %d s.\n' % (n['cases'], n['states'], n['transitions'], n['wall']))
    out.append('*Why tests cannot.* %s\n' % p['why_tests_cant'])
    for k in known['known']:
        if k['property'] == pid:
            out.append('*Known finding.* %s\n' % k['what'])
out.append(TAIL)
out.append('\n## Defects found and repaired\n')
out.append('%d `fix:` commits in /repo, each shown by a check on the real code before the repair (the check reports it again if it returns):\n' % len(known['fixed']))
out += ['- ' + f[len('fixed: '):] for f in known['fixed']]
out.append('\n## Planted bugs\n')
out.append('Kept in `seeded/` (patch, demonstration, description), each confirmed in a scratch copy: builds, all stable tests pass, the '
           'demonstration fails with it and passes without it.\n')
out.append('| planted bug | needs | caught by |\n|---|---|---|')
res = {}
rp = os.path.join(ROOT, 'tools', 'caught.json')
if os.path.exists(rp):
    res = json.load(open(rp))
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append('| %s: %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), res.get(i, m['property'])))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
