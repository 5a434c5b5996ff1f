#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the two markers) from
props.py and from the evidence of the last run: what each property's analysis
is, the rules it applies, and how many obligations and paths it had."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = sys.argv[1] if len(sys.argv) > 1 else root + '/evidence'
out = []
for p in props.PROPS:
    d = json.load(open('%s/%s.json' % (ev, p['id'])))
    c = d['coverage']
    out.append('### %s: %s\n' % (p['id'], p['title']))
    out.append('%s\n' % c['explanation'])
    out.append('Why tests cannot settle it: %s\n' % p['why'])
    if c.get('rules'):
        out.append('Rules (violated by name in the report):\n')
        n = c.get('obligations_by_rule', {})
        for r in c['rules']:
            k = r.split(':')[0]
            out.append('- `%s`%s:%s' % (k, ' (%d obligations)' % n[k] if k in n else '', r[len(k) + 1:]))
        out.append('')
    out.append('On the current tree: %d obligations, %d abstract paths, %d functions.\n' % (c['obligations'], c['abstract_paths'], len(c['functions_analysed'])))
s = open(root + '/DESIGN.md').read()
a, b = '<!-- properties -->\n', '<!-- end of properties -->\n'
if a not in s:
    s += '\n## The properties\n\n' + a + b
i, j = s.index(a) + len(a), s.index(b)
open(root + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(out) + '\n' + s[j:])

# What follows the marker: not applicable properties, findings, planted bugs.
tail = ['', '## Not applicable', '']
for n in props.NA:
    tail += ['- **%s, %s.** %s' % (n['id'], n['title'], n['reason'])]
fixed, known = [], []
for l in open(root + '/known_findings.txt'):
    if l.startswith('fixed: property='):
        p, commit, what = l[len('fixed: property='):].strip().split(' ', 2)
        fixed.append('| %s | %s | %s |' % (p, commit, what.replace('|', '\\|')))
    elif l.startswith('finding: '):
        known.append('- `%s`' % l.strip())
tail += ['', '## Genuine defects', '',
         'Found by the checks on the pinned commit (each was shown against the real code first) and repaired by one `fix:` commit each:', '',
         '| property | commit | what failed |', '|---|---|---|'] + fixed + ['',
         'Recorded, not repaired (`known_findings.txt`):', ''] + known
tail += ['', open(root + '/tools/notes.md').read().rstrip(), '',
         '| planted bug | property | what it breaks | what it needs |', '|---|---|---|---|']
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, b)))
    tail += ['| %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'])]
s = open(root + '/DESIGN.md').read()
j = s.index('<!-- end of properties -->\n') + len('<!-- end of properties -->\n')
open(root + '/DESIGN.md', 'w').write(s[:j] + '\n'.join(tail) + '\n')
