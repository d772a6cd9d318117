#!/usr/bin/env python3
# Writes /verif/DESIGN.md from design_head.md, design_tail.md, /repo's fix commits and the planted bugs. Run by hand.
import json, os, subprocess, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda f: open(root + '/tools/' + f).read()
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '2ab070d..HEAD'], capture_output=True, text=True).stdout.splitlines()
known = json.load(open(root + '/known_findings.json'))['findings']
by = {}
for k in known:
    if k['status'] == 'fixed':
        by.setdefault(k['commit'], []).append(k['property'])
skip = ('122430e', '1655c15')
fixes = ['* %s `%s`%s' % (h, s.split(': ', 1)[1], ' (' + ', '.join(sorted(set(by[h]))) + ')' if h in by else '') for h, s in (l.split(' ', 1) for l in log) if h not in skip]
caught = json.load(open(root + '/tools/caught.json'))
notes = json.load(open(root + '/tools/bugnotes.json'))
rows = ['| planted bug | what it needs to show | caught by | not by |', '|---|---|---|---|']
ids = sorted(os.path.basename(d) for d in glob.glob(root + '/seeded/*'))
for i in ids:
    m = json.load(open(root + '/seeded/%s/meta.json' % i))
    c = caught.get(i, {})
    yes = [k for k in sorted(c) if c[k] == 'CAUGHT']
    no = [k for k in sorted(c) if c[k] != 'CAUGHT']
    rows.append('| %s | %s%s | %s | %s |' % (i, m['needs'], '. ' + notes[i] if i in notes else '', ', '.join(yes), ', '.join(no)))
t = R('design_head.md') + R('design_tail.md')
t = t.replace('FIXES', '\n'.join(fixes)).replace('BUGCOUNT', str(len(ids))).replace('BUGS\n', '\n'.join(rows) + '\n').replace('(36, and', '(%d, and' % len(fixes))
open(root + '/DESIGN.md', 'w').write(t)
