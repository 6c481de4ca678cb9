#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md: harness bounds and planted bugs."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def harnesses():
    rows = []
    for f in sorted(glob.glob(root + '/harness/*/*.go')):
        pkg = os.path.basename(os.path.dirname(f))
        lines = open(f).read().split('\n')
        for i, l in enumerate(lines):
            if not l.startswith('//verif:check '):
                continue
            prop, bound, j = l.split()[1], '', i + 1
            while lines[j].startswith('//'):
                if lines[j].startswith('//verif:bound '):
                    bound = lines[j][len('//verif:bound '):]
                j += 1
            m = re.match(r'func (\w+)', lines[j])
            rows.append((prop, pkg + '.' + m.group(1), bound))
    rows.sort()
    out = ['| property | harness | bounds |', '|---|---|---|']
    out += ['| %s | %s | %s |' % (p, h, b.replace('|', '/')) for p, h, b in rows]
    return '\n'.join(out)

def bugs():
    res = json.load(open(root + '/tools/detected.json'))
    out = ['| planted bug | needs | caught by |', '|---|---|---|']
    for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
        i = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        out.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), res.get(i, 'not caught')))
    return '\n'.join(out)

p = root + '/DESIGN.md'
s = open(p).read()
for name, text in (('harnesses', harnesses()), ('bugs', bugs())):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + text + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
