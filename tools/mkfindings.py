#!/usr/bin/env python3
"""Writes known-findings.txt from findings.txt (listed findings) and fixmap.txt (repairs, by property)."""
import os, subprocess
D = os.path.dirname(os.path.abspath(__file__))
subj = dict(l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '4d771ab..HEAD'], text=True).splitlines())
out = ["# Genuine defects of siphon-rs found by the checks. Lines 'finding:' are listed and not repaired (see DESIGN.md);",
       "# lines 'fixed:' are repaired in /repo and suppress nothing."]
out += [l.rstrip('\n') for l in open(D + '/findings.txt') if l.strip()]
used = set()
for l in sorted(open(D + '/fixmap.txt')):
    p, *cs = l.split()
    for c in cs:
        used.add(c)
        out.append(f"fixed: property={p} {c} {subj[c].removeprefix('fix: ')}")
for c in subj:
    if c not in used and not subj[c].startswith('Revert') and c != '43a55fd':
        print('unmapped', c, subj[c])
open(D + '/../known-findings.txt', 'w').write('\n'.join(out) + '\n')
