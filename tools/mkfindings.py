#!/usr/bin/env python3
"""Lists the defects repaired in /repo (a fixed entry suppresses nothing)."""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {'SerialChain::try_new': 'C08', 'update_velocities': 'C13', 'update_link_transforms': 'C12', 'jacobian mixed frames': 'C10',
     'Node::set_parent left': 'C07', 'Chain::clone reversed': 'C09', 'clamped position sets': 'C05', 're-linked to another leader': 'C05',
     'a failed IK did not restore': 'C15', 'ignored joints of a non-redundant': 'C16', 'named twice or more': 'C21', 'zero tries': 'C21',
     'without any constrained': 'C21', 'joint_to_link_map': 'C20', 'printing a chain deadlocked': 'C23', 'printing an empty chain': 'C24', 'leader outside panicked': 'C09', 'updating a part of a robot': 'C01', 'velocities of a part': 'C13', 'was linking a follower': 'C23', 'continuous URDF joint': 'C18'}
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p = [v for k, v in P.items() if k in s]
        assert len(p) == 1, (s, p)
        out.append('fixed: property=%s %s %s' % (p[0], h, s[5:]))
open(V + '/known-findings.jsonl', 'w').write('\n'.join(out) + '\n')
