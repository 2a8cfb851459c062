#!/usr/bin/env python3
"""Writes the list of repairs ("fixed: property=... commit what failed") into known_findings.json from the history of /repo.
The property of a repair is noted here by hand; run by hand after a repair, never by a check."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = dict(line.split() for line in '''
8e84805 C07
922effc C18
4ce4b35 C15
8fbbeda C06
4c522d7 C15
794a107 C05
10fcc49 C03
31ae3be C02
4027572 C04
f354067 C03
06124f5 C03
ccb6890 C02
a9093d9 C16
b81d34d C01
847c533 C01
0365162 C01
6da7d23 C01
0ca6f30 C05
5b1a246 C08
3ca6ba6 C10
ed276a5 C10
ad3630f C10
c6ba558 C10
5d24d36 C10
3d7e05b C10
cbc5dea C10
f77e9de C06
6ead5dd C09
46a9233 C09
d5e2e9b C09
88459df C09
4114324 C09
bfed704 C09
a37d79b C18
dfcfd9d C09
4469ff3 C11
825f3ca C20
2d5aeec C20
97df98e C11
0e00680 C11
de0f297 C21
79c7fea C16
9cee5a9 C16
b58b001 C16
c8d25b6 C16
a893527 C16
8e67398 C16
c12e103 C15
0c220ac C22
0408694 C22
29de4b1 C14
ef4c2b1 C14
e26125a C17
d77d09d C01
78bfbf5 C03
2c703bb C17
9a48405 C17
1d85021 C22
6f105c4 C22
08a802e C22
5f9fe80 C22
e7de28a C18
7ea9938 C18
02b1b3b C18
d9138bd C18
54e6242 C24
79422bb C24
67e1fb5 C24
af16fcf C24
da8768f C24
4d9b84c C24
f06b1a4 C24
b377add C13
33d6ccd C13
7c7d0aa C13
dbd0c68 C13
ad4d52e C13
526d2eb C13
63778db C13
616548a C25
5a38a1f C25
232f97c C25
a189204 C21
ff31f74 C21
578d471 C21
7c03ad2 C21
2388488 C23
3d55ba7 C19
3cf60bc C19
884d0aa C12
076f5cf C07
3c5d06f C24
345e8a9 C04
bff481c C24
7d4107c C16
3a3bc39 C12
'''.strip().splitlines())


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '48f4186..HEAD'], capture_output=True, text=True, check=True).stdout
    fixed = []
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if s.startswith('fix: '):
            fixed.append(f'fixed: property={PROPERTY[h]} {h} {s[5:]}')
    p = os.path.join(V, 'known_findings.json')
    with open(p) as f:
        d = json.load(f)
    with open(p, 'w') as f:
        json.dump(dict(findings=d['findings'], fixed=fixed), f, indent=1)
        f.write('\n')
    print(len(fixed), 'repairs')


main()
