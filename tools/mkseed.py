#!/usr/bin/env python3
"""mkseed.py ID PROP FILE [n]  : reads /tmp/seed.json {old,new,needs,breaks,demo}; writes seeded/ID (patch made against /repo's HEAD)"""
import sys, json, os, subprocess, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository, after its build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -O1 -std=c++14 -DNDEBUG -w -I"$PWD/include" -I"$PWD/_build/include" -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -L"$PWD/_build/lib" -lfcl -lccd -loctomap -loctomath -Wl,-rpath,"$PWD/_build/lib" || exit 3
"$t/demo"
'''


def make(id, prop, file, old, new, needs, breaks, demo, count=1):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    edits = [(file, old, new)] if isinstance(file, str) else file
    cur = {}
    for f, o, n in edits:
        s = cur.get(f) or open('/repo/' + f, newline='').read()
        if '\r\n' in s:
            o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
        assert s.count(o) == count, (id, f, s.count(o))
        cur[f] = s.replace(o, n)
    diff = ''
    for f, s in cur.items():
        a = open('/repo/' + f, newline='').read()
        diff += ''.join(difflib.unified_diff(a.splitlines(1), s.splitlines(1), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w', newline='').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
