#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/registry.py  rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # property records
NA = {}     # id -> reason
LN = {}     # id -> level note
LV = {}     # id -> level


def prop(id, title, statement, over, text, why, files, mechanism, observe, note='', level='proof', na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mechanism, observe_at=observe)))
    LN[id] = note
    LV[id] = level
    if na:
        NA[id] = na


exec(open(os.path.join(V, 'tools', 'props.py')).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    T = ('contract-based deductive verification: contract harnesses over the real functions, compiled from /repo to LLVM IR on every run; '
         'weakest-precondition-style path VCs over the reals discharged by z3/cvc5 (unbounded inputs)')
    checks = []
    for p in P:
        i = p['id']
        if i in NA:
            continue
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                           technique=T, level=LV[i], level_note=LN[i]))
    m = dict(version=1, setup_cmd='./tools/setup.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
    print(len(P), 'properties', len(checks), 'claimed')
