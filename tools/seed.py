#!/usr/bin/env python3
"""plant a bug: python3 seed.py SPEC.py [ids]  -> /verif/seeded/<id>/ when it builds, passes the tests and its demo tells it apart.
SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=C++ text or (name, text) list, libs)]"""
import sys, os, subprocess, json, shutil
SR = '/tmp/seedw/repo'
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# run with cwd = repository after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$T"' EXIT
L=$(find _build -name 'libstreamsstatic.a' | head -1)
g++ -std=gnu++17 -w %s -DHAVE_CONFIG_H -Iinclude -I_build/include -Ilib -I_build/lib -o "$T/demo" "$D/demo.cpp" "$L" -lz -lbz2 -llzma 2>"$T/err" || { cat "$T/err"; exit 99; }
cd "$T" || exit 99
exec timeout 60 ./demo
'''
def fresh():
    shutil.rmtree(SR, ignore_errors=True)
    sh('git clone -q /repo ' + SR)
def build():
    r = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error >/dev/null 2>&1; ninja -C _build', cwd=SR, env=dict(os.environ, CC='gcc', CXX='g++'))
    return r.returncode == 0, r.stdout[-1500:]
def tests():
    r = sh('ctest --test-dir _build -j8 --timeout 60', cwd=SR)
    return '100% tests passed' in r.stdout, r.stdout[-800:]
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
head = sh('git -C /repo rev-parse HEAD').stdout.strip()
if not os.path.exists(SR) or sh('git rev-parse HEAD', cwd=SR).stdout.strip() != head: fresh()
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    sh('git checkout -q -- .', cwd=SR)
    ok, o = build()
    assert ok, o
    d = '/tmp/seedw/' + s['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd=SR)
    if r.returncode != 0: print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.returncode, (r.stdout + r.stderr)[-600:]); continue
    bad = False
    for f, a, b in s['edits']:
        p = os.path.join(SR, f); t = open(p, errors='surrogateescape').read()
        if t.count(a) != 1: print(s['id'], 'edit matches', t.count(a), f); bad = True; break
        open(p, 'w', errors='surrogateescape').write(t.replace(a, b))
    if bad: continue
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=SR).stdout)
    import re
    base = sh('git rev-list --max-parents=0 HEAD', cwd=SR).stdout.strip()
    for f in {e[0] for e in s['edits']}:
        df = sh('git diff -U0 ' + f, cwd=SR).stdout
        for m in re.finditer(r'@@ -(\d+)(?:,(\d+))? ', df):
            a = int(m.group(1)); k = int(m.group(2) or 1)
            if k:
                bl = sh('git blame -l -L %d,+%d HEAD -- %s' % (a, k, f), cwd=SR).stdout
                if not all(l.lstrip('^')[:39] == base[:39] for l in bl.strip().split('\n')): print(s['id'], 'WARNING: touches lines of a fix commit', f, a)
    ok, o = build()
    if not ok: print(s['id'], 'DOES NOT BUILD', o); continue
    ok, o = tests()
    if not ok: print(s['id'], 'TESTS CATCH IT', o); continue
    r = sh('bash %s/demo.sh' % d, cwd=SR)
    if r.returncode in (0, 99): print(s['id'], 'DEMO DOES NOT SEE IT', r.returncode, (r.stdout + r.stderr)[-600:]); continue
    t = '/verif/seeded/' + s['id']; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    print(s['id'], 'ok: demo exit', r.returncode, (r.stdout + r.stderr)[-160:].strip())
sh('git checkout -q -- .', cwd=SR)
