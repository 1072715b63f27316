#!/usr/bin/env python3
"""plant and confirm bugs.  seedtool.py make ID...|all : (re)generate seeded/<id> from seeds_data.py
seedtool.py confirm ID... : in a scratch copy: patch applies, builds, stable tests pass, demo 0 -> nonzero
seedtool.py catch ID... : run the property's check against a patched scratch copy"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from seeds_data import SEEDS
SCR = '/tmp/w/seedrepo'
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run with cwd at the repository after the build
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
LIB=$(find "$R/_build" -name 'libutcore*.so*' | head -1)
g++ -std=gnu++14 -O1 -DNDEBUG -DHAVE_LAPACK -DCOMPILER_USE_CXX11 -DHAVE_MSGPACK -w -include ctime -I/opt/vp/cmake/compat -I"$R/src" \\
  -I"$R/3rd/boost-bindings" -I"$R/3rd/log4cpp/include" -I"$R/3rd/tinyxml" "$D/demo.cpp" -o "$T/demo" "$LIB" \\
  -Wl,-rpath,"$(dirname "$LIB")" $(find "$R/_build" -name 'liblog4cpp*' | head -1) -llapack -lblas -lboost_system -lboost_thread -lpthread || exit 4
timeout 120 "$T/demo"
'''


def sh(*a, **k):
    return subprocess.run(a, **k)


def scratch():
    if not os.path.isdir(SCR):
        os.makedirs('/tmp/w', exist_ok=True)
        sh('git', 'clone', '-q', '/repo', SCR, check=True)
    else:
        sh('git', '-C', SCR, 'checkout', '-q', '--', '.', check=True)
        sh('git', '-C', SCR, 'fetch', '-q', 'origin', check=True)
        h = sh('git', '-C', '/repo', 'rev-parse', 'HEAD', stdout=-1, text=True).stdout.strip()
        sh('git', '-C', SCR, 'checkout', '-q', h, check=True)


def build():
    b = SCR + '/_build'
    e = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    if not os.path.isdir(b):
        sh('cmake', '-S', '/opt/vp/cmake', '-B', b, '-G', 'Ninja', '-DUTCORE_DIR=' + SCR, '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
           '-DCMAKE_CXX_FLAGS=-Wno-deprecated -Wno-deprecated-declarations', check=True, env=e, stdout=subprocess.DEVNULL)
    r = sh('ninja', '-C', b, stdout=-1, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
    return r.returncode == 0


def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('passed') or base.get('stable') or base.get('tests')
    exe = SCR + '/_build/utcore/utcore_tests'
    ps = [(n, subprocess.Popen([exe, '--run_test=' + n.split(':')[-1]], stdout=-1, stderr=subprocess.STDOUT, text=True, cwd='/tmp/w')) for n in names]
    bad = []
    for n, p in ps:
        o, _ = p.communicate(timeout=300)
        if p.returncode or 'No errors detected' not in o:
            bad.append(n)
    return bad


def edit(s, root):
    for f, old, new in s['edits']:
        p = os.path.join(root, f)
        t = open(p, encoding='latin1', newline='').read()
        crlf = '\r\n' in t
        o, n = (old.replace('\n', '\r\n'), new.replace('\n', '\r\n')) if crlf else (old, new)
        assert t.count(o) == 1, (s['id'], f, t.count(o))
        open(p, 'w', encoding='latin1', newline='').write(t.replace(o, n))


def make(s):
    d = os.path.join(H, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    scratch()
    edit(s, SCR)
    open(d + '/patch.diff', 'wb').write(sh('git', '-C', SCR, 'diff', stdout=-1).stdout)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)


def demo(s):
    r = sh('bash', os.path.join(H, 'seeded', s['id'], 'demo.sh'), cwd=SCR, stdout=-1, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout.strip()[-300:]


def confirm(s):
    scratch()
    assert build()
    a = demo(s)
    sh('git', '-C', SCR, 'apply', os.path.join(H, 'seeded', s['id'], 'patch.diff'), check=True)
    b = build()
    bad = tests() if b else ['build']
    c = demo(s) if b else None
    ok = a[0] == 0 and b and not bad and c[0] not in (0, 3, 4)
    print(s['id'], 'OK' if ok else 'BAD', 'clean', a, 'build', b, 'failing tests', bad, 'patched', c, flush=True)
    return ok


def catch(s, tier='quick'):
    scratch()
    sh('git', '-C', SCR, 'apply', os.path.join(H, 'seeded', s['id'], 'patch.diff'), check=True)
    r = sh('python3-vt', 'check.py', s['property'], '--tier', tier, cwd=H, stdout=-1, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VC_REPO=SCR))
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print(s['id'], s['property'], 'exit', r.returncode, v[:3], flush=True)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    ss = [s for s in SEEDS if not ids or ids == ['all'] or s['id'] in ids]
    for s in ss:
        if cmd in ('make', 'all'):
            make(s)
        if cmd in ('confirm', 'all'):
            confirm(s)
        if cmd in ('catch', 'all'):
            catch(s)
