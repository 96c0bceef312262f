#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and files them under /verif/seeded.

  seed.py FILE.py [ID...]      FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo=C++ text, needs, breaks, flags='')]
Needs /repo at its HEAD.  Scratch copies live in /tmp/scratch and are removed at the end.  Not used by any check."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '5e9f7a9'
S = '/tmp/scratch/patched'
C = '/tmp/scratch/clean'


def sh(cmd, cwd=None, env=None, t=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-500:]


def sub(p, old, new):
    b = open(p, 'rb').read()
    o, n = old.encode(), new.encode()
    if b'\r\n' in b and b.count(o) != 1:
        o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
    assert b.count(o) == 1, (p, b.count(o), old)
    open(p, 'wb').write(b.replace(o, n))


DEMO = '''#!/bin/bash
# Exit 0: the property holds in this demonstration.  Run with cwd at the root of the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
g++ -std=c++17 -w -O1 %s -I include -o "$t/demo" "$d/demo.cpp" && (cd "$t" && timeout 100 ./demo)
r=$?
rm -f "$t/demo" "$t"/core*
rmdir "$t"
exit $r
'''


def tests(src):
    b = src + '/_build'
    rc, o = sh(['cmake', '-S', src, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release', '-DCMAKE_PROJECT_SiDS_INCLUDE=/opt/vp/cmake/hook.cmake'])
    if rc:
        return 'cmake ' + o[-800:]
    rc, o = sh(['ninja', '-C', b, '-k', '0'])
    if rc:
        return 'build ' + o[-1500:]
    os.makedirs(b + '/reports', exist_ok=True)
    rc, o = sh(['python3', '/opt/vp/run_gtests.py', b, b + '/reports'])
    ok = {l.split(None, 1)[1] for l in o.splitlines() if l.startswith('PASS ')}
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base['stable']
    miss = [t for t in stable if t not in ok]
    return 'tests fail: ' + ' '.join(miss) if miss else ''


def plant(b):
    for p in (S, C):
        shutil.rmtree(p, ignore_errors=True)
        rc, o = sh(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), p]); assert rc == 0, o
    for f, old, new in b['edits']:
        sub(f'{S}/include/sim_ds/{f}', old, new)
    diff = subprocess.run(['git', 'diff'], cwd=S, stdout=subprocess.PIPE).stdout
    orig = subprocess.run(['git', 'show', BASE, '--format='], cwd=S, stdout=subprocess.PIPE).stdout
    orig = b''.join(subprocess.run(['git', 'show', f'{BASE}:include/sim_ds/{f}'], cwd=S, stdout=subprocess.PIPE).stdout for f in {e[0] for e in b['edits']}).splitlines()
    for l in diff.splitlines():
        if l[:1] == b'-' and l[:3] != b'---' and l[1:] not in orig and l[1:].strip():
            print('   note: changes a line that is not original:', l.decode(errors='replace'))
    out = f'{V}/seeded/{b["id"]}'
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'wb').write(diff)
    open(out + '/demo.cpp', 'w').write(b['demo'].lstrip())
    open(out + '/demo.sh', 'w').write(DEMO % b.get('flags', ''))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    t = tests(S)
    if t:
        print('  ', t); return 'UNUSABLE'
    r0, o0 = sh([out + '/demo.sh'], cwd=C, t=300)
    r1, o1 = sh([out + '/demo.sh'], cwd=S, t=300)
    if r0 != 0 or r1 == 0:
        print(f'   demo: clean {r0} patched {r1}\n', o0[-1200:], '\n --', o1[-1200:]); return 'UNUSABLE'
    rc, o = sh(['python3', 'check.py', b['prop']], cwd=V, env=dict(os.environ, MC_REPO=S, MC_BUILD='/tmp/scratch/build', VERIF_TIER='quick'), t=1800)
    v = [l for l in o.splitlines() if l.startswith('VIOLATION ') or l.startswith('violation in')]
    if rc == 1 and v:
        print('  ', v[0][:200]); return 'CAUGHT'
    print(o[-1500:]); return f'MISSED rc={rc}'


g = {}
exec(open(sys.argv[1]).read(), g)
res = {}
for b in g['BUGS']:
    if sys.argv[2:] and b['id'] not in sys.argv[2:]:
        continue
    print(b['id'], b['prop'], flush=True)
    try:
        res[b['id']] = plant(b)
    except AssertionError as e:
        res[b['id']] = f'ERROR {e}'
    print('  ', res[b['id']], flush=True)
    if res[b['id']] == 'UNUSABLE' or res[b['id']].startswith('ERROR'):
        shutil.rmtree(f'{V}/seeded/{b["id"]}', ignore_errors=True)
for p in (S, C, '/tmp/scratch/build'):
    shutil.rmtree(p, ignore_errors=True)
print(res)
