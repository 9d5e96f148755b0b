#!/usr/bin/env python3
"""mkseed.py [id...]: writes seeded/<id>/ from tools/seeds.py after confirming
that the change builds, passes the stable tests and is shown by its demo.
Development tool; no check uses it."""
import sys, os, subprocess, json, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(H, 'tools'))
from seeds import SEEDS
W = '/tmp/seedw'

DEMO = '''#!/bin/bash
# run in the repository after its build; compares the verdict of scripts
d=$(cd "$(dirname "$0")" && pwd)
e=$PWD/_build/release/src/ethos
bad=0
t() { # expected-verdict script [options]
  want=$1; f=$2; shift 2
  out=$("$e" "$@" "$d/$f" 2>/dev/null); rc=$?
  got=error
  if [ $rc -eq 0 ]; then
    got=$(printf '%%s\\n' "$out" | tail -1)
  fi
  if [ "$got" != "$want" ]; then echo "$f: expected $want, got $got (exit $rc)"; bad=1; fi
}
cd "$(mktemp -d)" && trap 'rm -rf "$PWD"' EXIT
%s
exit $bad
'''


def run(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def mk(s):
    shutil.rmtree(W, ignore_errors=True)
    run('cp -a /repo %s' % W)
    out = os.path.join(H, 'seeded', s['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for f, old, new in s['edits']:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = run('git -C %s diff' % W).stdout
    assert diff
    for n, t in s['files'].items():
        open(os.path.join(out, n), 'wb').write(t if isinstance(t, bytes) else t.encode())
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO % '\n'.join('t %s' % x for x in s['demo']))
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    r0 = run('bash %s/demo.sh' % out, cwd='/repo')
    bld = ''
    for ty in ('Debug', 'Release'):
        d = '%s/_build/%s' % (W, ty.lower())
        shutil.rmtree(d, ignore_errors=True)
        b = run('cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=%s && ninja -C %s' % (W, d, ty, d), env=dict(os.environ, CC='gcc', CXX='g++'))
        if b.returncode:
            bld = (b.stdout + b.stderr)[-1500:]
    if bld:
        print(s['id'], 'DOES NOT BUILD', bld)
        return False
    t = ''
    for ty in ('debug', 'release'):
        r = run('ctest --test-dir %s/_build/%s -j8 --timeout 300' % (W, ty))
        if r.returncode:
            t += ' '.join(x.split()[2] for x in r.stdout.split('FAILED:')[-1].splitlines() if ' - ' in x)[:300]
    r1 = run('timeout 300 bash %s/demo.sh' % out, cwd=W)
    ok = r0.returncode == 0 and r1.returncode != 0 and not t
    print(s['id'], s['prop'], 'OK' if ok else 'BAD', 'demo unchanged', r0.returncode, r0.stdout.strip()[-200:], '| patched', r1.returncode, r1.stdout.strip()[-300:], '| tests', t or 'pass', flush=True)
    if not ok:
        shutil.rmtree(out)
    return ok


if __name__ == '__main__':
    want = sys.argv[1:]
    for s in SEEDS:
        if (want and s['id'] in want) or (not want and not os.path.exists(os.path.join(H, 'seeded', s['id']))):
            try:
                mk(s)
            except AssertionError as x:
                print(s['id'], 'ASSERT', x)
    shutil.rmtree(W, ignore_errors=True)
