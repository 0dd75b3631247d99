#!/usr/bin/env python3
"""Confirms a planted bug: demo passes on the clean tree; with the patch the tree builds, passes its tests and the demo
fails; then runs the check of the property. Usage: plant.py ID... [--check-only]"""
import json
import os
import subprocess
import sys
import time

REPO = '/repo'
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')


def sh(cmd, cwd=REPO, timeout=1000):
    t = time.time()
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                       errors='replace')
    return r.returncode, r.stdout, time.time() - t


def tests():
    out = '/tmp/plant-tests.json'
    sh(['bash', '/opt/vp/test.sh', out])
    names = json.load(open(out))
    return names


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    check_only = '--check-only' in sys.argv
    assert sh(['git', 'status', '--porcelain', '-uno'])[1].strip() == '', 'repo is not clean'
    ok = {}
    if not check_only:
        rc, out, _ = sh(['bash', '/opt/vp/build.sh'])
        assert rc == 0
        for i in ids:
            rc, out, t = sh(['bash', os.path.join(SEEDED, i, 'demo.sh')], timeout=300)
            ok[i] = rc == 0
            print('%s: demo on the clean tree %s (%.0f s)' % (i, 'passes' if rc == 0 else 'FAILS\n' + out[-2000:], t))
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        rc, out, _ = sh(['git', 'apply', os.path.join(d, 'patch.diff')])
        if rc != 0:
            print(i, 'PATCH DOES NOT APPLY', out)
            continue
        try:
            if not check_only:
                rc, out, _ = sh(['bash', '/opt/vp/build.sh'])
                if rc != 0:
                    print(i, 'DOES NOT BUILD', '\n'.join(l for l in out.split('\n') if 'error' in l)[:2000])
                    continue
                names = tests()
                failed = names.get('failed')
                print('%s: tests failed: %s' % (i, failed if isinstance(failed, int) else (failed or 0)))
                rc, out, _ = sh(['bash', os.path.join(d, 'demo.sh')], timeout=300)
                print('%s: demo with the bug %s' % (i, 'FAILS (good)' if rc != 0 else 'PASSES (BAD)'))
            rc, out, t = sh([os.path.join(os.path.dirname(SEEDED), 'check.py'), prop], cwd=os.path.dirname(SEEDED))
            lines = [l for l in out.split('\n') if l.strip()]
            v = [k for k, l in enumerate(lines) if l.startswith('VIOLATION')]
            print('%s: check %s %s (%.0f s): %s' % (i, prop, 'CATCHES' if rc == 1 and v else 'MISSES rc=%d' % rc, t,
                  [l for l in lines if l.startswith('violation in run') or 'minimised' in l][:2] if v else lines[-3:]), flush=True)
        finally:
            sh(['git', 'checkout', '--', '.'])
    if not check_only:
        sh(['bash', '/opt/vp/build.sh'])


main()
