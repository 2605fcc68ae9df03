#!/usr/bin/env python3
"""Development aid: validate planted bugs (builds, stable tests pass, demo tells the trees apart) and show which checks report them.
usage: seedtest.py [--checks-only] [--all-checks] ID...      works in private copies of /repo bind-mounted over /repo in a mount namespace."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
only = '--checks-only' in sys.argv
allc = '--all-checks' in sys.argv
N = 3
BASE = '/tmp/seedcopies'
pool = queue.Queue()


def ns(copy, script, timeout=1500):
    p = subprocess.run(['unshare', '-rm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, script)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
    return p.returncode, p.stdout


def one(i):
    copy = pool.get()
    try:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        res = []
        subprocess.run(['git', '-C', copy, 'checkout', '-q', '--', '.'])
        if not only:
            dd = copy + '.demo'
            shutil.rmtree(dd, ignore_errors=True)
            shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
            rc, out = ns(copy, 'bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh' % dd)
            res.append('clean demo %d%s' % (rc, '' if rc == 0 else ' !!! ' + out[-200:]))
        rc, out = ns(copy, 'git apply %s/patch.diff' % d)
        if rc:
            return i, 'patch does not apply: ' + out
        if not only:
            rc, out = ns(copy, 'bash /opt/vp/test.sh /tmp/seed-%s.json' % i)
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            got = json.load(open('/tmp/seed-%s.json' % i))['passed']
            miss = sorted(set(base) - set(got))
            res.append('tests %s' % ('ok' if not miss else '!!! missing %s %s' % (miss[:5], out[-1500:] if len(miss) > 100 else '')))
            os.unlink('/tmp/seed-%s.json' % i)
            rc, out = ns(copy, 'timeout 300 bash %s/demo.sh' % dd)
            res.append('patched demo %d%s' % (rc, ' ' + out.strip()[-90:].replace("\n"," ") if rc else ' !!! not detected by demo'))
            shutil.rmtree(dd, ignore_errors=True)
        import props
        ids = sorted(props.PROPS) if allc else [meta['property']]
        hits = []
        for p in ids:
            if p not in props.PROPS:
                hits.append('%s: NO CHECK' % p)
                continue
            rc, out = ns(copy, 'python3 %s/check.py %s' % (V, p))
            if rc != 0 or not allc:
                first = [l for l in out.splitlines() if ' | required' in l or 'BROKEN' in l]
                hits.append('%s:%s %s' % (p, {0: 'MISSED', 1: 'caught'}.get(rc, 'BROKEN'), first[0][:150] if first else ''))
        return i, '; '.join(res) + '\n      ' + '\n      '.join(hits)
    except Exception as x:
        return i, 'ERROR %r' % x
    finally:
        subprocess.run(['git', '-C', copy, 'checkout', '-q', '--', '.'])
        pool.put(copy)


if args == ['all']:
    args = sorted(os.listdir(os.path.join(V, 'seeded')))
os.makedirs(BASE, exist_ok=True)
head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], stdout=subprocess.PIPE, universal_newlines=True).stdout.strip()
for k in range(min(N, len(args))):
    c = '%s/r%d' % (BASE, k)
    if not os.path.isdir(c) or subprocess.run(['git', '-C', c, 'rev-parse', 'HEAD'], stdout=subprocess.PIPE, universal_newlines=True).stdout.strip() != head:
        shutil.rmtree(c, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', c], check=True)
    pool.put(c)
t = time.time()
with ThreadPoolExecutor(N) as ex:
    for i, r in ex.map(one, args):
        print('%-8s %s' % (i, r), flush=True)
print('%.0fs' % (time.time() - t))
