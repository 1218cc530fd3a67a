#!/usr/bin/env python3
"""bugs.py [--tests] [--tier T] <id>...: plants each change of seeded/ in a scratch copy of /repo, shown as /repo in a mount namespace of its
own, then runs build, demonstration and the check of its property (and the stable tests with --tests). Not used by any check."""
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def inside(repo, cmd, timeout=1500):
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (repo, cmd)], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout


def one(i, tests, tier, checks):
    d = os.path.join(S, i)
    w = tempfile.mkdtemp(prefix='bug')
    r = {'id': i}
    try:
        repo = os.path.join(w, 'repo')
        shutil.copytree(os.environ.get('BASE', '/repo'), repo, symlinks=True)
        demo = os.path.join(w, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r['demo_clean'] = inside(repo, 'bash %s/demo.sh' % demo)[0]
        p = subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r['apply'] = p.returncode
        r['build'] = inside(repo, 'bash /opt/vp/build.sh')[0]
        rc, o = inside(repo, 'bash %s/demo.sh' % demo)
        r['demo_bug'] = rc
        r['demo_output'] = o.strip().split('\n')[:3]
        if tests:
            inside(repo, 'bash /opt/vp/test.sh %s/t.json' % w)
            base = json.load(open('/opt/vp/BASELINE.json'))
            res = json.load(open('%s/t.json' % w))
            names = base['stable'] if isinstance(base, dict) and 'stable' in base else base
            r['tests'] = sorted(set(names) - set(res['passed']))
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        ver = os.path.join(w, 'verif')
        shutil.copytree(V, ver, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence'))
        for c in checks or [prop]:
            t = time.time()
            rc, o = inside(repo, 'cd %s && VERIF_SEED=1 bash tools/run.sh %s %s' % (ver, c, tier))
            v = [x for x in o.split('\n') if x.startswith('VIOLATION') or 'clauses' in x]
            r['check ' + c] = (rc, round(time.time() - t), [x[:200] for x in v[:4]] if rc == 1 else o[-1500:] if rc else '')
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(json.dumps(r, indent=1), flush=True)
    return r


def main():
    a = sys.argv[1:]
    tests = '--tests' in a
    tier = a[a.index('--tier') + 1] if '--tier' in a else 'quick'
    checks = a[a.index('--checks') + 1].split(',') if '--checks' in a else None
    jobs = int(a[a.index('--jobs') + 1]) if '--jobs' in a else 3
    ids = [x for x in a if os.path.isdir(os.path.join(S, x))]
    with ThreadPoolExecutor(jobs) as ex:
        R = list(ex.map(lambda i: one(i, tests, tier, checks), ids))
    for r in R:
        print(r['id'], 'clean', r['demo_clean'], 'bug', r['demo_bug'], r.get('tests'), {k: v[:2] for k, v in r.items() if k.startswith('check')})


if __name__ == '__main__':
    main()
