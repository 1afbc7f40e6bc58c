"""Make /verif/seeded/<id>/ from a specification of planted changes.

usage: seed.py SPEC.py [id ...]      (SPEC.py defines BUGS, a list of dicts)

Every change is confirmed in a scratch copy of /repo under /tmp/s: it applies, the test
suite still passes, the demonstration passes without it and fails with it.  Only then is
it stored.  Not used by any check.
"""
import os, sys, json, shutil, subprocess, runpy
from concurrent.futures import ThreadPoolExecutor

SEEDED = '/verif/seeded'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec %s "$here/demo.py"
''' % PY


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def make(bug):
    bid = bug['id']
    w = '/tmp/s/seed_' + bid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    try:
        for path, old, new in bug['edits']:
            p = os.path.join(w, 'eth_abi', path)
            s = open(p).read()
            n = bug.get('count', 1)
            if s.count(old) < 1 or (s.count(old) != 1 and not bug.get('first') and n == 1):
                return bid, 'EDIT old text found %d times: %r' % (s.count(old), old[:60])
            s = s.replace(old, new, 1 if bug.get('first') else n)
            open(p, 'w').write(s)
        diff = run(['git', 'diff'], w).stdout
        d = '/tmp/s/demo_' + bid
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        r0 = run(['bash', d + '/demo.sh'], '/repo')
        if r0.returncode != 0:
            return bid, 'DEMO fails on clean: ' + r0.stdout[-400:]
        r1 = run(['bash', d + '/demo.sh'], w)
        if r1.returncode == 0:
            return bid, 'DEMO passes with patch'
        last = r1.stdout.strip().splitlines()[-1:] or ['']
        t = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_hypothesis_profile', '-n', '4', '--timeout=120',
                 '--doctest-glob=*.rst', '-o', 'doctest_optionflags=DONT_ACCEPT_TRUE_FOR_1 ELLIPSIS '
                 'IGNORE_EXCEPTION_DETAIL NORMALIZE_WHITESPACE', 'tests', 'docs'],
                w, {'PYTHONPATH': w, 'PYTHONHASHSEED': '0'})
        tail = t.stdout.strip().splitlines()[-1]
        if t.returncode != 0:
            fails = [l for l in t.stdout.splitlines() if l.startswith('FAILED')][:4]
            return bid, 'TESTS fail: %s %s' % (tail, fails)
        out = os.path.join(SEEDED, bid)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(d + '/demo.py', out)
        shutil.copy(d + '/demo.sh', out)
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        return bid, 'OK  (%s) demo: %s' % (tail[:60], last[0][:100])
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree('/tmp/s/demo_' + bid, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    bugs = [b for b in bugs if not want or b['id'] in want]
    with ThreadPoolExecutor(3) as ex:
        for bid, msg in ex.map(make, bugs):
            print(bid, msg, flush=True)
