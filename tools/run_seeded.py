"""Run checks against the planted changes, each in a scratch copy of /repo.

usage: run_seeded.py [--all] [--dir DIR] [id ...]
Default: only the check of the property each change breaks; --all: every check.
--dir DIR: a folder of <name>/patch.diff (default /verif/seeded).
"""
import os, sys, json, shutil, subprocess, time, argparse
from concurrent.futures import ThreadPoolExecutor
V = '/verif'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--dir', default=V + '/seeded')
    ap.add_argument('--props', default='')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(a.dir))
    man = json.load(open(V + '/MANIFEST.json'))
    props = [c['property_id'] for c in man['checks']] if 'property_id' in man['checks'][0] else [c['property'] for c in man['checks']]
    jobs = []
    for i in ids:
        w = '/tmp/s/run_' + i
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        r = subprocess.run(['git', 'apply', os.path.join(a.dir, i, 'patch.diff')], cwd=w)
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY')
            continue
        m = os.path.join(a.dir, i, 'meta.json')
        own = json.load(open(m))['property'] if os.path.exists(m) else None
        which = props if a.all or own is None else [own]
        if a.props:
            which = a.props.split(',')
        jobs += [(i, w, p) for p in which]

    def one(job):
        i, w, p = job
        t = time.time()
        try:
            r = subprocess.run(['python3', V + '/check.py', p, '--repo', w, '--no-evidence'], cwd=V,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = 'TIMEOUT', ''
        viol = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        detail = [l for l in out.splitlines() if 'undecided' in l.lower()][:1]
        return i, p, rc, viol, detail, time.time() - t, out

    res = {}
    with ThreadPoolExecutor(a.j) as ex:
        for i, p, rc, viol, detail, dt, out in ex.map(one, jobs):
            res.setdefault(i, {})[p] = rc
            if len(jobs) <= 3 * len(ids) or rc not in (0, 1):
                print('%-28s %s rc=%s %3ds  %s %s' % (i, p, rc, dt, (viol or [''])[0][:150], '' if viol else detail), flush=True)
                if rc not in (0, 1):
                    print('     ', out[-300:].replace('\n', ' | '))
    if a.all:
        for i in ids:
            if i in res:
                print(i, 'caught by', ' '.join(p for p, rc in res[i].items() if rc == 1), ' no answer:', ' '.join(p for p, rc in res[i].items() if rc not in (0, 1)))
    for i in ids:
        shutil.rmtree('/tmp/s/run_' + i, ignore_errors=True)


main()
