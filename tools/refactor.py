"""Run checks on behaviour-preserving edits (refactor_spec.py), each set in a scratch copy of /repo.

usage: refactor.py [--tests] [--props C01,C02] [set ...]
Every check has to exit 0.  Not used by any check."""
import argparse, json, os, runpy, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--tests', action='store_true')
    ap.add_argument('--props', default='')
    ap.add_argument('--spec', default=os.path.join(HERE, 'refactor_spec.py'))
    ap.add_argument('sets', nargs='*')
    a = ap.parse_args()
    sets = runpy.run_path(a.spec)['SETS']
    props = a.props.split(',') if a.props else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    for n in a.sets or sets:
        w = '/tmp/s/ref_' + n
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        for f, old, new in sets[n]:
            p = os.path.join(w, 'eth_abi', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(n, f, 'EDIT matches', s.count(old), 'times:', old[:70].strip())
                continue
            open(p, 'w').write(s.replace(old, new))
        if a.tests:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_hypothesis_profile', '-n', '4', '--timeout=120', 'tests'], cwd=w,
                               env=dict(os.environ, PYTHONPATH=w, PYTHONHASHSEED='0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(n, 'tests', t.returncode, t.stdout.strip().splitlines()[-1][:150], [l for l in t.stdout.splitlines() if l.startswith(('FAILED', 'E  '))][:3], flush=True)
            continue
        for c in props:
            t0 = time.time()
            r = subprocess.run(['python3', V + '/check.py', c, '--repo', w, '--no-evidence'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ls = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
            und = ls[0] if ls else ''
            flag = '' if r.returncode == 0 and '(0 undecided' in r.stdout else '   <-- '
            print(n, c, 'rc=%d' % r.returncode, '%ds' % (time.time() - t0), flag, (' | '.join(ls)[:600] if flag else ''), flush=True)
        shutil.rmtree(w, ignore_errors=True)


main()
