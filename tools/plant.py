#!/usr/bin/env python3
"""Try the planted changes of /verif/seeded on scratch copies of /repo.

  tools/plant.py [-j N] [--all-checks] [--seed S] [ID ...]

For each change: it applies, the stable tests still pass, the demonstration
passes without and fails with it, and what the check of its property says
(--all-checks: every check).  Writes nothing in /repo; not used by any check.
"""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set()
for key in ('passed', 'stable', 'tests'):
    try:
        val = json.load(open('/opt/vp/BASELINE.json')).get(key)
        if val:
            STABLE = set(val)
            break
    except OSError:
        pass


def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


def tests_pass(tree, scratch):
    env = dict(os.environ, HOME=scratch + '/home', PYTHONPATH=tree + '/src',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
    os.makedirs(scratch + '/home/.config', exist_ok=True)
    res = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
              '--timeout=300', 'tests'], cwd=tree, env=env)
    return res.stdout.strip().splitlines()[-1]


def one(name, checks, seed):
    seed_dir = os.path.join(VERIF, 'seeded', name)
    meta = json.load(open(seed_dir + '/meta.json'))
    scratch = tempfile.mkdtemp(prefix='plant_')
    out = {'id': name, 'property': meta['property']}
    try:
        tree = scratch + '/repo'
        sh(['cp', '-a', '/repo', tree])
        demo = scratch + '/demo'
        shutil.copytree(seed_dir, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        env = dict(os.environ, PYTHONPATH=tree + '/src')
        out['demo_clean'] = sh(['bash', demo + '/demo.sh'], cwd=tree, env=env).returncode
        res = sh(['git', 'apply', seed_dir + '/patch.diff'], cwd=tree)
        if res.returncode:
            out['error'] = 'does not apply'
            return out
        out['tests'] = tests_pass(tree, scratch)
        res = sh(['bash', demo + '/demo.sh'], cwd=tree, env=env)
        out['demo_patched'] = res.returncode
        caught = []
        for check in (checks or [meta['property']]):
            env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED=str(seed), VERIF_TIER='quick',
                       VERIF_EVIDENCE_DIR=scratch + '/ev')
            res = sh(['bash', VERIF + '/check.sh', check, '--workers', '2'], env=env)
            if res.returncode == 1 and 'VIOLATION property=' + check in res.stdout:
                caught.append(check)
            elif res.returncode:
                caught.append('%s:rc%d' % (check, res.returncode))
        out['caught'] = caught
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('--all-checks', action='store_true')
    ap.add_argument('--seed', default=1)
    args = ap.parse_args()
    ids = args.ids or sorted(os.listdir(VERIF + '/seeded'))
    checks = None
    if args.all_checks:
        checks = [c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
    with cf.ThreadPoolExecutor(args.j) as pool:
        for res in pool.map(lambda i: one(i, checks, args.seed), ids):
            ok = (res.get('demo_clean') == 0 and res.get('demo_patched') not in (0, None)
                  and '19 passed' in res.get('tests', ''))
            print('%-34s %s valid=%s caught=%s %s' % (
                res['id'], res['property'], ok, res.get('caught'),
                '' if ok else {k: res.get(k) for k in ('error', 'demo_clean', 'demo_patched', 'tests')}),
                flush=True)


if __name__ == '__main__':
    main()
