#!/usr/bin/env python3
"""Mutation survey: where are the checks blind?

  tools/mutate.py [-j N] [--scale X] [--files a.py,b.py] [--out FILE] [--sample K]

Makes small syntactic changes to scratch copies of the package (one per copy),
drops those the stable tests notice, and runs the checks (most related first,
reduced workload) until one reports a violation.  Prints the survivors, to be
read by hand: a survivor is either a change that keeps the behaviour, one that
is outside of every property, or a blind spot.  Not used by any check.
"""
import argparse, ast, concurrent.futures as cf, copy, json, os, random, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['C%02d' % i for i in range(1, 100)
       if os.path.exists(VERIF + '/mon/props/c%02d.py' % i)]
FIRST = {
    'spectrum.py': 'C01 C02 C03 C04 C05',
    'spectral_data.py': 'C06 C05 C04 C13 C07 C03 C09 C16 C12',
    'material.py': 'C10 C08 C16 C12 C15 C18 C25 C14 C26 C28 C13 C11 C05 C19',
    'io.py': 'C16 C17 C18 C19 C23',
    'catalogue.py': 'C20 C21 C22 C27 C24',
    'config.py': 'C23 C24',
    'scripts/setup_dispersion.py': 'C24',
    'scripts/catalogue_rebuild.py': 'C24',
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
       ast.Pow: [ast.Mult], ast.BitOr: [ast.BitAnd]}


def sites(tree):
    """[(description, function(node-in-copy) -> None)] as (path, kind, arg)"""
    out = []
    parents = {}
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            parents[child] = node
    index = {id(n): i for i, n in enumerate(ast.walk(tree))}

    def in_raise(node):
        while node in parents:
            node = parents[node]
            if isinstance(node, ast.Raise):
                return True
            if isinstance(node, ast.Call) and getattr(node.func, 'id', getattr(
                    node.func, 'attr', '')) in ('warn', 'print', 'KeyError'):
                return True
        return False

    for node in ast.walk(tree):
        i = index[id(node)]
        line = getattr(node, 'lineno', 0)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in CMP.get(type(node.ops[0]), []):
                out.append((line, i, 'cmp', new))
        elif isinstance(node, ast.BinOp) and not in_raise(node):
            for new in BIN.get(type(node.op), []):
                out.append((line, i, 'bin', new))
        elif isinstance(node, ast.BoolOp):
            out.append((line, i, 'bool', None))
        elif isinstance(node, ast.UnaryOp):
            out.append((line, i, 'unary', None))
        elif isinstance(node, ast.Constant) and not in_raise(node):
            par = parents.get(node)
            if isinstance(par, ast.Expr) or isinstance(par, ast.JoinedStr):
                continue
            val = node.value
            if isinstance(val, bool):
                out.append((line, i, 'const', not val))
            elif isinstance(val, (int, float)):
                out.append((line, i, 'const', val + 1))
                if val not in (0, 1):
                    out.append((line, i, 'const', val*2))
            elif isinstance(val, str):
                out.append((line, i, 'const', val + 'x' if val else 'x'))
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)) and \
                not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            par = parents.get(node)
            if not isinstance(par, (ast.Module, ast.ClassDef)):
                out.append((line, i, 'drop', None))
        elif isinstance(node, ast.Raise):
            out.append((line, i, 'drop', None))
        elif isinstance(node, (ast.Continue, ast.Break)):
            out.append((line, i, 'swap', None))
        elif isinstance(node, ast.If):
            out.append((line, i, 'iftrue', True))
            out.append((line, i, 'iftrue', False))
        elif isinstance(node, ast.Return) and node.value is not None:
            out.append((line, i, 'retnone', None))
        elif isinstance(node, ast.Call) and not in_raise(node):
            if node.keywords:
                for k in range(len(node.keywords)):
                    out.append((line, i, 'dropkw', k))
            name = getattr(node.func, 'attr', '')
            swap = {'min': 'max', 'max': 'min', 'real': 'imag', 'imag': 'real', 'lower': 'upper',
                    'upper': 'lower', 'lstrip': 'rstrip', 'rstrip': 'lstrip', 'ones': 'zeros'}
            if name in swap:
                out.append((line, i, 'attr', swap[name]))
    return out


def mutate(tree, i, kind, arg):
    tree = copy.deepcopy(tree)
    nodes = list(ast.walk(tree))
    node = nodes[i]
    parents = {}
    for par in nodes:
        for child in ast.iter_child_nodes(par):
            parents[child] = par

    def replace(new):
        par = parents[node]
        for field, val in ast.iter_fields(par):
            if val is node:
                setattr(par, field, new)
            elif isinstance(val, list):
                for k, item in enumerate(val):
                    if item is node:
                        val[k] = new
    if kind == 'cmp':
        node.ops = [arg()]
    elif kind == 'bin':
        node.op = arg()
    elif kind == 'bool':
        node.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
    elif kind == 'unary':
        replace(node.operand)
    elif kind == 'const':
        node.value = arg
    elif kind == 'drop':
        replace(ast.Pass())
    elif kind == 'swap':
        replace(ast.Break() if isinstance(node, ast.Continue) else ast.Continue())
    elif kind == 'iftrue':
        node.test = ast.Constant(arg)
    elif kind == 'retnone':
        node.value = None
    elif kind == 'dropkw':
        del node.keywords[arg]
    elif kind == 'attr':
        node.func.attr = arg
    return ast.unparse(ast.fix_missing_locations(tree))


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


def trial(job):
    fname, line, i, kind, arg, text, scale, every = job
    scratch = tempfile.mkdtemp(prefix='mut_')
    res = {'file': fname, 'line': line, 'node': i, 'kind': kind, 'arg': getattr(arg, '__name__', repr(arg))}
    try:
        tree = scratch + '/repo'
        shutil.copytree('/repo', tree, ignore=shutil.ignore_patterns('.git', 'doc*', 'examples'))
        with open(tree + '/src/dispersion/' + fname, 'w') as fpt:
            fpt.write(text)
        env = dict(os.environ, HOME=scratch + '/home', PYTHONPATH=tree + '/src', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0', MPLBACKEND='Agg')
        os.makedirs(scratch + '/home/.config')
        try:
            run = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60',
                      'tests'], cwd=tree, env=env)
            last = run.stdout.strip().splitlines()[-1] if run.stdout.strip() else ''
        except subprocess.TimeoutExpired:
            last = 'timeout'
        if '19 passed' not in last:
            res['result'] = 'tests'
            return res
        order = FIRST.get(fname, '').split()
        if every:
            order += [c for c in ALL if c not in order]
        notes = []
        for check in order:
            env = dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE_DIR=scratch + '/ev')
            try:
                run = sh(['bash', VERIF + '/check.sh', check, '--workers', '1', '--scale', str(scale)], env=env,
                         timeout=600)
            except subprocess.TimeoutExpired:
                notes.append(check + ':timeout')
                continue
            if run.returncode == 1:
                res['result'] = 'caught'
                res['by'] = check
                res['notes'] = notes
                return res
            if run.returncode:
                notes.append('%s:rc%d %s' % (check, run.returncode, run.stdout.strip()[-150:]))
        res['result'] = 'survived'
        res['notes'] = notes
        return res
    except Exception as exc:    # keep the survey going
        res['result'] = 'error %r' % exc
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--scale', type=float, default=0.15)
    ap.add_argument('--files', default=','.join(FIRST))
    ap.add_argument('--out', default='/tmp/mut/out.jsonl')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--redo', help='rerun the survivors of this file')
    ap.add_argument('--every', action='store_true', help='try every check, not only the related ones')
    args = ap.parse_args()
    jobs = []
    redo = None
    if args.redo:
        redo = set()
        for row in open(args.redo):
            row = json.loads(row)
            if row['result'] == 'survived':
                redo.add((row['file'], row['node'], row['kind'], row['arg']))
    for fname in args.files.split(','):
        src = open('/repo/src/dispersion/' + fname).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for line, i, kind, arg in sites(tree):
            key = (fname, i, kind, getattr(arg, '__name__', repr(arg)))
            if redo is not None and key not in redo:
                continue
            try:
                text = mutate(tree, i, kind, arg)
                compile(text, fname, 'exec')
            except Exception:
                continue
            if text != base:
                jobs.append((fname, line, i, kind, arg, text, args.scale, args.every))
    random.seed(1)
    random.shuffle(jobs)
    if args.sample:
        jobs = jobs[:args.sample]
    print(len(jobs), 'mutants', flush=True)
    count = {}
    with cf.ThreadPoolExecutor(args.j) as pool, open(args.out, 'w') as out:
        for res in pool.map(trial, jobs):
            count[res['result']] = count.get(res['result'], 0) + 1
            out.write(json.dumps(res) + '\n')
            out.flush()
    print(count)


if __name__ == '__main__':
    main()
