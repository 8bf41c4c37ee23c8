"""case runner shared by all properties

A property module lists scenarios.  A scenario is a function case(ctx): it
drives the real package with a workload drawn from ctx.rng, records what it
observed, and hands every observation to an oracle through ctx.check().

Verdicts are three valued:
  violated      an oracle rejected an observation, or the package let an
                exception escape where the property promises a result (exit 1)
  held          on everything that was observed (exit 0)
  inconclusive  the environment failed, a watchdog fired, or a monitor that
                has to be reached was never reached (exit 2)
"""
import errno
import faulthandler
import glob
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

CASE_WATCHDOG_S = 240      # a single case normally takes milliseconds
MAX_VIOLATIONS_PER_WORKER = 3


class Violation(Exception):
    """an oracle rejected an observation"""

    def __init__(self, msg, details=None):
        super().__init__(msg)
        self.msg = msg
        self.details = details or {}


class Inconclusive(Exception):
    """environment trouble, says nothing about the property"""


class WatchdogFired(BaseException):
    """a case ran for too long"""


def jsonable(obj, depth=0):
    """best effort conversion for replay files and evidence"""
    if depth > 6:
        return repr(obj)[:200]
    if isinstance(obj, (str, int, bool)) or obj is None:
        return obj if not isinstance(obj, str) else obj[:2000]
    if isinstance(obj, float):
        return obj if np.isfinite(obj) else repr(obj)
    if isinstance(obj, complex):
        return repr(obj)
    if isinstance(obj, np.generic):
        return jsonable(obj.item(), depth+1)
    if isinstance(obj, np.ndarray):
        if obj.size > 40:
            return "array{} {} ... {}".format(
                obj.shape, np.ravel(obj)[:6].tolist(),
                np.ravel(obj)[-3:].tolist())
        return jsonable(obj.tolist(), depth+1)
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth+1) for k, v in list(obj.items())[:60]}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v, depth+1) for v in list(obj)[:60]]
    return repr(obj)[:500]


class Ctx:
    """what a case sees"""

    def __init__(self, prop, scenario, idx, seed, tier, scratch):
        self.prop = prop
        self.scenario = scenario
        self.idx = idx
        self.seed = seed
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.rng = np.random.default_rng(
            [seed, zlib.crc32((prop + '/' + scenario).encode()), idx])
        self.counters = {}
        self.sigs = set()
        self.events = []
        self.desc = {}
        self._scratch = scratch
        self._dir = None

    # --- recording ---------------------------------------------------------
    def count(self, name, num=1):
        """count an observation made by a monitor"""
        self.counters[name] = self.counters.get(name, 0) + num

    def event(self, *what):
        """append to the witness trace of this case"""
        if len(self.events) < 400:
            self.events.append(what)

    def sig(self, *what):
        """signature of a distinct, non trivial situation"""
        self.sigs.add(hashlib.blake2b(repr((self.scenario,) + what).encode(),
                                      digest_size=8).digest())

    def describe(self, **kw):
        self.desc.update(kw)

    # --- deciding ----------------------------------------------------------
    def check(self, cond, msg, counter=None, **details):
        """the oracle: cond must hold for this observation"""
        self.count(counter or 'oracle evaluations')
        if not cond:
            raise Violation(msg, details)

    def fail(self, msg, **details):
        raise Violation(msg, details)

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, counter=None,
              **details):
        """got equals want within rtol*|want| + atol, elementwise"""
        self.count(counter or 'values compared', int(np.size(want)) or 1)
        got_a, want_a = np.asarray(got), np.asarray(want)
        if got_a.shape != want_a.shape:
            raise Violation(msg + ": shape differs",
                            dict(details, got=got_a.shape, want=want_a.shape))
        if got_a.dtype == object:
            raise Violation(msg + ": not numeric", dict(details, got=got))
        with np.errstate(all='ignore'):
            same = got_a == want_a
            both_nan = np.isnan(got_a) & np.isnan(want_a)
            err = np.abs(got_a - want_a)
            okay = same | both_nan | (err <= rtol*np.abs(want_a) + atol)
        if not np.all(okay):
            bad = int(np.argmin(np.ravel(okay)))
            raise Violation(msg, dict(
                details, index=bad, got=np.ravel(got_a)[bad],
                want=np.ravel(want_a)[bad]))

    def raises(self, exc_types, func, msg, counter='refusals observed',
               **details):
        """func() must be refused with one of exc_types"""
        self.count(counter)
        try:
            result = func()
        except exc_types as exc:
            return exc
        except (Violation, Inconclusive):
            raise
        except Exception as exc:  # wrong kind of refusal
            if is_environment(exc):
                raise
            raise Violation(
                msg + ": refused with {} instead of {}".format(
                    type(exc).__name__, exc_names(exc_types)),
                dict(details, error=str(exc))) from exc
        raise Violation(msg + ": not refused", dict(details, result=result))

    def accepts(self, func, msg, **details):
        """func() must succeed"""
        self.count('acceptances observed')
        try:
            return func()
        except (Violation, Inconclusive):
            raise
        except Exception as exc:
            if is_environment(exc):
                raise
            raise Violation(
                msg + ": raised {}: {}".format(type(exc).__name__, exc),
                dict(details, trace=short_trace(exc))) from exc

    # --- random choices ----------------------------------------------------
    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, prob):
        return bool(self.rng.random() < prob)

    def randint(self, low, high):
        """inclusive"""
        return int(self.rng.integers(low, high + 1))

    def tmpdir(self):
        """scratch directory of this case, removed afterwards"""
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='case', dir=self._scratch)
        return self._dir

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


def exc_names(exc_types):
    if isinstance(exc_types, tuple):
        return "/".join(e.__name__ for e in exc_types)
    return exc_types.__name__


def short_trace(exc):
    return traceback.format_exception(type(exc), exc, exc.__traceback__)[-6:]


def is_environment(exc):
    """errors which come from the sandbox, not from the package"""
    if isinstance(exc, (MemoryError, Inconclusive, WatchdogFired)):
        return True
    return (isinstance(exc, OSError) and
            exc.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE,
                          errno.EDQUOT, errno.EIO, errno.EROFS))


def _alarm(signum, frame):
    raise WatchdogFired()


PRINT_OPTIONS = (
    {'precision': 2, 'suppress': True}, {'threshold': 3, 'edgeitems': 1},
    {'formatter': {'float': '{:.1f}'.format}}, {'linewidth': 20},
    {'sign': '+', 'floatmode': 'fixed', 'precision': 3},
    {'formatter': {'all': lambda v: '{:.2g}'.format(float(np.real(v)))}},
    {'suppress': True}, {'nanstr': '?', 'infstr': 'oo'},
    {'formatter': {'float_kind': '{:.3e}'.format}})


def print_options(idx):
    """how the user prints arrays, must not matter: every fourth case"""
    if idx % 4 != 3:
        return {}
    return PRINT_OPTIONS[idx//4 % len(PRINT_OPTIONS)]


def run_case(module, scenario, idx, seed, tier, scratch):
    """returns (ctx, violation or None, inconclusive reason or None)"""
    ctx = Ctx(module.PROP, scenario, idx, seed, tier, scratch)
    func = module.SCENARIOS[scenario]['case']
    violation = inconclusive = None
    signal.alarm(CASE_WATCHDOG_S)
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), \
                np.printoptions(**print_options(idx)):
            warnings.simplefilter('ignore')
            func(ctx)
    except Violation as exc:
        violation = {'message': exc.msg, 'details': exc.details,
                     'trace': short_trace(exc)}
    except (KeyboardInterrupt, SystemExit) as exc:
        if isinstance(exc, KeyboardInterrupt):
            raise
        violation = {'message': 'SystemExit escaped from the package',
                     'details': {}, 'trace': short_trace(exc)}
    except WatchdogFired:
        inconclusive = 'watchdog: case {}[{}] ran for more than {} s'.format(
            scenario, idx, CASE_WATCHDOG_S)
    except Exception as exc:
        if is_environment(exc):
            inconclusive = 'environment: {!r}'.format(exc)
        else:
            violation = {
                'message': 'unexpected {} escaped: {}'.format(
                    type(exc).__name__, exc),
                'details': {}, 'trace': short_trace(exc)}
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        ctx.cleanup()
    return ctx, violation, inconclusive


# quick runs take this many times the cases a scenario asks for
QUICK = 3


def scenario_size(spec, tier, scale):
    size = spec[tier] if tier in spec else spec['quick']
    if callable(size):
        size = int(size())
        spec = dict(spec, exhaustive=True)
    if spec.get('exhaustive') and not os.environ.get('VERIF_ENVIRONMENT'):
        return int(size)
    if tier == 'quick':
        scale = scale*QUICK
    return max(1, int(size*scale))


def worker(module, plan, wid, nworkers, seed, tier, scratch, out_path,
           deadline):
    """runs every nworkers-th case, writes a pickle with the observations"""
    signal.signal(signal.SIGALRM, _alarm)
    faulthandler.enable()
    os.environ['HOME'] = os.path.join(scratch, 'home{}'.format(wid))
    os.makedirs(os.environ['HOME'], exist_ok=True)
    own = os.path.join(scratch, 'w{}'.format(wid))
    os.makedirs(own, exist_ok=True)
    tempfile.tempdir = own
    result = {'cases': {}, 'counters': {}, 'sigs': set(), 'samples': [],
              'violations': [], 'inconclusive': [], 'skipped': 0}
    if hasattr(module, 'setup_worker'):
        module.setup_worker()
    for scenario, size in plan:
        done = 0
        sampled = 0
        for idx in range(size):
            if (idx + zlib.crc32(scenario.encode())) % nworkers != wid:
                continue
            if time.time() > deadline:
                result['skipped'] += 1
                continue
            ctx, vio, inc = run_case(module, scenario, idx, seed, tier, own)
            done += 1
            for key, num in ctx.counters.items():
                result['counters'][key] = result['counters'].get(key, 0) + num
            result['sigs'] |= ctx.sigs
            if sampled < 1 and ctx.desc:
                sampled += 1
                result['samples'].append(
                    {'scenario': scenario, 'case': idx,
                     'what': jsonable(ctx.desc)})
            if inc:
                result['inconclusive'].append(inc)
            if vio:
                result['violations'].append(
                    {'property': module.PROP, 'scenario': scenario,
                     'case': idx, 'seed': seed, 'tier': tier,
                     'message': vio['message'],
                     'details': jsonable(vio['details']),
                     'description': jsonable(ctx.desc),
                     'events': jsonable(ctx.events[-60:]),
                     'trace': vio['trace']})
                if len(result['violations']) >= MAX_VIOLATIONS_PER_WORKER:
                    break
        result['cases'][scenario] = done
        if len(result['violations']) >= MAX_VIOLATIONS_PER_WORKER:
            break
    with open(out_path + '.tmp', 'wb') as fpt:
        pickle.dump(result, fpt)
    os.rename(out_path + '.tmp', out_path)


def prepare_import(scratch):
    """import the package from the working tree of the repository"""
    repo = os.environ.get('VERIF_REPO', '/repo')
    src = os.path.join(repo, 'src')
    os.environ['HOME'] = os.path.join(scratch, 'home')
    os.makedirs(os.path.join(os.environ['HOME'], '.config'))
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    sys.dont_write_bytecode = True
    sys.path.insert(0, src)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import dispersion
    where = os.path.realpath(dispersion.__file__)
    if not where.startswith(os.path.realpath(src) + os.sep):
        raise Inconclusive("dispersion was imported from " + where)
    return src


# the same cases once more in another process: strings hash differently (the
# order of sets), and, where a module asks for it, the locale is plain ASCII
ENVIRONMENTS = {
    'other hash seed': {'PYTHONHASHSEED': '4711'},
    'ascii locale': {'PYTHONHASHSEED': '12345', 'PYTHONUTF8': '0',
                     'PYTHONCOERCECLOCALE': '0', 'LC_ALL': 'C', 'LANG': 'C',
                     'PYTHONIOENCODING': 'utf-8:backslashreplace'},
}
ENV_SCALE = 0.08


def start_environments(args, module, here, scratch):
    """runs a share of the cases in processes with another environment"""
    if os.environ.get('VERIF_ENVIRONMENT') or args.only:
        return []
    out = []
    for name in getattr(module, 'ENVIRONMENTS', ('other hash seed',)):
        base = os.path.join(scratch, 'env_' + name.replace(' ', '_'))
        os.makedirs(base)
        env = dict(os.environ, VERIF_ENVIRONMENT=name, TMPDIR=base,
                   VERIF_EVIDENCE_DIR=base, **ENVIRONMENTS[name])
        out.append((name, base, subprocess.Popen(
            [sys.executable, '-X', 'faulthandler',
             os.path.join(here, 'run.py'), args.property, '--tier', 'quick',
             '--seed', str(args.seed + 1000), '--workers', '2', '--scale',
             str(ENV_SCALE*min(args.scale, 1.0))], env=env,
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)))
    return out


def finish_environments(children, deadline):
    """counters, violations and inconclusive reasons of these processes"""
    counters, violations, inconclusive = {}, [], []
    for name, base, proc in children:
        try:
            text = proc.communicate(timeout=max(
                deadline + 60 - time.time(), 10))[0]
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.communicate()
            inconclusive.append(name + ': no answer in time')
            continue
        for path in sorted(glob.glob(os.path.join(base, 'replay', '*.json'))):
            with open(path) as fpt:
                violations.append(dict(json.load(fpt), environment=name))
        if proc.returncode == 1 and violations:
            continue
        try:
            with open(glob.glob(os.path.join(base, 'C*.json'))[0]) as fpt:
                data = json.load(fpt)
        except (IndexError, OSError, ValueError):
            inconclusive.append('{}: status {}: {}'.format(
                name, proc.returncode, text[-300:]))
            continue
        counters['cases in a process with ' + name] = \
            data['coverage']['evaluations']
        counters['observations in a process with ' + name] = \
            sum(data['coverage']['observations'].values())
        # monitors which a small share of the cases does not reach are no
        # reason to doubt the others
        inconclusive += [name + ': ' + line for line in
                         data['coverage']['inconclusive']
                         if not line.startswith('monitor never reached')]
    return counters, violations, inconclusive


def load_findings(here, prop):
    path = os.path.join(here, 'known_findings.json')
    if not os.path.isfile(path):
        return []
    with open(path) as fpt:
        data = json.load(fpt)
    return [f for f in data.get('findings', []) if f['property'] == prop]


def match_finding(violation, findings):
    for find in findings:
        if (violation['scenario'] == find.get('scenario') and
                find.get('message', '\0') in violation['message']):
            return find
    return None


def run(args, here):
    start = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_{}_'.format(args.property))
    try:
        return _run(args, here, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(args, here, scratch, start):
    evidence_dir = (os.environ.get('VERIF_EVIDENCE_DIR') or
                    os.path.join(here, 'evidence'))
    os.makedirs(evidence_dir, exist_ok=True)
    evidence_path = os.path.join(evidence_dir, args.property + '.json')
    violations, inconclusive = [], []
    module = None
    try:
        prepare_import(scratch)
    except Inconclusive as exc:
        print("INCONCLUSIVE", exc)
        return 2
    except Exception as exc:
        violations.append({
            'property': args.property, 'scenario': 'import', 'case': 0,
            'seed': args.seed, 'tier': args.tier,
            'message': 'importing the package failed: {!r}'.format(exc),
            'details': {}, 'description': {}, 'events': [],
            'trace': short_trace(exc)})
    if not violations:
        module = importlib.import_module('mon.props.' + args.property.lower())
        if args.replay:
            return replay(args, module, scratch)

    results = []
    plan = []
    skipped = 0
    if module is not None:
        limit = 420 if args.tier == 'quick' else 3*3600
        deadline = start + limit
        for name, spec in module.SCENARIOS.items():
            if args.only and args.only != name:
                continue
            plan.append((name, scenario_size(spec, args.tier, args.scale)))
        pids = {}
        children = start_environments(args, module, here, scratch)
        sys.stdout.flush()
        for wid in range(args.workers):
            out_path = os.path.join(scratch, 'out{}'.format(wid))
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    # the package may print (dialogues, progress)
                    devnull = os.open(os.devnull, os.O_RDWR)
                    os.dup2(devnull, 0)
                    os.dup2(devnull, 1)
                    worker(module, plan, wid, args.workers, args.seed,
                           args.tier, scratch, out_path, deadline)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = (wid, out_path)
        for pid, (wid, out_path) in pids.items():
            _, status = os.waitpid(pid, 0)
            if os.path.isfile(out_path):
                with open(out_path, 'rb') as fpt:
                    results.append(pickle.load(fpt))
            else:
                inconclusive.append(
                    'worker {} ended with status {}'.format(wid, status))

    counters, sigs, samples, cases = {}, set(), [], {}
    if module is not None and children:
        more, vios, incs = finish_environments(children, deadline)
        counters.update(more)
        violations += vios
        inconclusive += incs
    for res in results:
        for key, num in res['counters'].items():
            counters[key] = counters.get(key, 0) + num
        for key, num in res['cases'].items():
            cases[key] = cases.get(key, 0) + num
        sigs |= res['sigs']
        samples += res['samples']
        violations += res['violations']
        inconclusive += res['inconclusive']
        skipped += res['skipped']
    findings = load_findings(here, args.property)
    known = [v for v in violations if match_finding(v, findings)]
    violations = [v for v in violations if not match_finding(v, findings)]

    if module is not None and not violations:
        required = list(getattr(module, 'REQUIRED', []))
        if args.only:
            required = []
        for name in required:
            if not counters.get(name):
                inconclusive.append('monitor never reached: ' + name)
        if not counters or not sigs:
            inconclusive.append('nothing was observed')
        if skipped:
            print("note: {} cases skipped (time limit)".format(skipped))

    seen_scn, keep = set(), []
    for smp in samples:
        if smp['scenario'] not in seen_scn:
            seen_scn.add(smp['scenario'])
            keep.append(smp)
    evidence = {
        'property': args.property, 'tier': args.tier, 'seed': args.seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': sum(cases.values()),
            'distinct_nontrivial': len(sigs),
            'rule': getattr(module, 'RULE', 'import of the package'),
            'samples': keep[:12],
            'cases_per_scenario': cases,
            'observations': dict(sorted(counters.items())),
            'cases_skipped_by_time_limit': skipped,
            'inconclusive': inconclusive[:10]},
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - start, 2),
        'violations': len(violations)}
    with open(evidence_path, 'w') as fpt:
        json.dump(evidence, fpt, indent=1)

    for num, find in enumerate(findings):
        print("KNOWN-FINDING: property={} {}".format(
            args.property, find['what']))
    print("{} {} seed={}: {} cases, {} distinct situations, {} observations, "
          "{:.1f} s".format(args.property, args.tier, args.seed,
                            sum(cases.values()), len(sigs),
                            sum(counters.values()), time.time() - start))
    if violations:
        replay_dir = os.path.join(evidence_dir, 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        seen = set()
        for num, vio in enumerate(violations):
            key = (vio['scenario'], vio['message'][:80])
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            path = os.path.join(replay_dir, '{}-{}.json'.format(
                args.property, len(seen)))
            with open(path, 'w') as fpt:
                json.dump(vio, fpt, indent=1)
            print("{}[{}]: {}{}".format(
                vio['scenario'], vio['case'], vio['message'],
                ' ({})'.format(vio['environment'])
                if 'environment' in vio else ''))
            print("   ", json.dumps(vio['details'])[:1500])
            print("VIOLATION property={} replay={}".format(
                args.property, path))
        return 1
    if inconclusive:
        for line in inconclusive[:10]:
            print("INCONCLUSIVE", line)
        return 2
    print("HELD property={}{}".format(
        args.property, ' (with known findings)' if known else ''))
    return 0


def replay(args, module, scratch):
    """re-execute the case of a replay file"""
    with open(args.replay) as fpt:
        vio = json.load(fpt)
    if vio.get('environment') and not os.environ.get('VERIF_ENVIRONMENT'):
        env = dict(os.environ, VERIF_ENVIRONMENT=vio['environment'],
                   **ENVIRONMENTS[vio['environment']])
        return subprocess.call([sys.executable] + sys.argv, env=env)
    signal.signal(signal.SIGALRM, _alarm)
    tempfile.tempdir = scratch
    if hasattr(module, 'setup_worker'):
        module.setup_worker()
    ctx, got, inc = run_case(module, vio['scenario'], vio['case'],
                             vio['seed'], vio['tier'], scratch)
    print(json.dumps(jsonable(ctx.desc), indent=1))
    for event in ctx.events:
        print("  event", jsonable(event))
    if got:
        print(got['message'], json.dumps(jsonable(got['details'])))
        print("".join(got['trace']))
        print("VIOLATION property={} replay={}".format(
            args.property, args.replay))
        return 1
    if inc:
        print("INCONCLUSIVE", inc)
        return 2
    print("case held")
    return 0
