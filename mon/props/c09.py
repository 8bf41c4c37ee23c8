"""C09 queries are pure: they change nothing and can be repeated"""
import copy
import io
import contextlib
import os
import random
import sys
import threading
import time
import numpy as np
import dispersion
from dispersion import Spectrum, Material, Interpolation, Constant, Writer
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
from .. import gen, ref

PROP = 'C09'
RULE = ("a case is a history over a pool of live materials, spectra and raw "
        "arrays shared between calls: queries in both representations, "
        "failing queries, range requests, comparisons, file dictionaries, "
        "effective media and extrapolation; every answer is compared with "
        "the reference and bit by bit with the first answer to the same "
        "question, every argument with a snapshot taken before; the threads "
        "scenario repeats known queries from several threads with delays "
        "injected at source lines of the package; distinct by operation "
        "sequence (histories) or by observed interleaving (threads)")
ASSUMPTIONS = ["threads only query: registering, extrapolating or removing "
               "absorption are not called concurrently"]
REQUIRED = ['answers repeated', 'arguments compared', 'answers vs reference',
            'effective media built', 'failing queries', 'concurrent answers',
            'injected delays', 'process state compared']

EFFECTIVE = (Simple, MaxwellGarnett, Bruggeman)


def fingerprint(obj):
    """observable state of an argument"""
    if isinstance(obj, Spectrum):
        return ('Spectrum', fingerprint(obj.values), obj.spectrum_type,
                obj.unit, fingerprint(obj.standard_rep))
    if isinstance(obj, np.ndarray):
        return ('array', obj.dtype.str, obj.shape, obj.tobytes())
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__,) + tuple(fingerprint(o) for o in obj)
    if isinstance(obj, dict):
        return tuple((k, fingerprint(v)) for k, v in obj.items())
    return repr(obj)


def answer_bytes(val):
    arr = np.asarray(val)
    return (arr.shape, arr.dtype.str, arr.tobytes())


class Live:
    """a material under observation"""

    def __init__(self, ctx, index):
        self.index = index
        self.source = None
        roll = ctx.randint(0, 9)
        if roll <= 2:
            self.from_table(ctx)
        elif roll == 3:
            self.from_model(ctx)
        else:
            self.mat, self.rmat, self.desc = gen.make_material(
                ctx, small=True)
        self.answers = {}
        self.meta = copy.deepcopy((self.mat.meta_data, self.mat.defaults))

    def from_table(self, ctx):
        pair = gen.any_pair(ctx)
        num = gen.table_size(ctx, True)
        xx = gen.table_x(ctx, pair, num)
        eps = ctx.chance(0.4)
        cols = [gen.column(ctx, 'epsr' if eps else 'n', num),
                gen.column(ctx, 'epsi' if eps else 'k', num)]
        table = gen.shuffled(ctx, np.column_stack([xx] + cols))
        self.source = [(table, fingerprint(table))]
        stype, unit = gen.spell(ctx, pair)
        kw = {'tabulated_eps' if eps else 'tabulated_nk': table,
              'spectrum_type': stype, 'unit': unit}
        self.mat = Material(**kw)
        self.rmat = ref.RefMaterial(
            'eps' if eps else 'nk', ref.RefTable(xx, cols[0], pair),
            ref.RefTable(xx, cols[1], pair))
        self.desc = {'kind': 'own table', 'pair': pair, 'rows': num}

    def from_model(self, ctx):
        name = ctx.choice(tuple(ref.MODELS_N) + tuple(ref.MODELS_EPS))
        par, vrange = gen.model_parameters(ctx, name)
        pair = gen.model_pair(name)
        kw = {'name': name, 'spectrum_type': pair[0], 'unit': pair[1],
              'valid_range': np.array(vrange), 'parameters': np.array(par)}
        self.source = [(kw, fingerprint(kw))]
        self.mat = Material(model_kw=kw)
        part = ref.RefModel(name, par, vrange)
        if name in ref.MODELS_N:
            self.rmat = ref.RefMaterial('nk', part)
        else:
            self.rmat = ref.RefMaterial('eps', cplx=part)
        self.desc = {'kind': 'own model', 'model': name, 'par': par}

    def verify_untouched(self, ctx, what):
        for obj, before in self.source or []:
            ctx.check(fingerprint(obj) == before, "the table or parameters "
                      "a material was built from were changed by " + what,
                      'arguments compared', desc=self.desc)
        ctx.check((self.mat.meta_data, self.mat.defaults) == self.meta,
                  "metadata or defaults were changed by " + what,
                  'arguments compared', desc=self.desc)


def in_window(win, lam):
    return np.all(lam > win[0]*(1 + 1e-6)) and np.all(lam < win[1]*(1 - 1e-6))


def shared_spectra(ctx, lives):
    """spectra and raw arrays used again and again"""
    out = []
    for live in lives:
        lam = gen.inside(ctx, live.rmat, ctx.choice([1, 2, 7, 40]))
        if ctx.chance(0.3):
            lam = lam[0]
        elif ctx.chance(0.03):
            lam = gen.inside(ctx, live.rmat, ctx.choice([300, 1200, 5000]))
        out.append(lam)
    # adversarially similar requests: same length, same ends, other interior
    base = out[0]
    if np.size(base) > 3:
        twin = np.array(base)
        twin[1] = 0.5*(np.min(base) + np.max(base))
        out.append(twin)
        out.append(np.sort(base))
    items = []
    for lam in out:
        pair = gen.any_pair(ctx)
        spec, _ = gen.request(ctx, lam, pair)
        items.append((spec, lam, pair))
        # same numbers, another unit: same values, different meaning
        if ctx.chance(0.4):
            for pair2 in ref.PAIRS:
                if pair2 == pair:
                    continue
                lam2 = ref.to_metre(pair2, np.asarray(spec.values))
                if np.all(lam2 > 1e-8) and np.all(lam2 < 1e-4):
                    items.append((Spectrum(
                        copy.copy(spec.values), pair2[0], pair2[1]), lam2,
                        pair2))
                    break
    return items


def ask(ctx, live, func_name, spec, lam, key, raw=None):
    func = getattr(live.mat, func_name)
    args = (spec,) if raw is None else raw
    before = fingerprint(args)
    low, high = live.rmat.range_m()
    if np.any(lam < low*(1 - 1e-6)) or np.any(lam > high*(1 + 1e-6)):
        ctx.raises(ValueError, lambda: func(*args), "query outside of the "
                   "range", 'failing queries', desc=live.desc)
        got = None
    elif np.all(lam > low*(1 + 1e-6)) and np.all(lam < high*(1 - 1e-6)):
        got = func(*args)
    elif low == high:
        try:
            got = func(*args)
        except ValueError:
            got = None
    else:
        return
    ctx.check(fingerprint(args) == before, "a query changed its arguments",
              'arguments compared', func=func_name, desc=live.desc,
              spectrum=(spec.spectrum_type, spec.unit))
    if got is None:
        return
    want = getattr(live.rmat, func_name == 'get_nk_data' and 'nk' or
                   'eps')(lam)
    tol = getattr(live.rmat, func_name == 'get_nk_data' and 'nk_tol' or
                  'eps_tol')(lam)
    ctx.check(np.shape(got) == np.shape(want) and
              np.all(np.abs(got - want) <= 3*tol + 1e-8*np.abs(want)),
              "answer differs from the definition of the material",
              'answers vs reference', func=func_name, desc=live.desc,
              got=got, want=want)
    bits = answer_bytes(got)
    first = live.answers.setdefault(key, bits)
    ctx.check(first == bits, "repeated query gives another answer",
              'answers repeated', func=func_name, desc=live.desc)


def world():
    """state of the process which belongs to the user"""
    rand = np.random.get_state()
    return {'numpy errors': dict(np.geterr()),
            'numpy printing': dict(np.get_printoptions()),
            'random numbers': (rand[0], rand[1].tobytes()) + tuple(rand[2:]),
            'directory': os.getcwd(), 'environment': dict(os.environ),
            'random module': random.getstate(),
            'open files': len(os.listdir('/proc/self/fd'))}


def case_history(ctx):
    before_all = world()
    lives = [Live(ctx, i) for i in range(ctx.randint(2, 4))]
    items = shared_spectra(ctx, lives)
    snap = [fingerprint(spec) for spec, _, _ in items]
    ops = []
    for _ in range(ctx.randint(10, 60)):
        live = ctx.choice(lives)
        num = ctx.randint(0, len(items) - 1)
        spec, lam, pair = items[num]
        op = ctx.choice(['nk', 'nk', 'nk', 'eps', 'eps', 'raw', 'range',
                         'sample', 'dict', 'eq', 'medium', 'extrapolate',
                         'fail', 'write'])
        ops.append((op, live.index, num))
        ctx.event(op, live.index, num)
        if op in ('nk', 'eps'):
            ask(ctx, live, 'get_nk_data' if op == 'nk' else
                'get_permittivity', spec, lam, (op, num))
        elif op == 'raw':
            raw = (copy.copy(spec.values), pair[0], pair[1])
            # values that were converted are rounded
            lam = ref.to_metre(pair, spec.values)
            ask(ctx, live, 'get_nk_data', spec, lam, ('raw', num), raw)
        elif op == 'range':
            bits = answer_bytes(live.mat.get_maximum_valid_range())
            ctx.check(live.answers.setdefault('range', bits) == bits,
                      "maximum valid range changed", 'answers repeated')
        elif op == 'sample':
            low, high = live.rmat.range_m()
            if low < high:
                sample = live.mat.get_sample_spectrum()
                bits = fingerprint(sample)
                ctx.check(live.answers.setdefault('sample', bits) == bits,
                          "sample spectrum changed", 'answers repeated')
                live.mat.get_nk_data(sample)
                ctx.check(fingerprint(sample) == bits, "query changed the "
                          "sample spectrum", 'arguments compared')
        elif op == 'dict':
            bits = fingerprint(live.mat.prepare_file_dict())
            ctx.check(live.answers.setdefault('dict', bits) == bits,
                      "file representation changed", 'answers repeated')
        elif op == 'write':
            if live.rmat.cplx is None and \
                    'const' in (live.rmat.real.kind, live.rmat.imag.kind):
                continue
            path = ctx.tmpdir() + '/m%d.yml' % live.index
            Writer(path, live.mat).write_file()
            with open(path, 'rb') as fpt:
                bits = fpt.read()
            ctx.check(live.answers.setdefault('file', bits) == bits,
                      "written file changed", 'answers repeated')
        elif op == 'eq':
            other = ctx.choice(lives)
            res = live.mat == other.mat
            key = ('eq', other.index)
            ctx.check(live.answers.setdefault(key, bool(res)) == bool(res),
                      "comparison changed", 'answers repeated')
        elif op == 'medium':
            other = ctx.choice(lives)
            low = max(live.rmat.range_m()[0], other.rmat.range_m()[0], 5e-8)
            high = min(live.rmat.range_m()[1], other.rmat.range_m()[1], 1e-4)
            before = fingerprint(spec)
            cls = ctx.choice(EFFECTIVE)
            if low*(1+1e-3) < high and in_window((low, high), lam) and \
                    np.size(lam) == np.size(np.unique(lam)):
                try:
                    med = cls(spec, live.mat, other.mat,
                              float(ctx.rng.random()))
                except ValueError as exc:
                    if 'singular' not in str(exc):
                        raise
                    med = None
                ctx.count('effective media built')
                if med is not None:
                    med.get_permittivity(spec)
            else:
                mid = np.sqrt(low*high) if low < high else 1e-6
                try:
                    cls(spec, live.mat, other.mat, 0.5)
                except ValueError:
                    pass
            ctx.check(fingerprint(spec) == before, "building an effective "
                      "medium changed the caller's spectrum",
                      'arguments compared')
        elif op == 'extrapolate':
            # extrapolating one material leaves spectrum and others alone
            if live.rmat.cplx is not None or live.rmat.name != 'nk':
                continue
            low, high = live.rmat.range_m()
            if live.rmat.real.kind != 'table' or \
                    live.rmat.imag.kind != 'table' or not low < high or \
                    live.rmat.real.pair != live.rmat.imag.pair or \
                    live.source is None:
                continue
            table = live.source[0][0]
            pair1 = live.rmat.real.pair
            clone = Material(tabulated_nk=table, spectrum_type=pair1[0],
                             unit=pair1[1])
            target, _ = gen.request(ctx, np.array([low*0.8, high*1.2]))
            before = fingerprint(target)
            clone.extrapolate(target, spline_order=ctx.choice([1, 2]))
            ctx.check(fingerprint(target) == before, "extrapolation changed "
                      "the caller's spectrum", 'arguments compared')
            probe, _ = gen.request(ctx, np.array(
                [low*0.9, np.sqrt(low*high)]))
            before = fingerprint(probe)
            clone.get_nk_data(probe)
            ctx.check(fingerprint(probe) == before, "evaluating extrapolated "
                      "data changed the caller's spectrum",
                      'arguments compared')
        else:
            low, high = live.rmat.range_m()
            if np.isfinite(high):
                bad = Spectrum(np.array([high*1.5, high*2.0]))
                before = fingerprint(bad)
                ctx.raises(ValueError, lambda: live.mat.get_nk_data(bad),
                           "query outside of the range", 'failing queries')
                ctx.check(fingerprint(bad) == before, "failing query changed "
                          "its argument", 'arguments compared')
        for other in lives:
            other.verify_untouched(ctx, op)
    after_all = world()
    ctx.check(after_all == before_all, "state of the process changed",
              'process state compared',
              what=[k for k in after_all if after_all[k] != before_all[k]])
    # every spectrum is still what it was, every answer is still the same
    for (spec, lam, _), before in zip(items, snap):
        ctx.check(fingerprint(spec) == before, "a shared spectrum changed "
                  "during the history", 'arguments compared')
    for live in lives:
        for num, (spec, lam, pair) in enumerate(items):
            ask(ctx, live, 'get_nk_data', spec, lam, ('nk', num))
            ask(ctx, live, 'get_permittivity', spec, lam, ('eps', num))
    ctx.describe(materials=[live.desc for live in lives], operations=ops[:20])
    ctx.sig(tuple(ops))


# --------------------------------------------------------------------------
def package_prefix():
    import os
    return os.path.dirname(os.path.realpath(dispersion.__file__))


def case_threads(ctx):
    lives = []
    while len(lives) < 3:
        live = Live(ctx, len(lives))
        if live.rmat.range_m()[0] < live.rmat.range_m()[1]:
            lives.append(live)
    jobs = []
    spectra = []
    for live in lives:
        lam = gen.inside(ctx, live.rmat, ctx.choice([1, 5, 30]), 1e-4)
        spec, pair = gen.request(ctx, lam)
        spectra.append(spec)
        for other in lives:
            low, high = other.rmat.range_m()
            if in_window((low, high), lam):
                for name in ('get_nk_data', 'get_permittivity'):
                    jobs.append((other, name, spec,
                                 answer_bytes(getattr(other.mat, name)(spec))))
    if ctx.chance(0.5):
        # an effective medium built meanwhile on a shared spectrum
        lam = np.linspace(4e-7, 9e-7, 4)
        spec, _ = gen.request(ctx, lam)
        mats = [Material(fixed_n=1.5), Material(fixed_eps=-5 + 1j)]
        cls = ctx.choice(EFFECTIVE)
        spectra.append(spec)

        class Medium:
            """builds the medium anew for each query"""
            @staticmethod
            def build(arg):
                return cls(arg, mats[0], mats[1], 0.3).get_permittivity(arg)
        jobs.append((Medium, 'build', spec, answer_bytes(Medium.build(spec))))
    snaps = [fingerprint(s) for s in spectra]
    nthreads = ctx.randint(2, 4)
    prefix = package_prefix()
    order = [[ctx.randint(0, len(jobs) - 1) for _ in range(
        ctx.choice([8, 15]))] for _ in range(nthreads)]
    seeds = [ctx.randint(0, 2**31) for _ in range(nthreads)]
    errors, trace = [], []
    delays = [0]*nthreads
    barrier = threading.Barrier(nthreads)

    def tracer_for(tid, rnd):
        def local(frame, event, arg):
            if event == 'line' and rnd.random() < 0.06:
                delays[tid] += 1
                trace.append((tid, frame.f_lineno))
                time.sleep(rnd.choice([0, 0, 1e-5, 1e-4]))
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(prefix):
                return local
            return None
        return tracer

    def body(tid):
        rnd = random.Random(seeds[tid])
        barrier.wait()
        sys.settrace(tracer_for(tid, rnd))
        try:
            for num in order[tid]:
                owner, name, spec, want = jobs[num]
                target = owner if name == 'build' else owner.mat
                try:
                    with np.errstate(all='ignore'):
                        got = answer_bytes(getattr(target, name)(spec))
                except Exception as exc:
                    errors.append((tid, num, repr(exc)))
                    return
                if got != want:
                    errors.append((tid, num, 'different answer'))
                    return
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=body, args=(tid,))
                   for tid in range(nthreads)]
        for thr in threads:
            thr.start()
        for thr in threads:
            thr.join()
    finally:
        sys.setswitchinterval(old)
    ctx.count('injected delays', sum(delays))
    ctx.count('concurrent answers', sum(len(o) for o in order))
    ctx.describe(materials=[live.desc for live in lives], threads=nthreads)
    ctx.check(not errors, "a query answered differently when several threads "
              "query at the same time", errors=errors[:5],
              jobs=[(getattr(j[0], 'desc', 'medium'), j[1]) for j in jobs])
    for spec, before in zip(spectra, snaps):
        ctx.check(fingerprint(spec) == before, "a spectrum shared by threads "
                  "was changed", 'arguments compared')
    ctx.sig('threads', tuple(trace[:200]))


SCENARIOS = {
    'history': {'case': case_history, 'quick': 3000, 'thorough': 50000},
    'threads': {'case': case_threads, 'quick': 240, 'thorough': 5000},
}
