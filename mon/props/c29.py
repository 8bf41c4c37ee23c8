"""C29 objects are independent of the arrays they came from and hand out"""
import os
import numpy as np
from dispersion import Spectrum, Material, Interpolation, Constant, Writer, \
    Reader
import dispersion.spectral_data as sdata
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
from .. import gen, ref

PROP = 'C29'
RULE = ("a case is an object (spectrum; tabulated, constant, model data; "
        "material of any source, read from a file, extrapolated, effective "
        "medium) together with the arrays, lists and dictionaries it was "
        "made from; these, the arguments of queries, and everything the "
        "object handed out (converted values, results, ranges, sample "
        "spectra, file dictionaries) are overwritten in a random history, "
        "and after every step all answers are compared bit by bit with "
        "those given before; distinct by (kind, history of overwrites)")
ASSUMPTIONS = ["attributes of the objects themselves (values, data, "
               "meta_data) are not overwritten"]
REQUIRED = ['inputs overwritten', 'results overwritten',
            'arguments overwritten', 'answers compared',
            'spectra compared', 'constituents changed', 'files changed',
            'writers used again', 'readers used again',
            'metadata of others changed', 'dictionaries overwritten',
            'sources left alone']

EFFECTIVE = (Simple, MaxwellGarnett, Bruggeman)


def bits(obj):
    if isinstance(obj, Spectrum):
        return ('Spectrum', bits(obj.values), obj.spectrum_type, obj.unit)
    if isinstance(obj, dict):
        return tuple((k, bits(v)) for k, v in sorted(
            obj.items(), key=lambda kv: str(kv[0])))
    if isinstance(obj, (list, tuple)):
        return tuple(bits(v) for v in obj)
    if isinstance(obj, (np.ndarray, np.generic, float, complex)):
        arr = np.asarray(obj)
        return (arr.shape, arr.dtype.str, arr.tobytes())
    return repr(obj)


def overwrite(ctx, obj):
    """destroys the contents of something the caller owns"""
    if isinstance(obj, np.ndarray):
        if obj.ndim == 0 or obj.size == 0 or not obj.flags.writeable:
            return False
        mode = ctx.randint(0, 3)
        if mode == 0:
            obj *= 2
        elif mode == 1:
            obj[...] = 0
        elif mode == 2:
            obj[...] = obj[::-1].copy()*3
        else:
            obj[ctx.randint(0, len(obj) - 1)] = 77
        return True
    if isinstance(obj, list):
        if ctx.chance(0.5):
            del obj[:]
        else:
            for i in range(len(obj)):
                obj[i] = 77.0
        return True
    if isinstance(obj, dict):
        for val in list(obj.values()):
            if isinstance(val, (dict, list, np.ndarray)):
                overwrite(ctx, val)
        for key in list(obj):
            if ctx.chance(0.5):
                obj[key] = 'overwritten'
            else:
                del obj[key]
        return True
    if isinstance(obj, Spectrum):
        return overwrite(ctx, obj.values)
    return False


def layout(ctx, arr):
    """the same numbers in another memory layout"""
    mode = ctx.randint(0, 3)
    if mode == 1:
        return np.asfortranarray(arr)
    if mode == 2:
        big = np.zeros((2*arr.shape[0],) + arr.shape[1:], dtype=arr.dtype)
        big[::2] = arr
        return big[::2]
    if mode == 3 and arr.ndim == 2:
        big = np.zeros((arr.shape[0], arr.shape[1] + 1), dtype=arr.dtype)
        big[:, :-1] = arr
        return big[:, :-1]
    return np.array(arr)


# --------------------------------------------------------------------------
def case_spectrum(ctx):
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    num = ctx.choice([1, 2, 5, 30])
    lam = 10**ctx.rng.uniform(-7.5, -5, num)
    vals = ref.from_metre(pair, lam)
    mode = ctx.randint(0, 3)
    if mode == 0:
        source = [float(v) for v in vals]
    elif mode == 1 and pair[1] in ('hz', '1/s', 'nm'):
        source = np.array(np.maximum(np.round(vals), 1), dtype=int)
        lam = ref.to_metre(pair, source.astype(float))
    else:
        source = layout(ctx, np.array(vals, dtype=float))
    spec = Spectrum(source, spectrum_type=stype, unit=unit)
    out = []
    ops = []
    for _ in range(ctx.randint(3, 12)):
        op = ctx.choice(['source', 'out', 'out', 'in_place', 'child',
                         'contains'])
        ops.append((op, pair[1]))
        ctx.event(op)
        if op == 'source':
            overwrite(ctx, source)
            if isinstance(source, list):
                source = []
            ctx.count('inputs overwritten')
        elif op == 'out':
            dst = gen.any_pair(ctx)
            if ctx.chance(0.4):
                dst = ('wavelength', 'm')
            res = spec.convert_to(*gen.spell(ctx, dst))
            if overwrite(ctx, res):
                ctx.count('results overwritten')
        elif op == 'in_place':
            pair = gen.any_pair(ctx)
            if ctx.chance(0.4):
                pair = ('wavelength', 'm')
            spec.convert_to(*gen.spell(ctx, pair), in_place=True)
        elif op == 'child':
            # another spectrum made from the values of this one
            child = Spectrum(spec.values, spec.spectrum_type, spec.unit)
            dst = gen.any_pair(ctx)
            child.convert_to(*dst, in_place=True)
            overwrite(ctx, child.values)
            ctx.count('results overwritten')
        else:
            low, high = np.min(lam)*0.9, np.max(lam)*1.1
            box, _ = gen.request(ctx, np.array([low, high]))
            ctx.accepts(lambda: box.contains(spec), "contained spectrum "
                        "refused after the caller's arrays were overwritten",
                        ops=ops)
        want = ref.from_metre(pair, lam)
        tol = ref.RTOL*np.abs(want) + 0.500001*ref.round_step(pair)
        got = np.asarray(spec.values)
        ctx.check(got.shape == want.shape and
                  np.all(np.abs(got - want) <= tol),
                  "the values of a spectrum follow changes of arrays it was "
                  "made from or handed out", 'spectra compared',
                  got=got, want=want, ops=ops)
        dst = gen.any_pair(ctx)
        want = ref.from_metre(dst, lam)
        tol = ref.RTOL*np.abs(want) + 0.500001*ref.round_step(dst)
        got = np.asarray(spec.convert_to(*dst))
        ctx.check(got.shape == want.shape and
                  np.all(np.abs(got - want) <= tol),
                  "conversions of a spectrum follow changes of arrays it "
                  "was made from or handed out", 'spectra compared',
                  got=got, want=want, ops=ops)
    ctx.describe(source=type(source).__name__, pair=pair, ops=ops)
    ctx.sig(tuple(ops))


# --------------------------------------------------------------------------
class Subject:
    """a material or data object, what it was made from, how to ask it"""

    def __init__(self, obj, sources, window, desc, is_material=True,
                 before=None):
        self.obj = obj
        self.before = before      # bits of the sources before creation
        self.sources = sources
        self.window = window
        self.desc = desc
        self.is_material = is_material


def make_table(ctx):
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    num = gen.table_size(ctx, True)
    if ctx.chance(0.1):
        num = 1
    key = ctx.choice(['tabulated_n', 'tabulated_nk', 'tabulated_eps',
                      'tabulated_n_alpha'])
    xx = gen.table_x(ctx, pair, num)
    names = {'tabulated_n': ('n',), 'tabulated_nk': ('n', 'k'),
             'tabulated_eps': ('epsr', 'epsi'),
             'tabulated_n_alpha': ('n', 'alpha')}[key]
    table = np.column_stack([xx] + [gen.column(ctx, n, num) for n in names])
    table = layout(ctx, gen.shuffled(ctx, table))
    before = bits([table])
    mat = Material(**{key: table, 'spectrum_type': stype, 'unit': unit})
    lam = ref.to_metre(pair, xx)
    return Subject(mat, [table], (np.min(lam), np.max(lam)),
                   (key, num, pair), before=before)


def make_model(ctx, direct):
    name = ctx.choice(gen.MODEL_NAMES)
    par, vrange = gen.model_parameters(ctx, name)
    pair = gen.model_pair(name)
    stype, unit = gen.spell(ctx, pair)
    par_in = np.array(par) if ctx.chance(0.6) else list(par)
    rng_in = gen.range_container(ctx, vrange)
    lam = ref.to_metre(pair, np.array(vrange))
    win = (np.min(lam), np.max(lam))
    if direct:
        before = bits([par_in, rng_in])
        obj = getattr(sdata, name)(par_in, rng_in, spectrum_type=stype,
                                   unit=unit)
        return Subject(obj, [par_in, rng_in], win, (name, 'direct'), False,
                       before)
    kw = {'name': name, 'spectrum_type': stype, 'unit': unit,
          'valid_range': rng_in, 'parameters': np.array(par)}
    sources = [kw['parameters'], rng_in, kw]
    before = bits(sources)
    mat = Material(model_kw=kw)
    return Subject(mat, sources, win, (name,), before=before)


def make_data(ctx):
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    win = gen.lam_window(ctx)
    if ctx.chance(0.3):
        rng = gen.range_container(ctx, tuple(np.sort(
            ref.from_metre(pair, np.array(win)))))
        before = bits([rng])
        obj = Constant(float(ctx.rng.uniform(1, 3)), valid_range=rng,
                       spectrum_type=stype, unit=unit)
        return Subject(obj, [rng], win, ('Constant', pair), False, before)
    num = gen.table_size(ctx, True)
    xx = gen.table_x(ctx, pair, num, win)
    table = layout(ctx, gen.shuffled(ctx, np.column_stack(
        [xx, gen.column(ctx, 'any', num)])))
    kw = {}
    if num > 4 and ctx.chance(0.3):
        kw['interp_order'] = ctx.choice([1, 2, 3])
    before = bits([table])
    obj = Interpolation(table, spectrum_type=stype, unit=unit, **kw)
    lam = ref.to_metre(pair, xx)
    return Subject(obj, [table], (np.min(lam), np.max(lam)),
                   ('Interpolation', num, pair), False, before)


def make_extrapolated(ctx):
    while True:
        sub = make_table(ctx)
        if sub.desc[1] >= 6 and sub.desc[0] != 'tabulated_n_alpha':
            break
    low, high = sub.window
    target, _ = gen.request(ctx, np.array([low*0.85, high*1.15]))
    sub.before = bits(sub.sources + [target])
    sub.obj.extrapolate(target, spline_order=ctx.choice([1, 2, 3]))
    sub.sources.append(target)
    sub.window = (low*0.86, high*1.14)
    sub.desc = ('extrapolated',) + sub.desc
    return sub


def make_medium(ctx):
    while True:
        mat1, ref1, _ = gen.make_material(ctx, small=True)
        mat2, ref2, _ = gen.make_material(ctx, small=True)
        low = max(ref1.range_m()[0], ref2.range_m()[0], 1e-7)
        high = min(ref1.range_m()[1], ref2.range_m()[1], 1e-5)
        if low*1.01 < high:
            break
    low, high = low*(1 + 1e-4), high*(1 - 1e-4)
    lam = np.geomspace(low, high, ctx.randint(2, 12))
    spec, pair = gen.request(ctx, lam)
    cls = ctx.choice(EFFECTIVE)
    before = bits([spec])
    parts = [bits([m.meta_data, m.get_nk_data(spec),
                   m.get_maximum_valid_range()]) for m in (mat1, mat2)]
    try:
        med = cls(spec, mat1, mat2, float(ctx.rng.uniform(0.05, 0.95)))
    except ValueError as exc:
        if 'singular' in str(exc):
            return make_medium(ctx)
        raise
    sub = Subject(med, [spec], (low, high), (cls.__name__, pair),
                  before=before)
    ctx.check(parts == [bits([m.meta_data, m.get_nk_data(spec),
                              m.get_maximum_valid_range()])
                        for m in (mat1, mat2)], "mixing changed a material",
              'sources left alone', desc=sub.desc)
    sub.constituents = [mat1, mat2]
    return sub


def make_file(ctx):
    sub = make_table(ctx)
    while sub.desc[0] == 'tabulated_n_alpha':
        sub = make_table(ctx)
    ext = ctx.choice(['.yml', '.txt', '.csv'])
    if ext != '.yml' and sub.desc[0] == 'tabulated_eps':
        ext = '.yml'
    sub.path = ctx.tmpdir() + '/data' + ext
    sub.obj.meta_data['Comment'] = 'as written'
    Writer(sub.path, sub.obj).write_file()
    sub.obj = Material(file_path=sub.path)
    sub.sources = []
    sub.before = None
    sub.desc = ('file', ext) + sub.desc
    return sub


def questions(ctx, sub):
    """[(name, function, argument)], arguments are made anew each time"""
    low, high = sub.window
    out = []
    for _ in range(3):
        num = ctx.choice([1, 2, 9])
        if low*(1 + 1e-4) < high:
            lam = np.exp(ctx.rng.uniform(np.log(low*(1 + 1e-5)),
                                         np.log(high*(1 - 1e-5)), num))
        else:
            lam = np.full(num, low)
        pair = gen.any_pair(ctx)
        if low == high and sub.desc[-1] in ref.PAIRS:
            pair = sub.desc[-1]
        vals = ref.from_metre(pair, lam)
        out.append((pair, vals))
    return out


def ask(sub, question, how):
    """(answer, arguments used)"""
    pair, vals = question
    vals = np.array(vals)
    if not sub.is_material:
        spec = Spectrum(vals, *pair)
        return sub.obj.evaluate(spec), [spec, vals]
    func = sub.obj.get_nk_data if how else sub.obj.get_permittivity
    if how == 2:
        return func(vals, spectrum_type=pair[0], unit=pair[1]), [vals]
    spec = Spectrum(vals, *pair)
    return func(spec), [spec, vals]


def all_answers(sub, quests):
    """every observable answer of the object as bits"""
    out = []
    for num, quest in enumerate(quests):
        for how in (0, 1, 2):
            try:
                out.append(bits(ask(sub, quest, how)[0]))
            except ValueError:
                if sub.window[0] != sub.window[1]:
                    raise
                out.append('refused')
    if sub.is_material:
        out.append(bits(sub.obj.get_maximum_valid_range()))
        out.append(bits(sub.obj.meta_data))
        out.append(bits(sub.obj.defaults))
        if sub.window[0] < sub.window[1]:
            out.append(bits(sub.obj.get_sample_spectrum()))
        if sub.desc[0] != 'extrapolated':
            out.append(bits(sub.obj.prepare_file_dict()))
    else:
        out.append(bits(sub.obj.valid_range))
        out.append(bits(sub.obj.suggest_spectrum()))
        out.append(bits(sub.obj.dict_repr()))
    return out


MAKERS = {'table': make_table, 'model': lambda c: make_model(c, False),
          'direct model': lambda c: make_model(c, True), 'data': make_data,
          'extrapolated': make_extrapolated, 'medium': make_medium,
          'file': make_file}
NAMES = ('table', 'table', 'model', 'direct model', 'data', 'extrapolated',
         'medium', 'file')


def case_object(ctx):
    kind = ctx.choice(NAMES)
    sub = MAKERS[kind](ctx)
    other, _, _ = gen.make_material(ctx, small=True)
    if sub.before is not None:
        ctx.check(bits(sub.sources) == sub.before, "creating an object "
                  "changed what it was created from", 'sources left alone',
                  kind=kind, desc=sub.desc)
    quests = questions(ctx, sub)
    first = all_answers(sub, quests)
    held = [ask(sub, quests[0], 0)[0]]
    if sub.is_material:
        held += [sub.obj.get_maximum_valid_range() for _ in range(2)]
    if sub.window[0] < sub.window[1]:
        held += [sub.obj.get_sample_spectrum() if sub.is_material else
                 sub.obj.suggest_spectrum() for _ in range(2)]
    held_bits = bits(held)
    steps = ['source', 'argument', 'result', 'range', 'sample', 'dict',
             'other']
    if kind == 'medium':
        steps += ['constituent']*3
    if kind == 'file':
        steps += ['file']*3
    ops = []
    for _ in range(ctx.randint(2, 10)):
        op = ctx.choice(steps)
        ops.append(op)
        ctx.event(op)
        if op == 'source':
            if not sub.sources:
                continue
            src = ctx.choice(sub.sources)
            if overwrite(ctx, src):
                ctx.count('inputs overwritten')
        elif op == 'argument':
            try:
                _, args = ask(sub, ctx.choice(quests), ctx.randint(0, 2))
            except ValueError:
                continue
            for arg in args:
                overwrite(ctx, arg)
            ctx.count('arguments overwritten')
        elif op == 'result':
            try:
                res, _ = ask(sub, ctx.choice(quests), ctx.randint(0, 2))
            except ValueError:
                continue
            if overwrite(ctx, res):
                ctx.count('results overwritten')
        elif op == 'range':
            if sub.is_material:
                overwrite(ctx, sub.obj.get_maximum_valid_range())
                ctx.count('results overwritten')
        elif op == 'sample':
            if sub.window[0] < sub.window[1]:
                smp = sub.obj.get_sample_spectrum() if sub.is_material else \
                    sub.obj.suggest_spectrum()
                overwrite(ctx, smp.values)
                if isinstance(smp.standard_rep, np.ndarray):
                    overwrite(ctx, smp.standard_rep)
                ctx.count('results overwritten')
        elif op == 'dict':
            if sub.desc[0] == 'extrapolated':
                continue
            res = sub.obj.prepare_file_dict() if sub.is_material else \
                sub.obj.dict_repr()
            overwrite(ctx, res)
            ctx.count('dictionaries overwritten')
        elif op == 'other':
            # another material, also one of the same source
            other.meta_data['Comment'] = 'changed %d' % ctx.randint(0, 99)
            other.meta_data['Specification']['n'] = ctx.randint(0, 99)
            other.defaults['unit'] = 'um'
            other.options['interp_order'] = 3
            fresh = Material(fixed_n=1.5)
            ctx.check(fresh.meta_data['Comment'] == '' and
                      not fresh.meta_data['Specification'],
                      "metadata of one material appear in another",
                      'metadata of others changed', meta=fresh.meta_data)
        elif op == 'constituent':
            mat = ctx.choice(sub.constituents)
            if ctx.chance(0.5):
                mat.remove_absorption()
            else:
                mat.data['real'] = Constant(9.0)
            ctx.count('constituents changed')
        elif op == 'file':
            if os.path.exists(sub.path):
                if ctx.chance(0.5):
                    os.remove(sub.path)
                else:
                    with open(sub.path, 'w') as fpt:
                        fpt.write('nothing here')
            ctx.count('files changed')
        again = all_answers(sub, quests)
        ctx.check(again == first, "an object changed with arrays, "
                  "dictionaries or files that belong to its caller",
                  'answers compared', kind=kind, desc=sub.desc, step=op,
                  differs=[i for i, (a, b) in enumerate(zip(first, again))
                           if a != b])
        ctx.check(bits(held) == held_bits, "a result that was handed out "
                  "changed later", kind=kind, desc=sub.desc, step=op)
    ctx.describe(kind=kind, desc=sub.desc, ops=ops)
    ctx.sig(kind, sub.desc[0], tuple(ops))


def file_bytes(path):
    with open(path, 'rb') as fpt:
        return fpt.read()


def described(ctx, exts):
    """a material that can be written, with some metadata"""
    ext = ctx.choice(exts)
    mat = gen.make_material(ctx, ctx.choice(
        ['tab_n', 'tab_nk', 'tab_eps'] + (
            ['model_n', 'mixed_tables'] if ext == '.yml' else [])),
        small=True)[0]
    for field in ('Reference', 'Author', 'Name', 'FullName', 'Comment',
                  'MetaComment'):
        if ctx.chance(0.5):
            mat.meta_data[field] = field + ' %d' % ctx.randint(0, 99)
    if ctx.chance(0.3):
        mat.meta_data['Specification'] = {'temperature': '300 K'}
    return mat, ext


def case_reuse(ctx):
    """readers and writers used again"""
    mat, ext = described(ctx, ['.yml', '.txt', '.csv', '.nk'])
    path = os.path.join(ctx.tmpdir(), 'file' + ext)
    ctx.describe(ext=ext)
    writer = Writer(path, mat)
    ctx.accepts(writer.write_file, "writing", ext=ext)
    first = file_bytes(path)
    ops = []
    for _ in range(ctx.randint(1, 3)):
        oper = ctx.choice(['again', 'removed', 'other'])
        ops.append(oper)
        if oper == 'removed':
            os.remove(path)
        elif oper == 'other':
            Writer(os.path.join(ctx.tmpdir(), 'other' + ext),
                   mat).write_file()
        ctx.accepts(writer.write_file, "writing again", ext=ext, ops=ops)
        ctx.check(file_bytes(path) == first, "writing again gives another "
                  "file", 'writers used again', ext=ext, ops=ops)
    reader = Reader(path)
    one = reader.read_file()
    want = bits(one)
    for _ in range(ctx.randint(1, 3)):
        oper = ctx.choice(['again', 'changed file', 'changed result'])
        ops.append(oper)
        if oper == 'changed file':
            other, _ = described(ctx, [ext])
            Writer(path, other).write_file()
        elif oper == 'changed result':
            overwrite(ctx, one)
            want = bits(one)
        two = ctx.accepts(reader.read_file, "reading again", ext=ext)
        ctx.check(bits(two) == bits(Reader(path).read_file()), "reading "
                  "again gives something else than a new reader",
                  'readers used again', ext=ext, ops=ops)
        ctx.check(bits(one) == want, "reading again changed an earlier "
                  "result", 'readers used again', ext=ext, ops=ops)
        one, want = two, bits(two)
    ctx.sig('reuse', ext, tuple(ops))


SCENARIOS = {
    'reuse': {'case': case_reuse, 'quick': 1000, 'thorough': 16000},
    'spectrum': {'case': case_spectrum, 'quick': 3000, 'thorough': 60000},
    'object': {'case': case_object, 'quick': 3000, 'thorough': 60000},
}
