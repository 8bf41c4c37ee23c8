"""C10 a material is built from exactly one well-formed source"""
import itertools
import os
import numpy as np
from dispersion import Material
from .. import gen, ref

PROP = 'C10'
SOURCES = ('file_path', 'fixed_n', 'fixed_nk', 'fixed_eps_r', 'fixed_eps',
           'tabulated_n', 'tabulated_nk', 'tabulated_n_alpha',
           'tabulated_eps', 'model_kw')
SUBSETS = [c for r in range(len(SOURCES) + 1)
           for c in itertools.combinations(SOURCES, r)]
RULE = ("every one of the 1024 subsets of the ten sources is handed to the "
        "constructor (shuffled keyword order, absent sources left out or "
        "given as None), with randomly drawn well-formed values; single "
        "sources are also drawn with a wrong type, a wrong table shape or "
        "an unknown model; distinct by subset and by kind of deviation")
ASSUMPTIONS = ["a source whose type is right but whose content is not "
               "numeric belongs to other properties"]
REQUIRED = ['the same table twice', 'no source refused',
            'several sources refused',
            'single source accepted', 'wrong type refused',
            'wrong shape refused', 'unknown model refused',
            'defaults observed', 'values compared']


SMALL = [sub for sub in SUBSETS if len(sub) in (2, 3)]


def good_value(ctx, source):
    """a well formed value, the reference of its material"""
    rng = ctx.rng
    pair = ('wavelength', 'nm')
    if source == 'fixed_n':
        val = float(rng.uniform(0.1, 5)) if ctx.chance(0.8) else \
            ctx.choice([0.0, 1.0])
        if ctx.chance(0.4):
            val = np.float64(val)
        return val, ref.RefMaterial('nk', ref.RefConst(float(val)))
    if source == 'fixed_eps_r':
        val = float(rng.uniform(-5, 5)) if ctx.chance(0.8) else 0.0
        if ctx.chance(0.4):
            val = np.float64(val)
        return val, ref.RefMaterial('eps', ref.RefConst(float(val)))
    if source in ('fixed_nk', 'fixed_eps'):
        val = complex(rng.uniform(0.1, 5), ctx.choice([0.0, 0.5, 3.0]))
        if ctx.chance(0.1):
            val = 0j
        rmat = ref.RefMaterial('nk' if source == 'fixed_nk' else 'eps',
                               ref.RefConst(val.real), ref.RefConst(val.imag))
        return (np.complex128(val) if ctx.chance(0.4) else val), rmat
    if source == 'model_kw':
        name = ctx.choice(tuple(ref.MODELS_N) + tuple(ref.MODELS_EPS))
        par, vrange = gen.model_parameters(ctx, name)
        mpair = gen.model_pair(name)
        stype, unit = gen.spell(ctx, mpair)
        kw = {'name': name, 'spectrum_type': stype, 'unit': unit,
              'valid_range': np.array(vrange), 'parameters': np.array(par)}
        part = ref.RefModel(name, par, vrange)
        if name in ref.MODELS_N:
            return kw, ref.RefMaterial('nk', part)
        return kw, ref.RefMaterial('eps', cplx=part)
    num = ctx.choice([1, 2, 3, 8, 40])
    if source == 'file_path':
        xx = gen.table_x(ctx, pair, max(num, 2))
        yy = gen.column(ctx, 'n', len(xx))
        path = os.path.join(ctx.tmpdir(), 'good.csv')
        with open(path, 'w') as fpt:
            fpt.write("# SpectrumType: wavelength\n# Unit: nm\n")
            for row in zip(xx, yy):
                fpt.write("%r,%r\n" % (float(row[0]), float(row[1])))
        return path, ref.RefMaterial('nk', ref.RefTable(xx, yy, pair))
    xx = gen.table_x(ctx, pair, num)
    names = {'tabulated_n': ('n',), 'tabulated_nk': ('n', 'k'),
             'tabulated_n_alpha': ('n', 'alpha'),
             'tabulated_eps': ('epsr', 'epsi')}[source]
    cols = [gen.column(ctx, name, num) for name in names]
    table = gen.shuffled(ctx, np.column_stack([xx] + cols))
    if source == 'tabulated_n_alpha':
        cols[1] = cols[1]*ref.to_metre(pair, xx)*100.0/(4*ref.PI)
    rmat = ref.RefMaterial(
        'eps' if source == 'tabulated_eps' else 'nk',
        ref.RefTable(xx, cols[0], pair),
        ref.RefTable(xx, cols[1], pair) if len(cols) > 1 else None)
    return table, rmat


def build(ctx, given, extra=None):
    """call the constructor with the given sources, None for some others"""
    kw = dict(given)
    for source in SOURCES:
        if source not in kw and ctx.chance(0.3):
            kw[source] = None
    kw.update(extra or {})
    keys = list(kw)
    ctx.rng.shuffle(keys)
    return Material(**{k: kw[k] for k in keys})


def verify(ctx, mat, rmat, source):
    if rmat.range_m()[0] == rmat.range_m()[1]:
        lam = np.array([rmat.range_m()[0]])
        spec_vals, spec_pair = ref.from_metre(('wavelength', 'nm'), lam), \
            ('wavelength', 'nm')
        # a single tabulated value: ask in the table's own unit
        part = rmat.real
        spec_vals = np.array(part.xx)
    else:
        lam = gen.inside(ctx, rmat, 6)
        spec_pair = ('wavelength', 'm')
        spec_vals = lam
    ctx.close(mat.get_nk_data(spec_vals, *spec_pair), rmat.nk(lam),
              "material does not have the refractive index of its source",
              rtol=1e-7, atol=np.max(rmat.nk_tol(lam))*3,
              counter='values compared', source=source)
    ctx.close(mat.get_permittivity(spec_vals, *spec_pair), rmat.eps(lam),
              "material does not have the permittivity of its source",
              rtol=1e-7, atol=np.max(rmat.eps_tol(lam))*3,
              counter='values compared', source=source)
    ctx.check(mat.data['name'] == rmat.name, "material is of another kind "
              "than its source", source=source, got=mat.data['name'])


def case_subset(ctx):
    if ctx.idx < len(SUBSETS):
        subset = SUBSETS[ctx.idx]
    else:
        # two or three sources, again and again
        subset = SMALL[ctx.idx % len(SMALL)]
    given, rmat = {}, None
    for source in subset:
        given[source], rmat = good_value(ctx, source)
    tables = [src for src in subset if src in (
        'tabulated_nk', 'tabulated_n_alpha', 'tabulated_eps')]
    if len(tables) > 1 and ctx.chance(0.5):
        # one and the same table as two sources
        for src in tables[1:]:
            given[src] = given[tables[0]] if ctx.chance(0.5) else \
                given[tables[0]].copy()
        ctx.count('the same table twice')
    for one, two in (('fixed_n', 'fixed_eps_r'), ('fixed_nk', 'fixed_eps')):
        if one in given and two in given and ctx.chance(0.4):
            given[two] = given[one]
    ctx.describe(sources=subset)
    extra = {}
    if ctx.chance(0.3):
        extra = ctx.choice([{'spectrum_type': None}, {'unit': None},
                            {'spectrum_type': 'wavelength', 'unit': 'nm'},
                            {'spectrum_type': None, 'unit': None},
                            {'interp_order': None}])
    if len(subset) == 0:
        ctx.raises(ValueError, lambda: build(ctx, given, extra),
                   "no data source", 'no source refused')
    elif len(subset) > 1:
        ctx.raises(ValueError, lambda: build(ctx, given, extra),
                   "more than one data source", 'several sources refused',
                   sources=subset)
    else:
        mat = ctx.accepts(lambda: build(ctx, given, extra),
                          "a single well formed source", sources=subset)
        ctx.count('single source accepted')
        verify(ctx, mat, rmat, subset[0])
    ctx.sig(subset, tuple(sorted(extra)))


def case_single(ctx):
    source = ctx.choice(SOURCES)
    value, rmat = good_value(ctx, source)
    ctx.describe(source=source, value=value)
    if source.startswith('tabulated') and ctx.chance(0.6):
        # the stated quantity and unit apply to the table
        pair = gen.any_pair(ctx)
        stype, unit = gen.spell(ctx, pair)
        num = ctx.choice([2, 3, 9])
        xx = gen.table_x(ctx, pair, num)
        cols = [gen.column(ctx, 'n', num) for _ in
                range(value.shape[1] - 1)]
        table = np.column_stack([xx] + cols)
        if source == 'tabulated_n_alpha':
            cols[1] = cols[1]*ref.to_metre(pair, xx)*100.0/(4*ref.PI)
        rmat = ref.RefMaterial(
            rmat.name, ref.RefTable(xx, cols[0], pair),
            ref.RefTable(xx, cols[1], pair) if len(cols) > 1 else None)
        mat = ctx.accepts(lambda: build(ctx, {source: table}, {
            'spectrum_type': stype, 'unit': unit}), "a well formed table",
                          source=source, pair=pair)
        verify(ctx, mat, rmat, source)
        ctx.check(mat.defaults['spectrum_type'].lower() == pair[0],
                  "stated quantity is not the default quantity",
                  'defaults observed')
        ctx.sig(source, pair, num)
        return
    mat = ctx.accepts(lambda: build(ctx, {source: value}),
                      "a well formed source", source=source)
    ctx.count('single source accepted')
    verify(ctx, mat, rmat, source)
    if source not in ('model_kw',):
        ctx.check(mat.defaults['spectrum_type'].lower() == 'wavelength' and
                  mat.defaults['unit'].lower() in ('nm', 'nanometer',
                                                   'nanometre'),
                  "default quantity and unit are not wavelength and "
                  "nanometre", 'defaults observed', got=mat.defaults)
        if rmat.range_m()[0] < rmat.range_m()[1] < np.inf:
            ctx.close(mat.get_maximum_valid_range(),
                      ref.from_metre(('wavelength', 'nm'), rmat.range_m()),
                      "range is not given in nanometre", rtol=1e-9,
                      counter='defaults observed')
    ctx.sig(source, np.size(value))


def wrong_types(ctx, source):
    arr = np.array([[400.0, 1.5], [500.0, 1.4]])
    arr3 = np.array([[400.0, 1.5, 0.1], [500.0, 1.4, 0.2]])
    common = ['1.5', b'1.5', [1.5], (1.5, 2.0), {'n': 1.5}, object(),
              {1.5}, Material, lambda: 1.5]
    if source == 'file_path':
        return [3, 1.5, 2j, ['x.txt'], ('x.txt',), b'x.txt', arr, {}, True]
    if source in ('fixed_n', 'fixed_eps_r'):
        return common + [1.5 + 0j, np.complex128(1.5), arr, np.array([1.5]),
                         1, 0, True, False, np.int64(2)]
    if source in ('fixed_nk', 'fixed_eps'):
        return common + [1.5, np.float64(1.5), arr, np.array([1.5 + 1j]),
                         1, 0, True]
    if source == 'model_kw':
        return ['Sellmeier', [('name', 'Sellmeier')], 3, 1.5, arr,
                ('Sellmeier',), True]
    good = arr if source == 'tabulated_n' else arr3
    return [good.tolist(), tuple(map(tuple, good.tolist())), 1.5, 3, 'x.txt',
            {'a': good}, 1j, True]


def case_wrong_type(ctx):
    source = SOURCES[ctx.idx % len(SOURCES)]
    bad = ctx.choice(wrong_types(ctx, source))
    ctx.describe(source=source, bad=repr(bad)[:80])
    ctx.raises(TypeError, lambda: build(ctx, {source: bad}),
               "source of the wrong type", 'wrong type refused',
               source=source, bad=repr(bad)[:80])
    ctx.sig(source, type(bad).__name__)


def case_shape(ctx):
    source = ctx.choice(['tabulated_n', 'tabulated_nk', 'tabulated_n_alpha',
                         'tabulated_eps'])
    right = 2 if source == 'tabulated_n' else 3
    num = ctx.choice([1, 2, 3, 10])
    shape = ctx.choice([(num, 1), (num, 2), (num, 3), (num, 4), (num, 5),
                        (num,), (num, right, 1), (1, num, right), (right,),
                        (num, 7), (right, 20), ()])
    if len(shape) == 2 and shape[1] == right:
        shape = (num, right + ctx.choice([-1, 1, 2]))
    ctx.describe(source=source, shape=shape)
    table = np.sort(ctx.rng.uniform(300, 900, shape), axis=0) \
        if shape else np.array(500.0)
    ctx.raises(ValueError, lambda: build(ctx, {source: table}),
               "table with the wrong number of columns",
               'wrong shape refused', source=source, shape=shape)
    ctx.sig(source, shape)


def case_unknown_model(ctx):
    kw, _ = good_value(ctx, 'model_kw')
    good = kw['name']
    names = [good + 's', good.lower(), good.upper(), ' ' + good, good[:-1],
             'Lorentz', 'Debye', 'CriticalPoint', 'Brendel', 'Sellmeier3',
             '', 'sellmeier_2', good + '2', 'formula 1', '1']
    name = ctx.choice(names)
    if name in ref.MODELS_N or name in ref.MODELS_EPS:
        name = 'No' + name
    ctx.describe(model=name)
    ctx.raises(NameError, lambda: build(ctx, {'model_kw': dict(
        kw, name=name)}), "unknown model name", 'unknown model refused',
               name=name)
    ctx.sig(name)
    # names of other things the package knows
    other = ctx.choice(['Constant', 'Interpolation', 'Extrapolation', 'Model',
                        'SpectralData', 'Spectrum', 'np', 'Fano', 're',
                        '__name__', 'interp1d'])
    ctx.raises(Exception, lambda: build(ctx, {'model_kw': dict(
        kw, name=other)}), "not a model of optical data",
               'other classes refused', name=other)
    ctx.sig(other)


SCENARIOS = {
    'subset': {'case': case_subset, 'quick': 3072, 'thorough': 40960},
    'single': {'case': case_single, 'quick': 3000, 'thorough': 60000},
    'wrong_type': {'case': case_wrong_type, 'quick': 1000, 'thorough': 8000},
    'shape': {'case': case_shape, 'quick': 600, 'thorough': 8000},
    'unknown_model': {'case': case_unknown_model, 'quick': 400,
                      'thorough': 4000},
}
