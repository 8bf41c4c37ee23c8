"""C07 batch evaluation equals point-by-point evaluation"""
import numpy as np
from dispersion import Spectrum, Material, Constant, Extrapolation
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
from .. import gen, ref

PROP = 'C07'
RULE = ("a case evaluates one target (data class, material, extrapolated "
        "material, effective medium) on a batch (sorted, reversed, shuffled, "
        "with repetitions, up to thousands of values) and compares every "
        "sampled element with scalar and one-element evaluation, other "
        "orders, sub-batches and other containers; distinct by (target kind, "
        "unit, batch size, arrangement)")
ASSUMPTIONS = ["elements agree within 1e-9 relative to the largest value "
               "(floating-point accuracy)"]
REQUIRED = ['elements compared', 'containers compared', 'extrapolated',
            'effective media', 'grids compared']

EFFECTIVE = {'Simple': Simple, 'MaxwellGarnett': MaxwellGarnett,
             'Bruggeman': Bruggeman}


def make_target(ctx):
    """(name, function of a Spectrum, raw function or None, window)"""
    kind = ctx.choice(['const', 'table', 'model', 'material', 'material',
                       'material', 'extrap_data', 'extrap_material',
                       'effective'])
    if kind == 'const':
        value = float(ctx.rng.uniform(-3, 3))
        if ctx.chance(0.3):
            value = complex(value, ctx.rng.uniform(0.1, 3))
        obj = Constant(value)
        return kind, [obj.evaluate], [], (1e-7, 1e-5), {}
    if kind == 'table':
        window = gen.lam_window(ctx)
        tab, part, pair = gen.make_table_part(ctx, 'n', window, False)
        low, high = part.range_m()
        return kind, [tab.evaluate], [], (low, high), {'pair': pair}
    if kind == 'model':
        obj, _, desc = gen.make_model(ctx)
        pair = gen.model_pair(desc['model'])
        low, high = np.sort(ref.to_metre(pair, np.array(desc['range'])))
        return 'model ' + desc['model'], [obj.evaluate], [], (low, high), desc
    if kind == 'material':
        mat, rmat, desc = gen.make_material(
            ctx, models=None, small=ctx.chance(0.7))
        low, high = gen.finite_window(rmat)
        return (desc['kind'], [mat.get_nk_data, mat.get_permittivity],
                [mat.get_nk_data, mat.get_permittivity], (low, high), desc)
    if kind in ('extrap_data', 'extrap_material'):
        mkind = ctx.choice(['tab_n', 'tab_nk', 'model_n', 'tab_eps'])
        pair = ctx.choice([('wavelength', 'nm'), ('wavelength', 'um'),
                           ('energy', 'ev'), ('frequency', 'hz')])
        mat, rmat, desc = gen.make_material(ctx, mkind, small=True, pair=pair)
        low, high = rmat.range_m()
        new = np.array([low*ctx.rng.uniform(0.7, 0.95),
                        high*ctx.rng.uniform(1.05, 1.4)])
        spec, _ = gen.request(ctx, new, ctx.choice(
            [pair, ('wavelength', 'nm')]))
        order = ctx.choice([1, 2, 3])
        ctx.count('extrapolated')
        if kind == 'extrap_data':
            obj = Extrapolation(mat.data['real'], spec, spline_order=order)
            return kind, [obj.evaluate], [], tuple(new), desc
        mat.extrapolate(spec, spline_order=order)
        return (kind, [mat.get_nk_data, mat.get_permittivity],
                [mat.get_nk_data, mat.get_permittivity], tuple(new), desc)
    name = ctx.choice(sorted(EFFECTIVE))
    mats = []
    for _ in range(2):
        mkind = ctx.choice(['fixed_n', 'fixed_nk', 'fixed_eps'])
        mats.append(gen.make_material(ctx, mkind)[0])
    low, high = gen.lam_window(ctx)
    lam = np.linspace(low, high, ctx.choice([2, 5, 40]))
    spec, _ = gen.request(ctx, lam)
    ctx.count('effective media')
    med = EFFECTIVE[name](spec, mats[0], mats[1], float(ctx.rng.random()))
    return ('effective ' + name, [med.get_nk_data, med.get_permittivity], [],
            (low, high), {'medium': name})


SIZES = (1, 2, 3, 5, 8, 16, 17, 31, 64, 100, 128, 255, 256, 257, 999, 1000,
         1001, 2500, 5000)


def case_batch(ctx):
    kind, funcs, raw, (low, high), desc = make_target(ctx)
    func = ctx.choice(funcs)
    size = ctx.choice(SIZES if ctx.chance(0.3) else SIZES[:9])
    if ctx.chance(0.3):
        size = ctx.randint(2, ctx.choice([40, 400]))
    low2, high2 = low*(1 + 1e-5), high*(1 - 1e-5)
    if low2 >= high2:
        low2 = high2 = np.sqrt(low*high)
    lam = np.exp(ctx.rng.uniform(np.log(low2), np.log(high2), size))
    arrangement = ctx.choice(['random', 'sorted', 'reversed', 'repeats',
                              'constant', 'alternating', 'with ends'])
    if arrangement == 'sorted':
        lam = np.sort(lam)
    elif arrangement == 'reversed':
        lam = np.sort(lam)[::-1].copy()
    elif arrangement == 'repeats':
        lam = lam[ctx.rng.integers(0, max(1, size//2), size)]
    elif arrangement == 'constant':
        lam = np.full(size, lam[0])
    elif arrangement == 'alternating':
        lam[::2], lam[1::2] = low2, high2
    elif arrangement == 'with ends':
        lam[0], lam[-1] = low2, high2
    pair = gen.any_pair(ctx)
    vals = ref.from_metre(pair, lam)
    stype, unit = gen.spell(ctx, pair)
    ctx.describe(kind=kind, desc=desc, pair=pair, size=size,
                 arrangement=arrangement)
    batch = func(Spectrum(vals.copy(), stype, unit))
    ctx.check(isinstance(batch, np.ndarray) and batch.shape == (size,),
              "batch of n values does not give n values",
              shape=np.shape(batch), size=size, kind=kind)
    finite = np.abs(batch[np.isfinite(batch)])
    atol = 1e-10*float(np.max(finite)) if finite.size else 0.0
    ctx.check(np.all(np.isfinite(batch)), "batch is not finite", kind=kind,
              desc=desc)
    picks = ctx.rng.permutation(size)[:12]
    if size > 2:
        picks = np.unique(np.concatenate([picks, [0, size-1]]))
    for i in picks:
        single = func(Spectrum(float(vals[i]), stype, unit))
        ctx.check(np.size(single) == 1, "scalar query gives several values",
                  kind=kind, shape=np.shape(single))
        ctx.close(np.ravel(single)[0], batch[i], "element {} of the batch "
                  "differs from its scalar evaluation".format(
                      'x' if size > 3 else i),
                  rtol=1e-9, atol=atol, counter='elements compared',
                  kind=kind, func=func.__name__, pair=pair, size=size,
                  position=int(i), desc=desc)
    i = int(ctx.rng.integers(size))
    one = func(Spectrum(np.array([vals[i]]), stype, unit))
    ctx.check(np.shape(one) == (1,), "one-element array changes its shape",
              shape=np.shape(one), kind=kind)
    ctx.close(one[0], batch[i], "element differs from one-element array",
              rtol=1e-9, atol=atol, counter='elements compared', kind=kind)
    perm = ctx.rng.permutation(size)
    other = func(Spectrum(vals[perm], stype, unit))
    ctx.close(other, batch[perm], "order of the batch matters", rtol=1e-9,
              atol=atol, counter='elements compared', kind=kind, size=size)
    if size > 1:
        cut = int(ctx.rng.integers(1, size))
        part = func(Spectrum(vals[:cut], stype, unit))
        ctx.close(part, batch[:cut], "sub-batch differs", rtol=1e-9,
                  atol=atol, counter='elements compared', kind=kind)
    double = func(Spectrum(np.concatenate([vals, vals]), stype, unit))
    ctx.close(double, np.concatenate([batch, batch]), "repetition matters",
              rtol=1e-9, atol=atol, counter='elements compared', kind=kind)
    shapes = [(size, 1), (1, size)]
    shapes += [(size//k, k) for k in (2, 3, 4, 5) if size % k == 0]
    shape = ctx.choice(shapes)
    grid = func(Spectrum(vals.reshape(shape), stype, unit))
    ctx.check(np.shape(grid) == shape, "a grid of values changes its shape",
              shape=shape, got=np.shape(grid), kind=kind)
    ctx.close(np.ravel(grid), batch, "grid of values differs from the batch",
              rtol=1e-9, atol=atol, counter='grids compared', kind=kind,
              shape=shape)
    zero = func(Spectrum(np.array(vals[i]), stype, unit))
    ctx.check(np.size(zero) == 1, "0-d array gives several values",
              kind=kind, shape=np.shape(zero))
    ctx.close(np.ravel(zero)[0], batch[i], "0-d array differs from the batch",
              rtol=1e-9, atol=atol, counter='grids compared', kind=kind)
    for cont in ([float(v) for v in vals], tuple(float(v) for v in vals)):
        ctx.close(func(Spectrum(cont, stype, unit)), batch,
                  "container of the Spectrum matters", rtol=1e-12,
                  counter='containers compared', kind=kind)
        if func in raw:
            ctx.close(func(cont, stype, unit), batch,
                      "list or tuple differs from Spectrum", rtol=1e-12,
                      counter='containers compared', kind=kind)
    if func in raw:
        ctx.close(func(vals.copy(), spectrum_type=stype, unit=unit), batch,
                  "array differs from Spectrum", rtol=1e-12,
                  counter='containers compared', kind=kind)
        single = func(float(vals[0]), spectrum_type=stype, unit=unit)
        ctx.close(np.ravel(single)[0], batch[0], "float differs from "
                  "Spectrum", rtol=1e-9, atol=atol,
                  counter='containers compared', kind=kind)
        if pair == ('wavelength', 'm'):
            ctx.close(func(vals.copy()), batch, "default unit is not metre",
                      rtol=1e-12, counter='containers compared')
    ctx.sig(kind, pair, size, arrangement, func.__name__)


SCENARIOS = {
    'batch': {'case': case_batch, 'quick': 6000, 'thorough': 100000},
}
