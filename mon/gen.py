"""workload generators: spectra, tables, models, materials with references"""
import numpy as np

import dispersion
from dispersion import Spectrum, Material, Constant, Interpolation
from dispersion.material import Simple
import dispersion.spectral_data as sdata

from . import ref
from .ref import PAIRS, UNITS

MODEL_NAMES = tuple(ref.MODELS_N) + tuple(ref.MODELS_EPS) + ('TaucLorentz',)


def mixed_case(ctx, text):
    mode = ctx.randint(0, 4)
    if mode <= 1:
        return text
    if mode == 2:
        return text.upper()
    if mode == 3:
        return text.capitalize()
    return "".join(c.upper() if ctx.chance(0.5) else c for c in text)


def spell(ctx, pair, case=True):
    """(quantity, unit) strings naming the canonical pair"""
    stype, unit = pair[0], ctx.choice(UNITS[pair])
    if case:
        return mixed_case(ctx, stype), mixed_case(ctx, unit)
    return stype, unit


def any_pair(ctx):
    return PAIRS[ctx.randint(0, len(PAIRS) - 1)]


def same(one, two):
    """equal values, apart from the last digits of floating point numbers"""
    one, two = np.asarray(one), np.asarray(two)
    if one.shape != two.shape:
        return False
    if one.size == 0 or np.array_equal(one, two):
        return True
    with np.errstate(all='ignore'):
        return bool(np.allclose(one, two, rtol=1e-11, equal_nan=True,
                                atol=1e-14*np.nanmax(np.abs(two))))


def lam_window(ctx, decades=None, low=50e-9, high=50e-6):
    """a physical wavelength window (metre)"""
    if (low, high) == (50e-9, 50e-6) and ctx.chance(0.12):
        # x-rays, terahertz waves
        low, high = ctx.choice([(4e-9, 200e-9), (20e-6, 6e-4)])
    if decades is None:
        decades = ctx.rng.uniform(0.05, 1.5)
    decades = min(decades, 0.99*np.log10(high/low))
    logl = ctx.rng.uniform(np.log10(low), np.log10(high) - decades)
    return 10**logl, 10**(logl + decades)


def distinct_in(ctx, low, high, num):
    """num distinct values, well separated relative to the window"""
    if num == 1:
        return np.array([ctx.rng.uniform(low, high)])
    mode = ctx.randint(0, 2)
    if mode == 0:
        vals = np.linspace(low, high, num)
    elif mode == 1:
        vals = np.geomspace(low, high, num)
    else:
        gaps = ctx.rng.uniform(0.05, 1.0, num - 1)
        cum = np.concatenate([[0.0], np.cumsum(gaps)])
        vals = low + (high - low)*cum/cum[-1]
    return vals


def table_x(ctx, pair, num, window=None, tidy=True):
    """num distinct abscissae in the unit of pair, ascending"""
    if window is None:
        window = lam_window(ctx)
    ends = np.sort(ref.from_metre(pair, np.array(window)))
    vals = distinct_in(ctx, ends[0], ends[1], num)
    if tidy and ctx.chance(0.5):
        # numbers as people write them
        digits = ctx.randint(5, 8)
        tidy_vals = np.array([float('%.*g' % (digits, v)) for v in vals])
        if len(np.unique(tidy_vals)) == num:
            vals = tidy_vals
    if np.any(np.diff(vals) <= 1e-7*np.abs(vals[:-1])):
        vals = np.linspace(ends[0], ends[1], num)
    return vals


def column(ctx, kind, num):
    """ordinates: kind in n, k, epsr, epsi, alpha, any"""
    rng = ctx.rng
    mode = ctx.randint(0, 5)
    if kind == 'n':
        col = rng.uniform(0.05, 5.0, num)
        if mode == 0:
            col = np.round(col, 2)
        elif mode == 1:
            col = np.full(num, float(col[0]))
    elif kind in ('k', 'epsi'):
        col = 10**rng.uniform(-9, 1.3, num)
        if mode == 0:
            col = np.zeros(num)
        elif mode == 1:
            col[rng.random(num) < 0.5] = 0.0
        elif mode == 2:
            col = np.round(col, 3)
    elif kind == 'epsr':
        col = rng.uniform(-60.0, 20.0, num)
        if mode == 0:
            col = np.round(col, 1)
    elif kind == 'alpha':
        col = 10**rng.uniform(-3, 7, num)
        if mode == 0:
            col[rng.random(num) < 0.3] = 0.0
    else:
        col = rng.normal(0, 1, num)*10**rng.uniform(-6, 6, num)
    if kind in ('k', 'alpha') and ctx.chance(0.06) and \
            not getattr(ctx, 'passive_only', False):
        col = -col      # gain
    return col


def table_size(ctx, small=False):
    mode = ctx.randint(0, 9)
    if mode == 0:
        return 2
    if mode == 1:
        return 3
    if mode <= 6 or small:
        return ctx.randint(2, 25)
    if mode <= 8:
        return ctx.randint(26, 400)
    if ctx.chance(0.1):
        return ctx.choice([5000, 10001, 20000])
    return ctx.choice([99, 100, 101, 255, 256, 257, 500, 501, 999, 1000, 1001,
                       1024, 2000, 3333])


def shuffled(ctx, table):
    """rows in ascending, descending or random order"""
    mode = ctx.randint(0, 3)
    if mode <= 1:
        return table
    if mode == 2:
        return table[::-1].copy()
    return table[ctx.rng.permutation(len(table))]


def rounded(ctx, xx, cols, prob=0.05):
    """sometimes the columns in single precision, if still distinct"""
    if not ctx.chance(prob):
        return xx, cols, float
    single = np.asarray(xx, dtype=np.float32).astype(float)
    if np.any(np.abs(np.diff(single)) <= 1e-6*np.abs(single[:-1])):
        return xx, cols, float
    ctx.count('tables in single precision')
    return single, [np.asarray(c, np.float32).astype(float) for c in cols], \
        np.float32


def stored(ctx, table, dtype=float):
    """the same numbers in some kind of array"""
    if dtype is not float:
        return table.astype(ctx.choice(['<f4', '>f4']))
    mode = ctx.randint(0, 19)
    if mode == 0:
        return table.astype('>f8')
    if mode == 1:
        return np.asfortranarray(table)
    out = table.copy()
    if mode == 2:
        out.flags.writeable = False
    if mode == 3:
        wide = np.full((2*len(table), table.shape[1] + 1), np.nan)
        wide[::2, :-1] = table
        return wide[::2, :-1]
    return out


# --------------------------------------------------------------------------
# models
# --------------------------------------------------------------------------
def model_range_um(ctx):
    low = ctx.rng.uniform(0.2, 2.0)
    return low, low*ctx.rng.uniform(1.1, 8.0)


def _poles(ctx, low, high, num):
    """pole wavelengths outside of the window"""
    below = ctx.rng.uniform(0.02*low, 0.85*low, num)
    above = ctx.rng.uniform(1.25*high, 10*high, num)
    return np.where(ctx.rng.random(num) < 0.7, below, above)


def model_parameters(ctx, name):
    """parameters and range for which the formula is defined"""
    for _ in range(2000):
        par, rng = _model_parameters(ctx, name)
        if name in ref.MODELS_N:
            grid = np.linspace(rng[0], rng[1], 200)
            with np.errstate(all='ignore'):
                val = ref.MODELS_N[name](par, grid)
            if not np.all(np.isfinite(val)) or np.max(np.abs(val)) > 1e4:
                continue
            if name not in ('Cauchy', 'Gases', 'Herzberger') and \
                    np.min(val) < 0.05:
                continue
        return [float(p) for p in par], rng
    raise RuntimeError("no parameters found for " + name)


def _model_parameters(ctx, name):
    uni = ctx.rng.uniform
    low, high = model_range_um(ctx)
    if name in ('Sellmeier', 'Sellmeier2'):
        num = ctx.choice([1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 12, 20])
        poles = _poles(ctx, low, high, num)
        strength = uni(0.01, 2.0, num)
        strength = np.where(poles > high, strength*uni(0.0, 0.6, num),
                            strength)
        par = [ctx.choice([0.0, uni(0, 1), uni(-0.3, 0.3)])]
        for bb, cc in zip(strength, poles):
            par += [bb, cc if name == 'Sellmeier' else cc**2]
        if ctx.chance(0.1):
            par[2] = 0.0
        return par, (low, high)
    if name in ('Polynomial', 'Cauchy'):
        num = ctx.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20])
        par = [uni(1.0, 6.0)]
        for _ in range(num):
            power = ctx.choice([2., 4., -2., -4., -6., -8., 1., -1., 0.5, 3.])
            par += [uni(-0.05, 0.05), power]
        return par, (low, high)
    if name == 'RefractiveIndexInfo':
        size = ctx.choice([1, 5, 9, 9, 11, 13, 15, 17, 17, 19, 25])
        par = [uni(1.0, 4.0)]
        for _ in range(min(2, (size - 1)//4)):
            c4 = ctx.choice([1., 2., 2., 1.5])
            pole = _poles(ctx, low, high, 1)[0]
            par += [uni(0.005, 0.5), ctx.choice([0., 2., 1., 4.])*1.0,
                    (pole**2)**(1/c4), c4]
        for _ in range(max(0, (size - 9)//2)):
            par += [uni(-0.02, 0.02), ctx.choice([2., 4., -2., -4., 1.])]
        return par, (low, high)
    if name == 'Gases':
        num = ctx.choice([1, 2, 3, 4, 5, 9, 15])
        par = [ctx.choice([0.0, uni(0, 1e-4)])]
        for _ in range(num):
            # the resonance below the window, or above it
            par += [uni(0.001, 0.2), low**-2.0 + uni(5, 200)
                    if ctx.chance(0.8) else high**-2.0*uni(0.1, 0.7)]
        return par, (low, high)
    if name == 'Herzberger':
        par = [uni(1.2, 4.0), uni(-0.1, 0.3), uni(-0.02, 0.05),
               uni(-0.01, 0.01), uni(-1e-3, 1e-3), uni(-1e-4, 1e-4)]
        return par, (max(low, 0.4), max(low, 0.4)*uni(1.2, 5.0))
    if name == 'Retro':
        par = [uni(0.05, 0.4), uni(0.01, 0.2), (uni(0.1, 0.7)*low)**2,
               uni(-0.002, 0.002)]
        return par, (low, high)
    if name == 'Exotic':
        par = [uni(1.5, 6.0), uni(0.01, 0.5), (uni(0.1, 0.8)*low)**2,
               uni(-0.5, 0.5), uni(0.3*low, 1.5*high), uni(0.05, 2.0)]
        if ctx.chance(0.2):
            # two real poles, both below the window
            par[3] = abs(par[3])
            par[4] = uni(0.2, 0.5)*low
            par[5] = -(uni(0.1, 0.8)*(low - par[4]))**2
        return par, (low, high)
    elow = uni(0.2, 2.0)
    erange = (elow, elow*uni(1.5, 20.0))
    if name == 'Drude':
        return [uni(1.0, 12.0), ctx.choice(
            [uni(0.01, 1.0), uni(0.01, 1.0), 10**uni(-5, -2), 0.0])], erange
    if name == 'DrudeLorentz':
        return [uni(1.0, 12.0), uni(0.05, 1.0), uni(0.5, 8.0), ctx.choice(
            [uni(0.02, 1.5), uni(0.02, 1.5), 10**uni(-4, -2)])], erange
    if name == 'TaucLorentz':
        e0 = uni(2.0, 8.0)
        return [uni(5, 200), e0, e0*uni(0.1, 1.8), ctx.choice(
            [uni(0.3, 0.95), uni(0.3, 0.95), uni(0.04, 0.3),
             uni(0.95, 1.6), 1.0])*e0,
                uni(0.5, 3.0)], erange
    raise KeyError(name)


def model_pair(name):
    return ('wavelength', 'um') if name in ref.MODELS_N else ('energy', 'ev')


def make_model(ctx, name=None):
    """(model object, reference part or None)"""
    if name is None:
        name = ctx.choice(MODEL_NAMES)
    par, rng = model_parameters(ctx, name)
    pair = model_pair(name)
    stype, unit = spell(ctx, pair)
    container = ctx.choice(['array', 'list'])
    par_in = np.array(par) if container == 'array' else list(par)
    obj = getattr(sdata, name)(par_in, range_container(ctx, rng),
                               spectrum_type=stype, unit=unit)
    part = None if name == 'TaucLorentz' else ref.RefModel(name, par, rng)
    return obj, part, {'model': name, 'par': par, 'range': rng}


def range_container(ctx, rng):
    mode = ctx.randint(0, 3)
    if mode == 0:
        return tuple(rng)
    if mode == 1:
        return list(rng)
    if mode == 2:
        return np.array(rng)
    return np.array(rng[::-1])


# --------------------------------------------------------------------------
# materials
# --------------------------------------------------------------------------
MATERIAL_KINDS = ('fixed_n', 'fixed_nk', 'fixed_eps_r', 'fixed_eps', 'tab_n',
                  'tab_nk', 'tab_eps', 'tab_n_alpha', 'one_row', 'model_n',
                  'model_eps', 'mixed_model_table', 'mixed_tables', 'k_only',
                  'mixed_eps')


def make_material(ctx, kind=None, passive=True, small=False, pair=None,
                  models=None, rows=None):
    """a material of the package together with its reference

    returns (material, RefMaterial, description)
    """
    if kind is None:
        kind = ctx.choice(MATERIAL_KINDS)
    rng = ctx.rng
    desc = {'kind': kind}
    if kind.startswith('fixed'):
        if kind == 'fixed_n':
            val = float(rng.uniform(0.1, 5))
            mat = Material(fixed_n=val)
            rmat = ref.RefMaterial('nk', ref.RefConst(val))
        elif kind == 'fixed_nk':
            val = complex(rng.uniform(0.1, 5), column(ctx, 'k', 1)[0])
            mat = Material(fixed_nk=val)
            rmat = ref.RefMaterial('nk', ref.RefConst(val.real),
                                   ref.RefConst(val.imag))
        elif kind == 'fixed_eps_r':
            val = float(rng.uniform(-20, 20))
            mat = Material(fixed_eps_r=val)
            rmat = ref.RefMaterial('eps', ref.RefConst(val))
        else:
            val = complex(rng.uniform(-60, 20), column(ctx, 'epsi', 1)[0])
            mat = Material(fixed_eps=val)
            rmat = ref.RefMaterial('eps', ref.RefConst(val.real),
                                   ref.RefConst(val.imag))
        desc['value'] = val
        return mat, rmat, desc
    if kind in ('tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha', 'one_row'):
        if pair is None:
            pair = any_pair(ctx)
        stype, unit = spell(ctx, pair)
        num = 1 if kind == 'one_row' else (rows or table_size(ctx, small))
        sub = kind if kind != 'one_row' else ctx.choice(
            ['tab_n', 'tab_nk', 'tab_eps'])
        xx = table_x(ctx, pair, num)
        names = {'tab_n': ('n',), 'tab_nk': ('n', 'k'),
                 'tab_eps': ('epsr', 'epsi'),
                 'tab_n_alpha': ('n', 'alpha')}[sub]
        cols = [column(ctx, name, num) for name in names]
        xx, cols, dtype = rounded(ctx, xx, cols)
        table = shuffled(ctx, np.column_stack([xx] + cols))
        kwarg = {'tab_n': 'tabulated_n', 'tab_nk': 'tabulated_nk',
                 'tab_eps': 'tabulated_eps',
                 'tab_n_alpha': 'tabulated_n_alpha'}[sub]
        mat = Material(**{kwarg: stored(ctx, table, dtype),
                          'spectrum_type': stype,
                          'unit': unit})
        if sub == 'tab_n_alpha':
            lam_cm = ref.to_metre(pair, xx)*100.0
            # the wavelength is rounded to 1e-15 m
            extra = float(np.max(np.abs(cols[1]))*1e-13/(4*ref.PI))
            cols[1] = cols[1]*lam_cm/(4*ref.PI)
        rmat = ref.RefMaterial(
            'eps' if sub == 'tab_eps' else 'nk',
            ref.RefTable(xx, cols[0], pair),
            ref.RefTable(xx, cols[1], pair) if len(cols) > 1 else None)
        if sub == 'tab_n_alpha':
            rmat.imag.extra = extra
        desc.update(pair=pair, rows=num, unit=unit, sub=sub,
                    first=table[0].tolist())
        return mat, rmat, desc
    if kind == 'medium':
        # an effective medium on its own points
        pair = ('wavelength', 'm')
        num = max(2, rows or table_size(ctx, small))
        xx = table_x(ctx, pair, num)
        cols = [column(ctx, name, num) for name in ('epsr', 'epsi')]
        table = shuffled(ctx, np.column_stack([xx] + cols))
        other = complex(rng.uniform(-10, 10), rng.uniform(0, 2))
        frac = float(rng.uniform(0.2, 1.0))
        mat = Simple(Spectrum(table[:, 0]), Material(fixed_eps=other),
                     Material(tabulated_eps=table, spectrum_type=pair[0],
                              unit=pair[1]), frac)
        rmat = ref.RefMaterial('eps', *(
            ref.RefTable(xx, (1 - frac)*val + frac*col, pair)
            for val, col in zip((other.real, other.imag), cols)))
        desc.update(pair=pair, rows=num, frac=frac, other=other)
        return mat, rmat, desc
    if kind in ('model_n', 'model_eps'):
        names = models or (tuple(ref.MODELS_N) if kind == 'model_n' else
                           tuple(ref.MODELS_EPS))
        name = ctx.choice(names)
        par, vrange = model_parameters(ctx, name)
        stype, unit = spell(ctx, model_pair(name))
        mat = Material(model_kw={
            'name': name, 'spectrum_type': stype, 'unit': unit,
            'valid_range': range_container(ctx, vrange),
            'parameters': np.array(par)})
        part = ref.RefModel(name, par, vrange) if name != 'TaucLorentz' \
            else None
        if name in ref.MODELS_N:
            rmat = ref.RefMaterial('nk', part)
        else:
            rmat = ref.RefMaterial('eps', cplx=part)
        desc.update(model=name, par=par, range=vrange)
        return mat, rmat, desc
    if kind == 'mixed_model_table':
        name = ctx.choice(tuple(ref.MODELS_N))
        par, vrange = model_parameters(ctx, name)
        stype, unit = spell(ctx, ('wavelength', 'um'))
        mat = Material(model_kw={
            'name': name, 'spectrum_type': stype, 'unit': unit,
            'valid_range': np.array(vrange), 'parameters': np.array(par)})
        # overlapping, but different range
        window = (vrange[0]*1e-6*rng.uniform(0.5, 1.04),
                  vrange[1]*1e-6*rng.uniform(0.98, 1.5))
        tab, part, pair = make_table_part(ctx, 'k', window, small)
        mat.data['imag'] = tab
        rmat = ref.RefMaterial('nk', ref.RefModel(name, par, vrange), part)
        desc.update(model=name, par=par, range=vrange, pair=pair)
        return mat, rmat, desc
    if kind in ('mixed_tables', 'mixed_eps'):
        window = lam_window(ctx, decades=rng.uniform(0.2, 1.2))
        shift = (window[0]*rng.uniform(0.7, 1.15),
                 window[1]*rng.uniform(0.9, 1.4))
        eps = kind == 'mixed_eps'
        tab1, part1, pair1 = make_table_part(
            ctx, 'epsr' if eps else 'n', window, small)
        tab2, part2, pair2 = make_table_part(
            ctx, 'epsi' if eps else 'k', shift, small)
        if eps:
            mat = Material(fixed_eps_r=1.0)
        else:
            mat = Material(fixed_n=1.0)
        mat.data['real'] = tab1
        mat.data['imag'] = tab2
        mat.defaults['spectrum_type'] = pair1[0]
        mat.defaults['unit'] = pair1[1]
        rmat = ref.RefMaterial('eps' if eps else 'nk', part1, part2)
        desc.update(pair=pair1, pair2=pair2)
        return mat, rmat, desc
    if kind == 'part_const':
        # one or both parts constant, each in its own range and unit
        window = lam_window(ctx, decades=rng.uniform(0.2, 1.2))
        shift = (window[0]*rng.uniform(0.7, 1.15),
                 window[1]*rng.uniform(0.9, 1.4))
        which = ctx.choice(['real', 'imag', 'both'])
        eps = ctx.chance(0.4)
        mat = Material(fixed_eps_r=1.0) if eps else Material(fixed_n=1.0)
        tab, part = {}, {}
        names = ('epsr', 'epsi') if eps else ('n', 'k')
        for key, name, win in (('real', names[0], window),
                               ('imag', names[1], shift)):
            if which in (key, 'both'):
                tab[key], part[key], pair = make_const_part(ctx, name, win)
            else:
                tab[key], part[key], pair = make_table_part(ctx, name, win,
                                                            small)
            mat.data[key] = tab[key]
        mat.defaults['spectrum_type'], mat.defaults['unit'] = pair
        rmat = ref.RefMaterial('eps' if eps else 'nk', part['real'],
                               part['imag'])
        desc.update(constant=which, defaults=pair)
        return mat, rmat, desc
    if kind == 'k_only':
        tab, part, pair = make_table_part(ctx, 'k', lam_window(ctx), small)
        mat = Material(fixed_n=float(rng.uniform(0.5, 3)))
        base = mat.get_nk_data(1e-6)
        mat.data['imag'] = tab
        rmat = ref.RefMaterial('nk', ref.RefConst(float(np.real(base))), part)
        desc.update(pair=pair)
        return mat, rmat, desc
    raise KeyError(kind)


def make_const_part(ctx, name, window):
    pair = any_pair(ctx)
    stype, unit = spell(ctx, pair)
    value = float(column(ctx, name, 1)[0])
    vrange = np.sort(ref.from_metre(pair, np.array(window)))
    const = Constant(value, valid_range=range_container(ctx, tuple(vrange)),
                     spectrum_type=stype, unit=unit)
    return const, ref.RefConst(value, pair, tuple(vrange)), pair


def make_table_part(ctx, name, window, small=True):
    pair = any_pair(ctx)
    stype, unit = spell(ctx, pair)
    num = table_size(ctx, small)
    xx = table_x(ctx, pair, num, window, tidy=False)
    yy = column(ctx, name, num)
    xx, (yy,), dtype = rounded(ctx, xx, [yy])
    table = shuffled(ctx, np.column_stack([xx, yy]))
    tab = Interpolation(stored(ctx, table, dtype), spectrum_type=stype, unit=unit)
    return tab, ref.RefTable(xx, yy, pair), pair


def finite_window(rmat):
    """a finite window (metre) inside of the range of a reference material"""
    low, high = rmat.range_m()
    if low <= 0 and not np.isfinite(high):
        return 100e-9, 10e-6
    if low <= 0:
        return high/20, high
    if not np.isfinite(high):
        return low, low*20
    return float(low), float(high)


def inside(ctx, rmat, num, margin=1e-5):
    """num wavelengths (metre) strictly inside of the range"""
    low, high = finite_window(rmat)
    if low == high:
        return np.full(num, low)
    low2, high2 = low*(1 + margin), high*(1 - margin)
    if low2 >= high2:
        mid = np.sqrt(low*high)
        return np.full(num, mid)
    return np.exp(ctx.rng.uniform(np.log(low2), np.log(high2), num))


def request(ctx, lam, pair=None):
    """a Spectrum for the given wavelengths in some quantity and unit

    returns spectrum, pair and the wavelengths it really denotes"""
    if pair is None:
        pair = any_pair(ctx)
    stype, unit = spell(ctx, pair)
    first = pair
    if ctx.chance(0.15):
        # made in another quantity or unit and converted in place
        first = any_pair(ctx)
        stype1, unit1 = spell(ctx, first)
    else:
        stype1, unit1 = stype, unit
    vals = ref.from_metre(first, lam)
    if np.ndim(vals) == 0:
        vals = float(vals)
    elif ctx.chance(0.05):
        vals = np.asarray(vals, dtype='>f8')
        vals.flags.writeable = False
    spec = Spectrum(vals, spectrum_type=stype1, unit=unit1)
    if first != pair:
        spec.convert_to(stype, unit, in_place=True)
    return spec, pair


def container(ctx, vals):
    """the same values as list, tuple or array"""
    mode = ctx.randint(0, 2)
    if mode == 0:
        return [float(v) for v in vals]
    if mode == 1:
        return tuple(float(v) for v in vals)
    return np.array(vals, dtype=float)
