"""C25 plots show the evaluated data"""
import re
import unicodedata
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from dispersion import Material, Spectrum  # noqa: E402
from .. import gen, ref  # noqa: E402
from .c12 import canonical  # noqa: E402

PROP = 'C25'
RULE = ("a case is a material of any kind plotted as refractive index or "
        "permittivity with any combination of the options (values as array, "
        "list, tuple or single number; quantity and unit; axes of a figure "
        "with other axes and curves); all lines and labels of all axes are "
        "inspected before and after; distinct by kind, options and unit")
ASSUMPTIONS = ["requested values lie in the range of the material"]
REQUIRED = ['negative ordinates',
            'curves compared', 'abscissae compared', 'labels compared',
            'default spectra', 'single values', 'requested axes',
            'other axes untouched', 'new axes', 'legends compared',
            'requests in other units', 'repeated values', 'labelled axes', 'unit or quantity alone', 'refusals observed',
            'reference values compared', 'caller arrays untouched']


def setup_worker():
    matplotlib.rcParams['figure.max_open_warning'] = 0


def fold(label):
    """compare labels independent of the kind of micro sign and of case"""
    return unicodedata.normalize('NFKC', label).casefold().replace(' ', '')


def lines_of(axes):
    return [(np.array(l.get_xdata(), dtype=float),
             np.array(l.get_ydata(), dtype=float)) for l in axes.get_lines()]


def same_lines(one, two):
    return len(one) == len(two) and all(
        np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])
        for a, b in zip(one, two))


def values_container(ctx, vals):
    mode = ctx.randint(0, 2)
    if mode == 0:
        return np.array(vals), 'array'
    if mode == 1:
        return [float(v) for v in vals], 'list'
    return tuple(float(v) for v in vals), 'tuple'


def gain(ctx):
    """a table with values of any sign in both columns"""
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    num = ctx.choice([2, 3, 8, 40])
    xx = gen.table_x(ctx, pair, num)
    yy = [ctx.rng.uniform(-5.0, 5.0, num) for _ in range(2)]
    if ctx.chance(0.3):
        yy[1] = -np.abs(yy[1])
    name = ctx.choice(['nk', 'eps'])
    mat = Material(**{'tabulated_' + name: np.column_stack([xx] + yy),
                      'spectrum_type': stype, 'unit': unit})
    rmat = ref.RefMaterial(name, *[ref.RefTable(xx, y, pair) for y in yy])
    return mat, rmat, {'kind': 'gain_' + name, 'pair': pair}


def case_plot(ctx):
    plt.close('all')
    mat, rmat, desc = gen.make_material(ctx, passive=True, small=True)
    if ctx.chance(0.25):
        mat, rmat, desc = gain(ctx)
        ctx.count('negative ordinates')
    what = ctx.choice(['nk', 'eps'])
    plot = mat.plot_nk_data if what == 'nk' else mat.plot_permittivity
    evaluate = mat.get_nk_data if what == 'nk' else mat.get_permittivity
    kw = {}
    low, high = rmat.range_m()
    pair = canonical(mat.defaults['spectrum_type'], mat.defaults['unit'])
    mode = ctx.choice(['default', 'values', 'values', 'values', 'single',
                       'units'])
    one_point = not low*(1 + 1e-9) < high
    if one_point and mode in ('values', 'single', 'units'):
        mode = 'default'
    if mode in ('values', 'single', 'units') and ctx.chance(0.8) or \
            mode == 'units':
        pair = gen.any_pair(ctx)
        spelled = gen.spell(ctx, pair)
        kw['spectrum_type'], kw['unit'] = spelled
        ctx.count('requests in other units')
    elif mode in ('values', 'single') and ctx.chance(0.6) or \
            mode == 'default' and not one_point and ctx.chance(0.3):
        # only one of the two, the other one is that of the material
        if ctx.chance(0.6):
            pair = ctx.choice([p for p in ref.PAIRS if p[0] == pair[0]])
            kw['unit'] = gen.spell(ctx, pair)[1]
        else:
            kw['spectrum_type'] = gen.mixed_case(ctx, pair[0])
        ctx.count('unit or quantity alone')
    vals = None
    if mode == 'values':
        num = ctx.choice([2, 3, 10, 200])
        if ctx.chance(0.03):
            num = ctx.randint(2000, 6000)
        lam = gen.inside(ctx, rmat, num)
        if ctx.chance(0.7):
            lam = np.sort(lam)
        if ctx.chance(0.05):
            lam = np.full(num, lam[0])      # still a curve
            ctx.count('repeated values')
        vals = ref.from_metre(pair, lam)
        kw['values'], form = values_container(ctx, vals)
    elif mode == 'single':
        lam = gen.inside(ctx, rmat, 1)
        vals = ref.from_metre(pair, lam)
        kw['values'] = float(vals[0]) if ctx.chance(0.6) else \
            values_container(ctx, vals)[0]
        form = 'single'
    # figures around it
    fig, all_axes = plt.subplots(1, ctx.choice([1, 2, 3]), squeeze=False)
    all_axes = list(all_axes[0])
    for axes in all_axes:
        for _ in range(ctx.choice([0, 1, 2, 2, 4, 7])):
            axes.plot([1, 2, 3], ctx.rng.uniform(0, 1, 3))
        if ctx.chance(0.2):
            axes.set_xlabel('energy (eV)')
            axes.set_ylabel('old, label')
            ctx.count('labelled axes')
    target = None
    if ctx.chance(0.6):
        target = ctx.choice(all_axes)
        kw['axes'] = target
        if ctx.chance(0.5):
            plt.sca(ctx.choice(all_axes))
        if ctx.chance(0.3):
            plt.figure()        # another current figure
            other = plt.axes()
            other.plot([0, 1], [5, 6])
            all_axes.append(other)
        ctx.count('requested axes')
    else:
        if ctx.chance(0.5):
            plt.figure()
        ctx.count('new axes')
    before = {id(a): (lines_of(a), a.get_xlabel(), a.get_ylabel())
              for a in all_axes}
    keep = np.array(kw['values'], dtype=float) if 'values' in kw else None
    info = dict(desc, what=what, mode=mode, pair=pair,
                axes=target is not None)
    info.pop('first', None)
    info.pop('par', None)
    ctx.describe(**info)
    try:
        ctx.accepts(lambda: plot(**kw), "plotting", **info)
        if keep is not None:
            ctx.check(np.array_equal(np.array(kw['values'], dtype=float),
                                     keep), "plotting changed the caller's "
                      "values", 'caller arrays untouched', **info)
        figures = [plt.figure(n) for n in plt.get_fignums()]
        now = [a for f in figures for a in f.axes]
        changed = [a for a in now if id(a) not in before or not same_lines(
            lines_of(a), before[id(a)][0])]
        ctx.check(len(changed) == 1, "curves were not drawn on exactly one "
                  "pair of axes", 'other axes untouched',
                  changed=len(changed), **info)
        axes = changed[0]
        if target is not None:
            ctx.check(axes is target, "curves were drawn on other axes than "
                      "requested", **info)
        for other in now:
            if other is not axes and id(other) in before:
                ctx.check((other.get_xlabel(), other.get_ylabel()) ==
                          before[id(other)][1:], "labels of other axes "
                          "changed", 'other axes untouched', **info)
        old = before.get(id(axes), ([], '', ''))[0]
        lines = lines_of(axes)
        ctx.check(same_lines(lines[:len(old)], old), "existing curves "
                  "changed", **info)
        lines = lines[len(old):]
        ctx.check(len(lines) == 2, "not exactly two curves",
                  'curves compared', got=len(lines), **info)
        artists = axes.get_lines()[len(old):]
        check_curves(ctx, mat, rmat, lines, vals, pair, mode, evaluate,
                     what, one_point, info)
        tokens = [fold(t) for t in re.split(
            r'[\s()\[\],]+', unicodedata.normalize(
                'NFKC', axes.get_xlabel())) if t]
        ctx.check(fold(pair[0]) in tokens and
                  fold(ref.DISPLAY[pair[1]]) in tokens, "axis label does not name the "
                  "quantity and unit", 'labels compared',
                  label=axes.get_xlabel(), **info)
        styles = {(l.get_color(), l.get_linestyle()) for l in artists}
        ctx.check(len(styles) == 2, "curves cannot be told apart", **info)
        names = [l.get_label() for l in artists]
        want = ['n', 'k'] if what == 'nk' else ['eps_r', 'eps_i']
        ctx.check([fold(n) for n in names] == want, "curves are not labelled "
                  "as what they show", 'legends compared', names=names,
                  **info)
        legend = axes.get_legend()
        shown = [fold(t.get_text()) for t in legend.get_texts()] \
            if legend is not None else []
        ctx.check(set(want) <= set(shown), "legend does not name the curves",
                  'legends compared', shown=shown, **info)
        ctx.check(set(want) <= {fold(t) for t in re.split(
            r'[\s()\[\],]+', axes.get_ylabel())}, "vertical axis does not "
            "name the curves", 'labels compared', label=axes.get_ylabel(),
            **info)
    finally:
        plt.close('all')
    ctx.sig(desc['kind'], what, mode, pair, target is not None,
            len(all_axes))


def check_curves(ctx, mat, rmat, lines, vals, pair, mode, evaluate, what,
                 one_point, info):
    (x1, y1), (x2, y2) = lines
    if mode == 'single' or one_point and np.ptp(y1) == 0 and len(x1) == 2:
        ctx.count('single values')
        if vals is None:
            return
        got = complex(np.ravel(evaluate(Spectrum(
            float(vals[0]), pair[0], pair[1])))[0])
        for (xx, yy), want in (((x1, y1), got.real), ((x2, y2), got.imag)):
            ctx.check(len(yy) == 2 and yy[0] == yy[1], "not a horizontal "
                      "line", 'curves compared', yy=yy, **info)
            ctx.check(abs(yy[0] - want) <= 1e-9*abs(got), "horizontal line "
                      "is not at the value of the material",
                      'curves compared', got=yy[0], want=want, **info)
            ctx.check(list(xx) == [0, 1], "line does not span the axes",
                      xx=xx, **info)
        return
    ctx.check(np.array_equal(x1, x2), "curves have different abscissae",
              **info)
    if vals is None:
        ctx.count('default spectra')
        sample = mat.get_sample_spectrum()
        lam = ref.to_metre(canonical(sample.spectrum_type, sample.unit),
                           np.asarray(sample.values, dtype=float))
        want_x = ref.from_metre(pair, lam)
    else:
        want_x = vals
    ctx.close(x1, want_x, "abscissae are not the requested values",
              rtol=3e-9, atol=3*ref.round_step(pair) if vals is None else 0.0,
              counter='abscissae compared', **info)
    lam = ref.to_metre(pair, x1)
    low, high = rmat.range_m()
    keep = (lam > low*(1 + 1e-6)) & (lam < high*(1 - 1e-6))
    if not np.any(keep):
        return
    # at the plotted abscissae, those next to the ends of the range may have
    # been rounded out of it
    value = rmat.nk if what == 'nk' else rmat.eps
    full_tol = 3*(rmat.nk_tol(lam) if what == 'nk' else rmat.eps_tol(lam))
    step = 3*ref.round_step(pair) + 3e-9*np.abs(x1)
    for sign in (-1, 1):
        near = np.clip(ref.to_metre(pair, x1 + sign*step), low, high)
        full_tol = full_tol + 2*np.abs(value(near) - value(lam))
    tol = full_tol[keep] if vals is None else 0.0
    got = evaluate(Spectrum(x1[keep], pair[0], pair[1]))
    for yy, want in ((y1[keep], np.real(got)), (y2[keep], np.imag(got))):
        ctx.check(yy.shape == want.shape and np.all(
            (np.abs(yy - want) <= 1e-9*np.abs(got) + tol) |
            np.isnan(yy) & np.isnan(want)), "ordinates are not "
            "the values of the material", 'curves compared', got=yy,
            want=want, **info)
    want = value(lam)
    err = np.abs(y1 + 1j*y2 - want)
    ctx.check(np.all(err[keep] <= (full_tol + 1e-7*np.abs(want))[keep]),
              "curves are not the reference values",
              'reference values compared', **info)


def case_refused(ctx):
    """values outside of the range or senseless units: refused"""
    plt.close('all')
    kind = ctx.choice(['tab_nk', 'tab_n', 'model_n', 'tab_eps'])
    mat, rmat, desc = gen.make_material(ctx, kind, small=True)
    low, high = rmat.range_m()
    plot = ctx.choice([mat.plot_nk_data, mat.plot_permittivity])
    bad = ctx.choice([low*0.99, high*1.01])
    pair = gen.any_pair(ctx)
    spelled = gen.spell(ctx, pair)
    vals = ref.from_metre(pair, np.array([low, bad]))
    ctx.describe(**{k: v for k, v in desc.items() if k != 'par'})
    try:
        ctx.raises(ValueError, lambda: plot(
            values=vals, spectrum_type=spelled[0], unit=spelled[1]),
            "plotting beyond the range")
        ctx.raises(ValueError, lambda: plot(
            spectrum_type='wavelength', unit='eV'), "senseless unit")
    finally:
        plt.close('all')
    ctx.sig(desc['kind'], pair, bad < low)


SCENARIOS = {
    'plot': {'case': case_plot, 'quick': 800, 'thorough': 16000},
    'refused': {'case': case_refused, 'quick': 80, 'thorough': 1600},
}
