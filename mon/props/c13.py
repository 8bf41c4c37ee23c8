"""C13 extrapolation only extends the data"""
import copy
import numpy as np
from dispersion import Constant, Material, Spectrum, Interpolation
from .. import gen, ref
from .c04 import margin

PROP = 'C13'
RULE = ("a case is a material (polynomial tables of any interpolation order "
        "and polynomial models, arbitrary tables, n and k in different units "
        "or ranges, one constant part) extrapolated once or repeatedly to "
        "one or two targets in any quantity and unit with spline order 1-5; "
        "compared with its own values before, with the polynomial, at and "
        "beyond the targets, in pure and mixed requests; distinct by (kind, "
        "order, sides, table unit, target unit, repetition)")
ASSUMPTIONS = ["values of polynomial continuations are compared within the "
               "rounding of the sampled data (floating point and the "
               "rounding steps of converted values) amplified by "
               "(distance/spacing)**order, and not where that exceeds 1e-3"]
REQUIRED = ['data from zero', 'default order', 'inside unchanged', 'mixed requests', 'polynomial continued',
            'evaluated at the target', 'refused beyond the target',
            'other end still refused', 'inside targets refused',
            'three targets refused', 'complex data refused',
            'constant parts unchanged', 'constant parts keep their range',
            'repeated extrapolations', 'two targets on one side',
            'refusals leave the material unchanged', 'continuity observed']

AMPLIFY = 60.0
NPOINTS = 999


class Poly:
    """polynomial in the scaled abscissa of its own unit"""

    def __init__(self, coef, mid, scale):
        self.coef, self.mid, self.scale = coef, mid, scale

    def __call__(self, xx):
        return np.polyval(self.coef, (np.asarray(xx) - self.mid)/self.scale)


def poly(ctx, xx, degree, base, amp):
    mid, scale = 0.5*(xx[0] + xx[-1]), xx[-1] - xx[0]
    coef = np.concatenate([ctx.rng.uniform(-amp, amp, degree),
                           [ctx.rng.uniform(*base)]])
    return Poly(coef, mid, scale)


class Part:
    """a part that is extrapolated: own unit, own range, known polynomial"""

    def __init__(self, pair, low, high, func, degree):
        self.pair, self.low, self.high = pair, low, high
        self.func, self.degree = func, degree

    def tol(self, pos, order):
        """amplified rounding of the sampled values"""
        ratio = (self.high/self.low)**(1.0/NPOINTS)
        pos = np.asarray(pos, dtype=float)
        hup, hlow = self.high*(1 - 1/ratio), self.low*(ratio - 1)
        dist = np.where(pos > self.high, (pos - self.high)/hup,
                        np.where(pos < self.low, (self.low - pos)/hlow, 0))
        grid = np.linspace(self.low, self.high, 50)
        vals = np.abs(self.func(grid))
        slope = np.max(np.abs(np.diff(self.func(grid))))/(grid[1] - grid[0])
        noise = 1e-15*np.max(vals) + slope*(
            1e-15*self.high + ref.round_step(self.pair))
        return AMPLIFY*noise*np.maximum(1.0, dist)**order + 1e-9*np.max(vals)


def order_for(ctx, degree):
    return ctx.choice([k for k in (1, 1, 2, 2, 2, 3, 3, 4, 5) if k >= degree])


def make_poly(ctx):
    """material whose parts are polynomials"""
    roll = ctx.randint(0, 5)
    if roll == 0:
        # polynomial model of n in micrometre
        low = ctx.rng.uniform(0.3, 2.0)
        high = low*ctx.rng.uniform(1.2, 4.0)
        degree = ctx.randint(1, 3)
        par = [ctx.rng.uniform(1.0, 3.0)]
        for power in range(1, degree + 1):
            par += [ctx.rng.uniform(-0.2, 0.2)/high**power, float(power)]
        mat = Material(model_kw={
            'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um',
            'valid_range': np.array([low, high]),
            'parameters': np.array(par)})

        def func(xx):
            return par[0] + sum(par[2*i + 1]*np.asarray(xx)**(i + 1)
                                for i in range(degree))
        parts = [Part(('wavelength', 'um'), low, high, func, degree), None]
        return 'model', mat, 'nk', parts, degree
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    degree = ctx.choice([1, 1, 1, 2, 3])
    num = ctx.choice([degree + 1, degree + 2, 8, 40])
    window = gen.lam_window(ctx, decades=ctx.rng.uniform(0.08, 0.7))
    xx = gen.table_x(ctx, pair, num, window)
    kind = ctx.choice(['n', 'nk', 'eps', 'two'])
    fr = poly(ctx, xx, degree, (1.5, 4.0), 0.5)
    fi = poly(ctx, xx, degree, (1.5, 4.0), 0.5)
    kw = {'spectrum_type': stype, 'unit': unit, 'interp_order': degree}
    if kind == 'n':
        mat = Material(tabulated_n=np.column_stack([xx, fr(xx)]), **kw)
        fi = None
    elif kind in ('nk', 'eps'):
        mat = Material(**{'tabulated_' + kind: gen.shuffled(
            ctx, np.column_stack([xx, fr(xx), fi(xx)])), **kw})
    else:
        # n and k in different units and on slightly different ranges
        mat = Material(fixed_n=1.0)
        mat.data['real'] = Interpolation(
            np.column_stack([xx, fr(xx)]), stype, unit, interp_order=degree)
        pair2 = gen.any_pair(ctx)
        win2 = (window[0]*ctx.rng.uniform(0.97, 1.03),
                window[1]*ctx.rng.uniform(0.97, 1.03))
        x2 = gen.table_x(ctx, pair2, num, win2)
        fi = poly(ctx, x2, degree, (1.5, 4.0), 0.5)
        mat.data['imag'] = Interpolation(
            np.column_stack([x2, fi(x2)]), pair2[0], pair2[1],
            interp_order=degree)
        mat.defaults.update(spectrum_type=pair[0], unit=pair[1])
        return kind, mat, 'nk', [
            Part(pair, xx[0], xx[-1], fr, degree),
            Part(pair2, x2[0], x2[-1], fi, degree)], degree
    parts = [Part(pair, xx[0], xx[-1], fr, degree),
             Part(pair, xx[0], xx[-1], fi, degree) if fi else None]
    return kind, mat, 'eps' if kind == 'eps' else 'nk', parts, degree


def ranges(parts):
    """inner and outer range of the parts in metre"""
    lows, highs = [], []
    for part in parts:
        if part is not None:
            low, high = np.sort(ref.to_metre(
                part.pair, np.array([part.low, part.high])))
            lows.append(low)
            highs.append(high)
    return max(lows), min(highs), min(lows), max(highs)


def native(mat, name, spec):
    return mat.get_nk_data(spec) if name == 'nk' else \
        mat.get_permittivity(spec)


def scale_targets(ctx, order, outer, span):
    """targets below and above, as far as the order can be judged"""
    far = {1: 0.8, 2: 0.3, 3: 0.1, 4: 0.02, 5: 0.01}[order]
    frac = far*10**ctx.rng.uniform(-1.5, 0)
    below = outer[0] - min(frac*span, 0.6*outer[0])
    above = outer[1] + far*10**ctx.rng.uniform(-1.5, 0)*span
    return below, above


def check_polynomial(ctx, mat, name, parts, order, lam, spec, desc):
    got = native(mat, name, spec)
    for part, val in zip(parts, (np.real(got), np.imag(got))):
        if part is None:
            ctx.check(np.all(val == 0.0), "missing part is not zero")
            continue
        pos = ref.from_metre(part.pair, lam)
        want = part.func(pos)
        tol = part.tol(pos, order)
        judged = tol < 1e-3*np.max(np.abs(want))
        # converting the request moves it by a rounding step
        step = 1e-9*np.abs(pos) + ref.round_step(part.pair)
        tol = tol + np.abs(part.func(pos + step) - want) + \
            np.abs(part.func(pos - step) - want)
        ctx.check(np.shape(val) == np.shape(want), "shape of the answer",
                  got=np.shape(val), want=np.shape(want))
        bad = (np.abs(val - want) > tol) & judged
        ctx.check(not np.any(bad), "polynomial data do not continue as that "
                  "polynomial", 'polynomial continued', got=val, want=want,
                  tol=tol, lam=lam, **desc)
        if not np.any(judged):
            ctx.count('continuations beyond the rounding')


def extend(ctx, mat, spec, order):
    """extrapolate, leaving out the order where it is the default"""
    if order == 2 and ctx.chance(0.5):
        ctx.count('default order')
        return mat.extrapolate(spec)
    return mat.extrapolate(spec, spline_order=order)


def case_poly(ctx):
    kind, mat, name, parts, degree = make_poly(ctx)
    order = order_for(ctx, degree)
    inner_low, inner_high, outer_low, outer_high = ranges(parts)
    span = min(inner_high - inner_low, inner_high/3)
    below, above = scale_targets(ctx, order, (outer_low, outer_high), span)
    sides = ctx.choice(['low', 'high', 'both'])
    desc = {'kind': kind, 'order': order, 'degree': degree, 'sides': sides,
            'pairs': [p and p.pair for p in parts],
            'range': (inner_low, inner_high), 'targets': (below, above)}
    ctx.describe(**desc)
    # inside the original range
    lam_in = np.exp(ctx.rng.uniform(np.log(inner_low*(1 + 1e-6)),
                                    np.log(inner_high*(1 - 1e-6)), 15))
    spec_in, _ = gen.request(ctx, lam_in)
    before = native(mat, name, spec_in)
    if sides == 'low':
        targets, low, high = below, below, inner_high
    elif sides == 'high':
        targets, low, high = above, inner_low, above
    else:
        targets = np.array([below, above])
        if ctx.chance(0.5):
            targets = targets[::-1].copy()
        low, high = below, above
    if sides != 'both' and ctx.chance(0.5):
        targets = np.array([targets])
    tspec, tpair = gen.request(ctx, targets)
    ctx.accepts(lambda: extend(ctx, mat, tspec, order),
                "extrapolating beyond the range", **desc)
    after(ctx, mat, name, parts, order, desc, spec_in, before, lam_in,
          tspec, (low, high), (inner_low, inner_high, outer_low, outer_high))
    if ctx.chance(0.3):
        # once more, further out
        if sides == 'low':
            low = below*0.98
            again = low
        else:
            high = above*1.02
            again = high
        probe = np.exp(ctx.rng.uniform(np.log(max(low, below)*(1 + 1e-6)),
                                       np.log(min(high, above)*(1 - 1e-6)),
                                       7)) if sides != 'low' else lam_in
        probe = probe[(probe > inner_low) & (probe < inner_high)]
        if len(probe):
            pspec, _ = gen.request(ctx, probe)
            pbefore = native(mat, name, pspec)
        tspec2, _ = gen.request(ctx, again)
        ctx.accepts(lambda: mat.extrapolate(tspec2, spline_order=order),
                    "extrapolating a second time", **desc)
        ctx.count('repeated extrapolations')
        if len(probe):
            ctx.check(gen.same(native(mat, name, pspec), pbefore),
                      "a second extrapolation changed values inside of the "
                      "range", 'inside unchanged', **desc)
        ctx.check(gen.same(native(mat, name, spec_in), before),
                  "a second extrapolation changed values inside of the "
                  "range", 'inside unchanged', **desc)
        native(mat, name, tspec2)
        bad = again*(0.999 if sides == 'low' else 1.001)
        ctx.raises(ValueError, lambda: native(mat, name, gen.request(
            ctx, bad)[0]), "evaluating beyond the second target",
            'refused beyond the target', **desc)
    ctx.sig(kind, order, sides, tuple(p and p.pair for p in parts), tpair)


def after(ctx, mat, name, parts, order, desc, spec_in, before, lam_in,
          tspec, new, ranges_m):
    inner_low, inner_high, outer_low, outer_high = ranges_m
    low, high = new
    got = native(mat, name, spec_in)
    ctx.check(gen.same(got, before), "extrapolation changed values "
              "inside of the original range", 'inside unchanged', got=got,
              want=before, **desc)
    # at the target, in the unit of the target
    ctx.accepts(lambda: native(mat, name, tspec), "evaluating at the target",
                **desc)
    ctx.count('evaluated at the target')
    # in the new range
    lam_new = []
    if low < outer_low:
        lam_new.append(np.exp(ctx.rng.uniform(
            np.log(low*(1 + 1e-9)), np.log(outer_low*(1 - 1e-9)), 6)))
    if high > outer_high:
        lam_new.append(np.exp(ctx.rng.uniform(
            np.log(outer_high*(1 + 1e-9)), np.log(high*(1 - 1e-9)), 6)))
    lam_new = np.concatenate(lam_new)
    spec, _ = gen.request(ctx, lam_new)
    check_polynomial(ctx, mat, name, parts, order, lam_new, spec, desc)
    one, _ = gen.request(ctx, float(lam_new[0]))
    check_polynomial(ctx, mat, name, parts, order, lam_new[0], one, desc)
    # requests which mix both ranges, in any order
    mixed = np.concatenate([lam_in[:6], lam_new])
    perm = ctx.rng.permutation(len(mixed))
    spec, _ = gen.request(ctx, mixed[perm])
    check_polynomial(ctx, mat, name, parts, order, mixed[perm], spec, desc)
    mgot = native(mat, name, Spectrum(mixed))
    alone = native(mat, name, Spectrum(lam_in[:6]))
    scale = np.max(np.abs(alone))
    ctx.close(mgot[:6], alone, "mixed requests change values inside of the "
              "original range", rtol=1e-9, atol=1e-9*scale + step_tol(
                  parts, lam_in[:6]), counter='mixed requests', **desc)
    # no further
    for edge, sign, extended in ((low, -1, low < outer_low),
                                 (high, 1, high > outer_high)):
        rel = max(ctx.choice([1e-7, 1e-7, 1e-5, 1e-3, 0.1]),
                  margin(low, high, 1e-7))
        bad = edge*(1 + sign*rel)
        vals = bad if ctx.chance(0.5) else np.array([lam_in[0], bad])
        bspec, _ = gen.request(ctx, vals)
        ctx.raises(ValueError, lambda: native(mat, name, bspec),
                   "evaluating beyond the extrapolated range",
                   'refused beyond the target' if extended else
                   'other end still refused', value=bad, **desc)


def step_tol(parts, lam):
    """change of the values over a rounding step of the abscissa"""
    tol = 0.0
    for part in parts:
        if part is not None:
            pos = ref.from_metre(part.pair, lam)
            step = 1e-9*np.abs(pos) + ref.round_step(part.pair)
            tol += np.max(np.abs(part.func(pos + step) - part.func(pos)))
    return 3*tol


# --------------------------------------------------------------------------
def case_general(ctx):
    """arbitrary tables: inside unchanged, finite and continuous outside"""
    kind = ctx.choice(['tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha',
                       'mixed_tables', 'mixed_eps', 'k_only', 'model_n',
                       'mixed_model_table', 'medium'])
    mat, rmat, desc = gen.make_material(ctx, kind, small=True)
    low, high = rmat.range_m()
    desc = {'kind': kind, 'desc': desc}
    ctx.describe(**desc)
    if not low*(1 + 1e-3) < high:
        return
    parts = [p for p in (rmat.real, rmat.imag) if p.kind != 'const']
    out_low = min(p.range_m()[0] for p in parts)
    out_high = max(p.range_m()[1] for p in parts)
    lam = gen.inside(ctx, rmat, 12)
    spec, _ = gen.request(ctx, lam)
    nk0, eps0 = mat.get_nk_data(spec), mat.get_permittivity(spec)
    order = ctx.choice([1, 2, 2, 3])
    sides = ctx.choice(['low', 'high', 'both'])
    span = 0.1*(high - low)
    below, above = max(out_low - span, 0.5*out_low), out_high + span
    targets = {'low': below, 'high': above,
               'both': np.array([above, below])}[sides]
    tspec, tpair = gen.request(ctx, targets)
    twin = copy.deepcopy(mat) if order == 2 else None
    ctx.accepts(lambda: mat.extrapolate(tspec, spline_order=order),
                "extrapolating beyond the range", **desc)
    if twin is not None:
        # the order is two where none is given
        twin.extrapolate(tspec)
        lam_new = np.concatenate([
            np.geomspace(below, out_low, 5) if sides != 'high' else [],
            np.geomspace(out_high, above, 5) if sides != 'low' else []])
        nspec = Spectrum(np.clip(lam_new, *(
            b*(1 + s*1e-9) for b, s in zip(
                (below if sides != 'high' else low,
                 above if sides != 'low' else high), (1, -1)))))
        ctx.check(gen.same(native(mat, rmat.name, nspec),
                           native(twin, rmat.name, nspec)), "default order "
                  "is not two", 'default order', **desc)
    ctx.check(gen.same(nk0, mat.get_nk_data(spec)) and
              gen.same(eps0, mat.get_permittivity(spec)),
              "extrapolation changed values inside of the original range",
              'inside unchanged', **desc)
    got = ctx.accepts(lambda: native(mat, rmat.name, tspec),
                      "evaluating at the target", **desc)
    ctx.count('evaluated at the target')
    ctx.check(np.all(np.isfinite(got)), "extrapolated values are not finite",
              got=got, **desc)
    # continuity at an end of each part
    for part, pick in ((rmat.real, np.real), (rmat.imag, np.imag)):
        if part.kind == 'const':
            lamc = np.array([0.9*below + 0.1*out_low]) if sides != 'high' \
                else np.array([0.9*above + 0.1*out_high])
            vals = pick(native(mat, rmat.name, Spectrum(lamc)))
            ctx.check(np.all(vals == part.value), "a constant part changed",
                      'constant parts unchanged', **desc)
            continue
        if kind == 'model_n' or part.kind == 'model':
            # smooth: continuous value just beyond the end
            edge = part.range_m()[0 if sides == 'low' else 1]
            out = edge*(1 - 1e-7) if sides == 'low' else edge*(1 + 1e-7)
            in_range = edge*(1 + 1e-7) if sides == 'low' else \
                edge*(1 - 1e-7)
            if not (low <= in_range <= high):
                continue
            a = pick(native(mat, rmat.name, float(out)))
            b = pick(native(mat, rmat.name, float(in_range)))
            ctx.check(abs(a - b) < 1e-3*(1 + abs(b)), "jump at the end of "
                      "the data", 'continuity observed', a=a, b=b, **desc)
    ctx.sig(kind, order, sides, tpair)


def case_refused(ctx):
    roll = ctx.idx % 5
    if roll == 0:
        mat, rmat, desc = gen.make_material(ctx, 'model_eps')
        low, high = rmat.range_m()
        lam = gen.inside(ctx, rmat, 5)
        before = mat.get_permittivity(lam)
        spec, _ = gen.request(ctx, np.array([low*0.9, high*1.1]))
        ctx.describe(kind='complex', desc=desc)
        ctx.raises(Exception, lambda: mat.extrapolate(spec), "extrapolating "
                   "complex data", 'complex data refused', desc=desc)
        ctx.check(gen.same(before, mat.get_permittivity(lam)),
                  "refused extrapolation changed the material",
                  'refusals leave the material unchanged')
        ctx.sig(roll, desc.get('model'))
        return
    if roll == 1:
        mat, rmat, desc = gen.make_material(ctx, ctx.choice(
            ['fixed_n', 'fixed_nk', 'fixed_eps', 'fixed_eps_r']))
        lam = gen.inside(ctx, rmat, 5)
        before = mat.get_nk_data(lam)
        spec, _ = gen.request(ctx, np.array([5e-8, 5e-5]))
        ctx.describe(kind='fixed', desc=desc)
        ctx.accepts(lambda: mat.extrapolate(spec), "extrapolating a constant")
        ctx.check(gen.same(before, mat.get_nk_data(lam)) and
                  gen.same(before, mat.get_nk_data(lam*1.5)),
                  "a constant material changed", 'constant parts unchanged',
                  desc=desc)
        ctx.sig(roll, desc['kind'])
        return
    kind = ctx.choice(['tab_n', 'tab_nk', 'tab_eps', 'model_n',
                       'mixed_tables'])
    mat, rmat, desc = gen.make_material(ctx, kind, small=True)
    low, high = rmat.range_m()
    if not low*(1 + 1e-3) < high:
        return
    parts = [p for p in (rmat.real, rmat.imag) if p.kind != 'const']
    out_low = min(p.range_m()[0] for p in parts)
    out_high = max(p.range_m()[1] for p in parts)
    lam = gen.inside(ctx, rmat, 7)
    before = mat.get_nk_data(lam)
    rng0 = mat.get_maximum_valid_range()
    counter = 'inside targets refused'
    if roll == 2:
        targets = float(np.exp(ctx.rng.uniform(np.log(low*(1 + 1e-4)),
                                               np.log(high*(1 - 1e-4)))))
        if ctx.chance(0.3):
            targets = np.array([targets])
    elif roll == 3:
        inner = float(np.sqrt(low*high))
        targets = ctx.choice([[out_low*0.9, inner], [inner, out_high*1.1],
                              [inner, out_low*0.9], [out_high*1.1, inner],
                              [inner, inner*1.0001]])
        targets = np.array(targets)
    else:
        targets = np.array([out_low*0.9, out_high*1.1, out_high*1.2, 
                            out_low*0.8])[:ctx.randint(3, 4)]
        counter = 'three targets refused'
    tspec, tpair = gen.request(ctx, targets)
    ctx.describe(kind=kind, desc=desc, targets=targets)
    ctx.raises(ValueError, lambda: mat.extrapolate(tspec, spline_order=ctx.
                                                   choice([1, 2, 3])),
               "extrapolation target", counter, desc=desc, targets=targets)
    ctx.check(gen.same(before, mat.get_nk_data(lam)) and
              gen.same(rng0, mat.get_maximum_valid_range()),
              "refused extrapolation changed the material",
              'refusals leave the material unchanged', desc=desc)
    for bad in (low*(1 - 1e-4), high*(1 + 1e-4)):
        ctx.raises(ValueError, lambda: mat.get_nk_data(float(bad)),
                   "range after a refused extrapolation",
                   'refusals leave the material unchanged')
    ctx.sig(roll, kind, tpair, np.size(targets))


def case_partial(ctx):
    """a target outside of one part and inside of the other"""
    window = gen.lam_window(ctx, decades=0.4)
    mat = Material(fixed_n=1.0)
    tab1, part1, pair = gen.make_table_part(ctx, 'n', window)
    win2 = (window[0]*0.6, window[1]*1.6)
    tab2, part2, pair2 = gen.make_table_part(ctx, 'k', win2)
    swap = ctx.chance(0.5)
    mat.data['real'], mat.data['imag'] = (tab2, tab1) if swap else \
        (tab1, tab2)
    mat.defaults.update(spectrum_type=pair[0], unit=pair[1])
    lam = np.exp(ctx.rng.uniform(np.log(window[0]*1.001),
                                 np.log(window[1]*0.999), 8))
    before = mat.get_nk_data(lam)
    target = ctx.choice([window[0]*0.8, window[1]*1.3])
    tspec, tpair = gen.request(ctx, target)
    ctx.describe(pairs=(pair, pair2), swap=swap, target=target)
    try:
        mat.extrapolate(tspec, spline_order=1)
    except ValueError:
        # refused: nothing may have changed
        ctx.raises(ValueError, lambda: mat.get_nk_data(tspec), "evaluating "
                   "at the target of a refused extrapolation",
                   'refusals leave the material unchanged')
    else:
        ctx.accepts(lambda: mat.get_nk_data(tspec), "evaluating at the "
                    "target")
    ctx.check(gen.same(before, mat.get_nk_data(lam)),
              "extrapolation changed values inside of the original range",
              'inside unchanged')
    ctx.sig(swap, pair, pair2, tpair)


def case_bounded(ctx):
    """one part is constant and known in a range or at a point only"""
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    window = gen.lam_window(ctx, decades=0.5)
    tab, part, _ = gen.make_table_part(ctx, 'n', window)
    wide = (window[0]*0.9, window[1]*1.1)
    const = Constant(0.25, valid_range=np.sort(ref.from_metre(
        pair, np.array(wide))), spectrum_type=stype, unit=unit)
    mat = Material(fixed_n=1.0)
    swap = ctx.chance(0.5)
    mat.data['real'], mat.data['imag'] = (const, tab) if swap else \
        (tab, const)
    ctx.describe(pair=pair, window=window, swap=swap)
    pick = np.real if swap else np.imag
    targets = np.array([window[0]*0.6, window[1]*1.5])
    tspec, tpair = gen.request(ctx, targets)
    try:
        mat.extrapolate(tspec, spline_order=1)
    except ValueError:
        ctx.count('bounded constants refused')
        wide = window
    for lam in (window[0]*1.01, window[1]*0.99, wide[0]*1.02, wide[1]*0.98):
        spec, _ = gen.request(ctx, float(lam))
        got = ctx.accepts(lambda: mat.get_nk_data(spec), "evaluating where "
                          "all parts are known", lam=lam)
        ctx.check(pick(got) == 0.25, "a constant part changed",
                  'constant parts unchanged', got=got)
    for lam in (wide[0]*0.98, wide[1]*1.02, targets[0]*1.01,
                targets[1]*0.99):
        spec, _ = gen.request(ctx, float(lam))
        ctx.raises(ValueError, lambda: mat.get_nk_data(spec), "a constant "
                   "part was evaluated beyond its range",
                   'constant parts keep their range', lam=lam)
    ctx.sig(pair, tpair, swap)


def observe(mat, name, lam):
    """[(wavelength in metre, value, change over a rounding step)]"""
    vals, low, high = (native(mat, name, Spectrum(lam*fac))
                       for fac in (1.0, 1 - 1e-7, 1 + 1e-7))
    tol = 3*(np.abs(low - vals) + np.abs(high - vals)) + \
        1e-8*np.max(np.abs(vals))
    return list(zip(lam, vals, tol))


def case_again(ctx):
    """several extrapolations one after the other, to any side"""
    kind = ctx.choice(['tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha',
                       'mixed_tables', 'model_n', 'mixed_model_table'])
    mat, rmat, desc = gen.make_material(ctx, kind, small=True)
    low, high = (float(v) for v in rmat.range_m())
    desc = {'kind': kind, 'desc': desc}
    ctx.describe(**desc)
    if not low*(1 + 1e-2) < high:
        return
    parts = [p for p in (rmat.real, rmat.imag) if p.kind != 'const']
    out_low = float(min(p.range_m()[0] for p in parts))
    out_high = float(max(p.range_m()[1] for p in parts))
    first = gen.inside(ctx, rmat, 6)
    probes = [gen.request(ctx, first)[0]]
    seen = [native(mat, rmat.name, probes[0])]
    known = observe(mat, rmat.name, first)
    history = []
    for _ in range(ctx.randint(2, 4)):
        side = ctx.choice(['low', 'high', 'both'])
        order = ctx.choice([1, 1, 2, 3])
        below = out_low*(1 - ctx.rng.uniform(0.01, 0.06))
        above = out_high*(1 + ctx.rng.uniform(0.01, 0.06))
        targets = {'low': below, 'high': above,
                   'both': np.array([above, below])}[side]
        tspec, tpair = gen.request(ctx, targets)
        history.append((side, order, tpair))
        ctx.event('extrapolate', side, order, targets)
        ctx.accepts(lambda: mat.extrapolate(tspec, spline_order=order),
                    "extrapolating again", history=history, **desc)
        ctx.count('repeated extrapolations')
        # the part of the new range beyond the old data of every part
        new = []
        if side != 'high':
            new += [below*(1 + 1e-5), 0.5*(below + out_low)]
            low = out_low = below
        if side != 'low':
            new += [above*(1 - 1e-5), 0.5*(above + out_high)]
            high = out_high = above
        nspec, _ = gen.request(ctx, np.array(new))
        fresh = ctx.accepts(lambda: native(mat, rmat.name, nspec),
                            "evaluating in the new range", history=history,
                            **desc)
        for spec, want in zip(probes, seen):
            got = ctx.accepts(lambda: native(mat, rmat.name, spec),
                              "values known before an extrapolation",
                              history=history, **desc)
            ctx.check(gen.same(got, want), "an extrapolation changed values "
                      "inside of the range", 'inside unchanged', got=got,
                      want=want, history=history, **desc)
        ctx.accepts(lambda: native(mat, rmat.name, tspec), "evaluating at "
                    "the target", history=history, **desc)
        ctx.check(gen.same(native(mat, rmat.name, nspec), fresh), "values in "
                  "the new range change after other requests",
                  'inside unchanged', history=history, **desc)
        # requests that mix what was known with the new range
        pick = ctx.rng.permutation(len(known))[:ctx.choice([1, 1, 2, 4])]
        lam = np.array([known[i][0] for i in pick] + new)
        perm = ctx.rng.permutation(len(lam))
        spec, _ = gen.request(ctx, lam[perm])
        got = np.empty(len(lam), dtype=complex)
        got[perm] = ctx.accepts(lambda: native(mat, rmat.name, spec),
                                "a mixed request", history=history, **desc)
        for val, i in zip(got, pick):
            ctx.check(abs(val - known[i][1]) <= known[i][2], "mixed requests "
                      "change values inside of the range", 'mixed requests',
                      got=val, want=known[i][1], tol=known[i][2],
                      lam=known[i][0], new=new, history=history, **desc)
        known += observe(mat, rmat.name, np.array(new[1::2]))
        if side == 'both' or len(parts) == 1 or ctx.chance(0.5):
            spec, _ = gen.request(ctx, np.array(new))
            probes.append(spec)
            seen.append(ctx.accepts(lambda: native(mat, rmat.name, spec),
                                    "evaluating in the new range",
                                    history=history, **desc))
        for edge, sign in ((low, -1), (high, 1)):
            bad = edge*(1 + sign*ctx.choice([1e-4, 1e-2, 0.3]))
            bspec, _ = gen.request(ctx, bad)
            ctx.raises(ValueError, lambda: native(mat, rmat.name, bspec),
                       "evaluating beyond all targets",
                       'refused beyond the target', value=bad,
                       history=history, **desc)
    ctx.sig(kind, tuple(history))


def case_same_side(ctx):
    """two targets on one side reach as far as the farther one"""
    kind = ctx.choice(['tab_n', 'tab_nk', 'tab_eps', 'mixed_tables',
                       'model_n', 'mixed_model_table'])
    mat, rmat, desc = gen.make_material(ctx, kind, small=True)
    low, high = (float(v) for v in rmat.range_m())
    if not low*(1 + 1e-3) < high:
        return
    parts = [p for p in (rmat.real, rmat.imag) if p.kind != 'const']
    out_low = float(min(p.range_m()[0] for p in parts))
    out_high = float(max(p.range_m()[1] for p in parts))
    up = ctx.chance(0.5)
    edge, sign = (out_high, 1) if up else (out_low, -1)
    near, far = edge*(1 + 0.02*sign), edge*(1 + sign*ctx.rng.uniform(
        0.03, 0.2))
    targets = np.array([near, far])[::ctx.choice([1, -1])]
    tspec, tpair = gen.request(ctx, targets)
    order = ctx.choice([1, 2, 3])
    ctx.describe(kind=kind, desc=desc, targets=targets, order=order)
    info = {'kind': kind, 'targets': targets, 'pair': tpair}
    lam = gen.inside(ctx, rmat, 6)
    before = native(mat, rmat.name, Spectrum(lam))
    ctx.accepts(lambda: mat.extrapolate(tspec, spline_order=order),
                "extrapolating to two values on one side", **info)
    ctx.check(gen.same(before, native(mat, rmat.name, Spectrum(lam))),
              "extrapolation changed values inside of the range",
              'inside unchanged', **info)
    got = ctx.accepts(lambda: native(mat, rmat.name, tspec), "evaluating at "
                      "the targets", **info)
    ctx.check(np.all(np.isfinite(got)), "values are not finite", got=got,
              **info)
    ctx.count('two targets on one side')
    for bad in (far*(1 + sign*1e-4), (low if up else high)*(1 - sign*1e-4)):
        bspec, _ = gen.request(ctx, float(bad))
        ctx.raises(ValueError, lambda: native(mat, rmat.name, bspec),
                   "evaluating beyond the targets",
                   'refused beyond the target', value=bad, **info)
    ctx.sig('same side', kind, tpair, up, order)


def case_zero(ctx):
    """data that start at zero, or are continued down to zero"""
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    top = float(ref.from_metre(pair, 10**ctx.rng.uniform(-7, -5.3)))
    down = ctx.chance(0.4)
    num = ctx.choice([2, 3, 5, 30])
    xx = np.concatenate([[0.0], np.sort(ctx.rng.uniform(0.05, 0.95, num - 2)),
                         [1.0]])
    if down:
        xx = 0.3 + 0.7*xx
    if np.min(np.diff(xx)) < 1e-4:
        return
    order = ctx.choice([1, 2, None])
    slope = ctx.rng.uniform(-0.5, 2.0)
    line = lambda x: 1.5 + slope*x
    name = ctx.choice(['n', 'nk', 'eps'])
    cols = [line(xx)] if name == 'n' else [line(xx), line(xx)/3]
    mat = Material(**{'tabulated_' + name: gen.shuffled(
        ctx, np.column_stack([xx*top] + cols)), 'spectrum_type': stype,
        'unit': unit})
    high = ctx.rng.uniform(1.05, 1.5)
    ctx.describe(pair=pair, x=xx*top, down=down, order=order, name=name)
    kw = {} if order is None else {'spline_order': order}
    targets = [0.0, high*top] if down else [high*top]
    targets = np.array(targets)[::ctx.choice([1, -1])] \
        if down or ctx.chance(0.5) else targets[0]
    ctx.accepts(lambda: mat.extrapolate(Spectrum(targets, stype, unit), **kw),
                "extrapolating data in a range from zero", pair=pair,
                targets=targets)
    again = ctx.chance(0.3)
    if again:
        high *= 1.1
        ctx.accepts(lambda: mat.extrapolate(
            Spectrum(high*top, stype, unit), **kw), "extrapolating again",
            pair=pair)
    probe = np.concatenate([[0.0, high, xx[0], xx[-1]],
                            ctx.rng.uniform(0, high, 8)])
    got = native(mat, 'eps' if name == 'eps' else 'nk',
                 Spectrum(probe*top, stype, unit))
    want = line(probe)*(1 if name == 'n' else 1 + 1j/3)
    # rounding of the samples is amplified by a spline of second order
    ctx.close(got, want, "data from zero are not continued", rtol=1e-12,
              atol=3e-4 if order == 1 else 0.03, counter='data from zero', pair=pair, targets=targets)
    ctx.raises(ValueError, lambda: mat.get_nk_data(
        Spectrum(high*top*1.001, stype, unit)), "evaluating beyond all "
        "targets", 'refused beyond the target')
    ctx.sig(pair, name, down, order, num, again)


SCENARIOS = {
    'zero': {'case': case_zero, 'quick': 1000, 'thorough': 20000},
    'same_side': {'case': case_same_side, 'quick': 400, 'thorough': 8000},
    'bounded': {'case': case_bounded, 'quick': 400, 'thorough': 8000},
    'again': {'case': case_again, 'quick': 1200, 'thorough': 25000},
    'poly': {'case': case_poly, 'quick': 3000, 'thorough': 60000},
    'general': {'case': case_general, 'quick': 1500, 'thorough': 30000},
    'refused': {'case': case_refused, 'quick': 2000, 'thorough': 30000},
    'partial': {'case': case_partial, 'quick': 400, 'thorough': 8000},
}
