"""C04 data are never evaluated outside their range, and always inside"""
import os
import numpy as np
from dispersion import Spectrum, Constant, Interpolation, Material
from .. import gen, ref

PROP = 'C04'
RULE = ("a case takes data of one kind with a known range and sends requests "
        "in all quantities/units with zero, one or several offending values "
        "at random positions and distances (1e-8 relative to factors of 10); "
        "distinct by (kind, own unit, request unit, side, distance class, "
        "position class, request size)")
ASSUMPTIONS = ["values closer than 1e-8 (relative) to an end point, other "
               "than the end point itself, are not probed"]
REQUIRED = ['out of range requests', 'in range requests',
            'end point requests', 'containment tests',
            'converted end points', 'tables in single precision',
            'single precision requests', 'single points']

KINDS = ('const', 'table', 'model', 'material', 'material', 'material')


def make_target(ctx):
    """(name, evaluate function, range in metre, own pair or None, desc)"""
    kind = ctx.choice(KINDS)
    if kind == 'const':
        pair = gen.any_pair(ctx)
        stype, unit = gen.spell(ctx, pair)
        low, high = np.sort(ref.from_metre(pair, gen.lam_window(ctx)))
        vrange = gen.range_container(ctx, (low, high))
        if pair[1] == 'nm' and ctx.chance(0.5):
            low, high = float(round(low)) + 1, float(round(high)) + 20
            vrange = (int(low), int(high))
        obj = Constant(2.5, valid_range=vrange, spectrum_type=stype,
                       unit=unit)
        lam = np.sort(ref.to_metre(pair, np.array([low, high])))
        return kind, [obj.evaluate], lam, (pair, (low, high)), {'pair': pair}
    if kind == 'table':
        pair = gen.any_pair(ctx)
        stype, unit = gen.spell(ctx, pair)
        num = gen.table_size(ctx)
        xx = gen.table_x(ctx, pair, num)
        xx, cols, dtype = gen.rounded(ctx, xx, [gen.column(ctx, 'n', num)],
                                      0.2)
        tab = gen.shuffled(ctx, np.column_stack([xx] + cols))
        obj = Interpolation(gen.stored(ctx, tab, dtype), spectrum_type=stype,
                            unit=unit)
        lam = np.sort(ref.to_metre(pair, xx[[0, -1]]))
        return kind, [obj.evaluate], lam, (pair, (xx[0], xx[-1])), \
            {'pair': pair, 'rows': num}
    if kind == 'model':
        obj, _, desc = gen.make_model(ctx)
        pair = gen.model_pair(desc['model'])
        lam = np.sort(ref.to_metre(pair, np.array(desc['range'])))
        return kind, [obj.evaluate], lam, (pair, desc['range']), desc
    mkind = ctx.choice(['tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha',
                        'model_n', 'model_eps', 'mixed_model_table',
                        'mixed_tables', 'mixed_eps', 'k_only',
                        'part_const'])
    mat, rmat, desc = gen.make_material(ctx, mkind, small=True)
    return (mkind, [mat.get_nk_data, mat.get_permittivity], rmat.range_m(),
            None, desc)


def one_point(ctx):
    """data known at a single point only"""
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    val = float(ref.from_metre(pair, gen.lam_window(ctx)[0]))
    mode = ctx.choice(['const', 'n', 'nk', 'eps', 'file'])
    if mode == 'const':
        rng = gen.range_container(ctx, (val, val))
        obj = Constant(2.5, valid_range=rng, spectrum_type=stype, unit=unit)
        return mode, [obj.evaluate], val, pair
    row = [val, 1.5] if mode == 'n' else [val, 1.5, 0.25]
    if mode == 'file':
        path = os.path.join(ctx.tmpdir(), 'one.txt')
        with open(path, 'w', encoding='utf-8') as fpt:
            fpt.write('# SPECTRUMTYPE: %s\n# UNIT: %s\n%s\n' % (
                stype, unit, ' '.join(repr(v) for v in row)))
        mat = Material(file_path=path)
    else:
        mat = Material(**{'tabulated_' + mode: np.array([row]),
                          'spectrum_type': stype, 'unit': unit})
    return mode, [mat.get_nk_data, mat.get_permittivity], val, pair


def case_point(ctx):
    mode, funcs, val, pair = one_point(ctx)
    stype, unit = gen.spell(ctx, pair)
    lam = float(ref.to_metre(pair, val))
    step = margin(lam, lam, 1e-8)
    ctx.describe(mode=mode, pair=pair, value=val)
    for _ in range(4):
        func = ctx.choice(funcs)
        size = ctx.choice([0, 1, 3])
        own = np.full(size, val) if size else val
        got = ctx.accepts(lambda: func(Spectrum(own, stype, unit)), "the "
                          "only known point was refused", mode=mode,
                          pair=pair, value=val)
        ctx.check(np.all(np.isfinite(got)), "value is not finite", got=got)
        dist = max(step, ctx.choice([1e-8, 1e-6, 1e-3, 0.5, 10.0]))
        bad = lam*(1 + dist) if ctx.chance(0.5) else lam/(1 + dist)
        req = np.full(size, lam) if size else bad
        if size:
            req[ctx.randint(0, size - 1)] = bad
        spec, qpair = gen.request(ctx, req)
        ctx.raises(ValueError, lambda: func(spec), "request beside the only "
                   "known point", 'single points', mode=mode, pair=pair,
                   value=val, bad=bad, dist=dist)
        ctx.sig('point', mode, pair, qpair, size, float('%.0e' % dist))


def margin(low, high, least):
    """smallest relative distance which survives the rounding of values

    energies are rounded to 1e-9 eV, which is coarser than 1e-8 relative
    for wavelengths in the range of millimetres
    """
    step = least
    if np.isfinite(high):
        step = max(step, 5*ref.round_step(('energy', 'ev'))*high/ref.HC)
    if low > 0:
        step = max(step, 5e-15/low)
    return step


def offender(ctx, low, high):
    side = ctx.choice(['below', 'above'])
    dist = max(ctx.choice([1e-8, 1e-8, 1e-6, 1e-5, 1e-3, 0.1, 0.5, 10.0]),
               margin(low, high, 1e-8))
    if side == 'below':
        val = low/(1 + dist)
    else:
        val = high*(1 + dist)
    if ctx.chance(0.04):
        val = ctx.choice([0.0, np.inf])
        side, dist = 'limit', 0
    return val, side, dist


def case_guard(ctx):
    kind, funcs, (low, high), own, desc = make_target(ctx)
    ctx.describe(kind=kind, desc=desc, range_m=[low, high])
    step = margin(low, high, 1e-8)
    usable = low*(1 + 4*step) < high
    for _ in range(6):
        func = ctx.choice(funcs)
        pair = gen.any_pair(ctx)
        if own is not None and ctx.chance(0.3):
            pair = own[0]
        size = ctx.choice([0, 0, 1, 2, 3, 10, 100, ctx.randint(2, 40),
                           ctx.randint(40, 400)])
        if ctx.chance(0.04):
            size = ctx.choice([600, 1100, 2500, 5000, 12000])
        if usable:
            good = np.exp(ctx.rng.uniform(np.log(low*(1 + step)),
                                          np.log(high*(1 - step)),
                                          max(size, 1)))
        else:
            continue
        if ctx.chance(0.5):
            good = np.sort(good)[::ctx.choice([1, -1])]
        ctx.event(func.__name__, pair, size)
        # all inside
        lam = good if size else good[0]
        spec, _ = gen.request(ctx, lam, pair)
        ctx.accepts(lambda: func(spec), "request inside of the range was "
                    "refused", kind=kind, pair=pair, lam=lam,
                    range_m=[low, high])
        ctx.count('in range requests')
        # one or more offending
        bad, side, dist = offender(ctx, low, high)
        if side == 'limit' and kind == 'k_only' and not np.isfinite(high):
            continue
        if not (bad < low or bad > high):
            continue
        pos = ctx.randint(0, max(size, 1) - 1)
        mixed = np.array(good)
        mixed[pos] = bad
        if size > 2 and ctx.chance(0.3):
            mixed[ctx.randint(0, size-1)] = bad
        if size and ctx.chance(0.25):
            mixed = np.full(size, bad)
        lam = mixed if size else mixed[0]
        spec, _ = gen.request(ctx, lam, pair)
        ctx.raises(ValueError, lambda: func(spec),
                   "request outside of the range", 'out of range requests',
                   kind=kind, pair=pair, bad=bad, side=side, dist=dist,
                   range_m=[low, high], size=size)
        ctx.sig(kind, pair, side, float('%.0e' % dist), size,
                'first' if pos == 0 else 'last' if pos == size-1 else 'mid',
                func.__name__)
        # raw values instead of a Spectrum
        if len(funcs) == 2 and ctx.chance(0.3):
            vals = ref.from_metre(pair, lam)
            vals = float(vals) if size == 0 else gen.container(ctx, vals)
            ctx.raises(ValueError, lambda: func(vals, pair[0], pair[1]),
                       "request outside of the range (raw values)",
                       'out of range requests', kind=kind, pair=pair,
                       side=side, dist=dist)


def case_ends(ctx):
    """end points of the own range, in the own and in other units"""
    kind, funcs, (low, high), own, desc = make_target(ctx)
    ctx.describe(kind=kind, desc=desc, range_m=[low, high])
    if not np.isfinite(high) or low <= 0 or low >= high:
        ctx.count('end point requests', 0)
        return
    for _ in range(4):
        func = ctx.choice(funcs)
        if own is not None and ctx.chance(0.5):
            pair, ends = own[0], np.array(own[1], dtype=float)
        else:
            pair = gen.any_pair(ctx)
            ends = ref.from_metre(pair, np.array([low, high]))
        stype, unit = gen.spell(ctx, pair)
        which = ctx.choice([[0], [1], [0, 1], [1, 0], [0, 0, 1]])
        vals = ends[which]
        if ctx.chance(0.4):
            vals = np.concatenate([vals, [np.sqrt(ends[0]*ends[1])]])
        vals = float(vals[0]) if ctx.chance(0.3) else vals
        if np.ndim(vals) and np.array_equal(np.float32(vals), vals):
            ctx.count('single precision requests')
            vals = vals.astype(ctx.choice(['f4', '>f4']))
        spec = Spectrum(vals, stype, unit)
        history = None
        if ctx.chance(0.3):
            # denotes the same end points after conversions in place
            history = [gen.any_pair(ctx) for _ in range(ctx.randint(1, 2))]
            for step in history:
                spec.convert_to(*gen.spell(ctx, step), in_place=True)
            ctx.count('converted end points')
        got = ctx.accepts(lambda: func(spec), "end point of the own range "
                          "was refused", kind=kind, pair=pair, values=vals,
                          history=history, range_m=[low, high])
        ctx.check(np.all(np.isfinite(got)), "value at the end of the range "
                  "is not finite", 'end point requests', got=got, kind=kind,
                  pair=pair)
        ctx.sig('ends', kind, pair, tuple(which), desc.get('pair'))


def case_contains(ctx):
    """containment of two spectra in all combinations of units"""
    pair1, pair2 = gen.any_pair(ctx), gen.any_pair(ctx)
    low, high = gen.lam_window(ctx, low=1e-9, high=1e-3)
    num = ctx.choice([2, 2, 3, 20])
    lam = np.concatenate([[low, high], np.exp(ctx.rng.uniform(
        np.log(low), np.log(high), num - 2))])
    lam = lam[ctx.rng.permutation(num)]
    box, _ = gen.request(ctx, lam, pair1)
    step = margin(low, high, 2e-8)
    size = ctx.choice([0, 1, 2, 30, ctx.randint(2, 200)])
    if ctx.chance(0.03):
        size = ctx.choice([600, 1100, 2500, 12000])
    good = np.exp(ctx.rng.uniform(np.log(low*(1+step)),
                                  np.log(high*(1-step)), max(size, 1)))
    bad = np.array(good)
    bad[ctx.randint(0, len(bad)-1)] = ctx.choice(
        [low*(1-step), high*(1+step), low/3, high*3])
    spec, _ = gen.request(ctx, good if size else good[0], pair2)
    if low*(1+step) < high*(1-step):
        got = ctx.accepts(lambda: box.contains(spec), "contained spectrum "
                          "refused", pair1=pair1, pair2=pair2)
        ctx.check(bool(got), "containment test is not true",
                  'containment tests')
    spec, _ = gen.request(ctx, bad if size else bad[0], pair2)
    ctx.raises(ValueError, lambda: box.contains(spec),
               "spectrum which is not contained", 'containment tests',
               pair1=pair1, pair2=pair2, box=lam, values=bad)
    # a scalar box contains itself only
    point, _ = gen.request(ctx, float(low), pair1)
    ctx.accepts(lambda: point.contains(point), "point contains itself",
                pair=pair1)
    ctx.sig('contains', pair1, pair2, size, num)


SCENARIOS = {
    'guard': {'case': case_guard, 'quick': 6000, 'thorough': 100000},
    'point': {'case': case_point, 'quick': 2000, 'thorough': 30000},
    'ends': {'case': case_ends, 'quick': 5000, 'thorough': 80000},
    'contains': {'case': case_contains, 'quick': 5000, 'thorough': 60000},
}
