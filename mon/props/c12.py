"""C12 the maximum valid range is where the material can be evaluated"""
import os
import numpy as np
from dispersion import Material, Spectrum, Writer
from dispersion.material import Simple
from .. import gen, ref

PROP = 'C12'
RULE = ("a case is a material of any kind (also read from a file, after "
        "removal of absorption, extrapolated, or an effective medium); its "
        "reported range is compared with the intersection of the ranges of "
        "its parts, then the material is evaluated at both ends, inside, "
        "beyond each end, and on its sample spectrum; distinct by (kind, "
        "history, units of the parts, which part bounds which end)")
ASSUMPTIONS = ["a material whose parts have no common range can be evaluated "
               "nowhere; only that is observed for it"]
REQUIRED = ['ranges compared', 'evaluated at the ends', 'evaluated inside',
            'refused beyond the ends', 'sample spectra evaluated',
            'sample covers range', 'half open samples', 'fixed materials',
            'no common range', 'asked before a change',
            'wide tables', 'tables from zero']

KINDS = gen.MATERIAL_KINDS + ('part_const', 'disjoint', 'medium', 'half_const', 'tauc',
                               'wide', 'from_zero')


def canonical(stype, unit):
    stype, unit = stype.lower(), unit.lower()
    for pair in ref.PAIRS:
        if pair[0] == stype and unit in [u.lower() for u in ref.UNITS[pair]]:
            return pair
    raise ValueError("unknown unit in defaults: %s %s" % (stype, unit))


def make(ctx):
    """material, range in metre, description, history"""
    kind = KINDS[ctx.idx % len(KINDS)]
    if kind == 'tauc':
        mat, _, desc = gen.make_material(ctx, 'model_eps',
                                         models=('TaucLorentz',))
        rng = np.sort(ref.to_metre(('energy', 'ev'),
                                   np.array(desc['range'])))
        return kind, mat, rng, desc, ()
    if kind in ('wide', 'from_zero'):
        # many decades, or a first row at zero (an infinite wavelength)
        pair = gen.any_pair(ctx)
        stype, unit = gen.spell(ctx, pair)
        mid = np.log10(ctx.choice([4e-7, 1e-6, 2e-5]))
        lam = np.sort(10**(mid + ctx.rng.uniform(1.5, 2.6)*np.linspace(
            -1, 1, ctx.choice([2, 3, 10, 60]))))
        xx = np.sort(ref.from_metre(pair, lam))
        if kind == 'from_zero':
            xx[0] = 0.0
            ctx.count('tables from zero')
        else:
            ctx.count('wide tables')
        tab = np.column_stack([xx, ctx.rng.uniform(1, 3, len(xx)),
                               ctx.rng.uniform(0, 1, len(xx))])
        arg = ctx.choice(['tabulated_nk', 'tabulated_eps', 'tabulated_n'])
        mat = Material(**{arg: tab[:, :2 if arg == 'tabulated_n' else 3],
                          'spectrum_type': stype, 'unit': unit})
        with np.errstate(divide='ignore'):
            rng = np.sort(ref.to_metre(pair, xx[[0, -1]]))
        return kind, mat, rng, {'pair': pair}, ()
    if kind == 'medium':
        lam = np.sort(gen.distinct_in(ctx, *gen.lam_window(ctx), 5))
        spec, pair = gen.request(ctx, lam)
        mat = Simple(spec, Material(fixed_n=1.5), Material(fixed_eps=3 + 1j),
                     0.25)
        return kind, mat, lam[[0, -1]], {'pair': pair}, ()
    if kind == 'disjoint':
        low, high = gen.lam_window(ctx, decades=0.3)
        mat = Material(fixed_n=1.0)
        gap = ctx.choice([0.05, 1e-3, 1e-4, 1e-6])
        tab1, part1, pair = gen.make_table_part(ctx, 'n', (low, high))
        above = ctx.chance(0.5)
        while True:
            tab2, part2, pair2 = gen.make_table_part(
                ctx, 'k', (high*(1 + gap), high*2) if above else
                (low*0.4, low*(1 - gap)))
            rng1, rng2 = part1.range_m(), part2.range_m()
            if max(rng1[0], rng2[0]) > min(rng1[1], rng2[1])*(1 + 1e-8):
                break
            gap += 0.01  # numbers of few digits may have closed the gap
        mat.data['real'], mat.data['imag'] = tab1, tab2
        mat.defaults.update(spectrum_type=pair[0], unit=pair[1])
        return kind, mat, None, {'pair': pair, 'pair2': pair2, 'windows': [
            part1.range_m(), part2.range_m()]}, ()
    if kind == 'half_const':
        # constant data with a half open range, in any quantity
        from dispersion import Constant
        pair = gen.any_pair(ctx)
        stype, unit = gen.spell(ctx, pair)
        edge = float(ref.from_metre(pair, gen.lam_window(ctx)[0]))
        rng = (0.0, edge) if ctx.chance(0.5) else (edge, np.inf)
        mat = Material(fixed_n=2.0)
        mat.data['real'] = Constant(2.0, valid_range=rng,
                                    spectrum_type=stype, unit=unit)
        other = ctx.chance(0.5)
        mat.defaults.update(spectrum_type=stype, unit=unit)
        if other:
            pair2 = gen.any_pair(ctx)
            stype2, unit2 = gen.spell(ctx, pair2)
            mat.defaults.update(spectrum_type=stype2, unit=unit2)
        return kind, mat, np.sort(ref.to_metre(pair, np.array(rng))), \
            {'pair': pair, 'range': rng}, ()
    mat, rmat, desc = gen.make_material(ctx, kind, small=True)
    rng = rmat.range_m()
    history = []
    if rng[0] > rng[1]:
        return kind, mat, None, desc, ()
    parts = [rmat.cplx] if rmat.cplx is not None else [rmat.real, rmat.imag]
    const = any(p.kind == 'const' for p in parts)
    if ctx.chance(0.3) and not kind.startswith('fixed') and not (
            const and kind in ('k_only', 'part_const')):
        path = os.path.join(ctx.tmpdir(), 'm.yml')
        Writer(path, mat).write_file()
        mat = Material(file_path=path)
        history.append('file')
    if ctx.chance(0.5):
        # asking for the range (or not) has no influence on later answers
        mat.get_maximum_valid_range()
        if ctx.chance(0.5):
            mat.get_sample_spectrum()
        if ctx.chance(0.3) and rng[0]*1.001 < rng[1]:
            mat.get_nk_data(gen.request(ctx, gen.inside(ctx, rmat, 2))[0])
        history.append('asked')
        ctx.count('asked before a change')
    if ctx.chance(0.25) and rmat.cplx is None:
        mat.remove_absorption()
        rng = ref.RefMaterial(rmat.name, rmat.real).range_m()
        history.append('lossless')
    if ctx.chance(0.2) and rmat.cplx is None and rng[0] < rng[1] < np.inf \
            and rng[0] > 0 and kind in ('tab_n', 'tab_nk', 'tab_eps'):
        target = np.array([rng[0]*0.9, rng[1]*1.1])
        mat.extrapolate(gen.request(ctx, target)[0], spline_order=1)
        rng = target
        history.append('extrapolated')
    desc['bounds'] = [p.kind for p in parts]
    return kind, mat, rng, desc, tuple(history)


def case_range(ctx):
    kind, mat, rng, desc, history = make(ctx)
    ctx.describe(kind=kind, desc=desc, history=history)
    if rng is None:
        lam = np.concatenate([np.geomspace(1e-8, 1e-3, 40)])
        for wvl in lam[::4]:
            ctx.raises(ValueError, lambda: mat.get_nk_data(float(wvl)),
                       "material without a common range", 'no common range')
        if ctx.chance(0.6):
            pair = gen.any_pair(ctx)
            mat.defaults.update(spectrum_type=pair[0], unit=pair[1])
        try:
            got = mat.get_maximum_valid_range()
        except (ValueError, RuntimeError):
            got = None
        ctx.check(got is None or got[0] > got[1], "a range is reported for a "
                  "material without one", 'no common range', got=got,
                  defaults=mat.defaults)
        ctx.raises(ValueError, lambda: mat.get_nk_data(
            mat.get_sample_spectrum()), "evaluating a sample spectrum of a "
            "material without a common range", 'no common range')
        ctx.sig(kind, str(desc.get('pair')), str(desc.get('pair2')))
        return
    pair = canonical(mat.defaults['spectrum_type'], mat.defaults['unit'])
    if 'pair' in desc and not set(history) - {'asked'} and kind in (
            'tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha', 'one_row'):
        ctx.check(pair == desc['pair'], "default quantity and unit are not "
                  "those of the table", got=pair, want=desc['pair'])
    got = mat.get_maximum_valid_range()
    want = np.sort(ref.from_metre(pair, np.asarray(rng)))
    step = ref.round_step(pair)
    ctx.check(np.shape(got) == (2,) and got[0] <= got[1],
              "maximum valid range is not [lower, upper]", got=got)
    ctx.close(np.asarray(got, dtype=float), want, "maximum valid range is "
              "not the intersection of the ranges of the parts", rtol=3e-9,
              atol=3*step, counter='ranges compared', pair=pair)
    stype, unit = mat.defaults['spectrum_type'], mat.defaults['unit']
    finite = [0 < v < np.inf for v in got]
    if kind.startswith('fixed'):
        ctx.count('fixed materials')
    # the ends themselves, as reported and as converted
    ends = [float(v) for v, okay in zip(got, finite) if okay]
    if ends:
        ctx.accepts(lambda: mat.get_nk_data(np.array(ends), stype, unit),
                    "evaluating at the ends of the reported range",
                    got=got, pair=pair)
        ctx.accepts(lambda: mat.get_permittivity(ends[-1], stype, unit),
                    "evaluating at an end of the reported range", got=got,
                    pair=pair)
        ctx.count('evaluated at the ends')
    # throughout
    low, high = float(rng[0]), float(rng[1])
    flow = low if low > 0 else (high/50 if np.isfinite(high) else 1e-7)
    fhigh = high if np.isfinite(high) else max(flow*50, 1e-5)
    if flow*(1 + 1e-6) < fhigh*(1 - 1e-6):
        lam = np.exp(ctx.rng.uniform(np.log(flow*(1 + 3e-7)),
                                     np.log(fhigh*(1 - 3e-7)), 25))
        spec, qpair = gen.request(ctx, lam)
        ctx.accepts(lambda: mat.get_nk_data(spec), "evaluating inside of the "
                    "reported range", got=got, pair=pair, query=qpair)
        ctx.count('evaluated inside')
    else:
        qpair = None
    # beyond either end
    for idx, okay in enumerate(finite):
        if not okay:
            continue
        rel = ctx.choice([1e-5, 1e-3, 0.2, 5.0])
        if idx == 0:
            bad = got[0]/(1 + rel) - 3*step
        else:
            bad = got[1]*(1 + rel) + 3*step
        if bad <= 0:
            continue
        vals = float(bad) if ctx.chance(0.5) else np.array(
            [ends[0], float(bad), ends[-1]])
        bspec = Spectrum(vals, stype, unit)
        if ctx.chance(0.4):
            opair = gen.any_pair(ctx)
            conv = ref.from_metre(opair, ref.to_metre(pair, vals))
            if np.ndim(conv) == 0:
                conv = float(conv)
            if abs(rel) > 1e-4:
                bspec = Spectrum(conv, opair[0], opair[1])
        ctx.raises(ValueError, lambda: mat.get_nk_data(bspec), "evaluating "
                   "beyond the reported range", 'refused beyond the ends',
                   got=got, pair=pair, value=bad)
        ctx.raises(ValueError, lambda: mat.get_permittivity(bspec),
                   "evaluating beyond the reported range",
                   'refused beyond the ends', got=got, pair=pair, value=bad)
    # sample spectrum
    sample = ctx.accepts(mat.get_sample_spectrum, "sample spectrum",
                         range=got, pair=pair)
    svals = np.asarray(sample.convert_to(stype, unit))
    ctx.check(np.all(np.isfinite(svals)) and np.size(svals) > 1,
              "sample spectrum is not usable", values=svals)
    ctx.check(np.min(svals) >= got[0]*(1 - 3e-9) - 3*step and
              np.max(svals) <= got[1]*(1 + 3e-9) + 3*step,
              "sample spectrum leaves the valid range", range=got,
              sample=[np.min(svals), np.max(svals)])
    for func in (mat.get_nk_data, mat.get_permittivity):
        res = ctx.accepts(lambda: func(sample), "evaluating the sample "
                          "spectrum", range=got, pair=pair)
        ctx.check(np.shape(res) == np.shape(svals) and
                  np.all(np.isfinite(res)), "evaluation of the sample "
                  "spectrum is not finite")
    ctx.count('sample spectra evaluated')
    if all(finite):
        ctx.close(np.array([np.min(svals), np.max(svals)]), np.asarray(got),
                  "sample spectrum does not cover the range", rtol=3e-9,
                  atol=3*step, counter='sample covers range')
        if got[1] > got[0]*(1 + 1e-3):
            gap = np.max(np.diff(np.sort(svals)))
            ctx.check(gap < 0.5*(got[1] - got[0]), "sample spectrum leaves "
                      "most of the range out", 'sample covers range')
    elif any(finite):
        ctx.count('half open samples')
    ctx.sig(kind, history, pair, qpair, tuple(finite))


SCENARIOS = {
    'range': {'case': case_range, 'quick': 7600, 'thorough': 150000},
}
