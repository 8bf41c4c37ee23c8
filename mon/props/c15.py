"""C15 effective media satisfy their mixing rules"""
import numpy as np
from dispersion import Material, Spectrum
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
from .. import gen, ref

PROP = 'C15'
RULE = ("a case is a pair of materials of any kind (dielectric, absorbing, "
        "metallic, lossless metal, an effective medium itself), a filling "
        "fraction (0, 1, near them, inside) and a spectrum (scalar, one "
        "element, array; any unit, any order); the permittivities of both "
        "materials and of the medium observed at the spectrum are put into "
        "the mixing rule; distinct by (rule, class of materials, fraction "
        "class, unit, shape)")
ASSUMPTIONS = ["where both roots of the Bruggeman equation are real and one "
               "constituent is a lossless metal the passive root is not "
               "determined; only the equation is evaluated there"]
REQUIRED = ['Simple rule evaluated', 'MaxwellGarnett rule evaluated',
            'Bruggeman rule evaluated', 'passive root judged',
            'limit f=0 compared', 'limit f=1 compared', 'fractions refused',
            'singular mixtures refused', 'scalar spectra', 'nested media',
            'positive dielectrics bounded', 'conjugate roots judged',
            'spectrally flat media', 'nearly singular mixtures']

CLASSES = {'Simple': Simple, 'MaxwellGarnett': MaxwellGarnett,
           'Bruggeman': Bruggeman}


def constituent(ctx, window):
    """a material valid in the window (metre), a label"""
    roll = ctx.randint(0, 9)
    rng = ctx.rng
    if roll == 0:
        return Material(fixed_n=float(rng.uniform(1, 4))), 'dielectric'
    if roll == 1:
        return Material(fixed_eps_r=float(rng.uniform(1, 15))), 'dielectric'
    if roll == 2:
        return Material(fixed_nk=complex(rng.uniform(0.1, 4),
                                         10**rng.uniform(-3, 0.8))), 'lossy'
    if roll == 3:
        # some of them with hardly any loss
        return Material(fixed_eps=complex(
            rng.uniform(-40, -0.5), 10**rng.uniform(
                *ctx.choice([(-2, 1), (-2, 1), (-11, -2)])))), 'metal'
    if roll == 4:
        return Material(fixed_eps_r=float(rng.uniform(-20, -0.5))), \
            'lossless metal'
    if roll == 5:
        # Drude metal
        ends = np.sort(ref.from_metre(('energy', 'ev'), np.array(window)))
        return Material(model_kw={
            'name': 'Drude', 'spectrum_type': 'energy', 'unit': 'eV',
            'valid_range': np.array([ends[0]*0.9, ends[1]*1.1]),
            'parameters': np.array([rng.uniform(2, 12),
                                    rng.uniform(0.02, 0.8)])}), 'drude'
    if roll == 6 and 'inner' not in ctx.desc:
        ctx.describe(inner=True)
        lam = np.geomspace(window[0]*0.9, window[1]*1.1, 30)
        med = ctx.choice(list(CLASSES.values()))(
            Spectrum(lam), Material(fixed_n=1.5),
            Material(fixed_eps=complex(rng.uniform(-10, 10), 0.7)),
            float(rng.uniform(0.1, 0.9)))
        ctx.count('nested media')
        return med, 'medium'
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    wide = (window[0]*0.8, window[1]*1.2)
    num = ctx.choice([2, 3, 9, 40])
    xx = gen.table_x(ctx, pair, num, wide, tidy=False)
    # smooth tables, so that the comparison is not limited by rounding
    base, amp = rng.uniform(2.0, 4.0), rng.uniform(-1.0, 1.0)
    yy = base + amp*(xx - xx[0])/(xx[-1] - xx[0])
    if roll == 7:
        return Material(tabulated_n=gen.shuffled(ctx, np.column_stack(
            [xx, yy])), spectrum_type=stype, unit=unit), 'dielectric'
    k2 = 10**rng.uniform(-3, 0.5, num)
    if roll == 8:
        return Material(tabulated_nk=np.column_stack([xx, yy, k2]),
                        spectrum_type=stype, unit=unit), 'lossy'
    sign = ctx.choice([1, -1, -4])
    return Material(tabulated_eps=np.column_stack([xx, sign*yy, k2]),
                    spectrum_type=stype, unit=unit), \
        'lossy' if sign > 0 else 'metal'


def fraction(ctx):
    roll = ctx.randint(0, 9)
    if roll == 0:
        return ctx.choice([0.0, 0])
    if roll == 1:
        return ctx.choice([1.0, 1])
    if roll == 2:
        return ctx.choice([1e-12, 1e-6, 1 - 1e-6, 1 - 1e-12])
    if roll == 3:
        return ctx.choice([0.5, 1/3, 2/3, 0.25, 0.1])
    return float(ctx.rng.uniform(0, 1))


def spectrum(ctx, window):
    num = ctx.choice([0, 1, 2, 3, 5, 20, 100])
    if num == 0:
        lam = float(np.exp(ctx.rng.uniform(*np.log(window))))
    else:
        lam = gen.distinct_in(ctx, window[0], window[1], num)
        mode = ctx.randint(0, 3)
        if mode == 1:
            lam = lam[::-1].copy()
        elif mode == 2:
            lam = lam[ctx.rng.permutation(num)]
    spec, pair = gen.request(ctx, lam)
    return spec, pair, num


def bruggeman_roots(e1, e2, frac):
    # 2 e^2 + e (f(e1 - 2 e2) + (1-f)(e2 - 2 e1)) - e1 e2 = 0
    bb = frac*(e1 - 2*e2) + (1 - frac)*(e2 - 2*e1)
    disc = np.sqrt(np.asarray(bb**2 + 8*e1*e2, dtype=complex))
    return (-bb + disc)/4, (-bb - disc)/4


def case_rule(ctx):
    ctx.passive_only = True
    rule = list(CLASSES)[ctx.idx % 3]
    window = gen.lam_window(ctx, decades=ctx.rng.uniform(0.1, 0.8))
    mat1, lab1 = constituent(ctx, window)
    mat2, lab2 = constituent(ctx, window)
    if ctx.chance(0.05):
        mat2, lab2 = mat1, lab1
    frac = fraction(ctx)
    spec, pair, num = spectrum(ctx, window)
    ctx.describe(rule=rule, labels=(lab1, lab2), frac=frac, pair=pair,
                 num=num)
    e1 = np.asarray(mat1.get_permittivity(spec))
    e2 = np.asarray(mat2.get_permittivity(spec))
    scale = np.maximum(np.abs(e1), np.abs(e2))
    down = (2 + frac)*e1 + (1 - frac)*e2
    if rule == 'MaxwellGarnett' and np.any(np.abs(down) < 1e-2*scale):
        ctx.count('nearly singular mixtures left out')
        return
    med = ctx.accepts(lambda: CLASSES[rule](spec, mat1, mat2, frac),
                      "building the effective medium", labels=(lab1, lab2),
                      frac=frac)
    eff = np.asarray(ctx.accepts(lambda: med.get_permittivity(spec),
                                 "evaluating the effective medium",
                                 pair=pair, num=num))
    ctx.check(eff.shape == e1.shape, "effective permittivity has another "
              "shape than its constituents", got=eff.shape, want=e1.shape)
    nk = np.asarray(med.get_nk_data(spec))
    info = {'rule': rule, 'frac': frac, 'labels': (lab1, lab2), 'pair': pair}
    big = np.max(np.maximum(scale, np.abs(eff)))
    # the medium is tabulated: rounding of the abscissa times the slope
    tol = 3e-6*big
    tight = 1.0
    ends = Spectrum(np.geomspace(window[0], window[1], 5))
    if all(np.ptp(np.append(np.asarray(mat.get_permittivity(ends)),
                            np.ravel(obs))) == 0
           for mat, obs in ((mat1, e1), (mat2, e2))):
        # spectrally flat constituents: nothing for rounding to act on
        tight = 1e-5
        ctx.count('spectrally flat media')
    tol *= tight
    ctx.check(np.all(np.abs(nk**2 - eff) <= 1e-9*np.maximum(np.abs(eff), 1)
                     + 1e-12*big), "index and permittivity of the medium "
              "disagree", got=nk**2, want=eff, **info)
    if num == 0:
        ctx.count('scalar spectra')
    if rule == 'Simple':
        want = (1 - frac)*e1 + frac*e2
        ctx.check(np.all(np.abs(eff - want) <= tol), "Simple medium does not "
                  "satisfy its mixing rule", 'Simple rule evaluated',
                  got=eff, want=want, **info)
    elif rule == 'MaxwellGarnett':
        want = e1*(2*(1 - frac)*e1 + (1 + 2*frac)*e2)/down
        big2 = max(big, np.max(np.abs(want)))
        resid = (eff - e1)*(e2 + 2*e1) - frac*(e2 - e1)*(eff + 2*e1)
        ctx.check(np.all(np.abs(resid) <= 2e-5*tight*big2**2) and
                  np.all(np.abs(eff - want) <= 1e-5*tight*big2),
                  "Maxwell-Garnett medium does not satisfy its mixing rule",
                  'MaxwellGarnett rule evaluated', got=eff, want=want,
                  resid=resid, **info)
    else:
        resid = (1 - frac)*(e1 - eff)*(e2 + 2*eff) + \
            frac*(e2 - eff)*(e1 + 2*eff)
        ctx.check(np.all(np.abs(resid) <= 3e-5*tight*big**2), "Bruggeman medium "
                  "does not satisfy its self-consistency equation",
                  'Bruggeman rule evaluated', resid=resid, e1=e1, e2=e2,
                  eff=eff, **info)
        ctx.check(np.all(np.imag(eff) >= -1e-6*tight*big), "Bruggeman medium is "
                  "not passive", 'passive root judged', eff=eff, **info)
        root1, root2 = bruggeman_roots(e1, e2, frac)
        gap = np.abs(np.imag(root1) - np.imag(root2))
        best = np.where(np.imag(root1) > np.imag(root2), root1, root2)
        worse = np.where(np.imag(root1) > np.imag(root2), root2, root1)
        # only one root is passive, and it is not the other one
        small = 1.0 if tight == 1.0 else 1e-7
        judged = (gap > 1e-4*small*big) & \
            (np.abs(best - worse) > 1e-3*big) & \
            (np.imag(worse) < -1e-5*small*big)
        wrong = judged & (np.abs(eff - worse) < np.abs(eff - best))
        ctx.check(not np.any(wrong), "Bruggeman medium is not the passive "
                  "root", 'passive root judged', eff=eff, best=best, **info)
        ctx.count('passive roots judged pointwise', int(np.sum(judged)))
        if lab1 == 'lossless metal' or lab2 == 'lossless metal':
            ctx.count('conjugate roots judged', int(np.sum(judged)))
        pos = (np.imag(e1) == 0) & (np.imag(e2) == 0) & (np.real(e1) > 0) & \
            (np.real(e2) > 0)
        if np.any(pos):
            lo = np.minimum(np.real(e1), np.real(e2)) - tol
            hi = np.maximum(np.real(e1), np.real(e2)) + tol
            okay = (np.real(eff) >= lo) & (np.real(eff) <= hi)
            ctx.check(np.all(okay | ~pos), "mixture of two dielectrics is "
                      "not between them", 'positive dielectrics bounded',
                      eff=eff, e1=e1, e2=e2, **info)
    # limits: both constituents positive or passive, so the limit is unique
    if frac in (0, 1):
        lim = e1 if frac == 0 else e2
        unique = np.imag(lim) > 1e-4*big
        unique |= (np.imag(e1) == 0) & (np.imag(e2) == 0) & \
            (np.real(e1) > 0) & (np.real(e2) > 0)
        if rule != 'Bruggeman':
            unique = np.ones_like(unique, dtype=bool)
        else:
            # the other root at a limit is -1/2 of the other material
            other = -0.5*(e2 if frac == 0 else e1)
            unique &= np.imag(lim) - np.imag(other) > -1e-12
            unique &= np.abs(lim - other) > 1e-2*big
        bad = unique & (np.abs(eff - lim) > 2e-5*big)
        ctx.check(not np.any(bad), "limit of the filling fraction is not the "
                  "material itself", 'limit f=%d compared' % frac, eff=eff,
                  want=lim, **info)
    ctx.sig(rule, lab1, lab2, num > 0, pair,
            'limit' if frac in (0, 1) else 'inside')


def case_refused(ctx):
    ctx.passive_only = True
    rule = list(CLASSES)[ctx.idx % 3]
    window = gen.lam_window(ctx, decades=0.3)
    mat1, lab1 = constituent(ctx, window)
    mat2, lab2 = constituent(ctx, window)
    spec, pair, num = spectrum(ctx, window)
    frac = ctx.choice([-1e-9, -0.1, 1 + 1e-9, 1.5, -1, 2, 100.0, -np.inf,
                       np.inf, -1e-300, float(np.nextafter(1.0, 2.0)),
                       1 + 1e-13, float(-ctx.rng.random()) - 1e-6,
                       1 + 1e-6 + float(ctx.rng.random())])
    ctx.describe(rule=rule, labels=(lab1, lab2), frac=frac)
    ctx.raises(ValueError, lambda: CLASSES[rule](spec, mat1, mat2, frac),
               "filling fraction outside of [0, 1]", 'fractions refused',
               frac=frac)
    ctx.sig(rule, frac)


def case_singular(ctx):
    """(2+f) e1 + (1-f) e2 = 0 somewhere in the spectrum"""
    ctx.passive_only = True
    frac = float(ctx.choice([0.0, 0.1, 0.25, 0.5, 0.75, ctx.rng.uniform(
        0, 0.9)]))
    e1 = float(ctx.rng.uniform(1, 6))*ctx.choice([1, 1, -1])
    sing = -(2 + frac)*e1/(1 - frac)
    num = ctx.choice([1, 2, 5, 30])
    window = gen.lam_window(ctx, decades=0.4)
    lam = gen.distinct_in(ctx, window[0], window[1], num)
    pos = ctx.randint(0, num - 1)
    eps2 = sing*(1 + ctx.rng.uniform(0.5, 2, num))
    eps2[pos] = sing
    if num == 1:
        lam2, eps2 = np.array([lam[0], lam[0]*1.5]), np.array([sing, sing])
    else:
        lam2 = lam
    mat1 = Material(fixed_eps_r=e1)
    mat2 = Material(tabulated_eps=np.column_stack([lam2, eps2, 0*eps2]),
                    spectrum_type='wavelength', unit='m')
    order = ctx.rng.permutation(num)
    vals = float(lam[0]) if num == 1 and ctx.chance(0.5) else lam[order]
    spec = Spectrum(vals)
    ctx.describe(frac=frac, e1=e1, num=num, pos=pos)
    got = np.asarray(mat2.get_permittivity(spec))
    if np.min(np.abs((2 + frac)*e1 + (1 - frac)*got)) > 1e-9:
        return
    ctx.raises(ValueError, lambda: MaxwellGarnett(spec, mat1, mat2, frac),
               "singular Maxwell-Garnett mixture",
               'singular mixtures refused', frac=frac, e1=e1)
    ctx.sig(frac, num, pos)


def case_nearly(ctx):
    """(2+f) e1 + (1-f) e2 is small but clearly not zero"""
    frac = float(ctx.choice([0.0, 0.1, 0.25, 0.5, 0.75, ctx.rng.uniform(
        0, 0.9)]))
    e1 = complex(ctx.rng.uniform(1, 6)*ctx.choice([1, 1, -1]))
    away = 10.0**ctx.rng.uniform(-3.9, -1)*abs(e1)*np.exp(
        1j*ctx.rng.uniform(0, 2*np.pi))
    e2 = (away - (2 + frac)*e1)/(1 - frac)
    if e2.imag < 0:
        e2, away = np.conj(e2), np.conj(away)
    mats = [Material(fixed_eps=complex(e1)), Material(fixed_eps=complex(e2))]
    e1, e2 = complex(e1), complex(e2)
    lam = gen.lam_window(ctx, decades=0.3)
    spec = Spectrum(np.linspace(lam[0], lam[1], ctx.choice([1, 3])))
    ctx.describe(frac=frac, e1=e1, e2=e2)
    got = [np.asarray(m.get_permittivity(spec)) for m in mats]
    med = ctx.accepts(lambda: MaxwellGarnett(spec, mats[0], mats[1], frac),
                      "building a mixture that is nearly singular",
                      frac=frac, e1=e1, e2=e2)
    want = got[0]*((1 + 2*frac)*got[1] + 2*(1 - frac)*got[0])/(
        (2 + frac)*got[0] + (1 - frac)*got[1])
    ctx.close(np.asarray(med.get_permittivity(spec)), want,
              "nearly singular Maxwell-Garnett mixture does not follow the "
              "rule", counter='nearly singular mixtures', rtol=1e-6,
              atol=1e-9, frac=frac, e1=e1, e2=e2)
    ctx.sig('nearly', frac, np.round(np.log10(abs(away/e1)), 1))


SCENARIOS = {
    'rule': {'case': case_rule, 'quick': 6000, 'thorough': 150000},
    'refused': {'case': case_refused, 'quick': 900, 'thorough': 9000},
    'nearly': {'case': case_nearly, 'quick': 600, 'thorough': 12000},
    'singular': {'case': case_singular, 'quick': 600, 'thorough': 12000},
}
