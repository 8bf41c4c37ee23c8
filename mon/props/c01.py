"""C01 spectral conversions obey the physical laws"""
import itertools
import numpy as np
import dispersion
from dispersion import Spectrum
import dispersion.spectrum as spectrum_module
from .. import gen, ref
from ..ref import PAIRS, UNITS

PROP = 'C01'
RULE = ("a case converts a set of values between an ordered pair of "
        "quantity/unit under one spelling and container kind; non-trivial "
        "if source and target differ or the magnitude/length class is new; "
        "distinct by (source, target, spelling, container, decade, length)")
ASSUMPTIONS = ["reference constants are CODATA 2019 exact values written out "
               "in the harness"]
REQUIRED = ['values compared', 'zero/inf conversions']

# every ordered pair of (quantity, unit spelling)
SPELLED = [(pair, name) for pair in PAIRS for name in UNITS[pair]]
COMBOS = list(itertools.product(SPELLED, SPELLED))


def tol(dst, want):
    return ref.RTOL*np.abs(want) + 0.500001*ref.round_step(dst)


def grid_shape(num):
    rows = next(d for d in (7, 4, 3, 2, 1) if num % d == 0)
    return (rows, num//rows)


def make(ctx, vals, kind):
    if kind == 'float':
        return float(vals[0])
    if kind == 'npfloat':
        return np.float64(vals[0])
    if kind == 'list':
        return [float(v) for v in vals]
    if kind == 'tuple':
        return tuple(float(v) for v in vals)
    if kind == 'array':
        return np.array(vals, dtype=float)
    if kind == 'int_array':
        return np.array(vals, dtype=int)
    if kind == 'int_list':
        return [int(v) for v in vals]
    if kind == 'strided':
        arr = np.zeros(2*len(vals))
        arr[::2] = vals
        return arr[::2]
    if kind == 'grid':
        return np.array(vals, dtype=float).reshape(grid_shape(len(vals)))
    if kind == 'nested':
        return np.array(vals, dtype=float).reshape(
            grid_shape(len(vals))).tolist()
    if kind == 'zero_d':
        return np.array(float(vals[0]))
    if kind == 'float32':
        return np.array(vals, dtype=np.float32)
    if kind == 'int16':
        return np.array(vals, dtype=np.int16)
    if kind == 'big_endian':
        arr = np.array(vals, dtype='>f8')
        arr.flags.writeable = False
        return arr
    raise KeyError(kind)


KINDS = ('float', 'npfloat', 'list', 'tuple', 'array', 'int_array',
         'int_list', 'strided', 'grid', 'nested', 'zero_d', 'float32',
         'int16', 'big_endian')


def compare(ctx, got, want, dst, kind, what):
    want = np.asarray(want)
    got = np.asarray(got)
    if kind in ('float', 'npfloat'):
        ctx.check(got.ndim == 0, what + ": scalar did not stay a scalar",
                  got=got)
        want = want.reshape(())if want.size == 1 else want
    else:
        ctx.check(got.shape == want.shape, what + ": length changed",
                  got=got.shape, want=want.shape)
    ctx.count('values compared', int(want.size))
    with np.errstate(all='ignore'):
        okay = (got == want) | (np.abs(got - want) <= tol(dst, want))
    if not np.all(okay):
        bad = int(np.argmin(np.ravel(okay)))
        ctx.fail(what, index=bad, got=np.ravel(got)[bad],
                 want=np.ravel(want)[bad], target=dst)


def one_conversion(ctx, src, sname, dst, dname, vals, kind, stype=None,
                   dtype=None):
    values = make(ctx, vals, kind)
    exact = np.asarray(values, dtype=float)
    lam = ref.to_metre(src, exact)
    want = ref.from_metre(dst, lam)
    # exact identity of zero and infinity
    spec = Spectrum(values, spectrum_type=stype or src[0], unit=sname)
    std = np.asarray(spec.standard_rep)
    ctx.check(std.shape == exact.shape, "standard representation has another "
              "shape", got=std.shape)
    ctx.close(std, lam, "standard representation is not the wavelength in m",
              rtol=1e-9, src=src)
    got = spec.convert_to(dtype or dst[0], dname)
    compare(ctx, got, want, dst, kind, "conversion {} -> {}".format(src, dst))
    # a spectrum made of the converted values denotes the same wavelengths
    if kind not in ('float', 'npfloat'):
        back = Spectrum(np.asarray(got, dtype=float), spectrum_type=dst[0],
                        unit=dname).convert_to(src[0], sname)
        slack = np.abs(ref.convert(dst, src, np.abs(want) +
                                   ref.round_step(dst)) - exact)
        with np.errstate(all='ignore'):
            ok = (back == exact) | (np.abs(back - exact) <= 2*tol(src, exact)
                                    + 2*slack)
        ctx.check(np.all(ok | ~np.isfinite(exact) | (exact == 0) |
                         (np.abs(want) < 1e3*ref.round_step(dst))),
                  "round trip changes the values", src=src, dst=dst,
                  values=exact, back=back)


def magnitudes(ctx, src, num, spread=6):
    """values of a physical size over many decades around the optical"""
    lam = 10**ctx.rng.uniform(-6.3 - spread, -6.3 + spread, num)
    return ref.from_metre(src, lam)


def case_spellings(ctx):
    (src, sname), (dst, dname) = COMBOS[ctx.idx]
    vals = magnitudes(ctx, src, 5, spread=1.5)
    for kind in ('float', 'array', 'list'):
        one_conversion(ctx, src, gen.mixed_case(ctx, sname), dst,
                       gen.mixed_case(ctx, dname), vals, kind,
                       gen.mixed_case(ctx, src[0]),
                       gen.mixed_case(ctx, dst[0]))
    ctx.describe(src=src, dst=dst, spelling=[sname, dname], values=vals)
    ctx.sig(src, sname, dst, dname)


def case_random(ctx):
    src, dst = gen.any_pair(ctx), gen.any_pair(ctx)
    kind = ctx.choice(KINDS)
    num = ctx.choice([1, 1, 2, 3, 7, 16, 100, 1000, 1001, 4097])
    spread = ctx.choice([0.5, 2, 6, 12])
    if kind.startswith('int'):
        vals = ctx.rng.integers(1, ctx.choice(
            [10, 1000] + [10**6, 10**9]*(kind != "int16")), num)
    else:
        vals = magnitudes(ctx, src, num, spread)
        if ctx.chance(0.3):
            vals = np.array([float('%.4g' % v) for v in vals])
        if ctx.chance(0.3) and num > 1:
            vals[ctx.randint(0, num-1)] = vals[0]
        if ctx.chance(0.3):
            vals = np.sort(vals)[::ctx.choice([1, -1])]
        if ctx.chance(0.25):
            vals[ctx.randint(0, num - 1)] = ctx.choice([0.0, np.inf])
        if kind == 'float32':
            # the numbers which single precision holds
            vals = vals.astype(np.float32).astype(float)
            ctx.count('zero/inf conversions')
    _, sname = gen.spell(ctx, src)
    _, dname = gen.spell(ctx, dst)
    one_conversion(ctx, src, sname, dst, dname, vals, kind)
    ctx.describe(src=src, dst=dst, kind=kind, values=vals)
    ctx.sig(src, dst, kind, num, int(np.log10(max(abs(float(vals[0])), 1e-300)
                                              if np.isfinite(vals[0]) else 1)))


def case_zero_inf(ctx):
    """0 and inf in every position, scalar and array"""
    src, dst = gen.any_pair(ctx), gen.any_pair(ctx)
    flip = ref.inverse_type(src) != ref.inverse_type(dst)
    for val in (0.0, np.inf):
        want = (np.inf if val == 0.0 else 0.0) if flip else val
        got = Spectrum(val, src[0], src[1]).convert_to(dst[0], dst[1])
        ctx.check(np.ndim(got) == 0 and got == want, "0/inf scalar",
                  'zero/inf conversions', src=src, dst=dst, value=val,
                  got=got)
    base = magnitudes(ctx, src, 6, 1.5)
    pos0, pos1 = ctx.rng.permutation(6)[:2]
    base[pos0], base[pos1] = 0.0, np.inf
    got = Spectrum(base, src[0], src[1]).convert_to(dst[0], dst[1])
    ctx.check(got[pos0] == (np.inf if flip else 0.0) and
              got[pos1] == (0.0 if flip else np.inf), "0/inf in array",
              'zero/inf conversions', src=src, dst=dst, got=got)
    ints = np.array([0, 1, 2, 1000])
    got = Spectrum(ints, src[0], src[1]).convert_to(dst[0], dst[1])
    compare(ctx, got, ref.convert(src, dst, ints.astype(float)), dst,
            'array', "integers with zero")
    safe_inverse = getattr(spectrum_module, 'safe_inverse', None)
    if safe_inverse is None:
        ctx.sig(src, dst, int(pos0), int(pos1))
        return
    inv = safe_inverse(base)
    with np.errstate(all='ignore'):
        ctx.close(inv, np.where(base == 0, np.inf,
                                np.where(np.isinf(base), 0.0, 1/base)),
                  "guarded inverse", rtol=1e-14)
    ctx.sig(src, dst, int(pos0), int(pos1))


def case_agree(ctx):
    """scalar, one element and batch conversion agree element by element"""
    src, dst = gen.any_pair(ctx), gen.any_pair(ctx)
    vals = magnitudes(ctx, src, ctx.choice([3, 20, 200]), 3)
    if ctx.chance(0.5):
        vals[ctx.randint(0, len(vals)-1)] = ctx.choice([0.0, np.inf])
    batch = Spectrum(vals.copy(), src[0], src[1]).convert_to(dst[0], dst[1])
    for i in ctx.rng.permutation(len(vals))[:12]:
        single = Spectrum(float(vals[i]), src[0], src[1]).convert_to(
            dst[0], dst[1])
        one = Spectrum([float(vals[i])], src[0], src[1]).convert_to(
            dst[0], dst[1])
        ctx.close(single, batch[i], "scalar and batch conversion differ",
                  rtol=1e-13, atol=1.01*ref.round_step(dst), src=src, dst=dst)
        ctx.close(one[0], batch[i], "one element and batch differ",
                  rtol=1e-13, atol=1.01*ref.round_step(dst))
    perm = ctx.rng.permutation(len(vals))
    again = Spectrum(vals[perm], src[0], src[1]).convert_to(dst[0], dst[1])
    ctx.close(again, batch[perm], "order matters", rtol=1e-14)
    ctx.sig(src, dst, len(vals))


SCENARIOS = {
    'all_spellings': {'case': case_spellings, 'quick': len(COMBOS),
                      'thorough': len(COMBOS), 'exhaustive': True},
    'random': {'case': case_random, 'quick': 20000, 'thorough': 400000},
    'zero_inf': {'case': case_zero_inf, 'quick': 3000, 'thorough': 30000},
    'agree': {'case': case_agree, 'quick': 4000, 'thorough': 60000},
}
