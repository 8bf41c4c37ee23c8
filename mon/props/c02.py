"""C02 a Spectrum denotes the same physical spectrum through any history"""
import re
import unicodedata
import numpy as np
from dispersion import Spectrum
from .. import gen, ref

PROP = 'C02'
RULE = ("a case is a history of in-place, returning and refused conversions, "
        "containment tests and label requests on one Spectrum; the trace "
        "specification keeps the physical wavelengths it was created with; "
        "distinct by the sequence of operations and units, non-trivial if it "
        "holds at least two in-place conversions")
ASSUMPTIONS = ["containment is probed at least 1e-6 away from the ends"]
REQUIRED = ['in-place conversions', 'returning conversions',
            'refused conversions', 'containment tests', 'state checks']


def snapshot(spec):
    vals = spec.values
    std = spec.standard_rep
    return (np.asarray(vals).tobytes(), np.shape(vals), spec.spectrum_type,
            spec.unit, np.asarray(std).tobytes())


def check_state(ctx, spec, pair, lam, exact):
    ctx.count('state checks')
    ctx.check(spec.spectrum_type == pair[0] and spec.unit == pair[1],
              "labels do not name the current quantity and unit",
              labels=(spec.spectrum_type, spec.unit), want=pair)
    want = ref.from_metre(pair, lam)
    got = np.asarray(spec.values)
    ctx.check(got.shape == want.shape, "shape of the values changed",
              got=got.shape, want=want.shape)
    tol = ref.RTOL*np.abs(want) + 0.500001*ref.round_step(pair)
    with np.errstate(all='ignore'):
        okay = (got == want) | (np.abs(got - want) <= tol)
    ctx.check(np.all(okay), "values do not denote the original spectrum",
              got=got, want=want, pair=pair)


def case_history(ctx):
    pair = start = gen.any_pair(ctx)
    num = ctx.choice([0, 1, 2, 5, 50])
    spread = ctx.choice([0.3, 1.0, 3.0])
    lam = 10**ctx.rng.uniform(-6.3 - spread, -6.3 + spread, max(num, 1))
    if num > 1 and ctx.chance(0.15):
        lam[ctx.randint(0, num-1)] = ctx.choice([0.0, np.inf])
    vals = ref.from_metre(pair, lam)
    if ctx.chance(0.3) and np.all(np.isfinite(vals)):
        vals = np.array([float('%.5g' % v) for v in vals])
    if num == 0:
        vals, lam = float(vals[0]), ref.to_metre(pair, vals[0])
    else:
        lam = ref.to_metre(pair, vals)
        vals = gen.container(ctx, vals)
    stype, unit = gen.spell(ctx, pair)
    spec = Spectrum(vals, spectrum_type=stype, unit=unit)
    check_state(ctx, spec, pair, lam, True)
    trace = []
    in_place = 0
    for step in range(ctx.randint(3, 40)):
        op = ctx.choice(['in', 'in', 'in', 'ret', 'ret', 'bad', 'contains',
                         'label', 'contained'])
        before = snapshot(spec)
        dst = gen.any_pair(ctx)
        stype, unit = gen.spell(ctx, dst)
        ctx.event(op, stype, unit)
        if op == 'in':
            spec.convert_to(stype, unit, in_place=True)
            pair = dst
            in_place += 1
            ctx.count('in-place conversions')
        elif op == 'ret':
            got = spec.convert_to(stype, unit)
            want = ref.from_metre(dst, lam)
            tol = ref.RTOL*np.abs(want) + 0.500001*ref.round_step(dst)
            with np.errstate(all='ignore'):
                okay = (np.asarray(got) == want) | \
                    (np.abs(np.asarray(got) - want) <= tol)
            ctx.check(np.shape(got) == np.shape(want) and np.all(okay),
                      "conversion after a history gives another spectrum",
                      'returning conversions', got=got, want=want, dst=dst)
            ctx.check(snapshot(spec) == before,
                      "returning conversion changed the spectrum")
        elif op == 'bad':
            wrong = ctx.choice([('wavelength', 'ev'), ('energy', 'nm'),
                                ('frequency', '1/s'), ('colour', 'nm'),
                                ('wavelength', 'inch'), ('', ''),
                                ('wavenumber', 'm'),
                                ('angularfrequency', 'hz')])
            ctx.raises(ValueError, lambda: spec.convert_to(
                wrong[0], wrong[1], in_place=ctx.chance(0.6)),
                "invalid conversion", 'refused conversions', wrong=wrong)
            ctx.check(snapshot(spec) == before,
                      "refused conversion changed the spectrum", wrong=wrong)
        elif op in ('contains', 'contained'):
            if not np.all(np.isfinite(lam)) or np.any(lam == 0):
                continue
            low, high = float(np.min(lam)), float(np.max(lam))
            inside = ctx.chance(0.5)
            if op == 'contains':
                if inside and low*(1+3e-6) < high*(1-3e-6):
                    probe = np.array([low*(1+2e-6), high*(1-2e-6)])
                elif inside:
                    continue
                else:
                    probe = np.array(ctx.choice([
                        [low*(1-2e-6)], [high*(1+2e-6)],
                        [low*0.5, high], [low, high*1.5]]))
                other, opair = gen.request(ctx, probe)
                outer, inner = spec, other
            else:
                if inside:
                    box = np.array([low*(1-2e-6), high*(1+2e-6)])
                else:
                    box = np.array(ctx.choice([
                        [low*(1+1e-5), high*1.2], [low*0.5, high*(1-1e-5)]]))
                other, opair = gen.request(ctx, box)
                outer, inner = other, spec
            obefore = snapshot(other)
            if inside:
                ctx.accepts(lambda: outer.contains(inner),
                            "contained spectrum refused", pair=pair,
                            opair=opair)
            else:
                ctx.raises(ValueError, lambda: outer.contains(inner),
                           "spectrum outside of the range",
                           pair=pair, opair=opair)
            ctx.count('containment tests')
            ctx.check(snapshot(spec) == before and snapshot(other) == obefore,
                      "containment test changed a spectrum")
        else:
            text = unicodedata.normalize('NFKC',
                                         spec.get_type_unit_string())
            tokens = re.split(r'[\s()\[\],]+', text)
            ctx.check(pair[0] in tokens and ref.DISPLAY[pair[1]] in tokens
                      and len([t for t in tokens if t]) == 2,
                      "label names another quantity or unit", text=text,
                      pair=pair)
        check_state(ctx, spec, pair, lam, False)
        trace.append((op, dst[1]))
    ctx.describe(start=start, lam=lam, trace=trace)
    if in_place >= 2:
        ctx.sig(start, tuple(trace))


SCENARIOS = {
    'history': {'case': case_history, 'quick': 8000, 'thorough': 150000},
}
