"""C06 every dispersion model computes its published formula"""
import os
import numpy as np
from dispersion import Spectrum, Material
import dispersion.spectral_data as sdata
from .. import gen, ref

PROP = 'C06'
RULE = ("a case is one model with random parameters (term count included) "
        "evaluated as scalar, one-element and long array in several units, "
        "directly, through Material(model_kw) and through a yaml file; "
        "compared with formulas written independently in the harness; the "
        "Tauc-Lorentz real part is compared with a numerical Kramers-Kronig "
        "integral; distinct by (model, number of parameters, entry, unit)")
ASSUMPTIONS = ["parameters are drawn where the formula is defined over the "
               "whole range (positive radicand, no pole inside)",
               "Tauc-Lorentz broadening C < 1.8 E0 (closed form needs "
               "C < 2 E0)"]
REQUIRED = ['formula values compared', 'Kramers-Kronig values compared',
            'formula file values compared', 'Fano values compared',
            'integer parameters']


def evaluate_entry(ctx, name, par, vrange):
    """(entry name, function of a Spectrum returning the native value)"""
    pair = gen.model_pair(name)
    stype, unit = gen.spell(ctx, pair)
    entry = ctx.choice(['class', 'material', 'file', 'class'])
    par_in = ctx.choice([np.array(par), list(par)])
    if all(p == int(p) for p in par):
        # integers are numbers as well
        whole = [int(p) for p in par]
        kinds = [np.array(whole), whole]
        if max(map(abs, whole)) < 120:
            kinds += [np.array(whole, dtype=d) for d in (np.int8, np.int16)]
        par_in = ctx.choice(kinds)
        ctx.count('integer parameters')
    if entry == 'class':
        obj = getattr(sdata, name)(par_in, gen.range_container(ctx, vrange),
                                   spectrum_type=stype, unit=unit)
        return entry, obj.evaluate
    if entry == 'material':
        mat = Material(model_kw={
            'name': name, 'spectrum_type': stype, 'unit': unit,
            'valid_range': gen.range_container(ctx, vrange),
            'parameters': par_in})
    else:
        path = os.path.join(ctx.tmpdir(), 'model.yml')
        number = ref.FORMULA_NUMBER.get(name)
        use_number = number is not None and ctx.chance(0.6)
        coef = " ".join(repr(float(p)) for p in par)
        rng_text = "{!r} {!r}".format(*[float(v) for v in vrange])
        if use_number:
            entry = 'formula file'
            text = ("REFERENCES: \"r\"\nCOMMENTS: \"c\"\nDATA:\n"
                    "  - type: formula {}\n    wavelength_range: {}\n"
                    "    coefficients: {}\n").format(number, rng_text, coef)
        else:
            entry = 'model file'
            text = ("REFERENCES: \"r\"\nCOMMENTS: \"c\"\nDATA:\n"
                    "  - DataType: model {}\n    ValidRange: {}\n"
                    "    SpectrumType: {}\n    Unit: {}\n"
                    "    Parameters: {}\n").format(
                        name, rng_text, pair[0], ref.UNITS[pair][0], coef)
        with open(path, 'w') as fpt:
            fpt.write(text)
        mat = Material(file_path=path, spectrum_type='wavelength',
                       unit='micrometer')
    if name in ref.MODELS_N:
        return entry, lambda s: np.real(mat.get_nk_data(s))
    return entry, mat.get_permittivity


def whole_parameters(ctx, name):
    """parameters without fractional part"""
    num = ctx.randint
    low = num(1, 3) + ctx.rng.uniform()
    vrange = (low, low + ctx.rng.uniform(0.5, 3.0))
    if name in ('Sellmeier', 'Sellmeier2'):
        par = [num(0, 2)]
        for _ in range(num(1, 3)):
            par += [num(1, 3), ctx.choice([0, 0, 1])]
    elif name in ('Polynomial', 'Cauchy'):
        par = [num(1, 5)]
        for _ in range(num(0, 3)):
            par += [num(0, 2), ctx.choice([-4, -2, -1, 1, 2])]
    elif name == 'RefractiveIndexInfo':
        par = [num(1, 5)] + [num(0, 2), num(0, 2), num(2, 9), -num(1, 2)]
        if ctx.chance(0.7):
            par += [num(0, 2), num(0, 2), num(2, 9), -num(1, 2)]
            par += [num(0, 1), ctx.choice([-2, 1, 2])]
    elif name == 'Gases':
        par = [0, num(1, 5), num(20, 110)]
    elif name == 'Herzberger':
        par = [num(1, 4), num(0, 2), num(0, 1), num(0, 1), 0, 0]
    elif name == 'Retro':
        par = [0, 0, 0, 0]
    elif name == 'Exotic':
        par = [num(2, 6), num(0, 2), 0, num(0, 1), num(0, 9), num(1, 4)]
    elif name == 'Drude':
        par = [num(1, 110), num(1, 3)]
    elif name == 'DrudeLorentz':
        par = [num(1, 110), 1, num(1, 100), num(1, 3)]
    else:
        return gen.model_parameters(ctx, name)
    return [float(p) for p in par], vrange


def case_formula(ctx):
    names = tuple(ref.MODELS_N) + tuple(ref.MODELS_EPS)
    name = names[ctx.idx % len(names)]
    par, vrange = gen.model_parameters(ctx, name)
    if ctx.chance(0.12):
        par, vrange = whole_parameters(ctx, name)
    part = ref.RefModel(name, par, vrange)
    entry, func = evaluate_entry(ctx, name, par, vrange)
    ctx.describe(model=name, parameters=par, range=vrange, entry=entry)
    low, high = part.range_m()
    for _ in range(3):
        pair = gen.any_pair(ctx)
        if ctx.chance(0.3):
            pair = part.pair
        size = ctx.choice([0, 1, 2, 30, 300])
        lam = np.exp(ctx.rng.uniform(np.log(low*(1+1e-6)),
                                     np.log(high*(1-1e-6)), max(size, 1)))
        if size == 0:
            lam = lam[0]
        spec, _ = gen.request(ctx, lam, pair)
        got = func(spec)
        want = part.evaluate(lam)
        tol = part.tol(lam)
        ctx.check(np.shape(got) == np.shape(want), "wrong shape",
                  got=np.shape(got), want=np.shape(want), model=name)
        err = np.abs(np.asarray(got) - want)
        ctx.count('formula file values compared' if 'file' in entry else
                  'formula values compared', int(np.size(want)))
        if not np.all(err <= tol + 1e-9*np.abs(want)):
            bad = int(np.argmax(np.ravel(err)))
            ctx.fail("model does not compute its formula", model=name,
                     parameters=par, pair=pair, entry=entry,
                     wavelength=np.ravel(lam)[bad],
                     got=np.ravel(got)[bad], want=np.ravel(want)[bad])
        if name in ref.MODELS_EPS:
            ctx.check(np.all(np.imag(got) >= 0), "loss must give a positive "
                      "imaginary permittivity", model=name)
        ctx.sig(name, len(par), entry, pair, size)


def case_tauc(ctx):
    name = 'TaucLorentz'
    par, vrange = gen.model_parameters(ctx, name)
    aa, e0, cc, eg, einf = par
    if ctx.chance(0.3):
        par[4] = einf = 0.0
    vrange = (0.02, 60.0)
    entry, func = evaluate_entry(ctx, name, par, vrange)
    ctx.describe(model=name, parameters=par, entry=entry)
    energies = np.concatenate([
        ctx.rng.uniform(0.05, eg, 2), [eg], eg + ctx.rng.uniform(
            0.0, 1.0, 2)*(abs(e0 - eg) + cc), [e0], ctx.rng.uniform(e0, 30, 2),
        [eg*(1 + 1e-7), eg*(1 - 1e-7), eg*(1 - 1e-5), eg - 5e-4, eg*0.99]])
    energies = energies[ctx.rng.permutation(len(energies))]
    got = func(Spectrum(energies, 'energy', 'ev'))
    ctx.check(np.shape(got) == energies.shape, "wrong shape")
    ctx.check(np.all(np.isfinite(got)), "Tauc-Lorentz permittivity is not "
              "finite", parameters=par, energies=energies, got=got)
    want_i = ref.tauc_lorentz_imag(par, energies)
    scale = aa/max(cc, 0.1)
    ctx.close(np.imag(got), want_i, "imaginary part of Tauc-Lorentz",
              rtol=1e-6, atol=1e-6*scale*1e-3 + 1e-8, parameters=par)
    ctx.check(np.all(np.imag(got)[energies < eg*(1 - 1e-6)] == 0),
              "absorption below the band gap", parameters=par)
    # scalar and other units
    pick = ctx.randint(0, len(energies)-1)
    en = float(energies[pick])
    spec, pair = gen.request(ctx, ref.HC/en)
    single = func(spec)
    ctx.close(single, got[pick], "scalar query differs", rtol=1e-5,
              atol=1e-5*scale, parameters=par, energy=en)
    ctx.check(np.ndim(single) == 0, "scalar query gives an array")
    for num in ctx.rng.permutation(len(energies))[:4]:
        want = ref.tauc_lorentz_real(par, energies[num])
        ctx.close(np.real(got[num]), want, "real part is not the "
                  "Kramers-Kronig transform of the imaginary part",
                  rtol=1e-5, atol=2e-6*scale + 1e-6,
                  counter='Kramers-Kronig values compared',
                  parameters=par, energy=energies[num])
    ctx.sig(name, entry, pair, int(10*cc/e0), int(10*eg/e0))


def case_fano(ctx):
    uni = ctx.rng.uniform
    par = [uni(-5, 5), uni(1, 5), uni(0.05, 1.0)]
    stype, unit = gen.spell(ctx, ('energy', 'ev'))
    obj = sdata.Fano(ctx.choice([np.array(par), list(par)]), (0.2, 10.0),
                     spectrum_type=stype, unit=unit)
    size = ctx.choice([0, 1, 5, 100])
    en = uni(0.21, 9.9, max(size, 1))
    if size == 0:
        en = en[0]
    spec, pair = gen.request(ctx, ref.HC/en)
    got = obj.evaluate(spec)
    want = ref.fano(par, en)
    slack = np.abs(ref.fano(par, en + 2e-9*(1 + en)) - want)
    ctx.check(np.shape(got) == np.shape(want), "wrong shape")
    ctx.check(np.all(np.abs(got - want) <= 4*slack + 1e-7), "Fano profile",
              parameters=par, pair=pair, got=got, want=want)
    ctx.count('Fano values compared', int(np.size(want)))
    ctx.describe(model='Fano', parameters=par)
    ctx.sig('Fano', pair, size)


SCENARIOS = {
    'formula': {'case': case_formula, 'quick': 6600, 'thorough': 110000},
    'tauc_lorentz': {'case': case_tauc, 'quick': 400, 'thorough': 8000},
    'fano': {'case': case_fano, 'quick': 500, 'thorough': 5000},
}
