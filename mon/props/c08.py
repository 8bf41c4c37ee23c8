"""C08 refractive index and permittivity always agree"""
import numpy as np
from dispersion import Spectrum, Material
from .. import gen, ref

PROP = 'C08'
RULE = ("a case is a material of one kind queried in both representations at "
        "several points; compared with each other and with the reference "
        "definition; distinct by (kind, sign class of the permittivity, "
        "unit, scalar/array)")
ASSUMPTIONS = []
REQUIRED = ['squares compared', 'native values compared',
            'passivity checks', 'missing parts checked']

KINDS = gen.MATERIAL_KINDS + ('part_const', 'tauc', 'special',
                               'medium', 'lossless')
SPECIAL = [(-5 + 0j), (-5 + 1e-12j), (1 + 0j), (0j), (4 + 0j), (1e-8 + 1e-8j),
           (-1e-3 + 0j), (-100 + 3j), (1j), (2 + 1e-30j), (-2.25 + 0.5j),
           (1e6 + 1e6j), (0.5 + 0j), complex(-5, -0.0),
           complex(-0.5, -0.0), complex(-1e-6, -0.0), (2 - 0.5j),
           (-3 - 1j), (1 - 1e-6j), (0.3 - 4j)]


def lossless(ctx):
    """metal or resonance without loss: permittivity real, either sign"""
    plasma = float(ctx.rng.uniform(1, 10))
    if ctx.chance(0.5):
        name, par = 'Drude', [plasma, 0.0]
        edges = [plasma*1.01, plasma*3] if ctx.chance(0.3) else \
            [plasma*0.1, plasma*0.99]
    else:
        res = float(ctx.rng.uniform(1, 4))
        name, par = 'DrudeLorentz', [plasma, 0.7, res, 0.0]
        edges = [res*0.2, res*0.99] if ctx.chance(0.3) else \
            [res*1.001, res*3]
    mat = Material(model_kw={
        'name': name, 'parameters': par, 'valid_range': edges,
        'spectrum_type': 'energy', 'unit': 'eV'})
    lam = np.sort(ref.to_metre(('energy', 'ev'), np.array(edges)))
    return mat, None, lam, {'model': name, 'value': None, 'par': par}


def make(ctx):
    kind = KINDS[ctx.idx % len(KINDS)]
    if kind == 'tauc':
        mat, rmat, desc = gen.make_material(ctx, 'model_eps',
                                            models=('TaucLorentz',))
        lam = np.sort(ref.to_metre(('energy', 'ev'),
                                   np.array(desc['range'])))
        return kind, mat, None, lam, desc
    if kind == 'lossless':
        return (kind,) + lossless(ctx)
    if kind == 'special':
        val = ctx.choice(SPECIAL)
        pair = gen.any_pair(ctx)
        stype, unit = gen.spell(ctx, pair)
        window = gen.lam_window(ctx)
        mode = ctx.randint(0, 2)
        if mode == 0:
            mat = Material(fixed_eps=val)
        elif mode == 1:
            mat = Material(fixed_nk=complex(abs(val.real), val.imag))
            val = complex(abs(val.real), val.imag)
        else:
            xx = gen.table_x(ctx, pair, 4, window)
            mat = Material(tabulated_eps=np.column_stack(
                [xx, np.full(4, val.real), np.full(4, val.imag)]),
                spectrum_type=stype, unit=unit)
        rmat = ref.RefMaterial('nk' if mode == 1 else 'eps',
                               ref.RefConst(val.real), ref.RefConst(val.imag))
        if mode == 2:
            rmat.real.rng = tuple(window)
        return kind, mat, rmat, window, {'value': val, 'mode': mode}
    mat, rmat, desc = gen.make_material(ctx, kind, small=True)
    return kind, mat, rmat, gen.finite_window(rmat), desc


def case_agree(ctx):
    kind, mat, rmat, (low, high), desc = make(ctx)
    ctx.describe(kind=kind, desc=desc)
    low2, high2 = low*(1 + 1e-5), high*(1 - 1e-5)
    if low2 >= high2:
        low2 = high2 = np.sqrt(low*high)
    for size in (0, ctx.choice([1, 2, 25, 300])):
        lam = np.exp(ctx.rng.uniform(np.log(low2), np.log(high2),
                                     max(size, 1)))
        if size == 0:
            lam = lam[0]
        pair = gen.any_pair(ctx)
        vals = ref.from_metre(pair, lam)
        stype, unit = gen.spell(ctx, pair)
        if size == 0:
            vals = float(vals)
        if ctx.chance(0.5):
            arg = (Spectrum(vals, stype, unit),)
        else:
            arg = (vals, stype, unit)
        nk = mat.get_nk_data(*arg)
        eps = mat.get_permittivity(*arg)
        mag = np.abs(np.asarray(eps))
        ctx.check(np.shape(nk) == np.shape(eps) == np.shape(lam),
                  "shapes differ", nk=np.shape(nk), eps=np.shape(eps))
        ctx.check(np.iscomplexobj(nk) and np.iscomplexobj(eps),
                  "result is not complex", kind=kind)
        sq = np.asarray(nk)**2
        ctx.count('squares compared', int(np.size(sq)))
        okay = np.abs(sq - eps) <= 1e-10*np.maximum(mag, np.abs(sq)) + 1e-300
        if not np.all(okay):
            bad = int(np.argmin(np.ravel(okay)))
            ctx.fail("permittivity is not the square of the refractive "
                     "index", kind=kind, desc=desc, nk=np.ravel(nk)[bad],
                     eps=np.ravel(eps)[bad], pair=pair)
        if rmat is not None:
            native = nk if rmat.name == 'nk' else eps
            want = rmat.native(lam)
            tol = rmat.native_tol(lam)
            ctx.count('native values compared', int(np.size(want)))
            for part in (np.real, np.imag):
                err = np.abs(part(native) - part(want))
                ctx.check(np.all(err <= tol + 1e-9*np.abs(part(want))),
                          "the representation the material was defined in is "
                          "not returned unchanged", kind=kind, desc=desc,
                          got=native, want=want, pair=pair)
            for part, func in (('real', np.real), ('imag', np.imag)):
                side = getattr(rmat, part)
                if (rmat.cplx is None and side.kind == 'const' and
                        side.value == 0.0):
                    ctx.check(np.all(func(native) == 0), "a part which was "
                              "not given is not zero",
                              'missing parts checked', kind=kind, part=part)
        eps_a, nk_a = np.atleast_1d(eps), np.atleast_1d(nk)
        passive = np.imag(eps_a) >= 0
        if rmat is not None and rmat.name == 'nk':
            nat = np.atleast_1d(rmat.native(lam))
            passive = passive & (np.real(nat) >= 0) & (np.imag(nat) >= 0)
        if np.any(passive):
            ctx.check(np.all(np.real(nk_a[passive]) >= 0) and
                      np.all(np.imag(nk_a[passive]) >= 0),
                      "passive material with negative n or k",
                      'passivity checks', kind=kind, desc=desc, nk=nk_a,
                      eps=eps_a)
        ctx.sig(kind, pair, size, desc.get('model'), desc.get('value'),
                bool(np.any(np.real(eps_a) < 0)),
                bool(np.any(np.imag(eps_a) == 0)))


SCENARIOS = {
    'agree': {'case': case_agree, 'quick': 8500, 'thorough': 120000},
}
