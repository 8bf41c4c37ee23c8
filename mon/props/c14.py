"""C14 removing absorption removes the loss and nothing else"""
import os
import numpy as np
from dispersion import Material, Spectrum, Writer
from .. import gen, ref

PROP = 'C14'
RULE = ("a case is a material of any kind (given directly, or written to and "
        "read from a file, sometimes extrapolated before) on which absorption "
        "is removed once or repeatedly, between queries; the values before "
        "and after are compared over the real part's range, in both "
        "representations; distinct by (kind, history, query unit)")
ASSUMPTIONS = []
REQUIRED = ['imaginary parts exactly zero', 'real parts unchanged',
            'complex materials unchanged', 'repeated removals',
            'range widened to the real part', 'other materials unaffected']


def real_window(rmat):
    only_real = ref.RefMaterial(rmat.name, rmat.real)
    return gen.finite_window(only_real), only_real.range_m()


def native(mat, rmat, spec):
    return mat.get_nk_data(spec) if rmat.name == 'nk' else \
        mat.get_permittivity(spec)


def case_remove(ctx):
    kinds = gen.MATERIAL_KINDS + ('part_const', 'medium')
    kind = kinds[ctx.idx % len(kinds)]
    mat, rmat, desc = gen.make_material(ctx, kind, small=True)
    ctx.describe(kind=kind, desc=desc)
    if rmat.cplx is not None:
        lam = gen.inside(ctx, rmat, 9)
        spec, qpair = gen.request(ctx, lam)
        nk0, eps0 = mat.get_nk_data(spec), mat.get_permittivity(spec)
        rng0 = mat.get_maximum_valid_range()
        for _ in range(ctx.randint(1, 3)):
            ctx.accepts(mat.remove_absorption, "removing absorption of "
                        "complex data")
        ctx.check(gen.same(nk0, mat.get_nk_data(spec)) and
                  gen.same(eps0, mat.get_permittivity(spec)),
                  "complex data changed by removing absorption",
                  'complex materials unchanged', desc=desc)
        ctx.check(gen.same(rng0, mat.get_maximum_valid_range()),
                  "range of complex data changed by removing absorption",
                  'complex materials unchanged', desc=desc)
        ctx.sig(kind, desc.get('model'), qpair)
        return
    other, rother, _ = gen.make_material(ctx, ctx.choice(
        ['tab_nk', 'tab_eps', 'fixed_nk']), small=True)
    lam_o = gen.inside(ctx, rother, 4)
    other0 = other.get_nk_data(lam_o)
    history = []
    if ctx.chance(0.3) and 'const' not in (rmat.real.kind, rmat.imag.kind) \
            and rmat.range_m()[0] < rmat.range_m()[1]:
        path = os.path.join(ctx.tmpdir(), 'm.yml')
        Writer(path, mat).write_file()
        mat = Material(file_path=path)
        history.append('file')
    (low, high), rrange = real_window(rmat)
    # the spectrum lies in the common range first, to have values before
    clow, chigh = rmat.range_m()
    common = clow*(1 + 1e-4) < chigh*(1 - 1e-4)
    if common and low < high:
        lam = gen.inside(ctx, rmat, ctx.choice([1, 5, 30]))
        spec, qpair = gen.request(ctx, lam)
        before = native(mat, rmat, spec)
        if ctx.chance(0.5):
            history.append('queried')
            mat.get_nk_data(spec)
    elif clow == chigh:
        part = rmat.real if rmat.real.kind == 'table' else rmat.imag
        spec, qpair = Spectrum(np.array(part.xx), *part.pair), part.pair
        lam = np.array([clow])
        before = native(mat, rmat, spec)
    else:
        spec, before, qpair = None, None, None
    times = ctx.choice([1, 1, 2, 3])
    for turn in range(times):
        ctx.accepts(mat.remove_absorption, "removing absorption")
        if turn:
            ctx.count('repeated removals')
        if spec is not None:
            after = native(mat, rmat, spec)
            ctx.check(np.all(np.imag(after) == 0.0), "imaginary part is not "
                      "zero after removing absorption",
                      'imaginary parts exactly zero', desc=desc)
            ctx.check(gen.same(np.real(after), np.real(before)) and
                      np.shape(after) == np.shape(before),
                      "real part changed by removing absorption",
                      'real parts unchanged', desc=desc)
            both = mat.get_permittivity(spec) if rmat.name == 'nk' else \
                mat.get_nk_data(spec)
            want = after**2 if rmat.name == 'nk' else np.sqrt(after)
            ctx.close(both, want, "representations disagree after removing "
                      "absorption", rtol=1e-12)
    # the whole range of the real part is available now
    if low < high:
        lam = np.exp(ctx.rng.uniform(np.log(low*(1 + 1e-5)),
                                     np.log(high*(1 - 1e-5)), 20))
        spec2, _ = gen.request(ctx, lam)
        after = ctx.accepts(lambda: native(mat, rmat, spec2), "evaluating in "
                            "the range of the real part after removing "
                            "absorption", desc=desc)
        want = rmat.real.evaluate(lam)
        ctx.check(np.all(np.imag(after) == 0.0), "imaginary part is not zero "
                  "in the whole range of the real part",
                  'imaginary parts exactly zero', desc=desc)
        ctx.check(np.all(np.abs(np.real(after) - want) <=
                         3*rmat.real.tol(lam) + 1e-8*np.abs(want)),
                  "real part changed in its own range",
                  'real parts unchanged', desc=desc)
        if clow > rrange[0]*(1 + 1e-6) or chigh < rrange[1]*(1 - 1e-6):
            ctx.count('range widened to the real part')
    ctx.check(gen.same(other0, other.get_nk_data(lam_o)),
              "another material changed", 'other materials unaffected')
    ctx.sig(kind, tuple(history), times, qpair)


SCENARIOS = {
    'remove': {'case': case_remove, 'quick': 6000, 'thorough': 120000},
}
