"""C11 absorption coefficient tables give k = alpha*lambda/(4 pi)"""
import os
import numpy as np
from dispersion import Material, Spectrum
from .. import gen, ref

PROP = 'C11'
RULE = ("a case is a table of n and alpha in one quantity and unit, given "
        "directly (rows in any order, with or without naming the default "
        "unit) or in a .txt/.csv/.nk/.yml file (unit in the file or from the "
        "caller), queried at its points and between them in any quantity and "
        "unit; distinct by (source, table unit, query unit, rows, row order)")
ASSUMPTIONS = ["tables in files have increasing spectral values (C19 "
               "describes the others)"]
REQUIRED = ['tabulated n compared', 'tabulated k compared',
            'interpolated values compared', 'single row tables', 'files read']

SOURCES = ('array', 'array', '.txt', '.csv', '.nk', '.yml')


def make(ctx):
    source = SOURCES[ctx.idx % len(SOURCES)]
    default_unit = ctx.chance(0.2)
    pair = ('wavelength', 'nm') if default_unit else gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    num = ctx.choice([1, 2, 2, 3, 4, 7, 30, 150, 1200 if
                      ctx.chance(0.2) else 20])
    xx = gen.table_x(ctx, pair, num)
    nn = gen.column(ctx, 'n', num)
    alpha = gen.column(ctx, 'alpha', num)
    table = np.column_stack([xx, nn, alpha])
    if source == 'array':
        table = gen.shuffled(ctx, table)
        kw = {} if default_unit else {'spectrum_type': stype, 'unit': unit}
        mat = Material(tabulated_n_alpha=table.copy(), **kw)
        return source, pair, mat, xx, nn, alpha
    path = os.path.join(ctx.tmpdir(), 'm' + source)
    in_file = ctx.chance(0.7)
    with open(path, 'w') as fpt:
        if source == '.yml':
            fpt.write("REFERENCES: test\nDATA:\n  - DataType: tabulated "
                      "n_alpha\n")
            if in_file:
                fpt.write("    SpectrumType: %s\n    Unit: %s\n" %
                          (stype, unit))
            fpt.write("    Data: |\n")
            for row in table:
                fpt.write("        %r %r %r\n" % tuple(map(float, row)))
        else:
            char = ';' if source == '.nk' else '#'
            if in_file:
                fpt.write("%s SPECTRUMTYPE: %s\n%s UNIT: %s\n" %
                          (char, stype, char, unit))
            fpt.write("%s DATATYPE: tabulated n_alpha\n" % char)
            sep = ',' if source == '.csv' else ctx.choice(['\t', ' '])
            for row in table:
                fpt.write(sep.join(repr(float(v)) for v in row) + "\n")
    ctx.count('files read')
    if in_file:
        # what the file says takes precedence
        kw = {'spectrum_type': 'energy', 'unit': 'eV'} if ctx.chance(0.3) \
            else {}
    else:
        kw = {'spectrum_type': stype, 'unit': unit}
    mat = Material(file_path=path, **kw)
    return source, pair, mat, xx, nn, alpha


def case_alpha(ctx):
    source, pair, mat, xx, nn, alpha = make(ctx)
    ctx.describe(source=source, pair=pair, rows=len(xx), first=[
        float(xx[0]), float(nn[0]), float(alpha[0])])
    kk = alpha*ref.to_metre(pair, xx)*100.0/(4*np.pi)
    # at the tabulated points, in the unit of the table
    stype, unit = gen.spell(ctx, pair)
    order = ctx.rng.permutation(len(xx))
    got = mat.get_nk_data(Spectrum(xx[order], stype, unit))
    # a point may be missed by the rounding of the conversion; k is also
    # affected by the rounding of the wavelength (1e-15 m)
    rmat = ref.RefMaterial('nk', ref.RefTable(xx, nn, pair),
                           ref.RefTable(xx, kk, pair))
    lam_t = ref.to_metre(pair, xx)
    ntol = 2*rmat.real.tol(lam_t) + 1e-10*nn
    ktol = 2*rmat.imag.tol(lam_t) + (2e-9 + 2e-15/lam_t)*np.abs(kk)
    ctx.check(np.all(np.abs(np.real(got) - nn[order]) <= ntol[order]),
              "n differs from the table", 'tabulated n compared',
              got=np.real(got), want=nn[order])
    ctx.check(np.all(np.abs(np.imag(got) - kk[order]) <= ktol[order]),
              "k is not alpha*lambda/(4 pi)", 'tabulated k compared',
              pair=pair, source=source, got=np.imag(got), want=kk[order])
    if len(xx) == 1:
        ctx.count('single row tables')
        ctx.sig(source, pair, 1)
        return
    # and scalar, one by one
    for num in set([0, len(xx) - 1, ctx.randint(0, len(xx) - 1)]):
        got = mat.get_nk_data(float(xx[num]), stype, unit)
        ctx.close(np.imag(got), kk[num], "k is not alpha*lambda/(4 pi) for a "
                  "scalar", atol=ktol[num], counter='tabulated k compared')
    # between the points, in any unit
    lam = gen.inside(ctx, rmat, 12, 1e-7)
    spec, qpair = gen.request(ctx, lam)
    got = mat.get_nk_data(spec)
    ctx.close(np.real(got), rmat.real.evaluate(lam), "n is not interpolated "
              "linearly", rtol=1e-8, atol=3*np.max(rmat.real.tol(lam)),
              counter='interpolated values compared', pair=pair, query=qpair)
    want = rmat.imag.evaluate(lam)
    tol = 3*rmat.imag.tol(lam) + (2e-9 + 2e-15/np.min(lam_t))*np.abs(want)
    ctx.check(np.all(np.abs(np.imag(got) - want) <= tol),
              "k is not interpolated linearly",
              'interpolated values compared', pair=pair, query=qpair,
              got=np.imag(got), want=want)
    ctx.close(mat.get_permittivity(spec), got**2, "permittivity is not the "
              "square of the index", rtol=1e-10)
    ctx.sig(source, pair, qpair, min(len(xx), 5))


SCENARIOS = {
    'alpha': {'case': case_alpha, 'quick': 6000, 'thorough': 150000},
}
