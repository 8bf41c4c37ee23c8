"""C05 tabulated data are interpolated faithfully"""
import os
import numpy as np
from dispersion import Spectrum, Interpolation, Material
from .. import gen, ref

PROP = 'C05'
RULE = ("a case is a table (rows 1..thousands, any order, unit and number "
        "format) given to the data class or to a material and queried at "
        "its nodes and between them in several units; distinct by (entry "
        "point, unit, query unit, rows, row order, interpolation order)")
ASSUMPTIONS = ["conversion of the query may be off by 1e-9 relative or by "
               "the documented rounding step; the allowance is the change "
               "of the interpolant over that distance"]
REQUIRED = ['node values compared', 'interior values compared',
            'order values compared', 'tables from files',
            'tables of the absorption coefficient']


def build(ctx, pair, stype, unit, table, order, alpha=False):
    """[(name, function returning the column for a Spectrum)]"""
    kw = {} if order is None else {'interp_order': order}
    entries = ['nk', 'n', 'eps', 'file']
    if alpha:
        entries.append('n_alpha')
    if len(table) > 1:
        entries.append('Interpolation')
    entry = ctx.choice(entries)
    if entry == 'Interpolation':
        if pair == ('wavelength', 'm') and ctx.chance(0.5):
            pass                            # metre is the default
        elif pair[0] == 'wavelength' and ctx.chance(0.3):
            kw['unit'] = unit
        else:
            kw.update(spectrum_type=stype, unit=unit)
        obj = Interpolation(table[:, :2].copy(), **kw)
        return entry, [(1, obj.evaluate)]
    if entry == 'file':
        mat = Material(file_path=table_file(ctx, stype, unit, table), **kw)
        ctx.count('tables from files')
        return entry, [(1, lambda s: np.real(mat.get_nk_data(s))),
                       (2, lambda s: np.imag(mat.get_nk_data(s)))]
    kw.update(spectrum_type=stype, unit=unit)
    if entry == 'n':
        mat = Material(tabulated_n=table[:, :2].copy(), **kw)
        return entry, [(1, lambda s: np.real(mat.get_nk_data(s)))]
    if entry == 'n_alpha':
        # the extinction is tabulated, though given by the absorption
        lam_cm = 100*ref.to_metre(pair, table[:, 0])
        mat = Material(tabulated_n_alpha=np.column_stack(
            [table[:, 0], table[:, 1], 4*np.pi*table[:, 2]/lam_cm]), **kw)
        ctx.count('tables of the absorption coefficient')
        return entry, [(1, lambda s: np.real(mat.get_nk_data(s))),
                       (2, lambda s: np.imag(mat.get_nk_data(s)))]
    if entry == 'nk':
        mat = Material(tabulated_nk=table.copy(), **kw)
        return entry, [(1, lambda s: np.real(mat.get_nk_data(s))),
                       (2, lambda s: np.imag(mat.get_nk_data(s)))]
    mat = Material(tabulated_eps=table.copy(), **kw)
    return entry, [(1, lambda s: np.real(mat.get_permittivity(s))),
                   (2, lambda s: np.imag(mat.get_permittivity(s)))]


def table_file(ctx, stype, unit, table):
    """the table as a data file"""
    ext = ctx.choice(['.txt', '.csv', '.yml'])
    path = os.path.join(ctx.tmpdir(), 'table' + ext)
    sep = ', ' if ext == '.csv' else ' '
    rows = [sep.join(repr(float(v)) for v in row) for row in table]
    if ext == '.yml':
        head = ['DATA:', '- DataType: tabulated nk',
                '  SpectrumType: ' + stype, '  Unit: "%s"' % unit,
                '  Data: |']
        rows = ['    ' + row for row in rows]
    else:
        head = ['# DATATYPE: tabulated nk', '# SPECTRUMTYPE: ' + stype,
                '# UNIT: ' + unit]
    with open(path, 'w', encoding='utf-8') as fpt:
        fpt.write("\n".join(head + rows) + "\n")
    return path


def case_linear(ctx):
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    num = gen.table_size(ctx)
    if ctx.chance(0.08):
        num = 1
    wide = ctx.chance(0.15)
    window = gen.lam_window(ctx, decades=ctx.rng.uniform(2, 3),
                            low=1e-9, high=1e-4) if wide else None
    xx = gen.table_x(ctx, pair, num, window)
    cols = [gen.column(ctx, ctx.choice(['n', 'k', 'any', 'epsr']), num)
            for _ in range(2)]
    if ctx.chance(0.1) and pair[1] in ('nm', 'hz', '1/s', 'a', '1/cm') and \
            num < 500 and ref.from_metre(pair, 1e-6) > 500:
        xx = np.sort(ctx.rng.choice(np.arange(200, 2000), num, replace=False))
        cols = [ctx.rng.integers(1, 9, num), ctx.rng.integers(0, 5, num)]
        table = np.column_stack([xx] + cols)        # integers
    else:
        table = np.column_stack([xx] + cols)
    table = gen.shuffled(ctx, table)
    order = ctx.choice([None, None, 1])
    entry, columns = build(ctx, pair, stype, unit, table, order)
    ctx.describe(entry=entry, pair=pair, rows=num, dtype=str(table.dtype),
                 first=table[0], order=order)
    parts = [ref.RefTable(table[:, 0], table[:, c], pair) for c in (1, 2)]
    for col, func in columns:
        part = parts[col - 1]
        scale = float(np.max(np.abs(part.yy)))
        # nodes in the own unit: exact
        pick = ctx.rng.permutation(num)[:60]
        pos = part.xx[pick]
        got = func(Spectrum(pos, stype, unit))
        # converted values are rounded, a neighbouring node may be close
        lam = ref.to_metre(pair, pos)
        tol = part.tol(lam)
        ctx.check(np.shape(got) == (len(pick),), "wrong number of values",
                  got=np.shape(got))
        ctx.close(got, part.yy[pick], "tabulated value is not returned at a "
                  "tabulated point", rtol=1e-12, atol=np.max(tol) if num > 1
                  else 1e-12*scale, counter='node values compared',
                  pair=pair, entry=entry, column=col, rows=num)
        if num > 1:
            # strict check where rounding cannot matter
            err = np.abs(got - part.yy[pick])
            ctx.check(np.all(err <= tol), "tabulated point missed",
                      'node values compared', pair=pair, entry=entry,
                      err=np.max(err))
        # nodes and interior points in any unit
        for _ in range(2):
            qpair = gen.any_pair(ctx)
            if num > 1:
                seg = ctx.rng.integers(0, num - 1, 40)
                frac = ctx.choice([ctx.rng.random(40), np.full(40, 0.5),
                                   ctx.rng.choice([1e-4, 0.999], 40)])
                inner = part.xx[seg] + frac*(part.xx[seg+1] - part.xx[seg])
            else:
                inner = np.array([part.xx[0]])
            lam = ref.to_metre(pair, inner)
            if qpair == pair:
                qvals = inner
            else:
                qvals = ref.from_metre(qpair, lam)
            scalar = ctx.chance(0.2)
            if scalar:
                qvals, lam = float(qvals[0]), lam[0]
            qtype, qunit = gen.spell(ctx, qpair)
            got = func(Spectrum(qvals, qtype, qunit))
            want = part.evaluate(lam)
            ctx.check(np.shape(got) == np.shape(want), "wrong shape",
                      got=np.shape(got), want=np.shape(want))
            err = np.abs(np.asarray(got) - want)
            tol = part.tol(lam) + 1e-10*scale
            ctx.count('interior values compared', int(np.size(want)))
            if not np.all(err <= tol):
                bad = int(np.argmax(np.ravel(err - tol)))
                ctx.fail("value between tabulated points is not the linear "
                         "interpolation", pair=pair, qpair=qpair,
                         entry=entry, rows=num, column=col,
                         at=np.ravel(inner)[bad], got=np.ravel(got)[bad],
                         want=np.ravel(want)[bad], tol=np.ravel(tol)[bad])
            ctx.sig(entry, pair, qpair, min(num, 2000), scalar, order,
                    table[0, 0] < table[-1, 0])
        if num == 1:
            for fac in (1 - 1e-6, 1 + 1e-6, 2.0):
                ctx.raises(ValueError, lambda: func(Spectrum(
                    float(part.xx[0]*fac), stype, unit)),
                    "one-row table evaluated at another point")


def case_order(ctx):
    """an interpolant of order p reproduces polynomials up to degree p"""
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    order = ctx.choice([0, 1, 2, 3, 3, 2, 4, 5])
    num = ctx.choice([order + 1, order + 2, 6, 10, 25, 60])
    num = max(num, order + 1)
    window = gen.lam_window(ctx, decades=ctx.rng.uniform(0.1, 0.7),
                            high=1e-5)
    xx = gen.table_x(ctx, pair, num, window)
    span = xx[-1] - xx[0]
    deg = ctx.randint(0, order)
    coef = [np.concatenate([ctx.rng.uniform(-2, 2, deg + 1),
                            np.zeros(order - deg)]) for _ in range(2)]
    coef[0][deg] += 3.0     # highest power clearly present

    def poly(which, pos):
        uu = (np.asarray(pos) - xx[0])/span
        return sum(c*uu**i for i, c in enumerate(coef[which]))
    table = np.column_stack([xx, poly(0, xx), poly(1, xx)])
    table = gen.shuffled(ctx, table)
    entry, columns = build(ctx, pair, stype, unit, table, order, alpha=True)
    ctx.describe(entry=entry, pair=pair, rows=num, order=order, degree=deg,
                 coefficients=coef)
    for col, func in columns:
        got = func(Spectrum(xx, stype, unit))
        ctx.close(got, poly(col-1, xx), "interpolant of higher order misses "
                  "a tabulated point", rtol=1e-6, atol=1e-6,
                  counter='order values compared', order=order, entry=entry)
        qpair = gen.any_pair(ctx)
        pos = xx[0] + span*ctx.rng.uniform(0.001, 0.999, 50)
        spec, _ = gen.request(ctx, ref.to_metre(pair, pos), qpair)
        got = func(spec)
        ctx.close(got, poly(col-1, pos), "interpolation of order {} does not "
                  "reproduce a polynomial of degree {}".format(order, deg),
                  rtol=1e-5, atol=1e-5, counter='order values compared',
                  entry=entry, order=order, rows=num, pair=pair, qpair=qpair)
        ctx.sig('order', order, deg, entry, pair, num)


SCENARIOS = {
    'linear': {'case': case_linear, 'quick': 3500, 'thorough': 60000},
    'order': {'case': case_order, 'quick': 1500, 'thorough': 20000},
}
