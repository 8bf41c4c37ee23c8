"""C19 unusable files are refused, unusable rows dropped predictably"""
import os
import numpy as np
import yaml
from dispersion import Material, Spectrum
from .. import gen, ref, words

PROP = 'C19'
RULE = ("a case is a file that is valid except for one defect (extension, "
        "missing, kind of data set, model or formula, unit of a model, "
        "non-numeric entry at any place, index and permittivity mixed, "
        "malformed YAML at any distance from "
        "the data, no table of two or three columns), which has to be refused; or a valid "
        "file whose spectral column is unordered or repeats values (repetitions, "
        "reversals, random walks; text and YAML, two or three columns), "
        "compared with the rows kept by the stated rule; distinct by defect, "
        "file type and pattern of kept rows")
ASSUMPTIONS = ["spectral values are positive finite numbers"]
REQUIRED = ['extension refused', 'missing file refused',
            'unknown data set refused', 'unknown model refused',
            'model unit refused', 'non-numeric refused',
            'non-numeric coefficients refused',
            'malformed file refused', 'file without table refused',
            'unusable data set beside a valid one',
            'kept rows compared', 'dropped rows observed',
            'ranges of kept rows', 'valid twin accepted',
            'narrow tables', 'mixed quantities refused']

TEXT = ('.txt', '.csv', '.nk')


def table_text(ext, rows):
    sep = {'.csv': ',', '.txt': ' ', '.nk': '\t'}.get(ext, ' ')
    return "".join(sep.join(r if isinstance(r, str) else repr(float(r))
                            for r in row) + "\n" for row in rows)


def write(ctx, name, text):
    path = os.path.join(ctx.tmpdir(), name)
    with open(path, 'w', encoding='utf-8') as fpt:
        fpt.write(text)
    return path


def yaml_text(kind, rows=None, par=None, stype=None, unit=None,
              vrange="0.4 0.9", rii=False):
    out = "REFERENCES: none\nDATA:\n  - %s: %s\n" % (
        'type' if rii else 'DataType', kind)
    if stype:
        out += "    SpectrumType: %s\n" % stype
    if unit:
        out += "    Unit: %s\n" % unit
    if par is not None:
        out += "    %s: %s\n    %s: %s\n" % (
            'coefficients' if rii else 'Parameters', par,
            'wavelength_range' if rii else 'ValidRange', vrange)
    else:
        out += "    %s: |\n" % ('data' if rii else 'Data')
        for row in rows:
            out += ' '*8 + ' '.join(r if isinstance(r, str) else
                                    repr(float(r)) for r in row) + "\n"
    return out


def good_rows(ctx, ncol, num=None):
    num = num or ctx.choice([1, 2, 3, 10])
    xx = gen.table_x(ctx, ('wavelength', 'nm'), num)
    cols = [gen.column(ctx, 'n', num) for _ in range(ncol - 1)]
    return [list(row) for row in zip(xx, *cols)]


def beside(ctx, text, twin=None):
    """the same file with a valid table of k before or after"""
    mode = ctx.choice(['alone', 'alone', 'before', 'after'])
    ctx.describe(beside=mode)
    if mode == 'alone':
        return text, twin
    part = yaml_text('tabulated k', [[0.3, 0.1], [0.6, 0.2], [1.2, 0.0]],
                     stype='wavelength', unit='um').split('DATA:\n')[1]
    out = []
    for one in (text, twin):
        if one is not None:
            one = one + part if mode == 'after' else \
                one.replace('DATA:\n', 'DATA:\n' + part, 1)
        out.append(one)
    ctx.count('unusable data set beside a valid one')
    return out


def refuse(ctx, path, counter, kinds=Exception, **kw):
    ctx.raises(kinds, lambda: Material(file_path=path, **kw), "unusable file",
               counter, path=os.path.basename(path), **ctx.desc)


def case_refused(ctx):
    defect = ('extension', 'missing', 'dataset', 'model', 'unit',
              'non-numeric')[ctx.idx % 6]
    rii = ctx.chance(0.4)
    if defect == 'extension':
        ext = ctx.choice(['.json', '.dat', '', '.yaml', '.xlsx', '.md', '.n',
                          '.txtx', '.cs', '.ymls', '.zip', '.py'])
        path = write(ctx, 'file' + ext, table_text('.txt', good_rows(ctx, 3)))
        ctx.describe(defect=defect, ext=ext)
        refuse(ctx, path, 'extension refused', ValueError)
        ctx.sig(defect, ext)
    elif defect == 'missing':
        ext = ctx.choice(list(TEXT) + ['.yml'])
        where = ctx.choice(['', 'nowhere/', '../gone/', 'a b/'])
        path = os.path.join(ctx.tmpdir(), where + 'missing' + ext)
        ctx.describe(defect=defect, ext=ext)
        refuse(ctx, path, 'missing file refused')
        ctx.sig(defect, ext, where)
    elif defect == 'dataset':
        ext = ctx.choice(list(TEXT) + ['.yml', '.yml', '.yml'])
        kind = ctx.choice(['tabulated x', 'tabulated nn', 'tabulated q',
                           'table nk', 'graph n', 'tabulated epsilon',
                           'tabulated NK', 'tabulatednk', 'tabulated',
                           'spline nk', 'data nk', 'list n', 'tab nk',
                           'tabulated n k', 'measured n', 'constant n',
                           'constant x'])
        ncol = ctx.choice([2, 3])
        rows = good_rows(ctx, ncol)
        if ext == '.yml':
            text = yaml_text(kind, rows, rii=rii)
        else:
            char = ';' if ext == '.nk' else '#'
            text = char + " DATATYPE: " + kind + "\n" + table_text(ext, rows)
        # its twin with a known kind is fine
        known = 'tabulated n' if ncol == 2 else 'tabulated nk'
        twin = text.replace(kind, known, 1)
        if ext == '.yml' and ncol == 2:
            text, twin = beside(ctx, text, twin)
        path = write(ctx, 'file' + ext, text)
        ctx.describe(defect=defect, ext=ext, kind=kind)
        refuse(ctx, path, 'unknown data set refused')
        twin = write(ctx, 'twin' + ext, twin)
        ctx.accepts(lambda: Material(file_path=twin), "valid twin")
        ctx.count('valid twin accepted')
        ctx.sig(defect, ext, kind)
    elif defect == 'model':
        kind = ctx.choice(['formula 0', 'formula 10', 'formula 11',
                           'formula -1', 'formula 100', 'formula x',
                           'formula 1.5', 'formula', 'model Foo', 'model',
                           'model sellmeier', 'model Sellmeier3',
                           'model Lorentz', 'model np', 'model Spectrum',
                           'model SpectralData', 'model Model',
                           'model Constant', 'model Interpolation',
                           'model Debye', 'formula Sellmeier', 'Sellmeier',
                           'model re', 'function 1'])
        text, twin = beside(ctx, *[yaml_text(
            which, par='0 1.03 0.07', stype='wavelength', unit='um', rii=rii)
            for which in (kind, 'formula 1')])
        path = write(ctx, 'file.yml', text)
        ctx.describe(defect=defect, kind=kind)
        refuse(ctx, path, 'unknown model refused')
        twin = write(ctx, 'twin.yml', twin)
        ctx.accepts(lambda: Material(file_path=twin), "valid twin")
        ctx.count('valid twin accepted')
        ctx.sig(defect, kind, rii)
    elif defect == 'unit':
        name = ctx.choice(tuple(ref.MODELS_N) + tuple(ref.MODELS_EPS) +
                          ('TaucLorentz',))
        par, _ = gen.model_parameters(ctx, name)
        good = gen.model_pair(name)
        pair = ctx.choice([p for p in ref.PAIRS if p != good])
        stype, unit = gen.spell(ctx, pair)
        # the range belongs to the stated unit, only the formula does not
        vrange = np.sort(ref.from_metre(pair, np.array([4e-7, 9e-7])))
        kind = 'model ' + name
        if name in ref.FORMULA_NUMBER and (rii or ctx.chance(0.5)):
            kind = 'formula %d' % ref.FORMULA_NUMBER[name]
        path = write(ctx, 'file.yml', beside(ctx, yaml_text(
            kind, par=' '.join(map(repr, par)), stype=stype, unit=unit,
            vrange="%r %r" % tuple(map(float, vrange)), rii=rii))[0])
        ctx.describe(defect=defect, kind=kind, unit=unit)
        kw = {}
        if ctx.chance(0.3):
            kw = {'spectrum_type': good[0], 'unit': good[1]}
        refuse(ctx, path, 'model unit refused', **kw)
        ctx.sig(defect, kind, pair)
    else:
        ext = ctx.choice(list(TEXT) + ['.yml', '.yml'])
        ncol = ctx.choice([2, 3])
        rows = good_rows(ctx, ncol, ctx.choice([1, 2, 5, 30]))
        row = ctx.randint(0, len(rows) - 1)
        col = ctx.randint(0, ncol - 1)
        bad = ctx.choice(['abc', '1,5', '1.5.2', '--', '1.2e', 'n/a', '1_',
                          '0x1g', '1..5', '1e5e5', '?', '1.5*', '(1.5)',
                          '1.5i', 'one', '1.5/2', '$', '1;5'])
        if ext == '.csv' and ',' in bad or ext == '.nk' and ';' in bad:
            bad = 'abc'
        if ext == '.csv' and ctx.chance(0.3):
            bad = ctx.choice(['', ' ', '\t'])
        rows[row][col] = bad
        if ext == '.yml':
            text = yaml_text('tabulated n' if ncol == 2 else 'tabulated nk',
                             rows, rii=rii)
            if ncol == 2:
                text = beside(ctx, text)[0]
        else:
            text = table_text(ext, rows)
        path = write(ctx, 'file' + ext, text)
        ctx.describe(defect=defect, ext=ext, bad=bad, row=row, col=col)
        refuse(ctx, path, 'non-numeric refused')
        # coefficients and ranges of formulas
        par = ['0', '1.03', '0.07']
        vrange = ['0.4', '0.9']
        target = ctx.choice([par, par, vrange])
        spot = ctx.randint(0, len(target) - 1)
        bad = ctx.choice(['abc', '1,5', '1.5.2', '--', '1.2e', 'n/a', '1..5',
                          '1e5e5', '?', '1.5*', '(1.5)', '1.5i', 'one', '1;5'])
        if spot == 0 and bad in ('?', '--'):
            bad = 'x'
        target[spot] = bad
        path = write(ctx, 'formula.yml', yaml_text(
            'formula 1', par=' '.join(par), stype='wavelength', unit='um',
            vrange=' '.join(vrange), rii=rii))
        ctx.describe(defect=defect, par=par, vrange=vrange)
        refuse(ctx, path, 'non-numeric coefficients refused')
        ctx.sig(defect, ext, bad, col)


BROKEN_YAML = ('NAME: a: b', 'NAME: [1, 2', "NAME: 'abc", 'NAME: "abc',
               '\tNAME: x', 'NAME: *unknown', 'NAME: @x', 'NAME: `x`', '{',
               '- item', 'no key', 'NAME: "a" b', 'NAME: x\x07y',
               'NAME: {a: 1', 'NAME: |1x', '%BAD', 'NAME: !<', ']', 'NAME: }',
               '  NAME: x\n AUTHOR: y', 'NAME: &', '? x\n- y', 'NAME: x\0y')


def case_malformed(ctx):
    """YAML files with an error anywhere, at any distance from the data"""
    broken = BROKEN_YAML[ctx.idx % len(BROKEN_YAML)]
    ncol = ctx.choice([2, 3])
    good = yaml_text('tabulated n' if ncol == 2 else 'tabulated nk',
                     good_rows(ctx, ncol), rii=ctx.chance(0.5))
    where = ctx.choice(['first', 'first', 'before', 'last'])
    pad = ''
    if where == 'last':
        text = good + broken + '\n'
    else:
        head = 'AUTHOR: me\n' if where == 'before' else ''
        head += broken + '\n'
        # lengths at which readers refill their buffers
        size = ctx.choice([0, 0, 512, 1024, 2048, 4096, 8192, 12288, 16384,
                           65536, ctx.randint(1, 9000)])
        if size > len(head) + 2:
            pad = '#'*(size - len(head) - 1) + '\n'
        text = head + pad + good
    try:
        yaml.safe_load(text)
        ctx.count('harmless errors')
        return
    except yaml.YAMLError:
        pass
    path = write(ctx, 'file.yml', text)
    ctx.describe(broken=broken, where=where, size=len(pad))
    refuse(ctx, path, 'malformed file refused')
    twin = write(ctx, 'twin.yml', pad + good)
    ctx.accepts(lambda: Material(file_path=twin), "valid twin")
    ctx.count('valid twin accepted')
    ctx.sig('malformed', broken, where, len(pad))


def case_no_table(ctx):
    """files which hold no table of two or three columns"""
    ext = ctx.choice(list(TEXT) + ['.yml'])
    defect = ctx.choice(['empty', 'header only', 'one column', 'four columns',
                         'ragged'])
    num = ctx.choice([1, 2, 3, 4, 10])
    ncol = {'one column': 1, 'four columns': 4}.get(
        defect, ctx.choice([2, 3]))
    if defect == 'four columns' and ext == '.yml':
        ext = '.txt'
    if defect == 'ragged':
        num = max(num, 2)
    rows = good_rows(ctx, ncol, num)
    if defect == 'ragged':
        row = ctx.randint(0, num - 1)
        rows[row] = rows[row][:-1] if ctx.chance(0.5) else rows[row] + [1.0]
    elif defect in ('empty', 'header only'):
        rows = []
    if ext == '.yml':
        if defect == 'empty':
            text = ctx.choice(['', '\n', '---\n', 'null\n', '{}\n', '[]\n'])
        elif defect == 'header only':
            text = 'NAME: x\n' + ctx.choice(['', 'DATA:\n', 'DATA: []\n',
                                             'DATA: {}\n'])
        else:
            text = yaml_text(ctx.choice(
                ['tabulated n', 'tabulated k'] if ncol == 1 else
                ['tabulated nk'] if ncol == 3 else ['tabulated n']), rows,
                rii=ctx.chance(0.5))
    else:
        text = table_text(ext, rows) if rows else ctx.choice(['', '\n \n'])
        if defect == 'header only' or ctx.chance(0.5):
            char = ';' if ext == '.nk' else '#'
            text = char + ' NAME: x\n' + text
    path = write(ctx, 'file' + ext, text)
    ctx.describe(defect=defect, ext=ext, num=num)
    refuse(ctx, path, 'file without table refused')
    ctx.sig(defect, ext, num)


def disorder(ctx, xx):
    """a sequence of spectral values that does not increase strictly"""
    num = len(xx)
    mode = ctx.randint(0, 6)
    seq = list(xx)
    if mode == 0:       # repetitions
        pos = ctx.randint(0, num - 1)
        seq.insert(pos, seq[pos])
    elif mode == 1:     # descending
        seq = seq[::-1]
    elif mode == 2:     # random
        seq = [seq[i] for i in ctx.rng.permutation(num)]
    elif mode == 3:     # two ranges appended, overlapping
        cut = ctx.randint(0, num - 1)
        seq = seq + seq[cut:]
    elif mode == 4:     # one outlier up front or inside
        pos = ctx.randint(0, num - 1)
        seq.insert(pos, seq[-1]*ctx.choice([1.0, 0.99, 1.2]))
    elif mode == 5:     # tiny steps back and forth
        seq = [v*(1 + ctx.choice([0, 0, 1e-12, -1e-12, 1e-9, -1e-9]))
               for v in np.repeat(seq, 2)]
    else:               # one small value late
        pos = ctx.randint(1, num)
        seq.insert(pos, seq[0]*ctx.choice([1.0, 0.5, 0.999]))
    return np.array(seq)


def kept_rows(seq):
    """numbers of the rows to be kept, in the order of their values"""
    first = {}
    for num, val in enumerate(seq):
        first.setdefault(float(val), num)
    return [first[val] for val in sorted(first)]


def case_rows(ctx):
    ext = ctx.choice(list(TEXT) + ['.yml', '.yml'])
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    num = ctx.choice([2, 3, 4, 6, 12, 40])
    xx = gen.table_x(ctx, pair, num)
    if ctx.chance(0.15):
        # a narrow line, rows close to each other
        xx = xx[0]*(1 + ctx.choice([2e-7, 1e-6, 1e-5])*np.arange(num))
        ctx.count('narrow tables')
    seq = disorder(ctx, xx)
    ncol = ctx.choice([2, 3])
    kind = ctx.choice(['n', 'k']) if ncol == 2 else ctx.choice(['nk', 'eps'])
    cols = [gen.column(ctx, 'n', len(seq)) for _ in range(ncol - 1)]
    rows = [list(r) for r in zip(seq, *cols)]
    if ext == '.yml':
        text = yaml_text('tabulated ' + kind, rows, stype=stype, unit=unit,
                         rii=ctx.chance(0.3))
    else:
        char = ';' if ext == '.nk' else '#'
        text = "%s UNIT: %s\n%s SPECTRUMTYPE: %s\n%s DATATYPE: tabulated " \
            "%s\n" % (char, unit, char, stype, char, kind)
        text += table_text(ext, rows)
    path = write(ctx, 'file' + ext, text)
    keep = kept_rows(seq)
    info = {'ext': ext, 'kind': kind, 'pair': pair, 'kept': len(keep),
            'rows': len(seq)}
    ctx.describe(sequence=seq, **info)
    mat = ctx.accepts(lambda: Material(file_path=path), "loading a table "
                      "whose spectral column does not increase", **info)
    x_keep = seq[keep]
    if len(keep) < len(seq):
        ctx.count('dropped rows observed', len(seq) - len(keep))
    # rows closer than the rounding steps cannot be told apart by a query
    step = 3*ref.round_step(pair) + 3e-9*x_keep[-1]
    distinct = len(x_keep) == 1 or np.min(np.diff(x_keep)) > step
    got = mat.get_maximum_valid_range()
    ctx.close(np.asarray(got, dtype=float), x_keep[[0, -1]],
              "range is not that of the rows to be kept", rtol=3e-9,
              atol=3*ref.round_step(pair), counter='ranges of kept rows',
              **info)
    if not distinct:
        ctx.count('rows too close to tell apart')
        return
    spec = Spectrum(x_keep, pair[0], pair[1])
    val = mat.get_nk_data(spec) if kind != 'eps' else \
        mat.get_permittivity(spec)
    picks = [np.imag] if kind == 'k' else [np.real, np.imag]
    for col, pick in zip(cols, picks):
        part = ref.RefTable(x_keep, col[keep], pair)
        tol = part.tol(ref.to_metre(pair, x_keep)) + 1e-9*np.abs(col[keep])
        ctx.check(np.all(np.abs(pick(val) - col[keep]) <= tol),
                  "rows to be kept were changed", 'kept rows compared',
                  got=pick(val), want=col[keep], **info)
        if len(keep) > 1:
            # between them: no dropped row has any influence
            mid = 0.5*(x_keep[1:] + x_keep[:-1])
            mspec = Spectrum(mid, pair[0], pair[1])
            mval = mat.get_nk_data(mspec) if kind != 'eps' else \
                mat.get_permittivity(mspec)
            want = part.at(mid)
            tol = part.tol(ref.to_metre(pair, mid)) + 1e-8*np.abs(want)
            ctx.check(np.all(np.abs(pick(mval) - want) <= tol),
                      "a dropped row still influences the data",
                      'kept rows compared', got=pick(mval), want=want, **info)
    ctx.sig(ext, kind, tuple(keep[:12]), len(seq))


def dataset(ctx, what):
    """one data set of a .yml file and the sort of quantity it states"""
    if what in ('Drude', 'DrudeLorentz', 'TaucLorentz'):
        par, _ = gen.model_parameters(ctx, what)
        return yaml_text('model ' + what, par=' '.join(map(repr, par)),
                         stype='energy', unit='eV', vrange="1.0 4.0")
    if what == 'formula':
        return yaml_text('formula 1', par='0 1.03 0.07', stype='wavelength',
                         unit='um', rii=ctx.chance(0.5))
    rows = [[0.3, 2.0, 0.1], [0.6, 2.5, 0.2], [1.2, 2.25, 0.3]]
    if what not in ('nk', 'eps'):
        rows = [row[:2] for row in rows]
    return yaml_text('tabulated ' + what, rows, stype='wavelength',
                     unit='um', rii=ctx.chance(0.5))


INDEX = ('n', 'k', 'nk', 'formula')
PERMITTIVITY = ('eps_r', 'eps_k', 'eps')
COMPLEX = ('Drude', 'DrudeLorentz', 'TaucLorentz')


def case_combined(ctx):
    """refractive index and permittivity in one file: no material"""
    if ctx.chance(0.6):
        chosen = [ctx.choice(INDEX), ctx.choice(PERMITTIVITY + COMPLEX)]
    else:
        chosen = [ctx.choice(COMPLEX), ctx.choice(PERMITTIVITY)]
    valid = ctx.choice([('n', 'k'), ('eps_r', 'eps_k'), ('formula', 'k'),
                        chosen[:1], chosen[1:]])
    if ctx.chance(0.2):
        chosen.append(ctx.choice(['n', 'k', 'eps_r', 'eps_k']))
    for names, good in ((chosen, False), (valid, True)):
        order = [names[int(i)] for i in ctx.rng.permutation(len(names))]
        parts = [dataset(ctx, name).split('DATA:\n')[1] for name in order]
        path = write(ctx, 'valid.yml' if good else 'mixed.yml',
                     "REFERENCES: none\nDATA:\n" + "".join(parts))
        if good:
            ctx.accepts(lambda: Material(file_path=path), "valid twin",
                        order=order)
            ctx.count('valid twin accepted')
        else:
            ctx.describe(order=order)
            refuse(ctx, path, 'mixed quantities refused')
            ctx.sig('mixed', tuple(order))


SCENARIOS = {
    'combined': {'case': case_combined, 'quick': 400, 'thorough': 4000},
    'refused': {'case': case_refused, 'quick': 3000, 'thorough': 48000},
    'malformed': {'case': case_malformed, 'quick': 1500, 'thorough': 24000},
    'no_table': {'case': case_no_table, 'quick': 600, 'thorough': 6000},
    'rows': {'case': case_rows, 'quick': 3000, 'thorough': 80000},
}
