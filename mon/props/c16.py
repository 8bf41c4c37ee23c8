"""C16 writing a material and reading it back preserves its optical data"""
import os
import numpy as np
from dispersion import Material, Spectrum, Writer, Interpolation, Constant
from dispersion.material import Simple, MaxwellGarnett
from .. import gen, ref

PROP = 'C16'
RULE = ("a case is a material (tables of any kind, size, order of rows, "
        "magnitude and unit; models; models with tables; effective media; "
        "materials without absorption; materials read from a file) written "
        "to one file type and read back; representation, range and values "
        "at the tabulated points and elsewhere are compared with the original "
        "and with the reference; distinct by (kind, file type, unit, size "
        "class, number of data sets)")
ASSUMPTIONS = ["constant data other than zero are refused unless the writer "
               "is told not to ignore constants (a missing part is not "
               "constant data)",
               "extrapolated data are not written"]
REQUIRED = ['values at table points', 'values elsewhere', 'ranges compared',
            'refusals of text files', 'large tables', 'two data sets',
            'models written', 'single row tables', 'written over a file',
            'refractiveindex.info keys', 'lossless materials',
            'evaluations beyond the range refused',
            'same numbers in different units', 'constant data refused', 'constant data written',
            'zero in a limited range', 'existing files kept', 'unsupported extensions refused',
            'tables from zero']

TEXT = ('.txt', '.csv', '.nk')
NAMES = ('m', 'my material', 'a.b.c', 'Müller', 'data-1', 'x_y', '#1', "it's",
         'très long nom de fichier 0123456789')


def special_column(ctx, num):
    """ordinates over many magnitudes"""
    mode = ctx.randint(0, 4)
    if mode == 0:
        return 10.0**ctx.rng.uniform(-30, 30, num)
    if mode == 1:
        return ctx.rng.uniform(1, 2, num)*10.0**ctx.randint(-300, 290)
    if mode == 2:
        return ctx.rng.integers(0, 10, num).astype(float)
    if mode == 3:
        return 1.0 + ctx.rng.integers(-5, 5, num)*1e-12
    return -10.0**ctx.rng.uniform(-12, 12, num)


class Made:
    def __init__(self, mat, kind, name, parts, cplx=None, pair=None):
        self.mat, self.kind, self.name = mat, kind, name
        self.parts = parts      # list of (table x, pair) for real and imag
        self.cplx, self.pair = cplx, pair
        self.rmat = None


def make(ctx):
    kinds = ('tab_n', 'tab_nk', 'tab_eps', 'magnitude', 'tab_n_alpha',
             'one_row', 'model_n', 'model_eps', 'tauc', 'mixed_model_table',
             'mixed_tables', 'mixed_eps', 'k_only', 'epsi_only', 'medium',
             'lossless', 'same_x', 'model_coefficients', 'same_numbers')
    kind = kinds[ctx.idx % len(kinds)]
    rng = ctx.rng
    if kind == 'tauc':
        mat, _, desc = gen.make_material(ctx, 'model_eps',
                                         models=('TaucLorentz',))
        return kind, mat, None, desc
    if kind in ('magnitude', 'same_x'):
        pair = gen.any_pair(ctx)
        stype, unit = gen.spell(ctx, pair)
        num = gen.table_size(ctx, kind == 'same_x')
        xx = gen.table_x(ctx, pair, num)
        c1, c2 = special_column(ctx, num), special_column(ctx, num)
        eps = ctx.chance(0.5)
        if kind == 'magnitude':
            two = ctx.chance(0.6) or eps
            cols = [xx, c1, c2] if two else [xx, c1]
            kwarg = 'tabulated_eps' if eps else (
                'tabulated_nk' if two else 'tabulated_n')
            mat = Material(**{kwarg: gen.shuffled(ctx, np.column_stack(cols)),
                              'spectrum_type': stype, 'unit': unit})
            rmat = ref.RefMaterial(
                'eps' if eps else 'nk', ref.RefTable(xx, c1, pair),
                ref.RefTable(xx, c2, pair) if two else None)
            return kind, mat, rmat, {'pair': pair, 'rows': num, 'c1': c1}
        # almost the same abscissae in both parts: not one table
        x2 = np.array(xx)
        pos = ctx.randint(0, num - 1)
        room = np.min(np.abs(np.diff(xx)))
        x2[pos] += ctx.choice([1e-6, 1e-3, 0.3])*room
        mat = Material(fixed_eps_r=1.0) if eps else Material(fixed_n=1.0)
        c1, c2 = rng.uniform(1, 3, num), rng.uniform(0, 3, num)
        mat.data['real'] = Interpolation(np.column_stack([xx, c1]), stype,
                                         unit)
        mat.data['imag'] = Interpolation(np.column_stack([x2, c2]), stype,
                                         unit)
        mat.defaults.update(spectrum_type=stype, unit=unit)
        rmat = ref.RefMaterial('eps' if eps else 'nk',
                               ref.RefTable(xx, c1, pair),
                               ref.RefTable(x2, c2, pair))
        return kind, mat, rmat, {'pair': pair, 'rows': num, 'changed': pos}
    if kind == 'same_numbers':
        # the same abscissae in both parts, but in another unit or quantity
        pair1, pair2, low, high = ctx.choice([
            (('wavelength', 'um'), ('energy', 'ev'), 0.4, 4.0),
            (('wavelength', 'nm'), ('wavelength', 'a'), 100., 5000.),
            (('wavelength', 'um'), ('wavelength', 'nm'), 0.3, 3000.),
            (('wavelength', 'cm'), ('wavelength', 'm'), 1e-5, 1e-2),
            (('frequency', 'hz'), ('angularfrequency', '1/s'), 1e14, 9e15),
            (('wavenumber', '1/cm'), ('wavelength', 'nm'), 1e3, 1e5)])
        if ctx.chance(0.5):
            pair1, pair2 = pair2, pair1
        num = gen.table_size(ctx, True)
        xx = np.concatenate([[low, high], np.exp(rng.uniform(
            np.log(low*1.01), np.log(high*0.99), max(num - 2, 0)))])
        xx = np.unique(xx)
        num = len(xx)
        eps = ctx.chance(0.5)
        mat = Material(fixed_eps_r=1.0) if eps else Material(fixed_n=1.0)
        c1, c2 = rng.uniform(1, 3, num), rng.uniform(0, 3, num)
        mat.data['real'] = Interpolation(np.column_stack([xx, c1]),
                                         *gen.spell(ctx, pair1))
        mat.data['imag'] = Interpolation(np.column_stack([xx, c2]),
                                         *gen.spell(ctx, pair2))
        mat.defaults.update(spectrum_type=pair1[0], unit=pair1[1])
        rmat = ref.RefMaterial('eps' if eps else 'nk',
                               ref.RefTable(xx, c1, pair1),
                               ref.RefTable(xx, c2, pair2))
        ctx.count('same numbers in different units')
        return kind, mat, rmat, {'pair': pair1, 'pair2': pair2, 'rows': num}
    if kind in ('k_only', 'epsi_only'):
        eps = kind == 'epsi_only'
        tab, part, pair = gen.make_table_part(
            ctx, 'epsi' if eps else 'k', gen.lam_window(ctx), False)
        mat = Material(fixed_eps_r=0.0) if eps else Material(fixed_n=0.0)
        mat.data['imag'] = tab
        return kind, mat, ref.RefMaterial(
            'eps' if eps else 'nk', None, part), {
                'pair': pair, 'rows': len(part.xx)}
    if kind == 'medium':
        pair = gen.any_pair(ctx)
        num = ctx.choice([1, 2, 5, 30])
        lam = gen.distinct_in(ctx, *gen.lam_window(ctx), num)
        spec, _ = gen.request(ctx, lam, pair)
        m1, m2 = Material(fixed_n=1.5), Material(fixed_eps=3 + 1j)
        f = float(rng.uniform(0.1, 0.9))
        mat = ctx.choice([Simple, MaxwellGarnett])(spec, m1, m2, f)
        return kind, mat, None, {'lam': lam, 'rows': num}
    if kind == 'lossless':
        mat, rmat, desc = gen.make_material(ctx, ctx.choice(
            ['tab_nk', 'tab_eps', 'mixed_model_table', 'mixed_tables']))
        mat.remove_absorption()
        ctx.count('lossless materials')
        return kind, mat, ref.RefMaterial(rmat.name, rmat.real), desc
    if kind == 'model_coefficients':
        # coefficients of many magnitudes and numbers of terms
        num = ctx.randint(0, 40)
        par = [float(rng.uniform(1, 3))]
        for _ in range(num):
            par += [float(rng.choice([-1, 1])*10.0**rng.uniform(-25, -2)),
                    float(ctx.choice([-8, -6, -4, -2, 2, 4, 1]))]
        vrange = (float(rng.uniform(0.5, 0.9)), float(rng.uniform(1.0, 2.0)))
        mat = Material(model_kw={
            'name': 'Cauchy', 'spectrum_type': 'wavelength',
            'unit': ctx.choice(['um', 'micrometer', 'Micrometre']),
            'valid_range': np.array(vrange), 'parameters': np.array(par)})
        return kind, mat, ref.RefMaterial(
            'nk', ref.RefModel('Cauchy', par, vrange)), {
                'par': par, 'range': vrange}
    mat, rmat, desc = gen.make_material(ctx, kind)
    return kind, mat, rmat, desc


def native(mat, spec):
    return mat.get_nk_data(spec) if mat.data['name'] == 'nk' else \
        mat.get_permittivity(spec)


def write(ctx, path, mat, **kw):
    if ctx.chance(0.2):
        with open(path, 'w') as fpt:
            fpt.write("# old content: to be replaced\n" + "1 2 3\n"*3000)
        ctx.count('written over a file')
    ctx.accepts(lambda: Writer(path, mat).write_file(**kw), "writing the "
                "material", path=os.path.basename(path))


def compare(ctx, kind, orig, back, rmat, desc, info):
    ctx.check(back.data['name'] == orig.data['name'], "representation "
              "changed", got=back.data['name'], **info)
    rng1 = ref_range(orig)
    rng2 = ref_range(back)
    ctx.close(rng2, rng1, "validity range changed", rtol=1e-8,
              counter='ranges compared', **info)
    for which in ('real', 'imag'):
        part = getattr(rmat, which) if rmat is not None else None
        if part is None or part.kind != 'table' or orig.data['complex']:
            continue
        low, high = rng1
        lam = ref.to_metre(part.pair, part.xx)
        # only the points in the common range of both parts
        keep = (lam >= low*(1 - 1e-13)) & (lam <= high*(1 + 1e-13))
        keep &= (lam > low*(1 + 1e-10)) & (lam < high*(1 - 1e-10)) \
            | (lam == low) | (lam == high)
        if not np.any(keep):
            continue
        spec = Spectrum(part.xx[keep], part.pair[0], part.pair[1])
        try:
            before = native(orig, spec)
        except ValueError:
            continue    # an end lost to rounding, see C04
        got = ctx.accepts(lambda: native(back, spec), "evaluating at the "
                          "tabulated points", **info)
        for pick in (np.real, np.imag):
            vals = pick(before)
            tol = 1e-8*np.abs(vals) + 1e-13*np.max(np.abs(vals))
            bad = np.abs(pick(got) - vals) > tol
            ctx.check(not np.any(bad), "values at tabulated points changed",
                      'values at table points', got=pick(got), want=vals,
                      **info)
        if len(part.xx) > 1000:
            ctx.count('large tables')
        if len(part.xx) == 1:
            ctx.count('single row tables')
    low, high = rng1
    if low*(1 + 1e-6) < high*(1 - 1e-6):
        lam = np.exp(ctx.rng.uniform(np.log(low*(1 + 1e-7)),
                                     np.log(high*(1 - 1e-7)), 25))
        spec, _ = gen.request(ctx, lam)
        before = native(orig, spec)
        got = ctx.accepts(lambda: native(back, spec), "evaluating inside of "
                          "the range", **info)
        tol = 1e-8*np.abs(before)
        if rmat is not None:
            want = rmat.native(lam)
            tol = tol + 2*rmat.native_tol(lam)
            ctx.check(np.all(np.abs(got - want) <= 3*tol), "values differ "
                      "from the definition of the material",
                      'values elsewhere', got=got, want=want, **info)
        else:
            tol = tol + 1e-8*np.max(np.abs(before))
        ctx.check(np.all(np.abs(got - before) <= tol), "values changed",
                  'values elsewhere', got=got, want=before, **info)
        for bad in (low*(1 - 1e-5), high*(1 + 1e-5)):
            ctx.raises(ValueError, lambda: native(back, float(bad)),
                       "evaluating beyond the range",
                       'evaluations beyond the range refused', **info)


def ref_range(mat):
    """range of a material in metre"""
    rng = mat.get_maximum_valid_range()
    spec = Spectrum(np.asarray(rng), mat.defaults['spectrum_type'],
                    mat.defaults['unit'])
    return np.sort(spec.standard_rep)


def size_class(desc):
    rows = desc.get('rows', 0) if isinstance(desc, dict) else 0
    return sum(rows > lim for lim in (0, 1, 2, 10, 100, 1000))


def text_representable(kind, desc):
    """does the material consist of a single table"""
    if kind == 'lossless':
        return desc['kind'] != 'mixed_model_table'
    return kind in ('tab_n', 'tab_nk', 'tab_eps', 'magnitude', 'tab_n_alpha',
                    'one_row', 'k_only', 'epsi_only', 'medium')


def refused(ctx, path, mat, msg, counter, **info):
    """writing is refused, nothing readable is left, nothing is destroyed"""
    existing = None
    if ctx.chance(0.5):
        existing = "# REFERENCES: older\n400\t1.5\n500\t1.25\n" if \
            not path.endswith('.yml') else \
            "DATA:\n- DataType: tabulated n\n  Data: |\n    400 1.5\n" \
            "    500 1.25\n"
        with open(path, 'w', encoding='utf-8') as fpt:
            fpt.write(existing)
    ctx.raises(ValueError, lambda: Writer(path, mat).write_file(), msg,
               counter, **info)
    if existing is not None:
        kept = os.path.exists(path)
        if kept:
            with open(path, encoding='utf-8') as fpt:
                kept = fpt.read() == existing
        ctx.check(kept, "a refused write changed an existing file",
                  'existing files kept', **info)
    elif os.path.exists(path):
        try:
            Material(file_path=path)
        except Exception:
            pass
        else:
            ctx.fail("a material was written incompletely", **info)


def case_constants(ctx):
    """constant data cannot be written and must not be lost silently"""
    kind = ctx.choice(['fixed_n', 'fixed_nk', 'fixed_eps_r', 'fixed_eps',
                       'real', 'imag', 'model'])
    value = float(ctx.choice([1.5, 1e-9, -2.25, ctx.rng.uniform(1, 9)]))
    zero = kind in ('real', 'imag', 'model') and ctx.chance(0.25)
    if kind.startswith('fixed'):
        mat, _, desc = gen.make_material(ctx, kind)
    elif kind == 'model':
        mat, _, desc = gen.make_material(ctx, 'model_n')
        mat.data['imag'] = Constant(value)
    else:
        mat, _, desc = gen.make_material(ctx, ctx.choice(
            ['tab_nk', 'tab_eps', 'tab_n', 'mixed_tables']), small=True)
        mat.data['imag' if kind == 'imag' or desc['kind'] == 'tab_n' else
                 'real'] = Constant(value)
    ext = ctx.choice(['.yml', '.yml', '.txt', '.csv', '.nk'])
    if zero:
        # zero, but not everywhere
        part = [p for p in ('real', 'imag') if
                isinstance(mat.data[p], Constant) and
                mat.data[p].constant == value][0]
        limits = np.array(mat.get_maximum_valid_range(), dtype=float)
        limits[1] = limits[0] + (limits[1] - limits[0])*ctx.choice(
            [0.3, 0.5, 0.9, 1.0])
        mat.data[part] = Constant(0.0, limits, mat.defaults['spectrum_type'],
                                  mat.defaults['unit'])
        ctx.count('zero in a limited range')
    ctx.describe(kind=kind, ext=ext, desc=desc, zero=zero)
    refused(ctx, os.path.join(ctx.tmpdir(), 'const' + ext), mat,
            "writing constant data", 'constant data refused', kind=kind,
            ext=ext)
    ctx.sig('constant', kind, ext)
    if ext != '.yml':
        return
    # unless asked for
    for part in ('real', 'imag'):
        if kind in ('fixed_n', 'fixed_eps', 'model') and ctx.chance(0.5) and \
                isinstance(mat.data[part], Constant):
            limits = ctx.choice([(0.2, 3.0), (3.0, 0.2), (0.0, 4.0)])
            mat.data[part] = Constant(mat.data[part].constant, limits,
                                      'energy', ctx.choice(['eV', 'ev']))
    path = os.path.join(ctx.tmpdir(), 'explicit.yml')
    write(ctx, path, mat, ignore_constant=False)
    back = ctx.accepts(lambda: Material(
        file_path=path, spectrum_type=mat.defaults['spectrum_type'],
        unit=mat.defaults['unit']), "reading the written file", kind=kind)
    ctx.check(back.data['name'] == mat.data['name'], "representation changed",
              kind=kind)
    ranges = []
    for each in (back, mat):
        spec = Spectrum(each.get_maximum_valid_range(),
                        each.defaults['spectrum_type'], each.defaults['unit'])
        low, high = spec.values
        ranges.append([low > high] + sorted(spec.convert_to(
            'wavelength', 'm')))
    ctx.close(np.array(ranges[0]), np.array(ranges[1]), "range changed",
              counter='constant data written', rtol=1e-9, kind=kind)
    if low > high:
        return
    spec = mat.get_sample_spectrum()
    ctx.close(back.get_permittivity(spec), mat.get_permittivity(spec),
              "values changed", counter='constant data written', rtol=1e-8, kind=kind)


def case_cycle(ctx):
    kind, mat, rmat, desc = make(ctx)
    low, high = ref_range(mat) if rmat is None else rmat.range_m()
    if not low <= high:
        return
    ext = ctx.choice(['.yml', '.yml', '.txt', '.csv', '.nk'])
    name = ctx.choice(NAMES)
    path = os.path.join(ctx.tmpdir(), name + ext)
    info = {'kind': kind, 'ext': ext}
    ctx.describe(desc=desc, **info)
    if ext != '.yml' and not text_representable(kind, desc):
        refused(ctx, path, mat, "writing a material the text format cannot "
                "represent", 'refusals of text files', **info)
        ctx.sig(kind, ext, 'refused')
        return
    write(ctx, path, mat)
    kw = {}
    if ctx.chance(0.3):
        # the file states its units, so the caller's defaults do not matter
        kw = ctx.choice([{'spectrum_type': 'energy', 'unit': 'eV'},
                         {'spectrum_type': 'wavelength', 'unit': 'um'},
                         {'unit': 'm'}])
    back = ctx.accepts(lambda: Material(file_path=path, **kw),
                       "reading the written file", **info)
    if kind.startswith('m') and 'model' in kind or kind == 'tauc':
        ctx.count('models written')
    if kind in ('mixed_tables', 'mixed_eps', 'mixed_model_table', 'same_x',
                'same_numbers'):
        ctx.count('two data sets')
    compare(ctx, kind, mat, back, rmat, desc, info)
    if ctx.chance(0.3):
        # once more from the material read back, to any type
        ext2 = ctx.choice(['.yml', ext])
        path2 = os.path.join(ctx.tmpdir(), 'second' + ext2)
        write(ctx, path2, back)
        third = ctx.accepts(lambda: Material(file_path=path2),
                            "reading the file written again", **info)
        compare(ctx, kind, mat, third, rmat, desc, dict(info, ext2=ext2))
    ctx.sig(kind, ext, str(desc.get('pair')), size_class(desc))


def case_zero(ctx):
    """rows at zero (static limit) and at extreme places are kept"""
    pair = gen.any_pair(ctx)
    stype, unit = gen.spell(ctx, pair)
    num = ctx.choice([2, 3, 4, 5, 12, 40])
    low, high = gen.lam_window(ctx)
    xx = np.sort(ref.from_metre(pair, gen.distinct_in(ctx, low, high, num)))
    xx[0] = 0.0
    cols = ctx.choice([2, 3])
    tab = np.column_stack([xx] + [ctx.rng.uniform(1, 4, num)
                                  for _ in range(cols - 1)])
    arg = ctx.choice(['tabulated_nk', 'tabulated_eps'])
    if cols == 2:
        arg = 'tabulated_n'
    mat = Material(**{arg: gen.shuffled(ctx, tab), 'spectrum_type': stype,
                      'unit': unit})
    ext = ctx.choice(['.yml', '.yml', '.txt', '.csv', '.nk'])
    path = os.path.join(ctx.tmpdir(), 'zero' + ext)
    ctx.describe(pair=pair, num=num, arg=arg, ext=ext)
    write(ctx, path, mat)
    back = ctx.accepts(lambda: Material(file_path=path),
                       "reading a table that starts at zero", ext=ext)
    query = np.concatenate([xx, 0.5*(xx[1:] + xx[:-1]), [xx[1]*1e-3]])
    if pair[0] == 'wavelength':
        query = query[query > 0]
    for func in ('get_nk_data', 'get_permittivity'):
        want = getattr(mat, func)(query, stype, unit)
        got = ctx.accepts(lambda: getattr(back, func)(query, stype, unit),
                          "evaluating a table that starts at zero", ext=ext)
        ctx.close(got, want, "values of a table that starts at zero changed",
                  rtol=1e-9, atol=1e-9, counter='tables from zero')
    got, want = back.get_maximum_valid_range(), mat.get_maximum_valid_range()
    ctx.close(np.asarray(got, dtype=float), np.asarray(want, dtype=float),
              "range of a table that starts at zero changed", rtol=1e-9)
    ctx.sig('zero', pair, ext, cols)


def case_rii(ctx):
    """files with refractiveindex.info keys, usually micrometre data"""
    kind = ctx.choice(['tab_n', 'tab_nk', 'model_n', 'one_row',
                       'model_plus_k', 'n_and_k'])
    pair = ('wavelength', 'um')
    if ctx.rng.random() < 0.4:
        pair = gen.any_pair(ctx)
    if kind in ('model_plus_k', 'n_and_k'):
        if kind == 'model_plus_k':
            pair = ('wavelength', 'um')
            mat, rmat, desc = gen.make_material(ctx, 'model_n')
            low, high = [v*1e6 for v in rmat.range_m()]
        else:
            mat, rmat, desc = gen.make_material(ctx, 'tab_n', pair=pair,
                                                small=True)
            low, high = rmat.real.xx[0], rmat.real.xx[-1]
        num = ctx.randint(2, 30)
        xx = np.linspace(low*0.9, high*1.1, num)
        yy = gen.column(ctx, 'k', num)
        mat.data['imag'] = Interpolation(np.column_stack([xx, yy]), *pair)
        rmat.imag = ref.RefTable(xx, yy, pair)
    else:
        mat, rmat, desc = gen.make_material(ctx, kind, pair=pair)
        if rmat.name == 'eps':
            return
    path = os.path.join(ctx.tmpdir(), 'rii.yml')
    info = {'kind': kind, 'ext': 'rii'}
    ctx.describe(desc=desc, **info)
    write(ctx, path, mat, use_rii_aliases=True)
    back = ctx.accepts(lambda: Material(
        file_path=path, spectrum_type='wavelength', unit='um'),
        "reading the written file", **info)
    ctx.count('refractiveindex.info keys')
    with open(path, encoding='utf-8') as fpt:
        text = fpt.read()
    ctx.check('DataType' not in text and 'type:' in text,
              "refractiveindex.info keys were not used", text=text[:500])
    compare(ctx, kind, mat, back, rmat, desc, info)
    ctx.sig('rii', kind, desc.get('model'), size_class(desc))


def case_extension(ctx):
    mat, _, desc = gen.make_material(ctx, 'tab_nk', small=True)
    ext = ctx.choice(['.json', '.dat', '', '.yaml', '.xlsx', '.TXT.bak'])
    path = os.path.join(ctx.tmpdir(), 'm' + ext)
    ctx.describe(ext=ext)
    refused(ctx, path, mat, "unsupported extension",
            'unsupported extensions refused', ext=ext)
    ctx.sig(ext)


SCENARIOS = {
    'zero': {'case': case_zero, 'quick': 300, 'thorough': 6000},
    'cycle': {'case': case_cycle, 'quick': 3600, 'thorough': 120000},
    'rii': {'case': case_rii, 'quick': 1000, 'thorough': 20000},
    'constants': {'case': case_constants, 'quick': 400, 'thorough': 8000},
    'extension': {'case': case_extension, 'quick': 48, 'thorough': 200},
}
