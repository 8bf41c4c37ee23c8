"""C20 the catalogue lists every data file once, truthfully"""
import os
import warnings
from collections import Counter
import numpy as np
from dispersion import Catalogue, Constant, Material, Spectrum
from .. import gen, ref, tree as trees
from .c12 import canonical

PROP = 'C20'
RULE = ("a case is a generated database tree (user data folders with text, "
        "csv and YAML files in any quantity and unit next to other files and "
        "folders; a refractiveindex.info library with shelves, dividers, "
        "books, pages and missing files), a module selection and a reference "
        "spectrum; every row of the built catalogue is compared with what was "
        "put into the tree; distinct by modules, files and outcome of the "
        "reference value")
ASSUMPTIONS = ["existing data files are well formed (C19 describes others)",
               "sub folders of the user data folder hold no data files"]
REQUIRED = ['rows loaded again', 'catalogues built', 'rows compared', 'other files ignored',
            'missing pages skipped', 'bounds compared',
            'reference values compared', 'blank reference values',
            'rows loaded', 'values compared', 'disabled modules absent',
            'UserData rows', 'RefractiveIndexInfo rows', 'Filmetrics rows',
            'empty catalogues', 'reference values at range ends',
            'paths with back slashes']


def build(config, rebuild='All'):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        if rebuild is None:
            cat = Catalogue(config=config)
        else:
            cat = Catalogue(config=config, rebuild=rebuild)
    return cat, [str(w.message) for w in caught]


def text(val):
    """blank values may be '', None or nan"""
    if val is None or isinstance(val, float) and np.isnan(val):
        return ''
    return str(val)


def key_of(row):
    return (text(row['Module']), text(row['Path']).replace('\\', '/'),
            text(row['Author']).strip(), text(row['Name']).strip())


def check_row(ctx, row, want, ref_spec, info):
    file = want['file']
    for field in ('Name', 'FullName', 'Author', 'Comment', 'Reference'):
        ctx.check(text(row[field]).strip() == want[field].strip(),
                  "row does not match its file", 'rows compared',
                  field=field, got=row[field], want=want[field], **info)
    ctx.check(text(row['Alias']) == '', "fresh row has an alias", **info)
    pair = canonical(row['SpectrumType'], row['Unit'])
    if file.pair is not None:
        ctx.check(pair == file.pair, "quantity and unit of the row are not "
                  "those of the file", got=pair, want=file.pair, **info)
    bounds = np.sort(ref.from_metre(pair, file.rmat.range_m()))
    got = np.array([row['SpectrumLowerBound'], row['SpectrumUpperBound']],
                   dtype=float)
    ctx.close(got, bounds, "bounds of the row are not the range of the file "
              "in the row's quantity and unit", rtol=3e-9,
              atol=3*ref.round_step(pair), counter='bounds compared',
              pair=pair, **info)
    low, high = file.rmat.range_m()
    lam_ref = float(ref.to_metre(ref_spec[0], ref_spec[1]))
    got = complex(float(row['N_Reference']), float(row['K_Reference']))
    single = low*(1 + 1e-9) >= high
    if low*(1 + 1e-6) < lam_ref < high*(1 - 1e-6):
        want_nk = complex(file.rmat.nk(lam_ref))
        tol = 3*float(file.rmat.nk_tol(lam_ref)) + 1e-8*abs(want_nk)
        ctx.check(abs(got - want_nk) <= tol, "reference value is not that "
                  "of the material", 'reference values compared', got=got,
                  want=want_nk, lam=lam_ref, **info)
        return 'inside'
    if lam_ref < low*(1 - 1e-6) or lam_ref > high*(1 + 1e-6):
        ctx.check(np.isnan(got.real) and np.isnan(got.imag),
                  "reference value outside of the range is not blank",
                  'blank reference values', got=got, **info)
        return 'outside'
    parts = [p for p in (file.rmat.real, file.rmat.imag)
             if p.kind != 'const']
    if file.rmat.cplx is None and all(
            p.kind == 'table' and p.pair == ref_spec[0] and
            ref_spec[1] in p.xx for p in parts):
        want_nk = complex(file.rmat.nk(lam_ref))
        tol = 3*float(file.rmat.nk_tol(lam_ref)) + 1e-8*abs(want_nk)
        ctx.check(abs(got - want_nk) <= tol, "reference value at the end of "
                  "the range is not that of the material",
                  'reference values at range ends', got=got, want=want_nk,
                  lam=lam_ref, **info)
    return 'single' if single else 'edge'


def check_material(ctx, mat, want, row, base, info):
    """the loaded material is the one of the file"""
    file = want['file']
    path = os.path.join(base, want['Module'], want['Path'])
    direct = Material(file_path=path, spectrum_type='wavelength', unit='um'
                      if want['Module'] == 'RefractiveIndexInfo' else 'nm')
    ctx.count('rows loaded')
    lam = gen.inside(ctx, file.rmat, 5)
    low, high = file.rmat.range_m()
    part = file.rmat.real if file.rmat.cplx is None else file.rmat.cplx
    if low*(1 + 1e-9) < high:
        got, same = mat.get_nk_data(lam), direct.get_nk_data(lam)
        ref_nk = file.rmat.nk(lam)
        tol = 3*file.rmat.nk_tol(lam) + 1e-8*np.abs(ref_nk)
    else:
        if part.kind == 'const':
            part = file.rmat.imag
        spec = Spectrum(float(part.xx[0]), *part.pair)
        got, same = mat.get_nk_data(spec), direct.get_nk_data(spec)
        ref_nk = complex(file.rmat.nk(low))
        tol = 3*file.rmat.nk_tol(low) + 1e-8*abs(ref_nk)
    ctx.check(gen.same(got, same), "loading the row differs from "
              "loading the file", 'values compared', got=got, want=same,
              **info)
    ctx.check(np.all(np.abs(got - ref_nk) <= tol), "loaded row does not hold "
              "the data of its file", 'values compared', got=got, want=ref_nk,
              **info)
    for field in ('Reference', 'Comment'):
        ctx.check(text(mat.meta_data[field]).strip() == want[field].strip(),
                  "loaded row has metadata of another file", field=field,
                  got=mat.meta_data[field], want=want[field], **info)


def check_database(ctx, data, tree, ref_spec, info):
    """rows of a fresh build, returns the expected row of each"""
    want = {}
    for row in tree.rows:
        if tree.modules.get(row['Module']):
            want.setdefault(key_of(row), []).append(row)
    expected = Counter({k: len(v) for k, v in want.items()})
    rows = [data.iloc[i] for i in range(len(data))]
    got = Counter(key_of(r) for r in rows)
    ctx.check(got == expected, "catalogue does not list every data file "
              "exactly once", 'catalogues built',
              extra=list((got - expected).elements()),
              lacking=list((expected - got).elements()), **info)
    out, outcomes = [], []
    for row in rows:
        match = want[key_of(row)][0]
        out.append(match)
        ctx.count(match['Module'] + ' rows')
        outcomes.append(check_row(ctx, row, match, ref_spec, dict(
            info, row=key_of(row))))
    return out, outcomes


def case_build(ctx):
    base = ctx.tmpdir()
    tree = trees.make_tree(ctx, base)
    ref_spec = trees.reference_spectrum(ctx, tree)
    config = trees.config(ctx, tree, ref_spec=ref_spec)
    info = {'modules': dict(tree.modules)}
    ctx.describe(files=[r['Path'] for r in tree.rows],
                 missing=tree.missing, **info)
    cat, caught = ctx.accepts(lambda: build(config), "building the "
                              "catalogue", **info)
    data = cat.get_database()
    match, outcomes = check_database(ctx, data, tree, ref_spec, info)
    if not match:
        ctx.count('empty catalogues')
    ctx.count('other files ignored', sum(
        len(fs) for _, _, fs in os.walk(base)) - len(tree.rows))
    if any(not v for v in tree.modules.values()):
        ctx.count('disabled modules absent')
    if tree.modules.get('RefractiveIndexInfo'):
        for rel in tree.missing:
            ctx.check(any(os.path.basename(rel) in msg for msg in caught),
                      "no warning for a missing file",
                      'missing pages skipped', file=rel, warned=caught, **info)
    for num in ctx.rng.permutation(len(match)):
        num = int(num)
        mat = ctx.accepts(lambda: cat.get_material(num), "loading a row",
                          row=num, **info)
        check_material(ctx, mat, match[num], data.iloc[num], base,
                       dict(info, number=num, path=match[num]['Path']))
    if match:
        # whatever happened to a material loaded before
        num = ctx.randint(0, len(match) - 1)
        info2 = dict(info, number=num, path=match[num]['Path'])
        mat = cat.get_material(num)
        mat.remove_absorption()
        mat.data.update(real=Constant(5.5), complex=None)
        mat.meta_data.update(Reference='changed', Comment='changed')
        mat.defaults.update(spectrum_type='energy', unit='eV')
        mat = ctx.accepts(lambda: cat.get_material(num), "loading a row "
                          "again", **info2)
        check_material(ctx, mat, match[num], data.iloc[num], base, info2)
        ctx.count('rows loaded again')
    if match and ctx.chance(0.3):
        # a catalogue that was written on another operating system
        moved = data.copy()
        moved['Path'] = [p.replace('/', '\\') for p in moved['Path']]
        cat.set_database(moved)
        num = ctx.randint(0, len(match) - 1)
        mat = ctx.accepts(lambda: cat.get_material(num), "loading a row "
                          "whose path has back slashes", row=num, **info)
        check_material(ctx, mat, match[num], data.iloc[num], base,
                       dict(info, number=num, path=match[num]['Path']))
        ctx.count('paths with back slashes')
        cat.set_database(data)
    for num in (len(match), len(match) + 7):
        ctx.raises(Exception, lambda: cat.get_material(num),
                   "loading a row that does not exist", **info)
    ctx.sig(tuple(sorted(info['modules'].items())), len(match),
            len(tree.missing), tuple(outcomes[:8]))


SCENARIOS = {
    'build': {'case': case_build, 'quick': 1200, 'thorough': 24000},
}
