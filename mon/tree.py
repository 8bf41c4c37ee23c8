"""generated database trees for the catalogue, with their expected rows

A tree is a directory with a sub directory per module.  Files are written
here by hand (not by the package) and each comes with a reference material,
so that the expected rows do not depend on the package.
"""
import os
import numpy as np
import yaml
from . import gen, ref, words

STEMS = ('Au', 'glass', 'my data', 'SiO2_thin', 'b.c', 'größe', '007', 'NA',
         'nan', 'a,b', "it's", 'x (1)', 'データ', 'null', '1e5', 'file-2', 'T',
         'True', 'Ag.old', 'x;y', '#1', 'none', '0.5', '_private',
         '.hidden', '-x', '~tmp', 'x.txt', 'UserData', 'catalogue', 'Ag@2',
         'a\\b', 'x\\..\\y',
         'SAMPLE', '%s', '{}', '$HOME', '&', '[a]', '!x', 'x+y=z')
TEXT_KEYS = {'Reference': 'REFERENCE', 'Author': 'AUTHOR',
             'FullName': 'FULLNAME', 'Name': 'NAME', 'Comment': 'COMMENT'}
YAML_KEYS = {'Reference': 'REFERENCES', 'Author': 'AUTHOR',
             'FullName': 'FULLNAME', 'Name': 'NAME', 'Comment': 'COMMENTS'}
MODULES = ('UserData', 'RefractiveIndexInfo', 'Filmetrics')


def fmt(val):
    return repr(float(val))


def table(ctx, pair, kind, num, window=None):
    xx = gen.table_x(ctx, pair, num, window)
    names = {'n': ('n',), 'k': ('k',), 'nk': ('n', 'k'),
             'eps': ('epsr', 'epsi')}[kind]
    return xx, [gen.column(ctx, name, num) for name in names]


def reference(kind, xx, cols, pair):
    parts = [ref.RefTable(xx, col, pair) for col in cols]
    if kind == 'n':
        return ref.RefMaterial('nk', parts[0])
    if kind == 'k':
        return ref.RefMaterial('nk', None, parts[0])
    return ref.RefMaterial('eps' if kind == 'eps' else 'nk', parts[0],
                           parts[1])


def window(ctx):
    """often around the usual reference wavelengths"""
    if ctx.chance(0.7):
        low = float(ctx.rng.uniform(0.15e-6, 0.7e-6))
        return low, low*float(ctx.rng.uniform(1.3, 8))
    return gen.lam_window(ctx)


class File:
    """a data file and what it says"""

    def __init__(self, rel, text, rmat, meta, pair=None):
        self.rel = rel
        self.text = text
        self.rmat = rmat
        self.meta = meta
        self.pair = pair

    def write(self, base):
        path = os.path.join(base, self.rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w', encoding='utf-8', newline='') as fpt:
            fpt.write(self.text)


def some_meta(ctx, chance=0.5):
    return {f: words.line(ctx) for f in TEXT_KEYS if ctx.chance(chance)}


def text_file(ctx, rel):
    ext = os.path.splitext(rel)[1]
    pair = gen.any_pair(ctx)
    stated = True
    if ctx.chance(0.3):
        pair, stated = ('wavelength', 'nm'), False
    stype, unit = gen.spell(ctx, pair)
    kind = ctx.choice(['n', 'nk', 'nk', 'k', 'eps'])
    num = ctx.choice([1, 2, 3, 10, 40])
    if ctx.chance(0.004):
        num = ctx.choice([6000, 12000])
    xx, cols = table(ctx, pair, kind, num, window(ctx))
    meta = some_meta(ctx)
    head = [TEXT_KEYS[f] + ': ' + v for f, v in meta.items()]
    if stated:
        head += ['SPECTRUMTYPE: ' + stype, 'UNIT: ' + unit]
    if kind in ('k', 'eps') or ctx.chance(0.4):
        head.append('DATATYPE: tabulated ' + kind)
    sep = ', ' if ext == '.csv' else ctx.choice([' ', '\t'])
    text = "".join('# ' + h + "\n" for h in head)
    for row in zip(xx, *cols):
        text += sep.join(fmt(v) for v in row) + "\n"
    return File(rel, text, reference(kind, xx, cols, pair), meta, pair)


def yaml_table(kind, xx, cols, stype=None, unit=None, rii=False):
    out = {'type' if rii else 'DataType': 'tabulated ' + kind}
    if stype:
        out['SpectrumType'] = stype
        out['Unit'] = unit
    out['data' if rii else 'Data'] = "".join(
        ' '.join(fmt(v) for v in row) + "\n" for row in zip(xx, *cols))
    return out


def yaml_model(name, par, vrange, stype=None, unit=None, rii=False):
    if rii:
        out = {'type': 'formula %d' % ref.FORMULA_NUMBER[name],
               'wavelength_range': '%r %r' % tuple(vrange),
               'coefficients': ' '.join(fmt(p) for p in par)}
    else:
        out = {'DataType': 'model ' + name,
               'ValidRange': '%r %r' % tuple(vrange),
               'Parameters': ' '.join(fmt(p) for p in par)}
    if stype:
        out['SpectrumType'] = stype
        out['Unit'] = unit
    return out


def dump(meta, datasets):
    out = {YAML_KEYS[f]: v for f, v in meta.items()}
    out['DATA'] = datasets
    return yaml.safe_dump(out, allow_unicode=True, sort_keys=False, width=400)


def pick_pair(ctx, default, rii):
    """quantity and unit of a data set: (pair, type or None, unit or None)"""
    if ctx.chance(0.75 if rii else 0.3):
        return default, None, None
    pair = gen.any_pair(ctx)
    return (pair,) + gen.spell(ctx, pair)


def yaml_file(ctx, rel, rii=False):
    """a YAML file as in the user data folder, or of refractiveindex.info

    data sets which state no unit have that of their database, whatever
    another one in the same file states
    """
    layout = ctx.choice(['table', 'model', 'model+k', 'n+k'])
    meta = some_meta(ctx, 0.6)
    default = ('wavelength', 'um' if rii else 'nm')
    pair = None
    if layout == 'table':
        kind = ctx.choice(['n', 'nk', 'k'] if rii else
                          ['n', 'nk', 'k', 'eps'])
        pair, stype, unit = pick_pair(ctx, default, rii)
        xx, cols = table(ctx, pair, kind, ctx.choice([1, 2, 5, 40]),
                         window(ctx))
        datasets = [yaml_table(kind, xx, cols, stype, unit, rii)]
        rmat = reference(kind, xx, cols, pair)
    elif layout == 'n+k':
        win = window(ctx)
        parts, datasets = [], []
        for kind, fac in (('n', 1.0), ('k', 0.93)):
            tpair, stype, unit = pick_pair(ctx, default, rii)
            xx = gen.table_x(ctx, tpair, ctx.choice([2, 6, 20]),
                             (win[0]*fac, win[1]*fac), tidy=False)
            col = gen.column(ctx, kind, len(xx))
            datasets.append(yaml_table(kind, xx, [col], stype, unit, rii))
            parts.append(ref.RefTable(xx, col, tpair))
        rmat = ref.RefMaterial('nk', *parts)
        if parts[0].pair == parts[1].pair:
            pair = parts[0].pair
    else:
        name = ctx.choice(tuple(ref.MODELS_N) if rii or layout == 'model+k'
                          else tuple(ref.MODELS_N) + tuple(ref.MODELS_EPS))
        par, vrange = gen.model_parameters(ctx, name)
        vrange = [float(v) for v in vrange]
        mpair = gen.model_pair(name)
        stype, unit = gen.spell(ctx, mpair)
        if rii and ctx.chance(0.8):
            stype = unit = None
        datasets = [yaml_model(name, par, vrange, stype, unit, rii)]
        part = ref.RefModel(name, par, vrange)
        rmat = ref.RefMaterial('nk', part) if name in ref.MODELS_N else \
            ref.RefMaterial('eps', cplx=part)
        pair = mpair
        if layout == 'model+k':
            tpair, stype, unit = pick_pair(ctx, default, rii)
            xx = gen.table_x(ctx, tpair, ctx.choice([2, 6, 20]),
                             (vrange[0]*0.9e-6, vrange[1]*0.95e-6),
                             tidy=False)
            col = gen.column(ctx, 'k', len(xx))
            datasets.append(yaml_table('k', xx, [col], stype, unit, rii))
            rmat = ref.RefMaterial('nk', part, ref.RefTable(xx, col, tpair))
            if tpair != mpair:
                pair = None
    if len(datasets) == 2 and ctx.chance(0.5):
        datasets = datasets[::-1]
    return File(rel, dump(meta, datasets), rmat, meta, pair)


class Tree:
    """a database on disk

    rows: list of expected rows, each a dict with the keys Module, Path,
    Name, FullName, Author, Comment, Reference and the File
    """

    def __init__(self, base):
        self.base = base
        self.rows = []
        self.missing = []       # pages whose file does not exist
        self.modules = {}

    def of(self, module):
        return [r for r in self.rows if r['Module'] == module]


def add_folder(ctx, tree, module, most=6, least=0):
    """a folder of user data"""
    path = os.path.join(tree.base, module)
    os.makedirs(path, exist_ok=True)
    stems = [STEMS[i] for i in ctx.rng.permutation(len(STEMS))] + \
        ['sample %03d' % i for i in range(most)]
    for num in range(ctx.randint(least, most)):
        ext = ctx.choice(['.txt', '.csv', '.yml'])
        rel = stems[num] + ext
        file = yaml_file(ctx, rel) if ext == '.yml' else text_file(ctx, rel)
        file.write(path)
        if ctx.chance(0.1):
            link_elsewhere(tree, os.path.join(path, rel))
        tree.rows.append(folder_row(module, file))
        if ctx.chance(0.15):
            # same stem, another type
            rel = stems[num] + {'.txt': '.csv', '.csv': '.yml',
                                '.yml': '.txt'}[ext]
            file = yaml_file(ctx, rel) if rel.endswith('.yml') else \
                text_file(ctx, rel)
            file.write(path)
            tree.rows.append(folder_row(module, file))
    # things which are not data files
    for name in ('README.md', 'notes', 'data.nk', 'old.txt~', 'x.csv.bak',
                 'conf.yaml', 'table.dat', 'script.py', 'BIG.TXT', 'Big.Csv',
                 'BIG.YML', 'x.txt2', 'xtxt', 'y.ymlx', 'z.tx', '.txt',
                 '.csv'):
        if ctx.chance(0.25):
            with open(os.path.join(path, name), 'w') as fpt:
                fpt.write("400 1.5\n500 1.6\n")
    for name in ('folder', 'folder.txt', 'x.yml', 'y.csv'):
        if ctx.chance(0.15) and not os.path.exists(os.path.join(path, name)):
            os.makedirs(os.path.join(path, name))


def link_elsewhere(tree, path):
    """the data file lies elsewhere, the folder has a link to it"""
    store = os.path.join(tree.base, 'stored elsewhere')
    os.makedirs(store, exist_ok=True)
    target = os.path.join(store, '%d.dat' % len(os.listdir(store)))
    os.rename(path, target)
    os.symlink(target, path)


def folder_row(module, file):
    return {'Module': module, 'Path': file.rel,
            'Name': os.path.splitext(file.rel)[0],
            'FullName': file.meta.get('FullName', ''),
            'Author': file.meta.get('Author', ''),
            'Comment': file.meta.get('Comment', ''),
            'Reference': file.meta.get('Reference', ''), 'file': file}


def add_rii(ctx, tree, most=3):
    """library as distributed by refractiveindex.info"""
    module = 'RefractiveIndexInfo'
    base = os.path.join(tree.base, module)
    data_dir = ctx.choice(['data', 'data-nk'])
    library = ctx.choice(['library.yml', 'catalog-nk.yml'])
    root = os.path.join(base, 'database')
    os.makedirs(os.path.join(root, data_dir))
    shelves = []
    shared = []
    count = 0
    for shelf_no in range(ctx.randint(1, 2)):
        shelf = ctx.choice(['main', 'organic', 'glass', 'other'])
        books = []
        for _ in range(ctx.randint(0, most)):
            if ctx.chance(0.3):
                books.append({'DIVIDER': ctx.choice(['Ag - Silver', 'x: y'])})
            book = ctx.choice(['Ag', 'Al2O3', 'C2H5OH', 'NO', 'BK7', 'N-BK7',
                               'Y', 'null', '1', 'H2O'])
            full = ctx.choice(['Ag (Silver)', 'Al<sub>2</sub>O<sub>3</sub>',
                               'Ethanol, pure', 'nitric oxide: NO', 'Y', 'ß'])
            pages = []
            for _ in range(ctx.randint(0, most)):
                if ctx.chance(0.25):
                    pages.append({'DIVIDER': ctx.choice(
                        ['Experimental data', 'Models', 'x: y', 'Ag', ''])})
                    if ctx.chance(0.5):
                        continue
                count += 1
                page = ctx.choice(['Johnson', 'Rakic-BB', 'Malitson-o', 'NA',
                                   'Hagemann (2 K)', '2016', 'Müller, 1'])
                rel = '%s/%s/%s%d.yml' % (
                    shelf, ctx.choice(['Ag', 'deep/er', 'x y']),
                    ctx.choice(['Johnson', 'data', 'ü']), count)
                pages.append({'PAGE': page, 'name': page + ': 0.2 um',
                              'data': rel})
                if ctx.chance(0.15):
                    tree.missing.append(rel)
                    continue
                file = yaml_file(ctx, rel, rii=True)
                file.write(os.path.join(root, data_dir))
                if shared and ctx.chance(0.15):
                    # a page which shows the data of another one
                    file = ctx.choice(shared)
                    page = '%s again %d' % (page, count)
                    pages[-1].update(PAGE=page, data=file.rel)
                    rel = file.rel
                shared.append(file)
                tree.rows.append({
                    'Module': module,
                    'Path': os.path.normpath(os.path.join(
                        'database', data_dir, rel)),
                    'Name': book, 'FullName': full, 'Author': page,
                    'Comment': file.meta.get('Comment', ''),
                    'Reference': file.meta.get('Reference', ''),
                    'file': file})
            books.append({'BOOK': book, 'name': full, 'content': pages})
        shelves.append({'SHELF': shelf, 'name': shelf.upper() + ' - x',
                        'content': books})
    with open(os.path.join(root, library), 'w', encoding='utf-8') as fpt:
        yaml.safe_dump(shelves, fpt, allow_unicode=True, sort_keys=False)
    # a data file which no page mentions
    if ctx.chance(0.3):
        yaml_file(ctx, 'main/orphan.yml', rii=True).write(
            os.path.join(root, data_dir))


def make_tree(ctx, base, most=6, modules=None, least=0):
    """returns Tree; modules: dict name -> enabled"""
    tree = Tree(base)
    if modules is None:
        modules = {}
        names = [MODULES[i] for i in ctx.rng.permutation(3)]
        for name in names:
            if name == 'Filmetrics' and ctx.chance(0.6):
                continue
            modules[name] = ctx.chance(0.8)
        if not any(modules.values()):
            modules['UserData'] = True
    tree.modules = modules
    pages = 3
    if most > 3 and ctx.chance(0.04):
        # as large as what users really have
        most, least, pages = 60, 30, 7
        ctx.count('large catalogues')
    for name in modules:
        if not modules[name] and ctx.chance(0.3):
            continue            # a disabled module need not be there
        if name == 'RefractiveIndexInfo':
            add_rii(ctx, tree, pages)
        else:
            add_folder(ctx, tree, name, most, least)
    return tree


def reference_spectrum(ctx, tree=None):
    """(pair, value, spelled) of a reference spectrum"""
    mode = ctx.randint(0, 4)
    lam = 632.8e-9
    if mode == 4 and tree is not None and tree.rows:
        # a tabulated point, often at the end of the range
        part = ctx.choice(tree.rows)['file'].rmat.real
        if part.kind == 'table':
            val = float(part.xx[ctx.choice([0, -1])])
            return part.pair, val, gen.spell(ctx, part.pair)
    if mode == 1:
        lam = float(np.exp(ctx.rng.uniform(np.log(2e-7), np.log(2e-6))))
    elif mode == 2 and tree is not None and tree.rows:
        rmat = ctx.choice(tree.rows)['file'].rmat
        lam = float(gen.inside(ctx, rmat, 1)[0])
    pair = gen.any_pair(ctx) if mode else ('wavelength', 'nm')
    return pair, float(ref.from_metre(pair, lam)), gen.spell(ctx, pair)


def config(ctx, tree, name='catalogue.csv', ref_spec=None):
    pair, value, spelled = ref_spec or reference_spectrum(ctx, tree)
    return {'Path': tree.base, 'File': name, 'Interactive': False,
            'WarnMissingPackages': False, 'Modules': dict(tree.modules),
            'ReferenceSpectrum': {'Value': value, 'SpectrumType': spelled[0],
                                  'Unit': spelled[1]}}
