"""C21 the catalogue survives saving, reloading and partial rebuilding"""
import os
import numpy as np
import pandas as pd
from dispersion import Catalogue
from .. import tree as trees, words
from .c20 import build, text

PROP = 'C21'
RULE = ("a case is a history of a catalogue on a generated database tree: "
        "build, edits of text fields and aliases (hostile texts), saves, "
        "reopens in place or in another catalogue object, changes of the "
        "data files and partial rebuilds; after each step the rows are "
        "compared with those expected from the history; distinct by the "
        "operations, the module selection and the kinds of text")
ASSUMPTIONS = ["floats of the catalogue file are compared to 1e-12"]
REQUIRED = ['reopened rows compared', 'hostile fields compared',
            'blank values compared', 'open leaves the file',
            'kept rows compared', 'refreshed rows compared',
            'disabled rebuild refused', 'aliases compared',
            'empty catalogues', 'rebuild leaves the file',
            'second cycle compared', 'list of modules rebuilt',
            'registered after rebuild', 'reordered tables',
            'rows listed twice']

TEXT_FIELDS = ('Alias', 'Name', 'FullName', 'Author', 'Comment', 'Reference',
               'SpectrumType', 'Unit', 'Path', 'Module')
FLOAT_FIELDS = ('SpectrumLowerBound', 'SpectrumUpperBound', 'N_Reference',
                'K_Reference')
HOSTILE = ('a,b,c', '"', '"quoted"', 'it\'s', 'two\nlines', 'a\n\nb\n',
           'end\n', '\nstart', 'NA', 'nan', 'NaN', 'null', 'None', 'N/A',
           '<NA>', 'n/a', '#N/A', '007', '1e5', '1.50', '0x10', 'True',
           'false', '-', 'inf', '日本語', 'Müller', '🙂', ' leading',
           'trailing ', '\ttab\t', '#comment', 'a;b', '"a","b"', "'", '\\',
           '\\n', 'x"y,z\n', '1,5', '""', '2020-01-01', 'é', 'NULL', '-nan',
           '1_000', '+5', 'None ', '12:30', 'a\r\nb', 'a\rb', '\r')


def snapshot(data):
    """rows of a data frame as plain values"""
    out = []
    for num in range(len(data)):
        row = data.iloc[num]
        entry = {f: text(row[f]) for f in TEXT_FIELDS}
        for f in FLOAT_FIELDS:
            val = row[f]
            entry[f] = float('nan') if val is None or val == '' else \
                float(val)
        out.append(entry)
    return out


def same_float(aaa, bbb):
    if np.isnan(aaa) or np.isnan(bbb):
        return np.isnan(aaa) and np.isnan(bbb)
    return aaa == bbb or abs(aaa - bbb) <= 1e-12*abs(bbb)


def compare(ctx, got, want, msg, counter, **info):
    ctx.check(len(got) == len(want), msg + ": number of rows", counter,
              got=len(got), want=len(want), **info)
    for num, (one, two) in enumerate(zip(got, want)):
        for f in TEXT_FIELDS:
            ctx.check(one[f] == two[f], msg, counter, row=num, field=f,
                      got=one[f], want=two[f], **info)
            if f == 'Alias' and two[f]:
                ctx.count('aliases compared')
        for f in FLOAT_FIELDS:
            ctx.check(same_float(one[f], two[f]), msg, counter, row=num,
                      field=f, got=one[f], want=two[f], **info)
            if np.isnan(two[f]):
                ctx.count('blank values compared')


def read_bytes(path):
    with open(path, 'rb') as fpt:
        return fpt.read()


def edit(ctx, cat):
    """hostile texts in fields, through the public table; new aliases"""
    data = cat.get_database()
    used = set(data['Alias'].values.tolist())
    if ctx.chance(0.5):
        data = data.copy()
    changed = 0
    for num in range(len(data)):
        for f in ('Name', 'FullName', 'Author', 'Comment', 'Reference'):
            if ctx.chance(0.3):
                val = ctx.choice(HOSTILE) if ctx.chance(0.7) else \
                    words.line(ctx)
                data.at[data.index[num], f] = val
                changed += 1
        if ctx.chance(0.3):
            alias = ctx.choice(HOSTILE) if ctx.chance(0.7) else \
                'alias %d' % ctx.randint(0, 20)
            if alias not in used:
                used.add(alias)
                data.at[data.index[num], 'Alias'] = alias
                changed += 1
    ctx.count('hostile fields compared', changed)
    if len(data) > 1 and ctx.chance(0.3):
        # rows of the modules interleaved, labels no longer ascending
        data = data.iloc[ctx.rng.permutation(len(data))]
        ctx.count('reordered tables')
    if len(data) and ctx.chance(0.1):
        # a row that is listed twice
        twin = data.iloc[[ctx.randint(0, len(data) - 1)]].copy()
        twin['Alias'] = ''
        data = pd.concat([data, twin], ignore_index=True)
        ctx.count('rows listed twice')
    cat.set_database(data)


def reopen(config, ctx=None):
    default = ctx is None or ctx.chance(0.5)
    return build(config, rebuild=None if default else 'None')[0]


def case_cycle(ctx):
    base = ctx.tmpdir()
    tree = trees.make_tree(ctx, base, most=5)
    name = ctx.choice(['catalogue.csv', 'my cat.csv', 'cat', 'ü.txt',
                       'a.b.csv'])
    config = trees.config(ctx, tree, name=name)
    info = {'modules': dict(tree.modules), 'name': name}
    ctx.describe(files=[r['Path'] for r in tree.rows], **info)
    cat = ctx.accepts(lambda: build(config)[0], "building", **info)
    path = os.path.join(base, name)
    for cycle in range(ctx.randint(1, 3)):
        if ctx.chance(0.8):
            edit(ctx, cat)
        want = snapshot(cat.get_database())
        ctx.accepts(cat.save_to_file, "saving", **info)
        content = read_bytes(path)
        compare(ctx, snapshot(cat.get_database()), want, "saving changed the "
                "catalogue", 'saved rows compared', **info)
        again = ctx.accepts(lambda: reopen(config, ctx), "opening a saved "
                            "catalogue", content=content[:600], **info)
        ctx.check(read_bytes(path) == content, "opening changed the file",
                  'open leaves the file', **info)
        compare(ctx, snapshot(again.get_database()), want, "reopened "
                "catalogue differs", 'reopened rows compared', cycle=cycle,
                **info)
        if cycle:
            ctx.count('second cycle compared')
        if not want:
            ctx.count('empty catalogues')
        if ctx.chance(0.7):
            cat = again
    ctx.sig(tuple(sorted(info['modules'].items())), name, len(want), cycle)


def change_files(ctx, tree):
    """edit, add and remove files of the modules"""
    changed = set()
    for row in list(tree.rows):
        path = os.path.join(tree.base, row['Module'])
        if row['Module'] == 'RefractiveIndexInfo':
            if ctx.chance(0.25):
                full = os.path.join(path, row['Path'])
                file = trees.yaml_file(ctx, row['Path'], rii=True)
                with open(full, 'w', encoding='utf-8', newline='') as fpt:
                    fpt.write(file.text)
                changed.add(row['Module'])
            elif ctx.chance(0.15):
                if os.path.exists(os.path.join(path, row['Path'])):
                    os.remove(os.path.join(path, row['Path']))
                changed.add(row['Module'])
        elif ctx.chance(0.3):
            make = trees.yaml_file if row['Path'].endswith('.yml') else \
                trees.text_file
            make(ctx, row['Path']).write(path)
            changed.add(row['Module'])
        elif ctx.chance(0.15):
            os.remove(os.path.join(path, row['Path']))
            changed.add(row['Module'])
    for module in tree.modules:
        if module != 'RefractiveIndexInfo' and ctx.chance(0.4) and \
                os.path.isdir(os.path.join(tree.base, module)):
            trees.text_file(ctx, 'added.txt').write(
                os.path.join(tree.base, module))
            changed.add(module)
    return changed


def by_module(rows, module):
    return [r for r in rows if r['Module'] == module]


def canonical_rows(rows):
    return sorted(rows, key=lambda r: (r['Module'], r['Path'],
                                       r['Author'], r['Name']))


def case_partial(ctx):
    base = ctx.tmpdir()
    names = [trees.MODULES[i] for i in ctx.rng.permutation(3)]
    modules = {n: ctx.chance(0.8) for n in names[:ctx.randint(2, 3)]}
    if not any(modules.values()):
        modules[names[0]] = True
    tree = trees.make_tree(ctx, base, most=4, modules=modules, least=1)
    config = trees.config(ctx, tree)
    path = os.path.join(base, config['File'])
    cat = build(config)[0]
    edit(ctx, cat)
    cat.save_to_file()
    before = snapshot(reopen(config).get_database())
    content = read_bytes(path)
    changed = change_files(ctx, tree)
    if ctx.chance(0.3):
        # another reference spectrum from now on
        config['ReferenceSpectrum'] = trees.config(
            ctx, tree)['ReferenceSpectrum']
    if ctx.chance(0.25):
        # a module is switched off in the meantime
        name = ctx.choice(list(modules))
        if sum(modules.values()) > 1 or not modules[name]:
            config['Modules'][name] = False
    enabled = [n for n, on in config['Modules'].items() if on]
    disabled = [n for n, on in config['Modules'].items() if not on]
    info = {'modules': dict(config['Modules'])}
    if ctx.chance(0.5):
        rebuild = ctx.choice(enabled)
        chosen = [rebuild]
    else:
        chosen = [n for n in enabled if ctx.chance(0.6)] or enabled[:1]
        rebuild = list(chosen)
        if ctx.chance(0.3):
            rebuild = rebuild[::-1]
        ctx.count('list of modules rebuilt')
    ctx.describe(rebuild=rebuild, changed=sorted(changed),
                 files=[r['Path'] for r in tree.rows], **info)
    cat = ctx.accepts(lambda: build(config, rebuild)[0], "partial rebuild",
                      rebuild=rebuild, **info)
    ctx.check(read_bytes(path) == content, "rebuilding without saving "
              "changed the file", 'rebuild leaves the file', **info)
    got = snapshot(cat.get_database())
    full = snapshot(build(config)[0].get_database())
    ctx.check(all(r['Module'] in enabled for r in got), "rows of a disabled "
              "module", **info)
    for module in enabled:
        rows = by_module(got, module)
        if module in chosen:
            compare(ctx, canonical_rows(rows),
                    canonical_rows(by_module(full, module)),
                    "rebuilt module is not what a full build gives",
                    'refreshed rows compared', module=module,
                    rebuild=rebuild, **info)
        else:
            compare(ctx, rows, by_module(before, module), "rows of a module "
                    "that was not rebuilt changed", 'kept rows compared',
                    module=module, rebuild=rebuild, **info)
    if got and ctx.chance(0.6):
        # rows are numbered consecutively, also kept ones
        num = ctx.randint(0, len(got) - 1)
        ctx.accepts(lambda: cat.register_alias(num, 'after rebuild'),
                    "registering an alias after a partial rebuild", row=num,
                    rebuild=rebuild, **info)
        got[num]['Alias'] = 'after rebuild'
        compare(ctx, snapshot(cat.get_database()), got, "registration after "
                "a partial rebuild", 'registered after rebuild', number=num,
                **info)
    # and the result can be saved and opened again
    cat.save_to_file()
    compare(ctx, snapshot(reopen(config).get_database()), got,
            "reopened catalogue differs after a partial rebuild",
            'reopened rows compared', **info)
    content = read_bytes(path)
    for name in disabled:
        ctx.raises(ValueError, lambda: build(config, name), "rebuilding a "
                   "disabled module", 'disabled rebuild refused', name=name,
                   **info)
        ctx.check(read_bytes(path) == content, "refused rebuild changed the "
                  "file", **info)
    ctx.sig(tuple(sorted(info['modules'].items())), str(rebuild),
            len(by_module(got, chosen[0])), tuple(sorted(changed)))


SCENARIOS = {
    'cycle': {'case': case_cycle, 'quick': 480, 'thorough': 12000},
    'partial': {'case': case_partial, 'quick': 400, 'thorough': 10000},
}
