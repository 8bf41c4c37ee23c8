"""C22 aliases are unique and always find their material"""
import csv
import os
import pandas as pd
from dispersion import Constant, Spectrum
from .c20 import build
from .c21 import HOSTILE, snapshot, same_float, TEXT_FIELDS, FLOAT_FIELDS

PROP = 'C22'
RULE = ("a case is a history of up to 40 operations on a catalogue "
        "(registrations by row number and by selection, new, own and foreign "
        "aliases, unknown rows, empty and long selections, wrong types, "
        "saves, reopens, partial rebuilds, reordered, reduced and relabelled tables, look-ups) "
        "followed step by step by a model of the rows; distinct by the "
        "sequence of operations and their outcome")
ASSUMPTIONS = ["after a table was reordered rows are named by selections "
               "(row numbers are then ambiguous)",
               "the empty text is not registered as an alias"]
REQUIRED = ['registered by number', 'registered by selection',
            'own alias again', 'foreign alias refused', 'unknown row refused',
            'selection refused', 'wrong type refused', 'alias found',
            'unknown alias refused', 'texts of other columns',
            'selected before reordering', 'identifier refused', 'saves', 'reopens',
            'reordered tables', 'reduced tables', 'states compared',
            'alias found after reordering', 'alias replaced',
            'relabelled tables', 'external edits', 'partial rebuilds',
            'empty alias refused',
            'rows of one file', 'shared labels']

ALIASES = ('gold', 'Gold', 'gold ', 'silver', 'Ag', '1', '01', 'NA', 'nan',
           'a,b', 'two\nlines', 'ß', '日本', '"', 'None', 'x'*60, 'glass',
           '0', '-1', 'True', '1.0', ' ', '  ', '\t') + HOSTILE[:12]


def make_catalogue(ctx, base):
    """distinguishable files: row i has a constant index of 1 + i/8"""
    names = ['UserData']
    if ctx.chance(0.5):
        names = ['UserData', 'Filmetrics'][::ctx.choice([1, -1])]
    for name in names:
        os.makedirs(os.path.join(base, name))
    num = ctx.choice([1, 2, 3, 5, 8]*4 + [40])
    for i in range(num):
        path = os.path.join(base, ctx.choice(names))
        ext = ctx.choice(['.txt', '.csv'])
        sep = ',' if ext == '.csv' else ' '
        name = 'file%d%s' % (i, ext)
        with open(os.path.join(path, name), 'w') as fpt:
            for lam in (400, 800):
                fpt.write(sep.join([repr(float(lam)), repr(1 + i/8),
                                    repr(i/64)]) + "\n")
    config = {'Path': base, 'File': 'catalogue.csv', 'Interactive': False,
              'WarnMissingPackages': False, 'Modules': {n: True for n in names},
              'ReferenceSpectrum': {'Value': 600.0,
                                    'SpectrumType': 'wavelength',
                                    'Unit': 'nm'}}
    return config


class Monitor:
    """model of the rows and of the aliases they hold"""

    def __init__(self, ctx, cat):
        self.ctx = ctx
        self.rows = snapshot(cat.get_database())
        self.labels = [int(v) for v in cat.get_database().index]

    def holder(self, alias):
        for num, row in enumerate(self.rows):
            if row['Alias'] == alias:
                return num
        return None

    def verify(self, cat, after):
        """the table is the modelled one, no alias twice"""
        ctx = self.ctx
        got = snapshot(cat.get_database())
        ctx.check(len(got) == len(self.rows), "number of rows changed",
                  after=after, got=len(got), want=len(self.rows))
        for num, (one, two) in enumerate(zip(got, self.rows)):
            for f in TEXT_FIELDS:
                ctx.check(one[f] == two[f], "a row is not what the history "
                          "of registrations gives", 'states compared',
                          field=f, row=num, after=after, got=one[f],
                          want=two[f])
            for f in FLOAT_FIELDS:
                ctx.check(same_float(one[f], two[f]), "a row changed",
                          'states compared', field=f, row=num, after=after)
        held = [r['Alias'] for r in got if r['Alias']]
        ctx.check(len(held) == len(set(held)), "two rows share an alias",
                  'uniqueness checks', aliases=held, after=after)


def lookup(ctx, cat, mon, alias, reordered):
    num = mon.holder(alias)
    if num is None:
        ctx.raises(ValueError, lambda: cat.get_material(alias), "unknown "
                   "alias", 'unknown alias refused', alias=alias)
        return
    mat = ctx.accepts(lambda: cat.get_material(alias), "looking up a "
                      "registered alias", alias=alias, row=num)
    want = complex(mon.rows[num]['N_Reference'], mon.rows[num]['K_Reference'])
    got = complex(mat.get_nk_data(Spectrum(600.0, 'wavelength', 'nm')))
    ctx.check(abs(got - want) < 1e-9, "alias returns the material of another "
              "row", 'alias found', alias=alias, got=got, want=want)
    mat.data['real'] = Constant(7.7)    # the next look-up starts afresh
    if reordered:
        ctx.count('alias found after reordering')


def select(ctx, cat, num):
    """one row selections of row num (position), as users write them"""
    data = cat.get_database()
    mode = ctx.randint(0, 3)
    if mode == 0:
        return data.iloc[[num]]
    if mode == 1:
        return data[data.Path == data.iloc[num]['Path']]
    if mode == 2:
        return data.iloc[num:num + 1].copy()
    return data.loc[[data.index[num]], ['Name', 'Alias']]


def attempt(ctx, cat, mon, row_id, num, alias, counter):
    """register for existing row num (position)"""
    holder = mon.holder(alias)
    if holder is not None and holder != num:
        ctx.raises(ValueError, lambda: cat.register_alias(row_id, alias),
                   "alias of another row", 'foreign alias refused',
                   alias=alias, row=num, holder=holder)
        return 'foreign'
    ctx.accepts(lambda: cat.register_alias(row_id, alias), "registering an "
                "alias", alias=alias, row=num)
    if holder == num:
        ctx.count('own alias again')
    elif mon.rows[num]['Alias']:
        ctx.count('alias replaced')
    mon.rows[num]['Alias'] = alias
    ctx.count(counter)
    return 'set'


def edit_file(ctx, config, saved, pool):
    """writes aliases into the catalogue file with the csv module"""
    path = os.path.join(config['Path'], config['File'])
    with open(path, encoding='utf-8', newline='') as fpt:
        rows = list(csv.reader(fpt))
    column = rows[0].index('Alias')
    if len(rows) != len(saved) + 1:
        return False
    num = ctx.randint(0, len(saved) - 1)
    alias = ctx.choice(pool)
    if any(r['Alias'] == alias for r in saved):
        alias = ''
    rows[num + 1][column] = alias
    with open(path, 'w', encoding='utf-8', newline='') as fpt:
        quoting = ctx.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL])
        csv.writer(fpt, quoting=quoting, lineterminator=ctx.choice(
            ["\n", "\r\n"])).writerows(rows)
    saved[num]['Alias'] = alias
    return True


def case_history(ctx):
    base = ctx.tmpdir()
    config = make_catalogue(ctx, base)
    cat = build(config)[0]
    cat.save_to_file()
    if ctx.chance(0.5):
        cat = build(config, 'None')[0]
    mon = Monitor(ctx, cat)
    mon.verify(cat, 'build')
    saved = [dict(r) for r in mon.rows]
    ordered = True          # labels are the row numbers
    trace = []
    pool = [ALIASES[i] for i in ctx.rng.permutation(len(ALIASES))[:8]]
    for _ in range(ctx.randint(5, 40)):
        size = len(mon.rows)
        oper = ctx.choice(['number', 'number', 'select', 'select', 'select',
                           'bad row', 'bad select', 'bad type', 'lookup',
                           'lookup', 'bad lookup', 'save', 'reopen',
                           'replace', 'external', 'rebuild'])
        alias = ctx.choice(pool)
        out = ''
        if oper == 'number' and ordered and size:
            num = ctx.randint(0, size - 1)
            out = attempt(ctx, cat, mon, num, num, alias,
                          'registered by number')
        elif oper == 'select' and size:
            num = ctx.randint(0, size - 1)
            out = attempt(ctx, cat, mon, select(ctx, cat, num), num, alias,
                          'registered by selection')
        elif oper == 'bad row':
            top = max(mon.labels) if mon.labels else -1
            row = ctx.choice([top + 1, top + 100, -1, -size - 1, -5])
            ctx.raises(ValueError, lambda: cat.register_alias(row, alias),
                       "row that does not exist", 'unknown row refused',
                       row=row, alias=alias)
            out = row
        elif oper == 'bad select':
            data = cat.get_database()
            mode = ctx.randint(0, 3)
            if mode == 0 or size < 2:
                sel = data.iloc[[]]
            elif mode == 1:
                sel = data.iloc[:2]
            elif mode == 2:
                sel = data
            else:
                # not of this table
                sel = data.iloc[[0]].copy()
                sel.index = [max(mon.labels) + 50]
            ctx.raises(ValueError, lambda: cat.register_alias(sel, alias),
                       "selection that is not one row of the table",
                       'selection refused', rows=len(sel), alias=alias)
            out = len(sel)
        elif oper == 'bad type':
            bad = ctx.choice([None, 1.0, 'Name', [0], (0,), {'a': 0}, 0.0])
            ctx.raises(ValueError, lambda: cat.register_alias(bad, alias),
                       "row of wrong type", 'wrong type refused', row=bad)
        elif oper == 'lookup':
            if ctx.chance(0.6):
                held = [r['Alias'] for r in mon.rows if r['Alias']]
                alias = ctx.choice(held) if held else alias
            elif ctx.chance(0.1):
                # rows without alias are not found by an empty text
                ctx.raises(ValueError, lambda: cat.get_material(''),
                           "empty alias", 'empty alias refused')
            elif ctx.chance(0.5) and size:
                # texts of other columns are no aliases
                row = ctx.choice(mon.rows)
                alias = str(row[ctx.choice(['Name', 'FullName', 'Author',
                                            'Path', 'Module', 'Comment',
                                            'N_Reference'])])
                alias = ctx.choice([alias, os.path.splitext(alias)[0],
                                    str(ctx.randint(0, size))])
                if mon.holder(alias) is None:
                    ctx.count('texts of other columns')
            out = mon.holder(alias) if alias else None
            if alias:
                lookup(ctx, cat, mon, alias, not ordered)
        elif oper == 'bad lookup':
            bad = ctx.choice([None, 1.0, 0.0, ['gold'], ('gold',), b'gold',
                              {'a': 1}, 1j])
            ctx.raises(ValueError, lambda: cat.get_material(bad),
                       "identifier that is neither text nor integer",
                       'identifier refused', identifier=bad)
        elif oper == 'save':
            cat.save_to_file()
            saved = [dict(r) for r in mon.rows]
            ctx.count('saves')
        elif oper == 'external':
            # the file is edited with other software, then opened
            if not edit_file(ctx, config, saved, pool):
                continue
            cat = build(config, 'None')[0]
            mon.rows = [dict(r) for r in saved]
            mon.labels = list(range(len(saved)))
            ordered = True
            ctx.count('external edits')
        elif oper == 'rebuild':
            # the rows of the rebuilt modules lose their aliases
            names = list(config['Modules'])
            chosen = ctx.choice([names, names[:1], names[-1:]])
            cat = build(config, chosen[0] if len(chosen) == 1 and
                        ctx.chance(0.5) else chosen)[0]
            fresh = snapshot(build(config)[0].get_database())
            mon.rows = []
            for name in names:
                mon.rows += [dict(r) for r in (
                    fresh if name in chosen else saved)
                             if r['Module'] == name]
            mon.labels = list(range(len(mon.rows)))
            ordered = True
            out = tuple(chosen)
            ctx.count('partial rebuilds')
        elif oper == 'reopen':
            cat = build(config, ctx.choice([None, 'None']))[0]
            mon.rows = [dict(r) for r in saved]
            mon.labels = list(range(len(saved)))
            ordered = True
            ctx.count('reopens')
        elif oper == 'replace' and size:
            data = cat.get_database()
            mode = ctx.randint(0, 3)
            order = [int(i) for i in ctx.rng.permutation(size)]
            before = ctx.randint(0, size - 1)
            selection = data.iloc[[before]]
            if mode == 0:
                data = data.iloc[order]
                ctx.count('reordered tables')
                ordered = False
            elif mode == 1 and size > 1:
                order = sorted(order[:-1])
                data = data.iloc[order]
                ctx.count('reduced tables')
                ordered = False
            elif mode == 2:
                data = data.iloc[order].reset_index(drop=True)
                ctx.count('relabelled tables')
                ordered = True
            else:
                asc = ctx.chance(0.5)
                data = data.sort_values('N_Reference', ascending=asc)
                order = sorted(range(size), key=lambda i:
                               mon.rows[i]['N_Reference'], reverse=not asc)
                ctx.count('reordered tables')
                ordered = False
            if ctx.chance(0.5):
                data = data.copy()
            cat.set_database(data)
            mon.rows = [mon.rows[i] for i in order]
            mon.labels = [int(v) for v in data.index]
            if mon.labels == list(range(len(mon.labels))):
                ordered = True
            if mode in (0, 3) and ctx.chance(0.5):
                # a row that was selected before the rows were reordered
                mon.verify(cat, oper)
                out = attempt(ctx, cat, mon, selection, order.index(before),
                              alias, 'selected before reordering')
        trace.append((oper, out))
        ctx.event(oper, alias, out)
        mon.verify(cat, oper)
    for row in mon.rows:
        if row['Alias']:
            lookup(ctx, cat, mon, row['Alias'], not ordered)
    ctx.describe(history=trace, rows=len(mon.rows))
    ctx.sig(tuple(trace))
    if mon.rows and ctx.chance(0.5):
        twins(ctx, cat, mon)
    elif len(mon.rows) > 1:
        shared_labels(ctx, cat, mon)


def shared_labels(ctx, cat, mon):
    """tables put together from others, whose rows share their labels"""
    size = len(mon.rows)
    data = cat.get_database().copy()
    cut = ctx.randint(1, size - 1)
    data.index = list(range(cut)) + list(range(size - cut))
    cat.set_database(data)
    mon.labels = [int(v) for v in data.index]
    mon.verify(cat, 'shared labels')
    for step in range(ctx.randint(1, 4)):
        num = ctx.randint(0, size - 1)
        label = mon.labels[num]
        shared = mon.labels.count(label) > 1
        alias = 'label %d' % step
        row = ctx.choice([label, cat.get_database().iloc[[num]]])
        try:
            cat.register_alias(row, alias)
        except ValueError:
            ctx.check(shared, "an alias for the only row with this label is "
                      "refused", 'shared labels', label=label)
        else:
            # whichever row was meant, it is one of those with the label
            found = [i for i, text in enumerate(cat.get_database().Alias)
                     if text == alias]
            ctx.check(len(found) == 1 and mon.labels[found[0]] == label,
                      "an alias is held by %d rows" % len(found),
                      'shared labels', rows=found, label=label,
                      labels=mon.labels)
            if not shared or not isinstance(row, int):
                ctx.check(shared or found == [num], "alias of another row",
                          'shared labels', rows=found, want=num)
            mon.rows[found[0]]['Alias'] = alias
        mon.verify(cat, 'shared labels')
    for row in mon.rows:
        if row['Alias']:
            lookup(ctx, cat, mon, row['Alias'], True)


def twins(ctx, cat, mon):
    """two rows for one file: each of them has its own alias"""
    num = ctx.randint(0, len(mon.rows) - 1)
    data = cat.get_database()
    twin = data.iloc[[num]].copy()
    twin['Alias'] = ''
    cat.set_database(pd.concat([data, twin], ignore_index=True))
    mon.rows.append(dict(mon.rows[num], Alias=''))
    mon.labels = list(range(len(mon.rows)))
    last = len(mon.rows) - 1
    for chosen in (last, num) if ctx.chance(0.5) else (num, last):
        alias = 'twin %d' % chosen
        if ctx.chance(0.5):
            ctx.accepts(lambda: cat.register_alias(chosen, alias),
                        "registering")
        else:
            ctx.accepts(lambda: cat.register_alias(
                cat.get_database().iloc[[chosen]], alias), "registering")
        mon.rows[chosen]['Alias'] = alias
        mon.verify(cat, 'twin')
        ctx.count('rows of one file')
    ctx.raises(ValueError, lambda: cat.register_alias(last, 'twin %d' % num),
               "reusing the alias of another row", 'rows of one file')
    mon.verify(cat, 'twin')


SCENARIOS = {
    'history': {'case': case_history, 'quick': 640, 'thorough': 20000},
}
