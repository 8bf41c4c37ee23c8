"""C27 interactive editing shows and stores exactly the catalogue"""
import os
import sys
import types
from dispersion import Catalogue, Spectrum
from .c20 import build
from .c21 import snapshot, read_bytes, HOSTILE
from .c22 import make_catalogue, Monitor, select

PROP = 'C27'
RULE = ("a case is a history of viewing, editing, interactive saving, "
        "registering, saving and reopening on an interactive catalogue whose "
        "grid package is a stand-in that records its calls and holds a copy "
        "of the table; or a catalogue that is not interactive or lacks the "
        "package; distinct by the history")
ASSUMPTIONS = ["the grid shows a copy of the table it is given and reports "
               "the edited copy, as qgrid does"]
REQUIRED = ['views compared', 'edits compared', 'edits not yet saved',
            'interactive saves', 'file compared', 'disabled refused',
            'missing package refused', 'aliases found', 'edit twice',
            'rows removed or sorted', 'numbers edited']


class Grid:
    """what qgrid.show_grid returns"""

    def __init__(self, data_frame, editable, options):
        self.given = snapshot(data_frame)
        self.data = data_frame.copy()
        self.editable = editable
        self.options = options

    def get_changed_df(self):
        return self.data.copy()

    def get_selected_df(self):
        return self.data.iloc[[0]]


def stand_in(calls):
    module = types.ModuleType('qgrid')

    def show_grid(data_frame, show_toolbar=None, precision=None,
                  grid_options=None, column_options=None,
                  column_definitions=None, row_edit_callback=None, **kw):
        options = dict(grid_options or {})
        grid = Grid(data_frame, options.get('editable', True), options)
        calls.append(grid)
        return grid
    module.show_grid = show_grid
    return module


def with_package(module, func):
    saved = sys.modules.get('qgrid', 0)
    sys.modules['qgrid'] = module
    try:
        return func()
    finally:
        if saved == 0:
            sys.modules.pop('qgrid', None)
        else:
            sys.modules['qgrid'] = saved


def equal(one, two):
    return repr(one) == repr(two)


def edit_grid(ctx, grid, mon):
    """the user types into cells of the grid, returns the new rows"""
    rows = [dict(r) for r in grid.rows]
    for _ in range(ctx.randint(1, 4)):
        num = ctx.randint(0, len(rows) - 1)
        if ctx.chance(0.15) and len(rows) > 1:
            # the user removes a row
            grid.data = grid.data.drop(grid.data.index[num])
            del rows[num]
            ctx.count('rows removed or sorted')
            continue
        if ctx.chance(0.15):
            # or sorts the rows
            order = [int(i) for i in ctx.rng.permutation(len(rows))]
            grid.data = grid.data.iloc[order]
            rows = [rows[i] for i in order]
            ctx.count('rows removed or sorted')
            continue
        if ctx.chance(0.15):
            # or changes a number, or leaves it out
            field = ctx.choice(['N_Reference', 'K_Reference'])
            value = ctx.choice([float('nan'), float('nan'), 1.25, 0.1 + 0.2])
            grid.data.at[grid.data.index[num], field] = value
            rows[num][field] = value
            ctx.count('numbers edited')
            continue
        field = ctx.choice(['Alias', 'Alias', 'Comment', 'FullName'])
        value = ctx.choice(HOSTILE)
        if field == 'Alias' and any(r['Alias'] == value for r in rows):
            continue
        grid.data.at[grid.data.index[num], field] = value
        rows[num][field] = value
    return rows


def case_history(ctx):
    base = ctx.tmpdir()
    config = make_catalogue(ctx, base)
    plain = dict(config)
    build(plain)[0].save_to_file()
    config['Interactive'] = True
    path = os.path.join(base, config['File'])
    calls = []
    module = stand_in(calls)
    trace = []

    def run():
        cat = build(config, ctx.choice(['None', 'All']))[0]
        mon = Monitor(ctx, cat)
        # rows that are edited keep their file
        values = {(r['Module'], r['Path']): complex(
            r['N_Reference'], r['K_Reference']) for r in mon.rows}
        grid = None
        for _ in range(ctx.randint(3, 14)):
            oper = ctx.choice(['view', 'edit', 'edit', 'type', 'type',
                               'save grid', 'save grid', 'register', 'save',
                               'reopen', 'lookup'])
            trace.append(oper)
            if oper in ('view', 'edit'):
                shown = len(calls)
                func = cat.view_interactive if oper == 'view' else \
                    cat.edit_interactive
                got = ctx.accepts(func, oper)
                ctx.check(len(calls) == shown + 1 and got is calls[-1],
                          "the grid is not returned", trace=trace)
                ctx.check(equal(got.given, mon.rows), "the grid does not "
                          "show the catalogue", 'views compared' if
                          oper == 'view' else 'edits compared', trace=trace)
                ctx.check(bool(got.editable) == (oper == 'edit'), "grid is "
                          "editable when viewing or read only when editing",
                          oper=oper, editable=got.editable)
                if oper == 'edit' and grid is not None:
                    ctx.count('edit twice')
                grid = got
                grid.rows = [dict(r) for r in mon.rows]
            elif oper == 'type' and grid is not None and grid.editable:
                grid.rows = edit_grid(ctx, grid, mon)
                ctx.count('edits not yet saved')
            elif oper == 'save grid' and grid is not None:
                ctx.accepts(cat.save_interactive, "saving the grid",
                            trace=trace)
                mon.rows = [dict(r) for r in grid.rows]
                ctx.check(list(cat.get_database().index) ==
                          list(grid.data.index), "rows have other numbers "
                          "than in the grid", 'interactive saves',
                          trace=trace)
            elif oper == 'register':
                num = ctx.randint(0, len(mon.rows) - 1)
                alias = 'alias%d' % ctx.randint(0, 99)
                if mon.holder(alias) is None:
                    cat.register_alias(select(ctx, cat, num), alias)
                    mon.rows[num]['Alias'] = alias
            elif oper == 'save':
                cat.save_to_file()
                got = snapshot(build(plain, 'None')[0].get_database())
                ctx.check(equal(got, mon.rows), "saved file is not the "
                          "catalogue", 'file compared', trace=trace)
            elif oper == 'reopen':
                cat.save_to_file()
                cat = build(config, 'None')[0]
                mon = Monitor(ctx, cat)
                grid = None
            elif oper == 'lookup':
                for row in mon.rows:
                    if row['Alias']:
                        mat = ctx.accepts(
                            lambda: cat.get_material(row['Alias']),
                            "looking up an alias", alias=row['Alias'])
                        got = complex(mat.get_nk_data(
                            Spectrum(600.0, 'wavelength', 'nm')))
                        want = values[row['Module'], row['Path']]
                        ctx.check(abs(got - want) < 1e-9, "alias finds "
                                  "another material", 'aliases found',
                                  alias=row['Alias'])
            mon.verify(cat, oper)
    with_package(module, run)
    ctx.describe(trace=trace)
    ctx.sig(tuple(trace))


def case_refused(ctx):
    base = ctx.tmpdir()
    config = make_catalogue(ctx, base)
    cat = build(config)[0]
    cat.save_to_file()
    path = os.path.join(base, config['File'])
    content = read_bytes(path)
    rows = snapshot(cat.get_database())
    calls = []

    def run():
        if ctx.chance(0.5):
            return build(config, 'None')[0]
        return cat
    cat2 = with_package(stand_in(calls), run)
    for func in (cat2.view_interactive, cat2.edit_interactive,
                 cat2.save_interactive):
        ctx.raises(ValueError, lambda: with_package(stand_in(calls), func),
                   "interactive use although disabled", 'disabled refused')
        ctx.check(equal(snapshot(cat2.get_database()), rows), "refused "
                  "interactive use changed the catalogue")
    ctx.check(not calls, "grid was shown although disabled")
    config = dict(config, Interactive=True)
    # None in sys.modules: the import fails as if it were not installed
    ctx.raises(Exception, lambda: with_package(None, lambda: build(
        config, ctx.choice(['None', 'All']))), "interactive catalogue "
        "without the grid package", 'missing package refused')
    ctx.check(read_bytes(path) == content, "refused use changed the file")
    ctx.sig(len(rows), cat2 is cat)


SCENARIOS = {
    'history': {'case': case_history, 'quick': 480, 'thorough': 12000},
    'refused': {'case': case_refused, 'quick': 80, 'thorough': 1600},
}
