"""C17 metadata survive write/read cycles unchanged"""
import os
import numpy as np
import yaml
from dispersion import Material, Spectrum, Writer
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
from .. import gen, words

PROP = 'C17'
RULE = ("a case is a material with metadata drawn from texts that are hostile "
        "to the formats (colons, comment characters, quotes, YAML syntax and "
        "literals, non-ASCII, blank lines) taken through 1-6 write/read "
        "cycles over the supported file types, every cycle compared with what "
        "was set and with the cycle before; distinct by (sequence of file "
        "types, fields set)")
ASSUMPTIONS = ["single line fields hold no control characters or Unicode "
               "line separators", "lines of the leading comment of a text "
               "file that read as metadata (key: value with one of the "
               "documented keys) are metadata", "specifications are stored "
               "in .yml files only"]
ENVIRONMENTS = ('ascii locale',)
REQUIRED = ['fields compared', 'leading comments compared',
            'specifications compared', 'cycles observed',
            'data compared between cycles', 'multi line fields',
            'fresh fields compared', 'fields left alone',
            'repeated cycles identical', 'additional fields compared',
            'calculated values compared']

FIELDS = ('Reference', 'Author', 'Name', 'FullName', 'Comment')
TEXT = ('.txt', '.csv', '.nk')


def build(ctx, yml_only):
    if yml_only and ctx.chance(0.4):
        return gen.make_material(ctx, ctx.choice(
            ['model_n', 'model_eps', 'mixed_tables', 'mixed_model_table']),
            small=True)
    return gen.make_material(ctx, ctx.choice(
        ['tab_n', 'tab_nk', 'tab_eps', 'one_row']), small=True)


def equal_text(got, want):
    if not isinstance(got, str):
        return False
    return got.strip() == want.strip()


def case_cycles(ctx):
    mode = ctx.choice(['yml', 'text', 'mixed', 'one'])
    types = {'yml': ['.yml'], 'text': list(TEXT),
             'mixed': ['.yml'] + list(TEXT),
             'one': [ctx.choice(['.yml'] + list(TEXT))]}[mode]
    cycles = [ctx.choice(types) for _ in range(ctx.randint(1, 6))]
    yml_only = all(c == '.yml' for c in cycles)
    mat, rmat, desc = build(ctx, yml_only)
    low, high = rmat.range_m()
    if low > high:
        return
    want = {}
    untouched = ctx.rng.uniform(0, 1, len(FIELDS)) < ctx.choice([0, 0, .3, 1])
    for field, leave in zip(FIELDS, untouched):
        if leave:
            want[field] = ''
            ctx.count('fields left alone')
            continue
        text = words.line(ctx)
        if yml_only and ctx.chance(0.3):
            text = "\n".join(words.line(ctx) for _ in
                             range(ctx.randint(2, 4)))
            ctx.count('multi line fields')
        want[field] = text
        mat.meta_data[field] = text
    comment = words.lines(ctx) if ctx.chance(0.7) else ''
    if yml_only and ctx.chance(0.3):
        comment = "\n".join(words.line(ctx) for _ in range(3))
    if comment or ctx.chance(0.5):
        mat.meta_data['MetaComment'] = comment
    spec = {}
    if ctx.chance(0.5):
        spec = words.specification(ctx)
        mat.meta_data['Specification'] = dict(spec)
    extra = {}
    if ctx.chance(0.3):
        # fields of the user's own
        for key in ('Sample', 'TEMPERATURE_C', 'my key', 'x',
                    'NameOfSample', 'reference sample', 'Unit cell',
                    'CommentedBy', 'AUTHOR_EMAIL', 'FullNameOld'):
            if ctx.chance(0.5):
                extra[key] = words.line(ctx)
        mat.meta_data.update(extra)
    ctx.describe(desc=desc, cycles=cycles, metadata=want, comment=comment,
                 specification=spec)
    lam = gen.inside(ctx, rmat, 6)
    def values(material):
        try:
            return material.get_nk_data(lam)
        except ValueError:
            if low == high:
                return None     # a single point, lost to rounding (C04)
            raise
    start = values(mat)
    last = None
    spec_lost = False
    for num, ext in enumerate(cycles):
        path = os.path.join(ctx.tmpdir(), 'cycle%d%s' % (num, ext))
        ctx.accepts(lambda: Writer(path, mat).write_file(), "writing",
                    ext=ext, cycle=num)
        mat = ctx.accepts(lambda: Material(file_path=path), "reading the "
                          "written file", ext=ext, cycle=num)
        ctx.count('cycles observed')
        if num == 0 and ext == '.yml' and extra:
            with open(path, encoding='utf-8') as fpt:
                raw = yaml.safe_load(fpt)
            for key, text in extra.items():
                ctx.check(str(raw.get(key, '')).strip() == text.strip(),
                          "an additional field was not written as set",
                          'additional fields compared', key=key,
                          got=raw.get(key), want=text)
        for field in FIELDS:
            ctx.check(equal_text(mat.meta_data[field], want[field]),
                      "metadata field changed", 'fields compared',
                      field=field, got=mat.meta_data[field],
                      want=want[field], ext=ext, cycle=num)
        ctx.check(equal_text(mat.meta_data['MetaComment'], comment),
                  "leading comment changed", 'leading comments compared',
                  got=mat.meta_data['MetaComment'], want=comment, ext=ext,
                  cycle=num)
        if ext != '.yml':
            spec_lost = True
        if not spec_lost:
            ctx.check(words.same(dict(mat.meta_data['Specification']), spec),
                      "specification changed", 'specifications compared',
                      got=mat.meta_data['Specification'], want=spec)
        now = values(mat)
        if start is not None and now is not None:
            ctx.close(now, start, "data changed", rtol=1e-8,
                      atol=1e-12*np.max(np.abs(start)),
                      counter='data compared between cycles', ext=ext)
        rng = mat.get_maximum_valid_range()
        if last is not None and last[0] == ext:
            ctx.check(dict(mat.meta_data) == last[1], "metadata changed "
                      "again in a repeated cycle",
                      'repeated cycles identical', got=mat.meta_data,
                      want=last[1], ext=ext)
            ctx.close(rng, last[2], "range changed in a repeated cycle",
                      rtol=1e-12, counter='repeated cycles identical')
            if now is not None and last[3] is not None:
                ctx.close(now, last[3], "data changed again in a repeated "
                          "cycle", rtol=1e-12,
                          atol=1e-14*np.max(np.abs(now)),
                          counter='repeated cycles identical')
        last = (ext, dict(mat.meta_data), rng, now)
    ctx.sig(tuple(cycles), tuple(bool(want[f]) for f in FIELDS),
            bool(comment), bool(spec))


def case_fresh(ctx):
    """materials which nobody described have empty metadata"""
    if ctx.chance(0.3):
        parts = [gen.make_material(ctx, ctx.choice(
            ['fixed_n', 'fixed_nk', 'fixed_eps_r', 'fixed_eps']))[0]
                 for _ in range(2)]
        for part in parts:
            if ctx.chance(0.5):
                part.meta_data.update({f: words.line(ctx) for f in FIELDS})
        kind = ctx.choice([Simple, MaxwellGarnett, Bruggeman])
        mat = kind(Spectrum(np.array([400., 500.]), unit='nm'), parts[0],
                   parts[1], filling_fraction=0.5)
        name = kind.__name__
    else:
        mat, _, desc = gen.make_material(ctx, small=True)
        name = desc['kind']
    ctx.describe(kind=name)
    for field in FIELDS + ('MetaComment', 'Alias'):
        ctx.check(mat.meta_data.get(field) == '', "a material that was not "
                  "described has metadata", 'fresh fields compared',
                  field=field, got=mat.meta_data.get(field), kind=name)
    ctx.check(not mat.meta_data.get('Specification'), "a material that was "
              "not described has a specification", 'fresh fields compared',
              got=mat.meta_data.get('Specification'), kind=name)
    ctx.sig(name)


def case_piece(ctx):
    """every hostile text in every field of every file type"""
    exts = ('.yml',) + TEXT
    total = len(words.PIECES)
    piece = words.PIECES[ctx.idx % total]
    ext = exts[(ctx.idx//total) % 4]
    mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [500., 1.4, .2]]))
    for field in FIELDS:
        mat.meta_data[field] = piece
    meta = not words.like_metadata(piece) or ext == '.yml'
    mat.meta_data['MetaComment'] = piece + "\n" + piece if meta else ''
    ctx.describe(text=piece, ext=ext)
    path = os.path.join(ctx.tmpdir(), 'piece' + ext)
    Writer(path, mat).write_file()
    back = ctx.accepts(lambda: Material(file_path=path), "reading the "
                       "written file", ext=ext, text=piece)
    for field in FIELDS:
        ctx.check(equal_text(back.meta_data[field], piece), "metadata field "
                  "changed", 'fields compared', field=field, ext=ext,
                  got=back.meta_data[field], want=piece)
    ctx.check(equal_text(back.meta_data['MetaComment'],
                         piece + "\n" + piece if meta else ''),
              "leading comment changed", 'leading comments compared',
              got=back.meta_data['MetaComment'], want=piece, ext=ext)
    got = back.get_nk_data(np.array([400., 500.]), 'wavelength', 'nm')
    ctx.close(got, np.array([1.5 + .1j, 1.4 + .2j]), "data changed",
              rtol=1e-9, counter='data compared between cycles')
    ctx.sig(piece, ext)


def case_separator(ctx):
    """unusual white space inside of one line"""
    char = words.SEPARATORS[ctx.idx % len(words.SEPARATORS)]
    exts = TEXT + ('.yml',)
    ext = exts[(ctx.idx//len(words.SEPARATORS)) % 4]
    text = 'a' + words.line(ctx) + char + ctx.choice(['b', '; c', ': d', '# e',
                                                      '5 6 7'])
    mat = Material(tabulated_nk=np.array([[2., 1.5, .1], [3., 1.4, .2]]),
                   spectrum_type='energy', unit='eV')
    field = ctx.choice(FIELDS + ('MetaComment',))
    if field == 'MetaComment' and (words.like_metadata(text) or
                                   ext == '.yml'):
        field = 'Name'
    want = dict({f: 'x ' + f for f in FIELDS}, **{field: text})
    mat.meta_data.update(want)
    ctx.describe(text=text, ext=ext, field=field)
    path = os.path.join(ctx.tmpdir(), 'separator' + ext)
    for _ in range(2):
        Writer(path, mat).write_file()
        mat = ctx.accepts(lambda: Material(file_path=path), "reading the "
                          "written file", ext=ext, text=text)
        for key, value in want.items():
            ctx.check(equal_text(mat.meta_data[key], value), "metadata field "
                      "changed", 'fields compared', field=key, ext=ext,
                      got=mat.meta_data[key], want=value)
        got = mat.get_nk_data(np.array([2., 3.]), 'energy', 'eV')
        ctx.close(got, np.array([1.5 + .1j, 1.4 + .2j]), "data changed",
                  rtol=1e-9, counter='data compared between cycles')
    ctx.sig(char, ext, field)


def numpy_value(ctx):
    """(value as it comes out of a calculation, plain value)"""
    num = ctx.randint(0, 7)
    val = float(ctx.rng.uniform(-5, 400))
    whole = ctx.randint(-5, 2000)
    truth = ctx.chance(0.5)
    word = words.line(ctx).strip()
    if num == 0:
        return np.float64(val), val
    if num == 1:
        return np.float32(0.5*whole), 0.5*whole
    if num == 2:
        return np.int64(whole), whole
    if num == 3:
        return np.bool_(truth), truth
    if num == 4:
        return np.str_(word), word
    if num == 5:
        arr = ctx.rng.uniform(0, 1, ctx.randint(1, 4))
        return arr, [float(v) for v in arr]
    if num == 6:
        return [np.float64(val), np.int32(whole)], [val, whole]
    return np.mean(np.array([val, val])), val


def case_numpy(ctx):
    """metadata that come out of a calculation"""
    ext = ctx.choice(TEXT + ('.yml', '.yml'))
    mat, _, desc = gen.make_material(ctx, ctx.choice(
        ['tab_n', 'tab_nk', 'tab_eps']), small=True)
    want, spec, extra = {}, {}, {}
    for field in FIELDS:
        want[field] = words.line(ctx)
        mat.meta_data[field] = np.str_(want[field])
    if ext == '.yml':
        given, given_extra = {}, {}
        for key in ('temperature', 'film_thickness', 'n_absolute', 'x'):
            if ctx.chance(0.7):
                given[key], spec[key] = numpy_value(ctx)
        mat.meta_data['Specification'] = given
        for key in ('Batch', 'own field'):
            if ctx.chance(0.5):
                given_extra[key], extra[key] = numpy_value(ctx)
        mat.meta_data.update(given_extra)
    ctx.describe(ext=ext, want=want, specification=spec, own=extra,
                 desc=desc)
    path = os.path.join(ctx.tmpdir(), 'numpy' + ext)
    ctx.accepts(lambda: Writer(path, mat).write_file(), "writing", ext=ext)
    back = ctx.accepts(lambda: Material(file_path=path), "reading the "
                       "written file", ext=ext, specification=spec)
    for field in FIELDS:
        ctx.check(equal_text(back.meta_data[field], want[field]),
                  "metadata field changed", 'fields compared', field=field,
                  got=back.meta_data[field], want=want[field], ext=ext)
    if ext == '.yml':
        ctx.check(words.same(dict(back.meta_data['Specification']), spec),
                  "specification changed", 'calculated values compared',
                  got=back.meta_data['Specification'], want=spec)
        with open(path, encoding='utf-8') as fpt:
            raw = ctx.accepts(lambda: yaml.safe_load(fpt), "reading the "
                              "written file as YAML", specification=spec)
        for key, value in extra.items():
            ctx.check(raw.get(key) == value or str(raw.get(key)).strip() ==
                      str(value).strip(), "an additional field was not "
                      "written as set", 'additional fields compared',
                      key=key, got=raw.get(key), want=value)
    ctx.sig('numpy', ext, tuple(type(v).__name__ for v in spec.values()))


SCENARIOS = {
    'numpy': {'case': case_numpy, 'quick': 800, 'thorough': 12000},
    'separator': {'case': case_separator, 'quick': 520, 'thorough': 5200},
    'cycles': {'case': case_cycles, 'quick': 3000, 'thorough': 60000},
    'fresh': {'case': case_fresh, 'quick': 400, 'thorough': 4000},
    'piece': {'case': case_piece, 'quick': 4*len(words.PIECES),
              'thorough': 4*len(words.PIECES), 'exhaustive': True},
}
