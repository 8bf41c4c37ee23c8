"""C18 documented data files load to exactly what they say"""
import os
import numpy as np
from dispersion import Material, Spectrum
from .. import gen, ref, words
from .c12 import canonical

PROP = 'C18'
RULE = ("a case is a file derived from the documented grammar (text: type, "
        "columns, separators, number notation, header keys in any order and "
        "letter case, comments, line ends; YAML: package or "
        "refractiveindex.info keys, block styles, tables, formulas 1-9, named "
        "models, one or two data sets in any order) together with the "
        "caller's defaults; data, range, quantity, unit and metadata of the "
        "loaded material are compared with what was put into the file, also "
        "after the file is replaced by another one that looks alike; "
        "distinct by the productions used")
ASSUMPTIONS = ["spectral columns increase (C19 describes the others)",
               "keys which are not documented do not begin like one that is"]
ENVIRONMENTS = ('ascii locale',)
REQUIRED = ['text files loaded', 'yaml files loaded', 'values compared',
            'ranges compared', 'metadata compared', 'comments compared',
            'units stated', 'units from the caller', 'formulas loaded',
            'two data sets loaded', 'specifications compared',
            'refractiveindex.info keys', 'package keys',
            'beyond the range refused', 'only one of quantity and unit stated',
            'keys not in upper case', 'other keys present', 'other keys in data sets', 'empty lines in data',
            'keys without value', 'remarks between rows',
            'coefficients over several lines', 'replaced files compared']


def number(ctx, val):
    """the same number in some notation (exact)"""
    val = float(val)
    mode = ctx.randint(0, 6)
    if mode == 6:
        return '%.*e' % (ctx.choice([20, 25, 40]), val)
    if mode == 0 and val == int(val) and abs(val) < 1e9:
        return str(int(val))
    if mode == 1:
        return '%.17e' % val
    if mode == 2:
        return ('%.17E' % val)
    if mode == 3 and val > 0:
        return '+' + repr(val)
    return repr(val)


def pick_pair(ctx):
    pair = gen.any_pair(ctx)
    return pair, gen.spell(ctx, pair)


def stated(ctx, pair, spelled):
    """which of quantity/unit the file states, and the caller's keywords"""
    mode = ctx.randint(0, 4)
    other = gen.spell(ctx, gen.any_pair(ctx))
    if mode <= 1:
        # file states both, the caller may say something else
        kw = {}
        if ctx.chance(0.5):
            kw = {'spectrum_type': other[0], 'unit': other[1]}
        ctx.count('units stated')
        return spelled[0], spelled[1], kw
    if mode == 2:
        ctx.count('units from the caller')
        return None, None, {'spectrum_type': spelled[0], 'unit': spelled[1]}
    ctx.count('only one of quantity and unit stated')
    if mode == 3:
        kw = {'spectrum_type': other[0], 'unit': spelled[1]}
        return spelled[0], None, kw
    return None, spelled[1], {'spectrum_type': spelled[0], 'unit': other[1]}


def default_case(ctx, pair):
    """nothing said anywhere: wavelength in nanometre"""
    return pair == ('wavelength', 'nm') and ctx.chance(0.5)


KEYNAMES = {'Reference': 'REFERENCES', 'Author': 'AUTHOR',
            'FullName': 'FULLNAME', 'Name': 'NAME', 'Comment': 'COMMENTS'}


def columns(ctx, pair, kind, num):
    xx = gen.table_x(ctx, pair, num)
    names = {'n': ('n',), 'k': ('k',), 'nk': ('n', 'k'),
             'eps': ('epsr', 'epsi')}[kind]
    return xx, [gen.column(ctx, name, num) for name in names]


def rmat_of(kind, xx, cols, pair):
    parts = [ref.RefTable(xx, col, pair) for col in cols]
    if kind == 'n':
        return ref.RefMaterial('nk', parts[0])
    if kind == 'k':
        return ref.RefMaterial('nk', None, parts[0])
    return ref.RefMaterial(kind, parts[0], parts[1])


def verify_data(ctx, mat, rmat, info):
    ctx.check(mat.data['name'] == rmat.name, "representation is not what "
              "the file says", got=mat.data['name'], want=rmat.name, **info)
    low, high = rmat.range_m()
    parts = [rmat.cplx] if rmat.cplx is not None else [rmat.real, rmat.imag]
    for num, part in enumerate(parts):
        if part.kind != 'table':
            continue
        lam = ref.to_metre(part.pair, part.xx)
        keep = (lam > low*(1 + 1e-10)) & (lam < high*(1 - 1e-10))
        if len(part.xx) == 1 or parts[1 - num].kind == 'const' or \
                parts[1 - num].kind == 'table' and \
                parts[1 - num].pair == part.pair and np.array_equal(
                    parts[1 - num].xx, part.xx):
            keep[:] = True
        if not np.any(keep):
            continue
        spec = Spectrum(part.xx[keep], *part.pair)
        got = ctx.accepts(lambda: mat.get_nk_data(spec) if rmat.name == 'nk'
                          else mat.get_permittivity(spec), "evaluating at "
                          "the points of the file", **info)
        val = np.real(got) if num == 0 else np.imag(got)
        want = part.yy[keep]
        tol = part.tol(lam)[keep] + 1e-10*np.abs(want)
        ctx.check(np.all(np.abs(val - want) <= tol), "values at the points "
                  "of the file differ", 'values compared', got=val,
                  want=want, **info)
    if low*(1 + 1e-6) < high*(1 - 1e-6):
        lam = gen.inside(ctx, rmat, 12)
        spec, _ = gen.request(ctx, lam)
        got = mat.get_nk_data(spec)
        want = rmat.nk(lam)
        ctx.check(np.all(np.abs(got - want) <= 3*rmat.nk_tol(lam) +
                         1e-8*np.abs(want)), "values differ from what the "
                  "file says", 'values compared', got=got, want=want, **info)
        for bad in (low*(1 - 1e-5), high*(1 + 1e-5)):
            if 0 < bad < np.inf:
                ctx.raises(ValueError, lambda: mat.get_nk_data(float(bad)),
                           "beyond the range of the file",
                           'beyond the range refused', **info)


def verify_range(ctx, mat, rmat, pair, info):
    got_pair = canonical(mat.defaults['spectrum_type'], mat.defaults['unit'])
    if pair is not None:
        ctx.check(got_pair == pair, "quantity and unit are not what the file "
                  "says", got=got_pair, want=pair, **info)
    want = np.sort(ref.from_metre(got_pair, rmat.range_m()))
    ctx.close(np.asarray(mat.get_maximum_valid_range(), dtype=float), want,
              "range is not what the file says", rtol=3e-9,
              atol=3*ref.round_step(got_pair), counter='ranges compared',
              **info)


def verify_meta(ctx, mat, meta, comment, spec, info):
    for field in KEYNAMES:
        want = meta.get(field, '')
        got = mat.meta_data[field]
        ctx.check(isinstance(got, str) and got.strip() == want.strip(),
                  "metadata are not what the file says", 'metadata compared',
                  field=field, got=got, want=want, **info)
    got = mat.meta_data['MetaComment']
    norm = [l.strip() for l in got.strip().splitlines()]
    want = [l.strip() for l in comment.strip().splitlines()]
    ctx.check(norm == want, "leading comment is not what the file says",
              'comments compared', got=got, want=comment, **info)
    if spec is not None:
        ctx.check(words.same(dict(mat.meta_data['Specification']), spec),
                  "specification is not what the file says",
                  'specifications compared',
                  got=mat.meta_data['Specification'], want=spec, **info)


def save(ctx, path, text):
    if ctx.chance(0.2):
        text = text.replace("\n", "\r\n")
    if ctx.chance(0.15):
        text = text.rstrip("\r\n")
    with open(path, 'w', encoding='utf-8', newline='') as fpt:
        fpt.write(text)


# --------------------------------------------------------------------------
def case_text(ctx):
    ext = ('.txt', '.csv', '.nk')[ctx.idx % 3]
    char = ';' if ext == '.nk' else '#'
    pair, spelled = pick_pair(ctx)
    kind = ctx.choice(['n', 'nk', 'k', 'eps'])
    num = ctx.choice([1, 2, 3, 8, 30, 200])
    xx, cols = columns(ctx, pair, kind, num)
    state_kind = kind in ('k', 'eps') or ctx.chance(0.5)
    header = []
    meta = {}
    for field, key in KEYNAMES.items():
        if ctx.chance(0.5):
            value = words.line(ctx)
            if ctx.chance(0.1):
                value = 'a' + value + ctx.choice(words.SEPARATORS) + 'b'
            meta[field] = value
            header.append((key, value))
    if default_case(ctx, pair):
        kw = {}
    else:
        stype, unit, kw = stated(ctx, pair, spelled)
        if stype:
            header.append(('SPECTRUMTYPE', stype))
        if unit:
            header.append(('UNIT', unit))
    if state_kind:
        header.append(('DATATYPE', 'tabulated ' + kind))
    if ctx.chance(0.15):
        header.append(('VALIDRANGE', '%r %r' % (float(xx[0]),
                                                float(xx[-1]))))
    header = [header[i] for i in ctx.rng.permutation(len(header))]
    comments = [t for t in words.lines(ctx, 4).splitlines()] \
        if ctx.chance(0.6) else []
    out = []
    for key, value in header:
        key = gen.mixed_case(ctx, key)
        gap1, gap2 = ctx.choice(['', ' ', '  ']), ctx.choice(['', ' ', '  '])
        out.append(char + gap1 + key + ':' + gap2 + value)
    # comments keep their order, between the metadata
    slots = sorted(ctx.randint(0, len(out)) for _ in comments)
    for pos, text in reversed(list(zip(slots, comments))):
        out.insert(pos, char + ctx.choice([' ', '']) + text)
    if ctx.chance(0.5):
        out.append(char)
    if ext == '.csv':
        sep = lambda: ctx.choice([',', ', ', ' ,'])
    else:
        sep = lambda: ctx.choice(['\t', ' ', '   ', '\t\t', ' \t'])
    remarks = ctx.chance(0.2)
    for row in zip(xx, *cols):
        if remarks and row[0] != xx[0] and ctx.chance(0.4):
            # a remark between the rows, not part of the header
            out.append(char + ctx.choice([
                ' second run', ' NAME: other', ' UNIT: parsec',
                ' DATATYPE: tabulated eps', '', ' 12 3.5 0.1']))
            ctx.count('remarks between rows')
        text = number(ctx, row[0])
        for val in row[1:]:
            text += sep() + number(ctx, val)
        out.append((ctx.choice(['', ' ']) if ext != '.csv' else '') + text)
    path = os.path.join(ctx.tmpdir(), 'file' + ext)
    save(ctx, path, "\n".join(out) + "\n")
    info = {'ext': ext, 'kind': kind}
    ctx.describe(head=out[:14], kw=kw, **info)
    mat = ctx.accepts(lambda: Material(file_path=path, **kw), "loading a "
                      "documented text file", head=out[:14], **info)
    ctx.count('text files loaded')
    rmat = rmat_of(kind, xx, cols, pair)
    verify_data(ctx, mat, rmat, info)
    verify_range(ctx, mat, rmat, pair, info)
    verify_meta(ctx, mat, meta, "\n".join(comments), None, info)
    ctx.sig(ext, kind, pair, state_kind, num > 1, len(header),
            len(comments), tuple(sorted(kw)))


# --------------------------------------------------------------------------
def yaml_scalar(ctx, value, indent):
    """a YAML scalar of the text"""
    quoted = "'" + value.replace("'", "''") + "'"
    mode = ctx.randint(0, 2)
    plain_ok = value and value[0].isalpha() and value.isprintable() and \
        not any(c in value for c in ':#') and value.strip() == value and \
        value.lower() not in ('null', 'none', 'true', 'false', 'yes', 'no',
                              'on', 'off', 'nan', 'inf', 'y', 'n')
    if mode == 0 and plain_ok:
        return value
    if mode == 1 and value and value == value.strip() and '\t' not in value:
        return '|-\n' + ' '*indent + value
    if '\t' in value:
        return '"' + value.replace('\\', '\\\\').replace(
            '"', '\\"').replace('\t', '\\t') + '"'
    return quoted


def dataset_table(ctx, kind, xx, cols, stype, unit, rii):
    key_type, key_data = ('type', 'data') if rii else ('DataType', 'Data')
    items = [(key_type, 'tabulated ' + kind)]
    if stype:
        items.append(('SpectrumType', stype))
    if unit:
        items.append(('Unit', unit))
    if ctx.chance(0.4):
        items.append((range_key(ctx, rii), '%r %r' % (float(xx[0]),
                                                      float(xx[-1]))))
    block = ctx.choice(['|', '|-', '|+'])
    gap = ctx.randint(1, 2*len(xx)) if ctx.chance(0.3) else -1
    for num, row in enumerate(zip(xx, *cols)):
        if num == gap:
            block += ctx.choice(["\n", "\n\n", "\n" + ' '*10])
            ctx.count('empty lines in data')
        block += "\n" + ' '*8 + ctx.choice([' ', '  ', '   ', '\t', ' \t']).join(
            number(ctx, v) for v in row)
    items.append((key_data, block))
    return items


def range_key(ctx, rii):
    if rii and ctx.chance(0.5):
        return 'wavelength_range'
    key = ctx.choice(['wavelength_range', 'range', 'spectra_range',
                      'ValidRange', 'validRange'])
    return ctx.choice([key, key, key.lower(), key.upper()])


def dataset_model(ctx, name, par, vrange, stype, unit, rii):
    texts = [number(ctx, p) for p in par]
    values = ' '.join(texts)
    if len(texts) > 1 and ctx.chance(0.2):
        # over several lines
        cuts = [ctx.choice([' ', "\n" + ' '*8]) for _ in texts[1:]]
        values = ctx.choice(['|', '|-', '>', '>-']) + "\n" + ' '*8 + \
            texts[0] + ''.join(c + t for c, t in zip(cuts, texts[1:]))
        ctx.count('coefficients over several lines')
    if rii:
        items = [('type', 'formula %d' % ref.FORMULA_NUMBER[name])]
        items.append(('coefficients', values))
    else:
        dtype = 'model ' + name
        if name in ref.FORMULA_NUMBER and ctx.chance(0.3):
            dtype = 'formula %d' % ref.FORMULA_NUMBER[name]
        items = [('DataType', dtype)]
        items.append(('Parameters', values))
        if ctx.chance(0.5):
            items.append(('Yields', 'n' if name in ref.MODELS_N else 'eps'))
    items.append((range_key(ctx, rii),
                  ' '.join(number(ctx, v) for v in vrange)))
    if stype:
        items.append(('SpectrumType', stype))
    if unit:
        items.append(('Unit', unit))
    return items


def render(ctx, meta, comments, spec, datasets):
    import yaml
    sections = []
    case = ctx.choice([str, str, str.lower, str.title,
                       lambda key: gen.mixed_case(ctx, key)])
    for field, value in meta.items():
        sections.append(case(KEYNAMES[field]) + ': ' +
                        yaml_scalar(ctx, value, 2))
    for field in KEYNAMES:
        if field not in meta and ctx.chance(0.1):
            sections.append(case(KEYNAMES[field]) + ctx.choice(
                [':', ': ', ': ~', ': null', ": ''"]))
            ctx.count('keys without value')
    if not spec and ctx.chance(0.1):
        sections.append(case('SPECS') + ctx.choice([':', ': {}', ': ~']))
    if case is not str:
        ctx.count('keys not in upper case')
    if ctx.chance(0.2):
        sections.append(ctx.choice([
            'Conditions', 'SOURCE', 'license', 'NameOfSample', 'REFERENCE_URL',
            'comment2', 'AUTHOR_EMAIL', 'FullNameOld', 'DATABASE', 'SPECSHEET',
            'METACOMMENTARY']) +
                        ': ' + yaml_scalar(ctx, words.line(ctx), 2))
        ctx.count('other keys present')
    if spec:
        sections.append(yaml.safe_dump({case('SPECS'): spec},
                                       default_flow_style=False,
                                       allow_unicode=True).rstrip())
    body = case('DATA') + ':'
    for items in datasets:
        if ctx.chance(0.15):
            # keys of data sets which mean nothing here
            items = list(items)
            items.insert(ctx.randint(0, len(items)), (ctx.choice([
                'T', 'p', 'e', 'y', 'temperature', 'source', 'uncertainty',
                'DataSource', 'units', 'number', 'typeOfSample', 'valid',
                'sample_range']), ctx.choice(['300', 'x', '1 2', "''", '~'])))
            ctx.count('other keys in data sets')
        items = [items[i] for i in ctx.rng.permutation(len(items))]
        for num, (key, value) in enumerate(items):
            body += "\n  " + ('- ' if num == 0 else '  ') + key + ': ' + value
    sections.append(body)
    sections = [sections[i] for i in ctx.rng.permutation(len(sections))]
    head = ""
    if comments:
        head = "".join('#' + ctx.choice(['', ' ']) + c + "\n"
                       for c in comments) + "\n"
    return head + "\n".join(sections) + "\n"


def case_yaml(ctx):
    rii = ctx.chance(0.5)
    ctx.count('refractiveindex.info keys' if rii else 'package keys')
    layout = ctx.choice(['table', 'table', 'model', 'model+k', 'n+k',
                         'eps_model'])
    if rii and layout == 'eps_model':
        layout = 'model'
    meta = {f: words.line(ctx) for f in KEYNAMES if ctx.chance(0.5)}
    comments = words.line(ctx).splitlines() + words.line(ctx).splitlines() \
        if ctx.chance(0.5) else []
    spec = words.specification(ctx) if ctx.chance(0.4) else {}
    datasets, kw, pair = [], {}, None
    if layout == 'table':
        kind = ctx.choice(['n', 'k', 'nk', 'eps'] if not rii else
                          ['n', 'k', 'nk'])
        pair, spelled = pick_pair(ctx)
        num = ctx.choice([1, 2, 3, 10, 60])
        xx, cols = columns(ctx, pair, kind, num)
        if default_case(ctx, pair):
            stype = unit = None
        else:
            stype, unit, kw = stated(ctx, pair, spelled)
        datasets.append(dataset_table(ctx, kind, xx, cols, stype, unit, rii))
        rmat = rmat_of(kind, xx, cols, pair)
        what = kind
    elif layout in ('model', 'eps_model', 'model+k'):
        names = tuple(ref.MODELS_EPS) if layout == 'eps_model' else \
            tuple(ref.MODELS_N)
        name = ctx.choice(names)
        par, vrange = gen.model_parameters(ctx, name)
        mpair = gen.model_pair(name)
        spelled = gen.spell(ctx, mpair)
        pair = mpair
        if layout == 'model+k':
            # states its unit or takes the caller's (micrometre)
            k_pair, k_spelled = pick_pair(ctx)
            window = (vrange[0]*1e-6*0.9, vrange[1]*1e-6*1.05)
            num = ctx.choice([2, 5, 40])
            xx = gen.table_x(ctx, k_pair, num, window, tidy=False)
            yy = gen.column(ctx, 'k', num)
            same = k_pair == mpair and ctx.chance(0.7)
            datasets.append(dataset_table(
                ctx, 'k', xx, [yy], None if same else k_spelled[0],
                None if same else k_spelled[1], rii))
            in_file = ctx.chance(0.5)
            kw = {} if in_file and not same else {
                'spectrum_type': spelled[0], 'unit': spelled[1]}
            datasets.append(dataset_model(
                ctx, name, par, vrange, spelled[0] if in_file else None,
                spelled[1] if in_file else None, rii))
            rmat = ref.RefMaterial('nk', ref.RefModel(name, par, vrange),
                                   ref.RefTable(xx, yy, k_pair))
            pair = None
            ctx.count('two data sets loaded')
        else:
            stype, unit, kw = stated(ctx, mpair, spelled)
            datasets.append(dataset_model(ctx, name, par, vrange, stype,
                                          unit, rii))
            part = ref.RefModel(name, par, vrange)
            rmat = ref.RefMaterial('nk', part) if name in ref.MODELS_N \
                else ref.RefMaterial('eps', cplx=part)
        ctx.count('formulas loaded')
        what = name
    else:
        window = gen.lam_window(ctx, decades=0.5)
        parts = {}
        caller = gen.any_pair(ctx)
        cspelled = gen.spell(ctx, caller)
        kw = {'spectrum_type': cspelled[0], 'unit': cspelled[1]}
        for kind, win in (('n', window), ('k', (window[0]*0.9,
                                                 window[1]*0.95))):
            from_caller = ctx.chance(0.4)
            tpair = caller if from_caller else gen.any_pair(ctx)
            spelled = gen.spell(ctx, tpair)
            num = ctx.choice([2, 5, 30])
            xx = gen.table_x(ctx, tpair, num, win, tidy=False)
            yy = gen.column(ctx, kind, num)
            datasets.append(dataset_table(
                ctx, kind, xx, [yy], None if from_caller else spelled[0],
                None if from_caller else spelled[1], rii))
            parts[kind] = ref.RefTable(xx, yy, tpair)
        rmat = ref.RefMaterial('nk', parts['n'], parts['k'])
        ctx.count('two data sets loaded')
        what = 'n+k'
    if len(datasets) == 2 and ctx.chance(0.5):
        datasets = datasets[::-1]
    text = render(ctx, meta, comments, spec, datasets)
    path = os.path.join(ctx.tmpdir(), 'file.yml')
    save(ctx, path, text)
    info = {'layout': layout, 'rii': rii, 'what': what}
    ctx.describe(text=text[:1500], kw=kw, **info)
    mat = ctx.accepts(lambda: Material(file_path=path, **kw), "loading a "
                      "documented YAML file", text=text[:1500], kw=kw, **info)
    ctx.count('yaml files loaded')
    verify_data(ctx, mat, rmat, info)
    verify_range(ctx, mat, rmat, pair, info)
    verify_meta(ctx, mat, meta, "\n".join(comments), spec, info)
    ctx.sig(layout, rii, what, str(pair), len(meta), bool(comments),
            bool(spec), tuple(sorted(kw)))


def case_rewritten(ctx):
    """a file that is replaced is loaded anew, however alike it looks"""
    ext = ctx.choice(['.txt', '.csv', '.nk', '.yml'])
    path = os.path.join(ctx.tmpdir(), 'same' + ext)
    sep = ',' if ext == '.csv' else ' '
    xx = [400 + 10*i for i in range(ctx.randint(2, 6))]
    times = []
    ctx.describe(ext=ext, rows=len(xx))
    held = []
    for step in range(ctx.randint(2, 5)):
        yy = [ctx.randint(100, 399) for _ in xx]
        name = 'sample %d' % ctx.randint(10, 99)
        rows = "\n".join('%d%s%d.%02d' % (x, sep, y//100, y % 100)
                         for x, y in zip(xx, yy))
        if ext == '.yml':
            text = "NAME: %s\nDATA:\n  - DataType: tabulated n\n    Data: " \
                "|\n%s\n" % (name, "\n".join(
                    '        ' + r for r in rows.split("\n")))
        else:
            char = ';' if ext == '.nk' else '#'
            text = "%s Name: %s\n%s\n" % (char, name, rows)
        mode = ctx.choice(['rewrite', 'replace', 'same time'])
        if mode == 'replace':
            with open(path + '~', 'w') as fpt:
                fpt.write(text)
            os.replace(path + '~', path)
        else:
            with open(path, 'w') as fpt:
                fpt.write(text)
        if mode == 'same time':
            os.utime(path, (1e9, 1e9))
        times.append(mode)
        mat = ctx.accepts(lambda: Material(
            file_path=path, spectrum_type='wavelength', unit='nm'),
            "loading", ext=ext)
        want = np.array(yy)/100
        held.append((mat, want, name))
        for one, values, label in held:
            ctx.close(one.get_nk_data(np.array(xx, dtype=float), 'wavelength',
                                      'nm'), values + 0j, "the material does "
                      "not have the data of the file when it was loaded",
                      rtol=1e-9, counter='replaced files compared', ext=ext,
                      times=times)
            ctx.check(one.meta_data['Name'].strip() == label, "the material "
                      "does not have the metadata of the file when it was "
                      "loaded", 'replaced files compared', ext=ext,
                      got=one.meta_data['Name'], want=label)
    ctx.sig('rewritten', ext, tuple(times), len(xx))


SCENARIOS = {
    'rewritten': {'case': case_rewritten, 'quick': 400, 'thorough': 6000},
    'text': {'case': case_text, 'quick': 4000, 'thorough': 80000},
    'yaml': {'case': case_yaml, 'quick': 4000, 'thorough': 80000},
}
