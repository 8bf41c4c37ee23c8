"""C26 material equality is a total, symmetric comparison"""
import copy
import os
import numpy as np
from dispersion import Material, Spectrum, Writer
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
from .. import gen, ref, tree as trees, words

PROP = 'C26'
RULE = ("a case is a pool of materials created in different ways (fixed, "
        "tables, models, files, effective media; with equal, differing, "
        "missing and hostile metadata, specifications included) and other "
        "objects; all ordered pairs are compared and judged by the recorded "
        "metadata and representation; distinct by the kinds and the field "
        "that differs")
ASSUMPTIONS = []
REQUIRED = ['pairs compared', 'equal pairs', 'unequal pairs',
            'differing in one field', 'differing in representation',
            'reflexive', 'reloaded copies', 'other objects',
            'inequality operator', 'file and code compared',
            'specifications differ', 'own fields differ', 'effective media compared',
            'membership tests', 'order of the fields',
            'comparison leaves metadata']

FIELDS = ('Reference', 'Author', 'Name', 'FullName', 'Comment',
          'MetaComment', 'Alias')


class Other:
    def __eq__(self, other):
        return NotImplemented

    __hash__ = None


class LooksAlike:
    """same attributes, but not a material"""

    def __init__(self, mat):
        self.meta_data = mat.meta_data
        self.data = mat.data


def meta_of(mat):
    return {k: copy.deepcopy(v) for k, v in mat.meta_data.items()}


def expected(one, two):
    return dict(one.meta_data) == dict(two.meta_data) and \
        one.data['name'] == two.data['name']


def some_material(ctx):
    """returns material, origin"""
    mode = ctx.randint(0, 5)
    if mode == 0:
        rel = 'f%d.yml' % ctx.randint(0, 3)
        file = trees.yaml_file(ctx, rel)
        file.write(ctx.tmpdir())
        return Material(file_path=os.path.join(ctx.tmpdir(), rel)), 'file'
    if mode == 1:
        rel = 'f%d%s' % (ctx.randint(0, 3), ctx.choice(['.txt', '.csv']))
        file = trees.text_file(ctx, rel)
        file.write(ctx.tmpdir())
        return Material(file_path=os.path.join(ctx.tmpdir(), rel)), 'file'
    if mode == 2:
        one = Material(fixed_n=1.5)
        two = Material(fixed_n=2.5)
        kind = ctx.choice([Simple, MaxwellGarnett, Bruggeman])
        spec = Spectrum(np.array([500., 600.]), 'wavelength', 'nm')
        return kind(spec, one, two, 0.3), "medium"
    return gen.make_material(ctx, small=True)[0], 'code'


def decorate(ctx, mat):
    for f in FIELDS[:5]:
        if ctx.chance(0.3):
            mat.meta_data[f] = words.line(ctx)
    if ctx.chance(0.3):
        mat.meta_data['MetaComment'] = words.lines(ctx)
    if ctx.chance(0.3):
        mat.meta_data['Specification'] = words.specification(ctx)


def compare(ctx, one, two, want, info):
    before = meta_of(one), meta_of(two)
    results = []
    for left, right in ((one, two), (two, one)):
        got = ctx.accepts(lambda: left == right, "comparing", **info)
        ctx.check(isinstance(got, (bool, np.bool_)) and bool(got) == want,
                  "equality is not that of metadata and representation",
                  'pairs compared', got=got, want=want, **info)
        differ = ctx.accepts(lambda: left != right, "comparing", **info)
        ctx.check(bool(differ) == (not want), "inequality is not the "
                  "opposite of equality", 'inequality operator', got=differ,
                  **info)
        results.append(bool(got))
    ctx.check((meta_of(one), meta_of(two)) == before, "comparing changed "
              "metadata", 'comparison leaves metadata', **info)
    ctx.count('equal pairs' if want else 'unequal pairs')


def case_pool(ctx):
    pool = []
    for _ in range(ctx.randint(2, 4)):
        mat, origin = some_material(ctx)
        if ctx.chance(0.6):
            decorate(ctx, mat)
        pool.append((mat, origin))
        if ctx.chance(0.5):
            # a second one with the same metadata
            other, origin2 = some_material(ctx)
            for key in list(other.meta_data):
                del other.meta_data[key]
            other.meta_data.update(copy.deepcopy(dict(mat.meta_data)))
            pool.append((other, origin2))
    for num, (one, org1) in enumerate(pool):
        ctx.check((one == one) is True or bool(one == one), "a material "
                  "differs from itself", 'reflexive', origin=org1)
        for two, org2 in pool[num + 1:]:
            want = expected(one, two)
            compare(ctx, one, two, want, {'origins': (org1, org2)})
            if 'file' in (org1, org2) and org1 != org2:
                ctx.count('file and code compared')
            if 'medium' in (org1, org2):
                ctx.count('effective media compared')
            ctx.sig(org1, org2, want, one.data['name'], two.data['name'])
        mats = [m for m, _ in pool]
        ctx.check(one in mats and ctx.accepts(
            lambda: mats.index(one), "searching") <= num,
            "a material is not found in a list that holds it",
            'membership tests')
    ctx.describe(origins=[o for _, o in pool])


def changed(ctx, value):
    """another text"""
    while True:
        other = words.line(ctx)
        if ctx.chance(0.3) and isinstance(value, str):
            other = ctx.choice([value + ' ', value + 'x', value.upper(),
                                ' ' + value, value[:-1], None])
        if other != value:
            return other


def case_field(ctx):
    """same source twice, one field changed"""
    state = ctx.rng.bit_generator.state
    one, origin = some_material(ctx)
    ctx.rng.bit_generator.state = state
    two, _ = some_material(ctx)
    state = ctx.rng.bit_generator.state
    decorate(ctx, one)
    ctx.rng.bit_generator.state = state
    decorate(ctx, two)
    info = {'origin': origin}
    compare(ctx, one, two, True, info)
    # the order in which fields were set does not matter
    items = list(two.meta_data.items())
    items = [items[i] for i in ctx.rng.permutation(len(items))]
    spec = two.meta_data.get('Specification')
    two.meta_data = dict(items)
    if isinstance(spec, dict):
        two.meta_data['Specification'] = dict(reversed(list(spec.items())))
    compare(ctx, one, two, True, info)
    ctx.count('order of the fields')
    field = ctx.choice(FIELDS + ('Specification', 'representation',
                                 'own field'))
    info['field'] = field
    ctx.describe(**info)
    if field == 'representation':
        # same metadata, permittivity instead of refractive index
        if one.data['name'] == 'nk':
            other = Material(fixed_eps=2 + 1j)
        else:
            other = Material(fixed_nk=2 + 1j)
        for key in list(other.meta_data):
            del other.meta_data[key]
        other.meta_data.update(copy.deepcopy(dict(one.meta_data)))
        if ctx.chance(0.3):
            # they share their metadata
            other.meta_data = one.meta_data
        two = other
        ctx.count('differing in representation')
    elif field == 'own field':
        # a field of the user, there or not, equal or not
        key = ctx.choice(['Thickness', 'Batch number', 'x', 'comment'])
        two.meta_data[key] = ctx.choice(['', 'ü', 17, 2.5, False])
        if ctx.chance(0.4):
            one.meta_data[key] = copy.deepcopy(two.meta_data[key])
            compare(ctx, one, two, True, info)
            one.meta_data[key] = ctx.choice(['another', None, 3j])
            if ctx.chance(0.4) and two.meta_data[key] != '':
                # a number and its text, a text and its repr
                one.meta_data[key] = ctx.choice([str, repr])(
                    two.meta_data[key])
                if one.meta_data[key] == two.meta_data[key]:
                    one.meta_data[key] += '0'
        elif ctx.chance(0.5):
            one.meta_data[key + '2'] = two.meta_data[key]
        ctx.count('own fields differ')
    elif field == 'Specification':
        spec = dict(two.meta_data.get('Specification') or {})
        spec[ctx.choice(['n_absolute', 'x', 'temperature'])] = ctx.choice(
            [True, 'another', 77.5, None])
        if spec == dict(one.meta_data.get('Specification') or {}):
            spec['more'] = 1
        two.meta_data['Specification'] = spec
        ctx.count('specifications differ')
    else:
        two.meta_data[field] = changed(ctx, two.meta_data.get(field))
        ctx.count('differing in one field')
    compare(ctx, one, two, False, info)
    ctx.sig(origin, field, one.data['name'])


def case_reload(ctx):
    """a file loaded again is equal, before and after a write/read cycle"""
    ext = ctx.choice(['.txt', '.csv', '.yml', '.yml'])
    rel = 'file' + ext
    file = trees.yaml_file(ctx, rel) if ext == '.yml' else \
        trees.text_file(ctx, rel)
    file.write(ctx.tmpdir())
    path = os.path.join(ctx.tmpdir(), rel)
    kw = {}
    if ctx.chance(0.3) and file.pair:
        kw = {'spectrum_type': file.pair[0], 'unit': file.pair[1]}
    one = Material(file_path=path)
    two = Material(file_path=path, **kw)
    info = {'ext': ext, 'origin': 'file'}
    compare(ctx, one, two, True, info)
    ctx.count('reloaded copies')
    low, high = file.rmat.range_m()
    if low*1.001 < high:
        # using one of them does not change that
        one.get_nk_data(gen.inside(ctx, file.rmat, 3))
        one.get_maximum_valid_range()
        compare(ctx, one, two, True, info)
    decorate(ctx, one)
    compare(ctx, one, two, expected(one, two), info)
    ctx.describe(**info)
    ctx.sig(ext, len(file.meta), bool(kw))


def case_other(ctx):
    mat, origin = some_material(ctx)
    others = [None, 0, 1.5, 'nk', mat.meta_data, mat.data, [mat], (mat,),
              object(), Other(), LooksAlike(mat), Material, {'name': 'nk'},
              Spectrum(500.0, 'wavelength', 'nm'), mat.get_nk_data,
              float('nan'), set(), b'', True, Ellipsis]
    for other in others:
        info = {'other': repr(other)[:60], 'origin': origin}
        for left, right in ((mat, other), (other, mat)):
            got = ctx.accepts(lambda: left == right, "comparing with another "
                              "object", **info)
            ctx.check(not got, "a material equals an object that is not a "
                      "material", 'other objects', **info)
            ctx.check(bool(ctx.accepts(lambda: left != right, "comparing",
                                       **info)), "inequality is not the "
                      "opposite of equality", 'inequality operator', **info)
    ctx.describe(origin=origin)
    ctx.sig(origin, mat.data['name'])


SCENARIOS = {
    'pool': {'case': case_pool, 'quick': 960, 'thorough': 16000},
    'field': {'case': case_field, 'quick': 1600, 'thorough': 24000},
    'reload': {'case': case_reload, 'quick': 800, 'thorough': 12000},
    'other': {'case': case_other, 'quick': 320, 'thorough': 4000},
}
