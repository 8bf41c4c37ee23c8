"""C23 configuration is stored, found, defaulted and validated reliably"""
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import yaml
from dispersion import Catalogue, get_config, default_config
from dispersion.config import write_config, read_config, validate_config
from .. import gen, ref, words
from ..core import Inconclusive
from .c19 import BROKEN_YAML

PROP = 'C23'
# what the defaults are before anything is stored
FACTORY = {k: v for k, v in copy.deepcopy(dict(default_config())).items()
           if k != 'Path'}
RULE = ("a case is a home directory in some state (missing, empty, with a "
        "configuration, read and written several times) observed in this or "
        "in a fresh process, or a configuration that is valid except for at "
        "most one field, checked with a snapshot of all files around the "
        "check; distinct by state, field and kind of value")
ASSUMPTIONS = ["the environment variable HOME is set",
               "valid enabled modules are those of the package"]
REQUIRED = ['configurations read back', 'rewritten configurations',
            'defaults returned', 'fresh process imports', 'valid accepted',
            'invalid path refused', 'invalid file name refused',
            'invalid switch refused', 'invalid module switch refused',
            'invalid reference refused', 'snapshots compared',
            'catalogues opened', 'packaged configuration observed',
            'user configuration preferred', 'missing key refused',
            'other users unaffected', 'malformed files',
            'changed by the caller', 'blank values stored']


def snapshot(*roots):
    out = {}
    for root in roots:
        for path, dirs, files in os.walk(root):
            for name in dirs:
                out[os.path.join(path, name)] = 'dir'
            for name in files:
                full = os.path.join(path, name)
                with open(full, 'rb') as fpt:
                    out[full] = fpt.read()
    return out


def valid_config(ctx, path):
    pair = gen.any_pair(ctx)
    spelled = gen.spell(ctx, pair)
    modules = {}
    for name in ('UserData', 'RefractiveIndexInfo', 'Filmetrics'):
        if ctx.chance(0.6):
            modules[name] = ctx.chance(0.5)
    value = float(ref.from_metre(pair, 10**ctx.rng.uniform(-7, -5)))
    return {'Path': path,
            'File': ctx.choice(['catalogue.csv', 'x', 'a b.csv', 'ü.csv',
                                '.hidden', 'a.b.c', '-x', 'a'*255, 'yes',
                                '~', '#x', 'a:b', 'C:x', 'a\\b', '..a',
                                'x..', '123', 'a*?', '"q"', "it's.csv"]),
            'Interactive': ctx.chance(0.5),
            'WarnMissingPackages': ctx.chance(0.5), 'Modules': modules,
            'ReferenceSpectrum': {'Value': value, 'SpectrumType': spelled[0],
                                  'Unit': spelled[1]}}


DIRS = ('db', 'my data', 'ünï', 'a#b', 'a: b', "it's", 'x%y', '~', 'yes',
        '- a', '{x}', '日本', '"q"', 'tab\there', 'a\\b', 'null')


# --------------------------------------------------------------------------
def case_store(ctx):
    base = ctx.tmpdir()
    home = os.path.join(base, ctx.choice(DIRS))
    user_dir = os.path.join(home, '.config', 'dispersion')
    state = ctx.choice(['no home', 'empty home', 'config dir', 'user dir'])
    make = {'no home': None, 'empty home': home,
            'config dir': os.path.join(home, '.config'),
            'user dir': user_dir}[state]
    if make:
        os.makedirs(make)
    saved = os.environ['HOME']
    os.environ['HOME'] = home
    ctx.describe(home=home, state=state)
    trace = []
    try:
        want = None
        for _ in range(ctx.randint(1, 8)):
            oper = ctx.choice(['get', 'get', 'write', 'default', 'other'])
            trace.append(oper)
            if oper == 'get':
                got = ctx.accepts(get_config, "getting the configuration",
                                  state=state)
                if want is None:
                    ctx.check(got == default_config(), "without a "
                              "configuration the defaults are not returned",
                              'defaults returned', got=got)
                    ctx.check(os.path.realpath(got['Path']) ==
                              os.path.realpath(user_dir), "default path is "
                              "not the user's configuration directory",
                              got=got['Path'], want=user_dir)
                    ctx.accepts(lambda: validate_config(got), "validating "
                                "the defaults")
                else:
                    ctx.check(dict(got) == want, "configuration is not read "
                              "back unchanged", 'configurations read back',
                              got=got, want=want)
                    ctx.check(dict(read_config()) == want, "read_config "
                              "differs", 'configurations read back')
                if ctx.chance(0.4):
                    # what the caller does with it is not stored
                    got['File'] = 'changed by the caller'
                    got['Modules'] = {'UserData': 'changed'}
                    got.pop('Path', None)
                    ctx.count('changed by the caller')
            elif oper == 'default':
                got = ctx.accepts(default_config, "default configuration")
                ctx.check({k: v for k, v in got.items() if k != 'Path'} ==
                          FACTORY, "defaults changed", got=got,
                          want=FACTORY, trace=trace)
                ctx.check(os.path.realpath(got['Path']) ==
                          os.path.realpath(user_dir), "default path is not "
                          "the user's configuration directory",
                          'defaults returned', got=got['Path'])
                ctx.check(isinstance(got['ReferenceSpectrum']['Value'],
                                     float) and 'UserData' in got['Modules'],
                          "defaults are incomplete", got=got)
            elif oper == 'other':
                # another user sees nothing of it
                os.environ['HOME'] = os.path.join(base, 'other user')
                got = get_config()
                os.environ['HOME'] = home
                ctx.check(os.path.realpath(got['Path']) == os.path.realpath(
                    os.path.join(base, 'other user', '.config',
                                 'dispersion')), "configuration of another "
                    "user", 'other users unaffected', got=got['Path'])
            else:
                path = os.path.join(base, ctx.choice(DIRS))
                conf = valid_config(ctx, path)
                if ctx.chance(0.15):
                    # incomplete ones are stored as they are
                    conf = {k: v for k, v in conf.items()
                            if k == 'File' or ctx.chance(0.3)}
                elif ctx.chance(0.5):
                    conf['Path'] = ctx.choice(DIRS) + words.line(ctx).strip()
                elif ctx.chance(0.5):
                    conf['Path'] = user_dir
                if ctx.chance(0.1):
                    # stored as they are, though not valid
                    conf[ctx.choice(['Path', 'File', 'Modules', 'Other'])] = \
                        ctx.choice(['', None, 0, False, {}, [], ' '])
                    ctx.count('blank values stored')
                if 'ReferenceSpectrum' in conf and ctx.chance(0.3):
                    # a value that comes out of a calculation
                    spec = conf['ReferenceSpectrum']
                    spec['Value'] = np.float64(spec['Value'])
                    ctx.count('calculated values stored')
                keep = copy.deepcopy(conf)
                os.makedirs(user_dir, exist_ok=True)
                if want is not None and ctx.chance(0.5):
                    ctx.accepts(lambda: write_config(conf), "writing the "
                                "configuration")
                    ctx.count('rewritten configurations')
                else:
                    ctx.accepts(lambda: write_config(conf,
                                                     dir_path=user_dir),
                                "writing the configuration")
                ctx.check(conf == keep, "writing changed the configuration")
                want = keep
    finally:
        os.environ['HOME'] = saved
    ctx.sig(state, tuple(trace), os.path.basename(home))


def case_malformed(ctx):
    """a stored configuration that is not valid YAML is not used"""
    base = ctx.tmpdir()
    user_dir = os.path.join(base, '.config', 'dispersion')
    os.makedirs(user_dir)
    conf = valid_config(ctx, base)
    good = yaml.safe_dump(conf)
    broken = ctx.choice(BROKEN_YAML)
    pad = ''
    if ctx.chance(0.8):
        size = ctx.choice([0, 4096, 8192, 16384, ctx.randint(1, 9000)])
        if size > len(broken) + 3:
            pad = '#'*(size - len(broken) - 2) + '\n'
        text = broken + '\n' + pad + good
    else:
        text = good + broken + '\n'
    try:
        yaml.safe_load(text)
        return
    except yaml.YAMLError:
        pass
    path = os.path.join(user_dir, 'config.yaml')
    with open(path, 'w', encoding='utf-8') as fpt:
        fpt.write(text)
    saved = os.environ['HOME']
    os.environ['HOME'] = base
    ctx.describe(broken=broken, size=len(pad))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                got = get_config()
            except Exception:
                got = None
            ctx.check(got is None or dict(got) == default_config(), "a "
                      "configuration was read from a malformed file",
                      'malformed files', got=got)
    finally:
        os.environ['HOME'] = saved
    with open(path, encoding='utf-8') as fpt:
        ctx.check(fpt.read() == text, "reading changed the file",
                  'malformed files')
    ctx.sig('malformed', broken, len(pad))


# --------------------------------------------------------------------------
def accepts_both(ctx, conf, info):
    ctx.accepts(lambda: validate_config(conf), "valid configuration", **info)
    ctx.count('valid accepted')
    if not conf['Interactive']:
        one = copy.deepcopy(conf)
        one['Modules'] = {k: False for k in conf['Modules']}
        cat = ctx.accepts(lambda: Catalogue(config=one, rebuild='All'),
                          "catalogue with a valid configuration", **info)
        ctx.check(len(cat.get_database()) == 0, "catalogue without modules "
                  "is not empty", 'catalogues opened', **info)


def refuses(ctx, conf, counter, info, only_catalogue=False):
    if not only_catalogue:
        ctx.raises(Exception, lambda: validate_config(conf), "invalid "
                   "configuration", counter, **info)
    one = copy.deepcopy(conf)
    if isinstance(one.get('Modules'), dict):
        if all(isinstance(v, bool) for v in one['Modules'].values()):
            one['Modules'] = {k: False for k in one['Modules']}
    if one.get('Interactive') is True:
        one['Interactive'] = False
    ctx.raises(Exception, lambda: Catalogue(config=one, rebuild='All'),
               "catalogue with an invalid configuration", counter, **info)


NOT_BOOL = (0, 1, 'true', 'False', None, 'yes', 1.0, [], [True], {}, 'y')
NOT_TEXT = (None, 1, 1.5, True, b'x', ['wavelength'], {'a': 1})
NOT_FLOAT = (632, '632.8', None, [632.8], True, 1j, {'Value': 1.0}, '1e-6',
             'six')


def case_validate(ctx):
    base = os.path.realpath(ctx.tmpdir())
    path = os.path.join(base, ctx.choice(DIRS))
    os.makedirs(path)
    cwd = os.path.join(base, 'cwd')
    os.makedirs(cwd)
    victim = os.path.join(base, 'victim.csv')
    conf = valid_config(ctx, path)
    inner = os.path.join(path, conf['File'])
    for name in (victim, os.path.join(cwd, 'catalogue.csv'), inner):
        if name is not inner or ctx.chance(0.6):
            with open(name, 'w') as fpt:
                fpt.write("precious\n")
    field = ('valid', 'path', 'file', 'switch', 'module', 'reference',
             'missing')[ctx.idx % 7]
    case = copy.deepcopy(conf)
    what, only_catalogue = None, False
    if field == 'path':
        what = ctx.choice(['nowhere', '', victim, 'relative/none',
                           os.path.join(path, 'sub'), None, 5, True, b'x',
                           path + '\0'])
        case['Path'] = what
    elif field == 'file':
        what = ctx.choice(['', 'a/b.csv', victim, '../victim.csv',
                           '../cwd/catalogue.csv', 'sub/', '/', '.', '..',
                           'x\0y', 'a'*256, 'ü'*128, './catalogue.csv',
                           'a/../b', None, 5, True, b'x', ['x'],
                           '../' + os.path.basename(path) + '/new.csv'])
        case['File'] = what
    elif field == 'switch':
        what = (ctx.choice(['Interactive', 'WarnMissingPackages']),
                ctx.choice(NOT_BOOL))
        case[what[0]] = what[1]
    elif field == 'module':
        what = (ctx.choice(['UserData', 'RefractiveIndexInfo', 'Filmetrics']),
                ctx.choice(NOT_BOOL))
        order = list(case['Modules'].items())
        for num in range(ctx.choice([0, 0, 1, 4])):
            order.append(('Module%d' % num, False))
        order = [order[i] for i in ctx.rng.permutation(len(order))]
        order.insert(ctx.randint(0, len(order)), what)
        case['Modules'] = dict(order)
        case['Modules'][what[0]] = what[1]
    elif field == 'reference':
        key = ctx.choice(['Value', 'Value', 'SpectrumType', 'Unit', 'pair'])
        spec = case['ReferenceSpectrum']
        if key == 'Value':
            what = ctx.choice(NOT_FLOAT)
            spec['Value'] = what
        elif key == 'pair':
            # texts, but no quantity and unit that belong together
            only_catalogue = True
            what = ctx.choice([('wavelength', 'eV'), ('energy', 'nm'),
                               ('colour', 'nm'), ('wavelength', 'inch'),
                               ('frequency', '1/s'), ('', ''),
                               ('wavenumber', '1/s')])
            spec['SpectrumType'], spec['Unit'] = what
        else:
            what = ctx.choice(NOT_TEXT)
            spec[key] = what
        what = (key, what)
    elif field == 'missing':
        what = ctx.choice(['Path', 'File', 'Interactive',
                           'WarnMissingPackages', 'Modules',
                           'ReferenceSpectrum', 'Value', 'SpectrumType',
                           'Unit'])
        if what in case:
            del case[what]
        else:
            del case['ReferenceSpectrum'][what]
    info = {'field': field, 'what': what, 'file': conf['File']}
    ctx.describe(config=case, **info)
    before = snapshot(base)
    temp = sorted(os.listdir(tempfile.gettempdir()))
    keep = copy.deepcopy(case)
    saved_cwd = os.getcwd()
    os.chdir(cwd)
    try:
        if field == 'valid':
            accepts_both(ctx, case, info)
        else:
            counter = {'path': 'invalid path refused',
                       'file': 'invalid file name refused',
                       'switch': 'invalid switch refused',
                       'module': 'invalid module switch refused',
                       'reference': 'invalid reference refused',
                       'missing': 'missing key refused'}[field]
            refuses(ctx, case, counter, info, only_catalogue)
    finally:
        os.chdir(saved_cwd)
    after = snapshot(base)
    diff = {k for k in set(before) | set(after)
            if before.get(k) != after.get(k)}
    ctx.check(not diff, "checking a configuration created, changed or "
              "deleted files", 'snapshots compared', files=sorted(diff),
              **info)
    ctx.check(sorted(os.listdir(tempfile.gettempdir())) == temp, "checking a "
              "configuration left files in the temporary directory",
              'snapshots compared', **info)
    ctx.check(case == keep, "checking changed the configuration", **info)
    ctx.sig(field, repr(what), conf['File'])


# --------------------------------------------------------------------------
SCRIPT = """
import json, os, sys, warnings
warnings.simplefilter('ignore')
import dispersion
from dispersion import get_config, default_config
from dispersion.config import validate_config
conf = get_config()
default = default_config()
ok = True
try:
    validate_config(default)
except Exception as exc:
    ok = repr(exc)
json.dump({'file': dispersion.__file__, 'config': conf, 'default': default,
           'valid': ok}, sys.stdout)
"""


def fresh(ctx, src, home):
    env = dict(os.environ, HOME=home, PYTHONPATH=src,
               PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    done = subprocess.run([sys.executable, '-c', SCRIPT], env=env,
                          capture_output=True, timeout=200,
                          cwd=ctx.tmpdir())
    if done.returncode < 0:
        raise Inconclusive('fresh process was ended by signal {}'.format(
            -done.returncode))
    return done


def case_fresh(ctx):
    """import in a fresh process, package taken from a scratch copy so that
    a packaged configuration can be put next to it"""
    import dispersion
    base = os.path.realpath(ctx.tmpdir())
    src = os.path.dirname(os.path.dirname(os.path.realpath(
        dispersion.__file__)))
    state = ('no home', 'empty home', 'config dir', 'user dir', 'user config',
             'packaged', 'packaged and user', 'no home')[ctx.idx % 8]
    home = os.path.join(base, ctx.choice(DIRS))
    user_dir = os.path.join(home, '.config', 'dispersion')
    copy_src = os.path.join(base, 'src')
    shutil.copytree(os.path.join(src, 'dispersion'),
                    os.path.join(copy_src, 'dispersion'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    import yaml
    packaged = valid_config(ctx, base)
    user = valid_config(ctx, base)
    user['File'] = 'user.csv'
    if state == 'empty home':
        os.makedirs(home)
    elif state == 'config dir':
        os.makedirs(os.path.dirname(user_dir))
    elif state == 'user dir' or 'user' in state:
        os.makedirs(user_dir)
    want = None
    if 'packaged' in state:
        with open(os.path.join(copy_src, 'dispersion', 'config.yaml'), 'w',
                  encoding='utf-8') as fpt:
            yaml.safe_dump(packaged, fpt, allow_unicode=True)
        want = packaged
    if state in ('user config', 'packaged and user'):
        with open(os.path.join(user_dir, 'config.yaml'), 'w',
                  encoding='utf-8') as fpt:
            yaml.safe_dump(user, fpt, allow_unicode=True)
        want = user
    info = {'state': state, 'home': home}
    ctx.describe(**info)
    done = fresh(ctx, copy_src, home)
    ctx.check(done.returncode == 0, "importing the package or getting the "
              "configuration failed in a fresh process",
              'fresh process imports', stderr=done.stderr[-1500:].decode(
                  'utf-8', 'replace'), **info)
    out = json.loads(done.stdout.decode('utf-8'))
    if not out['file'].startswith(copy_src):
        raise Inconclusive('imported from ' + out['file'])
    if want is None:
        ctx.check(out['config'] == out['default'], "defaults not returned",
                  **info)
    else:
        ctx.check(out['config'] == want, "configuration that has precedence "
                  "was not returned",
                  'user configuration preferred' if want is user else
                  'packaged configuration observed', got=out['config'],
                  want=want, **info)
    ctx.check(os.path.realpath(out['default']['Path']) == user_dir,
              "default path is not the user's configuration directory",
              got=out['default']['Path'], want=user_dir, **info)
    ctx.check(out['valid'] is True, "defaults are not valid for a catalogue",
              got=out['valid'], **info)
    ctx.sig(state, os.path.basename(home))


SCENARIOS = {
    'store': {'case': case_store, 'quick': 800, 'thorough': 20000},
    'validate': {'case': case_validate, 'quick': 2800, 'thorough': 40000},
    'malformed': {'case': case_malformed, 'quick': 300, 'thorough': 4000},
    'fresh': {'case': case_fresh, 'quick': 16, 'thorough': 240},
}
