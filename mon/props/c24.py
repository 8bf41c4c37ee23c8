"""C24 the setup dialogue leaves a working database"""
import builtins
import os
import sys
import types
import warnings
import numpy as np
import yaml
from dispersion import Material, Spectrum, default_config, get_config
from dispersion import rebuild_catalogue
from dispersion.scripts import setup_dispersion, catalogue_rebuild
from .. import gen, tree as trees
from ..core import Violation
from .c20 import build, text, key_of
from .c21 import snapshot as rows_of, canonical_rows, compare
from .c23 import snapshot, DIRS

PROP = 'C24'
RULE = ("a case is a run of the setup or of the rebuild dialogue against a "
        "scripted user (defaults, absolute and relative paths, valid and "
        "invalid names, refused confirmations, senseless answers, declined "
        "modules, an end of input at any prompt) on a home and a database "
        "directory in some state; prompts and files are recorded and compared "
        "with what was confirmed; distinct by the sequence of answers")
ASSUMPTIONS = ["git is replaced by a stand-in that creates a library or "
               "fails (there is no network)", "an installed library is listed in library.yml "
               "or catalog-nk.yml"]
REQUIRED = ['dialogues completed', 'example ranges compared',
            'rebuild offered', 'configurations compared',
            'invalid answers repeated', 'refused confirmations',
            'default answers', 'module declined', 'module unavailable',
            'module downloaded', 'module present', 'download failed', 'example files loaded',
            'example values compared', 'catalogues listed',
            'rebuild declined', 'aborted dialogues', 'old example files', 'rebuild after y',
            'rebuild after n', 'rebuild aborted', 'own files kept']


class EndOfInput(EOFError):
    """the user closes the terminal"""


class User:
    """answers prompts, records what was confirmed"""

    def __init__(self, ctx, root, tree_dirs, abort_at=None):
        self.ctx = ctx
        self.root = root
        self.trace = []
        self.pending = None
        self.confirmed = {}
        self.answers = {}
        self.abort_at = abort_at
        self.patience = ctx.choice([0, 0, 2, 5])    # senseless answers left
        self.tree_dirs = tree_dirs
        self.modules = {}

    @staticmethod
    def kind(prompt):
        prompt = prompt.lower()
        if 'confirm' in prompt:
            return 'confirm'
        for word, kind in (('rebuild', 'rebuild'), ('download', 'download'),
                           ('install', 'install'), ('director', 'path'),
                           ('path', 'path'), ('name', 'name')):
            if word in prompt:
                return kind
        return 'unknown'

    def __call__(self, prompt=''):
        kind = self.kind(str(prompt))
        if self.abort_at is not None and len(self.trace) >= self.abort_at:
            self.trace.append((kind, 'EOF'))
            raise EndOfInput()
        if len(self.trace) > 300:
            raise Violation("dialogue does not end", {
                'trace': self.trace[-12:]})
        answer = self.answer(kind)
        self.trace.append((kind, answer))
        return answer

    def answer(self, kind):
        ctx = self.ctx
        if kind in ('path', 'name'):
            if self.pending is not None and self.pending[0] == kind:
                # asked again although the answer was not refused by us
                ctx.check(not self.pending[2], "a valid answer was not "
                          "accepted", 'invalid answers repeated',
                          answer=self.pending[1], trace=self.trace[-6:])
            if self.patience and ctx.chance(0.4):
                self.patience -= 1
                bad = ctx.choice(['relative', './x', '../up', '~', 'a/b']
                                 if kind == 'path' else
                                 ['a/b.csv', '..', '.', 'x\0', '../up.csv',
                                  'a'*300, 'sub/'])
                self.pending = (kind, bad, False)
                return bad
            if kind == 'path':
                good = ctx.choice(['', self.tree_dirs[0], self.tree_dirs[0],
                                   self.tree_dirs[1]])
            else:
                good = ctx.choice(['', 'cat.csv', 'my catalogue.csv',
                                   'ü.csv', 'x'])
            if good == '':
                ctx.count('default answers')
            self.pending = (kind, good, True)
            return good
        if kind == 'confirm':
            if self.patience and ctx.chance(0.3):
                self.patience -= 1
                return ctx.choice(['maybe', '', '1', 'yy', 'ok', '?', 'nope'])
            if self.patience and ctx.chance(0.4):
                self.patience -= 1
                ctx.count('refused confirmations')
                self.pending = None
                return ctx.choice(['n', 'no'])
            self.ctx.check(self.pending is not None and self.pending[2],
                           "an invalid answer is offered for confirmation",
                           'confirmations', pending=self.pending,
                           trace=self.trace[-6:])
            self.confirmed[self.pending[0]] = self.pending[1]
            self.pending = None
            return ctx.choice(['y', 'yes'])
        if self.patience and ctx.chance(0.3):
            self.patience -= 1
            return ctx.choice(['maybe', '', '1', 'yy', 'ok', '?', 'nope'])
        yes = self.answers.setdefault(kind, ctx.chance(0.5))
        return ctx.choice(['y', 'yes']) if yes else ctx.choice(['n', 'no'])


def with_user(user, func):
    """run a dialogue, returns True if the user aborted it"""
    saved = builtins.input
    builtins.input = user
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            func()
    except EndOfInput:
        return True
    finally:
        builtins.input = saved
    return False


class CloneFailed(Exception):
    """what git reports"""


def git_stand_in(ctx, made, broken):
    """a module 'git' whose clone creates a small library, or fails"""
    if broken == 'no package':
        return None
    module = types.ModuleType('git')

    class Repo:
        @staticmethod
        def clone_from(url, to_path, *args, **kwargs):
            made.append(to_path)
            if os.path.isdir(to_path) and os.listdir(to_path):
                raise CloneFailed("destination path is not empty")
            if broken:
                if broken == 'partial':
                    os.makedirs(os.path.join(to_path, '.git'))
                raise CloneFailed("no network")
            base, name = os.path.split(os.path.normpath(to_path))
            tree = trees.Tree(base)
            make_library(ctx, tree, name)
            return Repo()
    module.Repo = Repo
    return module


class Git:
    """puts the stand-in wherever the package may have git from"""

    def __init__(self, ctx, made, broken):
        self.module = git_stand_in(ctx, made, broken)
        self.saved = sys.modules.get('git')
        self.places = []
        for name, module in list(sys.modules.items()):
            if name.split('.')[0] != 'dispersion' or module is None:
                continue
            for attr, value in list(vars(module).items()):
                if attr == 'Repo' or getattr(value, '__name__', '') == 'git':
                    self.places.append((module, attr, value))

    def __enter__(self):
        sys.modules['git'] = self.module
        for module, attr, _ in self.places:
            setattr(module, attr, self.module.Repo if attr == 'Repo' and
                    self.module is not None else self.module)

    def __exit__(self, *args):
        for module, attr, value in self.places:
            setattr(module, attr, value)
        if self.saved is None:
            sys.modules.pop('git', None)
        else:
            sys.modules['git'] = self.saved


LIBRARIES = ('library.yml', 'catalog-nk.yml')


def make_library(ctx, tree, name='RefractiveIndexInfo'):
    root = os.path.join(tree.base, name, 'database')
    os.makedirs(os.path.join(root, 'data', 'main', 'Ag'))
    pages = []
    for num in range(ctx.randint(1, 3)):
        rel = 'main/Ag/Page%d.yml' % num
        trees.yaml_file(ctx, rel, rii=True).write(os.path.join(root, 'data'))
        pages.append({'PAGE': 'Page%d' % num, 'name': 'x', 'data': rel})
    # older and newer versions of the database
    with open(os.path.join(root, ctx.choice(LIBRARIES)), 'w') as fpt:
        yaml.safe_dump([{'SHELF': 'main', 'name': 'MAIN', 'content': [
            {'BOOK': 'Ag', 'name': 'Silver', 'content': pages}]}], fpt)


EXAMPLE_COMMENT = ("This is a multiline meta-comment which provides "
                   "information not in metadata").split()
EXAMPLE_K = np.array([[400., 0.1], [500., 0.05], [600., 0.], [700., 0.]])
EXAMPLE_N = np.array([[400., 1.7], [500., 1.6], [600., 1.5], [700., 1.4]])


def sellmeier(lam_um):
    out = 1.0 + 0*lam_um
    for b, c in ((1.0, 0.05), (2.0, 0.1), (10., 25.)):
        out = out + b*lam_um**2/(lam_um**2 - c**2)
    return np.sqrt(out)


def check_examples(ctx, folder, own):
    names = [n for n in sorted(os.listdir(folder)) if 'example' in n.lower()
             and os.path.join(folder, n) not in own]
    kinds = {os.path.splitext(n)[1] for n in names}
    ctx.check({'.txt', '.yml'} <= kinds, "example files are missing",
              names=names)
    points = np.array([400., 450., 500., 570., 600., 650., 700.])
    spec = Spectrum(points, 'wavelength', 'nm')
    want_k = np.interp(points, EXAMPLE_K[:, 0], EXAMPLE_K[:, 1])
    for name in names:
        path = os.path.join(folder, name)
        mat = ctx.accepts(lambda: Material(file_path=path), "loading an "
                          "example file", name=name)
        ctx.count('example files loaded')
        want_n = np.interp(points, EXAMPLE_N[:, 0], EXAMPLE_N[:, 1]) if \
            name.endswith('.txt') else sellmeier(points*1e-3)
        ctx.close(mat.get_nk_data(spec), want_n + 1j*want_k, "example file "
                  "does not hold its documented data", rtol=1e-8, atol=1e-10,
                  counter='example values compared', name=name)
        for func, low, high in ((mat.get_nk_data, 400., 700.),
                                (mat.get_permittivity, 400., 700.)):
            got = mat.get_maximum_valid_range()
            got = np.sort(Spectrum(np.asarray(got, dtype=float), mat.defaults[
                'spectrum_type'], mat.defaults['unit']).convert_to(
                    'wavelength', 'nm'))
            ctx.close(got, np.array([low, high]), "range of an example file "
                      "is not the documented one", rtol=1e-8,
                      counter='example ranges compared', name=name)
            for bad in (low - 1.0, high + 1.0):
                ctx.raises(ValueError, lambda: func(bad, 'wavelength', 'nm'),
                           "range of an example file",
                           'example ranges compared', name=name, value=bad)
        ctx.check(mat.meta_data['MetaComment'].split() == EXAMPLE_COMMENT,
                  "example file does not hold its documented comment",
                  got=mat.meta_data['MetaComment'], name=name)
        for field, value in (
                ('Reference', "Literature reference to the data"),
                ('Comment', "Any additional information goes here"),
                ('Name', "Short name of the material"),
                ('FullName', "Full name of the material"),
                ('Author', "The author of this data file")):
            ctx.check(mat.meta_data[field].strip() == value, "example file "
                      "does not hold its documented metadata", field=field,
                      got=mat.meta_data[field], name=name)
    return names


def own_names(folder, own):
    """files of the user in the folder, however its path is spelled"""
    real = {os.path.realpath(path) for path in own}
    return {os.path.join(folder, name) for name in os.listdir(folder)
            if os.path.realpath(os.path.join(folder, name)) in real}


def case_setup(ctx):
    base = os.path.realpath(ctx.tmpdir())
    home = os.path.join(base, 'home ' + ctx.choice(DIRS))
    cwd = os.path.join(base, 'cwd')
    os.makedirs(cwd)
    user_dir = os.path.join(home, '.config', 'dispersion')
    roots = [os.path.join(base, 'db', ctx.choice(DIRS)),
             os.path.join(base, 'other root')]
    if ctx.chance(0.15):
        # a link to a directory elsewhere
        os.makedirs(os.path.join(base, 'elsewhere'))
        os.symlink(os.path.join(base, 'elsewhere'), roots[1])
    if ctx.chance(0.15):
        roots[0] = ctx.choice([
            roots[0] + '/', os.path.join(base, '.', 'db', 'x'),
            base + '//db', os.path.join(base, 'cwd', '..', 'db')])
    # some root directories exist already
    own = {}
    for root in roots + [user_dir]:
        if ctx.chance(0.5):
            os.makedirs(root, exist_ok=True)
            if ctx.chance(0.5):
                os.makedirs(os.path.join(root, 'UserData'))
                path = os.path.join(root, 'UserData', ctx.choice([
                    'mine.txt', 'example_of_mine.txt', 'examples.txt',
                    'example_file.old.txt', 'exam.txt']))
                with open(path, 'w') as fpt:
                    fpt.write("400 2.5\n800 2.6\n")
                own[path] = "400 2.5\n800 2.6\n"
                if ctx.chance(0.5):
                    # what an interrupted or older setup left
                    ctx.count('old example files')
                    for name in ('example_file.txt', 'example_file2.yml'):
                        with open(os.path.join(root, 'UserData', name),
                                  'w') as fpt:
                            fpt.write(ctx.choice(['', '400 2.5\n', '# old',
                                                  'DATA:\n']))
            if ctx.chance(0.4):
                state = ctx.choice(['empty', 'database', 'library'])
                tree = trees.Tree(root)
                sub = os.path.join(root, 'RefractiveIndexInfo')
                if state == 'empty':
                    os.makedirs(sub)
                elif state == 'database':
                    os.makedirs(os.path.join(sub, 'database'))
                else:
                    make_library(ctx, tree)
            if ctx.chance(0.4):
                with open(os.path.join(root, 'catalogue.csv'), 'w') as fpt:
                    fpt.write("old\n")
    conf_path = os.path.join(user_dir, 'config.yaml')
    if os.path.isdir(user_dir) and ctx.chance(0.4):
        with open(conf_path, 'w') as fpt:
            fpt.write("File: old.csv\nPath: /nowhere\n")
    abort_at = ctx.randint(0, 8) if ctx.chance(0.25) else None
    user = User(ctx, base, roots, abort_at)
    made = []
    saved_home = os.environ['HOME']
    os.environ['HOME'] = home
    broken = ctx.choice([None, None, 'no network', 'partial', 'no package'])
    git = Git(ctx, made, broken)
    os.chdir(cwd)
    had_library = {r: any(os.path.isfile(os.path.join(
        r, 'RefractiveIndexInfo', 'database', lib)) for lib in LIBRARIES)
        for r in roots + [user_dir]}
    filled = {r for r in had_library if os.path.isdir(os.path.join(
        r, 'RefractiveIndexInfo')) and os.listdir(os.path.join(
            r, 'RefractiveIndexInfo'))}
    before = snapshot(base)
    try:
        with git:
            aborted = with_user(user, setup_dispersion.main)
        ctx.event(*user.trace)
        ctx.describe(trace=user.trace, home=home)
        default = default_config()
        for path, content in own.items():
            kept = os.path.isfile(path)
            if kept:
                with open(path) as fpt:
                    kept = fpt.read() == content
            ctx.check(kept, "setup changed a file of the user",
                      'own files kept', path=path, trace=user.trace)
        # the rest observes the outcome
        if aborted:
            ctx.count('aborted dialogues')
            if len(user.confirmed) < 2:
                after = snapshot(base)
                changed = [k for k in before if after.get(k) != before[k]]
                fresh = [k for k in after if k not in before and
                         after[k] != 'dir']
                ctx.check(not changed and not fresh, "an aborted dialogue "
                          "changed files", files=changed + fresh,
                          trace=user.trace)
            ctx.sig('aborted', tuple(user.trace))
            return
        ctx.count('dialogues completed')
        ctx.check(set(user.confirmed) == {'path', 'name'}, "dialogue ended "
                  "without confirmation", trace=user.trace)
        root = user.confirmed['path'] or default['Path']
        name = user.confirmed['name'] or default['File']
        asked = {k for k, _ in user.trace}
        rii = user.answers.get('install', False)
        clone = rii and user.answers.get('download', False)
        if not rii:
            ctx.count('module declined')
        elif clone:
            failed = broken or root in filled
            if failed:
                # git is not there, or git could not do it
                ctx.count('download failed')
                rii = had_library[root]
            else:
                ctx.count('module downloaded')
            ctx.check(broken == 'no package' or made == [os.path.join(root, 'RefractiveIndexInfo')] or
                      [os.path.realpath(m) for m in made] ==
                      [os.path.realpath(os.path.join(
                          root, 'RefractiveIndexInfo'))],
                      "library was not downloaded into the database",
                      made=made, root=root)
        elif had_library[root]:
            ctx.count('module present')
        else:
            rii = False
            ctx.count('module unavailable')
        if not clone:
            ctx.check(not made, "downloaded without consent", made=made,
                      trace=user.trace)
        want = dict(default)
        want.update(Path=root, File=name, Modules={
            'UserData': True, 'RefractiveIndexInfo': rii})
        with open(conf_path, encoding='utf-8') as fpt:
            stored = yaml.safe_load(fpt)
        ctx.check(stored == want, "stored configuration is not what was "
                  "confirmed", 'configurations compared', got=stored,
                  want=want, trace=user.trace)
        ctx.check(dict(get_config()) == want, "configuration found later is "
                  "not what was confirmed", 'configurations compared')
        folder = os.path.join(root, 'UserData')
        names = check_examples(ctx, folder, own_names(folder, own))
        cat_path = os.path.join(root, name)
        ctx.check(asked & {'rebuild', 'unknown'}, "no rebuild of the "
                  "catalogue was offered", 'rebuild offered',
                  trace=user.trace)
        if user.answers.get('rebuild'):
            ctx.check(os.path.isfile(cat_path), "accepted rebuild wrote no "
                      "catalogue", path=cat_path)
            got = rows_of(build(want, 'None')[0].get_database())
            full = rows_of(build(want)[0].get_database())
            compare(ctx, canonical_rows(got), canonical_rows(full),
                    "catalogue is not what the database holds",
                    'catalogues listed')
            listed = {r['Path'] for r in got if r['Module'] == 'UserData'}
            ctx.check(set(names) <= listed, "catalogue does not list the "
                      "example files", listed=sorted(listed))
            ctx.check(rii == any(r['Module'] == 'RefractiveIndexInfo'
                                 for r in got), "catalogue does not follow "
                      "the confirmed modules", rii=rii)
        else:
            ctx.count('rebuild declined')
            after = snapshot(base)
            ctx.check(after.get(cat_path) == before.get(cat_path),
                      "declined rebuild wrote a catalogue", path=cat_path)
        ctx.check(os.listdir(cwd) == [], "files in the working directory",
                  files=os.listdir(cwd), trace=user.trace)
    finally:
        os.chdir(base)
        os.environ['HOME'] = saved_home
    ctx.sig(tuple(user.trace), rii, had_library[root])
    ctx.count('prompts answered', len(user.trace))
    if asked - {'path', 'name', 'confirm', 'install', 'download', 'rebuild'}:
        ctx.count('other prompts')


# --------------------------------------------------------------------------
def case_rebuild(ctx):
    base = os.path.realpath(ctx.tmpdir())
    home = os.path.join(base, 'home')
    user_dir = os.path.join(home, '.config', 'dispersion')
    os.makedirs(user_dir)
    root = os.path.join(base, 'db')
    os.makedirs(root)
    tree = trees.make_tree(ctx, root, most=3)
    config = trees.config(ctx, tree, name=ctx.choice(['catalogue.csv',
                                                      'other.csv']))
    with open(os.path.join(user_dir, 'config.yaml'), 'w',
              encoding='utf-8') as fpt:
        yaml.safe_dump(config, fpt, allow_unicode=True)
    path = os.path.join(root, config['File'])
    if ctx.chance(0.6):
        with open(path, 'w') as fpt:
            fpt.write("old catalogue\n")
    plan = [ctx.choice(['maybe', '', 'Yes please', '1', '?', 'ny', 'yn', ' ',
                        'Y', 'N', 'yes', 'no', 'YES', ' y', 'y '])
            for _ in range(ctx.choice([0, 0, 1, 3]))]
    plan.append(ctx.choice(['y', 'n', None]))
    trace = []

    def user(prompt=''):
        if len(trace) >= len(plan) or plan[len(trace)] is None:
            trace.append(None)
            raise EndOfInput()
        trace.append(plan[len(trace)])
        return trace[-1]
    before = snapshot(base)
    saved = os.environ['HOME']
    os.environ['HOME'] = home
    func = ctx.choice([rebuild_catalogue, catalogue_rebuild.main])
    try:
        aborted = with_user(user, func)
    finally:
        os.environ['HOME'] = saved
    info = {'plan': plan, 'modules': dict(tree.modules)}
    ctx.describe(**info)
    ctx.check(trace == plan, "rebuild did not ask until 'y' or 'n'",
              'rebuild prompts', asked=trace, **info)
    ctx.check(aborted == (plan[-1] is None), "end of input ignored", **info)
    after = snapshot(base)
    diff = sorted(k for k in set(before) | set(after)
                  if before.get(k) != after.get(k))
    if plan[-1] == 'y':
        ctx.check(set(diff) <= {path} and path in after, "rebuild changed "
                  "other files or wrote no catalogue", 'rebuild after y',
                  diff=diff, **info)
        got = rows_of(build(config, 'None')[0].get_database())
        full = rows_of(build(config)[0].get_database())
        compare(ctx, canonical_rows(got), canonical_rows(full),
                "rebuilt catalogue is not what the database holds",
                'catalogues listed', **info)
        want = sorted(key_of(r) for r in tree.rows
                      if tree.modules[r['Module']])
        ctx.check(sorted(key_of(r) for r in got) == want, "rebuilt catalogue "
                  "does not list the files", **info)
    else:
        ctx.check(not diff, "files changed without an explicit 'y'",
                  'rebuild after n' if plan[-1] else 'rebuild aborted',
                  diff=diff, **info)
    ctx.sig(tuple(map(str, plan)), tuple(sorted(tree.modules.items())),
            func.__module__)


SCENARIOS = {
    'setup': {'case': case_setup, 'quick': 800, 'thorough': 16000},
    'rebuild': {'case': case_rebuild, 'quick': 320, 'thorough': 8000},
}
