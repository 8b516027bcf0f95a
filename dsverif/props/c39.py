"""C39: the version tells the state of the source tree."""
import contextlib
import importlib.util
import io
import os
import shutil
import subprocess
import tempfile
import warnings

from hypothesis import strategies as st

from .. import boot, model as M
from ..core import Sub, Unspec, check, eq, srepr

ID = 'C39'
RULE = ('random states of a source tree (nearest tag or none, distance, '
        'commit, local changes; names of references as `git archive` writes '
        'them; names of unpacked directories) in every style, compared with '
        'the form each style documents; real repositories, in directories of '
        'their own, after random histories of commits, tags and changes, and '
        'what is exported, written or copied from them, as told by the '
        'package and by what builds it. '
        'Non-trivial: every case.')
ASSUMPTIONS = ('git 1.8.3 or later, and at least one commit',)

STYLES = ('', 'default', None, 'pep440', 'pep440-pre', 'pep440-post',
          'pep440-old', 'git-describe', 'git-describe-long')


def module():
    try:
        from datashape import _version as v
        v.render, v.git_pieces_from_vcs, v.git_versions_from_keywords
        v.versions_from_parentdir, v.NotThisMethod
        return v
    except (ImportError, AttributeError):
        raise Unspec()


def load(path):
    """A module of a file, which nothing else knows of."""
    try:
        with open(path) as f:
            source = f.read()
    except OSError:
        raise Unspec()
    spec = importlib.util.spec_from_file_location('dsv_loaded', path)
    m = importlib.util.module_from_spec(spec)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        exec(compile(source, path, 'exec'), m.__dict__)
    return m


_modules = []


def modules():
    """All that tell versions: of the package, and of what it is built by
    (which brings what it writes into packages)."""
    if not _modules:
        _modules.append(module())
        try:
            v = load(os.path.join(boot.REPO, 'versioneer.py'))
            v.render, v.git_pieces_from_vcs, v.git_versions_from_keywords
            v.versions_from_parentdir, v.NotThisMethod
            _modules.append(v)
            text = v.LONG_VERSION_PY['git'] % {
                'DOLLAR': '$', 'STYLE': 'pep440', 'TAG_PREFIX': '',
                'PARENTDIR_PREFIX': 'datashape-',
                'VERSIONFILE_SOURCE': 'datashape/_version.py'}
        except (Unspec, AttributeError, KeyError):
            return _modules
        w = type(v)('dsv_written')
        exec(compile(text, 'LONG_VERSION_PY', 'exec'), w.__dict__)
        _modules.append(w)
    return _modules


def for_all(run):
    def each(case):
        for v in modules():
            tags = run(v, case)
        return tags
    return each


def form(style, tag, distance, short, dirty):
    """The version, as the style documents it."""
    post = '.post%d%s' % (distance, '.dev0' if dirty else '')
    away = distance > 0 or dirty
    local = '%d.g%s%s' % (distance, short, '.dirty' if dirty else '')
    end = '-dirty' if dirty else ''
    describe = '-%d-g%s' % (distance, short)
    plus = '.' if tag and '+' in tag else '+'
    if style in ('', 'default', None, 'pep440'):
        if tag:
            return tag + (plus + local if away else '')
        return '0+untagged.' + local
    if style == 'pep440-pre':
        if tag:
            return tag + ('.post.dev%d' % distance if distance else '')
        return '0.post.dev%d' % distance
    if style == 'pep440-post':
        if tag:
            return tag + (post + plus + 'g' + short if away else '')
        return '0' + post + '+g' + short
    if style == 'pep440-old':
        if tag:
            return tag + (post if away else '')
        return '0' + post
    if tag:
        far = distance or style == 'git-describe-long'
        return tag + (describe if far else '') + end
    return short + end


@for_all
def stated(v, case):
    """What git says of a tree, and what is made of it."""
    tag, distance, full, n, dirty, prefix, style = case
    short = full[:n]
    said = short if tag is None else '%s-%d-g%s' % (tag, distance, short)
    if dirty:
        said += '-dirty'

    def run(commands, args, cwd=None, *rest, **kw):
        check(cwd == root, 'git is run in %s', srepr(cwd))
        if args[0] == 'describe':
            return said + '\n' * (distance % 2)
        if args[0] == 'rev-parse':
            return full
        if args[0] == 'rev-list':
            return '%d' % distance
        raise Unspec()
    root = tempfile.mkdtemp(prefix='dsv-tree-')
    try:
        try:
            v.git_pieces_from_vcs(prefix, root, False, run_command=run)
        except v.NotThisMethod:
            pass
        else:
            check(False, 'a directory without .git has a version')
        os.mkdir(os.path.join(root, '.git'))
        pieces = v.git_pieces_from_vcs(prefix, root, False, run_command=run)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    known = dict(pieces)
    got = v.render(pieces, style)
    eq(pieces, known, 'the pieces')
    if tag is not None and not tag.startswith(prefix):
        eq((got['version'], got['full-revisionid'], bool(got['error'])),
           ('unknown', full, True), 'version for tag %s' % srepr(tag))
        return ['other prefix']
    if tag is not None:
        tag = tag[len(prefix):] or None
    else:
        short = full[:7]
    eq(got, {'version': form(style, tag, distance, short, dirty),
             'full-revisionid': full, 'dirty': dirty, 'error': None},
       'version for %s' % srepr(case))
    try:
        v.render(pieces, 'no style')
    except ValueError:
        pass
    else:
        check(False, 'an unknown style is accepted')
    return [str(style), 'tagged' if tag else 'untagged',
            'dirty' if dirty else 'clean', 'at' if not distance else 'after']


@for_all
def archived(v, case):
    """What `git archive` leaves behind."""
    refs, tags, prefix, full, shape = case
    names = ['tag: ' + t for t in tags] + list(refs)
    k = len(full) % (len(names) + 1)
    names = names[k:] + names[:k]
    text = (' (%s)', '(%s)', '%s', ' (%s) ')[shape] % ', '.join(names)
    pool = tags or [r for r in refs if any(c in '0123456789' for c in r)]
    fit = sorted(t for t in pool if t.startswith(prefix))
    got = v.git_versions_from_keywords(
        {'refnames': text, 'full': full + ' ' * shape}, prefix, False)
    check(not got['dirty'], 'dirty')
    eq(got['full-revisionid'], full, 'full revision')
    if fit:
        eq((got['version'], got['error']), (fit[0][len(prefix):], None),
           'version for %s' % srepr(text))
    else:
        check(got['error'] and got['version'] == '0+unknown',
              '%s for %s', srepr(got), srepr(text))
    for bad in ({}, {'refnames': '$Format:%d$', 'full': '$Format:%H$'}):
        try:
            v.git_versions_from_keywords(bad, prefix, False)
        except v.NotThisMethod:
            continue
        check(False, 'a version from %s', srepr(bad))
    return ['tags' if tags else 'refs', 'found' if fit else 'none']


@for_all
def unpacked(v, case):
    prefix, name, above = case
    root = os.path.join('/', *(list(above) + [name]))
    try:
        got = v.versions_from_parentdir(prefix, root, False)
    except v.NotThisMethod:
        check(not name.startswith(prefix), 'refused: %s', srepr(root))
        return ['other name']
    check(name.startswith(prefix), '%s for %s', srepr(got), srepr(root))
    eq((got['version'], got['error'], bool(got['dirty'])),
       (name[len(prefix):], None, False), srepr(root))
    return ['named']


GIT = ('git', '-c', 'user.name=x', '-c', 'user.email=x@example.org', '-c',
       'init.defaultBranch=main', '-c', 'commit.gpgsign=false', '-c',
       'core.hooksPath=/dev/null')


@contextlib.contextmanager
def place():
    """A directory, where git knows nothing of what is outside of it."""
    root = os.path.realpath(tempfile.mkdtemp(prefix='dsv-tree-'))
    kept, cwd = dict(os.environ), os.getcwd()
    for k in list(os.environ):
        if k.startswith('GIT_'):
            del os.environ[k]
    os.environ.update(GIT_CONFIG_NOSYSTEM='1', HOME=root,
                      GIT_CONFIG_GLOBAL='/dev/null',
                      GIT_CEILING_DIRECTORIES=os.path.dirname(root))
    try:
        yield root
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(kept)
        shutil.rmtree(root, ignore_errors=True)


class Tree(object):
    """A repository with a history."""

    def __init__(self, root):
        self.root = root
        try:
            self.git('init', '-q')
        except (OSError, subprocess.CalledProcessError):
            raise Unspec()
        with open(os.path.join(root, 'file'), 'w') as f:
            f.write('0')
        self.git('add', '-A')
        self.git('commit', '-q', '-m', '0')
        self.commits, self.tag, self.at, self.dirty = 1, None, 0, False

    def git(self, *args):
        return subprocess.run(GIT + args, cwd=self.root, check=True,
                              stdout=subprocess.PIPE,
                              stderr=subprocess.DEVNULL).stdout.decode()

    def run(self, ops):
        for n, op in enumerate(ops, 1):
            if op == 'commit':
                self.git('commit', '-q', '--allow-empty', '-a', '-m', str(n))
                self.commits += 1
                self.dirty = False
            elif op == 'change':
                with open(os.path.join(self.root, 'file'), 'a') as f:
                    f.write(str(n))
                self.dirty = True
            elif op == 'undo':
                self.git('checkout', '-q', '--', 'file')
                self.dirty = False
            elif op == 'stray':
                with open(os.path.join(self.root, 'other%d' % n), 'w') as f:
                    f.write('x')
            elif self.tag is None or self.at != self.commits:
                # (which of two tags of one commit is meant is not specified)
                self.git('tag', op)
                self.tag, self.at = op, self.commits
        self.full = self.git('rev-parse', 'HEAD').strip()
        self.distance = self.commits - self.at if self.tag else self.commits

    def said(self, style, short):
        check(self.full.startswith(short) and len(short) >= 7, '%s for %s',
              srepr(short), self.full)
        return {'version': form(style, self.tag, self.distance, short,
                                self.dirty),
                'full-revisionid': self.full, 'dirty': self.dirty,
                'error': None}


def repository(case):
    """A real repository after some history."""
    style, ops = case
    with place() as root:
        tree = Tree(root)
        tree.run(ops)
        for v in modules():
            pieces = v.git_pieces_from_vcs('', root, False)
            eq(v.render(pieces, style), tree.said(style, pieces['short']),
               'version after %s' % srepr(ops))
    return ['repository', 'tagged' if tree.tag else 'untagged']


FILES = ('versioneer.py', 'setup.py', 'setup.cfg', '.gitattributes',
         'datashape/_version.py')


def asked(root):
    """The version of the tree, by what builds it and by the package."""
    with contextlib.redirect_stdout(io.StringIO()):
        package = load(os.path.join(root, 'datashape', '_version.py'))
        build = load(os.path.join(root, 'versioneer.py'))
        os.chdir(root)
        said = package.get_versions()
        eq(build.get_versions(), said, 'the version of what is built')
        eq(build.get_version(), said['version'], 'get_version')
    return said, build


def released(case):
    """A source tree in some state, or what was made from it."""
    ops, way, name = case
    with place() as top:
        root = os.path.join(top, name if way == 'copied' else 'work')
        os.makedirs(os.path.join(root, 'datashape'))
        for f in FILES:
            try:
                shutil.copy(os.path.join(boot.REPO, f),
                            os.path.join(root, f))
            except OSError:
                raise Unspec()
        if way == 'copied':
            got, build = asked(root)
            if name.startswith('datashape-'):
                eq((got['version'], got['error']),
                   (name[len('datashape-'):], None), srepr(name))
            else:
                check(got['version'] == '0+unknown' and got['error'],
                      '%s for %s', srepr(got), srepr(name))
            return ['copied']
        tree = Tree(root)
        tree.run(ops)
        got, build = asked(root)
        short = build.git_pieces_from_vcs('', root, False)['short']
        with open(os.path.join(root, 'setup.cfg')) as f:
            style = 'pep440' if 'style = pep440\n' in f.read() else None
        if style:
            eq(got, tree.said(style, short), 'version after %s' % srepr(ops))
        if way == 'archived':
            out = os.path.join(top, 'out')
            os.mkdir(out)
            tree.git('archive', '-o', os.path.join(top, 'out.tar'), 'HEAD')
            shutil.unpack_archive(os.path.join(top, 'out.tar'), out)
            got, build = asked(out)
            here = tree.tag if tree.at == tree.commits else None
            eq((got['version'], got['full-revisionid'], bool(got['error'])),
               (here or '0+unknown', tree.full, not here), 'exported')
        elif way == 'written':
            with contextlib.redirect_stdout(io.StringIO()):
                build.write_to_version_file(
                    os.path.join(root, 'datashape', '_version.py'), got)
            if name[0] == 'd':
                shutil.rmtree(os.path.join(root, '.git'))
            eq(asked(root)[0], got, 'the version as written')
    return [way]


HEX = '0123456789abcdef'
TAGS = ('1.0', '0.5.2', 'v1.0', '1.0rc1', '1.0+local', '1.0-2', '1.0-2-gabc',
        'datashape-0.5', '2', 'x', '1.0-dirty', 'rel/1.0', '1.0-0', '10.2',
        'v', '0.5.2+1', '1.0.dirty', 'a-b-3-g0123456')


def revisions():
    return st.text(HEX, min_size=40, max_size=40)


def trees():
    return st.tuples(
        M.weighted((1, st.none()), (4, st.sampled_from(TAGS)), (1, st.text(
            '0123456789.-+vgabc', min_size=1, max_size=8))),
        st.one_of(st.integers(0, 3), st.integers(0, 5000)), revisions(),
        st.integers(7, 12), st.booleans(), st.sampled_from(
            ('', '', '', 'v', 'datashape-')), st.sampled_from(STYLES))


def every_tree(tier):
    full = '0123456789abcdef' * 2 + 'deadbeef'
    for tag in (None,) + TAGS:
        for distance in (0, 1, 2, 10, 123):
            for dirty in (False, True):
                for prefix in ('', 'v', 'datashape-', '1'):
                    for style in STYLES:
                        for n in (7, 10):
                            yield (tag, distance, full, n, dirty, prefix,
                                   style)


def archives():
    refs = st.lists(st.sampled_from(
        ('HEAD -> master', 'origin/master', 'master', 'HEAD', '1.0-branch',
         'release', 'origin/v2', 'fix-12', 'stable')), max_size=3,
        unique=True)
    return st.tuples(refs, st.lists(st.sampled_from(TAGS), max_size=3,
                                    unique=True),
                     st.sampled_from(('', 'v', 'datashape-', '1')),
                     revisions(), st.integers(0, 3))


def directories():
    part = st.sampled_from(('datashape-0.5', 'datashape', 'datashape-', 'x',
                            'blaze-datashape-0.5', 'datashape-1.0rc1',
                            'Datashape-1', '1', 'datashape-datashape-2'))
    return st.tuples(st.sampled_from(('datashape-', '', 'x')), part,
                     st.lists(part, max_size=2).map(tuple))


def histories():
    return st.tuples(st.sampled_from(STYLES), st.lists(st.sampled_from(
        ('commit', 'commit', 'change', 'undo', 'stray', 'change', '1.0',
         '1.1', 'v2-rc', '2.0+x', '1.0-3-gabcdef0')), max_size=7,
        unique_by=lambda o: o if o[0] in '12v' else (o, object())))


def releases():
    return st.tuples(histories().map(lambda h: h[1]), st.sampled_from(
        ('tree', 'written', 'archived', 'archived', 'copied')),
        st.sampled_from(('datashape-0.5', 'datashape-1.0rc1', 'work',
                         'datashape', 'datashape-', 'my-datashape-2')))


SUBS = [
    Sub('released', releases, released, quick=60, mult=10),
    Sub('states', None, stated, exhaustive=every_tree),
    Sub('repository', histories, repository, quick=120, mult=10),
    Sub('state', trees, stated, quick=3000),
    Sub('archived', archives, archived, quick=2000),
    Sub('unpacked', directories, unpacked, quick=1000),
]
