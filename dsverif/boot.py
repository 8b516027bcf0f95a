"""Make the code under test and Hypothesis importable.

The code under test always comes from the source files of the repository's
working tree: no bytecode cache is read or written.
"""
import glob
import os
import sys

REPO = os.environ.get('DSV_REPO', '/repo')
VTSITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def boot():
    import tempfile
    sys.dont_write_bytecode = True
    # a prefix that holds nothing: stale __pycache__ directories are not read
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(),
                                      'dsv-no-bytecode-%d' % os.getpid())
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa
    except ImportError:
        # appended last: numpy and dateutil come from the repository's own
        # environment, only Hypothesis and its dependencies from here
        if os.path.isdir(VTSITE):
            sys.path.append(VTSITE)
        try:
            import hypothesis  # noqa
        except ImportError:
            for pat in ('hypothesis-*.whl', 'sortedcontainers-*.whl',
                        'attrs-*.whl'):
                sys.path.extend(glob.glob(os.path.join(WHEELS, pat)))
            import hypothesis  # noqa
    import warnings
    if not os.environ.get('DSV_STRICT'):     # see child.strict
        warnings.simplefilter('ignore')
    import datashape
    got = os.path.realpath(datashape.__file__)
    want = os.path.realpath(os.path.join(REPO, 'datashape', '__init__.py'))
    if got != want:
        raise SystemExit('wrong datashape imported: %s' % got)
    return datashape
