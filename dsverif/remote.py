"""What a child process is asked to do (see child.py)."""
import os
import pickle

from . import model as M


def unpickle(arg):
    """Load pickled datashapes; compare them with ones made here."""
    data, asts = arg
    objs = pickle.loads(data)
    for obj, ast in zip(objs, asts):
        if M.abs_d(obj) != ast:
            return 'loaded as %r, not %r' % (M.abs_d(obj), ast)
        mine = M.build(ast)
        if not (obj == mine and mine == obj):
            return 'a loaded %r differs from one made here' % (ast,)
        if hash(obj) != hash(mine):
            return 'a loaded %r hashes differently from one made here' % (
                ast,)
        if obj not in {mine: 1}:
            return 'a loaded %r is not found in a dict' % (ast,)
        if str(obj) != str(mine):
            return 'a loaded %r prints differently' % (ast,)
    return None


def observe(case):
    """Everything that can be seen of a case, as text."""
    import warnings

    import datashape as ds
    from datashape import predicates as P
    from . import values as V
    d, e, text, v = case
    out = []

    def note(what, f, *args, **kw):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                res = ascii(f(*args, **kw))
            except SyntaxError as exc:
                res = 'SyntaxError %s %s' % (exc.lineno,
                                             getattr(exc, 'col_offset', ''))
            except Exception as exc:
                res = type(exc).__name__
        out.append((what, res))
    x, y = M.build(d), M.build(e)
    note('str', lambda: (str(x), repr(x), repr(x.measure), repr(x.shape)))
    note('pprint', ds.pprint, x, 30)
    note('parse', lambda: (ds.dshape(text), M.abs_d(ds.dshape(text))))
    note('discover', lambda: (ds.discover(V.value(v)),
                              M.abs_d(ds.discover(V.value(v)))))
    note('promote', ds.promote, x.measure, y.measure)
    note('promote', ds.promote, x, y, False)
    note('maxtype', ds.maxtype, x)
    note('supertype', ds.typesets.supertype, x.measure)
    note('to_numpy', ds.to_numpy, x)
    note('subshape', lambda: x.subshape[0])
    note('fields', lambda: x.subshape[[0, 1]])
    note('names', lambda: (x.measure.names, x.measure.types,
                           list(x.measure.dict)))
    note('cat', ds.cat_dshapes, [x, y])
    note('equal', lambda: (x == y, x != y, x == M.build(d)))
    note('typeset', lambda: [
        list(t) for t in (ds.integral | ds.TypeSet(x, y), ds.scalar,
                          ds.numeric, ds.floating, ds.integral)])
    note('typesets', lambda: [
        ds.integral | ds.TypeSet(x, y), ds.TypeSet(y, x, ds.string, x),
        ds.scalar])
    note('predicates', lambda: (P.isscalar(x), P.isrecord(x), P.isfixed(x),
                                P.ishomogeneous(x), P.isnumeric(x),
                                ds.has_var_dim(x), ds.has_ellipsis(x)))
    note('collect', lambda: list(P.collect(P.isscalar, x)))
    note('validate', ds.validate, x, V.value(v))
    note('record', lambda: ds.Record([('b', x), ('a', y)]))
    return out


def setting(numpy_errors):
    """Where and when this process believes it is."""
    import datetime
    import locale
    import time

    import numpy as np
    if numpy_errors:
        np.seterr(all='raise')
        np.set_printoptions(precision=2, threshold=3, suppress=True)
    try:
        locale.setlocale(locale.LC_ALL, '')
    except locale.Error:
        pass
    now = datetime.datetime.now()
    return (now.year, now.month, now.day, time.timezone, __debug__)


def discover_all(values):
    import datashape as ds
    from . import values as V
    out = []
    for v in values:
        try:
            out.append(ascii(ds.discover(V.value(v))))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def _apart(f, arg):
    """f(arg) as computed by a fork of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as out:
                try:
                    res = ('ok', f(arg))
                except Exception:
                    import traceback
                    res = ('bad', traceback.format_exc())
                pickle.dump(res, out, 4)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    kind, res = pickle.loads(data)
    if kind == 'bad':
        raise RuntimeError(res)
    return res


def history(cases):
    """What is seen of each case when it is all that was ever looked at, and
    when those before it were looked at first.  (To be asked of a process
    that is asked nothing else.)"""
    alone = [_apart(observe, c) for c in cases]
    return alone, _apart(lambda cs: [observe(c) for c in cs], cases)
