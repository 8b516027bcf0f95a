"""A second Python process with its own hash seed, for cross-process checks.

As a program it answers requests on stdin: each is a length-prefixed pickle
(function name, argument); the answer is a pickle of ('ok', value) or
('bad', text).  Functions live in dsverif.remote.
"""
import os
import pickle
import struct
import subprocess
import sys


class Child(object):
    def __init__(self, hashseed, extra=(), flags=()):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hashseed)
        for k, v in extra:
            env.pop(k, None)
            if v is not None:
                env[k] = v
        self.proc = subprocess.Popen(
            [sys.executable, '-B', '-W', 'ignore'] + list(flags) +
            ['-m', 'dsverif.child'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def call(self, name, arg):
        data = pickle.dumps((name, arg), 4)
        self.proc.stdin.write(struct.pack('>I', len(data)) + data)
        self.proc.stdin.flush()
        head = self.proc.stdout.read(4)
        if len(head) < 4:
            raise RuntimeError('the child process has died')
        data = self.proc.stdout.read(struct.unpack('>I', head)[0])
        return pickle.loads(data)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait()
        except Exception:
            pass


_children = {}


def child(hashseed, extra=(), flags=()):
    """The child with this hash seed, environment and interpreter flags that
    belongs to this very process."""
    key = (os.getpid(), hashseed, extra, flags)
    if key not in _children:
        _children[key] = Child(hashseed, extra, flags)
    return _children[key]


def close_all():
    for key in list(_children):
        if key[0] == os.getpid():
            _children.pop(key).close()


def strict():
    """Warnings which the package's own lines give rise to are errors, from
    its compilation on; those of other packages are ignored."""
    import warnings

    import dateutil.parser  # noqa
    import multipledispatch  # noqa
    import numpy  # noqa
    warnings.filterwarnings('error', module=r'(.*/)?datashape([./]\w+)*$')


def serve():
    from . import boot
    refused = None
    if os.environ.get('DSV_STRICT'):
        strict()
    try:
        boot.boot()
    except (Warning, SyntaxError):     # SyntaxWarning becomes the latter
        import traceback
        refused = ('bad', traceback.format_exc())
    else:
        from . import remote
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        name, arg = pickle.loads(inp.read(struct.unpack('>I', head)[0]))
        try:
            res = refused or ('ok', getattr(remote, name)(arg))
        except Exception:
            import traceback
            res = ('bad', traceback.format_exc())
        data = pickle.dumps(res, 4)
        out.write(struct.pack('>I', len(data)) + data)
        out.flush()


if __name__ == '__main__':
    serve()
