#!/opt/venv/bin/python
"""Run one property check: check.py <PID> [--replay FILE] [--sub NAME]

Exit 0: the property held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: the harness
itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    if os.environ.get('DSV_CHILD') != '1':
        env = dict(os.environ)
        env.update(DSV_CHILD='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8',
                   TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1')
        env.pop('PYTHONPATH', None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, '-B', '-W', 'ignore',
                       os.path.join(HERE, 'check.py')] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from dsverif import runner
    return runner.main(sys.argv[1:])


if __name__ == '__main__':
    sys.exit(main())
