"""Drives the sub-checks of a property: regression cases, then generated
search in parallel workers, then evidence, replay file and exit status."""
import ast
import hashlib
import importlib
import json
import os
import pickle
import random
import signal
import sys
import tempfile
import time
import traceback

from . import boot as _boot

HERE = _boot.HERE
LEVEL = 'exploration'


def log(*a):
    print(*a)
    sys.stdout.flush()


class Hang(BaseException):
    pass


CASE_CPU_S = 30


def _alarm(signum, frame):
    raise Hang('no answer within %d s of CPU time' % CASE_CPU_S)


class HarnessError(Exception):
    pass


def in_repo(tb):
    root = os.path.realpath(os.path.join(_boot.REPO, 'datashape')) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case):
    """-> ('ok', labels) | ('unspec', None) | ('bad', message).

    Anything else is an error of the harness and is raised."""
    from .core import Violation, Unspec
    # (again and again, in case the first is swallowed)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S, 5)
    try:
        labels = sub.fn(case)
    except Violation as e:
        return 'bad', str(e)
    except Unspec:
        return 'unspec', None
    except Hang as e:
        return 'bad', str(e)
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        if in_repo(e.__traceback__):
            tail = traceback.format_exception(type(e), e, e.__traceback__)
            return 'bad', 'unexpected exception: %s' % ''.join(tail[-4:])
        if isinstance(e, (AttributeError, TypeError, ValueError, LookupError,
                          ArithmeticError, AssertionError)):
            # the oracle could not make sense of what the code returned
            tail = traceback.format_exception(type(e), e, e.__traceback__)
            return 'bad', 'uninterpretable result: %s' % ''.join(tail[-3:])
        raise HarnessError('sub=%s case=%s\n%s' % (
            sub.name, ascii(case), traceback.format_exc())) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0, 0)
    return 'ok', labels


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.unspec = 0
        self.trivial = 0
        self.seen = set()
        self.labels = {}
        self.samples = []
        self.known = 0
        self.skipped = 0

    def add(self, sub, case, labels):
        self.evaluations += 1
        if labels is None or not labels:
            self.trivial += 1
            return
        text = ascii(case)
        h = hashlib.blake2b((sub.name + '\0' + text).encode(),
                            digest_size=8).digest()
        if h not in self.seen:
            self.seen.add(h)
            if len(self.samples) < 3 or (len(self.seen) & 1023) == 0 \
                    and len(self.samples) < 8:
                self.samples.append('%s: %s' % (sub.name, text[:600]))
        for l in labels:
            self.labels[l] = self.labels.get(l, 0) + 1

    def merge(self, o):
        self.evaluations += o.evaluations
        self.unspec += o.unspec
        self.trivial += o.trivial
        self.seen |= o.seen
        self.known += o.known
        self.skipped += o.skipped
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.samples.extend(o.samples)


def load_known(pid):
    """Lines  known: property=ID sub=NAME case=LITERAL what=TEXT"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.rstrip('\n')
                if not line.startswith('known: property=%s sub=' % pid):
                    continue
                rest = line.split(' sub=', 1)[1]
                name, rest = rest.split(' case=', 1)
                case, what = rest.split(' what=', 1)
                out.append((name, ast.literal_eval(case), what))
    return out


def seed_for(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def hypothesis_search(sub, n, seed, stats, known, deadline):
    """Generated-input search. -> None or (case, message)."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    try:
        from hypothesis.internal.conjecture import engine
        engine.MAX_SHRINKING_SECONDS = 40
    except Exception:
        pass
    best = []
    state = {'found_at': None}

    def body(case):
        now = time.monotonic()
        if now > deadline or (state['found_at'] and
                              now > state['found_at'] + 45):
            stats.skipped += 1
            return
        if (sub.name, ascii(case)) in known:
            stats.known += 1
            return
        try:
            kind, info = run_case(sub, case)
        except Hang:
            kind, info = 'bad', 'no answer within %d s of CPU time' % CASE_CPU_S
        if kind == 'unspec':
            stats.unspec += 1
            stats.evaluations += 1
            return
        if kind == 'ok':
            if state['found_at'] is None:
                stats.add(sub, case, info)
            return
        if state['found_at'] is None:
            stats.add(sub, case, ('violation',))
            state['found_at'] = now
        key = (len(ascii(case)), ascii(case))
        if not best or key < best[0][0]:
            best[:] = [(key, case, info)]
        raise AssertionError(info)

    test = given(sub.strategy())(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                    report_multiple_bugs=False, print_blob=False,
                    derandomize=False)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except HarnessError:
        raise
    except BaseException as e:
        if best:
            return best[0][1], best[0][2]
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        raise HarnessError('search in sub=%s failed: %s' % (
            sub.name, traceback.format_exc())) from e
    if best:
        return best[0][1], best[0][2]
    return None


def worker(mod, widx, nworkers, tier, seed, deadline, out, only):
    """Runs its share of every sub-check; pickles (stats, failure, error)."""
    stats = Stats()
    failure = error = None
    per_sub = {}
    try:
        random.seed(seed_for(seed, mod.ID, widx))
        signal.signal(signal.SIGVTALRM, _alarm)
        known = set((n, ascii(c)) for n, c, _ in load_known(mod.ID))
        for sub in mod.SUBS:
            if only and sub.name != only:
                continue
            if sub.setup:
                sub.setup()
            before = stats.evaluations
            if sub.exhaustive is not None:
                cases = sub.exhaustive(tier)
                for i, case in enumerate(cases):
                    if i % nworkers != widx:
                        continue
                    if time.monotonic() > deadline:
                        stats.skipped += 1
                        continue
                    if (sub.name, ascii(case)) in known:
                        stats.known += 1
                        continue
                    kind, info = run_case(sub, case)
                    if kind == 'bad':
                        stats.add(sub, case, ('violation',))
                        failure = (sub.name, case, info)
                        break
                    if kind == 'ok':
                        stats.add(sub, case, info)
                    else:
                        stats.unspec += 1
                        stats.evaluations += 1
            if failure is None and sub.strategy is not None:
                total = 2 * sub.quick * (sub.mult if tier == 'thorough' else 1)
                total = int(total * float(os.environ.get('DSV_SCALE', '1')))
                n = max(1, total // nworkers)
                found = hypothesis_search(
                    sub, n, seed_for(seed, mod.ID, sub.name, widx), stats,
                    known, deadline)
                if found:
                    failure = (sub.name,) + found
            per_sub[sub.name] = stats.evaluations - before
            if failure:
                break
    except BaseException:
        error = traceback.format_exc()
    with open(out, 'wb') as f:
        pickle.dump((stats, failure, error, per_sub), f)


def parallel(mod, tier, seed, deadline, only):
    nworkers = int(os.environ.get('DSV_WORKERS', '8'))
    if hasattr(mod, 'prepare'):
        mod.prepare()
    tmp = tempfile.mkdtemp(prefix='dsv-')
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nworkers):
        path = os.path.join(tmp, str(w))
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(mod, w, nworkers, tier, seed, deadline, path, only)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[w] = pid
    for w in pids:
        os.waitpid(pids[w], 0)
    stats, failures, errors, per_sub = Stats(), [], [], {}
    for w in range(nworkers):
        path = os.path.join(tmp, str(w))
        try:
            with open(path, 'rb') as f:
                st, failure, error, ps = pickle.load(f)
        except Exception:
            errors.append('worker %d left no result' % w)
            continue
        stats.merge(st)
        for k, v in ps.items():
            per_sub[k] = per_sub.get(k, 0) + v
        if failure:
            failures.append(failure)
        if error:
            errors.append(error)
        os.unlink(path)
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    return stats, failures, errors, per_sub


def write_replay(pid, sub, case, msg):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((sub + ascii(case)).encode()).hexdigest()[:12]
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'sub': sub, 'case': ascii(case),
                   'message': msg,
                   'how': 'check.py %s --replay <this file>' % pid}, f,
                  indent=1)
    return os.path.relpath(path, HERE)


def find_sub(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise SystemExit('no sub-check %r in %s' % (name, mod.ID))


def selftest():
    """setup_cmd: everything the checks need is there."""
    _boot.boot()
    names = sorted(n[:-3] for n in os.listdir(os.path.join(
        HERE, 'dsverif', 'props')) if n.startswith('c') and n.endswith('.py'))
    for n in names:
        mod = importlib.import_module('dsverif.props.' + n)
        assert mod.ID == n.upper() and mod.SUBS and mod.RULE
    log('%d property modules load' % len(names))
    return 0


def main(argv):
    pid = argv[0]
    if pid == '--selftest':
        return selftest()
    replay = only = None
    rest = argv[1:]
    while rest:
        o = rest.pop(0)
        if o == '--replay':
            replay = rest.pop(0)
        elif o == '--sub':
            only = rest.pop(0)
    t0 = time.monotonic()
    _boot.boot()
    mod = importlib.import_module('dsverif.props.' + pid.lower())
    signal.signal(signal.SIGVTALRM, _alarm)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier != 'thorough':
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = seed_for(os.environ['VERIF_SEED'])

    if replay:
        with open(replay) as f:
            r = json.load(f)
        sub = find_sub(mod, r['sub'])
        if sub.setup:
            sub.setup()
        kind, info = run_case(sub, ast.literal_eval(r['case']))
        if kind == 'bad':
            log(info)
            log('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        log('held: %s %s' % (kind, info))
        return 0

    budget = float(os.environ.get('DSV_BUDGET_S',
                                  '240' if tier == 'quick' else '780'))
    deadline = t0 + budget
    stats = Stats()
    failures, errors, per_sub = [], [], {}
    known_lines = []
    try:
        for name, case, what in load_known(pid):
            sub = find_sub(mod, name)
            if sub.setup:
                sub.setup()
            kind, info = run_case(sub, case)
            if kind == 'bad':
                known_lines.append('KNOWN-FINDING: property=%s %s'
                                   % (pid, what))
        known = set((n, ascii(c)) for n, c, _ in load_known(pid))
        for sub in mod.SUBS:
            if only and sub.name != only:
                continue
            if sub.regress and sub.setup:
                sub.setup()
            for case in sub.regress:
                if (sub.name, ascii(case)) in known:
                    continue
                kind, info = run_case(sub, case)
                if kind == 'ok':
                    stats.add(sub, case, info)
                elif kind == 'bad':
                    failures.append((sub.name, case, info))
                    break
        n_regress = stats.evaluations
    except BaseException:
        errors.append(traceback.format_exc())
        n_regress = stats.evaluations
    if not failures and not errors:
        st, failures, errors, per_sub = parallel(mod, tier, seed, deadline,
                                                 only)
        stats.merge(st)

    for line in known_lines:
        log(line)
    replay_path = None
    if failures:
        order = [s.name for s in mod.SUBS]
        failures.sort(key=lambda f: (order.index(f[0]), len(ascii(f[1])),
                                     ascii(f[1])))
        name, case, msg = failures[0]
        replay_path = write_replay(pid, name, case, msg)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'evaluations': stats.evaluations,
            'distinct_nontrivial': len(stats.seen),
            'rule': mod.RULE,
            'samples': stats.samples[:12],
            'trivial': stats.trivial,
            'outside_the_property': stats.unspec,
            'labels': dict(sorted(stats.labels.items(),
                                  key=lambda kv: -kv[1])[:80]),
            'per_subcheck': per_sub,
            'regression_cases': n_regress,
            'not_run_for_lack_of_time': stats.skipped,
            'known_findings_excluded': stats.known,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(failures),
    }
    extra = getattr(mod, 'extra_evidence', None)
    if extra:
        ev['coverage'].update(extra())
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if failures:
        name, case, msg = failures[0]
        log('sub-check %s, case %s' % (name, ascii(case)))
        log(msg)
        log('VIOLATION property=%s replay=%s' % (pid, replay_path))
        return 1
    if errors:
        log('HARNESS ERROR')
        for e in errors[:2]:
            log(e)
        return 2
    log('ok property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d '
        'trivial=%d outside=%d skipped=%d wall=%.1fs' % (
            pid, tier, seed, stats.evaluations, len(stats.seen), stats.trivial,
            stats.unspec, stats.skipped, time.monotonic() - t0))
    return 0
