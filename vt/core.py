'''Registry of sub-checks, Hypothesis driver and violation handling.

A *sub-check* is a plain function whose keyword arguments are drawn from
Hypothesis strategies.  It returns normally if the property held on the
generated case and raises if it did not.  Every exception that escapes (a failed
``ensure``, or an exception raised by the code under test on a valid input) is a
violation of the property the sub-check is registered for.
'''
import contextlib
import hashlib
import io
import json
import os
import signal
import time
import traceback
import warnings

import numpy as np

REGISTRY = {}      # property id -> list of Sub


class Violation(AssertionError):
    '''The property does not hold on this case.'''


class Hang(BaseException):
    '''An example did not terminate. (BaseException: do not try to shrink it.)'''


class OutOfTime(BaseException):
    pass


class Sub:
    def __init__(self, pid, name, func, strategies, quick, thorough, hang,
                 budget, known, examples):
        self.pid = pid
        self.name = name
        self.func = func
        self.strategies = strategies
        self.quick = quick
        self.thorough = thorough
        self.hang = hang
        self.budget = budget
        self.known = known
        self.examples = examples


def sub(pid, strategies=None, quick=60, thorough=1500, hang=240, budget=None,
        known=None, examples=()):
    '''Register a sub-check for property ``pid``.'''
    def deco(func):
        REGISTRY.setdefault(pid, []).append(
            Sub(pid, func.__name__, func, strategies or {}, quick, thorough,
                hang, budget, known, list(examples)))
        return func
    return deco


def ensure(cond, msg, **info):
    if not bool(cond):
        extra = ''
        if info:
            extra = ' | ' + ', '.join(f'{k}={brief(v)}' for k, v in info.items())
        raise Violation(msg + extra)


def brief(v, n=400):
    try:
        if isinstance(v, np.ndarray):
            s = np.array2string(v, threshold=24, precision=10)
        else:
            s = repr(v)
    except Exception:   # repr of the code under test failed
        s = f'<unprintable {type(v)}>'
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


def close(a, b, msg, rtol=1e-9, atol=1e-9, **info):
    '''Elementwise comparison; NaN never compares equal.'''
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    ensure(a.shape == b.shape, msg + ' (shape)', got=a.shape, expected=b.shape, **info)
    bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    # inf == inf is fine
    with np.errstate(invalid='ignore'):
        bad &= ~(np.isinf(a) & (a == b))
    if np.any(bad):
        i = tuple(x[0] for x in np.nonzero(np.atleast_1d(bad)))
        raise Violation(msg + f' | first difference at {i}: got={np.atleast_1d(a)[i]!r} '
                        f'expected={np.atleast_1d(b)[i]!r}'
                        + (' | ' + ', '.join(f'{k}={brief(v)}' for k, v in info.items())
                           if info else ''))


def same(a, b, msg, **info):
    '''Bitwise equality of arrays, NaN == NaN.'''
    a = np.asarray(a)
    b = np.asarray(b)
    ensure(a.shape == b.shape, msg + ' (shape)', got=a.shape, expected=b.shape, **info)
    if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        ok = np.array_equal(a, b, equal_nan=True)
    else:
        ok = np.array_equal(a, b)
    ensure(ok, msg, got=a, expected=b, **info)


class raises:
    '''Context manager: the block must raise one of the given exceptions.'''
    def __init__(self, exc, msg):
        self.exc = exc
        self.msg = msg

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            raise Violation(self.msg + ' | no exception was raised')
        return issubclass(et, self.exc)


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.labels = {}
        self.current = None

    def start(self, case):
        self.evaluations += 1
        self.current = case
        self._nt = True
        self._labels = []

    def finish(self):
        for l in self._labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if self._nt:
            h = hashlib.sha1(self.current.encode()).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 4 and
                                             self.evaluations > 20):
                    self.samples.append(self.current[:600])


REC = Recorder()


def trivial(cond=True):
    '''Mark the current case as trivial (it could not have failed).'''
    if cond:
        REC._nt = False


def label(text, cond=True):
    if cond:
        REC._labels.append(str(text))


KNOWN_SEEN = []


def known_finding(text):
    KNOWN_SEEN.append(text)


def _case_repr(kwargs):
    return '; '.join(f'{k}={brief(v, 700)}' for k, v in sorted(kwargs.items()))


def run_sub(s, seed, n_examples, budget, replay_blob=None):
    '''Run one sub-check. Returns a plain dict with the outcome.'''
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 40
    # After every generated case, hypothesis runs up to five variations of it which repeat
    # parts of that case. With the moderate number of cases used here, that leaves only few
    # combinations of the options, so every case is drawn independently.
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None

    global REC
    REC.__init__()
    del KNOWN_SEEN[:]
    t0 = time.monotonic()
    state = {'failed': False, 'case': None, 'err': None}

    def on_alarm(signum, frame):
        raise Hang(f'no result after {s.hang} s')

    signal.signal(signal.SIGALRM, on_alarm)

    def body(**kwargs):
        if not state['failed'] and time.monotonic() - t0 > budget:
            return
        case = _case_repr(kwargs)
        REC.start(case)
        signal.alarm(s.hang)
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'), \
                    contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter('ignore')
                s.func(**kwargs)
        except hypothesis.errors.UnsatisfiedAssumption:
            REC.evaluations -= 1
            raise
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            if not state['failed'] or True:
                state['failed'] = True
                state['case'] = case
                state['err'] = ''.join(traceback.format_exception(e))[-6000:]
            raise
        except Hang:
            state['failed'] = True
            state['case'] = case
            state['err'] = f'Hang: the call did not return within {s.hang} s'
            raise
        finally:
            signal.alarm(0)
        REC.finish()

    body.__name__ = s.name
    out = {'name': s.name, 'violation': None, 'error': None}
    try:
        if not s.strategies:
            body()
        else:
            test = given(**s.strategies)(body)
            for ex in s.examples:
                test = hypothesis.example(**ex)(test)
            test = settings(max_examples=n_examples, database=None, deadline=None,
                            derandomize=False, print_blob=True,
                            report_multiple_bugs=False,
                            phases=[Phase.explicit, Phase.generate, Phase.shrink],
                            suppress_health_check=list(HealthCheck))(test)
            test = hypothesis.seed(seed)(test)
            if replay_blob:
                version, blob = replay_blob
                test = hypothesis.reproduce_failure(version, blob.encode())(test)
            test()
    except Hang:
        out['violation'] = {'case': state['case'], 'error': state['err'],
                            'blob': None, 'message': state['err']}
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        if state['failed']:
            out['violation'] = {'case': state['case'], 'error': state['err'],
                                'blob': _blob(e),
                                'message': (state['err'] or '').strip().splitlines()[-1][:1500]}
        else:
            out['error'] = ''.join(traceback.format_exception(e))[-6000:]
    out.update(evaluations=REC.evaluations, nontrivial=sorted(REC.nontrivial),
               samples=REC.samples, labels=REC.labels,
               known=list(dict.fromkeys(KNOWN_SEEN)),
               wall=time.monotonic() - t0)
    return out


def _blob(e):
    import re
    for n in getattr(e, '__notes__', []):
        m = re.search(r"reproduce_failure\('([^']+)', b'([^']+)'\)", n)
        if m:
            return [m.group(1), m.group(2)]
    return None
