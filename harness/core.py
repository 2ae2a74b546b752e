"""Framework: registry of sub-checks, Hypothesis driver, failure classification, evidence.

A *sub-check* is one executable statement of (part of) a property.  It has a Hypothesis strategy that yields one plain
JSON value (the *case*) and a function ``check(case)`` which

* raises :class:`Violation` when the code under test breaks the property on that case,
* returns a label (str) or True when the case was non-trivial, and None/False when it was trivial.

Everything random in a case is drawn by Hypothesis (bulk data may be expanded from a drawn integer), so every case is a
pure function of the code and VERIF_SEED, shrinks, and can be replayed from a JSON file without Hypothesis.
"""
import hashlib
import json
import math
import os
import traceback

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
REPO_SRC = os.path.join(os.path.realpath(REPO), 'src') + os.sep


class Violation(Exception):
    """The code under test breaks the property."""


class Inconclusive(Exception):
    """The harness cannot decide this case (never a violation)."""


KNOWN_IDS = set()  # ids of the findings listed in known_findings.jsonl for the property being checked
REGISTRY = {}     # property id -> {name: Sub}


class Sub(object):
    def __init__(self, prop, name, strategy, fun, quick, thorough, shards, rule):
        self.prop, self.name, self.strategy, self.fun = prop, name, strategy, fun
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule


def sub(prop, strategy, quick=200, thorough=None, shards=1, rule=''):
    """Decorator registering a sub-check."""
    def deco(fun):
        d = REGISTRY.setdefault(prop, {})
        name = fun.__name__
        assert name not in d, (prop, name)
        d[name] = Sub(prop, name, strategy, fun, quick, thorough or quick * 25, shards,
                      rule or (fun.__doc__ or '').strip())
        return fun
    return deco


# ---------------------------------------------------------------------------------------------------------------
# oracle helpers: they never raise anything but Violation, whatever the code under test returned


def fail(msg, *args):
    raise Violation(fmt(msg, args))


def fmt(msg, args):
    """msg % args, or msg followed by the arguments when it has no place for them."""
    try:
        return msg % args if args else msg
    except (TypeError, ValueError):
        return msg + ': ' + ', '.join(short(a) for a in args)


def known(finding, msg, *args):
    """A violation that is exactly the listed finding (the caller has verified its specific shape).  If the finding is
    not listed in known_findings.jsonl it is an ordinary violation."""
    raise Violation('[KF:%s] ' % finding + fmt(msg, args))


def check(cond, msg, *args):
    if not bool(cond):
        raise Violation(fmt(msg, args))


def arr(x, what='result', dtype=float):
    """x as a numeric array; a non-numeric result of the code under test is a violation."""
    try:
        a = np.asarray(x)
        if a.dtype == object:
            a = a.astype(dtype)
        if a.dtype.kind not in 'biufc':
            raise TypeError('dtype %s' % a.dtype)
        return a
    except (TypeError, ValueError) as e:
        raise Violation('%s is not numeric: %r (%s)' % (what, short(x), e))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def close(actual, desired, rtol=1e-9, atol=0.0, what='result', shape=True):
    """Element-wise |actual-desired| <= atol + rtol*|desired|, NaN == NaN, shapes equal."""
    a = arr(actual, what)
    d = np.asarray(desired)
    if shape and a.shape != d.shape:
        fail('%s: shape %s, expected %s; got %s expected %s', what, a.shape, d.shape, short(a.tolist()),
             short(d.tolist()))
    with np.errstate(all='ignore'):
        at = np.asarray(atol)
        ok = (np.abs(a - d) <= at + rtol * np.abs(d)) | (a == d) | (np.isnan(a) & np.isnan(d))
    if not np.all(ok):
        bad = np.argwhere(~np.atleast_1d(ok))[:3].tolist()
        aa, dd = np.broadcast_arrays(np.atleast_1d(a), np.atleast_1d(d))
        vals = [(b, aa[tuple(b)].tolist(), dd[tuple(b)].tolist()) for b in bad]
        fail('%s: %d of %d values differ (rtol=%g atol=%s); [index, got, expected]: %s', what, int(np.sum(~ok)),
             int(np.size(ok)), rtol, short(atol, 40), vals)


def same(actual, desired, what='result'):
    """Exact equality of arrays of integers/floats."""
    close(actual, desired, 0.0, 0.0, what)


def finite(x, what='result'):
    a = arr(x, what)
    check(np.all(np.isfinite(a)), '%s is not finite: %s', what, short(a.tolist()))
    return a


def raises(fun, what, exc=Exception):
    """fun() must raise one of exc (rejection of an invalid input)."""
    try:
        r = fun()
    except exc:
        return
    fail('%s was accepted and returned %s', what, short(r))


class unchanged(object):
    """Context manager: the arrays given must not be modified by the code under test."""

    def __init__(self, what, *arrays):
        self.what, self.arrays = what, arrays
        self.copies = [np.array(a, copy=True) for a in arrays]

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            for a, c in zip(self.arrays, self.copies):
                a = np.asarray(a)
                if a.shape != c.shape or not np.all((a == c) | ((a != a) & (c != c))):
                    raise Violation('%s modified its input: %s -> %s' % (self.what, short(c.tolist()),
                                                                        short(a.tolist())))
        return False


# ---------------------------------------------------------------------------------------------------------------
# running


HARNESS_ERRORS = (ImportError, NameError, MemoryError, OSError, KeyboardInterrupt, SystemExit, Inconclusive)


def classify(exc):
    """'violation' or 'error' for an exception that left a check function."""
    if isinstance(exc, Violation):
        return 'violation'
    frames = traceback.extract_tb(exc.__traceback__)
    in_repo = any(os.path.realpath(f.filename).startswith(REPO_SRC) for f in frames)
    if isinstance(exc, HARNESS_ERRORS):
        # ... a NameError or ImportError raised inside a function of the code under test is its own failure
        if in_repo and isinstance(exc, (ImportError, NameError)):
            return 'violation'
        return 'error'
    if in_repo:
        return 'violation'      # a valid input made the code under test raise
    if isinstance(exc, AttributeError) and "module 'wafo" in str(exc):
        return 'error'          # the API is not there: the harness cannot judge
    if isinstance(exc, (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError,
                        OverflowError, np.linalg.LinAlgError, FloatingPointError, RuntimeError, AssertionError)):
        return 'violation'      # the result could not even be used by the oracle
    return 'error'


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    last = ['%s:%d in %s' % (os.path.relpath(f.filename, '/'), f.lineno, f.name) for f in tb[-4:]]
    return 'raised %s: %s (%s)' % (type(exc).__name__, exc, ' <- '.join(reversed(last)))


def derived_seed(seed, prop, name, shard):
    h = hashlib.sha256(('%d/%s/%s/%d' % (seed, prop, name, shard)).encode()).digest()
    return int.from_bytes(h[:8], 'big') >> 1


def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=10).digest()


class Result(object):
    def __init__(self, s, shard):
        self.sub, self.shard = s.name, shard
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.failure = None      # (case, message)
        self.error = None
        self.known = {}


def run_one(s, case):
    """Runs one case; returns (kind, message, label)."""
    np.random.seed(12345)
    try:
        with np.errstate(all='ignore'):
            label = s.fun(case)
        return 'ok', None, label
    except Exception as e:  # noqa
        kind = classify(e)
        if kind == 'violation':
            return kind, describe(e), None
        return 'error', ''.join(traceback.format_exception(type(e), e, e.__traceback__)), None


class _Found(Exception):
    pass


class _HarnessError(Exception):
    pass


def run_task(s, shard, nshards, tier, seed, journal=None, scale=1.0):
    import warnings
    warnings.simplefilter('ignore')
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as eng
    if hasattr(eng, 'MAX_SHRINKING_SECONDS'):
        eng.MAX_SHRINKING_SECONDS = 40
    n = s.quick if tier == 'quick' else s.thorough
    n = max(5, int(math.ceil(n * scale / nshards)))
    res = Result(s, shard)
    state = {'last_fail': None, 'best': None}

    def body(case):
        if journal:
            with open(journal, 'w') as f:
                json.dump(case, f)
        kind, msg, label = run_one(s, case)
        if state['last_fail'] is None:
            res.evaluations += 1
            if label:
                res.keys.add(case_key(case))
                lab = label if isinstance(label, str) else 'nontrivial'
                c = res.labels[lab] = res.labels.get(lab, 0) + 1
                if c <= 1 or (len(res.samples) < 2):
                    if len(res.samples) < 6:
                        res.samples.append(case)
        if kind == 'violation':
            if msg.startswith('[KF:'):
                k = msg[4:msg.index(']')]
                if k in KNOWN_IDS:
                    res.known[k] = msg
                    return
            size = len(json.dumps(case))
            if state['best'] is None or size <= state['best'][0]:
                state['best'] = (size, case, msg)
            state['last_fail'] = (case, msg)
            raise _Found(msg)
        if kind == 'error':
            raise _HarnessError(msg + '\ncase: ' + short(case, 2000))

    test = hypothesis.given(s.strategy)(body)
    test = settings(max_examples=n, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                    derandomize=False)(test)
    test = hypothesis.seed(derived_seed(seed, s.prop, s.name, shard))(test)
    try:
        test()
    except _HarnessError as e:
        res.error = str(e)
    except _Found:
        res.failure = state['last_fail']
    except Exception as e:  # Flaky, Unsatisfiable, ...
        if state['best'] is not None:
            res.failure = state['best'][1:]
        else:
            res.error = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if state['best'] is not None and res.failure is None and res.error is None:
        res.failure = state['best'][1:]
    return res
