"""Run-time side of the contracts: evaluates a contract clause on one concrete call of the real code.

A contract module provides
   cases(tier, rng)      -> iterable of JSON-able case descriptors
   check_case(case)      -> None, raises Violated when a clause is false
An exception that comes out of /repo code where the contract promises a normal return is a violation;
an exception raised purely by the harness is a harness error (never a violation)."""
import os, sys, io, json, signal, traceback, contextlib, warnings, importlib, math

REPO = os.environ.get('VP_REPO', '/repo')


class Violated(Exception):
    pass


class Skip(Exception):
    pass


class CaseTimeout(Exception):
    pass


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import torch
    torch.set_num_threads(1)


def mod(name):
    return importlib.import_module('neuro_shooting.' + name)


def get(m, name):
    if isinstance(m, str):
        m = mod(m)
    try:
        return getattr(m, name)
    except AttributeError:
        raise Skip('no attribute %s' % name)


MINED = dict(ints=[], floats=[], strs=[])
WIDE = [False]


def ncases(tier, quick, thorough):
    """number of generated cases"""
    return quick if tier == 'quick' else thorough if tier == 'thorough' else 10 ** 6


def rsize(rng, a, b, cap=40):
    """a size between a and b; sometimes larger, or around a number found in changed code (escalated runs only)"""
    if MINED['ints'] and rng.random() < .3:
        v = abs(rng.choice(MINED['ints'])) + rng.choice([-1, 0, 1, 1])
        if v >= a and v <= max(cap, b):
            return v
    if WIDE[0] and rng.random() < .1:
        return rng.randint(a, min(cap, 3 * b + 4))
    return rng.randint(a, b)


def rfloat(rng, vals):
    """one of the given numbers; sometimes one found in changed code"""
    if MINED['floats'] and rng.random() < .3:
        return rng.choice(MINED['floats']) + rng.choice([0, 0, 1e-3, -1e-3])
    if MINED['ints'] and rng.random() < .1:
        return float(rng.choice(MINED['ints']))
    return rng.choice(list(vals))


def rweight(rng, vals):
    """as rfloat, but a usable penalty weight: nothing, or a positive number of moderate size"""
    w = rfloat(rng, vals)
    return None if w is None else min(max(abs(w), 1e-2), 50.0)


def rnames(rng, pool, k):
    """k different names; sometimes some found in changed code, or generated ones"""
    pool = list(pool)
    out = []
    if MINED['strs'] and rng.random() < .6:
        out = rng.sample(MINED['strs'], min(k, len(MINED['strs']), rng.randint(1, 3)))
    rest = [n for n in pool if n not in out]
    while len(rest) + len(out) < k:
        n = rng.choice(['k', 'q', 'Z', '_', 'x1']) + str(rng.randint(0, 10 ** 6))
        if n not in rest and n not in out:
            rest.append(n)
    out = out + rng.sample(rest, k - len(out))
    rng.shuffle(out)
    return out


def ensure(cond, msg, *a):
    if not bool(cond):
        raise Violated(msg % a if a else msg)


def _alarm(signum, frame):
    raise CaseTimeout('time limit for one call exceeded')


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def expect_raises(fn, msg, kinds=(Exception,)):
    """The contract says this call must be refused."""
    try:
        r = fn()
    except CaseTimeout:
        raise
    except kinds:
        return
    except Skip:
        raise
    raise Violated(msg + ' (was accepted, returned %s)' % short(r))


def short(x, n=200):
    s = repr(x)
    return s if len(s) < n else s[:n] + '...'


def in_repo(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(REPO) + os.sep):
            return True
        tb = tb.tb_next
    return False


def unusable(e):
    """the contract could not even use what the code returned (a missing gradient, nothing instead of a tensor, a missing entry, another
    number of dimensions); not: the harness does not know how to call the code"""
    import torch
    import numpy as np
    if isinstance(e, (RuntimeError, IndexError, KeyError)):
        return True
    if isinstance(e, AttributeError):
        return e.obj is None or isinstance(e.obj, (torch.Tensor, np.ndarray, float, int, str, list, tuple, dict))
    if isinstance(e, TypeError):
        return 'NoneType' in str(e)
    return False


@contextlib.contextmanager
def evaluation_mode(on):
    """every module built during the case is in evaluation mode (the contracts do not depend on it)"""
    if not on:
        yield
        return
    import torch
    orig = torch.nn.Module.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        self.__dict__['training'] = False
    torch.nn.Module.__init__ = init
    try:
        yield
    finally:
        torch.nn.Module.__init__ = orig


def run_case(cm, case, limit=30):
    """-> ('ok'|'skip'|'violated'|'unusable'|'harness', message)"""
    import torch
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    dt = torch.get_default_dtype()
    try:
        torch.manual_seed(int(case.get('seed', 0)) if isinstance(case, dict) else 0)
        with quiet(), evaluation_mode(isinstance(case, dict) and int(case.get('seed', 0)) % 3 == 1):
            cm.check_case(case)
        return 'ok', ''
    except Skip as e:
        return 'skip', str(e)
    except Violated as e:
        return 'violated', str(e)
    except CaseTimeout as e:
        if in_repo(sys.exc_info()[2]):
            return 'violated', 'call does not return within %s s\n%s' % (limit, traceback.format_exc(limit=-6))
        return 'skip', 'harness time limit'
    except MemoryError as e:
        return 'skip', 'memory'
    except Exception as e:
        if in_repo(sys.exc_info()[2]):
            return 'violated', 'the call raised %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6))
        if isinstance(e, RuntimeError) and ('appears to not have been used in the graph' in str(e) or 'does not require grad' in str(e)):
            return 'violated', 'no gradient: %s\n%s' % (e, traceback.format_exc(limit=-6))
        return 'unusable' if unusable(e) else 'harness', traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        torch.set_default_dtype(dt)


# ---------------------------------------------------------------- helpers used by the contracts
def SD(*a, **k):
    from sortedcontainers import SortedDict
    return SortedDict(*a, **k)


def rand(shape, dtype=None, grad=False):
    import torch
    t = torch.randn(*shape, dtype=dtype) if len(shape) else torch.randn((), dtype=dtype)
    if grad:
        t.requires_grad_(True)
    return t


def same(a, b):
    """bitwise equal values and equal shapes"""
    import torch
    return tuple(a.shape) == tuple(b.shape) and bool(torch.equal(torch.as_tensor(a), torch.as_tensor(b)))


def close(a, b, rtol=1e-6, atol=1e-8):
    import torch
    a = torch.as_tensor(a).detach()
    b = torch.as_tensor(b).detach()
    if tuple(a.shape) != tuple(b.shape):
        return False
    a = a.double(); b = b.double()
    sc = max(1.0, float(b.abs().max()) if b.numel() else 1.0)
    if not (torch.isfinite(a) == torch.isfinite(b)).all():
        return False
    f = torch.isfinite(b)
    return bool(((a[f] - b[f]).abs() <= atol * sc + rtol * torch.maximum(b[f].abs(), torch.tensor(sc * 1e-2, dtype=b.dtype))).all())


def snapshot(d):
    """copy of (nested) dict-of-tensors used to check that inputs are not modified"""
    if hasattr(d, 'items') and not hasattr(d, 'shape'):
        return {k: snapshot(v) for k, v in d.items()}
    if hasattr(d, 'clone'):
        return d.detach().clone()
    return d


def unchanged(d, snap, path=''):
    if isinstance(snap, dict):
        ensure(list(d.keys()) == list(snap.keys()), 'input dictionary %s was modified: keys %s, before %s', path, list(d.keys()), list(snap.keys()))
        for k in snap:
            unchanged(d[k], snap[k], path + '/' + str(k))
    elif hasattr(snap, 'shape'):
        ensure(same(d.detach(), snap), 'input tensor %s was modified', path)
    else:
        ensure(d == snap or d is snap, 'input value %s was modified', path)


def dd_equal(got, want, what, tol=None, names=None):
    """dict of dicts of tensors equal"""
    ensure(list(got.keys()) == list(want.keys()), '%s: blocks %s, expected %s', what, list(got.keys()), list(want.keys()))
    for b in want:
        d_equal(got[b], want[b], what + '/' + str(b), tol)


def d_equal(got, want, what, tol=None):
    ensure(list(got.keys()) == list(want.keys()), '%s: entries %s, expected %s', what, list(got.keys()), list(want.keys()))
    for k in want:
        t_equal(got[k], want[k], what + '/' + str(k), tol)


def t_equal(g, w, what, tol=None):
    ensure(tuple(g.shape) == tuple(w.shape), '%s: shape %s, expected %s', what, tuple(g.shape), tuple(w.shape))
    if tol is None:
        ensure(same(g, w), '%s: values differ: %s expected %s', what, short(g), short(w))
    else:
        ensure(close(g, w, rtol=tol), '%s: values differ: %s expected %s', what, short(g), short(w))
