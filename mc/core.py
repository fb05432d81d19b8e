"""Shared machinery: recorder, numeric reference evaluation, deterministic data.

Nothing in this file (or in mc/checks) calls a random number generator: the
explored spaces are enumerated and the matrices used as "generic" data are
fixed functions of their indices.
"""
import hashlib
import itertools
import math

import numpy as np
import sympy


class Timeout(Exception):
    pass


class Abort(Exception):
    """Raised by Recorder.require when continuing the case makes no sense."""


class Recorder:
    """Collects what one case explored and what it found wrong."""

    MAX_VIOL = 5
    known = frozenset()    # keys of recorded findings, set by the driver

    def __init__(self, desc):
        self.desc = desc
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.violations = []   # (key, message)
        self.known_seen = set()
        self.sample = None

    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def outcome(self, *key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def check(self, cond, key, msg=''):
        """Record a violation unless cond.  `msg` may be a callable."""
        if not bool(cond):
            if str(key) in self.known:
                self.known_seen.add(str(key))
                return False
            if len(self.violations) < self.MAX_VIOL:
                m = msg() if callable(msg) else msg
                self.violations.append((str(key), str(m)[:2000]))
            return False
        return True

    def require(self, cond, key, msg=''):
        if not self.check(cond, key, msg):
            raise Abort

    def fails(self, exc, key, fn, msg=''):
        """The call must raise one of exc (rejection of malformed input)."""
        self.step()
        try:
            r = fn()
        except exc:
            self.trace()
            return
        self.check(False, key, 'accepted instead of rejected: %s -> %r' % (msg, r))


# ---------------------------------------------------------------------------
# numeric reference evaluation of sympy expressions

_FUN = {'log': np.log, 'sin': np.sin, 'cos': np.cos, 'exp': np.exp, 'sqrt': np.sqrt, 'tan': np.tan}


def ev(expr, env):
    """Evaluate a sympy expression numerically; symbols are looked up by name."""
    if isinstance(expr, sympy.Symbol):
        n = expr.name
        if n in env:
            return env[n]
        if n == 'e':
            return math.e
        raise KeyError('unexpected free symbol %s' % n)
    if expr is sympy.I:
        return 1j
    if isinstance(expr, sympy.Integer):
        return int(expr)
    if expr.is_Number or isinstance(expr, sympy.NumberSymbol):
        return complex(expr) if not expr.is_real else float(expr)
    if isinstance(expr, sympy.Add):
        return sum(ev(a, env) for a in expr.args)
    if isinstance(expr, sympy.Mul):
        r = 1
        for a in expr.args:
            r = r * ev(a, env)
        return r
    if isinstance(expr, sympy.Pow):
        b, x = expr.args
        x = ev(x, env)
        if isinstance(x, int):
            b = ev(b, env)
            return b ** x if x >= 0 else 1 / complex(b) ** (-x)
        return complex(ev(b, env)) ** x
    if isinstance(expr, sympy.exp):
        return np.exp(complex(ev(expr.args[0], env)))
    if isinstance(expr, sympy.Function) or hasattr(expr, 'func'):
        name = getattr(expr.func, '__name__', str(expr.func))
        if name in _FUN:
            return _FUN[name](*[complex(ev(a, env)) for a in expr.args])
        if name in env:
            return env[name](*[ev(a, env) for a in expr.args])
    raise TypeError('cannot evaluate %r (%s)' % (expr, type(expr)))


def dense(val):
    """Any supported value type -> dense complex ndarray (0-d for numbers)."""
    import scipy.sparse
    import scipy.sparse.linalg
    if scipy.sparse.issparse(val):
        return np.asarray(val.todense(), dtype=complex)
    if isinstance(val, scipy.sparse.linalg.LinearOperator):
        return np.asarray(val @ np.eye(val.shape[1]), dtype=complex)
    return np.asarray(val, dtype=complex)


def ev_key(key, env, momenta):
    """Value of a term's symbolic prefactor (sympy expression or Bloch pair)."""
    if isinstance(key, tuple):
        hop, coeff = key
        k = np.array([env[m.name] for m in momenta])
        return np.exp(1j * np.dot(np.asarray(hop, float), k)) * ev(coeff, env)
    return ev(sympy.sympify(key), env)


def ev_model(model, env, shape=None):
    """Value of a model at a point; `shape` used for empty models."""
    r = np.zeros(model.shape if shape is None else shape, complex)
    for key, val in model.items():
        r = r + ev_key(key, env, model.momenta) * dense(val)
    return r


# fixed generic evaluation points: every name gets a real irrational number
def _frac(x):
    return x - math.floor(x)


def point(i, names, scale=1.0):
    env = {}
    for n in names:
        h = int.from_bytes(hashlib.blake2b(('%s/%d' % (n, i)).encode(), digest_size=4).digest(), 'big')
        env[n] = scale * (2 * _frac(h * 0.6180339887498949) - 1) + 0.05
    return env


ALLNAMES = ('k_x', 'k_y', 'k_z', 'a', 'b', 'c', 'd', 'm', 'p', 'q', 'r', 'x', 'y', 'z', 'k', 'alpha', 'mu', 't',
            'k_1', 'k_2', 'k_3', 'px', 'py', 'pz', 'w', 'u', 'v', 's')


def points(n=3, names=ALLNAMES, scale=1.0):
    return [point(i, names, scale) for i in range(n)]


# ---------------------------------------------------------------------------
# deterministic "generic" matrices

def gen(shape, k, real=False):
    """Deterministic generic matrix number k."""
    shape = tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    i = np.arange(1, n + 1)
    a = np.sin(1.3 + 12.9898 * i + 78.233 * (k + 1)) * 43758.5453
    b = np.sin(0.7 + 39.3467 * i + 11.135 * (k + 1)) * 24634.6345
    a = 2 * (a - np.floor(a)) - 1
    b = 2 * (b - np.floor(b)) - 1
    m = a.reshape(shape) if real else (a + 1j * b).reshape(shape)
    return m


def herm(n, k, real=False):
    m = gen((n, n), k, real)
    return (m + m.conj().T) / 2


def unit(n, k, real=False):
    """Deterministic generic unitary / orthogonal matrix number k."""
    q, r = np.linalg.qr(gen((n, n), k, real))
    d = np.diag(r)
    return q * (d / np.abs(d))


def rank(vs, tol=1e-7):
    vs = np.asarray(vs)
    if vs.size == 0:
        return 0
    s = np.linalg.svd(vs.reshape(len(vs), -1), compute_uv=False)
    return int(np.sum(s > tol * max(1, s[0])))


def null(a, tol=1e-8):
    """Rows spanning {x: a x = 0} (reference implementation)."""
    a = np.atleast_2d(np.asarray(a))
    u, s, vh = np.linalg.svd(a, full_matrices=True)
    r = int(np.sum(s > tol * max(1.0, s[0] if len(s) else 1.0)))
    return vh[r:].conj()


def rrank(vs, tol=1e-7):
    """rank over the reals of complex vectors"""
    vs = np.asarray(vs)
    if vs.size == 0:
        return 0
    vs = vs.reshape(len(vs), -1)
    return rank(np.hstack([vs.real, vs.imag]), tol)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    sc = max(1.0, float(np.max(np.abs(b))))
    d = np.max(np.abs(a - b))
    return bool(d <= tol * sc)


def rnd(a, n=5):
    """Rounded canonical form of an array for state keys."""
    a = np.round(np.asarray(a, dtype=complex), n) + (0.0 + 0.0j)
    return a.tobytes()


def subsets(xs, lo=0, hi=None):
    xs = list(xs)
    hi = len(xs) if hi is None else hi
    for n in range(lo, hi + 1):
        yield from itertools.combinations(xs, n)


# ---------------------------------------------------------------------------
# finite groups as plain data (independent of the library)

def rot2(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, -s], [s, c]])


def rot3(axis, t):
    n = np.asarray(axis, float)
    n = n / np.linalg.norm(n)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


def closure(mats, key=lambda m: rnd(m, 4)):
    """Close a list of numpy matrices under multiplication (reference)."""
    out = {}
    queue = list(mats)
    n = np.asarray(mats[0]).shape[0]
    out[key(np.eye(n))] = np.eye(n)
    gens = list(mats)
    frontier = [np.eye(n)]
    while frontier:
        new = []
        for x in frontier:
            for g in gens:
                y = x @ g
                k = key(y)
                if k not in out:
                    out[k] = y
                    new.append(y)
        frontier = new
        if len(out) > 2000:
            raise RuntimeError('group too large')
    return list(out.values())


def spin_mats(s):
    """Reference spin matrices from the ladder-operator definition."""
    d = int(round(2 * s + 1))
    m = [s - i for i in range(d)]
    Sp = np.zeros((d, d), complex)
    for i in range(1, d):
        Sp[i - 1, i] = np.sqrt(s * (s + 1) - m[i] * (m[i] + 1))
    Sm = Sp.conj().T
    return np.array([(Sp + Sm) / 2, (Sp - Sm) / 2j, np.diag(m).astype(complex)])


def expih(H, t=1.0):
    """exp(-i t H) for Hermitian H (reference)."""
    w, v = np.linalg.eigh(H)
    return (v * np.exp(-1j * t * w)) @ v.conj().T
