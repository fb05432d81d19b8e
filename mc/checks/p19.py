"""P19: family post-processing preserves exactly the intended linear span."""
import contextlib
import functools
import io
import itertools

import numpy as np
import sympy

from mc import families as F
from mc.core import spin_mats, dense, ev_key, point, close, rrank, gen, unit, subsets
from mc.checks import p08, p16
from qsymm.groups import PointGroupElement, ContinuousGroupGenerator
from qsymm.hamiltonian_generator import (check_symmetry, constrain_family, display_family, hamiltonian_from_family,
                                         make_basis_pretty, remove_duplicates, round_family, subtract_family, symmetrize_monomial)
from qsymm.linalg import family_to_vectors
from qsymm.model import BlochModel, Model

ASSUMPTIONS = ['families are given as lists or tuples of Models of one shape, storage (dense) and momenta; the span is the one over the real numbers, as for Hermitian terms',
               'members have coefficients that are small integers or fixed generic numbers, so that ranks are unambiguous',
               'rounding of a family to d digits is judged to half a unit of the last digit, and prettified families (documented as possibly unstable) to one unit times the number of terms',
               'symmetrize_monomial is given closed groups']
BOUNDS = {'quick': 'all families of up to 3 members out of an alphabet of 14 (zero, multiples, sums, differences, non-Hermitian) in 5 representations (polynomial, exponentials, lattice, parameters, scalars), families of up to 9 generic members of every rank; all pairs of families of up to 3 and up to 2 members of 9 for subtraction; 4 tolerances x 7 perturbations; all 1-3 term combinations x 6 kinds of coefficients; averages over 20 groups (every subgroup type of D4, D6, Oh with generic, spin and permutation representations, with and without antiunitary and antisymmetric elements) of every alphabet member; the symmetry check and the constraint on all families of up to 2 members x all 1-2 element lists of 24 discrete and 8 continuous operations, with the violation in every position and perturbations 1e-12 to 1',
          'thorough': 'families of up to 4 members, subtraction of all pairs up to 3 and 3, all lists of up to 3 operations'}

S = np.array([np.eye(2)] + [2 * s for s in spin_mats(.5)])
NAMES = ('k_x', 'k_y', 'm', 'k_z', 'p', 'q')
NP = 14
PTS = [point(i, NAMES, 1.3) for i in range(NP)]

# representation -> (class, momenta, keys, matrices)
REPS = {
    'poly': (Model, ('k_x', 'k_y'), ['1', 'k_x', 'k_y', 'k_x*k_y'], S),
    'bloch': (BlochModel, ('k_x', 'k_y'), ['1', 'e**(I*k_x)', 'e**(-I*k_x)', 'e**(I*k_y)*e**(-I*k_x)'], S),
    'expo': (Model, ('k_x', 'k_y'), ['1', 'e**(I*k_x)', 'e**(-I*k_x)', 'e**(I*k_y/2)'], np.array([np.kron(S[1], S[0]), np.kron(S[2], S[3]), np.eye(4), np.kron(S[3], S[2])])),
    'par': (Model, ('p', 'q'), ['m', 'p', 'm*p**2', 'q*p**3'], np.array([np.eye(3)] + [np.roll(np.diag([1, 1j, -1]), i, 1) for i in range(3)])),
    'one': (Model, ('k_x', 'k_y'), ['1', 'k_x', 'm*k_x', 'k_y**2'], np.array([[[1]], [[1j]], [[2]], [[-1j]]])),
}

# members: {(key, matrix): coefficient}
A, B, C, D = {(0, 1): 1}, {(1, 2): 1}, {(2, 3): 1}, {(1, 1): 1}


def comb(*xs):
    out = {}
    for c, m in xs:
        for k, v in m.items():
            out[k] = out.get(k, 0) + c * v
    return {k: v for k, v in out.items() if v}


ALPH = [A, B, comb((2, A)), comb((-1, B)), comb((1, A), (1, B)), comb((1, A), (-1, B)), {}, comb((1, A), (2, B), (3, C)), C, comb((1, B), (1, C)),
        comb((1j, A)), comb((1, D), (1, B)), {(0, 0): 1, (3, 2): -2}, comb((.5, D), (-1, {(2, 2): 1}))]


def make(rep, mem, zero=False):
    cls, mom, keys, mats = REPS[rep]
    d = {}
    for (k, m), c in mem.items():
        d[keys[k]] = d.get(keys[k], 0) + c * np.array(mats[m], complex)
    if zero and not d:
        d = {keys[0]: np.zeros(mats[0].shape, complex)}
    return cls(d, momenta=list(mom), shape=mats[0].shape, format=np.ndarray)


def ref(rep, mem):
    cls, mom, keys, mats = REPS[rep]
    x = np.zeros((len(keys),) + mats[0].shape, complex)
    for (k, m), c in mem.items():
        x[k] += c * mats[m]
    return x


@functools.lru_cache(None)
def basis(rep):
    cls, mom, keys, mats = REPS[rep]
    ms = [sympy.Symbol(m) for m in mom]
    env = [dict(p, e=np.e) for p in PTS]
    return np.linalg.pinv(np.array([[complex(ev_key(k, e, ms)) for k in keys] for e in env])), np.array([[complex(ev_key(k, e, ms)) for k in keys] for e in env])


_kv = {}


def keyvec(rep, key, momenta):
    """coefficients of a key in terms of the reference keys, None if foreign"""
    h = (rep, str(key), tuple(map(str, momenta)))
    if h not in _kv:
        P, V = basis(rep)
        try:
            v = np.array([complex(ev_key(key, e, momenta)) for e in PTS])
            c = P @ v
            _kv[h] = c if np.allclose(V @ c, v, atol=1e-9) else None
        except (KeyError, TypeError):
            _kv[h] = None
    return _kv[h]


def read(rep, member):
    """library model -> coefficient array, or a string"""
    cls, mom, keys, mats = REPS[rep]
    if type(member) is not cls:
        return 'type %s' % type(member)
    if tuple(member.shape) != mats[0].shape or tuple(map(str, member.momenta)) != mom:
        return 'shape %s momenta %s' % (member.shape, member.momenta)
    x = np.zeros((len(keys),) + mats[0].shape, complex)
    for k, v in member.items():
        c = keyvec(rep, k, member.momenta)
        v = dense(v)
        if c is None:
            if np.abs(v).max() > 1e-9:
                return 'unexpected term %s' % (k,)
            continue
        x += c[:, None, None] * v
    return x


def vecs(xs, n):
    if not len(xs):
        return np.zeros((0, 2 * n))
    xs = np.array(xs).reshape(len(xs), -1)
    return np.hstack([xs.real, xs.imag])


def orth(v):
    if not len(v):
        return v
    u, s, vh = np.linalg.svd(v, full_matrices=False)
    return vh[:np.sum(s > 1e-7)]


def readall(R, rep, fam, label, info):
    if not R.check(isinstance(fam, (list, tuple)), label + ': not a list', info):
        return None
    xs = []
    for m in fam:
        x = read(rep, m)
        if not R.check(not isinstance(x, str), label + ': form of the result', lambda: '%s: %s' % (info(), x)):
            return None
        xs.append(x)
    n = REPS[rep][3][0].size * len(REPS[rep][2])
    return vecs(xs, n)


def spans(R, got, want, label, info, tol=1e-6, indep=True):
    """got: vectors, want: orthonormal basis of the intended span"""
    if indep:
        if not R.check(len(got) == len(want), label + ': dimension', lambda: '%s: %d members, expected %d' % (info(), len(got), len(want))):
            return
    if not len(got):
        return
    d = got - (got @ want.T) @ want
    sc = max(np.abs(got).max(), 1e-3)
    if not R.check(np.abs(d).max() < tol * sc if len(d) else True, label + ': outside the span', lambda: '%s: %.2g\n%s' % (info(), np.abs(d).max(), got)):
        return
    s = np.linalg.svd(got, compute_uv=False)
    R.check(np.sum(s > 1e-6 * s[0]) == len(want), label + ': span lost', lambda: '%s: %s' % (info(), s))


def snap(fam):
    return [(list(m.keys()), [np.array(v) for v in m.values()]) for m in fam]


def unchanged(a, fam):
    return len(a) == len(fam) and all(x[0] == list(m.keys()) and all(np.array_equal(u, v) for u, v in zip(x[1], m.values())) for x, m in zip(a, fam))


def check_one(R, rep, mems, lib, info, digits=(2,), pretty=True):
    n = REPS[rep][3][0].size * len(REPS[rep][2])
    v = vecs([ref(rep, m) for m in mems], n)
    q = orth(v)
    before = snap(lib)
    h = len(info())
    fam = lib if h % 3 else tuple(lib)
    R.step(2)
    # duplicates
    out = remove_duplicates(fam)
    got = readall(R, rep, out, 'remove_duplicates', info)
    if got is not None:
        spans(R, got, q, 'remove_duplicates', info)
    # prettify
    if pretty:
        for d in digits:
            out = make_basis_pretty(fam, num_digits=d) if d != 2 else make_basis_pretty(fam)
            got = readall(R, rep, out, 'make_basis_pretty', info)
            if got is not None:
                if len(q) < len(v):     # only independent families need to stay minimal
                    got = got[np.abs(got).max(axis=1, initial=0) > 1e-9]
                spans(R, got, q, 'make_basis_pretty %d' % d, info, tol=10. ** -d * max(1, len(v)))
    # rounding
    for d in (3, 1):
        out = round_family(fam, d) if d != 3 else round_family(fam)
        got = readall(R, rep, out, 'round_family', info)
        if got is not None and R.check(len(got) == len(v), 'round_family: number of members', info):
            R.check(np.abs(got - v).max() <= .5 * 10. ** -d + 1e-9, 'round_family: changed too much', info)
            R.check(np.allclose(got * 10 ** d, np.round(got * 10 ** d), atol=1e-6), 'round_family: not rounded', info)
    # vectors
    w = family_to_vectors(fam)
    ok = isinstance(w, np.ndarray) and w.ndim == 2 and len(w) == len(v) and np.isrealobj(w)
    if R.check(ok, 'family_to_vectors: form', info):
        R.check(np.allclose(w @ w.T, v @ v.T, atol=1e-8), 'family_to_vectors: inner products', info)
    R.check(unchanged(before, lib), 'input changed', info)
    R.trace()
    return v


def lists(desc, R):
    rep = desc['rep']
    lib = [make(rep, m, i % 2) for i, m in enumerate(ALPH)]
    for first in desc['first']:
        for n in range(desc['n']):
            for rest in itertools.product(range(len(ALPH)), repeat=n):
                if desc['n'] > 3 and n == 3 and list(rest) != sorted(rest):
                    continue
                ii = (first,) + rest
                R.state(rep, ii)
                check_one(R, rep, [ALPH[i] for i in ii], [lib[i] for i in ii], lambda: '%s %s' % (rep, ii))
    # the empty family
    for f in (remove_duplicates, make_basis_pretty, round_family):
        R.check(len(f([])) == 0, 'empty family', f.__name__)


def generic(desc, R):
    """families of generic members with prescribed linear relations"""
    for rep in REPS:
        cls, mom, keys, mats = REPS[rep]
        n = mats[0].size * len(keys)
        for r, extra, herm in itertools.product(range(1, 6), range(0, 5), (0, 1)):
            base = [gen((len(keys),) + mats[0].shape, 10 * r + i) for i in range(r)]
            if herm:
                base = [x + np.swapaxes(x.conj(), 1, 2) for x in base]
            if rep == 'one' and herm and r > 4:
                continue
            co = np.round(gen((extra, r), r + 7 * extra, True) * 3) if extra else np.zeros((0, r))
            xs = list(base) + [sum(c * b for c, b in zip(row, base)) for row in co]
            order = sorted(range(len(xs)), key=lambda i: (i * 7 + r) % len(xs))
            xs = [xs[i] for i in order]
            lib = [cls({k: x[j].copy() for j, k in enumerate(keys)}, momenta=list(mom)) for x in xs]
            v = vecs(xs, n)
            q = orth(v)
            info = lambda: '%s rank %d of %d' % (rep, r, len(xs))  # noqa: E731
            R.state(rep, r, extra, herm)
            R.step(3)
            got = readall(R, rep, remove_duplicates(lib), 'remove_duplicates generic', info)
            if got is not None:
                spans(R, got, q, 'remove_duplicates generic', info)
            w = family_to_vectors(lib)
            R.check(np.allclose(w @ w.T, v @ v.T), 'family_to_vectors: inner products', info)
            # two families in one ordering
            allk = list(set().union(*[set(m.keys()) for m in lib]))
            w1, w2 = family_to_vectors(lib[:1], all_keys=allk), family_to_vectors(lib[-1:], all_keys=allk)
            R.check(np.allclose(w1 @ w2.T, v[:1] @ v[-1:].T), 'family_to_vectors: common ordering', info)
            # subtraction of random subspaces and refusal
            if r > 1:
                sub = [lib[0] * 2 + lib[-1]] if extra % 2 else [base_model(cls, keys, mom, xs[0]), base_model(cls, keys, mom, xs[-1])]
                sv = [2 * xs[0] + xs[-1]] if extra % 2 else [xs[0], xs[-1]]
                subtract(R, rep, lib, sub, v, vecs(sv, n), info)
                z = gen((len(keys),) + mats[0].shape, 99)
                if len(q) < 2 * n:
                    subtract(R, rep, lib, [base_model(cls, keys, mom, z)], v, vecs([z], n), info)
            R.trace()


def base_model(cls, keys, mom, x):
    return cls({k: x[j].copy() for j, k in enumerate(keys)}, momenta=list(mom))


def subtract(R, rep, f1, f2, v1, v2, info, **kw):
    R.step()
    q1, q2 = orth(v1), orth(v2)
    proj = v1 - (v1 @ q2.T) @ q2
    possible = np.abs(proj - (proj @ q1.T) @ q1).max(initial=0) < 1e-6
    b1, b2 = snap(f1), snap(f2)
    try:
        out = subtract_family(f1, f2, **kw)
    except ValueError:
        R.check(not possible, 'subtract_family: refused', info)
        out = None
    if out is not None:
        if R.check(possible, 'subtract_family: accepted', info):
            got = readall(R, rep, out, 'subtract_family', info)
            if got is not None:
                want = orth(proj)
                if not f2 and len(got) == len(v1):
                    R.check(close(got, v1), 'subtract_family: nothing to subtract', info)
                else:
                    spans(R, got, want, 'subtract_family', info)
                    if len(q2) and len(got):
                        R.check(np.abs(got @ q2.T).max() < 1e-6 * np.abs(got).max(), 'subtract_family: not orthogonal', info)
    R.outcome('subtract', possible, out is not None and len(out))
    R.check(unchanged(b1, f1) and unchanged(b2, f2), 'subtract_family: input changed', info)


ALPH2 = [0, 1, 4, 5, 6, 7, 8, 9, 12]


def sub(desc, R):
    rep = desc['rep']
    n = REPS[rep][3][0].size * len(REPS[rep][2])
    lib = {i: make(rep, ALPH[i], i % 2) for i in ALPH2}
    rf = {i: ref(rep, ALPH[i]) for i in ALPH2}
    cnt = 0
    f2s = [y for k in range(desc['n2'] + 1) for y in itertools.combinations_with_replacement(ALPH2, k)]
    for k in range(desc['n1']):
        for rest in itertools.product(ALPH2, repeat=k):
            x = (desc['first'],) + rest
            f1, v1 = [lib[i] for i in x], vecs([rf[i] for i in x], n)
            for y in f2s:
                cnt += 1
                if desc['skip'] and k == 2 and (cnt % desc['skip']):
                    continue
                R.state(rep, x, y)
                kw = {'prettify': True} if cnt % 5 == 0 else {}
                subtract(R, rep, f1, [lib[i] for i in y], v1, vecs([rf[i] for i in y], n), lambda: '%s %s minus %s %s' % (rep, x, y, kw), **kw)
    out = subtract_family([], [lib[0]])
    R.check(len(out) == 0, 'subtract from the empty family')
    R.trace()


def tols(desc, R):
    """the tolerance decides which differences count"""
    for rep in REPS:
        n = REPS[rep][3][0].size * len(REPS[rep][2])
        for eps, tol in itertools.product((1e-13, 1e-11, 1e-6, 1e-4, 1e-3, .1, 1.), (None, 1e-8, 1e-5, 1e-2)):
            t = tol or 1e-8
            if .05 < eps / t < 20:
                continue
            R.state(rep, eps, tol)
            R.step(3)
            kw = {} if tol is None else {'tol': tol}
            fam = [make(rep, A), make(rep, comb((1, A), (eps, C))), make(rep, B)]
            keep = eps > t
            info = lambda: '%s eps %g tol %s' % (rep, eps, tol)  # noqa: E731
            out = remove_duplicates(fam, **kw)
            R.check(len(out) == (3 if keep else 2), 'remove_duplicates: tolerance', lambda: '%s: %d' % (info(), len(out)))
            try:
                out = subtract_family(fam, [make(rep, A)], **kw)
                R.check(len(out) == (2 if keep else 1), 'subtract_family: tolerance', lambda: '%s: %d' % (info(), len(out)))
            except ValueError:
                R.check(False, 'subtract_family: refused', info)
            # a family that differs slightly from being inside
            if t < eps < 1e-4:
                continue
            f2 = [make(rep, comb((1, A), (eps, C)))]
            try:
                out = subtract_family([make(rep, A), make(rep, B)], f2, **kw)
                R.check(not keep and len(out) == 1, 'subtract_family: tolerance of the refusal', info)
            except ValueError:
                R.check(keep, 'subtract_family: tolerance of the refusal', info)
    R.trace()


def pretty(desc, R):
    """prettified families have the fewest entries in simple cases and keep the requested digits"""
    for rep in REPS:
        n = REPS[rep][3][0].size * len(REPS[rep][2])
        for num, den in itertools.product(range(-7, 8), range(1, 8)):
            for d in (1, 2, 4, 8):
                mem = [comb((den, A), (num, C)), comb((1, A), (1, B), (num, C))]
                R.state(rep, num, den, d)
                check_pretty(R, rep, mem, d)
        for c in ((.3, .7, -1.1), (1 / 3, np.sqrt(2), np.pi), (1e3, 2e3, -5e2), (.02, .03, -.05)):
            for d in (3, 6, 10):
                mem = [comb((c[0], A), (c[1], B)), comb((c[1], B), (c[2], C)), comb((c[0], A), (c[2], C), (c[1], D))]
                R.state(rep, c, d)
                check_pretty(R, rep, mem, d)
    R.trace()


def check_pretty(R, rep, mem, d):
    R.step()
    n = REPS[rep][3][0].size * len(REPS[rep][2])
    q = orth(vecs([ref(rep, m) for m in mem], n))
    info = lambda: '%s %s digits %d' % (rep, mem, d)  # noqa: E731
    got = readall(R, rep, make_basis_pretty([make(rep, m) for m in mem], num_digits=d), 'make_basis_pretty', info)
    if got is not None:
        if R.check(len(got) == len(q), 'make_basis_pretty: dimension', info):
            dev = np.abs(got - (got @ q.T) @ q).max()
            R.check(dev <= 4 * 10. ** -d, 'make_basis_pretty: accuracy', lambda: '%s: %.2g' % (info(), dev))
            R.check(d > 8 or np.allclose(got * 10. ** d, np.round(got * 10. ** d), atol=1e-5), 'make_basis_pretty: digits', info)
            if d >= 2:
                R.check(np.linalg.matrix_rank(got, 1e-6) == len(q), 'make_basis_pretty: span', info)


def combos(desc, R):
    cs = [('default', None), ('symbols', ['a', 'b', 'c_2']), ('numbers', [2, -.5, 3]), ('exact', [sympy.Rational(1, 3), sympy.sqrt(2), -2]), ('expr', [sympy.Symbol('a') * 2, sympy.Symbol('a') + sympy.Symbol('b'), sympy.Symbol('b') ** 2]), ('mom', [sympy.Symbol('k_x', commutative=True), 1, sympy.Symbol('m')]), ('imag', [sympy.I, 2 * sympy.I, 1j])]
    rep = desc['rep']
    cls, mom, keys, mats = REPS[rep]
    lib = [make(rep, m, i % 2) for i, m in enumerate(ALPH)]
    rf = [ref(rep, m) for m in ALPH]
    P, V = basis(rep)
    for k in (1, 2, 3):
        for n, ii in enumerate(itertools.combinations(range(len(ALPH)), k)):
            if k > 1 and n % (2 if k == 2 else 8):
                continue
            for nm, c in cs:
                if nm in ('mom', 'expr') and rep == 'bloch':    # coefficients of hoppings are single terms without momenta
                    continue
                info = lambda: '%s %s %s' % (rep, ii, nm)  # noqa: E731
                coeffs = None if c is None else [sympy.Symbol(x, commutative=True) if isinstance(x, str) else x for x in c[:k]]
                exprs = [sympy.Symbol('c%d' % j) for j in range(k)] if c is None else coeffs
                fam = [lib[i] for i in ii]
                R.state(rep, ii, nm)
                envs = [dict(p, a=.7 + j, b=-1.3 + .1 * j, c0=1.1 + j, c1=-.6, c2=.25 * j, c_2=2.2) for j, p in enumerate(PTS[:3])]

                def want(env, j):
                    cc = [complex(sympy.sympify(x).subs({s: env[s.name] for s in sympy.sympify(x).free_symbols})) for x in exprs]
                    return sum(y * np.tensordot(V[j], rf[i], 1) for y, i in zip(cc, ii))
                wants = [want(e, j) for j, e in enumerate(envs)]
                # as a model
                R.step()
                kw = {} if coeffs is None else {'coeffs': coeffs}
                try:
                    m = hamiltonian_from_family(fam, tosympy=False, **kw)
                except Exception as e:
                    R.check(False, 'hamiltonian_from_family raised', '%s %r' % (info(), e))
                    continue
                R.check(type(m) is cls and tuple(map(str, m.momenta)) == mom, 'hamiltonian_from_family: type', info)
                val = [sum([complex(ev_key(kk, e, m.momenta)) * dense(vv) for kk, vv in m.items()], np.zeros(mats[0].shape)) for e in envs]
                R.check(all(close(a, b) for a, b in zip(val, wants)), 'hamiltonian_from_family: value', info)
                # as an expression
                if k == 1 or n % 6 == len(nm) % 6:
                    for ns in ((True, False) if (n + len(nm)) % 4 == 0 else (True,)):
                        R.step()
                        try:
                            x = hamiltonian_from_family(fam, **dict(kw, **({} if ns else {'nsimplify': False})))
                        except Exception as e:
                            R.check(False, 'hamiltonian_from_family raised', '%s %r' % (info(), e))
                            continue
                        if R.check(isinstance(x, sympy.MatrixBase) and x.shape == mats[0].shape or x.is_Matrix, 'hamiltonian_from_family: expression', info):
                            R.check(all(close(evx(x, e), w, 1e-6) for e, w in zip(envs, wants)), 'hamiltonian_from_family: value of the expression', lambda: '%s %s' % (info(), x))
    for bad in ([sympy.Symbol('a')], [1, 2, 3]):
        R.fails((AssertionError, ValueError), 'number of coefficients', lambda: hamiltonian_from_family([lib[0], lib[1]], coeffs=bad))
    # display prints what it should
    fam = [lib[0], lib[4], lib[12]]
    for summed in (False, True):
        buf = io.StringIO()
        R.step()
        with contextlib.redirect_stdout(buf):
            r = display_family(fam, summed=summed, nsimplify=summed) if summed else display_family(fam)
        R.check(r is None and len(buf.getvalue()) > 0, 'display_family', str(summed))
        try:
            from IPython.display import display  # noqa: F401
        except ImportError:
            want = [fam[i].tosympy(nsimplify=True) for i in range(3)] if not summed else [hamiltonian_from_family(fam)]
            R.check(buf.getvalue().strip() == '\n'.join(map(str, want)), 'display_family: text', buf.getvalue)
    R.trace()


def evx(x, env):
    out = np.zeros(x.shape, complex)
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            e = x[i, j]
            out[i, j] = complex(e.subs({s: env[s.name] if s.name != 'e' else np.e for s in e.free_symbols}))
    return out


# ------------------------------------------------------------ symmetries

def ops2():
    """(name, reference op, library op) acting on 2x2 matrices and two momenta"""
    out = []
    for rn, us in (('E', '0xyz'), ('C2', 'z'), ('C4', ['r', '0']), ('Mx', 'x'), ('Md', ['xy']), ('C3', '0'), ('C6', ['u']), ('Mg', 'y')):
        for un in us:
            for c, a in (p08.FLAGS if rn in ('E', 'C2', 'C4') else [(False, False), (True, False)]):
                if rn == 'E' and un == '0' and not (c or a):
                    continue
                r, l, s = p16.make(2, rn, un, c, a, 2)
                out.append((rn + un + '*' * c + '-' * a, r, l))
    L = p16.L2
    for nm, rr, u in (('Lz', L, S[3] / 2), ('L0', L, np.zeros((2, 2))), ('-Lz', -L, S[3] / 2), ('sz', None, S[3]), ('sx', None, S[1]), ('id', None, S[0]), ('g', None, (S[1] + 2 * S[2]) / 3), ('Lx', L, S[1])):
        r, l, s = p16.cont(rr, np.asarray(u, complex))
        out.append((nm, r, l))
    return out


OPS = ops2()
MODES = F.monos(2, 0) + F.monos(2, 1) + F.monos(2, 2)
FNAMES = ('k_x', 'k_y')


def mono_key(p):
    return '*'.join(['%s**%d' % (k, e) for k, e in zip(FNAMES, p) if e]) or '1'


@functools.lru_cache(None)
def action(i):
    op = OPS[i][1]
    return np.block([[F.poly_action(F.monos(2, d), op, 2) if d == e else np.zeros((d + 1, e + 1)) for e in range(3)] for d in range(3)])


def residual(i, X):
    return F.act(OPS[i][1], action(i), np.array([X]))[0]


def sym_members():
    """polynomial members with many or few symmetries: {(mode, matrix): coefficient}"""
    z, x, y, xx, xy, yy = MODES[0], (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)
    return [{(z, 0): 1}, {(z, 3): 1}, {(xx, 0): 1, (yy, 0): 1}, {(xx, 3): 1, (yy, 3): 1}, {(x, 1): 1, (y, 2): 1}, {(x, 2): 1, (y, 1): -1}, {(x, 1): 1, (y, 2): -1},
            {(xx, 1): 1, (yy, 1): -1, (xy, 2): 2}, {(x, 0): 1}, {(xy, 2): 1}, {(z, 1): 1}, {(z, 2): .5, (xx, 2): 1}, {(xx, 3): 1, (yy, 3): -1}, {(x, 3): 1, (z, 0): 2}]


def smake(mem, cls=Model):
    d = {}
    for (p, m), c in mem.items():
        d[mono_key(p)] = d.get(mono_key(p), 0) + c * S[m]
    return Model(d, momenta=list(FNAMES), shape=(2, 2), format=np.ndarray)


def sref(mem):
    X = np.zeros((len(MODES), 2, 2), complex)
    for (p, m), c in mem.items():
        X[MODES.index(p)] += c * S[m]
    return X


def accept(R, fam, syms, want, key, info, **kw):
    R.step()
    try:
        r = check_symmetry(fam, syms, **kw)
        got = True
    except ValueError:
        got, r = False, None
    R.outcome('check', want)
    R.check(got == want and r is None, key, lambda: '%s: %s' % (info(), 'accepted' if got else 'refused'))


def check(desc, R):
    mems = sym_members()
    lib = [smake(m) for m in mems]
    rf = [sref(m) for m in mems]
    inv = {(i, o): np.abs(residual(o, rf[i])).max() < 1e-9 for i in range(len(mems)) for o in range(len(OPS))}
    olists = [(o,) for o in range(len(OPS))] + ([(o, p) for o in range(len(OPS)) for p in range(len(OPS)) if (o + p) % 3 == 0] if desc['full'] else [(o, p) for o in range(len(OPS)) for p in range(len(OPS)) if (o + 7 * p) % 11 == 0])
    flists = [(i,) for i in range(len(mems))] + [(i, j) for i in range(len(mems)) for j in range(len(mems)) if (i + j) % 3 == 0]
    for t, (fl, ol) in enumerate(itertools.product(flists, olists)):
        if t % desc['parts'] != desc['part']:
            continue
        if len(fl) == 2 and len(ol) == 2 and t % 4 and not desc['full']:
            continue
        R.state(fl, ol)
        want = all(inv[i, o] for i in fl for o in ol)
        fam, syms = [lib[i] for i in fl], [OPS[o][2] for o in ol]
        kind = t % 4
        if kind == 1:
            fam, syms = tuple(fam), tuple(syms)
        elif kind == 2:
            fam, syms = iter(fam), (s for s in syms)
        elif kind == 3 and len(set(syms)) == len(syms):
            syms = set(syms)
        accept(R, fam, syms, want, 'check_symmetry', lambda: '%s %s' % (fl, [OPS[o][0] for o in ol]))
    R.trace()


def longfam(desc, R):
    """one bad member / one bad symmetry in every position, violations of every size"""
    mems = sym_members()
    good = {o: [i for i in range(len(mems)) if np.abs(residual(o, sref(mems[i]))).max() < 1e-9] for o in range(len(OPS))}
    for o in range(len(OPS)):
        bad = [i for i in range(len(mems)) if i not in good[o]]
        if not good[o] or not bad:
            continue
        gl = [smake(mems[i]) for i in (good[o] * 3)[:3]]
        base = [OPS[p][2] for p in range(len(OPS)) if set(good[o][:3]) <= set(good[p]) and p != o][:3]
        for pos, b in itertools.product(range(4), bad[:3]):
            fam = gl[:pos] + [smake(mems[b])] + gl[pos:]
            R.state('pos', o, pos, b)
            accept(R, fam, [OPS[o][2]], False, 'check_symmetry: one bad member', lambda: '%s %d %d' % (OPS[o][0], pos, b))
        for pos in range(len(base) + 1):
            accept(R, gl, base[:pos] + [OPS[o][2]] + base[pos:], True, 'check_symmetry: several good symmetries', lambda: OPS[o][0])
        for b in bad[:2]:
            others = [OPS[p][2] for p in range(len(OPS)) if set(good[o][:3]) | {b} <= set(good[p])][:2]
            for pos in range(len(others) + 1):
                accept(R, gl + [smake(mems[b])], others[:pos] + [OPS[o][2]] + others[pos:], False, 'check_symmetry: one bad symmetry', lambda: OPS[o][0])
        # size of the violation
        g = mems[good[o][-1]]
        bm = mems[bad[0]]
        mag = np.abs(residual(o, sref(bm))).max()
        for eps in (1e-12, 1e-3, 1e-1):
            for d in (None, 2, 4, 6):
                m = smake(comb((1, g), (eps, bm)))
                if d is None:
                    want = eps < 1e-6
                else:
                    if isinstance(OPS[o][2], ContinuousGroupGenerator) or 'g' in OPS[o][0] or 'u' in OPS[o][0] or OPS[o][0][:2] in ('C3', 'C6'):
                        continue
                    if .3 < eps * mag * 10 ** d < 3 or .2 < eps * 10 ** d < 5:
                        continue
                    want = eps * 10 ** d < 1
                R.state('eps', o, eps, d)
                accept(R, [m], [OPS[o][2]], want, 'check_symmetry: size of the violation', lambda: '%s %g digits %s' % (OPS[o][0], eps, d), **({} if d is None else {'num_digits': d}))
        # symmetric families pass for any number of digits
        for d in (1, 3, 8):
            accept(R, gl, [OPS[o][2]], True, 'check_symmetry: symmetric family with digits', lambda: OPS[o][0], num_digits=d)
    accept(R, [], [OPS[0][2]], True, 'check_symmetry: empty family', lambda: '')
    accept(R, [smake(mems[-1])], [], True, 'check_symmetry: no symmetries', lambda: '')
    R.trace()


def constrain(desc, R):
    """constrained families: the symmetric part of the span"""
    mems = sym_members()
    lib = [smake(m) for m in mems]
    rf = [sref(m) for m in mems]
    sets = [(0, 1, 2, 3), (4, 5, 6, 7), (4, 6), tuple(range(len(mems))), (8, 9, 13), (10, 11, 12, 3), (2, 2, 7, 7, 10), (1,), (8,), (5, 5)]
    olists = [(o,) for o in range(len(OPS))] + [(o, p) for o in range(len(OPS)) for p in range(o) if desc['full'] or (o + 5 * p) % 7 == 0]
    extra = [comb((1, mems[4]), (1, mems[6])), comb((1, mems[4]), (-1, mems[5])), comb((1, mems[2]), (1, mems[10]))]
    for t, (fl, ol) in enumerate(itertools.product(range(len(sets) + 1), olists)):
        if t % desc['parts'] != desc['part']:
            continue
        fam = [lib[i] for i in sets[fl]] if fl < len(sets) else [smake(m) for m in extra]
        X = np.array([rf[i] for i in sets[fl]] if fl < len(sets) else [sref(m) for m in extra])
        q = orth(F.flat(X)).reshape((-1, 2) + X.shape[1:])
        # orthonormal real basis as arrays
        q = orth(F.flat(X))
        h = q.shape[1] // 2
        Q = (q[:, :h] + 1j * q[:, h:]).reshape((-1,) + X.shape[1:])
        want = F.solve(Q, [(OPS[o][1], action(o)) for o in ol])
        before = snap(fam)
        indep = len(Q) == len(fam)
        for kw in ({}, {'sparse_linalg': True}) if t % 3 == 0 else ({},):
            if kw and len(fam) < 4:
                continue
            R.state(fl, ol, bool(kw))
            R.step()
            syms = [OPS[o][2] for o in ol]
            out = constrain_family(syms if t % 2 else tuple(syms), fam if t % 2 else iter(fam), **kw)
            info = lambda: '%s %s %s' % (sets[fl] if fl < len(sets) else 'extra', [OPS[o][0] for o in ol], kw)  # noqa: E731
            R.check(unchanged(before, fam), 'constrain_family: input changed', info)
            Y, err = F.arrays(out, MODES, FNAMES, 2)
            if not R.check(err is None, 'constrain_family: form', lambda: '%s %s' % (info(), err)):
                continue
            if indep:
                F.compare(R, Y, want, 'constrain_family', info)
            elif len(want):
                # a dependent family: only the span is determined
                a, b = orth(F.flat(Y)), orth(F.flat(want))
                R.check(len(a) == len(b) and np.allclose(a.T @ a, b.T @ b, atol=1e-6), 'constrain_family: span', info)
            else:
                R.check(not len(Y) or np.abs(Y).max() < 1e-6, 'constrain_family: nothing is symmetric', info)
    R.trace()


def average(desc, R):
    """symmetrize_monomial is the projection onto the invariant terms"""
    dim = desc['dim']
    from mc.checks.p08 import exact
    from mc.core import rot2, rot3, closure, rnd
    cls = BlochModel if desc['bloch'] else Model
    names = ['k_x', 'k_y', 'k_z'][:dim]

    def grp(gens, n):
        """closed list of (R, c, a, U) up to phases of U"""
        one = (np.eye(dim), False, False, np.eye(n, dtype=complex))
        out = [one]

        def find(x):
            for y in out:
                if y[1:3] == x[1:3] and np.allclose(x[0], y[0]) and abs(abs(np.trace(x[3] @ y[3].conj().T)) - n) < 1e-6:
                    return True
        for x in out:
            for g in gens:
                y = (x[0] @ g[0], x[1] ^ g[1], x[2] ^ g[2], x[3] @ (g[3].conj() if x[1] else g[3]))
                if not find(y):
                    out.append(y)
            assert len(out) <= 200
        return out
    K = F.mono_vals
    if dim == 1:
        C = {'E': np.eye(1), 'I': -np.eye(1)}
    elif dim == 2:
        C = {'E': np.eye(2), 'I': rot2(np.pi), 'C4': rot2(np.pi / 2), 'C3': rot2(2 * np.pi / 3), 'C6': rot2(np.pi / 3), 'Mx': np.diag([-1., 1]), 'Md': np.array([[0., 1], [1, 0]])}
    else:
        C = {'E': np.eye(3), 'I': -np.eye(3), 'C4': rot3([0, 0, 1], np.pi / 2), 'C3': rot3([1, 1, 1], 2 * np.pi / 3), 'M': np.diag([1., 1, -1]), 'C6': rot3([0, 0, 1], np.pi / 3)}
    r = np.diag([np.exp(-1j * np.pi / 4), np.exp(1j * np.pi / 4)])
    sets = [[('I', 0, 0, S[3])], [('E', 1, 0, 1j * S[2])], [('E', 1, 1, S[1])], [('E', 0, 1, S[3])], [('I', 1, 0, S[0]), ('E', 0, 1, S[1])], [('I', 0, 1, S[2])], [('E', 0, 0, S[1]), ('E', 0, 0, S[3])], [('E', 0, 0, S[0])]]
    if dim == 2:
        sets += [[('C4', 0, 0, r)], [('C4', 0, 0, r), ('Mx', 0, 0, S[1]), ('E', 1, 0, 1j * S[2])], [('C4', 1, 1, S[0])], [('Md', 0, 1, (S[1] + S[2]) / np.sqrt(2))], [('C3', 0, 0, np.diag(np.exp([2j * np.pi / 3, -2j * np.pi / 3]))), ('Mx', 0, 0, S[1])], [('C6', 0, 0, S[0]), ('Mx', 1, 0, S[0])], [('C6', 0, 1, S[1])]]
    if dim == 3:
        sets += [[('C4', 0, 0, r), ('C3', 0, 0, np.array([[1 - 1j, -1 - 1j], [1 - 1j, 1 + 1j]]) / 2)], [('C4', 0, 0, r), ('C3', 0, 0, np.array([[1 - 1j, -1 - 1j], [1 - 1j, 1 + 1j]]) / 2), ('I', 0, 0, S[0]), ('E', 1, 0, 1j * S[2])], [('C3', 0, 0, S[0]), ('M', 0, 1, S[1])], [('C6', 0, 0, np.diag(np.exp([1j * np.pi / 6, -1j * np.pi / 6])))], [('I', 1, 1, S[2]), ('M', 0, 0, S[3])]]
    gens = sets[desc['g']] if desc['g'] < len(sets) else None
    if gens is None:
        return
    V = unit(2, desc['g']) if desc['conj'] else np.eye(2)
    G = grp([(C[n], bool(c), bool(a), V @ U @ (V.T if c else V.conj().T)) for n, c, a, U in gens], 2)
    floating = any(n in ('C3', 'C6') and not (n == 'C3' and dim == 3) for n, *_ in gens)

    def lib(g):
        if not floating:
            Rm = np.array(np.round(g[0]), int)
        else:
            Rm = exact(g[0]) if not cls is BlochModel or desc['g'] % 2 else g[0]
        return PointGroupElement(Rm, g[1], g[2], g[3])
    LG = [lib(g) for g in G]
    pts = [np.array([point(i, NAMES, 1.2)[x] for x in names]) for i in range(3)]
    if cls is Model:
        keys = {1: ['1', 'k_x', 'k_x**2', 'm*k_x**3'], 2: ['1', 'k_x', 'k_x*k_y', 'm*k_x**2', 'k_x**2*k_y', 'k_y**4'], 3: ['1', 'k_z', 'k_x*k_y', 'm*k_x**2', 'k_x*k_y*k_z', 'k_x**2*k_y**2']}[dim]
    else:
        keys = {1: ['1', 'e**(I*k_x)', 'm*e**(2*I*k_x)', 'e**(-I*k_x/2)'], 2: ['1', 'e**(I*k_x)', 'm*e**(I*k_x)*e**(I*k_y)', 'e**(2*I*k_x)*e**(-I*k_y)', 'e**(I*k_y/2)'], 3: ['1', 'e**(I*k_z)', 'm*e**(I*k_x)*e**(I*k_y)', 'e**(2*I*k_x)*e**(-I*k_y)*e**(I*k_z/2)']}[dim]
        if desc['expo']:
            cls = Model
            if floating:
                return

    terms = [{k: m} for k in keys for m in (S[0], S[1], S[2], S[3], gen((2, 2), 3))]
    terms += [{keys[0]: S[1], keys[1]: S[2] * .5}, {keys[1]: 1j * S[3], keys[2]: gen((2, 2), 5)}]
    ms = [sympy.Symbol(x) for x in names]

    def value(d, k, m):
        env = dict(zip(names, k), m=m, e=np.e)
        return sum(complex(ev_key(kk, env, ms)) * np.asarray(v, complex) for kk, v in d.items())
    stride = 1 if len(G) < 10 else 3 if len(G) < 20 else 5 if len(G) < 40 else 11
    for t, d in enumerate(terms):
        if (t + desc['g']) % stride:
            continue
        R.state(dim, desc['g'], desc['conj'], desc['bloch'], t)
        R.step(2)
        M = cls({k: np.array(v, complex) for k, v in d.items()}, momenta=list(names))
        b = snap([M])
        syms = LG if t % 3 == 0 else set(LG) if t % 3 == 1 and len(set(LG)) == len(LG) else tuple(LG)
        info = lambda: '%s on %s' % (gens, d)  # noqa: E731
        out = symmetrize_monomial(M, syms)
        R.check(unchanged(b, [M]), 'symmetrize_monomial: input changed', info)
        if not R.check(type(out) is cls and out.shape == (2, 2) and tuple(map(str, out.momenta)) == tuple(names), 'symmetrize_monomial: form', info):
            continue
        for k in pts:
            w = 0
            for Rm, c, a, U in G:
                x = value(d, np.linalg.inv(Rm) @ k * (-1 if c else 1), .37)
                w = w + (-1 if a else 1) * U @ (x.conj() if c else x) @ U.conj().T
            env = dict(zip(names, k), m=.37)
            got = sum((complex(ev_key(kk, env, out.momenta)) * dense(vv) for kk, vv in out.items()), np.zeros((2, 2)))
            R.check(close(got, w / len(G), 1e-7), 'symmetrize_monomial: not the average', info)
        if t % 4 == 0 and len(G) < 40:
            again = symmetrize_monomial(out, LG)
            R.check(all(close(sum((complex(ev_key(kk, dict(zip(names, k), m=.37), f.momenta)) * dense(vv) for kk, vv in f.items()), np.zeros((2, 2))),
                              sum((complex(ev_key(kk, dict(zip(names, k), m=.37), f.momenta)) * dense(vv) for kk, vv in out.items()), np.zeros((2, 2)))) for f in (again,) for k in pts), 'symmetrize_monomial: not idempotent', info)
            accept(R, [out], LG, True, 'check_symmetry: symmetrized term refused', info)
    R.outcome(len(G))
    R.trace()


def cases(tier):
    th = tier == 'thorough'
    out = [{'k': 'generic'}, {'k': 'tols'}, {'k': 'pretty'}, {'k': 'longfam'}]
    for rep in REPS:
        for f in range(len(ALPH)):
            full = rep in ('poly', 'bloch') or th
            out.append({'k': 'lists', 'rep': rep, 'first': [f], 'n': (4 if th and rep in ('poly', 'bloch') else 3) if full else 2})
        for f in ALPH2:
            out.append({'k': 'sub', 'rep': rep, 'first': f, 'n1': 3, 'n2': 3 if th else 2, 'skip': 0 if th else 3 if rep == 'poly' else 17})
        out.append({'k': 'combos', 'rep': rep})
    for dim, g, conj, (bl, ex) in itertools.product((1, 2, 3), range(15), (0, 1), ((0, 0), (1, 0), (1, 1))):
        if conj and not th and (g + bl + ex) % 2:
            continue
        if g < {1: 8, 2: 15, 3: 13}[dim]:
            out.append({'k': 'average', 'dim': dim, 'g': g, 'conj': conj, 'bloch': bl, 'expo': ex})
    n = 16
    out += [{'k': 'check', 'part': i, 'parts': n, 'full': th} for i in range(n)]
    out += [{'k': 'constrain', 'part': i, 'parts': n, 'full': th} for i in range(n)]
    return out


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
