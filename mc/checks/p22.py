"""P22: linear-algebra kernels return complete and independent solutions."""
import itertools
import warnings
from fractions import Fraction

import numpy as np
import scipy.sparse as sp
import tinyarray as ta
import scipy.sparse.linalg as sla

from mc.core import gen, herm, unit, rank, close, rnd, rrank, spin_mats
from qsymm import linalg as L
from qsymm.model import Model

ASSUMPTIONS = ['matrices have small integer, Gaussian-integer or fixed generic entries, so every rank decision is far from the tolerance except where the tolerance is probed on purpose',
               'with complex conjugation in the equation (or hermitian=True) completeness and independence are over the reals, otherwise over the complex numbers']
BOUNDS = {'quick': 'null spaces and row reduction: all {-1,0,1} matrices up to 3x3 (every shape), all {0,1,-1,i} matrices up to 2x3, generic matrices of every rank up to 14 columns, 6 sparse formats, k_max in {-10,-3,-1,1,4,50}; matrix equations: all ordered pairs and HL/HR pairs of 12 2x2 and 8 3x3 matrices with all option combinations; simultaneous diagonalization: all eigenvalue assignments for (n,m) up to (4,2) and (3,3); bases up to 5x5',
          'thorough': 'null spaces and row reduction also of all {-1,0,1} 2x4/4x2 matrices, all {0,1} 3x4/4x3 matrices, all {0,1,i} 3x3 matrices; triples of equations; (n,m) up to (5,2), (4,3)'}

I2 = np.eye(2)
SX, SY, SZ = [2 * s for s in spin_mats(0.5)]


# ---------------------------------------------------------------- references

class GI:
    """exact Gaussian rational"""
    __slots__ = ('a', 'b')

    def __init__(s, a, b=0):
        s.a, s.b = Fraction(a), Fraction(b)

    def __sub__(s, o):
        return GI(s.a - o.a, s.b - o.b)

    def __mul__(s, o):
        return GI(s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a)

    def inv(s):
        n = s.a * s.a + s.b * s.b
        return GI(s.a / n, -s.b / n)

    def zero(s):
        return s.a == 0 and s.b == 0

    def c(s):
        return complex(s.a, s.b)


def exact_rref(m):
    a = [[GI(int(x.real), int(x.imag)) for x in row] for row in np.asarray(m, complex)]
    rows, cols = np.shape(m)
    r = 0
    for c in range(cols):
        p = next((i for i in range(r, rows) if not a[i][c].zero()), None)
        if p is None:
            continue
        a[r], a[p] = a[p], a[r]
        inv = a[r][c].inv()
        a[r] = [x * inv for x in a[r]]
        for i in range(rows):
            if i != r and not a[i][c].zero():
                f = a[i][c]
                a[i] = [x - f * y for x, y in zip(a[i], a[r])]
        r += 1
        if r == rows:
            break
    return np.array([[x.c() for x in row] for row in a]), r


def alphabet(name):
    return {'pm': (0, 1, -1), '01': (0, 1), 'gi': (0, 1, -1, 1j), '01i': (0, 1, 1j)}[name]


def chunks(total, size):
    return [(i, min(total, i + size)) for i in range(0, total, size)]


def matrices(name, shape, lo, hi):
    al = alphabet(name)
    n = shape[0] * shape[1]
    for i in range(lo, hi):
        d, x = [], i
        for _ in range(n):
            d.append(al[x % len(al)])
            x //= len(al)
        a = np.array(d).reshape(shape)
        yield i, a


def small_sets(tier):
    s = [('pm', (1, 1)), ('pm', (1, 2)), ('pm', (2, 1)), ('pm', (1, 3)), ('pm', (3, 1)), ('pm', (2, 2)), ('pm', (2, 3)), ('pm', (3, 2)), ('pm', (3, 3)),
         ('gi', (1, 2)), ('gi', (2, 1)), ('gi', (2, 2)), ('gi', (2, 3)), ('gi', (3, 2)), ('01', (3, 4)), ('01', (2, 5))]
    if tier == 'thorough':
        s += [('pm', (2, 4)), ('pm', (4, 2)), ('01', (4, 3)), ('01i', (3, 3))]
    return s


def cases(tier):
    th = tier == 'thorough'
    out = []
    for name, shape in small_sets(tier):
        tot = len(alphabet(name)) ** (shape[0] * shape[1])
        for lo, hi in chunks(tot, 2500):
            out.append({'k': 'small', 'al': name, 'shape': list(shape), 'lo': lo, 'hi': hi})
    for name, shape in [('pm', (2, 2)), ('01', (3, 3)), ('gi', (2, 2)), ('01', (2, 4))] + ([('gi', (2, 3))] if th else []):
        tot = len(alphabet(name)) ** (shape[0] * shape[1])
        for lo, hi in chunks(tot, 150):
            out.append({'k': 'sparse_small', 'al': name, 'shape': list(shape), 'lo': lo, 'hi': hi})
    for n in range(1, 15):
        out.append({'k': 'ranks', 'n': n})
    for n in (8, 16, 32, 64):
        for d in (2, n // 4, n // 2, n - 2):
            out.append({'k': 'degen', 'n': n, 'd': d})
    out.append({'k': 'tol'})
    for d in (1, 2, 3):
        n = len(eqset(d))
        for i in range(n):
            for j in range(n):
                out.append({'k': 'eqn', 'dim': d, 'l': [[i, j]]})
        for i in range(n):
            out.append({'k': 'eqn', 'dim': d, 'l': [[i, None]]})
    for d in (2, 3):
        n = len(eqset(d))
        for i in range(n):
            for j in range(n):
                out.append({'k': 'eqn', 'dim': d, 'l': [[i, i], [j, j]]})
                if (i + j) % 3 == 0 or th:
                    out.append({'k': 'eqn', 'dim': d, 'l': [[i, j], [j, (i + 1) % n]]})
    if th:
        for d in (2, 3):
            n = len(eqset(d))
            for t in itertools.combinations(range(n), 3):
                out.append({'k': 'eqn', 'dim': d, 'l': [[i, i] for i in t]})
    # long systems, also with fewer independent equations
    for ln in (4, 5, 7):
        for t in ([1] * ln, [1, 6, 7, 1, 7, 6, 1][:ln], [4, 1, 7, 6, 0, 4, 4][:ln], [2, 1, 1, 0, 2, 1, 2][:ln], [8, 8, 5, 1, 0, 8, 5][:ln], [2, 3, 4, 1, 5, 6, 7][:ln], [9] * ln, [11, 1, 0, 11, 1, 11, 11][:ln]):
            out.append({'k': 'eqn', 'dim': 2, 'l': [[i, i] for i in t]})
            out.append({'k': 'eqn', 'dim': 2, 'l': [[i, None] for i in t]})
        for t in ([1, 1, 0, 0, 1, 1, 0][:ln], [3, 4, 0, 3, 3, 4, 0][:ln], [2, 0, 2, 0, 2, 0, 2][:ln], [6, 0, 0, 0, 6, 0, 0][:ln]):
            out.append({'k': 'eqn', 'dim': 3, 'l': [[i, i] for i in t]})
    out.append({'k': 'eqn', 'dim': 4, 'l': [[0, 0]]})
    out.append({'k': 'eqn', 'dim': 4, 'l': [[1, 1]]})
    out.append({'k': 'eqn', 'dim': 4, 'l': [[0, 1]]})
    out.append({'k': 'eqn', 'dim': 4, 'l': [[2, 2], [1, 1]]})
    out.append({'k': 'eqbad'})
    dn = [(1, 1, 'i'), (1, 3, 'i'), (2, 1, 'r'), (2, 2, 'r'), (2, 3, 'i'), (3, 1, 'c'), (3, 2, 'r'), (3, 2, 'c'), (3, 3, 'i'), (4, 1, 'r'), (4, 2, 'i'), (4, 1, 'c')]
    if th:
        dn += [(5, 2, 'i'), (4, 3, 'i'), (4, 2, 'r'), (4, 2, 'c')]
    for n, m, v in dn:
        tot = len(vals(v)) ** (n * m)
        for lo, hi in chunks(tot, 150):
            for fr in ('id', 'u', 'o', 'perm'):
                out.append({'k': 'diag', 'n': n, 'm': m, 'v': v, 'lo': lo, 'hi': hi, 'fr': fr})
    out.append({'k': 'diagtol'})
    out.append({'k': 'diagbad'})
    out.append({'k': 'basis'})
    out.append({'k': 'prop'})
    out.append({'k': 'misc'})
    out.append({'k': 'vectors'})
    return out


def vals(v):
    return {'i': (0, 1), 'r': (0, 1, -1), 'c': (1, 1j, -1)}[v]


# ---------------------------------------------------------------- null spaces

def check_null(R, A, ns, key, k=None, nsc=None, exact=None):
    A = np.asarray(A)
    n = A.shape[1]
    r = rank(A) if exact is None else exact
    want = n - r if k is None else min(k, n - r)
    ok = isinstance(ns, np.ndarray) and ns.shape == (want, n)
    if not R.check(ok, key + ' dimension', lambda: 'null space of %s has shape %s, expected %s' % (A.tolist(), np.shape(ns), (want, n))):
        return
    R.check(close(A @ ns.T, np.zeros((A.shape[0], want)), 1e-6), key + ' equation', lambda: '%s: A x = %s' % (A.tolist(), A @ ns.T))
    R.check(close(ns.conj() @ ns.T, np.eye(want)), key + ' orthonormal', lambda: '%s: %s' % (A.tolist(), ns))
    if nsc is not None:
        full = np.vstack([ns, nsc])
        if R.check(nsc.shape == (r, n), key + ' complement dimension', lambda: '%s: %s' % (A.tolist(), nsc.shape)):
            R.check(close(full.conj() @ full.T, np.eye(n)), key + ' complement', lambda: '%s: %s %s' % (A.tolist(), ns, nsc))
    R.trace()


def small(desc, R):
    shape = tuple(desc['shape'])
    for i, A in matrices(desc['al'], shape, desc['lo'], desc['hi']):
        R.state(desc['al'], shape, i)
        A0 = A.copy()
        ref, r = exact_rref(A)
        R.outcome(rnd(ref), r)
        R.step(3)
        ns, nsc = L.nullspace(A, return_complement=True)
        check_null(R, A, ns, 'nullspace', nsc=nsc, exact=r)
        ns1 = L.nullspace(A)
        R.check(rank(np.vstack([ns, ns1])) == shape[1] - r if shape[1] > r else ns1.shape[0] == 0, 'nullspace alone', lambda: '%s %s' % (A.tolist(), ns1))
        red, S = L.rref(A, return_S=True)
        R.check(close(red, ref), 'rref', lambda: '%s -> %s, expected %s' % (A.tolist(), red, ref))
        R.check(close(S @ A, red) and rank(S) == shape[0], 'rref transformation', lambda: '%s: S %s' % (A.tolist(), S))
        R.check(close(L.rref(A), ref), 'rref alone', lambda: str(A.tolist()))
        if r:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                sb = L.sparse_basis(A)
            exp = np.round(ref[:r], 3)
            R.check(close(sb, exp, 1e-3), 'sparse_basis', lambda: '%s -> %s expected %s' % (A.tolist(), sb, exp))
            R.check(bool(w) == (r < shape[0]), 'sparse_basis warning', lambda: '%s %s' % (A.tolist(), w))
            if desc['al'] != 'pm' and r == shape[0]:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    sr = L.sparse_basis(A, reals=True)
                rr, q = exact_rref(np.hstack([A.real, A.imag]))
                rr = np.round(rr[:q, :shape[1]] + 1j * rr[:q, shape[1]:], 3)
                R.check(close(sr, rr, 1e-3), 'sparse_basis reals', lambda: '%s -> %s expected %s' % (A.tolist(), sr, rr))
        R.check(np.array_equal(A, A0), 'input modified', lambda: str(A0.tolist()))


FMT = (sp.csr_matrix, sp.csc_matrix, sp.coo_matrix, sp.lil_matrix, sp.dok_matrix, sp.bsr_matrix)


def sparse_small(desc, R):
    shape = tuple(desc['shape'])
    for i, A in matrices(desc['al'], shape, desc['lo'], desc['hi']):
        R.state(desc['al'], shape, i)
        _, r = exact_rref(A)
        A = A.astype(complex)
        for f in (FMT[i % 6], sp.csr_matrix):
            M = f(A)
            R.step(2)
            check_null(R, A, L.nullspace(M), 'sparse nullspace', exact=r)
            check_null(R, A, np.asarray(L.nullspace(M, sparse=False)), 'sparse matrix, dense algebra', exact=r)
            R.check(type(M) is f and close(M.toarray(), A), 'sparse input modified', lambda: str(A.tolist()))
        ns, nsc = L.nullspace(sp.csr_matrix(A), sparse=False, return_complement=True)
        check_null(R, A, ns, 'sparse matrix, dense algebra', nsc=nsc, exact=r)
        check_null(R, A, L.nullspace(A, sparse=True, k_max=-1), 'dense matrix, sparse algebra', exact=r)
        check_null(R, A, L.nullspace(A, sparse=True, k_max=1), 'k_max=1', k=1, exact=r)
        R.outcome(r, shape)


def ranks(desc, R):
    n = desc['n']
    for r in range(n + 1):
        for rows in (n, n + 3, max(r, 1)):
            for real in (False, True):
                A = gen((rows, r), n + r, real) @ gen((r, n), 2 * n + r, real)
                R.state(n, r, rows, real)
                R.step(8)
                ns, nsc = L.nullspace(A, return_complement=True)
                check_null(R, A, ns, 'nullspace', nsc=nsc, exact=r)
                # singular values of the generic factors are far above the tolerance of the squared problem
                s = np.linalg.svd(A, compute_uv=False)
                if r and s[r - 1] < 3e-2:
                    continue
                for k in (-10, -3, -1):
                    check_null(R, A, L.nullspace(sp.csr_matrix(A), k_max=k), 'sparse nullspace k_max=%d' % k, exact=r)
                for k in (1, 4, 50):
                    check_null(R, A, L.nullspace(A, sparse=True, k_max=k), 'sparse nullspace k_max=%d' % k, k=k, exact=r)
                for f in FMT:
                    check_null(R, A, L.nullspace(f(A)), 'sparse nullspace ' + f.__name__, exact=r)
                # stored zeros
                M = sp.csr_matrix(np.ones((rows, n)))
                M.data[:] = np.asarray(A.real).reshape(-1) if real else 0
                check_null(R, M.toarray(), L.nullspace(M), 'stored zeros', exact=r if real else 0)
                R.outcome(n, r)


def degen(desc, R):
    """few or many distinct singular values, highly degenerate null space"""
    n, d = desc['n'], desc['d']
    for spec in ('two', 'three', 'line'):
        s = {'two': np.full(n - d, 2.), 'three': np.array([1. + i % 2 for i in range(n - d)]), 'line': np.linspace(1, 2, n - d)}[spec]
        D = np.diag(np.concatenate([s, np.zeros(d)]))
        B = np.zeros((n, n), complex)
        for i in range(0, n, 2):
            B[i:i + 2, i:i + 2] = unit(2, i)
        perm = [(5 * i + 3) % n if n % 5 else i for i in range(n)]
        for name, A in (('diag', D), ('blocks', D[:, perm] @ B), ('full', D @ unit(n, d)), ('real', D @ unit(n, d, True))):
            for k in (-10, -1, -40, d):
                if k == -1 and d * n > 600:
                    continue
                R.step()
                R.state(n, d, spec, name, k)
                check_null(R, A, L.nullspace(sp.csr_matrix(A), k_max=k), 'sparse nullspace, degenerate', k=k if k > 0 else None, exact=n - d)
                R.outcome(n, d)


def tol(desc, R):
    for at in (1e-3, 1e-6, 1e-9):
        for n in (2, 3, 5):
            for U, V in ((np.eye(n), np.eye(n)), (unit(n, 1), unit(n, 2))):
                for small_ in range(1, n):
                    for f in (0.01, 100):
                        A = U @ np.diag([1.] * (n - small_) + [at * f] * small_) @ V
                        R.state('tol', at, n, small_, f)
                        R.step(2)
                        ns = L.nullspace(A, atol=at)
                        R.check(len(ns) == (small_ if f < 1 else 0), 'nullspace tolerance', lambda: 'atol %g, singular values 1 and %g x%d: %d null vectors' % (at, at * f, small_, len(ns)))
                        # the sparse algorithm compares eigenvalues of A^dagger A
                        if at == 1e-9:
                            continue
                        A = U @ np.diag([1.] * (n - small_) + [np.sqrt(at * f)] * small_) @ V
                        for k in (-1, -10):
                            ns = L.nullspace(sp.csr_matrix(A), atol=at, k_max=k)
                            R.check(len(ns) == (small_ if f < 1 else 0), 'sparse nullspace tolerance', lambda: 'atol %g, eigenvalues 1 and %g x%d: %d null vectors' % (at, at * f, small_, len(ns)))
                        R.trace()
                        R.outcome(at, n, small_, f)
    # the tolerance is absolute: large singular values do not hide small ones
    for s in itertools.combinations_with_replacement((0, 1e-9, 1e-3, 1, 1e4), 3):
        for nm, U, V in (('id', np.eye(3), np.eye(3)), ('o', unit(3, 1), np.eye(3)), ('u', unit(3, 1), unit(3, 2))):
            A = U @ np.diag(s) @ V
            want = sum(x < 1e-6 for x in s)
            for sh, B in (('square', A), ('tall', np.vstack([A, np.zeros((2, 3))])), ('wide', np.hstack([A, np.zeros((3, 2))]))):
                R.step(2)
                R.state('abs', s, nm, sh)
                ns = L.nullspace(B)
                R.check(len(ns) == want + 2 * (sh == 'wide'), 'nullspace, singular values of very different size', lambda: '%s %s: %d' % (s, sh, len(ns)))
                ns, nsc = L.nullspace(B, return_complement=True)
                R.check(len(nsc) == 3 - want, 'complement, singular values of very different size', lambda: '%s %s: %d' % (s, sh, len(nsc)))
                R.trace()
    # default tolerance
    for x, want in ((1e-8, 1), (1e-4, 0)):
        R.check(len(L.nullspace(np.diag([1, x]))) == want, 'nullspace default tolerance', str(x))
    # tolerance of the row reduction is relative to the largest element
    for scale in (1, 1e3, 1e-3):
        for rtol, want in ((1e-3, 1), (1e-7, 2)):
            for A in ([[1, 0], [0, 1e-5]], [[1, 2], [1, 2 + 1e-5]], [[2, 4, 1], [1, 2 + 1e-5, .5]]):
                A = scale * np.array(A)
                R.step()
                red, S = L.rref(A, rtol=rtol, return_S=True)
                R.state('rtol', scale, rtol, rnd(A))
                R.check(close(S @ A, red, 1e-6), 'rref tolerance S', lambda: '%s' % A)
                R.check(np.sum(np.max(np.abs(red), axis=1) > 0.5) == want, 'rref tolerance', lambda: 'rtol %g: %s -> %s' % (rtol, A.tolist(), red))
                R.trace()
    # digits of sparse_basis
    A = np.array([[3, 1, 2], [1, 7, 1]])
    ref, _ = exact_rref(A)
    for d in (1, 2, 3, 5):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sb = L.sparse_basis(A, num_digits=d)
        R.check(close(sb, np.round(ref, d), 1e-12), 'sparse_basis digits', lambda: '%d: %s' % (d, sb))
        R.step()


# ---------------------------------------------------------------- matrix equations

def eqset(d):
    if d == 1:
        return [np.array([[x]], complex) for x in (0, 1, -1, 1j, 2)]
    if d == 2:
        return [0 * SX, I2 + 0j, SX, SY, SZ, np.array([[0, 1], [0, 0]], complex), np.diag([1, 1j]), np.diag([1., 2.]) + 0j, np.array([[1, 1], [0, 1]], complex), herm(2, 1) + SZ / 2, 1j * SY, gen((2, 2), 5)]
    if d == 3:
        J = spin_mats(1)
        P = np.roll(np.eye(3), 1, axis=0)
        return [np.eye(3) + 0j, np.diag([1, 1, 2]) + 0j, P + 0j, J[0], J[2], np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]], complex), herm(3, 2), np.diag([1, 0], 1) + 0j]
    if d == 4:
        return [np.kron(SX, SY), np.kron(SZ, I2) + 0j, np.kron(I2, SZ) + 0j]


def reference_dim(HL, HR, conj, hermitian, traceless):
    """real dimension of {X : X HL_i = HR_i X^(*)}"""
    n = HL[0].shape[0]
    cols = []
    for i in range(n):
        for j in range(n):
            for ph in (1, 1j):
                X = np.zeros((n, n), complex)
                X[i, j] = ph
                v = [(X @ l - r @ (X.conj() if c else X)).ravel() for l, r, c in zip(HL, HR, conj)]
                if hermitian:
                    v.append((X - X.conj().T).ravel())
                if traceless:
                    v.append(np.array([np.trace(X)]))
                v = np.concatenate(v)
                cols.append(np.concatenate([v.real, v.imag]))
    return 2 * n * n - rank(np.array(cols).T)


def eqn(desc, R):
    mats = eqset(desc['dim'])
    n = desc['dim']
    HL = [mats[a] for a, b in desc['l']]
    HR = None if desc['l'][0][1] is None else [mats[b] for a, b in desc['l']]
    hr = HL if HR is None else HR
    conjs = [False, True] if len(HL) == 1 else [False, True, [True] + [False] * (len(HL) - 1), [False] + [True] * (len(HL) - 1)]
    for hermitian, traceless in itertools.product((False, True), repeat=2):
        for cj in conjs:
            cl = [cj] * len(HL) if isinstance(cj, bool) else cj
            want = reference_dim(HL, hr, cl, hermitian, traceless)
            reals = hermitian or any(cl)
            if not reals:
                want //= 2
            forms = ['dense', 'array', 'sparse_in', 'sparse_kw'] if n < 4 else ['dense', 'sparse_in']
            if n == 3:
                forms = ['dense', 'sparse_in'] if (len(HL) == 1) else ['array']
            for form in forms:
                a, b = HL, HR
                kw = {}
                if form == 'array':
                    a, b = np.array(a), None if b is None else np.array(b)
                elif form == 'sparse_in':
                    a, b = [sp.csr_matrix(x) for x in a], None if b is None else [sp.csc_matrix(x) for x in b]
                elif form == 'sparse_kw':
                    a, b = [sp.csr_matrix(x) for x in a], None if b is None else [sp.csr_matrix(x) for x in b]
                    kw['sparse'] = True
                    kw['k_max'] = -2
                R.step()
                R.state(n, desc['l'], hermitian, traceless, cj, form)
                X = L.solve_mat_eqn(a, HR=b, hermitian=hermitian, traceless=traceless, conjugate=cj, **kw)
                info = lambda: 'X HL = HR X%s, HL=%s HR=%s hermitian=%s traceless=%s %s' % ('* %s' % cl if any(cl) else '', [h.tolist() for h in HL], [h.tolist() for h in hr], hermitian, traceless, form)  # noqa: E731
                X = [x.toarray() if sp.issparse(x) else np.asarray(x) for x in X]
                if not R.check(len(X) == want, 'number of solutions', lambda: '%s: %d solutions, expected %d' % (info(), len(X), want)):
                    continue
                R.check(all(x.shape == (n, n) for x in X), 'solution shape', info)
                for x in X:
                    R.check(all(close(x @ l, r @ (x.conj() if c else x), 1e-6) for l, r, c in zip(HL, hr, cl)), 'solution equation', lambda: '%s: %s' % (info(), x))
                    if hermitian:
                        R.check(close(x, x.conj().T, 1e-6), 'solution hermitian', lambda: '%s: %s' % (info(), x))
                    if traceless:
                        R.check(abs(np.trace(x)) < 1e-6, 'solution traceless', lambda: '%s: %s' % (info(), x))
                if want:
                    R.check((rrank if reals else rank)(np.array(X)) == want, 'solutions independent', lambda: '%s: %s' % (info(), X))
                R.trace()
                R.outcome(want, n, hermitian, traceless)
    if HR is None:
        X = L.solve_mat_eqn(HL, None)
        Y = L.solve_mat_eqn(HL, HL)
        R.check(len(X) == len(Y), 'HR default')


def eqbad(desc, R):
    E = ValueError
    R.fails(E, 'lengths differ', lambda: L.solve_mat_eqn([SX, SY], [SX]))
    R.fails(E, 'shapes differ', lambda: L.solve_mat_eqn([SX], [np.eye(3)]))
    R.fails(E, 'not square', lambda: L.solve_mat_eqn([np.ones((2, 3))]))
    R.fails(E, 'conjugate length', lambda: L.solve_mat_eqn([SX, SY], conjugate=[True]))
    R.fails(E, 'k_max zero', lambda: L.nullspace(sp.csr_matrix(np.diag([1, 1, 0])), k_max=0))
    for d in (1,):
        X = L.solve_mat_eqn([np.eye(1)], traceless=True)
        R.check(np.shape(X) == (0, 1, 1), 'empty result', lambda: str(np.shape(X)))
    for i in range(5):
        R.state('bad', i)


# ---------------------------------------------------------------- simultaneous diagonalization

def frame(fr, n):
    if fr == 'id':
        return np.eye(n)
    if fr == 'u':
        return unit(n, 3)
    if fr == 'o':
        return unit(n, 4, True)
    return np.eye(n)[list(range(1, n)) + [0]] * np.array([1j ** i for i in range(n)])


def check_spaces(R, mats, Ps, labels, U, key):
    n = len(U)
    groups = {}
    for i, l in enumerate(labels):
        groups.setdefault(l, []).append(i)
    want = [U[:, g] @ U[:, g].conj().T for g in groups.values()]
    info = lambda: 'labels %s, mats %s -> %s' % (labels, np.round(mats, 3).tolist(), [np.shape(p) for p in Ps])  # noqa: E731
    if not R.check(len(Ps) == len(want) and all(np.ndim(p) == 2 and p.shape[0] == n for p in Ps), key + ' number of spaces', info):
        return
    W = np.hstack(Ps)
    R.check(W.shape == (n, n) and close(W.conj().T @ W, np.eye(n)), key + ' unitary', info)
    got = [p @ p.conj().T for p in Ps]
    R.check(all(any(close(g, w, 1e-5) for g in got) for w in want), key + ' spaces', info)
    R.trace()


def diag(desc, R):
    n, m, v = desc['n'], desc['m'], vals(desc['v'])
    U = frame(desc['fr'], n)
    for i in range(desc['lo'], desc['hi']):
        x, d = i, []
        for _ in range(n * m):
            d.append(v[x % len(v)])
            x //= len(v)
        lab = [tuple(d[j * m:(j + 1) * m]) for j in range(n)]
        mats = np.array([U @ np.diag([l[q] for l in lab]) @ U.conj().T for q in range(m)])
        if desc['v'] != 'c' and desc['fr'] in ('id', 'o'):
            mats = mats.real
        R.state(desc['fr'], n, m, desc['v'], i)
        R.outcome(len(set(lab)), n)
        m0 = mats.copy()
        for ch in ((0, 1, 2) if i % 7 == 0 else (0,)):
            R.step()
            check_spaces(R, mats, L.simult_diag(mats, checks=ch), lab, U, 'simult_diag checks=%d' % ch)
        R.check(np.array_equal(mats, m0), 'simult_diag modified its input')


def diagtol(desc, R):
    for fr in ('id', 'u'):
        for n in (2, 3, 4, 8, 12):
            U = frame(fr, n)
            for t in (1e-6, 1e-3):
                for f, sep in ((1e-3, False), (2, True), (1e2, True)):
                    for herm_ in (True, False):
                        ev = np.arange(n) * t * f + (0 if herm_ else 1j)
                        A = U @ np.diag(ev) @ U.conj().T
                        lab = list(range(n)) if sep else [0] * n
                        R.step(2)
                        R.state(fr, n, t, f, herm_)
                        check_spaces(R, [A], L.simult_diag([A], tol=t), lab, U, 'tolerance')
                        B = U @ np.diag([(-1.) ** i for i in range(n)]) @ U.conj().T
                        lab2 = [(a, (-1) ** i) for i, a in enumerate(lab)]
                        check_spaces(R, [B, A], L.simult_diag([B, A], tol=t), lab2, U, 'tolerance, two matrices')
                        R.outcome(fr, n, f)


def diagbad(desc, R):
    E = (ValueError, AssertionError)
    J = spin_mats(1)
    for ms in ([SX, SY], [SZ, SX], [I2, SX, SZ], [SX, I2, SZ], [np.diag([1, 1j]), SX], [J[2], J[0]], [np.eye(3), J[2], J[0]],
               [np.diag([1, 1, 0]), np.diag([2, 2, 1]), np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]]), np.diag([1, 2, 3])]):
        for ch in (0, 1, 2):
            R.state('nc', len(ms), ms[0].shape, ch, rnd(ms[-1]))
            R.fails(E, 'non-commuting matrices', lambda: L.simult_diag(np.array(ms), checks=ch), str(np.array(ms).tolist()))
    for ms in ([np.array([[0, 1], [0, 0]])], [np.array([[1, 1], [0, 1]])], [I2, np.array([[0, 1], [0, 0]])], [np.array([[1, 2], [3, 4]])], [np.eye(3), np.diag([1, 0], 1)]):
        R.state('nn', rnd(ms[-1]), len(ms))
        R.fails(E, 'non-normal matrix', lambda: L.simult_diag(np.array(ms)), str(np.array(ms).tolist()))


# ---------------------------------------------------------------- bases and small helpers

def basis(desc, R):
    for n in range(1, 6):
        for tr, ah, re, spa in itertools.product((False, True), repeat=4):
            R.state(n, tr, ah, re, spa)
            R.step()
            bs = list(L.matrix_basis(n, traceless=tr, antihermitian=ah, real=re, sparse=spa))
            info = 'dim %d traceless=%s antihermitian=%s real=%s sparse=%s' % (n, tr, ah, re, spa)
            if spa:
                R.check(all(isinstance(b, sp.csr_matrix) for b in bs), 'basis format', info)
            else:
                R.check(all(type(b) is np.ndarray for b in bs), 'basis format', info)
            bs = [b.toarray() if spa else b for b in bs]
            want = n * n if not re else (n * (n - 1) // 2 if ah else n * (n + 1) // 2)
            if tr and not (re and ah):
                want -= 1
            if not R.check(len(bs) == want and all(b.shape == (n, n) for b in bs), 'basis size', lambda: '%s: %d, expected %d' % (info, len(bs), want)):
                continue
            s = -1 if ah else 1
            for b in bs:
                R.check(close(b.conj().T, s * b), 'basis hermiticity', info)
                if tr:
                    R.check(abs(np.trace(b)) < 1e-12, 'basis trace', info)
                if re:
                    R.check(close(b.imag, 0 * b.imag), 'basis real', info)
            if bs:
                R.check(rrank(bs) == want, 'basis independent', info)
            R.trace()
            R.outcome(want)
        R.check(sum(1 for _ in L.matrix_basis(n)) == n * n, 'basis defaults')


def prop(desc, R):
    al_ = (0, 1, -1, 1j, 2)
    for n, letters in ((1, (0, 1, -1, 1j, 2, -0.5, 1e-3)), (2, al_), (3, (0, 1))):
        for d in itertools.product(letters, repeat=n * n):
            A = np.array(d, complex).reshape(n, n)
            R.state(n, d)
            R.step()
            ok, f = L.prop_to_id(A)
            want = all(A[i, j] == (A[0, 0] if i == j else 0) for i in range(n) for j in range(n))
            R.check(bool(ok) == want, 'prop_to_id', lambda: '%s -> %s' % (A.tolist(), ok))
            if want:
                R.check(close(f, A[0, 0]), 'prop_to_id factor', lambda: '%s -> %s' % (A.tolist(), f))
            R.trace()
            R.outcome(n, want)
    for n in (1, 2, 3, 4):
        for c in (1, -1, 1j, 0.3 - 2j, 1e-3, 1e3):
            for e in (0, 1e-10):
                ok, f = L.prop_to_id(c * (np.eye(n) + e * gen((n, n), n)))
                R.check(ok and close(f, c), 'prop_to_id close to identity', lambda: '%s %s %s' % (c, ok, f))
            if n > 1:
                for i in range(n):
                    for j in range(n):
                        A = c * np.eye(n, dtype=complex)
                        A[i, j] += abs(c) * 0.1
                        R.check(not L.prop_to_id(A)[0], 'prop_to_id away from identity', lambda: str(A.tolist()))
                        R.step()


def misc(desc, R):
    # allclose: tolerance relative to the largest entry, any container
    def forms(a):
        yield a
        if np.ndim(a) == 2:
            yield sp.csr_matrix(a)
            yield sla.aslinearoperator(sp.csr_matrix(a))
        if np.ndim(a) == 0:
            yield complex(a)
        yield np.asarray(a).tolist()
    base = [np.array(2.), np.array([1., 2.]), np.array([[1e3, 1], [0, 1j]]), np.zeros((2, 2)), np.array([[1e-3, 0], [0, 1e-4]]), gen((3, 3), 1)]
    for a in base:
        sc = np.max(np.abs(a))
        for at, rt in ((1e-8, 1e-5), (1e-3, 0), (0, 1e-2), (1e-12, 1e-3)):
            t = at + rt * sc
            for f, want in ((0, True), (0.5, True), (2, False)):
                for pos in range(a.size):
                    b = np.array(a, complex)
                    b.reshape(-1)[pos] += t * f * 1j
                    for x in forms(np.asarray(a, complex)):
                        for y in forms(b):
                            if isinstance(x, sla.LinearOperator) != isinstance(y, sla.LinearOperator) and False:
                                continue
                            R.step()
                            r = L.allclose(x, y, rtol=rt, atol=at)
                            if t == 0 and f:
                                continue
                            R.check(bool(r) == want, 'allclose', lambda: '%r %r rtol=%g atol=%g -> %s' % (x, y, rt, at, r))
                            R.state('ac', a.shape, at, f, type(x).__name__, type(y).__name__, pos)
        R.trace()
    R.check(L.allclose(np.zeros((0, 2)), np.zeros((0, 2))) and not L.allclose(np.zeros((0, 2)), np.zeros((0, 3))), 'allclose empty')
    # mtm
    for n, l, m, p in itertools.product((1, 2, 3), repeat=4):
        a, B, c = gen((p, n), 1), gen((l, n, m), 2), gen((m, p), 3)
        R.step()
        R.check(close(L.mtm(a, B, c), np.einsum('ij,ajk,kl->ail', a, B, c)), 'mtm', str((n, l, m, p)))
        R.state('mtm', n, l, m, p)
    # split_list
    for n in range(1, 6):
        for d, reps, (unit_, tl) in itertools.product(itertools.product((0, 1, 2), repeat=n), (1, 4), ((1, None), (2e-6, None), (2e-3, 1e-3), (50, 20))):
            d = np.repeat(d, reps)
            n = len(d)
            for j in (0, 1e-9 * (tl or 1e-6) / 1e-6):
                v = np.array(d) * unit_ + j * np.arange(n) / n
                R.step()
                got = [tuple(x) for x in (L.split_list(v) if tl is None else L.split_list(v, tol=tl))]
                want, b = [], 0
                for i in range(1, n + 1):
                    if i == n or d[i] != d[i - 1]:
                        want.append((b, i))
                        b = i
                R.check(got == want, 'split_list', lambda: '%s -> %s' % (v, got))
                R.state('split', tuple(d), unit_)
        R.outcome(n)
    R.trace()
    if hasattr(L, '_inv_int'):
        for d in itertools.product((-2, -1, 0, 1, 2), repeat=4):
            A = ta.array(np.array(d).reshape(2, 2), int)
            det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
            R.state('inv', d)
            R.step()
            if abs(det) == 1:
                B = np.array(L._inv_int(A))
                R.check(np.array_equal(np.array(A) @ B, np.eye(2)), '_inv_int', lambda: '%s %s' % (d, B.tolist()))
            else:
                R.fails(ValueError, '_inv_int singular', lambda: L._inv_int(A), str(d))
    R.check(close(L.commutator(SX, SY), 2j * SZ), 'commutator')


def vectors(desc, R):
    """family_to_vectors is an injective real-linear map to rows"""
    keys = ['1', 'k_x', 'k_y', 'm*k_x', 'e**(I*k_x)']
    mods = []
    for i, s in enumerate([s for n in (0, 1, 2) for s in itertools.combinations(keys, n)]):
        mods.append(Model({k: gen((2, 2), 7 * i + j) for j, k in enumerate(s)}, momenta=['k_x', 'k_y'], shape=(2, 2), format=np.ndarray))
    for n in (1, 2, 3):
        for c in itertools.combinations(range(len(mods)), n):
            f = [mods[i] for i in c]
            R.state(c)
            R.step()
            v = L.family_to_vectors(f)
            ks = sorted({k for m in f for k in m.keys()}, key=str)
            ref = np.array([np.concatenate([np.concatenate([m[k].ravel().real, m[k].ravel().imag]) if k in m.keys() else np.zeros(8) for k in ks]) if ks else np.zeros(0) for m in f])
            if not ks:
                R.check(v.shape == (n, 0), 'vectors of empty models', str(v.shape))
                continue
            R.check(v.shape == ref.shape and close(v @ v.T, ref @ ref.T), 'vectors', lambda: '%s' % (c,))
            v2 = L.family_to_vectors(f, all_keys=ks)
            v3 = L.family_to_vectors(f[::-1], all_keys=ks)
            R.check(close(v2, v3[::-1]) and close(v2 @ v2.T, ref @ ref.T), 'vectors with fixed keys', lambda: '%s' % (c,))
            R.trace()
            R.outcome(len(ks), n)


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
