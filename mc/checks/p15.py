"""P15: conserved quantities and rotation generators are exactly the true ones."""
import itertools

import numpy as np
import scipy.sparse as sp
import sympy

from mc.core import gen, herm, unit, rank, rrank, close, spin_mats
from mc.checks import p26
from qsymm import symmetry_finder as SF
from qsymm.groups import ContinuousGroupGenerator
from qsymm.model import Model, BlochModel

ASSUMPTIONS = ['families are polynomial in the momenta (lattice models only have onsite conserved quantities); every parameter is free',
               'prettified output is compared within the requested number of digits']
BOUNDS = {'quick': 'all subsets of up to 3 of 13 (2D, 2x2), 12 (3D, 2x2), 12 (3D, 4x4), 8 (3D, 3x3), 8 (2D, 4x4), 6 (4D, 4x4) composite terms, each with its own parameter or all fixed, in two basis frames, dense/sparse, prettified or not, 3 momentum orders; all block structures up to dimension 5 for conserved quantities, dense and sparse, symbolic and lattice',
          'thorough': 'subsets of up to 4 terms, block structures up to dimension 6'}

S = [2 * s for s in spin_mats(0.5)]
I2 = np.eye(2)


def P(*terms):
    """sum of (exponents, matrix)"""
    out = {}
    for e, m in terms:
        out[e] = out.get(e, 0) + np.array(m, complex)
    return out


def e_(dim, *idx):
    x = [0] * dim
    for i in idx:
        x[i] += 1
    return tuple(x)


def lin(dim, coefs):
    return P(*[(e_(dim, i), m) for i, m in enumerate(coefs) if m is not None])


def k2(dim, m, ax=None):
    return P(*[(e_(dim, i, i), m) for i in (ax or range(dim))])


def times_k2(dim, p):
    out = {}
    for ex, m in p.items():
        for i in range(dim):
            x = list(ex)
            x[i] += 2
            out[tuple(x)] = out.get(tuple(x), 0) + m
    return out


def kron(p, m):
    return {k: np.kron(v, m) for k, v in p.items()}


def terms(fam):
    if fam == '2d':
        d = 2
        j2 = P((e_(d, 0, 0), S[0]), (e_(d, 1, 1), -S[0]), (e_(d, 0, 1), 2 * S[1]))
        return d, [P((e_(d), S[2])), lin(d, S[:2]), lin(d, [-S[1], S[0]]), k2(d, I2), k2(d, S[2]), j2, lin(d, [I2]),
                   P((e_(d, 0, 0), I2), (e_(d, 1, 1), -I2)), P((e_(d), S[0])), lin(d, [S[0]]), times_k2(d, lin(d, S[:2])), P((e_(d), I2)), P((e_(d, 0, 1), I2))]
    if fam == '3d':
        d = 3
        return d, [lin(d, S), k2(d, I2), P((e_(d), S[2])), lin(d, [None, None, S[2]]), lin(d, [S[0], S[1]]), k2(d, I2, (0, 1)), lin(d, [None, None, I2]),
                   lin(d, [S[1], -S[0]]), P((e_(d), S[0])), P((e_(d, 0, 1, 2), I2)), P(*[(e_(d, i, i, i, i), I2) for i in range(d)]), times_k2(d, lin(d, S))]
    if fam == '3d1':
        d, J = 3, spin_mats(1)
        q = {}
        for i, j in itertools.product(range(3), repeat=2):
            q[e_(d, i, j)] = q.get(e_(d, i, j), 0) + J[i] @ J[j]
        return d, [lin(d, J), q, P((e_(d), J[2])), k2(d, np.eye(3)), P((e_(d), J[2] @ J[2])), P((e_(d), sum(j @ j @ j @ j for j in J) + J[0])), lin(d, [None, None, J[2]]), P(*[(e_(d, i, i), J[i] @ J[i]) for i in range(3)])]
    if fam == '3d4':
        d, J = 3, spin_mats(1.5)
        q = {}
        for i, j in itertools.product(range(3), repeat=2):
            q[e_(d, i, j)] = q.get(e_(d, i, j), 0) + J[i] @ J[j]
        dirac = kron(lin(d, S), S[0])
        return d, [lin(d, J), q, P((e_(d), J[2])), k2(d, np.eye(4)), dirac, P((e_(d), np.kron(I2, S[2]))), P((e_(d), np.kron(S[2], I2))), kron(lin(d, S), I2), P((e_(d), np.kron(I2, S[0]))),
                   kron(lin(d, [S[0], S[1]]), I2), P((e_(d), np.kron(S[2], S[0]))), lin(d, [np.kron(I2, x) for x in S])]
    if fam == '2d4':
        d = 2
        return d, [kron(lin(d, S[:2]), I2), P((e_(d), np.kron(I2, S[2]))), P((e_(d), np.kron(S[2], I2))), kron(k2(d, I2), S[2]), P((e_(d), np.kron(I2, S[0]))), kron(lin(d, [S[1], -S[0]]), S[0]),
                   P((e_(d), p26.direct_sum([np.eye(1), S[0], -np.eye(1)]))), P((e_(d, 0), p26.direct_sum([S[0], np.zeros((2, 2))])), (e_(d, 1), p26.direct_sum([S[1], np.zeros((2, 2))])))]
    if fam == '4d':
        d = 4
        g = [np.kron(S[0], S[0]), np.kron(S[0], S[1]), np.kron(S[0], S[2]), np.kron(S[1], I2), np.kron(S[2], I2)]
        return d, [lin(d, g[:4]), P((e_(d), g[4])), k2(d, np.eye(4)), lin(d, g[:3]), P((e_(d), g[0])), k2(d, g[4], (0, 1))]
    if fam == '1d':
        d = 1
        return d, [lin(d, [S[0]]), k2(d, I2), P((e_(d), S[2])), k2(d, S[0])]
    if fam == '0d':
        return 0, [P(((), S[2])), P(((), S[0])), P(((), I2))]


FAMS = ('2d', '3d', '3d1', '3d4', '2d4', '4d', '1d', '0d')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for f in FAMS:
        n = len(terms(f)[1])
        mx = 4 if th and f not in ('4d',) else 3 if f not in ('3d4', '4d') else (3 if th else 2)
        subs = [s for k in range(1, mx + 1) for s in itertools.combinations(range(n), k)]
        for s in subs:
            out.append({'k': 'rot', 'f': f, 's': list(s), 'full': len(s) <= 2})
    for N in range(1, (7 if th else 6)):
        for st in p26.structures(N):
            for m in (1, 2):
                if m == 1 and any(n > 1 for n, _ in st):
                    continue
                out.append({'k': 'cons', 'st': [list(x) for x in st], 'm': m})
    out.append({'k': 'misc'})
    return out


KS = ('k_x', 'k_y', 'k_z', 'k_w')
PAR = ('a', 'b', 'c', 'd')


def build(dim, ts, params, U, fmt, order=None):
    ks = [sympy.Symbol(k) for k in KS[:dim]]
    n = len(next(iter(ts[0].values())))
    d = {}
    for i, t in enumerate(ts):
        par = sympy.Symbol(PAR[i]) if params else sympy.Integer(1)
        for ex, m in t.items():
            key = par
            for k, x in zip(ks, ex):
                key = key * k ** x
            d[key] = d.get(key, 0) + U @ m @ U.conj().T
    if fmt == 'csr':
        d = {k: sp.csr_matrix(v) for k, v in d.items()}
    mom = list(KS[:dim])
    if order:
        mom = [mom[i] for i in order]
    return Model(d, momenta=mom, shape=(n, n), format=sp.csr_matrix if fmt == 'csr' else np.ndarray)


def constraint(dim, ts, params, U):
    """columns: real antisymmetric planes, Hermitian basis elements; rows: real equations"""
    n = len(U)
    ts = [{ex: U @ m @ U.conj().T for ex, m in t.items()} for t in ts]
    if not params:
        tot = {}
        for t in ts:
            for ex, m in t.items():
                tot[ex] = tot.get(ex, 0) + m
        ts = [tot]
    keys = set()
    for i, t in enumerate(ts):
        for ex in t:
            keys.add((i, ex))
            for p, q in itertools.permutations(range(dim), 2):
                if ex[p]:
                    x = list(ex)
                    x[p] -= 1
                    x[q] += 1
                    keys.add((i, tuple(x)))
    keys = sorted(keys)
    planes = list(itertools.combinations(range(dim), 2))

    def vec(d):
        v = np.concatenate([np.asarray(d.get(k, np.zeros((n, n))), complex).ravel() for k in keys])
        return np.concatenate([v.real, v.imag])

    def rot(A):
        d = {}
        for i, t in enumerate(ts):
            for ex, m in t.items():
                for p in range(dim):
                    for q in range(dim):
                        if A[p, q] and ex[p]:
                            x = list(ex)
                            x[p] -= 1
                            x[q] += 1
                            kk = (i, tuple(x))
                            d[kk] = d.get(kk, 0) + A[p, q] * ex[p] * m
        return vec(d)

    def ons(L):
        return vec({(i, ex): -1j * (L @ m - m @ L) for i, t in enumerate(ts) for ex, m in t.items()})
    Rc, Lc = [], []
    for p, q in planes:
        A = np.zeros((dim, dim))
        A[p, q], A[q, p] = 1, -1
        Rc.append(rot(A))
    for i in range(n):
        for j in range(i, n):
            for ph in ((1,) if i == j else (1, 1j)):
                L = np.zeros((n, n), complex)
                L[i, j], L[j, i] = ph, np.conj(ph)
                Lc.append(ons(L))
    return rot, ons, Rc, Lc


def check_cons(R, cons, ms, info, tol=1e-6):
    """cons: list of generators; ms: list of family matrices"""
    n = len(ms[0])
    rows = [np.kron(np.eye(n), m.T) - np.kron(m, np.eye(n)) for m in ms]
    want = n * n - rank(np.vstack(rows)) - 1
    R.check(all(isinstance(g, ContinuousGroupGenerator) and g.R is None for g in cons), 'onsite generators', info)
    Ls = [np.asarray(g.U) for g in cons]
    if not R.check(len(Ls) == want, 'number of conserved quantities', lambda: '%s: %d, expected %d' % (info(), len(Ls), want)):
        return Ls
    for L in Ls:
        R.check(L.shape == (n, n) and close(L, L.conj().T), 'conserved quantity Hermitian', lambda: '%s %s' % (info(), L))
        R.check(abs(np.trace(L)) < tol, 'conserved quantity traceless', lambda: '%s %s' % (info(), L))
        R.check(all(close(L @ m, m @ L, tol) for m in ms), 'conserved quantity commutes', lambda: '%s %s' % (info(), L))
    if Ls:
        R.check(rrank(Ls, 1e-5) == want, 'conserved quantities independent', lambda: '%s %s' % (info(), Ls))
    return Ls


def rot(desc, R):
    dim, ts = terms(desc['f'])
    ts = [ts[i] for i in desc['s']]
    n = len(next(iter(ts[0].values())))
    for params in (True, False):
        if not params and len(ts) == 1:
            continue
        for fr in ('id', 'u'):
            U = np.eye(n) if fr == 'id' else unit(n, 6)
            rotf, ons, Rc, Lc = constraint(dim, ts, params, U)
            ncons = n * n - rank(np.array(Lc)) - 1
            nrot = (len(Rc) + len(Lc) - rank(np.array(Rc + Lc))) - ncons - 1
            if params:
                ms = [U @ m @ U.conj().T for t in ts for m in t.values()]
            else:
                tot = {}
                for t in ts:
                    for ex, m in t.items():
                        tot[ex] = tot.get(ex, 0) + U @ m @ U.conj().T
                ms = list(tot.values())
            R.outcome(desc['f'], ncons, nrot)
            variants = [(False, False, 'dense', None)]
            if params or desc['full']:
                variants.append((True, False, 'dense', None))
            if desc['full'] and params:
                variants += [(False, True, 'csr', None), (True, True, 'dense', None), (False, False, 'csr', None)]
                if fr == 'id' and dim > 1:
                    variants += [(False, False, 'dense', tuple(range(dim))[::-1]), (True, False, 'dense', tuple(range(1, dim)) + (0,))]
            for pretty, sparse, fmt, order in variants:
                m = build(dim, ts, params, U, fmt, order)
                info = lambda: '%s params=%s frame=%s prettify=%s sparse=%s %s order=%s' % (desc, params, fr, pretty, sparse, fmt, order)  # noqa: E731
                R.state(desc['f'], desc['s'], params, fr, pretty, sparse, fmt, order)
                R.step()
                before = str(m)
                disc, cont = SF.symmetries(m, candidates=[], continuous_rotations=True, prettify=pretty, sparse_linalg=sparse)
                R.check(len(disc) == 0, 'no discrete symmetries without candidates', info)
                R.check(str(m) == before, 'model changed', info)
                cons = [g for g in cont if g.R is None]
                rots = [g for g in cont if g.R is not None]
                R.check([g.R is None for g in cont] == [True] * len(cons) + [False] * len(rots), 'order of the list', info)
                check_cons(R, cons, ms, info)
                if not R.check(len(rots) == nrot, 'number of rotation generators', lambda: '%s: %d, expected %d' % (info(), len(rots), nrot)):
                    continue
                As = []
                for g in rots:
                    A = 1j * np.asarray(g.R, complex)
                    L = np.asarray(g.U, complex) if g.U is not None else np.zeros((n, n))
                    ok = A.shape == (dim, dim) and close(A.imag, 0 * A.imag) and close(A, -A.T) and close(L, L.conj().T, 1e-6)
                    R.check(ok, 'generator structure', lambda: '%s %r' % (info(), g))
                    A = A.real
                    if order:
                        # given in the order of model.momenta
                        B = np.zeros_like(A)
                        for i, x in enumerate(order):
                            for j, y in enumerate(order):
                                B[x, y] = A[i, j]
                        A = B
                    As.append(A)
                    R.check(np.max(np.abs(rotf(A) + ons(L)), initial=0) < 1e-5, 'generator annihilates the family', lambda: '%s %r' % (info(), g))
                if As:
                    R.check(rank(As, 1e-5) == nrot, 'generators independent modulo onsite', lambda: '%s %s' % (info(), As))
                R.trace()
            # the other entry points
            if desc['full'] and params:
                m = build(dim, ts, params, U, 'dense')
                R.step(2)
                a = SF.continuous_symmetries(m)
                b = SF.continuous_symmetries(m, prettify=False)
                R.check(len(a) == len(b) == nrot, 'continuous_symmetries', info)
                c0 = SF.symmetries(m, candidates=[])[1]
                R.check(len(c0) == ncons, 'symmetries without rotations', info)


def cons(desc, R):
    st = [tuple(x) for x in desc['st']]
    N = sum(n * d for n, d in st)
    bm = p26.block_mats(st, 'generic', desc['m'])
    for fr in ('id', 'u', 'o'):
        U = p26.frame(fr, N)
        ms = [U @ p26.direct_sum([bm[t][q] for t, (n, d) in enumerate(st) for _ in range(d)]) @ U.conj().T for q in range(desc['m'])]
        info = lambda: '%s frame %s' % (desc, fr)  # noqa: E731
        for kind in ('sym', 'num', 'bloch', 'blochm'):
            if kind == 'sym':
                d, fm = {'a%d' % i: m for i, m in enumerate(ms)}, ms
                mod = Model(d, momenta=['k_x', 'k_y'], shape=(N, N), format=np.ndarray)
            elif kind == 'num':
                d, fm = {'k_x': ms[0], 'k_y**2': ms[-1]}, ms
                mod = Model(d, momenta=['k_x', 'k_y'], shape=(N, N), format=np.ndarray)
            else:
                x = ms[0] + (1j * ms[1] if len(ms) > 1 else 0)
                fm = ms
                d = {'e**(I*k_x)': x, 'e**(-I*k_x)': x.conj().T}
                mod = Model(d, momenta=['k_x', 'k_y'], shape=(N, N), format=np.ndarray)
                if kind == 'bloch':
                    mod = BlochModel(mod)
            for pretty, sparse in ((False, False), (True, False), (False, True)):
                if (sparse and (N > 4 or fr == 'o')) or (pretty and kind == 'num'):
                    continue
                R.state(st, desc['m'], fr, kind, pretty, sparse)
                R.step()
                disc, c = SF.symmetries(mod, candidates=[], continuous_rotations=kind == 'bloch', prettify=pretty, sparse_linalg=sparse)
                Ls = check_cons(R, c, fm, lambda: '%s %s prettify=%s sparse=%s' % (info(), kind, pretty, sparse))
                R.trace()
                R.outcome(len(Ls), N)
        # via the projectors
        Ps = p26.decompose(ms)
        for pretty in (False, True):
            for nd in (3, 6):
                c = SF.conserved_quantities(Ps, prettify=pretty, num_digits=nd)
                R.step()
                check_cons(R, c, ms, lambda: '%s conserved_quantities prettify=%s num_digits=%d' % (info(), pretty, nd), 1e-6 if not pretty else 20 * 10. ** -nd)


def misc(desc, R):
    """integer and awkward coefficients, prettified generators of simple models"""
    m = Model({'k_x': S[1], 'k_y': -S[0]}, momenta=['k_x', 'k_y'])
    _, c = SF.symmetries(m, candidates=[], continuous_rotations=True, prettify=True)
    R.check(len(c) == 1 and c[0].R is not None, 'Rashba', str(c))
    R.state('rashba')
    # trigonometric models have no continuous rotations, but keep conserved quantities
    for t in ('sin(k_x)', 'cos(k_x)+cos(k_y)', 'e**(I*k_x)+e**(-I*k_x)'):
        for extra in ({}, {'k_x': S[0]}):
            m = Model('(%s)*kron(sigma_z, sigma_0)' % t, momenta=['k_x', 'k_y'])
            R.step()
            R.state(t, len(extra))
            _, c = SF.symmetries(m, candidates=[], continuous_rotations=True)
            R.check(all(g.R is None for g in c) and len(c) == 7, 'trigonometric model', lambda: '%s %s' % (t, c))
    # scaled families
    for sc in (1e-2, 1, 1e2):
        for th in (0.3, 1.1):
            V = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
            m = Model({'k_x': sc * V @ S[0] @ V.T, 'k_y': sc * V @ S[1] @ V.T, '1': 2 * sc * V @ S[2] @ V.T}, momenta=['k_x', 'k_y'])
            for pretty in (False, True):
                R.step()
                R.state('scale', sc, th, pretty)
                _, c = SF.symmetries(m, candidates=[], continuous_rotations=True, prettify=pretty)
                R.check([g.R is None for g in c] == [] if False else len(c) == 0 or all(g.R is not None for g in c), 'scaled', str(c))
                rotf, ons, Rc, Lc = constraint(2, [{(1, 0): sc * V @ S[0] @ V.T, (0, 1): sc * V @ S[1] @ V.T, (0, 0): 2 * sc * V @ S[2] @ V.T}], True, I2)
                want = len(Rc) + len(Lc) - rank(np.array(Rc + Lc)) - 1
                R.check(len(c) == want, 'scaled family', lambda: '%s %s %d: %s' % (sc, th, want, c))
                R.trace()
                R.outcome(want)


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
