"""P26: block decomposition is an exact symmetry-adapted basis."""
import itertools

import numpy as np
import scipy.sparse as sp

from mc.core import gen, herm, unit, rank, rrank, null, close, spin_mats, rot3, closure, rot2
from qsymm import symmetry_finder as SF
from qsymm.groups import PointGroupElement
from qsymm.linalg import simult_diag
from qsymm.model import Model

ASSUMPTIONS = ['irreducible blocks are fixed generic Hermitian matrices, group algebras or special structured matrices; spectra of inequivalent blocks are separated by far more than the tolerance unless equal on purpose',
               'Lie algebras are direct sums of su(d) with multiplicity and a centre, in any enumerated basis of generators']
BOUNDS = {'quick': 'all block structures (size x multiplicity multisets) of total dimension up to 5, one to three matrices, blocks generic / isospectral / sharing all but one matrix / with a conjugate partner, five basis frames, dense and sparse; up to 6 copies of blocks of size 1-3; regular representations of 8 groups up to order 12 and permutation representations; Lie algebras su(2), su(3), su(4), sums with multiplicity up to dimension 12 in four generator bases',
          'thorough': 'total dimension up to 7, groups up to order 24'}


def structures(total):
    """multisets of (n, d) with sum n*d = total"""
    items = [(n, d) for n in range(1, total + 1) for d in range(1, total // n + 1)]

    def rec(rem, start):
        if rem == 0:
            yield ()
            return
        for i in range(start, len(items)):
            n, d = items[i]
            if n * d <= rem:
                for rest in rec(rem - n * d, i):
                    yield ((n, d),) + rest
    return list(rec(total, 0))


def cases(tier):
    out = []
    top = 7 if tier == 'thorough' else 5
    for N in range(1, top + 1):
        for st in structures(N):
            for mode in ('generic', 'isospectral', 'share', 'conj', 'spread'):
                for m in (1, 2, 3):
                    if m == 1 and any(n > 1 for n, _ in st):
                        continue
                    out.append({'k': 'blocks', 'st': [list(x) for x in st], 'mode': mode, 'm': m})
    # many copies
    for st in ([[1, 6]], [[2, 4]], [[2, 5]], [[3, 5]], [[1, 2], [2, 5]], [[2, 3], [1, 4]]) + (([[1, 8]], [[2, 6]], [[3, 4]], [[1, 5], [2, 5]]) if tier == 'thorough' else ()):
        for mode in ('generic', 'spread'):
            for m in (2, 3):
                out.append({'k': 'blocks', 'st': st, 'mode': mode, 'm': m})
    for g in GROUPS:
        if len(GROUPS[g][0]()) > (24 if tier == 'thorough' else 12):
            continue
        out.append({'k': 'regular', 'g': g})
        out.append({'k': 'perm', 'g': g})
    out.append({'k': 'paulis'})
    for a in ALG:
        for b in ('std', 'mix', 'real', 'scaled'):
            out.append({'k': 'lie', 'a': a, 'b': b})
    for d, n in [(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (2, 4), (2, 5), (2, 6), (5, 1)] + ([(3, 3), (4, 2)] if tier == 'thorough' else []):
        for b in ('std', 'mix', 'real', 'diagfirst'):
            for fr in FRAMES:
                out.append({'k': 'sun', 'd': d, 'n': n, 'b': b, 'fr': fr})
    out.append({'k': 'bad'})
    return out


FRAMES = ('id', 'perm', 'u', 'o', 'had')


def frame(fr, n):
    if fr == 'id':
        return np.eye(n)
    if fr == 'perm':
        return np.eye(n)[[(i * 2 + 1) % n if n % 2 else (i + n // 2) % n for i in range(n)]]
    if fr == 'u':
        return unit(n, 3)
    if fr == 'o':
        return unit(n, 4, True)
    w = np.exp(2j * np.pi / n)
    return w ** np.outer(range(n), range(n)) / np.sqrt(n)


def direct_sum(ms):
    n = sum(len(m) for m in ms)
    r = np.zeros((n, n), complex)
    i = 0
    for m in ms:
        r[i:i + len(m), i:i + len(m)] = m
        i += len(m)
    return r


def block_mats(st, mode, m):
    """list (sector) of m matrices; sectors are pairwise inequivalent and irreducible"""
    out = []
    for t, (n, d) in enumerate(st):
        if mode == 'generic':
            out.append([herm(n, 10 * t + q) + (t % 3) * np.eye(n) * .7 for q in range(m)])
        elif mode == 'isospectral':
            # all matrices of all sectors of one size share their spectra, except that 1x1 sectors and
            # the last matrix tell them apart
            V = [unit(n, 20 * t + q) for q in range(m)]
            ms = [V[q] @ np.diag(np.arange(n) - (n - 1) / 2) @ V[q].conj().T for q in range(m)]
            if n == 1 or m == 1:
                ms[-1] = ms[-1] + (t + 1) * np.eye(n)
            out.append(ms)
        elif mode == 'share':
            # all but the last matrix are the same for all sectors of a size
            ms = [herm(n, 50 + q) for q in range(m)]
            ms[-1] = herm(n, 70 + t) + (t % 2) * np.eye(n)
            out.append(ms)
        elif mode == 'conj':
            # sectors come in complex conjugate pairs
            ms = [herm(n, 90 + 10 * (t // 2) + q) for q in range(m)]
            if n < 2 or m < 3:
                ms[-1] = ms[-1] + .5 * t * np.eye(n)
            out.append([x.conj() if t % 2 else x for x in ms])
        else:
            # very different scales
            out.append([(10. ** (q - 1)) * (herm(n, 31 * t + q) + 2 * t * np.eye(n)) for q in range(m)])
    return out


def decompose(mats, sparse=False, fmt='dense'):
    if fmt == 'csr':
        mats = [sp.csr_matrix(x) for x in mats]
    f = getattr(SF, '_reduce_hamiltonian', None)
    if f is not None:
        return f(mats if fmt == 'csr' else np.array(mats), sparse=sparse)
    n = mats[0].shape[0]
    model = Model({'a%d' % i: m for i, m in enumerate(mats)}, shape=(n, n), format=sp.csr_matrix if fmt == 'csr' else np.ndarray)
    return SF.discrete_symmetries(model, {PointGroupElement(np.eye(3), False, False)}, sparse_linalg=sparse)[1]


def check_dec(R, mats, Ps, info, want=None):
    """mats dense Hermitian; want: multiset of (n, d) or None; checks everything from the definition"""
    N = len(mats[0])
    Ps = [np.asarray(P) for P in Ps]
    if not R.check(all(P.ndim == 3 and P.shape[1] == N for P in Ps) and sum(P.shape[0] * P.shape[2] for P in Ps) == N, 'dimensions', lambda: '%s: %s' % (info, [P.shape for P in Ps])):
        return
    W = np.hstack([p for P in Ps for p in P])
    R.check(close(W.conj().T @ W, np.eye(N)), 'unitary', lambda: info)
    hs = []
    for P in Ps:
        h = [P[0].conj().T @ m @ P[0] for m in mats]
        hs.append(h)
    for (i, P), (j, Q) in itertools.product(enumerate(Ps), repeat=2):
        for a, b in itertools.product(range(len(P)), range(len(Q))):
            for q, m in enumerate(mats):
                blk = P[a].conj().T @ m @ Q[b]
                if i == j and a == b:
                    ok = close(blk, hs[i][q], 1e-6)
                    R.check(ok, 'identical blocks', lambda: '%s: sector %d copy %d' % (info, i, a))
                else:
                    ok = np.max(np.abs(blk)) < 1e-6 * max(1, np.max(np.abs(m)))
                    R.check(ok, 'block diagonal', lambda: '%s: %s' % (info, np.round(blk, 4)))
    # no further conserved quantity in a block, no intertwiner between blocks
    for (i, A), (j, B) in itertools.product(enumerate(hs), repeat=2):
        if j < i:
            continue
        n, l = len(A[0]), len(B[0])
        rows = [np.kron(np.eye(l), a.T) - np.kron(b, np.eye(n)) for a, b in zip(A, B)]
        d = len(null(np.vstack(rows), 1e-5))
        R.check(d == (1 if i == j else 0), 'irreducible and inequivalent', lambda: '%s: %d intertwiners between sectors %d and %d' % (info, d, i, j))
    got = sorted((P.shape[2], P.shape[0]) for P in Ps)
    if want is not None:
        R.check(got == sorted(want), 'sectors', lambda: '%s: got (n, d) = %s, expected %s' % (info, got, sorted(want)))
    R.outcome(got)
    R.trace()


def blocks(desc, R):
    st = [tuple(x) for x in desc['st']]
    bm = block_mats(st, desc['mode'], desc['m'])
    # equivalent copies, each in its own basis
    N = sum(n * d for n, d in st)
    for fr in FRAMES:
        U = frame(fr, N)
        mats = []
        for q in range(desc['m']):
            parts = []
            for t, (n, d) in enumerate(st):
                for c in range(d):
                    V = unit(n, 7 * t + c) if fr in ('u', 'had') else np.eye(n)
                    parts.append(V @ bm[t][q] @ V.conj().T)
            mats.append(U @ direct_sum(parts) @ U.conj().T)
        for sparse, fmt in ((False, 'dense'), (True, 'csr'), (False, 'csr'), (True, 'dense')):
            if sparse and (fmt == 'dense') != (fr == 'u'):
                continue
            if N > 4 and sparse and fr not in ('id', 'u'):
                continue
            R.state(st, desc['mode'], desc['m'], fr, sparse, fmt)
            R.step()
            m0 = [m.copy() for m in mats]
            Ps = decompose(mats, sparse, fmt)
            check_dec(R, mats, Ps, '%s frame %s sparse=%s %s' % (desc, fr, sparse, fmt), st)
            R.check(all(np.array_equal(a, b) for a, b in zip(m0, mats)), 'input modified')


# -------------------------------------------------------------- group algebras

def _cyc(n):
    return lambda: [rot2(2 * np.pi * i / n) for i in range(n)]


def _q8():
    x, y, z = [2 * s for s in spin_mats(0.5)]
    return closure([1j * x, 1j * y])


def _cl(*g):
    return lambda: closure([np.array(x, float) for x in g])


GROUPS = {
    'C3': (_cyc(3), [(1, 1)] * 3), 'C4': (_cyc(4), [(1, 1)] * 4), 'C5': (_cyc(5), [(1, 1)] * 5),
    'D3': (_cl(rot2(2 * np.pi / 3), np.diag([1, -1])), [(1, 1)] * 2 + [(2, 2)]),
    'D4': (_cl(rot2(np.pi / 2), np.diag([1, -1])), [(1, 1)] * 4 + [(2, 2)]),
    'Q8': (_q8, [(1, 1)] * 4 + [(2, 2)]),
    'D5': (_cl(rot2(2 * np.pi / 5), np.diag([1, -1])), [(1, 1)] * 2 + [(2, 2)] * 2),
    'A4': (_cl(rot3([1, 1, 1], 2 * np.pi / 3), np.diag([1, -1, -1])), [(1, 1)] * 3 + [(3, 3)]),
    'D6': (_cl(rot2(np.pi / 3), np.diag([1, -1])), [(1, 1)] * 4 + [(2, 2)] * 2),
    'O': (_cl(rot3([0, 0, 1], np.pi / 2), rot3([1, 0, 0], np.pi / 2)), [(1, 1)] * 2 + [(2, 2)] + [(3, 3)] * 2),
    'Td': (_cl(rot3([1, 1, 1], 2 * np.pi / 3), np.diag([1, -1, -1]), np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]])), [(1, 1)] * 2 + [(2, 2)] + [(3, 3)] * 2),
}


def index(els, x):
    return min(range(len(els)), key=lambda i: np.max(np.abs(els[i] - x)))


def regular(desc, R):
    els, want = GROUPS[desc['g']]
    els = els()
    n = len(els)
    mats = []
    for g in els:
        P = np.zeros((n, n))
        for i, h in enumerate(els):
            P[index(els, g @ h), i] = 1
        mats += [P + P.T, 1j * (P - P.T)]
    mats = [m for m in mats if np.any(m)]
    if n > 8:
        mats = mats[1:8 if n <= 12 else 4]
    for fr in ('id', 'u') if n <= 12 else ('id',):
        U = frame(fr, n)
        ms = [U @ m @ U.conj().T for m in mats]
        R.state(desc['g'], fr)
        R.step()
        check_dec(R, ms, decompose(ms), 'regular representation of %s, frame %s' % (desc['g'], fr), want if n <= 8 else None)
    # the invariant Hamiltonians of the same group: blocks and multiplicities swap roles, same shapes
    ms = []
    for g in els[1:]:
        P = np.zeros((n, n))
        for i, h in enumerate(els):
            P[index(els, h @ np.linalg.inv(g)), i] = 1
        ms += [x for x in (P + P.T, 1j * (P - P.T)) if np.any(x)]
    if n > 12:
        ms = ms[2:5]
    R.step()
    R.state(desc['g'], 'right')
    check_dec(R, ms, decompose(ms), 'right regular representation of %s' % desc['g'], want if n <= 12 else None)


def perm(desc, R):
    """action of the group on an orbit of a generic and of special points plus a fixed point"""
    els = GROUPS[desc['g']][0]()
    dim = els[0].shape[0]
    for pt in ([1.0, 0, 0], [1, 1, 1], [1, 1, 0]):
        v = np.array(pt[:dim], complex)
        orb = []
        for g in els:
            w = g @ v
            if not any(np.allclose(w, x) for x in orb):
                orb.append(w)
        if len(orb) > 12:
            continue
        n = len(orb) + 1
        ms = []
        for g in els:
            P = np.zeros((n, n), complex)
            P[n - 1, n - 1] = 1
            for i, x in enumerate(orb):
                P[index(orb, g @ x), i] = 1
            ms += [P + P.conj().T, 1j * (P - P.conj().T)]
        ms = [m for m in ms if np.any(m)]
        R.state(desc['g'], tuple(pt))
        R.step()
        check_dec(R, ms, decompose(ms), 'permutation representation of %s on %s' % (desc['g'], pt))


def paulis(desc, R):
    """all sets of up to three two-site Pauli strings"""
    s = [np.eye(2), *[2 * x for x in spin_mats(0.5)]]
    st = [(a, b) for a in range(4) for b in range(4) if a or b]
    for m in (1, 2, 3):
        for c in itertools.combinations(st, m):
            if m == 3 and (sum(a * 5 + b for a, b in c) % 3):
                continue
            mats = [np.kron(s[a], s[b]) for a, b in c]
            R.state(c)
            R.step()
            check_dec(R, mats, decompose(mats), 'Pauli strings %s' % (c,))
    R.step()
    check_dec(R, [np.zeros((3, 3))], decompose([np.zeros((3, 3))]), 'zero matrix', [(1, 3)])
    check_dec(R, [np.eye(2)], decompose([np.eye(2)]), 'identity', [(1, 2)])


# -------------------------------------------------------------- Lie algebras

def su(d):
    out = []
    for i in range(d):
        for j in range(i + 1, d):
            for v in (1, 1j):
                m = np.zeros((d, d), complex)
                m[i, j], m[j, i] = v, np.conj(v)
                out.append(m)
    for i in range(d - 1):
        m = np.zeros((d, d), complex)
        m[i, i], m[i + 1, i + 1] = 1, -1
        out.append(m)
    return out


# sectors (d, n): su(d) acting on C^d x C^n; c: number of central elements kept
ALG = {'su2': ([(2, 1)], 0), 'su2x2': ([(2, 2)], 0), 'su3': ([(3, 1)], 0), 'su2+u1': ([(2, 1), (1, 1)], 1), 'su2+su2': ([(2, 1), (2, 1)], 0),
       'su2+su2+u1': ([(2, 1), (2, 1)], 1), 'su2x2+su3': ([(2, 2), (3, 1)], 0), 'u1': ([(1, 1), (1, 1)], 1), 'u1u1': ([(1, 1)] * 3, 2),
       'u1^3': ([(1, 1), (1, 2), (1, 1), (1, 1)], 3), 'su3+u1+u1': ([(3, 1), (1, 1), (1, 2)], 2), 'su4': ([(4, 1)], 0), 'su3x2': ([(3, 2)], 0), 'spin1': (None, 0), 'spin3/2': (None, 0)}


def algebra(name):
    sec, c = ALG[name]
    if sec is None:
        J = spin_mats(1 if name == 'spin1' else 1.5)
        return list(J), 0
    N = sum(d * n for d, n in sec)
    gens, cen = [], []
    o = 0
    for d, n in sec:
        for g in (su(d) if d > 1 else []):
            m = np.zeros((N, N), complex)
            m[o:o + d * n, o:o + d * n] = np.kron(g, np.eye(n))
            gens.append(m)
        z = np.zeros((N, N), complex)
        z[o:o + d * n, o:o + d * n] = np.eye(d * n)
        cen.append(z - np.trace(z) / N * np.eye(N))
        o += d * n
    return gens + cen[:c], c


def mixed(gens, b, U):
    g = np.array([U @ x @ U.conj().T for x in gens])
    n = len(g)
    if b == 'std':
        return g
    if b == 'diagfirst':
        return g[::-1]
    if b == 'scaled':
        return g[::-1] * np.array([0.05 + (i % 3) for i in range(n)])[:, None, None]
    q = unit(n, 5, True) if b == 'real' else gen((n, n), 6, True) + 2 * np.eye(n)
    return np.tensordot(q, g, 1)


def comm(a, b):
    return a @ b - b @ a


def lie(desc, R):
    base, c = algebra(desc['a'])
    N = len(base[0])
    for fr in FRAMES:
        U = frame(fr, N)
        g = mixed(base, desc['b'], U)
        n = len(g)
        R.state(desc['a'], desc['b'], fr)
        R.step(4)
        C = SF.struct_const(g)
        R.check(C.shape == (n, n, n), 'structure constant shape', str(C.shape))
        R.check(all(close(np.tensordot(C[i, j], g, 1), comm(g[i], g[j])) for i in range(n) for j in range(n)), 'structure constants', lambda: '%s' % desc)
        K = SF.killing(g)
        ad = [np.array([np.linalg.lstsq(np.array([x.ravel() for x in g]).T, comm(g[i], g[j]).ravel(), rcond=None)[0] for j in range(n)]).T for i in range(n)]
        R.check(close(K, np.array([[np.trace(a @ b) for b in ad] for a in ad]), 1e-6), 'Killing form', lambda: '%s' % desc)
        cen, ss = SF.separate_lie_algebra(g)
        R.check(len(cen) == c and len(ss) == n - c, 'centre dimension', lambda: '%s: centre %s, semisimple %s' % (desc, np.shape(cen), np.shape(ss)))
        R.check(all(close(comm(x, y), 0 * x, 1e-6) for x in cen for y in g), 'centre commutes', lambda: '%s' % desc)
        allv = np.array([x.ravel() for x in (list(cen) + list(ss))])
        gv = np.array([x.ravel() for x in g])
        R.check(rank(allv) == n and rank(np.vstack([allv, gv])) == n, 'splitting spans the algebra', lambda: '%s' % desc)
        # the semisimple part is Killing-orthogonal to nothing in itself
        if len(ss):
            co = [np.linalg.lstsq(gv.T, x.ravel(), rcond=None)[0] for x in ss]
            R.check(rank(np.array([[a @ K @ b for b in co] for a in co])) == len(ss), 'semisimple part', lambda: '%s' % desc)
        if c == 0:
            Q = SF.casimir(g)
            R.check(all(close(comm(Q, x), 0 * x, 1e-6) for x in g), 'Casimir commutes', lambda: '%s' % desc)
            Q2 = np.tensordot(np.linalg.inv(K), np.array([[a @ b for b in g] for a in g]), 2)
            R.check(close(Q, Q2, 1e-6), 'Casimir value', lambda: '%s' % desc)
        else:
            R.fails(ValueError, 'Casimir of a non-semisimple algebra', lambda: SF.casimir(g), str(desc))
        if c:
            Ps = simult_diag(cen)
            W = np.hstack(Ps)
            R.check(close(W.conj().T @ W, np.eye(N)) and all(all(close(P @ P.conj().T @ z, z @ P @ P.conj().T) and rank([(P.conj().T @ z @ P).ravel(), np.eye(P.shape[1]).ravel()]) == 1 for P in Ps) for z in cen), 'centre diagonalized', lambda: '%s' % desc)
        R.trace()
        R.outcome(n, c, N)


def sun(desc, R):
    d, n = desc['d'], desc['n']
    N = d * n
    U = frame(desc['fr'], N)
    base = [np.kron(x, np.eye(n)) for x in su(d)]
    g = mixed(base, desc['b'], U)
    R.state(d, n, desc['b'], desc['fr'])
    for check in (False, True):
        R.step()
        g0 = g.copy()
        Ps = np.asarray(SF.symmetry_adapted_sun(g, check=check))
        R.check(np.array_equal(g, g0), 'input modified')
        if not R.check(Ps.shape == (d, N, n), 'shape', lambda: '%s %s' % (desc, Ps.shape)):
            continue
        W = np.hstack(Ps)
        R.check(close(W.conj().T @ W, np.eye(N)), 'unitary', lambda: '%s' % desc)
        for x in g:
            for a, b in itertools.product(range(d), repeat=2):
                blk = Ps[a].conj().T @ x @ Ps[b]
                R.check(close(blk, blk[0, 0] * np.eye(n), 1e-6), 'blocks proportional to identity', lambda: '%s: %s' % (desc, np.round(blk, 4)))
        # any Hermitian L gives an element of the algebra plus identity
        gv = [x.ravel() for x in g] + [np.eye(N).ravel()]
        for k in range(3):
            L = herm(d, k)
            S = np.einsum('aij,ab,bkj->ik', Ps, L, Ps.conj())
            R.check(rank(gv + [S.ravel()]) == rank(gv), 'spanned by the generators', lambda: '%s' % desc)
        R.trace()
        R.outcome(d, n)


def bad(desc, R):
    E = (ValueError, AssertionError)
    J1, J32 = spin_mats(1), spin_mats(1.5)
    R.fails(E, 'spin 1 is no multiple of su(2)', lambda: SF.symmetry_adapted_sun(np.array(J1)))
    R.fails(E, 'spin 3/2 is no multiple of the fundamental su(2)', lambda: SF.symmetry_adapted_sun(np.array(J32)))
    R.fails(E, 'wrong number of generators', lambda: SF.symmetry_adapted_sun(np.array(su(3)[:5])))
    sx, sy, sz = spin_mats(0.5)
    R.fails(E, 'not closed', lambda: SF.struct_const(np.array([sx, sy])))
    for i in range(4):
        R.state('bad', i)
    R.fails(E, 'not closed', lambda: SF.struct_const(np.array([J1[0], J1[1] + J1[1] @ J1[1]])))


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
