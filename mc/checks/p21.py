"""P21: lattice reduction and closest-vector search are exact."""
import itertools

import numpy as np

from mc.core import rot2, rot3, rnd
from qsymm.kwant_linalg_lll import lll, cvp, voronoi

ASSUMPTIONS = ['basis vectors are linearly independent', 'lattices have exact integer Gram matrices (in some basis, up to scale and orientation), so that coincidences are exact']
BOUNDS = {'quick': 'lll: all integer bases 2x2 with entries -4..4, 2x3 with -1..2, 3x3 with -1..1, all 3x3 Hermite normal forms with diagonal entries up to 5 in 4 orders, 1xd, long thin bases, 5 values of c, 5 embeddings and scales; cvp: 2D integer Gram matrices with entries up to 6 and 3D up to 3 in two bases each x 10-14 target points on and off the lattice plane x counts 1-12 x grouping 1-4; Voronoi vectors of all the same lattices, reduced or not, given by reduced and skew bases',
          'thorough': 'entries -6..6 (2D), -2..2 (3x3 upper and lower triangular, all sign patterns), Gram entries up to 9 and 4, counts up to 30'}


def emb(B, k):
    """the same lattice, rotated, scaled and embedded in more dimensions"""
    B = np.asarray(B, float)
    m = B.shape[1]
    if k == 0:
        return B
    if k == 1:
        return B * 1e-3
    if k == 2:
        if m == 2:
            return B @ rot2(.7)
        if m == 3:
            return B @ rot3([1, 2, -1], .9)
        return -B * 3.7
    q = np.linalg.qr(np.sin(np.arange(1, 26).reshape(5, 5) * 1.3) + np.eye(5))[0]
    d = {3: m + 1, 4: 5}[k]
    q = np.linalg.qr(q[:d, :d])[0]
    return 250. * B @ q[:m]


def gso(B):
    Q, mu = [], np.zeros((len(B), len(B)))
    for i, v in enumerate(B):
        w = v.astype(float).copy()
        for j, q in enumerate(Q):
            mu[i, j] = v @ q / (q @ q)
            w -= mu[i, j] * q
        Q.append(w)
    return np.array(Q), mu


def check_lll(R, B, c, kw, info):
    R.step()
    B0 = B.copy() if isinstance(B, np.ndarray) else [list(x) for x in B]
    red, T = lll(B, **kw)
    R.check(np.array_equal(np.asarray(B), np.asarray(B0)), 'lll: input changed', lambda: str(info))
    B = np.asarray(B, float)
    m = len(B)
    ok = isinstance(red, np.ndarray) and red.shape == B.shape and isinstance(T, np.ndarray) and T.shape == (m, m) and np.issubdtype(T.dtype, np.integer)
    if not R.check(ok, 'lll: form of the result', lambda: '%s %s %s' % (info, red, T)):
        return
    scale = np.abs(B).max()
    R.check(abs(abs(np.linalg.det(T)) - 1) < 1e-6, 'lll: transformation not unimodular', lambda: '%s %s' % (info, T))
    R.check(np.allclose(B.T @ T / scale, red.T / scale, atol=1e-6), 'lll: transformation does not relate the bases', lambda: '%s %s %s' % (info, red, T))
    Q, mu = gso(red)
    n2 = (Q ** 2).sum(axis=1)
    R.check(all(n2[i] < c * n2[i + 1] * (1 + 1e-9) for i in range(m - 1)), 'lll: not reduced', lambda: '%s %s' % (info, red))
    R.check(np.all(np.abs(mu) < 0.5 + 1e-6), 'lll: not size-reduced', lambda: '%s %s %s' % (info, red, mu))
    return red, mu


def red_case(desc, R):
    n = desc['n']
    for x in itertools.product(range(-desc['lo'], desc['hi'] + 1), repeat=desc['size'] - len(desc['first'])):
        B = np.reshape(tuple(desc['first']) + x, (n, -1))
        if np.linalg.matrix_rank(B) < n:
            continue
        R.state(tuple(B.ravel()))
        h = int(np.abs(B).sum() + 3 * B[0, 0] + 7 * B[-1, -1] + B[0, -1])
        if n == 3 or B.shape[1] > n:
            ks, cs = [h % 5], [(1.34, 1.5, 1.34, 2., 10.)[(h // 5) % 5]]
        else:
            ks, cs = [0, 1 + h % 4], [1.34, (1.5, 2., 5., 10.)[h % 4]]
        for k, c in itertools.product(ks, cs):
            b = emb(B, k) if k else B if h % 2 else B.tolist()
            check_lll(R, b, c, {} if c == 1.34 else {'c': c}, (B.tolist(), k, c))
    R.trace()


def hnf(desc, R):
    """Hermite normal forms: every sublattice of Z^3 with a bounded determinant, in several orders of the vectors"""
    a = desc['a']
    for b, c in itertools.product(range(1, desc['max'] + 1), repeat=2):
        for x, y, z in itertools.product(range(a), range(a), range(b)):
            B = np.array([[a, 0, 0], [x, b, 0], [y, z, c]])
            for k, o in enumerate(((0, 1, 2), (2, 0, 1), (2, 1, 0), (1, 0, 2))):
                R.state(a, b, c, x, y, z, k)
                check_lll(R, B[list(o)], 1.34, {}, (B[list(o)].tolist()))
    R.trace()


def thin(desc, R):
    """long and thin bases"""
    Us = [np.array(m) for m in ([[1, 0], [9, 1]], [[37, 12], [3, 1]], [[1, 0], [-250, 1]], [[89, 55], [55, 34]], [[0, 1], [1, 0]])]
    U3 = [np.array(m) for m in ([[1, 0, 0], [11, 1, 0], [-7, 23, 1]], [[1, 5, -3], [0, 1, 17], [0, 0, 1]], [[2, 1, 0], [5, 3, 0], [9, -4, 1]], [[0, 0, 1], [1, 40, 0], [0, 1, 0]], [[1, 1, 1], [1, 2, 3], [1, 3, 6]])]
    L2 = [np.eye(2), [[1, 0], [-.5, np.sqrt(.75)]], [[1, 0], [.3, 4]], [[5, 0], [2.5, .4]], [[1, .1], [0, 1e-2]], [[1e3, 1], [0, 1]]]
    L3 = [np.eye(3), [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], np.diag([1, 5, 30.]), [[1, 0, 0], [.5, np.sqrt(.75), 0], [.2, .3, .1]], [[2, 0, 0], [1, 2, 0], [1, 1, 2]]]
    for us, ls in ((Us, L2), (U3, L3)):
        for (i, U), (j, V), l in itertools.product(enumerate(us), enumerate(us), ls):
            for k in range(5):
                R.state(i, j, str(l), k)
                B = emb(U @ V @ np.asarray(l), k)
                for c in (1.34, 1.6, 4.):
                    check_lll(R, B, c, {'c': c}, (i, j, np.asarray(l).tolist(), k, c))
    for d in (1, 2, 3, 4):
        for x in itertools.product((-2., 0, 1.5), repeat=d):
            if any(x):
                R.state('line', x)
                r = check_lll(R, np.array([x]), 1.34, {}, x)
                R.check(r is None or np.allclose(r[0], [x]) or np.allclose(r[0], np.negative([x])), 'lll: line', lambda: str(x))
    # four and five dimensions
    for d in (4, 5):
        for s in range(20):
            B = np.array([[int(round(7 * np.sin(1 + i * 3.1 + j * 1.7 + s * s))) for j in range(d)] for i in range(d)])
            if np.linalg.matrix_rank(B) == d:
                R.state('high', d, s)
                check_lll(R, B, 1.34, {}, B.tolist())
    R.trace()


def lattices(tier_th):
    """Gram matrices"""
    out = []
    g = 9 if tier_th else 6
    for a in range(1, g + 1):
        for c in range(a, g + 1):
            for b in range(-a, a + 1):
                if a * c - b * b > 0:
                    out.append(((a, b), (b, c)))
    g = 4 if tier_th else 3
    for a, b, c in itertools.combinations_with_replacement(range(1, g + 1), 3):
        for d, e, f in itertools.product(range(-a, a + 1), range(-a, a + 1), range(-b, b + 1)):
            G = np.array([[a, d, e], [d, b, f], [e, f, c]])
            if np.linalg.det(G) > .5 and 2 * abs(d) <= a and 2 * abs(e) <= a and 2 * abs(f) <= b:
                out.append(tuple(map(tuple, G.tolist())))
    return out


SKEW = {1: [np.eye(1, dtype=int)], 2: [np.eye(2, dtype=int), np.array([[1, 1], [1, 2]]), np.array([[-1, 0], [3, 1]])], 3: [np.eye(3, dtype=int), np.array([[1, 1, 0], [0, 1, 0], [0, -1, 1]]), np.array([[0, 1, 0], [1, 2, 0], [1, 0, -1]])]}
BOX = {}


def box(d, r):
    if (d, r) not in BOX:
        BOX[d, r] = np.array(list(itertools.product(range(-r, r + 1), repeat=d)))
    return BOX[d, r]


def setup(G, i, k):
    G = np.array(G)
    B = np.linalg.cholesky(G.astype(float))
    U = SKEW[len(G)][i]
    return U @ G @ U.T, emb(U @ B, k), {0: 1., 1: 1e-3, 2: 1., 3: 250., 4: 250.}[k]


TARGETS = {2: [(0, 0), (.5, 0), (.5, .5), (1 / 3, 1 / 3), (.25, .75), (2.3, -1.4), (10.5, 7), (.1, .1), (1 / 3, 2 / 3), (-.5, .25)],
           3: [(0, 0, 0), (.5, 0, 0), (.5, .5, 0), (.5, .5, .5), (.25, .25, .25), (1 / 3, 2 / 3, 0), (4.3, -2.2, .6), (.1, .45, .8), (.5, .25, .75), (-7, 3, 2)]}


def brute(G, t, need):
    """squared distances (exact up to rounding) of all lattice points from t, sorted, complete up to the need-th"""
    d = len(G)
    c = np.round(t).astype(int)
    r = 3
    while True:
        pts = box(d, r) + c
        x = pts - np.asarray(t)
        q = np.einsum('ij,jk,ik->i', x, G, x)
        o = np.argsort(q, kind='stable')
        # every point outside the box is further than the smallest extent allows
        lim = (r + .5 - .5) ** 2 / np.max(np.diag(np.linalg.inv(G)))
        lim = (np.sqrt(lim) - 0) ** 2 * (1 - 1 / (r + 1)) ** 2
        if need(q[o], lim):
            return pts[o], q[o]
        r += 3 if d == 3 else 8
        if r > (30 if d == 3 else 120):
            raise AssertionError('reference')


def shells(q):
    """group indices of sorted exact values"""
    s = np.sqrt(np.maximum(q, 0))
    return np.concatenate([[0], np.cumsum(np.diff(s) > 1e-7)])


def near(desc, R):
    G0 = desc['G']
    d = len(G0)
    th = desc['th']
    for i, k in ((0, 0), (1, 2), (2, 3), (1, 1), (0, 4)) if th else ((0, desc['j'] % 5), (1 + desc['j'] % 2, (desc['j'] + 2) % 5)):
        G, B, sc = setup(G0, i, k)
        off = None
        if B.shape[1] > d:
            off = np.linalg.svd(B)[2][-1] * sc * .37
        for a, t in enumerate(TARGETS[d]):
            if not th and d == 3 and (a + desc['j']) % 2:
                continue
            t = np.array(t, float)
            vec = t @ B + (off if off is not None and a % 2 else 0)
            pts, q = brute(G, t, lambda q, lim: np.sum(q < lim) >= 40 and shells(q[q < lim])[-1] >= 6)
            s = np.sqrt(np.maximum(q, 0)) * sc
            ns = (1, 2, 3, 5, 8, 12) if not th else range(1, 31)
            for n in ns:
                if not th and d == 3 and n in (2, 8):
                    continue
                R.state(str(G0), i, k, a, n)
                R.step()
                b0, v0 = B.copy(), vec.copy()
                got = cvp(vec if a % 3 else vec.tolist(), B if a % 2 else B.tolist(), n) if n > 1 else cvp(vec, B)
                R.check(np.array_equal(b0, B) and np.array_equal(v0, vec), 'cvp: input changed', lambda: str(desc))
                ok = isinstance(got, np.ndarray) and got.shape == (n, d) and np.issubdtype(got.dtype, np.integer)
                if not R.check(ok, 'cvp: form of the result', lambda: '%s %s' % (desc, got)):
                    return
                x = got - t
                dist = np.sqrt(np.maximum(np.einsum('ij,jk,ik->i', x, G, x), 0)) * sc
                R.check(np.allclose(dist, s[:n], atol=1e-6 * sc), 'cvp: not the nearest points in order', lambda: '%s basis %d emb %d target %s n %d\n%s\n%s\nexpected %s' % (desc, i, k, t, n, got.tolist(), dist, s[:n]))
                R.check(len({tuple(y) for y in got.tolist()}) == n, 'cvp: repeated points', lambda: str(desc))
            sh = shells(q)
            for n in (1, 2, 3, 4):
                if not th and d == 3 and n == 2:
                    continue
                R.state(str(G0), i, k, a, 'group', n)
                R.step()
                got = cvp(vec, B, n=n, group_by_length=True)
                m = int(np.sum(sh < n))
                want = {tuple(y) for y in pts[:m].tolist()}
                gs = [tuple(y) for y in got.tolist()]
                x = got - t
                dist = np.sqrt(np.maximum(np.einsum('ij,jk,ik->i', x, G, x), 0)) * sc
                R.check(len(gs) == len(want) and set(gs) == want, 'cvp: not all points at the shortest distances', lambda: '%s basis %d emb %d target %s n %d\ngot %s\nexpected %s' % (desc, i, k, t, n, sorted(gs), sorted(want)))
                R.check(np.all(np.diff(dist) > -1e-6 * sc), 'cvp: groups not in order', lambda: '%s %s' % (desc, dist))
    R.trace()


def relevant(G):
    """Voronoi-relevant vectors: the unique shortest vectors (up to sign) of their class modulo 2"""
    d = len(G)
    r = 3 if d < 3 else 3
    lim = 0
    while True:
        pts = box(d, r)
        q = np.einsum('ij,jk,ik->i', pts, G, pts)
        lim = (r + 1) ** 2 / np.max(np.diag(np.linalg.inv(G)))
        rel, allv, ok = set(), [], True
        for c in itertools.product((0, 1), repeat=d):
            if not any(c):
                continue
            sel = np.all((pts - np.array(c)) % 2 == 0, axis=1)
            m = q[sel].min()
            if m >= lim:
                ok = False
                break
            best = pts[sel][q[sel] == m]
            allv.append({tuple(x) for x in best.tolist()})
            if len(best) == 2:
                rel |= allv[-1]
        if ok:
            return rel, allv
        r += 2


def voro(desc, R):
    G0 = desc['G']
    d = len(G0)
    for i in range(len(SKEW[d])):
        for k in range(5) if desc['th'] or d < 3 else ((desc['j'] + i) % 5,):
            G, B, sc = setup(G0, i, k)
            rel, allv = relevant(G)
            R.state(str(G0), i, k)
            for red in (False, True):
                R.step()
                b0 = B.copy()
                v = voronoi(B if k % 2 else B.tolist(), reduced=red) if red else voronoi(B)
                R.check(np.array_equal(B, b0), 'voronoi: input changed', lambda: str(desc))
                info = lambda: '%s basis %d emb %d reduced=%s\n%s\nrelevant %s' % (desc, i, k, red, np.asarray(v).tolist(), sorted(rel))  # noqa: E731
                ok = isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[1] == d and np.issubdtype(v.dtype, np.integer) and len(v) % 2 == 0
                if not R.check(ok, 'voronoi: form of the result', info):
                    return
                h = len(v) // 2
                R.check(np.array_equal(v[h:], -v[:h]), 'voronoi: second half is not minus the first', info)
                got = {tuple(x) for x in v.tolist()}
                R.check(len(got) == len(v), 'voronoi: repeated vectors', info)
                if red:
                    R.check(got == rel, 'voronoi: not exactly the relevant vectors', info)
                else:
                    R.check(len(v) == 2 * (2 ** d - 1), 'voronoi: number of vectors', info)
                    R.check(rel <= got, 'voronoi: relevant vectors missing', info)
                    R.check(all(got & c for c in allv), 'voronoi: not shortest vectors of their classes', info)
                R.outcome((d, red, len(v)))
    R.trace()


def bad(desc, R):
    for x in ([1., 2], 3., np.zeros((2, 2, 2)) + 1):
        R.state(str(x))
        R.fails(ValueError, 'lll needs a matrix', lambda: lll(x))
        R.fails(ValueError, 'cvp needs a matrix', lambda: cvp([0., 0], x))
        R.fails(ValueError, 'voronoi needs a matrix', lambda: voronoi(x))
    R.fails(ValueError, 'too many basis vectors', lambda: lll(np.array([[1., 0], [0, 1], [1, 1]])))
    R.fails(ValueError, 'too many basis vectors', lambda: lll(np.array([[1.], [2]])))
    # one dimension
    for a, n in itertools.product((1., -2.5, 3), range(1, 9)):
        for t in (0, .5, .2, -3.4, 7):
            R.state('1d', a, n, t)
            s = sorted(abs(m - t) * abs(a) for m in range(-30, 31))
            got = cvp([t * a], [[a]], n=n)
            R.check(np.allclose([abs(m - t) * abs(a) for m in got[:, 0]], s[:n]), 'cvp: one dimension', lambda: '%s %s %s: %s' % (a, n, t, got))
            g = cvp([t * a], [[a]], n=n, group_by_length=True)
            cnt = len(sorted({round(x, 9) for x in s})[:n])
            want = [x for x in s if round(x, 9) <= sorted({round(x, 9) for x in s})[n - 1]]
            R.check(cnt == n and np.allclose([abs(m - t) * abs(a) for m in g[:, 0]], want), 'cvp: one dimension, groups', lambda: '%s %s %s: %s' % (a, n, t, g))
        R.check({tuple(x) for x in voronoi([[a]]).tolist()} == {(1,), (-1,)} == {tuple(x) for x in voronoi([[a]], reduced=True).tolist()}, 'voronoi: one dimension', lambda: str(a))
    R.trace()


def cases(tier):
    th = tier == 'thorough'
    out = [{'k': 'bad'}, {'k': 'thin'}]
    e = 6 if th else 4
    out += [{'k': 'red_case', 'n': 2, 'size': 4, 'lo': e, 'hi': e, 'first': [a]} for a in range(-e, e + 1)]
    out += [{'k': 'red_case', 'n': 2, 'size': 6, 'lo': 1, 'hi': 2, 'first': [a]} for a in range(-1, 3)]
    out += [{'k': 'red_case', 'n': 3, 'size': 9, 'lo': 1, 'hi': 1, 'first': [a, b]} for a in range(-1, 2) for b in range(-1, 2)]
    out += [{'k': 'hnf', 'a': a, 'max': 7 if th else 5} for a in range(1, 8 if th else 6)]
    if th:
        out += [{'k': 'red_case', 'n': 3, 'size': 9, 'lo': 1, 'hi': 1, 'first': [a, b, c]} for a in (-2, 2) for b in (-2, 0, 2) for c in (-2, 1, 2)]
    for j, G in enumerate(lattices(th)):
        out.append({'k': 'near', 'G': G, 'j': j, 'th': th})
        out.append({'k': 'voro', 'G': G, 'j': j, 'th': th})
    return out


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
