"""P20: the Bravais point group is the full point group of the lattice.

Reference: the orthogonal maps that carry a lattice to itself are the integer
matrices M with M G M^T = G (G the Gram matrix), found by exhaustive search.
"""
import itertools
import warnings

import numpy as np

from mc.core import rot2, rot3

from qsymm import bravais_point_group
from qsymm.groups import PointGroupElement

ASSUMPTIONS = ['the translation vectors are linearly independent',
               'two lengths or angles are equal up to rounding or differ by more than a part in 1000 (lattices closer to a more symmetric one are not decided)',
               'for a lattice embedded in more dimensions the operations are expressed in the orthonormal (Gram-Schmidt) basis of the translation vectors']
BOUNDS = {'quick': 'all 2D lattices with integer Gram entries up to 8 and all 3D lattices with reduced Gram matrices with diagonal up to 4 (positive definite, |2 G_ij| <= G_ii), 14 tables of lattices of every Bravais type with generic parameters and nearly degenerate ones; each given by 1-2 of 8 bases, 8 orientations, scales and embeddings (up to 5 dimensions, 1e-10 to 1e6), all four combinations of time reversal and particle-hole over the family, group and generator form',
          'thorough': 'Gram entries up to 14 (2D) and 6 (3D), all bases and orientations'}

U2 = [np.array(m) for m in ([[1, 0], [0, 1]], [[0, 1], [1, 0]], [[1, 1], [0, 1]], [[1, 0], [-1, -1]], [[2, 1], [1, 1]], [[3, 2], [4, 3]], [[-1, 5], [0, 1]], [[7, 3], [2, 1]])]
U3 = [np.array(m) for m in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 0, -1], [0, 1, 0], [1, 0, 0]], [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
                            [[1, 0, 0], [1, 1, 0], [1, 1, 1]], [[1, 2, -1], [0, 1, 3], [0, 0, 1]], [[2, 1, 0], [1, 1, 0], [0, -2, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 1]])]
US = {1: [np.eye(1, dtype=int), -np.eye(1, dtype=int)], 2: U2, 3: U3}


def embed(B, k):
    """orientation, scale, embedding number k of the lattice with basis rows B"""
    d = B.shape[1]
    if k == 0:
        return B
    if k == 1:
        return B[:, ::-1] * 1e-4
    if k == 2:
        rot = {1: -np.eye(1), 2: rot2(.7), 3: rot3([1, 2, -1], .9)}[d]
        return B @ rot.T
    if k == 3:
        ref = np.diag([-1.] + [1.] * (d - 1))
        rot = {1: np.eye(1), 2: rot2(-2.1), 3: rot3([0, 1, 3], 2.2)}[d]
        return B @ (ref @ rot) * 1e6
    if k == 4:
        return np.hstack([B, np.zeros((len(B), 1))]) * 2.46
    if k == 5:
        return np.hstack([np.zeros((len(B), 1)), B[:, ::-1]])
    if k == 6:
        return B * 1e-10 @ {1: np.eye(1), 2: rot2(1.1), 3: rot3([3, -1, 1], -.6)}[d].T
    q = np.linalg.qr(np.sin(np.arange(1, 26).reshape(5, 5) * 1.3) + np.eye(5))[0]
    return B @ q[:d] * 3e-2


NEMB = 8
# all the ways to build a basis with that Gram matrix


def gs(B):
    Q = []
    for v in np.asarray(B, float):
        w = v.copy()
        for q in Q:
            w = w - (w @ q) * q
        for q in Q:
            w = w - (w @ q) * q
        Q.append(w / np.linalg.norm(w))
    return np.array(Q)


def autos(G, tol):
    """integer matrices M with M G M^T = G (rows: images of the basis)"""
    d = len(G)
    r = np.floor(np.sqrt(np.max(np.diag(G)) * np.diag(np.linalg.inv(G))) * (1 + 1e-6)).astype(int)
    pts = np.array(list(itertools.product(*[range(-x, x + 1) for x in r])))
    q = np.einsum('ij,jk,ik->i', pts, G, pts)
    cand = [pts[np.abs(q - G[i, i]) < tol * G[i, i]] for i in range(d)]
    out = [()]
    for i in range(d):
        new = []
        for x in out:
            for v in cand[i]:
                if all(abs(v @ G @ x[j] - G[i, j]) < tol * np.sqrt(G[i, i] * G[j, j]) for j in range(i)):
                    new.append(x + (v,))
        out = new
    return [np.array(x) for x in out]


def find(out, x):
    """position of x among the elements (matrix, flags) found so far"""
    for i, y in enumerate(out):
        if y[1:] == x[1:] and np.abs(y[0] - x[0]).max() < 1e-4:
            return i


def closure(gens, d):
    """closure of (R, conj, anti) under multiplication, by numeric matrices"""
    out = [(np.eye(d), False, False)]
    for x in out:
        for g in gens:
            y = (x[0] @ g[0], x[1] ^ g[1], x[2] ^ g[2])
            if find(out, y) is None:
                out.append(y)
        if len(out) > 200:
            return None
    return out


def one(R, B, want_n, aut, B0, tr, ph, form, info):
    """B: basis as given to the library, B0: the basis for which aut was found, B = embed(U B0)"""
    d = len(B)
    args = B.copy() if form != 1 else B.tolist()
    before = B.copy()
    kw = {}
    if tr:
        kw['tr'] = True
    if ph:
        kw['ph'] = True
    Q = np.eye(d) if B.shape[1] == d else gs(B)
    P = B @ Q.T if B.shape[1] > d else B
    Pi = np.linalg.inv(P)
    flags = {(False, False)} | ({(True, False)} if tr else set()) | ({(True, True)} if ph else set()) | ({(False, True)} if tr and ph else set())
    want = [((Pi @ M @ P).T, c, a) for M in aut for c, a in sorted(flags)]
    for generators in (False, True):
        R.step()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if generators:
                    kw = dict(kw, generators=True)
                G = bravais_point_group(args, **kw)
        except Exception as e:
            R.check(False, 'bravais: raised', '%s %s: %r' % (info, kw, e))
            return
        R.check(np.array_equal(np.asarray(args), before), 'bravais: input changed', lambda: str(info))
        G = list(G)
        ok = all(isinstance(g, PointGroupElement) and np.asarray(g.R).shape == (d, d) and g.U is None for g in G)
        if not R.check(ok, 'bravais: form of the result', lambda: '%s %s' % (info, G)):
            return
        got = [(np.asarray(g.R, float), bool(g.conjugate), bool(g.antisymmetry)) for g in G]
        if generators:
            got = closure(got, d)
        else:
            R.check(len(set(G)) == len(G), 'bravais: repeated elements', lambda: str(info))
        same = got is not None and len(got) == len(want) and len({find(want, x) for x in got} | {None}) == len(want) + 1
        R.outcome((d, tr, ph, generators, len(want)))
        R.check(same, 'bravais: not the full point group', lambda: '%s tr=%s ph=%s generators=%s: %s elements, expected %s' % (info, tr, ph, generators, got and len(got), len(want)))


def lattice(desc, R):
    d = desc['d']
    for n, G in enumerate(desc['Gs']):
        G = np.array(G, float)
        B0 = np.linalg.cholesky(G)
        aut0 = autos(G, desc.get('tol', 1e-6))
        if not R.check(len(aut0) >= 2, 'reference', str(G)):
            return
        if len(autos(G, 1e-3)) != len(aut0):
            continue    # almost more symmetric: undecided
        j = desc['j'] + n
        us = US[d]
        if desc['th']:
            combos = [(u, k) for u in range(len(us)) for k in range(NEMB)] if d < 3 else [((j + i) % len(us), (j // 2 + i) % NEMB) for i in range(8)]
        elif d < 3:
            combos = [(i, (j + 3 * i) % NEMB) for i in range(len(us))]
        else:
            combos = [(j % len(us), (j // 3) % NEMB)]
            if desc.get('all'):
                combos = [((j + i) % len(us), (j // 2 + 3 * i) % NEMB) for i in range(8)]
        for t, (u, k) in enumerate(combos):
            R.state(str(G.tolist()), u, k)
            U = us[u]
            B = embed(U @ B0, k)
            Ui = np.round(np.linalg.inv(U)).astype(int)
            aut = [U @ M @ Ui for M in aut0]
            fl = (j + t) % 4 if not desc['th'] else None
            for tr, ph in ([(fl & 1, fl >> 1)] if fl is not None else itertools.product((0, 1), repeat=2)):
                one(R, B, None, aut, B0, bool(tr), bool(ph), (j + t) % 2, '%s basis %d embedding %d: %s' % (G.tolist(), u, k, B.tolist()))
    R.trace()


def gram2(m):
    return [((a, b), (b, c)) for a in range(1, m + 1) for c in range(a, m + 1) for b in range(-(a // 2), a // 2 + 1) if a * c > b * b]


def gram3(m):
    out = []
    for a, b, c in itertools.combinations_with_replacement(range(1, m + 1), 3):
        for d, e, f in itertools.product(range(-(a // 2), a // 2 + 1), range(-(a // 2), a // 2 + 1), range(-(b // 2), b // 2 + 1)):
            G = np.array([[a, d, e], [d, b, f], [e, f, c]])
            if np.linalg.det(G) > .5:
                out.append(tuple(map(tuple, G.tolist())))
    return out


def conventional():
    """conventional cells (a, b, c, alpha..) with centrings: every Bravais type with generic, special and nearly special parameters"""
    out = []
    P = np.eye(3)
    I_ = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])
    F = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    C = np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]])
    A = np.array([[1, 0, 0], [0, .5, .5], [0, -.5, .5]])
    Bc = np.array([[.5, 0, .5], [0, 1, 0], [-.5, 0, .5]])
    Rh = np.array([[2 / 3, 1 / 3, 1 / 3], [-1 / 3, 1 / 3, 1 / 3], [-1 / 3, -2 / 3, 1 / 3]])

    def cell(a, b, c, al=90, be=90, ga=90):
        al, be, ga = np.radians([al, be, ga])
        x = np.array([[a * a, a * b * np.cos(ga), a * c * np.cos(be)], [a * b * np.cos(ga), b * b, b * c * np.cos(al)], [a * c * np.cos(be), b * c * np.cos(al), c * c]])
        return x

    def add(cen, *args):
        x = cen @ cell(*args) @ cen.T
        x[np.abs(x) < 1e-14] = 0
        out.append(tuple(map(tuple, x.tolist())))
    ratios = [.3, .5, .7, 1 / np.sqrt(2), .81, np.sqrt(2 / 3), .95, .995, 1, 1.005, 1.1, np.sqrt(1.5), 1.3, np.sqrt(2), 1.5, np.sqrt(3), 2, 2.3, np.sqrt(6), 3.7]
    for r in ratios:
        for cen in (P, I_, F, C):
            add(cen, 1, 1, r)
        add(P, 1, 1, r, 90, 90, 120)
        add(Rh, 1, 1, r, 90, 90, 120)
        for s in (.6, 1.003, 1.17, 1.9):
            for cen in (P, I_, F, C, A):
                add(cen, 1, s, r)
            for be in (60, 77.3, 89.6, 95, 110, 120, 135):
                if (round(r * 100) + int(be)) % 3 == 0:
                    for cen in (P, C, A, I_):
                        add(cen, 1, s, r, 90, be, 90)
                    add(P, 1, s, r, 84, be, 101.5)
                    add(Bc, 1, s, r, be, 90, 90)
    for al in (20, 40, 50, 55, 59.7, 60, 60.3, 70, 80, 89.5, 90, 90.5, 100, 109, 109.4712206344907, 110, 115):
        add(P, 1, 1, 1, al, al, al)
    return out


def conv2():
    out = []
    for r in (.2, .5, .57, 1 / np.sqrt(3), .6, .9, .999 ** 2, 1, 1.004, 1.4, np.sqrt(3), 2, 3.3):
        for x in (0, .5, .002, .498, .25, 1 / 3, .1):
            # basis (1, 0), (x, r) (times any unimodular matrix)
            out.append(((1., x), (x, x * x + r * r)))
    return out


def line(desc, R):
    for a in (1, -2.5, 1e-10, 3e5):
        for e in (1, 2, 3, 5):
            for v in itertools.product((-1, 0, 2), repeat=e):
                if any(v) and (e < 5 or v[0] == -1):
                    B = np.array([v], float) * a
                    for tr, ph in itertools.product((False, True), repeat=2):
                        R.state('line', a, v, tr, ph)
                        one(R, B, None, [np.eye(1), -np.eye(1)], None, tr, ph, e % 2, str(B))
    R.trace()


def bad(desc, R):
    R.fails(NotImplementedError, '4 dimensions', lambda: bravais_point_group(np.eye(4)))
    for x in (np.array([[1., 0], [0, 1], [1, 1]]), np.array([[1.], [2.]])):
        R.fails(ValueError, 'more vectors than dimensions', lambda: bravais_point_group(x))
    # integer input, verbose
    import contextlib
    import io
    for B in ([[1, 0], [0, 1]], [[2, 0], [1, 3]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[5]], [[1, 1, 0], [0, 1, 1]]):
        Bf = np.array(B, float)
        aut = autos(Bf @ Bf.T, 1e-6)
        for form in (0, 1):
            R.state('int', str(B), form)
            one(R, np.array(B), None, aut, None, False, False, form, str(B))
        buf = io.StringIO()
        R.step()
        with contextlib.redirect_stdout(buf):
            G = bravais_point_group(B, verbose=True)
        R.check(len(G) == len(aut), 'bravais: verbose changes the result', lambda: str(B))
    R.trace()


def cases(tier):
    th = tier == 'thorough'
    out = [{'k': 'bad'}, {'k': 'line'}]

    def add(d, Gs, size, **kw):
        for j in range(0, len(Gs), size):
            out.append(dict({'k': 'lattice', 'd': d, 'Gs': Gs[j:j + size], 'j': j, 'th': th}, **kw))
    add(3, conventional(), 12, tol=1e-5)
    add(2, conv2(), 8, tol=1e-5)
    add(2, gram2(14 if th else 8), 10)
    add(3, gram3(2), 3, all=True)
    add(3, gram3(6 if th else 4), 40 if not th else 60)
    return out


def run_case(desc, R):
    R.sample = {k: v for k, v in desc.items() if k != 'Gs'}
    globals()[desc['k']](desc, R)
