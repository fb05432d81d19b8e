"""P08: group axioms of point group elements and their action on models."""
import functools
import itertools

import numpy as np
import scipy.sparse as sp
import sympy
import tinyarray as ta

from mc import algebra as al
from mc.core import gen, unit, close, ev_model, point, closure, rnd, rot2, rot3
from qsymm.model import Model, BlochModel
from qsymm.groups import PointGroupElement

ASSUMPTIONS = ['real-space parts are invertible; Hilbert-space parts are unitary',
               'models are compared as functions at fixed generic points']
BOUNDS = {'quick': 'full multiplication tables of 9 families (1D, D4, D6 as exact / floating / lattice-coordinate matrices, Oh, D6h exact and floating, sheared and generic rotations), each times 4 classes, with and without unitary parts; all triples of D4 x 4 classes; inverses and powers -13..13 (-5..5 for generic matrices); inverses of all 2x2 integer matrices of determinant +-1 with entries up to 12 and of all signed permutations in three skew 3D bases; action of every element on 13 models; all words of length <= 3 over 6 generators acting on models',
          'thorough': 'all triples of D6 x 4 classes, words of length <= 5'}

R2 = sympy.Rational(1, 2)
S3 = sympy.sqrt(3) / 2


@functools.lru_cache(None)
def rotations(fam):
    """list of (numpy R, R as supplied to the library)"""
    if fam == '1D':
        return [(np.array([[s]], float), np.array([[s]])) for s in (1, -1)]
    if fam == 'D4':
        ms = closure([rot2(np.pi / 2), np.diag([1., -1])])
        return [(m, np.array(np.round(m), int)) for m in ms]
    if fam == 'D6f':
        ms = closure([rot2(np.pi / 3), np.diag([1., -1])])
        return [(m, m) for m in ms]
    if fam == 'D6lat':      # integer, not orthogonal
        ms = closure([np.array([[1., -1], [1, 0]]), np.array([[0., 1], [1, 0]])])
        return [(m, ta.array(np.array(np.round(m), int))) for m in ms]
    if fam == 'D6s':
        ms = closure([rot2(np.pi / 3), np.diag([1., -1])])
        return [(m, exact(m)) for m in ms]
    if fam == 'Oh':
        ms = closure([rot3([0, 0, 1], np.pi / 2), rot3([1, 1, 1], 2 * np.pi / 3), -np.eye(3)])
        return [(m, np.array(np.round(m), int)) for m in ms]
    if fam in ('D6hf', 'D6hs'):
        ms = closure([rot3([0, 0, 1], np.pi / 3), rot3([1, 0, 0], np.pi), -np.eye(3)])
        return [(m, m if fam == 'D6hf' else exact(m)) for m in ms]
    if fam == 'gen2':
        ms = [rot2(t) for t in (0, 0.3, 1.1, 2.7, -0.3)] + [rot2(t) @ np.diag([1, -1]) for t in (0.3, 1.0)] + \
             [np.array([[1, 1], [0, 1.]]), np.array([[1, 0], [0.5, 1.]]), np.array([[2., 0], [0, 0.5]])]
        return [(m, m) for m in ms]
    if fam == 'gen3':
        ms = [rot3(n, t) * s for n, t, s in (([1, 2, 3], 0.7, 1), ([1, 0, -1], 2.1, -1), ([0, 1, 0], 1e-3, 1), ([1, 1, 1], np.pi / 5, 1))]
        ms += [np.array([[1, 1, 0], [0, 1, 1], [0, 0, 1.]]), np.array([[0, 1, 0], [0, 0, 1.], [1, 0, 0]])]
        return [(m, m) for m in ms]


def exact(m):
    """entries from {0, 1/2, 1, sqrt(3)/2} with signs, exactly"""
    tab = {0.0: sympy.Integer(0), 0.5: R2, 1.0: sympy.Integer(1), round(np.sqrt(3) / 2, 6): S3}
    return sympy.ImmutableMatrix(m.shape[0], m.shape[1], [tab[abs(round(x, 6))] * (1 if x > 0 else -1) for x in m.ravel()])


FLAGS = [(False, False), (True, False), (False, True), (True, True)]


def elements(fam, U=None, n=2, conv=None):
    out = []
    for i, ((m, r), (c, a)) in enumerate(itertools.product(rotations(fam), FLAGS)):
        u = None if U is None else (np.eye(n) if U == 'id' else unit(n, i))
        out.append((PointGroupElement(r if conv is None else conv(r), c, a, u), (m, c, a, u)))
    return out


FAMS = ['1D', 'D4', 'D6f', 'D6lat', 'D6s', 'Oh', 'D6hf', 'D6hs', 'gen2', 'gen3']


def cases(tier):
    out = []
    for f in FAMS:
        nrow = 4 * len(rotations(f))
        step = 48 if f != 'D6hs' else 12
        for lo in range(0, nrow, step):
            for U in (None, 'gen'):
                out.append(dict(t='table', fam=f, lo=lo, hi=min(lo + step, nrow), U=U))
    fams = ['D4'] if tier == 'quick' else ['D4', 'D6lat', 'D6f', 'D6s']
    for f in fams:
        n = 4 * len(rotations(f))
        for lo in range(0, n, 8):
            out.append(dict(t='triples', fam=f, lo=lo, hi=lo + 8))
    for f in FAMS:
        for U in (None, 'gen'):
            out.append(dict(t='powers', fam=f, U=U))
    for f in FAMS:
        for mi in range(len(model_list(dimof(f), f))):
            out.append(dict(t='act', fam=f, model=mi))
    for f in FAMS:
        out.append(dict(t='words', fam=f, depth=3 if tier == 'quick' else 5))
    out.append(dict(t='mix'))
    for a in range(-12, 13):
        out.append(dict(t='invint', a=a))
    for a in (-1, 0, 1):
        out.append(dict(t='invint3', a=a))
    return out


def dimof(f):
    return rotations(f)[0][0].shape[0]


def run_case(desc, R):
    globals()['case_' + desc['t']](desc, R)


def num(g):
    return np.array(g.R).astype(float), bool(g.conjugate), bool(g.antisymmetry), (None if g.U is None else np.array(g.U))


def same(x, y, tol=1e-7):
    return (close(x[0], y[0], tol) and x[1] == y[1] and x[2] == y[2] and
            ((x[3] is None) == (y[3] is None)) and (x[3] is None or close(x[3], y[3], tol)))


def mulref(x, y):
    u = None if x[3] is None or y[3] is None else x[3] @ (y[3].conj() if x[1] else y[3])
    return x[0] @ y[0], x[1] ^ y[1], x[2] ^ y[2], u


def invref(x):
    u = None
    if x[3] is not None:
        u = np.linalg.inv(x[3])
        u = u.conj() if x[1] else u
    return np.linalg.inv(x[0]), x[1], x[2], u


def case_table(desc, R):
    els = elements(desc['fam'], desc['U'])
    none = elements(desc['fam'], None)
    for i in range(desc['lo'], desc['hi']):
        g, x = els[i]
        e = g.identity()
        R.check(same(num(e), (np.eye(len(x[0])), False, False, None if x[3] is None else np.eye(2))), 'identity %s' % desc)
        gi = g.inv()
        R.check(same(num(gi), invref(x)), 'inverse %s %d' % (desc['fam'], i), lambda: '%r -> %r' % (g, gi))
        for p in (g * gi, gi * g):
            R.check(same(num(p), num(e)) and p == e, 'g*ginv %s %d' % (desc['fam'], i))
        R.check(same(num(g * e), x) and same(num(e * g), x), 'neutral %s %d' % (desc['fam'], i))
        R.check(same(num(gi.inv()), x), 'involution %s %d' % (desc['fam'], i))
        for j, (h, y) in enumerate(els):
            p = g * h
            R.step()
            R.check(same(num(p), mulref(x, y)), 'product %s %d %d U=%s' % (desc['fam'], i, j, desc['U']), lambda: '%r\n*\n%r\n=\n%r' % (g, h, p))
            # unknown unitary part is contagious
            if desc['U'] and (i + j) % 5 == 0:
                for a, b in ((g, none[j][0]), (none[i][0], h)):
                    q = a * b
                    R.check(same(num(q), mulref(x, y)[:3] + (None,)), 'product-none %s %d %d' % (desc['fam'], i, j))
            R.check(same(num(p.inv()), num(h.inv() * g.inv())), 'inverse of product %s %d %d' % (desc['fam'], i, j))
            R.state(desc['fam'], desc['U'], i, j)
            R.outcome(desc['fam'], rnd(num(p)[0], 4), p.conjugate, p.antisymmetry)
            R.trace()
        R.check(same(num(g), x), 'operand changed %s %d' % (desc['fam'], i))
    R.sample = dict(fam=desc['fam'], product=repr(p))


def case_triples(desc, R):
    els = elements(desc['fam'], 'gen')
    tab = {(i, j): els[i][0] * els[j][0] for i in range(len(els)) for j in range(len(els))}
    for i in range(desc['lo'], min(desc['hi'], len(els))):
        for j in range(len(els)):
            for k in range(len(els)):
                a = tab[i, j] * els[k][0]
                b = els[i][0] * tab[j, k]
                R.step()
                R.check(a == b and close(a.U, b.U), 'assoc %s %d %d %d' % (desc['fam'], i, j, k))
            R.state('assoc', desc['fam'], i, j)
        R.trace()


def case_powers(desc, R):
    for i, (g, x) in enumerate(elements(desc['fam'], desc['U'])):
        e = (np.eye(len(x[0])), False, False, None if x[3] is None else np.eye(2))
        for n in range(-13, 14) if not desc['fam'].startswith('gen') else range(-5, 6):
            r = e
            b = x if n >= 0 else invref(x)
            for _ in range(abs(n)):
                r = mulref(r, b)
            p = g ** n
            R.step()
            R.check(same(num(p), r, 1e-6), 'power %s %d^%d' % (desc['fam'], i, n), lambda: '%r ** %d = %r' % (g, n, p))
            R.state('pow', desc['fam'], i, n)
        R.trace()
        # finite order: the group axioms close the cycle
        if not desc['fam'].startswith('gen') and desc['U'] is None:
            R.check(g ** 12 == g.identity(), 'order %s %d' % (desc['fam'], i))


def model_list(dim, fam):
    ks = ('k_x', 'k_y', 'k_z')[:dim]
    out = []
    K = [sympy.Symbol(k, commutative=False) if False else k for k in ks]
    one = [('1', 1), ('m', 2)]
    lin = [(k, 3 + i) for i, k in enumerate(K)] + [('I*m*%s' % K[0], 9)]
    quad = [('%s*%s' % (a, b), 12 + 3 * i + j) for i, a in enumerate(K) for j, b in enumerate(K) if i <= j]
    cub = [('m*%s**3' % K[0], 30), ('%s**2*%s' % (K[-1], K[0]), 31)]
    out.append(dict(terms=one + lin, cls='M', mom=ks))
    out.append(dict(terms=lin + quad, cls='M', mom=ks))
    out.append(dict(terms=quad + cub, cls='M', mom=ks))
    out.append(dict(terms=lin + quad, cls='M', mom=ks, fmt='csr'))
    if dim > 1:
        out.append(dict(terms=lin + quad[:2], cls='M', mom=ks[::-1]))
    # the functional dependence of periodic symbolic models is only exact for exact rotations
    hops = ['I*%s' % K[0], 'I*(%s)/2 + I*(%s)*sqrt(3)/2' % (K[0], K[-1]) if dim > 1 else '-2*I*k_x', '-I*(%s)' % ' - '.join(K)]
    per = [('e**(%s)' % h, 40 + i) for i, h in enumerate(hops)] + [('m*e**(%s)' % hops[0], 44), ('1', 45), ('I*m*e**(%s)' % hops[1], 46)]
    if not fam.startswith(('gen', 'D6f', 'D6hf')):
        out.append(dict(terms=per, cls='M', mom=ks))
        out.append(dict(terms=per[:2] + [('%s*e**(%s)' % (K[0], hops[1]), 47)], cls='M', mom=ks))
    out.append(dict(terms=per, cls='B', mom=ks))
    out.append(dict(terms=per[:4], cls='B', mom=ks, fmt='csr'))
    out.append(dict(terms=[('1', 1), ('m', 2), ('I*m', 4)], cls='B', mom=ks))
    if dim > 1:
        out.append(dict(terms=per, cls='B', mom=ks[::-1]))
    # polynomial momenta with complex phases of parameters
    out.append(dict(terms=[('e**(I*m)*%s' % K[0], 50), ('e**(-2*I*m)', 51), ('m*e**(I*m)*%s**2' % K[-1], 52), ('I*%s' % K[-1], 53)], cls='M', mom=ks))
    out.append(dict(terms=[], cls='M', mom=ks))
    out.append(dict(terms=[], cls='B', mom=ks))
    return out


def make_model(d):
    fmt = d.get('fmt', 'dense')
    C = Model if d['cls'] == 'M' else BlochModel
    return C({k: al.cast(gen((2, 2), i), fmt) for k, i in d['terms']}, momenta=list(d['mom']), shape=(2, 2), format=al.FORMATS[fmt])


def envs(mom, n=3):
    return [point(i, tuple(mom) + ('m',)) for i in range(n)]


def expected(x, m, env):
    """documented action evaluated at one momentum"""
    Rm, c, a, u = x
    k = np.array([env[s.name] for s in m.momenta])
    kk = np.linalg.inv(Rm) @ k * (-1 if c else 1)
    e2 = dict(env)
    e2.update({s.name: v for s, v in zip(m.momenta, kk)})
    H = ev_model(m, e2, (2, 2))
    if c:
        H = H.conj()
    if a:
        H = -H
    return H if u is None else u @ H @ u.conj().T


def val(m, env):
    return ev_model(m, env, (2, 2))


def case_act(desc, R):
    d = model_list(dimof(desc['fam']), desc['fam'])[desc['model']]
    m = make_model(d)
    E = envs(d['mom'])
    v0 = [val(m, e) for e in E]
    for U in (None, 'gen'):
        for i, (g, x) in enumerate(elements(desc['fam'], U)):
            r = g.apply(m)
            R.step()
            key = '%s model%d %d U=%s' % (desc['fam'], desc['model'], i, U)
            for e in E:
                R.check(close(val(r, e), expected(x, m, e), 1e-6), 'action ' + key, lambda: '%r\non %s\n= %s' % (g, m, r))
            R.check(type(r) is type(m) and r.momenta == m.momenta and r.shape == m.shape and (U or r.format is m.format), 'action-meta ' + key,
                    lambda: '%s %s %s %s' % (type(r), r.momenta, r.shape, r.format))
            R.state(key)
            R.trace()
    R.check(all(close(a, val(m, e)) for a, e in zip(v0, E)), 'model changed %s' % desc)
    R.sample = dict(fam=desc['fam'], result=str(r)[:300])


def case_words(desc, R):
    """Applying a product equals applying its factors in turn."""
    fam = desc['fam']
    els = elements(fam, 'gen')
    n = len(els)
    gens = [els[i] for i in sorted({1 % n, 2 % n, n // 3, n // 2, (2 * n) // 3, n - 1})]
    ds = model_list(dimof(fam), fam)
    ds = [ds[0], ds[1]] + [d for d in ds if d['cls'] == 'B' and d['terms']][:2]
    for d in ds:
        m = make_model(d)
        E = envs(d['mom'], 2)
        front = [((), None, m)]
        for depth in range(1, desc['depth'] + 1):
            new = []
            for w, g, r in front:
                for i, (h, x) in enumerate(gens):
                    g2 = h if g is None else h * g
                    r2 = h.apply(r)
                    R.step()
                    q = g2.apply(m)
                    R.check(all(close(val(r2, e), val(q, e), 1e-6) for e in E), 'words %s %s %s' % (fam, d['cls'], (i,) + w))
                    if R.state(fam, d['cls'], d['mom'], len(d['terms']), rnd(num(g2)[0], 4), rnd(num(g2)[3], 4), g2.conjugate, g2.antisymmetry):
                        new.append(((i,) + w, g2, r2))
                    R.trace()
            front = new if depth < 3 else new[::5]
    R.outcome(fam, len(R.states))


def invert(A, R):
    """inverse of one integer matrix against the adjugate"""
    A = np.array(A)
    n = len(A)
    if n == 2:
        adj = np.array([[A[1, 1], -A[0, 1]], [-A[1, 0], A[0, 0]]])
    else:
        adj = np.array([np.cross(A[1], A[2]), np.cross(A[2], A[0]), np.cross(A[0], A[1])]).T
    det = int((A @ adj)[0, 0])
    g = PointGroupElement(A)
    key = 'inverse of %s' % A.tolist()
    R.state('invint', *A.ravel())
    R.step()
    if abs(det) != 1:
        return
    try:
        h = g.inv()
    except ValueError as err:
        R.check(False, key, repr(err))
        return
    R.check(np.array_equal(np.array(h.R), det * adj), key, np.array(h.R))
    R.check(g * h == g.identity() and h * g == g.identity() and h.inv() == g and g**-1 == h, key + ' product')
    R.trace()


def case_invint(desc, R):
    """All integer matrices of determinant +-1 with entries up to 12, as for lattice coordinates in a skew basis."""
    a, r = desc['a'], range(-12, 13)
    for b, c, d in itertools.product(r, r, r):
        if abs(a * d - b * c) == 1:
            invert([[a, b], [c, d]], R)


def case_invint3(desc, R):
    """3D: a skew basis change S of every signed permutation"""
    S = np.array([[2, 1, 0], [1, 1, 3], [0, 2, 13]])    # determinant 1
    S = S if desc['a'] == 0 else (np.linalg.matrix_power(S, 1) @ np.array([[1, desc['a'], 2], [0, 1, -3], [0, 0, 1]]))
    Si = np.round(np.linalg.inv(S)).astype(int)
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            P = np.zeros((3, 3), int)
            P[range(3), p] = s
            invert(S @ P @ Si, R)


def case_mix(desc, R):
    """Exact and integer rotations may be mixed, exact and floating ones may not."""
    f = elements('D6f', 'gen')
    s = elements('D6s', 'gen')
    z = elements('D4', 'gen')

    def integer(x):
        return np.allclose(x, np.round(x))
    for i, j in itertools.product(range(len(f)), range(len(s))):
        gi, gj = f[i], s[j]
        R.step()
        if integer(gi[1][0]) or integer(gj[1][0]):
            for (a, x), (b, y) in ((gi, gj), (gj, gi)):
                R.check(same(num(a * b), mulref(x, y)), 'mixint %d %d' % (i, j))
        else:
            R.fails(ValueError, 'mixing exact and floating rotations %d %d' % (i, j), lambda: gi[0] * gj[0])
            R.fails(ValueError, 'mixing floating and exact rotations %d %d' % (i, j), lambda: gj[0] * gi[0])
        R.state('mix', i, j)
        R.trace()
    for (a, x), (b, y) in itertools.product(z, s[::3]):
        R.step()
        R.check(same(num(a * b), mulref(x, y)) and same(num(b * a), mulref(y, x)), 'mix int/exact')
