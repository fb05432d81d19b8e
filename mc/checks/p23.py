"""P23: random-matrix generators obey their symmetry class for every draw."""
import itertools

import numpy as np

from qsymm.kwant_rmt import gaussian, circular

ASSUMPTIONS = ['the random source returns nonsingular real matrices (singular ones have probability zero)',
               'Gaussian matrices are linear in the random numbers, which is itself checked on sums of draws']
BOUNDS = {'quick': 'ten classes; Gaussian: sizes 1-8 (12 for linear images), the image of every basis draw, all pairs of basis draws up to size 4, three scales; circular: sizes 1-10, all 2x2 real and complex draws over 4 values, signed permutation and triangular draws and 60 generic draws per size, all outputs of randint up to size 6, all topological charges (given as int, numpy integer or integral float) and None; seeds 0-5; seeds 0-2 at sizes 10, 12, 16, 20; inadmissible sizes -1..7, classes, charges and sources',
          'thorough': 'sizes up to 16, all 2x2 draws over 6 values, all 3x3 sign draws'}
SYM = ('A', 'AI', 'AII', 'AIII', 'BDI', 'CII', 'D', 'DIII', 'C', 'CI')
EVEN_G = ('AII', 'AIII', 'BDI', 'CII', 'DIII', 'C', 'CI')
EVEN_C = ('AII', 'CII', 'DIII', 'C', 'CI')


class Rng:
    """random source returning the given numbers"""
    def __init__(self, vals=(), ints=(), tail=0.):
        self.v, self.i, self.tail = list(vals), list(ints), tail
        self.drawn = 0

    def randn(self, *shape):
        k = int(np.prod(shape))
        o = self.v[self.drawn:self.drawn + k]
        self.drawn += k
        return np.array(o + [self.tail] * (k - len(o)), float).reshape(shape)

    def randint(self, low, high=None, size=None):
        lo, hi = (0, low) if high is None else (low, high)
        k = 1 if size is None else int(np.prod(size))
        o, self.i = self.i[:k], self.i[k:]
        o = np.array([lo + x % (hi - lo) for x in o + [0] * (k - len(o))])
        return o.reshape(size) if size is not None else o[0]

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        r = self.randint(len(a), size=size)
        return a[r]

    def random_sample(self, size=None):
        return np.full(size, .3) if size is not None else .3


def tau(n, p):
    m = {'x': [[0, 1], [1, 0]], 'y': [[0, -1j], [1j, 0]], 'z': [[1, 0], [0, -1]]}[p]
    return np.kron(np.eye(n // 2), np.array(m))


def sig(n, p, t='0'):
    # orbital, sigma, tau
    m = {'0': np.eye(2), 'x': [[0, 1], [1, 0]], 'y': [[0, -1j], [1j, 0]], 'z': [[1, 0], [0, -1]]}
    return np.kron(np.eye(n // 4), np.kron(m[p], m[t]))


def h_relations(sym, n):
    """[(U, conjugate, sign)]: H = sign U H(*) U+"""
    out = []
    if sym in ('AIII', 'BDI', 'CII', 'DIII', 'CI'):
        out.append((tau(n, 'z'), False, -1))
    if sym == 'AI':
        out.append((np.eye(n), True, 1))
    elif sym == 'BDI':
        out.append((tau(n, 'z'), True, 1))
    elif sym == 'CI':
        out.append((tau(n, 'x'), True, 1))
    elif sym == 'AII':
        out.append((tau(n, 'y'), True, 1))
    elif sym == 'CII':
        out.append((sig(n, 'y'), True, 1))
    elif sym == 'DIII':
        out.append((tau(n, 'y'), True, 1))
    if sym in ('C', 'CI'):
        out.append((tau(n, 'y'), True, -1))
    elif sym == 'CII':
        out.append((sig(n, 'y', 'z'), True, -1))
    elif sym in ('D', 'BDI'):
        out.append((np.eye(n), True, -1))
    elif sym == 'DIII':
        out.append((tau(n, 'x'), True, -1))
    return out


def h_space(sym, n):
    """real orthonormal basis (rows: real and imaginary parts) of the Hamiltonians of the class"""
    rows = []
    for i in range(2 * n * n):
        x = np.zeros(2 * n * n)
        x[i] = 1
        m = (x[:n * n] + 1j * x[n * n:]).reshape(n, n)
        c = [m - m.conj().T]
        for U, conj, s in h_relations(sym, n):
            c.append(m - s * U @ (m.conj() if conj else m) @ U.conj().T)
        rows.append(np.concatenate([np.concatenate([y.real.ravel(), y.imag.ravel()]) for y in c]))
    u, sv, vh = np.linalg.svd(np.array(rows).T)
    sv = np.concatenate([sv, np.zeros(len(vh) - len(sv))])
    return vh[sv < 1e-9]


def bad_h(sym, n, h):
    if not isinstance(h, np.ndarray) or h.shape != (n, n):
        return 'shape %s' % (getattr(h, 'shape', None),)
    if not np.allclose(h, h.conj().T):
        return 'not Hermitian'
    for U, conj, s in h_relations(sym, n):
        if not np.allclose(h, s * U @ (h.conj() if conj else h) @ U.conj().T):
            return 'relation %s%s' % ('conjugating, ' if conj else '', s)
    return None


def bad_s(sym, n, s):
    if not isinstance(s, np.ndarray) or s.shape != (n, n):
        return 'shape %s' % (getattr(s, 'shape', None),)
    if not np.allclose(s.conj().T @ s, np.eye(n), atol=1e-7):
        return 'not unitary'
    sy = tau(n, 'y') if n % 2 == 0 else None
    rel = []
    if sym in ('AIII', 'BDI', 'CII', 'DIII', 'CI'):
        rel.append(('chiral', s.conj().T))
    if sym in ('AI', 'BDI'):
        rel.append(('tr', s.T))
    elif sym == 'CI':
        rel.append(('tr', -sy @ s.T @ sy))
    elif sym in ('AII', 'DIII'):
        rel.append(('tr', -s.T))
    elif sym == 'CII':
        rel.append(('tr', sy @ s.T @ sy))
    if sym == 'CI':
        rel.append(('ph', -sy @ s.conj() @ sy))
    elif sym in ('C', 'CII'):
        rel.append(('ph', sy @ s.conj() @ sy))
    elif sym in ('D', 'BDI'):
        rel.append(('ph', s.conj()))
    elif sym == 'DIII':
        rel.append(('ph', -s.conj()))
    for nm, x in rel:
        if not np.allclose(s, x, atol=1e-7):
            return 'relation ' + nm
    return None


def pf(a):
    """Pfaffian by expansion"""
    n = len(a)
    if n == 0:
        return 1
    if n % 2:
        return 0
    tot = 0
    for j in range(1, n):
        if abs(a[0, j]) > 1e-14:
            idx = [k for k in range(n) if k not in (0, j)]
            tot += (-1) ** (j - 1) * a[0, j] * pf(a[np.ix_(idx, idx)])
    return tot


def invariant(sym, s):
    n = len(s)
    if sym == 'D':
        return int(np.round(np.linalg.det(s).real))
    if sym == 'DIII':
        return int(np.round(pf(1j * s).real))
    neg = int(np.sum(np.linalg.eigvalsh(s) < 0))
    return neg // 2 if sym == 'CII' else neg


CHARGED = ('AIII', 'BDI', 'CII', 'D', 'DIII')


def charges(sym, n):
    return {'D': [1, -1], 'DIII': [1, -1], 'AIII': range(n + 1), 'BDI': range(n + 1), 'CII': range(n // 2 + 1)}.get(sym, [])


def admissible(kind, sym, n):
    if kind == 'g':
        return n % 4 == 0 if sym == 'CII' else n % 2 == 0 or sym not in EVEN_G
    return n % 2 == 0 or sym not in EVEN_C


def generic(n, k):
    """nonsingular but otherwise arbitrary numbers"""
    i = np.arange(2 * n * n) + 1
    return np.sin(i * (1.1 + .37 * k) + .3 * k * k) * (1 + .2 * np.cos(i * i * .7 + k))


def gauss(desc, R):
    sym, n = desc['sym'], desc['n']
    m = 2 * n * n
    imgs = []
    for i in range(m):
        R.state('basis', i)
        R.step()
        v = [0.] * m
        v[i] = 1.
        src = Rng(v)
        h = gaussian(n, sym, rng=src)
        b = bad_h(sym, n, h)
        R.check(b is None, 'gaussian %s: %s' % (sym, b), lambda: '%s draw %d\n%s' % (desc, i, h))
        if b and b.startswith('shape'):
            return
        imgs.append(np.concatenate([np.asarray(h).real.ravel(), np.asarray(h).imag.ravel()]))
    L = np.array(imgs).T
    R.trace()
    # linear in the draws and in v
    gen = [generic(n, k) for k in range(6)]
    pairs = [(i, j) for i in range(m) for j in range(i)] if n <= 2 else [(i, (7 * i + 3) % m) for i in range(m)]
    for v in gen + [np.eye(m)[i] - 2.5 * np.eye(m)[j] for i, j in pairs]:
        R.state('sum', tuple(np.round(v, 6)))
        for sc in (1., .5, 3.):
            h = gaussian(n, sym, v=sc, rng=Rng(list(v)))
            b = bad_h(sym, n, h)
            R.check(b is None, 'gaussian %s: %s' % (sym, b), lambda: '%s %s' % (desc, v))
            x = sc * (L @ v)
            R.check(np.allclose(np.concatenate([h.real.ravel(), h.imag.ravel()]), x), 'gaussian %s: not linear in draws and v' % sym, lambda: '%s v=%s' % (desc, sc))
    # isotropic in the space of the class, which it covers
    B = h_space(sym, n)
    C = L @ L.T
    P = B.T @ B
    c = np.trace(C) / max(1, len(B))
    R.check(np.allclose(C, c * P, atol=1e-9), 'gaussian %s: not the ensemble of the class' % sym, lambda: '%s rank %d, class has dimension %d' % (desc, np.linalg.matrix_rank(C), len(B)))
    R.check(len(B) == 0 or c > .1, 'gaussian %s: vanishing' % sym, lambda: str(desc))
    R.outcome((sym, n, round(float(c), 6)))


def draws(n, th):
    out = [list(generic(n, k)) for k in range(60 if n < 7 else 12 if n < 9 else 4)]
    if n == 1:
        out += [[x, y] for x, y in itertools.product((-2., -.5, 1., 3.), (-1., 0., 2.))]
    if n == 2:
        vals = (-1., 0., .5, 2.) if not th else (-1., 0., .5, 2., -.3, 1e3)
        for x in itertools.product(vals, repeat=4):
            if abs(x[0] * x[3] - x[1] * x[2]) > 1e-9:
                for im in ([0.] * 4, list(x[::-1]), [1., -2, .5, 1], [0., 1, -1, 0], [.5, 0, 0, -.5]):
                    out.append(list(x) + im)
        for x in itertools.product((-1., 0., 1.), repeat=8):
            m = np.reshape(x[:4], (2, 2)) + 1j * np.reshape(x[4:], (2, 2))
            if abs(np.linalg.det(m)) > 1e-9 and abs(np.linalg.det(np.reshape(x[:4], (2, 2)))) > 1e-9:
                out.append(list(x))
    if n == 3 and th:
        for x in itertools.product((-1., 1., .5), repeat=9):
            if abs(np.linalg.det(np.reshape(x, (3, 3)))) > 1e-9:
                out.append(list(x) + list(generic(3, 1)[:9]))
    if 2 < n <= 5:
        for p in itertools.permutations(range(n)):
            for sg in itertools.product((1., -1.), repeat=min(n, 4)):
                m = np.zeros((n, n))
                for i, j in enumerate(p):
                    m[i, j] = sg[i % len(sg)]
                if n == 5 and sg[0] < 0:
                    continue
                out.append(list((m).ravel()) + [0.] * (n * n))
                if n == 3 or p[0] == 0:
                    out.append(list((m + np.triu(np.ones((n, n)), 1) * .5).ravel()) + list(m.ravel() * .3))
    return out


def circ(desc, R):
    sym, n = desc['sym'], desc['n']
    ok = 0
    for v in draws(n, desc['th']):
        # the random source must give nonsingular numbers also after the particle-hole projection
        a = np.reshape(v[:n * n], (n, n))
        z = a + 1j * np.reshape(v[n * n:], (n, n))
        if sym in ('D', 'DIII', 'BDI'):
            m = a
        elif sym in ('C', 'CI', 'CII'):
            ty = tau(n, 'y')
            m = z + ty @ z.conj() @ ty
        else:
            m = z
        if np.linalg.cond(m) > 1e8:
            if sym in ('C', 'CI', 'CII') and np.linalg.cond(z - tau(n, 'y') @ z.conj() @ tau(n, 'y')) > 1e8:
                continue
            if sym not in ('C', 'CI', 'CII'):
                continue
        elif sym in ('C', 'CI', 'CII') and np.linalg.cond(z - tau(n, 'y') @ z.conj() @ tau(n, 'y')) > 1e8:
            continue
        R.state(tuple(v))
        ok += 1
        for ch in [None] + (list(charges(sym, n)) if ok % 7 == 1 or n <= 2 and ok % 3 == 0 or ok < 30 else []):
            R.step()
            s = circular(n, sym, charge=ch, rng=Rng(v, [1, 0, 0, 1, 1, 0]))
            b = bad_s(sym, n, s)
            if not R.check(b is None, 'circular %s: %s' % (sym, b), lambda: '%s charge %s draw %s\n%s' % (desc, ch, v, s)):
                return
            if ch is not None:
                q = invariant(sym, s)
                R.check(q == ch, 'circular %s: topological invariant' % sym, lambda: '%s charge %s got %s draw %s' % (desc, ch, q, v))
                R.outcome((sym, n, q))
    R.trace()
    R.check(ok > 3, 'no admissible draws', lambda: str(desc))
    # the invariant is drawn at random otherwise
    if sym in ('AIII', 'BDI', 'CII') and n <= 6:
        k = n if sym != 'CII' else n // 2
        qs = []
        for ints in itertools.product((0, 1), repeat=k):
            R.state('ints', ints)
            s = circular(n, sym, rng=Rng(list(generic(n, 3)), ints))
            b = bad_s(sym, n, s)
            R.check(b is None, 'circular %s: %s' % (sym, b), lambda: '%s randint %s' % (desc, ints))
            qs.append(invariant(sym, s))
        # binomial distribution with p = 1/2
        from math import comb
        R.check(sorted(qs) == sorted(q for q in range(k + 1) for _ in range(comb(k, q))), 'circular %s: distribution of the invariant' % sym, lambda: '%s %s' % (desc, qs))
    # other forms of the charge
    for ch in charges(sym, n):
        ref = circular(n, sym, charge=ch, rng=Rng(list(generic(n, 1))))
        for form in (np.int64, np.int8):
            R.state('form', str(form), ch)
            s = circular(n, sym, charge=form(ch), rng=Rng(list(generic(n, 1))))
            R.check(s.shape == ref.shape and np.allclose(s, ref), 'circular %s: charge given as numpy integer' % sym, lambda: '%s %s %s' % (desc, form, ch))
    # every matrix of the class with its invariant, seeds
    for seed in range(6):
        R.state('seed', seed)
        for ch in [None] + list(charges(sym, n))[:3]:
            s1, s2, s3 = circular(n, sym, charge=ch, rng=seed), circular(n, sym, charge=ch, rng=np.random.RandomState(seed)), circular(n, sym, charge=ch, rng=np.int64(seed))
            R.check(np.array_equal(s1, s2) and np.array_equal(s1, s3), 'circular: equal seeds, different draws', lambda: '%s %s' % (desc, seed))
            b = bad_s(sym, n, s1)
            R.check(b is None, 'circular %s: %s' % (sym, b), lambda: '%s seed %s' % (desc, seed))
            if ch is not None:
                R.check(invariant(sym, s1) == ch, 'circular %s: topological invariant' % sym, lambda: '%s seed %s' % (desc, seed))
        if n > 1:
            R.check(not np.allclose(circular(n, sym, rng=seed), circular(n, sym, rng=seed + 77)) or n == 2 and sym in ('DIII', 'D', 'AII') or sym in ('AIII', 'BDI', 'CII'), 'circular: different seeds, equal draws', lambda: '%s %s' % (desc, seed))


def seeds(desc, R):
    for sym in SYM:
        for n in (1, 2, 3, 4, 6, 8):
            for seed in range(6):
                if admissible('g', sym, n):
                    R.state(sym, n, seed)
                    R.step()
                    h = gaussian(n, sym, rng=seed)
                    R.check(np.array_equal(h, gaussian(n, sym, rng=np.random.RandomState(seed))) and np.array_equal(h, gaussian(n, sym, rng=np.int64(seed))), 'gaussian: equal seeds, different draws', lambda: '%s %s %s' % (sym, n, seed))
                    R.check(bad_h(sym, n, h) is None, 'gaussian %s: %s' % (sym, bad_h(sym, n, h)), lambda: '%s %s' % (n, seed))
                    if n > 2:
                        R.check(not np.allclose(h, gaussian(n, sym, rng=seed + 77)), 'gaussian: different seeds, equal draws', lambda: '%s %s %s' % (sym, n, seed))
                    R.check(np.allclose(gaussian(np.int64(n), sym, rng=seed), h), 'gaussian %s: size given as numpy integer' % sym, lambda: '%s' % n)
                if admissible('c', sym, n):
                    R.check(np.allclose(circular(np.int64(n), sym, rng=seed), circular(n, sym, rng=seed)), 'circular %s: size given as numpy integer' % sym, lambda: '%s' % n)
    # default arguments: class A, v = 1, the global source
    R.state('default')
    st = np.random.get_state()
    np.random.seed(5)
    a = gaussian(3), circular(3)
    rs = np.random.RandomState(5)
    b = gaussian(3, 'A', 1., rs), circular(3, 'A', None, rs)
    np.random.set_state(st)
    R.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), 'defaults', 'default arguments differ from the documented ones')
    R.trace()


def large(desc, R):
    for n in (10, 12, 16, 20):
        for sym in SYM:
            for seed in range(3):
                R.state(n, sym, seed)
                if admissible('g', sym, n):
                    R.step()
                    b = bad_h(sym, n, gaussian(n, sym, rng=seed))
                    R.check(b is None, 'gaussian %s: %s' % (sym, b), lambda: 'size %d seed %d' % (n, seed))
                if admissible('c', sym, n):
                    for ch in [None] + list(charges(sym, n)):
                        R.step()
                        s = circular(n, sym, charge=ch, rng=seed)
                        b = bad_s(sym, n, s)
                        R.check(b is None, 'circular %s: %s' % (sym, b), lambda: 'size %d seed %d charge %s' % (n, seed, ch))
                        if ch is not None and (sym != 'DIII' or n < 12):
                            R.check(invariant(sym, s) == ch, 'circular %s: topological invariant' % sym, lambda: 'size %d seed %d charge %s' % (n, seed, ch))
    R.trace()


def bad(desc, R):
    for n in range(1, 8):
        for sym in SYM:
            R.state(sym, n)
            R.step()
            if not admissible('g', sym, n):
                R.fails(ValueError, 'gaussian %s size' % sym, lambda: gaussian(n, sym, rng=1))
            else:
                gaussian(n, sym, rng=1)
            if not admissible('c', sym, n):
                R.fails(ValueError, 'circular %s size' % sym, lambda: circular(n, sym, rng=1))
            else:
                circular(n, sym, rng=1)
                for ch in {'D': (0, 2, -2, .5), 'DIII': (0, 2, -3), 'AIII': (-1, n + 1, .5), 'BDI': (-1, n + 1, n - .5), 'CII': (-1, n // 2 + 1, n, .5)}.get(sym, ()):
                    R.fails(ValueError, 'circular %s charge %s' % (sym, 'n+1' if ch == n + 1 else ch), lambda: circular(n, sym, charge=ch, rng=1))
    for s in ('', 'B', 'a', 'AIV', 'DI', None, 'A '):
        R.state('class', s)
        R.fails(ValueError, 'gaussian unknown class', lambda: gaussian(4, s, rng=1))
        R.fails(ValueError, 'circular unknown class', lambda: circular(4, s, rng=1))

    class Partial:
        randn = randint = choice = None
    for r in ('seed', 1.5, object(), [1], Partial(), np.random.default_rng(1)):
        R.state('rng', str(type(r)))
        R.fails(ValueError, 'gaussian random source', lambda: gaussian(2, rng=r))
        R.fails(ValueError, 'circular random source', lambda: circular(2, rng=r))
    R.trace()


def cases(tier):
    th = tier == 'thorough'
    out = [{'k': 'bad'}, {'k': 'seeds'}, {'k': 'large'}]
    for sym in SYM:
        for n in range(1, 17 if th else 13):
            if admissible('g', sym, n) and n <= (12 if th else 8):
                out.append({'k': 'gauss', 'sym': sym, 'n': n})
            if admissible('c', sym, n) and (n <= (10 if th else 8) or n in (9, 10)):
                out.append({'k': 'circ', 'sym': sym, 'n': n, 'th': th})
    return out


def run_case(desc, R):
    R.sample = desc
    with np.errstate(all='ignore'):
        globals()[desc['k']](desc, R)
