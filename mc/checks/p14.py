"""P14: the discrete symmetry search is sound, complete and reproducible."""
import functools
import itertools

import numpy as np
import scipy.sparse as sp
import sympy

from mc.core import gen, herm, unit, null, close, ev_model, point, closure, rnd, rot2, rot3, spin_mats
from mc.checks import p15, p26
from mc.checks.p08 import rotations, FLAGS
from qsymm import symmetry_finder as SF
from qsymm.groups import PointGroupElement
from qsymm.model import Model, BlochModel

ASSUMPTIONS = ['families have Hermitian values; lattice models are searched with exact (integer or symbolic) rotations unless given as BlochModel, as documented',
               'whether a unitary exists is decided from the linear space of intertwiners at enough generic momenta and parameter values']
BOUNDS = {'quick': 'candidate groups D4, D6 (exact, floating, lattice coordinates), D5, D8, D12, C6 (floating), Oh, D6h, 1D inversion, each times time reversal and particle-hole; families: all subsets of up to 2 terms of 20 monomial terms and of 9 alphabets of composite terms (2D and 3D, 2-4 bands, continuum and lattice), all multisets of up to 3 of 10 blocks, all permutation-type diagonal families of up to 4 linear functions; up to two irreducible traceless blocks of 3, 4 and 6 states and one of 17 from 7 symmetry types; pairs of terms differing in size by 1e-3 or in overall units 1e-4, 1e4; generic basis changes, term and candidate orders, dense/sparse, symbolic/lattice; every candidate set of one or two elements of D4 x 4 classes and every subgroup',
          'thorough': 'subsets of up to 3 terms, multisets of up to 4 blocks, all candidate pairs of D6 x 4 classes'}

S = [2 * s for s in spin_mats(0.5)]
I2 = np.eye(2)
SP = np.array([[0, 1], [0, 0]])


# ------------------------------------------------------------ candidates

@functools.lru_cache(None)
def rots(fam):
    if fam in ('D5', 'D8', 'D12'):
        n = int(fam[1:])
        ms = closure([rot2(2 * np.pi / n), np.diag([1., -1])])
        return [(m, m) for m in ms]
    if fam == 'C6':
        ms = closure([rot2(np.pi / 3)])
        return [(m, m) for m in ms]
    if fam == 'E3':
        return [(np.eye(3), np.eye(3, dtype=int))]
    if fam == 'gen2':     # D4 about a rotated axis
        V = rot2(0.37)
        ms = [V @ m @ V.T for m in closure([rot2(np.pi / 2), np.diag([1., -1])])]
        return [(m, m) for m in ms]
    return rotations(fam)


@functools.lru_cache(None)
def refcands(fam):
    return [(m, c, a) for m, r in rots(fam) for c, a in FLAGS]


def key3(m, c, a):
    return (rnd(np.asarray(m, float), 4), bool(c), bool(a))


def pkey(g):
    return key3(np.array(g.R).astype(float), g.conjugate, g.antisymmetry)


def cands(fam):
    return [PointGroupElement(r, c, a) for m, r in rots(fam) for c, a in FLAGS]


# ------------------------------------------------------------ families

def mono_terms():
    return [{k: m} for k in ('1', 'k_x', 'k_y', 'k_x*k_y', 'k_x**2') for m in (I2, *S)]


def from_p15(f):
    dim, ts = p15.terms(f)
    out = []
    for t in ts:
        out.append({'*'.join(['1'] + ['%s**%d' % (k, e) for k, e in zip(p15.KS, ex) if e]): m for ex, m in t.items()})
    return out


def hop(pairs):
    """Hermitian completion of {exponent text: matrix}"""
    d = {}
    for e, m in pairs:
        m = np.array(m, complex)
        for s, x in ((e, m), ('-(%s)' % e, m.conj().T)):
            k = 'e**(I*(%s))' % s
            d[k] = d.get(k, 0) + x
    return d


def latt2():
    x, y = 'k_x', 'k_y'
    return [hop([(x, I2), (y, I2)]), hop([(x, I2), (y, -I2)]), hop([(x, -1j * S[0]), (y, -1j * S[1])]), hop([(x, -1j * S[1]), (y, 1j * S[0])]), {'1': S[2]}, hop([(x, I2)]), hop([(y, -1j * I2)]),
            hop([('k_x+k_y', I2), ('k_x-k_y', I2)]), hop([('k_x+k_y', S[0]), ('k_x-k_y', -S[0])]), {**hop([(x, SP)]), '1': S[0] * .5}, hop([('k_x/2+k_y/2', SP + SP.T), ('k_x/2-k_y/2', SP + SP.T)]), hop([(x, S[2]), (y, S[2])])]


def latth():
    s3 = 'sqrt(3)'
    a = ['k_x', 'k_x/2+%s*k_y/2' % s3, '-k_x/2+%s*k_y/2' % s3]
    d = ['%s*k_y/3' % s3, 'k_x/2-%s*k_y/6' % s3, '-k_x/2-%s*k_y/6' % s3]
    hal = hop([(a[0], -1j * S[2]), (a[1], 1j * S[2]), (a[2], -1j * S[2])])
    return [hop([(t, SP) for t in d]), hop([(t, I2) for t in a]), hal, {'1': S[2]}, hop([(a[0], I2)]), hop([(t, S[2]) for t in a]), hop([(d[0], SP), (d[1], SP)]), hop([(t, -1j * I2 * s) for t, s in zip(a, (1, -1, 1))])]


def lattl():
    """lattice coordinates: rotations of the hexagonal lattice are integer matrices"""
    x, y, z = 'k_x', 'k_y', 'k_x+k_y'
    w = 'k_x-k_y'
    return [hop([(x, I2), (y, I2), (z, I2)]), hop([(x, I2), (y, I2), (w, I2)]), {'1': S[2]}, hop([(x, S[0])]), hop([(x, -1j * S[2]), (y, -1j * S[2]), (z, 1j * S[2])]), hop([(x, 1j * S[2]), (y, -1j * S[2]), (w, -1j * S[2])])]


def latt3():
    x = ['k_x', 'k_y', 'k_z']
    return [hop([(t, I2) for t in x]), hop([(t, -1j * s) for t, s in zip(x, S)]), {'1': S[2]}, hop([(x[2], -1j * S[2])]), hop([(x[0], I2), (x[1], I2)]), hop([('k_x+k_y', S[0]), ('k_x-k_y', -S[0])])]


def mult2():
    """2D, four bands with repeated blocks"""
    return [{'k_x': np.kron(S[0], I2), 'k_y': np.kron(S[1], I2)}, {'1': np.kron(S[2], I2)}, {'k_x': np.kron(I2, S[0]), 'k_y': np.kron(S[2], S[1])}, {'1': p26.direct_sum([np.eye(1), np.eye(1), np.eye(2) * 2])},
            {'k_x': p26.direct_sum([S[0], S[0]]), 'k_y': p26.direct_sum([S[1], -S[1]])}, {'k_x': p26.direct_sum([S[0], -S[0]])}, {'k_x**2+k_y**2': np.eye(4)}, {'1': np.kron(I2, S[1])}]


ALPH = {'mono': (mono_terms, 2), '2d': (lambda: from_p15('2d'), 2), '3d': (lambda: from_p15('3d'), 3), '3d1': (lambda: from_p15('3d1'), 3), '3d4': (lambda: from_p15('3d4'), 3), '2d4': (lambda: from_p15('2d4'), 2),
        'latt2': (latt2, 2), 'latth': (latth, 2), 'lattl': (lattl, 2), 'latt3': (latt3, 3), 'mult2': (mult2, 2)}
PLAN = [('mono', 'D4', 2), ('2d', 'D4', 2), ('2d', 'D6s', 2), ('2d', 'D6f', 2), ('2d', 'D5', 1), ('2d', 'D8', 1), ('2d', 'D12', 1), ('2d', 'gen2', 1), ('2d', 'C6', 1), ('2d4', 'D4', 2), ('2d4', 'D6f', 1), ('3d', 'Oh', 2), ('3d', 'D6hf', 1), ('3d1', 'Oh', 1), ('3d4', 'Oh', 1), ('3d4', 'E3', 2),
        ('latt2', 'D4', 2), ('latth', 'D6s', 2), ('lattl', 'D6lat', 2), ('latt3', 'Oh', 1), ('mult2', 'D4', 2), ('mult2', 'D6f', 1)]
PLANT = [('mono', 'D4', 3), ('2d', 'D4', 3), ('2d', 'D6s', 3), ('2d', 'D12', 2), ('2d4', 'D4', 3), ('3d', 'Oh', 3), ('3d', 'D6hs', 2), ('3d1', 'Oh', 2), ('3d4', 'Oh', 2), ('latt2', 'D4', 3), ('latth', 'D6s', 3), ('latt3', 'Oh', 2), ('mult2', 'D4', 3)]


def cases(tier):
    th = tier == 'thorough'
    out = []
    for al, fam, mx in PLAN + (PLANT if th else []):
        n = len(ALPH[al][0]())
        lo = 1
        for k in range(lo, mx + 1):
            for s in itertools.combinations(range(n), k):
                out.append({'k': 'fam', 'al': al, 'g': fam, 's': list(s), 'all': th and k < 3})
    bl = sorted(blocks())
    for k in range(1, 4 + (1 if th else 0)):
        for s in itertools.combinations_with_replacement(bl, k):
            if sum(len(blocks()[x][1]) for x in s) <= 6:
                out.append({'k': 'az', 's': list(s)})
    for fam, al in (('D4', ('x', 'y', '-x', '-y', 'd')), ('D4', ('x', 'y', 'd', 'D', 'q')), ('Oh', ('x', 'y', 'z', '-x'))):
        for k in (1, 2, 3, 4):
            if fam == 'Oh' and k == 4:
                continue
            for s in itertools.combinations_with_replacement(al, k):
                out.append({'k': 'perm', 'g': fam, 's': list(s)})
    out += [{'k': 'perm', 'g': 'Oh', 's': ['x', '-x', 'y', '-y', 'z', '-z']}, {'k': 'perm', 'g': 'D4', 's': ['x', 'y', '-x', '-y', '1', '1']}, {'k': 'perm', 'g': 'Oh', 's': ['x', 'y', 'z', 'd', '1']}]
    for mi in range(len(CANDM)):
        for part in range(6):
            out.append({'k': 'cand', 'm': mi, 'part': part, 'g': 'D4'})
        out.append({'k': 'subg', 'm': mi})
    if th:
        for mi in range(len(CANDM)):
            for part in range(12):
                out.append({'k': 'cand', 'm': mi, 'part': part, 'g': 'D6s', 'parts': 12})
    for n in (3, 4, 6) + ((9,) if th else ()):
        for k in (1, 2):
            for t in itertools.combinations_with_replacement(BIG, k):
                if n * k <= (12 if th else 8):
                    out.append({'k': 'big', 's': list(t), 'n': n})
    out += [{'k': 'big', 's': [x], 'n': n} for n in ((14, 17, 20) if th else (17,)) for x in BIG]
    for al, fam, mx in (('2d', 'D4', 2), ('2d', 'D6s', 2), ('latt2', 'D4', 2), ('mult2', 'D4', 2), ('3d', 'D6hf', 2), ('latth', 'D6s', 2)):
        n = len(ALPH[al][0]())
        for s in itertools.permutations(range(n), 2):
            if th or sum(s) % (2 if fam == 'D4' else 5) == 0:
                out.append({'k': 'scale', 'al': al, 'g': fam, 's': list(s)})
    out.append({'k': 'default'})
    out += [{'k': 'bad'}, {'k': 'zero'}]
    return out


PAR = ('a', 'b', 'c', 'd')


def build(ts, params, U, dim, fmt='dense', cls=Model, rev=False):
    n = len(next(iter(ts[0].values())))
    d = {}
    for i, t in enumerate(ts):
        for k, m in t.items():
            key = sympy.expand(sympy.sympify(k, locals={'e': sympy.Symbol('e'), 'k_x': sympy.Symbol('k_x'), 'k_y': sympy.Symbol('k_y'), 'k_z': sympy.Symbol('k_z')}))
            if isinstance(key, sympy.Add):
                parts = key.args
            else:
                parts = (key,)
            for p in parts:
                f, p = p.as_coeff_Mul()
                if params:
                    p = p * sympy.Symbol(PAR[i])
                p = str(p)
                d[p] = d.get(p, 0) + float(f) * U @ np.array(m, complex) @ U.conj().T
    items = list(d.items())
    if rev:
        items = items[::-1]
    d = {k: (sp.csr_matrix(v) if fmt == 'csr' else v) for k, v in items}
    return cls(d, momenta=list(p15.KS[:dim]), shape=(n, n), format=sp.csr_matrix if fmt == 'csr' else np.ndarray)


# ------------------------------------------------------------ reference

class Ref:
    """decides for one family whether a given operation is a symmetry for some unitary"""

    def __init__(self, model, extra=0):
        self.m = model
        self.n = model.shape[0]
        names = {s.name for k in model.keys() for s in (k[1] if isinstance(k, tuple) else sympy.sympify(k)).free_symbols} | {s.name for s in model.momenta}
        names.discard('e')
        self.mom = [s.name for s in model.momenta]
        self.env = [point(i, names, 1.3) for i in range(2 * len(model) + 3 + extra)]
        self.H = [ev_model(model, e, model.shape) for e in self.env]
        # compare in units of the Hamiltonian
        self.f = 1 / (max(np.max(np.abs(h)) for h in self.H) or 1)
        self.zero = max(np.max(np.abs(h)) for h in self.H) < 1e-9
        self.H = [self.f * h for h in self.H]

    def transformed(self, R, c, a):
        out = []
        Ri = np.linalg.inv(R) if len(self.mom) else np.zeros((0, 0))
        for e in self.env:
            k = np.array([e[x] for x in self.mom])
            kk = Ri @ k * (-1 if c else 1)
            h = self.f * ev_model(self.m, {**e, **dict(zip(self.mom, kk))}, self.m.shape)
            out.append((-1 if a else 1) * (h.conj() if c else h))
        return out

    def exists(self, R, c, a):
        n = self.n
        HL = self.transformed(R, c, a)
        sc = max(1, max(np.max(np.abs(h)) for h in self.H))
        for l, r in zip(HL, self.H):
            if abs(np.trace(l) - np.trace(r)) > 1e-7 * sc * n or abs(np.linalg.norm(l) - np.linalg.norm(r)) > 1e-7 * sc * n:
                return False
        rows = [np.kron(np.eye(n), l.T) - np.kron(r, np.eye(n)) for l, r in zip(HL, self.H)]
        ns = null(np.vstack(rows), 1e-7)
        if not len(ns):
            return False
        for t in range(3):
            X = np.tensordot(gen((len(ns),), 5 * t + 1), ns, 1).reshape(n, n)
            s = np.linalg.svd(X, compute_uv=False)
            if s[-1] > 1e-4 * s[0]:
                return True
        return False

    def holds(self, R, c, a, U):
        if U is None or U.shape != (self.n, self.n) or not close(U @ U.conj().T, np.eye(self.n), 1e-6):
            return False
        return all(close(U @ l @ U.conj().T, r, 1e-5) for l, r in zip(self.transformed(R, c, a), self.H))


def group_closure(keys):
    """closure of a list of (R, c, a)"""
    out = {key3(*k): k for k in keys}
    front = list(out.values())
    gens = list(front)
    while front:
        new = []
        for x in front:
            for g in gens:
                y = (x[0] @ g[0], x[1] ^ g[1], x[2] ^ g[2])
                if key3(*y) not in out:
                    out[key3(*y)] = y
                    new.append(y)
        front = new
        assert len(out) < 1000
    return out


def check_result(R, ref, res, want, info, gens=False, dim=2):
    """res: iterable of elements; want: set of keys (a group)"""
    res = list(res)
    for g in res:
        if not R.check(ref.holds(np.array(g.R).astype(float), g.conjugate, g.antisymmetry, g.U), 'operation returned is no symmetry', lambda: '%s: %r' % (info(), g)):
            return False
    if gens:
        els = [(np.array(g.R).astype(float), g.conjugate, g.antisymmetry) for g in res] + [(np.eye(dim), False, False)]
        got = set(group_closure(els))
    else:
        got = [pkey(g) for g in res]
        R.check(len(got) == len(set(got)), 'duplicates', info)
        got = set(got)
    R.check(want <= got, 'symmetries missing', lambda: '%s: %d found, %d expected, missing %s' % (info(), len(got), len(want), [(np.frombuffer(k[0], complex).real.round(3).tolist(), k[1:]) for k in list(want - got)[:4]]))
    R.check(got <= want, 'too many symmetries', lambda: '%s: %d found, %d expected' % (info(), len(got), len(want)))
    R.trace()
    return True


def strip(gs):
    return [pkey(g) for g in gs]


def run_variants(desc, R, ts, dim, fam, params_list=(True,), frames=('id', 'u'), lattice=False, full=True, pick=None):
    # pick: beside the plain search only one of the other variants, chosen by this number
    n = len(next(iter(ts[0].values())))
    for params in params_list:
        m0 = build(ts, params, np.eye(n), dim)
        few = -4 if n > 10 else 0       # two linear terms: three generic points are plenty
        ref0 = Ref(m0, few)
        if ref0.zero:
            continue
        want = {key3(*x) for x in refcands(fam) if ref0.exists(*x)}
        R.outcome(fam, len(want), tuple(sorted(want)))
        lists = []
        combos = [(fr, 'plain') for fr in frames]
        if full:
            combos += [(frames[0], v) for v in ('gens', 'order') + (('sparse',) if n <= 2 or fam in ('D4', 'E3') else ())] + [(frames[-1], 'csr')]
            if lattice:
                combos += [(frames[0], 'bloch'), (frames[0], 'blochcsr'), (frames[-1], 'bloch'), (frames[-1], 'blochgens')]
            if pick is not None:
                combos = combos[:1] + [combos[1 + pick % (len(combos) - 1)]]
        us = {'id': np.eye(n), 'u': unit(n, 8)}
        ms = {fr: build(ts, params, us[fr], dim) for fr in frames}
        refs = {fr: ref0 if fr == 'id' else Ref(ms[fr], few) for fr in frames}
        for fr, v in combos:
            U, m, ref = us[fr], ms[fr], refs[fr]
            info = lambda: '%s params=%s frame=%s variant=%s' % (desc, params, fr, v)  # noqa: E731
            R.state(fam, desc['s'], desc.get('al'), params, fr, v)
            R.step()
            c = cands(fam)
            if v == 'plain':
                res, cont = SF.symmetries(m, c)
                lists.append(strip(res))
            elif v == 'gens':
                res, cont = SF.symmetries(m, set(c), generators=True)
                check_result(R, ref, res, want, info, True, dim)
                continue
            elif v == 'order':
                mr = build(ts, params, U, dim, rev=True)
                res, cont = SF.symmetries(mr, c[::-1])
                lists.append(strip(res))
            elif v == 'sparse':
                res, cont = SF.symmetries(m, c, sparse_linalg=True)
                lists.append(strip(res))
            elif v == 'csr':
                res, Ps = SF.discrete_symmetries(build(ts, params, U, dim, 'csr'), set(c))
            elif v in ('bloch', 'blochcsr'):
                res, cont = SF.symmetries(build(ts, params, U, dim, 'csr' if v == 'blochcsr' else 'dense', cls=BlochModel), c)
                lists.append(strip(res))
            elif v == 'blochgens':
                res, Ps = SF.discrete_symmetries(BlochModel(m), set(c), generators=True)
                check_result(R, ref, res, want, info, True, dim)
                continue
            check_result(R, ref, res, want, info, dim=dim)
        R.check(all(x == lists[0] for x in lists), 'order of the result', lambda: '%s params=%s' % (desc, params))


def fam(desc, R):
    f, dim = ALPH[desc['al']]
    allt = f()
    ts = [allt[i] for i in desc['s']]
    lattice = desc['al'].startswith('latt')
    pl = (True,) if len(ts) == 1 else (True, False)
    big = desc['g'] in ('Oh', 'D6hs', 'D6hf')
    if desc['g'] == 'Oh' and len(ts) > 1:
        pl = (False,)
    pick = None if len(ts) == 1 or desc.get('all') else sum(desc['s']) + desc['s'][0]
    if pick is not None and (lattice or desc['g'] != 'D4'):
        pl = (bool(pick % 3),)
    run_variants(desc, R, ts, dim, desc['g'], pl, ('id', 'u') if not big else ('u',), lattice, full=len(ts) == 1 or (not big and desc['al'] not in ('mono',)), pick=pick)


@functools.lru_cache(None)
def blocks():
    """name -> terms of a block; families of parameters a, b and momentum k_x"""
    h1, h2, h3, h4 = herm(2, 1), herm(2, 2), herm(2, 3), herm(2, 4)
    r1, r2 = herm(2, 6, True), herm(2, 7, True)
    A = (h1, h2)
    return {
        'A': ('1+k', A[0], A[1]), 'TA': ('1+k', h1.conj(), -h2.conj()), 'PA': ('1+k', -h1.conj(), h2.conj()), 'CA': ('1+k', -h1, -h2),
        'IA': ('1+k', h1, -h2), 'B': ('1+k', h3, h4), 'R': ('1+k', r1, 1j * (np.array([[0, 1], [-1, 0]]))), 'S': ('1+k', S[0], S[1]),
        'p': ('1+k', np.array([[1.]]), np.array([[1.]])), 'q': ('1+k', np.array([[-1.]]), np.array([[1.]])), 'c': ('1+k', np.array([[1.]]), np.array([[0.]])), 'd': ('1+k', r1, r2)}


def az(desc, R):
    bs = [blocks()[x] for x in desc['s']]
    m1 = p26.direct_sum([b[1] for b in bs])
    m2 = p26.direct_sum([b[2] for b in bs])
    ts = [{'1': m1}, {'k_x': m2}]
    if not np.any(m2):
        ts = ts[:1]
    run_variants(desc, R, ts, 1, '1D', (True,), full=True)


BIG = ['A', 'cA', '-A', 'R', 'Q', 'X', 'Y']


def bigblock(x, n):
    """two traceless Hermitian matrices, irreducible together: generic, conjugate, reversed, real, with particle-hole, chiral and quaternionic structure"""
    tl = lambda m: m - np.trace(m) / n * np.eye(n)  # noqa: E731
    h1, h2 = tl(herm(n, 31)), tl(herm(n, 32))
    if x == 'A':
        return h1, h2
    if x == 'cA':
        return h1.conj(), -h2.conj()
    if x == '-A':
        return -h1, h2
    if x == 'R':            # T^2 = 1
        return tl(herm(n, 33, True)), 1j * herm(n, 34).imag
    if x == 'X':            # P^2 = 1
        return 1j * herm(n, 35).imag, tl(herm(n, 36, True))
    d = n // 2
    o = np.zeros((n, n), complex)
    if x == 'Q':            # chiral
        a, b = o.copy(), o.copy()
        a[:d, d:] = gen((d, n - d), 37)
        b[:d, d:] = gen((d, n - d), 38)
        return a + a.conj().T, b + b.conj().T
    p = np.eye(n)[::-1]     # inversion
    a, b = tl(herm(n, 39)), herm(n, 40)
    return (a + p @ a @ p) / 2, (b - p @ b @ p) / 2


def big(desc, R):
    n = desc['n']
    bs = [bigblock(x, n) for x in desc['s']]
    ts = [{'1': p26.direct_sum([b[0] for b in bs])}, {'k_x': p26.direct_sum([b[1] for b in bs])}]
    run_variants(desc, R, ts, 1, '1D', (True,), ('u',), full=len(bs) == 1 and n < 10)


def scale(desc, R):
    """terms of very different size count alike"""
    f, dim = ALPH[desc['al']]
    allt = f()
    ts = [allt[i] for i in desc['s']]
    w = (1e-3, 3e-4)[sum(desc['s']) % 2]
    u = (1, 1e4, 1e-4)[sum(desc['s']) // 2 % 3]     # overall unit of energy
    if u != 1:
        w = 1
    ts = [{k: u * np.array(m) for k, m in ts[0].items()}, {k: u * w * np.array(m) for k, m in ts[1].items()}]
    run_variants(desc, R, ts, dim, desc['g'], (bool(desc['s'][0] % 2),), ('u',), desc['al'].startswith('latt'), full=False)


LIN = {'x': 'k_x', 'y': 'k_y', 'z': 'k_z', 'd': 'k_x+k_y', 'D': 'k_x-k_y', 'q': 'k_x**2', '1': '1'}


def perm(desc, R):
    dim = 2 if desc['g'] == 'D4' else 3
    n = len(desc['s'])
    d = {}
    for i, x in enumerate(desc['s']):
        m = np.zeros((n, n))
        m[i, i] = -1 if x[0] == '-' else 1
        k = LIN[x[-1]]
        d[k] = d.get(k, 0) + m
    run_variants(desc, R, [d], dim, desc['g'], (True,), full=dim == 2)


CANDM = [('2d', (1,)), ('2d', (0, 1)), ('2d', (7,)), ('latt2', (2, 4)), ('mult2', (2,)), ('2d', (9, 3))]


def cand(desc, R):
    """candidate sets that are not groups"""
    al, s = CANDM[desc['m']]
    f, dim = ALPH[al]
    ts = [f()[i] for i in s]
    g = desc['g']
    m = build(ts, True, unit(len(next(iter(ts[0].values()))), 2), dim)
    ref = Ref(m)
    rc = refcands(g)
    lc = cands(g)
    ok = [ref.exists(*x) for x in rc]
    ident = [(np.eye(dim), False, False)]
    sets = [(i,) for i in range(len(rc))] + list(itertools.combinations(range(len(rc)), 2))
    parts = desc.get('parts', 6)
    for j, t in enumerate(sets):
        if j % parts != desc['part']:
            continue
        want = set(group_closure([rc[i] for i in t if ok[i]] + ident))
        R.state(al, s, g, t)
        R.step(2)
        cs = {lc[i] for i in t}
        res, Ps = SF.discrete_symmetries(m, cs)
        check_result(R, ref, res, want, lambda: '%s candidates %s' % (CANDM[desc['m']], [rc[i] for i in t]))
        R.check(len(cs) == len(t) and all(c.U is None for c in cs), 'candidates changed')
        res, Ps = SF.discrete_symmetries(m, cs, generators=True)
        check_result(R, ref, res, want, lambda: '%s candidates %s' % (CANDM[desc['m']], [rc[i] for i in t]), True)
        R.outcome(len(want), len(t))


def subg(desc, R):
    """every subgroup generated by up to two elements, in shuffled orders"""
    al, s = CANDM[desc['m']]
    f, dim = ALPH[al]
    ts = [f()[i] for i in s]
    m = build(ts, True, np.eye(len(next(iter(ts[0].values())))), dim)
    ref = Ref(m)
    rc = refcands('D4')
    lc = cands('D4')
    ks = [key3(*x) for x in rc]
    ok = {key3(*x) for x in rc if ref.exists(*x)}
    seen = set()
    for t in itertools.combinations(range(len(rc)), 2):
        G = frozenset(group_closure([rc[i] for i in t]))
        if G in seen:
            continue
        seen.add(G)
        want = G & ok
        ids = [ks.index(k) for k in G]
        lists = []
        for o in range(3):
            order = ids[o:] + ids[:o]
            if o == 2:
                order = order[::-1]
            R.state(al, s, tuple(sorted(ids)), o)
            R.step()
            res, _ = SF.symmetries(m, [lc[i] for i in order])
            check_result(R, ref, res, want, lambda: '%s candidate group %s' % (CANDM[desc['m']], sorted(ids)))
            lists.append(strip(res))
        R.check(lists[0] == lists[1] == lists[2], 'order of the result', str(sorted(ids)))
        R.outcome(len(want), len(G))


def default(desc, R):
    """without candidates: onsite antiunitary and chiral symmetries only"""
    for al in ('2d', '3d', 'latt2', '2d4'):
        f, dim = ALPH[al]
        for i, t in enumerate(f()):
            m = build([t], True, unit(len(next(iter(t.values()))), 2), dim)
            ref = Ref(m)
            want = {key3(np.eye(dim), c, a) for c, a in FLAGS if ref.exists(np.eye(dim), c, a)}
            R.state(al, i)
            for kw in ({}, {'generators': True}):
                R.step()
                res, cont = SF.symmetries(m, **kw)
                check_result(R, ref, res, want, lambda: '%s %d default candidates' % (al, i), bool(kw), dim)
            R.outcome(al, len(want))
    for k, s in itertools.product((1, 2), repeat=2):
        for t in itertools.combinations(sorted(blocks()), k):
            bs = [blocks()[x] for x in t]
            m = Model({'a': p26.direct_sum([b[1] for b in bs]), 'b': p26.direct_sum([b[2] for b in bs])})
            ref = Ref(m)
            want = {key3(np.eye(3), c, a) for c, a in FLAGS if ref.exists(np.eye(3), c, a)}
            R.state('b', t)
            R.step()
            res, cont = SF.symmetries(m)
            check_result(R, ref, res, want, lambda: 'blocks %s default candidates' % (t,), False, 3)


def zero(desc, R):
    """the vanishing Hamiltonian, with and without explicit zero terms"""
    for dim, fm in ((1, '1D'), (2, 'D4'), (3, 'E3')):
        for n, terms, cls in itertools.product((1, 2, 3), ((), ('1',), ('1', 'k_x')), (Model, BlochModel)):
            if cls is BlochModel:
                terms = tuple(t.replace('k_x', 'e**(I*k_x)') for t in terms)
            m = cls({t: np.zeros((n, n)) for t in terms}, momenta=list(p15.KS[:dim]), shape=(n, n), format=np.ndarray)
            ref = Ref(m)
            want = {key3(*x) for x in refcands(fm)}
            for kw in ({}, {'generators': True}, {'continuous_rotations': True}):
                R.state(dim, n, terms, cls.__name__, tuple(kw))
                R.step()
                res, cont = SF.symmetries(m, cands(fm), **kw)
                check_result(R, ref, res, want, lambda: 'zero model dim=%d n=%d %s %s' % (dim, n, terms, kw), 'generators' in kw, dim)
                onsite = [c for c in cont if c.R is None or not np.any(c.R)]
                R.check(len(onsite) == n * n - 1, 'conserved quantities of the zero model')
                if kw.get('continuous_rotations') and cls is Model:
                    R.check(len(cont) - len(onsite) == dim * (dim - 1) // 2, 'rotations of the zero model', lambda: 'dim=%d n=%d %s: %d' % (dim, n, terms, len(cont)))


def bad(desc, R):
    m = Model({'k_x': S[0]}, momenta=['k_x'])
    R.fails(ValueError, 'unsupported data type', lambda: SF.symmetries(Model({'k_x': 1.0}, momenta=['k_x'])))
    for i in range(2):
        R.state('bad', i)
    R.fails(ValueError, 'candidate with unitary part', lambda: SF.symmetries(m, [PointGroupElement(-np.eye(1), False, False, np.eye(2))]))


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
