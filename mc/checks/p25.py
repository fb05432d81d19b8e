"""P25: generating families and finding their symmetries are mutually consistent."""
import functools
import itertools
import zlib

import numpy as np
import sympy

from mc import families as F
from mc.core import closure, rot2, rot3, subsets
from mc.checks import p16, p18
from mc.checks.p08 import exact, FLAGS
from qsymm.groups import PointGroupElement, ContinuousGroupGenerator
from qsymm.hamiltonian_generator import bloch_family, continuum_hamiltonian, hamiltonian_from_family, remove_duplicates
from qsymm.model import Model, BlochModel
from qsymm.symmetry_finder import symmetries

ASSUMPTIONS = ['the candidates are a group that contains the real-space parts of the generators; the family is not empty (otherwise there is nothing to find symmetries of)',
               'lattice families are regenerated when the operations found are again block permutations of the sites, as bloch_family documents']
BOUNDS = {'quick': 'continuum: every subset of generators of 29 groups with spin, orbital, parity and continuous representations (dimensions 0-3, 1-4 bands) x total powers 1-3 (one or two each), every single operation of the P16 alphabets and all pairs of 28 2D and 20 1D operations, candidate groups D4, D6 (exact and floating), D8, Oh, D6h and the generated group itself, all times the 4 classes; lattice: subsets of up to 3 of the generators of 14 systems of 1-4 sites x each hopping list; symbolic and lattice form, dense and sparse, group and generator form; the second round of finding for every case',
          'thorough': 'all total powers, all hopping subsets, all pairs in 3D'}


def ints(m):
    return np.array(np.round(m), int)


@functools.lru_cache(None)
def table(fam):
    """list of (float matrix, matrix supplied)"""
    if fam == '0':
        return [(np.zeros((0, 0)), np.zeros((0, 0)))]
    if fam == '1':
        return [(s * np.eye(1), s * np.eye(1, dtype=int)) for s in (1, -1)]
    g = {'D4': [rot2(np.pi / 2), np.diag([-1., 1])], 'D6': [rot2(np.pi / 3), np.diag([-1., 1])], 'D6f': [rot2(np.pi / 3), np.diag([-1., 1])], 'D8': [rot2(np.pi / 4), np.diag([-1., 1])],
         'Dg': [rot2(.7) @ np.diag([1, -1]), -np.eye(2)], 'Oh': [rot3([0, 0, 1], np.pi / 2), rot3([1, 1, 1], 2 * np.pi / 3), -np.eye(3)],
         'D6h': [rot3([0, 0, 1], np.pi / 3), np.diag([1., -1, -1]), -np.eye(3)], 'D4h': [rot3([0, 0, 1], np.pi / 2), np.diag([1., -1, -1]), -np.eye(3)],
         'C2g': [rot3([1, 2, 3], np.pi), -np.eye(3)], 'D2': [np.diag([-1., 1]), -np.eye(2)], 'E2': [np.eye(2)], 'E3': [np.eye(3)], 'I3': [-np.eye(3)]}[fam]
    ms = closure(g)
    f = {'D6': exact, 'D6h': exact}.get(fam, (lambda m: m) if fam in ('D6f', 'D8', 'Dg', 'C2g') else ints)
    return [(m, f(m)) for m in ms]


def candidates(fam, flags=FLAGS):
    return [PointGroupElement(r, c, a, None) for _, r in table(fam) for c, a in flags]


def fits(fam, refs):
    """the candidate group contains the real-space parts"""
    return all(any(np.allclose(o.R, m, atol=1e-6) for m, _ in table(fam)) for o in refs if isinstance(o, F.Op))


LIM = {'quick': 300, 'th': 10000}
BYDIM = {0: ['0'], 1: ['1'], 2: ['D4', 'D6', 'D8', 'Dg'], 3: ['Oh', 'D6h', 'C2g']}
SMALL3 = ['I3', 'D4h', 'Oh', 'D6h', 'C2g']


def generated(ops, dim):
    """the candidates generated by the operations themselves"""
    out = [PointGroupElement(np.eye(dim, dtype=int) if dim else np.zeros((0, 0)), False, False, None)]
    num = [(np.eye(dim), False, False)]
    gens = [(o[0].R, o[0].c, o[0].a, PointGroupElement(o[1].R, o[0].c, o[0].a, None)) for o in ops if isinstance(o[0], F.Op)]
    for x, g in zip(num, out):
        for r, c, a, q in gens:
            y = (x[0] @ r, x[1] ^ c, x[2] ^ a)
            if not any(y[1:] == z[1:] and np.allclose(y[0], z[0], atol=1e-6) for z in num):
                num.append(y)
                out.append(g * q)
    return out


def mats(X):
    """all matrices occurring in a family"""
    return X.reshape((-1,) + X.shape[2:])


def commutes(W, ms):
    sc = max(1, np.abs(ms).max())
    return np.abs(np.einsum('ij,bjk->bik', W, ms) - np.einsum('bij,jk->bik', ms, W)).max() < 1e-5 * sc


def vec(x):
    x = np.asarray(x, complex).ravel()
    return np.concatenate([x.real, x.imag])


def cont_space(cont, n):
    """rows (R part, U part) of a list of generators and the identity"""
    rows = []
    dim = 0
    for c in cont:
        if c.R is not None:
            dim = max(dim, np.asarray(c.R).shape[0])
    for c in cont:
        Rm = np.zeros((dim, dim)) if c.R is None else np.asarray(c.R, complex)
        U = np.zeros((n, n)) if c.U is None else c.U
        rows.append(np.concatenate([vec(Rm), vec(U)]))
    rows.append(np.concatenate([np.zeros(2 * dim * dim), vec(np.eye(n))]))
    return dim, np.array(rows)


def rank(m):
    s = np.linalg.svd(m, compute_uv=False) if m.size else np.zeros(0)
    return int(np.sum(s > 1e-6 * max(1, s[0] if len(s) else 1)))


def find_and_check(R, H, cand, refs, ms, cr, info, kw):
    """symmetries of H contain refs"""
    R.step()
    n = H.shape[0]
    disc, cont = symmetries(H, cand, continuous_rotations=cr, **kw)
    found = list(disc)
    if kw.get('generators'):
        # multiply out (with the actions, up to phase)
        found = [(np.array(g.R).astype(float), g.conjugate, g.antisymmetry, g.U) for g in found]
        found.append((np.eye(len(H.momenta)), False, False, np.eye(n)))
        gens = list(found)
        for x in found:
            for g in gens:
                y = (x[0] @ g[0], x[1] ^ g[1], x[2] ^ g[2], x[3] @ (g[3].conj() if x[1] else g[3]))
                if not any(y[1:3] == z[1:3] and np.allclose(y[0], z[0], atol=1e-5) for z in found):
                    found.append(y)
            if len(found) > 400:
                R.check(False, 'generators generate too much', info)
                return disc, cont
    else:
        found = [(np.array(g.R).astype(float), g.conjugate, g.antisymmetry, g.U) for g in found]
    dim, rows = cont_space(cont, n)
    R.check(rank(rows) == len(rows), 'continuous symmetries dependent', info)
    for o in refs:
        if isinstance(o, F.Op):
            hit = [x for x in found if x[1] == o.c and x[2] == o.a and np.allclose(x[0], o.R, atol=1e-5)]
            if R.check(len(hit) == 1, 'generator not found', lambda: '%s: R=%s conj=%s anti=%s found %d times among %d' % (info(), o.R.tolist(), o.c, o.a, len(hit), len(found))):
                W = o.U @ hit[0][3].conj().T
                R.check(np.allclose(hit[0][3] @ hit[0][3].conj().T, np.eye(n), atol=1e-6), 'action not unitary', info)
                R.check(commutes(W, ms), 'action differs by more than an onsite symmetry', lambda: '%s: R=%s conj=%s anti=%s\n%s\n%s' % (info(), o.R.tolist(), o.c, o.a, o.U, hit[0][3]))
        else:
            real = o.R is not None and np.abs(o.R).max(initial=0) > 1e-9
            if real and not cr:
                continue
            if real and not R.check(dim > 0, 'continuous rotation not found', info):
                continue
            d = dim
            v = np.concatenate([vec(o.R) if real else np.zeros(2 * d * d), vec(o.U)])
            R.check(rank(np.vstack([rows, v])) == rank(rows), 'continuous generator not found', lambda: '%s: R=%s U=%s' % (info(), o.R, o.U))
    return disc, cont


def finite(syms, limit=200):
    """the operations with their actions (up to phase) form a small group"""
    gens = [(np.array(g.R).astype(float), g.conjugate, g.antisymmetry, np.array(g.U)) for g in syms if isinstance(g, PointGroupElement)]
    if not gens:
        return True

    def key(x):
        u = x[3]
        z = u.ravel()[np.argmax(np.abs(u).ravel() > 1e-3)]
        return tuple(np.round(x[0], 3).ravel() + 0.) + x[1:3] + tuple(np.round(u / z * abs(z), 3).ravel() + 0.)
    el = [(np.eye(len(gens[0][0])), False, False, np.eye(len(gens[0][3])) + 0j)]
    seen = {key(el[0])}
    for x in el:
        for g in gens:
            y = (x[0] @ g[0], x[1] ^ g[1], x[2] ^ g[2], x[3] @ (g[3].conj() if x[1] else g[3]))
            if key(y) not in seen:
                if len(el) >= limit:
                    return False
                seen.add(key(y))
                el.append(y)
    return True


def same_sets(a, b):
    def k(g):
        return (tuple((np.round(np.array(g.R).astype(float), 3) + 0.).ravel()), bool(g.conjugate), bool(g.antisymmetry))
    return {k(g) for g in a} == {k(g) for g in b} and len(list(a)) == len(list(b))


def loop(R, gen_fn, read, ops, cand, n, cr, info, kw, second=True, usable=None, limit=None):
    """gen_fn(list of symmetries) -> family"""
    R.step()
    fam = gen_fn(None)
    X, err = read(fam)
    if not R.check(err is None, 'generated family', lambda: '%s %s' % (info(), err)):
        return
    if not len(fam):
        R.outcome('empty')
        return
    ms = mats(X)
    refs = [o[0] for o in ops]
    H = hamiltonian_from_family(fam, tosympy=False)
    if limit and len(H) * n * len(cand) > limit:
        # the search takes a time proportional to both
        cand = generated(ops, len(H.momenta))
        if len(H) * n * len(cand) > 2 * limit:
            R.outcome('skipped')
            return
    if kw.get('sparse_linalg'):
        H = H.tocsr()
    disc, cont = find_and_check(R, H, cand, refs, ms, cr, info, kw)
    R.outcome(n, len(fam), len(disc), len(cont))
    one = PointGroupElement(np.eye(len(H.momenta), dtype=int), False, False, np.eye(n))
    syms = list(disc) + list(cont) or [one]    # the size is read off from the symmetries
    if usable is not None and not usable(disc, cont):
        R.outcome('not usable')
        R.trace()
        return
    R.step()
    fam2 = gen_fn(syms)
    X2, err = read(fam2)
    if not R.check(err is None, 'regenerated family', lambda: '%s %s' % (info(), err)):
        return
    if not F.compare(R, X2, X, 'regenerated family', info, 1e-5):
        return
    R.trace()
    if second:
        H2 = hamiltonian_from_family(fam2, tosympy=False)
        if kw.get('sparse_linalg'):
            H2 = H2.tocsr()
        R.step()
        disc2, cont2 = symmetries(H2, cand, continuous_rotations=cr, **dict(kw, generators=False))
        if not kw.get('generators'):
            R.check(same_sets(disc, disc2), 'second round finds other symmetries', lambda: '%s: %d, %d' % (info(), len(disc), len(disc2)))
        d1, r1 = cont_space(cont, n)
        d2, r2 = cont_space(cont2, n)
        R.check(d1 == d2 and len(r1) == len(r2) and rank(np.vstack([r1, r2])) == rank(r1), 'second round finds other continuous symmetries', info)
        R.trace()


# ------------------------------------------------------------ continuum

def continuum(R, ops, dim, tp, info, variant=0, th=False, ap=None, cands=None):
    refs, libs = [o[0] for o in ops], [o[1] for o in ops]
    n = len(refs[0].U)
    fams = [f for f in (cands or BYDIM[dim]) if fits(f, refs)]
    if not fams:
        fams = ['gen']
    f = fams[variant % len(fams)] if not th else None
    hascont = any(isinstance(o, F.Gen) and o.R is not None and np.abs(o.R).max(initial=0) > 0 for o in refs)
    cr = dim > 1 and (hascont or variant % 2 == 0)
    names = p16.KS[:dim]
    alphabet = {p: i for i, p in enumerate(sum([F.monos(dim, d) for d in p16.degrees(tp)], []))}
    modes = list(alphabet)

    def gen_fn(syms):
        kw = {}
        if ap is not None:
            kw['all_powers'] = ap
        return continuum_hamiltonian(libs if syms is None else syms, dim, tp, **kw)

    def read(fam):
        return F.arrays(fam, modes, names, n)
    for f in [f] if f else fams:
        cand = candidates(f) if f != 'gen' else generated(ops, dim)
        kw = {}
        if variant % 3 == 1 or len(cand) > 60:
            kw['generators'] = True
        if variant % 7 == 5 and n > 1:
            kw['sparse_linalg'] = True
        if variant % 5 == 3:
            kw['prettify'] = True
        inf = lambda: '%s total=%s candidates %s %s' % (info, tp, f, kw)  # noqa: E731
        R.state(info, str(tp), f, str(kw))
        # without searching for rotations the continuous generators are kept as they are
        if hascont and not cr:
            raise AssertionError
        loop(R, gen_fn, read, ops, cand, n, cr, inf, kw, second=th or variant % 3 == 0, limit=LIM['th' if th else 'quick'])


def group(desc, R):
    dim, ops = p16.groups()[desc['g']]
    ops = [ops[i] for i in desc['s']]
    n = len(ops[0][0].U)
    h = zlib.crc32(str(desc).encode())
    tps = [1, 2, 3, [0, 2], [1, 3]] if not desc['th'] else [0, 1, 2, 3, [0, 2], [1, 3], [2]]
    if n > 3 or dim == 3:
        tps = [1, 2, [0, 2]]
    if not desc['th']:
        tps = [tps[h % len(tps)]] + ([tps[(h + 1) % len(tps)]] if dim < 3 else [])
    for i, tp in enumerate(tps):
        continuum(R, ops, dim, tp, '%s %s' % (desc['g'], desc['s']), h // 7 + i, desc['th'])


def single(desc, R):
    dim, n, r = desc['dim'], desc['n'], desc['r']
    for i, (u, (c, a)) in enumerate(itertools.product(p16.ulist(n), FLAGS)):
        h = zlib.crc32(('%s%d' % (desc, i)).encode())
        if not desc['th'] and h % (2 if n < 3 else 5):
            continue
        o = p16.make(dim, r, u, c, a, n)
        if not group_ok([o[0]]):
            continue
        cands = None
        if r == 'Cg':
            continue
        if r in ('C8f',):
            cands = ['D8']
        elif r in ('C3f',):
            cands = ['D6f']
        elif dim == 3 and h % 3:
            cands = ['I3', 'D4h', 'D6h'] if r in ('E', 'I') else None
        continuum(R, [o], dim, 1 + (h // 5) % 2, '%s U=%s %s%s' % (desc, u, c, a), h // 11, cands=cands)


def group_ok(refs):
    return True


def pair(desc, R):
    dim = desc['dim']
    al = p16.pair_ops(dim)
    o1 = p16.make(dim, *al[desc['i']], 2)
    for j in range(desc['i'], len(al)):
        h = zlib.crc32(('%s%d' % (desc, j)).encode())
        o2 = p16.make(dim, *al[j], 2)
        if not any(fits(f, [o1[0], o2[0]]) for f in BYDIM[dim]):
            continue
        if h % (2 if dim < 3 else 4) and not desc['th']:
            continue
        continuum(R, [o1, o2], dim, 1 + h // 8 % 3 if dim < 3 else 1 + h // 8 % 2, '%s %s' % (al[desc['i']], al[j]), h // 64)


def powers(desc, R):
    """restricted powers of single momenta"""
    dim, ops = p16.groups()[desc['g']]
    for i, (tp, ap) in enumerate(itertools.product(p16.TOTALS, p16.POWERS[dim])):
        if ap is None or dim == 3 and i % 4:
            continue
        if tp in ([], 4, [4]) and dim > 1:
            continue
        continuum(R, ops[:2], dim, tp, '%s single=%s' % (desc['g'], ap), i, ap=ap)


# ------------------------------------------------------------ lattice

def lattice(desc, R):
    d = p18.systems()[desc['g']]
    ops = [d['ops'][i] for i in desc['s']]
    hops = [d['hops'][i] for i in desc['h']]
    dim, norbs, ex = d['dim'], d['norbs'], d.get('exact', True)
    refs, libs = [o[0] for o in ops], [o[1] for o in ops]
    N = sum(n for _, n in norbs)
    h = zlib.crc32(str(desc).encode())
    full = p18.complete(hops + [(s, s, (0,) * dim) for s, _ in norbs], refs, norbs)
    size = len(full) * N * N
    bloch = not ex or (h % 3 == 0 and size < 60)
    if (bloch and size > 80 or size > 500) and not desc['th']:
        return R.state('skipped')
    fams = [f for f in {1: ['1'], 2: ['D4', 'D6', 'D8'], 3: ['Oh']}[dim] if fits(f, refs)]
    if not ex:
        fams = [f + ('f' if f == 'D6' else '') for f in fams]
    f = fams[h % len(fams)]
    if ex and not bloch and f == 'D8':
        f = fams[0]
    cand = candidates(f)
    names = p18.KS[:dim]
    modes = []
    seen = set()
    for a, b, v in full:
        if F.hop_key(v) not in seen:
            seen.add(F.hop_key(v))
            modes.append(tuple(v))

    def gen_fn(syms):
        if syms is None:
            return bloch_family(hops, libs, norbs, prettify=False, bloch_model=bloch)
        if finite(syms):
            return bloch_family(hops, syms, norbs, prettify=False, bloch_model=bloch)
        # the actions found are only defined up to the onsite symmetries and
        # may generate an infinite group: constrain the complete hoppings instead
        R.outcome('infinite')
        hs = [(a, b, p18.exact_vec(v) if not bloch else tuple(v)) for a, b, v in full]
        return bloch_family(hs, syms, norbs, prettify=False, bloch_model=bloch, symmetrize=False)

    def read(fam):
        return F.arrays(fam, modes, names, N, hops=True)

    def usable(disc, cont):
        try:
            for g in disc:
                pm = p18.perm_of(np.where(np.abs(g.U) < 1e-6, 0, g.U), norbs)
                if sorted(pm.values()) != sorted(pm):
                    return False
                if any(norb != dict(norbs)[pm[s]] for s, norb in norbs):
                    return False
        except AssertionError:
            return False
        off = np.concatenate([[0], np.cumsum([n for _, n in norbs])])
        for c in cont:
            U = np.array(c.U)
            for i in range(len(norbs)):
                U[off[i]:off[i + 1], off[i]:off[i + 1]] = 0
            if np.abs(U).max() > 1e-6:
                return False
        # the operations found map the hoppings to hoppings of the family
        pseudo = [F.Op(np.array(g.R).astype(float), g.conjugate, g.antisymmetry, np.where(np.abs(g.U) < 1e-6, 0, g.U)) for g in disc]
        more = p18.complete(hops + [(s, s, (0,) * dim) for s, _ in norbs], pseudo, norbs)
        k = lambda L: {(a, b, F.hop_key(v)) for a, b, v in L}  # noqa: E731
        return k(more) == k(full)
    kw = {}
    if h % 4 == 1 or len(cand) > 60:
        kw['generators'] = True
    if h % 7 == 3:
        kw['sparse_linalg'] = True
    info = lambda: '%s %s %s candidates %s %s %s' % (desc['g'], desc['s'], desc['h'], f, kw, 'lattice' if bloch else 'symbolic')  # noqa: E731
    R.state(info())
    loop(R, gen_fn, read, ops, cand, N, False, info, kw, second=h % 3 == 0, usable=usable, limit=LIM['th' if desc['th'] else 'quick'])


def cases(tier):
    th = tier == 'thorough'
    out = []
    for nm, (dim, ops) in sorted(p16.groups().items()):
        if nm in ('Cg spin', 'rot axis'):
            continue
        for s in subsets(range(len(ops)), 1):
            out.append({'k': 'group', 'g': nm, 's': list(s), 'th': th})
    for dim in (0, 1, 2, 3):
        for n in (1, 2, 3, 4):
            for r in p16.rlist(dim):
                if dim == 3 and n > 2 and r in ('Cg', 'C3z') or dim == 3 and n == 4 and not th:
                    continue
                out.append({'k': 'single', 'dim': dim, 'n': n, 'r': r, 'th': th})
    for dim in (1, 2) + ((3,) if th else ()):
        for i in range(len(p16.pair_ops(dim))):
            out.append({'k': 'pair', 'dim': dim, 'i': i, 'th': th})
    out += [{'k': 'powers', 'g': g} for g in ('C4v spin', 'C6v p', 'N1 2D', 'prim', '1D spin', 'SO2 1/2')]
    for nm, d in sorted(p18.systems().items()):
        no, nh = len(d['ops']), len(d['hops'])
        for s in subsets(range(no), 1, no if th else 3):
            for h in subsets(range(nh), 1, 2 if th or d['dim'] == 1 else 1):
                out.append({'k': 'lattice', 'g': nm, 's': list(s), 'h': list(h), 'th': th})
    return out


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
