"""P18: generated lattice families are exactly the symmetric tight-binding Hamiltonians."""
import collections
import copy
import functools
import itertools
import zlib

import numpy as np
import scipy.linalg as la
import sympy

from mc import families as F
from mc.core import expih, rot2, rot3, subsets, herm
from mc.checks import p16
from mc.checks.p08 import FLAGS, exact
from mc.checks.p10 import su2
from qsymm.groups import PointGroupElement, ContinuousGroupGenerator
from qsymm.hamiltonian_generator import bloch_family
from qsymm.model import Model, BlochModel

ASSUMPTIONS = ['Hilbert-space parts are block permutations of the sites, conserved quantities are block diagonal, and the group generated (Hilbert-space parts up to phase) is finite, as the documentation requires',
               'prettified families (documented as possibly unstable) are compared for operations with simple entries only',
               'floating-point rotations require bloch_model=True, as documented']
BOUNDS = {'quick': 'dimensions 1-3, one site with 1-3 orbitals: every single operation of the P16 alphabets of finite order x 2-3 hopping lists; all pairs of 16 2D and 12 1D operations; 14 systems of 1-4 sites (chain, SSH, square, Lieb, checkerboard, honeycomb exact and floating, kagome, octagonal, cubic, diamond; spin and p orbitals, unequal orbital numbers): all subsets of up to 3 of 3-5 generators x subsets of up to 2 of 2-4 hoppings; symmetrizing and constraining (complete and incomplete lists), symbolic and lattice output, prettified or not, onsite terms or not; orders, duplicated and reversed hoppings, forms of orbital numbers, vectors and momentum names',
          'thorough': 'all output variants in every case, all subsets of generators, hopping subsets up to 3'}

S, S0 = p16.S, np.eye(2)


def freeze(U):
    return np.asarray(U, complex)


def blockperm(norbs, perm, reps):
    """perm[i] is the image of site i, reps[i] the action on its orbitals"""
    off = np.concatenate([[0], np.cumsum(norbs)])
    U = np.zeros((off[-1], off[-1]), complex)
    for i, p in enumerate(perm):
        U[off[p]:off[p + 1], off[i]:off[i + 1]] = reps[i]
    return U


def op(R, U, c=False, a=False, R0=None, simple=True):
    R = np.asarray(R, float)
    return F.Op(R, c, a, U), PointGroupElement(np.array(np.round(R), int) if R0 is None else R0, c, a, freeze(U)), simple


def gen(U, R=None):
    return F.Gen(None, U), ContinuousGroupGenerator(R, freeze(U)), True


H3 = sympy.sqrt(3)
C2, C4, MX, MD = rot2(np.pi), rot2(np.pi / 2), np.diag([-1., 1]), np.array([[0., 1], [1, 0]])
C3, C6 = rot2(2 * np.pi / 3), rot2(np.pi / 3)


def flo(v):
    return tuple(float(x) for x in v)


@functools.lru_cache(None)
def systems():
    """name -> dict(dim, norbs, ops, hops, exact)"""
    g = {}
    t = 1j * S[1]
    g['chain'] = dict(dim=1, norbs=(('a', 2),), ops=[op(-np.eye(1), S[2]), op(np.eye(1), t, True), op(np.eye(1), S[0], True, True), op(np.eye(1), S[2], False, True), gen(S[1])],
                      hops=[('a', 'a', (1,)), ('a', 'a', (2,)), ('a', 'a', (sympy.Rational(1, 2),))])
    g['ssh'] = dict(dim=1, norbs=(('a', 1), ('b', 1)), ops=[op(-np.eye(1), S[0]), op(np.eye(1), S0, True), op(np.eye(1), S[2], False, True), op(np.eye(1), S[2], True, True)],
                    hops=[('a', 'b', (0,)), ('b', 'a', (1,)), ('a', 'a', (1,)), ('a', 'b', (sympy.Rational(1, 3),))])
    g['ssh2'] = dict(dim=1, norbs=(('a', 2), ('b', 2)), ops=[op(-np.eye(1), np.kron(S[0], S[2])), op(np.eye(1), np.kron(S0, t), True), op(np.eye(1), np.kron(S[2], S0), False, True), gen(np.kron(S0, S[2])), gen(la.block_diag(S[0], S[0]))],
                     hops=[('a', 'b', (0,)), ('b', 'a', (1,)), ('a', 'a', (1,))])
    g['uneq'] = dict(dim=1, norbs=(('a', 1), ('b', 2), ('c', 1)), ops=[op(-np.eye(1), blockperm((1, 2, 1), (2, 1, 0), (1, S[2], 1))), op(np.eye(1), np.eye(4), True), op(np.eye(1), np.diag([1, -1, -1, 1]), False, True), gen(la.block_diag(0, S[2], 0))],
                     hops=[('a', 'b', (sympy.Rational(1, 2),)), ('b', 'c', (sympy.Rational(1, 2),)), ('c', 'a', (1,)), ('b', 'b', (1,))])
    g['square'] = dict(dim=2, norbs=(('a', 2),), ops=[op(C4, expih(S[2] / 2, np.pi / 2)), op(MX, 1j * S[0]), op(np.eye(2), t, True), op(np.eye(2), S[0], True, True), gen(S[2])],
                       hops=[('a', 'a', (1, 0)), ('a', 'a', (1, 1)), ('a', 'a', (2, 1))])
    g['squarep'] = dict(dim=2, norbs=(('a', 3),), ops=[op(C4, la.block_diag(1, C4)), op(MX, la.block_diag(1, MX)), op(np.eye(2), np.eye(3), True), op(-np.eye(2), np.diag([1, -1, -1]))],
                        hops=[('a', 'a', (1, 0)), ('a', 'a', (1, 1))])
    r = sympy.Rational(1, 2)
    g['lieb'] = dict(dim=2, norbs=(('a', 1), ('b', 1), ('c', 1)), ops=[op(C4, blockperm((1, 1, 1), (0, 2, 1), (1, 1, 1))), op(MX, np.eye(3)), op(np.eye(2), np.eye(3), True), op(np.eye(2), np.diag([1, -1, -1]), False, True)],
                     hops=[('a', 'b', (r, 0)), ('b', 'c', (r, r)), ('a', 'a', (1, 0))])
    g['checker'] = dict(dim=2, norbs=(('a', 1), ('b', 2)), ops=[op(C4, la.block_diag(1, C4)), op(MD, la.block_diag(1, MD)), op(np.eye(2), np.eye(3), True), gen(la.block_diag(0, S[1]))],
                        hops=[('a', 'b', (r, r)), ('a', 'a', (1, 0)), ('b', 'b', (0, 1))])
    for nm, ex in (('honey', True), ('honeyf', False)):
        cv = (lambda m: exact(m)) if ex else (lambda m: np.asarray(m, float))
        h1 = ('a', 'b', (0, H3 / 3))
        h2 = ('a', 'a', (1, 0))
        h3 = ('b', 'a', (0, 2 * H3 / 3))
        hs = [h1, h2, h3]
        if not ex:
            hs = [(a, b, flo(v)) for a, b, v in hs]
        g[nm] = dict(dim=2, exact=ex, norbs=(('a', 1), ('b', 1)), ops=[op(C6, S[0], R0=cv(C6)), op(C3, S0, R0=cv(C3)), op(MX, S0, R0=cv(MX)), op(np.eye(2), S0, True, R0=cv(np.eye(2))), op(np.eye(2), S[2], False, True, R0=cv(np.eye(2)))], hops=hs)
        sz = expih(S[2] / 2, np.pi / 3)
        g[nm + ' spin'] = dict(dim=2, exact=ex, norbs=(('a', 2), ('b', 2)), ops=[op(C6, np.kron(S[0], sz), R0=cv(C6)), op(MX, np.kron(S0, 1j * S[0]), R0=cv(MX)), op(np.eye(2), np.kron(S0, t), True, R0=cv(np.eye(2))), gen(np.kron(S0, S[2]))], hops=hs[:2])
    cyc = blockperm((1, 1, 1), (1, 2, 0), (1, 1, 1))
    d = [(r, 0), (-r / 2, H3 / 4), (-r / 2, -H3 / 4)]
    g['kagome'] = dict(dim=2, norbs=(('a', 1), ('b', 1), ('c', 1)), ops=[op(C3, cyc, R0=exact(C3)), op(C2, np.eye(3)), op(MX, blockperm((1, 1, 1), (1, 0, 2), (1, 1, 1))), op(np.eye(2), np.eye(3), True)],
                       hops=[('a', 'b', d[0]), ('a', 'a', (r, H3 / 2)), ('c', 'c', (1, 0))])
    c8 = rot2(np.pi / 4)
    g['octa'] = dict(dim=2, exact=False, norbs=(('a', 2),), ops=[op(c8, rot2(np.pi / 4), R0=c8), op(MX, MX, R0=MX), op(np.eye(2), S0, True, R0=np.eye(2)), op(-np.eye(2), -S0, R0=-np.eye(2))], hops=[('a', 'a', (1., 0.)), ('a', 'a', (1 + np.sqrt(.5), np.sqrt(.5)))])
    c4, c3 = rot3([0, 0, 1], np.pi / 2), rot3([1, 1, 1], 2 * np.pi / 3)
    g['cubic'] = dict(dim=3, norbs=(('a', 2),), ops=[op(c3, su2(c3)), op(-np.eye(3), np.eye(2)), op(np.eye(3), t, True), op(c4 @ c4, su2(c4 @ c4))], hops=[('a', 'a', (1, 0, 0)), ('a', 'a', (1, 1, 0))])
    q = sympy.Rational(1, 4)
    g['diamond'] = dict(dim=3, norbs=(('a', 1), ('b', 1)), ops=[op(c3, S0), op(-np.eye(3), S[0]), op(np.diag([1., -1, -1]), S0), op(np.eye(3), S0, True)], hops=[('a', 'b', (q, q, q)), ('a', 'a', (r, r, 0))])
    return g


# ------------------------------------------------------------ reference

def perm_of(U, norbs):
    off = np.concatenate([[0], np.cumsum([n for _, n in norbs])])
    names = [s for s, _ in norbs]
    out = {}
    for i, s in enumerate(names):
        blk = np.abs(U[:, off[i]:off[i + 1]]).sum(axis=1)
        out[s] = [names[j] for j in range(len(names)) if blk[off[j]:off[j + 1]].sum() > 1e-9]
        assert len(out[s]) == 1
        out[s] = out[s][0]
    return out


def complete(hops, ops, norbs):
    """orbit of the hoppings under the operations and reversal"""
    dis = [o for o in ops if isinstance(o, F.Op)]
    perms = [perm_of(o.U, norbs) for o in dis]
    todo = [(a, b, tuple(float(x) for x in v)) for a, b, v in hops]
    seen = {}
    while todo:
        h = todo.pop()
        k = (h[0], h[1], tuple(np.round(h[2], 4) + 0.0))
        if k in seen:
            continue
        seen[k] = h
        a, b, v = h
        todo.append((b, a, tuple(-np.asarray(v))))
        for o, p in zip(dis, perms):
            todo.append((p[a], p[b], tuple(o.R @ np.asarray(v))))
    assert len(seen) < 3000
    return list(seen.values())


def closed_reversal(hops):
    return [(a, b, tuple(float(x) for x in v)) for a, b, v in hops] + [(b, a, tuple(-float(x) for x in v)) for a, b, v in hops]


def reference(ops, norbs, hops, onsites, symmetrize, dim):
    hops = list(hops)
    if onsites:
        hops = hops + [(s, s, (0,) * dim) for s, _ in norbs]
    full = complete(hops, ops, norbs) if symmetrize else closed_reversal(hops)
    off = np.concatenate([[0], np.cumsum([n for _, n in norbs])])
    sl = {s: slice(off[i], off[i + 1]) for i, (s, _) in enumerate(norbs)}
    N = off[-1]
    modes = []
    keys = {}
    for a, b, v in full:
        k = F.hop_key(v)
        if k not in keys:
            keys[k] = len(modes)
            modes.append(tuple(v))
    # merge hops that coincide up to rounding
    basis, done = [], set()
    for a, b, v in full:
        k, kr = F.hop_key(v), F.hop_key(-np.asarray(v))
        if (a, b, k) in done:
            continue
        done |= {(a, b, k), (b, a, kr)}
        onsite = a == b and k == kr
        for m in (F.herm_basis(N)[:0] if onsite else F.all_mats(*[sl[x].stop - sl[x].start for x in (a, b)])):
            x = np.zeros((len(modes), N, N), complex)
            x[keys[k], sl[a], sl[b]] = m
            x[keys[kr], sl[b], sl[a]] += m.conj().T
            basis.append(x)
        if onsite:
            for m in F.herm_basis(sl[a].stop - sl[a].start):
                x = np.zeros((len(modes), N, N), complex)
                x[keys[k], sl[a], sl[a]] = m
                basis.append(x)
    basis = np.array(basis).reshape(len(basis), len(modes), N, N)
    opsT = [(o, F.hop_action(modes, o) if isinstance(o, F.Op) else None) for o in ops]
    return modes, F.solve(basis, opsT)


KS = ('k_x', 'k_y', 'k_z')


def check_family(R, fam, ref, names, N, dim, label, info, bloch, tol=1e-6):
    modes, X0 = ref
    R.step()
    for m in fam:
        ok = isinstance(m, BlochModel if bloch else Model) and (bloch or not isinstance(m, BlochModel)) and tuple(s.name for s in m.momenta) == tuple(names)
        if not R.check(ok, label + ': type or momenta', lambda: '%s: %s %s' % (info(), type(m), m.momenta)):
            return
    X, err = F.arrays(fam, modes, tuple(names), N, hops=True)
    if R.check(err is None, label + ': terms', lambda: '%s: %s' % (info(), err)):
        R.trace()
        F.compare(R, X, X0, label, info, tol)


def snap(hops, libs, norbs):
    return (copy.deepcopy([(a, b, list(v)) for a, b, v in hops]), [(None if x.U is None else x.U.copy(), getattr(x, '_strict_eq', None)) for x in libs], list(dict(norbs).items()))


def same(a, b):
    return a[0] == b[0] and a[2] == b[2] and len(a[1]) == len(b[1]) and all(np.array_equal(x[0], y[0]) and x[1] == y[1] for x, y in zip(a[1], b[1]))


def run(R, sysd, ops, hops, info, variants, every=False):
    dim, norbs, ex = sysd['dim'], sysd['norbs'], sysd.get('exact', True)
    refs, libs = [o[0] for o in ops], [o[1] for o in ops]
    simple = all(o[2] for o in ops)
    N = sum(n for _, n in norbs)
    cache = {}
    size = len(complete(hops, refs, norbs)) * N ** 2   # real unknowns, roughly

    def ref(onsites, symmetrize, hs=hops):
        k = (onsites, symmetrize, str(hs))
        if k not in cache:
            cache[k] = reference(refs, norbs, hs, onsites, symmetrize, dim)
        return cache[k]
    if not ex and not every:
        # lattice models are slow: fewer variants for many hoppings
        if size > 12:
            variants = variants[:1]
        if size > 60 and zlib.crc32(info.encode()) % 12 or size > 24 and zlib.crc32(info.encode()) % 3:
            return R.state('skipped')
    for v in variants:
        inf = lambda: '%s variant=%s' % (info, v)  # noqa: E731
        R.state(info, v)
        kw = dict(onsites=True, symmetrize=True, prettify=simple, bloch_model=not ex)
        names = KS[:dim]
        hs, lb, nb = list(hops), list(libs), collections.OrderedDict(norbs)
        rhs = hops
        for f in v.split('+'):
            if f == 'raw':
                kw['prettify'] = False
            elif f == 'digits':
                kw['num_digits'] = 8
            elif f == 'bloch':
                # arithmetic of lattice models is slow
                kw['bloch_model'] = size <= (10 if not every else 100)
            elif f == 'noons':
                kw['onsites'] = False
            elif f == 'constrain':       # the list as given
                kw['symmetrize'] = False
            elif f == 'complete':        # the completed list
                kw['symmetrize'] = False
                rhs = complete(hops, refs, norbs)
                # one of each hopping and its reverse suffices
                hs, seen = [], set()
                for a, b, x in rhs:
                    if (b, a, tuple(np.round(-np.asarray(x), 4) + 0.0)) not in seen:
                        seen.add((a, b, tuple(np.round(x, 4) + 0.0)))
                        hs.append((a, b, exact_vec(x) if not kw['bloch_model'] else tuple(x)))
            elif f == 'rev':
                lb = lb[::-1]
                hs = [(b, a, tuple(-y for y in x)) for a, b, x in hs][::-1]
            elif f == 'dup':
                hs = hs + hs[:1] + [(b, a, [-y for y in x]) for a, b, x in hs[:1]]
                lb = lb + lb[:1]
            elif f == 'names':
                kw['momenta'] = ['k_1', 'k_2', 'k_3'][:dim]
                names = tuple(kw['momenta'])
            elif f == 'perm':
                names = ('k_y', 'k_z', 'k_x')[:dim]
                kw['momenta'] = sympy.symbols(names) if dim > 1 else (sympy.Symbol(names[0]),)
            elif f == 'tuples':
                nb = tuple(norbs)
            elif f == 'lists':
                nb = list(norbs)
                hs = [(a, b, list(x)) for a, b, x in hs]
        if not ex:
            kw['bloch_model'] = True
        before = snap(hs, lb, nb)
        fam = bloch_family(hs, lb, nb, **kw)
        R.check(same(before, snap(hs, lb, nb)), 'arguments changed', inf)
        rf = ref(kw['onsites'], kw['symmetrize'], tuple(rhs))
        check_family(R, fam, rf, names, N, dim, v, inf, kw['bloch_model'], 1e-5)


SMALL = sorted({sympy.Rational(p, q) * s for p in range(9) for q in (1, 2, 3, 4, 6) for s in (1, -1)}, key=lambda x: (abs(x), x))


def exact_vec(v):
    out = []
    for x in v:
        # a + b sqrt(3) with small denominators
        for b in SMALL:
            a = sympy.nsimplify(float(x) - float(b * H3), rational=True, tolerance=1e-7)
            if a.q <= 6 and abs(a) < 5 and abs(float(a + b * H3) - x) < 1e-7:
                out.append(a + b * H3)
                break
        else:
            raise AssertionError(x)
    return tuple(out)


VS = ['plain', 'raw', 'bloch', 'bloch+raw', 'noons', 'constrain', 'constrain+raw+bloch', 'complete', 'complete+bloch+raw', 'rev', 'dup', 'names', 'perm+bloch', 'tuples', 'lists+noons+raw', 'digits', 'noons+constrain', 'complete+noons+digits']


def cases(tier):
    th = tier == 'thorough'
    out = []
    for nm, d in sorted(systems().items()):
        no, nh = len(d['ops']), len(d['hops'])
        N = sum(n for _, n in d['norbs'])
        for s in subsets(range(no), 0):
            if len(s) > 3 and not th:
                continue
            for h in subsets(range(nh), 1, 3 if th else 2):
                if len(h) > 1 and len(s) > 2 and not th and (d['dim'] > 1):
                    continue
                out.append({'k': 'sys', 'g': nm, 's': list(s), 'h': list(h), 'all': th})
    for dim in (1, 2, 3):
        for n in (1, 2, 3):
            for r in p16.rlist(dim):
                if r != 'Cg':
                    out.append({'k': 'single', 'dim': dim, 'n': n, 'r': r, 'all': th})
    for dim in (1, 2):
        for i in range(len(pair_ops(dim))):
            out.append({'k': 'pair', 'dim': dim, 'i': i, 'all': th})
    out += [{'k': 'bad'}, {'k': 'empty'}]
    return out


def pick(desc, i, n=2):
    if desc['all']:
        return VS
    return [VS[(i * 5 + j * 7) % len(VS)] for j in range(n)]


def num(desc):
    return sum(desc['s']) * 3 + len(desc['s']) + 2 * sum(desc['h']) + 5 * len(desc['h'])


def sys(desc, R):
    d = systems()[desc['g']]
    ops = [d['ops'][i] for i in desc['s']]
    hops = [d['hops'][i] for i in desc['h']]
    small = d['dim'] == 1 or desc['g'] in ('ssh', 'lieb', 'honeyf', 'octa', 'square')
    if not d.get('exact', True) and not desc['all'] and 'spin' in desc['g'] and (len(hops) > 1 or len(ops) not in (2, 4)):
        return R.state('skipped')
    vs = VS if small and len(hops) == 1 and len(ops) < 2 else pick(desc, num(desc), 4 if small and d.get('exact', True) and d['dim'] == 1 else 2 if len(hops) == 1 else 1)
    run(R, d, ops, hops, '%s %s %s' % (desc['g'], desc['s'], desc['h']), vs, desc['all'])


VECS = {1: [((1,),), ((2,), (sympy.Rational(1, 3),))], 2: [((1, 0),), ((1, 2),), ((sympy.Rational(1, 2), H3 / 2), (1, 0))], 3: [((1, 0, 0),), ((1, 1, 0),), ((1, 2, 0),)]}


def single(desc, R):
    dim, n, r = desc['dim'], desc['n'], desc['r']
    m, r0, simple = p16.rlist(dim)[r]
    ex = r not in ('C3f', 'C8f', 'Mg')
    i = 0
    for u, (c, a) in itertools.product(p16.ulist(n), FLAGS):
        if u == 'u':
            continue
        U = p16.ulist(n)[u]
        o = (F.Op(m, c, a, U), PointGroupElement(r0, c, a, U), simple and u not in ('w',))
        for j, vs in enumerate(VECS[dim]):
            i += 1
            if not desc['all'] and (i + i // 12) % (2 if n < 3 and dim < 3 else 4 if n < 3 else 6) and dim > 1:
                continue
            if r in ('C3', 'C6') and j == 2 and n > 1:
                continue
            if dim == 3 and n > 1 and r in ('C3z',) and j != 0:
                continue
            hops = [('a', 'a', v if ex else flo(v)) for v in vs]
            v = VS[i % len(VS)] if not desc['all'] else None
            run(R, dict(dim=dim, norbs=(('a', n),), exact=ex), [o], hops, '%s U=%s %s%s %s' % (desc, u, c, a, vs), [v] if v else VS, desc['all'])


@functools.lru_cache(None)
def pair_ops(dim):
    rs = {1: ['E', 'I'], 2: ['E', 'C2', 'C4', 'Mx', 'Md']}[dim]
    us = ['0', 'y', 'r', 'x', 'z']
    return [(r, us[(2 * i + 3 * j) % len(us)], c, a) for i, r in enumerate(rs) for j, (c, a) in enumerate(FLAGS)]


def pair(desc, R):
    dim = desc['dim']
    al = pair_ops(dim)
    o1 = p16.make(dim, *al[desc['i']], 2)
    for j in range(desc['i'], len(al)):
        if dim == 2 and (desc['i'] + j) % 2 and not desc['all']:
            continue
        o2 = p16.make(dim, *al[j], 2)
        hops = [('a', 'a', v) for v in VECS[dim][j % 2]]
        run(R, dict(dim=dim, norbs=(('a', 2),)), [o1, o2], hops, '%s %s' % (al[desc['i']], al[j]), [VS[(3 * desc['i'] + 2 * j) % len(VS)]] if not desc['all'] else VS)


def empty(desc, R):
    """no symmetries, conserved quantities only"""
    for nm in ('chain', 'ssh2', 'uneq', 'square', 'lieb'):
        d = systems()[nm]
        for h in subsets(range(len(d['hops'])), 1, 2):
            for ops in ([], [o for o in d['ops'] if isinstance(o[0], F.Gen)], [gen(np.diag([(-1.) ** i for i in range(sum(n for _, n in d['norbs']))]), np.zeros((d['dim'], d['dim'])))]):
                run(R, d, ops, [d['hops'][i] for i in h], '%s %s %d' % (nm, h, len(ops)), VS[:9])


def bad(desc, R):
    sq = systems()['square']
    oc = systems()['octa']
    R.state(0)
    R.fails(ValueError, 'floating rotations in symbolic form', lambda: bloch_family(oc['hops'], [oc['ops'][0][1]], oc['norbs']))
    R.state(1)
    R.fails(ValueError, 'continuous rotations', lambda: bloch_family(sq['hops'], [ContinuousGroupGenerator(p16.L2, S[2])], sq['norbs']))
    R.fails(ValueError, 'continuous rotations', lambda: bloch_family(sq['hops'], [sq['ops'][0][1], ContinuousGroupGenerator(p16.L2, None)], sq['norbs'], bloch_model=True))
    for nb in ({'a': 2}, {('a', 2)}, None):
        R.state(str(nb))
        R.fails(ValueError, 'unordered orbital numbers', lambda: bloch_family(sq['hops'], [sq['ops'][0][1]], nb))
    R.fails(Exception, 'mixed dimensions', lambda: bloch_family([('a', 'a', (1, 0)), ('a', 'a', (1,))], [sq['ops'][0][1]], sq['norbs']))
    R.fails(Exception, 'wrong size of the action', lambda: bloch_family([('a', 'a', (1, 0))], [op(C4, np.eye(3))[1]], sq['norbs']))
    R.fails(KeyError, 'unknown site', lambda: bloch_family([('a', 'q', (1, 0))], [sq['ops'][0][1]], sq['norbs']))


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
