"""P16: generated continuum families are exactly the symmetric Hamiltonians."""
import functools
import itertools

import numpy as np
import scipy.linalg as la
import sympy

from mc import families as F
from mc.core import rot2, rot3, spin_mats, expih, unit, herm, subsets
from mc.checks.p08 import exact, FLAGS
from mc.checks.p10 import su2, spinrep
from qsymm.groups import PointGroupElement, ContinuousGroupGenerator
from qsymm.hamiltonian_generator import continuum_hamiltonian, continuum_variables
from qsymm.model import Model

ASSUMPTIONS = ['at least one symmetry is given and every symmetry has its Hilbert-space action set (the dimension of the family is read off from it)',
               'prettified families (documented as possibly unstable) are compared for operations whose entries are simple numbers only',
               'ranks are decided with relative tolerance 1e-8 for the reference, 1e-6 for members']
BOUNDS = {'quick': 'dimensions 0-3, matrices 1-4: every single operation of 7 (1D: 2, 2D: 9, 3D: 9) rotations x 3-7 Hilbert-space parts x 4 classes; all pairs of 28 2D and 20 1D operations, all subsets of generators of 24 groups with spin or orbital representations, continuous rotations and conserved quantities alone and with discrete ones; total powers 0-4 and lists, 9 restrictions of single powers, 8 forms of momentum names; every order of up to 3 symmetries, redundant copies, products, dense/sparse solver, prettified, list/tuple/set/iterator',
          'thorough': 'additional powers (up to 4 in 2D, 3 in 3D), all pairs of 60 operations, all pairs of 3D operations, generic basis changes everywhere'}

S = [2 * s for s in spin_mats(0.5)]
S0 = np.eye(2)
P1 = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]])
R3 = np.sqrt(3) / 2


# ------------------------------------------------------------ alphabets

@functools.lru_cache(None)
def rlist(dim):
    """name -> (float matrix, matrix supplied, simple?)"""
    if dim == 0:
        return {'E': (np.zeros((0, 0)), np.zeros((0, 0)), True)}
    if dim == 1:
        return {'E': (np.eye(1), np.eye(1, dtype=int), True), 'I': (-np.eye(1), -np.eye(1, dtype=int), True)}
    ints = lambda m: np.array(np.round(m), int)  # noqa: E731
    if dim == 2:
        c = {n: rot2(2 * np.pi / n) for n in (2, 3, 4, 6, 8)}
        d = {'E': (np.eye(2), np.eye(2, dtype=int), True), 'C2': (c[2], ints(c[2]), True), 'C4': (c[4], ints(c[4]), True), 'Mx': (np.diag([-1., 1]), np.diag([-1, 1]), True),
             'Md': (np.array([[0., 1], [1, 0]]), np.array([[0, 1], [1, 0]]), True), 'C3': (c[3], exact(c[3]), True), 'C3f': (c[3], c[3], True), 'C6': (c[6], exact(c[6]), True), 'C8f': (c[8], c[8], False),
             'Mg': (rot2(0.7) @ np.diag([1, -1]), rot2(0.7) @ np.diag([1, -1]), False)}
        return d
    c4, c3 = rot3([0, 0, 1], np.pi / 2), rot3([1, 1, 1], 2 * np.pi / 3)
    d = {'E': np.eye(3), 'I': -np.eye(3), 'C4': c4, 'C3': c3, 'C2x': np.diag([1., -1, -1]), 'M': np.diag([1., 1, -1]), 'S4': -c4}
    d = {k: (m, ints(m), True) for k, m in d.items()}
    h = rot3([0, 0, 1], 2 * np.pi / 3)
    d['C3z'] = (h, exact(h), True)
    g = rot3([1, 2, 3], 0.9)
    d['Cg'] = (g, g, False)
    return d


@functools.lru_cache(None)
def ulist(n):
    if n == 1:
        return {'1': np.eye(1), 'i': 1j * np.eye(1), 'w': np.exp(0.4j) * np.eye(1)}
    if n == 2:
        return {'0': S0, 'x': S[0], 'y': S[1], 'z': S[2], 'r': expih(S[2] / 2, np.pi / 2), 'xy': (S[0] + S[1]) / np.sqrt(2), 'u': unit(2, 5)}
    if n == 3:
        return {'0': np.eye(3), 'p': P1, 'd': np.diag([1, -1, 1]), 'u': unit(3, 4)}
    if n > 4:
        return {'0': np.eye(n), 'd': np.diag([(-1.) ** (i * i // 3) for i in range(n)]), 'u': unit(n, 6)}
    return {'0': np.eye(4), 'zx': np.kron(S[2], S[0]), 'yy': np.kron(S[1], S[1]), '0y': np.kron(S0, S[1]), 'u': unit(4, 3)}


def make(dim, rn, un, c, a, n):
    m, r, simple = rlist(dim)[rn]
    U = ulist(n)[un]
    return F.Op(m, c, a, U), PointGroupElement(r, c, a, U), simple and un not in ('u', 'w')


# ------------------------------------------------------------ groups with representations

def spin_ops(dim, s, names, flags=None):
    """proper part acts on spin s, inversion trivially"""
    out = []
    for nm in names:
        m, r, simple = rlist(dim)[nm]
        d = len(m)
        M = np.eye(3)
        M[:d, :d] = m
        if np.linalg.det(m) < 0 and d == 2:
            M[2, 2] = 1
        U = su2(M * np.sign(np.linalg.det(M)), s) if d else np.eye(int(2 * s + 1))
        out.append((F.Op(m, False, False, U), PointGroupElement(r, False, False, U), simple))
    return out


def tr_op(dim, s):
    sy = spin_mats(s)[1]
    U = expih(sy, np.pi)
    return F.Op(np.eye(dim), True, False, U), PointGroupElement(np.eye(dim, dtype=int), True, False, U), True


def vec_ops(dim, names, extra=None):
    """orbitals transforming as a vector"""
    out = []
    for nm in names:
        m, r, simple = rlist(dim)[nm]
        out.append((F.Op(m, False, False, m), PointGroupElement(r, False, False, m), simple))
    return out


def onsite(dim, c, a, U):
    return F.Op(np.eye(dim), c, a, U), PointGroupElement(np.eye(dim, dtype=int) if dim else np.zeros((0, 0)), c, a, U), True


L2 = np.array([[0, -1j], [1j, 0]])
L3 = spin3 = None


def rotgen(dim, i=2):
    """library convention: real-space generator, (L_i)_jk = -i eps_ijk"""
    if dim == 2:
        return L2
    L = np.zeros((3, 3), complex)
    j, k = [(1, 2), (2, 0), (0, 1)][i]
    L[j, k], L[k, j] = -1j, 1j
    return L


def cont(R, U):
    return F.Gen(R, U), ContinuousGroupGenerator(R, U), True


@functools.lru_cache(None)
def groups():
    """name -> (dim, list of (ref op, library op, simple))"""
    g = {}
    h = 0.5
    g['1D spin'] = (1, [onsite(1, True, False, 1j * S[1]), (F.Op(-np.eye(1), False, False, 1j * S[0]), PointGroupElement(-np.eye(1, dtype=int), False, False, 1j * S[0]), True), onsite(1, False, True, S[2]), onsite(1, True, True, S[0])])
    g['C4v spin'] = (2, spin_ops(2, h, ['C4', 'Mx', 'Md']) + [tr_op(2, h)])
    g['C6v spin'] = (2, spin_ops(2, h, ['C6', 'Mx']) + [tr_op(2, h)])
    g['C3f spin'] = (2, spin_ops(2, h, ['C3f', 'Mx']) + [tr_op(2, h)])
    g['C8f spin'] = (2, spin_ops(2, h, ['C8f', 'Mg']) + [tr_op(2, h)])
    g['C4v spin3/2'] = (2, spin_ops(2, 1.5, ['C4', 'Mx']) + [tr_op(2, 1.5)])
    g['C4v p'] = (2, vec_ops(2, ['C4', 'Mx']) + [onsite(2, True, False, S0), onsite(2, True, True, S0)])
    g['C6v p'] = (2, vec_ops(2, ['C6', 'Mx']) + [onsite(2, True, False, S0)])
    g['Oh spin'] = (3, spin_ops(3, h, ['C4', 'C3', 'I']) + [tr_op(3, h)])
    g['Oh spin1'] = (3, spin_ops(3, 1, ['C4', 'C3', 'I']))
    g['Oh p'] = (3, vec_ops(3, ['C4', 'C3', 'M']) + [onsite(3, True, False, np.eye(3))])
    g['D3 spin'] = (3, spin_ops(3, h, ['C3z', 'C2x', 'M']))
    U = expih(S[2] / 2, 0.9)
    g['Cg spin'] = (3, [(F.Op(rlist(3)['Cg'][0], False, False, su2(rlist(3)['Cg'][0])), PointGroupElement(rlist(3)['Cg'][1], False, False, su2(rlist(3)['Cg'][0])), False), tr_op(3, h)])
    # parity doublets (Dirac / BHZ)
    tz = np.kron(S[2], S0)
    sp = lambda m: np.kron(S0, su2(m))  # noqa: E731
    C4 = rlist(3)['C4'][0]
    C3 = rlist(3)['C3'][0]
    g['BHZ'] = (2, [(F.Op(np.diag([-1., -1]), False, False, tz), PointGroupElement(-np.eye(2, dtype=int), False, False, tz), True), onsite(2, True, False, np.kron(S0, 1j * S[1])),
                    (F.Op(rlist(2)['C4'][0], False, False, np.kron(la.block_diag(1, 1j), expih(S[2] / 2, np.pi / 2))), PointGroupElement(rlist(2)['C4'][1], False, False, np.kron(la.block_diag(1, 1j), expih(S[2] / 2, np.pi / 2))), True)])
    g['Dirac'] = (3, [(F.Op(-np.eye(3), False, False, tz), PointGroupElement(-np.eye(3, dtype=int), False, False, tz), True), onsite(3, True, False, np.kron(S0, 1j * S[1])),
                      (F.Op(C4, False, False, sp(C4)), PointGroupElement(np.array(np.round(C4), int), False, False, sp(C4)), True), (F.Op(C3, False, False, sp(C3)), PointGroupElement(np.array(np.round(C3), int), False, False, sp(C3)), True)])
    g['0D'] = (0, [onsite(0, True, False, 1j * S[1]), onsite(0, True, True, S[0]), onsite(0, False, True, S[2]), cont(None, S[2]), onsite(0, True, False, S[0])])
    g['0D 4'] = (0, [onsite(0, True, False, np.kron(S0, 1j * S[1])), onsite(0, False, True, np.kron(S[2], S0)), cont(None, np.kron(S0, S[2])), onsite(0, True, True, np.kron(S[0], S0))])
    # continuous rotations
    for nm, s in (('0', 0), ('1/2', .5), ('1', 1)):
        J = spin_mats(s)
        g['SO2 ' + nm] = (2, [cont(L2, J[2]), onsite(2, True, False, expih(J[1], np.pi)), cont(None, J[2] + 2 * np.eye(len(J[2]))), (F.Op(np.diag([-1., 1]), False, False, expih(J[0], np.pi)), PointGroupElement(np.diag([-1, 1]), False, False, expih(J[0], np.pi)), True)])
        g['SO3 ' + nm] = (3, [cont(rotgen(3, i), J[i]) for i in range(3)] + [(F.Op(-np.eye(3), False, False, np.eye(len(J[0]))), PointGroupElement(-np.eye(3, dtype=int), False, False, np.eye(len(J[0]))), True)])
        g['axial ' + nm] = (3, [cont(rotgen(3, 2), J[2]), cont(rotgen(3, 2), -J[2]), onsite(3, True, False, expih(J[1], np.pi)), (F.Op(np.diag([1., -1, -1]), False, False, expih(J[0], np.pi)), PointGroupElement(np.diag([1, -1, -1]), False, False, expih(J[0], np.pi)), True)])
    g['SO2 4'] = (2, [cont(L2, np.diag([.5, -.5, 1.5, -1.5])), onsite(2, True, False, np.kron(S0, 1j * S[1])), cont(None, np.kron(S[2], S0)), cont(None, np.kron(S0, S[2]))])
    g['cons'] = (1, [cont(None, S[2]), cont(None, S[0]), cont(None, herm(2, 3)), cont(np.zeros((1, 1)), S[1])])
    g['rot axis'] = (3, [cont(sum(x * rotgen(3, i) for i, x in enumerate((.6, 0, .8))), .6 * S[0] / 2 + .8 * S[2] / 2), tr_op(3, h), cont(None, .6 * S[0] / 2 + .8 * S[2] / 2)])
    g['prim'] = (2, spin_ops(2, h, ['C2', 'E']) + [onsite(2, True, True, S[0]), onsite(2, False, True, S[1])])
    g['N1 2D'] = (2, [make(2, r, u, c, a, 1) for r, u, c, a in (('C4', '1', 0, 0), ('Mx', '1', 0, 1), ('C2', '1', 1, 1), ('E', '1', 1, 0))])
    g['N1 3D'] = (3, [make(3, r, u, c, a, 1) for r, u, c, a in (('C4', '1', 0, 0), ('I', '1', 0, 1), ('C3', '1', 0, 0), ('E', '1', 1, 0))])
    return g


# ------------------------------------------------------------ comparing

KS = ('k_x', 'k_y', 'k_z')


def conj_basis(ops, V):
    """the same operations in another basis"""
    out = []
    for ref, lib, simple in ops:
        if isinstance(ref, F.Op):
            U = V @ ref.U @ (V.T if ref.c else V.conj().T)
            out.append((F.Op(ref.R, ref.c, ref.a, U), PointGroupElement(lib.R, ref.c, ref.a, U), False))
        else:
            U = V @ ref.U @ V.conj().T
            U = (U + U.conj().T) / 2
            out.append((F.Gen(ref.R, U), ContinuousGroupGenerator(lib.R, U), False))
    return out


@functools.lru_cache(4096)
def _allow(ap):
    def allowed(p):
        return all(e in a for e, a in zip(p, ap))
    return allowed


def allowed_fn(all_powers, dim):
    if all_powers is None:
        return lambda p: True
    ap = tuple(frozenset(range(a + 1)) if isinstance(a, int) else frozenset(a) for a in all_powers[:dim])
    return _allow(ap)


def degrees(tp):
    return list(range(tp + 1)) if isinstance(tp, int) else list(tp)


def reference(ops, dim, tp, all_powers=None):
    n = len(ops[0].U)
    mats = F.herm_basis(n)
    modes, parts = [], []
    for d in degrees(tp):
        ms, X = F.poly_ref(ops, dim, d, allowed_fn(all_powers, dim), mats)
        modes += ms
        parts.append(X)
    tot = np.zeros((sum(map(len, parts)), len(modes), n, n), complex)
    b = p = 0
    for X in parts:
        tot[b:b + len(X), p:p + X.shape[1]] = X
        b += len(X)
        p += X.shape[1]
    return modes, tot


def check_family(R, fam, ref, names, n, dim, label, info, tol=1e-6):
    modes, X0 = ref
    R.step()
    for m in fam:
        if not R.check(isinstance(m, Model) and tuple(s.name for s in m.momenta) == tuple(names), label + ': momenta', lambda: '%s: %s' % (info(), m.momenta)):
            return False
    X, err = F.arrays(fam, modes, tuple(names), n)
    if not R.check(err is None, label + ': terms', lambda: '%s: %s' % (info(), err)):
        return False
    R.trace()
    return F.compare(R, X, X0, label, info, tol)


def variants(R, desc, ops, dim, tp, info, which, all_powers=None):
    """run the generator in several equivalent ways"""
    refs = [o[0] for o in ops]
    libs = [o[1] for o in ops]
    n = len(refs[0].U)
    ref = reference(refs, dim, tp, all_powers)
    kw = {} if all_powers is None else {'all_powers': list(all_powers)}
    names = KS[:dim]
    for v in which:
        inf = lambda: '%s variant=%s' % (info, v)  # noqa: E731
        R.state(info, v)
        if v == 'plain':
            fam = continuum_hamiltonian(libs, dim, tp, **kw)
        elif v == 'sparse':
            fam = continuum_hamiltonian(libs, dim, tp, sparse_linalg=True, **kw)
        elif v == 'pretty':
            if not all(o[2] for o in ops):
                continue
            fam = continuum_hamiltonian(tuple(libs), dim, tp, prettify=True, **kw)
        elif v == 'prettydigits':
            if not all(o[2] for o in ops):
                continue
            fam = continuum_hamiltonian(tuple(libs), dim, tp, prettify=True, num_digits=8, **kw)
        elif v == 'reverse':
            fam = continuum_hamiltonian(libs[::-1], dim, tp, **kw)
        elif v == 'iter':
            fam = continuum_hamiltonian((x for x in libs), dim, tp, **kw)
        elif v == 'twice':
            fam = continuum_hamiltonian(libs + libs[:1], dim, tp, **kw)
        elif v == 'prod':
            pg = [x for x in libs if isinstance(x, PointGroupElement)]
            fam = continuum_hamiltonian(libs + [x * y for x, y in itertools.product(pg, repeat=2)][:9], dim, tp, **kw)
        elif v == 'names':
            fam = continuum_hamiltonian(libs, dim, tp, momenta=['p', 'q', 'r'], **kw)
            check_family(R, fam, ref, ('p', 'q', 'r')[:dim], n, dim, v, inf)
            continue
        elif v == 'perm':
            fam = continuum_hamiltonian(libs, dim, tp, momenta=['k_z', 'k_x', 'k_y'][:max(dim, 1)], **kw)
            check_family(R, fam, ref, ('k_z', 'k_x', 'k_y')[:dim], n, dim, v, inf)
            continue
        elif v == 'basis':
            V = unit(n, 2)
            o2 = conj_basis(ops, V)
            fam = continuum_hamiltonian([o[1] for o in o2], dim, tp, **kw)
            X = np.einsum('ij,bpjk,lk->bpil', V, ref[1], V.conj())
            check_family(R, fam, (ref[0], X), names, n, dim, v, inf)
            continue
        elif v == 'set':
            if any(isinstance(r, F.Gen) for r in refs) or len(set(libs)) < len(libs):
                continue
            fam = continuum_hamiltonian(set(libs), dim, tp, **kw)
        check_family(R, fam, ref, names, n, dim, v, inf, 1e-5 if 'pretty' in v else 1e-6)


def cases(tier):
    th = tier == 'thorough'
    out = []
    for dim in (0, 1, 2, 3):
        for n in (1, 2, 3, 4):
            rs = list(rlist(dim))
            if dim == 3 and n > 2 and not th:
                rs = rs[:5]
            for r in rs:
                out.append({'k': 'single', 'dim': dim, 'n': n, 'r': r, 'tp': (2 if dim < 3 or n < 3 else 1) + (1 if th and dim * n < 9 else 0)})
    for i in range(len(pair_ops(2))):
        out.append({'k': 'pair', 'dim': 2, 'i': i, 'tp': 2})
    for i in range(len(pair_ops(1))):
        out.append({'k': 'pair', 'dim': 1, 'i': i, 'tp': 3})
    if th:
        for i in range(len(pair_ops(3))):
            out.append({'k': 'pair', 'dim': 3, 'i': i, 'tp': 2})
    for nm, (dim, ops) in sorted(groups().items()):
        n = len(ops[0][0].U)
        for s in subsets(range(len(ops)), 1):
            out.append({'k': 'group', 'g': nm, 's': list(s), 'tp': (3 if dim < 3 and n < 4 else 2) - (1 if dim == 3 and n > 3 else 0) + (1 if th and n < 4 else 0), 'full': len(s) in (2, len(ops)) or th})
    out += [{'k': 'powers', 'g': nm, 'full': th} for nm in ('C4v spin', 'C6v p', 'SO2 1/2', 'Oh spin', 'SO3 0', 'N1 2D', 'N1 3D', '1D spin', 'prim', 'C3f spin', '0D', 'axial 1')]
    out += [{'k': 'vars', 'dim': d} for d in (0, 1, 2, 3)]
    return out


@functools.lru_cache(None)
def pair_ops(dim):
    rs = {1: ['E', 'I'], 2: ['E', 'C2', 'C4', 'Mx', 'C3', 'Mg', 'Md'], 3: ['E', 'I', 'C4', 'C3']}[dim]
    us = ['0', 'y', 'xy', 'r', 'u']
    return [(r, us[(i + j + (3 * j if dim == 1 else 0)) % len(us)], c, a) for i, r in enumerate(rs) for j, (c, a) in enumerate(FLAGS)]


def single(desc, R):
    dim, n, r = desc['dim'], desc['n'], desc['r']
    for i, (u, (c, a)) in enumerate(itertools.product(ulist(n), FLAGS)):
        o = make(dim, r, u, c, a, n)
        ws = ['sparse', 'pretty', 'names', 'basis', 'twice', 'perm', 'prettydigits']
        which = ['plain', ws[i % len(ws)]]
        if dim == 3 and n == 4:
            which = which[:1] if i % 4 else which[1:]
        variants(R, desc, [o], dim, desc['tp'], '%s U=%s %s%s' % (desc, u, c, a), which)


def pair(desc, R):
    dim = desc['dim']
    al = pair_ops(dim)
    o1 = make(dim, *al[desc['i']], 2)
    for j in range(desc['i'], len(al)):
        o2 = make(dim, *al[j], 2)
        ws = ['sparse', 'pretty', 'iter', 'prod', 'set', 'reverse']
        variants(R, desc, [o1, o2], dim, desc['tp'], '%s %s' % (al[desc['i']], al[j]), ['plain' if j % 2 else ws[(desc['i'] + j) // 2 % len(ws)]])


def group(desc, R):
    dim, ops = groups()[desc['g']]
    ops = [ops[i] for i in desc['s']]
    n = len(ops[0][0].U)
    which = ['plain', 'pretty', 'reverse']
    if desc['full']:
        which += ['sparse', 'prod', 'basis', 'names', 'perm', 'iter', 'set', 'prettydigits']
    if dim == 3 and n > 2:
        which = ['plain', 'pretty', 'basis'] if desc['full'] else ['pretty']
    variants(R, desc, ops, dim, desc['tp'], '%s %s' % (desc['g'], desc['s']), which)
    if len(ops) == 3 and n < 4 and dim < 3:
        for p in itertools.permutations(range(3)):
            variants(R, desc, [ops[i] for i in p], dim, 2, '%s %s' % (desc['g'], [desc['s'][i] for i in p]), ['plain'])


POWERS = {0: [None, [], [2]], 1: [None, [1], [[0, 2]], [[1, 3]], [0], [2, 5], [[]]],
          2: [None, [1, 1], [[0, 2], [0, 2]], [2, [1]], [[1, 3], 0], [0, 2, 7], [[2], [0, 1, 2]], [[0], [0]], [3, [0, 1]]],
          3: [None, [1, 1, 1], [[0, 2], [0, 2], [0, 2]], [2, 1, 0], [[0], 2, [1]], [2, 2, [0]], [[1], [1], [0, 1]]]}
TOTALS = [0, 1, 2, 3, 4, [0], [1], [2], [3], [0, 2], [2, 1], [1, 3], [], [4]]


def powers(desc, R):
    """all restrictions of total and single powers"""
    dim, ops = groups()[desc['g']]
    sel = [ops[:1], ops[-2:]] + ([ops] if desc['full'] else [])
    for tp, ap in itertools.product(TOTALS, POWERS[dim]):
        if dim == 3 and (tp == 4 or tp == [4]) and not desc['full']:
            continue
        if dim == 3 and ap is None and tp in (3, 4, [1, 3]) and not desc['full']:
            continue
        for i, o in enumerate(sel):
            variants(R, desc, o, dim, tp, '%s %d total=%s single=%s' % (desc['g'], i, tp, ap), ['plain'] if i else ['pretty'], ap)


def vars(desc, R):
    """lists of monomials and forms of the momentum names"""
    dim = desc['dim']
    nc = list(sympy.symbols('k_x k_y k_z', commutative=False))
    cm = list(sympy.symbols('k_x k_y k_z'))
    for tp in range(6):
        for ap in POWERS[dim]:
            for names, mom in ((KS, None), (KS, list(KS)), (KS, nc), (KS, cm), (KS, tuple(KS)), (('p', 'q', 's'), ['p', 'q', 's']), (('k_y', 'k_z', 'k_x'), [1, 2, 0]), (('k_z', 'k_y', 'k_x'), ['k_z', 'k_y', 'k_x'])):
                R.state(dim, tp, str(ap), str(mom))
                R.step()
                kw = {} if mom is None else {'momenta': mom}
                if ap is not None:
                    kw['all_powers'] = [x if isinstance(x, int) else list(x) for x in ap]
                got = continuum_variables(dim, tp, **kw)
                al = allowed_fn(ap, dim)
                want = sorted(p for p in F.monos(dim, tp) if al(p))
                try:
                    g = [F.parse_mono(k, tuple(names[:dim])) for k in got]
                except ValueError as ex:
                    R.check(False, 'monomials', '%s %s %s %s: %s' % (dim, tp, ap, mom, ex))
                    continue
                R.check(sorted(x[0] for x in g) == want and all(x[1] == 1 for x in g), 'monomials', lambda: 'dim=%s total=%s single=%s momenta=%s: %s' % (dim, tp, ap, mom, got))
                R.check(all(s.is_commutative for k in got for s in sympy.sympify(k).free_symbols), 'monomials commute', str(mom))
    o = make(dim, 'E', 'y', True, False, 2)
    ref = reference([o[0]], dim, 2)
    for mom, names in ((list(KS), KS), (nc, KS), (cm, KS), (tuple(nc), KS), (['p', 'q', 's'], ('p', 'q', 's')), (list(sympy.symbols('p q s')), ('p', 'q', 's')), (list(sympy.symbols('p q s', commutative=False)), ('p', 'q', 's')), (['k_1', 'k_2', 'k_3'][:max(1, dim)], ('k_1', 'k_2', 'k_3'))):
        for kw in ({}, {'prettify': True}, {'sparse_linalg': True}):
            R.state(dim, str(mom), str(kw))
            fam = continuum_hamiltonian([o[1]], dim, 2, momenta=mom, **kw)
            check_family(R, fam, ref, tuple(names)[:dim], 2, dim, 'names', lambda: 'dim=%d momenta=%s %s' % (dim, mom, kw))
    if dim > 1:
        R.fails(ValueError, 'too few single powers', lambda: continuum_hamiltonian([o[1]], dim, 2, all_powers=[2] * (dim - 1)))
        R.fails(Exception, 'too few momenta', lambda: continuum_hamiltonian([o[1]], dim, 2, momenta=['k_x']))


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
