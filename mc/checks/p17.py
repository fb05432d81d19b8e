"""P17: generated pairing families are exactly the symmetric pairing terms."""
import copy
import itertools

import numpy as np
import scipy.linalg as la
import sympy

from mc import families as F
from mc.core import subsets, unit, dense
from mc.checks import p16
from mc.checks.p08 import FLAGS
from qsymm.groups import PointGroupElement
from qsymm.hamiltonian_generator import continuum_pairing
from qsymm.model import Model

ASSUMPTIONS = ['symmetries act on the normal state and have their Hilbert-space action set',
               'for continuous generators the phase entry is the charge offset that is added to the hole block; it is always given explicitly here because the documented default (phase factor 1) does not define it',
               'the returned models may list more momenta than the dimension (default momenta); their keys contain the first ones only']
BOUNDS = {'quick': 'dimensions 0-3, 1-3 orbitals (4-6 in low dimension): every single operation of the P16 alphabets x 3 phases x both particle-hole squares, all pairs of 28 2D operations, all subsets of generators of the P16 groups (up to 3 orbitals) with all sign assignments of the phases; total powers 0-3 and lists, restrictions of single powers, momentum names, symmetry order, redundancy, prettified, sparse solver, list/tuple/iterator',
          'thorough': 'additional powers, pairs of 1D and 3D operations, 4 orbitals'}

KS = ('k_x', 'k_y', 'k_z')


def bdg_mats(n):
    z = np.zeros((n, n))
    return [np.block([[z, m], [m.conj().T, z]]) for m in F.all_mats(n, n)]


def bdg_ops(ops, phases, ph_square, dim):
    n = len(ops[0].U)
    out = []
    for op, f in zip(ops, phases):
        if isinstance(op, F.Op):
            out.append(F.Op(op.R, op.c, op.a, la.block_diag(op.U, f * op.U.conj())))
        else:
            out.append(F.Gen(op.R, la.block_diag(op.U, -op.U.conj() + f * np.eye(n))))
    P = np.kron(np.array([[0, 1], [ph_square, 0]]), np.eye(n))
    out.append(F.Op(np.eye(dim), True, True, P))
    return out


def reference(ops, phases, ph_square, dim, tp, all_powers=None):
    n = len(ops[0].U)
    bops = bdg_ops(ops, phases, ph_square, dim)
    modes, parts = [], []
    for d in p16.degrees(tp):
        ms, X = F.poly_ref(bops, dim, d, p16.allowed_fn(all_powers, dim), bdg_mats(n))
        modes += ms
        parts.append(X)
    tot = np.zeros((sum(map(len, parts)), len(modes), n, n), complex)
    b = p = 0
    for X in parts:
        tot[b:b + len(X), p:p + X.shape[1]] = X[:, :, :n, n:]
        b += len(X)
        p += X.shape[1]
    return modes, tot


def snapshot(libs):
    return [(copy.deepcopy(x.U), None if x.R is None else np.array(x.R).astype(complex).tolist(), getattr(x, 'conjugate', 0), getattr(x, 'antisymmetry', 0), getattr(x, '_strict_eq', 0)) for x in libs]


def same_snap(a, b):
    return len(a) == len(b) and all(np.array_equal(x[0], y[0]) and x[1:] == y[1:] for x, y in zip(a, b))


def check_family(R, fam, ref, names, n, dim, label, info, tol=1e-6):
    modes, X0 = ref
    R.step()
    for m in fam:
        ok = isinstance(m, Model) and tuple(s.name for s in m.momenta)[:dim] == tuple(names)[:dim]
        if not R.check(ok, label + ': momenta', lambda: '%s: %s' % (info(), m.momenta)):
            return
    X, err = F.arrays(fam, modes, tuple(names), n)
    if R.check(err is None, label + ': terms', lambda: '%s: %s' % (info(), err)):
        R.trace()
        F.compare(R, X, X0, label, info, tol)


def variants(R, ops, phases, sq, dim, tp, info, which, all_powers=None, omit=False):
    refs, libs = [o[0] for o in ops], [o[1] for o in ops]
    n = len(refs[0].U)
    ref = reference(refs, phases, sq, dim, tp, all_powers)
    base = {'ph_square': sq}
    if not omit:
        base['phases'] = tuple(phases)
    if all_powers is not None:
        base['all_powers'] = list(all_powers)
    names = KS[:dim]
    for v in which:
        inf = lambda: '%s phases=%s ph_square=%d variant=%s' % (info, phases, sq, v)  # noqa: E731
        R.state(info, tuple(phases), sq, v)
        kw = dict(base)
        snap = snapshot(libs)
        nm, rf = names, ref
        if 'pretty' in v and not (all(o[2] for o in ops) and all(abs(complex(f).real) in (0, 1) for f in phases)):
            continue
        arg = libs
        if v == 'sparse':
            kw['sparse_linalg'] = True
        elif v == 'pretty':
            kw['prettify'] = True
        elif v == 'prettydigits':
            kw.update(prettify=True, num_digits=8)
        elif v == 'tuple':
            arg = tuple(libs)
        elif v == 'iter':
            arg = (x for x in libs)
        elif v == 'reverse':
            arg = libs[::-1]
            if not omit:
                kw['phases'] = list(phases)[::-1]
        elif v == 'twice':
            arg = libs + libs[:1]
            if not omit:
                kw['phases'] = np.array(list(phases) + list(phases[:1]))
        elif v == 'names':
            nm = ('p', 'q', 'r')
            kw['momenta'] = list(nm)
        elif v == 'names2':
            nm = ('k_1', 'k_2', 'k_3')[:dim]
            kw['momenta'] = sympy.symbols(nm) if dim else ()
        elif v == 'perm':
            nm = ('k_z', 'k_x', 'k_y')
            kw['momenta'] = list(nm)
        elif v == 'basis':
            V = unit(n, 2)
            arg = [o[1] for o in p16.conj_basis(ops, V)]
            rf = (ref[0], np.einsum('ij,bpjk,kl->bpil', V, ref[1], V.T))
        fam = continuum_pairing(arg, dim, tp, **kw)
        R.check(same_snap(snap, snapshot(libs)), v + ': symmetries changed', inf)
        check_family(R, fam, rf, nm[:dim], n, dim, v, inf, 1e-5 if 'pretty' in v else 1e-6)


WS = ['sparse', 'pretty', 'names', 'basis', 'twice', 'perm', 'prettydigits', 'tuple', 'iter', 'names2', 'reverse']


def cases(tier):
    th = tier == 'thorough'
    out = []
    for dim in (0, 1, 2, 3):
        for n in (1, 2, 3) + ((4,) if th else ()):
            for r in p16.rlist(dim):
                if dim == 3 and n > 2 and r not in ('E', 'I', 'C4', 'C3') and not th:
                    continue
                out.append({'k': 'single', 'dim': dim, 'n': n, 'r': r, 'all': th, 'tp': (2 if dim < 2 or n < 2 else 1) + (1 if th and dim * n < 9 and n < 4 else 0)})
    for dim, n, r, tp in ((0, 5, 'E', 0), (1, 5, 'E', 1), (1, 5, 'I', 0), (0, 6, 'E', 0), (1, 4, 'I', 1)):
        out.append({'k': 'single', 'dim': dim, 'n': n, 'r': r, 'all': th, 'tp': tp})
    for d in (2,) + ((1, 3) if th else ()):
        out += [{'k': 'pair', 'dim': d, 'i': i, 'tp': 1} for i in range(len(p16.pair_ops(d)))]
    for nm, (dim, ops) in sorted(p16.groups().items()):
        n = len(ops[0][0].U)
        if n > (4 if th else 3):
            continue
        for s in subsets(range(len(ops)), 1):
            if len(s) > 3 and not th:
                continue
            out.append({'k': 'group', 'g': nm, 's': list(s), 'all': th, 'tp': (2 if dim < 3 and n < 3 else 1) + (1 if th and n < 4 else 0)})
    out += [{'k': 'powers', 'g': nm, 'full': th} for nm in ('C4v spin', 'SO2 1/2', 'Oh spin', 'SO3 1/2', 'N1 2D', 'N1 3D', '1D spin', 'prim', 'C3f spin', '0D', 'axial 1/2', 'C4v p')]
    out.append({'k': 'known'})
    out.append({'k': 'bad'})
    return out


def single(desc, R):
    dim, n, r = desc['dim'], desc['n'], desc['r']
    i = 0
    for u, (c, a), sq in itertools.product(p16.ulist(n), FLAGS, (1, -1)):
        o = p16.make(dim, r, u, c, a, n)
        for f in (1, -1, (1j, np.exp(0.7j))[i // 2 % 2]):
            i += 1
            if not desc.get('all') and (n > 2 and i % 3 or n == 2 and dim > 1 and (i + i // 6) % (dim + 1)):
                continue
            variants(R, [o], (f,), sq, dim, desc['tp'], '%s U=%s %s%s' % (desc, u, c, a), ['plain' if i % 3 else WS[i // 3 % len(WS)]], omit=f == 1 and i % 4 < 2)


def pair(desc, R):
    dim = desc['dim']
    al = p16.pair_ops(dim)
    o1 = p16.make(dim, *al[desc['i']], 2)
    for j in range(desc['i'], len(al)):
        o2 = p16.make(dim, *al[j], 2)
        ph = [(1, 1), (1, -1), (-1, 1), (1j, 1), (-1, np.exp(0.7j))][(desc['i'] + j) % 5]
        for sq in (1, -1):
            variants(R, [o1, o2], ph, sq, dim, desc['tp'], '%s %s' % (al[desc['i']], al[j]), ['plain' if (j + sq) % 3 else WS[(desc['i'] + j) % len(WS)]])


def group(desc, R):
    dim, ops = p16.groups()[desc['g']]
    ops = [ops[i] for i in desc['s']]
    i = 0
    al = [(1, -1) if isinstance(o[0], F.Op) else (0, 1, -1, .5, -2) if len(ops) == 1 else (0, (1, -1)[j % 2]) for j, o in enumerate(ops)]
    for ph in itertools.product(*al):
        for sq in (1, -1):
            n = len(ops[0][0].U)
            if n > 2 and (i + i // 4) % 2 and not desc['all']:
                i += 1
                continue
            which = ['plain', WS[i % len(WS)]] if len(ops) == 1 or desc['all'] else [('plain', 'pretty', WS[i % len(WS)])[i % 3]]
            i += 1
            variants(R, ops, ph, sq, dim, desc['tp'], '%s %s' % (desc['g'], desc['s']), which)


def powers(desc, R):
    dim, ops = p16.groups()[desc['g']]
    j = 0
    for tp, ap in itertools.product(p16.TOTALS, p16.POWERS[dim]):
        top = tp if isinstance(tp, int) else max(tp, default=0)
        if top > (2 if dim == 3 else 3) and not desc['full']:
            continue
        o = (ops[:1], ops[-2:])[j % 2]
        ph = [(1 if isinstance(x[0], F.Op) else 0) * (-1 if j % 3 == 0 and i == 0 else 1) for i, x in enumerate(o)]
        variants(R, o, tuple(ph), (1, -1)[j // 2 % 2], dim, tp, '%s total=%s single=%s' % (desc['g'], tp, ap), ['plain' if j % 4 else 'pretty'], ap)
        j += 1


def known(desc, R):
    """textbook pairings: singlets are even and triplets odd in momentum, orbital parity follows the inversion phase"""
    s = p16.S
    t = p16.tr_op(1, .5)
    I = (F.Op(-np.eye(3), False, False, np.eye(2)), PointGroupElement(-np.eye(3, dtype=int), False, False, np.eye(2)), True)
    for sq, f, tp in itertools.product((1, -1), (1, -1), (0, 1, 2, 3)):
        fam = continuum_pairing([I[1]], 3, tp, phases=(f,), ph_square=sq)
        for m in fam:
            R.state(sq, f, tp, str(m))
            R.step()
            for k, v in m.items():
                ex, _ = F.parse_mono(k, KS)
                par = (-1) ** sum(ex)
                v = dense(v)
                R.check(par == f, 'parity', lambda: '%s: %s' % (k, v))
                R.check(np.allclose(v.T, -sq * par * v), 'exchange symmetry', lambda: '%s: %s' % (k, v))
        # number of real parameters: (anti)symmetric complex matrices times monomials
        want = sum((2 * (1 if -sq * (-1) ** d < 0 else 3)) * (d + 1) * (d + 2) // 2 for d in range(tp + 1) if (-1) ** d == f)
        R.check(len(fam) == want, 'count', lambda: '%d %d %d: %d' % (sq, f, tp, len(fam)))
        R.trace()


def bad(desc, R):
    o = p16.make(2, 'C4', 'r', False, False, 2)
    for sq in (0, 2, -2, 1j):
        R.state(str(sq))
        R.fails(ValueError, 'square of particle-hole', lambda: continuum_pairing([o[1]], 2, 1, ph_square=sq))


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)
