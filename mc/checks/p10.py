"""P10: group closure, subgroup enumeration and the predefined point groups."""
import itertools

import numpy as np
import sympy

from mc.core import closure, rot2, rot3, rnd, spin_mats, expih, close, unit
from mc.checks.p08 import rotations, FLAGS
from qsymm import groups as G
from qsymm.groups import PointGroupElement

ASSUMPTIONS = ['generating sets are nonempty and generate finite groups',
               'under strict comparison Hilbert-space parts that differ by a phase are the same']
BOUNDS = {'quick': 'all generating sets of one and two elements (all three-element sets for D4 without flags) of 1D, D4, D6 (floating, exact, lattice coordinates) with all flags and of Oh and D6h without flags, given as list, reversed list, list with repetitions, set, frozenset and tuple; strict closure of spin-1/2 and generic representations; all subsets of at least five of ten generators of groups of order up to 192; complete subgroup lattices of 14 groups of order <= 48; square, cubic, hexagonal with every combination of options and spins 0..2 and user matrices',
          'thorough': 'all pairs in Oh and D6h with flags, all triples in D4 with flags, all subsets of at least three of ten generators, subgroup lattices of 6 more groups up to order 96'}


def ekey(g, strict=False):
    k = (rnd(np.array(g.R).astype(float), 4), bool(g.conjugate), bool(g.antisymmetry))
    if strict:
        k += (None if g.U is None else ph(g.U),)
    return k


def ph(u):
    """canonical form of a matrix up to a phase"""
    f = u.ravel()
    i = np.argmax(np.abs(f) > 0.05)
    return rnd(u * np.conj(f[i]) / abs(f[i]), 4)


def refclose(els, strict=False):
    """closure of [(R, c, a, U)] under products; returns {key: element}"""
    def key(e):
        return (rnd(e[0], 4), e[1], e[2]) + ((None if e[3] is None else ph(e[3]),) if strict else ())

    def mul(x, y):
        u = None if x[3] is None or y[3] is None else x[3] @ (y[3].conj() if x[1] else y[3])
        return x[0] @ y[0], x[1] ^ y[1], x[2] ^ y[2], u
    out = {key(e): e for e in els}
    front = list(out.values())
    while front:
        new = []
        for x in front:
            for g in els:
                y = mul(x, g)
                k = key(y)
                if k not in out:
                    out[k] = y
                    new.append(y)
        front = new
        assert len(out) < 3000
    return out


def family(fam, flags=True, U=None):
    out = []
    for (m, r), (c, a) in itertools.product(rotations(fam), FLAGS if flags else FLAGS[:1]):
        u = None
        if U == 'spin':
            u = spinrep(m)
            if c:
                u = u @ TR
        out.append((PointGroupElement(r, c, a, u), (m, c, a, u)))
    return out


TR = np.array([[0, -1], [1, 0]], complex)


def spinrep(m):
    """spin-1/2 rotation for an orthogonal matrix (2D mirrors act as mirrors)"""
    d = len(m)
    if d < 3:
        M = np.eye(3)
        M[:d, :d] = m
        m = M
    p = m * np.sign(np.linalg.det(m))
    return su2(p)


def su2(p, s=0.5):
    w = np.arccos(np.clip((np.trace(p) - 1) / 2, -1, 1))
    S = spin_mats(s)
    if w < 1e-6:
        return np.eye(S.shape[1])
    if abs(w - np.pi) < 1e-6:
        val, vec = np.linalg.eigh((p + p.T) / 2)
        n = vec[:, -1]
    else:
        n = np.array([p[2, 1] - p[1, 2], p[0, 2] - p[2, 0], p[1, 0] - p[0, 1]])
        n = n / np.linalg.norm(n)
    return expih(np.tensordot(n, S, 1), w)


SUB = [('1D', True, None), ('D4', False, None), ('D4', 'T', None), ('D4', True, None), ('D6f', False, None), ('D6s', False, None), ('D6lat', False, None),
       ('D6f', 'T', None), ('D6s', 'T', None), ('D6f', True, None), ('Oh', False, None), ('D6hf', False, None), ('D6hs', False, None), ('D4', 'T', 'spin')]
SUBT = [('D6hf', 'T', None), ('Oh', 'T', None), ('D6lat', True, None), ('D6s', True, None), ('D6f', 'T', 'spin'), ('D6hs', 'T', None)]


def cases(tier):
    out = []
    for fam in ('1D', 'D4', 'D6f', 'D6s', 'D6lat'):
        for n in (1, 2):
            for part in range(1 if n == 1 else 4):
                out.append(dict(t='gen', fam=fam, flags=True, n=n, part=part, parts=1 if n == 1 else 4))
    out.append(dict(t='gen', fam='D4', flags=False, n=3, part=0, parts=1))
    out.append(dict(t='gen', fam='D4', flags=True, n=3, part=0, parts=16 if tier == 'quick' else 1))
    for fam in ('Oh', 'D6hf', 'D6hs'):
        for fl in ((False,) if tier == 'quick' else (False, True)):
            k = 16 if not fl else 64
            for part in range(k):
                if tier != 'quick' or fam != 'Oh' or part % 2 == 0:
                    out.append(dict(t='gen', fam=fam, flags=fl, n=2, part=part, parts=k))
    for fam in ('1D', 'D4', 'D6f', 'D6s'):
        for n in (1, 2):
            out.append(dict(t='strict', fam=fam, n=n))
    for s in SUB + (SUBT if tier != 'quick' else []):
        out.append(dict(t='sub', fam=s[0], flags=s[1], U=s[2]))
    for name in ('square', 'cubic', 'hex2', 'hex3'):
        for sy in ((True, False) if name.startswith('hex') else (None,)):
            out.append(dict(t='pre', name=name, sy=sy))
    out.append(dict(t='misc'))
    for part in range(16):
        out.append(dict(t='many', low=5 if tier == 'quick' else 3, part=part))
    return out


def run_case(desc, R):
    globals()['case_' + desc['t']](desc, R)


def forms(gens, i):
    """ways of writing down one generating set"""
    g = list(gens)
    yield 'set', set(g)
    alt = [('list', list(g)), ('reversed', g[::-1]), ('repeated', g + g[:1] + g), ('frozenset', frozenset(g)), ('tuple', tuple(g)), ('with identity', g + [g[0].identity()]),
           ('with inverse', [g[-1].inv()] + g)]
    yield alt[i % len(alt)]
    yield alt[(i + 3) % len(alt)]


def case_gen(desc, R):
    els = family(desc['fam'], desc['flags'])
    for i, sub in enumerate(itertools.combinations(range(len(els)), desc['n'])):
        if i % desc['parts'] != desc['part']:
            continue
        gens = [els[k][0] for k in sub]
        ref = refclose([els[k][1] for k in sub])
        for nm, gs in forms(gens, i // desc['parts']):
            before = list(gs)
            out = G.generate_group(gs)
            R.step()
            key = 'group %s %s %s' % (desc['fam'], sub, nm)
            ks = [ekey(g) for g in out]
            R.check(isinstance(out, set) and len(ks) == len(set(ks)) == len(ref), key, lambda: '%d elements instead of %d' % (len(ks), len(ref)))
            R.check(set(ks) == set(ref), key + ' elements')
            R.check(len(list(gs)) == len(before), key + ' argument changed')
        R.state(desc['fam'], desc['flags'], tuple(sorted(ref)))
        R.outcome(len(ref))
        R.trace()
    R.sample = dict(fam=desc['fam'], generators=str(gens), order=len(ref))


def case_many(desc, R):
    """Large generating sets of the largest groups: all subsets of ten given elements."""
    for fam, pool in (('Oh', [('r3', 0), ('r4', 0), ('i', 0), ('e', 1), ('e', 2), ('e', 3), ('m', 0), ('r2', 0), ('r4', 1), ('r3', 3)]),
                      ('D6hf', [('r6', 0), ('r3', 0), ('r2', 0), ('i', 0), ('e', 1), ('e', 2), ('e', 3), ('m', 0), ('r6', 1), ('m', 3)])):
        ax = dict(r3=(1, 1, 1) if fam == 'Oh' else (0, 0, 1), r4=(0, 0, 1), r6=(0, 0, 1), r2=(1, 1, 0) if fam == 'Oh' else (1, 0, 0), m=(1, 0, 0))
        els = []
        for nm, fl in pool:
            c, a = FLAGS[fl]
            m = np.eye(3) * (-1 if nm == 'i' else 1) if nm in 'ie' else np.eye(3) - 2 * np.diag(ax['m']) if nm == 'm' else rot3(ax[nm], 2 * np.pi / int(nm[1]))
            els.append((PointGroupElement(m, c, a), (m, c, a, None)))
        i = -1
        for n in range(desc['low'], len(els) + 1):
            for sub in itertools.combinations(range(len(els)), n):
                i += 1
                if i % 16 != desc['part']:
                    continue
                gens = {els[k][0] for k in sub}
                ref = refclose([els[k][1] for k in sub])
                out = G.generate_group(gens)
                ks = [ekey(g) for g in out]
                R.step(len(gens))
                R.check(len(ks) == len(set(ks)) and set(ks) == set(ref), 'many generators %s %s' % (fam, sub), lambda: '%d instead of %d' % (len(ks), len(ref)))
                R.state(fam, sub)
                R.outcome(fam, len(ref))
                R.trace()


def case_strict(desc, R):
    """Strict generation distinguishes Hilbert-space parts up to phase."""
    els = family(desc['fam'], True, 'spin')
    mats = [('s', lambda x: x[3]), ('I', lambda x: np.eye(2)), ('z', lambda x: np.diag([1., -1]) if x[1] ^ x[2] else np.eye(2)),
            ('zs', lambda x: np.diag([1., 1j]) if np.linalg.det(x[0]) < 0 else x[3])]
    for sub in itertools.combinations(range(0, len(els), 1 if desc['n'] == 1 or len(els) < 20 else 3), desc['n']):
        for (n1, f1), (n2, f2) in itertools.product(mats, mats):
            fs = [f1, f2][:desc['n']]
            xs = []
            for k, f in zip(sub, fs):
                x = els[k][1]
                xs.append(x[:3] + (np.array(f(x), complex),))
            try:
                ref = refclose(xs, True)
            except AssertionError:
                continue
            gens = [PointGroupElement(els[k][0].R, x[1], x[2], x[3], _strict_eq=True) for k, x in zip(sub, xs)]
            out = G.generate_group(gens)
            R.step()
            key = 'strict %s %s %s%s' % (desc['fam'], sub, n1, n2)
            ks = [ekey(g, True) for g in out]
            R.check(len(ks) == len(ref) and set(ks) == set(ref), key, lambda: '%d instead of %d' % (len(ks), len(ref)))
            R.outcome(len(ref))
            # loose generation: one element per real-space class, consistent unitary parts
            loose = G.generate_group([PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U) for g in gens])
            ks2 = [ekey(g) for g in loose]
            R.check(set(ks2) == set(k[:3] for k in ref) and len(ks2) == len(set(ks2)), key + ' loose')
            R.check(all(ekey(g, True) in ref for g in loose), key + ' loose unitary parts')
            R.state(key)
            R.trace()


def all_subgroups(table, n):
    """bitmask enumeration of all subgroups of a group given by its multiplication table"""
    def close(mask):
        idx = [i for i in range(n) if mask >> i & 1]
        gens = list(idx)
        have = set(idx)
        front = list(idx)
        while front:
            new = []
            for x in front:
                for g in gens:
                    y = table[x][g]
                    if y not in have:
                        have.add(y)
                        new.append(y)
            front = new
        return sum(1 << i for i in have)
    cyc = {close(1 << i) for i in range(n)}
    subs = set(cyc)
    front = set(cyc)
    while front:
        new = set()
        for s in front:
            for c in cyc:
                if c & ~s:
                    t = close(s | c)
                    if t not in subs:
                        subs.add(t)
                        new.add(t)
        front = new
    return subs


def case_sub(desc, R):
    fl = desc['flags']
    els = family(desc['fam'], bool(fl), desc['U'])
    if fl == 'T':
        els = [e for e in els if not e[0].antisymmetry]
    pge = [e[0] for e in els]
    keys = [ekey(g) for g in pge]
    index = {k: i for i, k in enumerate(keys)}
    table = [[index[(rnd(x[0] @ y[0], 4), x[1] ^ y[1], x[2] ^ y[2])] for _, y in els] for _, x in els]
    ref = all_subgroups(table, len(els))
    for grp in (set(pge), set(pge[::-1])):
        out = G.generate_subgroups(grp)
        R.step(len(ref))
        masks = []
        for sg, gens in out.items():
            ks = [ekey(g) for g in sg]
            R.check(len(set(ks)) == len(ks), 'repeated element %s' % desc)
            mask = sum(1 << index[k] for k in set(ks))
            masks.append(mask)
            gs = refclose([els[index[ekey(g)]][1] for g in gens])
            R.check(set(gs) == set(ks), 'generators %s' % desc, lambda: '%s do not generate %s' % (gens, sg))
            R.check(isinstance(sg, frozenset) and set(gens) <= set(sg), 'generators inside %s' % desc)
            if desc['U']:
                R.check(all(ph(g.U) == ph(els[index[ekey(g)]][1][3]) for g in sg), 'unitary parts %s' % desc)
            R.state(str(desc), mask)
            R.trace()
        R.check(len(masks) == len(set(masks)), 'subgroup twice %s' % desc)
        R.check(set(masks) <= ref, 'not a subgroup %s' % desc)
        R.check(ref <= set(masks), 'missing subgroup %s' % desc, lambda: '%d of %d found' % (len(set(masks) & ref), len(ref)))
        R.check(len(grp) == len(pge), 'argument changed %s' % desc)
    R.outcome(len(ref), desc['fam'])
    R.sample = dict(group=desc, subgroups=len(ref))


PRE = {'square': (8, 2), 'cubic': (48, 3), 'hex2': (12, 2), 'hex3': (24, 3)}


def call(name, sy, **kw):
    if name == 'square':
        return G.square(**kw)
    if name == 'cubic':
        return G.cubic(**kw)
    return G.hexagonal(dim=int(name[-1]), sympy_R=sy, **kw)


def reference(name):
    if name == 'square':
        return closure([rot2(np.pi / 2), np.diag([1., -1])])
    if name == 'cubic':
        return closure([rot3([0, 0, 1], np.pi / 2), rot3([1, 1, 1], 2 * np.pi / 3), -np.eye(3)])
    if name == 'hex2':
        return closure([rot2(np.pi / 3), np.diag([1., -1])])
    return closure([rot3([0, 0, 1], np.pi / 3), rot3([1, 0, 0], np.pi), -np.eye(3)])


def case_pre(desc, R):
    name, sy = desc['name'], desc['sy']
    order, dim = PRE[name]
    ref = reference(name)
    assert len(ref) == order
    refk = {rnd(m, 4) for m in ref}
    Jmix = [np.kron(m, np.eye(2)) for m in spin_mats(0.5)]
    Jorb = [np.kron(spin_mats(1)[i], np.eye(2)) + np.kron(np.eye(3), spin_mats(0.5)[i]) for i in range(3)]
    V = unit(3, 5)
    spins = [None, 0, 0.5, 1, 1.5, 2, Jmix, np.array(Jorb), [V @ m @ V.conj().T for m in spin_mats(1)], tuple(spin_mats(0.5)), [np.array(x) for x in G.L_matrices(3, 1)]]
    for tr, ph_ in itertools.product((True, False), repeat=2):
        for si, spin in enumerate(spins):
            if spin is not None and ph_:
                R.fails(ValueError, 'spin with ph %s %d' % (name, si), lambda: call(name, sy, tr=tr, ph=True, spin=spin))
                R.fails(ValueError, 'spin with default ph %s %d' % (name, si), lambda: call(name, sy, tr=tr, spin=spin))
                continue
            key = '%s sympy=%s tr=%s ph=%s spin=%d' % (name, sy, tr, ph_, si)
            grp = call(name, sy, tr=tr, ph=ph_, spin=spin)
            gens = call(name, sy, tr=tr, ph=ph_, spin=spin, generators=True)
            R.step(2)
            flags = {(c, a) for c in (0, 1) for a in (0, 1) if (not a or ph_) and (not c or tr or ph_) and (tr or c == a) and (ph_ or not a)}
            want = {(k, bool(c), bool(a)) for k in refk for c, a in flags}
            ks = [ekey(g) for g in grp]
            R.check(len(ks) == len(set(ks)) and set(ks) == want, 'full group ' + key, lambda: '%d elements instead of %d' % (len(set(ks)), len(want)))
            gg = G.generate_group(gens)
            R.check({ekey(g) for g in gg} == want and len(gg) == len(want), 'generators ' + key)
            R.check(set(gens) <= set(grp), 'generators inside ' + key)
            if spin is None:
                R.check(all(g.U is None for g in grp) and all(g.U is None for g in gens), 'no U ' + key)
            else:
                S = spin_mats(spin) if np.isscalar(spin) else np.array(spin)
                # the documented time reversal exp(-i pi s_y) K flips the spin in the standard basis only
                std = close(S[0].imag, 0 * S[0].real) and close(S[1].real, 0 * S[1].real) and close(S[2].imag, 0 * S[2].real)
                for g in list(grp) + list(gens) + list(gg):
                    if tr and not std:
                        continue
                    consistent(g, S, R, key)
            if sy is not None and not sy:
                R.check({ekey(g) for g in call(name, True, tr=tr, ph=ph_, spin=spin)} == want, 'exact equals floating ' + key)
            if name in ('square', 'cubic'):
                R.check(all(np.array_equal(np.array(g.R), np.round(np.array(g.R).astype(float))) for g in grp), 'integer ' + key)
            if sy:
                R.check(all(all(isinstance(x, (sympy.Basic, int, np.integer)) for x in np.array(g.R).ravel()) for g in grp), 'exact ' + key)
            # mirrors with the coordinate axes as normals are included
            for i in range(dim):
                M = np.eye(dim)
                M[i, i] = -1
                R.check((rnd(M, 4), False, False) in set(ks), 'axis mirrors ' + key)
            R.state(key)
            R.outcome(len(ks), dim)
            R.trace()
    # defaults: both time reversal and particle-hole
    d = G.square() if name == 'square' else G.cubic() if name == 'cubic' else G.hexagonal(dim) if sy else G.hexagonal(dim, sympy_R=False)
    R.check(len(d) == 4 * order, 'default %s' % name)
    R.sample = dict(group=key, order=len(grp))


def consistent(g, S, R, key):
    """U carries the spin vector with the proper part of R; time reversal flips it."""
    m = np.array(g.R).astype(float)
    if len(m) == 2:
        M = np.eye(3)
        M[:2, :2] = m
        # the third direction is even under in-plane operations
        m = M
    p = m * np.sign(np.linalg.det(m))
    s = -1 if g.conjugate else 1
    U = np.array(g.U)
    R.check(close(U @ U.conj().T, np.eye(len(U))), 'unitary ' + key)
    for i in range(3):
        Si = S[i].conj() if g.conjugate else S[i]
        R.check(close(U @ Si @ U.conj().T, s * sum(p[j, i] * S[j] for j in range(3))), 'spin vector ' + key, lambda: '%r' % g)


def case_misc(desc, R):
    for d in (0, 1, 4):
        R.fails(ValueError, 'hexagonal dim %d' % d, lambda: G.hexagonal(d))
    # products of sets
    for fam in ('1D', 'D4', 'D6s'):
        els = family(fam, True)
        subs = [els[:1], els[:3], els[-2:], els[::3], []]
        for A, B in itertools.product(subs, subs):
            out = G.set_multiply({a for a, _ in A}, {b for b, _ in B})
            want = {(rnd(x[0] @ y[0], 4), x[1] ^ y[1], x[2] ^ y[2]) for _, x in A for _, y in B}
            R.step()
            ks = [ekey(g) for g in out]
            R.check(set(ks) == want and len(ks) == len(want), 'set_multiply %s' % fam)
            R.state('mul', fam, len(A), len(B))
            R.trace()
