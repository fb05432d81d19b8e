"""P11: elementary operations, spin and orbital representations."""
import fractions
import itertools

import numpy as np
import tinyarray as ta

from mc.core import rot2, rot3, spin_mats, expih, close, unit, gen
from qsymm import groups as G

ASSUMPTIONS = ['matrices supplied as spin satisfy the angular momentum algebra; the flip of the spin under time reversal is claimed in the standard basis',
               'rejection of spins that are not half-integer may use any exception']
BOUNDS = {'quick': 'all angles p/q of a turn with q <= 12, -q <= p <= 2q, about 26 axes (62 for the real-space part) of a grid in several spellings, 3D rotoinversions and 2D rotations, mirrors along all grid axes in 1-3D; spins 0..7/2, p- and d-orbital, total angular momentum and rotated user matrices; time reversal, particle-hole, chiral, inversion, identity in 1-4 dimensions with and without unitary parts; spin matrices up to s=12; 300 rotation vectors',
          'thorough': 'q <= 24, 124 axes, spins up to 9/2'}

FR = {'quick': 12, 'thorough': 24}


def fracs(n):
    return sorted({fractions.Fraction(p, q) for q in range(1, n + 1) for p in range(-q, 2 * q + 1)} | NEARFR)


# slightly off the special angles and directions: nothing may be snapped to them
NEARFR = {fractions.Fraction(1, 2) + fractions.Fraction(1, 20000), fractions.Fraction(1, 10000), fractions.Fraction(1, 4) - fractions.Fraction(1, 30000),
          fractions.Fraction(-1, 3) + fractions.Fraction(1, 50000)}
NEAR = [(1, 1e-4, 0), (1e-4, 1, -1e-3), (0, 2e-5, 1), (1, 1, 1 + 1e-4), (1, -1e-5, 1e-5)]


def axes(full=True):
    out = []
    for v in itertools.product((-2, -1, 0, 1, 2) if full else (-1, 0, 1), repeat=3):
        if any(v):
            out.append(v)
    out += NEAR
    return out if full != 'half' else out[::2]


def user(name):
    if name in HALF:
        return float(HALF[name])
    if name == 'p':
        return G.L_matrices(3, 1)
    if name == 'd':
        return G.L_matrices(3, 2)
    if name == 'total':
        return [np.kron(a, np.eye(2)) + np.kron(np.eye(3), b) for a, b in zip(spin_mats(1), spin_mats(0.5))]
    if name == 'rotated':
        V = unit(2, 3)
        return tuple(V @ m @ V.conj().T for m in spin_mats(0.5))
    if name == 'sum':
        Z = np.zeros((2, 3))
        return np.array([np.block([[a, Z], [Z.T, b]]) for a, b in zip(spin_mats(0.5), spin_mats(1))])


HALF = {str(s): s for s in (0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5)}
USER = ['p', 'd', 'total', 'rotated', 'sum']


def mats(name):
    return spin_mats(HALF[name]) if name in HALF else np.array(user(name))


def cases(tier):
    out = []
    sp = list(HALF)[:8 if tier == 'quick' else 10] + USER
    for s in sp:
        for part in range(4):
            out.append(dict(t='rot3', spin=s, q=FR[tier], part=part, full=tier != 'quick'))
        out.append(dict(t='rot2', spin=s, q=FR[tier]))
        out.append(dict(t='mirror', spin=s))
        out.append(dict(t='tr', spin=s))
    for part in range(8):
        out.append(dict(t='real', q=FR[tier], part=part, full=tier != 'quick'))
    out += [dict(t='spinmat'), dict(t='spinrot'), dict(t='L'), dict(t='basic'), dict(t='reject')]
    return out


def run_case(desc, R):
    globals()['case_' + desc['t']](desc, R)


def real(g):
    return np.array(g.R).astype(float)


def flags(g):
    return bool(g.conjugate), bool(g.antisymmetry)


def covector(U, S, p, sign=1, conj=False):
    return all(close(U @ (S[i].conj() if conj else S[i]) @ U.conj().T, sign * sum(p[j, i] * S[j] for j in range(3)), 1e-6) for i in range(3))


def spell(v, i):
    return [list(v), tuple(v), np.array(v), np.array(v, float) * 0.37, [x * 5 for x in v], [float(x) for x in v]][i % 6]


def case_rot3(desc, R):
    S = mats(desc['spin'])
    sp = user(desc['spin'])
    fr = fracs(desc['q'])
    for ai, ax in enumerate(axes(desc['full'])):
        if ai % 4 != desc['part']:
            continue
        n = np.array(ax, float) / np.linalg.norm(ax)
        nS = np.tensordot(n, S, 1)
        for fi, f in enumerate(fr):
            if len(S[0]) > 4 and (fi + ai) % 3 and f.denominator not in (1, 2, 3, 4, 6) and f not in NEARFR:
                continue
            inv = bool((fi + ai) % 2)
            g = G.rotation(float(f), spell(ax, fi), inversion=inv, spin=sp)
            R.step()
            key = 'rotation(%s, %s, inversion=%s, spin=%s)' % (f, ax, inv, desc['spin'])
            p = rot3(n, 2 * np.pi * float(f))
            R.check(close(real(g), p * (-1 if inv else 1)) and flags(g) == (False, False), key)
            U = expih(nS, 2 * np.pi * float(f))
            R.check(close(g.U, U, 1e-6), key + ' U', lambda: '%s instead of %s' % (g.U, U))
            R.check(covector(g.U, S, p), key + ' spin vector')
            R.state(key)
            R.trace()
    R.outcome(desc['spin'])
    R.sample = dict(call=key, U=str(np.round(g.U, 3))[:200])


def case_rot2(desc, R):
    S = mats(desc['spin'])
    for f in fracs(desc['q']):
        g = G.rotation(float(f), spin=user(desc['spin']))
        R.step()
        key = 'rotation(%s, spin=%s)' % (f, desc['spin'])
        R.check(close(real(g), rot2(2 * np.pi * float(f))) and flags(g) == (False, False), key)
        R.check(close(g.U, expih(S[2], 2 * np.pi * float(f)), 1e-6), key + ' U')
        R.check(covector(g.U, S, rot3([0, 0, 1], 2 * np.pi * float(f))), key + ' spin vector')
        R.state(key)
        R.trace()


def case_mirror(desc, R):
    S = mats(desc['spin'])
    sp = user(desc['spin'])
    ax2 = [v for v in itertools.product((-2, -1, 0, 1, 2, 3), repeat=2) if any(v)] + [(1, 1e-4), (-2e-5, 1), (1, 1 + 1e-4)]
    for i, ax in enumerate(axes() + ax2):
        n = np.array(ax, float) / np.linalg.norm(ax)
        g = G.mirror(spell(ax, i), spin=sp)
        R.step()
        key = 'mirror(%s, spin=%s)' % (ax, desc['spin'])
        M = np.eye(len(ax)) - 2 * np.outer(n, n)
        R.check(close(real(g), M) and flags(g) == (False, False), key)
        n3 = np.append(n, [0] * (3 - len(n)))
        R.check(close(g.U, expih(np.tensordot(n3, S, 1), np.pi), 1e-6), key + ' U')
        R.check(covector(g.U, S, -(np.eye(3) - 2 * np.outer(n3, n3))), key + ' spin vector')
        R.state(key)
        R.trace()


def case_tr(desc, R):
    S = mats(desc['spin'])
    std = close(S[0].imag, 0 * S[0].real) and close(S[1].real, 0 * S[1].real) and close(S[2].imag, 0 * S[2].real)
    for d in range(1, 5):
        g = G.time_reversal(d, spin=user(desc['spin']))
        R.step()
        key = 'time_reversal(%d, spin=%s)' % (d, desc['spin'])
        R.check(close(real(g), np.eye(d)) and flags(g) == (True, False), key)
        R.check(close(g.U, expih(S[1], np.pi), 1e-6), key + ' U')
        if std:
            R.check(covector(g.U, S, np.eye(3), -1, True), key + ' flips spin')
            sq = g * g
            w = np.linalg.eigvalsh(S[2])
            half = np.round(2 * w).astype(int) % 2
            V = np.linalg.eigh(S[2])[1]
            R.check(close(sq.U, V @ np.diag((-1.) ** half) @ V.conj().T, 1e-6) and flags(sq) == (False, False), key + ' square', lambda: str(sq.U))
        R.state(key)
        R.trace()


def case_real(desc, R):
    """Real-space part and explicit unitary parts; composition of rotations about one axis."""
    fr = fracs(desc['q'])
    ax = axes()
    for ai, a in enumerate(ax):
        if ai % 8 != desc['part'] or (not desc['full'] and ai % 2):
            continue
        for fi, f in enumerate(fr):
            for inv in (False, True):
                for U in (None, unit(3, fi)):
                    g = G.rotation(float(f), spell(a, fi), inversion=inv, U=U)
                    R.step()
                    key = 'rotation(%s, %s, %s, U=%s)' % (f, a, inv, U is not None)
                    R.check(close(real(g), rot3(a, 2 * np.pi * float(f)) * (-1 if inv else 1)) and flags(g) == (False, False), key)
                    R.check((g.U is None) if U is None else close(g.U, U), key + ' U')
            R.state(a, f)
            R.trace()
        m = G.mirror(spell(a, ai))
        n = np.array(a, float) / np.linalg.norm(a)
        R.check(close(real(m), np.eye(3) - 2 * np.outer(n, n)) and m.U is None and m == G.rotation(1 / 2, a, inversion=True), 'mirror %s' % (a,))
    if desc['part'] == 0:
        for fi, f in enumerate(fr):
            for U in (None, unit(2, fi)):
                g = G.rotation(float(f), U=U)
                R.step()
                R.check(close(real(g), rot2(2 * np.pi * float(f))) and flags(g) == (False, False) and ((g.U is None) if U is None else close(g.U, U)), 'rotation(%s)' % f)
                R.state(f)
                R.trace()
        for p, q in itertools.product(fr[::5], fr[::7]):
            R.check(G.rotation(float(p)) * G.rotation(float(q)) == G.rotation(float(p + q)), 'compose 2D %s %s' % (p, q))
        for v in itertools.product((-2, -1, 0, 1, 3), repeat=2):
            if any(v):
                n = np.array(v, float) / np.linalg.norm(v)
                for U in (None, unit(2, 3)):
                    m = G.mirror(v, U=U)
                    R.check(close(real(m), np.eye(2) - 2 * np.outer(n, n)) and (m.U is None) == (U is None), 'mirror2 %s' % (v,))
        for v in (1, -1, 3.5):
            R.check(close(real(G.mirror([v])), [[-1]]), 'mirror1')


def case_spinmat(desc, R):
    for two in range(0, 25):
        s = two / 2
        for arg in ([s, int(s), np.float64(s), fractions.Fraction(two, 2)] if two % 2 == 0 else [s, np.float64(s)]):
            if isinstance(arg, fractions.Fraction):
                arg = float(arg)
            for inc in (False, True):
                S = np.array(G.spin_matrices(arg, include_0=inc))
                d = two + 1
                R.step()
                R.check(S.shape == (4 if inc else 3, d, d), 'shape s=%s' % s)
                if inc:
                    R.check(close(S[0], np.eye(d)), 'identity s=%s' % s)
                    S = S[1:]
                R.check(close(S, spin_mats(s)), 'standard basis s=%s' % s, lambda: str(S))
                for i in range(3):
                    R.check(close(S[i], S[i].conj().T), 'hermitian')
                    j, k = (i + 1) % 3, (i + 2) % 3
                    R.check(close(S[i] @ S[j] - S[j] @ S[i], 1j * S[k]), 'commutator s=%s %d' % (s, i))
                R.check(close(sum(x @ x for x in S), s * (s + 1) * np.eye(d)), 'casimir s=%s' % s)
                R.state(two, str(type(arg)), inc)
                R.trace()


def case_spinrot(desc, R):
    grid = [np.array(v) * x for v in itertools.product((-1, 0, 1), repeat=3) for x in (0.1, 1, np.pi / 2, np.pi / 3, np.pi, 2 * np.pi, 4 * np.pi, 7.3)]
    for name in list(HALF)[:6] + USER:
        S = mats(name)
        for i, n in enumerate(grid):
            U = G.spin_rotation([tuple(n), list(n), n][i % 3], user(name))
            R.step()
            R.check(close(U, expih(np.tensordot(n, S, 1)), 1e-6), 'spin_rotation %s %s' % (n, name))
            th = np.linalg.norm(n)
            if th:
                R.check(covector(U, S, rot3(n, th)), 'spin_rotation vector %s %s' % (n, name))
            R.state(name, tuple(n))
            R.trace()
    # integer output
    for name in ['p', 'd', 'total'] + list(HALF)[:5]:
        for n in list(itertools.product((-1, 0, 1, 2, 4), repeat=3)) + [(1 + 1e-4, 0, 0), (0, 1e-4, 1), (0, 0, 4 - 1e-4)]:
            v = np.pi / 2 * np.array(n)
            ref = expih(np.tensordot(v, mats(name), 1))
            if close(ref, np.round(ref.real)):
                U = G.spin_rotation(v, user(name), roundint=True)
                R.check(np.array_equal(np.array(U), np.round(ref.real)) and isinstance(U, ta.ndarray_int), 'roundint %s %s' % (name, n,))
            else:
                R.fails(Exception, 'roundint of noninteger %s %s' % (name, n,), lambda: G.spin_rotation(v, user(name), roundint=True))
            R.step()
            R.trace()
    U = G.spin_rotation([0.3], np.array(G.L_matrices(2)))
    R.check(close(U, rot2(0.3)), '2D rotation from L')


def case_L(desc, R):
    for d, l, nm in ((3, 1, 'p'), (3, 2, 'd')):
        L = np.array(G.L_matrices(d, l))
        n = 2 * l + 1
        R.check(L.shape == (3, n, n), 'shape %s' % nm)
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            R.check(close(L[i], L[i].conj().T) and close(L[i].real, np.zeros((n, n))) and close(L[i], -L[i].T), 'imaginary antisymmetric %s %d' % (nm, i))
            R.check(close(L[i] @ L[j] - L[j] @ L[i], 1j * L[k]), 'commutator %s %d' % (nm, i), lambda: str(L[i]))
        R.check(close(sum(x @ x for x in L), l * (l + 1) * np.eye(n)), 'casimir %s' % nm)
        R.check(np.allclose(np.sort(np.linalg.eigvalsh(L[0])), np.arange(-l, l + 1)), 'spectrum %s' % nm)
        R.state(d, l)
        R.step()
    L = np.array(G.L_matrices(2, 1))
    R.check(L.shape == (1, 2, 2) and close(expih(L[0], 0.4), rot2(0.4)), '2D')
    R.check(close(G.L_matrices(), G.L_matrices(3, 1)) and close(G.L_matrices(d=3), G.L_matrices(3, 1)) and close(G.L_matrices(2), G.L_matrices(2, 1)), 'defaults')
    # documented orbital bases: rotated functions f(R^-1 r) expanded in the basis
    s3 = np.sqrt(3)
    orb = {1: [lambda x, y, z: x, lambda x, y, z: y, lambda x, y, z: z],
           2: [lambda x, y, z: (x * x - y * y) / 2, lambda x, y, z: (3 * z * z - x * x - y * y - z * z) / (2 * s3), lambda x, y, z: x * y, lambda x, y, z: y * z, lambda x, y, z: z * x]}
    pts = gen((3, 40), 3, True)
    for l, fs in orb.items():
        F = np.array([f(*pts) for f in fs]).T
        for ax in axes(False):
            for t in (0.3, np.pi / 2, 2.5):
                p = rot3(ax, t)
                n = np.array(ax) / np.linalg.norm(ax)
                U = G.spin_rotation(t * n, G.L_matrices(3, l))
                rot = np.array([f(*(p.T @ pts)) for f in fs]).T
                R.step()
                R.check(close(rot, F @ U, 1e-6), 'orbitals l=%d %s %.2f' % (l, ax, t))
                R.state(l, ax, t)
                R.trace()
    for d, l in ((1, 1), (4, 1), (2, 2), (3, 3), (3, 0), (2, 0)):
        R.fails(ValueError, 'L_matrices(%d, %d)' % (d, l), lambda: G.L_matrices(d, l))


def case_basic(desc, R):
    for d in range(1, 5):
        for U in (None, unit(1, 1), unit(2, 1), unit(4, 2), [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], 'sigma_y', 'kron(sigma_x, sigma_0)'):
            ref = {None: None, 'sigma_y': np.array([[0, -1j], [1j, 0]]), 'kron(sigma_x, sigma_0)': np.kron([[0, 1], [1, 0]], np.eye(2))}.get(U if isinstance(U, str) else None) if U is None or isinstance(U, str) else np.array(U)
            for f, s, fl in ((G.time_reversal, 1, (True, False)), (G.particle_hole, 1, (True, True)), (G.chiral, 1, (False, True)), (G.inversion, -1, (False, False))):
                for g in (f(d, U), f(d, U=U), f(realspace_dim=d, U=U)):
                    R.step()
                    key = '%s(%d, %s)' % (f.__name__, d, 'None' if U is None else np.shape(U))
                    R.check(close(real(g), s * np.eye(d)) and flags(g) == fl, key, repr(g))
                    R.check((g.U is None) if ref is None else close(g.U, ref), key + ' U', repr(g))
                    if ref is not None:
                        sq = g * g
                        R.check(close(sq.U, ref @ (ref.conj() if fl[0] else ref)) and close(real(sq), np.eye(d)) and flags(sq) == (False, False), key + ' square')
                    R.trace()
            R.state(d, str(U))
        for sh in (None, 1, 2, 5):
            g = G.identity(d, sh)
            R.check(close(real(g), np.eye(d)) and flags(g) == (False, False) and ((g.U is None) if sh is None else close(g.U, np.eye(sh))), 'identity(%d, %s)' % (d, sh))
            R.step()
        # chiral = time reversal * particle-hole
        R.check(G.time_reversal(d) * G.particle_hole(d) == G.chiral(d) and G.identity(d) == G.inversion(d) ** 2, 'composition %d' % d)


def case_reject(desc, R):
    u = np.eye(2)
    for s in (0.5, 0, 1):
        R.fails(ValueError, 'rotation both', lambda: G.rotation(1 / 4, U=u, spin=s))
        R.fails(ValueError, 'rotation3 both', lambda: G.rotation(1 / 4, [0, 0, 1], U=u, spin=s))
        R.fails(ValueError, 'mirror both', lambda: G.mirror([1, 0], U=u, spin=s))
        R.fails(ValueError, 'mirror3 both', lambda: G.mirror([1, 0, 0], U=u, spin=s))
        R.fails(ValueError, 'time_reversal both', lambda: G.time_reversal(2, U=u, spin=s))
    for ax in ([1], [1, 0], [1, 0, 0, 0]):
        R.fails(ValueError, 'axis %s' % ax, lambda: G.rotation(1 / 4, ax))
    for s in (0.3, 0.25, 1.2, 2.9):
        R.fails(Exception, 'spin %s' % s, lambda: G.spin_matrices(s))
        R.fails(Exception, 'rotation spin %s' % s, lambda: G.rotation(1 / 4, spin=s))
    R.state('reject')
