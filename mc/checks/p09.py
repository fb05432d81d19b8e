"""P09: equality, hashing and ordering of point group elements."""
import functools
import itertools

import numpy as np
import sympy
import tinyarray as ta

from mc.core import unit, closure, rot2, rot3
from mc.checks.p08 import rotations, exact, FLAGS
from qsymm.groups import PointGroupElement

ASSUMPTIONS = ['rotation matrices that agree to 1e-11 are the same operation, those that differ by more than 1e-4 are not',
               'the order is only claimed among operations of one dimension']
BOUNDS = {'quick': 'all pairs of elements (4 classes each) of 10 families in every available supply form (integer, exact, floating, perturbed by rounding noise, numpy / tinyarray / mutable and immutable sympy), all pairs of Hilbert-space parts from 12 (phases, scalings, None, antiunitary classes) under strict comparison, all triples for transitivity in 1D, D4, D6 and a 2000-element stride in Oh and D6h, all pairs and triples of operations that differ from each other, the identity or an integer matrix by 1e-4 to 0.1, sorting of 40 arrangements per family',
          'thorough': 'all triples in all families, 400 arrangements'}

FAMS = ['1D', 'D4', 'D6f', 'D6lat', 'D6s', 'Oh', 'D6hf', 'D6hs', 'gen2', 'gen3']


def forms(fam):
    """supply forms available for a family: name -> (numpy matrix, k) -> R"""
    intf = {'np-int': lambda m, k: np.array(np.round(m), int), 'ta-int': lambda m, k: ta.array(np.array(np.round(m), int)),
            'sym-int': lambda m, k: sympy.ImmutableMatrix(np.array(np.round(m), int))}
    fl = {'np-float': lambda m, k: np.array(m, float), 'ta-float': lambda m, k: ta.array(np.array(m, float)),
          'noise1': lambda m, k: np.array(m, float) + 1e-12 * np.sin(np.arange(m.size) * 3.7 + k).reshape(m.shape),
          'noise2': lambda m, k: np.array(m, float) + 1e-12 * np.cos(np.arange(m.size) * 1.9 + 2 * k).reshape(m.shape)}
    ex = {'sym-imm': lambda m, k: sympy.ImmutableMatrix(exact(m)), 'sym-mut': lambda m, k: sympy.Matrix(exact(m))}
    if fam in ('1D', 'D4', 'D6lat', 'Oh'):
        return {**intf, **fl, **(ex if fam != 'Oh' else {'sym-mut': ex['sym-mut']})}
    if fam in ('D6s', 'D6hs'):
        return {**ex, 'np-float': fl['np-float']}
    return fl


def build(fam, form, U=None, strict=False):
    f = forms(fam)[form]
    out = []
    for i, ((m, _), (c, a)) in enumerate(itertools.product(rotations(fam), FLAGS)):
        out.append(PointGroupElement(f(m, i), c, a, U, **({'_strict_eq': True} if strict else {})))
    return out


def cases(tier):
    out = []
    for fam in FAMS:
        fs = sorted(forms(fam))
        for a, b in itertools.combinations_with_replacement(fs, 2):
            if len(rotations(fam)) > 24 and tier == 'quick' and (fs.index(a) + fs.index(b)) % 3:
                continue
            out.append(dict(t='eq', fam=fam, f1=a, f2=b))
        for f in fs:
            out.append(dict(t='order', fam=fam, form=f, full=tier != 'quick'))
    out += [dict(t='strict', fam=f) for f in ('1D', 'D4', 'D6f', 'D6s', 'gen3')]
    out += [dict(t='ints')]
    out += [dict(t='small', dim=d) for d in (1, 2, 3)]
    return out


def run_case(desc, R):
    globals()['case_' + desc['t']](desc, R)


def kind(fam, form):
    if fam in ('1D', 'D4', 'D6lat', 'Oh'):
        return 'int'            # recognised as integer whatever the form
    return 'exact' if form.startswith('sym') else 'float'


def case_eq(desc, R):
    fam, f1, f2 = desc['fam'], desc['f1'], desc['f2']
    A, B = build(fam, f1), build(fam, f2)
    hashes = kind(fam, f1) == kind(fam, f2)
    nums = [np.array(m) for m, _ in rotations(fam)]
    isint = [np.allclose(m, np.round(m)) for m in nums]
    for i, j in itertools.product(range(len(A)), range(len(B))):
        a, b = A[i], B[j]
        R.step()
        key = '%s %s/%s %d %d' % (fam, f1, f2, i, j)
        R.check(bool(a == b) == (i == j) and bool(b == a) == (i == j), 'eq ' + key, lambda: '%r\n==\n%r' % (a, b))
        R.check(bool(a != b) == (i != j), 'ne ' + key)
        if i == j and (hashes or isint[i // 4]):
            R.check(hash(a) == hash(b), 'hash ' + key, lambda: '%r\n%r' % (a, b))
        R.state(key)
        R.trace()
    if hashes:
        S = set(A) | set(B)
        R.check(len(S) == len(A), 'set size %s %s %s' % (fam, f1, f2), '%d instead of %d' % (len(S), len(A)))
        R.check(all(b in set(A) for b in B) and set(A) == set(B) and not set(A) - set(B), 'set members %s %s %s' % (fam, f1, f2))
        R.check(frozenset(A) == frozenset(B[::-1]), 'frozenset %s %s %s' % (fam, f1, f2))
        d = {a: i for i, a in enumerate(A)}
        R.check([d.get(b) for b in B] == list(range(len(A))), 'dict lookup %s %s %s' % (fam, f1, f2))
    R.outcome(fam, f1, f2)
    R.sample = dict(fam=fam, forms=[f1, f2])


def arrangements(n, k):
    yield list(range(n))
    yield list(range(n))[::-1]
    c = 2
    i = 1
    while c < k:
        for step in (1, n // 2 + 1, max(1, n // 3)):
            idx = sorted(range(n), key=lambda x: ((x * (2 * i + 1) * 7919 + step * i) % 104729))
            yield idx
            c += 1
        i += 1


def case_order(desc, R):
    fam, form = desc['fam'], desc['form']
    A = build(fam, form)
    n = len(A)
    lt = np.zeros((n, n), bool)
    for i, j in itertools.product(range(n), repeat=2):
        lt[i, j] = bool(A[i] < A[j])
        R.step()
        R.state('lt', fam, form, i, j)
    for i in range(n):
        R.check(not lt[i, i], 'irreflexive %s %s %d' % (fam, form, i))
        for j in range(i + 1, n):
            R.check(lt[i, j] ^ lt[j, i], 'total %s %s %d %d' % (fam, form, i, j), lambda: '%r\n%r\n%s %s' % (A[i], A[j], lt[i, j], lt[j, i]))
            if A[i].conjugate != A[j].conjugate:
                R.check(lt[i, j] == A[j].conjugate, 'unitary first %s %s %d %d' % (fam, form, i, j))
    # transitivity: the relation matrix of a strict total order has rank sequence 0..n-1
    cnt = lt.sum(axis=1)
    R.check(sorted(cnt) == list(range(n)), 'transitive %s %s' % (fam, form), lambda: str(sorted(cnt)))
    R.trace()
    # the identity precedes everything of its class
    d = rotations(fam)[0][0].shape[0]
    ident = [i for i, (m, _) in enumerate(itertools.product(rotations(fam), FLAGS)) if np.allclose(m[0], np.eye(d))]
    for i in ident:
        for j in range(n):
            if j != i and (A[i].conjugate, A[i].antisymmetry) == (A[j].conjugate, A[j].antisymmetry):
                R.check(lt[i, j], 'identity first %s %s %d' % (fam, form, j))
    # sorting gives one sequence for all arrangements, forms and rounding noise
    ref = [i for i in sorted(range(n), key=lambda i: -cnt[i])]
    for idx in arrangements(n, 400 if desc['full'] else 40):
        s = sorted([A[i] for i in idx])
        R.step()
        R.check(all(s[k] is A[ref[k]] for k in range(n)), 'sorted %s %s' % (fam, form))
        R.trace()
    for f2 in forms(fam):
        B = build(fam, f2)
        s = sorted(B)
        R.check(all(s[k] is B[ref[k]] for k in range(n)), 'sorted across forms %s %s %s' % (fam, form, f2),
                lambda: '%s' % [B.index(x) for x in s])
    R.check(not ident or ref[0] == ident[0], 'first %s' % fam)
    R.outcome(fam, tuple(ref))


def case_strict(desc, R):
    fam = desc['fam']
    n = len(rotations(fam))
    ms = [(i, rotations(fam)[i][1]) for i in sorted({0, 1 % n, n - 1})]
    u, v = unit(2, 1), unit(2, 2)
    p = np.exp(0.7j)
    # (matrix, class): equal classes are equal operations up to a phase
    Us = [(None, 'none'), (u, 'u'), (p * u, 'u'), (-u, 'u'), (1j * u, 'u'), (u * (1 + 1e-12), 'u'), (v, 'v'), (v / p, 'v'), (u.conj(), 'uc'), (u.T, 'ut'),
          (np.eye(2), '1'), (np.diag([1, -1]), 'z'), (np.diag([-1, 1]), 'z'), (u @ np.diag([1, np.exp(0.05j)]), 'u2')]
    for (i, r1), (j, r2) in itertools.product(ms, ms):
        for (c1, a1), (c2, a2) in itertools.product(FLAGS, FLAGS):
            for (x, cx), (y, cy) in itertools.product(Us, Us):
                for s1, s2 in ((True, True), (True, False), (False, True), (False, False)):
                    g = PointGroupElement(r1, c1, a1, x, _strict_eq=s1)
                    h = PointGroupElement(r2, c2, a2, y, _strict_eq=s2)
                    want = i == j and (c1, a1) == (c2, a2) and (cx == cy or not (s1 or s2))
                    R.step()
                    key = 'strict %s %s' % (fam, (i, j, c1, a1, c2, a2, cx, cy, s1, s2))
                    R.check(bool(g == h) == want and bool(h == g) == want, key, lambda: '%r\n==\n%r' % (g, h))
                    if want:
                        R.check(hash(g) == hash(h), key + ' hash')
                    R.trace()
                    if i != j or (c1, a1) != (c2, a2):
                        break
                R.state(key)
    # strictness survives products, inverses and powers; sets distinguish spin double groups
    for (c, a) in FLAGS:
        g = PointGroupElement(ms[-1][1], c, a, u, _strict_eq=True)
        h = PointGroupElement(ms[-1][1], c, a, v)
        w = PointGroupElement(ms[-1][1], c, a, v, _strict_eq=True)
        for x, y in ((g * h, h * h), (h * g, h * h), (g.inv(), h.inv()), (g ** 2, w ** 2), (g ** 3, h ** 3)):
            R.step()
            same = np.allclose(abs(np.trace(x.U.conj().T @ y.U)), 2)
            R.check(bool(x == y) == same, 'strict inherited %s %s' % (fam, (c, a)))
            R.trace()
        els = [PointGroupElement(ms[-1][1], c, a, m, _strict_eq=True) for m, _ in Us]
        R.check(len(set(els)) == len({k for _, k in Us}), 'strict set %s %s' % (fam, (c, a)), lambda: len(set(els)))
        els = [PointGroupElement(ms[-1][1], c, a, m) for m, _ in Us]
        R.check(len(set(els)) == 1, 'loose set %s %s' % (fam, (c, a)))
    R.outcome(fam)


def case_ints(desc, R):
    """All 2x2 matrices over {-1,0,1} and half-integer ones: recognised exactly when integer."""
    for ent in itertools.product((-1, 0, 1), repeat=4):
        m = np.array(ent).reshape(2, 2)
        if abs(np.linalg.det(m)) < 0.5:
            continue
        sup = [m, m.astype(float), m.astype(np.int32), ta.array(m), ta.array(m.astype(float)), sympy.Matrix(m), sympy.ImmutableMatrix(m),
               m + 1e-13, sympy.Matrix(m.astype(float)), sympy.Matrix(2, 2, [sympy.sqrt(4) * int(x) / 2 for x in ent])]
        gs = [PointGroupElement(x) for x in sup]
        for i, g in enumerate(gs):
            R.step()
            R.check(len({hash(gs[0]), hash(g)}) == 1 and g == gs[0] and len({g, gs[0]}) == 1, 'integer form %d %s' % (i, ent), repr(g))
            R.check(np.array_equal(np.array(g.R).astype(float), m), 'value %d %s' % (i, ent))
            # integer rotations combine with exact and with floating ones
            for o in (PointGroupElement(np.array([[0.6, -0.8], [0.8, 0.6]])), PointGroupElement(sympy.Matrix([[0, sympy.sqrt(2)], [-1, 0]]))):
                p = g * o
                R.check(np.allclose(np.array(p.R).astype(float), m @ np.array(o.R).astype(float)), 'combine %d %s' % (i, ent))
            R.state(i, ent)
            R.trace()
        h = PointGroupElement(m * 0.5)
        R.check(h != gs[0] and len({h, gs[0]}) == 2, 'half %s' % (ent,))
        R.outcome(ent)


def case_small(desc, R):
    """Operations close to each other, to the identity and to integer matrices are still different."""
    d = desc['dim']
    eps = [0, 1e-4, -1e-4, 3e-4, 1e-3, 3e-3, 0.01, -0.1]
    if d == 1:
        ms = [np.array([[s * (1 + x)]]) for s in (1, -1) for x in eps]
    elif d == 2:
        ms = [m @ rot2(x * 2 * np.pi) for m in (np.eye(2), rot2(np.pi / 2), rot2(np.pi / 3), np.diag([1, -1.])) for x in eps]
        ms += [np.array([[1, x], [0, 1]]) for x in eps[1:]] + [np.diag([1, 1 + x]) for x in eps[1:]]
    else:
        ms = [m @ rot3(n, x * 2 * np.pi) for m in (np.eye(3), -np.eye(3), rot3([1, 1, 1], 2 * np.pi / 3), rot3([1, 2, 3], 1.)) for n in ([0, 0, 1], [1, 1, 0]) for x in eps if x or n[2]]
    els = [PointGroupElement(m) for m in ms]
    n = len(els)
    lt = np.zeros((n, n), bool)
    for i, j in itertools.product(range(n), repeat=2):
        R.step()
        same = np.max(np.abs(ms[i] - ms[j])) < 1e-9
        R.check(bool(els[i] == els[j]) == same, 'near eq %d %d %d' % (d, i, j), lambda: '%r %r' % (els[i], els[j]))
        R.check(not same or hash(els[i]) == hash(els[j]), 'near hash %d %d %d' % (d, i, j))
        lt[i, j] = bool(els[i] < els[j])
        R.check(not (same and lt[i, j]), 'near lt %d %d %d' % (d, i, j))
        p = els[i] * els[j]
        R.check(np.max(np.abs(np.array(p.R).astype(float) - ms[i] @ ms[j])) < 1e-7, 'near product %d %d %d' % (d, i, j), lambda: '%r' % p)
        R.state(d, i, j)
        R.trace()
    for i in range(n):
        for j in range(i):
            if np.max(np.abs(ms[i] - ms[j])) > 1e-9:
                R.check(lt[i, j] ^ lt[j, i], 'near total %d %d %d' % (d, i, j))
    for i, j, k in itertools.product(range(n), repeat=3):
        if lt[i, j] and lt[j, k]:
            R.check(lt[i, k], 'near transitive %d %d %d %d' % (d, i, j, k), lambda: '%r %r %r' % (els[i], els[j], els[k]))
    uniq = []
    for m in ms:
        if not any(np.max(np.abs(m - x)) < 1e-9 for x in uniq):
            uniq.append(m)
    R.check(len(set(els)) == len(uniq), 'near set %d' % d, lambda: '%d, expected %d' % (len(set(els)), len(uniq)))
    for m, g in zip(ms, els):
        R.check(np.array_equal(np.array(g.R).astype(float), m) or np.max(np.abs(np.array(g.R).astype(float) - m)) < 1e-9, 'near stored %d' % d)
        R.check((g ** 7 == g ** 6 * g) and (g * g.inv() == g.identity()), 'near powers %d' % d)
    R.outcome(d, n)
