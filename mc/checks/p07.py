"""P07: comparison, rounding and removal of small terms."""
import itertools

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
import sympy

from mc import algebra as al
from mc.core import gen, close
from qsymm.model import Model, BlochModel

ASSUMPTIONS = ['differences below 1e-9 of the largest entry count as equal, above 1e-3 as different; nothing in between is generated',
               'norms within 1e-6 (relative) of the tolerance are generated only where all numbers involved are exact']
BOUNDS = {'quick': 'all ordered pairs of 46 variants of a model (perturbed entries, missing / explicitly zero / extra terms, term order, spelling, dtype) in 5 storage formats and 2 model types; rounding of 300-entry grids to -1..11 decimals; eliminate_zeros over all multisets of 3 norms from 9, 7 matrix patterns (norms also within a factor 1.5 of the tolerances), 4 storages, 6 tolerance settings',
          'thorough': 'eliminate_zeros over all multisets of 4 norms, 3 more base models'}

FORMATS = ['dense', 'csr', 'csc', 'coo', 'linop', 'scalar']
KEYS = ['1', 'k_x', 'a*k_y', 'e**(I*k_x)*a']
BKEYS = ['1', 'a', 'e**(I*k_x)', 'a*e**(I*k_x - I*k_y)']


def cases(tier):
    out = [dict(t='eq', fmt=f, cls=c, scale=s) for f in FORMATS for c in 'MB' for s in (1, 1e6, 1e-3) if c == 'M' or f in ('dense', 'csr', 'scalar')]
    out += [dict(t='zero', fmt=f, cls=c) for f in FORMATS for c in 'MB' if f != 'coo']
    out += [dict(t='cross')]
    out += [dict(t='around', d=d) for d in range(-1, 12)]
    for f in ('dense', 'csr', 'csc', 'coo'):
        for cls in ('MB' if f != 'coo' else 'M'):
            for pat in range(7):
                out.append(dict(t='elim', fmt=f, cls=cls, pat=pat, n=3 if tier == 'quick' else 4))
    out.append(dict(t='tol'))
    out.append(dict(t='large'))
    out.append(dict(t='boundary'))
    return out


def run_case(desc, R):
    globals()['case_' + desc['t']](desc, R)


def variants(keys, shape, scale):
    """(name, list of (key, matrix), equivalence class)"""
    base = [(k, scale * gen(shape, i)) for i, k in enumerate(keys)]
    zero = np.zeros(shape, complex)
    out = [('base', base, 'base'), ('reversed', base[::-1], 'base'), ('rot', base[1:] + base[:1], 'base'),
           ('zero-extra', base + [('a**3', zero)], 'base'), ('zero-first', [('b', zero)] + base, 'base'),
           ('zeros2', base + [('b', zero), ('b**2', zero)], 'base')]
    for i in range(len(base)):
        out.append(('missing%d' % i, base[:i] + base[i + 1:], 'missing%d' % i))
        out.append(('zeroed%d' % i, base[:i] + [(base[i][0], zero)] + base[i + 1:], 'missing%d' % i))
        n = int(np.prod(shape)) or 1
        for j in range(n):
            for nm, eps in (('tiny', 1e-12), ('big', 0.01), ('bigim', 0.01j), ('neg', None), ('conj', 'c')):
                m = base[i][1].copy() if shape else np.array(base[i][1])
                f = m.reshape(-1)
                if eps is None:
                    f[j] = -f[j]
                elif eps == 'c':
                    f[j] = f[j].conj()
                else:
                    f[j] += scale * eps
                cl = 'base' if nm == 'tiny' else '%s%d-%d' % (nm, i, j)
                if nm == 'tiny' and j or nm in ('neg', 'conj') and j not in (0, n - 1) or nm == 'bigim' and j not in (0, n - 1):
                    continue
                out.append(('%s%d-%d' % (nm, i, j), base[:i] + [(base[i][0], m)] + base[i + 1:], cl))
        # swapped values
    sw = [(base[0][0], base[1][1]), (base[1][0], base[0][1])] + base[2:]
    out.append(('swapped', sw, 'swapped'))
    out.append(('extra', base + [('b', 0.01 * scale * gen(shape, 9))], 'extra'))
    out.append(('extra2', base + [('b', 0.02 * scale * gen(shape, 9))], 'extra2'))
    out.append(('renamed', [('b', base[0][1])] + base[1:], 'renamed'))
    return out


def build(items, fmt, cls, shape):
    C = Model if cls == 'M' else BlochModel
    return C({k: al.cast(v, fmt) for k, v in items}, momenta=('k_x', 'k_y'), shape=shape, format=al.FORMATS[fmt])


def build_raw(items, fmt, cls, shape):
    """keeps explicitly stored zeros also in lattice models"""
    m = build([x for x in items if np.any(x[1])], fmt, cls, shape)
    z = [x for x in items if not np.any(x[1])]
    if cls == 'M':
        m = build(items, fmt, cls, shape)
    else:
        for k, v in z:
            one = build([(k, v + 1)], fmt, cls, shape)
            (key, _), = one.items()
            if fmt == 'linop':
                continue
            m.data[key] = al.cast(v, fmt) if fmt != 'scalar' else np.complex128(0)
    return m


def case_eq(desc, R):
    fmt, cls, scale = desc['fmt'], desc['cls'], desc['scale']
    shape = () if fmt == 'scalar' else (2, 2)
    keys = KEYS if cls == 'M' else BKEYS
    if scale != 1:
        keys = keys[:2]
    vs = [(n, build_raw(it, fmt, cls, shape), c) for n, it, c in variants(keys, shape, scale)]
    for (n1, m1, c1), (n2, m2, c2) in itertools.product(vs, vs):
        R.step()
        key = '%s/%s/%g %s %s' % (cls, fmt, scale, n1, n2)
        R.check(bool(m1 == m2) == (c1 == c2), 'eq ' + key, lambda: '%s\n==\n%s gives %s' % (m1, m2, m1 == m2))
        R.check(bool(m1 != m2) == (c1 != c2), 'ne ' + key)
        # scipy does arithmetic on coo matrices in csr format, so coo models have none
        if fmt != 'coo' and (n1 <= n2 or fmt != 'linop'):
            d = m1 - m2
            # a difference is zero exactly when the models are equal (absolute scale)
            if scale == 1:
                R.check(bool(d == 0) == (c1 == c2) or ('tiny' in n1 + n2 and c1 == c2), 'diff-zero ' + key, lambda: str(d))
        R.state(key)
        R.outcome(c1 == c2, fmt, cls)
        R.trace()
    R.sample = dict(pair=[n1, n2], fmt=fmt)


def case_zero(desc, R):
    fmt, cls = desc['fmt'], desc['cls']
    shape = () if fmt == 'scalar' else (2, 2)
    keys = KEYS if cls == 'M' else BKEYS
    zero = np.zeros(shape, complex)
    empty = build([], fmt, cls, shape)
    for ks in itertools.chain.from_iterable(itertools.combinations(keys, n) for n in range(4)):
        z = build_raw([(k, zero) for k in ks], fmt, cls, shape)
        nz = build_raw([(k, zero) for k in ks[1:]] + [(k, gen(shape, 1) * 1e-2) for k in ks[:1]], fmt, cls, shape)
        for nm, o in (('0', 0), ('{}', {}), ('empty', empty)):
            R.step(2)
            R.check(bool(z == o), 'zero== %s/%s %s %s' % (cls, fmt, ks, nm))
            if nm == 'empty':
                R.check(bool(o == z), 'zero==r %s/%s %s' % (cls, fmt, ks))
            if ks:
                R.check(not (nz == o), 'nonzero== %s/%s %s %s' % (cls, fmt, ks, nm))
                if nm == 'empty':
                    R.check(not (o == nz), 'nonzero==r %s/%s %s' % (cls, fmt, ks), lambda: str(nz))
            R.state(cls, fmt, ks, nm)
            R.outcome(len(ks))
            R.trace()
        m = build([(k, gen(shape, i)) for i, k in enumerate(keys)], fmt, cls, shape)
        R.check(m - m == 0 and m - m == {} and (m * 0) == 0, 'm-m %s/%s' % (cls, fmt))


def case_cross(desc, R):
    """Same function in different storage."""
    shape = (2, 2)
    items = variants(KEYS, shape, 1)
    for i in range(0, len(items), 3):
        n1, it1, c1 = items[i]
        for n2, it2, c2 in items[:14:2]:
            for f1, f2 in itertools.permutations(('dense', 'csr', 'csc', 'coo'), 2):
                m1, m2 = build(it1, f1, 'M', shape), build(it2, f2, 'M', shape)
                R.step()
                R.check(bool(m1 == m2) == (c1 == c2), 'cross %s/%s %s/%s' % (n1, f1, n2, f2))
                R.check(bool(m1.tocsr() == m2.tocsr()) == (c1 == c2), 'cross-csr %s/%s %s/%s' % (n1, f1, n2, f2))
                R.check(bool(m1.toarray() == m2.toarray()) == (c1 == c2), 'cross-dense %s/%s %s/%s' % (n1, f1, n2, f2))
                R.state(n1, f1, n2, f2)
                R.trace()
    # real and complex data, different spelling of keys
    A = np.array([[1.0, 2], [3, 4]])
    forms = [Model({'a*k_x': A}), Model({'k_x*a': A.astype(complex)}), Model({sympy.sympify('a*k_x'): A.astype(int)}),
             Model({'a*k_x': A.T}).T(), Model('a*k_x*[[1, 2], [3, 4]]' if False else '[[a*k_x, 2*a*k_x], [3*k_x*a, 4*a*k_x]]'),
             Model({'2*a*k_x': A / 2}, normalize=True), Model({'e**(I*k_y)*a*k_x*e**(-I*k_y)': A})]
    for x, y in itertools.product(forms, forms):
        R.step()
        R.check(x == y, 'spelling', lambda: '%s %s' % (x, y))
        R.trace()


def case_around(desc, R):
    d = desc['d']
    u = 10.0 ** -d
    grid = np.array([0, 0.3, 0.49, 0.51, 0.9, 1, 1.2, 1.49, 1.51, 7.77, 12.3, 99.99]) * u
    grid = np.concatenate([grid, -grid])
    vals = np.array([x + 1j * y for x in grid for y in grid])
    for fmt in ('dense', 'csr', 'scalar', 'csc'):
        for chunk in range(0, len(vals), 4 if fmt != 'scalar' else 5):
            if fmt == 'scalar':
                v = vals[chunk]
                shape = ()
            else:
                v = vals[chunk:chunk + 4].reshape(2, 2)
                shape = (2, 2)
            M = gen(shape, 3) * 10 * u
            # splitting terms on input of lattice models discards data below 1e-8
            for cls in ('MB' if d <= 6 else 'M'):
                m = build([('a', v), ('b', M)], fmt, cls, shape)
                r = m.around(d)
                R.step()
                key = 'around(%d) %s/%s %d' % (d, cls, fmt, chunk)
                for k, x in (('a', v), ('b', M)):
                    y = al.dense(r[k])
                    diff = y - x
                    R.check(np.all(np.abs(diff.real) <= 0.5 * u * (1 + 1e-6)) and np.all(np.abs(diff.imag) <= 0.5 * u * (1 + 1e-6)),
                            'change ' + key, lambda: '%s -> %s' % (x, y))
                    q = y / u
                    R.check(np.all(np.abs(q - np.round(q)) < 1e-4), 'grid ' + key, lambda: '%s' % y)
                R.check(set(map(str, r.keys())) <= set(map(str, m.keys())) and r.shape == m.shape and r.format is m.format, 'meta ' + key)
                R.state(key)
                R.outcome(len(r))
                R.trace()
    m = Model({'a': np.array([[1.23456]])})
    R.check(close(m.around()['a'], [[1.235]]), 'default decimals')


def pattern(p, norm, k):
    m = np.zeros((3, 3), complex)
    if p == 0:
        m[0, 1] = 1                 # nilpotent
    elif p == 1:
        m = gen((3, 3), k)
    elif p == 2:
        m = np.diag([1, -1, 1j])
    elif p == 3:
        m = np.ones((3, 3), complex) / 3   # norm 1, all entries small
    elif p == 4:
        m[0, 2], m[1, 0] = 1, 1j
    elif p == 5:
        m = np.exp(1j * np.arange(36) ** 2).reshape(6, 6) * (np.arange(36) % 5 > 0).reshape(6, 6)    # largest singular value is far from the norm
    else:
        m = np.eye(6, dtype=complex)[[3, 1, 0, 5, 2, 4]]
    return m / np.linalg.norm(m) * norm


NORMS = [0, 1e-12, 3e-9, 3e-8, 1e-6, 3e-6, 3e-5, 1e-3, 1, 50.0]
# around the tolerances: a norm is not the largest entry or singular value
NEAR = [0, 6e-9, 1.4e-8, 6e-6, 1.3e-5, 6e-3, 1.3e-2, 0.7, 1]
TOLS = [{}, dict(rtol=1e-2), dict(atol=1e-2), dict(rtol=0, atol=1e-7), dict(rtol=2e-6, atol=0), dict(rtol=0.5, atol=1e-5)]


def case_elim(desc, R):
    shape = (3, 3) if desc['pat'] < 5 else (6, 6)
    keys = ['1', 'a', 'b', 'a*b']
    for norms in itertools.combinations_with_replacement(NORMS if desc['pat'] < 5 else NEAR, desc['n']):
        for order in (0, 1):
            ns = norms if order == 0 else norms[::-1]
            mats = {k: pattern(desc['pat'], n, i) for i, (k, n) in enumerate(zip(keys, ns))}
            m = build_raw(list(mats.items()), desc['fmt'], desc['cls'], shape)
            # splitting terms on input of lattice models discards data below 1e-8
            inm = {str(x[1] if isinstance(x, tuple) else x) for x in m.keys()}
            for tol in TOLS:
                r = m.eliminate_zeros(**tol)
                R.step()
                t = max(tol.get('atol', 1e-8), tol.get('rtol', 1e-5) * max([n for k, n in zip(keys, ns) if k in inm], default=0))
                if any(abs(n - t) <= 1e-6 * t and n for n in ns):
                    continue
                key = 'elim %s/%s p%d %s %s' % (desc['cls'], desc['fmt'], desc['pat'], ns, tol)
                for k, n in zip(keys, ns):
                    inr = any(str(x[1] if isinstance(x, tuple) else x) == k for x in r.keys())
                    if k not in inm:
                        continue
                    if t == 0 and n == 0:
                        continue
                    R.check(inr == (not n < t), key, lambda: 'term %s with norm %g, tolerance %g: kept=%s' % (k, n, t, inr))
                    if inr:
                        R.check(close(al.dense(r[k]), mats[k], 1e-12) and np.max(np.abs(al.dense(r[k]) - mats[k])) <= 1e-9 * n, key + ' value')
                R.check(r.shape == m.shape and r.format is m.format and r.momenta == m.momenta, key + ' meta')
                R.state(key)
                R.outcome(len(r))
                R.trace()
    e = build([], desc['fmt'], desc['cls'], shape)
    R.check(e.eliminate_zeros() == e and e.eliminate_zeros().shape == shape, 'elim-empty')


def case_boundary(desc, R):
    """A norm equal to the tolerance is not below it (all numbers are exact)."""
    vals = {n: m for n, m in (('d', np.diag([3., 4.])), ('j', np.array([[0, 8.], [0, 0]])), ('k', np.array([[0, 0.], [2j, 0]])), ('o', np.ones((2, 2)) * 4),
                              ('z', np.zeros((2, 2))))}
    norm = dict(d=5., j=8., k=2., o=8., z=0.)
    keys = ['1', 'a', 'b']
    for pick in itertools.product(vals, repeat=3):
        for fmt in ('dense', 'csr', 'csc', 'coo'):
            for cls in 'MB' if fmt != 'coo' else 'M':
                m = build_raw([(k, vals[v]) for k, v in zip(keys, pick)], fmt, cls, (2, 2))
                for tol in (dict(rtol=1, atol=0), dict(rtol=0, atol=5), dict(rtol=0, atol=2), dict(rtol=0.25, atol=0), dict(rtol=0, atol=8), dict(rtol=0.25, atol=2), dict(rtol=0.25, atol=5), dict(rtol=0.5, atol=8)):
                    inm = {str(x[1] if isinstance(x, tuple) else x) for x in m.keys()}
                    t = max(tol['atol'], tol['rtol'] * max([norm[v] for k, v in zip(keys, pick) if k in inm], default=0))
                    if t == 0:
                        continue
                    r = m.eliminate_zeros(**tol)
                    R.step()
                    left = {str(x[1] if isinstance(x, tuple) else x) for x in r.keys()}
                    R.check(left == {k for k, v in zip(keys, pick) if k in inm and not norm[v] < t}, 'boundary %s/%s %s %s' % (cls, fmt, pick, tol), lambda: 'kept %s' % left)
                    R.state(fmt, cls, pick, str(tol))
                    R.trace()


def case_tol(desc, R):
    """Explicit tolerances of allclose."""
    A = gen((2, 2), 1)
    A = A / np.max(np.abs(A))
    for fmt in ('dense', 'csr', 'linop'):
        for eps in (1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e-1):
            D = np.zeros((2, 2), complex)
            D[0, 1] = eps
            for k2 in (True, False):
                m1 = build([('a', A), ('b', A)], fmt, 'M', (2, 2))
                m2 = build([('a', A), ('b', A + D)], fmt, 'M', (2, 2)) if k2 else build([('a', A), ('b', A), ('c', D)], fmt, 'M', (2, 2))
                for atol in (1e-11, 1e-8, 1e-6, 1e-4, 1e-2):
                    for x, y in ((m1, m2), (m2, m1)):
                        R.step()
                        got = bool(x.allclose(y, rtol=0, atol=atol))
                        if abs(np.log10(eps / atol)) > 0.3:
                            R.check(got == (eps < atol), 'atol %s %g %g %s' % (fmt, eps, atol, k2), got)
                    if k2:
                        got = bool(m1.allclose(m2, rtol=atol, atol=0))
                        if abs(np.log10(eps / atol)) > 0.3:
                            R.check(got == (eps < atol), 'rtol %s %g %g' % (fmt, eps, atol), got)
                    R.state(fmt, eps, k2, atol)
                    R.trace()
                    d = m2 - m1
                    if abs(np.log10(eps / atol)) > 0.3 and eps > 1e-8:
                        R.check(bool(d.allclose(0, rtol=0, atol=atol)) == (eps < atol), 'zero-atol %s %g %g' % (fmt, eps, atol))


def case_large(desc, R):
    """The comparison does not depend on how many entries agree."""
    for n in (1, 2, 7, 40, 120):
        for rect in (n, 3):
            A = np.ones((n, rect), complex)
            for fmt in ('dense', 'csr', 'csc', 'linop'):
                for eps in (1e-12, 1e-3, 0.01, 1):
                    for scale in (1, 1e4, 1e-3):
                        for sign in (1, -1, 1j):
                            B = A.copy()
                            B[-1, 0] += sign * eps
                            x, y = (build([('a', scale * C), ('b', scale * A)], fmt, 'M', (n, rect)) for C in (A, B))
                            R.step()
                            for p, q in ((x, y), (y, x)):
                                R.check(bool(p == q) == (eps < 1e-9), 'large %s %d %d %g %g' % (fmt, n, rect, eps, scale), lambda: '%s' % (p == q))
                            R.state(fmt, n, rect, eps, scale, sign)
                            R.trace()
