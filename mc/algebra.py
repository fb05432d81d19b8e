"""Bounded exhaustive exploration of operation sequences on symbolic matrix models.

State of the exploration: (real Model object, reference value at N fixed points).
The reference is plain numpy arithmetic on the values; it never looks at terms.
"""
import itertools

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
import sympy

from mc.core import ev_model, gen, points, close, rnd, dense

import qsymm
from qsymm.model import Model, BlochModel

PTS = points(3)
SYM = {n: sympy.Symbol(n) for n in ('a', 'b', 'k_x', 'k_y', 'k_z', 'p', 'q')}
E = sympy.Symbol('e', positive=True)


class S:
    """one exploration state"""
    __slots__ = ('m', 'ref', 'hist')

    def __init__(self, m, ref, hist):
        self.m, self.ref, self.hist = m, ref, hist


def val_of(m, shape):
    return [ev_model(m, env, shape) for env in PTS]


FORMATS = {'dense': np.ndarray, 'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'coo': sp.coo_matrix,
           'linop': spl.LinearOperator, 'scalar': np.complex128}


def cast(a, fmt):
    if fmt == 'dense':
        return np.array(a)
    if fmt == 'scalar':
        return complex(a)
    if fmt == 'linop':
        return spl.aslinearoperator(np.array(a))
    return FORMATS[fmt](np.array(a))


# ---- seeds: name -> dict of key string -> matrix index ---------------------
# every shortcut visible in the algebra: constant term, repeated powers, exponentials
# that cancel or merge in products, empty model, explicit zero, real/integer data.
SEEDS = {
    'const': {'1': 0},
    'poly': {'1': 1, 'k_x': 2, 'a*k_x': 3},
    'poly2': {'k_x': 4, 'a': 5, 'b*k_x*k_y**2': 6},
    'expo': {'e**(I*k_x)': 7, 'a*e**(-I*k_x)': 8},
    'expo2': {'e**(-I*k_x + I*k_y)': 9, 'b': 10, '1': 11},
    'inv': {'1/a': 12, 'k_x/a': 13},
    'phase': {'k_x*e**(I*a)': 17, 'b**2*e**(-I*a)': 18},
    'anti': {'1': -1, 'k_x': -2},      # cancels terms of 'poly'
    'zero': {'k_x': None},             # an explicitly stored zero
    'empty': {},
    'int': {'k_y': 'int', '1': 'int2'},
    # a value with a zero trace and nilpotent one: vanishing results
    'nil': {'k_x': 'nil', 'a': 'nilT'},
    # small imaginary parts and small terms are not noise
    'fine': {'k_x': 'fine', '1': 'fine2'},
}


BSEEDS = {      # hopping form only; names start with b
    'b1': {'1': 1, 'e**(I*k_x)': 2, 'e**(-I*k_x)': 3},
    'b2': {'a*e**(I*k_x + I*k_y)': 4, 'b': 5, 'e**(-I*k_x + 2*I*k_y)': 6},
    'b3': {'a**2*e**(I*k_x/3)': 7, 'e**(2*I*k_x/3 - I*k_y/2)': 8, 'a/b': 9},
    'banti': {'e**(I*k_x)': -2, 'b': -5},
    'bzero': {'e**(I*k_y)': None},
    'bint': {'1': 'int', 'a*e**(-I*k_y)': 'int2'},
    'bfl': {'e**(0.25*I*k_x - 0.75*I*k_y)': 10, 'e**(I*k_x)': 11},
    'bph': {'e**(I*a)*e**(I*k_y)': 12, 'e**(-I*a)': 13},
    # hoppings and phases that are not simple fractions
    'bdec': {'e**(0.1234567*I*k_x - 1.7320508*I*k_y)': 9, 'e**(I*k_y + 0.7654321*I*a)': 12, 'e**(I*k_y + 0.765*I*a)': 11},
    'bempty': {},
    'bcc': {'a*e**(I*k_y)': 14, 'b*e**(I*k_y)': 15, 'a*b*e**(I*k_y)': 16},
}


def seed_spec(name):
    return SEEDS[name] if name in SEEDS else BSEEDS[name]


def seed_matrix(spec, shape):
    if spec is None:
        return np.zeros(shape, complex)
    if spec == 'int':
        return np.arange(int(np.prod(shape)) or 1).reshape(shape)
    if spec == 'int2':
        return (2 * np.arange(int(np.prod(shape)) or 1) % 5 - 2).reshape(shape)
    if spec in ('nil', 'nilT'):
        m = np.zeros(shape, complex)
        if len(shape) == 2 and min(shape) > 1:
            m[(0, -1) if spec == 'nil' else (-1, 0)] = 1
        return m
    if spec == 'fine':
        return gen(shape, 21, real=True) + 1e-9j * gen(shape, 22, real=True)
    if spec == 'fine2':
        return 1e-9 * gen(shape, 23)
    if isinstance(spec, int) and spec < 0:
        return -gen(shape, -spec)
    return gen(shape, spec)


def make_seed(name, shape, fmt, cls=Model, momenta=('k_x', 'k_y', 'k_z')):
    d = {k: cast(seed_matrix(v, shape), fmt) for k, v in seed_spec(name).items()}
    if fmt == 'scalar':
        shape = ()
    return cls(d, momenta=momenta, shape=shape, format=FORMATS[fmt])


def seed_ref(name, shape, momenta=None):
    from mc.core import ev
    out = []
    for env in PTS:
        r = np.zeros(shape, complex)
        for k, v in seed_spec(name).items():
            key = sympy.sympify(k, locals={'e': E})
            r = r + ev(key, env) * seed_matrix(v, shape)
        out.append(r)
    return out


def fmt_of(m):
    for n, f in FORMATS.items():
        if m.format is f:
            return n
    return str(m.format)


# ---- operations ------------------------------------------------------------

def _basic(x):
    return [np.array(ev_sym(x, env)) for env in PTS]


def ev_sym(x, env):
    from mc.core import ev
    return ev(x, env)


def unary_ops(st, bloch=False):
    """Yield (name, function on model, function on values, tolerance) for the state."""
    m, ref = st.m, st.ref
    shape = ref[0].shape
    fmt = fmt_of(m)
    ops = [
        ('neg', lambda m: -m, lambda v: -v),
        ('copy', lambda m: m.copy(), lambda v: v),
        ('x2', lambda m: m * 2, lambda v: v * 2),
        ('(1-2j)x', lambda m: (1 - 2j) * m, lambda v: (1 - 2j) * v),
        ('xnpf', lambda m: m * np.float64(-0.5), lambda v: v * -0.5),
        ('x0', lambda m: m * 0, lambda v: v * 0),
        ('/4', lambda m: m / 4, lambda v: v / 4),
        ('/(1j)', lambda m: m / 1j, lambda v: v / 1j),
        ('+0', lambda m: m + 0, lambda v: v),
        ('0+', lambda m: 0 + m, lambda v: v),
        ('sum3', lambda m: sum([m, m, m]), lambda v: 3 * v),
    ]
    if fmt != 'linop':
        ops += [('conj', lambda m: m.conj(), lambda v: v.conj())]
    if fmt == 'dense':
        ops += [('around', lambda m: m.around(10), lambda v: v)]
    if fmt in ('dense', 'csr', 'csc', 'coo') or fmt == 'linop':
        ops += [('T', lambda m: m.T(), lambda v: v.T)]
    if len(shape) == 2 and fmt in ('dense', 'csr', 'csc'):
        ops += [('trace', lambda m: m.trace(), lambda v: np.array(np.trace(v)))] if shape[0] == shape[1] else []
    for nm, s in (('a', SYM['a']), ('a/b', SYM['a'] / SYM['b'])) + ((('k_x', SYM['k_x']),) if not bloch else ()):
        sv = _basic(s)
        ops += [('x' + nm, lambda m, s=s: m * s, [lambda v, x=x: v * x for x in sv])]
        # Bloch terms document only right multiplication by symbols
        ops += [(nm + 'x', lambda m, s=s: s * m if not isinstance(s, sympy.Basic) else m.__rmul__(s),
                 [lambda v, x=x: v * x for x in sv])]
    if len(shape) == 2 and fmt in ('dense', 'csr', 'csc', 'linop'):
        A = gen((shape[1], shape[1]), 31)
        B = gen((shape[0], shape[0]), 32)
        if fmt == 'dense':
            R = gen((shape[1], 3), 33)
            L = gen((3, shape[0]), 34)
            C = gen(shape, 35)
            ops += [
                ('@A', lambda m: m @ A, lambda v: v @ A),
                ('B@', lambda m: B @ m, lambda v: B @ v),
                ('@R', lambda m: m @ R, lambda v: v @ R),
                ('L@', lambda m: L @ m, lambda v: L @ v),
                ('@vec', lambda m: m @ R[:, 0], lambda v: v @ R[:, 0]),
                ('*C', lambda m: m * C, lambda v: v * C),
                ('C*', lambda m: C * m, lambda v: C * v),
                ('+C', lambda m: m + C, lambda v: v + C),
                ('C+', lambda m: C + m, lambda v: C + v),
                ('-C', lambda m: m - C, lambda v: v - C),
                ('reshape', lambda m: m.reshape(-1), lambda v: v.reshape(-1)),
                ('reshape2', lambda m: m.reshape((shape[0] * shape[1], 1)),
                 lambda v: v.reshape((shape[0] * shape[1], 1))),
                ('reshapeF', lambda m: m.reshape(-1, order='F'), lambda v: v.reshape(-1, order='F')),
                ('reshape2F', lambda m: m.reshape(shape[::-1], order='F'), lambda v: v.reshape(shape[::-1], order='F')),
                ('reshapeargs', lambda m: m.reshape(1, -1), lambda v: v.reshape(1, -1)),
                ('tocsr', lambda m: m.tocsr(), lambda v: v),
                ('toarray', lambda m: m.toarray(), lambda v: v),
            ]
        elif fmt == 'linop':
            ops += [
                ('@A', lambda m: m @ A, lambda v: v @ A),
                ('@lA', lambda m: m @ spl.aslinearoperator(A), lambda v: v @ A),
                ('tocsr', lambda m: m.tocsr(), lambda v: v),
                ('toarray', lambda m: m.toarray(), lambda v: v),
            ]
        else:
            sA, sB, sC = (sp.csr_matrix(A) if fmt == 'csr' else sp.csc_matrix(A),
                          sp.csr_matrix(B) if fmt == 'csr' else sp.csc_matrix(B),
                          FORMATS[fmt](gen(shape, 35)))
            ops += [
                ('@sA', lambda m: m @ sA, lambda v: v @ A),
                # scipy does not defer to Model on the left, call the reflected operator
                ('sB@', lambda m: m.__rmatmul__(sB), lambda v: B @ v),
                ('@A', lambda m: m @ A, lambda v: v @ A),
                ('B@', lambda m: B @ m, lambda v: B @ v),
                ('+sC', lambda m: m + sC, lambda v: v + gen(shape, 35)),
                # '*' of scipy matrices is the matrix product
                ('*R', lambda m: m * gen((shape[1], 3), 33), lambda v: v @ gen((shape[1], 3), 33)),
                ('L*', lambda m: gen((3, shape[0]), 34) * m, lambda v: gen((3, shape[0]), 34) @ v),
                ('@R', lambda m: m @ gen((shape[1], 3), 33), lambda v: v @ gen((shape[1], 3), 33)),
                ('L@', lambda m: gen((3, shape[0]), 34) @ m, lambda v: gen((3, shape[0]), 34) @ v),
                ('*sR', lambda m: m * sp.csr_matrix(gen((shape[1], 3), 33)), lambda v: v @ gen((shape[1], 3), 33)),
                ('@sR', lambda m: m @ sp.csr_matrix(gen((shape[1], 3), 33)), lambda v: v @ gen((shape[1], 3), 33)),
                ('tocsr', lambda m: m.tocsr(), lambda v: v),
                ('toarray', lambda m: m.toarray(), lambda v: v),
            ]
    if fmt == 'dense' and len(shape) == 1:
        if shape[0] == 4:
            ops += [('reshape22', lambda m: m.reshape((2, 2)), lambda v: v.reshape((2, 2)))]
    if fmt == 'scalar' and shape == ():
        C = gen((2, 2), 36)
        ops += [
            ('+2.5', lambda m: m + 2.5, lambda v: v + 2.5),
            ('1j+', lambda m: 1j + m, lambda v: 1j + v),
            ('-1', lambda m: m - 1, lambda v: v - 1),
            ('*arr', lambda m: m * C, lambda v: v * C),
            ('arr*', lambda m: C * m, lambda v: C * v),
            ('toarray', lambda m: m.toarray(), lambda v: v),
        ]
    if not bloch:
        R3 = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]])
        # rotation of momenta: value at k equals old value at R k  (needs its own reference)
        ops += [('rotk', lambda m: m.rotate_momenta(R3), 'ROT')]
    return ops


def meta_check(R, st, case, expect_momenta, cls):
    m, ref = st.m, st.ref
    shape = ref[0].shape
    key = '%s %s' % (case, '.'.join(st.hist))
    ok = R.check(type(m) is cls, 'type ' + key, lambda: 'type %s' % type(m))
    ok &= R.check(tuple(m.shape) == tuple(shape), 'shape ' + key, lambda: 'declared shape %s, value shape %s' % (m.shape, shape))
    ok &= R.check(tuple(map(str, m.momenta)) == tuple(expect_momenta), 'momenta ' + key, lambda: m.momenta)
    fmt = fmt_of(m)
    R.check(fmt in FORMATS, 'format ' + key, lambda: m.format)
    for k, v in m.items():
        if fmt == 'scalar':
            good = np.ndim(v) == 0 and np.issubdtype(np.asarray(v).dtype, np.number)
        elif fmt == 'dense' and shape == ():
            good = np.ndim(v) == 0
        else:
            good = isinstance(v, m.format) and tuple(v.shape) == tuple(m.shape)
        ok &= R.check(good, 'value-format ' + key, lambda: 'term %s has %s %s, declared %s %s' % (k, type(v), getattr(v, 'shape', None), m.format, m.shape))
        if not good:
            return False
    if not ok:
        return False
    got = val_of(m, shape)
    tol = 1e-7 if cls is BlochModel or any(h.startswith(('around', 'rotk')) for h in st.hist) else 1e-11
    for g, r in zip(got, ref):
        if not R.check(close(g, r, tol), 'value ' + key, lambda: 'history %s\ngot\n%s\nexpected\n%s' % (st.hist, g, r)):
            return False
    return True


def reject_ops(st, R, case):
    """Operands of the wrong shape or storage must be refused."""
    m, shape, fmt = st.m, st.ref[0].shape, fmt_of(st.m)
    if not m.data:
        return
    key = 'reject-const %s %s' % (case, '.'.join(st.hist))
    if len(shape) == 2:
        bad = gen((max(shape) + 4, max(shape) + 4), 3)
        R.fails(Exception, key + '+', lambda: m + bad, 'array of the wrong shape')
        R.fails(Exception, key + '-', lambda: m - bad, 'array of the wrong shape')
        R.fails(Exception, key + 'r+', lambda: bad + m, 'array of the wrong shape')
        R.fails(Exception, key + '@', lambda: m @ bad, 'array of the wrong shape')
        R.fails(Exception, key + 'r@', lambda: bad @ m, 'array of the wrong shape')
        R.fails(Exception, key + '+1', lambda: m + 1, 'number added to a matrix model')
        R.fails(Exception, key + '/', lambda: m / bad, 'division by an array')
    if fmt == 'dense':
        R.fails(Exception, key + '+s', lambda: m + sp.csr_matrix(gen(shape, 3).reshape(shape[0], -1)), 'sparse constant')


def fingerprint(st):
    return (fmt_of(st.m), tuple(sorted(map(str, st.m.keys()))), st.ref[0].shape, rnd(st.ref[0], 4), rnd(st.ref[1], 4))


def successors(st, seeds, bloch, R, case):
    """Apply every enabled operation; yields new states (real result, reference)."""
    for nm, f, g in unary_ops(st, bloch):
        if g == 'ROT':
            # value of rotated model at k = old model evaluated at R k; use the library-independent evaluator
            R3 = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]])
            ref = []
            for env in PTS:
                k = R3 @ np.array([env['k_x'], env['k_y'], env['k_z']])
                ref.append(ev_model(st.m, dict(env, k_x=k[0], k_y=k[1], k_z=k[2]), st.ref[0].shape))
        elif isinstance(g, list):
            ref = [gi(v) for gi, v in zip(g, st.ref)]
        else:
            ref = [g(v) for v in st.ref]
        R.step()
        yield S(f(st.m), [np.asarray(r, complex) for r in ref], st.hist + (nm,))
    shape, fmt = st.ref[0].shape, fmt_of(st.m)
    for nm, (sm, sref, sfmt) in seeds.items():
        sshape = sref[0].shape
        # addition / subtraction, both orders
        if sshape == shape and sfmt == fmt:
            for op, f, g in (('+', lambda x, y: x + y, lambda x, y: x + y), ('-', lambda x, y: x - y, lambda x, y: x - y)):
                R.step(2)
                yield S(f(st.m, sm), [g(x, y) for x, y in zip(st.ref, sref)], st.hist + (op + nm,))
                yield S(f(sm, st.m), [g(y, x) for x, y in zip(st.ref, sref)], st.hist + (nm + op,))
        elif st.m.data and sm.data:
            R.fails(Exception, 'reject %s %s+%s' % (case, '.'.join(st.hist), nm), lambda: st.m + sm, 'adding %s %s to %s %s' % (fmt, shape, sfmt, sshape))
        # elementwise product
        if (fmt in ('dense', 'scalar') and sfmt in ('dense', 'scalar') and (shape == sshape or shape == () or sshape == ())) \
                or (fmt == 'scalar' and sfmt in ('csr', 'csc')) or (sfmt == 'scalar' and fmt in ('csr', 'csc')):
            R.step(2)
            yield S(st.m * sm, [x * y for x, y in zip(st.ref, sref)], st.hist + ('*' + nm,))
            yield S(sm * st.m, [y * x for x, y in zip(st.ref, sref)], st.hist + (nm + '*',))
        elif st.m.data and sm.data and len(shape) == 2 and ({fmt, sfmt} & {'csr', 'csc', 'coo', 'linop'}) \
                and 'scalar' not in (fmt, sfmt):
            R.fails(Exception, 'reject-mul %s %s*%s' % (case, '.'.join(st.hist), nm), lambda: st.m * sm, 'elementwise %s * %s' % (fmt, sfmt))
        # matrix product
        if fmt == sfmt and fmt in ('dense', 'csr', 'csc', 'linop') and len(shape) == 2 and len(sshape) == 2:
            if shape[1] == sshape[0]:
                R.step()
                yield S(st.m @ sm, [x @ y for x, y in zip(st.ref, sref)], st.hist + ('@' + nm,))
            elif st.m.data and sm.data:
                R.fails(Exception, 'reject-matmul %s %s@%s' % (case, '.'.join(st.hist), nm), lambda: st.m @ sm)
            if sshape[1] == shape[0]:
                R.step()
                yield S(sm @ st.m, [y @ x for x, y in zip(st.ref, sref)], st.hist + (nm + '@',))


def explore(R, start, seeds, depth, case, momenta, cls, bloch=False, max_keys=14, extra=None, inv=None):
    """BFS over operation sequences of length <= depth from `start`."""
    if not meta_check(R, start, case, momenta, cls):
        return
    R.trace()
    R.state(fingerprint(start))
    frontier = [start]
    for d in range(depth):
        new = []
        for st in frontier:
            reject_ops(st, R, case)
            more = extra(st) if extra else ()
            for nx in itertools.chain(successors(st, seeds, bloch, R, case), more):
                if not meta_check(R, nx, case, momenta, cls):
                    return
                R.trace()
                R.outcome(rnd(nx.ref[0], 3))
                if nx.m.format is np.ndarray and nx.ref[0].shape == ():
                    continue        # 0-d arrays are an export format, not an operand
                if not R.state(fingerprint(nx)):
                    continue
                if inv:
                    inv(nx)
                if len(nx.m) <= max_keys:
                    new.append(nx)
        frontier = new
    R.sample = dict(case=case, last_history=list(frontier[-1].hist) if frontier else [])
