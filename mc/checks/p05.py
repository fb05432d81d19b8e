"""P05: parsing and exporting Hamiltonians preserves the function."""
import inspect
import itertools

import numpy as np
import sympy

from mc.core import ev, ev_model, close, points, gen
from qsymm.model import Model, BlochModel
from qsymm import kwant_continuum as kc

ASSUMPTIONS = ['functions are compared at 2 fixed irrational points with positive parameters',
               'generators of monomials occur polynomially (also with negative powers), coefficients are larger than 1e-7']
BOUNDS = {'quick': 'all expressions with up to 2 binary operations over 13 scalar leaves (second operation over 6), all matrix expressions scalar*matrix + scalar*matrix over 12 matrix leaves x 10 scalars, 21 symbol names, 16 sets of user definitions, dict/nested-list/sympy forms, 14 coefficients from 3e-7 to 1e8 with many digits in 8 scalar and matrix expressions; 8 x 8 complex coefficients and parameters whose real and imaginary parts differ by many orders; monomials for every subset of 4 generators on 60 polynomials',
          'thorough': 'second operation over all leaves'}

PTS = [{k: abs(v) + 0.1 if not k.startswith('k') else v for k, v in p.items()}
       for p in points(2, ('k_x', 'k_y', 'k_z', 'a', 'b', 'alpha', 'V_0', 'x', 'y', 'c', 'd', 'p'))]

sx = np.array([[0, 1], [1, 0]], complex)
sy = np.array([[0, -1j], [1j, 0]])
sz = np.diag([1.0 + 0j, -1])
s0 = np.eye(2, dtype=complex)

# leaves: text -> value(env)
LEAVES = [
    ('k_x', lambda E: E['k_x']), ('k_y', lambda E: E['k_y']), ('a', lambda E: E['a']), ('alpha', lambda E: E['alpha']),
    ('2', lambda E: 2), ('1.5', lambda E: 1.5), ('I', lambda E: 1j),
    ('e**(I*k_x)', lambda E: np.exp(1j * E['k_x'])), ('sin(k_x)', lambda E: np.sin(E['k_x'])),
    ('cos(2*k_y - a)', lambda E: np.cos(2 * E['k_y'] - E['a'])), ('exp(I*(k_x + k_y))', lambda E: np.exp(1j * (E['k_x'] + E['k_y']))),
    ('sqrt(2)', lambda E: np.sqrt(2)), ('exp(-b)', lambda E: np.exp(-E['b'])),
]
OPS = [('(%s) + (%s)', lambda x, y: x + y), ('(%s) - (%s)', lambda x, y: x - y), ('(%s)*(%s)', lambda x, y: x * y)]
UNI = [('%s', lambda x: x), ('-(%s)', lambda x: -x), ('(%s)**2', lambda x: x ** 2), ('(%s)/4', lambda x: x / 4)]

MATS = [
    ('sigma_0', s0), ('sigma_x', sx), ('sigma_y', sy), ('sigma_z', sz), ('eye(2)', s0), ('identity(2)', s0),
    ('kron(sigma_x, sigma_y)', np.kron(sx, sy)), ('kron(sigma_y, sigma_x)', np.kron(sy, sx)),
    ('kron(sigma_z, sigma_0)', np.kron(sz, s0)), ('sigma_x*sigma_y', sx @ sy), ('sigma_y*sigma_x', sy @ sx),
    ('kron(sigma_x, sigma_y, sigma_z)', np.kron(np.kron(sx, sy), sz)), ('kron(eye(3), sigma_y)', np.kron(np.eye(3), sy)),
    ('(sigma_x + I*sigma_y)/2', (sx + 1j * sy) / 2), ('sigma_z**2', s0),
]
NAMES = ['E', 'S', 'N', 'Q', 'C', 'O', 'beta', 'gamma', 'zeta', 'mu', 't_1', 'm', 'x_0', 'Delta', 'epsilon', 'xi', 'B_x',
         'v', 'M', 'tau']


def cases(tier):
    out = [dict(t='scalar', i=i, j=j, full=tier != 'quick') for i in range(len(LEAVES)) for j in range(len(LEAVES))]
    out += [dict(t='matrix', i=i) for i in range(len(MATS))]
    out += [dict(t='names'), dict(t='locals'), dict(t='forms'), dict(t='ops'), *[dict(t='dicts', i=i) for i in range(7)]]
    out += [dict(t='monomials', i=i) for i in range(len(POLYS))]
    return out


def run_case(desc, R):
    globals()['case_' + desc['t']](desc, R)


def names_of(txt):
    ex = sympy.sympify(txt, locals={'e': sympy.Symbol('e', positive=True), 'E': sympy.Symbol('E')})
    return ex


def check_text(R, txt, val, shape=(1, 1), export=True, args=None, **kw):
    """Model(text) equals the function; export returns the same function."""
    m = Model(txt, **kw)
    R.step()
    for E in PTS:
        want = np.asarray(val(E), complex).reshape(shape)
        if not R.check(close(ev_model(m, E, shape), want), 'parse ' + str(txt), lambda: 'read as %s, expected %s at %s' % (m, want, E)):
            return m
    R.check(not m.data or tuple(m.shape) == shape, 'parse-shape ' + str(txt), lambda: m.shape)
    R.state(str(txt))
    R.trace()
    if not export:
        return m
    check_export(R, str(txt), m, val, shape)
    return m


def free(m):
    return {s.name for k in m.keys() for s in sympy.sympify(k).atoms(sympy.Symbol)} - {'e'}


def check_export(R, key, m, val, shape):
    E = PTS[0]
    want = np.asarray(val(E), complex).reshape(shape)
    R.step(3)
    if not m.data and len(shape) == 2 and m.shape == tuple(shape):
        for ns in (False, True):
            ts = m.tosympy(nsimplify=ns)
            R.check(getattr(ts, 'is_Matrix', False) and ts.shape == tuple(shape) and all(x == 0 for x in ts), 'tosympy(%s) of zero' % ns, lambda: '%s for %s' % (ts, m))
    if m.data:
        for ns in (False, True):
            ts = m.tosympy(nsimplify=ns)
            if hasattr(ts, 'shape') and ts.shape != ():
                got = np.array([ev(x, E) for x in np.array(ts.tolist()).ravel()]).reshape(shape)
            else:
                got = np.array([ev(ts, E)]).reshape(shape)
            R.check(close(got, want, 1e-6), 'tosympy(%s) %s' % (ns, key), lambda: '%s for %s' % (ts, m))
        f = m.lambdify()
        args = list(inspect.signature(f).parameters)
        R.check(set(args) == free(m) and args == sorted(args), 'lambdify-args ' + key, lambda: '%s for %s' % (args, m))
        if set(args) <= set(E):
            got = np.asarray(f(*[E[x] for x in args]), complex)
            R.check(close(got.reshape(-1), want.reshape(-1), 1e-6), 'lambdify ' + key, lambda: '%s, expected %s' % (got, want))
            got = np.asarray(f(**{x: E[x] for x in args}), complex)
            R.check(close(got.reshape(-1), want.reshape(-1), 1e-6), 'lambdify-kw ' + key, lambda: '%s' % got)
        got = m.evalf(subs={sympy.Symbol(x): E[x] for x in free(m)})
        R.check(close(np.asarray(got, complex).reshape(-1), want.reshape(-1), 1e-6), 'evalf ' + key, lambda: '%s, expected %s' % (got, want))
    R.outcome(len(m))


def case_scalar(desc, R):
    (t1, f1), (t2, f2) = LEAVES[desc['i']], LEAVES[desc['j']]
    third = LEAVES if desc['full'] else [LEAVES[i] for i in (0, 2, 5, 6, 7, 8)]
    for (o, g), (u, h) in itertools.product(OPS, UNI):
        txt = u % (o % (t1, t2))
        val = lambda E: h(g(f1(E), f2(E)))
        check_text(R, txt, val, export=(u == '%s'))
    for (o1, g1), (o2, g2) in itertools.product(OPS, OPS):
        for t3, f3 in third:
            txt = o2 % (o1 % (t1, t2), t3)
            check_text(R, txt, lambda E: g2(g1(f1(E), f2(E)), f3(E)), export=False)
    R.sample = dict(expr=txt)


def case_matrix(desc, R):
    t1, M1 = MATS[desc['i']]
    scal = LEAVES[:10]
    for t2, M2 in MATS:
        if M1.shape != M2.shape:
            continue
        for (a, fa), (b, fb) in itertools.product(scal, scal):
            txt = '(%s)*%s - (%s)*(%s)' % (a, t1, b, t2)
            check_text(R, txt, lambda E: fa(E) * M1 - fb(E) * M2, shape=M1.shape, export=(a in ('k_x', 'e**(I*k_x)') and b in ('alpha', 'I')))
    for a, fa in scal:
        # kron with a symbolic factor inside, products of matrices
        check_text(R, 'kron((%s)*%s, sigma_y)' % (a, t1), lambda E: np.kron(fa(E) * M1, sy), shape=tuple(2 * x for x in M1.shape), export=False)
        check_text(R, '(%s)*(%s)*(%s)' % (a, t1, t1), lambda E: fa(E) * M1 @ M1, shape=M1.shape, export=False)
        check_text(R, 'kron(eye(2), %s)*(%s)' % (t1, a), lambda E: fa(E) * np.kron(s0, M1), shape=tuple(2 * x for x in M1.shape), export=False)


def case_names(desc, R):
    for n in NAMES:
        E0 = dict(PTS[0], **{n: 0.731})
        for txt, val in (('%s*k_x + 1', lambda E: E[n] * E['k_x'] + 1), ('2*%s', lambda E: 2 * E[n]),
                         ('k_x*%s**2 - e**(I*k_x)*%s', lambda E: E['k_x'] * E[n] ** 2 - np.exp(1j * E['k_x']) * E[n])):
            txt = txt.replace('%s', n)
            m = Model(txt)
            R.step()
            R.check(close(ev_model(m, E0, (1, 1)), [[val(E0)]]), 'name ' + txt, lambda: str(m))
            R.check(n in free(m), 'name-free ' + txt, lambda: str(m))
            f = m.lambdify()
            args = list(inspect.signature(f).parameters)
            R.check(set(args) == free(m) and args == sorted(args), 'name-args ' + txt, lambda: args)
            R.check(close(np.ravel(f(**{x: E0[x] for x in args})), [val(E0)]), 'name-lambdify ' + txt)
            R.state(txt)
            R.trace()
        mx = Model('%s*sigma_x + k_y*sigma_y' % n)
        R.check(close(ev_model(mx, E0), E0[n] * sx + E0['k_y'] * sy), 'name-matrix ' + n, lambda: str(mx))
    # several parameters, capital and small names
    for ns in itertools.combinations(('A', 'B', 'a', 'b', 'k_x', 'M_0', 'm1', 'm10', 'm2'), 3):
        m = Model('%s*%s*sigma_0 + %s*k_y*sigma_z' % ns)
        args = list(inspect.signature(m.lambdify()).parameters)
        R.step()
        R.state('order', ns)
        R.check(args == sorted({*ns, 'k_y'}), 'lambdify: order of the arguments', lambda: '%s: %s' % (ns, args))
    # pi and I are numbers
    check_text(R, 'pi*a', lambda E: np.pi * E['a'])
    check_text(R, 'I*a', lambda E: 1j * E['a'])


LOCALS = [
    ({'k': 'k_x + I*k_y'}, 'a*k**2', lambda E: E['a'] * (E['k_x'] + 1j * E['k_y']) ** 2, (1, 1)),
    ({'sigma_plus': [[0, 2], [0, 0]]}, 'k_x*sigma_plus', lambda E: E['k_x'] * np.array([[0, 2], [0, 0]]), (2, 2)),
    ({'sigma_plus': '[[0, 2], [0, 0]]'}, 'k_x**2*sigma_plus', lambda E: E['k_x'] ** 2 * np.array([[0, 2], [0, 0]]), (2, 2)),
    ({'M': np.array([[1, 2j], [-2j, 3]])}, 'k_x*M + M*M', lambda E: E['k_x'] * np.array([[1, 2j], [-2j, 3]]) + np.array([[1, 2j], [-2j, 3]]) @ np.array([[1, 2j], [-2j, 3]]), (2, 2)),
    ({'b': 'b + c'}, 'a + b', lambda E: E['a'] + E['b'] + E['c'], (1, 1)),
    ({'V': 'V_0'}, 'k_x**2 + V', lambda E: E['k_x'] ** 2 + E['V_0'], (1, 1)),
    ({'sigma_x': [[1, 0], [0, 5]]}, 'sigma_x*a', lambda E: E['a'] * np.diag([1, 5]), (2, 2)),
    ({'a': 2}, 'a*k_x', lambda E: 2 * E['k_x'], (1, 1)),
    ({'a': 'b', 'b': 'a'}, 'a - 2*b', lambda E: E['b'] - 2 * E['a'], (1, 1)),
    ({'s': 'sigma_z'}, 'kron(s, sigma_x)*a', lambda E: E['a'] * np.kron(sz, sx), (4, 4)),
    ({'f': 'sin(k_x)'}, 'f*sigma_y', lambda E: np.sin(E['k_x']) * sy, (2, 2)),
    ({'t': 0.25}, 't*e**(I*k_x)', lambda E: 0.25 * np.exp(1j * E['k_x']), (1, 1)),
    ({'k': sympy.Symbol('k_x')}, 'k**2', lambda E: E['k_x'] ** 2, (1, 1)),
    ({'A': [['a', 'k_x'], ['k_x', 'b']]}, 'A*sigma_x', lambda E: np.array([[E['a'], E['k_x']], [E['k_x'], E['b']]]) @ sx, (2, 2)),
    ({'A': sympy.Matrix([[1, 2], [3, 4]])}, 'kron(A, sigma_0)', lambda E: np.kron([[1, 2], [3, 4]], s0), (4, 4)),
    ({'k_x': 'p'}, 'k_x*a', lambda E: E['p'] * E['a'], (1, 1)),
]


def case_locals(desc, R):
    for loc, txt, val, shape in LOCALS:
        before = {k: repr(v) for k, v in loc.items()}
        m = Model(txt, locals=loc)
        R.step()
        for E in PTS:
            R.check(close(ev_model(m, E, shape), np.asarray(val(E), complex).reshape(shape)), 'locals %s %s' % (loc, txt), lambda: str(m))
        R.check(before == {k: repr(v) for k, v in loc.items()}, 'locals-mutated %s' % (loc,))
        R.state(txt, str(loc))
        R.trace()
        # parsing without the definitions is unaffected afterwards
        m2 = Model('a*sigma_x + b*sigma_0')
        R.check(close(ev_model(m2, PTS[0]), PTS[0]['a'] * sx + PTS[0]['b'] * s0), 'after-locals %s' % (loc,), lambda: str(m2))
    for bad in ({'lambda': 1}, {'1a': 1}, {'a b': 2}, {3: 'a'}):
        R.fails(Exception, 'bad-locals %s' % bad, lambda: kc.sympify('a', locals=bad))


# many digits, very different sizes
DIGITS = ['1.23456789012345', '0.000001234567890123', '3.3e-7', '123456789.123456', '2e5', '1/3', '1/700003', '22/7', '-0.1234567891', '1e-3', '0.30000000000001', '7654321', 'sqrt(2)/10**5', 'pi/10**6']


def case_digits(R, c):
    """coefficients keep all of their digits whatever their size and place"""
    v = float(sympy.sympify(c))
    forms = [('(%s)*k_x' % c, [[lambda E: v * E['k_x']]]), ('(%s)*k_x + a*1.5' % c, [[lambda E: v * E['k_x'] + 1.5 * E['a']]]), ('(%s)*I*e**(I*k_x)*a' % c, [[lambda E: 1j * v * np.exp(1j * E['k_x']) * E['a']]]),
             ('(%s)*cos(k_y)' % c, [[lambda E: v * np.cos(E['k_y'])]]),
             ('[[0, (%s)*k_x], [(%s)*k_x, a]]' % (c, c), [[lambda E: 0, lambda E: v * E['k_x']], [lambda E: v * E['k_x'], lambda E: E['a']]]),
             ('[[k_x, (%s)*k_x*I], [(%s)*a, 2*k_x]]' % (c, c), [[lambda E: E['k_x'], lambda E: 1j * v * E['k_x']], [lambda E: v * E['a'], lambda E: 2 * E['k_x']]]),
             ('[[(%s)*k_x + a, 1, (%s)*a + 2*k_x]]' % (c, c), [[lambda E: v * E['k_x'] + E['a'], lambda E: 1, lambda E: v * E['a'] + 2 * E['k_x']]]),
             ('(%s)*k_x*sigma_x + a*(%s)*sigma_y + sigma_z' % (c, c), [[lambda E: 1, lambda E: v * E['k_x'] - 1j * v * E['a']], [lambda E: v * E['k_x'] + 1j * v * E['a'], lambda E: -1]])]
    for txt, want in forms:
        for inp, kind in ((txt, 'text'), (kc.sympify(txt), 'sympy')):
            m = Model(inp)
            R.step()
            R.state(txt, kind)
            for E in PTS:
                got = np.asarray(ev_model(m, E, (len(want), len(want[0]))))
                w = np.array([[f(E) for f in r] for r in want], complex)
                R.check(np.all(np.abs(got - w) <= 1e-12 * (abs(v) + np.abs(w))), 'digits %s %s' % (kind, txt), lambda: '%s: %s instead of %s' % (m, got, w))
            f = m.lambdify()
            args = list(inspect.signature(f).parameters)
            got = np.asarray(f(*[E[x] for x in args]), complex).reshape(w.shape)
            R.check(np.all(np.abs(got - w) <= 1e-12 * (abs(v) + np.abs(w))), 'digits-lambdify %s %s' % (kind, txt), lambda: '%s: %s instead of %s' % (m, got, w))
            R.trace()


def parts_close(x, y, tol=1e-11):
    """real and imaginary parts agree, each on its own scale"""
    x, y = np.asarray(x, complex), np.asarray(y, complex)
    return x.shape == y.shape and bool(np.all(np.abs(x.real - y.real) <= tol * np.abs(y.real)) and np.all(np.abs(x.imag - y.imag) <= tol * np.abs(y.imag)))


PARTS = [1 + 1e-8j, 1e-9 + 1j, 1e6 + 1e-4j, -2.5 + 3e-7j, 1e-7 - 1e7j, 3.0, 2j, 1 / 3 + 1e-6j]


def case_parts(R):
    """Small imaginary (real) parts survive every form of export, also those of the parameters."""
    a, kx = sympy.symbols('a k_x')
    for v in PARTS:
        for w in PARTS:
            for nm, m, f in (('scalar', Model({'a': complex(v)}, momenta=['k_x']), lambda x: v * x),
                             ('1x1', Model({'a': np.array([[v]])}, momenta=['k_x']), lambda x: np.array([[v * x]])),
                             ('2x1', Model({'a': np.array([[v], [0]]), 'a*k_x': np.array([[0], [w]])}, momenta=['k_x']), lambda x: np.array([[v * x], [w * x]])),
                             ('2x2', Model({'a': np.array([[v, 0], [0, 0]]), 'a**2': np.array([[0, 0], [w, 0]])}, momenta=['k_x']), lambda x: np.array([[v * x, 0], [w * x ** 2, 0]]))):
                if nm in ('scalar', '1x1') and w != PARTS[0]:
                    continue
                R.step(5)
                R.state('parts', nm, v, w)
                R.trace()
                key = 'parts %s %s %s' % (nm, v, w)
                want = f(1)
                for ns in (False, True):
                    ts = m.tosympy(nsimplify=ns)
                    flat = [ts] if nm == 'scalar' else list(ts)
                    got = np.array([complex(sympy.sympify(x).subs({a: 1, kx: 1}).evalf(20)) for x in flat]).reshape(np.shape(want))
                    R.check(parts_close(got, want), key + ' tosympy(%s)' % ns, lambda: '%s instead of %s' % (got, want))
                    fn = m.lambdify(nsimplify=ns)
                    got = fn(**{x: 1 for x in inspect.signature(fn).parameters})
                    R.check(parts_close(np.reshape(got, np.shape(want)), want), key + ' lambdify(%s)' % ns, lambda: '%s instead of %s' % (got, want))
                for x in (1, 2.0, w, 1e5 + 1e-5j):
                    got = m.evalf(subs={'a': x, 'k_x': 1})
                    want = f(complex(x))
                    # products of two complex numbers cancel: compare on the scale of the product
                    R.check(close(got, want, 1e-12) if isinstance(x, complex) and x != 1 else parts_close(got, want), key + ' evalf(%s)' % x, lambda: '%s instead of %s' % (got, want))
    one = Model({'a': np.eye(2)}, momenta=['k_x'])
    for v in PARTS:
        R.step()
        got = one.evalf(subs={'a': v})
        R.check(parts_close(got, v * np.eye(2)), 'evalf of the parameter %s' % v, lambda: str(got))


def case_forms(desc, R):
    """The same Hamiltonian as text, list of lists, sympy expression / matrix."""
    kx, ky, a, b = sympy.symbols('k_x k_y a b')
    e = kc.e
    forms = [
        ('[[a, k_x - I*k_y], [k_x + I*k_y, -a]]', sympy.Matrix([[a, kx - sympy.I * ky], [kx + sympy.I * ky, -a]]),
         [['a', 'k_x - I*k_y'], ['k_x + I*k_y', '-a']], lambda E: np.array([[E['a'], E['k_x'] - 1j * E['k_y']], [E['k_x'] + 1j * E['k_y'], -E['a']]]), (2, 2)),
        ('[[cos(k_x), 0], [a*sin(k_x), 1]]', sympy.Matrix([[sympy.cos(kx), 0], [a * sympy.sin(kx), 1]]),
         [['cos(k_x)', 0], ['a*sin(k_x)', 1]], lambda E: np.array([[np.cos(E['k_x']), 0], [E['a'] * np.sin(E['k_x']), 1]]), (2, 2)),
        ('[[a*k_x, 2, b]]', sympy.Matrix([[a * kx, 2, b]]), [['a*k_x', 2, 'b']], lambda E: np.array([[E['a'] * E['k_x'], 2, E['b']]]), (1, 3)),
        ('[[e**(I*k_x)], [b]]', sympy.Matrix([[e ** (sympy.I * kx)], [b]]), [['e**(I*k_x)'], ['b']], lambda E: np.array([[np.exp(1j * E['k_x'])], [E['b']]]), (2, 1)),
        ('a*cos(k_x + k_y)*exp(I*b)', a * sympy.cos(kx + ky) * sympy.exp(sympy.I * b), None,
         lambda E: E['a'] * np.cos(E['k_x'] + E['k_y']) * np.exp(1j * E['b']), (1, 1)),
        ('(k_x + a)**3/b', (kx + a) ** 3 / b, None, lambda E: (E['k_x'] + E['a']) ** 3 / E['b'], (1, 1)),
        ('sin(k_x)**2 + cos(k_x)**2', sympy.sin(kx) ** 2 + sympy.cos(kx) ** 2, None, lambda E: 1, (1, 1)),
        ('sin(a)*cos(b) + 2', sympy.sin(a) * sympy.cos(b) + 2, None, lambda E: np.sin(E['a']) * np.cos(E['b']) + 2, (1, 1)),
        ('[[0, 0], [0, k_x]]', sympy.Matrix([[0, 0], [0, kx]]), [[0, 0], [0, 'k_x']], lambda E: np.array([[0, 0], [0, E['k_x']]]), (2, 2)),
        ('a - a + 3', sympy.Integer(3), None, lambda E: 3, (1, 1)),
        ('e**(I*k_x)*e**(-I*k_x)*a', a, None, lambda E: E['a'], (1, 1)),
    ]
    for txt, ex, lst, val, shape in forms:
        m = check_text(R, txt, val, shape)
        ms = Model(ex)
        R.step(2)
        R.check(ms == m, 'sympy-form ' + txt, lambda: '%s vs %s' % (ms, m))
        check_export(R, 'sympy:' + txt, ms, val, shape)
        if lst is not None:
            ml = Model(lst)
            R.check(ml == m, 'list-form ' + txt, lambda: '%s vs %s' % (ml, m))
        # export and read again
        if shape == (2, 2):
            back = Model(m.tosympy())
            R.check(back == m, 'reread ' + txt, lambda: '%s vs %s' % (back, m))
        for mom in (('k_x', 'k_y'), ('k_y',), ('a', 'k_x'), (kx, ky)):
            mm = Model(txt, momenta=mom)
            R.step()
            R.check(tuple(map(str, mm.momenta)) == tuple(map(str, mom)), 'momenta %s %s' % (txt, mom), lambda: mm.momenta)
            for E in PTS[:1]:
                R.check(close(ev_model(mm, E, shape), np.asarray(val(E), complex).reshape(shape)), 'momenta-value %s %s' % (txt, mom), lambda: str(mm))
        R.trace()
    for digits in DIGITS:
        case_digits(R, digits)
    case_parts(R)
    for bad in ((0, 1), ('k_x', 2)):
        R.fails(Exception, 'int-momenta %s' % (bad,), lambda: Model('k_x', momenta=bad))
    # onsite / hopping signatures
    m = Model('a*k_x*sigma_x + [[1, 0], [0, b]]*1' if False else 'a*k_x*sigma_x + b*sigma_z')
    for kw, extra in (({}, []), ({'onsite': True}, ['site']), ({'hopping': True}, ['site1', 'site2'])):
        f = m.lambdify(**kw)
        args = list(inspect.signature(f).parameters)
        R.check(args == extra + ['a', 'b', 'k_x'], 'signature %s' % kw, args)
        got = f(*([None] * len(extra)), 1.1, 0.3, -0.4)
        R.check(close(got, 1.1 * -0.4 * sx + 0.3 * sz), 'signature-value %s' % kw, got)
        R.trace()
    R.fails(ValueError, 'onsite+hopping', lambda: m.lambdify(onsite=True, hopping=True))
    for ns in (True, False):
        f = Model('a*k_x/3*sigma_x').lambdify(nsimplify=ns)
        R.check(close(f(2, 3), 2 * sx), 'nsimplify %s' % ns)
        fb = BlochModel('a*cos(k_x/3)*sigma_x').lambdify(nsimplify=ns)
        R.check(close(fb(2, 3), 2 * np.cos(1) * sx), 'nsimplify-bloch %s' % ns)


def case_ops(desc, R):
    """Operator ordering: positions and momenta do not commute until made commutative."""
    pos, mom = ('x', 'y', 'z'), ('k_x', 'k_y', 'k_z')
    ops = pos + mom
    for o1, o2 in itertools.permutations(ops, 2):
        ex = kc.sympify('%s*%s - %s*%s' % (o1, o2, o2, o1))
        R.step()
        R.check(ex != 0, 'commutes %s %s' % (o1, o2))
        s1, s2 = kc.sympify(o1), kc.sympify(o2)
        R.check(kc.make_commutative(ex, s1, s2) == 0, 'make_commutative %s %s' % (o1, o2), lambda: kc.make_commutative(ex, s1, s2))
        R.check(not s1.is_commutative and kc.make_commutative(s1, s1).is_commutative, 'symbol %s' % o1)
        # only the named symbols become commutative
        part = kc.make_commutative(kc.sympify('%s*%s' % (o1, o2)), s1)
        R.check({s.name: s.is_commutative for s in part.atoms(sympy.Symbol)} == {o1: True, o2: False}, 'partial %s %s' % (o1, o2), part)
        par = kc.sympify('%s*a*%s - a*%s*%s' % (o1, o2, o1, o2))
        R.check(sympy.expand(par) == 0, 'parameter-commutes %s %s' % (o1, o2), par)
        R.state(o1, o2)
        R.trace()
    for txt, args in (('k_x*A(x)*k_x + V(x)', ['A', 'V', 'k_x', 'x']), ('a + b', ['a', 'b']), ('sin(x)*k_y', ['k_y', 'sin', 'x']),
                      ('A(x) + A(y)', ['A', 'x', 'y']), ('k_x*A(x)*k_x + A(y)*V(x) + V(y)', ['A', 'V', 'k_x', 'x', 'y'])):
        f = kc.lambdify(txt)
        R.check(list(inspect.signature(f).parameters) == args, 'lambdify-args ' + txt, lambda: list(inspect.signature(f).parameters))
    f = kc.lambdify('a + b', locals={'b': 'b + c'})
    R.check(f(1, 3, 5) == 9, 'lambdify-doc')
    f = kc.lambdify('k_x**2 * sigma_plus', {'sigma_plus': [[0, 2], [0, 0]]})
    R.check(close(f(0.25), [[0, 0.125], [0, 0]]), 'lambdify-doc2')
    f = kc.lambdify('k_x*A(x)*k_x + V(x)')
    R.check(close(f(A=lambda x: 2 * x, V=lambda x: x ** 2, k_x=3, x=0.5), 9 * 1.0 + 0.25), 'lambdify-functions')
    f = kc.lambdify('A(x) - 3*A(y)*A(2*x)')
    R.check(close(f(A=lambda x: x ** 2 + 1, x=0.5, y=2), 1.25 - 30), 'lambdify-functions2')
    R.check(kc.sympify('k_x * A(c) * k_x', locals={'c': 'x'}) == kc.sympify('k_x*A(x)*k_x'), 'sympify-doc')
    R.check(kc.sympify('k_x**2 + V', locals={'V': 'V_0 + V(x)'}) == kc.sympify('k_x**2 + V(x) + V_0'), 'sympify-doc2')
    ex = sympy.Symbol('a') * sympy.sin(sympy.Symbol('b'))
    R.check({str(f.func) for f in kc.sympify(ex).atoms(sympy.Function, sympy.core.function.AppliedUndef)} == {'sin'}, 'sympy-function')


def case_dicts(desc, R):
    """Dictionary input with text and symbolic keys; export of models built from data."""
    keys = ['1', 'a', 'k_x', 'a*k_x**2', 'k_x*k_y/b', 'e**(I*k_x)', 'a*e**(-I*k_x + I*k_y)', 'e**(I*a)', 'sqrt(a)']
    ex = {k: sympy.sympify(k, locals={'e': kc.e}) for k in keys}
    for ks in list(itertools.combinations(keys, 3))[desc['i']::7]:
        for shape in ((2, 2), (1, 1), (2, 3)):
            d = {k: np.round(8 * gen(shape, i)) / 4 + 0.25 for i, k in enumerate(ks)}
            m = Model(d)
            m2 = Model({ex[k]: v for k, v in d.items()})
            R.step(2)
            val = lambda E: sum(ev(ex[k], E) * v for k, v in d.items())
            for E in PTS:
                R.check(close(ev_model(m, E, shape), val(E)), 'dict %s %s' % (ks, shape), lambda: str(m))
            R.check(m == m2, 'dict-symbolic %s %s' % (ks, shape), lambda: '%s vs %s' % (m, m2))
            for k in ks:
                R.check(close(m[k], d[k]) and close(m[ex[k]], d[k]), 'lookup %s %s' % (k, shape))
            R.check(close(m['b**7'], 0 * d[ks[0]]), 'lookup-absent')
            vl = m.value_list([ex[k] for k in ks] + ['b**5'])
            R.check(all(close(x, y) for x, y in zip(vl, list(d.values()) + [0 * d[ks[0]]])), 'value_list %s' % (ks,))
            check_export(R, 'dict %s %s' % (ks, shape), m, val, shape)
            R.state(ks, shape)
            R.trace()
    # ints, numpy scalars
    for v in (2, 2.5, 1j, np.float64(3), np.complex128(1 - 1j)):
        m = Model({'a': v, '1': 1})
        R.check(m.shape == () and m.format is np.complex128, 'scalar-format %r' % v, (m.shape, m.format))
        check_export(R, 'scalar %r' % v, m, lambda E: E['a'] * v + 1, ())


POLYS = ['1', 'a', 'x', 'x*a + b', 'A*(x**2 + y) + B*x + C', '(x + y)**3', '(x + a)*(y - b)*x', 'x**2*y/a', '1/x + x', 'a*b*x*y', '2*x - 3*y + I*a',
         '(a + b)**2', 'x*y*x', '(x - x)*a + y', 'sqrt(2)*x', '(x + 1)**4', 'a/x**2', 'a*(b + c*(x + d*y))', 'x**3 + x**2 + x + 1', '0.5*x*y + y*x/3']


def case_monomials(desc, R):
    txt = POLYS[desc['i']]
    syms = {n: sympy.Symbol(n) for n in ('x', 'y', 'a', 'b')}
    loc = {n: sympy.Symbol(n) for n in 'xyabcdABC'}
    expr = sympy.sympify(txt, locals=loc)
    for r in range(0, 5):
        for gens in itertools.combinations(('x', 'y', 'a', 'b'), r):
            gs = [syms[g] for g in gens]
            for e, kind in ((expr, 'scalar'), (sympy.Matrix([[expr, syms['x']], [0, 2 * expr]]), 'matrix')):
                mons = kc.monomials(e, gens=gs)
                R.step()
                tot = sum((k * v for k, v in mons.items()), sympy.zeros(2, 2) if kind == 'matrix' else sympy.Integer(0))
                diff = tot - e
                z = sympy.expand(diff) if kind == 'scalar' else diff.applyfunc(sympy.expand)
                R.check(z == 0 or (kind == 'matrix' and z == sympy.zeros(2, 2)), 'monomials-sum %s %s %s' % (txt, gens, kind), lambda: mons)
                for k, v in mons.items():
                    R.check(not (v.free_symbols & set(gs)), 'monomials-coeff %s %s %s' % (txt, gens, kind), lambda: mons)
                    R.check(sympy.sympify(k).free_symbols <= set(gs), 'monomials-key %s %s %s' % (txt, gens, kind), lambda: mons)
                    co = sympy.sympify(k).as_coeff_Mul()[0]
                    R.check(co == 1, 'monomials-number %s %s' % (txt, gens), lambda: mons)
                R.state(txt, gens, kind)
                R.outcome(len(mons))
                R.trace()
    # default generators: all symbols, coefficients are numbers
    mons = kc.monomials(expr)
    R.check(sympy.expand(sum(k * v for k, v in mons.items()) - expr) == 0, 'monomials-all ' + txt, lambda: mons)
    R.check(all(not v.free_symbols for v in mons.values()), 'monomials-all-coeff ' + txt, lambda: mons)
    # generators given by name, parsed expression
    e2 = kc.sympify(txt)
    m2 = kc.monomials(kc.make_commutative(e2, *[s for s in e2.atoms(sympy.Symbol)]), gens=['a', 'b'])
    R.check(all(not ({s.name for s in v.free_symbols} & {'a', 'b'}) for v in m2.values()), 'monomials-names ' + txt, lambda: m2)
