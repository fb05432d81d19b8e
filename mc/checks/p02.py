"""P02: lattice (Bloch) models and symbolic models are two forms of one function."""
import itertools

import numpy as np
import sympy

from mc import algebra as al
from mc.algebra import S, make_seed, seed_ref
from mc.core import ev, ev_model, ev_key, gen, close, points, rot2
from qsymm.model import Model, BlochModel, BlochCoeff

ASSUMPTIONS = ['functions are compared at 3 fixed irrational points',
               'hopping vectors are distinguished when they differ by more than 1e-4 and merged when they differ by less than 1e-10']
BOUNDS = {'quick': 'all operation sequences of length 2 (arithmetic, products, conjugation, rotation, substitution, conversions) from 10 lattice seeds in 4 shape/storage universes; all pairs and triples over 14 hopping vectors x 5 coefficients for merging; all products of 9 hopping factors x 9 coefficient factors as text input; 22 rejected inputs',
          'thorough': 'as quick with all partner seeds, plus sequences of length 3 from 4 seeds'}

UNIVERSES = {'d2': ((2, 2), 'dense', ('k_x', 'k_y')), 'sc': ((), 'scalar', ('k_x', 'k_y')),
             'csr': ((2, 2), 'csr', ('k_x', 'k_y')), 'd23': ((2, 3), 'dense', ('k_y', 'k_x'))}

HOPS = [(0, 0), (1, 0), (0, 1), (1, 1), (-1, 0), (1 / 3, 0), (1 / 3 + 1e-12, -1e-13), (1 / 3 + 1e-4, 0), (0.5, np.sqrt(3) / 2),
        (0.5, np.sqrt(3) / 2 + 1e-12), (0.5, -np.sqrt(3) / 2), (-0.0, 0.0), (1 - 1e-12, 0), (2, -1)]
COEFFS = ['1', 'a', 'b', 'a*b', 'a**2']

HFAC = ['1', 'e**(I*k_x)', 'e**(-I*k_x)', 'e**(I*(k_x + k_y))', 'e**(2*I*k_y/3)', 'cos(k_x)', 'sin(k_y - k_x)', 'exp(I*k_y)',
        'e**(I*k_x)*e**(-I*k_y)', 'cos(k_x + a)', 'e**(I*0.4*k_x)', 'e**(0.1234567*I*k_x)', 'e**(I*k_x + 0.7654321*I*a)']
CFAC = ['1', 'a', 'a**2/b', '2*I*a', 'sqrt(a)', 'a + b', 'e**(I*a)', 'cos(a)', '(a - b)**2', 'exp(b)', 'e**(0.1234567*I*b)']

REJECT = ['k_x', 'k_x*e**(I*k_x)', 'e**k_x', 'e**(I*a*k_x)', 'e**(I*k_x**2)', 'e**(I*k_x*k_y)', 'k_x**2', 'k_x + e**(I*k_x)',
          'sin(a*k_x)', 'e**(I*k_x) + e**(k_y)', 'a/k_x', 'cos(k_x)*k_y', 'k_x*a', 'e**(I*k_x + k_x)', 'sqrt(k_x)',
          'a*e**(-2*k_x)', 'e**(I*b*k_y)*a', 'a*k_y*b', 'k_x*k_y', 'b*e**(I*k_x*k_y)', 'e**(I*k_x)*e**(I*a*k_y)', 'a**k_x']


def cases(tier):
    out = []
    for u in UNIVERSES:
        for s in al.BSEEDS:
            out.append(dict(t='seq', u=u, seed=s, depth=2, partners=['b1', 'b2'] if tier == 'quick' else list(al.BSEEDS)))
    if tier == 'thorough':
        for s in ('b1', 'b2', 'bph', 'bfl'):
            out.append(dict(t='seq', u='d2', seed=s, depth=3, partners=['b1']))
    for i in range(len(HOPS)):
        out.append(dict(t='merge', i=i))
    for h in HFAC:
        out.append(dict(t='text', h=h))
    out.append(dict(t='reject'))
    return out


def run_case(desc, R):
    globals()['case_' + desc['t']](desc, R)


# ---------------------------------------------------------------------------

def subst_ops(names):
    """(name, args for subs, env -> env of the original, removed/renamed momenta)"""
    x, y = names
    k = {n: sympy.Symbol(n) for n in ('k_x', 'k_y', 'a', 'b', 'p', 'q')}
    return [
        ('a=2', (k['a'], 2), lambda e: dict(e, a=2)),
        ('a=b', (k['a'], k['b']), lambda e: dict(e, a=e['b'])),
        ('a=b**2', ({k['a']: k['b'] ** 2},), lambda e: dict(e, a=e['b'] ** 2)),
        ('a=0.7,b=1.3', ([(k['a'], 0.7), (k['b'], 1.3)],), lambda e: dict(e, a=0.7, b=1.3)),
    ]


def extra_ops(R, momenta):
    def extra(st):
        m, ref = st.m, st.ref
        shape = ref[0].shape
        rots = [('rot90', np.array([[0, -1], [1, 0]])), ('rot60', rot2(np.pi / 3)), ('mir', np.array([[1, 0], [0, -1]])),
                ('shear', np.array([[1, 1], [0, 1]]))]
        for nm, r in rots:
            new = []
            for env in al.PTS:
                kk = r @ np.array([env[n] for n in momenta])
                new.append(ev_model(m, dict(env, **dict(zip(momenta, kk))), shape))
            R.step()
            yield S(m.rotate_momenta(r), new, st.hist + (nm,))
        for nm, args, f in subst_ops(momenta):
            if shape == () and not m.data:
                continue
            new = [ev_model(m, f(env), shape) for env in al.PTS]
            R.step()
            r = m.subs(*args)
            if not r.data:      # an empty result carries no shape of its own
                r.shape, r.format = m.shape, m.format
            yield S(r, new, st.hist + (nm,))
        R.step(2)
        mm = m.tomodel()
        if not R.check(type(mm) is Model, 'tomodel-type', type(mm)):
            return
        yield S(BlochModel(mm), ref, st.hist + ('there-and-back',))
        yield S(BlochModel(m), ref, st.hist + ('rewrap',))
    return extra


def case_seq(desc, R):
    shape, fmt, momenta = UNIVERSES[desc['u']]
    mk = lambda n: make_seed(n, shape, fmt, BlochModel, momenta)
    seeds = {n: (mk(n), seed_ref(n, shape), fmt) for n in desc['partners']}
    if fmt != 'scalar':
        seeds['sc'] = (make_seed('b2', (), 'scalar', BlochModel, momenta), seed_ref('b2', ()), 'scalar')
    st = S(mk(desc['seed']), seed_ref(desc['seed'], shape), (desc['seed'],))
    case = '%s/%s' % (desc['u'], desc['seed'])
    n = [0]

    def inv(nx):
        m = nx.m
        key = '%s %s' % (case, '.'.join(nx.hist))
        for k in m.keys():
            if not R.check(isinstance(k, BlochCoeff), 'key-type ' + key, lambda: repr(k)):
                return
        ks = list(m.keys())
        for k1, k2 in itertools.combinations(ks, 2):
            same = np.allclose(k1[0], k2[0], atol=1e-9, rtol=0) and k1[1] == k2[1]
            R.check(not same, 'unmerged ' + key, lambda: '%s and %s' % (k1, k2))
        n[0] += 1
        if len(nx.hist) > 2 and n[0] % 5:
            return          # conversions of the longest histories: every fifth
        mm = m.tomodel()
        R.step()
        R.check(tuple(map(str, mm.momenta)) == momenta, 'tomodel-momenta ' + key, mm.momenta)
        for env, v in zip(al.PTS, nx.ref):
            if not R.check(close(ev_model(mm, env, v.shape), v), 'tomodel ' + key, lambda: str(m)):
                return
        if len(nx.hist) <= 2:
            mn = m.tomodel(nsimplify=True)
            R.check(tuple(map(str, mn.momenta)) == momenta, 'tomodel-nsimplify-momenta ' + key, mn.momenta)
            for env, v in zip(al.PTS, nx.ref):
                if not R.check(close(ev_model(mn, env, v.shape), v), 'tomodel-nsimplify ' + key, lambda: str(mn)):
                    return
            if m.data:
                R.check(BlochModel(mn) == m, 'roundtrip-nsimplify ' + key, lambda: '%s\nvs\n%s' % (mn, m))
        if m.shape == mm.shape and m.data:
            b = BlochModel(mm)
            R.check(b == m and m == b, 'roundtrip-eq ' + key, lambda: '%s\nvs\n%s' % (b, m))
        if fmt == 'dense' and m.data and len(nx.ref[0].shape) == 2:
            ts = m.tosympy()
            for env, v in zip(al.PTS[:1], nx.ref):
                got = np.array([[ev(ts[i, j], env) for j in range(ts.shape[1])] for i in range(ts.shape[0])]) \
                    if hasattr(ts, 'shape') and len(v.shape) == 2 and v.size > 1 else None
                if got is not None:
                    R.check(close(got, v), 'tosympy ' + key, lambda: str(ts))
        R.trace()

    al.explore(R, st, seeds, desc['depth'], case, momenta, BlochModel, bloch=True, extra=extra_ops(R, momenta), inv=inv)
    # symbolic and lattice forms of the same seeds commute with binary operations
    if fmt == 'dense':
        base = make_seed(desc['seed'], shape, fmt, Model, momenta)
        b = BlochModel(base)
        R.step()
        R.check(b == st.m, 'from-model ' + case, lambda: '%s vs %s' % (b, st.m))
        for n2 in desc['partners']:
            other = make_seed(n2, shape, fmt, Model, momenta)
            for nm, f in (('+', lambda x, y: x + y), ('-', lambda x, y: x - y), ('*', lambda x, y: x * y)):
                R.step(2)
                R.check(BlochModel(f(base, other)) == f(BlochModel(base), BlochModel(other)), 'commute %s %s%s' % (case, nm, n2))
                R.trace()


def case_merge(desc, R):
    """Identification of terms: all pairs (and triples) of coefficients."""
    terms = [(np.array(h, float), sympy.sympify(c)) for h in HOPS for c in COEFFS]
    h1 = np.array(HOPS[desc['i']], float)
    M = [gen((2, 2), j) for j in range(3)]
    momenta = ('k_x', 'k_y')
    for c1 in COEFFS:
        c1 = sympy.sympify(c1)
        k1 = BlochCoeff(h1.copy(), c1)
        for j, (h2, c2) in enumerate(terms):
            k2 = BlochCoeff(h2.copy(), c2)
            same = bool(np.max(np.abs(h1 - h2)) < 1e-9 and c1 == c2)
            key = '%s/%s/%s/%s' % (tuple(h1), c1, tuple(h2), c2)
            R.step(4)
            R.check(bool(k1 == k2) == same, 'coeff-eq ' + key)
            R.check((k1 != k2) == (not same), 'coeff-ne ' + key)
            if same:
                R.check(hash(k1) == hash(k2), 'coeff-hash ' + key)
            b = BlochModel({k1: M[0]}, momenta=momenta) + BlochModel({k2: M[1]}, momenta=momenta)
            R.check(len(b) == (1 if same else 2), 'merge ' + key, lambda: str(b))
            d = BlochModel({k1: M[0]}, momenta=momenta) - BlochModel({k2: M[0]}, momenta=momenta)
            R.check((d == {}) == same, 'cancel ' + key, lambda: str(d))
            ref = lambda env: (ev_key((h1, c1), env, b.momenta) * M[0] + ev_key((h2, c2), env, b.momenta) * M[1])
            for env in al.PTS:
                R.check(close(ev_model(b, env), ref(env)), 'merge-value ' + key, lambda: str(b))
            # the same through the symbolic form
            if j % 2 == desc['i'] % 2:
                m = Model({k1.tosympy([sympy.Symbol('k_x'), sympy.Symbol('k_y')]): M[0]}, momenta=momenta) \
                    + Model({k2.tosympy([sympy.Symbol('k_x'), sympy.Symbol('k_y')]): M[1]}, momenta=momenta)
                mb = BlochModel(m)
                R.step()
                R.check(len(mb) == (1 if same else 2), 'merge-symbolic ' + key, lambda: '%s\n%s' % (m, mb))
                for env in al.PTS:
                    R.check(close(ev_model(mb, env), ref(env)), 'merge-symbolic-value ' + key, lambda: '%s\n%s' % (m, mb))
            # products of coefficients
            p = k1 * k2
            R.check(isinstance(p, BlochCoeff) and close(p[0], h1 + h2) and p[1] == c1 * c2, 'coeff-mul ' + key)
            for sy in (sympy.Symbol('a'), sympy.Symbol('b') ** 2):
                R.check((k1 * sy) == BlochCoeff(h1, c1 * sy) and k1.__rmul__(sy) == BlochCoeff(h1, c1 * sy), 'coeff-symbol ' + key)
            R.state(key)
            R.outcome(same, len(b))
            R.trace()
        # lookup by an equal key, by text and absence
        m = BlochModel({k1: M[0]}, momenta=momenta)
        R.check(close(m[BlochCoeff(h1 + 1e-13, c1)], M[0]), 'lookup %s %s' % (h1, c1))
        R.check(close(m[BlochCoeff(h1 + 0.1, c1)], 0 * M[0]), 'lookup-absent %s %s' % (h1, c1))
        R.check(k1.copy() == k1 and k1.copy()[0] is not k1[0], 'coeff-copy %s' % h1)
        # three-term accumulation
        t = BlochModel({k1: M[0]}, momenta=momenta)
        s3 = t + t + t * (-2)
        R.check(s3 == {} and s3 == 0, 'cancel3 %s' % h1)
    R.fails((ValueError, TypeError), 'coeff-sum', lambda: BlochCoeff(h1, sympy.sympify('a + b')))
    R.fails((ValueError, TypeError), 'coeff-hop', lambda: BlochCoeff([0, 1], sympy.sympify('a')))
    R.fails((ValueError, TypeError), 'coeff-str', lambda: BlochCoeff(h1, 'a'))


def case_text(desc, R):
    h = desc['h']
    momenta = ('k_x', 'k_y')
    M = gen((2, 2), 5)
    for c in CFAC:
        for form in ('%s', '-2*%s + 1', '%s*e**(I*k_x/2)'):
            txt = form % ('(%s)*(%s)' % (c, h))
            ex = sympy.sympify(txt, locals={'e': al.E})
            key = txt
            bt = BlochModel(txt, momenta=momenta)
            R.step(3)
            for env in al.PTS:
                envp = {k: abs(v) if k in 'ab' else v for k, v in env.items()}
                v = ev(ex, envp)
                R.check(close(ev_model(bt, envp, (1, 1)), np.array([[v]])), 'text ' + key, lambda: '%s -> %s (expected %s)' % (txt, bt, v))
            mt = Model(txt, momenta=momenta)
            R.check(BlochModel(mt) == bt, 'text-vs-model ' + key, lambda: '%s vs %s' % (mt, bt))
            R.check(tuple(map(str, bt.momenta)) == momenta, 'text-momenta ' + key)
            mat = BlochModel('[[%s, 0], [1, 2*(%s)]]' % (txt, txt), momenta=momenta)
            for env in al.PTS[:1]:
                envp = {k: abs(v) if k in 'ab' else v for k, v in env.items()}
                v = ev(ex, envp)
                R.check(close(ev_model(mat, envp, (2, 2)), np.array([[v, 0], [1, 2 * v]])), 'matrix-text ' + key, lambda: str(mat))
            R.state(key)
            R.outcome(len(bt))
            R.trace()
        # dict input with a symbolic hopping key
        txt = '(%s)*(%s)' % (c, h)
        ex = sympy.sympify(txt, locals={'e': al.E})
        if 'cos' not in txt and 'sin' not in txt and 'exp(' not in txt and '+ b' not in txt:
            bd = BlochModel({ex: M}, momenta=momenta)
            R.step()
            for env in al.PTS:
                envp = {k: abs(v) if k in 'ab' else v for k, v in env.items()}
                R.check(close(ev_model(bd, envp, (2, 2)), ev(ex, envp) * M), 'dict ' + txt, lambda: str(bd))
            lam = BlochModel(bd).lambdify()
            import inspect
            args = list(inspect.signature(lam).parameters)
            env = {k: abs(v) if k in 'ab' else v for k, v in al.PTS[0].items()}
            got = lam(*[env[x] for x in args])
            R.check(close(got, ev(ex, env) * M), 'lambdify ' + txt, lambda: '%s %s' % (args, got))
            R.trace()


def case_reject(desc, R):
    M = gen((2, 2), 5)
    for txt in REJECT:
        R.fails(Exception, 'reject-text ' + txt, lambda: BlochModel(txt, momenta=('k_x', 'k_y')), txt)
        R.fails(Exception, 'reject-model ' + txt, lambda: BlochModel(Model(txt, momenta=('k_x', 'k_y'))), txt)
        ex = sympy.sympify(txt, locals={'e': al.E})
        R.fails(Exception, 'reject-dict ' + txt, lambda: BlochModel({ex: M}, momenta=('k_x', 'k_y')), txt)
        R.state(txt)
    R.fails(Exception, 'reject-mixed', lambda: BlochModel({sympy.Symbol('a'): M, BlochCoeff(np.zeros(2), sympy.Integer(1)): M}, momenta=('k_x', 'k_y')))
    # momentum-independent in the remaining direction is fine
    x = BlochModel('k_z*cos(k_x)', momenta=('k_x', 'k_y'))
    for env in al.PTS:
        R.check(close(ev_model(x, env, (1, 1)), [[env['k_z'] * np.cos(env['k_x'])]]), 'k_z-parameter', lambda: str(x))
    R.trace()
