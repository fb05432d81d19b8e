"""P01: every operation sequence on models evaluates like the same arithmetic on matrices."""
import numpy as np

from mc import algebra as al
from mc.algebra import Model, S, SEEDS, make_seed, seed_ref

ASSUMPTIONS = ['functions are compared at 3 fixed irrational points (exponential polynomials with O(1) data)',
               'numpy/scipy matrix arithmetic is the reference']
BOUNDS = {'quick': 'all operation sequences of length 2 from 12 seeds x 7 storage/shape universes; partner operands: 5 seeds + a scalar model',
          'thorough': 'all operation sequences of length 2 with 12 partners and of length 3 with 2 partners'}

UNIVERSES = {           # name: (shape, format)
    'd2': ((2, 2), 'dense'), 'd1': ((1, 1), 'dense'), 'd23': ((2, 3), 'dense'), 'd3': ((3, 3), 'dense'),
    'csr': ((2, 2), 'csr'), 'csc': ((3, 3), 'csc'), 'lin': ((2, 2), 'linop'), 'sc': ((), 'scalar'),
    'csr23': ((2, 3), 'csr'),
}
MOMENTA = {'d2': ('k_x', 'k_y', 'k_z')}


def partners(u, names):
    shape, fmt = UNIVERSES[u]
    out = {}
    for n in names:
        out[n] = (make_seed(n, shape, fmt), seed_ref(n, shape), fmt)
    if fmt != 'scalar' and fmt != 'linop':
        out['sc'] = (make_seed('poly', (), 'scalar'), seed_ref('poly', ()), 'scalar')
    if fmt == 'dense' and shape == (2, 2):
        out['rect'] = (make_seed('poly', (2, 3), 'dense'), seed_ref('poly', (2, 3)), 'dense')
        out['csr'] = (make_seed('poly', (2, 2), 'csr'), seed_ref('poly', (2, 2)), 'csr')
    if fmt == 'scalar':
        out['mat'] = (make_seed('poly2', (2, 2), 'dense'), seed_ref('poly2', (2, 2)), 'dense')
    return out


def cases(tier):
    out = []
    for u in UNIVERSES:
        for s in SEEDS:
            out.append(dict(u=u, seed=s, depth=2, partners=['poly', 'expo2', 'anti', 'empty', 'inv'] if tier == 'quick' else list(SEEDS)))
    if tier == 'thorough':
        for u in ('d2', 'csr', 'sc', 'd23'):
            for s in SEEDS:
                out.append(dict(u=u, seed=s, depth=3, partners=['anti', 'expo']))
    # distinct momenta are rejected
    out.append(dict(u='momenta', seed='', depth=0, partners=[]))
    # keys given in un-normalized form
    for i in range(len(RAW)):
        out.append(dict(u='raw', seed=i, depth=1, partners=[]))
    return out


# {expression: matrix} input with normalize=True; expected = value of expression times matrix
RAW = [
    {'2*a': 0}, {'a + b': 0}, {'a + b': 0, 'a': 1}, {'(a + b)**2': 0}, {'a - a': 0, 'b': 1}, {'sqrt(2)*k_x': 0, 'k_x': 1},
    {'3': 0, '1': 1}, {'I*k_x + 2': 0}, {'a*(k_x + 2*k_y)**3': 0, 'a*k_x**3': 1}, {'e**(I*k_x)*e**(-I*k_x)*a': 0},
    {'e**(I*k_x + I*k_y)': 0, 'e**(I*k_y)*e**(I*k_x)': 1}, {'a*e**(I*k_x)/b - a*e**(I*k_x)/b': 0, 'a': 1},
    {'k_x*k_y': 0, 'k_y*k_x': 1}, {'-a': 0, 'a': 0}, {'a/2 + b/3 + 1/5': 2}, {'(a+1)*(a-1)': 0}, {'2**a*b': 0} ,
    {'a**2*a': 0, 'a**3': 1}, {'pi*a': 0},
]


def run_case(desc, R):
    u = desc['u']
    if u == 'momenta':
        for other in (('k_x', 'k_y'), ('k_y', 'k_x', 'k_z'), ('p', 'q', 'r')):
            x = make_seed('poly', (2, 2), 'dense')
            y = make_seed('poly', (2, 2), 'dense', momenta=other)
            for nm, f in (('+', lambda: x + y), ('-', lambda: x - y), ('*', lambda: x * y), ('@', lambda: x @ y), ('r+', lambda: y + x)):
                R.fails(Exception, 'momenta-mismatch %s %s' % (other, nm), f)
        return
    if u == 'raw':
        raw = RAW[desc['seed']]
        import sympy
        from mc.core import ev
        for shape, fmt in (((2, 2), 'dense'), ((), 'scalar'), ((2, 2), 'csr')):
            exprs = {sympy.sympify(k, locals={'e': al.E, 'pi': sympy.pi}): v for k, v in raw.items()}
            if len(exprs) != len(raw):
                # the reference keeps every entry, the library must be given distinct keys
                exprs = {}
                for k, v in raw.items():
                    exprs[sympy.sympify(k, locals={'e': al.E, 'pi': sympy.pi}, evaluate=False)] = v
                if len(exprs) != len(raw):
                    continue
            m = Model({k: al.cast(al.gen(shape, v), fmt) for k, v in exprs.items()}, normalize=True)
            ref = [sum((ev(k, env) * al.gen(shape, v) for k, v in exprs.items()), np.zeros(shape)) for env in al.PTS]
            st = S(m, [np.asarray(r, complex) for r in ref], ('raw%d' % desc['seed'], fmt))
            if not al.meta_check(R, st, 'raw', ('k_x', 'k_y', 'k_z'), Model):
                return
            R.trace()
            # normal form: no sums and no numeric factors in the keys
            for k in m.keys():
                R.check(not isinstance(k, sympy.Add) and k.as_coeff_Mul()[0] == 1, 'normal-form raw%d %s' % (desc['seed'], fmt), k)
            al.explore(R, st, {}, desc['depth'], 'raw%d-%s' % (desc['seed'], fmt), ('k_x', 'k_y', 'k_z'), Model)
        return
    shape, fmt = UNIVERSES[u]
    seeds = partners(u, desc['partners'])
    m = make_seed(desc['seed'], shape, fmt)
    st = S(m, seed_ref(desc['seed'], shape), (desc['seed'],))
    al.explore(R, st, seeds, desc['depth'], '%s/%s' % (u, desc['seed']), ('k_x', 'k_y', 'k_z'), Model)
