"""P06: truncation (`keep`) against a reference truncated polynomial algebra."""
import itertools

import numpy as np
import sympy

from mc import algebra as al
from mc.core import gen, close
from qsymm.model import Model, BlochModel, BlochCoeff

ASSUMPTIONS = ['sums are checked when both operands carry a list of retained terms (the same or different ones)',
               'reference: dictionaries {exponents: matrix} with truncated multiplication']
BOUNDS = {'quick': '14 lists of retained terms x 5 spellings x 7 input forms; all operation sequences of length 2 (sum, difference, elementwise and matrix product from both sides with 4 partners, number, symbol, array) from 3 seeds; lattice models with 8 lists',
          'thorough': 'sequences of length 3'}

kx, ky, a = sympy.symbols('k_x k_y a')
E = al.E
I = sympy.I
# a term is (power of k_x, power of k_y, power of a, n, m) for e**(I*(n*k_x + m*k_y))
FULL = [(0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (0, 1, 0, 0, 0), (0, 0, 1, 0, 0), (1, 0, 1, 0, 0), (1, 1, 0, 0, 0), (2, 0, 0, 0, 0), (0, 0, 0, 1, 0), (0, 0, 1, -1, 0), (0, 0, 0, 1, 1)]
BFULL = [t for t in FULL if t[0] == t[1] == 0] + [(0, 0, 2, 0, 0), (0, 0, 1, 1, 1), (0, 0, 0, 2, 0)]
KEEPS = [
    [(0, 0, 0, 0, 0)], [(0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (0, 1, 0, 0, 0)], [(1, 0, 0, 0, 0)],
    [(0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (0, 1, 0, 0, 0), (1, 1, 0, 0, 0), (2, 0, 0, 0, 0), (0, 2, 0, 0, 0)],
    [(1, 1, 0, 0, 0)], [(0, 0, 1, 0, 0), (0, 0, 2, 0, 0)], [(1, 0, 1, 0, 0), (1, 0, 0, 0, 0)],
    [(0, 0, 0, 1, 0), (0, 0, 0, 0, 0)], [(0, 0, 1, -1, 0), (0, 0, 0, 1, 1), (0, 0, 1, 0, 1)], [(0, 0, 0, 2, 0), (0, 0, 0, 1, 0), (0, 0, 1, 0, 0)],
    [(2, 0, 0, 0, 0), (2, 0, 1, 0, 0), (0, 0, 0, 0, 0)], [(3, 0, 0, 0, 0)], [(1, 2, 0, 0, 0), (1, 1, 1, 0, 0), (1, 0, 0, 0, 0), (0, 1, 0, 0, 0)],
    FULL,
]
BKEEPS = [[(0, 0, 0, 0, 0)], [(0, 0, 0, 1, 0)], [(0, 0, 0, 1, 0), (0, 0, 0, 0, 0), (0, 0, 1, 0, 0)], [(0, 0, 0, 2, 0), (0, 0, 0, 1, 0)],
          [(0, 0, 1, -1, 0), (0, 0, 1, 0, 0), (0, 0, 1, 0, 1)], [(0, 0, 0, 1, 1), (0, 0, 2, 0, 0)], [(0, 0, 1, 2, 1), (0, 0, 0, 2, 2)], BFULL]


def texpr(t):
    i, j, l, n, m = t
    return kx ** i * ky ** j * a ** l * E ** (I * (n * kx + m * ky))


def tstr(t, style=0):
    i, j, l, n, m = t
    f = []
    if style == 0:
        f += ['k_x**%d' % i] if i else []
        f += ['k_y**%d' % j] if j else []
        f += ['a**%d' % l] if l else []
        f += ['e**(I*%d*k_x)' % n] if n else []
        f += ['e**(I*%d*k_y)' % m] if m else []
    elif style == 1:        # reversed order, repeated factors, joint exponent
        f += ['e**(I*(%d*k_x + %d*k_y))' % (n, m)] if n or m else []
        f += ['a'] * l + ['k_y'] * j + ['k_x'] * i
    else:                   # cancelling factors
        f += ['e**(I*%d*k_y)' % m] if m else []
        f += ['k_y'] * j + ['k_x**2/k_x'] * i + ['a'] * l
        f += ['e**(I*%d*k_x)*e**(-I*k_x)' % (n + 1)] if n else []
    return '*'.join(f) or '1'


def identify(key):
    """library key -> exponents"""
    if isinstance(key, tuple):
        hop, c = key
        d = sympy.sympify(c).as_powers_dict()
        return (0, 0, int(d.get(a, 0)), int(round(hop[0])), int(round(hop[1])))
    k = sympy.powsimp(sympy.sympify(key))
    d = sympy.expand_power_exp(k).as_powers_dict()
    n = m = 0
    for b, x in d.items():
        if b == E:
            x = sympy.expand(x)
            n += int(x.coeff(kx) / I)
            m += int(x.coeff(ky) / I)
    return (int(d.get(kx, 0)), int(d.get(ky, 0)), int(d.get(a, 0)), n, m)


def ref_mul(A, B, keep, op):
    out = {}
    for (t1, v1), (t2, v2) in itertools.product(A.items(), B.items()):
        t = tuple(x + y for x, y in zip(t1, t2))
        if not keep or t in keep:
            out[t] = out.get(t, 0) + op(v1, v2)
    return out


def ref_add(A, B, s=1):
    out = dict(A)
    for t, v in B.items():
        out[t] = out.get(t, 0) + s * v
    return out


class St:
    def __init__(self, m, ref, keep, hist):
        self.m, self.ref, self.keep, self.hist = m, ref, frozenset(keep), hist


def check(R, st, case):
    key = '%s %s' % (case, '.'.join(st.hist))
    got = {}
    for k, v in st.m.items():
        t = identify(k)
        got[t] = got.get(t, 0) + np.asarray(al.dense(v))
    for t, v in st.ref.items():
        if np.max(np.abs(v)) > 1e-9:
            if not R.check(t in got and close(got[t], v), 'term ' + key, lambda: 'term %s: got %s expected %s' % (tstr(t), got.get(t), v)):
                return False
    for t, v in got.items():
        if t not in st.ref:
            if not R.check(np.max(np.abs(v), initial=0) < 1e-9, 'extra ' + key, lambda: 'unexpected term %s: %s' % (tstr(t), v)):
                return False
        if not R.check(not st.keep or t in st.keep, 'not-kept ' + key, lambda: 'term %s is not in the list of retained terms' % tstr(t)):
            return False
    R.trace()
    R.outcome(tuple(sorted(got)))
    return True


def build(terms, keep, form, style, cls, shape=(2, 2), seed=0):
    """A model with given terms; keep spelled in `style`."""
    data = {t: gen(shape, seed + i) for i, t in enumerate(terms)}
    ks = None
    if keep is not None:
        if style == 3:
            ks = [texpr(t) for t in keep]
        elif style == 4:
            ks = tuple(reversed([texpr(t) for t in keep] + [texpr(keep[0])]))
        else:
            ks = [tstr(t, style) for t in keep]
    mom = ('k_x', 'k_y')
    if form == 'dict':
        m = cls({texpr(t): v for t, v in data.items()}, keep=ks, momenta=mom, shape=shape, format=np.ndarray)
    elif form == 'strdict':
        m = cls({tstr(t, 1): v for t, v in data.items()}, keep=ks, momenta=mom, shape=shape, format=np.ndarray)
    elif form == 'norm':
        # one key holding a sum of terms with the same matrix
        M = gen(shape, seed)
        data = {t: (2 + i) * M for i, t in enumerate(terms)}
        m = Model({sum((2 + i) * texpr(t) for i, t in enumerate(terms)): M}, keep=ks, momenta=mom, normalize=True)
    elif form == 'sparse':
        import scipy.sparse as sp
        m = cls({texpr(t): sp.csr_matrix(v) for t, v in data.items()}, keep=ks, momenta=mom, shape=shape, format=sp.csr_matrix)
    elif form in ('text', 'sympy', 'list'):
        data = {t: np.round(4 * v) + 5 * (1 + i) for i, (t, v) in enumerate(data.items())}
        mats = [[sum(texpr(t) * complex_(v[i, j]) for t, v in data.items()) for j in range(shape[1])] for i in range(shape[0])]
        inp = sympy.Matrix(mats)
        if form == 'text':
            inp = '[' + ', '.join('[' + ', '.join(str(x) for x in r) + ']' for r in mats) + ']'
        elif form == 'list':
            inp = [[str(x) for x in r] for r in mats]
        m = cls(inp, keep=ks, momenta=mom)
    ref = {t: v for t, v in data.items() if keep is None or t in keep}
    return m, ref


def complex_(z):
    return sympy.Integer(int(round(z.real))) + I * sympy.Integer(int(round(z.imag)))


def cases(tier):
    out = []
    for i in range(len(KEEPS)):
        out.append(dict(t='input', i=i))
        for s in range(3):
            out.append(dict(t='seq', i=i, s=s, depth=2 if tier == 'quick' else 3, cls='M'))
    for i in range(len(BKEEPS)):
        out.append(dict(t='seq', i=i, s=0, depth=2 if tier == 'quick' else 3, cls='B'))
    out.append(dict(t='bloch-input'))
    return out


def run_case(desc, R):
    if desc['t'] == 'input':
        keep = KEEPS[desc['i']]
        for form in ('dict', 'strdict', 'norm', 'sparse', 'text', 'sympy', 'list'):
            for style in range(5):
                for terms in (FULL, FULL[::-1], FULL[1:5], FULL[:1]):
                    m, ref = build(terms, keep, form, style, Model)
                    R.step()
                    st = St(m, ref, keep, (form, str(style), str(len(terms))))
                    R.state(form, style, desc['i'], len(terms), str(terms[0]))
                    check(R, st, 'input%d' % desc['i'])
            m, ref = build(FULL, None, form, 0, Model)
            check(R, St(m, ref, (), (form, 'all')), 'input-all')
        return
    if desc['t'] == 'bloch-input':
        for i, keep in enumerate(BKEEPS):
            for form in ('dict', 'strdict', 'sparse', 'text', 'sympy', 'list'):
                for style in (0, 1, 3):
                    m, ref = build(BFULL, keep, form, style, BlochModel)
                    R.step()
                    R.state('b', form, style, i)
                    check(R, St(m, ref, keep, (form, str(style))), 'bloch-input%d' % i)
            # keys and retained terms given as BlochCoeff
            co = lambda t: BlochCoeff(np.array([t[3], t[4]], float), sympy.Symbol('a') ** t[2])
            data = {t: gen((2, 2), j) for j, t in enumerate(BFULL)}
            m = BlochModel({co(t): v for t, v in data.items()}, keep=[co(t) for t in keep], momenta=('k_x', 'k_y'), shape=(2, 2), format=np.ndarray)
            check(R, St(m, {t: data[t] for t in data if t in keep}, keep, ('coeff',)), 'bloch-coeff%d' % i)
            # conversion keeps the list
            mm = m.tomodel()
            check(R, St(mm * mm, ref_mul({t: data[t] for t in data if t in keep}, {t: data[t] for t in data if t in keep}, keep, lambda x, y: x * y), keep, ('tomodel',)), 'bloch-tomodel%d' % i)
        return
    cls = Model if desc['cls'] == 'M' else BlochModel
    keeps, full = (KEEPS, FULL) if cls is Model else (BKEEPS, BFULL)
    keep = keeps[desc['i']]
    seeds = [full, full[::2], full[:4]]
    mk = lambda terms, kp, seed: build(terms, kp, 'dict', 3, cls, seed=seed)
    m, ref = mk(seeds[desc['s']], keep, 0)
    start = St(m, ref, keep, ('s%d' % desc['s'],))
    case = '%s%d' % (desc['cls'], desc['i'])
    other = keeps[(desc['i'] + 2) % len(keeps)]
    partners = {}
    for nm, terms, kp, sd in (('same', full, keep, 20), ('few', full[1:4], keep, 40), ('other', full, other, 60), ('empty', [], keep, 0)):
        pm, pr = mk(terms, kp, sd)
        partners[nm] = St(pm, pr, kp, (nm,))
    C = gen((2, 2), 90)
    el, mm = (lambda x, y: x * y), (lambda x, y: x @ y)
    if not check(R, start, case):
        return
    frontier = [start]
    R.state(start.hist)
    for d in range(desc['depth']):
        new = []
        for st in frontier:
            nxt = [
                St(st.m * 2, {t: 2 * v for t, v in st.ref.items()}, st.keep, st.hist + ('x2',)),
                St(-st.m, {t: -v for t, v in st.ref.items()}, st.keep, st.hist + ('neg',)),
                St(st.m * C, {t: v * C for t, v in st.ref.items()}, st.keep, st.hist + ('*C',)),
                St(C @ st.m, {t: C @ v for t, v in st.ref.items()}, st.keep, st.hist + ('C@',)),
                St(st.m * a, ref_mul(st.ref, {(0, 0, 1, 0, 0): 1}, st.keep, el), st.keep, st.hist + ('*a',)),
                St(st.m.copy(), st.ref, st.keep, st.hist + ('copy',)),
                St(st.m * st.m, ref_mul(st.ref, st.ref, st.keep, el), st.keep, st.hist + ('sq',)),
                St(st.m @ st.m, ref_mul(st.ref, st.ref, st.keep, mm), st.keep, st.hist + ('sq@',)),
            ]
            if cls is Model:
                nxt.append(St(st.m * kx, ref_mul(st.ref, {(1, 0, 0, 0, 0): 1}, st.keep, el), st.keep, st.hist + ('*kx',)))
                nxt.append(St(ky * st.m, ref_mul(st.ref, {(0, 1, 0, 0, 0): 1}, st.keep, el), st.keep, st.hist + ('ky*',)))
            for nm, pt in partners.items():
                u = st.keep | pt.keep
                nxt += [
                    St(st.m + pt.m, ref_add(st.ref, pt.ref), u, st.hist + ('+' + nm,)),
                    St(pt.m - st.m, ref_add(pt.ref, st.ref, -1), u, st.hist + (nm + '-',)),
                    St(st.m * pt.m, ref_mul(st.ref, pt.ref, u, el), u, st.hist + ('*' + nm,)),
                    St(pt.m @ st.m, ref_mul(pt.ref, st.ref, u, mm), u, st.hist + (nm + '@',)),
                    St(sum([st.m, pt.m, pt.m]), ref_add(ref_add(st.ref, pt.ref), pt.ref), u, st.hist + ('sum' + nm,)),
                ]
            for x in nxt:
                R.step()
                if not check(R, x, case):
                    return
                if R.state(case, x.hist):
                    new.append(x)
        frontier = new
    R.sample = dict(case=case, history=list(x.hist))
