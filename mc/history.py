"""Call histories for P03: a pool of shared argument objects, a registry of public calls on it,
fingerprints of every argument, and canonical (comparable) forms of results.

Every history runs in a forked child of a process that has imported the library but never called
it, so process-wide caches start empty.
"""
import collections
import contextlib
import copy
import io
import itertools
import os
import pickle
import signal
import types
import warnings

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla
import sympy
import tinyarray as ta

import qsymm
from qsymm import groups as G, linalg as L, hamiltonian_generator as HG, symmetry_finder as SF, kwant_continuum as KC, kwant_linalg_lll as LLL, kwant_rmt as RMT, model as M
from qsymm.groups import PointGroupElement as PGE, ContinuousGroupGenerator as CGG
from qsymm.model import Model, BlochModel, BlochCoeff

S = [np.eye(2, dtype=complex), np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]
kx, ky, kz = sympy.symbols('k_x k_y k_z', commutative=True)
a, b = sympy.symbols('a b')


def pool(rev=False):
    """rev: the same objects with the opposite insertion and list orders"""
    d = (lambda *items: dict(items[::-1] if rev else items))
    li = (lambda *items: list(items[::-1] if rev else items))
    P = {}
    e = M.e
    P['m1'] = Model(d(('k_x', S[1].copy()), ('k_y', S[2].copy()), ('a', S[3].copy())), momenta=['k_x', 'k_y'])
    P['m2'] = Model(d(('k_x**2', S[0].copy()), ('k_x*k_y', S[1] + 2j * S[2]), ('b', S[3].copy())), momenta=['k_x', 'k_y'])
    P['ms'] = Model(d(('k_x', sp.csr_matrix(S[1])), ('a', sp.csr_matrix(S[3]))), momenta=['k_x', 'k_y'])
    P['sc'] = Model(d(('k_x', 2.), ('a', 1j)), momenta=['k_x', 'k_y'])
    P['mk'] = Model(d(('k_x', S[1].copy()), (1, S[3].copy())), momenta=['k_x', 'k_y'], keep=['k_x', 'k_y', 'k_x**2', 1])
    P['zero'] = Model({}, momenta=['k_x', 'k_y'], shape=(2, 2), format=np.ndarray)
    P['hop'] = Model(d(('e**(I*k_x)', S[1] + 1j * S[2]), ('e**(-I*k_x)', S[1] - 1j * S[2]), (1, S[3].copy())), momenta=['k_x'])
    P['hop2'] = Model(d(('a*e**(I*k_x)', S[1].copy()), ('a*e**(-I*k_x)', S[1].copy()), ('e**(I*k_y)', S[0].copy()), ('e**(-I*k_y)', S[0].copy()), ('b', S[3].copy())), momenta=['k_x', 'k_y'])
    P['bm'] = BlochModel(d((BlochCoeff(np.array([1.]), sympy.sympify(1)), S[1].copy()), (BlochCoeff(np.array([-1.]), sympy.sympify(1)), S[1].copy()), (BlochCoeff(np.array([0.]), a), S[3].copy())), momenta=['k_x'])
    P['bm2'] = BlochModel(d((BlochCoeff(np.array([1., 0]), a), S[0].copy()), (BlochCoeff(np.array([-1., 0]), a), S[0].copy()), (BlochCoeff(np.array([0., 1]), a), S[0].copy()), (BlochCoeff(np.array([0., -1]), a), S[0].copy())), momenta=['k_x', 'k_y'])
    P['dirac'] = Model(d(('k_x', np.kron(S[3], S[1])), ('k_y', np.kron(S[3], S[2])), ('a', np.kron(S[1], S[0]))), momenta=['k_x', 'k_y'])
    P['cons'] = Model(d(('k_x', np.kron(S[0], S[1])), ('k_y', np.kron(S[0], S[2])), ('a', np.kron(S[0], S[3]))), momenta=['k_x', 'k_y'])
    P['bhz'] = Model(d(('k_x', S[1].copy()), ('k_y', S[2].copy()), ('a', S[3].copy()), ('k_x**2', S[3].copy()), ('k_y**2', S[3].copy())), momenta=['k_x', 'k_y'])
    P['wire'] = Model(d(('k_x', S[1].copy()), ('a', S[3].copy())), momenta=['k_x'])
    P['dict'] = d(('k_x', S[1].copy()), ('k_y', S[2].copy()))
    P['keys'] = ['k_x', 'a', sympy.Integer(1), 'k_y']
    P['subs'] = d(('k_x', ky), ('k_y', -kx))
    P['subsl'] = [(kx, ky), (ky, -kx)]
    P['locals'] = d(('k', 'k_x + I*k_y'), ('sp', [[0, 1], [0, 0]]))
    P['mat'] = np.array([[1, 2j], [3, 4]])
    P['u'] = np.array([[0, 1], [-1, 0]], complex)
    P['rot'] = np.array([[0, -1], [1, 0]])
    P['srot'] = sympy.ImmutableMatrix([[0, -1], [1, 0]])
    # equal matrices of all exactness classes
    c4 = np.array([[0, -1], [1, 0]])
    P['c4i'] = PGE(c4.copy(), U=np.diag([np.exp(-.25j * np.pi), np.exp(.25j * np.pi)]))
    P['c4f'] = PGE(c4.astype(float), U=np.diag([np.exp(-.25j * np.pi), np.exp(.25j * np.pi)]))
    P['c4s'] = PGE(sympy.Matrix([[0, -1], [1, 0]]), U=np.diag([np.exp(-.25j * np.pi), np.exp(.25j * np.pi)]))
    P['c3s'] = PGE(sympy.ImmutableMatrix([[-sympy.Rational(1, 2), -sympy.sqrt(3) / 2], [sympy.sqrt(3) / 2, -sympy.Rational(1, 2)]]))
    P['c3f'] = PGE(np.array([[-.5, -np.sqrt(.75)], [np.sqrt(.75), -.5]]))
    P['c8'] = PGE(np.sqrt(.5) * np.array([[1, -1], [1, 1]]))
    P['mx'] = PGE(np.diag([-1, 1]), U=1j * S[1])
    P['tr'] = PGE(np.eye(2, dtype=int), True, False, 1j * S[2])
    P['ph'] = PGE(np.eye(2, dtype=int), True, True, S[1].copy())
    P['trn'] = PGE(np.eye(2, dtype=int), True, False)
    P['c4n'] = PGE(c4.copy())
    P['c43'] = PGE(np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]))
    P['strict'] = PGE(-np.eye(2, dtype=int), U=-S[0], _strict_eq=True)
    P['gens'] = li(P['c4i'], P['mx'], P['tr'])
    P['gset'] = set(P['gens'])
    P['cand'] = li(P['trn'], PGE(np.eye(2, dtype=int), True, True), PGE(np.eye(2, dtype=int), False, True), P['c4n'], PGE(np.diag([-1, 1])))
    P['candset'] = set(P['cand'])
    P['cand1'] = li(PGE(-np.eye(1, dtype=int)), PGE(np.eye(1, dtype=int), True, False), PGE(np.eye(1, dtype=int), True, True))
    P['cg'] = CGG(np.array([[0, 1j], [-1j, 0]]), S[3] / 2)
    P['cg2'] = CGG(None, S[3].copy())
    P['fam'] = [Model({k: m.copy()}, momenta=['k_x', 'k_y']) for k in ('k_x', 'k_y', 1) for m in S]
    P['famd'] = [P['m1'], P['m2'], P['m1'] + P['m2'], P['m1'] * 0]
    P['famb'] = [P['bm'], P['bm'] * 2, P['bm'].conj() * 1]
    P['coeffs'] = list(sympy.symbols('x0:12'))
    P['norbs'] = collections.OrderedDict([('A', 1), ('B', 1)])
    P['hops'] = li(('A', 'B', [1, 0]), ('A', 'A', (0, 1)))
    P['bsyms'] = li(PGE(-np.eye(2, dtype=int), U=S[1].copy()), PGE(np.eye(2, dtype=int), True, U=S[0].copy()))
    P['bsyms1'] = {PGE(-np.eye(2, dtype=int), U=S[1].copy())}
    P['perm'] = d(('A', 'B'), ('B', 'A'))
    P['onsite'] = d(('A', np.eye(1)), ('B', -np.eye(1)))
    P['norbsl'] = [('A', 1), ('B', 1)]
    P['phases'] = [1, -1, 1j]
    P['psyms'] = [PGE(np.eye(1, dtype=int), True, U=S[0].copy()), PGE(-np.eye(1, dtype=int), U=S[3].copy())]
    P['pph'] = [1, -1]
    P['powers'] = [[0, 1], [1]]
    P['ipowers'] = [2, 1]
    P['lat'] = np.array([[1., 0], [3.3, 2]])
    P['lat3'] = [[1., 0, 0], [0, 1, 0], [.5, .5, .5]]
    P['vec'] = np.array([.3, .4])
    P['big'] = np.array([[1, 1, 0, 0], [1, 1, 0, 0], [0, 0, 0, 0]], complex)
    P['bigs'] = sp.csr_matrix(P['big'])
    P['spm'] = [np.kron(S[3], S[0]), np.kron(S[0], S[1])]
    P['hl'] = np.array([np.kron(S[3], S[1]), np.kron(S[3], S[2])])
    P['lie'] = np.array([np.kron(x, S[0]) / 2 for x in S[1:]] + [np.kron(S[0], x) / 2 for x in S[1:]])
    P['sun'] = np.array([np.kron(x, S[0]) for x in S[1:]])
    P['vals'] = [1., 1. + 1e-9, 2., 3.]
    P['ops'] = li(P['c43'], PGE(-np.eye(3, dtype=int)))
    P['expr'] = sympy.sympify('a*x + b*x**2')
    P['str'] = 'k_x*sigma_x + a*sigma_z'
    P['S'] = S
    P['Ps'] = [np.kron(S[0], np.eye(2))[:, [0, 2]].reshape(1, 4, 2), np.kron(S[0], np.eye(2))[:, [1, 3]].reshape(1, 4, 2)]
    return P


# ------------------------------------------------------------ results

class Span:
    """compared as the real vector space spanned"""
    def __init__(self, fam):
        self.fam = list(fam)


class MSpan:
    """row span of a matrix or of a list of matrices (complex unless real)"""
    def __init__(self, mats, real=False):
        self.mats = [np.asarray(m.toarray() if sp.issparse(m) else m) for m in mats]
        self.real = real


class Group:
    """compared as a set of operations; what: 'R' ignores unitaries, 'U' compares them up to phase, 'X' exactly"""
    def __init__(self, els, what):
        self.els, self.what = list(els), what


def proj(rows, real=False):
    rows = np.asarray(rows)
    if rows.size == 0:
        return (0, np.zeros((0, 0)))
    if real and np.iscomplexobj(rows):
        rows = np.hstack([rows.real, rows.imag])
    u, s, vh = np.linalg.svd(rows, full_matrices=False)
    r = int(np.sum(s > 1e-6 * max(1, s[0])))
    return (r, np.round(vh[:r].conj().T @ vh[:r], 9))


def keystr(k):
    if isinstance(k, BlochCoeff):
        return 'B%s|%s' % (np.round(np.asarray(k[0], float), 5) + 0.0, sympy.sstr(k[1]))
    if isinstance(k, sympy.Basic):
        # float exponents differ in the last digits
        k = k.xreplace({f: sympy.Float(round(float(f), 6)) for f in k.atoms(sympy.Float)})
        return sympy.sstr(k)
    return str(k)


def dense(v):
    if sp.issparse(v):
        return v.toarray()
    if isinstance(v, sla.LinearOperator):
        return v @ np.eye(v.shape[1])
    return np.asarray(v)


def modeldict(m):
    out = {}
    for k, v in m.items():
        v = dense(v)
        if np.any(np.abs(v) > 1e-9):
            s = keystr(k)
            out[s] = out[s] + v if s in out else v
    return out


def rcanon(R):
    if R is None:
        return None
    return np.asarray(np.array(R).astype(float)) + 0.0


def rtype(R):
    return 'sympy' if isinstance(R, sympy.MatrixBase) else 'int' if isinstance(R, ta.ndarray_int) else 'float'


def sortkey(g):
    return (tuple(np.round(rcanon(g.R) * 100 + .0123).astype(int).ravel()), bool(g.conjugate), bool(g.antisymmetry))


def upto(U):
    if U is None:
        return None
    U = np.asarray(U)
    i = np.argmax(np.abs(U.ravel()) > .3 * np.abs(U).max())
    z = U.ravel()[i]
    return U * (abs(z) / z)


def canon(x, depth=0):
    if depth > 8:
        raise RecursionError
    c = (lambda y: canon(y, depth + 1))
    if x is None or isinstance(x, (bool, str, type)):
        return x if not isinstance(x, type) else x.__name__
    if isinstance(x, Span):
        dicts = [modeldict(m) for m in x.fam]
        keys = sorted(set().union(*[set(q) for q in dicts])) if dicts else []
        mom = sorted({tuple(str(s) for s in m.momenta) for m in x.fam})
        if not keys:
            return ('span', mom, (0, np.zeros((0, 0))))
        shp = next(iter(q[k] for q in dicts for k in q)).shape
        rows = [np.concatenate([np.asarray(q.get(k, np.zeros(shp)), complex).ravel() for k in keys]) for q in dicts]
        return ('span', mom, keys, proj(np.hstack([np.real(rows), np.imag(rows)])))
    if isinstance(x, MSpan):
        return ('mspan', proj([m.ravel() for m in x.mats], x.real) if len(x.mats) else 0)
    if isinstance(x, Group):
        els = x.els
        if x.what == 'X':
            return ('group', sorted(((sortkey(g), tuple(np.round(np.asarray(g.U).ravel() * 100 + .0123).view(float).astype(int)) if g.U is not None else ()) for g in els)))
        els = sorted(els, key=sortkey)
        return ('group', [(sortkey(g), upto(g.U) if x.what == 'U' else None) for g in els])
    if isinstance(x, Model):
        f = x.format
        return ('model', type(x).__name__, [str(s) for s in x.momenta], x.shape, f.__name__ if isinstance(f, type) else str(f), sorted(map(keystr, x.keep)), sorted(modeldict(x).items(), key=lambda t: t[0]))
    if isinstance(x, PGE):
        return ('pge', rcanon(x.R), rtype(x.R), bool(x.conjugate), bool(x.antisymmetry), None if x.U is None else np.asarray(x.U))
    if isinstance(x, CGG):
        return ('cgg', rcanon(x.R) if x.R is not None and not np.iscomplexobj(x.R) else None if x.R is None else np.asarray(x.R), None if x.U is None else np.asarray(x.U))
    if isinstance(x, BlochCoeff):
        return keystr(x)
    if sp.issparse(x) or isinstance(x, sla.LinearOperator):
        return ('sparse', dense(x))
    if isinstance(x, (np.ndarray, ta.ndarray_int, ta.ndarray_float, ta.ndarray_complex)):
        x = np.asarray(x)
        return c(x.tolist()) if x.dtype == object else np.array(x)
    if isinstance(x, (int, float, complex, np.generic)):
        return ('num', complex(x))
    if isinstance(x, sympy.MatrixBase):
        return ('sympymat', x.shape, [c(y) for y in x])
    if isinstance(x, sympy.Basic):
        return keystr(x)
    if isinstance(x, dict) or isinstance(x, collections.abc.Mapping):
        return ('dict', sorted(((keystr(k), c(v)) for k, v in x.items()), key=lambda t: t[0]))
    if isinstance(x, (set, frozenset)):
        return ('set', sorted((c(y) for y in x), key=repr))
    if isinstance(x, (list, tuple, types.GeneratorType, range)):
        return [c(y) for y in x]
    if isinstance(x, Exception):
        return ('raise', type(x).__name__)
    if callable(x):
        return 'callable'
    return ('other', type(x).__name__)


def same(x, y, tol=1e-6):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and bool(np.allclose(x, y, atol=tol, rtol=tol, equal_nan=True))
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(p, q, tol) for p, q in zip(x, y))
    if isinstance(x, complex) and isinstance(y, complex):
        return abs(x - y) <= tol * max(1, abs(x))
    return type(x) is type(y) and x == y


# ------------------------------------------------------------ fingerprints of arguments

def fp(x, seen=None):
    """everything observable about an argument: type, order, contents (bytes), flags, hash"""
    seen = {} if seen is None else seen
    if id(x) in seen:
        return ('ref', seen[id(x)])
    if x is None or isinstance(x, (bool, int, float, complex, str, np.generic, type)):
        return repr(x)
    if isinstance(x, sympy.Basic):
        return sympy.srepr(x)
    seen[id(x)] = len(seen)
    f = (lambda y: fp(y, seen))
    if isinstance(x, np.ndarray):
        return ('arr', x.dtype.str, x.shape, x.flags.writeable, x.tobytes() if x.dtype != object else repr(x))
    if sp.issparse(x):
        return (type(x).__name__, x.shape, f(x.data), [f(getattr(x, n)) for n in ('indices', 'indptr', 'row', 'col') if hasattr(x, n)])
    if isinstance(x, (ta.ndarray_int, ta.ndarray_float, ta.ndarray_complex)):
        return (type(x).__name__, np.asarray(x).tobytes())
    if isinstance(x, sympy.MatrixBase):
        return (type(x).__name__, repr(x))
    if isinstance(x, Model):
        return (type(x).__name__, [(f(k) if not isinstance(k, BlochCoeff) else fpb(k), f(v)) for k, v in x.data.items()], [sympy.srepr(s) for s in x.momenta], sorted(map(str, x.keep)), x.shape, str(x.format))
    if isinstance(x, BlochCoeff):
        return fpb(x)
    if isinstance(x, PGE):
        return ('pge', f(x.R), x.conjugate, x.antisymmetry, f(x.U), x._strict_eq if hasattr(x, '_strict_eq') else None, hash(x))
    if isinstance(x, CGG):
        return ('cgg', f(x.R), f(x.U))
    if isinstance(x, dict):
        return (type(x).__name__, [(f(k), f(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(repr(f(y)) for y in x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [f(y) for y in x])
    return repr(x)


def fpb(k):
    return ('bc', np.asarray(k[0]).tobytes(), sympy.srepr(k[1]))


def world():
    """process-wide settings no call may leave changed"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            s = type(sympy.sympify([[1, 2]])).__name__, type(sympy.sympify((1, 2))).__name__, str(sympy.sympify('gamma')), str(sympy.sympify('pi'))
        except Exception as err:
            s = repr(err)
    st = np.random.get_state()
    return (s, sorted(np.geterr().items()), str(sorted(np.get_printoptions().items(), key=str)), [str(w) for w in warnings.filters], os.getcwd(), st[1].tobytes(), st[2], st[3],
            sorted(str(x) for x in RMT.sym_list), sorted((k, str(v)) for k, v in RMT.h_t_matrix.items()), sorted(map(str, KC.extra_ns)), sorted(map(str, KC.extra_ns.values())))


# ------------------------------------------------------------ calls

CALLS = collections.OrderedDict()


def call(name, fn):
    assert name not in CALLS, name
    CALLS[name] = fn


def quiet(fn):
    """captures what is printed"""
    def g(P):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = fn(P)
        return (r, buf.getvalue())
    return g


def register():
    A = call
    # model algebra
    for n, f in [
            ('add', lambda P: P['m1'] + P['m2']), ('sub', lambda P: P['m1'] - P['m2']), ('neg', lambda P: -P['m1']), ('sum', lambda P: sum(P['fam'])),
            ('mulnum', lambda P: [P['m1'] * 2, 3j * P['m1'], P['m1'] / 2]), ('mulsym', lambda P: [P['m1'] * a, P['m1'] * kx, P['sc'] * ky]), ('mulmodel', lambda P: [P['sc'] * P['m1'], P['m1'] * P['sc']]),
            ('matmul', lambda P: [P['m1'] @ P['m2'], P['m1'] @ P['mat'], P['mat'] @ P['m1']]), ('mularr', lambda P: [P['sc'] * P['mat'], P['mat'] * P['sc']]),
            ('keepmul', lambda P: [P['mk'] @ P['mk'], P['mk'] @ P['m1'], P['mk'] + P['m1']]), ('sparse', lambda P: [P['ms'] + P['ms'], P['ms'] @ P['ms'], P['ms'].T(), P['ms'].toarray(), P['ms'].conj()]),
            ('zeroadd', lambda P: [P['m1'] + P['zero'], P['zero'] + P['m1'], P['m1'] + 0, 0 + P['m1'], P['zero'] * a]),
            ('conj', lambda P: [P['m1'].conj(), P['m1'].T(), P['m1'].T().conj(), P['m1'].trace(), P['m2'].reshape(4), P['m2'].reshape(1, 4)]),
            ('fmt', lambda P: [P['m1'].tocsr(), P['ms'].toarray(), P['m1'].copy(), P['m1'].zeros_like(), copy.copy(P['m1']), copy.deepcopy(P['m1'])]),
            ('symb', lambda P: [P['m1'].transform_symbolic(lambda k: k * a), P['m1'].rotate_momenta(P['rot']), P['m1'].rotate_momenta(P['srot']), P['hop2'].rotate_momenta(P['rot'])]),
            ('subs', lambda P: [P['m1'].subs(P['subs']), P['m1'].subs(P['subsl']), P['m1'].subs(a, b), P['m2'].subs({'k_x': 'k_x + k_y', 'b': 0}), P['m1'].subs('a', 3)]),
            ('evalf', lambda P: [P['m1'].evalf({'k_x': 1, 'k_y': 2, 'a': 3}), P['m1'].lambdify()(1, 2, 3), P['hop'].lambdify()(.3)]),
            ('tosympy', lambda P: [P['m1'].tosympy(), P['m2'].tosympy(nsimplify=True), P['bm'].tosympy()]),
            ('around', lambda P: [P['m1'].around(2), P['bm'].around(3)]), ('eq', lambda P: [P['m1'] == P['m2'], P['m1'] == P['m1'], P['m1'].allclose(P['m1'] * (1 + 1e-7)), P['zero'] == {}, P['m1'] != P['m2'], P['bm'] == P['bm']]),
            ('elim', lambda P: [(lambda c: (c.eliminate_zeros(), c))(P['m1'].copy()), (lambda c: (c.eliminate_zeros(), c))(P['m1'] * 0)]),
            ('items', lambda P: [P['m1']['k_x'], P['m1']['k_x**3'], P['m1'][1], P['sc']['a'], P['m1'].value_list(P['keys']), P['ms']['k_y'], P['bm'][1], len(P['m1']), 'k_x' in P['m1'].keys()]),
            ('setitem', lambda P: (lambda c: (c.__setitem__(kx, P['mat']), c))(P['m1'].copy())),
            ('parse', lambda P: [Model(P['str']), Model('k*sp + a*sp', locals=P['locals']), Model([['k_x', 1], [1, 'k_x*a']]), Model('kron(sigma_x, sigma_y)*k_x*k_y + 2*k_y*k_x*eye(4)')]),
            ('fromdict', lambda P: [Model(P['dict']), Model(P['dict'], momenta=['k_x']), Model(P['dict'], keep=['k_x']), Model({'2*k_x + a': S[1]}, normalize=True)]),
            ('const', lambda P: [Model({1: S[1]}), Model({'1': S[1]})]), ('constf', lambda P: Model({1.: S[1]}, normalize=True)),
            ('bloch', lambda P: [BlochModel(P['hop']), BlochModel(P['hop2']), P['bm'].tomodel(), P['bm2'].tomodel()]),
            ('blochops', lambda P: [P['bm'] + P['bm'], P['bm'] * 2, P['bm'] * a, P['bm'] @ P['mat'], P['bm'].conj(), P['bm'].T(), P['bm2'].rotate_momenta(P['rot']), P['bm'].copy(), P['bm'].subs({'a': 2}), P['bm'].lambdify()(.1, .2)]),
            ('blochcoeff', lambda P: sorted(keystr(k * BlochCoeff(np.array([.5]), b)) for k in P['bm'].keys())),
            ('bloche', lambda P: BlochModel(P['m1'])),
            ('blochmom', lambda P: [BlochModel(Model({'e**(I*q)': S[1], 'e**(-I*q)': S[1]}, momenta=['q'])), Model({'q': S[1]}, momenta=['q'])]),
            ('badadd', lambda P: P['m1'] + P['m1'].reshape(4)), ('badadd2', lambda P: P['m1'] + P['hop']), ('badset', lambda P: P['m1'].copy().__setitem__(kx, np.eye(3))), ('badparse', lambda P: Model('k_x*sigma_x +')),
            ('badlist', lambda P: Model([['k_x', 1], [1]])), ('badmom', lambda P: Model(P['dict'], momenta=[0])), ('baddict', lambda P: Model({'k_x': S[1], 'k_y': np.eye(3)})), ('badsubs', lambda P: P['m1'].subs('k_x', 1, 2, 3)),
    ]:
        A(n, f)
    # continuum parser
    for n, f in [
            ('sympify', lambda P: [KC.sympify(P['str']), KC.sympify('k*sp', locals=P['locals']), KC.sympify('k_x*x + gamma'), KC.sympify(P['expr'])]),
            ('sympify2', lambda P: [KC.sympify([['k_x', 0], [0, 1]]), KC.sympify('[[k_x, 0], [0, 1]]'), KC.sympify('e**(I*k_x)')]),
            ('badsympify', lambda P: KC.sympify('a b c')), ('badsympify2', lambda P: KC.sympify('[[1, 2], [3]]*sp', locals=P['locals'])),
            ('kclambdify', lambda P: [KC.lambdify('a + b', locals={'b': 'b + c'})(1, 3, 5), KC.lambdify('k*sp', P['locals'])(.5, .25)]),
            ('monomials', lambda P: [KC.monomials(P['expr']), KC.monomials(P['expr'], gens=['x']), KC.monomials(KC.sympify(P['str']))]),
            ('badmonomials', lambda P: KC.monomials(sympy.sympify('1/x + x'), gens=['x'])),
            ('makecomm', lambda P: KC.make_commutative(KC.sympify('k_x*k_y - k_y*k_x + a*k_x'), kx, ky)), ('gcd', lambda P: KC.gcd(12, 18, 4)),
    ]:
        A(n, f)
    # groups
    for n, f in [
            ('mul', lambda P: [P['c4i'] * P['mx'], P['mx'] * P['c4i'], P['tr'] * P['c4i'], P['c4i'] * P['strict']]), ('mulf', lambda P: [P['c4f'] * P['c4f'], P['c4f'] * P['mx']]),
            ('muls', lambda P: [P['c4s'] * P['c4s'], P['c4s'] * P['mx'], P['c3s'] * P['c3s']]), ('mulf3', lambda P: [P['c3f'] * P['c3f'], P['c8'] * P['c3f']]), ('badmul', lambda P: P['c3s'] * P['c3f']),
            ('pow', lambda P: [P['c4i'] ** 3, P['c4f'] ** 2, P['c3s'] ** -1, P['c4i'] ** 0, P['tr'] ** 2]), ('inv', lambda P: [P['c4i'].inv(), P['tr'].inv(), P['strict'].inv()]), ('invf', lambda P: [P['c4f'].inv(), P['c3f'].inv(), P['c8'].inv()]), ('invs', lambda P: [P['c4s'].inv(), P['c3s'].inv()]),
            ('geq', lambda P: [P['c4i'] == P['c4f'], P['c4s'] == P['c4i'], P['c3f'] == P['c3s'], P['c3s'] == P['c3f'], P['mx'] == P['tr'], P['c4n'] == P['c4i'], P['mx'] < P['tr'], sorted(P['gens'])[0] == P['c4i'], P['strict'] == P['strict'].identity()]),
            ('gcreate', lambda P: [PGE(P['rot'], U=P['u']), PGE(P['srot']), PGE(P['rot'].astype(float)), PGE(np.eye(2) + 1e-15), PGE(np.eye(2))]),
            ('gstr', lambda P: [str(P[x]) for x in ('c4i', 'c3f', 'c8', 'mx', 'tr', 'c43', 'cg', 'cg2')] + [G.pretty_print_pge(P['c4i'], full=True), G.pretty_print_pge(P['mx'], latex=True), G.pretty_print_cgg(P['cg'], latex=True)]),
            ('apply', lambda P: [P['c4i'].apply(P['m1']), P['tr'].apply(P['m1']), P['mx'].apply(P['m2']), P['ph'].apply(P['m1']), P['c4n'].apply(P['m1']), P['c4i'].apply(P['ms'])]),
            ('applyb', lambda P: [P['c4i'].apply(P['bm2']), P['c4i'].apply(P['hop2']), P['c8'].apply(P['bm2']), P['c4s'].apply(P['hop2'])]), ('applyf', lambda P: [P['c4f'].apply(P['m1']), P['c8'].apply(P['m1'])]),
            ('badapply', lambda P: P['c8'].apply(P['hop2'])), ('badapply3', lambda P: P['c43'].apply(P['m1'])), ('badpge', lambda P: PGE(np.eye(2) * 2)), ('badpge2', lambda P: PGE(np.ones((2, 3)))),
            ('badcgg', lambda P: CGG(np.eye(2), S[1])),
            ('capply', lambda P: [P['cg'].apply(P['m1']), P['cg2'].apply(P['m1']), P['cg2'].apply(P['ms'])]),
            ('gengroup', lambda P: Group(G.generate_group(P['gens']), 'U')), ('gengroupset', lambda P: Group(G.generate_group(P['gset']), 'U')), ('gengroup2', lambda P: [Group(G.generate_group({P['c4n'], P['trn']}), 'R'), Group(G.generate_group([P['c3s']]), 'R'), Group(G.generate_group([P['strict']]), 'X')]),
            ('badgroup', lambda P: G.generate_group([P['c3s'], P['c3f']])),
            ('setmul', lambda P: Group(G.set_multiply(G.generate_group([P['c4n']]), {P['trn'], P['trn'].identity()}), 'R')),
            ('subgroups', lambda P: sorted(sorted(sortkey(x) for x in k) for k in G.generate_subgroups(G.generate_group([P['c4n'], P['trn']])))),
            ('factories', lambda P: [G.identity(2), G.time_reversal(2, spin=1 / 2), G.particle_hole(2, U=P['u']), G.chiral(2, U=P['u']), G.inversion(2), G.rotation(1 / 4, spin=1 / 2), G.rotation(1 / 3, [0, 0, 1], spin=1), G.mirror([1, 0], spin=1 / 2), G.rotation(1 / 2, [1, 1, 0], inversion=True, U=P['u'])]),
            ('square', lambda P: [Group(G.square(), 'R'), Group(G.square(ph=False, generators=True, spin=1 / 2), 'U')]), ('cubic', lambda P: [len(G.cubic(tr=False, ph=False)), Group(G.cubic(generators=True), 'R')]),
            ('hexagonal', lambda P: [Group(G.hexagonal(tr=False), 'R'), Group(G.hexagonal(sympy_R=False, ph=False), 'R'), Group(G.hexagonal(dim=3, ph=False, generators=True, spin=1 / 2), 'U')]),
            ('spins', lambda P: [G.spin_matrices(1 / 2), G.spin_matrices(1, include_0=True), G.spin_rotation([0, 0, np.pi], 1 / 2), G.spin_rotation(np.array([0, np.pi / 2, 0]), 1, roundint=False), G.L_matrices(3, 1), G.L_matrices(2, 1), G.L_matrices(3, 2)]),
            ('perm', lambda P: G.symmetry_from_permutation(P['rot'], P['perm'], P['norbs'], P['onsite'])), ('perm2', lambda P: G.symmetry_from_permutation(-np.eye(2), P['perm'], P['norbsl'], antisymmetry=True)),
            ('badperm', lambda P: G.symmetry_from_permutation(P['rot'], {'A': 'B', 'B': 'B'}, P['norbs'])),
            ('angle', lambda P: [G.rotation_to_angle(np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])), G.rotation_to_angle(np.diag([-1., -1, 1]))]),
    ]:
        A(n, f)
    # families
    for n, f in [
            ('continuum', lambda P: Span(HG.continuum_hamiltonian(P['gens'], 2, 2))), ('continuumset', lambda P: Span(HG.continuum_hamiltonian(P['gset'], 2, 1, prettify=True))),
            ('continuum1', lambda P: Span(HG.continuum_hamiltonian([P['tr'], P['cg']], 2, [0, 1], all_powers=P['powers']))), ('pairing', lambda P: Span(HG.continuum_pairing(P['psyms'], 1, 1, phases=P['pph']))),
            ('pairing2', lambda P: Span(HG.continuum_pairing(P['psyms'][:1], 1, 1, ph_square=-1, prettify=True))), ('badpairing', lambda P: HG.continuum_pairing(P['psyms'], 1, 1, phases=P['phases'])), ('variables', lambda P: HG.continuum_variables(2, 2, P['powers'])),
            ('variables2', lambda P: HG.continuum_variables(2, 2, P['ipowers'])), ('continuum2', lambda P: Span(HG.continuum_hamiltonian(P['gens'], 2, 2, all_powers=P['ipowers']))), ('pairing3', lambda P: Span(HG.continuum_pairing(P['psyms'][:1], 2, 1, all_powers=P['ipowers']))),
            ('badcontinuum', lambda P: HG.continuum_hamiltonian(P['gens'], 3, 1)), ('bfam', lambda P: Span(HG.bloch_family(P['hops'], P['bsyms'], P['norbs']))), ('bfam2', lambda P: Span(HG.bloch_family(P['hops'], P['bsyms1'], P['norbsl'], bloch_model=True, prettify=False))),
            ('bfam3', lambda P: Span(HG.bloch_family(P['hops'], P['bsyms'], P['norbs'], symmetrize=False, onsites=False))), ('badbfam', lambda P: HG.bloch_family(P['hops'], P['bsyms'], {'A': 1, 'B': 1})), ('badbfam2', lambda P: HG.bloch_family([('A', 'C', (1, 0))], P['bsyms'], P['norbs'])),
            ('constrain', lambda P: Span(HG.constrain_family(P['gens'], P['fam']))), ('constrain2', lambda P: Span(HG.constrain_family([P['tr']], P['fam'], sparse_linalg=True))), ('check', lambda P: [HG.check_symmetry(P['fam'][1:2] * 0, P['gens']), HG.check_symmetry([P['m1'].subs('a', 0)], [P['tr']])]),
            ('badcheck', lambda P: HG.check_symmetry([P['m2']], P['gens'])), ('dups', lambda P: [Span(HG.remove_duplicates(P['famd'])), len(HG.remove_duplicates(P['famd'])), Span(HG.remove_duplicates(P['famb']))]),
            ('pretty', lambda P: [Span(HG.make_basis_pretty(P['fam'][2:9])), Span(HG.make_basis_pretty(P['famb']))]), ('roundf', lambda P: HG.round_family(P['famd'], 2)), ('subtract', lambda P: [Span(HG.subtract_family(P['fam'], P['fam'][:3])), Span(HG.subtract_family(P['fam'][:5], P['fam'][3:], prettify=True))]),
            ('badsubtract', lambda P: HG.subtract_family([P['m1']], [P['m1'] + P['m2']])), ('hff', lambda P: [HG.hamiltonian_from_family(P['fam']), HG.hamiltonian_from_family(P['fam'], P['coeffs'], tosympy=False), HG.hamiltonian_from_family(P['famd'], nsimplify=False)]),
            ('badhff', lambda P: HG.hamiltonian_from_family(P['fam'], P['coeffs'][:2])), ('symmono', lambda P: HG.symmetrize_monomial(P['m2'], [P['tr'], P['tr'].identity()])), ('display', quiet(lambda P: [HG.display_family(P['fam'][:2]), HG.display_family(P['famd'], summed=True)])),
            ('vectors', lambda P: [L.family_to_vectors(P['fam'], all_keys=[kx, ky, sympy.Integer(1)]), MSpan([L.family_to_vectors(P['famd'][:2]) @ L.family_to_vectors(P['famd'][:2]).T])]),
    ]:
        A(n, f)
    # finder
    grp = (lambda r: [Group(r[0], 'R'), MSpan([np.concatenate([np.zeros(0) if g.R is None else np.asarray(g.R, complex).ravel(), np.asarray(g.U, complex).ravel()]) for g in r[1] if g.R is None]), len(r[1])])
    for n, f in [
            ('symm', lambda P: grp(SF.symmetries(P['bhz'], P['candset']))), ('symmlist', lambda P: grp(SF.symmetries(P['m1'], P['cand']))), ('symmgen', lambda P: Group(G.generate_group(set(SF.symmetries(P['bhz'], P['cand'], generators=True)[0])), 'R')),
            ('symmnone', lambda P: grp(SF.symmetries(P['wire']))), ('symmrot', lambda P: grp(SF.symmetries(P['dirac'], P['candset'], continuous_rotations=True))), ('symmcons', lambda P: grp(SF.symmetries(P['cons'], P['cand']))),
            ('symmpretty', lambda P: grp(SF.symmetries(P['cons'], [P['trn']], prettify=True))), ('symmsparse', lambda P: grp(SF.symmetries(P['m1'], P['cand'], sparse_linalg=True))), ('symmbloch', lambda P: grp(SF.symmetries(P['bm'], P['cand1']))), ('symmhop', lambda P: grp(SF.symmetries(P['hop'], P['cand1']))),
            ('symmfail', lambda P: SF.symmetries(P['hop2'], [P['c8']])), ('symmverb', lambda P: quiet(lambda P: grp(SF.symmetries(P['wire'], P['cand1'], verbose=True)))(P)[0]),
            ('disc', lambda P: Group(SF.discrete_symmetries(P['bhz'], P['candset'])[0], 'R')), ('discPs', lambda P: Group(SF.discrete_symmetries(P['dirac'], P['candset'])[0], 'R')),
            ('cont', lambda P: [MSpan([np.concatenate([np.asarray(g.R, complex).ravel(), np.asarray(g.U, complex).ravel()]) for g in SF.continuous_symmetries(P['bhz'])])]),
            ('conserved', lambda P: [MSpan([g.U for g in SF.conserved_quantities(SF._reduce_hamiltonian(np.array(list(P['cons'].values()))))])] if hasattr(SF, '_reduce_hamiltonian') else None),
            ('conserved2', lambda P: MSpan([g.U for g in SF.conserved_quantities(P['Ps'], prettify=True)])),
            ('bravais', lambda P: [Group(SF.bravais_point_group(P['lat']), 'R'), Group(SF.bravais_point_group(np.eye(2), tr=True, ph=True, generators=True), 'R')]), ('bravais3', lambda P: [len(SF.bravais_point_group(P['lat3'])), len(SF.bravais_point_group(np.eye(3)[:1]))]),
            ('sun', lambda P: [SF.casimir(P['sun']), SF.killing(P['sun']), [MSpan(x) for x in SF.separate_lie_algebra(P['sun'])]]),
            ('neigh', lambda P: SF.check_bravais_symmetry(np.array([[1., 0], [0, 1], [-1, 0], [0, -1]]), [P['c4n']])),
    ]:
        A(n, f)
    # linear algebra and the rest
    for n, f in [
            ('null', lambda P: [MSpan([x[:, None] * x[None].conj() for x in [v]]) for v in [L.nullspace(P['big'])[0] * 0]] + [(lambda z: z.T @ z.conj())(L.nullspace(P['big'])), [(lambda z: z.T @ z.conj())(x) for x in L.nullspace(P['big'], return_complement=True)], (lambda z: z.T @ z.conj())(L.nullspace(P['bigs']))]),
            ('rref', lambda P: [L.rref(P['big'].real), L.rref(P['big'].real, return_S=True)]), ('simult', lambda P: sorted([np.round(p @ p.T.conj(), 6) + 0. for p in L.simult_diag(P['spm'])], key=lambda x: x.real.ravel().tolist())), ('badsimult', lambda P: L.simult_diag([S[1], S[3]])),
            ('solve', lambda P: [MSpan(L.solve_mat_eqn(P['hl'])), MSpan(L.solve_mat_eqn(P['hl'], hermitian=True, traceless=True)), MSpan(L.solve_mat_eqn(P['hl'], -P['hl'], conjugate=True) if 'conjugate' in L.solve_mat_eqn.__code__.co_varnames else [np.eye(2)])]),
            ('basis', lambda P: [list(L.matrix_basis(2)), list(L.matrix_basis(3, traceless=True, antihermitian=True)), [x.toarray() for x in L.matrix_basis(2, sparse=True)]]), ('small', lambda P: [L.prop_to_id(P['mat']), L.allclose(P['mat'], P['mat'] + 1e-12), L.commutator(P['mat'], P['u']), L.mtm(P['u'], P['hl'][:, :2, :2], P['mat']), L.split_list(P['vals'])]),
            ('sparseb', lambda P: MSpan(L.sparse_basis(P['hl'].reshape(2, -1)))), ('lll', lambda P: LLL.lll(P['lat'])), ('badlll', lambda P: LLL.lll(np.ones((3, 2)))), ('cvp', lambda P: [LLL.cvp(P['vec'], P['lat'], n=2), sorted(LLL.cvp(np.zeros(2), P['lat'], n=2, group_by_length=True).tolist())]), ('voronoi', lambda P: [sorted(LLL.voronoi(P['lat']).tolist()), sorted(LLL.voronoi(P['lat3'], reduced=True).tolist())]),
            ('gauss', lambda P: [RMT.gaussian(4, s, rng=7) for s in RMT.sym_list]), ('circ', lambda P: [RMT.circular(4, s, rng=7) for s in RMT.sym_list]), ('circq', lambda P: [RMT.circular(4, 'D', charge=1, rng=3), RMT.circular(4, 'AIII', charge=2, rng=3)]), ('badgauss', lambda P: RMT.gaussian(3, 'C', rng=1)),
    ]:
        A(n, f)


register()


# ------------------------------------------------------------ running histories

def scribble(x, avoid, depth=0, seen=None):
    """overwrite everything writable in a result, except memory shared with the arguments"""
    seen = set() if seen is None else seen
    if depth > 6 or id(x) in seen or id(x) in avoid[1]:
        return
    seen.add(id(x))
    r = (lambda y: scribble(y, avoid, depth + 1, seen))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object and not any(np.shares_memory(x, y) for y in avoid[0] if y.size and x.size):
            try:
                x[...] = 17 if x.dtype != bool else ~x
            except Exception:
                pass
    elif sp.issparse(x):
        r(x.data)
    elif isinstance(x, (Span, Group)):
        r(x.fam if isinstance(x, Span) else x.els)
    elif isinstance(x, MSpan):
        pass
    elif isinstance(x, Model):
        for v in list(x.data.values()):
            r(v)
        x.data.clear()
        if isinstance(x.keep, set) and id(x.keep) not in avoid[1]:
            x.keep.add(sympy.Symbol('junk'))
    elif isinstance(x, (PGE, CGG)):
        r(x.U)
        if isinstance(x.R, np.ndarray):
            r(x.R)
    elif isinstance(x, dict):
        for v in list(x.values()):
            r(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for y in x:
            r(y)
        if type(x) is list:
            x.append('junk')
    elif isinstance(x, set):
        for y in x:
            r(y)
        x.clear()


def reachable(x, arrs, ids, depth=0):
    if depth > 6 or id(x) in ids:
        return
    ids.add(id(x))
    if isinstance(x, np.ndarray):
        arrs.append(x)
    elif sp.issparse(x):
        reachable(x.data, arrs, ids, depth + 1)
    elif isinstance(x, Model):
        ids.add(id(x.keep))
        ids.add(id(x.data))
        for v in x.data.values():
            reachable(v, arrs, ids, depth + 1)
    elif isinstance(x, (PGE, CGG)):
        reachable(x.U, arrs, ids, depth + 1)
        reachable(x.R, arrs, ids, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            reachable(v, arrs, ids, depth + 1)
    elif isinstance(x, (list, tuple, set)):
        for v in x:
            reachable(v, arrs, ids, depth + 1)


class Runner:
    """one pool and what is known about it; calls are made in order"""
    def __init__(self, rev=False):
        warnings.simplefilter('ignore')
        self.P = pool(rev)
        self.arrs, self.ids = [], set()
        for v in self.P.values():
            reachable(v, self.arrs, self.ids)
        self.look()

    def look(self):
        self.before = {k: fp(v) for k, v in self.P.items()}
        self.w = world()

    def go(self, n, mutate=False):
        """(canonical result, names of the arguments that changed)"""
        if n.startswith('@'):
            np.random.seed(int(n[1:]))
            self.w = world()
            return None
        P = self.P
        try:
            r = CALLS[n](P)
            c = copy.deepcopy(canon(r))
        except Exception as err:
            r, c = None, ('raise', type(err).__name__)
        changed = []
        before, w = self.before, self.w
        self.look()
        if list(self.before) != list(before):
            changed.append('pool')
        changed += [k for k in before if self.before.get(k) != before[k]]
        if self.w != w:
            changed.append('world:%s' % [i for i, (x, y) in enumerate(zip(w, self.w)) if x != y])
        if mutate and r is not None:
            scribble(r, (self.arrs, self.ids))
            # only memory that belongs to the result has been touched
            touched = [k for k in self.before if fp(P[k]) != self.before[k]]
            if touched:
                changed.append('result shares memory with %s' % touched)
        return c, changed


def forked(fn, timeout=60):
    """run fn in a forked child, return its (picklable) result or a string describing the failure"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                res = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(res)
            code = 0
        except BaseException as err:
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps('child failed: %r' % err))
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else 'child killed'
