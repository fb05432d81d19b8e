"""Reference solutions for Hamiltonian families: linear algebra on the coefficient level.

A family member is an array F[mode, i, j] of matrix coefficients of `modes`
(momentum monomials or hopping vectors); operations act linearly on it.
"""
import functools
import itertools

import numpy as np
import sympy

from mc.core import null, rrank, dense, point


class Op:
    """discrete operation: U H(s R^-1 k)^(*) U^dagger = +-H(k)"""

    def __init__(self, R, c, a, U):
        self.R, self.c, self.a, self.U = np.asarray(R, float), bool(c), bool(a), np.asarray(U, complex)


class Gen:
    """continuous operation with real antisymmetric iR"""

    def __init__(self, R, U):
        self.R = None if R is None else np.asarray(R, complex)
        self.U = np.asarray(U, complex)


def herm_basis(n):
    out = []
    for i in range(n):
        for j in range(i, n):
            m = np.zeros((n, n), complex)
            m[i, j] = m[j, i] = 1
            out.append(m)
            if i != j:
                m = np.zeros((n, n), complex)
                m[i, j], m[j, i] = 1j, -1j
                out.append(m)
    return out


def all_mats(n, m):
    out = []
    for i in range(n):
        for j in range(m):
            for v in (1, 1j):
                x = np.zeros((n, m), complex)
                x[i, j] = v
                out.append(x)
    return out


# ------------------------------------------------------------ polynomials

def monos(dim, degree):
    return [p for p in itertools.product(range(degree + 1), repeat=dim) if sum(p) == degree]


def mono_vals(modes, k):
    return np.array([np.prod([x ** e for x, e in zip(k, p)]) if p else 1.0 for p in modes])


@functools.lru_cache(None)
def _pts(dim, n):
    names = ['k%d' % i for i in range(dim)]
    return np.array([[point(i, names, 1.2)[x] for x in names] for i in range(n)]).reshape(n, dim)


def poly_action(modes, op, dim):
    """T[q, p]: mode p of the transformed function in terms of modes q"""
    pts = _pts(dim, 2 * len(modes) + 3)
    V = np.array([mono_vals(modes, k) for k in pts])
    if isinstance(op, Op):
        Ri = np.linalg.inv(op.R) if dim else np.zeros((0, 0))
        W = np.array([mono_vals(modes, (Ri @ k) * (-1 if op.c else 1)) for k in pts])
    else:
        A = np.real(1j * op.R) if op.R is not None else np.zeros((dim, dim))
        W = []
        for k in pts:
            d = A @ k
            row = []
            for p in modes:
                s = 0.0
                for i in range(dim):
                    if p[i]:
                        q = list(p)
                        q[i] -= 1
                        s += p[i] * d[i] * np.prod([x ** e for x, e in zip(k, q)])
                row.append(s)
            W.append(row)
        W = np.array(W)
    return np.linalg.lstsq(V, W, rcond=None)[0]


# ------------------------------------------------------------ hoppings

def hop_key(v):
    return tuple(float(x) for x in np.round(np.asarray(v, float), 4) + 0.0)


def hop_action(modes, op):
    """T for hopping modes; hops that leave the list are appended as extra rows"""
    keys = [hop_key(v) for v in modes]
    extra = {}
    T = np.zeros((len(keys), len(keys)))
    rows = []
    for p, v in enumerate(modes):
        w = hop_key(op.R @ np.asarray(v)) if isinstance(op, Op) else None
        if w is None:
            continue
        if w in keys:
            T[keys.index(w), p] = 1
        else:
            i = extra.setdefault(w, len(extra))
            while len(rows) <= i:
                rows.append(np.zeros(len(keys)))
            rows[i][p] = 1
    return np.vstack([T] + rows) if rows else T


# ------------------------------------------------------------ linear action

def act(op, T, X):
    """constraint value (zero when symmetric) of arrays X[b, p, i, j]"""
    if isinstance(op, Gen):
        Y = -1j * (np.einsum('ij,bpjk->bpik', op.U, X) - np.einsum('bpij,jk->bpik', X, op.U))
        if T is not None and T.any():
            Y = Y + np.einsum('qp,bpij->bqij', T, X)
        return Y
    Z = X.conj() if op.c else X
    Z = np.einsum('ij,bpjk,lk->bpil', op.U, Z, op.U.conj())
    Y = (-1 if op.a else 1) * np.einsum('qp,bpij->bqij', T, Z)
    P = X.shape[1]
    Y[:, :P] -= X
    return Y


def flat(X):
    X = X.reshape(len(X), -1)
    return np.hstack([X.real, X.imag])


def solve(basis, opsT):
    """basis X[b,p,i,j] of a real linear space, opsT [(op, T)]; the invariant subspace"""
    if not len(basis):
        return basis
    if not opsT:
        return basis
    A = np.hstack([flat(act(op, T, basis)) for op, T in opsT]).T
    c = null(A, 1e-8).real
    return np.tensordot(c, basis, 1)


def poly_ref(ops, dim, degree, allowed, mats):
    """(modes, invariant arrays) of all polynomials of one degree with allowed monomials and given matrices"""
    modes = monos(dim, degree)
    n = len(mats[0])
    basis = []
    for p, mode in enumerate(modes):
        if not allowed(mode):
            continue
        for m in mats:
            x = np.zeros((len(modes), n, n), complex)
            x[p] = m
            basis.append(x)
    basis = np.array(basis).reshape(len(basis), len(modes), n, n)
    return modes, solve(basis, [(op, poly_action(modes, op, dim)) for op in ops])


# ------------------------------------------------------------ reading library families

@functools.lru_cache(100000)
def parse_mono(key, names):
    """monomial -> (exponents, factor)"""
    ex = [0] * len(names)
    f = 1.0
    for b, x in sympy.sympify(key).as_powers_dict().items():
        if b.is_Symbol and b.name in names and x.is_Integer and x >= 0:
            ex[names.index(b.name)] += int(x)
        elif b.is_number and sympy.sympify(x).is_number:
            f = f * complex(b ** x)
        else:
            raise ValueError('not a monomial in the momenta: %s' % (key,))
    return tuple(ex), f


@functools.lru_cache(100000)
def parse_hop(key, names):
    """product of exponentials -> (hopping vector, factor)"""
    f = [1.0]

    def expo(k):
        if isinstance(k, sympy.Mul):
            return sum((expo(a) for a in k.args), sympy.Integer(0))
        if isinstance(k, sympy.Pow):
            if k.base.is_Symbol and k.base.name == 'e':
                return k.exp
            return k.exp * expo(k.base)
        if isinstance(k, sympy.exp):
            return k.args[0]
        if k.is_number:
            f[0] *= complex(k)
            return sympy.Integer(0)
        raise ValueError('not a hopping: %s' % (k,))
    x = sympy.expand(expo(sympy.sympify(key)) / sympy.I)
    syms = {s.name: s for s in x.free_symbols}
    if set(syms) - set(names):
        raise ValueError('unexpected symbols in %s' % (key,))
    v = [float(x.coeff(syms[n])) if n in syms else 0.0 for n in names]
    rest = sympy.expand(x - sum((syms[n] * x.coeff(syms[n]) for n in names if n in syms), sympy.Integer(0)))
    if rest != 0:
        raise ValueError('not a hopping: %s' % (key,))
    return tuple(v), f[0]


def arrays(family, modes, names, n, hops=False, shape=None):
    """family of library models -> X[b, p, i, j] or an error message"""
    shape = shape or (n, n)
    X = np.zeros((len(family), len(modes)) + shape, complex)
    keys = [hop_key(m) for m in modes] if hops else [tuple(m) for m in modes]
    index = {k: i for i, k in enumerate(keys)}
    for b, mem in enumerate(family):
        if tuple(mem.shape) != shape:
            return None, 'shape %s' % (mem.shape,)
        for key, val in mem.items():
            try:
                if isinstance(key, tuple):
                    v, f = key[0], complex(key[1])
                elif hops:
                    v, f = parse_hop(key, names)
                else:
                    v, f = parse_mono(key, names)
            except (ValueError, TypeError) as ex:
                return None, str(ex)
            k = hop_key(v) if hops else v
            if k not in index:
                if np.max(np.abs(dense(val))) > 1e-7:
                    return None, 'term %s does not belong to the family' % (key,)
                continue
            X[b, index[k]] += f * dense(val)
    return X, None


def compare(R, X, ref, label, info, tol=1e-6):
    """X: family arrays, ref: arrays spanning the wanted real space"""
    nf, nr = len(X), len(ref)
    R.outcome(label, nr)
    if not R.check(nf == nr, label + ': dimension', lambda: '%s: %d terms, %d expected' % (info(), nf, nr)):
        return False
    if not nf:
        return True
    fx, fr = flat(X), flat(ref)
    sc = np.linalg.norm(fx, axis=1, keepdims=True)
    if not R.check(bool(np.all(sc > 1e-6)), label + ': vanishing member', info):
        return False
    fx = fx / sc
    q = np.linalg.svd(fr, full_matrices=False)[2][:nr]
    d = np.max(np.abs(fx - (fx @ q.T) @ q))
    if not R.check(d < tol, label + ': member outside the symmetric space', lambda: '%s: deviation %.2g' % (info(), d)):
        return False
    s = np.linalg.svd(fx, compute_uv=False)
    return R.check(s[-1] > 1e-7, label + ': members linearly dependent', lambda: '%s: smallest singular value %.2g' % (info(), s[-1]))
