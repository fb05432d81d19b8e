"""P13: symmetry operators of lattice systems built from site permutations."""
from collections import OrderedDict
import itertools

import numpy as np
import sympy

from mc.core import unit, close, gen, rot2, ev_model, point
from qsymm import groups as G
from qsymm.model import BlochModel

ASSUMPTIONS = ['onsite actions are square with the size of the orbital number']
BOUNDS = {'quick': 'all permutations of up to 4 sites (5 sites: all 120 with one orbital), all orbital numbers from {1,2,3} per site, 3 kinds of site labels, norbs as OrderedDict / dict / tuple / list of pairs, onsite action omitted / common / per site, all flags, 3 real-space actions; all malformed permutations of up to 3 sites over 4 labels; all pairs for composition up to 3 sites; equivariance of hopping terms',
          'thorough': 'all permutations of 5 sites with orbital numbers {1,2}, composition with 4 sites'}

LABELS = [['a', 'b', 'c', 'd', 'e'], [0, 1, 2, 3, 4], [('x', 0), ('x', 1), ('y', 0), ('y', 1), ('z', 'w')], [3, 1, 'q', 2, (0,)]]


def cases(tier):
    out = []
    for n in range(1, 5):
        for nb in itertools.product((1, 2, 3), repeat=n):
            out.append(dict(t='build', norbs=list(nb)))
    for nb in ([[1] * 5] if tier == 'quick' else [list(x) for x in itertools.product((1, 2), repeat=5)]):
        out.append(dict(t='build', norbs=nb))
    for n in range(1, 4 if tier == 'quick' else 5):
        for nb in itertools.product((1, 2), repeat=n):
            out.append(dict(t='compose', norbs=list(nb)))
    out += [dict(t='reject', n=n) for n in (1, 2, 3)]
    out += [dict(t='hop', norbs=list(nb)) for nb in itertools.product((1, 2), repeat=3)]
    return out


def run_case(desc, R):
    globals()['case_' + desc['t']](desc, R)


def slices(norbs):
    off = np.concatenate([[0], np.cumsum(norbs)])
    return [slice(off[i], off[i + 1]) for i in range(len(norbs))]


def reference(perm, norbs, acts):
    """perm: index -> index of image"""
    N = sum(norbs)
    U = np.zeros((N, N), complex)
    sl = slices(norbs)
    for a, b in enumerate(perm):
        for i in range(norbs[a]):
            for j in range(norbs[a]):
                U[sl[b].start + i, sl[a].start + j] = acts[a][i, j]
    return U


RS = [np.eye(2), rot2(np.pi / 3), sympy.ImmutableMatrix([[0, -1], [1, 0]])]


def styles(labels, norbs, i):
    pairs = [(l, n) for l, n in zip(labels, norbs)]
    return [OrderedDict(pairs), dict(pairs), tuple(pairs), pairs][i % 4]


def case_build(desc, R):
    norbs = desc['norbs']
    n = len(norbs)
    cnt = 0
    for perm in itertools.permutations(range(n)):
        ok = all(norbs[a] == norbs[b] for a, b in enumerate(perm))
        for li, lab in enumerate(LABELS):
            labels = lab[:n]
            acts_site = [unit(m, 3 + i) for i, m in enumerate(norbs)]
            kinds = [('none', None, [np.eye(m) for m in norbs]), ('site', dict(zip(labels, acts_site)), acts_site)]
            kinds.append(('site-reversed', dict(list(zip(labels, acts_site))[::-1]), acts_site))
            if len(set(norbs)) == 1:
                u = unit(norbs[0], 8)
                kinds.append(('common', u, [u] * n))
            for kn, arg, acts in kinds:
                c, a = bool(cnt & 1), bool(cnt & 2)
                Rm = RS[cnt % 3]
                pd = {labels[x]: labels[y] for x, y in enumerate(perm)}
                if cnt % 5 == 0:
                    pd = dict(list(pd.items())[::-1])
                nb = styles(labels, norbs, cnt)
                cnt += 1
                key = 'perm=%s norbs=%s %s labels%d' % (perm, norbs, kn, li)
                kw = {} if arg is None and cnt % 2 else dict(onsite_action=arg)
                if c or cnt % 3:
                    kw['antiunitary'] = c
                if a or cnt % 2:
                    kw['antisymmetry'] = a
                R.step()
                if not ok:
                    R.fails(ValueError, 'incompatible orbitals ' + key, lambda: G.symmetry_from_permutation(Rm, pd, nb, **kw))
                    continue
                snap = (dict(pd), list(nb.items()) if hasattr(nb, 'items') else list(nb))
                g = G.symmetry_from_permutation(Rm, pd, nb, **kw)
                R.check(close(g.U, reference(perm, norbs, acts)), key, lambda: 'U = %s' % g.U)
                R.check(close(np.array(g.R).astype(float), np.array(Rm).astype(float)) and (bool(g.conjugate), bool(g.antisymmetry)) == (c, a), key + ' flags', repr(g))
                R.check(snap == (dict(pd), list(nb.items()) if hasattr(nb, 'items') else list(nb)), key + ' argument changed')
                # a state on one site moves to the image site
                sl = slices(norbs)
                for x in range(n):
                    v = np.zeros(sum(norbs), complex)
                    v[sl[x]] = gen((norbs[x],), x)
                    w = np.zeros(sum(norbs), complex)
                    w[sl[perm[x]]] = acts[x] @ v[sl[x]]
                    R.check(close(g.U @ v, w), key + ' state on site %d' % x)
                R.state(key)
                R.outcome(tuple(perm), tuple(norbs))
                R.trace()
    R.sample = dict(norbs=norbs)


def case_compose(desc, R):
    norbs = desc['norbs']
    n = len(norbs)
    labels = LABELS[0][:n]
    perms = [p for p in itertools.permutations(range(n)) if all(norbs[a] == norbs[b] for a, b in enumerate(p))]
    for p, q in itertools.product(perms, perms):
        for (c1, c2) in itertools.product((False, True), repeat=2):
            A = [unit(m, 3 + i) for i, m in enumerate(norbs)]
            B = [unit(m, 7 + i) for i, m in enumerate(norbs)]
            g = G.symmetry_from_permutation(rot2(0.3), dict(zip(labels, [labels[x] for x in p])), list(zip(labels, norbs)), dict(zip(labels, A)), antiunitary=c1)
            h = G.symmetry_from_permutation(np.diag([1, -1]), dict(zip(labels, [labels[x] for x in q])), list(zip(labels, norbs)), dict(zip(labels, B)), antiunitary=c2, antisymmetry=True)
            comp = {labels[a]: labels[p[q[a]]] for a in range(n)}
            acts = {labels[a]: A[q[a]] @ (B[a].conj() if c1 else B[a]) for a in range(n)}
            k = G.symmetry_from_permutation(rot2(0.3) @ np.diag([1, -1]), comp, list(zip(labels, norbs)), acts, antiunitary=c1 ^ c2, antisymmetry=True)
            gh = g * h
            R.step()
            R.check(gh == k and close(gh.U, k.U), 'compose %s %s %s' % (p, q, norbs), lambda: '%r\n%r' % (gh, k))
            R.state(p, q, c1, c2, tuple(norbs))
            R.trace()
    R.outcome(len(perms))


def case_reject(desc, R):
    n = desc['n']
    labels = LABELS[0]
    sites = labels[:n]
    norbs = [(s, 2) for s in sites]
    for keys in itertools.chain.from_iterable(itertools.combinations(labels[:4], m) for m in range(0, 5)):
        for vals in itertools.product(labels[:4], repeat=len(keys)):
            perm = dict(zip(keys, vals))
            good = set(keys) == set(vals) == set(sites)
            R.step()
            R.state(n, keys, vals)
            if good:
                g = G.symmetry_from_permutation(np.eye(2), perm, norbs)
                R.check(close(np.abs(g.U).sum(0), np.ones(2 * n)), 'good %s' % perm)
            else:
                R.fails(ValueError, 'malformed permutation %s of %s' % (perm, sites), lambda: G.symmetry_from_permutation(np.eye(2), perm, norbs))
            R.trace()


def case_hop(desc, R):
    """Hopping terms are carried to hopping terms between image sites along rotated vectors."""
    norbs = desc['norbs']
    n = len(norbs)
    labels = LABELS[0][:n]
    sl = slices(norbs)
    N = sum(norbs)
    Rm = rot2(2 * np.pi / 3)
    for perm in itertools.permutations(range(n)):
        if not all(norbs[a] == norbs[b] for a, b in enumerate(perm)):
            continue
        acts = [unit(m, 3 + i) for i, m in enumerate(norbs)]
        g = G.symmetry_from_permutation(Rm, {labels[x]: labels[y] for x, y in enumerate(perm)}, list(zip(labels, norbs)), dict(zip(labels, acts)))
        for a, b in itertools.product(range(n), repeat=2):
            T = np.zeros((N, N), complex)
            t = gen((norbs[a], norbs[b]), a + 3 * b)
            T[sl[a], sl[b]] = t
            m = BlochModel({'e**(I*k_x)': T}, momenta=['k_x', 'k_y'])
            r = g.apply(m)
            W = np.zeros((N, N), complex)
            W[sl[perm[a]], sl[perm[b]]] = acts[a] @ t @ acts[b].conj().T
            e = point(3, ('k_x', 'k_y'))
            v = Rm @ [1, 0]
            R.step()
            R.check(close(ev_model(r, e), W * np.exp(1j * (v @ [e['k_x'], e['k_y']]))), 'hopping %s %s %d %d' % (norbs, perm, a, b), lambda: str(r))
            R.state(tuple(norbs), perm, a, b)
            R.trace()
