"""P03: calls never alter their arguments and never depend on earlier calls.

All call histories up to a bound over one pool of shared arguments are executed on the real library,
each in a process whose caches start empty (fork tree)."""
import copy
import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

from mc import history as H

ASSUMPTIONS = ['families are compared as the space they span, groups as sets (Hilbert-space parts up to phase), other results by value',
               'views returned by T and reshape may share memory with their arguments']
BOUNDS = {'quick': '152 calls covering the public API (about 30 of them failing) on one pool of 80 shared arguments: every ordered pair of calls in a fresh process, every call repeated after its result was overwritten, 8 orders of all calls in one process; 8 hash seeds x both insertion orders; 2 states of the global random source; every kind of copy of every model, lattice coefficient and operation',
          'thorough': 'the same plus every triple A, B, A and every triple starting from two of 40 calls'}
LIMIT = {'quick': 300, 'thorough': 880}
NAMES = list(H.CALLS)
_run = None
_base = None


def runner():
    global _run
    if _run is None:
        _run = H.Runner()
    return _run


def base():
    """results of every call made first in a process"""
    global _base
    if _base is None:
        R = runner()
        _base = {n: H.forked(lambda: R.go(n)) for n in NAMES}
    return _base


def judge(n, r, hist):
    """None or a description of what is wrong with result r of call n after history hist"""
    if isinstance(r, str):
        return ('died', '%s after %s: %s' % (n, hist, r))
    c, changed = r
    if changed:
        return ('changed by %s: %s' % (n, changed), 'history %s' % (hist,))
    b = base()[n]
    if isinstance(b, str):
        return ('died', '%s: %s' % (n, b))
    if not H.same(c, b[0]):
        return ('history dependent: %s' % n, 'after %s: %s\nalone: %s' % (hist, str(c)[:500], str(b[0])[:500]))
    return None


def report(R, bad):
    for key, msg in bad[:5]:
        R.check(False, key, msg)


def hist(desc, R):
    A = desc['a']
    rn = runner()
    bs = base()
    assert bs

    def tree():
        bad, n = [], 0
        x = judge(A, rn.go(A), ())
        if x:
            bad.append(x)
        for B in NAMES:
            def leaf():
                out = []
                for m in ([B] if not desc['deep'] else [B, A]):
                    y = judge(m, rn.go(m), (A, B)[:1] if m == B else (A, B))
                    if y:
                        out.append(y)
                return out
            y = H.forked(leaf)
            n += 1
            bad += [('died', '%s: %s' % ((A, B), y))] if isinstance(y, str) else y
            if len(bad) > 3:
                break
        return bad, n
    r = H.forked(tree, timeout=800)
    if not R.check(not isinstance(r, str), 'history did not finish: %s' % A, str(r)):
        return
    for i in range(r[1]):
        R.state(A, i)
        R.step()
        R.trace()
    report(R, r[0])

    def again():
        out = [judge(A, rn.go(A, True), ()), judge(A, rn.go(A, True), (A, 'result overwritten')), judge(A, rn.go(A), (A, A, 'results overwritten'))]
        return [x for x in out if x]
    r = H.forked(again)
    R.state(A, 'again')
    R.trace()
    report(R, [('died', r)] if isinstance(r, str) else r)


def triples(desc, R):
    A = desc['a']
    rn = runner()
    base()

    def tree():
        bad, n = [], 0
        rn.go(A)
        for B in SUB:
            def inner():
                out = []
                rn.go(B)
                for C in NAMES[::2] if len(NAMES) > 60 else NAMES:
                    y = H.forked(lambda: judge(C, rn.go(C), (A, B)))
                    if y:
                        out.append(('died', y) if isinstance(y, str) else y)
                        if len(out) > 3:
                            break
                return out
            y = H.forked(inner, timeout=600)
            n += 1
            bad += [('died', y)] if isinstance(y, str) else y
        return bad, n
    r = H.forked(tree, timeout=860)
    if R.check(not isinstance(r, str), 'histories did not finish: %s' % A, str(r)):
        for i in range(r[1]):
            R.state(A, i)
            R.trace()
        report(R, r[0])


SUB = NAMES[::5]


def long(desc, R):
    """all calls in one process in some order"""
    n = len(NAMES)
    order = {0: NAMES, 1: NAMES[::-1], 2: NAMES[::2] + NAMES[1::2], 3: NAMES[1::2][::-1] + NAMES[::2][::-1]}.get(desc['o'])
    if order is None:
        st = [7, 11, 13, 17, 31, 41][desc['o'] % 6]
        while np.gcd(st, n) != 1:
            st += 1
        order = [NAMES[(i * st + 5 * desc['o']) % n] for i in range(n)]
    rn = runner()
    base()

    def run():
        bad = []
        for i, m in enumerate(order):
            x = judge(m, rn.go(m, mutate=desc['o'] % 2 == 1), order[max(0, i - 6):i])
            if x:
                bad.append(x)
        return bad
    r = H.forked(run, timeout=300)
    for i, m in enumerate(order):
        R.state(i, m)
        R.step()
    R.trace()
    report(R, [('died', r)] if isinstance(r, str) else r)


def seeds(desc, R):
    """another hash seed and insertion order, in a new interpreter"""
    env = dict(os.environ, PYTHONHASHSEED=str(desc['seed']))
    p = subprocess.run([sys.executable, '-m', 'mc.checks.p03', 'dump', '1' if desc['rev'] else '0'], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), timeout=250)
    if not R.check(p.returncode == 0, 'hash seed run failed', lambda: p.stderr.decode()[-1500:]):
        return
    res = pickle.loads(p.stdout)
    b = base()
    for n in NAMES:
        R.state(n, desc)
        R.trace()
        R.check(not isinstance(res[n], str) and not isinstance(b[n], str) and H.same(res[n][0], b[n][0]), 'depends on hash seed or insertion order: %s' % n, lambda: '%s: %s\nusual: %s' % (desc, str(res[n])[:600], str(b[n])[:600]))


def rng(desc, R):
    """calls neither use nor change the global random source unless asked to"""
    rn = runner()
    b = base()
    for n in NAMES:
        R.state(n)
        r = H.forked(lambda: (rn.go('@%d' % desc['seed']), rn.go(n))[1])
        x = judge(n, r, ('numpy.random.seed(%d)' % desc['seed'],))
        R.trace()
        if x:
            report(R, [x])


def copies(desc, R):
    """a copy shares no mutable state with its original"""
    P = H.pool()
    for name, m in P.items():
        if not isinstance(m, (H.Model, H.PGE, H.CGG)):
            continue
        for how in ('copy', 'copy.copy', 'deepcopy'):
            if how == 'copy' and not hasattr(m, 'copy') or how == 'copy.copy' and not isinstance(m, H.Model):
                continue
            for direction in (0, 1):
                R.state(name, how, direction)
                R.step()
                o = H.pool()[name]
                c = o.copy() if how == 'copy' else copy.copy(o) if how == 'copy.copy' else copy.deepcopy(o)
                kept, hit = (o, c) if direction == 0 else (c, o)
                R.check(H.same(H.canon(o), H.canon(c)) and type(o) is type(c), 'copy differs: %s of %s' % (how, name), lambda: '%r %r' % (o, c))
                before = H.fp(kept)
                if isinstance(hit, H.Model):
                    for k, v in list(hit.items()):
                        if isinstance(v, np.ndarray):
                            v[...] = 5
                        elif hasattr(v, 'data') and isinstance(v.data, np.ndarray):
                            v.data[...] = 5
                    hit.keep.add(H.a)
                    hit[H.sympy.Symbol('extra')] = next(iter(hit.values())) if len(hit) else np.ones((2, 2), complex)
                    for k in list(hit.keys())[:1]:
                        del hit[k]
                    if not isinstance(hit, H.BlochModel):
                        hit.momenta = ('junk',)
                else:
                    if isinstance(hit.U, np.ndarray) and hit.U.flags.writeable:
                        hit.U[...] = 5
                    hit.U = None
                R.check(H.fp(kept) == before, 'copy shares state: %s of %s' % (how, name), lambda: 'direction %d' % direction)
                R.trace()
    from qsymm.model import BlochCoeff
    for name, m in P.items():
        if not isinstance(m, H.BlochModel):
            continue
        for i, key in enumerate(m.keys()):
            for how, f in (('copy', lambda k: k.copy()), ('copy.copy', copy.copy), ('deepcopy', copy.deepcopy), ('pickle', lambda k: pickle.loads(pickle.dumps(k)))):
                for direction in (0, 1):
                    o = BlochCoeff(np.array(key[0]), key[1])
                    c = f(o)
                    ref = np.array(key[0])
                    R.step()
                    R.check(type(c) is BlochCoeff and c == o and hash(c) == hash(o) and np.array_equal(c[0], ref) and c[1] == key[1], 'coefficient: %s differs' % how, lambda: '%s %s' % (o, c))
                    kept, hit = (o, c) if direction == 0 else (c, o)
                    hit[0][...] = 7
                    R.check(np.array_equal(kept[0], ref), 'coefficient: %s shares the hopping vector' % how, lambda: 'direction %d' % direction)
                    R.state('coeff', name, i, how, direction)
                    R.trace()


def cases(tier):
    th = tier == 'thorough'
    out = [{'k': 'seeds', 'seed': s, 'rev': r} for s in range(0, 5 if not th else 20) for r in (False, True) if (s, r) != (0, False)]
    out += [{'k': 'long', 'o': o} for o in range(8 if not th else 30)]
    out += [{'k': 'rng', 'seed': s} for s in (1, 2)]
    out += [{'k': 'copies'}]
    heavy = ('bfam', 'symm', 'cont', 'bravais', 'pair', 'hexa', 'cubic', 'disc')
    out += [{'k': 'hist', 'a': n, 'deep': th} for n in sorted(NAMES, key=lambda n: not n.startswith(heavy))]
    if th:
        out += [{'k': 'triples', 'a': n} for n in SUB]
    return out


def run_case(desc, R):
    R.sample = desc
    globals()[desc['k']](desc, R)


if __name__ == '__main__' and sys.argv[1:2] == ['dump']:
    rn = H.Runner(sys.argv[2] == '1')
    res = {n: H.forked(lambda: rn.go(n)) for n in NAMES}
    sys.stdout.buffer.write(pickle.dumps(res))
