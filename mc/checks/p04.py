"""P04: substitution has pointwise meaning; momenta bookkeeping."""
import itertools

import numpy as np
import sympy
from sympy import Symbol, Rational, sqrt, pi, I

from mc import algebra as al
from mc.algebra import make_seed
from mc.core import ev, ev_model, gen, close
from qsymm.model import Model, BlochModel

ASSUMPTIONS = ['functions are compared at 3 fixed irrational points',
               'renaming a momentum to another existing momentum leaves the momenta list unspecified',
               'non-simultaneous dictionaries of symbols are substituted in alphabetic order, as in sympy']
BOUNDS = {'quick': 'all single substitutions (5 symbols x 18 values x 5 call forms) on 11 seeds, all ordered pairs of substitutions over a 12-letter alphabet as list / chained calls / simultaneous dictionary on 4 seeds, 4 momenta settings, symbolic and lattice models',
          'thorough': 'as quick with pairs on every seed and all sequences of 3 chained substitutions on 2 seeds'}

S = {n: Symbol(n) for n in ('k_x', 'k_y', 'k_z', 'a', 'b', 'p', 'q')}
kx, ky, kz, a, b, p, q = (S[n] for n in ('k_x', 'k_y', 'k_z', 'a', 'b', 'p', 'q'))

SEEDS = {
    'poly': {'1': 1, 'k_x': 2, 'a*k_x*k_y': 3},
    'poly2': {'k_x**2*k_z': 4, 'a**2': 5, 'b*k_y**3': 6, 'a*b': 7},
    'one': {'a': 8},
    'expo': {'e**(I*k_x)': 9, 'a*e**(-I*k_x)*e**(I*k_y)': 10, '1': 11},
    'lone': {'e**(I*k_x)': 12},
    'phase': {'e**(I*a)*k_z': 13, 'e**(I*a + I*k_x)': 14},
    'mix': {'k_z*e**(I*k_x/2)': 15, 'k_y**2*e**(-2*I*k_x/3)': 16},
    'inv': {'1/a': 17, 'k_x/b': 18, 'sqrt(a)*k_y': 19},
    'int': {'k_x': 'int', 'a*k_y': 'int2'},
    'empty': {},
    # b - SEEDS usable as lattice models
    'B1': {'e**(I*k_x)': 20, 'e**(-I*k_x + I*k_y)': 21, 'a': 22, '1': 23},
    'B2': {'b*e**(2*I*k_y/3)': 24, 'a*e**(I*a)*e**(I*k_z + I*k_x)': 25},
}
MOMENTA = {'xyz': ('k_x', 'k_y', 'k_z'), 'yx': ('k_y', 'k_x'), 'x': ('k_x',), 'za': ('k_z', 'a')}

# replacement values: (printable, object)
VALS = [0, 2, 1.234567890123, 1.5, np.float64(-0.75), Rational(1, 3), pi, sqrt(2), I, p, 'p', 'b', b, b ** 2 + 1, p * a, 2 * p - 1]
MVALS = VALS + [ky, kx + ky, -kx, 2 * kx, kx + Rational(1, 2), ky ** 2, 'k_x + p']
BVALS = [0, 2, 1.234567890123, 1.5, Rational(1, 3), pi, p, 'p', p * b, 2 * p - 1, kx + ky, -kx, 2 * kx, kx + Rational(1, 2), -ky + kx]
PAIRS = [(kx, 0), (kx, p), (kx, ky), (ky, kx), (kx, kx + ky), (ky, 1.5), (ky, a), (kz, q), (a, b), (b, a), (a, 2), (b, a * p), ('k_x', 'q')]
BPAIRS = [(kx, 0), (kx, p), (kx, ky), (ky, kx), (kx, kx + ky), (ky, 1.5), (ky, p), (kz, q), (a, b), (b, a), (a, 2), ('k_x', 'q')]


def cases(tier):
    out = []
    for cls in ('M', 'B'):
        for s in SEEDS:
            if cls == 'B' and not (s.startswith('B') or s in ('lone', 'empty')):
                continue
            for mom in MOMENTA:
                if cls == 'B' and mom not in ('xyz',) and s != 'B1':
                    continue
                if cls == 'B' and mom in ('za', 'x'):
                    continue
                out.append(dict(t='single', cls=cls, seed=s, mom=mom))
        for s in SEEDS:
            if cls == 'B' and not s.startswith('B'):
                continue
            if tier == 'quick' and s not in ('poly', 'expo', 'mix', 'B1', 'B2'):
                continue
            for i in range(len(PAIRS if cls == 'M' else BPAIRS)):
                out.append(dict(t='pairs', cls=cls, seed=s, mom='xyz', i=i))
    if tier == 'thorough':
        for cls, s in (('M', 'poly'), ('M', 'expo'), ('B', 'B1')):
            n = len(PAIRS if cls == 'M' else BPAIRS)
            for i in range(n):
                for j in range(n):
                    out.append(dict(t='triple', cls=cls, seed=s, mom='xyz', i=i, j=j))
    return out


def make(cls, seed, mom, fmt='dense', shape=(2, 2)):
    d = {k: al.cast(al.seed_matrix(v, shape), fmt) for k, v in SEEDS[seed].items()}
    c = Model if cls == 'M' else BlochModel
    return c(d, momenta=MOMENTA[mom], shape=shape, format=al.FORMATS[fmt])


def value(m, env):
    return ev_model(m, env, (2, 2))


def sym(x):
    return sympy.sympify(x)


def apply_env(env, pairs, simultaneous):
    """Environment of the original model that corresponds to env of the result."""
    if simultaneous:
        new = dict(env)
        for o, n in pairs:
            new[sym(o).name] = ev(sym(n), env)
        return new
    for o, n in reversed(pairs):
        env = dict(env, **{sym(o).name: ev(sym(n), env)})
    return env


def expect_momenta(mom, pairs, simultaneous):
    def step(mom, rep):
        out = []
        for k in mom:
            if k not in rep:
                out.append(k)
                continue
            n = sym(rep[k])
            if isinstance(n, Symbol):
                out.append(n.name)
            elif {x.name for x in n.atoms(Symbol)} & set(mom):
                out.append(k)
        return tuple(out)
    if simultaneous:
        return step(mom, {sym(o).name: n for o, n in pairs})
    for o, n in pairs:
        mom = step(mom, {sym(o).name: n})
    return mom


def check(R, key, m0, r, mom, pairs, simultaneous=False, cls=Model):
    R.step()
    R.check(type(r) is cls, 'type ' + key, type(r))
    R.check(r.shape == m0.shape, 'shape ' + key, lambda: '%s -> %s' % (m0.shape, r.shape))
    R.check(r.format is m0.format, 'format ' + key, lambda: '%s -> %s' % (m0.format, r.format))
    exp = expect_momenta(mom, pairs, simultaneous)
    if len(set(exp)) == len(exp):
        R.check(tuple(map(str, r.momenta)) == exp, 'momenta ' + key, lambda: 'got %s expected %s' % (r.momenta, exp))
    for env in al.PTS:
        env = dict(env, a=abs(env['a']) + 0.1, b=abs(env['b']) + 0.1, p=abs(env['p']) + 0.1)
        try:
            want = value(m0, apply_env(env, pairs, simultaneous))
        except ZeroDivisionError:
            return
        for k in r.keys():
            coeff = k[1] if isinstance(k, tuple) else k
            names = {x.name for x in sympy.sympify(coeff).atoms(Symbol)}
            gone = {sym(o).name for o, n in pairs}
            used = set().union(*[{x.name for x in sym(n).atoms(Symbol)} for o, n in pairs]) if pairs else set()
            if not R.check(not (names & (gone - used)), 'left-over ' + key, lambda: str(r)):
                return
        if not R.check(close(value(r, env), want, 1e-10), 'value ' + key,
                       lambda: 'got\n%s\nexpected\n%s\nfor %s' % (value(r, env), want, r)):
            return
    R.trace()
    R.state(key)
    R.outcome(tuple(map(str, r.momenta)), len(r))


def forms(o, n):
    yield 'pair', lambda m: m.subs(o, n), False
    yield 'list', lambda m: m.subs([(o, n)]), False
    yield 'dict', lambda m: m.subs({o: n}), False
    yield 'simul', lambda m: m.subs({o: n}, simultaneous=True), True
    if isinstance(o, Symbol):
        yield 'name', lambda m: m.subs(o.name, n), False
        yield 'name-dict', lambda m: m.subs({o.name: n}), False


def run_case(desc, R):
    cls = Model if desc['cls'] == 'M' else BlochModel
    mom = MOMENTA[desc['mom']]
    tag = '%s/%s/%s' % (desc['cls'], desc['seed'], desc['mom'])
    if desc['t'] == 'single':
        m0 = make(desc['cls'], desc['seed'], desc['mom'])
        for o in (kx, ky, kz, a, b):
            vals = (MVALS if cls is Model else BVALS) if o in (kx, ky, kz) else VALS
            for n in vals:
                if cls is BlochModel and o in (a, b) and n is I:
                    continue
                if desc['seed'] == 'inv' and o in (a, b) and sym(n) == 0:
                    continue
                for fn, f, simul in forms(o, n):
                    if fn not in ('pair', 'name', 'simul') and (str(n), str(o)) not in (('p', 'k_x'), ('0', 'k_x'), ('1.5', 'a'), ('k_x + k_y', 'k_x')):
                        continue
                    key = '%s %s->%s %s' % (tag, o, n, fn)
                    check(R, key, m0, f(m0), mom, [(o, n)], simul, cls)
        if desc['mom'] == 'xyz':
            for fmt in ('csr', 'scalar'):
                m1 = make(desc['cls'], desc['seed'], 'xyz', fmt, (2, 2) if fmt == 'csr' else ())
                for o, n in ((kx, 0), (kx, p), (a, 2), (a, 1.5), (kx, 1.5)):
                    key = '%s %s %s->%s' % (tag, fmt, o, n)
                    r = m1.subs(o, n)
                    if fmt == 'scalar':
                        R.step()
                        R.check(r.shape == (), 'shape ' + key)
                        for env in al.PTS:
                            env = dict(env, a=abs(env['a']) + 0.1, b=abs(env['b']) + 0.1)
                            R.check(close(ev_model(r, env, ()), ev_model(m1, apply_env(env, [(o, n)], False), ()), 1e-6), 'value ' + key, lambda: str(r))
                    else:
                        check(R, key, m1, r, mom, [(o, n)], False, cls)
        R.sample = dict(case=tag, example='%s -> %s' % (o, n))
        return
    m0 = make(desc['cls'], desc['seed'], desc['mom'])
    alpha = PAIRS if cls is Model else BPAIRS
    p1 = alpha[desc['i']]
    if desc['t'] == 'triple':
        p2 = alpha[desc['j']]
        m2 = m0.subs(*p1).subs(*p2)
        m2mom = expect_momenta(mom, [p1, p2], False)
        if len(set(m2mom)) < len(m2mom):
            return
        for p3 in alpha:
            key = '%s %s %s %s chain' % (tag, p1, p2, p3)
            check(R, key, m0, m2.subs(*p3), mom, [p1, p2, p3], False, cls)
        return
    for p2 in alpha:
        key = '%s %s %s' % (tag, p1, p2)
        pairs = [p1, p2]
        inter = expect_momenta(mom, [p1], False)
        ok_chain = len(set(inter)) == len(inter)
        if cls is BlochModel:
            # merging two momenta of a lattice model is left unspecified
            finals = [expect_momenta(mom, pairs[:n], False) for n in (1, 2)]
            if any(len(set(f)) < len(f) for f in finals):
                if sym(p1[0]) != sym(p2[0]) and {p1[0], p2[0]} == {p1[1], p2[1]}:
                    check(R, key + ' simul', m0, m0.subs(dict(pairs), simultaneous=True), mom, pairs, True, cls)
                continue
        check(R, key + ' list', m0, m0.subs(pairs), mom, pairs, False, cls)
        if ok_chain:
            check(R, key + ' chain', m0, m0.subs(*p1).subs(*p2), mom, pairs, False, cls)
        if sym(p1[0]) != sym(p2[0]) and not isinstance(p1[0], str) and not isinstance(p2[0], str):
            check(R, key + ' simul', m0, m0.subs(dict(pairs), simultaneous=True), mom, pairs, True, cls)
            check(R, key + ' simul-list', m0, m0.subs(pairs, simultaneous=True), mom, pairs, True, cls)
            o1, n1, o2, n2 = sym(p1[0]), sym(p1[1]), sym(p2[0]), sym(p2[1])
            # like in sympy, the order of a dictionary does not matter
            order = sorted(pairs, key=lambda p: p[0].name)
            if cls is Model or len(set(expect_momenta(mom, order[:1], False))) == len(expect_momenta(mom, order[:1], False)):
                check(R, key + ' dict', m0, m0.subs(dict(pairs)), mom, order, False, cls)
                check(R, key + ' reversed dict', m0, m0.subs(dict(pairs[::-1])), mom, order, False, cls)
