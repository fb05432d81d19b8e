"""P12: printed names describe the operation (and tell operations apart)."""
import functools
import itertools
import re

import numpy as np
import tinyarray as ta

from mc.core import closure, rot2, rot3, close, rnd, unit, herm
from mc.checks.p08 import exact, FLAGS
from qsymm import groups as G
from qsymm.groups import PointGroupElement, ContinuousGroupGenerator, pretty_print_pge, pretty_print_cgg

ASSUMPTIONS = ['names exist for orthogonal operations in 1-3 dimensions',
               'angles are shown as fractions of pi with denominator <= 100 and axes with two decimals, so the shown operation is compared within that resolution']
BOUNDS = {'quick': 'all elements of 1D, square, hexagonal, cubic and hexagonal-prism groups in 4 orientations each and in exact form, rotations by all p/q turns (q <= 12) about 62 axes with and without inversion, mirrors about 62 + 24 normals, each with 4 classes, 4 unitary parts, short / full, text / LaTeX; generators: 62 axes x 5 scales x 4 conserved quantities in 3D, 7 scales in 2D, conserved quantities only',
          'thorough': 'q <= 30, 124 axes, 16 orientations'}


def cases(tier):
    out = []
    for fam in ('1D', 'D4', 'D6', 'Oh', 'D6h'):
        for o in range(4 if tier == 'quick' else 16):
            out.append(dict(t='group', fam=fam, orient=o))
        out.append(dict(t='exact', fam=fam))
    for part in range(12):
        out.append(dict(t='angles', part=part, q=12 if tier == 'quick' else 30, full=tier != 'quick'))
    out += [dict(t='cont3', part=p, full=tier != 'quick') for p in range(4)]
    out += [dict(t='cont2'), dict(t='list'), dict(t='full'), dict(t='zero')]
    return out


def run_case(desc, R):
    globals()['case_' + desc['t']](desc, R)


NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def parse_angle(s):
    """multiple of pi"""
    s = s.strip().replace(' ', '')
    m = re.fullmatch(r'(-?)\\frac\{(-?)(\d*)\\pi\}\{(\d+)\}', s)
    if m:
        return (-1 if (m[1] + m[2]).count('-') % 2 else 1) * int(m[3] or 1) / int(m[4])
    m = re.fullmatch(r'(-?)(\d*)(?:π|\\pi)(?:/(\d+))?', s)
    assert m, 'angle not understood: %r' % s
    return (-1 if m[1] else 1) * int(m[2] or 1) / int(m[3] or 1)


def parse_vec(s):
    s = s.strip()
    assert s[0] == '[' and s[-1] == ']', 'vector not understood: %r' % s
    return np.array([float(x) for x in s[1:-1].replace(',', ' ').split()])


def parse_rot(s, dim):
    """real-space matrix described by the name of the rotation part"""
    s = s.replace(r'\left', '').replace(r'\right', '').strip()
    if s == '1':
        return np.eye(dim)
    if s == 'I':
        return -np.eye(dim)
    m = re.fullmatch(r'([RMS])\((.*)\)', s, re.S)
    assert m, 'name not understood: %r' % s
    kind, body = m[1], m[2]
    if kind == 'M':
        n = parse_vec(body)
        assert len(n) == dim
        n = n / np.linalg.norm(n)
        return np.eye(dim) - 2 * np.outer(n, n)
    if dim == 2:
        return rot2(np.pi * parse_angle(body))
    a, v = body.split(',', 1)
    r = rot3(parse_vec(v), np.pi * parse_angle(a))
    return r if kind == 'R' else -r


AZ = {'T': (True, False), 'P': (True, True), 'C': (False, True)}


def parse_short(s, dim):
    s = s.strip()
    if s[0] == '$':
        assert s[-1] == '$'
        s = s[1:-1].strip()
        s = re.sub(r'\\mathcal\{([TPC])\}', r' \1', s)
    s = s.strip()
    fl = (False, False)
    if s and s[-1] in AZ:
        fl = AZ[s[-1]]
        s = s[:-1].strip()
        if s == '':
            s = '1'
    return parse_rot(s, dim), fl


def parse_matrix(s, latex):
    if latex:
        m = re.search(r'\\begin\{bmatrix\}(.*)\\end\{bmatrix\}', s, re.S)
        rows = [r for r in m[1].split(r'\\') if r.strip()]
        return np.array([[complex(x.replace(' ', '')) for x in r.split('&')] for r in rows])
    body = s.strip()
    rows = re.findall(r'\[([^\[\]]*)\]', body)
    return np.array([[complex(x) for x in re.sub(r'\s+(?=[+-]?\d*\.?\d*(?:e[+-]?\d+)?j)', '', r).split()] for r in rows])


def braces(s):
    d = 0
    for c in s:
        d += (c == '{') - (c == '}')
        if d < 0:
            return False
    return d == 0


def check_pge(g, m, R, key, tol=0.03, u=None):
    dim = len(m)
    want = (bool(g.conjugate), bool(g.antisymmetry))
    names = []
    for latex in (False, True):
        s = pretty_print_pge(g, full=False, latex=latex)
        R.step()
        names.append(s)
        try:
            r, fl = parse_short(s, dim)
        except Exception as e:
            R.check(False, 'short ' + key, '%r: %s' % (s, e))
            continue
        R.check(np.max(np.abs(r - m)) < tol and fl == want, 'short ' + key, lambda: '%r for %r' % (s, g))
        f = pretty_print_pge(g, full=True, latex=latex)
        R.step()
        check_full(f, g, m, want, latex, R, key, tol, dim)
    R.check(g._repr_latex_() == names[1], 'repr_latex ' + key)
    R.check(str(g) == pretty_print_pge(g, full=True), 'str ' + key)
    R.check('PointGroupElement' in repr(g), 'repr ' + key)

    class PP:
        s = ''

        def text(self, x):
            self.s += x
    pp = PP()
    g._repr_pretty_(pp, False)
    R.check(pp.s == names[0], 'repr_pretty ' + key)
    return names[0]


def check_full(f, g, m, want, latex, R, key, tol, dim):
    t = f.replace(' ', '')
    if latex:
        R.check(f[0] == '$' and f[-1] == '$' and braces(f), 'latex ' + key, f)
        head = re.search(r'UH\(\\mathbf\{k\}\)(\^\*)?U\^\{-1\}=(-?)H\((-?)R\\mathbf\{k\}\)', t)
    else:
        head = re.search(r'U⋅H\(k\)(\*?)⋅U\^-1=(-?)H\((-?)R⋅k\)', t)
    R.check(head is not None, 'full action ' + key, f)
    if head is None:
        return
    c, a, k = bool(head[1]), bool(head[2]), bool(head[3])
    R.check((c, a, k) == (want[0], want[1], want[0]), 'full flags ' + key, f)
    mm = re.search(r'\bR = (.*?)(?:\\\\|\n|\$|$)', f)
    try:
        r = parse_rot(mm[1], dim)
        R.check(np.max(np.abs(r - m)) < tol, 'full rotation ' + key, f)
    except Exception as e:
        R.check(False, 'full rotation ' + key, '%r %s' % (f, e))
    mu = re.search(r'\bU = (.*)', f, re.S)
    R.check((mu is None) == (g.U is None), 'full U ' + key, f)
    if mu is not None and g.U is not None:
        try:
            R.check(close(parse_matrix(mu[1], latex), g.U, 2e-2), 'full U value ' + key, f)
        except Exception as e:
            R.check(False, 'full U value ' + key, '%r: %s' % (f, e))


@functools.lru_cache(None)
def group(fam):
    if fam == '1D':
        return [np.eye(1), -np.eye(1)]
    if fam == 'D4':
        return closure([rot2(np.pi / 2), np.diag([1., -1])])
    if fam == 'D6':
        return closure([rot2(np.pi / 3), np.diag([1., -1])])
    if fam == 'Oh':
        return closure([rot3([0, 0, 1], np.pi / 2), rot3([1, 1, 1], 2 * np.pi / 3), -np.eye(3)])
    return closure([rot3([0, 0, 1], np.pi / 3), rot3([1, 0, 0], np.pi), -np.eye(3)])


def orient(dim, o):
    if dim == 1 or o == 0:
        return np.eye(dim)
    if dim == 2:
        return rot2([0, np.pi / 4, 0.3, -1.1][o % 4] + (o // 4) * 0.77)
    ax, t = [(None, 0), ([0, 0, 1], np.pi / 4), ([1, 2, 3], 0.7), ([1, -1, 0], np.pi / 2)][o % 4]
    r = rot3(ax or [1, 0, 0], t)
    return r @ rot3([3, 1, -2], 0.9 * (o // 4))


US = [None, np.eye(1), np.array([[0, -1j], [1j, 0]]), unit(3, 2), unit(2, 5, True)]


def case_group(desc, R):
    ms = group(desc['fam'])
    V = orient(len(ms[0]), desc['orient'])
    ms = [V @ m @ V.T for m in ms]
    seen = {}
    for i, m in enumerate(ms):
        for j, (c, a) in enumerate(FLAGS):
            for U in (US if desc['orient'] == 0 else US[:1] + [US[1 + (i + j) % 4]]):
                g = PointGroupElement(m, c, a, U)
                key = '%s orient=%d %d %s %s' % (desc['fam'], desc['orient'], i, (c, a), None if U is None else U.shape)
                s = check_pge(g, m, R, key)
                if U is None:
                    o = seen.setdefault(s, (i, c, a))
                    R.check(o == (i, c, a), 'distinct names ' + key, '%r for two operations' % s)
                R.state(key)
                R.trace()
            R.outcome(s)
    R.sample = dict(name=s)


def case_exact(desc, R):
    seen = set()
    for i, m in enumerate(group(desc['fam'])):
        for c, a in FLAGS:
            g = PointGroupElement(exact(m), c, a)
            n = check_pge(g, m, R, 'exact %s %d %s' % (desc['fam'], i, (c, a)))
            R.check(n not in seen, 'distinct exact %s' % n)
            seen.add(n)
            R.state(desc['fam'], i, c, a)
            R.trace()


def axes(full):
    v = [a for a in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(a)]
    return v if full else v[::2] + [(1, -1, 0), (1, 0, -1), (0, 1, -1), (-1, 1, 0), (2, -1, -1), (1, 1, -2)]


def case_angles(desc, R):
    import fractions
    fr = sorted({fractions.Fraction(p, q) for q in range(1, desc['q'] + 1) for p in range(-q, q + 1)})
    for ai, ax in enumerate(axes(desc['full'])):
        if ai % 12 != desc['part']:
            continue
        for f in fr:
            for inv in (False, True):
                m = rot3(ax, 2 * np.pi * float(f)) * (-1 if inv else 1)
                g = G.rotation(float(f), ax, inversion=inv)
                check_pge(g, m, R, 'rotation(%s, %s, %s)' % (f, ax, inv))
                R.state(ax, f, inv)
                R.trace()
        m = np.eye(3) - 2 * np.outer(ax, ax) / np.dot(ax, ax)
        check_pge(G.mirror(ax), m, R, 'mirror(%s)' % (ax,))
        R.outcome(ax)
    if desc['part'] == 0:
        for f in fr:
            check_pge(G.rotation(float(f)), rot2(2 * np.pi * float(f)), R, 'rotation(%s)' % f)
        for ax in itertools.product((-2, -1, 0, 1, 2), repeat=2):
            if any(ax):
                check_pge(G.mirror(ax), np.eye(2) - 2 * np.outer(ax, ax) / np.dot(ax, ax), R, 'mirror(%s)' % (ax,))
        for t in np.linspace(0.05, 6.2, 60):
            check_pge(PointGroupElement(rot2(t)), rot2(t), R, 'angle %.3f' % t, 0.04)


LS = [None, np.zeros((2, 2)), np.diag([0.5, -0.5]), herm(2, 3), herm(3, 1)]


def check_cgg(g, n, scale, L, R, key):
    """n: rotation axis (3D), 'z' (2D) or None"""
    for latex in (False, True):
        s = pretty_print_cgg(g, latex=latex)
        R.step()
        t = s.replace(' ', '').replace('{{', '{').replace('}}', '}')
        haveL = L is not None and np.any(L)
        if latex:
            R.check(s[0] == '$' and s[-1] == '$' and braces(s), 'latex ' + key, s)
        if n is None:
            R.check(('[H(k),L]=0' in t) or (r'H(\mathbf{k}),L' in t), 'commutator ' + key, s)
            R.check('R_' not in t, 'no rotation ' + key, s)
        else:
            left = (('e^{-i\\phiL}' in t) and ('e^{i\\phiL}' in t)) if latex else ('exp(-iϕL)' in t and 'exp(iϕL)' in t)
            R.check(left == haveL, 'conjugation ' + key, s)
            m = re.search(r'R_(?:ϕ|\{\\phi\})=R(?:\\left)?\((-?)([\d.e+-]*)(?:ϕ|\\phi)(?:,(\[[^\]]*\]))?(?:\\right)?\)', s.replace('{{', '{').replace('}}', '}').replace(' ϕ', 'ϕ').replace(r' \phi', r'\phi').replace(' = ', '='))
            if m is None:
                m = re.search(r'R_(?:ϕ|\{\\phi\})=R(?:\\left)?\((-?)([\d.e+-]*)(?:ϕ|\\phi)(?:, *(\[[^\]]*\]))?(?:\\right)?\)', s.replace('{{', '{').replace('}}', '}').replace(' ϕ', 'ϕ').replace(r' \phi', r'\phi').replace(' = ', '='))
            R.check(m is not None, 'rotation line ' + key, s)
            if m is not None:
                x = float(m[2] or 1) * (-1 if m[1] else 1)
                if isinstance(n, str):
                    R.check(abs(x - scale) < 0.01 * abs(scale) and m[3] is None, '2D angle ' + key, s)
                else:
                    v = parse_vec(m[3])
                    R.check(close(x * v / np.linalg.norm(v), scale * n, 0.02), 'axis ' + key, s)
        mu = re.search(r'(?:^|\n|\\\\)\s*L = (.*)', s, re.S)
        R.check((mu is not None) == haveL, 'L shown ' + key, s)
        if mu and haveL:
            R.check(close(parse_matrix(mu[1], latex), L, 2e-2), 'L value ' + key, s)
        if latex:
            R.check(g._repr_latex_() == s, 'repr_latex ' + key)
        else:
            R.check(str(g) == s, 'str ' + key)
    R.check('ContinuousGroupGenerator' in repr(g), 'repr ' + key)
    R.state(key)
    R.trace()


def case_cont3(desc, R):
    Lm = np.array(G.L_matrices(3))
    for ai, ax in enumerate(axes(desc['full'])):
        if ai % 4 != desc['part']:
            continue
        n = np.array(ax, float) / np.linalg.norm(ax)
        for sc in (1, 0.5, 2, np.linalg.norm(ax), 0.123):
            for li, L in enumerate(LS):
                g = ContinuousGroupGenerator(sc * np.tensordot(n, Lm, 1), L)
                check_cgg(g, n, sc, L, R, 'generator %s x%.3g L%d' % (ax, sc, li))
    R.sample = dict(name=str(g))


def case_cont2(desc, R):
    L2 = np.array(G.L_matrices(2))[0]
    for sc in (1, -1, 2, -0.5, 0.123, 3.5, -7):
        for li, L in enumerate(LS):
            check_cgg(ContinuousGroupGenerator(sc * L2, L), 'z', sc, L, R, 'generator 2D x%g L%d' % (sc, li))
    for li, L in enumerate(LS):
        for d in (1, 2, 3):
            check_cgg(ContinuousGroupGenerator(np.zeros((d, d)), L), None, 0, L, R, 'generator zero R %d L%d' % (d, li))
        check_cgg(ContinuousGroupGenerator(None, L), None, 0, L, R, 'generator no R L%d' % li)


def case_list(desc, R):
    els = [PointGroupElement(m, c, a) for m in group('Oh') for c, a in FLAGS]
    for n in (0, 1, 2, 5, len(els)):
        pl = G.PrettyList(els[:n])
        s = pl._repr_latex_()
        R.step()
        R.check(s[0] == '$' and s[-1] == '$' and s.count('$') == 2, 'PrettyList %d' % n)
        pos = 0
        for g in els[:n]:
            nm = g._repr_latex_().strip('$')
            pos2 = s.find(nm, pos)
            R.check(pos2 >= pos, 'PrettyList entry %d' % n)
            pos = pos2 + len(nm)
        R.check(list(pl) == els[:n], 'PrettyList is a list')
        R.state(n)
        R.trace()


def case_full(desc, R):
    """Large and small unitary parts in the full description."""
    for n in range(1, 7):
        for k in range(4):
            for (c, a) in FLAGS:
                for d in (1, 2, 3):
                    u = unit(n, k) if k < 3 else np.eye(n) * 1j
                    check_pge(PointGroupElement(-np.eye(d), c, a, u), -np.eye(d), R, 'U size %d %d dim %d' % (n, k, d))
                    R.state(n, k, c, a, d)
                    R.trace()


def case_zero(desc, R):
    """operations in zero dimensions"""
    for u in (None, np.eye(2), unit(2, 3)):
        for full, latex in itertools.product((False, True), repeat=2):
            names = []
            for c, a in FLAGS:
                g = PointGroupElement(np.zeros((0, 0)), c, a, u)
                R.state(c, a, full, latex, u is None)
                R.step()
                s = pretty_print_pge(g, full=full, latex=latex)
                names.append(s)
                if not full:
                    t = s.strip().strip('$').strip()
                    t = re.sub(r'\\mathcal\{([TPC])\}', r'\1', t).replace(' ', '')
                    fl = AZ.get(t[-1:], (False, False))
                    R.check(fl == (c, a) and t.rstrip('TPC') in ('', '1'), '0D name', lambda: repr(s))
                str(g), repr(g)
            R.check(len(set(names)) == 4, '0D names distinct', str(names))
