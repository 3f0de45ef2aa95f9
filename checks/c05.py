"""C05: Ehrhart polynomials of lattice polytopes and dilated counts are exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools, re
from fractions import Fraction as Fr
import explore, families as F, oracle as O
from explore import ok, bad, QUICK
from latterun import count_run, check_count, count_value


def lattice_polytopes():
    """Vertex sets (full-dimensional hulls)."""
    for a in range(-2, 3):
        for b in range(a + 1, 4):
            yield 'segment', [(a,), (b,)]
    g = [p for p in itertools.product(range(4), repeat=2)]
    for T in itertools.combinations(g, 3):
        yield 'triangle', list(T)
    g = [p for p in itertools.product(range(3), repeat=2)]
    for T in itertools.combinations(g, 4):
        yield 'quadrangle', list(T)
    g = [p for p in itertools.product(range(2), repeat=3)]
    for k in (4, 5, 6):
        for T in itertools.combinations(g, k):
            yield '01-polytope3', list(T)
    for a, b, c in itertools.product(range(0, 4), range(0, 4), range(1, 5)):      # Reeve-like simplices
        yield 'reeve3', [(0, 0, 0), (1, 0, 0), (0, 1, 0), (a, b, c)]
    g = [p for p in itertools.product(range(-1, 2), repeat=3) if any(p)]
    lim = 1
    for i, T in enumerate(itertools.combinations(g, 3)):
        if i % lim == 0:
            yield 'tetra3', [(0, 0, 0)] + list(T)
    for a, b, c, d in itertools.product(range(0, 3), range(0, 3), range(0, 3), range(1, 4)):
        yield 'reeve4', [(0,) * 4, (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (a, b, c, d)]
    for d in (4, 5):
        for s in (1, 2):
            yield 'cross', [tuple(s * t if i == j else 0 for j in range(d)) for i in range(d) for t in (1, -1)] if d == 4 else \
                [(0,) * d] + [tuple(s if i == j else 0 for j in range(d)) for i in range(d)]


OPTS = [[], ['--irrational-primal'], ['--irrational-all-primal', '--maxdet=5'], ['--maxdet=100'], ['--triangulation=4ti2']]


def cases():
    for fam, vs in lattice_polytopes():
        if O.affine_dim(vs) < len(vs[0]):
            continue
        for o in (OPTS if fam in ('segment', 'reeve3', 'cross') or not QUICK else OPTS[:1]):
            if fam == 'cross' and len(vs) == 8 and o:
                continue
            yield {'fam': 'poly ' + fam, 'vs': [list(v) for v in vs], 'opts': o}
    # scaled lattice polytopes (more interior points)
    # lattice polytopes inside an affine subspace
    for b in range(1, 7):
        for a in itertools.combinations_with_replacement((1, 2, 3), 3):
            rows = O.orthant(3) + [(b,) + tuple(-x for x in a)]
            if all(b % x == 0 for x in a):
                yield {'fam': 'poly eq', 'rows': [list(r) for r in rows], 'lin': [3], 'opts': []}
    # products of corner simplices {x >= 0, a.x <= b}, dimension up to 8, counted by dynamic programming
    blocks = [((1,), 1), ((1,), 2), ((1, 1), 1), ((1, 2), 2), ((1, 1, 1), 1), ((1, 2, 2), 2), ((1, 1, 1, 1), 2), ((1, 1, 1, 1, 1), 1),
              ((1, 2, 3), 6), ((1, 1, 1, 1, 2, 2), 2), ((1,) * 7, 1), ((2, 2, 1, 1), 4)]
    for k in (1, 2, 3):
        for bl in itertools.combinations_with_replacement(blocks, k):
            d = sum(len(a) for a, b in bl)
            if 4 <= d <= (7 if QUICK else 8) and (k < 3 or d in (6, 7)):
                for o in ([[], ['--maxdet=100']] if QUICK else OPTS):
                    yield {'fam': 'poly product', 'blocks': [[list(a), b] for a, b in bl], 'opts': o}
    # high dimension; large factors
    for d in (9, 10, 11, 12, 13, 14, 15, 17, 21):
        for a, b in (((1,) * d, 1), ((1,) * d, 2)) + ((((2,) + (1,) * (d - 1), 2),) if d < 13 else ()):
            for o in [[], ['--irrational-primal']] + ([['--irrational-all-primal', '--maxdet=5'], ['--maxdet=100']] if d < 12 else []):
                yield {'fam': 'poly high', 'blocks': [[list(a), b]], 'opts': o}
    for d in (2, 3) if QUICK else (2, 3, 4):
        for bl in itertools.combinations_with_replacement([((1,) * 3, 1), ((1, 1, 2, 2), 2), ((1,), 3), ((3, 1, 1, 1, 1), 3)], d):
            n = sum(len(a) for a, b in bl)
            if 8 <= n <= (10 if QUICK else 12):
                yield {'fam': 'poly high', 'blocks': [[list(a), b] for a, b in bl], 'opts': []}
    for k in (4, 5, 7, 10, 11, 16, 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 40000, 65535, 65536, 65537, 10**6, 2**24 + 1, 10**9, 2**31 - 1):
        for a in ((1, 1), (2, 3), (1, 5), (7, 1000003), (1,), (6,)):
            for b in (1, 5, 10**6 + 3, 2**33 + 1):
                for how in (['--dilation=%d' % k], ['dil', str(k)]):
                    yield {'fam': 'dil large', 'a': list(a), 'b': b, 'k': k, 'opts': how}
        for d in (3, 4, 7):
            yield {'fam': 'dil large', 'a': [1] * d, 'b': 3, 'k': k, 'opts': ['--dilation=%d' % k]}
    # dilations
    def dil():
        for r in F.triangles(1, (0, 1, 2)):
            yield 'dil triangle', r, ()
        for r in F.triangles(2, (1, 2)) if not QUICK else ():
            yield 'dil triangle2', r, ()
        for r in F.knap(3, (1, 2, 3, 5), (1, 2, 5)):
            yield 'dil knap3', r, ()
        for a in range(1, 5):
            for b in range(1, 5):
                for lo, hi in itertools.product(range(-3, 2), range(-1, 4)):
                    yield 'dil segment', [(-lo, a), (hi, -b)], ()
        for a in itertools.product((-2, -1, 0, 1, 2, 3), repeat=2):
            for b in range(-3, 4):
                if any(a):
                    yield 'dil eq2', O.cube(2, -1, 2) + [(b,) + a], (4,)
        for a in itertools.combinations_with_replacement((1, 2, 3, 4), 3):
            for b in (1, 2, 3, 5):
                yield 'dil eq3', O.orthant(3) + [(b,) + tuple(-x for x in a)], (3,)
        for a, b in itertools.product(range(1, 4), range(-3, 4)):     # single points
            for c, d in itertools.product(range(1, 4), range(-2, 3)):
                yield 'dil point', [(b, a, 0), (d, 0, c)], (0, 1)
                if not QUICK:
                    yield 'dil point', [(b, a, 0), (-b, -a, 0), (d, 0, c), (-d, 0, -c)], ()
    for fam, rows, lin in dil():
        for k in (1, 2, 3) if QUICK else (1, 2, 3, 4, 6):
            for how in (['--dilation=%d' % k],) if k != 3 else (['--dilation=3'], ['dil', '3']):
                yield {'fam': fam, 'rows': [list(r) for r in rows], 'lin': list(lin), 'k': k, 'opts': how}


def block_rows(blocks):
    d = sum(len(a) for a, b in blocks)
    rows, pos = O.orthant(d), 0
    for a, b in blocks:
        r = [b] + [0] * d
        for i, x in enumerate(a):
            r[1 + pos + i] = -x
        pos += len(a)
        rows.append(tuple(r))
    return rows


def knap_count(a, b):
    w = [1] * (b + 1)
    for x in a:
        for i in range(x, b + 1):
            w[i] += w[i - x]
    return w[b]


TERM = re.compile(r'\s*([+-]?)\s*(-?\d+(?:/\d+)?)\s*\*\s*t\^(\d+)')


def parse_poly(out):
    line = [l for l in out.splitlines() if 't^' in l]
    if not line:
        return None
    s = line[-1]
    if ':' in s:
        s = s.split(':')[-1]
    pos, co = 0, {}
    s = s.strip()
    while pos < len(s):
        m = TERM.match(s, pos)
        if not m:
            return None
        co[int(m.group(3))] = co.get(int(m.group(3)), Fr(0)) + (-1 if m.group(1) == '-' else 1) * Fr(m.group(2))
        pos = m.end()
    return co


def run_case(c):
    if c['fam'] == 'dil large':
        a, b = c['a'], c['b'] * c['k']
        exp = O.triangle_count(a[0], a[1], b) if len(a) == 2 else F.corner_count(a, b) if len(a) > 2 else b // a[0] + 1
        f = check_count(count_run(c['opts'], O.latte(F.corner_rows(a, c['b']))), exp)
        return bad('dilated count: ' + f) if f else ok('dilated %d' % exp)
    if 'k' in c:
        rows, lin = [tuple(r) for r in c['rows']], c['lin']
        kind = O.bounded_nonempty(rows, lin)
        if kind != 'bounded':
            return ok(kind, nontrivial=False, execs=0)
        exp = O.count_points(O.dilate(rows, c['k']), lin)
        r = count_run(c['opts'], O.latte(rows, lin))
        f = check_count(r, exp)
        return bad('dilated count: ' + f) if f else ok('dilated %d' % exp)
    lin = c.get('lin', ())
    bl = c.get('blocks')
    rows = block_rows(bl) if bl else [tuple(r) for r in c['rows']] if 'rows' in c else O.hull([tuple(v) for v in c['vs']])
    d = len(rows[0]) - 1
    r = count_run(['--ehrhart-polynomial'] + c['opts'], O.latte(rows, lin))
    if r.rc != 0:
        return bad('no Ehrhart polynomial for a lattice polytope: ' + r.brief())
    p = parse_poly(r.out)
    if p is None:
        return bad('no polynomial in the output: %r' % r.out[-300:])
    if any(e > d for e, x in p.items() if x):
        return bad('degree too high: %s' % p)
    for t in range(0, d + 2):
        if t == 0:
            exp = 1
        elif bl:
            exp = 1
            for a, b in bl:
                exp *= knap_count(a, b * t)
        else:
            exp = O.count_points(O.dilate(rows, t), lin)
        got = sum(x * t ** e for e, x in p.items())
        if got != exp:
            return bad('Ehrhart polynomial %s gives %s at t=%d, the dilated polytope has %d points' %
                       (r.out.strip()[-200:], got, t, exp))
    return ok('poly %s' % sorted(p.items()))


if __name__ == '__main__':
    C = explore.Check('C05', 'every lattice polytope / (polytope, dilation factor) of the listed families; non-trivial: '
                      'a bounded nonempty polytope', programs=['count'],
                      assumptions=['oracle: brute-force counts of the dilations t = 1..d+1 (a polynomial of degree <= d is determined)'])
    sys.exit(C.main(cases, run_case))
