"""C08: `integrate --valuation=volume` returns the exact volume, by every method and from every format."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
from fractions import Fraction as Fr
from math import gcd, factorial
import explore, families as F, oracle as O
from explore import ok, bad, QUICK
from intrun import integrate, judge


def polys():
    for a in range(1, 5):
        for b in range(1, 5):
            for lo, hi in itertools.product(range(-4, 3), range(-2, 5)):
                yield 'segment', [(-lo, a), (hi, -b)]
    for r in F.triangles(2, (0, 1, 3)):
        yield 'triangle', r
    for r in (F.cuts2(2, 2, 3) if QUICK else F.cuts2()):
        yield 'cut2', r
    for r in F.cuts3(0, 1 if QUICK else 2, 2, 2):
        yield 'cut3', r
    for r in F.twocuts3(Bs=(0,) if QUICK else (-1, 0, 1)):
        yield '2cuts3', r
    for r in F.pyramids():
        yield 'pyramid', r
    for r in F.knap(4, (1, 2, 3), (1, 3, 5)):
        yield 'knap4', r
    for r in F.cuts4(1, (0, 1) if QUICK else (0, 1, 2, 3), 0, 1):
        yield 'cut4', r
    for d in (2, 3):
        for k in (1, 2, 5):
            yield 'cross', F.cross(d, k)
    for d in (5,):
        for r in F.knap(d, (1, 3), (2, 3)):
            yield 'knap5', r
    for s in (10**6, 10**12, 10**20):
        for base in ([(0, 2, 1), (0, -1, 1), (7, -1, -3)], [(0, 1, 0), (0, 0, 1), (5, -2, -3)]):
            for sg in itertools.product((1, -1, 0), repeat=2):
                yield 'shifted', [(r[0] - s * (r[1] * sg[0] + r[2] * sg[1]),) + tuple(r[1:]) for r in base]
        for a, b in itertools.product((1, s, s + 7), repeat=2):
            yield 'big', [(0, 1, 0), (0, 0, 1), (s * s + 1, -a, -b)]


VARIANTS = [('latte', []), ('vrep', []), ('cdd_h', []), ('cdd_v', []), ('latte', ['--homog']), ('latte', ['--triangulate']),
            ('latte', ['--cone-decompose']), ('latte', ['--all']), ('latte', ['--compute-vertex-cones=lrs']),
            ('latte', ['--compute-vertex-cones=4ti2']), ('latte', ['--triangulation=4ti2']), ('latte', ['--triangulation=delone']),
            ('latte', ['--dualization=4ti2']), ('latte', ['--dilation=3']), ('cdd_v', ['--homog']), ('vrep', ['--cone-decompose']),
            ('vrep', ['--triangulate']), ('cdd_v', ['--triangulate'])]


def cases():
    for fam, r in polys():
        few = fam in ('triangle', 'cut3', '2cuts3', 'segment', 'cut4', 'cut2') and QUICK
        for i in range(len(VARIANTS)) if not few else (0,):
            yield {'fam': fam, 'rows': [list(x) for x in r], 'v': i}
    for d in (5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16):
        for a, b in (((1,) * d, 1), ((1,) * d, 3), ((2, 3) + (1,) * (d - 2), 5), (tuple(range(1, d + 1)), 10**9 + 7)):
            for i in range(len(VARIANTS)):
                yield {'fam': 'high simplex', 'corner': [list(a), b], 'v': i}
    for d in (4, 5, 6, 7):
        for i, (f, o) in enumerate(VARIANTS):
            if '--cone-decompose' in o or (d < 6 and f in ('latte', 'cdd_h')):
                yield {'fam': 'high cube', 'd': d, 'v': i}
            if d < 7 and f in ('vrep', 'cdd_v') and (d == 4 or '--cone-decompose' not in o and d < 6):
                yield {'fam': 'high cross', 'd': d, 'v': i}
    for i, r in enumerate(F.triangles(1, (0, 1, 3))):
        for i in range(1, len(VARIANTS)):
            yield {'fam': 'triangle1', 'rows': [list(x) for x in r], 'v': i}
    for a in itertools.product((-1, 0, 1, 2), repeat=3):
        for b in (0, 1, 2) if QUICK else (-1, 0, 1, 2, 3):
            if any(a):
                for i in (1, 3, 4, 9, 10):
                    yield {'fam': 'cut3', 'rows': [list(x) for x in O.cube(3, 0, 1) + [(b,) + a]], 'v': i}
    for a in itertools.product((-2, -1, 0, 1, 2, 3), repeat=3):
        for b in (0, 1, 2):
            if any(a) and gcd(*a) == 1:
                yield {'fam': 'equation', 'rows': [list(x) for x in O.cube(3, 0, 1) + [(b,) + a]], 'lin': [6], 'v': 0}


def run_case(c):
    lin = c.get('lin', [])
    if 'corner' in c:
        a, b = c['corner']
        d = len(a)
        rows = F.corner_rows(a, b)
        vs = [(Fr(0),) * d] + [tuple(Fr(b, a[i]) if i == j else Fr(0) for j in range(d)) for i in range(d)]
        exp = Fr(b) ** d / factorial(d)
        for x in a:
            exp /= x
        return judge_case(c, rows, lin, vs, d, exp)
    if c['fam'] == 'high cube':
        d = c['d']
        return judge_case(c, O.cube(d, -1, 2), lin, [tuple(map(Fr, v)) for v in itertools.product((-1, 2), repeat=d)], d, Fr(3) ** d)
    if c['fam'] == 'high cross':
        d = c['d']
        return judge_case(c, F.cross(d, 2), lin, [tuple(Fr(2 * s if i == j else 0) for j in range(d)) for i in range(d) for s in (1, -1)],
                          d, Fr(4) ** d / factorial(d))
    rows = [tuple(r) for r in c['rows']]
    kind = O.bounded_nonempty(rows, lin)
    if kind != 'bounded':
        return ok(kind, nontrivial=False, execs=0)
    vs = O.vertices(rows, lin)
    d = len(rows[0]) - 1
    if O.affine_dim(vs) < d - len(lin):
        return ok('degenerate', nontrivial=False, execs=0)
    if lin:
        # lattice-normalised area: project along a coordinate with nonzero coefficient
        a = rows[lin[0]][1:]
        k = next(i for i in range(d) if a[i])
        exp = Fr(0)
        for s in O.simplices(rows, vs, lin):
            ps = [[x for i, x in enumerate(v) if i != k] for v in s]
            exp += O.simplex_vol(ps)
        exp /= abs(a[k])
    else:
        exp = O.volume(rows, vs)
    return judge_case(c, rows, lin, vs, d, exp)


def judge_case(c, rows, lin, vs, d, exp):
    fmt, opts = VARIANTS[c['v']]
    if opts == ['--dilation=3']:
        exp *= 3 ** d
    # an irredundant vertex list is what the program asks for
    f, args = {'latte': (O.latte(rows, lin), ['in']), 'vrep': (O.latte_v(vs), ['--vrep', 'in']),
               'cdd_h': (O.cdd_h(rows), ['--cdd', 'in']), 'cdd_v': (O.cdd_v(vs), ['--cdd', 'in'])}[fmt]
    r, ans = integrate(['--valuation=volume'] + opts + args, {'in': f})
    n = 1 if opts in (['--triangulate'], ['--cone-decompose']) else 2
    e = judge(r, ans, exp, n, 'volume %s %s' % (fmt, ' '.join(opts)))
    return bad(e) if e else ok('vol %s' % exp)


if __name__ == '__main__':
    C = explore.Check('C08', 'every polytope of the listed families x input format / method; non-trivial: a polytope with positive '
                      'volume', programs=['integrate'],
                      assumptions=['oracle: rational pulling triangulation with determinants'])
    sys.exit(C.main(cases, run_case))
