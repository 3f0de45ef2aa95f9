"""C01: `count` returns the exact number of lattice points of every bounded polytope given by inequalities."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
import explore, families as F, oracle as O
from explore import ok, bad, QUICK
from latterun import count_run, check_count, count_value

BIG = [1, 2, 7, 1000003, 2**31 - 1, 2**32 + 15, 2**63 - 25, 2**64 + 13, 10**30 + 57]


def polys():
    for r in F.cuts2():
        yield 'box2+cut', r
    if not QUICK:
        for r in F.cuts2(3, 5, 6):
            yield 'box2+cut(5)', r
    for r in F.triangles(2, (0, 1, 3)):
        yield 'triangle', r
    if not QUICK:
        for r in F.triangles(3, (0, 1, 2, 5)):
            yield 'triangle(3)', r
    for a in range(1, 6):
        for b in range(1, 6):
            for lo in range(-4, 5):
                for hi in range(-4, 5):
                    yield 'segment', [(-lo, a), (hi, -b)]
    for r in F.cuts3():
        yield 'cube3+cut', r
    for r in (F.twocuts3(Bs=(0, 1)) if QUICK else F.twocuts3()):
        yield 'cube3+2cuts', r
    for r in F.knap(3, (1, 2, 3, 4, 5), range(1, 13, 2 if QUICK else 1)):
        yield 'knap3', r
    for r in F.pyramids():
        yield 'pyramid', r
    for r in F.knap(4, (1, 2, 3), (1, 2, 3, 5, 8)):
        yield 'knap4', r
    for r in F.cuts4(1, (0, 1, 2) if QUICK else (-1, 0, 1, 2, 3), -1 if not QUICK else 0, 1):
        yield 'cube4+cut', r
    for r in F.knap(5, (1, 2), (1, 2, 3, 4)):
        yield 'knap5', r
    for r in F.knap(6, (1, 3), (1, 2, 4)):
        yield 'knap6', r
    for d in (1, 2, 3, 4):
        for k in (1, 2, 3):
            yield 'cross', F.cross(d, k)
    for d in (2, 3, 4, 5, 6):
        for k in (1, 2):
            yield 'cube', O.cube(d, 0, k)
    # shifted far away from the origin
    for s in (10, 10**6, 10**12, 10**20):
        for base in ([(0, 2, 1), (0, -1, 1), (7, -1, -3)], [(0, 1, 0), (0, 0, 1), (5, -2, -3)]):
            for sg in itertools.product((1, -1, 0), repeat=2):
                yield 'shifted', [(r[0] - s * (r[1] * sg[0] + r[2] * sg[1]),) + tuple(r[1:]) for r in base]


def cases():
    for fam, rows in polys():
        yield {'fam': fam, 'rows': [list(r) for r in rows]}
    # many unimodular cones, high dimension
    for a, b in F.scale(QUICK):
        yield {'fam': 'scale', 'a': list(a), 'b': b}
    for d in (7, 8, 9) if QUICK else (7, 8, 9, 10, 11):
        yield {'fam': 'scale cube', 'd': d}
    for a in BIG:
        for b in BIG:
            for c in (0, 5, 10**6 + 3, 2**32 + 1, 2**64 - 1, 10**30):
                if (c // a + 1) < 10**40:
                    yield {'fam': 'big-triangle', 'abc': [a, b, c]}


def run_case(c):
    if c['fam'] == 'big-triangle':
        a, b, cc = c['abc']
        rows = [(0, 1, 0), (0, 0, 1), (cc, -a, -b)]
        exp, kind = O.triangle_count(a, b, cc), 'bounded'
    elif c['fam'] == 'scale':
        rows, exp, kind = F.corner_rows(c['a'], c['b']), F.corner_count(c['a'], c['b']), 'bounded'
    elif c['fam'] == 'scale cube':
        rows, exp, kind = O.cube(c['d'], -1, 1), 3 ** c['d'], 'bounded'
    else:
        rows = [tuple(r) for r in c['rows']]
        kind = O.bounded_nonempty(rows)
        if kind in ('unbounded', 'line?'):
            return ok('not a polytope', nontrivial=False, execs=0)
        exp = O.count_points(rows)
    r = count_run([], O.latte(rows))
    k, v = count_value(r)
    if kind == 'empty' and k == 'empty':
        return ok('empty refused', nontrivial=True)
    f = check_count(r, exp)
    if f is None and kind != 'empty' and k == 'empty':
        f = 'nonempty polytope (with %d lattice points) reported empty' % exp
    if f:
        return bad('count: ' + f)
    return ok('count=%d' % exp)


if __name__ == '__main__':
    C = explore.Check('C01', 'every H-polytope of the listed coefficient families, simplest first; non-trivial: the '
                      'polyhedron is bounded, so the program must answer (distinct inputs)',
                      programs=['count'], assumptions=[
                          'oracle: Python enumeration of integer points in the vertex bounding box; floor-sum for big triangles',
                          'external tools (cddlib, GMP, NTL, 4ti2) are part of the system as installed'])
    sys.exit(C.main(cases, run_case))
