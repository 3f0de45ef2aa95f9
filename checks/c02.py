"""C02: counts of systems with equations / lower-dimensional polytopes are exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
import explore, families as F, oracle as O
from explore import ok, bad, QUICK
from latterun import count_run, check_count, count_value


def eqs(d, A, Bm):
    for a in itertools.product(range(-A, A + 1), repeat=d):
        for b in range(-Bm, Bm + 1):
            yield (b,) + a


def cases():
    # one equation (every row of a fixed shape, including 0 = b), box in front or behind
    for e in eqs(2, 3, 4):
        yield 'eq2', O.cube(2, -2, 2) + [e], [4]
    for e in eqs(3, 2, 3):
        yield 'eq3', O.cube(3, 0, 2) + [e], [6]
    if not QUICK:
        for e in eqs(3, 4, 6):
            yield 'eq3b', [e] + O.cube(3, -1, 2), [0]
    for e in eqs(4, 1, 2):
        yield 'eq4', [e] + O.cube(4, 0, 1), [0]
    # larger coefficients: lattices with nontrivial index
    for a in ((2, 3, 5), (4, 6, 9), (6, 10, 15), (2, 4, 6), (3, 3, 3), (1, 7, 11), (5, -3, 2), (4, -2, 6), (12, -8, 3)):
        for b in range(-12, 13, 1):
            yield 'eq3big', O.cube(3, 0, 4) + [(b,) + a], [6]
    # two equations
    small = [e for e in eqs(3, 1, 1) if any(e[1:])]
    for k, (e, f) in enumerate(itertools.combinations(small, 2)):
        if QUICK and k % 3:
            continue
        yield 'eq3x2', [e] + O.cube(3, 0, 2) + [f], [0, 7]
    two = [(2, 1, 1, 0, 0), (3, 0, 1, 1, 1), (4, 2, 0, 2, 1), (6, 2, 4, 6, 0), (1, 1, -1, 1, -1), (0, 3, 0, -2, 1), (5, 2, 3, 0, 1),
           (2, 0, 0, 2, 2), (0, 1, -1, 0, 0), (7, 1, 2, 3, 4)]
    for e, f in itertools.combinations(two, 2):
        for s, t in itertools.product((1, -1), repeat=2):
            for db in (-1, 0, 1):
                yield 'eq4x2', O.cube(4, -1, 2) + [(-e[0] + db,) + tuple(s * x for x in e[1:]), (-f[0],) + tuple(t * x for x in f[1:])], [8, 9]
    # three equations: single points, inconsistent, redundant
    for b in itertools.product((-1, 0, 1, 2), repeat=3):
        yield 'eq3x3', O.cube(3, 0, 2) + [(-b[0], 1, 1, 0), (-b[1], 0, 1, 1), (-b[2], 1, 0, 1)], [6, 7, 8]
        yield 'eq3dep', O.cube(3, 0, 2) + [(-b[0], 1, 1, 1), (-b[1], 2, 2, 2), (-b[2], 1, 0, 1)], [6, 7, 8]
        yield 'eq4x3', O.cube(4, 0, 2) + [(-b[0], 1, 1, 0, 1), (-b[1], 0, 2, 1, -1), (-b[2], 1, 0, 3, 1)], [8, 9, 10]
    # every linearity subset of a fixed system
    sysm = [(0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (3, -1, -1, -1), (1, 1, -1, 0), (2, 0, 1, -2)]
    for k in range(len(sysm) + 1):
        for lin in itertools.combinations(range(len(sysm)), k):
            yield 'linsubset', sysm, list(lin)
    # implied equations: opposite inequalities, and facets meeting in a face
    for a in itertools.product(range(-2, 3), repeat=3):
        for b in range(-2, 3):
            if any(a):
                yield 'implied', O.cube(3, 0, 2) + [(b,) + a, (-b,) + tuple(-x for x in a)], []
    for e in eqs(2, 3, 3):
        if any(e[1:]):
            yield 'implied2', O.cube(2, -1, 2) + [e, tuple(-x for x in e)], []
    for a in itertools.product((1, 2, 3), repeat=3):
        yield 'face', O.orthant(3) + [(0,) + tuple(-x for x in a)], []          # only the origin
        yield 'face', O.orthant(3) + [(0, -a[0], -a[1], 0), (4, 0, 0, -a[2])], []  # a segment
        yield 'face', O.orthant(3) + [(5, -a[0], 0, 0), (0, 0, -a[1], -a[2])], []
        yield 'face+eq', O.orthant(3) + [(7, -a[0], -a[1], 0), (-4, 1, 1, 1), (3, 0, 0, -a[2])], [4]
    # knapsack / transportation equations
    for a in itertools.combinations_with_replacement((1, 2, 3, 4, 5, 6), 3):
        for b in range(0, 13, 3 if QUICK else 1):
            yield 'knapeq', O.orthant(3) + [(-b,) + a], [3]
    for a in itertools.combinations_with_replacement((2, 3, 4), 4):
        for b in range(0, 14, 2 if QUICK else 1):
            yield 'knapeq4', [(b,) + tuple(-x for x in a)] + O.orthant(4), [0]
    for r in itertools.product((0, 1, 2, 3), repeat=2):
        for c in itertools.product((0, 1, 2, 3), repeat=2):
            yield 'transport2x2', O.orthant(4) + [(-r[0], 1, 1, 0, 0), (-r[1], 0, 0, 1, 1), (-c[0], 1, 0, 1, 0), (-c[1], 0, 1, 0, 1)], [4, 5, 6, 7]
    for r in itertools.product((1, 2, 3), repeat=2):
        for c in itertools.product((0, 1, 2), repeat=3):
            m = [(-r[0], 1, 1, 1, 0, 0, 0), (-r[1], 0, 0, 0, 1, 1, 1), (-c[0], 1, 0, 0, 1, 0, 0), (-c[1], 0, 1, 0, 0, 1, 0), (-c[2], 0, 0, 1, 0, 0, 1)]
            yield 'transport2x3', m + O.orthant(6), [0, 1, 2, 3, 4]
    # huge coefficients: a x + b y = c, x, y >= 0
    for a, b in ((10**6 + 3, 10**6 + 33), (2**32 + 1, 2**31 - 1), (2**40 + 9, 7), (2**64 + 13, 2**63 - 25), (6 * 10**9, 4 * 10**9 + 2)):
        for x0, y0 in itertools.product((0, 1, 5), repeat=2):
            yield 'bigeq', O.orthant(2) + [(-(a * x0 + b * y0), a, b)], [2]
            yield 'bigeq', O.orthant(2) + [(-(a * x0 + b * y0) - 1, a, b)], [2]


def dependent():
    # dependent equations in every order, before an independent one
    for a in itertools.product((0, 1, 2), repeat=3):
        if not any(a):
            continue
        for k in (1, 2, -1, 3):
            for b in (1, 2, 3):
                for f in ((1, 0, 1), (0, 1, -1), (1, 2, 1)):
                    e = [(-b,) + a, (-k * b,) + tuple(k * x for x in a), (-2,) + f]
                    yield 'dependent', O.cube(3, 0, 3) + e, [6, 7, 8]
    r2 = [(-4, 1, 1, 1, 1, 0), (-3, 0, 1, 0, 2, 1), (-7, 1, 2, 1, 3, 1), (-8, 2, 2, 2, 2, 0), (-2, 1, 0, -1, 1, 0), (1, -1, 1, 1, 1, -1)]
    for p in itertools.permutations(range(6), 3 if QUICK else 4):
        yield 'dependent5', [r2[i] for i in p] + O.cube(5, 0, 2), list(range(len(p)))


def gen():
    for fam, rows, lin in cases():
        yield {'fam': fam, 'rows': [list(r) for r in rows], 'lin': list(lin)}
        if fam in ('eq3x3', 'eq3dep', 'eq4x3', 'linsubset', 'transport2x2') and (len(rows) + sum(rows[-1])) % 2 == 0:
            for o in ('none', 'cddlib'):
                yield {'fam': fam + ' ' + o, 'rows': [list(r) for r in rows], 'lin': list(lin), 'opts': ['--redundancy-check=' + o]}
    for fam, rows, lin in dependent():
        for o in ('full-cddlib', 'none', 'cddlib') if not QUICK or -rows[6][0] == 2 else ('none',):
            yield {'fam': fam + ' ' + o, 'rows': [list(r) for r in rows], 'lin': list(lin), 'opts': ['--redundancy-check=' + o]}


def run_case(c):
    rows, lin = [tuple(r) for r in c['rows']], c['lin']
    kind = O.bounded_nonempty(rows, lin)
    if kind in ('unbounded', 'line?'):
        return ok('not a polytope', nontrivial=False, execs=0)
    exp = O.count_points(rows, lin)
    r = count_run(c.get('opts', []), O.latte(rows, lin))
    k, v = count_value(r)
    if kind == 'empty' and k == 'empty':
        return ok('empty refused')
    f = check_count(r, exp)
    if f is None and kind != 'empty' and k == 'empty' and exp:
        f = 'nonempty polytope reported empty'
    if f:
        return bad('count: %s [%s]' % (f, kind))
    return ok('%s count=%d' % (k, exp))


if __name__ == '__main__':
    C = explore.Check('C02', 'every equation system of the listed families; non-trivial: the solution set is bounded (distinct inputs)',
                      programs=['count'], assumptions=['oracle: Python enumeration of the integer points of the system'])
    sys.exit(C.main(gen, run_case))
