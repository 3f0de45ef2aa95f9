"""C10: integrals of powers and of products of linear forms are exact, by every method."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
from fractions import Fraction as Fr
import explore, families as F, oracle as O
from explore import ok, bad, QUICK
from intrun import integrate, judge
import c09

SHAPES = c09.SHAPES
LF = {'all': ([], 2), 'tri': (['--triangulate'], 1), 'cone': (['--cone-decompose'], 1)}


def forms(d, A):
    return [l for l in itertools.product(range(-A, A + 1), repeat=d)]


def cases():
    # every linear form with small coefficients to every small power: constant on edges, on facets, on everything
    for s, r in SHAPES.items():
        d = len(r[0]) - 1
        A = {1: 5, 2: 3, 3: 1, 4: 1, 5: 1}[d] if QUICK else {1: 9, 2: 5, 3: 2, 4: 1, 5: 1}[d]
        for l in forms(d, A):
            if d >= 4 and QUICK and sum(map(bool, l)) % 2:
                continue
            for M in ((0, 1, 2, 5) if d < 4 else (1, 4)) if QUICK else (0, 1, 2, 3, 4, 5, 8):
                for m in ('all',) if QUICK and d > 2 else ('all', 'tri', 'cone'):
                    yield {'fam': 'form', 's': s, 'l': [[1, M, list(l)]], 'm': m}
    # forms that are constant on large faces of higher-dimensional polytopes (poles of high order)
    for d in (4, 5, 6):
        for b in (1, 2):
            simp = O.orthant(d) + [(b,) + tuple(-1 - (i % 2) * (b - 1) for i in range(d))]
            for k in range(1, d + 1):
                for l in ([1] * k + [0] * (d - k), [0] * (d - k) + [-1] * (k - 1) + [2]):
                    for M in (1, 2, 3) if QUICK else range(6):
                        for m in ('all', 'tri', 'cone'):
                            yield {'fam': 'high simplex', 'rows': [list(x) for x in simp], 'l': [[1, M, l]], 'm': m}
        for box in (O.cube(d, 0, 1), O.cube(d, -1, 2)) if d < 6 else ():
            for k in range(1, d + 1):
                l = [0] * (d - k) + [1] * k
                for M in ((2,) if d == 5 else (1, 2, 3)) if QUICK else (1, 2, 3, 4):
                    yield {'fam': 'high cube', 'rows': [list(x) for x in box], 'l': [[1, M, l]], 'm': 'cone'}
                    if d == 4 or (k == 1 and M == 2):
                        yield {'fam': 'high cube', 'rows': [list(x) for x in box], 'l': [[1, M, l]], 'm': 'tri'}
    # sums of two forms, repeated and cancelling ones included, rational coefficients
    for s in ('seg-sym', 'tri-neg', 'sq-sym', 'rat', 'cube-sym', 'octa'):
        d = len(SHAPES[s][0]) - 1
        ls = forms(d, 1)
        for a, b in itertools.product(ls, repeat=2):
            if d == 3 and QUICK and a > b:
                continue
            for M, N in ((1, 1), (2, 3), (2, 2), (0, 2)) if d < 3 or not QUICK else ((2, 2), (1, 2)):
                for p, q in ((1, -1), ('2/3', '5/7')) if d < 3 or not QUICK else ((1, -1),):
                    yield {'fam': 'two forms', 's': s, 'l': [[p, M, list(a)], [q, N, list(b)]], 'm': 'all'}
    # rational and huge form coefficients
    for s in ('seg-far', 'tri-neg', 'rat', 'tetra-rat'):
        d = len(SHAPES[s][0]) - 1
        for l in itertools.product(('1/2', '-3', str(10**20 + 1), '0'), repeat=d):
            for M in (1, 3):
                if '1/2' in l:
                    continue
                yield {'fam': 'huge', 's': s, 'l': [['%d/7' % (10**19), M, list(l)]], 'm': 'all'}
    # powers
    for M in range(0, 30 if QUICK else 80):
        for s in ('seg-far', 'tri-neg', 'sq-sym', 'cube-sym'):
            d = len(SHAPES[s][0]) - 1
            for l in ([1] * d, [1] + [0] * (d - 1), [1, -1, 2][:d]):
                yield {'fam': 'power', 's': s, 'l': [[1, M, l]], 'm': 'all'}
    for n in (32, 33, 34, 36, 40, 48, 63, 64, 66, 70) + (() if QUICK else (96, 128, 129, 255, 256)):
        for s in ('seg-far', 'tri', 'sq-sym', 'cube', 'cube-sym', 'tetra', 'octa', 'simp4'):
            d = len(SHAPES[s][0]) - 1
            for l in ([1] + [0] * (d - 1), [1] * d, [1, -2, 0, 0][:d], [0] * (d - 1) + [10**9 + 7]):
                for m in LF:
                    yield {'fam': 'degree', 's': s, 'l': [[1, n, l]], 'm': m}
            if n in (33, 40) and s in ('seg-far', 'tri', 'tetra'):
                yield {'fam': 'degree', 's': s, 'q': [[1, [[n, [1] + [0] * (d - 1)], [1, [1] * d]]]]}
                yield {'fam': 'degree', 's': s, 'q': [[1, [[1, [0] * (d - 1) + [-1]], [n, [1] * d]]]]}
    for d in (7, 8, 10, 12, 14):
        for b in (1, 3):
            for k in (1, 2, d // 2, d - 1, d):
                for l in ([1] * k + [0] * (d - k), [0] * (d - k) + [-1] * (k - 1) + [2]):
                    for M in (1, 3, 20):
                        for m in LF:
                            yield {'fam': 'high simplex', 'corner': [d, b], 'l': [[1, M, l]], 'm': m}
                    if d < 11:
                        yield {'fam': 'high simplex', 'corner': [d, b], 'q': [[1, [[2, l], [1, [1] + [0] * (d - 1)]]]]}
    # families of polytopes
    for r in F.triangles(1 if QUICK else 2, (0, 1, 3)):
        for l in ([1, -1], [1, 0], [2, 1]):
            yield {'fam': 'triangle', 'rows': [list(x) for x in r], 'l': [[1, 2, l]], 'm': 'all'}
    for r in F.cuts3(-1, 1, 1, 2 if QUICK else 3):
        for l in ([1, -1, 0], [1, 1, 1], [0, 0, 1]):
            yield {'fam': 'cut3', 'rows': [list(x) for x in r], 'l': [[1, 2, l], [3, 1, [1, 0, 0]]], 'm': 'all'}
    for r in F.pyramids():
        for l in ([1, -1, 0], [0, 0, 1], [1, 2, 3]):
            yield {'fam': 'pyramid', 'rows': [list(x) for x in r], 'l': [[1, 3, l]], 'm': 'all'}
    # products
    for s in ('seg-far', 'seg-sym', 'tri-neg', 'sq-sym', 'rat', 'diamond', 'tetra', 'octa', 'cube-sym'):
        d = len(SHAPES[s][0]) - 1
        ls = forms(d, 2 if d == 1 else 1)
        for a, b in itertools.combinations_with_replacement(ls, 2):
            for M, N in ((1, 1), (2, 1), (1, 3), (2, 0), (0, 0)) if d < 3 or not QUICK else ((1, 2),):
                yield {'fam': 'product', 's': s, 'q': [[1, [[M, list(a)], [N, list(b)]]]]}
        if d < 3:
            for a, b, c in itertools.combinations(ls, 3):
                yield {'fam': 'product3', 's': s, 'q': [[1, [[1, list(a)], [2, list(b)], [1, list(c)]]]]}
                yield {'fam': 'products', 's': s, 'q': [['1/3', [[2, list(a)], [1, list(b)]]], ['-7/5', [[1, list(c)]]]]}
        for a in ls:
            for M in (0, 1, 2, 6):
                yield {'fam': 'product1', 's': s, 'q': [[5, [[M, list(a)]]]]}
    for s in ('seg-far', 'tri-neg', 'rat', 'octa'):
        d = len(SHAPES[s][0]) - 1
        for how in ('stdin', 'spaces', 'spaces2'):
            for a, b in itertools.combinations(forms(d, 1), 2):
                if any(a) and any(b):
                    for m in ('all',) if d == 3 else LF:
                        yield {'fam': how, 's': s, 'l': [['-2/3', 2, list(a)], [7, 1, list(b)]], 'm': m, 'in': how}
                    yield {'fam': how, 's': s, 'q': [['-2/3', [[2, list(a)], [1, list(b)]]], [7, [[1, list(b)]]]], 'in': how}
    for co in ('0', '-2', '0/5'):
        for l in ([[co, 1, [1, 2]]], [[co, 0, [1, 2]]], [[co, 2, [1, 2]], [1, 1, [1, 0]]], [[1, 2, [1, 2]], [co, 1, [0, 0]]]):
            for s in ('tri-neg', 'sq', 'rat'):
                for m in LF:
                    yield {'fam': 'form coefficients', 's': s, 'l': l, 'm': m}
        for q in ([[co, [[1, [1, 2]], [2, [0, 1]]]], [1, [[1, [1, 0]]]]], [[3, [[1, [1, 2]]]], [co, [[2, [0, 1]], [1, [1, 1]]]]], [[co, [[0, [1, 1]]]]]):
            for s in ('tri-neg', 'sq', 'rat'):
                yield {'fam': 'product coefficients', 's': s, 'q': q}
    for s in ('tri-neg', 'octa', 'tetra-rat', 'rat'):
        d = len(SHAPES[s][0]) - 1
        for f in ('vrep', 'cdd_h', 'cdd_v', 'latte'):
            for o in ([], ['--compute-vertex-cones=lrs'], ['--compute-vertex-cones=4ti2'], ['--triangulation=4ti2'],
                      ['--triangulation=delone'], ['--dualization=4ti2'], ['--homog']):
                for m in LF:
                    yield {'fam': 'options', 's': s, 'l': [[1, 2, [1] + [0] * (d - 1)], [1, 1, [1] * d]], 'm': m, 'fmt': f, 'o': o}
                yield {'fam': 'options', 's': s, 'q': [[1, [[2, [1] + [0] * (d - 1)], [1, [1] * d]]]], 'fmt': f, 'o': o}


def run_case(c):
    if 'corner' in c:
        d, b = c['corner']
        rows = F.corner_rows([1] * d, b)
        vs = [(Fr(0),) * d] + [tuple(Fr(b if i == j else 0) for j in range(d)) for i in range(d)]
        S = [vs]
    else:
        rows, vs, S = c09.geometry(c)
    if vs is None:
        return ok('degenerate', nontrivial=False, execs=0)
    d = len(rows[0]) - 1

    def fl(l):
        return '[%s]' % ','.join(map(str, l))
    if 'l' in c:
        exp = O.integral_lf(S, [(Fr(a), M, [Fr(x) for x in l]) for a, M, l in c['l']], d)
        txt = '[' + ','.join('[%s,[%d,%s]]' % (a, M, fl(l)) for a, M, l in c['l']) + ']\n'
        opts, n = LF[c['m']]
        opts = opts + ['--linear-forms=p']
    else:
        exp = O.integral_products(S, [(Fr(a), fs) for a, fs in c['q']], d)
        txt = '[' + ','.join('[%s,[%s]]' % (a, ','.join('[%d,%s]' % (M, fl(l)) for M, l in fs)) for a, fs in c['q']) + ']\n'
        opts, n = ['--product-linear-forms=p'], 1
    f, args = {'latte': (O.latte(rows), ['in']), 'vrep': (O.latte_v(vs), ['--vrep', 'in']), 'cdd_h': (O.cdd_h(rows), ['--cdd', 'in']),
               'cdd_v': (O.cdd_v(vs), ['--cdd', 'in'])}[c.get('fmt', 'latte')]
    how, stdin = c.get('in'), None
    if how == 'spaces':
        txt = txt.replace(',', ' , ').replace('[', '[ ').replace(']', ' ]')
    elif how == 'spaces2':
        txt = txt.replace(',', ', ')
    elif how == 'stdin':
        stdin = ('l' if 'l' in c else 'd') + '\n' + txt
        opts = [o for o in opts if not o.endswith('=p')]
    r, ans = integrate(['--valuation=integrate'] + opts + c.get('o', []) + args, {'in': f, 'p': txt}, stdin=stdin)
    e = judge(r, ans, exp, n, 'integral of %s' % txt.strip()[:200])
    return bad(e) if e else ok('int %s' % (exp if abs(exp.numerator) < 10**9 else 'large'))


if __name__ == '__main__':
    C = explore.Check('C10', 'every (polytope, sum of powers or of products of linear forms, method) of the listed families; '
                      'non-trivial: full-dimensional polytope', programs=['integrate'],
                      assumptions=['oracle: rational pulling triangulation; complete-symmetric-function formula for powers, '
                                   'barycentric expansion for products'])
    sys.exit(C.main(cases, run_case))
