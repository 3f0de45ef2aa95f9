"""C09: `integrate --valuation=integrate --monomials=F` returns the exact integral of the polynomial, by every method."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
from fractions import Fraction as Fr
import explore, families as F, oracle as O
from explore import ok, bad, QUICK
from intrun import integrate, judge

METHODS = {'all': ([], 3), 'tri': (['--triangulate'], 1), 'cone': (['--cone-decompose'], 1), 'plf': (['--polynomial-as-plf'], 1)}


def expo(d, D):
    return [e for e in itertools.product(range(D + 1), repeat=d) if sum(e) <= D]


SHAPES = {
    'seg': [(0, 1), (3, -2)], 'seg-sym': [(1, 1), (1, -1)], 'seg-far': [(-7, 2), (11, -3)],
    'tri': [(0, 1, 0), (0, 0, 1), (1, -1, -1)], 'tri-neg': [(2, 1, 0), (1, 0, 2), (-1, -2, -1)], 'sq-sym': O.cube(2, -1, 1),
    'sq': O.cube(2, 0, 2), 'diamond': F.cross(2, 1), 'rat': [(1, 2, 1), (1, -3, 1), (2, 0, -3)], 'hex': [(1, 1, 0), (1, -1, 0), (1, 0, 1), (1, 0, -1), (1, 1, -1), (1, -1, 1)],
    'cube': O.cube(3, 0, 1), 'cube-sym': O.cube(3, -1, 1), 'tetra': [(0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, -1, -1, -1)],
    'tetra-rat': [(1, 2, 0, 0), (1, 0, 3, 0), (0, 0, 0, 1), (2, -1, -2, -3)], 'octa': F.cross(3, 1), 'pyr': F.pyramids().__next__(),
    'simp4': O.orthant(4) + [(2, -1, -2, -1, -3)], 'cube4': O.cube(4, -1, 1), 'simp5': O.orthant(5) + [(3, -1, -2, -1, -3, -1)],
}


def cases():
    D = {1: 9, 2: 6, 3: 4, 4: 2, 5: 2} if QUICK else {1: 14, 2: 9, 3: 6, 4: 4, 5: 3}
    # every monomial up to a degree on every shape
    for s, r in SHAPES.items():
        d = len(r[0]) - 1
        for e in expo(d, D[d]):
            yield {'fam': 'monomial', 's': s, 'p': [[1, list(e)]], 'm': 'all'}
            if not QUICK or sum(e) <= 3:
                for m in ('tri', 'cone', 'plf'):
                    yield {'fam': 'monomial1', 's': s, 'p': [['-3/7', list(e)]], 'm': m}
    # every two-term polynomial, repeated and cancelling monomials included
    for s in ('seg', 'seg-sym', 'tri', 'tri-neg', 'sq-sym', 'rat', 'tetra-rat', 'cube-sym'):
        d = len(SHAPES[s][0]) - 1
        for e, f in itertools.product(expo(d, 2 if d > 2 else 3), repeat=2):
            for a, b in ((1, 1), (2, -2), ('1/2', '-2/3'), (0, 5)) if not QUICK or d < 3 else ((2, -2),):
                yield {'fam': 'two terms', 's': s, 'p': [[a, list(e)], [b, list(f)]], 'm': 'all'}
    # all polynomials with coefficients in {-1,0,1} on the monomials of degree <= 2 (1 in dimension 3)
    for s, D2 in (('seg-far', 5), ('tri-neg', 2), ('sq-sym', 2), ('cube', 1), ('octa', 1)):
        d = len(SHAPES[s][0]) - 1
        es = expo(d, D2)
        for co in itertools.product((-1, 0, 1), repeat=len(es)):
            if QUICK and sum(map(abs, co)) > 3:
                continue
            p = [[c, list(e)] for c, e in zip(co, es) if c] or [[0, [0] * d]]
            yield {'fam': 'polynomials', 's': s, 'p': p, 'm': 'all'}
    # families of polytopes with a few integrands
    for r in F.triangles(1 if QUICK else 2, (0, 1, 3)):
        for p in ([[1, [1, 0]]], [[1, [1, 2]], [3, [0, 0]]]):
            yield {'fam': 'triangle', 'rows': [list(x) for x in r], 'p': p, 'm': 'all'}
    for r in F.cuts2(2, 1 if QUICK else 3, 3):
        yield {'fam': 'cut2', 'rows': [list(x) for x in r], 'p': [[1, [3, 0]], [2, [1, 1]], [-1, [0, 0]]], 'm': 'all'}
    for r in F.cuts3(-1, 1, 1, 2):
        yield {'fam': 'cut3', 'rows': [list(x) for x in r], 'p': [[1, [2, 0, 1]], [2, [0, 1, 0]], [-1, [0, 0, 0]]], 'm': 'all'}
    # high powers and large coefficients
    for n in range(1, 26 if QUICK else 60):
        for s in ('seg-far', 'seg-sym'):
            yield {'fam': 'power', 's': s, 'p': [[10**30 + n, [n]], ['1/%d' % (10**25 + 1), [n - 1]]], 'm': 'all'}
    for n in range(1, 13 if QUICK else 20):
        for s in ('tri-neg', 'rat'):
            yield {'fam': 'power', 's': s, 'p': [['-%d/9' % 10**22, [n, 1]], [1, [0, n]]], 'm': 'all'}
    # degrees at which binomials and factorials leave the machine integers
    for n in (32, 33, 34, 36, 40, 48, 63, 64, 66, 70) + (() if QUICK else (96, 128, 129)):
        for s in ('seg-far', 'tri', 'sq-sym', 'cube', 'tetra', 'simp4'):
            d = len(SHAPES[s][0]) - 1
            if d > 2 and n > 40 and QUICK and n != 66:
                continue
            for e in ([n] + [0] * (d - 1), [0] * (d - 1) + [n]) + (([n, 1] + [0] * (d - 2), [n // 2] * 2 + [0] * (d - 2)) if 1 < d < 4 and n < 41 else ()):
                yield {'fam': 'degree', 's': s, 'p': [[1, e]], 'm': 'all'}
    # many variables
    for d in (6, 7, 8, 10, 12):
        for e in ([1] + [0] * (d - 1), [2] + [0] * (d - 2) + [1], [1, 1, 1] + [0] * (d - 3)):
            for b in (1, 3):
                yield {'fam': 'high simplex', 'corner': [d, b], 'p': [[5, e], [1, [0] * d]], 'm': 'all'}
    # large polynomials (burst tries split at a fixed number of terms)
    for s, D3 in (('seg', 12 if QUICK else 40), ('tri', 7 if QUICK else 10), ('tetra', 4), ('cube-sym', 3)):
        d = len(SHAPES[s][0]) - 1
        for D4 in range(1, D3 + 1):
            yield {'fam': 'dense', 's': s, 'p': [[i + 1, list(e)] for i, e in enumerate(expo(d, D4))], 'm': 'all'}
            yield {'fam': 'dense', 's': s, 'p': [[(-1) ** i * (i + 1), list(e)] for i, e in enumerate(reversed(expo(d, D4)))] * 2, 'm': 'all'}
    for s in ('seg-far', 'tri-neg', 'rat', 'tetra-rat', 'octa'):
        d = len(SHAPES[s][0]) - 1
        for how in ('stdin', 'spaces', 'spaces2'):
            for m in METHODS:
                for e, f in itertools.product(expo(d, 2), repeat=2):
                    yield {'fam': how, 's': s, 'p': [['-2/3', list(e)], [7, list(f)]], 'm': m, 'in': how}
    # options and formats
    for s in ('tri-neg', 'rat', 'tetra-rat', 'octa', 'hex'):
        d = len(SHAPES[s][0]) - 1
        for f in ('vrep', 'cdd_h', 'cdd_v', 'latte'):
            for o in ([], ['--compute-vertex-cones=lrs'], ['--compute-vertex-cones=4ti2'], ['--triangulation=4ti2'],
                      ['--triangulation=delone'], ['--dualization=4ti2'], ['--homog'], ['--redundancy-check=none']):
                for m in METHODS:
                    for e in ([1] + [0] * (d - 1), [1] * d, [0] * (d - 1) + [3]):
                        yield {'fam': 'options', 's': s, 'p': [[2, e], [1, [0] * d]], 'm': m, 'fmt': f, 'o': o}


_cache = {}


def geometry(c):
    rows = [tuple(r) for r in (SHAPES[c['s']] if 's' in c else c['rows'])]
    k = c.get('s')
    if k in _cache:
        return _cache[k]
    if O.bounded_nonempty(rows) != 'bounded':
        return rows, None, None
    vs = O.vertices(rows)
    if O.affine_dim(vs) < len(rows[0]) - 1:
        return rows, None, None
    g = rows, vs, O.simplices(rows, vs)
    if k:
        _cache[k] = g
    return g


def run_case(c):
    if 'corner' in c:
        d, b = c['corner']
        rows = F.corner_rows([1] * d, b)
        vs = [(Fr(0),) * d] + [tuple(Fr(b if i == j else 0) for j in range(d)) for i in range(d)]
        S = [vs]
    else:
        rows, vs, S = geometry(c)
    if vs is None:
        return ok('degenerate', nontrivial=False, execs=0)
    d = len(rows[0]) - 1
    exp = O.integral_poly(S, [(Fr(a), e) for a, e in c['p']], d)
    txt = '[' + ','.join('[%s,[%s]]' % (a, ','.join(map(str, e))) for a, e in c['p']) + ']\n'
    opts, n = METHODS[c['m']]
    opts = opts + ['--monomials=p']
    f, args = {'latte': (O.latte(rows), ['in']), 'vrep': (O.latte_v(vs), ['--vrep', 'in']), 'cdd_h': (O.cdd_h(rows), ['--cdd', 'in']),
               'cdd_v': (O.cdd_v(vs), ['--cdd', 'in'])}[c.get('fmt', 'latte')]
    how, stdin = c.get('in'), None
    if how == 'spaces':
        txt = txt.replace(',', ' , ').replace('[', '[ ').replace(']', ' ]')
    elif how == 'spaces2':
        txt = txt.replace(',', ', ')
    elif how == 'stdin':
        stdin = 'p' + '\n' + txt
        opts = [o for o in opts if not o.endswith('=p')]
    r, ans = integrate(['--valuation=integrate'] + opts + c.get('o', []) + args, {'in': f, 'p': txt}, stdin=stdin)
    e = judge(r, ans, exp, n, 'integral of %s' % txt.strip()[:200])
    return bad(e) if e else ok('int %s' % (exp if abs(exp.numerator) < 10**9 else 'large'), nontrivial=exp != 0 or len(c['p']) > 0)


if __name__ == '__main__':
    C = explore.Check('C09', 'every (polytope, polynomial, method) of the listed families; non-trivial: full-dimensional polytope',
                      programs=['integrate'],
                      assumptions=['oracle: rational pulling triangulation and the barycentric monomial formula'])
    sys.exit(C.main(cases, run_case))
