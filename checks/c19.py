"""C19: a sequence of library calls in one process gives, call by call, the answers each call gives alone."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
from fractions import Fraction as Fr
import explore, oracle as O
from explore import ok, bad, QUICK

SIMPLEX = [(0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (3, -1, -2, -1)]
QUAD = [(1, 2, 0), (5, -2, 0), (0, 0, 1), (7, -1, -3)]            # rational vertices
PYR = [(0, 0, 0, 1), (2, 1, 0, -1), (2, -1, 0, -1), (2, 0, 1, -1), (2, 0, -1, -1)]   # non-simple apex
EQ = ([(0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (6, -1, -2, -3)], [3])
SEG = [(3, 1), (4, -1)]
SQ4 = O.cube(4, 0, 1)
CUT = O.cube(2, -1, 2) + [(2, -1, -1)]                               # lattice polygon
UNB = [(0, 1, 0), (0, 0, 1)]
V = {n: sorted(O.vertices(r)) for n, r in (('pyr', PYR), ('cut', CUT), ('sq4', SQ4), ('quad', QUAD), ('simplex', SIMPLEX))}

FILES = {'simplex': O.latte(SIMPLEX), 'quad': O.latte(QUAD), 'pyr': O.latte(PYR), 'eq': O.latte(*EQ), 'seg': O.latte(SEG),
         'sq4': O.latte(SQ4), 'cut': O.latte(CUT), 'unb': O.latte(UNB), 'quad.ine': O.cdd_h(QUAD), 'pyr.ext': O.cdd_v(V['pyr']),
         'sq4.v': O.latte_v(V['sq4']), 'broken': '3 3\n1 2 x\n', 'mono2': '[[2,[1,2]],[-1,[0,0]],[1/3,[3,0]]]', 'mono3': '[[1,[2,0,1]],[5,[0,1,0]]]',
         'lf2': '[[1,[3,[1,2]]],[2,[1,[0,1]]]]', 'lf3': '[[3,[2,[1,-1,1]]]]', 'plf2': '[[1,[[2,[1,2]],[1,[0,1]]]]]',
         'mono1': '[[1,[4]]]', 'mono4': '[[1,[1,1,1,1]]]'}
MONO = {'mono2': [(2, (1, 2)), (-1, (0, 0)), (Fr(1, 3), (3, 0))], 'mono3': [(1, (2, 0, 1)), (5, (0, 1, 0))], 'mono1': [(1, (4,))],
        'mono4': [(1, (1, 1, 1, 1))]}


def mat(rows):
    return ';'.join(' '.join(map(str, r)) for r in rows)


def vmat(vs):
    return mat([(1,) + tuple(v) for v in vs])


def N(n):
    return 'N %d E S' % n


def E(rows):
    d = len(rows[0]) - 1
    return 'N 0 E %s S' % ' '.join(map(str, O.lagrange([O.count_points(O.dilate(rows, k)) if k else 1 for k in range(d + 1)])))


def T(rows, n, lin=()):
    return 'N 0 E S ' + ' '.join(str(O.count_points(O.dilate(rows, k), lin) if k else 1) for k in range(n + 1))


def A(x, n=1):
    return 'A' + n * (' %s' % x)


def ip(rows, m):
    return O.integral_poly(O.simplices(rows), MONO[m], len(rows[0]) - 1)


def il(rows, terms):
    return O.integral_lf(O.simplices(rows), terms, len(rows[0]) - 1)


def ops():
    c, v, vi = 'C\t', 'V\t--valuation=volume\t', 'V\t--valuation=integrate\t'
    yield 'count simplex', c + 'simplex', N(O.count_points(SIMPLEX))
    yield 'count quad', c + 'quad', N(O.count_points(QUAD))
    yield 'ehrhart pyr', c + '--ehrhart-polynomial\tpyr', E(PYR)
    yield 'taylor cut', c + '--ehrhart-taylor=4\tcut', T(CUT, 4)
    yield 'vol pyr', v + 'pyr', A(O.volume(PYR), 2)
    yield 'int quad', vi + '--monomials=mono2\tquad', A(ip(QUAD, 'mono2'), 3)
    yield 'lf simplex', vi + '--linear-forms=lf3\tsimplex', A(il(SIMPLEX, [(3, 2, (1, -1, 1))]), 2)
    yield 'refused unbounded', c + 'unb', 'refused'
    yield 'count eq', c + 'eq', N(O.count_points(*EQ))
    yield 'lib quad', 'L\tH\tvertices\t%s\tvt\tpt=%s\tvt' % (mat(QUAD), FILES['mono2']), \
        'A %s %s %s' % (O.volume(QUAD), ip(QUAD, 'mono2'), O.volume(QUAD))
    yield 'lib pyr', 'L\tV\tcones\t%s\tvc' % vmat(V['pyr']), A(O.volume(PYR))
    yield 'refused option', c + '--no-such-option\tquad', 'refused'
    # the rest
    yield 'count homog pyr', c + '--homog\tpyr', N(O.count_points(PYR))
    yield 'count irrational sq4', c + '--irrational-primal\tsq4', N(16)
    yield 'count all-primal quad', c + '--irrational-all-primal\t--maxdet=5\tquad', N(O.count_points(QUAD))
    yield 'count exponential seg', c + '--exponential\tseg', N(8)
    yield 'count dilated quad', c + '--dilation=3\tquad', N(O.count_points(O.dilate(QUAD, 3)))
    yield 'count vrep', c + '--vrep\tsq4.v', N(16)
    yield 'count cdd', c + '--cdd\tquad.ine', N(O.count_points(QUAD))
    yield 'count cdd v', c + '--cdd\tpyr.ext', N(O.count_points(PYR))
    yield 'count 4ti2', c + '--compute-vertex-cones=4ti2\t--triangulation=4ti2\tpyr', N(O.count_points(PYR))
    yield 'ehrhart sq4', c + '--ehrhart-polynomial\tsq4', E(SQ4)
    yield 'ehrhart seg', c + '--ehrhart-polynomial\tseg', E(SEG)
    yield 'taylor pyr', c + '--ehrhart-taylor=2\tpyr', T(PYR, 2)
    yield 'vol eq dim', v + 'sq4', A(1, 2)
    yield 'vol quad tri', v + '--triangulate\tquad', A(O.volume(QUAD))
    yield 'vol simplex cone', v + '--cone-decompose\tsimplex', A(O.volume(SIMPLEX))
    yield 'int pyr', vi + '--monomials=mono3\tpyr', A(ip(PYR, 'mono3'), 3)
    yield 'int seg', vi + '--monomials=mono1\tseg', A(ip(SEG, 'mono1'), 3)
    yield 'int sq4', vi + '--monomials=mono4\tsq4', A(ip(SQ4, 'mono4'), 3)
    yield 'lf quad', vi + '--linear-forms=lf2\tquad', A(il(QUAD, [(1, 3, (1, 2)), (2, 1, (0, 1))]), 2)
    yield 'plf quad', vi + '--product-linear-forms=plf2\tquad', \
        A(O.integral_products(O.simplices(QUAD), [(1, [(2, (1, 2)), (1, (0, 1))])], 2))
    yield 'refused missing', c + 'no-such-file', 'refused'
    yield 'refused integrand', vi + '--monomials=no-such-file\tquad', 'refused'
    yield 'refused rational ehrhart', c + '--ehrhart-polynomial\tquad', 'refused'
    yield 'refused valuation option', v + '--no-such-option\tquad', 'refused'
    yield 'lib simplex cones', 'L\tH\tcones\t%s\tpc=%s' % (mat(SIMPLEX), FILES['mono3']), A(ip(SIMPLEX, 'mono3'))
    yield 'lib cut v', 'L\tV\tvertices\t%s\tlt=%s\tvt' % (vmat(V['cut']), FILES['lf2']), \
        'A %s %s' % (il(CUT, [(1, 3, (1, 2)), (2, 1, (0, 1))]), O.volume(CUT))
    yield 'lib quad cones', 'L\tH\tcones\t%s\tlc=%s' % (mat(QUAD), FILES['lf2']), A(il(QUAD, [(1, 3, (1, 2)), (2, 1, (0, 1))]))
    yield 'lib pyr repeated', 'L\tV\tvertices\t%s\tpt=%s\tpt=%s\tvt\tlt=%s' % (vmat(V['pyr']), FILES['mono3'], FILES['mono3'], FILES['lf3']), \
        'A %s %s %s %s' % (ip(PYR, 'mono3'), ip(PYR, 'mono3'), O.volume(PYR), il(PYR, [(3, 2, (1, -1, 1))]))


OPS = {}


def table():
    if not OPS:
        for n, line, exp in ops():
            OPS[n] = (line, exp)
    return OPS


def cases():
    names = list(table())
    core = names[:12]
    for n in names:
        yield {'fam': 'alone', 's': [n]}
    for a, b in itertools.product(names, repeat=2):
        yield {'fam': 'pairs', 's': [a, b]}
    for s in itertools.product(core, repeat=3):
        yield {'fam': 'triples', 's': list(s)}
    if not QUICK:
        for s in itertools.product(names, repeat=3):
            yield {'fam': 'all triples', 's': list(s)}
        for s in itertools.product(core, repeat=4):
            yield {'fam': 'quadruples', 's': list(s)}


def run_case(c):
    t = table()
    files = dict(FILES)
    r = explore.run('session', ['results'], files, stdin=''.join(t[n][0] + '\n' for n in c['s']), timeout=40)
    got = [l[3:].strip() for l in (r.read('results') or '').splitlines() if l.startswith('=> ')]
    for i, n in enumerate(c['s']):
        g = got[i] if i < len(got) else None
        if g != t[n][1]:
            return bad('%s (call %d of %s): %s, it should be %s; %s' % (n, i + 1, c['s'], g, t[n][1], r.brief()))
    if r.rc != 0:
        return bad('the session %s ends with status %s: %s' % (c['s'], r.rc, r.brief()))
    return ok('%d calls' % len(c['s']))


if __name__ == '__main__':
    table()
    C = explore.Check('C19', 'every sequence of up to 3 (thorough: 4) library calls over the listed operations, in one process',
                      harnesses=[('session', ['harness/session.cpp'], [])],
                      assumptions=['oracle: exact values by brute force, computed outside LattE', 'operations that end the process are not part of sessions'])
    sys.exit(C.main(cases, run_case))
