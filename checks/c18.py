"""C18: the cones LattE works with are the right ones: the vertex cones it computes are the cones of the polytope at
its vertices, a triangulation of a cone covers it without overlap using its own rays, and a polytope that is handed
over as cones (vertex cones, homogenized cone, dual cone, subdivisions of them) has the same count."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
from fractions import Fraction as Fr
import explore, families as F, oracle as O, conefile as C
from explore import ok, bad, QUICK
from latterun import stdout_value

METHODS = ['cddlib', 'cdd', '4ti2', 'topcom', 'delone']
VC = ['cdd', 'lrs', '4ti2']


def nonzero(P):
    return [v for v in P if any(v)]


def tri_cases():
    """Sets of generators of full-dimensional pointed cones."""
    half = sorted({C.primitive(v) for v in itertools.product(range(-2, 3), range(0, 3)) if v[1] > 0})
    for k in (2, 3, 4):
        for R in itertools.combinations(half, k):
            yield R
    grid = [(x, y, 1) for x in range(3) for y in range(3)]
    for k in (3, 4, 5) if QUICK else range(3, 10):
        for R in itertools.combinations(grid, k):
            yield R
    mix = sorted({C.primitive((x, y, h)) for x in (0, 1, 2) for y in (0, 1) for h in (1, 2)})
    for k in (3, 4):
        for R in itertools.combinations(mix, k):
            yield R
    cube = [v + (1,) for v in itertools.product((0, 1), repeat=3)]
    for k in range(4, 9):
        for R in itertools.combinations(cube, k):
            yield R
    big = [(x, y, z, 1) for x in (0, 2) for y in (0, 3) for z in (0, 1)] + [(1, 1, 0, 1), (1, 2, 1, 1), (1, 1, 2, 2)]
    for k in (5,) if QUICK else (5, 6):
        for R in itertools.combinations(big, k):
            yield R
    hexa = [(1, 0, 1), (2, 0, 1), (3, 1, 1), (3, 2, 1), (2, 3, 1), (1, 3, 1), (0, 2, 1), (0, 1, 1)]
    for k in (5, 6, 7, 8):
        for R in itertools.combinations(hexa, k):
            yield R
    four = [v + (1,) for v in itertools.product((0, 1), repeat=4)]
    for i in range(1 if QUICK else 16):
        yield tuple(four[:i] + four[i + 1:])
    for k in (5, 6):
        for n, R in enumerate(itertools.combinations(four, k)):
            if n % (97 if QUICK else 7) == 0:
                yield R


def polytopes():
    for n, r in enumerate(F.cuts2(2, 2, 3)):
        if n % (6 if QUICK else 1) == 0:
            yield r
    for n, r in enumerate(F.triangles(2, (0, 1, 3))):
        if n % (61 if QUICK else 5) == 0:
            yield r
    for n, r in enumerate(F.cuts3(0, 2, 2, 3)):
        if n % (29 if QUICK else 2) == 0:
            yield r
    for n, r in enumerate(F.twocuts3()):
        if n % (151 if QUICK else 7) == 0:
            yield r
    for r in F.knap(3, (1, 2, 3, 5), (1, 6, 7)):
        yield r
    for n, r in enumerate(F.cuts4()):
        if n % (43 if QUICK else 5) == 0:
            yield r
    for r in F.pyramids():
        yield r
    yield F.cross(3, 2)
    yield F.cross(4, 1)


def cases():
    for n, R in enumerate(tri_cases()):
        if O.rank(R) == len(R[0]) and (n % 3 == 0 or not QUICK or len(R) > 6):
            yield {'fam': 'triangulate', 'rays': R}
    for rows in polytopes():
        yield {'fam': 'vertex-cones', 'rows': [list(r) for r in rows]}


def height_one(rays):
    """Rows of {x: (x,1) in cone(rays)}."""
    return [(f[-1],) + f[:-1] for f in C.cone_facets(rays)]


def ext(rays, name='C'):
    d = len(rays[0])
    return 'V-representation\nbegin\n%d %d integer\n%send\n' % (
        len(rays), d + 1, ''.join('0 ' + ' '.join(map(str, r)) + '\n' for r in rays))


def count_is(args, files, exp, n, what):
    r = explore.run('count', args, files)
    v = r.read('numOfLatticePoints')
    v = (v or '').strip()
    if r.rc != 0 or not v.lstrip('-').isdigit():
        return '%s: expected %d, got no answer: %s' % (what, exp, r.brief())
    if int(v) != exp or stdout_value(r) not in (None, exp):
        return '%s: expected %d, got %s (stdout %s)' % (what, exp, v, stdout_value(r))
    return None


def distinct(Ts):
    seen = set()
    for T in Ts:
        key = frozenset(frozenset(map(tuple, s)) for s in T)
        if key not in seen:
            seen.add(key)
            yield T


def run_tri(c):
    rays = [tuple(r) for r in c['rays']]
    d = len(rays[0])
    n = 0
    zero = (0,) * d
    E = ext(rays)
    opts = [['--triangulation=' + m] for m in METHODS] + [[], ['--triangulation=cddlib', '--triangulation-max-height=2'],
                                                          ['--triangulation=4ti2', '--triangulation-max-height=3']]
    cells_seen = []
    for o in opts:
        n += 1
        r = explore.run('triangulate', o + ['C.ext'], {'C.ext': E})
        t = r.read('triangulation')
        if r.rc != 0 or t is None:
            return bad('triangulate %s: no triangulation of %s: %s' % (o, rays, r.brief()), execs=n)
        cells = C.parse(t)
        m = C.check_triangulation(rays, [x['rays'] for x in cells])
        if m:
            return bad('triangulate %s of %s: %s' % (o, rays, m), execs=n)
        for x in cells:
            if any(x['vertex']) or x['coef'] != 1:
                return bad('triangulate %s of %s: cell with vertex %s coefficient %s' % (o, rays, x['vertex'], x['coef']), execs=n)
            if {tuple(-a for a in f) for f in x['facets']} != set(C.cone_facets(x['rays'])):
                return bad('triangulate %s of %s: cell %s has facets %s' % (o, rays, x['rays'], x['facets']), execs=n)
        if len(cells_seen) < 2 or len(cells) != len(cells_seen[-1]):
            cells_seen.append([x['rays'] for x in cells])
    # the same cone in the other file format
    n += 1
    r = explore.run('triangulate', ['C.cone'], {'C.cone': C.write([{'vertex': zero, 'rays': rays}])})
    t = r.read('triangulation')
    m = 'no triangulation: ' + r.brief() if r.rc != 0 or t is None else \
        C.check_triangulation(rays, [x['rays'] for x in C.parse(t)])
    if m:
        return bad('triangulate C.cone of %s: %s' % (rays, m), execs=n)
    if any(r[-1] <= 0 for r in rays):
        return ok('tri %d/%d' % (d, len(rays)), execs=n)
    exp = O.count_points(height_one(rays))
    neg = [tuple(-x for x in f) for f in C.cone_facets(rays)]
    for args, files, what in [
            (['--input-primal-homog-cone=C.ext'], {'C.ext': E}, 'primal cone'),
            (['--input-primal-homog-cones=C.cone'], {'C.cone': C.write([{'vertex': zero, 'rays': rays}])}, 'primal cone file'),
            (['--input-dual-homog-cone=D.ext'], {'D.ext': ext(neg)}, 'dual cone'),
            (['--input-dual-homog-cones=D.cone'], {'D.cone': C.write([{'vertex': zero, 'rays': neg}])}, 'dual cone file')]:
        n += 1
        m = count_is(args, files, exp, n, '%s %s' % (what, rays))
        if m:
            return bad(m, execs=n)
    subs = cells_seen + [C.pulling(rays[i:] + rays[:i]) for i in range(len(rays) if not QUICK else 2)]
    known = None

    def indicator(T, R):
        return '%d %d\n' % (len(T), len(R)) + ''.join(' '.join('1' if r in s else '0' for r in R) + '\n' for s in T)

    for T in distinct(subs):
        over = sum(O.count_points(height_one(s)) for s in T)
        for args, files in [(['--input-primal-homog-cone=C.ext', '--subcones=S'], {'C.ext': E, 'S': indicator(T, rays)}),
                            (['--input-primal-homog-cones=U'], {'U': C.write([{'vertex': zero, 'rays': s} for s in T])})]:
            n += 1
            m = count_is(args, files, exp, n, 'cone %s subdivided into %s' % (rays, T))
            if m and over != exp and not count_is(args, files, over, n, ''):
                known = known or m + ', points on common faces are counted once per cell'
            elif m:
                return bad(m, execs=n)
    for T in distinct(C.pulling(neg[i:] + neg[:i]) for i in range(len(neg) if not QUICK else 2)):
        for args, files in [(['--input-dual-homog-cone=D.ext', '--subcones=S'], {'D.ext': ext(neg), 'S': indicator(T, neg)}),
                            (['--input-dual-homog-cones=U'], {'U': C.write([{'vertex': zero, 'rays': s} for s in T])})]:
            n += 1
            m = count_is(args, files, exp, n, 'dual of cone %s subdivided into %s' % (rays, T))
            if m:
                return bad(m, execs=n)
    if known:
        return bad(known, execs=n, key='primal-subdivision-overcount')
    return ok('tri %d/%d n=%d' % (d, len(rays), exp), execs=n)


def run_vc(c):
    rows = [tuple(r) for r in c['rows']]
    d = len(rows[0]) - 1
    k = O.bounded_nonempty(rows)
    if k != 'bounded' or O.affine_dim(O.vertices(rows)) < d:
        return ok('not full-dimensional', False, execs=0)
    vs = O.vertices(rows)
    exp = O.count_points(rows)
    want = {}
    for v in vs:
        act = [r for r in rows if O.ev(r, v) == 0 and any(r[1:])]
        edges = O.recession_rays([(0,) + tuple(r[1:]) for r in act])
        want[v] = (set(edges), {C.primitive(r[1:]) for r in act
                                if O.rank([e for e in edges if sum(a * b for a, b in zip(r[1:], e)) == 0] or [[0] * d]) == d - 1})
    n = 0
    files = {'p.latte': O.latte(rows)}
    for vc in VC:
        for red in ('full-cddlib',) if QUICK else ('full-cddlib', 'cddlib', 'none'):
            n += 1
            r = explore.run('polyhedron-to-cones', ['--output-cones=F.cones', '--compute-vertex-cones=' + vc,
                                                    '--redundancy-check=' + red, 'p.latte'], files)
            t = r.read('F.cones')
            if r.rc != 0 or t is None:
                return bad('polyhedron-to-cones (%s, %s): no cones: %s' % (vc, red, r.brief()), execs=n)
            cones = C.parse(t)
            got = {x['vertex']: x for x in cones}
            if sorted(x['vertex'] for x in cones) != vs:
                return bad('%s, %s: vertices %s instead of %s' % (vc, red, sorted(map(str, got)), vs), execs=n)
            for v, x in got.items():
                edges, normals = want[v]
                if x['rays'] and {C.primitive(e) for e in x['rays']} != edges:
                    return bad('%s, %s: rays %s at vertex %s, the edges are %s' % (vc, red, x['rays'], v, edges), execs=n)
                if not x['rays'] and not x['facets']:
                    return bad('%s, %s: neither rays nor facets at %s' % (vc, red, v), execs=n)
                if x['facets']:
                    f = {C.primitive([-a for a in y]) for y in x['facets']}
                    if not (normals <= f and all(sum(a * b for a, b in zip(y, e)) >= 0 for y in f for e in edges)):
                        return bad('%s, %s: facets %s at vertex %s, the normals are %s' % (vc, red, x['facets'], v, normals), execs=n)
                if x['coef'] != 1:
                    return bad('%s: coefficient %s' % (vc, x['coef']), execs=n)
            for o in ([], ['--irrational-primal'], ['--irrational-all-primal', '--exponential']):
                n += 1
                m = count_is(o + ['--input-vertex-cones=F.cones'], {'F.cones': t}, exp, n, 'cones of %s %s %s' % (vc, rows, o))
                if m:
                    return bad(m, execs=n)
    # our own cone file, with rays, and the homogenized form
    mine = C.write([{'vertex': v, 'rays': sorted(e)} for v, (e, f) in want.items()])
    n += 1
    m = count_is(['--input-vertex-cones=F.cones'], {'F.cones': mine}, exp, n, 'vertex cones written by hand %s' % (rows,))
    if m:
        return bad(m, execs=n)
    n += 1
    r = explore.run('polyhedron-to-cones', ['--output-cones=H.cones', '--homog', 'p.latte'], files)
    t = r.read('H.cones')
    if r.rc != 0 or t is None:
        return bad('polyhedron-to-cones --homog: %s' % r.brief(), execs=n)
    H = C.parse(t)
    if len(H) != 1:
        return bad('--homog: %d cones' % len(H), execs=n)
    gens = {C.primitive([-a for a in y]) for y in H[0]['rays']}
    hom = [C.primitive(tuple(v) + (1,)) for v in vs]
    need = set(C.cone_facets(hom))
    if not (need <= gens and all(sum(a * b for a, b in zip(g, h)) >= 0 for g in gens for h in hom)):
        return bad('--homog: the dual cone has rays %s, the facets are %s' % (sorted(gens), sorted(need)), execs=n)
    n += 1
    m = count_is(['--input-dual-homog-cones=H.cones'], {'H.cones': t}, exp, n, 'homogenized %s' % (rows,))
    if m:
        return bad(m, execs=n)
    n += 1
    m = count_is(['--input-primal-homog-cone=V.ext'], {'V.ext': ext(hom)}, exp, n, 'homogenized vertices %s' % (rows,))
    if m:
        return bad(m, execs=n)
    return ok('vc d=%d v=%d n=%d' % (d, len(vs), exp), execs=n)


def run_case(c):
    return run_tri(c) if c['fam'] == 'triangulate' else run_vc(c)


if __name__ == '__main__':
    ch = explore.Check('C18', 'every case: the cone files and counts equal exact vertex cones, valid triangulations and brute-force counts',
                       programs=['count', 'triangulate', 'polyhedron-to-cones'])
    sys.exit(ch.main(cases, run_case))
