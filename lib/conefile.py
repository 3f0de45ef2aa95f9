"""LattE's cone files, and exact facts about small rational cones."""
import functools, itertools, re
from fractions import Fraction as Fr
from math import gcd
from functools import reduce
import oracle as O


def primitive(v):
    L = 1
    for x in v:
        L = L * Fr(x).denominator // gcd(L, Fr(x).denominator)
    v = [int(Fr(x) * L) for x in v]
    g = reduce(gcd, v, 0) or 1
    return tuple(x // g for x in v)


def parse(text):
    """List of {coef, vertex, rays, facets, det} of a cone file."""
    out = []
    for blk in text.split('Cone.')[1:]:
        c = {}
        c['coef'] = int(re.search(r'Coefficient:\s*(-?\d+)', blk).group(1))
        c['vertex'] = tuple(Fr(x) for x in re.search(r'Vertex:\s*\[([^\]]*)\]', blk).group(1).split())

        def vecs(a, b):
            s = blk[blk.index(a) + len(a):]
            s = s[:s.index(b)]
            v = [tuple(int(x) for x in m.split()) for m in re.findall(r'\[([^\]]*)\]', s)]
            return [x for x in v if x]
        c['rays'] = vecs('Extreme rays:', 'Determinant')
        c['facets'] = vecs('Facets:', 'Dual determinant')
        c['det'] = int(re.search(r'\nDeterminant:\s*(-?\d+)', blk).group(1))
        out.append(c)
    return out


def write(cones):
    s = ''
    for c in cones:
        def vecs(v):
            return ''.join('[%s]\n' % ' '.join(map(str, x)) for x in v) or '[]\n'
        s += '==========\nCone.\nCoefficient: %d\nVertex: [%s]\nExtreme rays:\n%sDeterminant:0\nFacets:\n%s' \
             'Dual determinant:0\nLattice points in parallelepiped:\n[]\n==========\n\n' % (
                 c.get('coef', 1), ' '.join(map(str, c['vertex'])), vecs(c['rays']), vecs(c.get('facets', ())))
    return s + '\n'


def cone_facets(rays):
    """Primitive inner normals of the full-dimensional cone generated by rays (any generators)."""
    d = len(rays[0])
    out = set()
    for S in itertools.combinations(rays, d - 1):
        if d > 1 and O.rank(S) < d - 1:
            continue
        n = O.kernel1(S, d) if d > 1 else (1,)
        v = [sum(a * b for a, b in zip(n, r)) for r in rays]
        if all(x >= 0 for x in v) and any(v):
            out.add(n)
        elif all(x <= 0 for x in v) and any(v):
            out.add(tuple(-x for x in n))
    return sorted(out)


def extreme(rays):
    """Primitive extreme rays of the pointed full-dimensional cone generated by rays."""
    F = cone_facets(rays)
    d = len(rays[0])
    return sorted({primitive(r) for r in rays
                   if O.rank([f for f in F if sum(a * b for a, b in zip(f, r)) == 0] or [[0] * d]) == d - 1})


@functools.lru_cache(1000)
def _facets(rays):
    return cone_facets(rays)


def cone_facets_cached(rays):
    return _facets(tuple(map(tuple, rays)))


def interiors_meet(A, B):
    """Whether the interiors of two full-dimensional pointed cones meet: they do not iff some hyperplane
    separates them, and then one spanned by generators does."""
    d = len(A[0])
    gens = list(dict.fromkeys(list(A) + list(B)))
    for X, Y in ((A, B), (B, A)):       # most pairs are separated by a facet of one of them
        for n in cone_facets_cached(X):
            if all(sum(x * y for x, y in zip(n, r)) <= 0 for r in Y):
                return False
    for S in itertools.combinations(gens, d - 1):
        if d > 1 and O.rank(S) < d - 1:
            continue
        n = O.kernel1(S, d) if d > 1 else (1,)
        a = [sum(x * y for x, y in zip(n, r)) for r in A]
        b = [sum(x * y for x, y in zip(n, r)) for r in B]
        if (all(x >= 0 for x in a) and all(x <= 0 for x in b)) or (all(x <= 0 for x in a) and all(x >= 0 for x in b)):
            return False
    return True


def section_volume(rays, f):
    """d!-fold volume of {x in simplicial cone(rays): f.x <= 1}."""
    v = abs(O.det(rays))
    for r in rays:
        v = v / sum(a * b for a, b in zip(f, r))
    return v


def pulling(rays, d=None):
    """Some triangulation of the cone generated by rays, for its total volume only."""
    n = len(rays[0])
    d = n if d is None else d
    if d == 1:
        return [[rays[0]]]
    F = faces(rays, d)
    r0 = rays[0]
    out = []
    for f in F:
        if r0 not in f:
            out += [[r0] + s for s in pulling(f, d - 1)]
    return out


def faces(rays, d):
    """Facets (as generator lists) of the d-dimensional cone generated by rays in possibly larger space."""
    n = len(rays[0])
    if d < n:       # project onto d coordinates on which the span is still d-dimensional
        for C in itertools.combinations(range(n), d):
            if O.rank([[r[c] for c in C] for r in rays]) == d:
                P = [tuple(r[c] for c in C) for r in rays]
                break
    else:
        P = [tuple(r) for r in rays]
    return [[rays[i] for i, p in enumerate(P) if sum(a * b for a, b in zip(f, p)) == 0] for f in cone_facets(P)]


def inside(rays, F=None):
    F = F or cone_facets(rays)
    return tuple(sum(c) for c in zip(*F))


def check_triangulation(rays, cells, simplicial=True):
    """None, or why cells (lists of rays) is not a triangulation of the full-dimensional cone(rays)."""
    d = len(rays[0])
    P = {primitive(r) for r in rays}
    for c in cells:
        if len(c) != d or O.rank(c) != d:
            return 'cell %s is not a full-dimensional simplicial cone' % (c,)
        for r in c:
            if primitive(r) not in P:
                return 'cell ray %s is no ray of the input' % (r,)
    f = inside(rays)
    total = sum(section_volume(s, f) for s in pulling([tuple(r) for r in dict.fromkeys(map(tuple, rays))]))
    got = sum(section_volume(c, f) for c in cells)
    if got != total:
        return 'cells have volume %s instead of %s' % (got, total)
    for a, b in itertools.combinations(cells, 2):
        if interiors_meet(a, b):
            return 'cells %s and %s overlap' % (a, b)
    return None


def check_subdivision(rays, cells):
    """None, or why cells (lists of rays, any number each) do not subdivide the full-dimensional cone(rays)."""
    d = len(rays[0])
    P = {primitive(r) for r in rays}
    for c in cells:
        if O.rank(c) != d:
            return 'cell %s is not full-dimensional' % (c,)
        for r in c:
            if primitive(r) not in P:
                return 'cell ray %s is no ray of the input' % (r,)
    f = inside(rays)

    def vol(R):
        return sum(section_volume(s, f) for s in pulling([tuple(r) for r in dict.fromkeys(map(tuple, R))]))
    if sum(map(vol, cells)) != vol(rays):
        return 'the volumes of cells %s do not add up' % (cells,)
    for a, b in itertools.combinations(cells, 2):
        if interiors_meet(a, b):
            return 'cells %s and %s overlap' % (a, b)
    return None


def nullspace(A):
    """Primitive integer basis of {x: Ax = 0}."""
    d = len(A[0])
    M = [[Fr(x) for x in r] for r in A]
    piv = []
    row = 0
    for c in range(d):
        p = next((i for i in range(row, len(M)) if M[i][c]), None)
        if p is None:
            continue
        M[row], M[p] = M[p], M[row]
        M[row] = [x / M[row][c] for x in M[row]]
        for i in range(len(M)):
            if i != row and M[i][c]:
                M[i] = [a - M[i][c] * b for a, b in zip(M[i], M[row])]
        piv.append(c)
        row += 1
    out = []
    for c in range(d):
        if c not in piv:
            v = [Fr(0)] * d
            v[c] = Fr(1)
            for i, p in enumerate(piv):
                v[p] = -M[i][c]
            out.append(primitive(v))
    return out


def pointed(rays):
    """Whether the full-dimensional cone(rays) contains no line."""
    f = cone_facets(rays)
    return bool(f) and O.rank(f) == len(rays[0])
