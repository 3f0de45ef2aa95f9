"""Bounded input spaces, enumerated completely, simplest first. A polyhedron is (rows, lin)."""
import itertools
from math import gcd
from functools import reduce
from oracle import cube, orthant


def prim(v):
    return reduce(gcd, v, 0) == 1


def cuts2(box=2, A=3, Bm=4):
    """[-box,box]^2 cut by one half plane."""
    base = cube(2, -box, box)
    for a in itertools.product(range(-A, A + 1), repeat=2):
        for b in range(-Bm, Bm + 1):
            yield base + [(b,) + a]


def normals(d, A, primitive=True):
    return [a for a in itertools.product(range(-A, A + 1), repeat=d)
            if any(a) and (not primitive or prim(a))]


def pos_spanning2(ns):
    """Three plane normals whose half planes bound a triangle."""
    def cr(a, b):
        return a[0] * b[1] - a[1] * b[0]
    s = [cr(ns[0], ns[1]), cr(ns[1], ns[2]), cr(ns[2], ns[0])]
    return all(x > 0 for x in s) or all(x < 0 for x in s)


def triangles(A=2, rhs=(0, 1, 3), primitive=True):
    """All triangles with normals in [-A,A]^2 and right-hand sides in rhs."""
    for ns in itertools.combinations(normals(2, A, primitive), 3):
        if pos_spanning2(ns):
            for b in itertools.product(rhs, repeat=3):
                yield [(bb,) + n for bb, n in zip(b, ns)]


def cuts3(lo=0, hi=2, A=2, Bm=3):
    base = cube(3, lo, hi)
    for a in itertools.product(range(-A, A + 1), repeat=3):
        for b in range(-Bm, Bm + 1):
            yield base + [(b,) + a]


def twocuts3(lo=-1, hi=1, A=1, Bs=(-1, 0, 1)):
    base = cube(3, lo, hi)
    cs = [(b,) + a for a in itertools.product(range(-A, A + 1), repeat=3) if any(a) for b in Bs]
    for c, e in itertools.combinations(cs, 2):
        yield base + [c, e]


def knap(d, coefs, rhs):
    """{x >= 0, a.x <= b}, a sorted (all variable orders are covered by the representation check)."""
    for a in itertools.combinations_with_replacement(coefs, d):
        for b in rhs:
            yield orthant(d) + [(b,) + tuple(-x for x in a)]


def cuts4(A=1, Bs=(-1, 0, 1, 2), lo=0, hi=1):
    base = cube(4, lo, hi)
    for a in itertools.product(range(-A, A + 1), repeat=4):
        if any(a):
            for b in Bs:
                yield base + [(b,) + a]


def cross(d, r):
    """|x1|+..+|xd| <= r: non-simple vertices for d >= 3."""
    return [(r,) + s for s in itertools.product((1, -1), repeat=d)]


def pyramids():
    """Pyramids over polygons with n sides, apex on top: one vertex with n facets."""
    sq = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    oc = sq + [(1, 1), (1, -1), (-1, 1), (-1, -1)]
    for base in (sq, oc):
        for h in (1, 2, 3):
            for r in (1, 2, 3):
                for lean in ((0, 0), (1, 0), (1, 1)):
                    rows = [(0, 0, 0, 1)]
                    for n in base:
                        k = sum(abs(x) for x in n)
                        rr = r * (1 if k == 1 else 2) * h
                        # n.(x - lean*z) <= r*(h - z)/h * ...  scaled by h
                        rows.append((rr, -n[0] * h, -n[1] * h,
                                     -(rr // h) + h * (n[0] * lean[0] + n[1] * lean[1])))
                    yield rows


# ---- polytopes {x >= 0, a.x <= b} of high dimension or with many cones, counted by dynamic programming
def corner_rows(a, b):
    d = len(a)
    return [tuple([0] + [1 if i == j else 0 for j in range(d)]) for i in range(d)] + [tuple([b] + [-x for x in a])]


def corner_count(a, b):
    if len(set(a)) == 1:
        from math import comb
        return comb(b // a[0] + len(a), len(a))
    w = [1] * (b + 1)
    for x in a:
        for i in range(x, b + 1):
            w[i] += w[i - x]
    return w[b]


def scale(quick=True):
    for d in (7, 8, 9, 10, 11, 12, 13, 14, 16, 18, 20) + (() if quick else (24, 30)):
        for b in (1, 2, 5, 10**9 + 7) if not quick or d in (7, 8, 13, 14) else (2, 10**9 + 7):
            yield (1,) * d, b
    for d in (6, 7, 9, 12):
        yield (2,) + (1,) * (d - 1), 3
        yield (1,) * (d - 2) + (3, 2), 7
    for k in ((31, 47, 59, 71), (101, 137, 211, 307, 401), (13, 17, 29, 37, 41, 53), (7, 11, 13, 17, 19, 23, 29),
              (1013, 1117, 2111, 3001), (1009, 2003, 3001, 4001, 5003), (10007, 20011, 30011, 40009), (3, 5, 7, 11, 13, 17, 19, 23),
              (2003, 3001, 40009, 50021, 7001), (1000003, 1009, 997, 10007, 3)):
        for b in (1000, 60001):
            yield k, b
    yield (1009, 20011, 3001, 40009, 5003, 60013), 600001        # 5777 cones
    yield (101, 211, 307, 401, 503, 601, 701), 60001             # 3998
    yield (100003, 20011, 300007, 40009, 500009, 7001), 2000003  # 12657
