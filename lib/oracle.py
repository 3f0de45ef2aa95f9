"""Exact reference computations on small polyhedra (pure Python, Fractions only, deliberately simple).
A polyhedron is rows (b, a1..ad) meaning b + a.x >= 0, and lin: indices of rows that are equations."""
from fractions import Fraction as Fr
from math import gcd, factorial, floor, ceil, comb
import itertools, functools


def solve(A, b):
    """Unique solution of the square system A x = b, or None."""
    n = len(A)
    M = [list(map(Fr, A[i])) + [Fr(b[i])] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        inv = 1 / M[c][c]
        M[c] = [v * inv for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return tuple(M[i][n] for i in range(n))


def rank(A):
    M = [list(map(Fr, r)) for r in A]
    rk = 0
    if not M:
        return 0
    for c in range(len(M[0])):
        p = next((r for r in range(rk, len(M)) if M[r][c] != 0), None)
        if p is None:
            continue
        M[rk], M[p] = M[p], M[rk]
        for r in range(rk + 1, len(M)):
            if M[r][c] != 0:
                f = M[r][c] / M[rk][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[rk])]
        rk += 1
    return rk


def det(A):
    n = len(A)
    M = [list(map(Fr, r)) for r in A]
    d = Fr(1)
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return Fr(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for r in range(c + 1, n):
            if M[r][c] != 0:
                f = M[r][c] / M[c][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return d


def ev(r, x):
    return r[0] + sum(a * b for a, b in zip(r[1:], x))


def vertices(rows, lin=()):
    d = len(rows[0]) - 1
    out = set()
    for S in itertools.combinations(range(len(rows)), d):
        v = solve([rows[i][1:] for i in S], [-rows[i][0] for i in S])
        if v is None or v in out:
            continue
        if all(ev(r, v) >= 0 and (i not in lin or ev(r, v) == 0) for i, r in enumerate(rows)):
            out.add(v)
    return sorted(out)


def recession_rays(rows, lin=()):
    """Nonzero recession directions (extreme rays if pointed); [] iff the recession cone is {0}
    (for a system of full column rank)."""
    d = len(rows[0]) - 1
    if rank([r[1:] for r in rows]) < d:
        return None          # contains a line (if nonempty)
    out = set()
    for S in itertools.combinations(range(len(rows)), d - 1):
        A = [rows[i][1:] for i in S]
        if rank(A) < d - 1 and d > 1:
            continue
        k = kernel1(A, d)
        for s in (1, -1):
            r = tuple(s * x for x in k)
            if all(sum(a * b for a, b in zip(q[1:], r)) >= 0 and
                   (i not in lin or sum(a * b for a, b in zip(q[1:], r)) == 0) for i, q in enumerate(rows)):
                out.add(r)
    return sorted(out)


def kernel1(A, d):
    """Primitive integer vector spanning the kernel of the (d-1) x d matrix A of rank d-1."""
    v = []
    for j in range(d):
        m = [[r[c] for c in range(d) if c != j] for r in A]
        v.append((-1) ** j * (det(m) if m else Fr(1)))
    L = 1
    for x in v:
        L = L * x.denominator // gcd(L, x.denominator)
    v = [int(x * L) for x in v]
    g = functools.reduce(gcd, v)
    return tuple(x // g for x in v)


def bounded_nonempty(rows, lin=()):
    """'empty', 'bounded' or 'unbounded' (for systems of full column rank vertices decide emptiness)."""
    rr = recession_rays(rows, lin)
    if rr is None:
        return 'line?'
    if not vertices(rows, lin):
        return 'empty'
    return 'unbounded' if rr else 'bounded'


def box_of(vs):
    return [(min(v[i] for v in vs), max(v[i] for v in vs)) for i in range(len(vs[0]))]


def lattice_points(rows, lin=(), vs=None):
    """All integer points of a bounded polyhedron."""
    if vs is None:
        vs = vertices(rows, lin)
    if not vs:
        return []
    bx = [(ceil(a), floor(b)) for a, b in box_of(vs)]
    d = len(bx)
    out = []
    R = [tuple(r) for r in rows]
    L = set(lin)

    def last(prefix):
        lo, hi = bx[d - 1]
        for i, r in enumerate(R):
            c = r[0] + sum(a * x for a, x in zip(r[1:], prefix))
            a = r[d]
            if a == 0:
                if c < 0 or (i in L and c != 0):
                    return
            elif a > 0:
                lo = max(lo, -(c // a))
                if i in L:
                    hi = min(hi, (-c) // a)
            else:
                hi = min(hi, c // (-a))
                if i in L:
                    lo = max(lo, -((-c) // (-a)))
            if lo > hi:
                return
        for x in range(lo, hi + 1):
            out.append(prefix + (x,))

    for p in itertools.product(*[range(a, b + 1) for a, b in bx[:-1]]):
        last(p)
    return out


def count_points(rows, lin=()):
    return len(lattice_points(rows, lin))


def floor_sum(n, m, a, b):
    """sum_{i=0}^{n-1} floor((a i + b)/m), arbitrary precision (m > 0, a, b >= 0)."""
    ans = 0
    while True:
        if a >= m:
            ans += (n - 1) * n // 2 * (a // m)
            a %= m
        if b >= m:
            ans += n * (b // m)
            b %= m
        y = a * n + b
        if y < m:
            return ans
        n, b, m, a = y // m, y % m, a, m


def triangle_count(a, b, c):
    """#{x,y >= 0 : a x + b y <= c}, a, b > 0, c >= 0: sum over x of floor((c - a x)/b) + 1."""
    n = c // a + 1
    # reverse order: x = n-1-i  ->  c - a(n-1) + a i
    return floor_sum(n, b, a, c - a * (n - 1)) + n


# ---- triangulation / volume / integration ------------------------------------------------------

def affine_dim(vs):
    return rank([[x - y for x, y in zip(v, vs[0])] for v in vs[1:]]) if len(vs) > 1 else 0


def simplices(rows, vs=None, lin=()):
    """Pulling triangulation of a bounded polytope into simplices (tuples of vertices)."""
    if vs is None:
        vs = vertices(rows, lin)
    vs = sorted(vs)
    tight = {v: frozenset(i for i, r in enumerate(rows) if ev(r, v) == 0) for v in vs}

    def tri(face):
        dim = affine_dim(face)
        if len(face) == dim + 1:
            return [tuple(face)]
        v = face[0]
        out, seen = [], set()
        for i in range(len(rows)):
            if i in tight[v]:
                continue
            f = tuple(w for w in face if i in tight[w])
            if f and f not in seen and affine_dim(f) == dim - 1:
                seen.add(f)
                out += [s + (v,) for s in tri(f)]
        return out
    return tri(tuple(vs))


def simplex_vol(s):
    return abs(det([[x - y for x, y in zip(v, s[0])] for v in s[1:]])) / factorial(len(s) - 1)


def volume(rows, vs=None):
    return sum((simplex_vol(s) for s in simplices(rows, vs)), Fr(0))


def pmul(p, q):
    out = {}
    for e, c in p.items():
        for f, k in q.items():
            g = tuple(x + y for x, y in zip(e, f))
            out[g] = out.get(g, 0) + c * k
    return out


def ppow(p, n):
    r = None
    for _ in range(n):
        r = p if r is None else pmul(r, p)
    if r is None:
        k = len(next(iter(p)))
        return {(0,) * k: Fr(1)}
    return r


def integrate_bary(s, poly_in_lambda):
    """Integral over simplex s of a polynomial in barycentric coordinates."""
    d = len(s) - 1
    v = simplex_vol(s)
    tot = Fr(0)
    for e, c in poly_in_lambda.items():
        num = 1
        for k in e:
            num *= factorial(k)
        tot += c * Fr(num * factorial(d), factorial(sum(e) + d))
    return tot * v


def lf_bary(s, lf):
    """Linear form as a (homogeneous) polynomial in barycentric coordinates."""
    k = len(s)
    out = {}
    for i in range(k):
        c = sum(Fr(a) * x for a, x in zip(lf, s[i]))
        if c:
            out[tuple(1 if j == i else 0 for j in range(k))] = c
    return out or {(1,) + (0,) * (k - 1): Fr(0)}


def integral_products(S, terms, d):
    """terms: [(coef, [(power, linear form), ...])]; S: simplices of the polytope."""
    tot = Fr(0)
    for s in S:
        for c, fs in terms:
            p = {(0,) * len(s): Fr(c)}
            for m, lf in fs:
                p = pmul(p, ppow(lf_bary(s, lf), m))
            tot += integrate_bary(s, p)
    return tot


def integral_poly(S, mono, d):
    """mono: [(coef, exponents)]."""
    unit = [tuple(1 if j == i else 0 for j in range(d)) for i in range(d)]
    return integral_products(S, [(c, [(e[i], unit[i]) for i in range(d) if e[i]]) for c, e in mono], d)


def hsym(M, xs):
    h = [Fr(1)] + [Fr(0)] * M
    for x in xs:
        for k in range(1, M + 1):
            h[k] += x * h[k - 1]
    return h[M]


def integral_lf(S, terms, d):
    """terms: [(coef, power, linear form)]."""
    tot = Fr(0)
    for s in S:
        v = simplex_vol(s)
        for c, M, lf in terms:
            xs = [sum(Fr(a) * x for a, x in zip(lf, p)) for p in s]
            tot += Fr(c) * v * Fr(factorial(M) * factorial(d), factorial(M + d)) * hsym(M, xs)
    return tot


def lagrange(vals):
    """Coefficients of the polynomial of degree < len(vals) with p(i) = vals[i]."""
    n = len(vals)
    return list(solve([[Fr(i) ** j for j in range(n)] for i in range(n)], vals)) if n else []


# ---- text formats ------------------------------------------------------------------------------

def latte(rows, lin=(), nonneg=None):
    s = '%d %d\n' % (len(rows), len(rows[0])) + ''.join(' '.join(map(str, r)) + '\n' for r in rows)
    if lin:
        s += 'linearity %d %s\n' % (len(lin), ' '.join(str(i + 1) for i in lin))
    if nonneg:
        s += 'nonnegative %d %s\n' % (len(nonneg), ' '.join(str(i) for i in nonneg))
    return s


def cdd_h(rows, lin=()):
    s = 'H-representation\n'
    if lin:
        s += 'linearity %d %s\n' % (len(lin), ' '.join(str(i + 1) for i in lin))
    return s + 'begin\n%d %d rational\n' % (len(rows), len(rows[0])) + \
        ''.join(' '.join(map(str, r)) + '\n' for r in rows) + 'end\n'


def cdd_v(vs, rays=()):
    n = len((list(vs) + list(rays))[0])
    return 'V-representation\nbegin\n%d %d rational\n' % (len(vs) + len(rays), n + 1) + \
        ''.join('1 ' + ' '.join(map(str, v)) + '\n' for v in vs) + \
        ''.join('0 ' + ' '.join(map(str, v)) + '\n' for v in rays) + 'end\n'


def latte_v(vs):
    return '%d %d\n' % (len(vs), len(vs[0]) + 1) + ''.join('1 ' + ' '.join(map(str, v)) + '\n' for v in vs)


def cube(d, lo, hi):
    rows = []
    for i in range(d):
        u = [0] * d
        u[i] = 1
        rows.append((-lo,) + tuple(u))
        rows.append((hi,) + tuple(-x for x in u))
    return rows


def orthant(d):
    return [(0,) + tuple(1 if j == i else 0 for j in range(d)) for i in range(d)]


def hull(pts):
    """Facet inequalities (integer, primitive) of the full-dimensional convex hull of integer points."""
    d = len(pts[0])
    rows = set()
    for S in itertools.combinations(sorted(set(pts)), d):
        A = [[x - y for x, y in zip(p, S[0])] for p in S[1:]]
        if d > 1 and rank(A) < d - 1:
            continue
        n = kernel1(A, d) if d > 1 else (1,)
        b = -sum(x * y for x, y in zip(n, S[0]))
        v = [b + sum(x * y for x, y in zip(n, p)) for p in pts]
        if all(x >= 0 for x in v) and any(v):
            rows.add((b,) + n)
        elif all(x <= 0 for x in v) and any(v):
            rows.add((-b,) + tuple(-x for x in n))
    return sorted(rows)


def dilate(rows, k):
    return [(r[0] * k,) + tuple(r[1:]) for r in rows]
