"""C20: hilbert-from-rays: its output plus the given generators generate the lattice points of the cone, everything it
lists lies in the cone, and the subdivision files it writes and reads describe subdivisions of the cone."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import functools, itertools
import explore, oracle as O, conefile as C
from explore import ok, bad, QUICK

DUAL = ['cdd', '4ti2']
TRI = ['cddlib', '4ti2', 'topcom', 'cdd', 'delone']


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def hilbert(rays):
    """Hilbert basis of the full-dimensional pointed cone generated by rays (primitive, any generators)."""
    d = len(rays[0])
    F = C.cone_facets(rays)
    pts = set()
    for S in C.pulling(list(rays)):
        D = O.det(S)
        lo = [sum(min(0, r[i]) for r in S) for i in range(d)]
        hi = [sum(max(0, r[i]) for r in S) for i in range(d)]
        G = [f if O.det(S) else None for f in C.cone_facets(S)]
        top = tuple(sum(r[i] for r in S) for i in range(d))
        for p in itertools.product(*(range(a, b + 1) for a, b in zip(lo, hi))):
            if any(p) and all(0 <= dot(g, p) <= dot(g, top) for g in G):
                pts.add(p)
    w = tuple(map(sum, zip(*F)))
    pts = sorted(pts, key=lambda p: dot(w, p))
    out = []
    vals = []
    for p in pts:
        v = [dot(f, p) for f in F]
        if not any(all(a >= b for a, b in zip(v, u)) for u in vals):
            out.append(p)
            vals.append(v)
    return out


def cones():
    half = sorted({C.primitive(v) for v in itertools.product(range(-3, 4), range(0, 4)) if v[1] > 0})
    for k in (2, 3):
        for R in itertools.combinations(half, k):
            yield R
    grid = [(x, y, 1) for x in range(3) for y in range(4)]
    for k in (3, 4, 5, 6):
        for R in itertools.combinations(grid, k):
            yield R
    mix = sorted({C.primitive((x, y, h)) for x in (-1, 0, 2) for y in (0, 1) for h in (1, 2, 3)})
    for k in (3, 4):
        for R in itertools.combinations(mix, k):
            yield R
    lift = [(0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 1), (1, 1, 3, 1), (1, 1, -1, 1), (2, 1, 1, 1), (0, 0, 2, 1), (1, 0, 2, 2)]
    for k in (4, 5, 6):
        for R in itertools.combinations(lift, k):
            yield R
    cube = [v + (1,) for v in itertools.product((0, 1), repeat=3)]
    for k in (5, 6, 7, 8):
        for R in itertools.combinations(cube, k):
            yield R
    cube4 = [v + (1,) for v in itertools.product((0, 1), repeat=4)]
    for k in (6, 8, 9):
        for i, R in enumerate(itertools.combinations(cube4, k)):
            if i % 401 == 0:
                yield R


def cases():
    for n, R in enumerate(cones()):
        if O.rank(R) < len(R[0]):
            continue
        if not QUICK or n % 17 == 0:
            yield {'fam': 'hilbert', 'rays': R, 'i': n}
    scaled = [(2, 0, 0), (0, 2, 2), (3, 3, 0), (0, 0, 1), (1, 1, 1), (2, 4, 2), (-3, 0, 6)]
    for k in (3, 4):
        for n, R in enumerate(itertools.combinations(scaled, k)):
            if O.rank(R) == 3 and C.pointed(R) and (not QUICK or n % 4 == 0):
                yield {'fam': 'scaled', 'rays': R, 'i': n}
    n = 0
    for M in FLAT:
        k, d = len(M), len(M[0])
        small = [R for i, R in enumerate(cones()) if len(R[0]) == k and O.rank(R) == k][::211 if QUICK else 23]
        for R in small:
            n += 1
            yield {'fam': 'flat', 'low': R, 'map': M, 'i': n}


# lattice-preserving embeddings (extendable to unimodular matrices) of Z^k into Z^d
FLAT = [((1, 0, 0), (0, 1, 0)), ((1, 0, 1), (0, 1, 1)), ((1, 0, -1), (2, 1, 3)), ((1, 0, 0, 2), (0, 1, 0, -1)), ((0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)),
        ((1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, -2)), ((1, 1, 0, 0), (0, 1, 1, 0), (0, 0, 1, 1))]


def ext(rays):
    d = len(rays[0])
    return 'V-representation\nbegin\n%d %d integer\n%send\n' % (
        len(rays), d + 1, ''.join('0 ' + ' '.join(map(str, r)) + '\n' for r in rays))


def mat(rows):
    return '%d %d\n' % (len(rows), len(rows[0])) + ''.join(' '.join(map(str, r)) + '\n' for r in rows)


def readmat(t):
    """Rows of a 4ti2-style matrix, or None."""
    try:
        w = [int(x) for x in t.split()]
    except (ValueError, AttributeError):
        return None
    if len(w) < 2 or w[0] < 0 or len(w) != 2 + w[0] * w[1]:
        return None
    return [tuple(w[2 + i * w[1]:2 + (i + 1) * w[1]]) for i in range(w[0])]


def configs(rays, i):
    """(options, input file, extra files, exact?)"""
    d, n = len(rays[0]), len(rays)
    base = {'R.rays': mat(rays), 'C.ext': ext(rays)}
    yield ['--quiet'], 'R.rays', {}
    yield [], 'C.ext', {}
    yield ['--no-initial-triangulation'], 'R.rays', {}
    yield ['--max-determinant-for-enumeration=1000000'], 'R.rays', {}
    yield ['--max-determinant-for-enumeration=3', '--reduction=none', '--no-triang-file'], 'R.rays', {}
    yield ['--no-initial-triangulation', '--max-facets=%d' % (d + 1)], 'R.rays', {}
    yield ['--dualization=cdd'], 'R.rays', {}
    yield ['--triangulation=' + TRI[i % len(TRI)]], 'R.rays', {}
    yield ['--triangulation=' + TRI[(i // 5) % len(TRI)], '--max-determinant-for-enumeration=50'], 'C.ext', {}
    yield ['--triangulation-height-vector=H'], 'R.rays', {'H': mat([[(k * k + i * k) % 7 + 1 for k in range(n)]])}
    yield ['--triangulation-pull-rays=%d' % (i % n + 1)], 'R.rays', {}
    yield ['--triangulation-pull-rays=%d,%d' % (i % n + 1, (i + 1) % n + 1)], 'C.ext', {}
    yield ['--output-subcones=O.sub'], 'R.rays', {}
    T = C.pulling(list(rays))
    yield ['--subcones=S'], 'R.rays', {'S': '%d %d\n' % (len(T), n) + ''.join(
        ' '.join('1' if r in s else '0' for r in rays) + '\n' for s in T)}
    zero = (0,) * d
    yield [], 'T.triang', {'T.triang': C.write([{'vertex': zero, 'rays': s} for s in T])}



def flat_configs():
    for o in ([], ['--no-initial-triangulation'], ['--dualization=cdd'], ['--dualization=cdd', '--no-initial-triangulation'],
              ['--max-determinant-for-enumeration=1000'], ['--max-determinant-for-enumeration=1000', '--no-initial-triangulation']):
        yield o, 'R.rays', {}
    yield [], 'C.ext', {}


def facets(rays):
    """Vectors f with cone(rays) = {x: f.x >= 0 for all f}, also for lower-dimensional cones."""
    d, k = len(rays[0]), O.rank(rays)
    if k == d:
        return C.cone_facets(rays)
    E = C.nullspace(rays)
    for cols in itertools.combinations(range(d), k):
        P = [tuple(r[j] for j in cols) for r in rays]
        if O.rank(P) == k:
            out = []
            for f in C.cone_facets(P):
                g = [0] * d
                for j, x in zip(cols, f):
                    g[j] = x
                out.append(tuple(g))
            return out + E + [tuple(-x for x in e) for e in E]


def examine(what, r, rays, H, F, sub):
    """None or what is wrong with the .hil file of run r; F are the facets (None: only membership via H)."""
    names = [f for f in os.listdir(r.dir) if f.endswith('.hil')]
    if r.rc != 0 or len(names) != 1:
        return '%s: no answer: %s' % (what, r.brief())
    L = readmat(r.read(names[0]))
    if L is None:
        return '%s: malformed output %r' % (what, r.read(names[0])[:300])
    if len(set(L)) != len(L):
        return '%s: a vector is listed twice: %s' % (what, L)
    for v in L:
        if len(v) != len(rays[0]) or any(dot(f, v) < 0 for f in F):
            return '%s: %s is not in the cone' % (what, v)
    miss = set(H) - set(L) - set(rays)
    if miss:
        return '%s: Hilbert basis elements %s missing from %s' % (what, sorted(miss), L)
    if sub and set(L) - set(H):
        return '%s: %s are listed, not in the Hilbert basis' % (what, sorted(set(L) - set(H)))
    return None


def run_case(c):
    n = 0
    i = c['i']
    flat = c['fam'] == 'flat'
    if flat:
        low = [tuple(r) for r in c['low']]

        def up(v):
            return tuple(sum(a * m[j] for a, m in zip(v, c['map'])) for j in range(len(c['map'][0])))
        rays = [up(r) for r in low]
        H = [up(h) for h in hilbert(low)]
    else:
        rays = [tuple(r) for r in c['rays']]
        H = hilbert([C.primitive(r) for r in rays])
    d = len(rays[0])
    F = facets(rays)
    for opts, inp, extra in flat_configs() if flat else configs(rays, i):
        n += 1
        files = {'R.rays': mat(rays), 'C.ext': ext(rays)}
        files.update(extra)
        r = explore.run('hilbert-from-rays', opts + [inp], files)
        what = 'hilbert-from-rays %s %s, rays %s' % (' '.join(opts), inp, rays)
        whole = '--no-initial-triangulation' in opts and len(opts) == 1
        if len(rays) == d and r.rc == 0 and not any(f.endswith('.hil') for f in os.listdir(r.dir)):
            return bad('%s: no .hil file: %s' % (what, r.brief()), execs=n)
        m = examine(what, r, rays, H, F, whole)
        if m:
            return bad(m, execs=n)
        if flat:
            continue
        for f, kind in (('R.rays.triang', 't'), ('C.ext.triang', 't'), ('O.sub', 's')):
            t = r.read(f)
            if t is None:
                continue
            if kind == 't':
                cells = [x['rays'] for x in C.parse(t)]
            else:
                M = readmat(t)
                if M is None or any(len(x) != len(rays) or set(x) - {0, 1} for x in M):
                    return bad('%s: malformed subcones file %r' % (what, t), execs=n)
                cells = [[rays[j] for j in range(len(rays)) if x[j]] for x in M]
            m = C.check_subdivision(rays, cells)
            if m:
                return bad('%s: file %s: %s' % (what, f, m), execs=n)
    return ok('d=%d r=%d h=%d' % (d, len(rays), len(H)), execs=n)


if __name__ == '__main__':
    ch = explore.Check('C20', 'every cone: the candidates and the generators contain the brute-force Hilbert basis, inside the cone',
                       programs=['hilbert-from-rays'])
    sys.exit(ch.main(cases, run_case))
