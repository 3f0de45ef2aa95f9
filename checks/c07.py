"""C07: multivariate generating functions enumerate exactly the lattice points of the polyhedron."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools, re
from fractions import Fraction as Fr
from math import gcd, floor, ceil
import explore, families as F, oracle as O
from explore import ok, bad, QUICK

OPTS = [[], ['--irrational-primal'], ['--irrational-all-primal'], ['--irrational-primal', '--maxdet=10'],
        ['--irrational-all-primal', '--maxdet=1000'], ['--maxdet=4', '--irrational-all-primal', '--triangulation=cddlib']]


def unbounded2():
    for (a, b) in itertools.product(range(-3, 4), repeat=2):
        for c in range(-2, 3):
            if (a, b) != (0, 0):
                yield [(0, 1, 0), (0, 0, 1), (c, a, b)]
    for n1, n2 in itertools.combinations(F.normals(2, 2 if QUICK else 3), 2):
        if n1[0] * n2[1] - n1[1] * n2[0]:
            for b in ((0, 0), (1, 0), (1, -2)) if QUICK else itertools.product((-2, 0, 1), repeat=2):
                yield [(b[0],) + n1, (b[1],) + n2]


def unbounded3():
    for a in itertools.product((-1, 0, 1, 2), repeat=3):
        for c in (-1, 0, 2):
            if any(a):
                yield O.orthant(3) + [(c,) + a]
    yield [(0, s, t, 1) for s, t in ((1, 0), (-1, 0), (0, 1), (0, -1))]
    yield [(0, s, t, 1) for s, t in ((1, 1), (-1, 1), (1, -1), (-1, -1))]
    yield [(0, s, t, 2) for s, t in ((1, 1), (-1, 1), (1, -1), (-1, -1))]
    yield [(1, s, t, 1) for s, t in ((2, 0), (-1, 0), (0, 1), (0, -3))]


def bounded():
    for r in F.triangles(1, (0, 1, 2)):
        yield 'triangle', r, ()
    for a in range(1, 5):
        for b in range(1, 4):
            for lo, hi in itertools.product(range(-3, 2), range(-1, 4)):
                yield 'segment', [(-lo, a), (hi, -b)], ()
    for a in itertools.product(range(-2, 3), repeat=2):
        for b in range(-2, 4):
            if any(a):
                yield 'cut2', O.cube(2, -1, 2) + [(b,) + a], ()
    for r in F.knap(3, (1, 2, 3), (1, 2, 4, 5)):
        yield 'knap3', r, ()
    for a in itertools.product((-1, 0, 1, 2), repeat=3):
        for b in (0, 1, 3):
            if any(a):
                yield 'cut3', O.cube(3, 0, 1) + [(b,) + a], ()
    for a in itertools.combinations_with_replacement((1, 2, 3, 4), 3):
        for b in (1, 4, 5, 7):
            yield 'eq3', O.orthant(3) + [(b,) + tuple(-x for x in a)], (3,)
    for a in itertools.product((-1, 0, 1, 2), repeat=3):
        for b in (0, -1, 2):
            if any(a):
                yield 'eqcube3', O.cube(3, -1, 1) + [(b,) + a], (6,)
    for a in itertools.combinations_with_replacement((1, 2, 3), 4):
        for b in (3, 6):
            yield 'eq4', O.orthant(4) + [(b,) + tuple(-x for x in a)] + [(0, 1, -1, 0, 0)], (4, 5)
    yield 'cross3', F.cross(3, 1), ()
    yield 'cube4', O.cube(4, 0, 1), ()


def cases():
    sets = [(f, r, l) for f, r, l in bounded()] + [('unbounded2', r, ()) for r in unbounded2()] + \
        [('unbounded3', r, ()) for r in unbounded3()]
    for fam, rows, lin in sets:
        few = fam in ('eqcube3', 'cut3', 'cut2', 'unbounded2', 'segment') and QUICK
        for o in OPTS if not few else OPTS[:1] + OPTS[3:4]:
            yield {'fam': fam, 'rows': [list(r) for r in rows], 'lin': list(lin), 'opts': o}


VAR = re.compile(r'x\[(\d+)\](?:\^(\(-?\d+\)|-?\d+))?')


def evaluate(s, x):
    """Exact value of a generating-function text at x (product/quotient/sum of parenthesised terms)."""
    def sub(m):
        e = m.group(2)
        e = int(e.strip('()')) if e else 1
        return '(X[%s]**%d)' % (m.group(1), e) if e >= 0 else '(1/X[%s]**%d)' % (m.group(1), -e)
    body = VAR.sub(sub, s)
    rest = re.sub(r'\(X\[\d+\]\*\*\d+\)|\(1/X\[\d+\]\*\*\d+\)', '', body)
    if not re.fullmatch(r'[-+*/()\d\s]*', rest):
        raise ValueError('unexpected text %r' % rest[:60])
    body = re.sub(r'(?<![\w\[*])(\d+)(?!\])', r'Fr(\1)', body)
    return eval(body.replace('\n', ' ').strip(), {'Fr': Fr, 'X': x})


def mono(p, x):
    v = Fr(1)
    for e, y in zip(p, x):
        v *= y ** e
    return v


def inside(rows, p):
    return all(r[0] + sum(a * b for a, b in zip(r[1:], p)) >= 0 for r in rows)


def numerator(rows, rays):
    """The Laurent polynomial f(P) * prod(1 - x^ray) as {point: coefficient}."""
    vs = O.vertices(rows)
    d = len(vs[0])
    tot = [sum(max(0, r[i]) for r in rays) for i in range(d)]
    neg = [sum(min(0, r[i]) for r in rays) for i in range(d)]
    bx = O.box_of(vs)
    subsets = []
    for k in range(len(rays) + 1):
        for S in itertools.combinations(rays, k):
            subsets.append(((-1) ** k, tuple(sum(c) for c in zip(*S)) if S else (0,) * d))
    out = {}
    m = 3
    for p in itertools.product(*[range(floor(bx[i][0]) + m * neg[i] - 1, ceil(bx[i][1]) + m * tot[i] + 2) for i in range(d)]):
        c = sum(s for s, q in subsets if inside(rows, [a - b for a, b in zip(p, q)]))
        if c:
            out[p] = c
    # points that are far out along the recession cone contribute nothing: the shell must be empty
    for p in out:
        for i in range(d):
            if p[i] >= ceil(bx[i][1]) + m * tot[i] + 1 or p[i] <= floor(bx[i][0]) + m * neg[i] - 1:
                raise AssertionError('support not covered')
    return out


_cache = {}


def expected(rows, lin, x):
    key = (tuple(rows), tuple(lin))
    if key not in _cache:
        _cache.clear()
        kind = O.bounded_nonempty(rows, lin)
        if kind == 'bounded':
            _cache[key] = kind, O.lattice_points(rows, lin), None
        elif kind == 'unbounded':
            rays = O.recession_rays(rows)
            _cache[key] = kind, numerator(rows, rays), rays
        else:
            _cache[key] = kind, None, None
    kind, pts, rays = _cache[key]
    if x is None:
        return kind
    if kind == 'bounded':
        return sum((mono(p, x) for p in pts), Fr(0))
    v = sum((c * mono(p, x) for p, c in pts.items()), Fr(0))
    for r in rays:
        v /= 1 - mono(r, x)
    return v


X = [[Fr(2), Fr(5, 3), Fr(-7, 2), Fr(11, 5)], [Fr(3, 7), Fr(-2), Fr(13, 3), Fr(5)], [Fr(17, 3), Fr(19, 2), Fr(23, 11), Fr(29, 7)]]


def run_case(c):
    rows, lin = [tuple(r) for r in c['rows']], c['lin']
    kind = expected(rows, lin, None)
    if kind not in ('bounded', 'unbounded'):
        return ok(kind, nontrivial=False, execs=0)
    if kind == 'bounded' and O.affine_dim(O.vertices(rows, lin)) == 0:
        return ok('point', nontrivial=False, execs=0)
    r = explore.run('count', ['--multivariate-generating-function'] + c['opts'] + ['in.latte'], {'in.latte': O.latte(rows, lin)})
    s = r.read('in.latte.rat')
    if r.rc == -6 and lin and 'latticePoints->rest == NULL' in r.err and any('maxdet' in o for o in c['opts']):
        # the program asserts unimodular cones when it lifts back from an affine subspace
        return ok('unsupported combination refused', nontrivial=False)
    if r.rc != 0:
        return bad('generating function: no answer: %s' % r.brief())
    if s is None:
        if kind == 'bounded' and (r.read('numOfLatticePoints') or '').strip() == '0' and expected(rows, lin, X[0]) == 0:
            return ok('integrally empty')
        return bad('generating function: exit 0 but no file')
    n = 0
    for x in X:
        try:
            v = evaluate(s, x) if s.strip() else Fr(0)
        except ZeroDivisionError:
            continue
        except Exception as e:
            return bad('generating function: cannot read the formula (%s): %r' % (e, s[:200]))
        e = expected(rows, lin, x)
        if v != e:
            return bad('generating function has value %s at %s, the lattice points sum to %s' % (v, [str(t) for t in x], e))
        n += 1
        if n == 2:
            break
    if not n:
        return bad('generating function: poles at every evaluation point')
    return ok('%s %d terms' % (kind, s.count('/')))


if __name__ == '__main__':
    C = explore.Check('C07', 'every polyhedron (bounded or not, with or without equations) of the listed families x option sets; '
                      'non-trivial: pointed, nonempty, positive-dimensional', programs=['count'],
                      assumptions=['formula compared exactly at two rational points with the sum over brute-forced lattice '
                                   'points (unbounded: with its numerator over the recession rays)'])
    sys.exit(C.main(cases, run_case))
