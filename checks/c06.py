"""C06: Ehrhart series (rational function) and its Taylor terms are exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools, re
from fractions import Fraction as Fr
from math import gcd, lcm
import explore, families as F, oracle as O
from explore import ok, bad, QUICK
from latterun import count_run, count_value

POINTS = [Fr(3), Fr(-2, 5)]
sys.setrecursionlimit(20000)


def polys():
    for a in range(1, 4):
        for b in range(1, 4):
            for lo, hi in itertools.product(range(-2, 2), range(-1, 4)):
                yield 'segment', [(-lo, a), (hi, -b)], ()
    for r in F.triangles(1, (0, 1, 2)):
        yield 'triangle', r, ()
    for i, r in enumerate(F.triangles(2, (1, 2))):
        if not QUICK or i < 400:
            yield 'triangle2', r, ()
    for r in F.knap(3, (1, 2, 3), (1, 2, 3)):
        yield 'knap3', r, ()
    for a in itertools.product((-1, 0, 1, 2), repeat=2):
        for b in (-1, 0, 1, 3):
            if any(a):
                yield 'cut2', O.cube(2, -1, 1) + [(b,) + a], ()
    for a in itertools.product((-1, 0, 1), repeat=3):
        for b in (0, 1, 2):
            if any(a):
                yield 'cut3', O.cube(3, 0, 1) + [(b,) + a], ()
    yield 'cross3', F.cross(3, 1), ()
    yield 'cube4', O.cube(4, 0, 1), ()
    for a in itertools.combinations_with_replacement((1, 2, 3), 3):
        for b in (1, 2, 3):
            yield 'eq3', O.orthant(3) + [(b,) + tuple(-x for x in a)], (3,)
    for a in itertools.product((0, 1, 2, 3), repeat=2):
        for b in (-1, -2, -3):
            if any(a):
                yield 'eq2', O.cube(2, 0, 2) + [(b,) + a], (4,)


HOW = ['count-taylor', 'ehrhart-taylor', 'count-series', 'ehrhart-series']
VHOW = ['count-series vrep', 'count-series cdd']


def cases():
    for fam, rows, lin in polys():
        for h in HOW + ([] if lin else VHOW):
            yield {'fam': h, 'poly': fam, 'rows': [list(r) for r in rows], 'lin': list(lin)}
    # numbers of terms; high dimension; many cones
    for a, b in (((1, 1, 1), 2), ((2, 3), 5), ((1,), 7), ((6, 10, 15), 7)):
        for n in (1, 2, 3, 10, 33, 100):
            for h in HOW[:2]:
                yield {'fam': h, 'poly': 'terms', 'a': list(a), 'b': b, 'n': n}
    for a, b in F.scale():
        if b < 10**6 and (len(a) > 7 or max(a) < 10**4) and len(a) < 18 and (a[0] == a[-1] or max(a) > 1000 or len(a) < 6):
            for h in HOW[:2]:
                yield {'fam': h, 'poly': 'scale', 'a': list(a), 'b': b, 'n': 3}
    for a, b in (((1,) * 5, 2), ((8, 9, 5), 7), ((7, 11, 6), 10), ((1, 2, 2, 1), 2), ((31, 41), 10**6), ((1, 1, 1, 1, 2, 2), 2)):
        for h in HOW[2:]:
            yield {'fam': h, 'poly': 'scale', 'a': list(a), 'b': b}
    vals = [[1, 1], [1, 2], [1, 5], [1, 0], [1, -3], [1, 7, 19], [1, 1, 1], [1, 3, 6, 10], [1, 8, 27, 64, 125],
            [1, 10**12 + 1, 10**25], [1, 4, 4, 4, 4, 4]]
    for a in itertools.product(range(-2, 4), repeat=3):
        vals.append([1] + list(a))
    for v in vals:
        yield {'fam': 'ehrhart3', 'vals': v}


def corner_vertices(a, b):
    d = len(a)
    return [(Fr(0),) * d] + [tuple(Fr(b, a[i]) if i == j else Fr(0) for j in range(d)) for i in range(d)]


def series_value(rows, lin, points, corner=None):
    """Exact values of sum_k L(k) t^k, from finitely many dilations."""
    vs = corner_vertices(*corner) if corner else O.vertices(rows, lin)
    q = lcm(*[x.denominator for v in vs for x in v])
    d = O.affine_dim(vs)
    n = q * (d + 1)
    L = [1] + ([O.triangle_count(*corner[0], corner[1] * k) if len(corner[0]) == 2 else F.corner_count(corner[0], corner[1] * k) for k in range(1, n)] if corner else
               [O.count_points(O.dilate(rows, k), lin) for k in range(1, n)])
    den = [0] * (n + 1)
    b = [1]
    for _ in range(d + 1):
        b = [(b[i] if i < len(b) else 0) - (b[i - 1] if i > 0 else 0) for i in range(len(b) + 1)]
    for i, x in enumerate(b):
        den[i * q] = x
    h = [sum(den[j] * L[i - j] for j in range(0, i + 1, q)) for i in range(n)]
    return [sum(Fr(c) * t ** i for i, c in enumerate(h)) / (1 - t ** q) ** (d + 1) for t in points], q


TOK = re.compile(r'\s*(\d+|t|\^|\*|/|\+|-|\(|\))')


def evaluate(s, t):
    """Evaluates the rational-function text exactly at t (recursive descent)."""
    toks = TOK.findall(s)
    if ''.join(toks) != re.sub(r'\s', '', s):
        raise ValueError('unexpected text')
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1]

    def expr():
        v = term()
        while peek() in ('+', '-'):
            v = v + term() if nxt() == '+' else v - term()
        return v

    def term():
        v = unary()
        while peek() in ('*', '/'):
            v = v * unary() if nxt() == '*' else v / unary()
        return v

    def unary():
        if peek() == '-':
            nxt()
            return -unary()
        if peek() == '+':
            nxt()
            return unary()
        return power()

    def power():
        b = atom()
        if peek() == '^':
            nxt()
            neg = 1
            if peek() == '(':
                e = expr_paren()
            else:
                if peek() == '-':
                    nxt()
                    neg = -1
                e = Fr(nxt())
            e = int(e) * neg
            return b ** e
        return b

    def expr_paren():
        nxt()
        v = expr()
        if nxt() != ')':
            raise ValueError('unbalanced')
        return v

    def atom():
        k = peek()
        if k == '(':
            return expr_paren()
        nxt()
        return t if k == 't' else Fr(int(k))
    v = expr()
    if pos[0] != len(toks):
        raise ValueError('trailing text')
    return v


def run_case(c):
    if c['fam'] == 'ehrhart3':
        return ehrhart3(c['vals'])
    rows, lin = [tuple(r) for r in c['rows']] if 'rows' in c else F.corner_rows(c['a'], c['b']), c.get('lin', ())
    if 'a' not in c and O.bounded_nonempty(rows, lin) != 'bounded':
        return ok('no polytope', nontrivial=False, execs=0)
    if 'a' in c:
        vs = corner_vertices(c['a'], c['b'])
    else:
        vs = O.vertices(rows, lin)
    if O.affine_dim(vs) == 0:
        return ok('point', nontrivial=False, execs=0)
    for i in lin:
        if rows[i][0] % gcd(*rows[i][1:]):
            return ok('equation without integer solutions', nontrivial=False, execs=0)
    txt = O.latte(rows, lin)
    if c['fam'].endswith('taylor'):
        N = c.get('n', 5)
        if c['fam'] == 'count-taylor':
            r = explore.run('count', ['--ehrhart-taylor=%d' % N, 'in.latte'], {'in.latte': txt})
        else:
            r = explore.run('ehrhart', [str(N), 'in.latte'], {'in.latte': txt})
        exp = [1] + [F.corner_count(c['a'], c['b'] * k) if 'a' in c else O.count_points(O.dilate(rows, k), lin) for k in range(1, N + 1)]
        if r.rc != 0:
            return refuse(c, r)
        got = [l.strip() for l in r.out.strip().splitlines()]
        got = [l for l in got if re.fullmatch(r'-?\d+(t\^\d+)?', l)]
        want = ['1'] + ['%dt^%d' % (v, k) for k, v in enumerate(exp) if k]
        if N == 1 and got == ['%d' % exp[1]]:
            return ok('one term')     # printed like a count
        if got[-N:] != want[1:N + 1] and got[-N - 1:] != want:
            return bad('%s: Taylor terms %s, expected %s' % (c['fam'], got, want))
        return ok(' '.join(want))
    ev, q = series_value(rows, lin, POINTS, (c['a'], c['b']) if 'a' in c else None)
    if c['fam'] in VHOW:
        if O.affine_dim(vs) < len(rows[0]) - 1:
            return ok('vertices of a lower-dimensional polytope', nontrivial=False, execs=0)
        f = c['fam'][13:]
        r = explore.run('count', ['--ehrhart-series', '--' + f, 'in.latte'], {'in.latte': O.latte_v(vs) if f == 'vrep' else O.cdd_v(vs)})
    elif c['fam'] == 'count-series':
        r = explore.run('count', ['--ehrhart-series', 'in.latte'], {'in.latte': txt})
    else:
        r = explore.run('ehrhart', ['in.latte'], {'in.latte': txt})
    if r.rc != 0:
        return refuse(c, r)
    s = r.read('in.latte.rat')
    if not s:
        return bad('%s: exit 0 without a rational function' % c['fam'])
    s = s.strip()
    if s.startswith('x :='):
        s = s[4:]
    s = s.rstrip(':').strip()
    for t, e in zip(POINTS, ev):
        try:
            v = evaluate(s, t)
        except (ValueError, ZeroDivisionError, IndexError) as x:
            return bad('%s: cannot evaluate the rational function: %s' % (c['fam'], x))
        if v != e:
            return bad('%s: the rational function is %s at t=%s, the Ehrhart series is %s' % (c['fam'], v, t, e))
    return ok('series ok q=%d' % q)


def refuse(c, r):
    return bad('%s: no answer: %s' % (c['fam'], r.brief()))


T3 = re.compile(r'([+-]?)\s*(-?\d+(?:/\d+)?)\s*\*\s*t\^(\d+)|([+-]?)\s*(-?\d+(?:/\d+)?)')


def ehrhart3(v):
    d = len(v) - 1
    r = explore.run('ehrhart3', [], stdin='%d\n%s\n' % (d, ' '.join(map(str, v))))
    r2 = r.out
    exp = O.lagrange(v)
    line = [l for l in r2.splitlines() if 't^' in l or l.strip().startswith('+')]
    if r.rc != 0 or not line:
        return bad('ehrhart3: no polynomial: %s %r' % (r.brief(), r2[-200:]))
    s = line[-1].split('=')[-1]
    got = {}
    for m in T3.finditer(s):
        if m.group(2):
            got[int(m.group(3))] = (-1 if m.group(1) == '-' else 1) * Fr(m.group(2))
        elif m.group(5):
            got[0] = (-1 if m.group(4) == '-' else 1) * Fr(m.group(5))
    want = {i: x for i, x in enumerate(exp) if x}
    got = {i: x for i, x in got.items() if x}
    if got != want:
        return bad('ehrhart3 %s: printed %r, the interpolating polynomial is %s' % (v, s, want))
    return ok('interp')


if __name__ == '__main__':
    C = explore.Check('C06', 'every polytope of the listed families x four ways of asking; non-trivial: a polytope of positive dimension',
                      programs=['count', 'ehrhart', 'ehrhart3'],
                      assumptions=['the series is compared as a rational function at two rational points, with exact values '
                                   'derived from brute-force counts of q(d+1) dilations'])
    sys.exit(C.main(cases, run_case))
