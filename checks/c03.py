"""C03: the count does not depend on how the polytope is written down."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
from fractions import Fraction as Fr
from math import lcm
import explore, families as F, oracle as O
from explore import ok, bad, QUICK
from latterun import count_run, check_count, count_value


def bases():
    """(name, rows, lin): structurally different small polytopes."""
    yield 'tri', [(0, 1, 0), (0, 0, 1), (5, -2, -3)], []
    yield 'trirat', [(1, 2, 0), (1, 0, 3), (7, -2, -5)], []
    yield 'quad', [(2, 1, 1), (2, -1, 1), (3, 0, -2), (3, 1, -1)], []
    yield 'penta', [(0, 1, 0), (0, 0, 1), (4, -1, 0), (4, 0, -1), (6, -1, -1)], []
    yield 'thin', [(1, 3, -2), (1, -3, 2), (0, 1, 0), (9, -1, -1)], []
    yield 'seg', [(3, 2), (7, -3)], []
    yield 'point', [(-2, 1, 0), (2, -1, 0), (-1, 0, 1), (1, 0, -1)], []
    yield 'tet', [(0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (7, -1, -2, -3)], []
    yield 'tetrat', [(1, 2, 0, 0), (1, 0, 2, 0), (1, 0, 0, 3), (5, -1, -2, -3)], []
    yield 'pyr', [(0, 0, 0, 1), (2, -1, 0, -1), (2, 0, -1, -1), (2, 1, 0, -1), (2, 0, 1, -1)], []
    yield 'octa', F.cross(3, 2), []
    yield 'prism', [(0, 1, 0, 0), (0, 0, 1, 0), (3, -1, -1, 0), (1, 0, 0, 2), (5, 0, 0, -2)], []
    yield 'eqtri', O.orthant(3) + [(-4, 1, 1, 1)], [3]
    yield 'eqknap', O.orthant(3) + [(-12, 2, 3, 4)], [3]
    yield 'eqskew', [(0, 1, 0, 0), (4, -1, 0, 0), (0, 0, 1, 0), (4, 0, -1, 0), (1, 2, 3, -5)], [4]
    yield 'eqnone', O.orthant(2) + [(-3, 2, 2)], [2]
    yield 'tet4', O.orthant(4) + [(5, -1, -2, -1, -2)], []
    yield 'tr22', O.orthant(4) + [(-3, 1, 1, 0, 0), (-2, 0, 0, 1, 1), (-1, 1, 0, 1, 0)], [4, 5, 6]
    for i, r in enumerate(F.triangles(1, (0, 2))):
        yield 'T%d' % i, r, []
    for i, r in enumerate(F.knap(3, (1, 2, 3), (2, 5) if QUICK else (2, 3, 5, 7))):
        yield 'K%d' % i, r, []
    for i, r in enumerate(F.cuts3(0, 2, 1, 2)):
        if any(r[-1][1:]) and (not QUICK or i % 5 == 0):
            yield 'C%d' % i, r, []


def unimodular2():
    for a, b, c, d in itertools.product((-2, -1, 0, 1, 2), repeat=4):
        if a * d - b * c in (1, -1):
            yield ((a, b), (c, d))


def subst(rows, U, t):
    """x = U y + t: rows in terms of y."""
    d = len(U)
    return [(r[0] + sum(r[1 + i] * t[i] for i in range(d)),) +
            tuple(sum(r[1 + i] * U[i][j] for i in range(d)) for j in range(d)) for r in rows]


def eye(d):
    return [[1 if i == j else 0 for j in range(d)] for i in range(d)]


def rewrites(name, rows, lin):
    """(kind, args, file text, file name): every rewrite of the alphabet."""
    n, d = len(rows), len(rows[0]) - 1
    big = name[0] in 'TKC' and len(name) > 1 and name[1:].isdigit()
    # row orders
    perms = itertools.permutations(range(n)) if n <= (3 if big else 4) else \
        [tuple(range(n))[k:] + tuple(range(n))[:k] for k in range(n)] + [tuple(range(n))[::-1]]
    for p in perms:
        yield 'perm', [], O.latte([rows[i] for i in p], [k for k, i in enumerate(p) if i in lin]), 'p'
    # positive scalings: all rows / single rows; equations also by negative numbers
    for k in (2, 3, 10**12 + 39):
        yield 'scaleall', [], O.latte([tuple(k * x for x in r) for r in rows], lin), 'p'
        for i in range(n):
            yield 'scale1', [], O.latte([tuple(k * x for x in r) if j == i else r for j, r in enumerate(rows)], lin), 'p'
    for i in lin:
        yield 'negeq', [], O.latte([tuple(-x for x in r) if j == i else r for j, r in enumerate(rows)], lin), 'p'
    # redundancy
    for i in range(n):
        yield 'dup', [], O.latte(list(rows) + [rows[i]], list(lin) + ([n] if i in lin and i % 2 == 0 else [])), 'p'
        yield 'dup3', [], O.latte([tuple(3 * x for x in rows[i])] + list(rows), [j + 1 for j in lin]), 'p'
    for i, j in itertools.combinations(range(n), 2):
        s = tuple(a + b for a, b in zip(rows[i], rows[j]))
        yield 'sum', [], O.latte(list(rows[:j]) + [s] + list(rows[j:]), [k + (k >= j) for k in lin]), 'p'
        yield 'slack', [], O.latte(list(rows) + [(s[0] + 1,) + s[1:]], lin), 'p'
    yield 'trivial', [], O.latte([(1,) + (0,) * d] + list(rows) + [(0,) * (d + 1)], [k + 1 for k in lin]), 'p'
    # equations as pairs of inequalities
    if lin:
        r2 = list(rows) + [tuple(-x for x in rows[i]) for i in lin]
        yield 'eqpair', [], O.latte(r2), 'p'
        yield 'eqdup', [], O.latte(list(rows) + [tuple(2 * x for x in rows[i]) for i in lin], list(lin) + list(range(n, n + len(lin)))), 'p'
    # variables: permutations, reflections, shifts, unimodular maps
    for p in itertools.permutations(range(d)):
        yield 'varperm', [], O.latte([(r[0],) + tuple(r[1 + i] for i in p) for r in rows], lin), 'p'
    for s in itertools.product((1, -1), repeat=d):
        yield 'reflect', [], O.latte([(r[0],) + tuple(x * y for x, y in zip(s, r[1:])) for r in rows], lin), 'p'
    for t in ((1,) * d, (-3, 2, 5, -1)[:d], (10**15,) * d):
        yield 'shift', [], O.latte(subst(rows, eye(d), t), lin), 'p'
    if d == 2 and not big:
        for U in unimodular2():
            yield 'unimod', [], O.latte(subst(rows, U, (0, 0)), lin), 'p'
    if d >= 2:
        for i, j in itertools.permutations(range(d), 2):
            for k in (1, -2):
                U = eye(d)
                U[i][j] = k
                yield 'shear', [], O.latte(subst(rows, U, (0,) * d), lin), 'p'
    # nonnegativity: keyword for every subset of the variables whose rows x_i >= 0 are present
    pos = {}
    for k, r in enumerate(rows):
        if r[0] == 0 and sorted(r[1:]) == [0] * (d - 1) + [1] and k not in lin:
            pos[r[1:].index(1) + 1] = k
    for m in range(1, len(pos) + 1):
        for S in itertools.combinations(sorted(pos), m):
            drop = {pos[v] for v in S}
            keep = [k for k in range(n) if k not in drop]
            rr = [rows[k] for k in keep]
            ll = [i for i, k in enumerate(keep) if k in lin]
            if rr:
                yield 'nonneg', [], O.latte(rr, ll, list(S)), 'p'
                if ll:   # keywords in the other order
                    t = O.latte(rr)
                    t += 'nonnegative %d %s\nlinearity %d %s\n' % (len(S), ' '.join(map(str, S)), len(ll), ' '.join(str(i + 1) for i in ll))
                    yield 'nonneg-first', [], t, 'p'
                if m == d:
                    yield 'plus', ['+'], O.latte(rr, ll), 'p'
    if len(pos) == d:
        yield 'plus-all', ['+'], O.latte(rows, lin), 'p'
    # layout
    t = O.latte(rows, lin)
    yield 'layout', [], t.replace(' ', '\t').replace('linearity\t', 'linearity ').replace('\n', '\n\n'), 'p'
    yield 'layout', [], t.replace('\n', '\n  ') + '\n\n   ', 'p'
    for x in layouts(t, n, d + 1, ()):      # (the inequality format has integers only)
        yield 'layout', [], x, 'p'
    # CDD inequality files
    yield 'cdd-ine', ['--cdd'], O.cdd_h(rows, lin), 'p.ine'
    yield 'cdd-old', ['cdd'], O.cdd_h([tuple(2 * x for x in r) for r in rows], lin), 'p.ine'
    yield 'cdd-int', ['--cdd'], O.cdd_h(rows, lin).replace('rational', 'integer'), 'p.ine'
    # vertices
    vs = O.vertices(rows, lin)
    if vs and not lin and O.affine_dim(vs) == d:
        orders = itertools.permutations(vs) if len(vs) <= 3 else [vs, vs[::-1], vs[1:] + vs[:1]]
        for o in orders:
            yield 'vrep', ['--vrep'], O.latte_v(o), 'p'
            yield 'cdd-ext', ['--cdd'], O.cdd_v(o), 'p.ext'
        mid = tuple(sum(c) / len(vs) for c in zip(*vs))
        yield 'cdd-ext+inner', ['--cdd'], O.cdd_v(list(vs) + [mid]), 'p.ext'
        yield 'vrep+inner', ['--vrep'], O.latte_v([mid] + list(vs)), 'p'
        yield 'vrep-scaled', ['--vrep'], scaled_v(vs), 'p'
        yield 'vrep-scaled-homog', ['--vrep', '--homog'], scaled_v(vs), 'p'
        yield 'vrep-old', ['vrep'], O.latte_v(vs), 'p'
        yield 'vrep-homog', ['--vrep', '--homog'], O.latte_v(vs), 'p'
        yield 'cdd-ext-homog', ['--cdd', '--homog'], O.cdd_v(vs), 'p.ext'
        for x in layouts(O.latte_v(vs), len(vs), d + 1):
            yield 'vrep-layout', ['--vrep'], x, 'p'
            yield 'vrep-layout-homog', ['--vrep', '--homog'], x, 'p'
        yield 'vrep-homog+dup', ['--vrep', '--homog'], O.latte_v(list(vs) + [vs[0]]), 'p'


def layouts(text, m, n, factors=(2, 6)):
    """The same file with other white space and with other notations of the same numbers."""
    tok = text.split()
    body = tok[2:2 + m * n]
    rest = '\n'.join(text.split('\n')[m + 1:])
    yield '%d %d\n%s\n%s' % (m, n, '\n'.join(body), rest)                     # one number per line
    yield '%d %d %s\n%s' % (m, n, ' '.join(body), rest)                        # everything on one line
    yield '%d\n%d\n%s\n%s' % (m, n, '   '.join(body), rest)
    rows = [' '.join(body[i * n:i * n + n]) for i in range(m)]
    yield '%d %d\n\n%s\n%s' % (m, n, '\n \n'.join(rows), rest)               # blank lines
    yield '%d %d\r\n%s\r\n%s' % (m, n, '\r\n'.join(rows), rest)
    for k in factors:                                                          # not in lowest terms
        yield '%d %d\n%s\n%s' % (m, n, '\n'.join(' '.join('%d/%d' % (Fr(x).numerator * k, Fr(x).denominator * k) for x in r.split()) for r in rows), rest)
    yield '%d %d\n%s\n%s' % (m, n, '\n'.join(' '.join('-0' if x == '0' else x[:1] + '00' + x[1:] if x[0] == '-' else '00' + x for x in r.split()) for r in rows), rest)


def scaled_v(vs):
    """The manual's integral notation of rational vertices: homogenized vertices scaled by any positive factor."""
    rows = []
    for i, v in enumerate(vs):
        k = lcm(*[x.denominator for x in v]) * (1, 1, 3)[i % 3]
        rows.append('%d %s' % (k, ' '.join(str(int(x * k)) for x in v)))
    return '%d %d\n%s\n' % (len(vs), len(vs[0]) + 1, '\n'.join(rows))


def cases():
    for name, rows, lin in bases():
        for kind, args, text, fn in rewrites(name, rows, lin):
            yield {'fam': kind, 'base': name, 'rows': [list(map(int, r)) for r in rows], 'lin': list(lin), 'args': args, 'text': text, 'file': fn}


def run_case(c):
    rows, lin = [tuple(r) for r in c['rows']], c['lin']
    kind = O.bounded_nonempty(rows, lin)
    if kind in ('unbounded', 'line?'):
        return ok('not a polytope', nontrivial=False, execs=0)
    exp = O.count_points(rows, lin)
    r = count_run(c['args'], c['text'], name=c['file'])
    k, v = count_value(r)
    if kind == 'empty' and k == 'empty':
        return ok('empty refused')
    if kind == 'empty' and (c['file'].endswith('.ine') or '+' in c['args']) and k == 'err' and r.rc == 1:
        return ok('empty refused')                # CDD files and `+' are not covered by the emptiness check
    if c['fam'] in ('vrep+inner', 'cdd-ext+inner') and r.rc == 1 and 'Redundant vertices' in r.err:
        return ok('redundant vertex refused')     # documented refusal of the LattE vertex format
    f = check_count(r, exp)
    if f is None and kind != 'empty' and k == 'empty' and exp:
        f = 'nonempty polytope reported empty'
    if f:
        return bad('%s: %s' % (c['fam'], f))
    return ok('%s count=%d' % (k, exp))


if __name__ == '__main__':
    C = explore.Check('C03', 'every (polytope, rewrite) pair; non-trivial: distinct file contents/arguments of a bounded polytope',
                      programs=['count'], assumptions=['oracle: Python enumeration on the original inequalities'])
    sys.exit(C.main(cases, run_case))
