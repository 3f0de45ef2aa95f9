"""C11: latte-maximize / latte-minimize find an optimal lattice point (or say there is none)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools, re, subprocess
import explore, families as F, oracle as O
from explore import ok, bad, QUICK

MODES = [('max', []), ('min', []), ('max', ['single']), ('min', ['single']), ('max', ['bbs']), ('min', ['bbs']),
         ('max', ['lrs']), ('max', ['file'])]


def polys2():
    yield from ((n, r, ()) for n, r in [('tri', [(3, -1, -1), (0, 1, 0), (0, 0, 1)]), ('sq', O.cube(2, -1, 2)), ('sq neg', O.cube(2, -5, -3))])
    for r in F.triangles(1 if QUICK else 2, (0, 1, 3)):
        yield 'triangle', r, ()
    for a in itertools.product((-3, -2, -1, 1, 2, 3), repeat=2):
        for b in (-1, 0, 1, 2, 5):
            yield 'cut2', O.cube(2, -1, 2) + [(b,) + a], ()
    for a in itertools.product((-2, -1, 1, 2, 3), repeat=2):
        for b in (-3, -2, -1, 0, 1, 2, 3, 4):
            yield 'eq2', O.cube(2, 0, 3) + [(b,) + a], (4,)
            if b % 2:
                yield 'eq2 neg', O.cube(2, -3, 1) + [(b,) + a], (4,)
    for a in itertools.combinations_with_replacement((2, 3, 5, 7), 2):
        for b in (7, 11, 23):
            yield 'knap', [(0, 1, 0), (0, 0, 1), (b, -a[0], -a[1])], ()


def polys3():
    for a in itertools.product((-1, 0, 1, 2), repeat=3):
        for b in (0, 1, 2):
            if any(a):
                yield 'cut3', O.cube(3, 0, 1) + [(b,) + a], ()
    for a in itertools.combinations_with_replacement((1, 2, 3, 5), 3):
        for b in (4, 7):
            yield 'knap3', O.orthant(3) + [(b,) + tuple(-x for x in a)], ()
            yield 'eq3', O.orthant(3) + [(b,) + tuple(-x for x in a)], (3,)
    yield 'octa', F.cross(3, 2), ()
    for r in itertools.islice(F.pyramids(), 0, None, 5):
        yield 'pyr', r, ()


def cases():
    cs2 = [c for c in itertools.product((-2, -1, 0, 1, 3), repeat=2)]
    for fam, r, lin in polys2():
        for c in (cs2 if fam in ('tri', 'sq', 'sq neg') or not QUICK else [(1, 1), (2, -1), (0, -1)]):
            for i in range(len(MODES) if fam in ('tri', 'sq', 'sq neg') or not QUICK else 2):
                yield {'fam': fam, 'rows': [list(x) for x in r], 'lin': list(lin), 'c': list(c), 'm': i}
    for fam, r, lin in polys3():
        for c in [(1, 2, -1), (0, 0, 1)] if QUICK else itertools.product((-1, 0, 1, 2), repeat=3):
            for i in range(4):
                yield {'fam': fam, 'rows': [list(x) for x in r], 'lin': list(lin), 'c': list(c), 'm': i}
    # the same system written differently
    for fam, r, lin in polys2():
        if fam in ('tri', 'sq', 'sq neg') or not QUICK:
            for c in [(1, 2), (-1, 1)]:
                for i in range(4):
                    for how in WRITE:
                        yield {'fam': 'written', 'rows': [list(x) for x in r], 'lin': list(lin), 'c': list(c), 'm': i, 'how': how}
    for fam, r, lin in polys3():
        for i in range(2):
            for how in WRITE:
                yield {'fam': 'written', 'rows': [list(x) for x in r], 'lin': list(lin), 'c': [1, 2, -1], 'm': i, 'how': how}
    yield {'fam': 'written', 'rows': [list(x) for x in O.cube(2, 0, 2)] + [[2, -1, -1]], 'lin': [4], 'c': [1, 2], 'm': 0, 'how': 'cdd', 'hang': 1}
    # every objective on the boxes with a cut, by binary search (it needs the sibling program count)
    for a in itertools.product((-2, 1, 3), repeat=2):
        for b in (-1, 1, 4):
            for c in itertools.product((-2, 0, 1), repeat=2):
                for i in (4, 5):
                    yield {'fam': 'bbs', 'rows': [list(x) for x in O.cube(2, -1, 2) + [(b,) + a]], 'lin': [], 'c': list(c), 'm': i}
    for gen in (polys2, polys3):
        for i, (fam, r, lin) in enumerate(gen()):
            for c in [(1, 3, 2), (-2, 1, 0), (0, 1, -1)][:1 if QUICK else 3] + ([(2, -3, 5)] if i % 7 == 0 else []):
                for m in (4, 5) if not QUICK else (4 + i % 2,):
                    yield {'fam': 'bbs ' + fam, 'rows': [list(x) for x in r], 'lin': list(lin), 'c': list(c[:len(r[0]) - 1]), 'm': m}
    # fractional optima whose binary approximations lie on the wrong side of an integer
    for den in (3, 7, 11, 13):
        for a in range(-2 * den + 1, 1, 3):
            for b in range(den + 1, 3 * den, 4):
                if a % den and b % den and (den in (3, 7) or not QUICK):
                    for m in (4, 5):
                        yield {'fam': 'bbs slab', 'rows': [[-a, den, 0], [b, -den, 0], [-1, 1, 3], [3, -2, -6]], 'lin': [], 'c': [1, 3], 'm': m}


def nonneg_split(rows, lin):
    """(rows without sign rows, lin, variables with sign rows) or None."""
    d = len(rows[0]) - 1
    sign = {tuple([0] + [int(j == i) for j in range(d)]): i + 1 for i in range(d)}
    keep = [i for i, r in enumerate(rows) if tuple(r) not in sign or i in lin]
    nn = sorted({sign[tuple(r)] for i, r in enumerate(rows) if i not in keep})
    if not nn or not keep:
        return None
    return [rows[i] for i in keep], [keep.index(i) for i in lin], nn


def w_nonneg(rows, lin, first):
    s = nonneg_split(rows, lin)
    if s is None:
        return None, []
    r, l, nn = s
    a = 'linearity %d %s\n' % (len(l), ' '.join(str(i + 1) for i in l)) if l else ''
    b = 'nonnegative %d %s\n' % (len(nn), ' '.join(map(str, nn)))
    return O.latte(r) + (b + a if first else a + b), []


def w_plus(rows, lin):
    s = nonneg_split(rows, lin)
    if s is None or len(s[2]) < len(rows[0]) - 1:
        return None, []
    return O.latte(s[0], s[1]), ['+']


WRITE = {'linearity, nonnegative': lambda r, l: w_nonneg(r, l, False),
         'nonnegative, linearity': lambda r, l: w_nonneg(r, l, True),
         'cdd': lambda r, l: (O.cdd_h(r, l).replace('rational', 'integer'), ['cdd']),
         '+': w_plus,
         'one line': lambda r, l: (O.latte(r, l).replace('\n', ' ') + '\n', []),
         'spread': lambda r, l: (O.latte(r, l).replace(' ', '\n\n  '), [])}


def subprocess_run(prog, args, files):
    """One plain run with a hard limit, for the one listed input that never ends."""
    d = explore.scratch()
    for n, t in files.items():
        open(d + '/' + n, 'w').write(t)
    try:
        return subprocess.run([explore.BIN.get(prog, prog)] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL, timeout=10)
    except subprocess.TimeoutExpired:
        return None


SOL = re.compile(r'An optimal solution for \[([-\d ]*)\] is: \[([-\d ]*)\]\.')
LPV = re.compile(r'The LP optimal value is: (\S+)')
LPX = re.compile(r'A vertex which we found via LP is: \[([^\]]*)\]')
VAL = re.compile(r'The optimal value is: (-?\d+)\.')
NOPT = re.compile(r'The optimal value: -?\d+\s+(\d+)\s+Time')
BBS = re.compile(r'The optimal value: (-?\d+)')


def run_case(c):
    rows, lin, cost = [tuple(r) for r in c['rows']], c['lin'], c['c']
    kind = O.bounded_nonempty(rows, lin)
    if kind not in ('bounded', 'empty'):
        return ok('unbounded', nontrivial=False, execs=0)
    pts = O.lattice_points(rows, lin) if kind == 'bounded' else []
    sense, opts = MODES[c['m']]
    if kind == 'bounded' and O.affine_dim(O.vertices(rows, lin)) == 0:
        return ok('a point: the programs only count it', nontrivial=False, execs=0)
    if opts == ['single'] and not pts:
        return ok('the single-cone method needs a lattice point', nontrivial=False, execs=0)
    dot = [sum(a * b for a, b in zip(cost, p)) for p in pts]
    exp = (max(dot) if sense == 'max' else min(dot)) if pts else None
    prog = 'latte-maximize' if sense == 'max' else 'latte-minimize'
    text, more = WRITE[c['how']](rows, lin) if 'how' in c else (O.latte(rows, lin), [])
    if text is None:
        return ok('cannot be written so', nontrivial=False, execs=0)
    if 'cdd' in more and lin and not c.get('hang'):
        return ok('known: the old cdd reader hangs on linearity', nontrivial=False, execs=0)
    if 'cdd' in more and not c.get('hang') and (kind == 'empty' or O.affine_dim(O.vertices(rows, lin)) < len(cost)):
        return ok('the old cdd reader takes full-dimensional polytopes only', nontrivial=False, execs=0)
    if c.get('hang'):
        r = subprocess_run(prog, opts + more + ['in'], {'in': text, 'in.cost': '1 %d\n%s\n' % (len(cost), ' '.join(map(str, cost)))})
        if r is None:
            return bad('%s cdd: no answer for a cdd file with a linearity line (endless loop)' % prog, key='cdd-linearity')
        return ok('ends')
    r = explore.run(prog, opts + more + ['in'], {'in': text, 'in.cost': '1 %d\n%s\n' % (len(cost), ' '.join(map(str, cost)))})
    txt = r.out + r.err
    what = '%s %s' % (prog, ' '.join(opts))
    v = (BBS if opts == ['bbs'] else VAL).findall(txt)
    if exp is None:
        if v:
            return bad('%s: reports the value %s, but there is no lattice point' % (what, v))
        return ok('infeasible rc=%d' % r.rc)
    if r.rc == 1 and not v and 'Please start IP without a single cone method' in txt:
        return ok('refused')
    if r.rc != 0 or len(v) != 1:
        return bad('%s: no answer, optimum is %s: %s' % (what, exp, r.brief()))
    if int(v[0]) != exp:
        return bad('%s: reports the optimal value %s, it is %s' % (what, v[0], exp))
    if opts == ['bbs']:
        n = NOPT.findall(txt)
        if [int(x) for x in n] != [dot.count(exp)]:
            return bad('%s: reports %s optimal solutions, there are %d' % (what, n, dot.count(exp)))
    if opts != ['bbs']:
        s = SOL.findall(txt)
        x = tuple(int(y) for y in s[-1][1].split()) if s else None
        if x is None or x not in set(map(tuple, pts)) or sum(a * b for a, b in zip(cost, x)) != exp:
            return bad('%s: the reported solution %s is not a lattice point of value %s' % (what, x, exp))
        # the linear relaxation, printed on the way with ten digits
        vs = O.vertices(rows, lin)
        lp = (max if sense == 'max' else min)(sum(a * b for a, b in zip(cost, p)) for p in vs)
        L = LPV.findall(txt)
        x = LPX.findall(txt)
        if len(L) != 1 or len(x) != 1:
            return bad('%s: %d LP values and %d LP vertices reported' % (what, len(L), len(x)))
        x = [float(t) for t in x[0].split()]
        tol = 1e-6 * (1 + max(map(abs, x)) * sum(map(abs, cost)))
        if abs(float(L[0]) - float(lp)) > tol:
            return bad('%s: reports the LP optimal value %s, it is %s' % (what, L[0], lp))
        if not any(all(abs(float(a) - b) < 1e-6 * (1 + abs(b)) for a, b in zip(p, x)) and sum(a * b for a, b in zip(cost, p)) == lp for p in vs):
            return bad('%s: reports the LP vertex %s, which is no optimal vertex' % (what, x))
    return ok('opt %s' % exp)


if __name__ == '__main__':
    C = explore.Check('C11', 'every (polytope, cost vector, algorithm) of the listed families; non-trivial: a bounded polytope',
                      programs=['latte-maximize', 'latte-minimize', 'count'],
                      assumptions=['oracle: enumeration of all lattice points'])
    sys.exit(C.main(cases, run_case))
