"""C22: no outcome of a random choice changes an answer. The random choices of a run (rand()) are the branching points of
a choice tree; every path of it over a small alphabet of outcomes is executed, up to a depth."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import itertools, subprocess
import explore, families as F, oracle as O
from explore import ok, bad, QUICK

H = 1 << 29
SMALL = [0, 1, 2, 3]               # degenerate and clashing vectors
HEIGHT = [0, H, 2 * H, 3 * H + 1]  # equal, lowest and highest heights; even and odd
MIX = [0, 1, H, 2 * H + 1]
SQ = [list(r) for r in O.cube(2, 0, 1)]
TRI = [[3, -1, -1], [0, 1, 0], [0, 0, 1]]
CUBE = [list(r) for r in O.cube(3, 0, 1)]
PYR = [[0, 1, 0, 1], [0, -1, 0, 1], [0, 0, 1, 1], [0, 0, -1, 1], [1, 0, 0, -1]]      # z >= |x|, |y|, z <= 1
OCTA = [list(r) for r in F.cross(3, 1)]
FRAC = [[0, 2, 1], [0, -1, 2], [7, -1, -3]]
EQ = [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [4, -1, -2, -1]]
MOD = {}


def module(m):
    if m not in MOD:
        MOD[m] = __import__(m)
    return MOD[m]


def bases():
    """(name, check whose oracle decides, its case, alphabet, quick depth, thorough depth)."""
    def count(rows, lin, opts):
        return 'c02', {'fam': 'r', 'rows': rows, 'lin': lin, 'opts': opts}
    for o in ([], ['--irrational-primal'], ['--irrational-all-primal', '--maxdet=3'], ['--exponential'], ['--maxdet=5'], ['--homog'],
              ['--exponential', '--maxdet=7'], ['--exponential', '--irrational-primal']):
        yield ('count 2D %s' % o,) + count(TRI, [], o) + (SMALL, 4, 6)
        yield ('count rat %s' % o,) + count(FRAC, [], o) + (SMALL, 4, 6)
        yield ('count eq %s' % o,) + count(EQ, [3], o) + (SMALL, 4, 6)
        yield ('count cube %s' % o,) + count(CUBE, [], o) + (SMALL, 4, 6)
        yield ('count pyr %s' % o,) + count(PYR, [], o) + (HEIGHT, 4, 6)
        yield ('count octa %s' % o,) + count(OCTA, [], o) + (MIX, 4, 6)
    for t in ('cddlib', '4ti2', 'topcom', 'cdd', 'delone'):
        for o in ([], ['--irrational-all-primal'], ['--homog'], ['--exponential', '--irrational-all-primal', '--maxdet=4']):
            yield ('count %s %s' % (t, o),) + count(PYR, [], ['--triangulation=' + t] + o) + (HEIGHT, 4, 6)
    yield ('count biased',) + count(PYR, [], ['--triangulation=cddlib', '--triangulation-bias=50']) + (HEIGHT, 4, 6)
    yield ('count biased',) + count(PYR, [], ['--triangulation=4ti2', '--triangulation-bias=50']) + (HEIGHT, 4, 6)
    yield ('count low',) + count(PYR, [], ['--triangulation=cddlib', '--triangulation-max-height=2']) + (HEIGHT, 4, 6)
    yield ('count low',) + count(OCTA, [], ['--triangulation=4ti2', '--triangulation-max-height=2']) + (HEIGHT, 4, 6)
    for o in ([], ['--maxdet=100'], ['--irrational-primal']):
        yield 'polynomial %s' % o, 'c05', {'fam': 'r', 'rows': SQ, 'opts': o}, SMALL, 4, 6
        yield 'polynomial tri %s' % o, 'c05', {'fam': 'r', 'rows': TRI, 'opts': o}, SMALL, 4, 6
        yield 'polynomial pyr %s' % o, 'c05', {'fam': 'r', 'rows': PYR, 'opts': o}, HEIGHT, 4, 6
    for h in ('count-taylor', 'ehrhart-taylor', 'count-series'):
        for rows in (TRI, FRAC):
            yield h, 'c06', {'fam': h, 'poly': 'r', 'rows': rows, 'lin': []}, SMALL, 4, 6
    for v in (0, 4, 5, 6, 7):
        for nm, rows, alpha in (('tri', FRAC, SMALL), ('cube', CUBE, SMALL), ('pyr', PYR, MIX), ('octa', OCTA, HEIGHT)):
            yield 'volume %s %d' % (nm, v), 'c08', {'fam': 'r', 'rows': rows, 'v': v}, alpha, 4, 6
    for m in module('c09').METHODS:
        for nm, rows, alpha in (('tri', FRAC, SMALL), ('cube', CUBE, SMALL), ('octa', OCTA, HEIGHT)):
            d = len(rows[0]) - 1
            for p in ([[1, [2, 1, 0][:d]], [-3, [0, 1, 1][:d]]], [['1/2', [0] * d], [5, [1] * d]]):
                yield 'polynomial %s %s' % (nm, m), 'c09', {'fam': 'r', 'rows': rows, 'p': p, 'm': m}, alpha, 4, 6
    for m in module('c10').LF:
        for nm, rows, alpha in (('sq', SQ, SMALL), ('cube', CUBE, SMALL), ('octa', OCTA, SMALL), ('pyr', PYR, HEIGHT)):
            d = len(rows[0]) - 1
            for l in ([1] + [0] * (d - 1), [1, -1, 0][:d], [1] * d, [1, 2, 5][:d], [0] * (d - 1) + [-2]):
                yield 'forms %s %s' % (nm, m), 'c10', {'fam': 'r', 'rows': rows, 'l': [[1, 2, l], [3, 1, [1] + [0] * (d - 1)]], 'm': m}, alpha, 4, 6
    for i, (sense, o) in enumerate(module('c11').MODES[:6]):
        for nm, rows in (('tri', TRI), ('frac', FRAC), ('cube', CUBE)):
            for c in ([1, 2, -1], [0, 0, 1], [1, 1, 0]):
                yield '%s %s %s' % (sense, o, nm), 'c11', {'fam': 'r', 'rows': rows, 'lin': [], 'c': c[:len(rows[0]) - 1], 'm': i}, SMALL, 3 if o == ['bbs'] else 4, 6
    for a in ([1, 2], [2, 3, 5], [1, 2, 2, 4], [4, 6, 9], [1, 1, 1], [3, 4, 6, 12], [2, 4, 6, 3]):
        for g in ('0', '1'):
            yield 'knapsack %s' % a, 'c12', {'a': a, 'k': len(a), 'o': ['--all-k', str(len(a)), '--gcd-polynomial', g]}, SMALL, 4, 6
    for rays in ([(0, 0, 1), (2, 0, 1), (0, 3, 1), (2, 3, 1)], [(0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1), (2, 2, 1)]):
        for i in range(5):
            yield 'hilbert %d' % i, 'c20', {'fam': 'r', 'rays': rays, 'i': i}, HEIGHT, 3, 5


def cases():
    for b, (name, m, c, alpha, dq, dt) in enumerate(bases()):
        depth = dq if QUICK else dt
        pre = 2 if QUICK else 3
        for p in itertools.product(alpha, repeat=min(pre, depth)):
            yield {'fam': name.split()[0], 'c': c, 'by': m, 'first': list(p), 'depth': depth, 'alpha': alpha}


def path(c, script):
    f = '%s/%d.rand' % (explore.HOME, os.getpid())
    if os.path.exists(f):
        os.unlink(f)
    explore.ENV.update(LD_PRELOAD=explore.BIN['fakerand'], RAND_SCRIPT=','.join(map(str, script)), RAND_COUNT=f)
    try:
        res = module(c['by']).run_case(c['c'])
    finally:
        explore.ENV.clear()
    try:
        used = max(int(x) for x in open(f).read().split())
    except (OSError, ValueError):
        used = 64
    return res, used


def run_case(c):
    paths = execs = most = 0
    if 'script' in c:
        res, used = path(c, c['script'])
        return res
    script, n = list(c['first']), len(c['first'])
    alpha, depth = c['alpha'], c['depth']
    script += [alpha[0]] * (depth - n)
    while True:
        res, used = path(c, script)
        paths += 1
        execs += res['execs']
        most = max(most, used)
        if res['fail']:
            return bad('random choices %s: %s' % (script[:used], res['fail']), execs=execs, key=res.get('key'))
        if used < n and any(x != alpha[0] for x in script[used:n]):
            break      # the same path as with a smaller prefix
        # next path: change the last choice that was made and is not yet the last of the alphabet
        k = min(used, depth) - 1
        while k >= n and script[k] == alpha[-1]:
            k -= 1
        if k < n:
            break
        script[k:] = [alpha[alpha.index(script[k]) + 1]] + [alpha[0]] * (depth - k - 1)
    return ok('%s %d' % (c['fam'], paths), execs=execs, sum={'paths': paths, 'choices': most}, nontrivial=most > 0)


def build():
    d = explore.vbuild.BUILD
    os.makedirs(d, exist_ok=True)
    out = d + '/fakerand-%d.so' % os.getpid()
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', out, explore.vbuild.VERIF + '/harness/fakerand.c'], check=True)
    return out


if __name__ == '__main__':
    so = build()
    explore.BIN['fakerand'] = so
    ch = explore.Check('C22', 'every path of the tree of random choices of every listed run: each of the first d calls of rand() (d stated per run) takes '
                       'every value of an alphabet of four, later calls follow a fixed generator; every path must end with the exact answer',
                       programs=['count', 'ehrhart', 'integrate', 'latte-maximize', 'latte-minimize', 'top-ehrhart-knapsack', 'hilbert-from-rays'],
                       assumptions=['random choices are made by rand() (NTL\'s generator is used only for the approximate count)',
                                    'oracles: those of checks C02, C05, C06, C08 to C12, C20'])
    try:
        rc = ch.main(cases, run_case)
    finally:
        os.unlink(so)
    sys.exit(rc)
