"""C12: top-ehrhart-knapsack prints the coefficients of the quasi-polynomial t -> #{x >= 0 : alpha.x = t}."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools, re
from fractions import Fraction as Fr
from functools import lru_cache, reduce
from math import gcd
import explore
from explore import ok, bad, QUICK


def lists(n, A):
    for a in itertools.combinations_with_replacement(range(1, A + 1), n):
        if reduce(gcd, a) == 1:
            yield a


def cases():
    bound = {1: 1, 2: 12, 3: 8, 4: 5, 5: 3, 6: 2} if QUICK else {1: 1, 2: 24, 3: 12, 4: 8, 5: 5, 6: 4, 7: 2}
    for n, A in bound.items():
        for a in lists(n, A):
            for g in (0, 1):
                for k in {n} if n > 3 and QUICK else range(1, n + 1):
                    yield {'fam': 'all-k', 'a': list(a), 'o': ['--all-k', str(k), '--gcd-polynomial', str(g)], 'k': k}
    # one coefficient at a time, every order of the list, every seed
    for n, A in {2: 6, 3: 5, 4: 3, 5: 2}.items() if QUICK else {2: 12, 3: 8, 4: 5, 5: 3}.items():
        for a in lists(n, A):
            for k in range(1, n + 1):
                for g in (0, 1):
                    yield {'fam': 'k', 'a': list(a), 'o': ['-k', str(k), '--gcd-polynomial', str(g)], 'k': -k}
    for a in ((6, 10, 15), (2, 4, 3), (4, 6, 9), (12, 8, 9), (1, 6, 4), (2, 2, 3), (6, 6, 1), (10, 6, 5), (1, 2, 4, 8), (3, 6, 4, 2), (6, 10, 15, 30)):
        for p in sorted(set(itertools.permutations(a))) if len(a) < 4 or not QUICK else [a, a[::-1]]:
            yield {'fam': 'order', 'a': list(p), 'o': ['--all-k', str(len(a))], 'k': len(a)}
        for s in range(0, 6 if QUICK else 40):
            yield {'fam': 'seed', 'a': list(a), 'o': ['--all-k', str(len(a)), '--random', str(s)], 'k': len(a)}
    for a in ((101, 103), (64, 81), (1, 997), (30, 31, 32)[:2], (97, 1), (50, 27)):
        yield {'fam': 'large', 'a': list(a), 'o': ['--all-k', '2'], 'k': 2}
    for a in ((1, 2, 3, 4, 5), (1, 2, 3, 4, 6), (2, 3, 4, 6, 12), (1, 1, 2, 2, 4, 4), (6, 10, 15, 7), (5, 7, 11), (8, 9, 5), (2, 3, 5, 7)):
        for k in range(1, len(a) + 1):
            for g in (0, 1):
                yield {'fam': 'larger', 'a': list(a), 'o': ['--all-k', str(k), '--gcd-polynomial', str(g)], 'k': k}
    for a in ((2, 3), (1, 2, 3), (2, 3, 4)):
        for how in ('file', 'long', 'lines'):
            yield {'fam': 'invocation', 'a': list(a), 'o': ['--all-k', str(len(a))], 'k': len(a), 'how': how}


@lru_cache(maxsize=None)
def coefficients(a):
    """coefficients(a)[r] = polynomial (lowest degree first) that gives the denumerant at t = r mod lcm."""
    L = reduce(lambda x, y: x * y // gcd(x, y), a)
    n = len(a)
    w = [1] + [0] * (n * L)
    for x in a:
        for i in range(x, n * L + 1):
            w[i] += w[i - x]
    # Newton interpolation at t = r + L*j
    out = []
    for r in range(L):
        ys = [Fr(w[r + L * j]) for j in range(n)]
        for i in range(1, n):
            for j in range(n - 1, i - 1, -1):
                ys[j] = (ys[j] - ys[j - 1]) / (L * i)
        poly = [ys[-1]]
        for i in range(n - 2, -1, -1):
            x0 = r + L * i
            poly = [ys[i] - x0 * poly[0]] + [poly[e - 1] - (x0 * poly[e] if e < len(poly) else 0) for e in range(1, len(poly) + 1)]
        out.append(poly)
    return L, out


def evaluator(expr):
    s = re.sub(r'\d+', lambda m: 'Fr(%s)' % m.group(0), expr).replace('^', '**')
    code = compile(s, 'coefficient', 'eval')
    env = {'Fr': Fr, 'MOD': lambda x, m: Fr(x) - m * (Fr(x) // m)}

    def f(t):
        env['t'] = Fr(t)
        return eval(code, env)
    return f


CO = re.compile(r'^coeff(\d+)minus(\d+):= (.*);$', re.M)
POLY = re.compile(r'^topKPolynomial:=(.*);$', re.M)


def run_case(c):
    a = tuple(c['a'])
    n = len(a)
    how = c.get('how')
    args = (['--file', 'k'] if how == 'long' else ['-f', 'k']) + c['o'] + (['-o', 'out'] if how == 'file' else [])
    txt = '%d\n' % n + ('\n' if how == 'lines' else ' ').join(map(str, a)) + '\n'
    r = explore.run('top-ehrhart-knapsack', args, {'k': txt}, timeout=60)
    if r.rc != 0:
        return bad('top-ehrhart-knapsack fails on %s: %s' % (a, r.brief()))
    out = r.read('out') if how == 'file' else r.out
    got = {}
    for N, i, e in CO.findall(out or ''):
        if int(N) != n - 1 or int(i) in got:
            return bad('unexpected name coeff%sminus%s for %s' % (N, i, a))
        got[int(i)] = e
    k = c['k']
    want = range(k) if k > 0 else [-k - 1]
    if sorted(got) != list(want):
        return bad('coefficients %s printed, %s asked for' % (sorted(got), list(want)))
    L, true = coefficients(a)
    if k > 0:
        m = POLY.search(out)
        if not m or m.group(1).replace(' ', '') != '+'.join('(coeff%dminus%d)*T^(%d)' % (n - 1, i, n - 1 - i) for i in want):
            return bad('topKPolynomial is not the sum of the coefficients: %s' % (m and m.group(1)))
    for i in want:
        try:
            f = evaluator(got[i])
            for r_ in range(L):
                v = f(r_)
                if v != true[r_][n - 1 - i]:
                    return bad('%s: coefficient of T^%d at t = %d mod %d: %s, it is %s' % (a, n - 1 - i, r_, L, v, true[r_][n - 1 - i]))
        except SyntaxError:
            return bad('unreadable coefficient %s' % got[i][:300])
    return ok('%s k=%d' % (a, k), sum={'residues_checked': L * len(list(want))})


if __name__ == '__main__':
    C = explore.Check('C12', 'every list of coefficients with gcd 1 of the listed families x number of terms x gcd algorithm x seed; every printed '
                      'coefficient function is evaluated at every residue modulo the lcm', programs=['top-ehrhart-knapsack'],
                      assumptions=['oracle: denumerants by dynamic programming, interpolated exactly per residue class'])
    sys.exit(C.main(cases, run_case))
