"""C15: malformed, empty-by-mistake or unbounded input is never answered with a number."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools, re
from fractions import Fraction as Fr
import explore
from explore import ok, bad, QUICK
import oracle as O

BASE = {
    'tri': '3 3\n0 1 0\n0 0 1\n2 -1 -1\n',
    'seg': '3 3\n0 1 0\n0 0 1\n2 -1 -1\nlinearity 1 3\n',
    'nn': '1 3\n2 -1 -1\nnonnegative 2 1 2\n',
    'both': '2 4\n3 -1 -1 -1\n2 -1 -1 0\nlinearity 1 1\nnonnegative 3 1 2 3\n',
    'square': '4 3\n0 1 0\n0 0 1\n1 -1 0\n1 0 -1\n',
}
VREP = {'tri': '3 3\n1 0 0\n1 2 0\n1 0 2\n', 'tet': '4 4\n1 0 0 0\n1 1 0 0\n1 0 1 0\n1 0 0 1\n'}
CDD = {'tri': 'H-representation\nbegin\n3 3 integer\n0 1 0\n0 0 1\n2 -1 -1\nend\n'}
JUNK = ['x', '1.5', '1x', '--1', '1/', '/2', '-', '+', '1e2', '0x1', 'NaN', '1,']
UNBOUNDED = {
    'ray': ['1 2\n0 1\n'], 'halfplane': ['1 3\n0 1 0\n'], 'quadrant': ['2 3\n0 1 0\n0 0 1\n', '0 3\nnonnegative 2 1 2\n'],
    'strip': ['2 3\n0 1 0\n1 -1 0\n', '3 3\n0 1 0\n1 -1 0\n0 0 1\n'], 'line': ['1 3\n1 -1 -1\nlinearity 1 1\n'],
    'cone3': ['3 4\n0 1 0 0\n0 0 1 0\n0 -1 -1 2\n'], 'eqray': ['3 3\n0 1 -1\n0 1 0\n0 0 1\nlinearity 1 1\n'],
    'wedge': ['2 3\n1 1 2\n1 2 1\n'],
}

def valid_number(t):
    m = re.fullmatch(r'[+-]?\d+(/\d+)?', t)
    return bool(m) and not (m.group(1) and int(m.group(1)[1:]) == 0)


def malformed(text, vrep=False):
    """True when the file does not follow the documented LattE format (a false 'False' only skips the case)."""
    tok = text.split()
    try:
        m, n = int(tok[0]), int(tok[1])
    except (ValueError, IndexError):
        return True
    if m < 0 or n < 1:
        return True
    body = tok[2:2 + m * n]
    if len(body) < m * n or not all(valid_number(t) for t in body):
        return True
    i, nn = 2 + m * n, 0
    while i < len(tok):
        if tok[i] == 'linearity' or (tok[i] == 'nonnegative' and not vrep):
            try:
                k = int(tok[i + 1])
                idx = [int(t) for t in tok[i + 2:i + 2 + k]]
            except (ValueError, IndexError):
                return True
            if k < 0 or len(idx) < k or any(not 1 <= x <= (m + nn if tok[i] == 'linearity' else n - 1) for x in idx):
                return True
            nn += k if tok[i] == 'nonnegative' else 0
            i += 2 + k
        else:
            return True
    return False


def mutations(text):
    tok = re.findall(r'\S+|\n', text)
    pos = [i for i, t in enumerate(tok) if t != '\n']

    def join(ts):
        return re.sub(r' ?\n ?', '\n', ' '.join(ts))
    for k in range(len(text)):                    # every byte truncation
        yield 'truncated', text[:k]
    for i in pos:
        yield 'deleted', join(tok[:i] + tok[i + 1:])
        yield 'doubled', join(tok[:i + 1] + tok[i:])
        for j in JUNK + ['0', '-1', '9', '4', '1/0']:
            yield 'replaced', join(tok[:i] + [j] + tok[i + 1:])
    for t in ('x', '1', 'linearity', 'nonnegative', 'linearity 1', 'linearity 1 9', 'linearity 1 0', 'linearity 1 -1', 'nonnegative 1 9',
              'nonnegative 1 0', 'nonnegative 1 -1', 'linearity x', 'linearity 2 1', 'equality 1 1', 'nonnegative 1', 'end', '#'):
        yield 'appended', text + t + '\n'


def cases():
    for n, t in BASE.items():
        for kind, m in mutations(t):
            if malformed(m):
                yield {'fam': 'count', 'k': kind, 't': m, 'p': 'count', 'a': ['in']}
                if n in ('seg', 'tri', 'both') and kind != 'doubled':
                    yield {'fam': 'integrate', 'k': kind, 't': m, 'p': 'integrate', 'a': ['--valuation=volume', 'in']}
                if n in ('seg', 'nn') and kind != 'doubled':
                    yield {'fam': 'latte2ine', 'k': kind, 't': m, 'p': 'latte2ine', 'a': [], 'stdin': 1}
                    for o in ('--ehrhart-polynomial', '--redundancy-check=none', '--redundancy-check=cddlib', '--maxdet=10', '--multivariate-generating-function'):
                        yield {'fam': 'count ' + o, 'k': kind, 't': m, 'p': 'count', 'a': [o, 'in']}
    for n, t in VREP.items():
        for kind, m in mutations(t):
            if malformed(m, True):
                yield {'fam': 'count vrep', 'k': kind, 't': m, 'p': 'count', 'a': ['--vrep', 'in']}
                yield {'fam': 'integrate vrep', 'k': kind, 't': m, 'p': 'integrate', 'a': ['--valuation=volume', '--vrep', 'in']}
    for n, ts in UNBOUNDED.items():
        for t in ts:
            for o in ([], ['--maxdet=5'], ['--irrational-primal'], ['--redundancy-check=none'], ['--redundancy-check=cddlib'], ['--exponential'],
                      ['--ehrhart-polynomial'], ['--ehrhart-series'], ['--simplified-ehrhart-polynomial'][:0] or ['--ehrhart-taylor=3'], ['--homog'],
                      ['--dualization=4ti2'], ['--compute-vertex-cones=4ti2'], ['--count-lattice-points'][:0] or ['--irrational-all-primal'], ['--cdd'][:0] or ['--all-primal']):
                yield {'fam': 'unbounded count', 't': t, 'p': 'count', 'a': o + ['in']}
            for o in (['--valuation=volume'], ['--valuation=volume', '--triangulate'], ['--valuation=volume', '--cone-decompose']):
                yield {'fam': 'unbounded integrate', 't': t, 'p': 'integrate', 'a': o + ['in']}
            for p in ('latte-maximize', 'latte-minimize'):
                d = int(t.split()[1]) - 1
                yield {'fam': 'unbounded opt', 't': t, 'p': p, 'a': ['in'], 'f': {'in.cost': '1 %d\n%s\n' % (d, ' '.join(['1'] * d))}}
    # every system of two or three small rows in dimension 2 that is nonempty, pointed and unbounded
    R = [(b, x, y) for b in (0, 1) for x, y in itertools.product((-1, 0, 1), repeat=2) if x or y]
    for k in (2, 3):
        for rows in itertools.combinations(R, k):
            if O.bounded_nonempty(rows) == 'unbounded' and any(a[1] * b[2] != a[2] * b[1] for a in rows for b in rows):
                t = O.latte(rows)
                for o in ([], ['--homog'], ['--ehrhart-series'], ['--irrational-primal', '--maxdet=5'], ['--compute-vertex-cones=4ti2']) if k == 2 or rows[0][0] + rows[1][0] == 0 or not QUICK else ([], ['--homog']):
                    yield {'fam': 'unbounded count2', 't': t, 'p': 'count', 'a': o + ['in']}
                for o in (['--triangulate'], ['--cone-decompose']):
                    yield {'fam': 'unbounded integrate2', 't': t, 'p': 'integrate', 'a': ['--valuation=volume'] + o + ['in']}
                if k == 2 or not QUICK:
                    for p in ('latte-maximize', 'latte-minimize'):
                        yield {'fam': 'unbounded opt', 't': t, 'p': p, 'a': ['in'], 'f': {'in.cost': '1 2\n1 1\n'}}
                    yield {'fam': 'unbounded ehrhart', 't': t, 'p': 'ehrhart', 'a': ['2', 'in']}
    for p in ('count', 'integrate', 'latte-maximize', 'latte-minimize', 'ehrhart', 'ehrhart3', 'top-ehrhart-knapsack'):
        for a in ([], ['--no-such-option', 'in'], ['nosuchfile'], ['--no-such-option'], ['in', 'extra', 'in'], ['--maxdet', 'in'], ['--valuation=nothing', 'in'],
                  ['--triangulation=nothing', 'in'], ['--vrep', 'nosuchfile'], ['--redundancy-check=nothing', 'in'], ['--dualization=nothing', 'in'],
                  ['--compute-vertex-cones=nothing', 'in'], ['--smith-form=nothing', 'in'], ['--valuation=volume', 'nosuchfile'],
                  ['--valuation=integrate', '--monomials=nosuchfile', 'in']):
            yield {'fam': 'options', 't': BASE['tri'], 'p': p, 'a': a}


ANSWER = re.compile(r'Answer: *\S|The optimal value|coeff\d+minus|^\s*-?\d+\s*$|number of lattice points[^\n]*: *-?\d', re.M | re.I)


def run_case(c):
    f = dict(c.get('f') or {})
    f['in'] = c['t']
    r = explore.run(c['p'], c['a'], f, stdin=c['t'] if c.get('stdin') else None, timeout=20)
    if r.timed_out:
        return bad('%s %s does not end on %r' % (c['p'], c['a'], c['t']))
    if r.rc == 0:
        return bad('%s %s exits 0 on %r %s: %s' % (c['p'], c['a'], c['t'], f, (r.out or r.err)[-200:]))
    v = r.read('numOfLatticePoints')
    if v is not None and v.strip() not in ('', '0'):
        return bad('%s %s: an answer %s in numOfLatticePoints on %r' % (c['p'], c['a'], v, c['t']))
    m = ANSWER.search(r.out) if c['p'] != 'latte2ine' else None
    if m:
        return bad('%s %s prints an answer %s on %r' % (c['p'], c['a'], m.group(0), c['t']))
    return ok('refused %d' % r.rc)


if __name__ == '__main__':
    C = explore.Check('C15', 'every byte truncation, token deletion, duplication and replacement of the base files that is malformed, every listed unbounded '
                      'polyhedron x program x options',
                      programs=['count', 'integrate', 'latte-maximize', 'latte-minimize', 'ehrhart', 'ehrhart3', 'top-ehrhart-knapsack', 'latte2ine'])
    sys.exit(C.main(cases, run_case))
