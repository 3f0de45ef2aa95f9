"""C04: no algorithmic option changes the number `count` reports."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
import explore, families as F, oracle as O
from explore import ok, bad, QUICK
from latterun import count_run, count_value, stdout_value

GROUPS = [
    ['', '--irrational-primal', '--irrational-all-primal', '--dual'],
    ['', '--exponential', '--polynomial'],
    ['', '--maxdet=1', '--maxdet=2', '--maxdet=4', '--maxdet=10', '--maxdet=1000', '--no-decomposition'],
    ['', '--triangulation=cddlib', '--triangulation=delone', '--triangulation=topcom', '--triangulation=4ti2',
     '--nonsimplicial-subdivision', '--triangulation=cdd'],
    ['', '--dualization=4ti2', '--dualization=cdd'],
    ['', '--compute-vertex-cones=lrs', '--compute-vertex-cones=4ti2', '--compute-vertex-cones=cdd'],
    ['', '--redundancy-check=none', '--redundancy-check=full-cddlib', '--redundancy-check=cddlib'],
    ['', '--homog'],
    ['', '--smith-form=ilio'],
    ['', '--triangulation-max-height=3', '--triangulation-max-height=100', '--triangulation-bias=2'],
    ['', 'memsave', 'printcones'],
    ['', '--random-seed=7'],
]
POLY = {
    'triangle': [(0, 1, 0), (0, 0, 1), (7, -2, -3)],
    'rational square': [(3, 2, 0), (5, -2, 0), (1, 0, 3), (7, 0, -3)],
    'empty of points': [(-1, 3, 0), (2, -3, 0), (-1, 0, 3), (2, 0, -3)],
    'cross3': F.cross(3, 2),
    'pyramid': list(F.pyramids())[4],
    'cut cube3': O.cube(3, 0, 2) + [(4, -2, 1, -3)],
    'knap4': O.orthant(4) + [(8, -1, -2, -3, -5)],
    'pyramid4': [(0, 0, 0, 0, 1)] + [(2 if sg < 0 else 0,) + tuple(sg if j == i else 0 for j in range(3)) + (0 if sg > 0 else -1,)
                                      for i in range(3) for sg in (1, -1)],
    'tetra': [(0, 0, 0, 1), (0, 7, 0, -3), (0, 0, 5, -1), (35, -7, -5, -2)],
    'lens': [(0, -3, 11), (0, 11, -3), (40, -1, -1)],
    'segment': [(5, 3), (11, -4)],
    'far': [(-10**12, 1, 0), (-10**12, 0, 1), (2 * 10**12 + 9, -1, -1)],
    'prism5': [(0, 1, 0, 0, 0, 0), (0, 0, 1, 0, 0, 0), (3, -1, -2, 0, 0, 0)] + [
        (0, 0, 0, 1, 0, 0), (0, 0, 0, 0, 1, 0), (0, 0, 0, 0, 0, 1), (3, 0, 0, -1, -1, -2)],
    'eq3': [(0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (11, -1, -2, -3)],
    'eq4': O.orthant(4) + [(6, -1, -1, -1, -1), (1, 1, -1, 2, -2)],
    'octagonal cone': [(0, 1, 2, 0)] + [(6, a, b, -1 * c) for a, b, c in
                                       [(1, 1, 2), (1, -1, 2), (-1, 1, 2), (-1, -1, 2), (2, 0, 2), (0, 2, 2),
                                        (-2, 0, 2), (0, -2, 2)]] + [(1, 0, 0, 1)],
}
LIN = {'eq3': [3], 'eq4': [4, 5]}
# larger ones, with the options of the decomposition only: high dimension, cones of large index, many cones
LARGE = {
    'simplex8': ((1,) * 8, 3), 'simplex13': ((1,) * 13, 2), 'simplex14': ((1,) * 14, 3), 'simplex17': ((1,) * 17, 2),
    'simplex21': ((1,) * 21, 2), 'knap5 many': ((2003, 3001, 40009, 50021, 7001), 60001), 'knap12': ((2,) + (1,) * 11, 3),
    'index 70003': ((70001, 1), 70003), 'index 10^5': ((100003, 7), 200009), 'knap6 many': ((101, 211, 307, 401, 503, 601), 6001),
}
EXP = {}


def expected(name):
    if name in LARGE:
        EXP.setdefault(name, F.corner_count(*LARGE[name]))
    if name not in EXP:
        if name == 'far':
            EXP[name] = 55
        else:
            rows = POLY[name]
            if O.bounded_nonempty(rows, LIN.get(name, ())) != 'bounded':
                raise ValueError('not bounded: ' + name)
            EXP[name] = O.count_points(rows, LIN.get(name, ()))
    return EXP[name]


def combos():
    yield ()
    n = len(GROUPS)
    seen = set()
    for i in range(n):
        for a in GROUPS[i][1:]:
            yield (a,)
    for i, j in itertools.combinations(range(n), 2):
        for a in GROUPS[i][1:]:
            for b in GROUPS[j][1:]:
                seen.add((a, b))
                yield (a, b)
    # complete product of the groups that interact in the decomposition
    core = GROUPS[0][:3], GROUPS[1][:2], GROUPS[2], GROUPS[3][:7] if not QUICK else GROUPS[3][:3]
    for c in itertools.product(*core):
        c = tuple(x for x in c if x)
        if len(c) > 2:
            yield c
    if not QUICK:
        for c in itertools.product(GROUPS[0][:3], GROUPS[1][:2], GROUPS[2][:3] + GROUPS[2][-1:], GROUPS[4][:2], GROUPS[5][:3],
                                   GROUPS[6][:3], GROUPS[7]):
            c = tuple(x for x in c if x)
            if len(c) > 2:
                yield c


BOUNDARY = ['triangle', 'rational square', 'cross3', 'pyramid', 'knap4', 'tetra', 'lens', 'far', 'eq3', 'eq4', 'prism5']


def cases():
    # the experimental subspace-avoiding triangulation (its search does not end on every polytope)
    for name in BOUNDARY:
        for o in ([], ['--irrational-primal'], ['--irrational-all-primal'], ['--homog']):
            yield {'fam': name, 'opts': ['--triangulation=boundary'] + o}
    for c in combos():
        for name in POLY:
            yield {'fam': name, 'opts': list(c)}
    maxdet = ['', '--maxdet=2', '--maxdet=1000']
    for name in LARGE:
        index = name.startswith('index')
        for c in itertools.product(GROUPS[0][:3], GROUPS[1], GROUPS[2][1:] if index else maxdet, GROUPS[5] if name.startswith('simplex') else ['']):
            if name.endswith('many') and '--polynomial' in c:
                continue
            yield {'fam': name, 'opts': [x for x in c if x]}


def run_case(c):
    name = c['fam']
    exp = expected(name)
    rows = F.corner_rows(*LARGE[name]) if name in LARGE else POLY[name]
    r = count_run(c['opts'], O.latte(rows, LIN.get(name, ())))
    k, v = count_value(r)
    if r.timed_out:
        return bad('%s %s: does not terminate' % (name, c['opts']))
    if r.rc == 0:
        if k != 'n':
            return bad('%s %s: exit 0 without an answer' % (name, c['opts']))
        s = stdout_value(r)
        if v != exp or (s is not None and s != exp):
            return bad('%s %s: %s (stdout %s), the polytope has %d points' % (name, c['opts'], v, s, exp))
        return ok('%s=%d' % (name, v))
    # a refusal: must be a non-zero exit without the false claim of emptiness, and only for
    # combinations that the program documents as unsupported
    return bad('%s %s: refused: %s' % (name, c['opts'], r.brief())) if not excused(c['opts'], name, r) else \
        ok('refused rc=%s' % r.rc, nontrivial=False)


def excused(o, name, r):
    """Combinations which the program states (by message or assertion) not to support: the homogenised cone
    takes only unimodular dual decomposition with polynomial substitution; too few lifting heights make the
    subdivision non-simplicial, which the decomposition rejects."""
    if '--homog' in o and any(x in o for x in ('--irrational-primal', '--irrational-all-primal', '--exponential')
                              + tuple(GROUPS[2][2:])):
        return r.rc in (1, -6)
    if any(x.startswith(('--triangulation-max-height', '--triangulation-bias', '--nonsimplicial')) for x in o):
        return r.rc == -6 and 'num_rays == Parameters->Number_of_Variables' in r.err
    return False


if __name__ == '__main__':
    C = explore.Check('C04', 'every option value, every pair of option values, and the product of the decomposition groups, '
                      'on every listed polytope; non-trivial: an answer was delivered (distinct combinations)',
                      programs=['count'], assumptions=['refusals with a non-zero exit are allowed only for the option '
                                                       'combinations listed in checks/c04.py'])
    sys.exit(C.main(cases, run_case))
