"""C21: the kernel: every decomposition of a cone has the generating function of the cone."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re
import explore
from explore import ok, bad, QUICK

#          d  lo  hi  slices step all
QFAM = [(1, -1, 1, 1, 1, 1), (2, -3, 3, 4, 1, 1), (2, -9, 9, 12, 1, 0), (2, -40, 40, 12, 401, 0), (3, -1, 1, 8, 1, 0), (3, -2, 2, 24, 11, 0), (3, -4, 4, 24, 2003, 0),
        (3, -9, 9, 16, 2300021, 0), (4, -1, 1, 24, 67, 0), (4, -2, 2, 24, 900001, 0), (5, -1, 1, 16, 3000017, 0)]
TFAM = [(1, -1, 1, 1, 1, 1), (2, -12, 12, 32, 1, 1), (2, -90, 90, 32, 501, 1), (3, -2, 2, 96, 1, 1), (3, -4, 4, 64, 301, 1), (3, -9, 9, 64, 300007, 1),
        (4, -1, 1, 96, 11, 1), (4, -2, 2, 96, 200003, 1), (5, -1, 1, 64, 300007, 1), (5, 0, 2, 64, 40000003, 0), (4, -4, 4, 64, 600000007, 1)]


def cases():
    for f in QFAM if QUICK else TFAM:
        for s in range(f[3]):
            yield {'fam': 'd=%d %d..%d' % f[:3], 'f': list(f), 's': s}


def run_case(c):
    if 'one' in c:
        args = c['one']
    else:
        d, lo, hi, n, step, al = c['f']
        args = [d, lo, hi, c['s'], n, step, al]
    r = explore.run('kernel', [str(a) for a in args], timeout=300)
    m = re.search(r'cones (\d+) runs (\d+) pieces (\d+)', r.out)
    b = re.search(r'BAD (.*)', r.out)
    if b:
        return bad('%s (index limit after the mode: 0 dual, 1 irrational primal, 2 all primal)' % b.group(1)[:600])
    if r.rc != 0 or (not m and 'one' not in c):
        return bad('the slice ends with: %s %s' % (r.brief(), r.out[-300:]))
    if not m:
        return ok()
    return ok('cones', int(m.group(1)) > 0, execs=int(m.group(2)),
              sum={'distinct_nontrivial': int(m.group(1)), 'evaluations': int(m.group(2)), 'pieces': int(m.group(3))})


if __name__ == '__main__':
    ch = explore.Check('C21', 'every cone of the family (all d-subsets of primitive vectors in a box, or every step-th of them in order): exact equality of generating functions at a point',
                       chunk=1, harnesses=[('kernel', ['harness/kernel.cpp'], [])],
                       assumptions=['the identity of rational functions is decided by exact evaluation at the point (2, 3, 5, 7, 11)'])
    sys.exit(ch.main(cases, run_case))
