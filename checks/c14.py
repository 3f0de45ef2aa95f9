"""C14: no out-of-bounds access, use after free or undefined arithmetic in any run of the enumerated families
(AddressSanitizer and UndefinedBehaviorSanitizer as monitors on every execution)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import itertools
import explore
from explore import ok, bad, QUICK

# check -> every how many-th case of its families is run under the monitors
EVERY = {'c01': 12, 'c02': 8, 'c03': 12, 'c04': 5, 'c05': 10, 'c06': 10, 'c07': 8, 'c08': 12, 'c09': 6, 'c10': 6, 'c11': 6, 'c12': 3, 'c13': 10, 'c15': 8, 'c18': 8, 'c19': 30, 'c20': 12}
PROGRAMS = ['count', 'ehrhart', 'ehrhart3', 'integrate', 'latte-maximize', 'latte-minimize', 'top-ehrhart-knapsack', 'latte2ine', 'latte2ext',
            'ConvertCDDineToLatte', 'triangulate', 'polyhedron-to-cones', 'hilbert-from-rays']
HARN = [('session', ['harness/session.cpp'], [])]
VGN = 40 if QUICK else 10   # every VGN-th of these also under valgrind
MOD = {}


def module(m):
    if m not in MOD:
        MOD[m] = __import__(m)
    return MOD[m]


def cases():
    for m, n in EVERY.items():
        n = 2 * n if QUICK else max(1, n // 6)
        for i, c in enumerate((getattr(module(m), "gen", None) or module(m).cases)()):
            if i % n == 0:
                yield {'fam': m, 'c': c}
            if i % (n * VGN) == n // 2:
                yield {'fam': m, 'c': c, 'vg': 1}


VG = ['/usr/bin/valgrind', '--log-file=.valgrind', '--undef-value-errors=yes', '--track-origins=no', '--leak-check=no']


def run_case(c):
    explore.SAN.clear()
    asan = dict(explore.BIN)
    try:
        if 'vg' in c:
            explore.PREFIX[:] = VG
            for p in PROGRAMS + ['session']:
                explore.BIN[p] = asan[p + '.opt']
        n = module(c['fam']).run_case(c['c'])['execs']
    except Exception:      # an output the other check cannot read is its business
        n = 1
    finally:
        explore.PREFIX[:] = []
        explore.BIN.update(asan)
    if explore.SAN:
        return bad(explore.SAN[0])
    # whether the answer is right is the other checks' business
    return ok('clean', execs=n)


if __name__ == '__main__':
    C = explore.Check('C14', 'the case families of checks C01-C13, C15, C18 to C20, every n-th case in order (n = %s, doubled in the quick tier, a sixth in the thorough one), under AddressSanitizer and UBSan, some also under valgrind' % EVERY, variant='asan',
                      programs=PROGRAMS, harnesses=HARN, assumptions=['monitors: gcc AddressSanitizer and UndefinedBehaviorSanitizer; valgrind memcheck (uninitialised reads); the libraries (GMP, NTL, cddlib, 4ti2) are not instrumented'])
    sys.exit(C.main(cases, run_case, extra_builds=[(PROGRAMS, HARN, 'opt')]))
