"""C17: the answer of a run does not depend on what earlier (finished or killed) runs left in the working directory."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hashlib, re, shutil
import explore, oracle as O
from explore import ok, bad, QUICK

TOOLS = ['scdd_gmp', 'lrs', 'rm', 'topcom-points2triangs', 'topcom-points2placingtriang', 'redcheck_gmp']
WRAP = '''#!/bin/sh
# stand-in for an external tool: kills the whole run before or after its n-th external call
n=$(($(/bin/cat "$FAULT_DIR/n" 2>/dev/null || echo 0)+1)); echo $n > "$FAULT_DIR/n"
t=${0##*/}
[ "$n" = "$FAULT_AT" ] && kill -9 0
/usr/bin/$t "$@"
s=$?
[ "-$n" = "$FAULT_AT" ] && kill -9 0
exit $s
'''
TRI = [(0, 1, 0), (0, 0, 1), (7, -2, -3), (6, -1, -1)]
INT = [(0, 1, 0), (0, 0, 1), (3, -1, -1)]
CUBE = O.cube(3, 0, 2)
EQ = [(0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (-6, 1, 2, 1)]
EMPTY = [(-1, 1, 0), (-1, -1, 0), (0, 0, 1), (3, 0, -1)]
UNB = [(0, 1, 0), (0, 0, 1), (3, 1, -1)]
NOINT = [(1, 2, 2), (0, 1, 0), (0, 0, 1), (5, -1, -1)]
PYR = [(0, 0, 0, 1), (2, 1, 0, -1), (2, -1, 0, -1), (2, 0, 1, -1), (2, 0, -1, -1)]
FILES = {
    'tri': O.latte(TRI, []), 'lat': O.latte(INT, []), 'cube': O.latte(CUBE, []), 'eq': O.latte(EQ, [3]), 'pyr': O.latte(PYR, []),
    'empty': O.latte(EMPTY, []), 'unb': O.latte(UNB, []), 'noint': O.latte(NOINT, [0]),
    'broken': '3 3\n0 1 0\n0 0 1\n3 -1\n',
    'tri.ine': O.cdd_h(TRI, []), 'cubev': O.latte_v(O.vertices(CUBE)), 'pyrv': O.latte_v(O.vertices(PYR)),
    'tri.cost': '1 2\n2 -1\n', 'cube.cost': '1 3\n1 -2 1\n', 'eq.cost': '1 3\n1 -2 3\n',
    'mono': '[[1,[2,1]],[3,[0,0]]]\n', 'form': '[[1,[2,[1,-1,2]]]]\n',
}
COMMANDS = [
    ('count', 'tri'), ('count', 'cube'), ('count', 'eq'), ('count', 'pyr'), ('count', 'empty'), ('count', 'noint'), ('count', 'unb'), ('count', 'broken'),
    ('count', '--cdd', 'tri.ine'), ('count', '--vrep', 'cubev'), ('count', '--vrep', 'pyrv'),
    ('count', '--homog', 'tri'), ('count', '--compute-vertex-cones=lrs', 'pyr'), ('count', '--compute-vertex-cones=4ti2', 'tri'), ('count', '--redundancy-check=none', 'eq'),
    ('count', '--redundancy-check=cddlib', 'eq'), ('count', '--maxdet=4', '--exponential', 'tri'), ('count', '--irrational-all-primal', '--maxdet=4', 'cube'),
    ('count', '--triangulation=topcom', 'pyr'), ('count', '--dualization=4ti2', 'tri'), ('count', '--triangulation=4ti2', 'pyr'),
    ('count', '--ehrhart-polynomial', 'lat'), ('count', '--ehrhart-series', 'tri'), ('count', '--ehrhart-taylor=3', 'eq'), ('count', '--dilation=2', 'tri'),
    ('count', '--multivariate-generating-function', 'tri'), ('count', '--multivariate-generating-function', 'eq'),
    ('ehrhart', 'tri'), ('ehrhart', '3', 'cube'),
    ('integrate', '--valuation=volume', 'tri'), ('integrate', '--valuation=volume', '--vrep', 'pyrv'),
    ('integrate', '--valuation=integrate', '--monomials=mono', 'tri'), ('integrate', '--valuation=integrate', '--linear-forms=form', 'cube'),
    ('latte-maximize', 'tri'), ('latte-minimize', 'cube'), ('latte-maximize', 'eq'), ('latte-maximize', 'bbs', 'tri'), ('latte-minimize', 'bbs', 'cube'),
]
TORN = 1000
SKIP = {'totalTime', 'latte_stats'}
LINES = re.compile(r'^(-?\d+(?:t\^\d+)?|.*Answer:.*|The optimal value.*|An optimal solution.*|Ehrhart polynomial:.*)$', re.M)


def content(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            f = os.path.join(base, n)
            k = os.path.relpath(f, d)
            if k not in SKIP and FILES.get(k) is None:
                with open(f, 'rb') as g:
                    out[k] = g.read()
    return out


def state(d):
    h = hashlib.blake2b(digest_size=10)
    for k, v in sorted(content(d).items()):
        h.update(k.encode() + b'\0' + v + b'\0')
    return h.hexdigest()


def fresh(name):
    d = explore.scratch(name='%s%d' % (name, os.getpid()))
    for k, v in FILES.items():
        with open(d + '/' + k, 'w') as f:
            f.write(v)
    return d


def execute(cmd, d, at=0):
    """Runs one command in directory d; at != 0: killed before (at > 0) or after its |at|-th external call;
    at >= TORN: killed (SIGXFSZ) when a file would grow beyond at - TORN bytes, with the file torn there."""
    b = explore.scratch(name='b%d' % os.getpid())
    os.mkdir(b + '/bin')
    for t in TOOLS:
        if os.path.exists('/usr/bin/' + t):
            with open(b + '/bin/' + t, 'w') as f:
                f.write(WRAP)
            os.chmod(b + '/bin/' + t, 0o755)
    pre = ['/usr/bin/prlimit', '--fsize=%d:%d' % (at - TORN, at - TORN)] if at >= TORN else []
    argv = pre + [explore.BIN[cmd[0]]] + list(cmd[1:])
    r = explore.run(argv[0], argv[1:], cwd=d, timeout=60, env={'PATH': b + '/bin:' + explore.PATHENV, 'FAULT_DIR': b, 'FAULT_AT': str(at)})
    try:
        r.calls = int(open(b + '/n').read())
    except (OSError, ValueError):
        r.calls = 0
    return r


def answer(cmd, r, d):
    """What a user sees of a finished run: status, answer lines, result files."""
    a = ['timeout' if r.timed_out else 'exit %d' % r.rc]
    if r.rc == 0:
        a += [re.sub(r'[\d.]+ ?sec.*', '', x) for x in LINES.findall(r.out + '\n' + r.err)]
        for n in ['numOfLatticePoints'] if cmd[0] == 'count' and not any(o.startswith(('--ehrhart', '--multi')) for o in cmd) else []:
            a.append('%s: %s' % (n, (r.read(n) or '').strip()))
        if '--ehrhart-series' in cmd or '--multivariate-generating-function' in cmd or cmd[0] == 'ehrhart' and len(cmd) == 2:
            a.append(hashlib.sha1((r.read(cmd[-1] + '.rat') or 'missing').encode()).hexdigest())
    return a


class Res2(explore.Res):
    __slots__ = ('calls',)


explore.Res = Res2
_base = {}


def baseline(i):
    """Answer and number of external calls of command i in a fresh directory."""
    if i not in _base:
        d = fresh('z')
        r = execute(COMMANDS[i], d)
        _base[i] = (answer(COMMANDS[i], r, d), r.calls)
    return _base[i]


def run_case(c):
    """Executes the prefix, then every event from the reached state."""
    n = 0
    d = fresh('p')
    hist = []
    for i, at in c['prefix']:
        base, calls = baseline(i)
        if at and abs(at) > calls and at < TORN:
            return ok('no such call', nontrivial=False, execs=n)
        r = execute(COMMANDS[i], d, at)
        n += 1
        hist.append('%s%s' % (' '.join(COMMANDS[i]), ' torn at byte %d' % (at - TORN) if at >= TORN else ' killed %s external call %d' % ('before' if at > 0 else 'after', abs(at)) if at else ''))
        if at == 0 and answer(COMMANDS[i], r, d) != base:
            return bad('%s: %s, in a fresh directory %s' % (' ; '.join(hist), answer(COMMANDS[i], r, d), base), execs=n)
    seen = {state(d)}
    e = explore.scratch(name='e%d' % os.getpid())
    kills = 0
    for i in range(len(COMMANDS)):
        base, calls = baseline(i)
        shutil.rmtree(e)
        shutil.copytree(d, e)
        r = execute(COMMANDS[i], e)
        n += 1
        got = answer(COMMANDS[i], r, e)
        if got != base:
            return bad('after [%s], %s gives %s, in a fresh directory %s (%s)' % (' ; '.join(hist), ' '.join(COMMANDS[i]), got, base, r.err[-150:]), execs=n)
        seen.add(state(e))
    return ok('%d states' % len(seen), execs=n, sum={'directory_states': len(seen)})


def cases():
    # every command finished or killed at every external call (calls beyond the last are skipped), then every command
    first = [[i, 0] for i in range(len(COMMANDS))] + [[i, s * k] for i in range(len(COMMANDS)) for k in range(1, 12) for s in (1, -1)]
    first += [[i, TORN + k] for i in range(len(COMMANDS)) for k in ((0, 30, 90, 300) if QUICK else range(0, 600, 10))]
    for f in first:
        yield {'fam': 'finished' if f[1] == 0 else 'torn write' if f[1] >= TORN else 'killed', 'prefix': [f]}
    if not QUICK:
        for f in first:
            for i in range(len(COMMANDS)):
                yield {'fam': 'two runs before', 'prefix': [f, [i, 0]]}
                for at in (1, -1, 2, -2):
                    yield {'fam': 'two runs before', 'prefix': [f, [i, at]]}


if __name__ == '__main__':
    C = explore.Check('C17', 'every history of finished runs and runs killed before or after any of their external calls in one working directory, '
                      'up to the stated depth, followed by every command; the answer must be that of a fresh directory',
                      programs=['count', 'integrate', 'ehrhart', 'latte-maximize', 'latte-minimize'], chunk=1,
                      assumptions=['a run is killed with all its children; kill points are its external calls (before and after)'])
    sys.exit(C.main(cases, run_case))
