"""C16: a fault at any external call or a full disk at any byte never turns into a wrong answer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools, re, resource, shutil, signal
import explore, oracle as O, latterun, intrun
from explore import ok, bad, QUICK

TOOLS = ['scdd_gmp', 'lrs', 'rm', 'topcom-points2triangs', 'topcom-points2placingtriang', 'redcheck_gmp']
WRAP = '''#!/bin/sh
# stand-in for an external tool: counts the calls and injects one fault
n=$(($(/bin/cat "$FAULT_DIR/n" 2>/dev/null || echo 0)+1)); echo $n > "$FAULT_DIR/n"
t=${0##*/}
if [ "$n" = "$FAULT_AT" ]; then
  case $FAULT_KIND in
    exit1) exit 1;;
    lateexit) /usr/bin/$t "$@"; exit 1;;
    killed) kill -9 $$;;
    latekilled) /usr/bin/$t "$@"; kill -9 $$;;
    missing) exit 127;;
    empty) exit 0;;
    half) /usr/bin/$t "$@" > "$FAULT_DIR/out"; s=$(stat -c %s "$FAULT_DIR/out"); head -c $((s/2)) "$FAULT_DIR/out"; exit 0;;
  esac
fi
exec /usr/bin/$t "$@"
'''
KINDS = ['exit1', 'lateexit', 'killed', 'latekilled', 'missing']

TRI = ([(0, 1, 0), (0, 0, 1), (7, -2, -3), (6, -1, -1)], [])
EQ = ([(0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (-6, 1, 2, 1)], [3])
CUBE = (O.cube(3, 0, 2), [])
INT = ([(0, 1, 0), (0, 0, 1), (3, -1, -1)], [])
RUNS = []
for nm, (rows, lin) in (('tri', TRI), ('eq', EQ), ('cube', CUBE), ('int', INT)):
    for o in ([], ['--compute-vertex-cones=lrs'], ['--compute-vertex-cones=cdd'], ['--compute-vertex-cones=4ti2'], ['--homog'], ['--maxdet=3'], ['--redundancy-check=none'],
              ['--redundancy-check=cddlib'], ['--exponential', '--triangulation=topcom'], ['--triangulation=4ti2'], ['--dualization=4ti2'],
              ['--irrational-all-primal', '--maxdet=5']):
        RUNS.append(('count', nm, o))
    if nm != 'eq':
        RUNS.append(('vrep', nm, ['--vrep']))
    RUNS.append(('cdd', nm, ['--cdd']))
for nm in ('int', 'cube', 'tri'):
    RUNS.append(('integrate', nm, ['--valuation=volume']))
    RUNS.append(('ehrhart', nm, ['2']))
for nm in ('tri', 'eq', 'cube'):
    RUNS.append(('latte-maximize', nm, []))
    RUNS.append(('latte-minimize', nm, []))
for nm in ('tri', 'eq', 'int'):
    RUNS.append(('gf', nm, ['--multivariate-generating-function']))
    RUNS.append(('gf', nm, ['--ehrhart-series']))
BY = {'tri': TRI, 'eq': EQ, 'cube': CUBE, 'int': INT}
COST = (2, -1, 3)


def command(run):
    prog, nm, o = run
    rows, lin = BY[nm]
    d = len(rows[0]) - 1
    t = O.latte(rows, lin)
    if prog in ('count', 'gf'):
        return 'count', o + ['in'], {'in': t}
    if prog == 'vrep':
        return 'count', o + ['in'], {'in': O.latte_v(O.vertices(rows))}
    if prog == 'cdd':
        return 'count', o + ['in.ine'], {'in.ine': O.cdd_h(rows, lin)}
    if prog == 'integrate':
        return 'integrate', o + ['in'], {'in': t}
    if prog == 'ehrhart':
        return 'ehrhart', o + ['in'], {'in': t}
    return prog, ['in'], {'in': t, 'in.cost': '1 %d\n%s\n' % (d, ' '.join(map(str, COST[:d])))}


def answers(prog, r, exp=''):
    """Every answer the run delivered, in its output and in its result file, whatever its exit status."""
    out = set()
    v = r.read('numOfLatticePoints')
    if v and v.strip() and r.rc != 0 and exp.startswith('n' + v.strip()):
        v = None   # cut off by the full disk, and the exit status says so
    if v and v.strip() and prog in ('count', 'vrep', 'cdd'):
        out.add('n' + v.strip())
    if prog == 'gf':
        v = r.read('in.rat') if r.rc == 0 else None
        if v is not None:
            out.add('f' + v)
    elif prog == 'integrate':
        out |= {'v' + x for x in re.findall(r'Answer: *(\S+)', r.out + r.err)}
    elif prog.startswith('latte-'):
        out |= {'o' + x for x in re.findall(r'The optimal value(?: is)?: *(-?[\d/]+)', r.out + r.err)}
    elif prog == 'ehrhart':
        out |= {'t' + x for x in re.findall(r'^(\d+)t\^2$', r.out, re.M)}
    else:
        s = latterun.stdout_value(r)
        if s is not None:
            out.add('n%d' % s)
    return out


def expected(run):
    prog, nm, o = run
    if prog == 'gf':
        a = answers(prog, explore.run(*command(run)))
        return a.pop() if a else 'no generating function'
    rows, lin = BY[nm]
    if prog == 'integrate':
        return 'v%s' % O.volume(rows)
    if prog.startswith('latte-'):
        return 'o%d' % (max if 'max' in prog else min)(sum(a * b for a, b in zip(COST, p)) for p in O.lattice_points(rows, lin))
    if prog == 'ehrhart':
        return 't%d' % O.count_points(O.dilate(rows, 2), lin)
    return 'n%d' % O.count_points(rows, lin)


def wrapped(run, at, kind, timeout=15):
    prog, args, files = command(run)
    d = explore.scratch(name='f%d' % os.getpid())
    os.mkdir(d + '/bin')
    for t in TOOLS:
        if os.path.exists('/usr/bin/' + t):
            with open(d + '/bin/' + t, 'w') as f:
                f.write(WRAP)
            os.chmod(d + '/bin/' + t, 0o755)
    r = explore.run(prog, args, files, timeout=timeout,
                    env={'PATH': d + '/bin:' + explore.PATHENV, 'FAULT_DIR': d, 'FAULT_AT': str(at), 'FAULT_KIND': kind})
    try:
        n = int(open(d + '/n').read())
    except (OSError, ValueError):
        n = 0
    return r, n


def cases():
    for i, run in enumerate(RUNS):
        yield {'fam': 'tool faults', 'run': i}
        sizes = range(3, 1200, 13) if QUICK else range(0, 2400)
        for chunk in [list(sizes)[k:k + 40] for k in range(0, len(sizes), 40)]:
            yield {'fam': 'disk full', 'run': i, 'sizes': chunk}


def judge(run, r, what, exp):
    if r.timed_out:
        return '%s %s: hangs after %s' % (run[0], run, what)
    got = answers(run[0], r, exp)
    wrong = got - {exp}
    if wrong:
        return '%s: exit status %s and answer %s instead of %s after %s (%s)' % (run, r.rc, sorted(wrong), exp, what, r.err[-200:])
    if r.rc == 0 and not got:
        return '%s: exit status 0 without an answer after %s: %s' % (run, what, r.err[-200:])
    return None


def run_case(c):
    run = RUNS[c['run']]
    exp = expected(run)
    n_exec = 0
    if c['fam'] == 'tool faults':
        r, calls = wrapped(run, -1, '')
        fails = [judge(run, r, 'no fault', exp)]
        if r.rc != 0:
            return ok('refused without a fault', nontrivial=False)
        for at in range(1, calls + 1):
            for kind in KINDS:
                r, _ = wrapped(run, at, kind)
                n_exec += 1
                fails.append(judge(run, r, 'fault %s in external call %d of %d' % (kind, at, calls), exp))
                if r.rc == 0 and kind in ('exit1', 'missing', 'killed') and not any(fails):
                    fails.append('%s: exit status 0 after fault %s in external call %d of %d' % (run, kind, at, calls))
        fails = [f for f in fails if f]
        if fails:
            return bad('%d faults end wrongly; %s' % (len(fails), fails[0]), execs=n_exec)
        return ok('%d calls' % calls, nontrivial=calls > 0, execs=n_exec + 1, sum={'fault_points': calls})
    prog, args, files = command(run)
    old = signal.getsignal(signal.SIGXFSZ)
    lim = resource.getrlimit(resource.RLIMIT_FSIZE)
    outcomes = set()
    for n in c['sizes']:
        d = explore.scratch()
        for k, v in files.items():
            open(d + '/' + k, 'w').write(v)
        # the limit is set by prlimit for the program and all it calls; EFBIG instead of the signal (a full disk)
        r = explore.run('/usr/bin/env', ['--ignore-signal=XFSZ', '/usr/bin/prlimit', '--fsize=%d:%d' % (n, n), explore.BIN[prog]] + args, cwd=d, timeout=10)
        n_exec += 1
        f = judge(run, r, 'the disk was full after %d bytes of a file' % n, exp)
        if f:
            return bad(f, execs=n_exec)
        outcomes.add(r.rc)
    return ok('disk full: exit %s' % sorted(outcomes), execs=n_exec, sum={'fault_points': len(c['sizes'])})


if __name__ == '__main__':
    C = explore.Check('C16', 'every (run, external call, fault kind) and every (run, file size at which the disk is full) of the listed runs',
                      programs=['count', 'integrate', 'ehrhart', 'latte-maximize', 'latte-minimize'], chunk=1,
                      assumptions=['external tools are replaced by counting wrappers; a full disk is modelled by a file size limit with the signal ignored'])
    sys.exit(C.main(cases, run_case))
