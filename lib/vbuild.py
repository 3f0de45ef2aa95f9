"""Builds LattE's programs and harnesses from /repo/code's current working tree.

Objects are cached in /verif/build (git-ignored) and keyed by the *contents* of every file the
compiler read plus the command line; nothing of /repo/_build is used, so a check sees exactly the
sources that lie in /repo when it starts.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LATTE_REPO', '/repo')
CODE = REPO + '/code'
SRC = CODE + '/latte'
BUILD = os.environ.get('LATTE_VBUILD', VERIF + '/build')
CFG = VERIF + '/lib/cfg'

VARIANTS = {
    'opt': ['-O1'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
             '-fno-omit-frame-pointer'],
    'cov': ['-O0', '--coverage'],
}
LDV = {'opt': [], 'asan': ['-fsanitize=address,undefined'], 'cov': ['--coverage']}
CPP = ['-w', '-DHAVE_CONFIG_H', '-DINSTALLDIR="/nonexistent"', '-D__STDC_LIMIT_MACROS',
       '-D_4ti2_GMP_', '-I' + CFG, '-I' + CFG + '/sub', '-I' + CODE, '-I' + SRC, '-I/usr/include/4ti2',
       '-I/usr/include/x86_64-linux-gnu/4ti2']
LIBS = ['-l4ti2gmp', '-lzsolve', '-lcddgmp', '-lntl', '-lgmpxx', '-lgmp', '-lsqlite3', '-lpthread']
EXTRA = {'hilbert-from-rays-symm': ['-l4ti2util']}
SKIP = {'genFunction/NTL_to_LiDIA.cpp', 'triangulation/SpecialSimplex.cpp', 'genFunction/ilio.cpp',
        'triangulation/special-simplex.cpp'}


class BuildError(Exception):
    pass


_sha = {}


def sha(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in _sha:
        with open(path, 'rb') as f:
            _sha[k] = hashlib.sha256(f.read()).hexdigest()
    return _sha[k]


def makefile_vars(path):
    """{'X_SOURCES': [...]} of an automake file; conditionals are ignored (SKIP removes the rest)."""
    text = open(path).read().replace('\\\n', ' ')
    out = {}
    for m in re.finditer(r'^\s*([A-Za-z0-9_]+)\s*\+?=\s*(.*)$', text, re.M):
        out.setdefault(m.group(1), []).extend(m.group(2).split('#')[0].split())
    return out


def lib_sources():
    v = makefile_vars(SRC + '/Makefile.am')
    srcs = v.get('liblatte_la_SOURCES', []) + v.get('nodist_liblatte_la_SOURCES', [])
    if os.path.exists(SRC + '/normalize/Makefile.am'):
        n = makefile_vars(SRC + '/normalize/Makefile.am')
        srcs += ['normalize/' + s for s in n.get('libnormalize_la_SOURCES', [])
                 if 'CPLEX' not in s]
    seen = []
    for s in srcs:
        if s.endswith('.cpp') and s not in SKIP and s not in seen:
            seen.append(s)
    return seen


def program_sources(name):
    """Sources of an installed program, from Makefile.am."""
    for sub in ('', 'normalize/'):
        p = SRC + '/' + sub + 'Makefile.am'
        if not os.path.exists(p):
            continue
        v = makefile_vars(p)
        key = re.sub(r'[^A-Za-z0-9]', '_', name) + '_SOURCES'
        for k in (key, 'nodist_' + key):
            if k in v:
                return [sub + s for s in v[k] if s.endswith('.cpp')]
    raise BuildError('no sources known for program ' + name)


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    return p.returncode, p.stderr


def _deps(path):
    text = open(path).read().replace('\\\n', ' ')
    return [d for d in text.split(':', 1)[1].split()]


def _compile(src, obj, flags):
    """Compiles src to obj unless obj is current. Returns (object key, error or None)."""
    cc = 'gcc' if src.endswith('.c') else 'g++'
    cmd = [cc] + flags + ['-c', src, '-o', obj]
    ch = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()
    meta = obj + '.json'
    try:
        m = json.load(open(meta))
        if m['cmd'] == ch and os.path.exists(obj) and all(sha(d) == h for d, h in m['deps'].items()):
            return m['key'], None
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    rc, err = _run(cmd + ['-MD', '-MF', obj + '.d'])
    if rc:
        return None, err
    deps = {d: sha(d) for d in _deps(obj + '.d')}
    key = hashlib.sha256((ch + json.dumps(deps, sort_keys=True)).encode()).hexdigest()
    json.dump({'cmd': ch, 'deps': deps, 'key': key}, open(meta, 'w'))
    return key, None


def build(programs=(), harnesses=(), variant='opt', verbose=False):
    """programs: names from Makefile.am. harnesses: (name, [source paths under /verif], [extra flags]).
    Returns {name: path of binary}."""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(BUILD + '/lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        base = BUILD + '/' + variant
        flags = VARIANTS[variant] + CPP + ['-DINSTALLPREFIX="%s"' % base]
        libs = lib_sources()
        jobs = {}

        def obj_of(s):
            return base + '/obj/' + s + '.o'
        for s in libs:
            jobs[obj_of(s)] = (SRC + '/' + s, flags)
        prog = {}
        for p in programs:
            ss = program_sources(p)
            prog[p] = [obj_of(s) for s in ss]
            for s in ss:
                jobs[obj_of(s)] = (SRC + '/' + s, flags)
        stub = base + '/obj/progname_stub.o'
        jobs[stub] = (CFG + '/progname_stub.c', ['-O1'])
        for name, ss, extra in harnesses:
            prog[name] = []
            for s in ss:
                src = s if s.startswith('/') else VERIF + '/' + s
                o = base + '/obj/H/' + name + '/' + re.sub(r'[^A-Za-z0-9]', '_', s) + '.o'
                prog[name].append(o)
                jobs[o] = (src, flags + list(extra))
        with ThreadPoolExecutor(os.cpu_count() or 8) as pool:
            res = dict(zip(jobs, pool.map(lambda o: _compile(jobs[o][0], o, jobs[o][1]), jobs)))
        bad = [(jobs[o][0], e) for o, (k, e) in res.items() if e]
        if bad:
            raise BuildError('\n'.join('%s:\n%s' % (s, e[-1500:]) for s, e in bad))
        lib = base + '/liblatte.a'
        lobjs = [obj_of(s) for s in libs] + [stub]
        lkey = hashlib.sha256(''.join(res[o][0] for o in lobjs).encode()).hexdigest()
        if not (os.path.exists(lib) and _read(lib + '.key') == lkey):
            if os.path.exists(lib):
                os.unlink(lib)
            rc, err = _run(['ar', 'rcs', lib] + lobjs)
            if rc:
                raise BuildError(err)
            _write(lib + '.key', lkey)
        os.makedirs(base + '/bin', exist_ok=True)

        def link(p):
            out = base + '/bin/' + p
            key = hashlib.sha256((lkey + ''.join(res[o][0] for o in prog[p])
                                  + str(LDV[variant])).encode()).hexdigest()
            if os.path.exists(out) and _read(out + '.key') == key:
                return None
            rc, err = _run(['g++'] + LDV[variant] + prog[p] + [lib] + EXTRA.get(p, []) + LIBS + ['-o', out])
            if rc:
                return p + ': ' + err[-1500:]
            _write(out + '.key', key)
        with ThreadPoolExecutor(os.cpu_count() or 8) as pool:
            errs = [e for e in pool.map(link, prog) if e]
        if errs:
            raise BuildError('\n'.join(errs))
    if verbose:
        print('built %d programs (%s) in %.1f s' % (len(prog), variant, time.time() - t0))
    return {p: base + '/bin/' + p for p in prog}


def _read(p):
    try:
        return open(p).read()
    except OSError:
        return None


def _write(p, s):
    with open(p, 'w') as f:
        f.write(s)


PROGRAMS = ['count', 'ehrhart', 'latte-maximize', 'latte-minimize', 'integrate',
            'top-ehrhart-knapsack', 'latte2ine', 'latte2ext', 'ConvertCDDineToLatte',
            'ConvertCDDextToLatte', 'triangulate', 'polyhedron-to-cones', 'triangulate-boundary',
            'complete-boundary-triangulation', 'aggregate', 'ehrhart3', 'test-todd',
            'count-linear-forms-from-polynomial', 'hilbert-from-rays', 'hilbert-from-rays-symm',
            'BlockIntegrate', 'BurstIntegrate', 'integrate_demo', 'integrate_test', 'multiply_test',
            'build-database-polytopes', 'integrate-database-polytopes',
            'find-volume-database-polytopes', 'print-database-time-table',
            'fix-dual-database-polytopes', 'fix-lawrence-valuation']

if __name__ == '__main__':
    v = sys.argv[1] if len(sys.argv) > 1 else 'opt'
    try:
        build(sys.argv[2:] or PROGRAMS, variant=v, verbose=True)
    except BuildError as e:
        print('build failed:\n' + str(e))
        sys.exit(2)
