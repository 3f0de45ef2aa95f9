"""Bounded exhaustive explorer: enumerates cases, executes the real programs on every one of them in
private scratch directories, compares with an exact oracle, confirms and records every violation."""
import argparse, collections, glob, hashlib, itertools, json, multiprocessing as mp, os, re, resource
import shutil, signal, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild  # noqa: E402

VERIF = vbuild.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
QUICK = TIER != 'thorough'
BIN = {}
HOME = None          # scratch root of this check run
AS_LIMIT = 3 << 30
ENV = {}              # added to the environment of every program
PREFIX = []           # put before every program that is run (valgrind)
SAN = []              # sanitizer reports seen by this process (asan variant)
SANRE = re.compile(r'ERROR: AddressSanitizer.*|[^\n]*: runtime error: .*')
PATHENV = '/usr/local/bin:/usr/bin:/bin'


class Res:
    __slots__ = ('rc', 'out', 'err', 'dir', 'timed_out', 'pid')

    def read(self, name):
        try:
            with open(self.dir + '/' + name, errors='replace') as f:
                return f.read()
        except OSError:
            return None

    def brief(self):
        return 'rc=%s%s err=...%s' % (self.rc, ' TIMEOUT' if self.timed_out else '',
                                      self.err[-160:].replace('\n', ' | '))


def scratch(clean=True, name=None):
    d = '%s/%s' % (HOME, name or os.getpid())
    if clean and os.path.exists(d):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    return d


def run(prog, args=(), files=None, stdin=None, timeout=20, cwd=None, env=None):
    """Runs one program in a clean scratch directory (or in cwd as it is)."""
    d = cwd or scratch()
    for n, c in (files or {}).items():
        with open(d + '/' + n, 'w') as f:
            f.write(c)
    r = Res()
    r.dir = d
    e = {'PATH': PATHENV, 'LC_ALL': 'C', 'HOME': d, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0',
         'UBSAN_OPTIONS': 'print_stacktrace=0'}
    e.update(ENV)
    if env:
        e.update(env)
    # A time limit that the machine's load cannot trip: retry alone (longer) before calling it a hang.
    if PREFIX:
        timeout *= 10
    for limit in (timeout, timeout * 4):
        p = subprocess.Popen(PREFIX + [BIN.get(prog, prog)] + list(args), cwd=d, env=e, errors='replace', text=True,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        r.pid = p.pid
        try:
            r.out, r.err = p.communicate(stdin, timeout=limit)
            r.rc, r.timed_out = p.returncode, False
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            r.out, r.err = p.communicate()
            r.rc, r.timed_out = -9, True
        m = SANRE.search(r.err)
        if m:
            SAN.append('%s: %s' % (prog, m.group(0)))
        if PREFIX:
            m = re.search(r'.*(uninitialised|Invalid|overlap).*(\n.*){0,4}', r.read('.valgrind') or '')
            if m:
                SAN.append('%s: %s' % (prog, m.group(0)))
        for t in glob.glob('/tmp/latte-%d@*' % p.pid):   # what an aborted run left behind
            shutil.rmtree(t, ignore_errors=True)
        if not r.timed_out or cwd:
            break
        if limit == timeout:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for n, c in (files or {}).items():
                with open(d + '/' + n, 'w') as f:
                    f.write(c)
    return r


def _limits():
    if AS_LIMIT:   # one runaway program must not exhaust the machine
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


_run_case = None


def _work(case):
    t = time.time()
    try:
        res = _run_case(case)
        if os.environ.get('VSLOW') and time.time() - t > float(os.environ['VSLOW']):
            print('SLOW %.1f %s %s' % (time.time() - t, case_key(case), res['fail']), flush=True)
        return case, res
    except Exception:
        return case, {'error': traceback.format_exc()}


def _replay(case):
    return _work(case)[1]


def ok(outcome='', nontrivial=True, execs=1, **more):
    return dict(execs=execs, outcome=str(outcome)[:200], nontrivial=nontrivial, fail=None, **more)


def bad(msg, outcome='BAD', execs=1, key=None, **more):
    return dict(execs=execs, outcome=outcome, nontrivial=True, fail=str(msg)[:1500], key=key, **more)


def known_findings(pid):
    out = {}
    p = VERIF + '/known_findings.jsonl'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                f = json.loads(line)
                if f['property'] == pid:
                    out[f['key']] = f
    return out


def case_key(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


class Check:
    def __init__(self, pid, rule, programs=(), harnesses=(), variant='opt', level='exploration',
                 assumptions=(), cap=780, chunk=8):
        self.pid, self.rule, self.level = pid, rule, level
        self.programs, self.harnesses, self.variant = programs, harnesses, variant
        self.assumptions, self.cap, self.chunk = list(assumptions), cap, chunk
        self.extra = {}

    def main(self, cases, run_case, extra_builds=()):
        """cases: callable -> iterable of JSON-able cases. run_case(case) -> ok()/bad()."""
        global HOME, _run_case, AS_LIMIT
        ap = argparse.ArgumentParser()
        ap.add_argument('--replay')
        ap.add_argument('--limit', type=int)
        ap.add_argument('--keep-going', action='store_true')
        ap.add_argument('--variant')
        ap.add_argument('--fam')
        ap.add_argument('--stride', type=int)
        a = ap.parse_args()
        t0 = time.time()
        try:
            if (a.variant or self.variant) == 'asan':
                AS_LIMIT = 0
            BIN.update(vbuild.build(self.programs, self.harnesses, a.variant or self.variant))
            for progs, harn, var in extra_builds:
                for k, v in vbuild.build(progs, harn, var).items():
                    BIN[k + '.' + var] = v
        except vbuild.BuildError as e:
            print('BUILD FAILED\n%s' % e)
            return 2
        t_build = time.time() - t0
        root = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
        HOME = '%s/latteverif-%s-%d' % (root, self.pid, os.getpid())
        os.makedirs(HOME, exist_ok=True)
        _run_case = run_case
        try:
            if a.replay:
                r = json.load(open(a.replay))
                res = run_case(r['case'])
                print(json.dumps({'case': r['case'], 'result': res}, indent=1))
                return 1 if res.get('fail') else 0
            return self._explore(cases, run_case, a, t0, t_build)
        finally:
            shutil.rmtree(HOME, ignore_errors=True)

    def _explore(self, cases, run_case, a, t0, t_build):
        known = known_findings(self.pid)
        seen_known, viol, errors, unrepro = {}, [], [], []
        n = execs = 0
        outcomes, fams = collections.Counter(), collections.Counter()
        nontriv = set()
        samples, stride = [], 1
        sums = collections.Counter()
        capped = False
        it = cases()
        if a.fam:
            it = (c for c in it if str(c.get('fam', '')).startswith(a.fam))
        if a.limit:
            it = itertools.islice(it, a.limit)
        if a.stride:
            it = itertools.islice(it, a.stride // 2, None, a.stride)
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(8, os.cpu_count() or 8), initializer=_limits)
        try:
            for case, res in pool.imap_unordered(_work, it, chunksize=self.chunk):
                n += 1
                if 'error' in res:
                    # the output could not be interpreted: run again, alone, below
                    errors.append((case, res['error']))
                    if len(errors) > 3:
                        break
                    continue
                execs += res['execs']
                fam = case.get('fam', '') if isinstance(case, dict) else ''
                fams[fam] += 1
                outcomes[res['outcome']] += 1
                for k, v in (res.get('sum') or {}).items():
                    sums[k] += v
                if res['nontrivial']:
                    nontriv.add(hashlib.blake2b(case_key(case).encode(), digest_size=8).digest())
                if n % stride == 0 and len(samples) < 12:
                    samples.append({'case': case, 'outcome': res['outcome']})
                    stride = stride * 3 + 1
                if res['fail']:
                    key = res.get('key') or case_key(case)
                    if key in known:
                        if key not in seen_known:
                            seen_known[key] = res['fail']
                        continue
                    viol.append((case, res, key))
                    if not a.keep_going and len(viol) >= 3:
                        break
                if time.time() - t0 > self.cap:
                    capped = True
                    break
        finally:
            pool.terminate()
            pool.join()
        # replay before report, alone
        confirmed = []
        for case, res, key in viol[:200]:
            again = None
            for _ in range(4):
                again = _replay(case)
                if again.get('fail') or 'error' in again:
                    break
            if 'error' in again:
                again = res
            (confirmed if again.get('fail') else unrepro).append((case, again if again.get('fail') else res, key))
        for case, err in errors[:4]:
            print('CHECK ERROR %s %s' % (case_key(case)[:300], err))
            again = [_replay(case) for _ in range(2)]
            if 'MemoryError' not in err and 'OSError' not in err and all('error' in r or r.get('fail') for r in again) and case_key(case) not in known:
                confirmed.append((case, {'fail': 'what the program printed or wrote cannot be interpreted: '
                                         + err.strip().splitlines()[-1][:400], 'outcome': 'BAD'}, case_key(case)))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        os.makedirs(VERIF + '/replays', exist_ok=True)
        cov = {'rule': self.rule, 'samples': samples, 'exhaustive': not capped and not viol and not a.limit and not a.stride,
               'families': dict(fams), 'executions_of_real_code': execs,
               'distinct_outcomes': len(outcomes), 'top_outcomes': dict(outcomes.most_common(8)),
               'known_findings_seen': len(seen_known), 'unreproduced': len(unrepro),
               'build_s': round(t_build, 1), 'capped': capped}
        cov.update(sums)
        cov.update(self.extra)
        if self.level == 'model_checking':
            cov.setdefault('states', n)
            cov.setdefault('transitions', execs)
            cov.setdefault('traces_validated_against_impl', n)
        else:
            cov.setdefault('evaluations', n)
            cov.setdefault('distinct_nontrivial', len(nontriv))
        ev = {'property': self.pid, 'tier': 'quick' if QUICK else 'thorough', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d cases, %d executions, %d non-trivial, %d distinct outcomes, %s, build %.1f s, %.1f s'
              % (self.pid, n, execs, len(nontriv), len(outcomes), dict(fams) if len(fams) < 40 else '', t_build,
                 time.time() - t0))
        for key in known:
            if key in seen_known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[key].get('what', key)))
            elif not a.fam and not a.limit and not a.stride:
                print('note: known finding not observed in this run: %s' % key[:200])
        for case, res, key in unrepro[:5]:
            print('note: not reproduced alone: %s %s' % (case_key(case)[:300], res['fail'][:300]))
        if confirmed:
            for case, res, key in confirmed[:None if a.keep_going else 3]:
                rp = '%s/replays/%s-%s.json' % (VERIF, self.pid, hashlib.sha256(key.encode()).hexdigest()[:12])
                with open(rp, 'w') as f:
                    json.dump({'property': self.pid, 'case': case, 'result': res,
                               'how': 'python3 %s --replay %s' % (sys.argv[0], rp)}, f, indent=1)
                print('  case %s\n  %s' % (case_key(case)[:700], res['fail'][:700]))
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if errors:
            return 2
        if n == 0:
            print('no cases')
            return 2
        return 0
