"""Development aid: applies candidate changes to /repo one at a time, reports whether the tests and the named checks see them.
   python3 tools/mutants.py SPEC.py [id...]     SPEC defines M = [dict(id, props, file, old, new)]"""
import json, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('LATTE_REPO', '/repo')   # a clone: no tests are run


def sh(c, t=1200):
    try:
        p = subprocess.run(c, shell=True, text=True, capture_output=True, timeout=t, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def main():
    spec = runpy.run_path(sys.argv[1])
    want = set(a for a in sys.argv[2:] if not a.startswith('-'))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    out = sys.argv[1] + '.diffs'
    os.makedirs(out, exist_ok=True)
    for m in spec['M']:
        if want and m['id'] not in want:
            continue
        assert not sh('git -C %s status --porcelain -uno' % R)[1].strip(), 'dirty'
        edits = m.get('edits') or [(m['file'], m['old'], m['new'])] + [(m['file'],) + e for e in m.get('more', [])]
        ok = True
        for f, old, new in edits:
            p = R + '/code/latte/' + f
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                print(m['id'], 'EDIT does not apply: %d matches in %s' % (s.count(old), f), flush=True)
                ok = False
                break
            open(p, 'w', newline='').write(s.replace(old, new))
        try:
            if not ok:
                continue
            open('%s/%s.diff' % (out, m['id']), 'w').write(sh('git -C %s diff' % R)[1])
            rc, o = sh('bash /opt/vp/build.sh') if R == '/repo' else (0, '')
            if rc:
                print(m['id'], 'BUILD FAILS', o[-300:], flush=True)
                continue
            tests = 'skipped'
            if '--notest' not in sys.argv and R == '/repo':
                sh('bash /opt/vp/test.sh /tmp/mut.json')
                r = json.load(open('/tmp/mut.json'))
                lost = base - set(r['passed'])
                tests = 'pass' if not lost else 'KILLED by %d tests (%s)' % (len(lost), sorted(lost)[0])
            res = []
            if not (tests.startswith('KILLED') and '--all' not in sys.argv):
                for pid in m['props']:
                    rc, o = sh('cd %s && VERIF_TIER=quick python3 checks/%s.py' % (V, pid.lower()))
                    first = [l for l in o.splitlines() if l.startswith('  ')][:2]
                    res.append('%s=%s %s' % (pid, {0: 'quiet', 1: 'CAUGHT'}.get(rc, 'NOANSWER'), ' | '.join(first)[:260] if rc == 1 else o[-200:] if rc else ''))
            print(m['id'], 'tests:', tests, ';'.join(res), flush=True)
        finally:
            sh('git -C %s checkout -- .' % R)
    sh('bash /opt/vp/build.sh')


main()
