import os, subprocess, sys, tempfile
from fractions import Fraction as Fr
B = os.path.join(os.getcwd(), '_build/code/latte')


def run(prog, args, files=None, stdin=''):
    """Runs one program in a scratch directory; returns (exit code, stdout, stderr, reader of files)."""
    with tempfile.TemporaryDirectory() as d:
        for n, c in (files or {}).items():
            open(os.path.join(d, n), 'w').write(c)
        p = subprocess.run([os.path.join(B, prog)] + args, cwd=d, input=stdin, text=True, capture_output=True,
                           timeout=120, errors='replace')
        got = {n: open(os.path.join(d, n), errors='replace').read() for n in os.listdir(d) if os.path.isfile(os.path.join(d, n))}
        return p.returncode, p.stdout, p.stderr, got


def latte(rows, lin=()):
    s = '%d %d\n' % (len(rows), len(rows[0])) + ''.join(' '.join(map(str, r)) + '\n' for r in rows)
    if lin:
        s += 'linearity %d %s\n' % (len(lin), ' '.join(str(i + 1) for i in lin))
    return s


def expect(ok, msg):
    if not ok:
        print('FAIL:', msg)
        sys.exit(1)
