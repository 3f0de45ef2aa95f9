"""Running LattE's programs and reading their answers."""
import re
from fractions import Fraction as Fr
import explore


def count_run(args, text, files=None, timeout=20, name='in.latte', cwd=None, env=None):
    f = dict(files or {})
    f[name] = text
    r = explore.run('count', list(args) + [name], f, timeout=timeout, cwd=cwd, env=env)
    return r


def count_value(r):
    """('n', value) for a delivered answer, ('empty', 0) for the documented refusal of an empty
    polytope, ('err', reason) for everything else."""
    v = r.read('numOfLatticePoints')
    v = v.strip() if v is not None else None
    if r.timed_out:
        return 'err', 'timeout'
    if r.rc == 0:
        if v is None or not re.fullmatch(r'-?\d+', v):
            return 'err', 'exit 0 without an answer (%r)' % v
        return 'n', int(v)
    if r.rc == 1 and 'Empty polytope' in r.err and v in ('0', None):
        return 'empty', 0
    return 'err', r.brief()


def stdout_value(r):
    """The integer printed on stdout, if any line is one."""
    for line in reversed(r.out.strip().splitlines()):
        if re.fullmatch(r'-?\d+', line.strip()):
            return int(line)
    return None


def check_count(r, expected):
    """None if the run delivered exactly `expected`, else a description."""
    k, v = count_value(r)
    if k == 'err':
        return 'expected %d, got no answer: %s' % (expected, v)
    if v != expected:
        return 'expected %d, numOfLatticePoints says %d (%s)' % (expected, v, r.brief())
    if k == 'n':
        s = stdout_value(r)
        if s is not None and s != expected:
            return 'expected %d, stdout says %d' % (expected, s)
    return None


def fr(s):
    return Fr(s)
