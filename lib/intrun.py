"""Running `integrate` and reading its answers."""
import re
from fractions import Fraction as Fr
import explore

ANS = re.compile(r'^\s*Answer:\s*(-?\d+(?:/\d+)?)\s*$', re.M)


def integrate(args, files, timeout=20, stdin=None):
    r = explore.run('integrate', list(args), files, timeout=timeout, stdin=stdin)
    return r, [Fr(a) for a in ANS.findall(r.out + '\n' + r.err)]


def judge(r, ans, exp, n, what):
    """None if the run delivered the exact value, n times."""
    if r.timed_out:
        return '%s: does not terminate' % what
    if any(a != exp for a in ans):
        return '%s: reports %s, exact value %s' % (what, [str(a) for a in ans], exp)
    if len(ans) != n or r.rc != 0:
        return '%s: %d answers instead of %d: %s' % (what, len(ans), n, r.brief())
    return None
