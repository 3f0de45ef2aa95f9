"""C13: the format converters latte2ine, latte2ext and ConvertCDDineToLatte preserve the system, row by row."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import itertools
from fractions import Fraction as Fr
import explore
from explore import ok, bad, QUICK

NUM = ['0', '1', '-1', '2', '-3', '1/2', '-2/3', '12345678901234567890', '-7/98765432109876543210']
RAW = NUM + ['4/2', '-6/4', '0/3', '-0', '10/-4'][:4]


def subsets(n):
    return [list(s) for k in range(n + 1) for s in itertools.combinations(range(1, n + 1), k)]


def cases():
    for prog in ('latte2ine', 'latte2ext', 'cdd'):
        # every pair / triple of entries in a row
        for e in itertools.product(RAW, repeat=2 if QUICK else 3):
            yield {'fam': 'entries', 'p': prog, 'rows': [list(e)], 'lin': None, 'nn': None}
        for d in (1, 2, 3):
            base = [['3', '-1', '2', '1/2'], ['0', '1', '0', '-2'], ['5', '-2/3', '-1', '0'], ['-1', '4', '4', '4']]
            for m in range(1, 5):
                rows = [r[:d + 1] for r in base[:m]]
                for lin in [None] + subsets(m):
                    for nn in ([None] + subsets(d)) if prog == 'latte2ine' else [None]:
                        for order in (0, 1) if lin is not None and nn is not None else (0,):
                            yield {'fam': 'keywords', 'p': prog, 'rows': rows, 'lin': lin, 'nn': nn, 'order': order}
        for m, n in itertools.product(range(1, 9), range(2, 10)):
            yield {'fam': 'shapes', 'p': prog, 'rows': [[str((3 * i * i + 5 * j * i + 7 * j) % 11 - 5) for j in range(n)] for i in range(m)],
                   'lin': None, 'nn': None}
            yield {'fam': 'shapes', 'p': prog, 'rows': [['%d/%d' % ((3 * i * i + 5 * j * i + 7 * j) % 11 - 5, (i + 2 * j) % 6 + 1) for j in range(n)] for i in range(m)],
                   'lin': [m], 'nn': None}
    # every small system of two rows
    V = ['-1', '0', '2'] if QUICK else ['-1', '0', '1', '2', '1/3']
    for prog in ('latte2ine', 'cdd'):
        for e in itertools.product(V, repeat=6):
            for lin in (None, [1], [2], [1, 2]):
                yield {'fam': 'systems', 'p': prog, 'rows': [list(e[:3]), list(e[3:])], 'lin': lin, 'nn': None}


def parse_cdd(text):
    """(representation, linearity set, rows) of a CDD file."""
    tok = text.split()
    rep, lin, i, rows = None, set(), 0, None
    while i < len(tok):
        t = tok[i]
        if t in ('H-representation', 'V-representation'):
            rep = t[0]
        elif t in ('linearity', 'equality', 'partial_enum'):
            k = int(tok[i + 1])
            lin |= {int(x) for x in tok[i + 2:i + 2 + k]}
            i += 1 + k
        elif t == 'begin':
            m, n = int(tok[i + 1]), int(tok[i + 2])
            if tok[i + 3] not in ('rational', 'integer', 'real'):
                raise ValueError('number type ' + tok[i + 3])
            i += 4
            rows = [[Fr(x) for x in tok[i + r * n:i + r * n + n]] for r in range(m)]
            i += m * n
            if tok[i] != 'end':
                raise ValueError('no end')
        else:
            raise ValueError(t)
        i += 1
    return rep, lin, rows


def parse_latte(text):
    tok = text.split()
    m, n = int(tok[0]), int(tok[1])
    rows = [[Fr(x) for x in tok[2 + r * n:2 + r * n + n]] for r in range(m)]
    i, lin = 2 + m * n, set()
    while i < len(tok):
        if tok[i] not in ('linearity', 'nonnegative'):
            raise ValueError(tok[i])
        k = int(tok[i + 1])
        idx = [int(x) for x in tok[i + 2:i + 2 + k]]
        if len(idx) != k:
            raise ValueError('short ' + tok[i])
        if tok[i] == 'linearity':
            lin |= set(idx)
        else:
            rows += [[Fr(int(j == x)) for j in range(n)] for x in idx]
        i += 2 + k
    return lin, rows


def same(got, want, positive_scaling):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if len(g) != len(w):
            return False
        if g == w:
            continue
        if not positive_scaling:
            return False
        s = [(a, b) for a, b in zip(g, w) if a or b]
        if any(a == 0 or b == 0 for a, b in s) or len({a / b for a, b in s}) != 1 or s[0][0] / s[0][1] < 0:
            return False
    return True


def run_case(c):
    rows, lin, nn = c['rows'], c['lin'], c['nn']
    n = len(rows[0])
    want = [[Fr(x) for x in r] for r in rows]
    body = ''.join(' '.join(r) + '\n' for r in rows)
    lins = set(lin or [])
    L = '' if lin is None else 'linearity %d %s\n' % (len(lin), ' '.join(map(str, lin)))
    if c['p'] == 'cdd':
        txt = 'H-representation\n%sbegin\n%d %d rational\n%send\n' % (L, len(rows), n, body)
        r = explore.run('ConvertCDDineToLatte', ['in.ine', 'out'], {'in.ine': txt})
        out = r.read('out')
    else:
        N = '' if nn is None else 'nonnegative %d %s\n' % (len(nn), ' '.join(map(str, nn)))
        txt = '%d %d\n%s%s' % (len(rows), n, body, N + L if c.get('order') else L + N)
        want += [[Fr(int(j == x)) for j in range(n)] for x in nn or []]
        r = explore.run(c['p'], [], stdin=txt)
        out = r.out
    if r.rc != 0:
        return bad('%s fails: %s' % (c['p'], r.brief()))
    try:
        if c['p'] == 'cdd':
            glin, got = parse_latte(out)
            if any(x.denominator != 1 for g in got for x in g):
                return bad('a LattE file with fractions: %s' % out)
        else:
            rep, glin, got = parse_cdd(out)
            if rep != ('H' if c['p'] == 'latte2ine' else 'V'):
                return bad('%s writes representation %s' % (c['p'], rep))
    except (ValueError, IndexError) as e:
        return bad('unreadable output (%s): %s' % (e, out[:300]))
    if not same(got, want, c['p'] != 'latte2ext'):
        return bad('%s: rows %s became %s' % (c['p'], rows, [[str(x) for x in g] for g in got]))
    if glin != lins:
        return bad('%s: equations %s became %s' % (c['p'], sorted(lins), sorted(glin)))
    return ok('%s %d rows' % (c['p'], len(got)))


if __name__ == '__main__':
    C = explore.Check('C13', 'every entry pair, keyword combination, shape and small system x converter; the output parsed and compared row by row',
                      programs=['latte2ine', 'latte2ext', 'ConvertCDDineToLatte'])
    sys.exit(C.main(cases, run_case))
