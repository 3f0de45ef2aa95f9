"""Single source of properties.jsonl and MANIFEST.json:  python3 lib/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def p(id, title, statement, over, text, why, files, mech, check=None, level='exploration', tech='', note='',
      state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                  mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CH[id] = dict(tech=tech, note=note, level=level)


CH = {}
L = 'code/latte/'
TB = 'The tests run `count` on a fixed list of sample polytopes (six option sets) and compare one number each; '

p('C01', 'Lattice-point counts of polytopes are exact',
  'For every bounded rational polytope given by inequalities, of any small dimension and with coefficients of any size, '
  '`count` run with default options reports exactly the number of integer points it contains (zero, or an explicit '
  'empty-polytope refusal, when there are none), in its output and in its result file alike.',
  ['inputs'], 'all inequality systems of the bounded coefficient families in dimensions 1-6, including rational and non-simple '
  'vertices, redundant rows, far-away and huge-coefficient polytopes',
  TB + 'no test covers a neighbourhood of inputs exhaustively, so a fault that needs a particular vertex denominator, sign or degeneracy goes unseen.',
  [L + 'count.cpp', L + 'barvinok/barvinok.cpp', L + 'barvinok/dec.cpp', L + 'vertices/cdd.cpp', L + 'dual.cpp', L + 'genFunction/piped.cpp'],
  [('signed decomposition into unimodular cones', L + 'barvinok/barvinok.cpp'), ('residue computation', L + 'barvinok/dec.cpp, ' + L + 'Residue.cpp'),
   ('vertex cones', L + 'vertices/cdd.cpp'), ('parallelepiped points', L + 'genFunction/piped.cpp')],
  tech='exhaustive enumeration of bounded input families on the real program against brute force', observe=['numOfLatticePoints', 'stdout'],
  note='Every input of the stated finite families was executed; nothing is claimed outside them. Trusted: the Python brute-force counter.')

p('C02', 'Counts are exact for systems with equations and lower-dimensional polytopes',
  'When a polytope is described with equations (explicitly declared or implied by inequalities), `count` reports exactly the number of '
  'integer points satisfying the whole system, including the cases where the equations have no integer solution, leave a single '
  'point, or are redundant or inconsistent.',
  ['inputs'], 'all small systems in dimensions 1-4 with one to three equation rows and all linearity subsets of the bounded families',
  TB + 'only a handful have equations, and none enumerates which lattices, offsets and degenerate affine hulls the projection must handle.',
  [L + 'preprocess.cpp', L + 'ReadPolyhedron.cpp', L + 'ReadLatteStyle.cpp', L + 'CheckEmpty.cpp', L + 'count.cpp'],
  [('projection onto a lattice basis', L + 'preprocess.cpp ProjectVariables'), ('hidden equations', L + 'ReadPolyhedron.cpp redundancy check')],
  tech='exhaustive enumeration of bounded equation systems on the real program against brute force', observe=['numOfLatticePoints', 'exit status'],
  note='Every system of the stated finite families was executed.')

p('C03', 'The count does not depend on how the polytope is written down',
  'Row order, positive scaling of rows, duplicated or redundant rows, variable order, unimodular coordinate changes, '
  'declaring nonnegativity by keyword instead of rows, and writing the same polytope as a LattE or CDD file, by inequalities or by '
  'vertices, all lead `count` to the same exact number.',
  ['inputs', 'configurations'], 'all rewrites of a fixed rewrite alphabet applied to every polytope of bounded families',
  TB + 'each polytope is tested in one notation only.',
  [L + 'ReadPolyhedron.cpp', L + 'ReadLatteStyle.cpp', L + 'ReadingFile.cpp', L + 'latte_cddlib.cpp', L + 'CheckEmpty.cpp'],
  [('readers', L + 'ReadPolyhedron.cpp'), ('redundancy removal', L + 'ReadPolyhedron.cpp')],
  tech='exhaustive enumeration of rewrites of bounded polytopes, real program, brute-force oracle', observe=['numOfLatticePoints'],
  note='Every (polytope, rewrite) pair of the stated product was executed.')

p('C04', 'Algorithmic options never change the answer',
  'Every documented combination of decomposition mode, stopping determinant, substitution, triangulation, dualization, vertex-cone, Smith-form and '
  'redundancy-check options makes `count` either report the exact number of lattice points or refuse with a non-zero exit status; '
  'no option combination yields a different number.',
  ['configurations', 'inputs'], 'all pairs (and, in the thorough tier, all combinations) of option values on a set of structurally different polytopes',
  'The test suite runs six option sets; the product of options has thousands of members.',
  [L + 'count.cpp', L + 'barvinok/barvinok.cpp', L + 'triangulation/triangulate.cpp', L + 'Irrational.cpp', L + 'ExponentialSubst.cpp', L + 'genFunction/piped.cpp', L + 'dual.cpp'],
  [('option parsing', L + 'count.cpp'), ('irrationalization', L + 'Irrational.cpp'), ('exponential substitution', L + 'ExponentialSubst.cpp'), ('triangulation dispatch', L + 'triangulation/triangulate.cpp')],
  tech='exhaustive enumeration of option combinations x polytopes on the real program', observe=['numOfLatticePoints', 'exit status'],
  note='Every listed combination was executed on every listed polytope.')

p('C05', 'Ehrhart polynomials and dilation counts are exact',
  'For every full-dimensional lattice polytope the reported Ehrhart polynomial takes at every dilation factor the number of lattice points of the dilated polytope; '
  'and counting with a dilation factor reports exactly the number of lattice points of that multiple of the polytope.',
  ['inputs', 'configurations'], 'all lattice polytopes and dilation factors of bounded families',
  'No test computes an Ehrhart polynomial or uses a dilation factor.',
  [L + 'ExponentialEhrhart.cpp', L + 'count.cpp', L + 'ReadPolyhedron.cpp'], [('Ehrhart polynomial by exponential substitution', L + 'ExponentialEhrhart.cpp'), ('dilation', L + 'ReadPolyhedron.cpp')],
  tech='exhaustive enumeration of bounded polytopes x dilation factors against brute force', observe=['stdout', 'numOfLatticePoints'],
  note='Every case of the stated families was executed.')
json  # keep
exec(open(os.path.join(V, 'lib', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'lib', 'props_more.py')) else None


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    checks = []
    for id, c in CH.items():
        if not os.path.exists('%s/checks/%s.py' % (V, id.lower())):
            continue
        cmd = 'python3 checks/%s.py' % id.lower()
        checks.append(dict(property=id, quick_cmd='VERIF_TIER=quick ' + cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd,
                           evidence_file='evidence/%s.json' % id, technique='model checking: ' + c['tech'], level=c['level'],
                           level_note=c['note']))
    have = {c['property'] for c in checks}
    na = NA + [dict(property=i, reason='machinery under construction') for i in CH if i not in have]
    m = dict(version=1, setup_cmd='python3 lib/vbuild.py opt', checks=checks, not_applicable=na,
             notes='No hooks are needed: every check builds the programs from /repo/code with lib/vbuild.py.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(P), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()
