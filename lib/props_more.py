p('C06', 'Ehrhart series and their Taylor terms are exact',
  'For every bounded rational polytope whose affine hull contains integer points, the rational function written by `count --ehrhart-series` or `ehrhart` equals the '
  'Ehrhart series (the sum over k >= 0 of the number of lattice points of the k-th dilation times t^k), the requested number of Taylor terms lists exactly these counts, '
  'and `ehrhart3` prints the polynomial that interpolates the given values.',
  ['inputs'], 'all rational polytopes of bounded families in dimensions 1-4, from inequality and vertex files, with and without equations',
  'No test reads an Ehrhart series.',
  [L + 'count.cpp', L + 'ehrhart.cpp', L + 'ehrhart3.cpp', L + 'Residue.cpp', L + 'genFunction/maple.cpp'], [('homogenization and rational function output', L + 'count.cpp'), ('Taylor expansion', L + 'Residue.cpp, ' + L + 'PolyTree.cpp')],
  tech='exhaustive enumeration of bounded input families; the printed rational function is evaluated exactly and compared with brute-force counts', observe=['FILE.rat', 'stdout'],
  note='Every polytope of the stated families was executed; the rational functions are compared at two exact points.')

p('C07', 'Multivariate generating functions equal the lattice-point sum',
  'The rational function that `count --multivariate-generating-function` writes equals, as a rational function, the sum of the monomials of all lattice points of the polyhedron, '
  'for bounded polytopes and for pointed unbounded polyhedra.',
  ['inputs', 'configurations'], 'all small polyhedra of the bounded families x decomposition modes',
  'No test looks at a generating function, only at its value at one.',
  [L + 'genFunction/maple.cpp', L + 'genFunction/piped.cpp', L + 'barvinok/barvinok.cpp', L + 'count.cpp'], [('term output', L + 'genFunction/maple.cpp'), ('signed decomposition', L + 'barvinok/barvinok.cpp')],
  tech='exhaustive enumeration of bounded polyhedra; exact evaluation of the written function against enumerated lattice points', observe=['FILE.rat'],
  note='Every polyhedron of the stated families was executed.')

p('C08', 'Volumes are exact',
  '`integrate --valuation=volume` prints the exact rational volume of the polytope (the lattice-normalised volume inside the affine hull when equations are given), by the triangulation method and by the cone method, from every input format.',
  ['inputs', 'configurations'], 'all full-dimensional polytopes of bounded families x input formats x methods',
  'The tests compare a few volumes only.',
  [L + 'valuation/PolytopeValuation.cpp', L + 'valuation/valuation.cpp', L + 'triangulation/triangulate.cpp'], [('determinants', L + 'valuation/PolytopeValuation.cpp findVolumeUsingDeterminant'), ('Lawrence formula', L + 'valuation/PolytopeValuation.cpp findVolumeUsingLawrence')],
  tech='exhaustive enumeration of bounded polytopes x methods against an exact rational oracle', observe=['stdout'],
  note='Every case of the stated families was executed.')

p('C09', 'Integrals of polynomials are exact',
  '`integrate --valuation=integrate` with a polynomial prints the exact integral over every full-dimensional rational polytope, by each of its three methods; repeated, cancelling and zero monomials, rational coefficients of any size, spacing and reading the integrand from standard input included.',
  ['inputs', 'configurations'], 'all monomials up to a degree on a set of polytopes, all small polynomials, all polytopes of bounded families, all methods and formats',
  'The tests integrate a few polynomials over a few polytopes.',
  [L + 'valuation/PolytopeValuation.cpp', L + 'integration/PolyTrie.cpp', L + 'integration/newIntegration.cpp', L + 'integration/burstTrie.h', L + 'valuation/Perturbation.cpp'],
  [('decomposition into powers of linear forms', L + 'integration/PolyTrie.cpp'), ('Brion formula with perturbation', L + 'valuation/Perturbation.cpp'), ('integration over simplices', L + 'integration/newIntegration.cpp')],
  tech='exhaustive enumeration of bounded polynomials x polytopes x methods against an exact rational oracle', observe=['stdout'],
  note='Every case of the stated families was executed.')

p('C10', 'Integrals of powers and products of linear forms are exact',
  '`integrate` with sums of powers of linear forms, or of products of powers of linear forms, prints the exact integral over every full-dimensional rational polytope by every applicable method, also when a form is zero, repeated, or constant on edges, facets or the whole polytope.',
  ['inputs', 'configurations'], 'all linear forms with small coefficients x small powers x polytopes; all pairs and triples of forms in sums and products',
  'The tests contain a few linear forms and no singular ones.',
  [L + 'valuation/PolytopeValuation.cpp', L + 'valuation/Perturbation.cpp', L + 'integration/newIntegration.cpp', L + 'integration/PolyTrie.cpp'],
  [('perturbation of singular forms', L + 'valuation/Perturbation.cpp'), ('product expansion', L + 'integration/newIntegration.cpp integrateLinFormProducts')],
  tech='exhaustive enumeration of bounded linear forms x polytopes x methods against an exact rational oracle', observe=['stdout'],
  note='Every case of the stated families was executed.')

p('C11', 'Integer optimization reports a true optimum',
  '`latte-maximize` and `latte-minimize` report, for every bounded polytope with a lattice point and positive dimension, the true optimal value and a lattice point of the polytope attaining it; they never report an optimum of an infeasible program, and the binary-search and single-cone variants report the same value or refuse.',
  ['inputs', 'configurations'], 'all (polytope, cost vector, algorithm) triples of bounded families in dimensions 2 and 3',
  'No test runs the optimizers.',
  [L + 'maximize.cpp', L + 'minimize.cpp', L + 'binarySearchIP.cpp', L + 'IntegralHull.cpp', L + 'ProjectUp.cpp'], [('digging algorithm', L + 'IntegralHull.cpp SolveIP'), ('binary search', L + 'binarySearchIP.cpp'), ('projecting back', L + 'ProjectUp.cpp')],
  tech='exhaustive enumeration of bounded programs on the real optimizers against enumeration of all lattice points', observe=['stderr'],
  note='Every case of the stated families was executed.')

p('C12', 'Knapsack quasi-polynomials are exact',
  'For every list of positive integers with greatest common divisor 1, `top-ehrhart-knapsack` prints coefficient functions that at every integer t equal the coefficients of the quasi-polynomial counting the nonnegative integer solutions of alpha.x = t: for every number of requested terms, for a single coefficient, with either gcd algorithm, any order of the list and any random seed.',
  ['inputs', 'configurations'], 'all small lists x terms x gcd algorithms x seeds, evaluated at every residue modulo the lcm',
  'The tests run no list at all through this program and evaluate no coefficient.',
  [L + 'top-knapsack/TopKnapsack.cpp', L + 'top-knapsack/TopKnapsack.h', L + 'top-knapsack/PeriodicFunction.cpp', L + 'top-knapsack/Driver.cpp'],
  [('series expansion', L + 'top-knapsack/TopKnapsack.cpp'), ('fractional-part functions', L + 'top-knapsack/PeriodicFunction.cpp')],
  tech='exhaustive enumeration of bounded lists; every printed coefficient function evaluated exactly at every residue', observe=['stdout', '-o FILE'],
  note='Every list of the stated families was executed.')

p('C13', 'Format converters preserve the polyhedron',
  '`latte2ine`, `latte2ext` and `ConvertCDDineToLatte` write a file that describes, row by row, the same system as their input: equal rows (up to positive scaling where the target has integers only), the same equations, nonnegativity constraints made explicit, integers and rationals of any size.',
  ['inputs'], 'all entry pairs, keyword combinations, shapes and small systems',
  'The tests convert nothing.',
  [L + 'latte2ine.cpp', L + 'latte2ext.cpp', L + 'convertCDD_ine_to_latte.cpp', L + 'ReadLatteStyle.cpp'],
  [('LattE reader', L + 'ReadLatteStyle.cpp'), ('clearing denominators', L + 'convertCDD_ine_to_latte.cpp')],
  tech='exhaustive enumeration of bounded files through the real converters, output parsed and compared exactly', observe=['stdout', 'output file'],
  note='Every file of the stated families was executed.')

p('C14', 'No memory error and no undefined arithmetic',
  'No run of the programs on a valid input reads or writes outside its objects, uses memory after it was freed or returned from, or executes undefined integer arithmetic, whatever the answer.',
  ['inputs', 'configurations'], 'a fixed subset (every n-th case) of all case families of the other checks, under AddressSanitizer and UBSan',
  'The tests compare numbers; a stray read usually leaves them unchanged.',
  [L + 'count.cpp', L + 'valuation/valuation.cpp', L + 'vertices/cdd.cpp', L + 'LattException.cpp', L + 'integration/PolyTrie.cpp', L + 'maximize.cpp'],
  [('manual memory management of cones and vectors', L + 'cone.cpp, ' + L + 'ramon.cpp'), ('exceptions', L + 'LattException.cpp')],
  tech='exhaustive enumeration of bounded input families with sanitizers monitoring every execution', observe=['sanitizer reports'],
  note='The case list is a deterministic stride of the other checks\' families; libraries are not instrumented.')

p('C15', 'Malformed, unbounded and unknown input is never answered',
  'A LattE file that does not follow the format (missing, extra or non-numeric entries, zero denominators, keyword indices out of range, unknown keywords, any truncation), an unbounded pointed polyhedron, a missing file or an unknown option makes `count`, `integrate`, `ehrhart`, `latte-maximize`, `latte-minimize` and `latte2ine` stop with a non-zero exit status, without printing an answer and without hanging.',
  ['inputs', 'faults'], 'every byte truncation and every token deletion, duplication and replacement of base files; all small unbounded systems; option errors',
  'The tests contain no malformed file and three unbounded ones.',
  [L + 'ReadLatteStyle.cpp', L + 'ReadPolyhedron.cpp', L + 'CheckEmpty.cpp', L + 'ReadingFile.cpp', L + 'vertices/cdd.cpp', L + 'LattException.cpp', L + 'count.cpp'],
  [('reader', L + 'ReadLatteStyle.cpp'), ('unboundedness tests', L + 'vertices/cdd.cpp, ' + L + 'ReadPolyhedron.cpp, ' + L + 'VertexConesWith4ti2.cpp')],
  tech='exhaustive fault enumeration over the input bytes and tokens on the real programs', observe=['exit status', 'stdout', 'numOfLatticePoints'],
  note='Every mutation of the stated alphabet was executed.')

p('C16', 'Faults of helper programs and full disks never give a wrong answer',
  'When an external program that `count`, `integrate`, `ehrhart`, `latte-maximize` or `latte-minimize` calls fails, is killed (before or after its work) or is missing, or when the disk is full after any number of bytes of a file, the run still reports the right answer or stops with a non-zero exit status, without printing a wrong answer or leaving one in its result files (which may be cut off when the exit status says so), and without hanging.',
  ['faults'], 'every (external call, fault kind) and every file size at which writing fails, for runs through every external tool',
  'The tests never inject a fault.',
  [L + 'latte_system.cpp', L + 'CheckEmpty.cpp', L + 'ReadingFile.cpp', L + 'vertices/cdd.cpp', L + 'binarySearchIP.cpp', L + 'dual.cpp', L + 'barvinok/barvinok.cpp'],
  [('checked calls', L + 'latte_system.cpp system_with_error_check'), ('readers of intermediate files', L + 'vertices/cdd.cpp, ' + L + 'ReadingFile.cpp'), ('result files', L + 'barvinok/barvinok.cpp deliver_number_of_lattice_points')],
  tech='fault injection at every external call and every write limit of each run, exhaustively, on the real programs', observe=['exit status', 'stdout', 'numOfLatticePoints', 'FILE.rat'],
  note='Every (run, call, fault kind) and every listed (run, write limit) was executed; the full disk is modelled by a file size limit without the signal.')

p('C17', 'Answers do not depend on what earlier or killed runs left behind',
  'Whatever sequence of runs of `count`, `ehrhart`, `integrate`, `latte-maximize` and `latte-minimize` was made before in the same working directory, including runs that were killed at any point or whose files were torn, the next run delivers the same answer, result file and exit status as in a fresh directory.',
  ['histories', 'crash points'], 'all histories of finished runs, runs killed at every external call and torn writes, up to a depth, each followed by every command',
  'The test driver runs every test in a directory of its own.',
  [L + 'CheckEmpty.cpp', L + 'ReadingFile.cpp', L + 'vertices/cdd.cpp', L + 'binarySearchIP.cpp', L + 'latte_system.cpp', L + 'count.cpp'],
  [('temporary files with fixed names', L + 'CheckEmpty.cpp, ' + L + 'ReadingFile.cpp, ' + L + 'vertices/cdd.cpp'), ('result files', L + 'barvinok/barvinok.cpp')],
  tech='explicit-state exploration of working-directory states reached by finished, killed and torn runs of the real programs', observe=['exit status', 'stdout', 'numOfLatticePoints', 'FILE.rat'],
  note='Every history of the stated depth over the command alphabet was executed; kill points are external calls and write limits.')

p('C18', 'Vertex cones, triangulations and cone inputs describe the polytope exactly',
  'The cones `polyhedron-to-cones` writes are exactly the cones of the polytope at its vertices (or, homogenized, the dual of the cone over it); every triangulation that `triangulate` writes covers its input cone without overlap by simplicial cones on the input\'s own rays; and `count` reports the true number of lattice points when a polytope is handed over as vertex cones, as a homogenized primal or dual cone, or as a subdivision of one.',
  ['inputs', 'options'], 'all generator sets from small grids in dimensions 2 to 5, and all polytopes of the bounded families, with every method',
  'The tests exercise none of the cone programs and none of the intermediate input options.',
  [L + 'triangulation/triangulate.cpp', L + 'triangulation/RegularTriangulationWith4ti2.cpp', L + 'triangulation/RegularTriangulationWithCddlib.cpp', L + 'triangulation/TriangulationWithTOPCOM.cpp', L + 'ReadPolyhedron.cpp', L + 'ReadSubcones.cpp', L + 'print.cpp', L + 'VertexConesWith4ti2.cpp', L + 'vertices/cdd.cpp', L + 'polyhedron-to-cones.cpp'],
  [('triangulations', L + 'triangulation/'), ('vertex cones', L + 'VertexConesWith4ti2.cpp, ' + L + 'vertices/cdd.cpp'), ('cone files', L + 'print.cpp readConeFromFile'), ('intermediate inputs', L + 'ReadPolyhedron.cpp read_polyhedron_from_homog_cone_input')],
  tech='exhaustive enumeration of generator sets and polytopes through the real programs, against exact cone geometry', observe=['cone files', 'numOfLatticePoints'],
  note='Every stated generator set and polytope was executed with every method; subdivisions of a primal cone are a recorded finding.')

p('C19', 'Library calls do not influence one another',
  'A program that links LattE\'s library and makes any sequence of calls in one process (`mainCountDriver`, `mainValuationDriver`, reading a polyhedron from a cdd matrix and taking volumes and integrals of it, also several on one `PolytopeValuation` made from vertices), with calls in between that are refused by an exception, gets from every call the exact answer that the call gives alone.',
  ['histories'], 'all sequences of up to three calls over a core of operations and all pairs over all operations',
  'The library example makes one fixed sequence of calls on one polytope.',
  [L + 'count.cpp', L + 'valuation/valuation.cpp', L + 'valuation/PolytopeValuation.cpp', L + 'ReadPolyhedron.cpp', L + 'latte_system.cpp', L + 'barvinok/barvinok.cpp', L + 'RudyResNTL.cpp', L + 'vertices/cdd.cpp', L + 'integration/PolyTrie.cpp'],
  [('drivers', L + 'count.cpp mainCountDriver, ' + L + 'valuation/valuation.cpp mainValuationDriver'), ('objects', L + 'valuation/PolytopeValuation.cpp'), ('process-wide state', L + 'latte_system.cpp, ' + L + 'vertices/cdd.cpp')],
  tech='exhaustive exploration of call sequences up to a depth, executed in one process against the real library', observe=['returned containers'],
  note='Every stated sequence was executed; each call\'s return value is compared with a value computed outside LattE.')

p('C20', 'hilbert-from-rays generates exactly the lattice points of the cone',
  'For every pointed rational cone given by generators (cdd or 4ti2-style file, triangulation file or subcones file; also cones that are not full-dimensional), with every dualization, triangulation, height vector, pulling order, facet limit and enumeration limit, the vectors in the `.hil` file lie in the cone, are listed once, and together with the given generators contain its Hilbert basis (without subdivision: are contained in it); the `.triang` and subcones files written on the way describe subdivisions of the cone.',
  ['inputs', 'options'], 'all generator sets from small grids in dimensions 2 to 5, embedded also in larger spaces, with every option',
  'The tests do not run this program.',
  [L + 'normalize/normalize.cpp', L + 'latte_4ti2_zsolve.cpp', L + 'genFunction/piped.cpp', L + 'dual.cpp', L + 'ReadSubcones.cpp', L + 'cone_consumer.cpp', L + 'triangulation/RegularTriangulationWith4ti2.cpp'],
  [('recursive decomposition', L + 'normalize/normalize.cpp handle_cone'), ('parallelepiped points', L + 'genFunction/piped.cpp'), ('facets', L + 'dual.cpp'), ('subcone files', L + 'ReadSubcones.cpp')],
  tech='exhaustive enumeration of generator sets and options through the real program, against brute-force Hilbert bases and exact cone geometry', observe=['FILE.hil', 'FILE.triang', 'subcones file'],
  note='Every stated cone was executed with every listed option set.')

p('C21', 'Every decomposition of a cone keeps its generating function',
  'For every simplicial rational cone with any rational apex, each of LattE\'s signed decompositions (dual, irrational primal, irrational all-primal; any index limit, or none) consists of full-dimensional simplicial cones of index at most the limit, lists exactly the lattice points of each fundamental parallelepiped (and their scalar products with a vector), and the signed generating functions of the pieces add up to that of the cone.',
  ['inputs', 'options'], 'all d-subsets of primitive vectors in boxes, dimensions 1 to 5, with integer and rational apexes, every decomposition and index limit',
  'The tests compare totals over few polytopes, where errors of single cones can cancel or not occur.',
  [L + 'barvinok/barvinok.cpp', L + 'barvinok/dec.cpp', L + 'barvinok/ComputeOmega.cpp', L + 'genFunction/piped.cpp', L + 'genFunction/matrix_ops.cpp', L + 'genFunction/IntCombEnum.cpp', L + 'Irrational.cpp', L + 'dual.cpp', L + 'rational.cpp'],
  [('decomposition step', L + 'barvinok/barvinok.cpp barvinokStep'), ('parallelepiped points', L + 'genFunction/piped.cpp'), ('Smith normal form', L + 'genFunction/matrix_ops.cpp'), ('irrational apexes', L + 'Irrational.cpp')],
  tech='exhaustive enumeration of cones of bounded families through the real decomposition code in one process, against generating functions enumerated independently', observe=['decomposed cones', 'lattice points'],
  note='Every stated cone (or every stated n-th one) was decomposed; identities of rational functions are decided by exact evaluation at one point.')

p('C22', 'No outcome of a random choice changes an answer',
  'LattE chooses generic vectors, perturbations, triangulation heights and hash coefficients at random. Whatever those choices turn out to be (vectors that are zero or not generic, perturbations that do not help, equal heights, failed attempts before a successful one), `count`, `ehrhart`, `integrate`, `latte-maximize`, `latte-minimize`, `top-ehrhart-knapsack` and `hilbert-from-rays` finish with the exact answer.',
  ['schedules', 'inputs'], 'all sequences of random outcomes over an alphabet of four values up to a depth (4 in the quick, 6 in the thorough tier), for about 200 runs of all programs and methods',
  'The tests run once with whatever the generator gives; choices that are not generic almost never occur in them.',
  [L + 'barvinok/dec.cpp', L + 'ExponentialSubst.cpp', L + 'ExponentialEhrhart.cpp', L + 'valuation/PolytopeValuation.cpp', L + 'valuation/Perturbation.cpp', L + 'top-knapsack/TopKnapsack.cpp', L + 'triangulation/RegularTriangulation.cpp', L + 'ConeInfo.cpp', L + 'latte_random.cpp', L + 'Residue.cpp'],
  [('restarts', L + 'barvinok/dec.cpp barvinokDecomposition_List'), ('generic vectors', L + 'barvinok/dec.cpp guess_generic_vector'), ('perturbations', L + 'valuation/Perturbation.cpp findPerturbation'), ('residues', L + 'top-knapsack/TopKnapsack.cpp findResidue')],
  tech='stateless exploration of the real programs with the random generator under control: all paths of the choice tree up to a depth', observe=['answers'],
  note='Every path of each listed run\'s choice tree up to the depth was executed; later choices follow a fixed generator.')
