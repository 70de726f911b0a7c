"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; the results are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ELL = 'products/ellipy/elltool/core/ellipsoid/Ellipsoid.py'
AELL = 'products/ellipy/elltool/core/aellipsoid/AEllipsoid.py'
ABAS = 'products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py'
HYP = 'products/ellipy/elltool/core/hyperplane/Hyperplane.py'
CORE = 'products/ellipy/elltool/core/core.py'
PROP = 'products/ellipy/elltool/conf/properties/Properties.py'
PARSE = 'products/ellipy/elltool/conf/properties/_ParseProp.py'
COMMON = 'products/ellipy/gen/common/common.py'
DICT = 'products/ellipy/gen/dict/dict.py'
LOGG = 'products/ellipy/gen/logging/logging.py'
LA = 'products/ellipy/gras/la/la.py'
GEN = 'products/ellipy/gras/gen/gen.py'
SYM = 'products/ellipy/gras/sym/sym.py'
GEOM = 'products/ellipy/gras/geom/geom.py'
SUP = 'products/ellipy/gras/geom/sup/sup.py'
GELL = 'products/ellipy/gras/geom/ell/ell.py'
TRI = 'products/ellipy/gras/geom/tri/tri.py'

P = []


def prop(pid, title, statement, over, qtext, why, mech, tech, level, note, state=None, observe=None):
    files = []
    for _, w in mech:
        f = w.split(':')[0]
        if f not in files:
            files.append(f)
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': qtext},
                  why_tests_cant=why, anchors=a, tech=tech, level=level, note=note))


prop('C01', 'The configuration store reads back exactly what was last written',
     'After any sequence of writes, re-initialisations and replacements of the configuration repository, every setting reads '
     'back the value written last (or its default after re-initialisation), and no other setting changes. '
     'A snapshot of all settings taken at any moment shows exactly these values, is not changed by later writes and gives no way to change the store.',
     ['histories', 'configurations'], 'all sequences of get / set / init / replace / snapshot operations, for all settings and values',
     'The tests read the defaults and one setter; the guarantee is about every interleaving of operations on a process-wide store.',
     [('process-wide repository dictionary with getters and setters', PROP + ':Properties'), ('snapshot copy', PROP + ':get_prop_dict')],
     'explicit-state model checking: reachable graph of a store model, every edge replayed on the real store, plus every history up to a depth executed statelessly',
     'model_checking', 'Histories up to depth 4 (quick) / 5-6 (thorough) over all setters with two values each; the model is a plain dictionary; every edge and history is executed on the implementation.',
     state=[{'name': 'configuration repository', 'meaning': 'current value of every setting', 'where': PROP + ':__conf_repo_mgr'}])

prop('C02', 'Explicit properties win over configured ones, and invalid ones are rejected',
     'For every list of known setting names in any order and every set of explicitly given values, parsing returns in the order asked the explicit value where one is given '
     'and the currently configured one otherwise, together with exactly the arguments that were not consumed, and modifies neither its arguments nor the configuration. '
     'A value that is invalid for its setting (wrong type, non-positive tolerance, non-integer number of points, unknown solver name), wherever it comes from, and an unknown setting name are rejected with an input error. '
     'Ellipsoids and hyperplanes capture the values found this way when they are constructed.',
     ['inputs', 'configurations'], 'all lists of names, all subsets of explicit values, all configurations of the store',
     'The tests parse one list of names with one set of arguments; order, subsets and the source of an invalid value are combinatorial.',
     [('name lookup, per-setting validators, fallback to the configuration', PARSE + ':parse_prop'), ('capture at construction', ELL + ':Ellipsoid.__init__'), ('capture at construction', HYP + ':Hyperplane.__init__')],
     'bounded-exhaustive explicit-state exploration of the real parser and constructors over all name lists x explicit subsets x configurations against a dictionary model',
     'exploration', 'All ordered lists of at most two of the eleven names plus all orders of the four object settings, all subsets explicit, two configurations; all listed valid and invalid values per setting.')

prop('C03', 'Objects own their data; only in-place projection changes an object',
     'An ellipsoid or hyperplane never shares memory with the arrays it was built from, with arrays it returned, or with another object made from it (copy, replication, dictionary, polar, negation, projection), so changing any of those never changes it. '
     'Whatever sequence of library calls and configuration changes is made, successful or failing, its parameters and captured properties stay as constructed, except that in-place projection replaces the center and shape of exactly the objects it was given.',
     ['histories'], 'all sequences of creating, deriving, querying, mutating-what-was-returned, reconfiguring and projecting',
     'Aliasing shows only in sequences where a caller keeps modifying arrays between calls; the tests never do.',
     [('defensive copies in property accessors', ELL + ':_shape_mat'), ('defensive copies in property accessors', AELL + ':_center_vec'), ('defensive copies in property accessors', HYP + ':_normal_vec'), ('copying', ABAS + ':get_copy'), ('in-place projection', AELL + ':projection')],
     'explicit-state model checking of a two-register object model (exact rationals); every edge of its graph replayed on the real objects with all observers compared, plus stateless enumeration of all short action sequences',
     'model_checking', 'Model graph with two object registers, three configurations and 19 actions; every edge is replayed by its shortest history; all sequences of 2 (quick) / 3 (thorough) actions without state merging.',
     state=[{'name': 'center, shape, normal, shift and captured properties', 'meaning': 'value of an object', 'where': ABAS + ':ABasicEllipsoid'}])

prop('C04', 'Library calls are pure functions of their arguments',
     'No library call other than in-place projection and the configuration setters modifies its arguments or the configuration, and none depends on hidden state: '
     'called with the same arguments it returns the same result whichever library calls were made before, whether or not diagnostic output is switched on, and whatever later happens to configured values its arguments have already captured.',
     ['histories', 'configurations'], 'all pairs of calls in either order, each from a fresh process, under each configuration',
     'Every test calls a function once on fresh inputs, so caches, in-place reshapes and mutable defaults stay invisible.',
     [('functions build their results from copies', ELL + ':Ellipsoid'), ('static vector operations', GEN + ':MatVector'), ('grids and meshes', TRI + ':sphere_tri_ext'), ('matrix functions', LA + ':orth_transl'), ('comparison', DICT + ':dict_compare')],
     'stateless model checking of call sequences: all ordered pairs of the public calls and all calls in all configurations, compared with baselines computed in separately forked fresh processes',
     'exploration', 'One argument set per call (103 calls covering the public functions); sequences of length at most 2 (quick) / longer around stateful candidates (thorough).')

prop('C05', 'Exactly the valid parameters are accepted, and stored unchanged',
     'An ellipsoid is created exactly when its center is a finite vector and its shape a finite square matrix of the same dimension that is real, symmetric and positive semidefinite within the absolute tolerance of the ellipsoid; '
     'a hyperplane exactly when its normal is a finite real vector and its shift one finite real number; everything else raises an input error. '
     'What was accepted is stored unchanged as real double-precision arrays, for every numeric type, memory layout and row or column orientation; without a center the ellipsoid is centered at the origin, without parameters the object is empty.',
     ['inputs'], 'all matrices, vectors, tolerances, types, layouts',
     'The tests construct a dozen objects; the boundary between valid and invalid shapes is a property of all matrices.',
     [('validation of the shape matrix', ELL + ':_shape_mat'), ('validation of the center', AELL + ':_center_vec'), ('validation of the normal and shift', HYP + ':_normal_vec'), ('tolerance tests', LA + ':is_mat_pos_def')],
     'bounded-exhaustive exploration of all small integer matrices/vectors with an exact rational decision of validity',
     'exploration', 'All symmetric 1x1..3x3 matrices over small alphabets (4x4 in thorough), all 2x2 matrices, tolerance boundary on both sides by factors, all container forms.')

prop('C06', 'Equality is a symmetric tolerance comparison of what the objects represent',
     'Two ellipsoids are equal exactly when their dimensions agree and every entry of their centers and of the square roots of their shape matrices agrees within the smaller of their absolute tolerances or, relatively, of their relative tolerances; '
     'hyperplanes are compared by unit normal and scaled shift up to a common sign, so multiplying both parameters by a non-zero number never matters; captured properties count only when asked for. '
     'The verdict is reflexive and symmetric; arrays are compared elementwise, a single object with every element, two empty arrays are equal, and arrays of different shapes or an empty with a non-empty one are rejected.',
     ['inputs'], 'all pairs of objects, tolerances and array shapes',
     'The tests compare a few pairs; a comparison ignoring one entry, one order of arguments or one shape passes them.',
     [('tolerances, dictionaries, broadcasting', ABAS + ':_is_equal_internal'), ('canonical form', HYP + ':to_dict'), ('square roots', ELL + ':to_dict'), ('comparison', DICT + ':dict_compare_vec')],
     'bounded-exhaustive exploration of all pairs from menus of exactly distinct objects, all single-entry perturbations around the tolerances, all array patterns and shapes',
     'exploration', 'Perturbations at fixed factors of the tolerances, away from the exact boundary; dimensions 1..3, arrays of up to 4 objects.')

prop('C07', 'Dictionaries, copies and replicas reproduce the objects they came from',
     'For every array of ellipsoids or hyperplanes of any shape, including empty objects, conversion to dictionaries and back, copying, and replication of an object into a requested shape give an array of the same (the requested) shape whose elements are new objects with the same parameters and, for copies, replicas and dictionaries with properties included, the same captured tolerances and numbers of plot points; '
     'dictionaries without properties give objects with the currently configured ones. '
     'Hyperplane dictionaries carry the unit normal and the correspondingly scaled non-negative shift; a size vector that is empty, negative, fractional, non-numeric or not a vector is rejected with an input error.',
     ['inputs'], 'all objects, properties, array shapes and size vectors',
     'The tests convert one or two objects with default properties; loss of one field or of the array shape is invisible there.',
     [('dictionary conversion', ELL + ':to_dict'), ('dictionary conversion', ELL + ':from_dict'), ('dictionary conversion', HYP + ':to_dict'), ('copy', ABAS + ':get_copy'), ('replication', ABAS + ':rep_mat'), ('constructing replicas', ELL + ':from_rep_mat')],
     'bounded-exhaustive exploration over menus of objects x property settings x array shapes x size vectors against field-by-field expectations',
     'exploration', 'Dimensions 0..5, all 16 property combinations, array shapes up to rank 3 and 4 elements, all size vectors over a small alphabet.')

prop('C08', 'Support values and support points are exact for every ellipsoid and direction',
     'For every ellipsoid, degenerate ones included, and every direction the support value equals the scalar product of center and direction plus the square root of the quadratic form of the shape matrix on the direction, and the returned point belongs to the ellipsoid and attains this value (it is the center when the form is zero, forms negative within the absolute tolerance counting as zero). '
     'This holds alike for one ellipsoid with many directions, many ellipsoids with one direction, and ellipsoids paired with directions, results being in the order of the arguments; empty, non-matching dimensions or sizes and non-numeric directions are rejected.',
     ['inputs'], 'all shapes, centers, directions, pairings',
     'The tests check a handful of diagonal shapes; the formula must hold for correlated, degenerate and shifted ones and in every pairing.',
     [('array pairing', ELL + ':rho'), ('support function and points', GELL + ':rho_mat'), ('clipped square root', GEN + ':sqrt_pos')],
     'bounded-exhaustive exploration of all small integer shapes x centers x directions x pairing forms against exact rational quadratic forms',
     'exploration', 'Dimensions 1..5, all positive semidefinite matrices over small alphabets, all non-zero directions over {-1,0,1} and scales.')

prop('C09', 'Boundary samples lie on the boundary, in the number asked for',
     'For every two- or three-dimensional ellipsoid the sampled boundary points are images of unit directions under the symmetric square root of the shape matrix, shifted to the center, and the support-based sampling returns directions together with their support values and support points, the first direction being repeated at the end; accompanying edges or triangles refer to these points and close up into one curve or surface. '
     'The plane gets exactly the requested number of points, equally spaced in angle, and space the smallest icosahedron refinement (of at least one step) with at least as many vertices; if no number is given the captured number is used, and with a factor its product with the captured number of the ellipsoid, rounded down. '
     'Other dimensions are rejected.',
     ['inputs'], 'all shapes, centers, numbers of points, factors, captured properties',
     'The tests sample two or three ellipsoids with default numbers of points.',
     [('boundary', ELL + ':get_boundary'), ('boundary by support function', ELL + ':get_rho_boundary'), ('scaling of the number of points', ELL + ':get_boundary_by_factor'), ('grids', TRI + ':sphere_tri_ext')],
     'bounded-exhaustive exploration of shapes x centers x point counts x factors, each point checked against the defining equation',
     'exploration', 'Point counts 1..40 and refinement thresholds up to depth 3, factors over a menu, shapes from exact menus including degenerate ones.')

prop('C10', 'Projection gives the ellipsoid seen in the coordinates of the given basis',
     'The projection onto mutually orthogonal non-zero vectors of any length has center and shape expressed in the coordinates of the normalised vectors, so its support function equals that of the original on the subspace; captured properties are kept. '
     'The copying form leaves its argument as it was, the in-place form changes exactly the objects given and returns them, and both keep the shape of the array. '
     'Vectors that are not orthogonal (in either sign), too many vectors, other dimensions and non-numeric bases are rejected without changing any object.',
     ['inputs'], 'all ellipsoids, orthogonal families, array shapes',
     'The tests project onto coordinate axes; scaling, order, non-axis bases and failing calls are not sampled.',
     [('orthogonality check, normalisation', AELL + ':projection'), ('change of coordinates', ELL + ':_projection_single_internal'), ('copy', ELL + ':get_projection')],
     'bounded-exhaustive exploration over ellipsoids x all orthogonal/non-orthogonal integer bases x array shapes against exact rational projections',
     'exploration', 'Dimensions 1..4, all families of vectors over {-1,0,1} (and scales), orthogonality decided exactly.')

prop('C11', 'Dimension, rank, degeneracy, trace, eigenvalues, volume match the shape matrix',
     'For every array of ellipsoids the dimension, rank, emptiness and degeneracy (smallest eigenvalue not above the absolute tolerance of the ellipsoid) have the shape of the array, and trace, extreme eigenvalues and volume are listed in its order, all equal to the values defined by the shape matrix; '
     'the volume is the square root of the determinant times the volume of the unit ball of that dimension, zero for degenerate ellipsoids. '
     'An empty ellipsoid has dimension and rank zero, and asking its degeneracy, trace, eigenvalues or volume is an error; the center never matters.',
     ['inputs'], 'all shapes, dimensions, tolerances and arrays',
     'The tests use a few matrices in low dimension; wrong ball volumes in one parity, eigenvalue order or ignoring the tolerance pass.',
     [('characteristics', AELL + ':volume'), ('degeneracy', AELL + ':is_degenerate'), ('dimension and rank', AELL + ':dimension'), ('emptiness', ABAS + ':is_empty')],
     'bounded-exhaustive exploration over exact menus of matrices x tolerances x array shapes against rational/Jacobi reference values',
     'exploration', 'Dimensions 0..8, matrices with prescribed rational spectra and all small integer matrices.')

prop('C12', 'Membership in a union or intersection is decided pointwise and exactly',
     'Each given point is reported to be in the union (intersection) of the ellipsoids exactly when it belongs to at least one (to every one) of them, boundary points within the absolute tolerance included; there is one verdict per point, in the order of the points, whatever the shape of the array of ellipsoids. '
     'A degenerate ellipsoid contains its points in its own subspace and no point away from it; non-numeric points, other dimensions, empty ellipsoids or arrays and unknown modes are rejected.',
     ['inputs'], 'all points, ellipsoids, arrays, both modes',
     'The tests ask about a few points of one or two ellipsoids.',
     [('membership', ELL + ':is_internal'), ('regularization of degenerate shapes', LA + ':reg_pos_def_mat')],
     'bounded-exhaustive exploration of arrays of ellipsoids x grid points x modes against an exact rational membership decision',
     'exploration', 'Dimensions 1..3, integer and boundary points decided exactly, arrays of up to 3 ellipsoids in all shapes; degenerate ones only with points in the subspace or far from it.')

prop('C13', 'Containment of concentric ellipsoids is decided correctly',
     'The containment test of one ellipsoid in another answers whether the second would lie inside the first if their centers coincided, i.e. whether the difference of the shape matrices is positive semidefinite up to the tolerance, for non-degenerate and degenerate ellipsoids alike. '
     'It depends on neither center, it is reflexive, and ellipsoids of different dimensions or arguments that are not single ellipsoids are rejected.',
     ['inputs'], 'all pairs of shapes',
     'The tests compare a few pairs, mostly balls and diagonal shapes.',
     [('containment', ELL + ':is_bigger'), ('simultaneous diagonalization', CORE + ':ell_sim_diag')],
     'bounded-exhaustive exploration of all pairs of small integer shapes against the exact rational positive semidefiniteness of the difference',
     'exploration', 'All pairs of positive semidefinite 1x1, 2x2 matrices and menus of 3x3 and 4x4 ones.')

prop('C14', 'The polar is the polar set, and the polar of the polar is the original',
     'For every non-degenerate ellipsoid with the origin in its interior the polar ellipsoid consists exactly of the vectors whose scalar products with all points of the ellipsoid are at most one, and the polar of the polar is the original ellipsoid, by either computing method. '
     'Arrays of any shape are processed elementwise keeping the shape, and a degenerate ellipsoid in the array is rejected.',
     ['inputs'], 'all ellipsoids around the origin, arrays',
     'The tests take the polar of a few mostly centered ellipsoids.',
     [('polar', ELL + ':polar'), ('polar of one ellipsoid', ELL + ':_get_scalar_polar_internal'), ('quadratic forms', GELL + ':quad_mat')],
     'bounded-exhaustive exploration of shapes x centers against the exact rational polar',
     'exploration', 'All positive definite small integer shapes in dimensions 1..3 and menus in 4, rational centers with the origin strictly inside.')

prop('C15', 'External Minkowski-sum approximations contain the sum and touch it',
     'For every array of at least two ellipsoids and every direction the external approximation is an ellipsoid centered at the sum of the centers whose support function is at least the sum of the support functions in every direction and equal to it in the given one, up to rounding (up to the regularization of degenerate summands by the absolute tolerance). '
     'There is one approximation per direction, in order; for a single ellipsoid it is that ellipsoid; empty arrays, empty ellipsoids and mismatching dimensions are rejected.',
     ['inputs'], 'all arrays of ellipsoids, directions',
     'The tests compare a few sums with stored results.',
     [('external approximation', ELL + ':minksum_ea'), ('regularization', LA + ':reg_pos_def_mat')],
     'bounded-exhaustive exploration of arrays of ellipsoids x directions, each approximation checked against the sum of support functions on a direction grid',
     'exploration', 'Dimensions 1..4, arrays of 1..4 ellipsoids from exact menus including degenerate ones, all directions over {-1,0,1}; inequality checked on a finite grid of directions and by comparison with the closed form.')

prop('C16', 'Internal Minkowski-sum approximations are contained in the sum and touch it',
     'For every array of at least two ellipsoids and every direction the internal approximation is an ellipsoid centered at the sum of the centers whose support function is at most the sum of the support functions in every direction and equal to it in the given one, up to rounding (up to the regularization of degenerate summands by the absolute tolerance). '
     'There is one approximation per direction, in order; for a single ellipsoid it is that ellipsoid; empty arrays, empty ellipsoids and mismatching dimensions are rejected.',
     ['inputs'], 'all arrays of ellipsoids, directions',
     'The tests compare a few sums with stored results.',
     [('internal approximation', ELL + ':minksum_ia'), ('orthogonal matching of directions', LA + ':ml_orth_transl')],
     'bounded-exhaustive exploration of arrays of ellipsoids x directions, each approximation checked against the sum of support functions on a direction grid',
     'exploration', 'Dimensions 1..4, arrays of 1..4 ellipsoids from exact menus including degenerate ones, all directions over {-1,0,1}; inequality checked on a finite grid of directions.')

prop('C17', 'Negation is reflection through the origin and is its own inverse',
     'Negating an array of ellipsoids or hyperplanes of any shape, also by the unary minus, gives an array of the same shape with every object reflected through the origin: the center of an ellipsoid changes its sign and its shape matrix stays, both the normal and the shift of a hyperplane change their signs, so that it remains the same set. '
     'Negating twice restores every parameter, empty objects and empty arrays stay empty, and the arguments are not changed.',
     ['inputs'], 'all objects and array shapes',
     'The tests negate one or two objects.',
     [('negation', ELL + ':uminus'), ('negation', HYP + ':uminus')],
     'bounded-exhaustive exploration of objects x array shapes against exact negation',
     'exploration', 'Dimensions 0..4, array shapes up to rank 3.')

prop('C18', 'Hyperplane membership, parallelism and dimension follow from the parameters',
     'A point belongs to a hyperplane exactly when the scalar product with the normal differs from the shift by less than the absolute tolerance, infinite coordinates being ignored where the normal is zero and excluding the point elsewhere; one point is tested with every hyperplane, several points with one hyperplane, and arrays of equal size elementwise, in order. '
     'Two hyperplanes are parallel exactly when their unit normals coincide up to sign within the absolute tolerance of the first, and dimensions agree; a single one is compared with every element of an array. '
     'The dimension is that of the normal, zero exactly for a one-dimensional hyperplane with zero normal and shift, and mismatching sizes or dimensions, non-numeric and undefined coordinates are rejected.',
     ['inputs'], 'all hyperplanes, points, array shapes',
     'The tests try a few hyperplanes; agreement in only one component, sign or pairing errors pass them.',
     [('membership', HYP + ':contains'), ('parallelism', HYP + ':is_parallel'), ('dimension', HYP + ':dimension')],
     'bounded-exhaustive exploration of hyperplanes x points x pairings against exact rational decisions',
     'exploration', 'Dimensions 1..4, all normals over small alphabets, points on a grid incl. infinities, array shapes up to 4 objects.')

prop('C19', 'Tolerant comparison of arrays and dictionaries agrees with its definition',
     'Two numeric arrays of equal shape compare equal exactly when NaNs and infinities are in the same places and every other pair of entries differs by at most the absolute tolerance or, if a relative tolerance is given, by at most it relative to the half sum of magnitudes; the reported maximal absolute and relative differences and the message are consistent with the verdict, and invalid arguments are rejected. '
     'Dictionaries, and arrays or lists of them, compare equal exactly when they have the same keys and all values - numbers, arrays, strings, booleans, None, nested lists and dictionaries - agree in type, size and, for numbers, within these tolerances; otherwise the report is non-empty and names the key, and elementwise comparison gives one verdict per pair.',
     ['inputs'], 'all arrays, tolerances, nested structures',
     'The tests compare a few structures; ignoring a late element, a nested level or the sign of an infinity passes them.',
     [('array comparison', COMMON + ':abs_rel_compare'), ('dictionary comparison', DICT + ':dict_compare'), ('elementwise comparison', DICT + ':dict_compare_vec')],
     'bounded-exhaustive exploration of all pairs from value alphabets (incl. NaN, infinities, nested structures) against a recursive reference comparator',
     'exploration', 'Arrays of up to 3 entries over a 9-value alphabet, all pairs of nested values up to depth 3 from a menu, tolerance menus.')

prop('C20', 'Membership lookup and tolerant row sorting return consistent indices',
     'Looking up the elements of one array in another reports for each element whether it occurs and, for those that do, in their order, the position of the first occurrence. '
     'Sorting the rows of a matrix with a tolerance returns exactly the rows of the input in lexicographic order in which entries of a column connected by steps not above the tolerance count as equal and rows equal in this sense keep their order, together with the permutation that sorts the rows and its inverse; a negative tolerance and a non-numeric or non-matrix input are rejected.',
     ['inputs'], 'all arrays, matrices, tolerances',
     'The tests look up and sort one or two arrays.',
     [('lookup', COMMON + ':is_member'), ('sorting', GEN + ':sort_rows_tol')],
     'bounded-exhaustive exploration of all small arrays/matrices over value alphabets around the tolerance against a reference sort',
     'exploration', 'All pairs of sequences up to length 4 over 3 values (numbers and strings); all matrices up to 4x2 / 3x3 over alphabets around the tolerance.')

prop('C21', 'Matrix tests, square roots and regularizations agree with their definitions',
     'Symmetry, degeneracy and (semi)definiteness tests decide by comparing the asymmetry, the smallest singular value and the smallest eigenvalue with the tolerance; the square root of a symmetric positive semidefinite matrix is the symmetric positive semidefinite matrix whose square it is, negative eigenvalues and entries within the tolerance counting as zero and larger ones rejected. '
     'Regularization raises exactly the eigenvalues (singular values) below the tolerance to it and keeps the others and their vectors; orthogonalization gives orthogonal matrices whose leading columns span those of the argument with positive coefficients; complex input with imaginary part below the tolerance becomes real, other one is rejected. '
     'The normalised scalar product of matrix arrays is the sum of products over the size.',
     ['inputs'], 'all matrices and tolerances',
     'The tests use a few fixed matrices; repeated, zero and negative eigenvalues and the side of the tolerance are not systematically covered.',
     [('matrix functions', LA + ':is_mat_pos_def'), ('square root', LA + ':sqrtm_pos'), ('regularization', LA + ':reg_pos_def_mat'), ('regularization', LA + ':reg_mat'), ('orthogonalization', LA + ':mat_orth'), ('real part', LA + ':try_treat_as_real'), ('scalar square root', GEN + ':sqrt_pos'), ('scalar product', GEN + ':mat_dot')],
     'bounded-exhaustive exploration over all small integer matrices and matrices with prescribed rational spectra against defining equations',
     'exploration', 'Dimensions 1..5, prescribed spectra with repeated/zero/slightly negative eigenvalues, tolerance on both sides.')

prop('C22', 'Orthogonal translations are orthogonal and carry the source to the target',
     'For all non-zero source and target vectors of any dimension, length and mutual position (equal, opposite, orthogonal, nearly parallel), every method of orthogonal translation returns an orthogonal matrix that takes the direction of the source to the direction of the target; the batch version does so for every pair, and zero vectors are rejected where input is checked. '
     'The method with auxiliary vectors also takes the component of the first auxiliary vector orthogonal to the source to the direction (up to sign) of the component of the second one orthogonal to the target, and the trace-maximizing method attains the largest trace of the product with the given matrix among all such orthogonal matrices.',
     ['inputs'], 'all pairs of vectors, auxiliary vectors and matrices',
     'The tests draw some vectors; special positions are exactly where the formulas degenerate.',
     [('translation', LA + ':orth_transl'), ('reflection', LA + ':orth_transl_haus'), ('auxiliary vectors', LA + ':orth_transl_max_dir'), ('maximal trace', LA + ':orth_transl_max_tr'), ('QR', LA + ':orth_transl_qr'), ('batch', LA + ':ml_orth_transl')],
     'bounded-exhaustive exploration of all pairs of vectors over small alphabets and scales in dimensions 1..5 against the defining equations',
     'exploration', 'All pairs over {-1,0,1}^n for n up to 4 (menus in 5 and 6) with scales; maximal trace against the nuclear norm.')

prop('C23', 'Diagonalization, alignment, quadratic forms and volume meet their equations',
     'Simultaneous diagonalization of a positive definite and a symmetric matrix returns a matrix that turns the first into the identity and the second into a diagonal one; alignment returns an orthogonal matrix taking the direction of its second vector to that of the first; the unit ball is centered with identity shape. '
     'Quadratic forms equal the shifted form with the matrix or its inverse in every mode and vector orientation, the inverse and the volume of a matrix are exact, the fusion function equals its defining expression, and arguments of wrong type, size, symmetry or definiteness are rejected.',
     ['inputs'], 'all matrices, vectors, modes',
     'The tests check a few matrices against stored results.',
     [('diagonalization', CORE + ':ell_sim_diag'), ('alignment', CORE + ':ell_valign'), ('fusion', CORE + ':ell_fusion_lambda'), ('unit ball', CORE + ':ell_unitball'), ('quadratic forms', GELL + ':quad_mat'), ('inverse', GELL + ':inv_mat'), ('volume', GELL + ':ell_volume')],
     'bounded-exhaustive exploration of all pairs of small matrices/vectors against exact rational arithmetic',
     'exploration', 'Dimensions 1..5, all integer matrices/vectors over small alphabets, all modes and orientations.')

prop('C24', 'Operations on arrays of matrices act slice by slice',
     'Every operation on an array of matrices (products by matrices, vectors, from both sides and their quotients, transposition, inversion, pseudoinversion, square roots, symmetric and positive parts, triangular parts and the variants for symmetric matrices) returns for each time point the result of the corresponding operation on the matrices or vectors of that time point. '
     'Constant right and outer factors, constant matrices of forms and quotients, and 1-by-1 factors apply to every time point, a single matrix is an array with one time point, and the dense and the sparse computation agree.',
     ['inputs'], 'all sizes, numbers of time points, combinations of constant and varying factors',
     'The tests use two or three sizes; mixing up rows, columns and time points cancels out for square or symmetric data.',
     [('arrays of matrices', GEN + ':MatVector'), ('square matrices', GEN + ':SquareMatVector'), ('symmetric matrices', GEN + ':SymmetricMatVector')],
     'bounded-exhaustive exploration of all size combinations with distinguishable integer entries against per-slice reference loops',
     'exploration', 'All sizes 1..3 in each dimension, 1..3 time points, all flags, dense and sparse; fixed pairwise distinct entries.')

prop('C25', 'Formulas are evaluated at every time point, and renamed or inspected textually',
     'Evaluating a matrix of formulas or a function at a vector of times gives an array whose slice at each time is the matrix of values there, constants and functions of time mixing freely in any position, a scalar time being one time point; applying a function slicewise returns the list, vector or array of its values in order. '
     'Replacing a variable puts the bracketed replacement for every occurrence as a whole word and nothing else, spaces being removed and numbers written out; a matrix is dependent on time (or on the discrete index) exactly when that letter occurs in it as a whole word; an empty formula and arguments of wrong type are rejected.',
     ['inputs'], 'all formulas, placements, sizes, time vectors',
     'The tests evaluate a few formulas at a few times.',
     [('formulas', GEN + ':from_expression'), ('matrices of formulas', GEN + ':from_formula_mat'), ('functions', GEN + ':from_func'), ('slicewise functions', GEN + ':eval_func'), ('renaming', SYM + ':var_replace'), ('dependence', SYM + ':is_dependent')],
     'bounded-exhaustive exploration of all placements of constant and time-dependent formulas in small matrices and of all token sequences against a reference evaluator/tokenizer',
     'exploration', 'Matrices up to 2x3 with all placements over a formula menu, 1..3 times; all token sequences up to length 4 (quick) / 5 (thorough) over an alphabet of identifiers, operators and numbers.')

prop('C26', 'Circle and sphere partitions are unit vectors in the right number and position',
     'A partition of an arc of the circle into n points gives the unit vectors at the n equally spaced angles starting at the beginning of the arc and leaving out its end, together or as separate coordinates. '
     'A refined icosahedron of depth d has 10*4^d+2 distinct unit vectors and 20*4^d consistently oriented triangles that form a closed surface around the origin, every grid asked for by the number of points is the corresponding partition with zeros replaced by negligible values, and the selection of n directions on the sphere gives n distinct vertices of the coarsest partition sufficient for that, no two of which are opposite. '
     'Non-positive or fractional numbers of points on the sphere and negative or fractional depths are rejected.',
     ['inputs'], 'all numbers of points, arcs, depths',
     'The tests build one or two grids.',
     [('circle', GEOM + ':circle_part'), ('sphere directions', GEOM + ':sphere_part'), ('icosahedron', TRI + ':icosahedron'), ('refinement', TRI + ':sphere_tri'), ('grids by number of points', TRI + ':sphere_tri_ext')],
     'bounded-exhaustive enumeration of point counts, arcs and depths, each grid checked against its defining equations and mesh invariants',
     'exploration', 'Point counts 1..60 (quick) / 1..400 (thorough), depths 0..4 / 0..6, arc menu.')

prop('C27', 'Mesh refinement keeps the surface and bounds the edges',
     'The face-to-edge map lists every undirected edge of a triangulation once, and for each face its three edges in a fixed order with the direction in which the face traverses them. '
     'Refinement of any triangulation (without two faces on the same vertices) repeatedly halves the edges of the faces that have an edge longer than the bound until no edge is longer or the number of steps is used up: old vertices keep their positions and places, new vertices are (adjusted) midpoints, split faces become four with the same orientation, an edge shared with a face left whole gets one flat triangle, the total area is kept without adjustment, and the returned edges, face-to-edge map and statistics describe the result.',
     ['inputs', 'histories'], 'all triangulations, bounds, numbers of steps',
     'The tests refine the icosahedron and one or two faces.',
     [('face-to-edge map', TRI + ':map_face_2_edge'), ('edges', TRI + ':get_face_edge_info'), ('refinement', TRI + ':shrink_face_tri')],
     'explicit enumeration of all small triangulations (all sets of faces on up to 5 vertices with all orientations) x bounds x step counts, checked against a reference refinement and mesh invariants',
     'exploration', 'All face sets of up to 3 faces over 4-5 vertices, all rotations and orientations of faces, up to 3 steps.')

prop('C28', 'Triangulations are compared up to numbering of vertices and faces',
     'A triangle is found in a triangulation exactly when a face with the same three vertices is there, in whatever order the vertices are written and however many faces share an edge. '
     'Two triangulations without repeated faces, whose vertices and different coordinates are further apart than the tolerance, compare equal exactly when some renumbering of vertices (matching positions within half the tolerance, or a single displaced vertex within the tolerance) and reordering of faces turns one into the other, irrespective of the order of vertices within a face; otherwise the report states the reason and is non-empty.',
     ['inputs'], 'all triangulations, renumberings, perturbations',
     'The tests compare a few pairs.',
     [('face lookup', TRI + ':is_face'), ('comparison', TRI + ':is_tri_equal'), ('matching of vertices', GEN + ':sort_rows_tol')],
     'bounded-exhaustive exploration of all face sets over up to 5 vertices x all renumberings against set equality of faces',
     'exploration', 'All sets of up to 3 (quick) / 4 (thorough) faces on up to 5 vertices; all vertex permutations; perturbations on both sides of the tolerance.')

prop('C29', 'Tube triangulations cover the tube exactly',
     'For every number of points per section (at least 3) and of sections (at least 2) the triangulation of a tube consists of two triangles per quadrilateral between neighbouring points and sections, closing up around the section, so that every edge inside the tube belongs to exactly two triangles, every boundary edge to one, every vertex is used, no triangle occurs twice and all look to the same side. '
     'The discrete-time version lists for every section its closed polygon.',
     ['inputs'], 'all sizes',
     'The tests check one size.',
     [('tube', TRI + ':ell_tube_2_tri'), ('discrete tube', TRI + ':ell_tube_discr_tri')],
     'exhaustive enumeration of sizes with combinatorial invariants of the surface',
     'exploration', 'All sizes up to 13 points x 13 sections (quick), 39 x 39 (thorough).')

prop('C30', 'Support functions are turned into boundaries and geometric differences correctly',
     'Given the support values of a convex body in a cyclic family of plane directions (in the directions of a triangulated sphere), the boundary points returned are the intersections of the supporting lines of neighbouring directions (planes of the three directions of each face), in order. '
     'The geometric difference of two sets given by support values in a common set of directions around the origin is the support function, in these directions, of the set of points whose products with every direction do not exceed the difference of the values, provided that it has the origin inside; it never exceeds the difference of the values and is computed again from itself unchanged. '
     'Differences that are not positive, wrong dimensions and lengths are rejected.',
     ['inputs'], 'all direction families, support functions, orders',
     'The tests check a few bodies with stored results.',
     [('boundary in the plane', SUP + ':sup_2_boundary_2'), ('boundary in space', SUP + ':sup_2_boundary_3'), ('difference in the plane', SUP + ':sup_geom_diff_2d'), ('difference in space', SUP + ':sup_geom_diff_3d')],
     'bounded-exhaustive exploration of direction families x integer support values x orders against exact rational linear programming',
     'exploration', 'All value vectors over small alphabets on 3..8 plane directions and 6-14 directions in space; polytopes enumerated exactly by vertices.')

prop('C31', 'Errors name origin and tag; diagnostics come once and only on request',
     'Every error raised by an input check is a value error whose message consists of the upper-cased origin (module, class if called from a method, and function that raised it, or the caller the given number of levels up), the tag and the text, separated by colons; without raising, the same error is returned, and a warning carries the same prefix. '
     'Asking for the same logger any number of times gives one logger whose records are written once each, and library calls write diagnostics only if verbose output is switched on.',
     ['histories', 'configurations'], 'all call depths, tags, repetitions, verbosity settings',
     'The tests check one error message.',
     [('errors', COMMON + ':throw_error'), ('warnings', COMMON + ':throw_warn'), ('callers', COMMON + ':get_caller_name'), ('loggers', LOGG + ':get_logger'), ('verbose diagnostics', ELL + ':is_bigger')],
     'explicit enumeration of call-chain shapes x levels x tags and of all histories of logger requests, verbosity switches and diagnosing calls with captured output',
     'exploration', 'Call chains up to depth 3 (quick) / 4 (thorough) through functions, methods and class methods; histories up to length 3 / 4.')

prop('C32', 'Property queries list the captured values; the text form shows the object',
     'Asking an array of ellipsoids or hyperplanes of any shape for a property (tolerances, and for ellipsoids the numbers of plot points), by either spelling of its name or by the dedicated method, gives the values captured by the objects, in order, together with their reduction by the given function (the smallest one by default), or alone when no reduction is wanted; no objects give no values and an undefined reduction. '
     'Objects of the other class and unknown properties are rejected, the configured values do not matter, and neither the configuration nor an object changes. '
     'The text form of an object names its class and shows its current center and shape matrix (its unit normal and non-negative shift).',
     ['inputs', 'configurations'], 'all arrays of objects with all combinations of captured values, names, reductions',
     'The tests query one property of a few objects; mixing up objects, properties or configured values needs mixed arrays.',
     [('queries', ABAS + ':get_property'), ('dedicated queries', AELL + ':get_n_plot_2d_points'), ('names of properties', ABAS + ':_get_prop_aliases_dict'), ('text form', ELL + ':__str__'), ('text form', HYP + ':__str__')],
     'bounded-exhaustive exploration of captured values x array shapes and containers x names x reductions x configurations',
     'exploration', 'All 81 (9) combinations of captured values alone and in pairs, patterns of them in arrays up to six objects of all shapes.')


def main():
    done = {f[:3].upper() for f in os.listdir(os.path.join(HERE, 'mc')) if f[0] == 'c' and f[1:3].isdigit()}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
         'notes': 'Every check imports the code of /repo/products as it is and explores it exhaustively within the bounds of the tier; see DESIGN.md.'}
    for p in P:
        if p['id'] in done:
            m['checks'].append({'property': p['id'], 'quick_cmd': './run.sh ' + p['id'], 'thorough_cmd': './run.sh ' + p['id'] + ' --tier thorough',
                                'technique': p['tech'], 'level': p['level'], 'level_note': p['note'],
                                'evidence_file': 'evidence/' + p['id'] + '.json'})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': 'check under construction'})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
