TEXT = {
'C01': (
 'Model: a dictionary of the eleven settings. Reachable graph over all setters (two values each), `init`, repository replacement and snapshots; every edge replayed on the real store. All histories without merging up to depth 4 (thorough 5-6). All snapshots attacked by every write the returned object permits.',
 'The model dictionary; after every operation all getters and a fresh snapshot are compared.',
 'The tests call one setter once. Stale caches and shared snapshots need a particular order of operations.'),
'C02': (
 'All ordered lists of up to two of the eleven names, all orders of the four object properties, every subset given explicitly, two configurations, extra arguments; every valid / invalid value of every setting from either source; objects built with every subset.',
 'Direct statement of the rule (explicit value, else configured one; per-setting validity).',
 'Order of names x subset x source of a bad value is a product the tests touch in one point.'),
'C03': (
 'Model: a heap of two objects with parameters, captured properties, and the arrays handed in and out. Actions: construct, copy, replicate, to/from dictionary, polar, negate, project (both forms), query, overwrite any array ever handed in or out, reconfigure, failing calls. Complete reachable graph, every edge replayed; all action sequences up to depth 3 (thorough 4) without merging.',
 'The model heap: after every action parameters and properties of all objects are compared.',
 'Aliasing becomes visible only when an array obtained earlier is overwritten later.'),
'C04': (
 'An alphabet of about 100 library calls covering the public functions; every call in every configuration, every ordered pair of calls (thorough: triples of selected ones), arguments write-protected and compared afterwards.',
 'The result of the call made first in a fresh process state; the configuration snapshot; verbose output on and off.',
 'Hidden caches and reused buffers show only in particular sequences of calls.'),
'C05': (
 'All integer matrices over the alphabets in dimensions 1-3 (symmetric ones in 4), eigenvalues, asymmetry and imaginary parts on both sides of the tolerance, captured and configured tolerances differing, every numeric type and memory layout, every malformed argument form.',
 'Exact rational decision of symmetry and semidefiniteness; stored data compared bitwise.',
 'The set of valid parameters is infinite; the tests have a handful of matrices.'),
'C06': (
 'All pairs of a menu; every single-entry perturbation by factors around the smaller absolute and relative tolerance, with tolerances of both objects varying, also in arrays where the object with the smaller tolerance stands anywhere; all array patterns over three objects in all shapes; hyperplanes with all scalings of their parameters.',
 'The definition (entrywise comparison of centers and known square roots).',
 'Symmetry of the verdict, tolerances on both sides, array patterns.'),
'C07': (
 'All objects of a menu x all subsets of properties x all containers, arrays of all shapes of heterogeneous objects, all patterns of objects occurring repeatedly, all size vectors over {0..3} up to length 3 in all numeric forms and malformed ones.',
 'Bitwise comparison with the source (hyperplanes: canonical unit normal and shift); identity of objects.',
 'Combinations of shape, properties and identity of elements.'),
'C08': (
 'All positive semidefinite matrices over alphabets (dimensions 1-4) at three scales x centers x all directions over {-1,0,1}, scaled; forms slightly negative on both sides of the tolerance; all container pairings.',
 'Exact quadratic form, membership of the support point in the ellipsoid by exact projection on its range.',
 'All degenerate directions and all pairings.'),
'C09': (
 'All numbers of points in a range and around every refinement threshold x shapes (round, correlated, thin, degenerate) x centers; all factors x containers x captured numbers x dimensions.',
 'Definition: unit vectors mapped by the reference square root; combinatorial closure of edges / faces.',
 'Off-by-one errors at thresholds.'),
'C10': (
 'All families of one and two vectors over small alphabets, orthogonal triples and quadruples, ellipsoid menus, containers and layouts, scalar products on both sides of the tolerance, every kind of rejected call; the same object several times in an array.',
 'Exact projection; before/after snapshot of every object.',
 'All bases, both signs of non-orthogonality, state after rejected calls.'),
'C11': (
 'All semidefinite integer matrices over small alphabets in dimensions 1-4, sums of outer products in 4-8, spectra around the tolerance, all patterns in arrays of all shapes, all mixtures of tolerances and eigenvalues in one array.',
 'Exact rank and determinant, Jacobi eigenvalues.',
 'Ranks near the tolerance, arrays with mixed tolerances.'),
'C12': (
 'All arrays of one, two and three ellipsoids from menus with degenerate ones x a grid of points including exact boundary points x both modes; distances from the boundary around the tolerance; scales; shape matrices uneven within rounding.',
 'Exact membership (projection on the range, quadratic form with the inverse).',
 'Patterns of several ellipsoids with points in any subset of them.'),
'C13': (
 'All ordered pairs of semidefinite matrices from the menus of dimensions 1-4, scaled pairs, ratios around the tolerance, containers, uneven matrices.',
 'Exact semidefiniteness of the difference.',
 'All degenerate pairs.'),
'C14': (
 'All positive definite integer shapes over small alphabets x rational centers from 1e-5 radii to close to the boundary, arrays of all shapes and patterns, degenerate members; both computing methods.',
 'Exact polar from the formula, and independently the definition (support value one on boundary points); polar of polar.',
 'Off-center ellipsoids of every shape.'),
'C15': (
 'All pairs, menus of triples and quadruples including degenerate ones x all directions over {-1,0,1} and scaled ones; mixed tolerances; containers; almost equal and almost proportional summands; uneven matrices.',
 'Sum of support functions on a grid of directions and around the given one (containment), and in the given one (touching).',
 'The defining inequality over directions is never tested.'),
'C16': ('As C15.', 'As C15 with the inequality reversed.', 'As C15; rotations between almost parallel images.'),
'C17': (
 'All patterns of eight ellipsoids / hyperplanes in arrays of all shapes, negated once and twice.',
 'Exact change of signs; support functions and membership.',
 'Patterns with empty and degenerate objects.'),
'C18': (
 'All hyperplanes over small alphabets at three scales x grid points with infinities; distances around the tolerances; all pairings of shapes; all pairs of normals, angles around the tolerance.',
 'Exact scalar product; exact parallelism with the tolerance rule.',
 'All pairings, infinities, tolerances of either object.'),
'C19': (
 'All pairs of arrays of one and two entries over an alphabet with NaN and infinities x tolerances; single differences in arrays of all sizes and types; all pairs of nested values at several places of a dictionary; all patterns of arrays of dictionaries.',
 'Definition, computed with fractions.',
 'Combinations of types and special values.'),
'C20': (
 'All pairs of sequences of up to 4 elements over alphabets of numbers and text, long ones with repetitions; all small matrices over an alphabet around the tolerance, scaled and shifted, long columns with chains, up to nine columns.',
 'Definition (index of the first occurrence; transitive closure of closeness per column and stable sorting).',
 'Ties, chains, stability.'),
'C21': (
 'All 1x1..3x3 integer matrices over small alphabets, rectangular ones, prescribed rational spectra (repeated, zero, negative) in dimensions 1-6 at three scales x tolerances on both sides.',
 'Exact symmetry, definiteness, rank; Jacobi eigen-decomposition; defining equations.',
 'Repeated and borderline eigenvalues.'),
'C22': (
 'All pairs of vectors over {-1,0,1}^n, n up to 4, and larger alphabets, scaled, nearly parallel and opposite at distances 1e-18..1e-1; all auxiliary vectors and matrices over small alphabets; batches.',
 'Orthogonality and the image of the direction; for the trace the closed-form maximum over the orthogonal matrices with this property.',
 'Nearly parallel and opposite vectors.'),
'C23': (
 'All pairs of a definite and a symmetric matrix (n up to 3), prescribed spectra (4, 5); all pairs of vectors; all small matrices x vectors x centers x modes x orientations; volumes in dimensions 1-9; the fusion function.',
 'Defining equations, exact quadratic forms, exact evaluation of the fusion expression.',
 'Indefinite second matrices, all modes and orientations.'),
'C24': (
 'All sizes up to 3 (4, 5 in part), 1-4 time points and single matrices, constant, varying and 1x1 factors, all flags, dense and sparse, all layouts, on matrices of pairwise different entries, on unit matrices, and on all placements of special matrices (identity, zero, diagonal, symmetric, triangular, singular) in the slices.',
 'The operation on each slice, in exact arithmetic or plain loops.',
 'Shape dispatch has dozens of branches.'),
'C25': (
 'All placements of formulas from a menu in matrices up to 2x3 in all ways of writing x times in all forms and numeric types; all sizes and kinds of slicewise functions; all sequences of up to 4 (5) tokens for renaming and dependence.',
 'Direct evaluation; a tokenizer independent of regular expressions.',
 'Placement of constants, word boundaries.'),
'C26': (
 'All numbers of points 1..60 (1..400) x arcs; numbers of directions and grid sizes around every change of depth; depths 0..4 (6).',
 'Defining equations; the mesh edge by edge; pairwise distinctness.',
 'Thresholds; orientation of every face.'),
'C27': (
 'Map: all families of up to 4 triangles on 4 vertices and up to 2 (3) on 5 x all orders of vertices. Refinement: all families on 4 and 5 vertices in several positions x all essentially different bounds x 0..3 steps, with adjusting functions.',
 'A direct implementation of the definition of one step on sets, invariants (area, orientation, edge counts).',
 'Partial refinement patterns of every small complex.'),
'C28': (
 'Lookup: all families of up to 4 (5) triangles on 5 vertices x all ordered triples. Comparison: all families of up to 3 triangles in several positions x renumberings x reorderings x perturbations on both sides of the tolerance, and all pairs of families.',
 'Brute force over renumberings.',
 'All ways two meshes differ.'),
'C29': (
 'All sizes 3..13 x 2..13 (39 x 39); sizes around powers of two up to 66000 vertices.',
 'Edge counts and quadrilateral by quadrilateral comparison.',
 'The tests have none.'),
'C30': (
 'Plane: all families of 3-5 directions out of 8 around the origin and selected ones out of 16 x many vectors of values, rotations, orders. Space: families out of 14 directions.',
 'Exact vertex enumeration of polygons and polytopes.',
 'Redundant constraints, orientation, scale.'),
'C31': (
 'All call chains up to 3 (4) links through functions, nested functions, lambdas, methods, inherited, class and static methods and callable objects x levels x tags; a table of wrong calls over the whole library; all histories up to 3 (4) of logger requests, and of verbosity switches and diagnosing calls.',
 'The chain that was built; captured standard streams.',
 'Histories of loggers; callers of every kind.'),
'C32': (
 'All 81 combinations of three values of each captured property for ellipsoids and 9 for hyperplanes, alone (hyperplanes also in pairs) in arrays of all shapes and containers, patterns of them in larger arrays, every spelling of every name, five reductions, two configurations; foreign objects anywhere in the container; text forms over menus of objects, also after changes in place.',
 'The values given to the constructors; numbers read back from the text.',
 'Mixed arrays; captured values other than the configured ones.'),
}

REST = '''## Not applicable

Nothing in `properties.jsonl` was found undecidable by this technique; `not_applicable` in `MANIFEST.json` is empty.  The quantities
are real numbers, so exhaustiveness is over finite alphabets of parameters, not over all floating-point numbers; that is the bound.

## Outside the stated properties

Behaviour left unspecified on purpose (stubs, or behaviour nobody can rely on): `ne`, `ge`, `mtimes`, `shape`, `plus`, plotting and
other methods that are stubs; the private `_get_grid_by_factor`; hyperplanes with a zero normal in dictionaries; tolerances of results of
polars and sums; `reg_mat` of non-square matrices; variable names with regular-expression characters; `sort_rows_tol` of
integers near overflow and of non-finite entries; `orth_transl_max_dir` in dimension one; the shape (not the values) of the result of `rho`
for paired arrays; list-valued size arguments where arrays are documented; duplicates among requested property names; complex infinities and
text tolerances in comparisons; the polar when the origin is outside; containment of two empty ellipsoids; `lr_multiply` with a constant
inner and varying outer factors (an existing test pins the present result); ternary `r_multiply` with a 1x1 third factor; matrix roots of NaN
slices; fractional numbers of points on the circle; meshes with repeated faces in refinement and comparison; coincident vertices or
coordinates ambiguous at the tolerance in comparison of meshes; `sup_geom_diff` for directions that do not surround the origin (the set is
unbounded).

## False alarms that were corrected

* C19: the oracle compared relative differences exactly, but the library forms them in floating point (ties, entries like -1e-300, float32):
  cases within rounding of the threshold are now left undecided.
* C22: orthogonality for nearly parallel vectors was asked to 1e-9; the method is accurate to about 1e-8 there; now 1e-7.
* C27: repeated faces produce duplicate internal edges; the statement excludes two faces on the same vertices.
* C28: coordinates that differ by about the tolerance are ambiguous for sorting; the statement is restricted to separated coordinates.

'''

DETECT = '''## Detection

**Reverted repairs.** Every `fix:` commit was reverted alone in a scratch copy and the check of its property run: all are reported again except
`60629e2` (changes the result only by rounding) and `cbe100c` (superseded by `5621ec0`: reverting it alone changes nothing);
`a78b9fb` and `8228265` cannot be reverted by git alone (later repairs touch the same lines) and were undone by hand.
`5a52785` was missed at first; the stages `uneven` of C12, C13, C15 and C16 (shape matrices symmetric only up to rounding) were added for it.

**Planted changes.** `seeded/<id>/` has the patch, a demonstration, and what it needs.  All pass the 170 tests.  The fourth column says what the
checks did when the change was first planted, the last one what they do now (a stage named there was added because of the change).

'''

def _m(pid, stage):
    return ('missed', 'caught by {} (stage "{}")'.format(pid, stage))


GENERIC = (' Generic stages over the alphabet of calls of the property (`mc/calls.py`): every single change of the arguments (one entry, one object, one number) as a history '
           'call / changed call / call / changed call, with new and with re-used array objects, every result compared with that of a forked process making only this call ("neighbours"); '
           'every array argument in eight memory layouts ("layouts"); one object or array given in several places against equal ones ("repeated arguments"); '
           'a call, a projection of its objects in place and the call again against unused and against rebuilt objects ("changed objects").')
COLS = (' Batches: all pairs and selected longer words over menus of directions, points, matrices, times or faces that differ little, a lot in size, or in sign; every element of the '
        'batch gives what it gives alone ("batches").')
CONF = (' Every call repeated after a change of the configured tolerances (up and down), numbers of points and verbosity, the objects having captured the defaults, also with arguments near '
        'the tolerances ("configured values").')
TWINS = ' All ordered pairs, and some longer words, over 18 almost equal ellipsoids (15 hyperplanes) at three scales: every element of an array gives what it gives alone ("twins").'
for _i in range(5, 31):
    _k = 'C%02d' % _i
    _t = TEXT[_k]
    TEXT[_k] = (_t[0] + GENERIC + (TWINS if _k in ('C06', 'C07', 'C08', 'C10', 'C11', 'C14', 'C17', 'C18') else '') +
                (COLS if _k in ('C08', 'C12', 'C15', 'C16', 'C18', 'C20', 'C21', 'C22', 'C24', 'C25', 'C30') else '') +
                (CONF if 'C06' <= _k <= 'C18' else ''),) + tuple(_t[1:])
EXTRA = {
 'C23': ' Volumes of singular matrices and of matrices scaled by 4^-60..4^60.',
 'C17': ' Ellipsoids valid only within their own tolerance under three configured ones.',
 'C14': ' Centers close to the boundary (the origin just inside), and ellipsoids of all scales.',
 'C06': ' Pairs of 2x2 shape matrices scaled by 4^-14..4^2, also below the tolerance, against closed-form roots; objects valid only within their own large tolerance.',
 'C01': ' Values: for every setting all pairs of a menu of values (equal, of another type, negative where allowed), written twice, read back and captured by new objects.',
 'C03': ' Single replicas and copies of replicas are projected in place as part of the replication action. Pairs of objects made by every kind of call from one another: no two of them share state.',
 'C04': ' One long history per call and mode over evenly spaced changes of its arguments, and all memory layouts, over the union of all alphabets of calls. Every call of the union after a change of the configured values, the objects having captured the defaults. Objects given several times, and objects changed in place between two calls.',
 'C05': ' Centers, normals, shifts and shape matrices in arrays of all shapes up to four dimensions. Entries of magnitudes up to 1e154, sums of which are not finite.',
 'C09': ' Ellipsoids 2^-24..2^10 times the usual size with tolerances from 1e-7 to 1e-2.',
 'C10': ' Basis vectors whose length differs from one by 0, 3e-7..0.3, and very short and long ones. Ellipsoids scaled by 4^-20..4^20, compared relative to their size. One object in several places of the projected array.',
 'C11': ' Smallest eigenvalues below zero within the tolerance; sums of outer products up to dimension 8 (thorough 16).',
 'C13': ' Pairs at scales 1..1e-5 with all combinations of tolerances of the two ellipsoids, ratios 5% or more away from the boundary. Shape matrices asymmetric within the own tolerance of either ellipsoid.',
 'C15': ' All pairs of six to eight strongly elongated ellipsoids with different axes.',
 'C16': ' All pairs of six to eight strongly elongated ellipsoids with different axes.',
 'C18': ' Normals with components 1e-7 and 1e-20 against points with infinite coordinates.',
 'C22': ' All batches of up to three sources and two targets over small alphabets.',
 'C24': ' Slices whose eigenvalues are exactly zero, negative and positive in all combinations.',
 'C28': ' All triangles over up to 14 (thorough 20) vertices looked up in triangulations on the first few.',
 'C30': ' Partitions of the circle into up to 3000 (thorough 40000) directions and neighbours 1e-1..1e-6 apart.',
}
for _k, _x in EXTRA.items():
    _t = TEXT[_k]
    TEXT[_k] = (_t[0] + _x,) + tuple(_t[1:])

SEEDS = {
 'c01-unchanged-skipped': _m('C01', 'values'),
 'c03-identity-projection': _m('C03', 'new objects'),
 'c04-configured-regularization': _m('C04', 'configured values'),
 'c05-sum-finite': _m('C05', 'magnitudes'),
 'c06-diagonal-root': _m('C06', 'small'),
 'c09-configured-root': _m('C09', 'configured values'),
 'c14-clamped': _m('C14', 'close to the boundary'),
 'c16-direction-cache': _m('C16', 'batches'),
 'c23-cholesky-volume': _m('C23', 'volume'),
 'c24-previous-slice': _m('C24', 'batches'),
 'c25-collected-values': _m('C25', 'batches'),
 'c03-single-replica': _m('C03', 'graph'),
 'c04-infinite-points': _m('C04', 'layouts'),
 'c05-three-dim-center': _m('C05', 'array shapes'),
 'c08-layout-order': _m('C08', 'layouts'),
 'c09-small-collapsed': _m('C09', 'scales'),
 'c10-almost-unit': _m('C10', 'lengths'),
 'c11-clipped-eigenvalue': _m('C11', 'negative'),
 'c13-largest-tolerance': _m('C13', 'own tolerances'),
 'c16-flipped-image': _m('C16', 'elongated'),
 'c17-memory-order': _m('C17', 'layouts'),
 'c18-near-zero-component': _m('C18', 'small normals'),
 'c22-batch-cache': _m('C22', 'small batches'),
 'c24-zero-eigenvalue': _m('C24', 'zero eigenvalues'),
 'c25-expression-cache': _m('C25', 'neighbours'),
 'c28-hashed-faces': _m('C28', 'foreign vertices'),
 'c30-cutoff': _m('C30', 'fine partitions'),
 'c07-shared-copies': _m('C07', 'repeated'),
 'c11-shared-degeneracy-tol': _m('C11', 'mixed'),
 'c14-small-center': _m('C14', 'centers close to the origin'),
 'c16-almost-parallel': _m('C16', 'almost equal'),
 'c20-leading-columns': _m('C20', 'many columns'),
 'c24-single-slot-form': _m('C24', 'special matrices'),
 'c25-integer-times': _m('C25', 'types of times'),
 'c29-short-indices': _m('C29', 'large sizes'),
}
