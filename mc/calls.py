"""Alphabet of library calls: name -> (arguments factory, function), shared by C04 and the generic stages."""
import itertools

import numpy as np

from lib import Ellipsoid, Hyperplane, arr, obj_array
from ellipy.elltool.core.core import ell_sim_diag, ell_fusion_lambda, ell_valign, ell_unitball
from ellipy.gen.common.common import abs_rel_compare, is_member, is_numeric
from ellipy.gen.dict.dict import dict_compare, dict_compare_vec
from ellipy.gras.la import la
from ellipy.gras.gen.gen import (MatVector, SquareMatVector, SymmetricMatVector, mat_dot, sort_rows_tol, sqrt_pos)
from ellipy.gras.geom.ell.ell import ell_volume, inv_mat, quad_mat, rho_mat
from ellipy.gras.geom.geom import circle_part, sphere_part
from ellipy.gras.geom.sup.sup import (sup_2_boundary_2, sup_2_boundary_3, sup_geom_diff_2d, sup_geom_diff_3d)
from ellipy.gras.geom.tri import tri
from ellipy.gras.sym.sym import is_dependent, var_replace

Q1 = [[4, 1], [1, 3]]
Q2 = [[2, 0], [0, 1]]
QD = [[1, 1], [1, 1]]
Q3 = [[3, 1, 0], [1, 2, 0], [0, 0, 1]]
L2 = [[1, 0, 3], [0, 2, -1]]
SQ = [[1, 0], [0, 1], [-1, 0], [0, -1]]
T3 = np.dstack([arr(Q1), arr(Q2), arr([[5, 2], [2, 7]])])
A3 = np.dstack([arr([[1, 2], [3, 4]]), arr([[0, 1], [-1, 2]]), arr([[2, 2], [0, 1]])])
V3 = arr([[1, 2, 0], [1, -1, 3]])
DX = {'a': [1., 2.], 'b': {'c': 'x'}}


def E(q=Q1, c=None):
    return Ellipsoid(arr(q)) if c is None else Ellipsoid(arr(c), arr(q))


def ells():
    return [E(Q1, [1, 0]), E(Q2, [0, -1])]


def dells():
    return [E(QD, [1, 0]), E(Q2)]


def cube():
    v = arr(list(itertools.product((-1, 1), repeat=3))).T
    return v


def sq():
    return arr(SQ)


def V(*xs):
    return lambda: [arr(x).copy() if isinstance(x, (list, np.ndarray)) else x for x in xs]


CALLS = {
    # objects
    'rho': (lambda: [ells()[0], arr(L2)], lambda e, d: Ellipsoid.rho(e, d)),
    'rho_many': (lambda: [ells(), arr([[1], [2]])], lambda e, d: Ellipsoid.rho(e, d)),
    'boundary': (lambda: [ells()[0]], lambda e: e.get_boundary(5, True)),
    'boundary3': (lambda: [E(Q3, [1, 0, 2])], lambda e: e.get_boundary(20, True)),
    'boundary_default': (lambda: [Ellipsoid(arr(Q1), n_plot_2d_points=6)], lambda e: e.get_boundary()),
    'rho_boundary': (lambda: [ells()[0]], lambda e: e.get_rho_boundary(5)),
    'rho_boundary3': (lambda: [E(Q3)], lambda e: e.get_rho_boundary(20)),
    'bnd_factor': (lambda: [Ellipsoid(arr(Q1), n_plot_2d_points=8), arr([0.5, 1])], lambda e, f: e.get_boundary_by_factor(f)),
    'getproj': (lambda: [ells(), arr([[3], [4]])], lambda e, b: Ellipsoid.get_projection(e, b)),
    'is_internal': (lambda: [ells(), arr([[0, 5], [0, 5]])], lambda e, p: [Ellipsoid.is_internal(e, p, m) for m in 'ui']),
    'is_internal_deg': (lambda: [dells(), arr([[1, 0, 5], [0, 0, 5]])], lambda e, p: Ellipsoid.is_internal(e, p, 'u')),
    'is_bigger': (lambda: [E([[9, 0], [0, 9]]), E(Q1)], lambda a, b: [a.is_bigger(b), b.is_bigger(a)]),
    'is_bigger_deg': (lambda: [E([[4, 4], [4, 4]]), E(QD)], lambda a, b: a.is_bigger(b)),
    'is_equal': (lambda: [ells(), ells()], lambda a, b: Ellipsoid.is_equal(a, b)),
    'is_equal_prop': (lambda: [ells(), ells()[::-1]], lambda a, b: Ellipsoid.is_equal(a, b, True)),
    'polar': (lambda: [obj_array(ells()[:1], (1, 1))], lambda a: Ellipsoid.polar(a)),
    'ea': (lambda: [ells(), arr(L2)], lambda e, d: Ellipsoid.minksum_ea(e, d)),
    'ia': (lambda: [ells(), arr(L2)], lambda e, d: Ellipsoid.minksum_ia(e, d)),
    'ea_deg': (lambda: [dells(), arr(L2)], lambda e, d: Ellipsoid.minksum_ea(e, d)),
    'ia_deg': (lambda: [dells(), arr(L2)], lambda e, d: Ellipsoid.minksum_ia(e, d)),
    'scalars': (lambda: [ells()], lambda e: [Ellipsoid.volume(e), Ellipsoid.trace(e), Ellipsoid.min_eig(e),
                                             Ellipsoid.max_eig(e), Ellipsoid.is_degenerate(e), Ellipsoid.is_empty(e),
                                             Ellipsoid.dimension(e, True)]),
    'uminus': (lambda: [ells()], lambda e: Ellipsoid.uminus(e)),
    'copy': (lambda: [ells()], lambda e: Ellipsoid.get_copy(e)),
    'dict': (lambda: [ells()], lambda e: Ellipsoid.from_dict(Ellipsoid.to_dict(e)[0])),
    'from_rep': (lambda: [arr([1, 0]), arr(Q1), [2]], lambda c, q, s: Ellipsoid.from_rep_mat(c, q, s)),
    'unitball': (lambda: [3], lambda n: ell_unitball(n)),
    'h_parallel': (lambda: [[Hyperplane(arr([1, 2]), 1.)], [Hyperplane(arr([2, 4]), 0.)]], lambda a, b: Hyperplane.is_parallel(a, b)),
    'h_contains': (lambda: [[Hyperplane(arr([1, 2]), 3.)], arr([[1, 0], [1, 0]])], lambda a, b: Hyperplane.contains(a, b)),
    'h_dict': (lambda: [[Hyperplane(arr([1, 2]), -3.)]], lambda a: Hyperplane.from_dict(Hyperplane.to_dict(a)[0])),
    'h_neg': (lambda: [[Hyperplane(arr([1, 2]), -3.)]], lambda a: Hyperplane.uminus(a)),
    # core
    'sim_diag': (V(Q1, [[1, 2], [2, -1]], 1e-7), ell_sim_diag),
    'fusion': (V(0.25, [1, 0], Q1, [0, 1], Q2, 2), ell_fusion_lambda),
    'valign': (V([1, 2], [3, -1]), ell_valign),
    # la
    'not_deg': (V(Q1, 1e-7), la.is_mat_not_deg),
    'pos_def': (V(Q1, 1e-7), la.is_mat_pos_def),
    'symm': (V(Q1, 1e-7), la.is_mat_symm),
    'mat_orth': (V([[1, 2], [3, 4], [5, 7]]), la.mat_orth),
    'orth_col': (V([[1, 2], [3, 4], [5, 7]]), la.math_orth_col),
    'ml_orth': (lambda: [arr(L2), np.dstack([arr(L2), 2 * arr(L2)])], la.ml_orth_transl),
    'orth_transl': (V([1, 2], [3, -1]), la.orth_transl),
    'orth_haus': (V([1, 2], [3, -1]), la.orth_transl_haus),
    'orth_maxdir': (V([1, 2, 0], [3, -1, 1], [1, 0, 1], [0, 1, 2]), la.orth_transl_max_dir),
    'orth_maxtr': (V([1, 2], [3, -1], Q1), la.orth_transl_max_tr),
    'orth_qr': (V([1, 2], [3, -1]), la.orth_transl_qr),
    'reg_pos': (V(QD, 0.5), la.reg_pos_def_mat),
    'sqrtm': (V(Q1, 1e-7), la.sqrtm_pos),
    'treat_real': (lambda: [arr(Q1).astype(complex), 1e-7], la.try_treat_as_real),
    'reg_mat': (V(QD, 0.5), la.reg_mat),
    # gen
    'mat_dot': (V(Q1, Q2), mat_dot),
    'sort_rows': (V([[2, 1], [1, 3], [1.0000001, 2]], 1e-5), sort_rows_tol),
    'sqrt_pos': (V([4, 0, -1e-9], 1e-7), sqrt_pos),
    'triu': (V(A3), MatVector.triu),
    'make_symm': (V(A3), MatVector.make_symmetric),
    'pinv': (V(A3), MatVector.pinv),
    'transpose': (V(A3), MatVector.transpose),
    'formula': (lambda: [np.array([['t', '1'], ['sin(t)', 't**2']]), arr([0, 1])], MatVector.from_formula_mat),
    'expr': (lambda: ['[t, 1], [t*t, cos(t)]', arr([0, 1, 2])], MatVector.from_expression),
    'func': (lambda: [arr([0, 1])], lambda t: MatVector.from_func(lambda s: np.array([[s, 1.], [2., s * s]]), t)),
    'eval': (V(A3), lambda a: [MatVector.eval_func(np.trace, a), MatVector.eval_func(lambda m: m.T, a, True, True),
                               MatVector.eval_func(lambda m: m + 1, a, False)]),
    'rmulvec': (V(A3, V3), lambda a, v: [MatVector.r_multiply_by_vec(a, v, s) for s in (True, False)]),
    'rmul': (V(A3, T3), lambda a, b: [MatVector.r_multiply(a, b, None, s) for s in (True, False)]),
    'rmul3': (V(A3, T3, A3), lambda a, b, c: [MatVector.r_multiply(a, b, c, s) for s in (True, False)]),
    'sq_inv': (V(T3), SquareMatVector.inv),
    'sq_sqrtm': (V(T3), SquareMatVector.sqrtm_pos),
    'sq_ornan': (V(T3), SquareMatVector.make_pos_definite_or_nan),
    'sq_byeig': (lambda: [np.dstack([arr([[1, 2], [2, 1]]), arr(Q1)]), 0.5], SquareMatVector.make_pos_definite_by_eig),
    'sq_byeig2': (V([[1, 2], [2, 1]], 0.5), SquareMatVector.make_pos_definite_by_eig),
    'lr_mul': (V(T3, A3), lambda b, a: [SquareMatVector.lr_multiply(b, a, f) for f in 'RL']),
    'lr_mulvec': (V(T3, V3), SquareMatVector.lr_multiply_by_vec),
    'lr_mulvec1': (V(Q1, [1, 2]), SquareMatVector.lr_multiply_by_vec),
    'lr_div': (V(T3, V3), SquareMatVector.lr_divide_vec),
    'lr_div1': (V(T3, [1, 2]), SquareMatVector.lr_divide_vec),
    'svd_mul': (V(T3, A3), lambda b, a: [SymmetricMatVector.lr_svd_multiply(b, a, f) for f in 'RL']),
    'svd_rvec': (V(T3, V3), SymmetricMatVector.r_svd_multiply_by_vec),
    'svd_lrvec': (V(T3, V3), SymmetricMatVector.lr_svd_multiply_by_vec),
    'svd_div': (V(T3, V3), SymmetricMatVector.lr_svd_divide_vec),
    # geometry
    'ell_volume': (V(Q1), ell_volume),
    'inv_mat': (V(Q1), inv_mat),
    'quad_mat': (V(Q1, [1, 2], [1, 0]), lambda q, x, c: [quad_mat(q, x, c, m) for m in ('plain', 'inv', 'invadv')]),
    'quad_col': (V(Q1, [[1], [2]], [[1], [0]]), quad_mat),
    'rho_mat': (V(Q1, L2, 1e-7, [[1], [2]]), rho_mat),
    'rho_mat_z': (V(QD, [[1, 1], [-1, 1]], 1e-7), rho_mat),
    'circle': (lambda: [7, arr([0, 1])], lambda n, a: [circle_part(n), circle_part(n, True, a)]),
    'sphere_part': (V(5), sphere_part),
    'sup2b': (lambda: [sq(), arr([1, 1, 1, 2])], sup_2_boundary_2),
    'sup2b3': (lambda: [arr(np.eye(3)), arr([1, 2, 3]), np.array([[0, 1, 2]])], sup_2_boundary_3),
    'diff2': (lambda: [arr([2, 2, 2, 2]), arr([1, 1, 1, 0.5]), sq().T.copy()], sup_geom_diff_2d),
    'diff3': (lambda: [arr([3] * 8), arr([1] * 8), cube()], sup_geom_diff_3d),
    'tube': (V(4, 3), lambda a, b: [tri.ell_tube_2_tri(a, b), tri.ell_tube_discr_tri(a, b)]),
    'icosa': (lambda: [], tri.icosahedron),
    'map_f2e': (lambda: [np.array([[0, 1, 2], [1, 2, 3]])], tri.map_face_2_edge),
    'shrink': (lambda: [arr([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 1]]), np.array([[0, 1, 2], [1, 2, 3]])],
               lambda v, f: tri.shrink_face_tri(v, f, 0.8, 2, None, True)),
    'sphere_tri': (V(1), tri.sphere_tri),
    'sphere_ext': (V(2, 5), lambda d, n: [tri.sphere_tri_ext(d, n, True), tri.sphere_tri_ext(d, n), tri.sphere_tri_ext(3, n, True)]),
    'is_face': (lambda: [np.array([[0, 1, 2], [1, 2, 3]]), np.array([[2, 1, 0], [0, 1, 3]])], tri.is_face),
    'tri_equal': (lambda: list(tri.icosahedron()) + list(tri.icosahedron()) + [1e-8], tri.is_tri_equal),
    # common
    'compare': (V([1, 2], [1, 2.1], 0.01, 0.2), lambda a, b, x, y: abs_rel_compare(a, b, x, y, np.abs)),
    'compare_inf': (V([1, float('inf')], [1, float('inf')], 0.01, None), lambda a, b, x, y: abs_rel_compare(a, b, x, y, np.abs)),
    'is_member': (lambda: [['b', 'z', 'a'], ['a', 'b', 'c']], is_member),
    'dict_cmp': (lambda: [dict(DX), dict(DX, a=[1., 2.5])], lambda a, b: dict_compare(a, b, 0.1, 0.1)),
    'dict_vec': (lambda: [np.array([dict(DX)]), np.array([dict(DX)])], dict_compare_vec),
    'sym_dep': (lambda: [np.array([['t', '1'], ['sin(t)', 't**2']])], lambda m: [is_dependent(m), is_dependent(m, True)]),
    'sym_repl': (lambda: [np.array([['t', 'a+t'], ['sin(t)', 't2']])], lambda m: var_replace(m, 't', 'x')),
}


# ---------------------------------------------------------------------------------------------- more calls, by property
def grid_e(shape, qs=None):
    qs = qs or [(Q1, [1, 0]), (Q2, [0, -1]), (Q1, [0, 2]), ([[5, -2], [-2, 3]], [1, 1]), (Q2, [3, 0]), ([[1, 0], [0, 4]], [-1, 2])]
    m = int(np.prod(shape))
    return obj_array([E(*qs[i % len(qs)]) for i in range(m)], shape)


def grid_h(shape):
    hs = [([1, 2], 3.), ([2, -1], 0.), ([0, 3], -2.), ([1, 1], 1.), ([4, 0], 2.), ([1, -2], 5.)]
    m = int(np.prod(shape))
    return obj_array([Hyperplane(arr(hs[i % len(hs)][0]), hs[i % len(hs)][1]) for i in range(m)], shape)


def grid_n(shape, k=7):
    """Pairwise different integers, none a multiple of another direction nearby."""
    m = int(np.prod(shape))
    return (np.arange(m, dtype=np.float64) * k % (m + 3) - m // 3 + 0.25).reshape(shape)


POLYG = [[3, 0], [2, 2], [0, 3], [-2, 2], [-3, 0], [-2, -2], [0, -3], [2, -2]]
MORE = {
    'C05': {'new': (V([1, 2], Q1), lambda c, q: Ellipsoid(c, q)),
            'new3': (V([1, 2, 3], Q3), lambda c, q: Ellipsoid(c, q)),
            'new_row': (V([[1, 2]], Q1), lambda c, q: Ellipsoid(c, q)),
            'new_shape': (V(Q3), lambda q: Ellipsoid(q)),
            'new_h': (V([1, -2, 3], 2.), lambda v, s: Hyperplane(v, s)),
            'new_hcol': (V([[1], [-2]], 2.), lambda v, s: Hyperplane(v, s))},
    'C06': {'eq22': (lambda: [grid_e((2, 3)), grid_e((2, 3))[::-1].copy()], lambda a, b: Ellipsoid.is_equal(a, b, True)),
            'eq22s': (lambda: [grid_e((2, 3)), grid_e((1, 1))], lambda a, b: [Ellipsoid.is_equal(a, b), Ellipsoid.is_equal(b, a)]),
            'eq3': (lambda: [grid_e((2, 2, 2)), grid_e((2, 2, 2))], lambda a, b: Ellipsoid.is_equal(a, b)),
            'heq': (lambda: [grid_h((2, 3)), grid_h((2, 3))[:, ::-1].copy()], lambda a, b: Hyperplane.is_equal(a, b, True)),
            'heq1': (lambda: [grid_h((2, 2)), grid_h((1,))], lambda a, b: Hyperplane.is_equal(a, b))},
    'C07': {'dict23': (lambda: [grid_e((2, 3))], lambda e: Ellipsoid.from_dict(Ellipsoid.to_dict(e, True)[0])),
            'dict222': (lambda: [grid_e((2, 2, 2))], lambda e: Ellipsoid.from_dict(Ellipsoid.to_dict(e)[0])),
            'copy23': (lambda: [grid_e((2, 3))], lambda e: Ellipsoid.get_copy(e)),
            'copy222': (lambda: [grid_e((2, 2, 2))], lambda e: Ellipsoid.get_copy(e)),
            'hdict23': (lambda: [grid_h((2, 3))], lambda e: Hyperplane.from_dict(Hyperplane.to_dict(e, True)[0])),
            'hcopy23': (lambda: [grid_h((2, 3))], lambda e: Hyperplane.get_copy(e)),
            'rep': (lambda: [E(Q1, [1, 2]), [2, 3]], lambda e, s: e.rep_mat(s)),
            'rep1': (lambda: [E(Q1, [1, 2]), [1]], lambda e, s: e.rep_mat(s)),
            'rep_vec': (lambda: [E(Q1, [1, 2]), np.array([2, 3])], lambda e, s: e.rep_mat(s)),
            'hrep': (lambda: [Hyperplane(arr([1, 2]), 3.), [2, 3]], lambda e, s: e.rep_mat(s)),
            'from_rep2': (lambda: [arr([1, 0]), arr(Q1), [2, 2]], lambda c, q, s: Ellipsoid.from_rep_mat(c, q, s)),
            'hfrom_rep2': (lambda: [arr([1, 0]), 2., [2, 2]], lambda c, q, s: Hyperplane.from_rep_mat(c, q, s))},
    'C08': {'rho23': (lambda: [E(Q1, [1, 0]), grid_n((2, 2, 3))], lambda e, d: Ellipsoid.rho(e, d)),
            'rho222': (lambda: [E(Q1, [1, 0]), grid_n((2, 2, 2, 2))], lambda e, d: Ellipsoid.rho(e, d)),
            'rho23p': (lambda: [grid_e((2, 3)), grid_n((2, 2, 3))], lambda e, d: Ellipsoid.rho(e, d)),
            'rho23m': (lambda: [grid_e((2, 3)), arr([[1], [2]])], lambda e, d: Ellipsoid.rho(e, d)),
            'rho3d': (lambda: [E(Q3, [1, 0, 2]), grid_n((3, 4))], lambda e, d: Ellipsoid.rho(e, d)),
            'rho_mat3': (lambda: [arr(Q3), grid_n((3, 4)), 1e-7, arr([[1], [2], [3]])], rho_mat)},
    'C09': {'bnd3f': (lambda: [Ellipsoid(arr([1, 2, 3]), arr(Q3), n_plot_3d_points=13), arr([0.5, 1])],
                      lambda e, f: [e.get_boundary_by_factor(f), e.get_rho_boundary_by_factor(f)])},
    'C10': {'proj23': (lambda: [grid_e((2, 3)), arr([[3, -4], [4, 3]])], lambda e, b: Ellipsoid.get_projection(e, b)),
            'proj_in': (lambda: [grid_e((2, 2)), arr([[3], [4]])], lambda e, b: Ellipsoid.projection(Ellipsoid.get_copy(e), b)),
            'proj3': (lambda: [[E(Q3, [1, 2, 3])], arr([[1, 2], [2, 1], [2, -2]])], lambda e, b: Ellipsoid.get_projection(e, b))},
    'C11': {'scal23': (lambda: [grid_e((2, 3))], lambda e: [f(e) for f in (
                Ellipsoid.volume, Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig, Ellipsoid.is_degenerate,
                Ellipsoid.is_empty)] + list(Ellipsoid.dimension(e, True))),
            'scal222': (lambda: [grid_e((2, 2, 2))], lambda e: [f(e) for f in (
                Ellipsoid.volume, Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig, Ellipsoid.is_degenerate,
                Ellipsoid.is_empty)] + list(Ellipsoid.dimension(e, True))),
            'scal_deg': (lambda: [dells()], lambda e: [Ellipsoid.volume(e), Ellipsoid.trace(e), Ellipsoid.min_eig(e),
                                                      Ellipsoid.is_degenerate(e), Ellipsoid.dimension(e, True)])},
    'C12': {'int23': (lambda: [grid_e((2, 3)), grid_n((2, 7))], lambda e, p: [Ellipsoid.is_internal(e, p, m) for m in 'ui']),
            'int222': (lambda: [grid_e((2, 2, 2)), grid_n((2, 4))], lambda e, p: [Ellipsoid.is_internal(e, p, m) for m in 'ui']),
            'int1': (lambda: [E(Q1), arr([[0], [1]])], lambda e, p: Ellipsoid.is_internal(e, p, 'u'))},
    'C13': {'big3': (lambda: [E(Q3, [1, 2, 3]), E([[1, 0, 0], [0, 1, 0], [0, 0, 0]])], lambda a, b: [a.is_bigger(b), b.is_bigger(a)])},
    'C14': {'polar23': (lambda: [grid_e((2, 3), [(Q1, [0.5, 0]), (Q2, [0, -0.25]), (Q1, [0.25, 0.5]), ([[5, -2], [-2, 3]], [0, 0]),
                                                 (Q2, [0.5, 0]), ([[1, 0], [0, 4]], [0.25, 0])])], lambda a: Ellipsoid.polar(a)),
            'polar222': (lambda: [grid_e((2, 2, 2), [(Q1, [0.5, 0]), (Q2, [0, -0.25]), (Q1, [0.25, 0.5])])], lambda a: Ellipsoid.polar(a))},
    'C15': {'ea23': (lambda: [grid_e((2, 3)), arr(L2)], lambda e, d: Ellipsoid.minksum_ea(e, d)),
            'ea222': (lambda: [grid_e((2, 2, 2)), arr(L2)], lambda e, d: Ellipsoid.minksum_ea(e, d))},
    'C16': {'ia23': (lambda: [grid_e((2, 3)), arr(L2)], lambda e, d: Ellipsoid.minksum_ia(e, d)),
            'ia222': (lambda: [grid_e((2, 2, 2)), arr(L2)], lambda e, d: Ellipsoid.minksum_ia(e, d))},
    'C17': {'um23': (lambda: [grid_e((2, 3))], lambda e: Ellipsoid.uminus(e)),
            'um222': (lambda: [grid_e((2, 2, 2))], lambda e: Ellipsoid.uminus(e)),
            'neg1': (lambda: [E(Q1, [1, 2])], lambda e: -e),
            'hum23': (lambda: [grid_h((2, 3))], lambda e: Hyperplane.uminus(e)),
            'hum222': (lambda: [grid_h((2, 2, 2))], lambda e: Hyperplane.uminus(e)),
            'hneg1': (lambda: [Hyperplane(arr([1, 2]), 3.)], lambda e: -e)},
    'C18': {'con_pts': (lambda: [[Hyperplane(arr([1, 2]), 1.25)], grid_n((2, 9))], lambda h, p: Hyperplane.contains(h, p)),
            'con23': (lambda: [grid_h((2, 3)), arr([1, 1])], lambda h, p: Hyperplane.contains(h, p)),
            'con23e': (lambda: [grid_h((2, 3)), np.array([[[1, 0, 1], [1, 1, 3]], [[1, 1, 1], [0, 1, -2]]], dtype=np.float64)],
                       lambda h, p: Hyperplane.contains(h, p)),
            'con23p': (lambda: [[Hyperplane(arr([1, 1]), 2.)], np.array([[[1, 0, 1], [1, 1, 3]], [[1, 1, 1], [1, 1, -2]]], dtype=np.float64)],
                       lambda h, p: Hyperplane.contains(h, p)),
            'con_inf': (lambda: [[Hyperplane(arr([1, 0]), 2.)], arr([[2, 2, 1], [float('inf'), 0, float('-inf')]])],
                        lambda h, p: Hyperplane.contains(h, p)),
            'par23': (lambda: [grid_h((2, 3)), grid_h((2, 3))[::-1].copy()], lambda a, b: Hyperplane.is_parallel(a, b)),
            'par1': (lambda: [grid_h((2, 3)), grid_h((1,))], lambda a, b: [Hyperplane.is_parallel(a, b), Hyperplane.is_parallel(b, a)]),
            'hdim': (lambda: [grid_h((2, 3))], lambda a: [Hyperplane.dimension(a), Hyperplane.is_empty(a)])},
    'C19': {'cmp23': (lambda: [grid_n((2, 3)), grid_n((2, 3)) + 0.001, 0.01, 0.2], lambda a, b, x, y: abs_rel_compare(a, b, x, y, np.abs)),
            'cmp222': (lambda: [grid_n((2, 2, 2)), grid_n((2, 2, 2)), 0.01, 0.2], lambda a, b, x, y: abs_rel_compare(a, b, x, y, np.abs)),
            'cmp_far': (lambda: [grid_n((2, 3)), grid_n((2, 3), 5), 1., None], lambda a, b, x, y: abs_rel_compare(a, b, x, y, np.abs)),
            'dict_mat': (lambda: [{'a': grid_n((2, 3))}, {'a': grid_n((2, 3)) + 0.001}, 0.01, 0.01], dict_compare)},
    'C20': {'member': (lambda: [grid_n((7,)), grid_n((9,), 5)], is_member),
            'member_i': (lambda: [np.array([3, 1, 2, 3]), np.array([2, 2, 3, 5])], is_member),
            'sort': (lambda: [grid_n((6, 3)), 1.5], sort_rows_tol)},
    'C21': {'orth43': (lambda: [grid_n((4, 3))], la.mat_orth), 'orthcol43': (lambda: [grid_n((4, 3))], la.math_orth_col),
            'sqrtm3': (V(Q3, 1e-7), la.sqrtm_pos), 'regpos3': (V(Q3, 1.5), la.reg_pos_def_mat), 'pd3': (V(Q3, 1e-7), la.is_mat_pos_def),
            'nd3': (V(Q3, 1e-7), la.is_mat_not_deg), 'symm3': (V(Q3, 1e-7), la.is_mat_symm), 'regmat3': (V(Q3, 1.5), la.reg_mat),
            'asym': (V([[1, 2], [2.5, 1]], 0.1), la.is_mat_symm),
            'spos23': (lambda: [np.abs(grid_n((2, 3))), 1e-7], sqrt_pos),
            'spos222': (lambda: [np.abs(grid_n((2, 2, 2))), 1e-7], sqrt_pos)},
    'C22': {'t3': (V([1, 2, 2], [3, -1, 4]), la.orth_transl), 'h3': (V([1, 2, 2], [3, -1, 4]), la.orth_transl_haus),
            'q3': (V([1, 2, 2], [3, -1, 4]), la.orth_transl_qr), 'tr3': (V([1, 2, 2], [3, -1, 4], [[1, 2, 0], [0, 1, 1], [3, 0, 1]]), la.orth_transl_max_tr),
            'd3': (V([1, 2, 2], [3, -1, 4], [1, 0, 1], [0, 1, 2]), la.orth_transl_max_dir),
            'ml': (lambda: [grid_n((2, 3)), grid_n((2, 3, 4), 5)], la.ml_orth_transl),
            'ml_same': (lambda: [arr([[1, 2, 0], [2, 1, 1]]), np.dstack([arr([[3, 3, 3], [1, 1, 1]])] * 2)], la.ml_orth_transl),
            'ml_src': (lambda: [arr([[1, 1, 1], [2, 2, 2]]), grid_n((2, 3, 2), 5)], la.ml_orth_transl)},
    'C23': {'ball': (lambda: [2], ell_unitball), 'sim3': (V(Q3, [[1, 2, 0], [2, -1, 1], [0, 1, 1]], 1e-7), ell_sim_diag),
            'val3': (V([1, 2, 2], [3, -1, 4]), ell_valign),
            'fus3': (V(0.25, [1, 0, 1], Q3, [0, 1, 0], Q3, 3), ell_fusion_lambda),
            'vol3': (V(Q3), ell_volume), 'inv3': (V(Q3), inv_mat),
            'quad3': (V(Q3, [1, 2, 3], [1, 0, 0]), lambda q, x, c: [quad_mat(q, x, c, m) for m in ('plain', 'inv', 'invadv')])},
    'C24': {'rect_r': (lambda: [grid_n((2, 3, 4)), grid_n((3, 2, 4), 5)], lambda a, b: [MatVector.r_multiply(a, b, None, s) for s in (True, False)]),
            'rect_c': (lambda: [grid_n((2, 3, 4)), grid_n((3, 2), 5)], lambda a, b: [MatVector.r_multiply(a, b, None, s) for s in (True, False)]),
            'rect_v': (lambda: [grid_n((2, 3, 4)), grid_n((3, 4), 5)], lambda a, b: [MatVector.r_multiply_by_vec(a, b, s) for s in (True, False)]),
            'tr23': (lambda: [grid_n((2, 3, 4))], MatVector.transpose), 'pinv23': (lambda: [grid_n((2, 3, 4))], MatVector.pinv),
            'triu23': (lambda: [grid_n((3, 3, 2))], MatVector.triu), 'same_sl': (lambda: [np.dstack([arr(Q1)] * 3)], SquareMatVector.inv),
            'same_sq': (lambda: [np.dstack([arr(Q1)] * 3)], SquareMatVector.sqrtm_pos)},
    'C25': {'f_times': (lambda: [np.array([['t', '1'], ['t**2', 't']]), arr([0, 1, 2, 4])], MatVector.from_formula_mat),
            'e_times': (lambda: ['[t, 1], [t*t, t+1]', arr([0, 1, 2, 4])], MatVector.from_expression),
            'e_expr': (lambda: ['[t, 2], [t*t, t+1]', arr([0, 1, 2, 4])], MatVector.from_expression),
            'func_t': (lambda: [arr([0, 1, 2, 4])], lambda t: MatVector.from_func(lambda s: np.array([[s, 1.], [2., s * s]]), t)),
            'eval_v': (lambda: [grid_n((2, 3, 4))], lambda a: [MatVector.eval_func(lambda m: m[0], a, True, True), MatVector.eval_func(np.sum, a)])},
    'C26': {'circ_arc': (lambda: [5, arr([0.5, 2])], lambda n, a: [circle_part(n, False, a), circle_part(n, True, a)]),
            'sphere': (V(14), sphere_part), 'tri0': (V(0), tri.sphere_tri), 'ext2': (V(2, 6), tri.sphere_tri_ext)},
    'C27': {'shrink2': (lambda: [arr([[0, 0, 0], [2, 0, 0], [0, 1, 0], [1, 1, 1]]), np.array([[0, 1, 2], [1, 3, 2]])],
                        lambda v, f: tri.shrink_face_tri(v, f, 0.9, 3, None, True)),
            'f2e': (lambda: [np.array([[0, 1, 2], [1, 3, 2], [3, 4, 2]])], tri.map_face_2_edge)},
    'C28': {'face3': (lambda: [np.array([[0, 1, 2], [1, 3, 2], [3, 4, 2]]), np.array([[2, 1, 3], [0, 1, 3], [4, 2, 3]])], tri.is_face)},
    'C29': {'tube3': (V(3, 2), lambda a, b: [tri.ell_tube_2_tri(a, b), tri.ell_tube_discr_tri(a, b)])},
    'C30': {'sup8': (lambda: [arr(POLYG), arr([3, 3.2, 3, 3.1, 3, 3, 2.9, 3])], sup_2_boundary_2),
            'sup3': (lambda: [arr([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]]), arr([1, 2, 3, 4]), np.array([[0, 1, 2], [1, 2, 3]])], sup_2_boundary_3),
            'd8': (lambda: [arr([6, 8, 6, 8, 6, 8, 6, 8]), arr([1, 2, 1, 1, 1, 2, 1, 1]), arr(POLYG).T.copy()], sup_geom_diff_2d)},
}
# ------------------------------------------------------- results that tell the tolerance of the object from another one
def tolq(t, neg=0.25, n=2):
    """Shape matrix with an eigenvalue -neg*t, valid only for an object with tolerance t."""
    q = np.diag([4., 1., 9.][:n])
    q[n - 1, n - 1] = -neg * t
    return q


def own(t=0.05, c=(1., 0.), **kw):
    return Ellipsoid(arr(c), tolq(t, n=len(c)), abs_tol=t, **kw)


def tried(f, *args):
    try:
        return f(*args)
    except ValueError:
        return 'rejected'


def near(step, c=(0., 0.)):
    """Ellipsoid with a small eigenvalue."""
    return Ellipsoid(arr(c), arr([[1 + step, 1], [1, 1]]))


STEPS = (0., 1e-3, 1e-2, 2e-2)
SENS = {
    'C06': {'eq_step': (lambda: [E(Q1, [1, 0]), [Ellipsoid(arr([1 + s, 0]), arr(Q1)) for s in STEPS]], lambda a, b: Ellipsoid.is_equal(a, b)[0]),
            'eq_size': (lambda: [E(Q1, [1, 0]), [Ellipsoid(arr([1, 0]), (1 + s) * arr(Q1)) for s in STEPS]], lambda a, b: Ellipsoid.is_equal(a, b)[0]),
            'eq_own': (lambda: [[own()], [own()]], lambda a, b: Ellipsoid.is_equal(a, b)),
            'heq_step': (lambda: [Hyperplane(arr([1, 2]), 1.), [Hyperplane(arr([1, 2 + s]), 1. + s) for s in STEPS]], lambda a, b: Hyperplane.is_equal(a, b)[0])},
    'C08': {'rho_own': (lambda: [own(), arr([[1, 0, 2], [0, 1, 1]])], lambda e, d: Ellipsoid.rho(e, d)),
            'rho_own1': (lambda: [[own(), own(0.02)], arr([[0], [1]])], lambda e, d: Ellipsoid.rho(e, d))},
    'C09': {'bnd_own': (lambda: [own()], lambda e: [e.get_boundary(5, True), e.get_rho_boundary(5)]),
            'bnd_own3': (lambda: [own(c=(1., 0., 2.))], lambda e: e.get_boundary(12)),
            'bnd_numbers': (lambda: [own(n_plot_2d_points=6), own(c=(1., 0., 2.), n_plot_3d_points=12)], lambda e, g: [
                e.get_boundary(), e.get_boundary_by_factor(0.5), g.get_boundary(), e.get_rho_boundary(), g.get_rho_boundary()])},
    'C10': {'proj_own': (lambda: [[own(), E(Q1)], arr([[3, -4], [4, 3]])], lambda e, b: Ellipsoid.get_projection(e, b)),
            'proj_step': (lambda: [[E(Q1), E(Q2)], arr([[1, 0], [1e-3, 1]])], lambda e, b: tried(Ellipsoid.get_projection, e, b))},
    'C11': {'deg_own': (lambda: [[own(), near(1e-3), near(0), near(1e-7)]], lambda e: [
                Ellipsoid.is_degenerate(e), Ellipsoid.volume(e), Ellipsoid.dimension(e, True), Ellipsoid.min_eig(e), Ellipsoid.trace(e)])},
    'C12': {'int_step': (lambda: [[E(Q2), near(0., (5., 5.))], arr([[0, 0, 0, 0, 0.9, 6, 6.01], [1, 1.0000001, 1.001, 1.01, 0, 6, 6]])],
                         lambda e, p: [Ellipsoid.is_internal(e, p, m) for m in 'ui']),
            'int_deg_step': (lambda: [[E([[1, 0], [0, 0]])], arr([[0, 0.5, 0.5, 1.0001, 1.1], [0, 0.0000001, 0.01, 0, 0]])],
                             lambda e, p: Ellipsoid.is_internal(e, p, 'u'))},
    'C13': {'big_step': (lambda: [E(Q1), [Ellipsoid((1 + s) * arr(Q1)) for s in STEPS]], lambda a, b: [a.is_bigger(x) for x in b]),
            'big_own': (lambda: [own(), [own(0.02), E(Q1), E([[1, 0], [0, 0]])]], lambda a, b: [[bool(a.is_bigger(x)), bool(x.is_bigger(a))] for x in b])},
    'C14': {'polar_thin': (lambda: [[near(1e-4), E([[1, 0], [0, 1e-2]], [0.5, 0]), Ellipsoid(arr([0.99, 0]), arr([[1, 0], [0, 4]]))]], lambda e: Ellipsoid.polar(e))},
    'C15': {'ea_own': (lambda: [[own(), near(1e-4), E(Q1)], arr(L2)], lambda e, d: Ellipsoid.minksum_ea(e, d)),
            'ea_near': (lambda: [[near(0.), near(1e-3)], arr([[1, 1, 1], [-1, -0.999, 1]])], lambda e, d: Ellipsoid.minksum_ea(e, d))},
    'C16': {'ia_own': (lambda: [[own(), near(1e-4), E(Q1)], arr(L2)], lambda e, d: Ellipsoid.minksum_ia(e, d)),
            'ia_near': (lambda: [[near(0.), near(1e-3)], arr([[1, 1, 1], [-1, -0.999, 1]])], lambda e, d: Ellipsoid.minksum_ia(e, d))},
    'C17': {'um_own': (lambda: [[own(), E(Q1, [1, 2])]], lambda e: [Ellipsoid.uminus(e), -e[0]])},
    'C18': {'con_step': (lambda: [[Hyperplane(arr([1, 2]), 3.)], arr([[1, 1.0000001, 1.001, 1.02], [1, 1, 1, 1]])], lambda h, p: Hyperplane.contains(h, p)),
            'par_step': (lambda: [[Hyperplane(arr([1, 2]), 3.)], [Hyperplane(arr([1, 2 + s]), 1.) for s in STEPS]], lambda a, b: Hyperplane.is_parallel(a, b)),
            'con_own': (lambda: [[Hyperplane(arr([1, 2]), 3. + s, abs_tol=0.05) for s in STEPS + (0.1,)], arr([1, 1])], lambda h, p: Hyperplane.contains(h, p))},
    'C07': {'own_all': (lambda: [[own(), near(1e-3)]], lambda e: [Ellipsoid.get_copy(e), Ellipsoid.from_dict(Ellipsoid.to_dict(e, True)[0]), e[0].rep_mat([2])])},
}
for _p, _d in SENS.items():
    MORE.setdefault(_p, {}).update(_d)

OWN = {'C08': 'rho rho_many rho_mat rho_mat_z', 'C09': 'boundary boundary3 boundary_default rho_boundary rho_boundary3 bnd_factor',
       'C10': 'getproj', 'C11': 'scalars', 'C12': 'is_internal is_internal_deg', 'C13': 'is_bigger is_bigger_deg',
       'C06': 'is_equal is_equal_prop', 'C14': 'polar', 'C15': 'ea ea_deg', 'C16': 'ia ia_deg', 'C17': 'uminus h_neg',
       'C07': 'copy dict from_rep h_dict', 'C18': 'h_parallel h_contains', 'C23': 'unitball sim_diag fusion valign ell_volume inv_mat quad_mat quad_col',
       'C21': 'not_deg pos_def symm mat_orth orth_col reg_pos sqrtm treat_real reg_mat sqrt_pos mat_dot',
       'C22': 'ml_orth orth_transl orth_haus orth_maxdir orth_maxtr orth_qr', 'C20': 'sort_rows is_member',
       'C24': 'triu make_symm pinv transpose rmulvec rmul rmul3 sq_inv sq_sqrtm sq_ornan sq_byeig sq_byeig2 lr_mul lr_mulvec '
              'lr_mulvec1 lr_div lr_div1 svd_mul svd_rvec svd_lrvec svd_div',
       'C25': 'formula expr func eval sym_dep sym_repl', 'C26': 'circle sphere_part icosa sphere_tri sphere_ext',
       'C27': 'map_f2e shrink', 'C28': 'is_face tri_equal', 'C29': 'tube', 'C30': 'sup2b sup2b3 diff2 diff3',
       'C19': 'compare compare_inf dict_cmp dict_vec'}


def calls_of(pid):
    out = {n: CALLS[n] for n in OWN.get(pid, '').split()}
    out.update(MORE.get(pid, {}))
    return out


PIDS = sorted(set(OWN) | set(MORE))
