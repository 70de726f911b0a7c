"""C09: boundary samples."""
import math

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import Ellipsoid, Properties, arr, ell, expect, expect_error, fail, flat, reset, tl
from ellipy.gras.geom.tri.tri import sphere_tri_ext

S2 = [('round', [[1, 0], [0, 1]]), ('axes', [[4, 0], [0, 9]]), ('correlated', [[2, 1], [1, 3]]), ('negative', [[5, -3], [-3, 2]]),
      ('large', [[4000000, 1000000], [1000000, 9000000]]), ('thin', [[1, 0], [0, 1e-4]]),
      ('rank1', [[1, -1], [-1, 1]]), ('rank1axis', [[0, 0], [0, 9]]), ('point', [[0, 0], [0, 0]])]
S3 = [('round', ora.eye(3)), ('axes', ora.diag([4, 9, 16])), ('correlated', [[2, 1, 0], [1, 3, -1], [0, -1, 4]]),
      ('flat', ora.diag([1, 4, 0])), ('rank1', [[1, 1, -1], [1, 1, -1], [-1, -1, 1]]), ('mixed', [[5, 2, 1], [2, 1, 0], [1, 0, 6]])]
C2 = [[0, 0], [-3, 7]]
C3 = [[0, 0, 0], [5, -1, 2]]


def depth_size(n):
    d = 1
    while 10 * 4 ** d + 2 < n:
        d += 1
    return d, 10 * 4 ** d + 2


def want_dirs(n_dim, n):
    if n_dim == 2:
        return np.array([[math.cos(2 * math.pi * k / n), math.sin(2 * math.pi * k / n)] for k in range(n)])
    return np.asarray(sphere_tri_ext(3, n, True)[0])


def check_faces(f, n_dim, n_vert, what):
    f = np.asarray(f)
    expect(f.ndim == 2 and f.shape[1] == n_dim, '{}: faces of shape {}', what, f.shape)
    f = [[int(x) for x in r] for r in f.tolist()]
    expect(all(0 <= x < n_vert for r in f for x in r), '{}: a face refers to a point that is not there', what)
    if n_dim == 2:
        expect(len(f) == n_vert, '{}: {} edges for {} points', what, len(f), n_vert)
        expect(sorted(sorted(r) for r in f) == sorted(sorted([k, (k + 1) % n_vert]) for k in range(n_vert)),
               '{}: edges {} do not join neighbouring points into a closed curve', what, f[:5])
        return
    expect(len(f) == 2 * n_vert - 4, '{}: {} triangles for {} points', what, len(f), n_vert)
    half = {}
    for a, b, c in f:
        for e in ((a, b), (b, c), (c, a)):
            half[e] = half.get(e, 0) + 1
    expect(all(v == 1 and half.get((b, a)) == 1 for (a, b), v in half.items()), '{}: triangles do not form a closed oriented surface', what)
    expect(len({x for r in f for x in r}) == n_vert, '{}: points without triangles', what)


def check_points(pts, q, c, n, what):
    """pts: boundary samples asked for with n points."""
    n_dim = len(c)
    pts = np.asarray(pts)
    k = n if n_dim == 2 else depth_size(n)[1]
    expect(pts.shape == (k, n_dim), '{}: points of shape {} instead of {}', what, pts.shape, (k, n_dim))
    w, v = ora.jacobi(q)
    root = arr(ora.sqrtm(q))
    scale = math.sqrt(max(max(w), 0.)) or 1e-3
    degenerate = min(w) <= 1e-9 * max(max(w), 1e-300)
    tol = (1e-7 if degenerate else 1e-9) * scale + 1e-13 * max(abs(x) for x in c)
    want = want_dirs(n_dim, n) @ root + arr(c)
    err = float(np.max(np.abs(pts - want)))
    expect(err <= tol, '{}: point {} is {}, expected {}', what, int(np.argmax(np.max(np.abs(pts - want), axis=1))),
           tl(pts[int(np.argmax(np.max(np.abs(pts - want), axis=1)))]), tl(want[int(np.argmax(np.max(np.abs(pts - want), axis=1)))]))
    if not degenerate:
        x = np.linalg.solve(arr(q), (pts - arr(c)).T).T
        r = np.sum(x * (pts - arr(c)), axis=1)
        expect(float(np.max(np.abs(r - 1))) < 1e-7, '{}: points off the boundary', what)
    return degenerate


def check_rho(res, q, c, n, what):
    expect(isinstance(res, tuple) and len(res) == 4, '{}: {} results', what, len(res))
    bp, f, sup, lg = res
    n_dim = len(c)
    k = n if n_dim == 2 else depth_size(n)[1]
    bp, lg, sup = np.asarray(bp), np.asarray(lg), np.asarray(sup)
    expect(bp.shape == (k + 1, n_dim) and lg.shape == (k + 1, n_dim) and sup.size == k + 1, '{}: shapes {} {} {} for {} directions', what,
           bp.shape, lg.shape, sup.shape, k)
    sup = sup.ravel()
    want = want_dirs(n_dim, n)
    expect(float(np.max(np.abs(lg - np.vstack((want, want[:1]))))) < 1e-9, '{}: other directions', what)
    qa, ca = arr(q), arr(c)
    form = np.maximum(np.sum((lg @ qa) * lg, axis=1), 0)
    scale = math.sqrt(max(float(np.max(np.abs(qa))), 1e-6))
    tol = 1e-7 * scale + 1e-13 * float(np.max(np.abs(ca)))
    vals = lg @ ca + np.sqrt(form)
    expect(float(np.max(np.abs(vals - sup))) <= tol, '{}: support values', what)
    expect(float(np.max(np.abs(np.sum(bp * lg, axis=1) - vals))) <= tol, '{}: support points do not attain the support values', what)
    rows = range(0, k + 1, max(1, (k + 1) // 60))
    test = lg[::max(1, (k + 1) // 60)]
    sv = test @ ca + np.sqrt(np.maximum(np.sum((test @ qa) * test, axis=1), 0))
    for i in rows:
        expect(bool(np.all(test @ bp[i] <= sv + tol)), '{}: support point {} is not in the ellipsoid', what, i)
    expect(bool(np.all(np.isfinite(bp))), '{}: infinite support points', what)
    expect(np.array_equal(lg[0], lg[-1]) and bool(np.all(np.abs(bp[0] - bp[-1]) <= tol)) and abs(sup[0] - sup[-1]) <= tol, '{}: the first direction is not repeated at the end', what)
    check_faces(f, n_dim, k, what)


def cases_counts(tier):
    big = tier != 'quick'
    for name, _ in S2:
        for ci in range(2):
            for n in list(range(1, 41)) + ([] if not big else list(range(41, 200)) + [500, 1000]):
                yield [2, name, ci, n]
    ns = [1, 2, 41, 42, 43, 100, 161, 162, 163] + ([] if not big else [12, 13, 300, 641, 642, 643, 2000, 2562, 2563])
    for name, _ in S3:
        for ci in range(2):
            for n in ns:
                yield [3, name, ci, n]


def get(n_dim, name, ci):
    return dict(S2 if n_dim == 2 else S3)[name], (C2 if n_dim == 2 else C3)[ci]


def run_counts(case, rec):
    n_dim, name, ci, n = case
    q, c = get(n_dim, name, ci)
    what = '{} ellipsoid in dimension {}, {} points'.format(name, n_dim, n)
    e = ell(q, c)
    pts = e.get_boundary(n)
    d = check_points(pts, q, c, n, what)
    r = e.get_boundary(n, True)
    expect(isinstance(r, tuple) and len(r) == 2, '{}: a grid was asked for', what)
    check_points(r[0], q, c, n, what + ' with grid')
    check_faces(r[1], n_dim, len(r[0]), what)
    check_points(e.get_boundary(n, return_grid=False), q, c, n, what)
    if n < 50 or n_dim == 2:
        for m in (float(n), np.int64(n), np.float64(n)):
            check_points(e.get_boundary(m), q, c, n, what + ' as ' + type(m).__name__)
    check_rho(e.get_rho_boundary(n), q, c, n, what + ', support-based')
    rec.outcome((n_dim, d, depth_size(n)[0] if n_dim == 3 else 0))


def scale_cases(tier):
    for n_dim in (2, 3):
        for s in (-24, -20, -16, -8, 10):
            for tol in (1e-7, 1e-4, 1e-2):
                for name in ('round', 'axes', 'correlated') + (('negative', 'thin') if n_dim == 2 else ('mixed',)):
                    yield [n_dim, s, tol, name]


def run_scale(case, rec):
    """Ellipsoids much smaller (or larger) than their tolerances."""
    n_dim, s, tol, name = case
    q, c = get(n_dim, name, 0)
    k = 2. ** s
    qa = arr(q) * k * k
    if n_dim == 2:
        n = 12
    else:
        n = 42
    e = ell(qa, c, abs_tol=tol)
    what = '{} ellipsoid scaled by 2^{} with tolerance {}'.format(name, s, tol)
    want = want_dirs(n_dim, n) @ arr(ora.sqrtm(q)) * k
    for pts in (e.get_boundary(n), e.get_boundary(n, True)[0]):
        expect(float(np.max(np.abs(np.asarray(pts) - want))) <= 1e-7 * k * 10, '{}: boundary points {} instead of {}', what, tl(pts)[:2], tl(want)[:2])
    rec.outcome((n_dim, s))


FACT = [1, 1.0, 0.5, 2, 1.5, 0.25, 3, 0.75, 1.25]


def cases_factor(tier):
    for n_dim in (2, 3):
        for p2, p3 in ((10, 50), (7, 163), (13, 20)) + (((31, 650), (200, 200)) if tier != 'quick' else ()):
            for f in [None] + FACT:
                for kind in ('scalar', 'np', 'list', 'array', 'tuple'):
                    if f is None and kind != 'scalar':
                        continue
                    yield [n_dim, p2, p3, f, kind]


def run_factor(case, rec):
    n_dim, p2, p3, f, kind = case
    q, c = get(n_dim, 'correlated', 1)
    kw = {'n_plot_2d_points': p2, 'n_plot_3d_points': p3}
    e = ell(q, c, **kw)
    n = int(math.floor((p2 if n_dim == 2 else p3) * (1 if f is None else f)))
    other = 1 if f is not None and f != 1 else 2
    v = [f, other] if n_dim == 2 else [other, f]
    arg = f if kind == 'scalar' else np.float64(f) if kind == 'np' else v if kind == 'list' else tuple(v) if kind == 'tuple' else np.array(v, dtype=float)
    what = 'factor {} ({}), dimension {}, {} plot points'.format(f, kind, n_dim, (p2, p3))
    for conf in (False, True):
        reset()
        if conf:
            Properties.set_n_plot_2d_points(99)
            Properties.set_n_plot_3d_points(500)
        check_points(e.get_boundary_by_factor(arg), q, c, n, what)
        p, g = e.get_boundary_by_factor(arg, True)
        check_points(p, q, c, n, what)
        check_faces(g, n_dim, len(p), what)
        check_rho(e.get_rho_boundary_by_factor(arg), q, c, n, what)
        if f is None:
            check_points(e.get_boundary_by_factor(), q, c, n, what)
            check_rho(e.get_rho_boundary_by_factor(), q, c, n, what)
            check_points(e.get_boundary(), q, c, n, what + ', no number')
            p, g = e.get_boundary(return_grid=True)
            check_points(p, q, c, n, what + ', no number')
            check_faces(g, n_dim, len(p), what)
            check_rho(e.get_rho_boundary(), q, c, n, what + ', no number')
    reset()
    Properties.set_n_plot_2d_points(p2)
    Properties.set_n_plot_3d_points(p3)
    d = ell(q, c)
    reset()
    check_points(d.get_boundary_by_factor(arg), q, c, n, what + ', configured numbers captured')
    rec.outcome((kind, n_dim))


def cases_bad(tier):
    for n_dim in (0, 1, 4, 5):
        yield ['dim', n_dim]
    for n_dim in (2, 3):
        for n in (0, -1, 2.5, -3.0):
            yield ['n', n_dim, n]
        for f in (0, 0.001, -1):
            yield ['f', n_dim, f]


def run_bad(case, rec):
    reset()
    if case[0] == 'dim':
        e = Ellipsoid() if case[1] == 0 else ell(ora.eye(case[1]))
        for fn in (e.get_boundary, e.get_rho_boundary, e.get_boundary_by_factor, e.get_rho_boundary_by_factor, lambda: e.get_boundary(5),
                   lambda: e.get_boundary(5, True), lambda: e.get_rho_boundary(5), lambda: e.get_boundary_by_factor(2.),
                   lambda: e.get_rho_boundary_by_factor(2.)):
            expect_error(fn, 'wrongDim', 'dimension {}'.format(case[1]))
    else:
        e = ell(ora.eye(case[1]))
        x = case[2]
        for fn in ((lambda: e.get_boundary(x), lambda: e.get_boundary(x, True), lambda: e.get_rho_boundary(x)) if case[0] == 'n' else
                   (lambda: e.get_boundary_by_factor(x), lambda: e.get_boundary_by_factor(x, True), lambda: e.get_rho_boundary_by_factor(x))):
            expect_error(fn, '', 'number of points / factor {}'.format(x))
    rec.outcome(case[0])


CHECK = Check('C09', 'exploration',
              'all numbers of points in a range and around the refinement thresholds x shapes (round, correlated, thin, degenerate) x centers; all factors x '
              'containers x captured numbers of points x dimensions; non-trivial: more than one point',
              generic('C09') +
              [Stage('counts', cases_counts, run_counts, nontrivial=lambda c: c[3] > 1, setup=reset),
               Stage('scales', scale_cases, run_scale, setup=reset),
               Stage('factors', cases_factor, run_factor, setup=reset),
               Stage('rejected', cases_bad, run_bad, setup=reset)])
