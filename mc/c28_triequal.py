"""C28: lookup of faces and comparison of triangulations."""
import itertools

import numpy as np

from core import Check, Stage
from variants import stages as generic
from lib import expect, reset
from ellipy.gras.geom.tri.tri import icosahedron, is_face, is_tri_equal, shrink_face_tri, sphere_tri

ORD = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)]
T4 = list(itertools.combinations(range(4), 3))
T5 = list(itertools.combinations(range(5), 3))


def orient(fs, n):
    return [[t[i] for i in ORD[(n + 5 * j + j * j * (n % 4 + 1)) % 6]] for j, t in enumerate(fs)]


# -- lookup -----------------------------------------------------------------------------------
def face_cases(tier):
    for k in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for i, fs in enumerate(itertools.combinations(T5, k)):
            yield [list(map(list, fs)), i, int(tier == 'quick')]
    for fs in itertools.combinations_with_replacement(T4, 3):
        yield [list(map(list, fs)), 1, int(tier == 'quick')]


TYPES = [np.int64, np.int32, np.uint8, np.int16, np.float64]


def run_face(case, rec):
    fs, i, quick = case
    faces = orient(fs, i)
    there = {tuple(sorted(t)) for t in fs}
    asked = [list(t) for t in itertools.permutations(range(6), 3)]
    want = [tuple(sorted(t)) in there for t in asked]
    expect(any(want) and not all(want), 'bad case')
    for j, (a, b) in enumerate(itertools.product(TYPES, TYPES)):
        if a is not b and (i + j) % (8 if quick else 4) and len(fs) > 1 or quick and (i + j) % 3 and len(fs) > 2:
            continue
        f = np.array(faces, dtype=a)
        q = np.array(asked, dtype=b)
        if (i + j) % 3 == 0:
            q = np.asfortranarray(q)
        if (i + j) % 2:
            f = np.asfortranarray(f)
        kf, kq = f.copy(), q.copy()
        for g in [f] + ([f[0]] if len(f) == 1 else []):
            got = is_face(g, q)
            expect(isinstance(got, np.ndarray) and got.dtype == bool and got.shape == (len(asked),), 'is_face: {!r}', got)
            bad = [t for t, x, y in zip(asked, got.tolist(), want) if x != y]
            expect(not bad, 'is_face({} of {}, {} of {}) is wrong', faces, a.__name__, bad, b.__name__)
        for s in range((i + j) % 11, len(asked), 44 if quick else 11):
            got = is_face(f, q[s:s + 1])
            expect(got.tolist() == want[s:s + 1], 'is_face({}, {}): {}', faces, asked[s], got)
        expect(np.array_equal(f, kf) and np.array_equal(q, kq), 'is_face: arguments changed')
    rec.outcome((len(fs), sum(want)))


# triangles with vertices the triangulation does not have
def foreign_cases(tier):
    for fs in ([[0, 1, 2]], [[0, 1, 2], [1, 2, 3]], [[0, 1, 3], [0, 2, 3], [1, 2, 3]], [[0, 1, 2], [2, 3, 4]], [[0, 3, 4], [1, 2, 4]], [[5, 7, 9], [5, 7, 10]]):
        for top in (9, 14) if tier == 'quick' else (9, 14, 20):
            yield [fs, top]


def run_foreign(case, rec):
    fs, top = case
    there = {tuple(sorted(t)) for t in fs}
    asked = [list(t) for t in itertools.combinations(range(top), 3)]
    asked += [[t[i] for i in ORD[k % 6]] for k, t in enumerate(asked)] + [[0, 1, 10 ** 6], [10 ** 6, 1, 2], [2 ** 31, 2 ** 31 + 1, 2 ** 31 + 2]]
    want = [tuple(sorted(t)) in there for t in asked]
    got = is_face(np.array(fs), np.array(asked)).tolist()
    bad = [t for t, x, y in zip(asked, got, want) if x != y]
    expect(not bad, 'is_face({}, ...) is wrong for {}', fs, bad[:5])
    for t, w in list(zip(asked, want))[::13]:
        expect(is_face(np.array(fs), np.array([t])).tolist() == [w], 'is_face({}, {})', fs, t)
    rec.outcome((len(fs), sum(want)))


# -- comparison -------------------------------------------------------------------------------
POS = {
    'corner': [[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4], [4, 4, 4]],
    'box': [[0, 0, 0], [4, 0, 0], [0, 4, 0], [4, 4, 0], [4, 0, 4]],
    'line': [[2, 8, 0], [2, 4, 0], [2, 0, 0], [2, -4, 4], [2, -4, 0]],
    'plane': [[0, 0], [4, 0], [0, 4], [-4, 4], [4, 4]],
    'generic': [[0, 8, -4], [4, -16, 12], [-8, 4, 20], [16, -12, 4], [24, 0, -16]],
    'huge': [[0, 0, 0], [2 ** 20, 0, 0], [0, 2 ** 20, 0], [2 ** 20, 2 ** 20, 0], [0, 0, 4]],
}
TOLS = [0., 2. ** -3, 2. ** -20]


def renumbered(v, f, perm, n, eps):
    """Vertex i becomes perm[i]; positions shifted by eps times a pattern in [-1, 1]."""
    w = [None] * len(v)
    for i, p in enumerate(perm):
        w[p] = [x + eps * (((i * 5 + c * 3 + n) % 5) - 2) / 2. for c, x in enumerate(v[i])]
    g = [[perm[x] for x in t] for t in f]
    g = orient(g, n)
    k = n % len(g)
    g = g[k:] + g[:k]
    return np.array(w, dtype=float), np.array(g[::-1] if n % 2 else g)


def check(v1, f1, v2, f2, tol, want, what):
    args = (v1, f1, v2, f2)
    keep = [a.copy() for a in args]
    for a in (args, args[2:] + args[:2]):
        r = is_tri_equal(*a, tol)
        expect(isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], str) and r[0] in (True, False), '{}: {!r}', what, r)
        expect(bool(r[0]) == want, '{}: {} for {} {} and {} {} with tolerance {}', what, r, a[0].tolist(), a[1].tolist(), a[2].tolist(), a[3].tolist(), tol)
        expect((r[1] == '') == bool(r[0]), '{}: report {!r} of {}', what, r[1], r[0])
    expect(all(np.array_equal(a, b) for a, b in zip(args, keep)), '{}: arguments changed', what)


def ren_cases(tier):
    n = 0
    for pos in POS:
        for k in (1, 2, 3):
            for t, m in ((T4, 4), (T5, 5)):
                for fs in itertools.combinations(t, k):
                    n += 1
                    if m == 5 and (len(set(sum(fs, ()))) < 5 or (tier == 'quick' and k == 3 and n % 8)):
                        continue
                    yield [pos, list(map(list, fs)), m, n, int(tier == 'quick')]


def run_ren(case, rec):
    pos, fs, m, n, quick = case
    v = POS[pos][:m]
    va, fa = np.array(v, dtype=float), np.array(fs)
    for i, perm in enumerate(itertools.permutations(range(m))):
        if m == 5 and (i + n) % (20 if quick else 5) or quick and m == 4 and (i + n) % 3:
            continue
        for tol in TOLS:
            w, g = renumbered(v, fs, perm, n + i, tol / 2)
            check(va, fa, w, g, tol, True, 'renumbering {} of {}'.format(perm, pos))
        # a vertex further away than the tolerance
        tol = TOLS[1 + i % 2]
        for c in range(len(v[0])):
            w, g = renumbered(v, fs, perm, n + i, 0.)
            w[i % m, c] += tol
            check(va, fa, w, g, tol, pos != 'huge' or True, 'vertex at the tolerance')
            for x in (tol * 1.25, -tol * 1.5, 1., -2.):
                w, g = renumbered(v, fs, perm, n + i, 0.)
                w[i % m, c] += x
                check(va, fa, w, g, tol, False, 'vertex moved by {} of coordinate {}'.format(x, c))
    rec.outcome((pos, m, len(fs)))


def pair_cases(tier):
    """All pairs of families of faces on the same vertices."""
    for m, t in ((4, T4), (5, T5)):
        for k in (1, 2, 3) if m == 5 else (1, 2, 3, 4):
            for i, fs in enumerate(itertools.combinations(t, k)):
                yield [list(map(list, fs)), m, i, int(tier == 'quick')]


def run_pair(case, rec):
    fs, m, n, quick = case
    t = T4 if m == 4 else T5
    v = POS['generic'][:m]
    va, fa = np.array(v, dtype=float), np.array(orient(fs, n))
    me = {tuple(x) for x in fs}
    perms = list(itertools.permutations(range(m)))
    i = 0
    for k in (len(fs), len(fs) + 1):
        for gs in itertools.combinations(t, k):
            i += 1
            if quick and i % 2 and set(gs) != me:
                continue
            w, g = renumbered(v, list(map(list, gs)), perms[(n * 7 + i * 3) % len(perms)], n + i, 0.)
            check(va, fa, w, g, TOLS[i % 3], set(gs) == me, 'faces {} and {}'.format(fs, gs))
    # another number of vertices
    for u in ([1, 2, 3], v[0]):
        w, g = renumbered(v + [u], fs, list(range(m + 1)), 0, 0.)
        check(va, fa, w, g, 0.125, False, 'another number of vertices')
    rec.outcome((m, len(fs)))


def big_cases(tier):
    return [[i, s] for i in range(4) for s in range(4 if tier == 'quick' else 60)]


def run_big(case, rec):
    """Larger surfaces: renumbered, with one face replaced, with one vertex moved."""
    i, s = case
    if i == 0:
        v, f = icosahedron()
    elif i == 1:
        v, f = sphere_tri(1)
    elif i == 2:
        v, f = sphere_tri(2)
    else:
        v, f = shrink_face_tri(np.array(POS['generic'], dtype=float), np.array([[0, 1, 2], [0, 2, 3], [1, 2, 4]]), 20.)
        flat = [len(set(map(tuple, np.round(v[t], 9).tolist()))) < 3 for t in f]
        expect(not any(flat), 'bad case')
    n = len(v)
    perm = [(j * p + s) % n for p in [next(q for q in range(5 + s, 200) if np.gcd(q, n) == 1)] for j in range(n)]
    w = np.empty_like(v)
    w[perm] = v
    g = np.array(orient([[perm[x] for x in t] for t in f.tolist()], s))
    g = g[np.argsort([(j * 7 + s) % len(g) for j in range(len(g))], kind='stable')]
    tol = 1e-10
    unique = len(set(map(tuple, np.round(v * 1e6).astype(int).tolist()))) == n
    if unique:
        check(v, f, w, g, tol, True, 'renumbered surface')
        b = w.copy()
        b[s % n] += 1e-3
        check(v, f, b, g, tol, False, 'surface with a moved vertex')
        have = {tuple(sorted(t)) for t in g.tolist()}
        for c in range(len(g)):
            h = g.copy()
            h[c, s % 3] = (h[c, s % 3] + 1 + s) % n
            new = {tuple(sorted(t)) for t in h.tolist()}
            if len(set(h[c].tolist())) == 3 and len(new) == len(h) and c % max(5, len(g) // 8) == s % 5:
                check(v, f, w, h, tol, new == have, 'surface with a replaced face')
    rec.outcome((i, unique))


CHECK = Check('C28', 'exploration',
              'lookup: all families of up to 4 (thorough 5) triangles on 5 vertices x all ordered triples of 6 vertices x types of numbers; comparison: all families of up to 3 triangles on '
              '4 and 5 vertices in several positions x renumberings x reorderings x perturbations on both sides of the tolerance, and all pairs of families; non-trivial: at least 2 faces',
              generic('C28') +
              [Stage('lookup', face_cases, run_face, nontrivial=lambda c: len(c[0]) > 1, setup=reset),
               Stage('foreign vertices', foreign_cases, run_foreign, setup=reset),
               Stage('renumberings', ren_cases, run_ren, nontrivial=lambda c: len(c[1]) > 1, setup=reset),
               Stage('pairs', pair_cases, run_pair, nontrivial=lambda c: len(c[0]) > 1, setup=reset),
               Stage('larger surfaces', big_cases, run_big, setup=reset)])
