"""C27: face-to-edge map and refinement of triangulations."""
import itertools
import math
from collections import Counter, defaultdict

import numpy as np

from core import Check, Stage
from variants import stages as generic
from lib import expect, reset
from ellipy.gras.geom.tri.tri import icosahedron, map_face_2_edge, shrink_face_tri

ORD = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)]
COLS = [(0, 1), (1, 2), (0, 2)]


def oriented(faces, ks):
    return [[t[i] for i in ORD[k]] for t, k in zip(faces, ks)]


# -- face-to-edge map -------------------------------------------------------------------------
def check_map(f, e, f2e, d, what, exact):
    """exact: the edges are sorted; otherwise only the incidence is checked."""
    e = [tuple(int(x) for x in r) for r in np.asarray(e).tolist()]
    f2e, d = np.reshape(np.asarray(f2e), (-1, 3)), np.reshape(np.asarray(d), (-1, 3))
    want = {tuple(sorted((t[i], t[j]))) for t in f for i, j in COLS}
    if exact:
        expect(e == sorted(want), '{}: edges {} instead of {}', what, e, sorted(want))
    else:
        expect(len(e) == len(want) and {tuple(sorted(x)) for x in e} == want, '{}: edges {} instead of {}', what, e, sorted(want))
    expect(f2e.shape == (len(f), 3) and d.shape == (len(f), 3), '{}: shapes of maps {} {}', what, f2e.shape, d.shape)
    for i, t in enumerate(f):
        for c, (a, b) in enumerate(COLS):
            k = int(f2e[i, c])
            expect(0 <= k < len(e) and k == f2e[i, c], '{}: edge number {}', what, f2e[i, c])
            r = e[k] if d[i, c] else e[k][::-1]
            expect(r == (t[a], t[b]), '{}: edge {} of face {} {} is given as {} in direction {}', what, c, i, t, e[k], bool(d[i, c]))


def map_cases(tier):
    t4 = list(itertools.combinations(range(4), 3))
    for k in (1, 2, 3, 4):
        for fs in itertools.combinations_with_replacement(t4, k):
            yield [list(map(list, fs)), 4]
    t5 = list(itertools.combinations(range(5), 3))
    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
        for fs in itertools.combinations(t5, k):
            yield [list(map(list, fs)), 5]


def run_map(case, rec):
    fs, n = case
    ks = itertools.product(range(6), repeat=len(fs)) if len(fs) < 4 else itertools.product((0, 2, 4), repeat=4)
    for i, k in enumerate(ks):
        f = oriented(fs, k)
        for g in (f, f[::-1]):
            for lab in (None, [7, 0, 3, 12, 5][:n]) if i % 3 == 0 else (None,):
                h = g if lab is None else [[lab[x] for x in t] for t in g]
                a = np.array(h)
                args = [a] if len(h) > 1 else [a, a[0]]
                if i % 5 == 0:
                    args += [np.asfortranarray(a), a.astype(np.int32), a.astype(np.uint8)]
                for m in args:
                    c = m.copy()
                    e, f2e, d = map_face_2_edge(m)
                    expect(np.array_equal(m, c), 'map_face_2_edge({}): argument changed', h)
                    check_map(h, e, f2e, d, 'map_face_2_edge({})'.format(h), True)
    rec.outcome((len(fs), n))


# -- refinement -------------------------------------------------------------------------------
POS = {
    'tetra': [[0, 0, 0], [3, 0, 0], [0, 4, 0], [0, 0, 12]],
    'generic': [[0, 0, 0], [5, 1, 0], [1, 6, 2], [-2, 1, 4], [2, -3, 7]],
    'plane': [[0, 0], [4, 0], [0, 3], [-5, 1], [2, -6]],
    'needle': [[0, 0, 0], [16, 0, 0], [0, 1, 0], [15, 1, 1], [-8, 0, 1]],
    'equal': [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [-1, -1, -1]],
}


def edges(f):
    return {tuple(sorted((t[i], t[j]))) for t in f for i, j in COLS}


def cyc(t):
    i = t.index(min(t))
    return tuple(t[i:] + t[:i])


def area(v, f):
    s = 0.
    for a, b, c in f:
        p = [x - y for x, y in zip(v[b], v[a])]
        q = [x - y for x, y in zip(v[c], v[a])]
        pp, qq, pq = sum(x * x for x in p), sum(x * x for x in q), sum(x * y for x, y in zip(p, q))
        s += math.sqrt(max(0., pp * qq - pq * pq)) / 2
    return s


def length(v, e):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(v[e[0]], v[e[1]])))


def expected(f, broken, split, mid):
    """Multisets of the faces after a step: oriented ones and the flat ones."""
    c = Counter(cyc(t) for t, s in zip(f, split) if not s)
    for t, s in zip(f, split):
        if s:
            x, y, z = (mid[tuple(sorted((t[i], t[j])))] for i, j in COLS)
            for u in ((t[0], x, z), (t[1], y, x), (t[2], z, y), (x, y, z)):
                c[cyc(list(u))] += 1
    kept = edges([t for t, s in zip(f, split) if not s])
    flat = Counter(tuple(sorted((mid[e],) + e)) for e in broken if e in kept)
    return c, flat


def flats_of(v, f, n0, flat):
    """Faces of the result divided into flat ones (by their vertices) and others."""
    rest, left = Counter(), Counter(flat)
    for t in f:
        k = tuple(sorted(t))
        if left[k] > 0:
            left[k] -= 1
        else:
            rest[cyc(t)] += 1
    return rest, left


def check_step(v0, f0, v1, f1, bound, adjust, order, what):
    """One step of refinement; order: the edges before the step as the code lists them (only to resolve coinciding midpoints)."""
    n = len(v0)
    es = [tuple(sorted(e)) for e in order]
    long = {e for e in es if length(v0, e) > bound}
    expect(long, '{}: a step is made although no edge is longer than the bound', what)
    split = [any(tuple(sorted((t[i], t[j]))) in long for i, j in COLS) for t in f0]
    broken = [e for e in es if e in edges([t for t, s in zip(f0, split) if s])]
    expect(len(v1) == n + len(broken), '{}: {} new vertices instead of {}', what, len(v1) - n, len(broken))
    expect(v1[:n] == v0, '{}: old vertices are changed', what)
    pos = [tuple((a + b) * 0.5 for a, b in zip(v0[e[0]], v0[e[1]])) for e in broken]
    if adjust is not None:
        pos = [tuple(r) for r in adjust(np.array(pos)).tolist()]
    new = defaultdict(list)
    for i, r in enumerate(v1[n:]):
        new[tuple(round(x, 9) for x in r)].append(n + i)
    old = defaultdict(list)
    for e, p in zip(broken, pos):
        old[tuple(round(x, 9) for x in p)].append(e)
    expect({k: len(x) for k, x in new.items()} == {k: len(x) for k, x in old.items()}, '{}: new vertices {} instead of {}', what, v1[n:], pos)
    for e, p in zip(broken, pos):
        for i in new[tuple(round(x, 9) for x in p)]:
            expect(max(abs(a - b) for a, b in zip(v1[i], p)) <= 1e-12 * (1 + max(map(abs, p))), '{}: new vertex {} instead of {}', what, v1[i], p)
    groups = [(old[k], new[k]) for k in old]
    tried = 0
    for perm in itertools.product(*(itertools.permutations(b) for a, b in groups)):
        mid = {e: i for (a, b), p in zip(groups, perm) for e, i in zip(a, p)}
        c, flat = expected(f0, broken, split, mid)
        rest, left = flats_of(v1, f1, n, flat)
        if rest == c and not +left:
            return len(broken), max(length(v0, e) for e in es)
        tried += 1
        if tried > 3000:
            break
    expect(False, '{}: faces {} with flat ones lost {} instead of {} and flat {}', what, sorted(rest), dict(+left), sorted(c), dict(flat))


def as_lists(v):
    return [[float(x) for x in r] for r in np.asarray(v).tolist()]


def as_faces(f):
    return [[int(x) for x in t] for t in np.reshape(np.asarray(f), (-1, 3)).tolist()]


def shift(x):
    return x + np.array([0.25] * (x.shape[1] - 1) + [0.5])


def lift(x):
    return x + np.array([0.] * (x.shape[1] - 1) + [20.])


def push(x):
    return x * (1 + 0.125 * np.sum(x * x, 1, keepdims=True) / 64)


ADJ = {'none': None, 'shift': shift, 'push': push, 'lift': lift, 'same': lambda x: x}


def refine_chain(v, f, bound, n_max, adj, what, rec, limit=None):
    """Runs the refinement for 0, 1, ..., n_max steps, each compared with the step before, then without limit."""
    func = ADJ[adj]
    va, fa = np.array(v, dtype=float), np.array(f)
    prev = None
    hist = []
    for k in range(n_max + 1):
        kv, kf = va.copy(), fa.copy()
        r = shrink_face_tri(va, fa, bound, k, func, True)
        expect(np.array_equal(va, kv) and np.array_equal(fa, kf), '{}: arguments changed', what)
        expect(isinstance(r, tuple) and len(r) == 6, '{}: {!r}', what, r)
        v1, f1, st, e1 = as_lists(r[0]), as_faces(r[1]), r[2], r[3]
        w = '{} after {} steps'.format(what, k)
        check_map(f1, e1, r[4], r[5], w, False)
        s = shrink_face_tri(va, fa, bound, k, func)
        expect(len(s) == 2 and as_lists(s[0]) == v1 and as_faces(s[1]) == f1, '{}: differs without statistics', w)
        if prev is None:
            expect(v1 == as_lists(va) and f1 == as_faces(fa), '{}: changed without steps', w)
            hist = [(len(v1), len(f1), len(e1), None, None)]
            steps = 0
        elif all(length(prev[0], e) <= bound for e in prev[2]):
            expect((v1, f1) == prev[:2], '{}: a step is made although all edges are short', w)
        else:
            b, m = check_step(prev[0], prev[1], v1, f1, bound, func, prev[2], w)
            hist.append((len(v1), len(f1), len(e1), b, m))
            steps += 1
            if func is None:
                a0, a1 = area(v, as_faces(fa)), area(v1, f1)
                expect(abs(a0 - a1) <= 1e-9 * (1 + a0), '{}: area {} instead of {}', w, a1, a0)
        expect(st['n_steps'] == steps, '{}: number of steps {} instead of {}', w, st['n_steps'], steps)
        for key, j in (('n_vert_vec', 0), ('n_face_vec', 1), ('n_edge_vec', 2)):
            got = np.ravel(st[key]).tolist()
            expect(got == [h[j] for h in hist], '{}: statistics {} {} instead of {}', w, key, got, [h[j] for h in hist])
        got = np.ravel(st['n_edges_to_shrink_vec']).tolist()
        expect(got == [h[3] for h in hist[1:]], '{}: numbers of edges to shrink {} instead of {}', w, got, [h[3] for h in hist[1:]])
        got = np.ravel(st['max_edge_length_vec']).tolist()
        expect(len(got) == len(hist) - 1 and all(abs(a - h[4]) <= 1e-12 * (1 + a) for a, h in zip(got, hist[1:])), '{}: largest lengths {} instead of {}', w, got, [h[4] for h in hist[1:]])
        prev = (v1, f1, [tuple(int(x) for x in e) for e in np.asarray(e1).tolist()])
    done = all(length(prev[0], e) <= bound for e in prev[2])
    if limit and func is None and bound > 0:
        r = shrink_face_tri(va, fa, bound)
        v1, f1 = as_lists(r[0]), as_faces(r[1])
        expect(all(length(v1, e) <= bound for e in edges(f1)), '{}: edges longer than the bound are left', what)
        expect(v1[:len(prev[0])] == prev[0] or done, '{}: vertices of the first steps are changed', what)
        if done:
            expect((v1, f1) == prev[:2], '{}: more steps than necessary', what)
        a0, a1 = area(v, as_faces(fa)), area(v1, f1)
        expect(abs(a0 - a1) <= 1e-9 * (1 + a0), '{}: area {} instead of {}', what, a1, a0)
    rec.outcome((steps, done))


def bounds(v, f):
    ls = sorted({length(v, e) for e in edges(f)})
    out = {0., ls[-1] * 1.01, ls[-1]}
    for a, b in zip(ls, ls[1:]):
        out.add((a + b) / 2)
        out.add(a)
    out.add(ls[0] * 0.6)
    return sorted(out)


def refine_cases(tier):
    t4 = list(itertools.combinations(range(4), 3))
    q = tier == 'quick'
    for pos in ('tetra', 'generic', 'plane', 'needle'):
        for k in (1, 2, 3, 4):
            for fs in itertools.combinations(t4, k):
                m = {1: ORD, 2: ORD, 3: ORD[::2] if q else ORD, 4: ORD[::3] if q else ORD[::2]}[k]
                for i, ks in enumerate(itertools.product([ORD.index(x) for x in m], repeat=k)):
                    if q and k > 1 and (i + len(pos)) % 5:
                        continue
                    yield [pos, oriented(fs, ks)]
    t5 = list(itertools.combinations(range(5), 3))
    n = 0
    for pos in ('generic', 'needle', 'plane'):
        for k in (2, 3) if q else (2, 3, 4):
            for fs in itertools.combinations(t5, k):
                n += 1
                if len(set(sum(fs, ()))) < 5 or (q and k == 3 and n % 3):
                    continue
                yield [pos, oriented(fs, [(n * 5 + j * j + j) % 6 for j in range(k)])]


def run_refine(case, rec):
    pos, f = case
    used = sorted(set(sum(f, [])))
    v = POS[pos][:max(used) + 1]
    bs = bounds(v, f)
    for i, b in enumerate(bs):
        n_max = 2 if b < bs[-1] / 3 or len(f) > 3 else 3
        refine_chain(v, f, b, n_max, 'none', 'refinement of {} {} to {:.4g}'.format(pos, f, b), rec, limit=b > bs[-1] / 8)


def adj_cases(tier):
    t4 = list(itertools.combinations(range(4), 3))
    n = 0
    for pos in ('tetra', 'plane', 'equal'):
        for adj in ('shift', 'lift', 'push', 'same'):
            for k in (1, 2, 3, 4):
                for fs in itertools.combinations(t4, k):
                    for r in range(2 if tier == 'quick' else 6):
                        n += 1
                        yield [pos, oriented(fs, [(n + j * j) % 6 for j in range(k)]), adj]


def run_adj(case, rec):
    pos, f, adj = case
    v = POS[pos][:4]
    for b in bounds(v, f):
        refine_chain(v, f, b, 2, adj, 'refinement of {} {} to {:.4g} adjusted by {}'.format(pos, f, b, adj), rec)


def dup_cases(tier):
    """Unusual triangulations: common edges, unused vertices, faces given as a vector, closed surfaces, integer positions."""
    for i in range(8):
        yield [i]


def run_dup(case, rec):
    i = case[0]
    g = POS['generic']
    if i == 0:
        for b in (0., 5., 7.):
            refine_chain(g, [[0, 1, 2], [0, 1, 3], [1, 0, 4]], b, 2, 'none', 'three faces with a common edge', rec)
            refine_chain(g, [[0, 1, 2], [3, 4, 2]], b, 2, 'none', 'a common vertex', rec)
    elif i == 1:
        for k in ORD:
            for fs in ([0, 1, 2], [1, 3, 4]):
                for b in (0., 4., 6.5, 100.):
                    f = [fs[j] for j in k]
                    refine_chain(g, f, b, 3, 'none', 'one face {} given as a vector'.format(f), rec)
    elif i == 2:
        v, f = icosahedron()
        for b in (0., 0.6, 1.0514, 1.06):
            refine_chain(v.tolist(), f.tolist(), b, 2, 'none', 'icosahedron to {}'.format(b), rec, limit=b > 0)
    elif i == 3:
        v, f = icosahedron()
        v = v * np.array([1., 2., 5.])
        for b in (2., 3., 4., 5.):
            refine_chain(v.tolist(), f.tolist(), b, 2, 'none', 'stretched icosahedron to {}'.format(b), rec, limit=True)
    elif i == 4:
        # a fan and a strip
        fan = [[0, j, j + 1] for j in range(1, 6)]
        pv = [[0, 0, 0]] + [[round(4 * math.cos(j)), round(9 * math.sin(j)), j] for j in range(6)]
        for b in (2., 4., 6., 8.):
            refine_chain(pv, fan, b, 3, 'none', 'fan to {}'.format(b), rec, limit=True)
    elif i == 5:
        pv = [[j * 2 if j % 2 else j * 3, j % 2 * 4, j] for j in range(8)]
        strip = [[j, j + 1, j + 2] if j % 2 else [j + 1, j, j + 2] for j in range(6)]
        for b in (2., 4., 6., 8.):
            refine_chain(pv, strip, b, 3, 'none', 'strip to {}'.format(b), rec, limit=True)
    elif i == 6:
        for perm in itertools.permutations(range(4)):
            f = [[perm[0], perm[1], perm[2]], [perm[0], perm[2], perm[3]]]
            refine_chain(POS['tetra'], f, 6., 3, 'none', 'two faces {}'.format(f), rec, limit=True)
    else:
        for n_max in (np.inf, 1.0, np.int32(2), np.float64(2.)):
            r = shrink_face_tri(np.array(g), np.array([[0, 1, 2], [1, 2, 3]]), 2., n_max)
            s = shrink_face_tri(np.array(g, dtype=float), np.array([[0, 1, 2], [1, 2, 3]]), 2., 1000 if n_max == np.inf else int(n_max))
            expect(np.array_equal(r[0], s[0]) and np.array_equal(r[1], s[1]), 'number of steps {!r}', n_max)
    rec.outcome(i)


CHECK = Check('C27', 'exploration',
              'face-to-edge map: all families of up to 4 triangles on 4 vertices (with repetitions) and up to 2 (thorough 3) on 5 x all orders of vertices in faces; refinement: all families '
              'of up to 4 triangles on 4 vertices and up to 3 (thorough 4) on 5 in several positions x all essentially different bounds x 0..3 steps, every step against its definition; '
              'non-trivial: at least 2 faces',
              generic('C27') +
              [Stage('face-to-edge map', map_cases, run_map, nontrivial=lambda c: len(c[0]) > 1, setup=reset),
               Stage('refinement', refine_cases, run_refine, nontrivial=lambda c: len(c[1]) > 1, setup=reset),
               Stage('adjusted vertices', adj_cases, run_adj, nontrivial=lambda c: len(c[1]) > 1, setup=reset),
               Stage('special triangulations', dup_cases, run_dup, setup=reset)])
