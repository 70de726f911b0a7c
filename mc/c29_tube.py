"""C29: triangulations of tubes."""
from collections import Counter

import numpy as np

from core import Check, Stage
from variants import stages as generic
from lib import expect, reset
from ellipy.gras.geom.tri.tri import ell_tube_2_tri, ell_tube_discr_tri


def size_cases(tier):
    m = 14 if tier == 'quick' else 40
    for n in range(3, m):
        for k in range(2, m):
            yield [n, k]
    # numbers of vertices and faces around the ranges of short integers
    for n, k in ((64, 2), (3, 43), (16, 16), (129, 2), (17, 16), (3, 100), (100, 3), (3, 10923), (11000, 3), (128, 257), (181, 183), (300, 220)):
        yield [n, k]


def run_size(case, rec):
    n, k = case
    for a, b in ((n, k), (np.int64(n), np.int32(k))):
        r = ell_tube_2_tri(a, b)
        what = 'tube of {} points x {} sections'.format(n, k)
        f = np.asarray(r)
        expect(f.ndim == 2 and f.shape == (2 * n * (k - 1), 3) and np.all(f == np.round(f)), '{}: faces of shape {}', what, f.shape)
        f = [[int(x) for x in t] for t in f.tolist()]
        expect({x for t in f for x in t} == set(range(n * k)), '{}: vertices that are used', what)
        fs = {tuple(sorted(t)) for t in f}
        expect(len(fs) == len(f) and all(len(set(t)) == 3 for t in f), '{}: repeated or degenerate triangles', what)
        cnt = Counter(tuple(sorted((t[i], t[i - 1]))) for t in f for i in range(3))
        rim = {tuple(sorted((s * n + i, s * n + (i + 1) % n))) for s in (0, k - 1) for i in range(n)}
        for e, c in cnt.items():
            expect(c == (1 if e in rim else 2), '{}: edge {} belongs to {} triangles', what, e, c)
        expect(rim <= set(cnt), '{}: the rim is not covered', what)
        # two triangles per quadrilateral between neighbouring points and sections
        quads = Counter()
        for t in fs:
            s = min(x // n for x in t)
            ps = {x % n for x in t}
            expect({x // n for x in t} == {s, s + 1} and len(ps) == 2, '{}: triangle {} is not between neighbouring points and sections', what, t)
            p = min(ps) if max(ps) - min(ps) == 1 else max(ps)
            expect(ps == {p, (p + 1) % n}, '{}: triangle {} joins points that are no neighbours', what, t)
            quads[(s, p)] += 1
        expect(len(quads) == n * (k - 1) and set(quads.values()) == {2}, '{}: quadrilaterals {}', what, quads)
        # on a surface the two triangles of a quadrilateral overlap if they do not share a diagonal
        diag = Counter()
        for t in fs:
            for i in range(3):
                e = tuple(sorted((t[i], t[i - 1])))
                if e[0] // n != e[1] // n and e[0] % n != e[1] % n:
                    diag[e] += 1
        expect(len(diag) == n * (k - 1) and set(diag.values()) == {2}, '{}: diagonals {}', what, diag)
        # all triangles of a tube look at the same side
        de = Counter((t[i], t[(i + 1) % 3]) for t in f for i in range(3))
        expect(max(de.values()) == 1, '{}: orientation of triangles is not consistent', what)
    rec.outcome((n == 3, k == 2))


def discr_cases(tier):
    m = 14 if tier == 'quick' else 40
    for n in range(1, m):
        for k in range(1, m):
            yield [n, k]
    for n, k in ((1, 40000), (40000, 1), (40000, 2), (200, 200), (17, 16), (128, 257), (300, 220)):
        yield [n, k]


def run_discr(case, rec):
    n, k = case
    for a, b in ((n, k), (np.int64(n), np.int32(k))):
        r = np.asarray(ell_tube_discr_tri(a, b))
        want = [[s * n + i for i in range(n)] + [s * n] for s in range(k)]
        expect(r.shape == (k, n + 1) and r.tolist() == want, 'discrete tube of {} points x {} sections: {}', n, k, r.tolist())
    rec.outcome((n == 1, k == 1))


CHECK = Check('C29', 'exploration',
              'all sizes 3..13 points x 2..13 sections (thorough 3..39 x 2..39), discrete tubes from 1 x 1; each surface edge by edge and quadrilateral by quadrilateral; non-trivial: at least 3 sections',
              generic('C29') +
              [Stage('tube', size_cases, run_size, nontrivial=lambda c: c[1] > 2, setup=reset),
               Stage('discrete tube', discr_cases, run_discr, nontrivial=lambda c: c[1] > 1, setup=reset)])
