"""Reference linear algebra, written without numpy: exact (Fraction) and plain-float versions.

Nothing here calls the code under test.  Matrices are lists of rows."""
import math
from fractions import Fraction as Fr
from itertools import product


def fr(x):
    """Exact rational copy of a number / nested list."""
    if isinstance(x, (list, tuple)):
        return [fr(i) for i in x]
    return Fr(x)


def shape(m):
    return len(m), (len(m[0]) if m else 0)


def T(m):
    return [list(r) for r in zip(*m)]


def mm(a, b):
    bt = list(zip(*b))
    return [[sum(x * y for x, y in zip(r, c)) for c in bt] for r in a]


def mv(a, v):
    return [sum(x * y for x, y in zip(r, v)) for r in a]


def dot(u, v):
    return sum(x * y for x, y in zip(u, v))


def add(u, v):
    return [x + y for x, y in zip(u, v)]


def sub(u, v):
    return [x - y for x, y in zip(u, v)]


def scal(k, v):
    return [k * x for x in v]


def madd(a, b):
    return [add(r, s) for r, s in zip(a, b)]


def msub(a, b):
    return [sub(r, s) for r, s in zip(a, b)]


def mscal(k, a):
    return [[k * x for x in r] for r in a]


def outer(u, v):
    return [[x * y for y in v] for x in u]


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def diag(v):
    return [[v[i] if i == j else 0 for j in range(len(v))] for i in range(len(v))]


def quad(q, v):
    return dot(v, mv(q, v))


def norm(v):
    return math.sqrt(float(sum(x * x for x in v)))


def det(m):
    """Exact for Fractions."""
    m = [list(map(Fr, r)) for r in m]
    n = len(m)
    d = Fr(1)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            return Fr(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            if f:
                m[r] = [x - f * y for x, y in zip(m[r], m[i])]
    return d


def rank(m):
    m = [list(map(Fr, r)) for r in m]
    if not m:
        return 0
    rows, cols = shape(m)
    rk = 0
    for c in range(cols):
        p = next((r for r in range(rk, rows) if m[r][c] != 0), None)
        if p is None:
            continue
        m[rk], m[p] = m[p], m[rk]
        for r in range(rows):
            if r != rk and m[r][c] != 0:
                f = m[r][c] / m[rk][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[rk])]
        rk += 1
        if rk == rows:
            break
    return rk


def solve(a, b):
    """Exact solution of a x = b for a square regular a; b is a vector."""
    n = len(a)
    m = [list(map(Fr, a[i])) + [Fr(b[i])] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c] != 0), None)
        if p is None:
            raise ZeroDivisionError('singular')
        m[c], m[p] = m[p], m[c]
        f = m[c][c]
        m[c] = [x / f for x in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return [m[i][n] for i in range(n)]


def inv(a):
    n = len(a)
    return T([solve(a, [1 if i == j else 0 for i in range(n)]) for j in range(n)])


def is_psd(m):
    """Exact positive semidefiniteness of a symmetric rational matrix (symmetric elimination)."""
    m = [list(map(Fr, r)) for r in m]
    n = len(m)
    for i in range(n):
        if m[i][i] < 0:
            return False
        if m[i][i] == 0:
            if any(m[i][j] != 0 for j in range(i + 1, n)):
                return False
            continue
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            if f:
                m[r] = [x - f * y for x, y in zip(m[r], m[i])]
    return True


def is_pd(m):
    return is_psd(m) and det(m) > 0


def jacobi(m):
    """Eigenvalues (ascending) and matrix of eigenvectors (columns) of a symmetric float matrix."""
    n = len(m)
    a = [[float(x) for x in r] for r in m]
    v = [[float(x) for x in r] for r in eye(n)]
    for _ in range(60):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        tot = sum(a[i][i] ** 2 for i in range(n)) + off
        if off <= 1e-30 * tot or off == 0.:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if a[p][q] == 0.:
                    continue
                th = (a[q][q] - a[p][p]) / (2. * a[p][q])
                t = (1. if th >= 0 else -1.) / (abs(th) + math.sqrt(th * th + 1.))
                c = 1. / math.sqrt(t * t + 1.)
                s = t * c
                for k in range(n):
                    akp, akq = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * akp - s * akq, s * akp + c * akq
                for k in range(n):
                    apk, aqk = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * apk - s * aqk, s * apk + c * aqk
                for k in range(n):
                    vkp, vkq = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * vkp - s * vkq, s * vkp + c * vkq
    order = sorted(range(n), key=lambda i: a[i][i])
    return [a[i][i] for i in order], [[v[r][i] for i in order] for r in range(n)]


def sqrtm(m):
    w, v = jacobi(m)
    s = [math.sqrt(max(x, 0.)) for x in w]
    n = len(m)
    return [[sum(v[i][k] * s[k] * v[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


def fl(m):
    if isinstance(m, (list, tuple)):
        return [fl(i) for i in m]
    return float(m)


# ---------------------------------------------------------------------------------------------
# menus


def sym(n, diag_vals, off_vals):
    """All symmetric n x n matrices with the given diagonal / off-diagonal alphabets."""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for d in product(diag_vals, repeat=n):
        for o in product(off_vals, repeat=len(pairs)):
            m = diag(list(d))
            for (i, j), x in zip(pairs, o):
                m[i][j] = m[j][i] = x
            yield m


def psd(n, diag_vals, off_vals):
    return [m for m in sym(n, diag_vals, off_vals) if is_psd(m)]


def pd(n, diag_vals, off_vals):
    return [m for m in sym(n, diag_vals, off_vals) if is_pd(m)]


def vecs(n, vals):
    return [list(v) for v in product(vals, repeat=n)]


def dirs(n, vals=(0, 1, -1)):
    """Non-zero vectors over the alphabet."""
    return [v for v in vecs(n, vals) if any(v)]


def rot(n, i, j, c, s):
    """Rational Givens rotation, c*c + s*s == 1."""
    m = [[Fr(x) for x in r] for r in eye(n)]
    m[i][i] = m[j][j] = Fr(c)
    m[i][j] = -Fr(s)
    m[j][i] = Fr(s)
    return m


def spread(n, eigs, k=0):
    """A symmetric matrix with exactly the given eigenvalues and rational, non-axis eigenvectors (k selects
    the orthogonal matrix; k = 0 is diagonal)."""
    q = [[Fr(x) for x in r] for r in eye(n)]
    if k:
        trip = [(Fr(3, 5), Fr(4, 5)), (Fr(5, 13), Fr(12, 13)), (Fr(-4, 5), Fr(3, 5)), (Fr(8, 17), Fr(-15, 17))]
        t = 0
        for i in range(n - 1):
            c, s = trip[(t + k - 1) % len(trip)]
            q = mm(q, rot(n, i, i + 1, c, s))
            t += 1
    d = diag([Fr(e) for e in eigs])
    return mm(mm(q, d), T(q)), q
