"""Linear arithmetic on path conditions: the polyhedral abstraction of a path.

A path is a conjunction of thresholds on polynomials.  Each monomial becomes a
variable with the interval of its atoms; the path is certainly empty if the
polyhedron is.  Exact rational simplex.
"""

from fractions import Fraction

INF = float('inf')


class GiveUp(Exception):
    pass


def _pivot(T, basis, r, c):
    p = T[r][c]
    T[r] = [v / p for v in T[r]]
    R = T[r]
    for i, row in enumerate(T):
        if i != r and row[c]:
            f = row[c]
            T[i] = [a - f * b if b else a for a, b in zip(row, R)]
    basis[r] = c


def _simplex(T, basis, ncols, limit=400):
    """maximise the last row (stored as reduced costs) by Bland's rule"""
    m = len(T) - 1
    for _ in range(limit):
        obj = T[-1]
        c = next((j for j in range(ncols) if obj[j] > 0), None)
        if c is None:
            return True
        best = None
        for i in range(m):
            if T[i][c] > 0:
                q = T[i][-1] / T[i][c]
                if best is None or q < best[0] or (q == best[0] and basis[i] < basis[best[1]]):
                    best = (q, i)
        if best is None:
            return False        # unbounded
        _pivot(T, basis, best[1], c)
    raise GiveUp


def maximise(A, b, c):
    """max c.x subject to A x <= b, x >= 0: the value, None if empty, INF"""
    m, n = len(A), len(c)
    F0, F1 = Fraction(0), Fraction(1)
    # columns: x, slacks, auxiliary, right hand side
    T = []
    for i in range(m):
        row = [Fraction(v) for v in A[i]] + [F0] * (m + 1) + [Fraction(b[i])]
        row[n + i] = F1
        row[n + m] = -F1
        T.append(row)
    basis = [n + i for i in range(m)]
    if m and min(r[-1] for r in T) < 0:
        T.append([F0] * (n + m) + [-F1, F0])
        r = min(range(m), key=lambda i: T[i][-1])
        _pivot(T, basis, r, n + m)
        _simplex(T, basis, n + m + 1)
        if T[-1][-1] != 0:
            return None
        if n + m in basis:
            r = basis.index(n + m)
            c1 = next((j for j in range(n + m) if T[r][j]), None)
            if c1 is not None:
                _pivot(T, basis, r, c1)
        T.pop()
    for row in T:
        row[n + m] = F0
    obj = [Fraction(v) for v in c] + [F0] * (m + 2)
    T.append(obj)
    for i, j in enumerate(basis):
        if T[-1][j]:
            f = T[-1][j]
            T[-1] = [a - f * v for a, v in zip(T[-1], T[i])]
    if not _simplex(T, basis, n + m):
        return INF
    return -T[-1][-1]


def empty(constraints, bounds):
    """True if no point satisfies all the constraints ({var: coef}, const, strict):
    sum coef*var + const >= 0 (> 0 if strict), var within bounds[var]."""
    names = sorted({v for q, _, _ in constraints for v in q})
    cols, n = {}, 0
    rows = []
    for v in names:
        lo, hi = bounds(v)
        if lo != -INF:
            cols[v] = [(n, 1, Fraction(lo))]
            n += 1
        elif hi != INF:
            cols[v] = [(n, -1, Fraction(hi))]
            n += 1
        else:
            cols[v] = [(n, 1, Fraction(0)), (n + 1, -1, Fraction(0))]
            n += 2
        if lo != -INF and hi != INF:
            rows.append(({v: Fraction(-1)}, Fraction(hi), False))
    if n > 60 or len(rows) + len(constraints) > 80:
        return False
    A, b = [], []
    anystrict = any(s for _, _, s in constraints)
    for q, k, strict in list(constraints) + rows:
        # q.x + k - [strict] eps >= 0   ->   -q.x + [strict] eps <= k
        row = [Fraction(0)] * (n + 1)
        rhs = Fraction(k)
        for v, c in q.items():
            for i, (j, s, off) in enumerate(cols[v]):
                row[j] -= c * s
                if i == 0:
                    rhs += c * off
        if strict:
            row[n] = Fraction(1)
        A.append(row)
        b.append(rhs)
    A.append([Fraction(0)] * n + [Fraction(1)])
    b.append(Fraction(1))
    try:
        best = maximise(A, b, [0] * n + [1])
    except GiveUp:
        return False
    return best is None or (anystrict and best <= 0)
