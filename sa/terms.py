"""Canonical value numbers for scalar IR values.

A value number is a multi-terminal decision diagram (`Node`): internal nodes
test a condition ``base >= tau`` and leaves are rational functions (`RF`) over
hash-consed atoms.  Two IR values that denote the same real-number function of
their inputs receive, as far as the normal forms below reach, the same number.
Booleans are the integers 0/1.  No concrete value is ever computed and no
solver is involved: every rewriting is a fixed algebraic normal form.
"""

from fractions import Fraction
import itertools
import math
import random
import sys

sys.setrecursionlimit(200000)

INF = math.inf
_F0, _F1 = Fraction(0), Fraction(1)


class Blowup(Exception):
    """A normal form grew past the budget."""


class Effort(Exception):
    """A refinement took more steps than granted."""


_effort = [INF]


# ---------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'isint', 'pos')

    def __repr__(self):
        return atom_str(self)


ATOMS = []
_atom_tab = {}


def mkatom(kind, args, lo=-INF, hi=INF, isint=False, pos=False):
    # inputs of the same name with other ranges (another configuration) differ
    key = (kind, args, lo, hi, isint, pos) if kind == 'in' else (kind, args)
    a = _atom_tab.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.args, a.lo, a.hi, a.isint = kind, args, lo, hi, isint
    a.pos = pos or lo > 0
    ATOMS.append(a)
    _atom_tab[key] = a
    return a


# ---------------------------------------------------------------- polynomials
# poly: dict {mono: Fraction};  mono: tuple of (atom_id, exp) sorted by atom_id

def _mono_mul(m1, m2):
    """Product of two monomials -> mono, or None if it needs reduction."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    special = False
    for a, e in m2:
        k = ATOMS[a].kind
        if k == 'ind':
            special = True
        d[a] = d.get(a, 0) + e
    if special or any(ATOMS[a].kind == 'ind' for a, _ in m1):
        # ind atoms: idempotent, and chain-ordered on a common base
        best = {}
        for a in list(d):
            at = ATOMS[a]
            if at.kind == 'ind':
                b, tau = at.args
                del d[a]
                if b not in best or best[b][0] < tau:
                    best[b] = (tau, a)
        for tau, a in best.values():
            d[a] = 1
    return tuple(sorted(d.items()))


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


MAXTERMS = 60000


def p_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if c == 1:
                return q
            return {k: v * c for k, v in q.items()}
    if len(p) * len(q) > MAXTERMS * 4:
        raise Blowup('polynomial product')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return _reduce_sqrt(r)


def _reduce_sqrt(p):
    """s**2 -> radicand for square-root atoms."""
    out = None
    for m, c in p.items():
        hit = None
        for a, e in m:
            if e >= 2 and ATOMS[a].kind == 'sqrt':
                hit = (a, e)
                break
        if hit is None:
            continue
        if out is None:
            out = dict(p)
        del out[m]
        a, e = hit
        rest = tuple((x, y) for x, y in m if x != a)
        if e % 2:
            rest = _mono_mul(rest, ((a, 1),))
        t = {rest: c}
        rp = dict(ATOMS[a].args)
        for _ in range(e // 2):
            t = p_mul(t, rp)
        out = p_add(out, t)
    return p if out is None else _reduce_sqrt(out)


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


P0, P1 = {}, {(): _F1}


def p_freeze(p):
    return tuple(sorted(p.items()))


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


# ---------------------------------------------------------------- rational functions

class RF:
    __slots__ = ('num', 'den', 'key', '_hash', '_iv')

    def __init__(self, num, den):
        self.num, self.den = num, den
        self.key = (p_freeze(num), p_freeze(den))
        self._hash = hash(self.key)
        self._iv = None

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self.key == o.key

    def isconst(self):
        return p_isconst(self.num) and p_isconst(self.den)

    def const(self):
        c, d = self.num.get((), _F0), self.den[()]
        return c if d is _F1 or d == 1 else c / d

    def ispoly(self):
        return len(self.den) == 1 and () in self.den

    def __repr__(self):
        return rf_str(self)


def _lead(p):
    return p[max(p)]


def rf_make(num, den):
    if not den:
        # division by a literal zero: keep symbolic
        return rf_atom(mkatom('divzero', p_freeze(num)))
    if not num:
        return RF0
    if p_isconst(den):
        c = den[()]
        if c != 1:
            num = {m: v / c for m, v in num.items()}
        return RF(num, P1)
    num, den = _cancel(num, den)
    c = _lead(den)
    if c != 1:
        num = {m: v / c for m, v in num.items()}
        den = {m: v / c for m, v in den.items()}
    return RF(num, den)


def _common_mono(p):
    it = iter(p)
    first = dict(next(it))
    for m in it:
        if not first:
            break
        d = dict(m)
        first = {a: min(e, d[a]) for a, e in first.items() if a in d}
    return first


def _mono_div(m, g):
    if not g:
        return m
    d = dict(m)
    for a, e in g.items():
        d[a] -= e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


def _cancel(num, den):
    gn, gd = _common_mono(num), _common_mono(den)
    g = {a: min(e, gd[a]) for a, e in gn.items() if a in gd}
    if g:
        num = {_mono_div(m, g): v for m, v in num.items()}
        den = {_mono_div(m, g): v for m, v in den.items()}
    if len(den) == 1 or len(num) == 1:
        return num, den
    if set(num) == set(den):
        it = iter(num)
        m0 = next(it)
        r = num[m0] / den[m0]
        if all(num[m] == r * den[m] for m in num):
            return {(): r}, P1
    an = {a for m in num for a, _ in m}
    ad = {a for m in den for a, _ in m}
    if not (an & ad) or _coprime(num, ad) or _coprime(den, an):
        return num, den
    return _sympy_cancel(num, den)


def _coprime(p, others):
    """Sufficient condition for p to have no common factor, besides monomials,
    with a polynomial in the atoms `others`: seen as a polynomial in the rest
    of its atoms, p has a coefficient which is a single term."""
    groups = {}
    for m in p:
        k = tuple(x for x in m if x[0] not in others)
        groups[k] = groups.get(k, 0) + 1
    return 1 in groups.values()


_cancel_memo = {}


def _sympy():
    try:
        import sympy
    except ImportError:
        import glob
        for d in glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages'):
            if d not in sys.path:
                sys.path.append(d)
        import sympy
    return sympy


def _to_ring(ps):
    sympy = _sympy()
    from sympy.polys.rings import ring
    from sympy import QQ
    atoms = sorted({a for p in ps for m in p for a, _ in m})
    idx = {a: i for i, a in enumerate(atoms)}
    R, *gens = ring([f'a{a}' for a in atoms], QQ)
    out = []
    n = len(atoms)
    for p in ps:
        d = {}
        for m, c in p.items():
            e = [0] * n
            for a, k in m:
                e[idx[a]] = k
            d[tuple(e)] = QQ(c.numerator, c.denominator)
        out.append(R.from_dict(d))
    return R, atoms, out


def _from_ring(atoms, P):
    out = {}
    for e, c in P.terms():
        m = tuple((a, k) for a, k in zip(atoms, e) if k)
        out[m] = Fraction(int(c.numerator), int(c.denominator))
    return out


def _sympy_cancel(num, den):
    key = (p_freeze(num), p_freeze(den))
    r = _cancel_memo.get(key)
    if r is None:
        if len(num) * len(den) > 40000:
            r = (num, den)
        else:
            R, atoms, (n, d) = _to_ring([num, den])
            n, d = n.cancel(d)
            r = (_from_ring(atoms, n), _from_ring(atoms, d))
        _cancel_memo[key] = r
    return r


def rf_const(c):
    return RF(p_const(c), P1)


RF0, RF1 = RF(P0, P1), RF(P1, P1)


def rf_atom(a):
    return RF({((a.id, 1),): _F1}, P1)


def rf_add(a, b, s=1):
    _effort[0] -= 1
    if _effort[0] < 0:
        raise Effort
    if a.den == b.den:
        return rf_make(p_add(a.num, b.num, s), a.den)
    return rf_make(p_add(p_mul(a.num, b.den), p_mul(b.num, a.den), s),
                   p_mul(a.den, b.den))


def rf_mul(a, b):
    if not a.num or not b.num:
        return RF0
    _effort[0] -= 1 + len(a.num) * len(b.num) // 30
    if _effort[0] < 0:
        raise Effort
    if a.ispoly() and b.ispoly():
        return RF(p_mul(a.num, b.num), P1)
    # cross-cancel first
    n1, d2 = (a.num, b.den) if b.ispoly() else _cancel(a.num, b.den)
    n2, d1 = (b.num, a.den) if a.ispoly() else _cancel(b.num, a.den)
    return rf_make(p_mul(n1, n2), p_mul(d1, d2))


def rf_inv(a):
    return rf_make(a.den, a.num)


def rf_div(a, b):
    return rf_mul(a, rf_inv(b))


def rf_neg(a):
    return RF({m: -v for m, v in a.num.items()}, a.den)


def rf_isint(r):
    if not r.ispoly():
        return False
    for m, c in r.num.items():
        if c.denominator != 1:
            return False
        for a, _ in m:
            if not ATOMS[a].isint:
                return False
    return True


def rf_atoms(r):
    return {a for p in (r.num, r.den) for m in p for a, _ in m}


# ---- intervals

def _imul(x, y):
    vals = []
    for a in x:
        for b in y:
            if a == 0 or b == 0:
                vals.append(_F0)
            else:
                vals.append(a * b)
    return min(vals), max(vals)


def p_interval(p):
    lo = hi = _F0
    for m, c in p.items():
        iv = (c, c)
        for a, e in m:
            at = ATOMS[a]
            x = (at.lo, at.hi)
            if e % 2 == 0:
                mx = max(abs(x[0]), abs(x[1]))
                mn = _F0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
                y = (mn ** e if mn != INF else INF, mx ** e if mx != INF else INF)
            else:
                y = x
                for _ in range(e - 1):
                    y = _imul(y, x)
            iv = _imul(iv, y)
        lo = lo + iv[0]
        hi = hi + iv[1]
    return lo, hi


def rf_interval(r):
    if r._iv is None:
        if r.ispoly():
            r._iv = p_interval(r.num)
        else:
            nl, nh = p_interval(r.num)
            ds = p_sign(r.den)
            if ds > 0:
                r._iv = (_F0 if nl >= 0 else -INF, _F0 if nh <= 0 else INF)
            elif ds < 0:
                r._iv = (_F0 if nh <= 0 else -INF, _F0 if nl >= 0 else INF)
            else:
                r._iv = (-INF, INF)
    return r._iv


_tight_memo = {}


def tight_interval(r):
    """Interval after unfolding sum atoms and bounding groups of indicators
    that share a base together."""
    lo, hi = rf_interval(r)
    if not r.ispoly() or len(r.num) < 2:
        return lo, hi
    kinds = {ATOMS[a].kind for m in r.num for a, _ in m}
    if not kinds & {'msum', 'ind'}:
        return lo, hi
    t = _tight_memo.get(r)
    if t is not None:
        return t
    p = {}
    for m, c in r.num.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'msum':
            p = p_add(p, {k: v * c for k, v in ATOMS[m[0][0]].args})
        else:
            p = p_add(p, {m: c})
    group = {}

    def find(x):
        while group.get(x, x) != x:
            x = group[x]
        return x
    tl, th = _F0, _F0
    comp = []
    for m, c in p.items():
        if m and all(ATOMS[a].kind == 'ind' for a, _ in m):
            bs = [ATOMS[a].args[0] for a, _ in m]
            for b in bs[1:]:
                group[find(b)] = find(bs[0])
            comp.append((bs[0], m, c))
        else:
            l, h = p_interval({m: c})
            tl, th = tl + l, th + h
    parts = {}
    for b, m, c in comp:
        parts.setdefault(find(b), {})[m] = c
    for q in parts.values():
        key = p_freeze(q)
        iv = _tight_memo.get(key)
        if iv is None:
            inds = {a for m in q for a, _ in m}
            iv = p_interval(q)
            if len(inds) <= 10:
                n = ZERO
                for m, c in q.items():
                    t = const(c)
                    for a, _ in m:
                        t = ite(mknode(ATOMS[a].args, TRUE, FALSE), t, ZERO)
                    n = add(n, t)
                vals = [x.const() for x in leaf_set(n)]
                iv = (min(vals), max(vals))
            _tight_memo[key] = iv
        tl, th = tl + iv[0], th + iv[1]
    t = _tight_memo[r] = (max(lo, tl), min(hi, th))
    return t


def p_sign(p):
    """+1 / -1 if every monomial is provably of one strict sign, else 0."""
    lo, hi = p_interval(p)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    r = _sign_monomials(p)
    if r or not any(ATOMS[a].kind in ('msum', 'ind') for m in p for a, _ in m):
        return r
    key = ('sign', p_freeze(p))
    r = _tight_memo.get(key)
    if r is None:
        r = 1
        if len(p) > 1500:
            r = 0
        else:
            c, fs = _factor(p, False)
            r = 1 if c > 0 else -1
            for f, k in fs:
                if len(f) == 1:
                    s1 = _sign_monomials(f)
                else:
                    s1 = _sign_grouped(f)
                if k % 2 == 0 and s1:
                    s1 = 1
                r *= s1
                if not r:
                    break
        _tight_memo[key] = r
    return r


def _sign_grouped(p):
    """Strict sign of a polynomial whose sum/indicator part is bounded per
    group of equal remaining factors."""
    groups = {}
    for m, c in p.items():
        f = tuple(x for x in m if ATOMS[x[0]].kind not in ('msum', 'ind'))
        i = tuple(x for x in m if ATOMS[x[0]].kind in ('msum', 'ind'))
        groups.setdefault(f, {})[i] = c
    s, strict = None, False
    for f, g in groups.items():
        lo, hi = tight_interval(RF(g, P1))
        sg = 1 if lo >= 0 else -1 if hi <= 0 else 0
        st = lo > 0 or hi < 0
        if not sg:
            return 0
        for a, e in f:
            at = ATOMS[a]
            if at.pos:
                continue
            if at.lo >= 0 or e % 2 == 0:
                st = False
            elif at.hi <= 0:
                sg *= (-1) ** e
                st = st and at.hi < 0
            else:
                return 0
        if s is None:
            s = sg
        elif s != sg:
            return 0
        strict |= st
    return s if strict else 0


def _sign_monomials(p):
    s = None
    strict = False
    for m, c in p.items():
        sg = 1 if c > 0 else -1
        st = True
        for a, e in m:
            at = ATOMS[a]
            if at.pos:
                continue
            if at.lo >= 0 or e % 2 == 0:
                st = False
                continue
            if at.hi <= 0:
                sg *= (-1) ** e
                st = st and at.hi < 0
                continue
            return 0
        if s is None:
            s = sg
        elif s != sg:
            return 0
        strict |= st
    return s if (s is not None and strict) else 0


# ---------------------------------------------------------------- conditions

class Base:
    __slots__ = ('id', 'rf', 'isint', 'lo', 'hi')


BASES = []
_base_tab = {}


def mkbase(rf):
    b = _base_tab.get(rf)
    if b is None:
        b = Base()
        b.id = len(BASES)
        b.rf = rf
        b.isint = rf_isint(rf)
        b.lo, b.hi = tight_interval(rf) if b.isint else rf_interval(rf)
        BASES.append(b)
        _base_tab[rf] = b
    return b


def _has_inf(rf):
    for a in rf_atoms(rf):
        if ATOMS[a].kind == 'infinity':
            return True
    return False


def _split_base(d):
    """d = s * base + c with base sign/scale-normalised and constant free.

    Returns (base rf, s>0 or <0, c)."""
    if d.ispoly():
        c = d.num.get((), _F0)
        q = {m: v for m, v in d.num.items() if m != ()}
        lead = _lead(q)
        if all(ATOMS[a].isint for m in q for a, _ in m):
            # primitive integer polynomial
            den = math.lcm(*[v.denominator for v in q.values()])
            g = math.gcd(*[int(v * den) for v in q.values()])
            s = Fraction(g, den)
        else:
            s = abs(lead)
        if lead < 0:
            s = -s
        return RF({m: v / s for m, v in q.items()}, P1), s, c
    # multiply through by a denominator of known sign
    sg = p_sign(d.den)
    if sg:
        n = d.num if sg > 0 else {m: -v for m, v in d.num.items()}
        return _split_base(RF(n, P1)) if not p_isconst(n) else (None, None, n.get((), _F0))
    lead = _lead(d.num)
    s = abs(lead) if lead > 0 else -abs(lead)
    return RF({m: v / s for m, v in d.num.items()}, d.den), s, _F0


def cmp_ge(d, strict=False):
    """Node for  d >= 0  (or d > 0 if strict), d an RF."""
    if d.isconst():
        c = d.const()
        return TRUE if (c > 0 or (c == 0 and not strict)) else FALSE
    if _has_inf(d) and d.ispoly():
        s = 0
        for m, c in d.num.items():
            if any(ATOMS[a].kind == 'infinity' for a, _ in m):
                if len(m) == 1:
                    s += c
        if s > 0:
            return TRUE
        if s < 0:
            return FALSE
    elif _has_inf(d):
        sg = p_sign(d.den)
        ss = {p_sign({tuple(x for x in m if ATOMS[x[0]].kind != 'infinity'): c}) for m, c in d.num.items()
              if any(ATOMS[a].kind == 'infinity' for a, _ in m)}
        if sg and len(ss) == 1 and 0 not in ss:
            return TRUE if ss.pop() * sg > 0 else FALSE
    d = _drop_positive_factors(d)
    if d.isconst():
        return cmp_ge(d, strict)
    q, s, c = _split_base(d)
    if q is None:
        return TRUE if (c > 0 or (c == 0 and not strict)) else FALSE
    t = -c / s
    if s > 0:
        return _thr(q, t, strict)
    # s<0:  s*q + c >= 0  <=>  q <= t   <=>  not (q > t)
    return not_(_thr(q, t, not strict))


def _drop_positive_factors(d):
    """Divide a difference by a monomial factor of known positive sign."""
    g = _common_mono(d.num)
    drop = {}
    neg = False
    for a, e in g.items():
        at = ATOMS[a]
        if at.kind == 'ind':
            continue
        if at.pos:
            drop[a] = e
    if drop:
        num = {_mono_div(m, drop): v for m, v in d.num.items()}
        return RF(num, d.den)
    return d


def _thr(q, t, strict):
    b = mkbase(q)
    if b.isint:
        if strict:
            t = Fraction(math.floor(t) + 1)
        else:
            t = Fraction(math.ceil(t))
        tau = (t, 0)
    else:
        tau = (t, 1 if strict else 0)
    if b.lo > t or (b.lo == t and not tau[1]):
        return TRUE
    if b.hi < t or (b.hi == t and tau[1]):
        return FALSE
    if b.lo == 0 and t == 0 and tau[1] and _strictly_pos(q):
        return TRUE
    if t == 1 and b.hi == 1 and _is_unit_uniform(q):
        return FALSE        # uniform draws lie in [0, 1)
    known = _affine_in_uniform(q, t, tau[1]) if not b.isint else None
    if known is not None:
        return known
    # nonnegative integer-valued single atom in {0,1} etc: handled by intervals
    return mknode((b.id, tau), TRUE, FALSE)


_affine_memo = {}


def _affine_in_uniform(q, t, strict):
    """TRUE or FALSE if q >= t (q > t if strict) is decided by the values of
    q at the ends of the range [0, 1) of the uniform draw it is affine in."""
    k = q, t, strict
    if k in _affine_memo:
        return _affine_memo[k]
    r = None
    if q.ispoly() and len(q.num) > 1:
        us = {a for m in q.num for a, _ in m if ATOMS[a].kind == 'draw' and ATOMS[a].args[0] == 'uniform' and ATOMS[a].lo == 0 and ATOMS[a].hi == 1}
        if len(us) == 1:
            u = us.pop()
            at0, at1 = {}, {}
            for m, c in q.num.items():
                e = dict(m).get(u, 0)
                if e > 1:
                    break
                rest = tuple(x for x in m if x[0] != u)
                at1[rest] = at1.get(rest, _F0) + c
                if not e:
                    at0[rest] = c
            else:
                at1 = {m: c for m, c in at1.items() if c}
                if t:
                    at0, at1 = p_add(at0, {(): -t}), p_add(at1, {(): -t})
                l0, h0 = p_interval(at0)
                l1, h1 = p_interval(at1)
                if l0 >= 0 and l1 >= 0 and (not strict or p_sign(at0) > 0):
                    r = TRUE
                elif h0 <= 0 and h1 <= 0 and (strict or p_sign(at0) < 0):
                    r = FALSE
    _affine_memo[k] = r
    return r


def _is_unit_uniform(q):
    if not q.ispoly() or len(q.num) != 1:
        return False
    (m, c), = q.num.items()
    return c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'draw' and ATOMS[m[0][0]].args[0] == 'uniform'


def _strictly_pos(q):
    return q.ispoly() and p_sign(q.num) > 0


def cmp_eq(d):
    """Node for d == 0."""
    if d.isconst():
        return TRUE if d.const() == 0 else FALSE
    a = cmp_ge(d)
    b = cmp_ge(d, strict=True)
    return and_(a, not_(b))


# ---------------------------------------------------------------- decision diagrams

class Node:
    __slots__ = ('id', 'cond', 'hi', 'lo', 'rf', '_conds')

    def __repr__(self):
        return node_str(self)


_leaf_tab = {}
_node_tab = {}
_node_count = itertools.count()
NODE_BUDGET = [3_000_000]


def leaf(rf):
    n = _leaf_tab.get(rf)
    if n is None:
        n = Node()
        n.id = next(_node_count)
        n.cond = None
        n.hi = n.lo = None
        n.rf = rf
        n._conds = frozenset()
        _leaf_tab[rf] = n
    return n


def mknode(cond, hi, lo):
    if hi is lo:
        return hi
    key = (cond, hi.id, lo.id)
    n = _node_tab.get(key)
    if n is None:
        n = Node()
        n.id = next(_node_count)
        if n.id > NODE_BUDGET[0]:
            raise Blowup('node budget')
        n.cond, n.hi, n.lo, n.rf = cond, hi, lo, None
        n._conds = None
        _node_tab[key] = n
    return n


TRUE, FALSE = leaf(RF1), leaf(RF0)
ZERO, ONE = FALSE, TRUE


_consts = {}


def const(c):
    n = _consts.get(c)
    if n is None:
        n = _consts[c] = leaf(rf_const(c))
    return n


def isleaf(n):
    return n.cond is None


def isconst(n):
    return n.cond is None and n.rf.isconst()


def constval(n):
    return n.rf.const()


def cofactor(n, cond, val):
    """n restricted by  cond == val, where cond precedes or equals n's conds."""
    while n.cond is not None:
        if n.cond == cond:
            return n.hi if val else n.lo
        if n.cond[0] == cond[0] and n.cond[1] > cond[1] and not val:
            n = n.lo
            continue
        return n
    return n


_apply_memo = {}


def apply2(name, f, a, b):
    if a.cond is None and b.cond is None:
        key = (name, a.id, b.id)
        r = _apply_memo.get(key)
        if r is None:
            r = f(a.rf, b.rf)
            if not isinstance(r, Node):
                r = leaf(r)
            _apply_memo[key] = r
        return r
    key = (name, a.id, b.id)
    r = _apply_memo.get(key)
    if r is not None:
        return r
    if a.cond is None:
        c = b.cond
    elif b.cond is None:
        c = a.cond
    else:
        c = min(a.cond, b.cond)
    hi = apply2(name, f, cofactor(a, c, True), cofactor(b, c, True))
    lo = apply2(name, f, cofactor(a, c, False), cofactor(b, c, False))
    r = ite_cond(c, hi, lo)
    _apply_memo[key] = r
    return r


def ite_cond(c, hi, lo):
    """Branch on a condition; children may test earlier conditions."""
    ch, cl = hi.cond, lo.cond
    if (ch is None or ch > c) and (cl is None or cl > c):
        return mknode(c, hi, cofactor(lo, c, False))
    return ite(mknode(c, TRUE, FALSE), hi, lo)


_ite_memo = {}


def ite(c, a, b):
    if c.cond is None:
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if c.rf.isconst():
            return a if c.rf.const() != 0 else b
        # a 0/1 valued rational function: branch on it
        c = cmp_ge(rf_add(c.rf, rf_const(1), -1)) if rf_isint(c.rf) else not_(cmp_eq(c.rf))
        return ite(c, a, b)
    if a is b:
        return a
    if a is TRUE and b is FALSE and _is01(c):
        return c
    key = (c.id, a.id, b.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    top = min(x.cond for x in (c, a, b) if x.cond is not None)
    hi = ite(cofactor(c, top, True), cofactor(a, top, True), cofactor(b, top, True))
    lo = ite(cofactor(c, top, False), cofactor(a, top, False), cofactor(b, top, False))
    r = ite_cond(top, hi, lo)
    _ite_memo[key] = r
    return r


_is01_memo = {}


def _is01(n):
    r = _is01_memo.get(n.id)
    if r is None:
        if n.cond is None:
            r = n is TRUE or n is FALSE
        else:
            r = _is01(n.hi) and _is01(n.lo)
        _is01_memo[n.id] = r
    return r


_not_memo = {}


def not_(n):
    r = _not_memo.get(n.id)
    if r is None:
        if n.cond is None:
            if n is TRUE:
                r = FALSE
            elif n is FALSE:
                r = TRUE
            else:
                r = ite(n, FALSE, TRUE)
        else:
            r = mknode(n.cond, not_(n.hi), not_(n.lo))
        _not_memo[n.id] = r
    return r


def and_(a, b):
    if a is TRUE and b is TRUE:
        return TRUE
    if a is FALSE:
        return FALSE
    return ite(a, truth(b), FALSE)


def or_(a, b):
    return ite(a, TRUE, truth(b))


def xor_(a, b):
    return ite(a, not_(b), truth(b))


def truth(n):
    """Normalise a 0/1 value to a decision diagram with 0/1 leaves."""
    if n is TRUE or n is FALSE or _is01(n):
        return n
    return ite(n, TRUE, FALSE)


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return apply2('+', rf_add, a, b)


def sub(a, b):
    if b is ZERO:
        return a
    return apply2('-', lambda x, y: rf_add(x, y, -1), a, b)


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    return apply2('*', rf_mul, a, b)


def div(a, b):
    if b is ONE:
        return a
    return apply2('/', rf_div, a, b)


def neg(a):
    return sub(ZERO, a)


def map1(name, f, a):
    key = (name, a.id)
    r = _apply_memo.get(key)
    if r is None:
        if a.cond is None:
            r = f(a.rf)
            if not isinstance(r, Node):
                r = leaf(r)
        else:
            r = ite_cond(a.cond, map1(name, f, a.hi), map1(name, f, a.lo))
        _apply_memo[key] = r
    return r


def ge(a, b):
    return apply2('>=', lambda x, y: cmp_ge(rf_add(x, y, -1)), a, b)


def gt(a, b):
    return apply2('>', lambda x, y: cmp_ge(rf_add(x, y, -1), True), a, b)


def lt(a, b):
    return not_(ge(a, b))


def le(a, b):
    return not_(gt(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    return apply2('==', lambda x, y: cmp_eq(rf_add(x, y, -1)), a, b)


def ne(a, b):
    return not_(eq(a, b))


def _max_rf(x, y):
    d = rf_add(x, y, -1)
    if d.isconst():
        return x if d.const() >= 0 else y
    if _lead(d.num) < 0:
        x, y = y, x
        d = rf_neg(d)
    c = cmp_ge(d)
    if c is not TRUE and cmp_ge(rf_neg(d)) is TRUE:
        return leaf(y)
    return ite(c, leaf(x), leaf(y))


def max_(a, b):
    return apply2('max', _max_rf, a, b)


def _min_rf(x, y):
    d = rf_add(x, y, -1)
    if d.isconst():
        return y if d.const() >= 0 else x
    if _lead(d.num) < 0:
        x, y = y, x
        d = rf_neg(d)
    c = cmp_ge(d)
    if c is not TRUE and cmp_ge(rf_neg(d)) is TRUE:
        return leaf(x)
    return ite(c, leaf(y), leaf(x))


def min_(a, b):
    return apply2('min', _min_rf, a, b)


def leaves(n, path=(), limit=200000):
    """Iterate (path, rf) over the leaves; path is a tuple of (cond, bool)."""
    stack = [(n, path)]
    k = 0
    while stack:
        n, path = stack.pop()
        if n.cond is None:
            k += 1
            if k > limit:
                raise Blowup('leaf enumeration')
            yield path, n.rf
        else:
            stack.append((n.hi, path + ((n.cond, True),)))
            stack.append((n.lo, path + ((n.cond, False),)))


def leaf_set(n):
    seen, out, stack = set(), {}, [n]
    while stack:
        m = stack.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        if m.cond is None:
            out[m.rf] = 1
        else:
            stack += [m.hi, m.lo]
    return list(out)


def conds(n):
    if n._conds is None:
        stack = [n]
        seen = {}
        # post-order
        order = []
        while stack:
            m = stack.pop()
            if m.id in seen:
                continue
            seen[m.id] = m
            order.append(m)
            if m.cond is not None:
                stack += [m.hi, m.lo]
        out = {m.cond for m in order if m.cond is not None}
        n._conds = frozenset(out)
    return n._conds


def size(n):
    seen, stack = set(), [n]
    while stack:
        m = stack.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        if m.cond is not None:
            stack += [m.hi, m.lo]
    return len(seen)


# ---------------------------------------------------------------- indicators and sums

def ind_atom(cond):
    return mkatom('ind', cond, _F0, _F1, True)


def to_ind(n):
    """Multilinear (indicator) form of a decision diagram."""
    key = ('ind', n.id)
    r = _apply_memo.get(key)
    if r is None:
        if n.cond is None:
            r = n.rf
        else:
            hi, lo = to_ind(n.hi), to_ind(n.lo)
            r = rf_add(lo, rf_mul(rf_atom(ind_atom(n.cond)), rf_add(hi, lo, -1)))
        _apply_memo[key] = r
    return r


_ms_rows = {}     # pivot mono -> (vector, combo)


def _shared_factors(vec):
    """Split an indicator polynomial by non-indicator factors that are shared
    across the summed elements (as opposed to per-element factors)."""
    groups = {}
    for m, c in vec.items():
        f = tuple(x for x in m if ATOMS[x[0]].kind != 'ind')
        i = tuple(x for x in m if ATOMS[x[0]].kind == 'ind')
        groups.setdefault(f, {})[i] = c
    if len(groups) <= 1:
        return [vec]
    least = min(len(g) for f, g in groups.items())
    out, rest = [], {}
    for f, g in groups.items():
        if len(g) > 4 and len(g) >= 3 * least:
            out.append({_mono_mul(f, i): c for i, c in g.items()})
        else:
            for i, c in g.items():
                rest[_mono_mul(f, i)] = c
    if rest:
        out.append(rest)
    return out


def _msum(vec, bounds=None):
    """Polynomial (over msum atoms) equal to the indicator-polynomial vec."""
    # common non-indicator factor
    g = {a: e for a, e in _common_mono(vec).items() if ATOMS[a].kind != 'ind'}
    if g:
        vec = {_mono_div(m, g): v for m, v in vec.items()}
    gm = tuple(sorted(g.items()))
    r = dict(vec)
    combo = {}
    while True:
        piv = None
        for m in r:
            if m in _ms_rows:
                piv = m
                break
        if piv is None:
            break
        c = r[piv]
        row, rc = _ms_rows[piv]
        f = c / row[piv]
        for m, v in row.items():
            w = r.get(m, 0) - f * v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        for a, v in rc.items():
            w = combo.get(a, 0) + f * v
            if w:
                combo[a] = w
            else:
                combo.pop(a, None)
    if r:
        isint = all(v.denominator == 1 for v in vec.values()) and all(
            ATOMS[a].isint for m in vec for a, _ in m)
        lo, hi = tight_interval(RF(vec, P1)) if isint else p_interval(vec)
        if bounds is not None and not gm:
            lo, hi = max(lo, bounds[0]), min(hi, bounds[1])
        sg = 1
        if hi <= 0 and lo < 0:
            # keep sums of one sign nonnegative
            sg = -1
            vec = {m: -v for m, v in vec.items()}
            lo, hi = -hi, -lo
        at = mkatom('msum', p_freeze(vec), lo, hi, isint)
        piv = max(r)
        rc = {a: -v for a, v in combo.items()}
        rc[at.id] = rc.get(at.id, 0) + sg
        # invariant: row vector == sum rc[a] * def(a)
        _ms_rows[piv] = (r, rc)
        combo = {at.id: _F1 * sg}
    out = {}
    for a, v in combo.items():
        out[_mono_mul(((a, 1),), gm)] = Fraction(v)
    return out


def atomize(rf, bounds=None):
    """Replace the indicator part of a polynomial by sum atoms."""
    if not rf.ispoly():
        return rf
    plain, vec = {}, {}
    for m, c in rf.num.items():
        if any(ATOMS[a].kind == 'ind' for a, _ in m):
            vec[m] = c
        else:
            plain[m] = c
    if not vec:
        return rf
    out = plain
    parts = _shared_factors(vec)
    if bounds is not None:
        c = plain.get((), _F0)
        if len(parts) == 1 and p_isconst(plain):
            bounds = (bounds[0] - c, bounds[1] - c)
        else:
            bounds = None
    for v in parts:
        out = p_add(out, _msum(v, bounds))
    return RF(out, P1)


SUM_BDD_CONDS = [5]


DATA_INPUTS = ['bart.leaf_indices', 'bart.X', 'bart.resid']
_data_memo = {}


def _isdata(cond):
    """Does the condition depend on per-datapoint inputs?  (Sums over
    datapoints are never expanded into case splits.)"""
    r = _data_memo.get(cond[0])
    if r is None:
        r = any(ATOMS[a].kind == 'in' and ATOMS[a].args[0] in DATA_INPUTS for a in rf_atoms(BASES[cond[0]].rf))
        _data_memo[cond[0]] = r
    return r


def sum_nodes(nodes):
    """Canonical sum of a list of nodes."""
    nodes = [n for n in nodes if n is not ZERO]
    if not nodes:
        return ZERO
    if len(nodes) == 1:
        return nodes[0]
    counts = {}
    for n in nodes:
        for c in conds(n):
            counts[c] = counts.get(c, 0) + 1
    allc = set(counts)
    if len(allc) > SUM_BDD_CONDS[0] and len({c[0] for c in allc}) == 1:
        # thresholds on one quantity: the sum is a step function of it
        while len(nodes) > 1:
            nodes = [add(*nodes[i:i + 2]) if i + 1 < len(nodes) else nodes[i] for i in range(0, len(nodes), 2)]
        return nodes[0]
    if len(allc) <= SUM_BDD_CONDS[0] and not any(_isdata(c) for c in allc):
        r = nodes[0]
        for n in nodes[1:]:
            r = add(r, n)
        return r
    # hoist conditions shared by most of the elements
    shared = sorted(c for c, k in counts.items() if k > max(2, len(nodes) // 2))
    if shared:
        c = shared[0]
        hi = sum_nodes([restrict(n, c, True) for n in nodes])
        lo = sum_nodes([restrict(n, c, False) for n in nodes])
        return ite(mknode(c, TRUE, FALSE), hi, lo)
    tot = RF0
    acc = {}
    polys = True
    for n in nodes:
        t = to_ind(n)
        if t.ispoly():
            acc = p_add(acc, t.num)
        else:
            tot = rf_add(tot, t)
    tot = rf_add(tot, RF(acc, P1))
    lo = hi = _F0
    for n in nodes:
        ivs = [rf_interval(r) for r in leaf_set(n)]
        lo += min(i[0] for i in ivs)
        hi += max(i[1] for i in ivs)
    return leaf(atomize(tot, (lo, hi)))


def restrict(n, cond, val):
    """Restrict by cond==val (same-base implications included)."""
    key = ('restrict', n.id, cond, val)
    r = _apply_memo.get(key)
    if r is not None:
        return r
    if n.cond is None or n.cond[0] > cond[0]:
        r = n
    elif n.cond[0] == cond[0]:
        if n.cond == cond:
            r = restrict(n.hi if val else n.lo, cond, val)
        elif val and n.cond[1] <= cond[1]:
            r = restrict(n.hi, cond, val)
        elif not val and n.cond[1] >= cond[1]:
            r = restrict(n.lo, cond, val)
        else:
            r = mknode(n.cond, restrict(n.hi, cond, val), restrict(n.lo, cond, val))
    else:
        r = mknode(n.cond, restrict(n.hi, cond, val), restrict(n.lo, cond, val))
    _apply_memo[key] = r
    return r


# ---------------------------------------------------------------- opaque functions

def fn(name, *args, lo=-INF, hi=INF, isint=False, pos=False):
    """Opaque function applied to leaf RFs / hashables -> RF."""
    return rf_atom(mkatom('fn', (name,) + args, lo, hi, isint, pos))


def fn_nodes(name, *args, **kw):
    """Opaque function of Nodes, distributing over case splits."""
    args = list(args)
    for i, a in enumerate(args):
        if isinstance(a, Node) and a.cond is not None:
            c = min(x.cond for x in args if isinstance(x, Node) and x.cond is not None)
            hi = fn_nodes(name, *[cofactor(x, c, True) if isinstance(x, Node) else x for x in args], **kw)
            lo = fn_nodes(name, *[cofactor(x, c, False) if isinstance(x, Node) else x for x in args], **kw)
            return ite_cond(c, hi, lo)
    return leaf(fn(name, *[a.rf if isinstance(a, Node) else a for a in args], **kw))


def _factor(p, normal=True):
    """(const, [(poly, k)]) factorisation with primitive sign-normalised factors."""
    g = _common_mono(p)
    out = [({((a, 1),): _F1}, e) for a, e in g.items()]
    if g:
        p = {_mono_div(m, g): v for m, v in p.items()}
    if len(p) == 1:
        (m, c), = p.items()
        return c, out
    if len(p) > 400:
        fl, c = [(p, 1)], _F1
    else:
        R, atoms, (P,) = _to_ring([p])
        c, fs = P.factor_list()
        c = Fraction(int(c.numerator), int(c.denominator))
        fl = [(_from_ring(atoms, f), k) for f, k in fs]
    for f, k in fl:
        # normalise: primitive integer coefficients, positive constant sign
        den = math.lcm(*[v.denominator for v in f.values()])
        num = math.gcd(*[int(v * den) for v in f.values()])
        s = Fraction(num, den)
        sg = p_sign(f) if normal else 0
        if sg < 0 or (sg == 0 and _lead(f) < 0):
            s = -s
        c *= s ** k
        out.append(({m: v / s for m, v in f.items()}, k))
    return c, out


def _const_log(c):
    """log of a positive rational as integer combination of log(prime)."""
    out = P0
    for sign, n in ((1, c.numerator), (-1, c.denominator)):
        f = 2
        while n > 1:
            if f * f > n:
                f = n
            k = 0
            while n % f == 0:
                n //= f
                k += 1
            if k:
                a = mkatom('log', p_freeze(p_const(f)), lo=_F0, pos=True)
                out = p_add(out, {((a.id, 1),): Fraction(sign * k)})
            f += 1
            if f > 100000:
                a = mkatom('log', p_freeze(p_const(n)), lo=_F0, pos=True)
                return p_add(out, {((a.id, 1),): Fraction(sign)})
    return out


def rf_log(r):
    if not r.num:
        return rf_atom(mkatom('neginf', ()))
    key = ('log', r)
    v = _apply_memo.get(key)
    if v is None:
        out = P0
        c1, f1 = _factor(r.num)
        c2, f2 = _factor(r.den)
        c = c1 / c2
        if c < 0 or any(p_sign(f) < 0 for f, _ in f1 + f2):
            v = rf_atom(mkatom('log', ('raw', r)))
        else:
            out = _const_log(c)
            for fs, s in ((f1, 1), (f2, -1)):
                for f, k in fs:
                    # exp atoms: log(exp(x)) = x
                    a = None
                    if len(f) == 1:
                        (m, cc), = f.items()
                        if len(m) == 1 and m[0][1] == 1 and cc == 1:
                            at = ATOMS[m[0][0]]
                            if at.kind == 'fn' and at.args[0] == 'exp':
                                e = at.args[1]
                                if e.ispoly():
                                    out = p_add(out, {mm: vv * s * k for mm, vv in e.num.items()})
                                    continue
                    a = mkatom('log', p_freeze(f))
                    out = p_add(out, {((a.id, 1),): Fraction(s * k)})
            v = RF(out, P1)
        _apply_memo[key] = v
    return v


def _isqrt_frac(c):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def _squarefree(n):
    s, f, r = 1, 1, n
    k = 2
    while k * k <= r:
        while r % (k * k) == 0:
            r //= k * k
            s *= k
        k += 1
        if k > 100000:
            break
    return s, r


def rf_sqrt(r):
    if not r.num:
        return RF0
    key = ('sqrt', r)
    v = _apply_memo.get(key)
    if v is not None:
        return v
    c1, f1 = _factor(r.num)
    c2, f2 = _factor(r.den)
    c = c1 / c2
    if c < 0:
        v = rf_atom(mkatom('fn', ('sqrtneg', r)))
    else:
        n = c.numerator * c.denominator
        s, sf = _squarefree(n)
        v = rf_const(Fraction(s, c.denominator))
        if sf != 1:
            a = mkatom('sqrt', p_freeze(p_const(sf)), _F0, INF, False, True)
            v = rf_mul(v, rf_atom(a))
        for fs, inv in ((f1, False), (f2, True)):
            for f, k in fs:
                if k % 2:
                    a = mkatom('sqrt', p_freeze(f), _F0, INF, False, p_sign(f) > 0)
                    # sqrt(1/f) = sqrt(f)/f
                    t = rf_atom(a)
                    if inv:
                        t = rf_div(t, RF(f, P1))
                    v = rf_mul(v, t)
                h = RF(f, P1)
                if k % 4 == 2 and p_interval(f)[0] < 0 and (g := p_sign(f)) <= 0:
                    # the root of a square is not negative
                    h = rf_mul(h, rf_const(-1)) if g < 0 else rf_atom(mkatom('sqrt', p_freeze(p_mul(f, f)), _F0, INF, False, False))
                for _ in range(k // 2):
                    v = rf_div(v, h) if inv else rf_mul(v, h)
    _apply_memo[key] = v
    return v


def rf_exp(r):
    if not r.num:
        return RF1
    if r.ispoly():
        # exp(k*log f + rest)
        out = RF1
        rest = {}
        for m, c in r.num.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log' \
                    and c.denominator == 1 and not (ATOMS[m[0][0]].args and ATOMS[m[0][0]].args[0] == 'raw'):
                f = RF(dict(ATOMS[m[0][0]].args), P1)
                for _ in range(abs(int(c))):
                    out = rf_mul(out, f) if c > 0 else rf_div(out, f)
            else:
                rest[m] = c
        if rest:
            out = rf_mul(out, fn('exp', RF(rest, P1), lo=_F0, pos=True))
        return out
    return fn('exp', r, lo=_F0, pos=True)


def rf_mod(r, c):
    """r mod c for a positive integer c (floor convention)."""
    return rf_or_node_sub(r, c)


def fdiv_rf(r, c):
    """floor(r / c), c positive integer -> Node."""
    if r.isconst():
        return const(math.floor(r.const() / c))
    if r.ispoly() and rf_isint(r):
        q, rem = {}, {}
        for m, v in r.num.items():
            if m == ():
                k = math.floor(v / c)
                if k:
                    q[m] = Fraction(k)
                if v - k * c:
                    rem[m] = v - k * c
            elif v.numerator % c == 0:
                q[m] = v / c
            else:
                rem[m] = v
        R = RF(rem, P1)
        if R.isconst():
            return leaf(RF(q, P1))
        lo, hi = rf_interval(R)
        if lo != -INF and hi != INF:
            if math.floor(lo / c) == math.floor(hi / c):
                return leaf(rf_add(RF(q, P1), rf_const(math.floor(lo / c))))
            if hi - lo <= 300:
                # threshold table
                out = const(math.floor(lo / c))
                k0, k1 = math.floor(lo / c), math.floor(hi / c)
                for k in range(k0 + 1, k1 + 1):
                    out = ite(cmp_ge(rf_add(R, rf_const(k * c), -1)), const(k), out)
                return add(leaf(RF(q, P1)), out)
        at = mkatom('fdiv', (R, c), lo if lo == -INF else Fraction(math.floor(lo / c)),
                    hi if hi == INF else Fraction(math.floor(hi / c)), True)
        return leaf(rf_add(RF(q, P1), rf_atom(at)))
    return leaf(fn('fdiv', r, Fraction(c), isint=True))


def fdiv(a, c):
    return map1(('fdiv', c), lambda r: fdiv_rf(r, c), a)


def mod(a, c):
    return sub(a, mul(const(c), fdiv(a, c)))


# ---------------------------------------------------------------- substitution

_subst_memo = {}


class Subst:
    """Substitution atom id -> Node (or a rebuild through opaque atoms)."""

    def __init__(self, mapping, split=False):
        self.map = {(k.id if isinstance(k, Atom) else k): v for k, v in mapping.items()}
        self.split = split    # keep the case splits of long sums
        self.amemo = {}
        self.nmemo = {}
        self.touch = {}

    def touches(self, aid):
        r = self.touch.get(aid)
        if r is None:
            if aid in self.map:
                r = True
            else:
                r = any(self.touches(x) for x in atom_children(ATOMS[aid]))
            self.touch[aid] = r
        return r

    def atom(self, aid):
        r = self.amemo.get(aid)
        if r is None:
            if aid in self.map:
                r = self.map[aid]
            elif not self.touches(aid):
                r = leaf(rf_atom(ATOMS[aid]))
            else:
                r = rebuild(ATOMS[aid], self)
            self.amemo[aid] = r
        return r

    def poly(self, p):
        if not any(self.touches(a) for m in p for a, _ in m):
            return leaf(RF(p, P1))
        terms = []
        plain = {}
        for m, c in p.items():
            if not any(self.touches(a) for a, _ in m):
                plain[m] = c
                continue
            t = const(c)
            for a, e in m:
                x = self.atom(a)
                for _ in range(e):
                    t = mul(t, x)
            terms.append(t)
        if plain:
            terms.append(leaf(RF(plain, P1)))
        if len(terms) > 12 and not self.split:
            return sum_nodes(terms)
        out = terms[0]
        for t in terms[1:]:
            out = add(out, t)
        return out

    def rf(self, r):
        n = self.poly(r.num)
        if r.ispoly():
            return n
        return div(n, self.poly(r.den))

    def node(self, n):
        r = self.nmemo.get(n.id)
        if r is None:
            if n.cond is None:
                r = self.rf(n.rf)
            else:
                c = self.cond(n.cond)
                r = ite(c, self.node(n.hi), self.node(n.lo))
            self.nmemo[n.id] = r
        return r

    def cond(self, cond):
        b, (t, s) = BASES[cond[0]], cond[1]
        if not any(self.touches(a) for a in rf_atoms(b.rf)):
            return mknode(cond, TRUE, FALSE)
        x = self.rf(b.rf)
        return map1(('thr', t, s), lambda r: cmp_ge(rf_add(r, rf_const(t), -1), bool(s)), x)


def _arg_atoms(x):
    if isinstance(x, RF):
        yield from rf_atoms(x)
    elif isinstance(x, Node):
        seen, stack = set(), [x]
        while stack:
            m = stack.pop()
            if m.id in seen:
                continue
            seen.add(m.id)
            if m.cond is None:
                yield from rf_atoms(m.rf)
            else:
                yield from rf_atoms(BASES[m.cond[0]].rf)
                stack += [m.hi, m.lo]
    elif isinstance(x, Atom):
        yield x.id
    elif isinstance(x, tuple):
        for y in x:
            yield from _arg_atoms(y)


_children_memo = {}


def atom_children(a):
    r = _children_memo.get(a.id)
    if r is None:
        if a.kind == 'ind':
            r = frozenset(rf_atoms(BASES[a.args[0]].rf))
        elif a.kind in ('msum', 'sqrt', 'log', 'divzero') and not (a.args and a.args[0] == 'raw'):
            r = frozenset(x for m, _ in a.args for x, _ in m)
        else:
            r = frozenset(_arg_atoms(a.args))
        _children_memo[a.id] = r
    return r


def all_atoms(x):
    """Transitive closure of atoms reachable from a node/RF."""
    out, stack = set(), list(_arg_atoms(x))
    while stack:
        a = stack.pop()
        if a in out:
            continue
        out.add(a)
        stack += [b for b in atom_children(ATOMS[a]) if b not in out]
    return {ATOMS[a] for a in out}


REBUILD = {}


def rebuild(a, S):
    k = a.kind
    if k == 'ind':
        return S.cond(a.args)
    if k == 'msum':
        terms = []
        for m, c in a.args:
            t = const(c)
            for x, e in m:
                y = S.atom(x)
                for _ in range(e):
                    t = mul(t, y)
            terms.append(t)
        return sum_nodes(terms)
    if k == 'sqrt':
        return map1('sqrt', rf_sqrt, S.poly(dict(a.args)))
    if k == 'log':
        if a.args and a.args[0] == 'raw':
            return map1('log', rf_log, S.rf(a.args[1]))
        return map1('log', rf_log, S.poly(dict(a.args)))
    if k == 'fdiv':
        return fdiv(S.rf(a.args[0]), a.args[1])
    if k == 'wrap':
        return REBUILD['wrap'](a, S)
    if k == 'fn' and a.args[0] in REBUILD:
        return REBUILD[a.args[0]](a, S)
    if k == 'fn':
        args = []
        for x in a.args[1:]:
            args.append(_rebuild_arg(x, S))
        if any(isinstance(y, Node) and not isinstance(x, Node) for x, y in zip(a.args[1:], args)):
            return fn_nodes(a.args[0], *args, lo=a.lo, hi=a.hi, isint=a.isint, pos=a.pos)
        return leaf(rf_atom(mkatom('fn', (a.args[0],) + tuple(args), a.lo, a.hi, a.isint, a.pos)))
    args = tuple(_rebuild_arg(x, S) for x in a.args)
    args = tuple(y.rf if isinstance(x, RF) and isinstance(y, Node) and y.cond is None else y
                 for x, y in zip(a.args, args))
    return leaf(rf_atom(mkatom(k, args, a.lo, a.hi, a.isint, a.pos)))


def _rebuild_arg(x, S):
    if isinstance(x, RF):
        return S.rf(x)
    if isinstance(x, Node):
        return S.node(x)
    if isinstance(x, tuple):
        ys = tuple(_rebuild_arg(y, S) for y in x)
        return tuple(y.rf if isinstance(xx, RF) and isinstance(y, Node) and y.cond is None else y
                     for xx, y in zip(x, ys))
    return x


# ---------------------------------------------------------------- equality

def _path_intervals(path):
    """base id -> (lo, lostrict, hi, histrict) from a path."""
    d = {}
    for (b, (t, s)), v in path:
        base = BASES[b]
        lo, ls, hi, hs = d.get(b, (base.lo, False, base.hi, False))
        if v:
            if t > lo or (t == lo and s and not ls):
                lo, ls = t, bool(s)
        else:
            # base < (t,s): s=0 -> < t ; s=1 -> <= t
            if base.isint:
                nt, ns = t - 1, False
            else:
                nt, ns = t, not s
            if nt < hi or (nt == hi and ns and not hs):
                hi, hs = nt, ns
        d[b] = (lo, ls, hi, hs)
    return d


def path_feasible(path):
    """False only if the path is certainly empty (interval reasoning)."""
    iv = _path_intervals(path)
    for lo, ls, hi, hs in iv.values():
        if lo > hi or (lo == hi and (ls or hs)):
            return False
    # pin atoms and propagate through linear bases
    return True


_possible = {}


def path_possible(path, rf=None):
    """False only if the path (with a value rf other than zero at its end, if
    given) is certainly empty, by intervals and then by linear arithmetic."""
    if not path_feasible(path):
        return False
    key = (frozenset(path), rf)
    r = _possible.get(key)
    if r is None:
        r = _possible[key] = not _linearly_empty(path, rf)
    return r


def _linearly_empty(path, rf):
    from . import linear
    cs = []

    def form(r):
        if r.ispoly():
            return {m: c for m, c in r.num.items() if m}, r.num.get((), _F0)
        return {r: _F1}, _F0
    for (b, (t, s)), v in path:
        base = BASES[b]
        if isinstance(t, float):
            continue
        q, k = form(base.rf)
        if v:
            cs.append((q, k - t, bool(s)))
        elif base.isint:
            cs.append(({m: -c for m, c in q.items()}, t - 1 - k, False))
        else:
            cs.append(({m: -c for m, c in q.items()}, t - k, not s))
    ids = {}
    cs = [({ids.setdefault(m, len(ids)): c for m, c in q.items()}, k, s) for q, k, s in cs]
    # a product with a uniform draw is less than the other factors
    for m in [m for m in ids if not isinstance(m, RF)]:
        for a, e in m:
            if e == 1 and ATOMS[a].kind == 'draw' and ATOMS[a].args[0] == 'uniform' and ATOMS[a].hi == 1:
                rest = tuple(x for x in m if x[0] != a)
                s = p_sign({rest: _F1}) if rest else 1
                if s == 1 or p_interval({rest: _F1})[0] >= 0:
                    k0 = _F0 if rest else _F1
                    q0 = {ids.setdefault(rest, len(ids)): _F1} if rest else {}
                    cs.append(({ids[m]: -_F1} | q0, k0, s > 0))
    things = list(ids)

    def bounds(i):
        m = things[i]
        return rf_interval(m) if isinstance(m, RF) else p_interval({m: _F1})
    if rf is None or rf.isconst() or not rf.ispoly():
        return linear.empty(cs, bounds)
    q, k = form(rf)
    if not set(q) <= set(ids):
        return linear.empty(cs, bounds)
    q = {ids[m]: c for m, c in q.items()}
    return linear.empty(cs + [(q, k, True)], bounds) and linear.empty(cs + [({m: -c for m, c in q.items()}, -k, True)], bounds)


def path_pins(path):
    """Substitutions implied by equalities along a path: atom id -> Node."""
    pins = {}
    for b, (lo, ls, hi, hs) in _path_intervals(path).items():
        if lo != hi or ls or hs:
            continue
        base = BASES[b]
        if not base.rf.ispoly():
            continue
        # solve base == lo for an atom that appears linearly and alone
        for m, c in base.rf.num.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if ATOMS[a].kind not in ('in', 'var', 'fn'):
                    continue
                if any(x == a for mm in base.rf.num if mm != m for x, _ in mm):
                    continue
                rest = {mm: -v / c for mm, v in base.rf.num.items() if mm != m}
                rest = p_add(rest, p_const(lo / c))
                if ATOMS[a].isint and not rf_isint(RF(rest, P1)):
                    continue
                if a in pins:
                    continue
                pins[a] = leaf(RF(rest, P1))
                break
    return pins


def _resolve_pins(pins):
    # avoid cycles: apply sequentially
    return pins


def expand_msums(n):
    """Unfold sum atoms into indicator polynomials, then into case splits."""
    at = [a for a in all_atoms(n) if a.kind == 'msum']
    if not at:
        return n
    m = {}
    for a in at:
        m[a.id] = leaf(RF(dict(a.args), P1))
    return Subst(m).node(n)


def expand_inds(n, limit=18):
    for _ in range(64):
        inds = [a for a in all_atoms(n) if a.kind == 'ind']
        top = set()
        for r in leaf_set(n):
            top |= {a for a in rf_atoms(r) if ATOMS[a].kind == 'ind'}
        if not top:
            return n
        if len(top) > limit:
            raise Blowup('indicator expansion')
        n = Subst({a: mknode(ATOMS[a].args, TRUE, FALSE) for a in top}, split=True).node(n)
    return n


def difference(a, b, assume=None, depth=10):
    """None if a and b are provably the same value; otherwise a
    (path, rf) witness of where their normal forms differ."""
    if a is b:
        return None
    d = sub(a, b)
    if d is ZERO:
        return None
    if assume is None:
        w = refute(d)
        if w is not None:
            return w
        # terms whose refinement is expensive are tried at more points first
        _effort[0] = 30000
        try:
            return _nonzero(d, assume, depth)
        except Effort:
            pass
        finally:
            _effort[0] = INF
        w = refute(d, 4000)
        if w is not None:
            return w
    return _nonzero(d, assume, depth)


# identity testing: a point where the term does not vanish shows that two
# normal forms differ, without refining every path of their difference

class _Skip(Exception):
    """The term has no value at this point."""


class _Point:
    """A valuation of the atoms: free ones at random, the others from theirs."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.narrow = self.rng.random() < 0.6
        self.memo = {}
        self.opaque = {}
        self.nodes = {}

    def draw(self, a):
        lo, hi, r = a.lo, a.hi, self.rng
        if a.isint:
            if lo == -INF and hi == INF:
                lo, hi = Fraction(-4), Fraction(4)
            elif lo == -INF:
                lo = hi - 8
            elif hi == INF:
                hi = lo + 8
            lo, hi = math.ceil(lo), math.floor(hi)
            u = r.random()
            if hi - lo > 3 and (self.narrow or u < 0.5):
                base = lo if u < 0.8 else hi - 3
                return Fraction(r.randint(base, base + 3))
            return Fraction(r.randint(lo, hi))
        if lo == hi and lo not in (INF, -INF):
            return Fraction(lo)
        v = Fraction(r.randint(1, 9973), 1009)
        if lo != -INF and hi != INF:
            return lo + (hi - lo) * Fraction(r.randint(1, 9972), 9973)
        if lo != -INF:
            return lo + v
        if hi != INF:
            return hi - v
        if a.pos:
            return v
        return v if r.random() < 0.5 else -v

    def atom(self, i):
        v = self.memo.get(i)
        if v is None:
            v = self.memo[i] = self._atom(ATOMS[i])
        return v

    def _atom(self, a):
        k = a.kind
        if k == 'in':
            return self.draw(a)
        if k == 'ind':
            return Fraction(int(self.cond(a.args)))
        if k == 'msum':
            return self.poly(a.args)
        if k in ('log', 'sqrt'):
            if a.args and a.args[0] == 'raw':
                x = self.rf(a.args[1])
            else:
                x = self.poly(a.args)
            if x <= 0:
                raise _Skip
            return math.log(x) if k == 'log' else math.sqrt(x)
        if k == 'fdiv' and isinstance(a.args[0], RF):
            x = self.rf(a.args[0]) / a.args[1]
            self.clear(x - round(x), 1) if isinstance(x, float) else None
            return Fraction(math.floor(x))
        if k == 'wrap':
            rf, lo, size = a.args
            x = self.rf(rf)
            if isinstance(x, float):
                raise _Skip
            return (x - lo) % size + lo
        if k == 'fn' and a.args[0] in ('ext:min', 'ext:max'):
            return (min if a.args[0] == 'ext:min' else max)(self.rf(x) for x in a.args[1])
        if k == 'draw' or (k == 'fn' and a.args[0] not in REBUILD and a.args[0] != 'sqrtneg' and a.args[0] != 'pick'):
            key = (k, a.args[0], tuple(self.arg(x) for x in a.args[1:]))
            if key not in self.opaque:
                self.opaque[key] = self.draw(a)
            return self.opaque[key]
        raise _Skip

    def arg(self, x):
        if isinstance(x, RF):
            try:
                v = self.rf(x)
            except _Skip:
                return ('rf', x)
            return float(f'{float(v):.9g}') if isinstance(v, float) else v
        if isinstance(x, Node):
            try:
                v = self.node(x)[0]
            except _Skip:
                return ('node', x.id)
            return float(f'{float(v):.9g}') if isinstance(v, float) else v
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        if isinstance(x, Atom):
            return ('atom', x.id)
        return x

    def poly(self, p):
        tot, scale = Fraction(0), 0.0
        for m, c in (p.items() if isinstance(p, dict) else p):
            t = c
            for a, e in m:
                t = t * self.atom(a) ** e
                if not t:
                    break
            tot = tot + t
            if isinstance(t, float):
                scale = max(scale, abs(t))
        if isinstance(tot, float) and abs(tot) < 1e-7 * max(scale, 1e-30):
            tot = Fraction(0)       # cancelled to roundoff
        return tot

    def rf(self, r):
        n = self.poly(r.num)
        if r.ispoly():
            return n
        d = self.poly(r.den)
        if not d:
            raise _Skip
        return n / d

    def clear(self, x, scale):
        if isinstance(x, float) and abs(x) < 1e-7 * scale:
            raise _Skip

    def cond(self, c):
        b, (t, s) = c
        x = self.rf(BASES[b].rf)
        if isinstance(x, float) or isinstance(t, float):
            self.clear(float(x) - float(t), max(1.0, abs(float(x))))
        return x > t if s else x >= t

    def node(self, n):
        path = []
        while n.cond is not None:
            v = self.cond(n.cond)
            path.append((n.cond, v))
            n = n.hi if v else n.lo
        return self.rf(n.rf), tuple(path), n.rf


def refute(d, tries=24):
    """(path, rf) of a point where d certainly is not zero, or None."""
    return next(witnesses(d, tries), None)


def witnesses(d, tries=24):
    """(path, rf) of points where d certainly is not zero"""
    skipped = 0
    for k in range(tries):
        pt = _Point(k)
        try:
            v, path, rf = pt.node(d)
        except (_Skip, OverflowError, ZeroDivisionError, KeyError, TypeError):
            skipped += 1
            if skipped > 6 and skipped == k + 1:
                return
            continue
        if v and (not isinstance(v, float) or (math.isfinite(v) and abs(v) > 1e-5)):
            yield path, rf


def _nonzero(d, assume, depth):
    if d is ZERO:
        return None
    try:
        for path, rf in leaves(d, limit=20000):
            if not rf.num:
                continue
            if not path_feasible(path):
                continue
            if assume is not None and not assume(path):
                continue
            if depth > 0:
                w = _refine(path, rf, assume, depth)
                if w is None or not path_possible(w[0], w[1]):
                    continue
                return w
            if not path_possible(path, rf):
                continue
            return path, rf
    except Blowup:
        return (), leaf_set(d)[0]
    return None


def _refine(path, rf, assume, depth):
    # 1. equalities along the path
    pins = path_pins(path)
    if pins:
        n = leaf(rf)
        # rewrite the path conditions too, to expose contradictions
        for a, v in pins.items():
            S = Subst({a: v})
            n = S.node(n)
            newpath = TRUE
            for c, val in path:
                x = S.cond(c)
                newpath = and_(newpath, x if val else not_(x))
            n = ite(newpath, n, ZERO)
            if n is ZERO:
                return None
        w = _nonzero(n, assume, depth - 1)
        return w
    # 2. unfold sums
    n = leaf(rf)
    try:
        e = expand_inds(expand_msums(n))
        if e is not n:
            for c, val in path:
                e = restrict(e, c, val)
            if e is ZERO:
                return None
            # keep the path
            p = TRUE
            for c, val in path:
                x = mknode(c, TRUE, FALSE)
                p = and_(p, x if val else not_(x))
            return _nonzero(ite(p, e, ZERO), assume, depth - 1) if depth > 1 else (path, rf)
    except Blowup:
        pass
    return path, rf


# ---------------------------------------------------------------- printing

def atom_str(a, depth=3):
    if a.kind == 'in':
        name, idx = a.args
        return name + ('[' + ','.join(str(i) for i in idx) + ']' if idx else '')
    if a.kind == 'ind':
        return '[' + cond_str(a.args, depth - 1) + ']'
    if a.kind in ('msum', 'log', 'sqrt') and not (a.args and a.args[0] == 'raw'):
        if depth <= 0:
            return f'{a.kind}#{a.id}'
        nm = 'sum' if a.kind == 'msum' else a.kind
        return f'{nm}({poly_str(dict(a.args), depth - 1)})'
    if a.kind == 'fn':
        if depth <= 0:
            return f'{a.args[0]}#{a.id}'
        return a.args[0] + '(' + ', '.join(arg_str(x, depth - 1) for x in a.args[1:]) + ')'
    if depth <= 0:
        return f'{a.kind}#{a.id}'
    return a.kind + '(' + ', '.join(arg_str(x, depth - 1) for x in (a.args if isinstance(a.args, tuple) else (a.args,))) + ')'


def arg_str(x, depth):
    if isinstance(x, RF):
        return rf_str(x, depth)
    if isinstance(x, Node):
        return node_str(x, depth)
    if isinstance(x, tuple):
        return '(' + ', '.join(arg_str(y, depth) for y in x[:8]) + (',...' if len(x) > 8 else '') + ')'
    if isinstance(x, Atom):
        return atom_str(x, depth)
    return str(x)


def poly_str(p, depth=3):
    if not p:
        return '0'
    out = []
    for i, (m, c) in enumerate(sorted(p.items())):
        if i >= 10:
            out.append(f'...({len(p)} terms)')
            break
        fs = []
        for a, e in m:
            s = atom_str(ATOMS[a], depth)
            fs.append(s if e == 1 else f'{s}^{e}')
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append('*'.join(fs))
        else:
            out.append(f'{c}*' + '*'.join(fs))
    return ' + '.join(out)


def rf_str(r, depth=3):
    if r.ispoly():
        return poly_str(r.num, depth)
    return f'({poly_str(r.num, depth)})/({poly_str(r.den, depth)})'


def cond_str(c, depth=3):
    b, (t, s) = c
    return f'{rf_str(BASES[b].rf, depth)} {">" if s else ">="} {t}'


def path_str(path, depth=2):
    return ' & '.join(('' if v else 'not ') + '{' + cond_str(c, depth) + '}' for c, v in path[:12]) or 'always'


def node_str(n, depth=3, budget=14):
    out = []
    for i, (path, rf) in enumerate(leaves(n)):
        if i >= budget:
            out.append('...')
            break
        out.append((path_str(path, depth - 1) + ' -> ' if path else '') + rf_str(rf, depth))
    return ' ; '.join(out)
