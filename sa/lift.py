"""Value-number analysis of a jaxpr (the compiler IR of the code in /repo).

Every IR variable is mapped to an array of value numbers (terms.Node), one per
array element.  The transfer functions below are the semantics of the IR
primitives; loops with a static trip count are expanded, optionally cutting
large loop-carried arrays at iteration boundaries (the cut introduces an
unknown for the carried array and records the value the body computes for it).
"""

import functools
import math
from fractions import Fraction
import itertools

import numpy as np
import jax
from jax import core as jcore
from jax import numpy as jnp

from . import terms as T
from .terms import (RF, Node, leaf, const, ite, add, sub, mul, div, neg, ge, gt, lt, le,
                    eq, ne, not_, and_, or_, xor_, max_, min_, map1, apply2, rf_atom,
                    mkatom, ZERO, ONE, TRUE, FALSE, fn_nodes, rf_add, rf_const)


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- helpers

def is_float(dtype):
    return jnp.issubdtype(dtype, jnp.floating)


def is_int(dtype):
    return jnp.issubdtype(dtype, jnp.integer)


def is_bool(dtype):
    return dtype == jnp.bool_


def is_key(dtype):
    return jnp.issubdtype(dtype, jax.dtypes.prng_key)


INFTY = leaf(rf_atom(mkatom('infinity', ())))
NAN = leaf(rf_atom(mkatom('nan', ())))


def float_const(x, dtype=None):
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INFTY if x > 0 else neg(INFTY)
    if x == int(x) and abs(x) < 2 ** 53:
        return const(int(x))
    f = Fraction(x)
    g = f.limit_denominator(4096)
    eps = 2.0 ** -22 if dtype is None or np.dtype(dtype).itemsize <= 4 else 2.0 ** -50
    if abs(float(g) - x) <= eps * abs(x):
        return const(g)
    return const(f)


def lift_const(x):
    """numpy/jax constant -> object array of nodes."""
    if is_key(getattr(x, 'dtype', np.dtype(float))):
        data = np.asarray(jax.random.key_data(x))
        shape = x.shape
        out = np.empty(shape, object)
        for idx in np.ndindex(*shape):
            out[idx] = leaf(rf_atom(mkatom('key', ('const', tuple(int(v) for v in data[idx].ravel())))))
        return out
    x = np.asarray(x)
    out = np.empty(x.shape, object)
    fl = jnp.issubdtype(x.dtype, jnp.floating)
    for idx in np.ndindex(*x.shape):
        v = x[idx]
        out[idx] = float_const(v, x.dtype) if fl else const(int(v))
    return out


def full(shape, v):
    out = np.empty(shape, object)
    for idx in np.ndindex(*shape):
        out[idx] = v
    return out


def emap(f, *arrs):
    """Elementwise map with numpy broadcasting of scalars."""
    shape = np.broadcast_shapes(*(a.shape for a in arrs))
    bs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, object)
    for idx in np.ndindex(*shape):
        out[idx] = f(*[b[idx] for b in bs])
    return out


def scalar(v):
    out = np.empty((), object)
    out[()] = v
    return out


def make_input(name, shape, dtype, lo=None, hi=None, pos=False, isint=None):
    """Array of fresh unknowns; lo/hi may be scalars or functions of the index."""
    out = np.empty(shape, object)
    if is_key(dtype):
        for idx in np.ndindex(*shape):
            out[idx] = leaf(rf_atom(mkatom('key', ('in', name) + tuple(idx))))
        return out
    if is_bool(dtype):
        dlo, dhi, it = 0, 1, True
    elif is_int(dtype):
        info = jnp.iinfo(dtype)
        dlo, dhi, it = int(info.min), int(info.max), True
    else:
        dlo, dhi, it = -T.INF, T.INF, False
    if isint is not None:
        it = isint

    def ev(v, d, idx):
        if callable(v):
            v = v(*idx)
        if v is None:
            return d
        return v

    def fr(v):
        return v if v in (T.INF, -T.INF) else Fraction(v)
    for idx in np.ndindex(*shape):
        l, h = ev(lo, dlo, idx), ev(hi, dhi, idx)
        if l == h:
            out[idx] = const(l)
        else:
            out[idx] = leaf(rf_atom(mkatom('in', (name, idx), fr(l), fr(h), it, pos)))
    return out


# ---------------------------------------------------------------- integer ranges

def _dtype_range(dtype):
    if is_bool(dtype):
        return 0, 1
    info = jnp.iinfo(dtype)
    return int(info.min), int(info.max)


def wrap_rf(rf, dtype):
    lo, hi = _dtype_range(dtype)
    size = hi - lo + 1
    if rf.isconst():
        c = rf.const()
        return const((c - lo) % size + lo)
    l, h = T.rf_interval(rf)
    if l >= lo and h <= hi:
        return leaf(rf)
    # remove inner wraps with a multiple modulus
    if rf.ispoly():
        p = {}
        changed = False
        for m, c in rf.num.items():
            if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
                at = T.ATOMS[m[0][0]]
                if at.kind == 'wrap' and at.args[2] % size == 0:
                    changed = True
                    p = T.p_add(p, T.p_mul(at.args[0].num, {(): c}))
                    continue
            p = T.p_add(p, {m: c})
        if changed:
            return wrap_rf(RF(p, T.P1), dtype)
    return leaf(rf_atom(mkatom('wrap', (rf, lo, size), Fraction(lo), Fraction(hi), True)))


class _D:
    def __init__(self, lo, size):
        self.lo, self.size = lo, size


def _rebuild_wrap(a, S):
    rf, lo, size = a.args
    n = S.rf(rf)
    dt = {(0, 2**8): 'uint8', (0, 2**16): 'uint16', (0, 2**32): 'uint32',
          (-2**7, 2**8): 'int8', (-2**15, 2**16): 'int16', (-2**31, 2**32): 'int32',
          (0, 2): 'bool', (0, 2**64): 'uint64', (-2**63, 2**64): 'int64'}[(lo, size)]
    return fit_node(n, jnp.dtype(dt))


T.REBUILD['wrap'] = _rebuild_wrap


def fit_node(n, dtype):
    """Reduce an exact integer value into the range of an integer dtype."""
    if not is_int(dtype):
        return n
    key = (n.id, dtype)
    r = _fit_memo.get(key)
    if r is None:
        r = _fit_memo[key] = _fit_node(n, dtype)
    return r


_fit_memo = {}


def _fit_node(n, dtype):
    lo, hi = _dtype_range(dtype)
    bad = False
    for rf in T.leaf_set(n):
        l, h = T.tight_interval(rf)
        if not (l >= lo and h <= hi):
            bad = True
            break
    if not bad:
        return n
    return _fit_path(n, dtype, lo, hi, ())


def _fit_path(n, dtype, lo, hi, path):
    if n.cond is None:
        l, h = T.tight_interval(n.rf)
        if l >= lo and h <= hi:
            return n
        l, h = interval_on_path(n.rf, path)
        if l >= lo and h <= hi:
            return n
        return wrap_rf(n.rf, dtype)
    return T.ite_cond(n.cond, _fit_path(n.hi, dtype, lo, hi, path + ((n.cond, True),)),
                      _fit_path(n.lo, dtype, lo, hi, path + ((n.cond, False),)))


def interval_on_path(rf, path):
    """Interval of a polynomial under path constraints on matching bases."""
    l, h = T.rf_interval(rf)
    if not rf.ispoly():
        return l, h
    for b, (bl, ls, bh, hs) in T._path_intervals(path).items():
        base = T.BASES[b]
        if not base.rf.ispoly():
            continue
        # rf = k*base + rest  for the k that cancels base's leading monomial
        m0 = max(base.rf.num)
        if m0 not in rf.num:
            continue
        k = rf.num[m0] / base.rf.num[m0]
        rest = T.p_add(rf.num, base.rf.num, -k)
        rl, rh = T.p_interval(rest)
        bl2, bh2 = (k * bl, k * bh) if k > 0 else (k * bh, k * bl)
        l, h = max(l, rl + bl2), min(h, rh + bh2)
    return l, h


def fit(arr, dtype):
    if not is_int(dtype):
        return arr
    return emap(lambda n: fit_node(n, dtype), arr)


# ---------------------------------------------------------------- indexing

def switch(idx, lo, hi, f):
    """f(k) selected by the integer node idx, which must lie in [lo, hi];
    values outside select the nearest end (callers guard bounds first)."""
    memo = {}

    def g(k):
        if k not in memo:
            memo[k] = f(k)
        return memo[k]

    def onleaf(rf):
        if rf.isconst():
            return g(int(min(max(rf.const(), lo), hi)))
        l, h = T.rf_interval(rf)
        l = lo if l == -T.INF else max(lo, math.ceil(l))
        h = hi if h == T.INF else min(hi, math.floor(h))
        l, h = min(max(l, lo), hi), max(min(h, hi), lo)
        out = g(l)
        for k in range(l + 1, h + 1):
            out = ite(T.cmp_ge(rf_add(rf, rf_const(k), -1)), g(k), out)
        return out

    def rec(n):
        if n.cond is None:
            return onleaf(n.rf)
        return ite(T.mknode(n.cond, TRUE, FALSE), rec(n.hi), rec(n.lo))
    return rec(idx)


def pick(arr, idxs):
    """arr[idxs] for a list of (already in-bounds) index nodes."""
    def rec(prefix, rest):
        if not rest:
            return arr[tuple(prefix)]
        n = arr.shape[len(prefix)]
        i = rest[0]
        if n == 1:
            return rec(prefix + [0], rest[1:])
        return switch(i, 0, n - 1, lambda k: rec(prefix + [k], rest[1:]))
    return rec([], list(idxs))


def in_range(n, lo, hi):
    """node: lo <= n <= hi"""
    return and_(ge(n, const(lo)), le(n, const(hi)))


# ---------------------------------------------------------------- interpreter

class Effect:
    def __init__(self, eqn, name, args, guard, loc):
        self.eqn, self.name, self.args, self.guard, self.loc = eqn, name, args, guard, loc


class Cut:
    """A loop-carried array replaced by unknowns at an iteration boundary."""

    def __init__(self, scan_id, pos, it, unknown, value):
        self.scan_id, self.pos, self.it, self.unknown, self.value = scan_id, pos, it, unknown, value


class Lifter:
    def __init__(self, cut=None, max_unroll=2048, hooks=None):
        self.cut = cut                  # function(eqn, carry aval, index) -> bool
        self.cuts = []
        self.rounding = False
        self.effects = []
        self.guard = TRUE
        self.max_unroll = max_unroll
        self.hooks = hooks or {}
        self.nscan = 0
        self.neqns = 0
        self.prims = {}
        self.draws = []
        self.opaque = []
        self.key_events = []
        self.nrun = 0

    # -- evaluation

    def run(self, closed, args):
        consts = [lift_const(c) for c in closed.consts]
        return self.eval(closed.jaxpr, consts, list(args))

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                return lift_const(np.asarray(v.val, v.aval.dtype) if not hasattr(v.val, 'dtype') else v.val)
            return env[v]

        def write(v, val):
            assert isinstance(val, np.ndarray) and val.dtype == object, v
            if tuple(val.shape) != tuple(v.aval.shape):
                raise Unsupported(f'shape mismatch {val.shape} vs {v.aval}')
            env[v] = val
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.constvars, consts):
            write(v, a)
        for v, a in zip(jaxpr.invars, args):
            write(v, a)
        # liveness: skip equations whose outputs are unused and effect-free
        for e in jaxpr.eqns:
            ins = [read(v) for v in e.invars]
            outs = self.eqn(e, ins)
            for v, o in zip(e.outvars, outs):
                if not isinstance(v, jcore.DropVar):
                    write(v, o)
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, e, ins):
        name = e.primitive.name
        self.neqns += 1
        self.prims[name] = self.prims.get(name, 0) + 1
        h = getattr(self, 'p_' + name.replace('-', '_'), None)
        if h is None and not e.primitive.multiple_results and name in _ELEMENTWISE:
            dt = e.outvars[0].aval.dtype
            return [emap(lambda *x: fn_nodes('prim:' + name, *x, isint=not is_float(dt)), *ins)]
        if h is None and all(0 in v.aval.shape for v in e.outvars) and not F_effects(e):
            return [np.empty(v.aval.shape, object) for v in e.outvars]
        if h is None:
            raise Unsupported(f'primitive {name} at {eqn_loc(e)}')
        out = h(e, *ins)
        if not isinstance(out, (list, tuple)):
            out = [out]
        if not e.primitive.multiple_results or name in ():
            dt = e.outvars[0].aval.dtype
            if name in _ARITH and is_int(dt):
                out = [fit(out[0], dt)]
        return out

    # -- elementwise

    def p_add(self, e, a, b):
        return emap(add, a, b)
    p_add_any = p_add

    def p_sub(self, e, a, b):
        return emap(sub, a, b)

    def p_mul(self, e, a, b):
        return emap(mul, a, b)

    def p_neg(self, e, a):
        return emap(neg, a)

    def p_div(self, e, a, b):
        dt = e.outvars[0].aval.dtype
        if is_int(dt):
            return emap(_idiv, a, b)
        return emap(_fdivide, a, b)

    def p_rem(self, e, a, b):
        dt = e.outvars[0].aval.dtype
        if is_int(dt):
            return emap(lambda x, y: sub(x, mul(y, _idiv(x, y))), a, b)
        return emap(lambda x, y: fn_nodes('frem', x, y), a, b)

    def p_max(self, e, a, b):
        return emap(max_, a, b)

    def p_min(self, e, a, b):
        return emap(min_, a, b)

    def p_abs(self, e, a):
        return emap(lambda x: ite(ge(x, ZERO), x, neg(x)), a)

    def p_sign(self, e, a):
        return emap(lambda x: ite(gt(x, ZERO), ONE, ite(ge(x, ZERO), ZERO, const(-1))), a)

    def p_exp(self, e, a):
        return emap(lambda x: map1('exp', T.rf_exp, x), a)

    def p_expm1(self, e, a):
        return emap(lambda x: sub(map1('exp', T.rf_exp, x), ONE), a)

    def p_log(self, e, a):
        return emap(lambda x: map1('log', T.rf_log, x), a)

    def p_log1p(self, e, a):
        return emap(lambda x: map1('log', T.rf_log, add(ONE, x)), a)

    def p_sqrt(self, e, a):
        return emap(lambda x: map1('sqrt', T.rf_sqrt, x), a)

    def p_rsqrt(self, e, a):
        return emap(lambda x: div(ONE, map1('sqrt', T.rf_sqrt, x)), a)

    def p_square(self, e, a):
        return emap(lambda x: mul(x, x), a)

    def p_integer_pow(self, e, a):
        y = e.params['y']

        def f(x):
            r = ONE
            for _ in range(abs(y)):
                r = mul(r, x)
            return r if y >= 0 else _fdivide(ONE, r)
        return emap(f, a)

    def p_pow(self, e, a, b):
        def f(x, y):
            if T.isconst(y):
                c = T.constval(y)
                if c.denominator == 1 and abs(c) <= 12:
                    r = ONE
                    for _ in range(abs(int(c))):
                        r = mul(r, x)
                    return r if c >= 0 else _fdivide(ONE, r)
                if c == Fraction(1, 2):
                    return map1('sqrt', T.rf_sqrt, x)
            if T.isconst(x) and T.constval(x) == 1:
                return ONE
            return fn_nodes('pow', x, y)
        return emap(f, a, b)

    def _opaque1(self, name, **kw):
        def f(e, a):
            return emap(lambda x: fn_nodes(name, x, **kw), a)
        return f

    def p_floor(self, e, a):
        def f(rf):
            if rf.isconst():
                return const(math.floor(rf.const()))
            if T.rf_isint(rf):
                return leaf(rf)
            return leaf(T.fn('floor', rf, isint=True, **_bounds(rf)))
        return emap(lambda x: map1('floor', f, x), a)

    def p_ceil(self, e, a):
        def f(rf):
            if rf.isconst():
                return const(math.ceil(rf.const()))
            if T.rf_isint(rf):
                return leaf(rf)
            return leaf(T.fn('ceil', rf, isint=True, **_bounds(rf)))
        return emap(lambda x: map1('ceil', f, x), a)

    def p_round(self, e, a):
        mode = str(e.params['rounding_method'])

        def f(rf):
            if rf.isconst():
                c = rf.const()
                if 'EVEN' in mode:
                    return const(round(c))
                return const(math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2)))
            if T.rf_isint(rf):
                return leaf(rf)
            return leaf(T.fn('round', rf, isint=True, **_bounds(rf)))
        return emap(lambda x: map1(('round', mode), f, x), a)

    def p_is_finite(self, e, a):
        return emap(isfinite, a)

    def p_not(self, e, a):
        dt = e.outvars[0].aval.dtype
        if is_bool(dt):
            return emap(lambda x: not_(T.truth(x)), a)
        lo, hi = _dtype_range(dt)
        if lo == 0:
            return emap(lambda x: sub(const(hi), x), a)
        return emap(lambda x: sub(const(-1), x), a)

    def p_and(self, e, a, b):
        dt = e.outvars[0].aval.dtype
        if is_bool(dt):
            return emap(lambda x, y: and_(T.truth(x), y), a, b)
        return emap(lambda x, y: _bitand(x, y, dt), a, b)

    def p_or(self, e, a, b):
        dt = e.outvars[0].aval.dtype
        if is_bool(dt):
            return emap(lambda x, y: or_(T.truth(x), y), a, b)
        # x | y = x + y - (x & y)
        return emap(lambda x, y: sub(add(x, y), _bitand(x, y, dt)), a, b)

    def p_xor(self, e, a, b):
        dt = e.outvars[0].aval.dtype
        if is_bool(dt):
            return emap(lambda x, y: xor_(T.truth(x), y), a, b)
        return emap(lambda x, y: sub(add(x, y), mul(const(2), _bitand(x, y, dt))), a, b)

    def p_shift_left(self, e, a, b):
        def f(x, y):
            return mul(x, map1('pow2', lambda r: const(2 ** int(r.const())) if r.isconst() else leaf(T.fn('pow2', r, lo=Fraction(1), isint=True)), y))
        return emap(f, a, b)

    def _shr(self, e, a, b):
        def f(x, y):
            def g(ry):
                if not ry.isconst():
                    raise Unsupported(f'data-dependent shift at {eqn_loc(e)}')
                return T.fdiv(x, 2 ** int(ry.const()))
            out = None
            if y.cond is None:
                return g(y.rf)
            return map1(('shr', x.id), g, y)
        return emap(f, a, b)
    p_shift_right_arithmetic = _shr

    def p_shift_right_logical(self, e, a, b):
        lo, _ = _dtype_range(e.outvars[0].aval.dtype)
        if lo < 0:
            for x in a.ravel():
                for rf in T.leaf_set(x):
                    if T.rf_interval(rf)[0] < 0:
                        raise Unsupported(f'logical shift of a possibly negative value at {eqn_loc(e)}')
        return self._shr(e, a, b)

    def p_eq(self, e, a, b):
        return emap(compare_ext('eq'), a, b)

    def p_ne(self, e, a, b):
        return emap(compare_ext('ne'), a, b)

    def p_lt(self, e, a, b):
        return emap(compare_ext('lt'), a, b)

    def p_le(self, e, a, b):
        return emap(compare_ext('le'), a, b)

    def p_gt(self, e, a, b):
        return emap(compare_ext('gt'), a, b)

    def p_ge(self, e, a, b):
        return emap(compare_ext('ge'), a, b)

    def p_select_n(self, e, which, *cases):
        if len(cases) == 2:
            return emap(lambda w, f, t: ite(T.truth(w) if w.cond is not None else w, t, f), which, *cases)
        return emap(lambda w, *cs: switch(w, 0, len(cs) - 1, lambda k: cs[k]), which, *cases)

    def p_clamp(self, e, lo, x, hi):
        return emap(lambda l, v, h: min_(max_(v, l), h), lo, x, hi)

    def p_convert_element_type(self, e, a):
        src, dst = e.invars[0].aval.dtype, e.params['new_dtype']
        if is_bool(dst):
            if is_bool(src):
                return a
            return emap(lambda x: ne(x, ZERO), a)
        if is_int(dst):
            if is_float(src):
                def f(rf):
                    if rf.isconst():
                        return const(math.trunc(rf.const()))
                    if T.rf_isint(rf):
                        return leaf(rf)
                    b = _bounds(rf)
                    return leaf(T.fn('trunc', rf, isint=True, **b))
                return fit(emap(lambda x: map1('trunc', f, x), a), dst)
            return fit(a, dst)
        if self.rounding and is_float(src) and is_float(dst) and jnp.finfo(dst).nmant < jnp.finfo(src).nmant:
            # some value of the narrower type
            nm = f'round:{jnp.dtype(dst).name}'
            return emap(lambda x: map1(nm, lambda rf: leaf(rf) if rf.isconst() else leaf(T.fn(nm, rf)), x), a)
        return a

    def p_bitcast_convert_type(self, e, a):
        src, dst = e.invars[0].aval.dtype, e.params['new_dtype']
        if src == dst:
            return a
        if is_bool(src) and is_int(dst) or (is_bool(dst) and is_int(src) and np.dtype(src).itemsize == 1):
            return a
        if is_int(src) and is_int(dst) and np.dtype(src).itemsize == np.dtype(dst).itemsize:
            return fit(a, dst)
        return emap(lambda x: fn_nodes(f'bitcast:{src}:{dst}', x), a)

    def p_reduce_precision(self, e, a):
        return a

    def p_stop_gradient(self, e, a):
        return a

    def p_copy(self, e, a):
        return a
    p_copy_p = p_copy
    p_optimization_barrier = None

    def p_device_put(self, e, *a):
        return list(a)

    def p_nextafter(self, e, a, b):
        return emap(lambda x, y: fn_nodes('nextafter', x, y), a, b)

    # -- shape

    def p_broadcast_in_dim(self, e, a, *dyn):
        shape, bd = e.params['shape'], e.params['broadcast_dimensions']
        tmp = [1] * len(shape)
        for i, d in enumerate(bd):
            tmp[d] = a.shape[i]
        return np.broadcast_to(a.reshape(tmp), shape).copy()

    def p_reshape(self, e, a, *dyn):
        assert e.params['dimensions'] is None
        return a.reshape(e.params['new_sizes'])

    def p_transpose(self, e, a):
        return a.transpose(e.params['permutation'])

    def p_squeeze(self, e, a):
        return a.reshape(e.outvars[0].aval.shape)

    def p_expand_dims(self, e, a):
        return a.reshape(e.outvars[0].aval.shape)

    def p_slice(self, e, a):
        p = e.params
        st = p['strides'] or (1,) * a.ndim
        return a[tuple(slice(s, l, t) for s, l, t in zip(p['start_indices'], p['limit_indices'], st))]

    def p_concatenate(self, e, *arrs):
        return np.concatenate(arrs, axis=e.params['dimension'])

    def p_pad(self, e, a, v):
        cfg = e.params['padding_config']
        out = full(e.outvars[0].aval.shape, v[()])
        for idx in np.ndindex(*a.shape):
            o = tuple(lo + i * (it + 1) for i, (lo, hi, it) in zip(idx, cfg))
            if all(0 <= k < s for k, s in zip(o, out.shape)):
                out[o] = a[idx]
        return out

    def p_iota(self, e, *dyn):
        shape, d = e.params['shape'], e.params['dimension']
        dt = e.params['dtype']
        at = np.arange(shape[d])
        if is_int(dt):
            at = at.astype(dt)      # wraps
        out = np.empty(shape, object)
        for idx in np.ndindex(*shape):
            out[idx] = const(int(at[idx[d]]))
        return out

    def p_rev(self, e, a):
        return np.flip(a, e.params['dimensions'])

    def p_split(self, e, a):
        return np.split(a, np.cumsum(e.params['sizes'])[:-1], axis=e.params['axis'])

    # -- indexing

    def p_gather(self, e, op, ind):
        p = e.params
        dn, sizes = p['dimension_numbers'], p['slice_sizes']
        mode = p['mode'].name if hasattr(p['mode'], 'name') else str(p['mode'])
        shape = e.outvars[0].aval.shape
        obd = tuple(getattr(dn, 'operand_batching_dims', ()) or ())
        sbd = tuple(getattr(dn, 'start_indices_batching_dims', ()) or ())
        fill = self._fill_value(e, p.get('fill_value'), e.outvars[0].aval.dtype)
        out = np.empty(shape, object)
        batch_dims = [d for d in range(len(shape)) if d not in dn.offset_dims]
        off_op = [d for d in range(op.ndim) if d not in dn.collapsed_slice_dims and d not in obd]
        cache = {}
        for oi in np.ndindex(*shape):
            b = tuple(oi[d] for d in batch_dims)
            off = [0] * op.ndim
            for d, od in zip(off_op, dn.offset_dims):
                off[d] = oi[od]
            for d, sd in zip(obd, sbd):
                off[d] = b[sd]
            key = (b, tuple(off))
            starts, ok = cache.get(b, (None, None))
            if starts is None:
                starts, ok = {}, TRUE
                for k, d in enumerate(dn.start_index_map):
                    s = ind[b + (k,)]
                    mx = op.shape[d] - sizes[d]
                    if mode == 'CLIP':
                        s = min_(max_(s, ZERO), const(mx))
                    else:
                        inb = in_range(s, 0, mx)
                        if inb is not TRUE:
                            ok = and_(ok, inb)
                    starts[d] = s
                cache[b] = (starts, ok)
            if ok is FALSE:
                out[oi] = fill if mode != 'PROMISE_IN_BOUNDS' else leaf(rf_atom(mkatom('oob', (eqn_loc(e),))))
                continue
            dims = sorted(starts)

            def rec(chosen, rest):
                if not rest:
                    full_i = list(off)
                    for d, k in chosen.items():
                        full_i[d] += k
                    return op[tuple(full_i)]
                d = rest[0]
                mx = op.shape[d] - sizes[d]
                return switch(starts[d], 0, mx, lambda k: rec({**chosen, d: k}, rest[1:]))
            v = rec({}, dims)
            if ok is not TRUE and mode != 'PROMISE_IN_BOUNDS':
                v = ite(ok, v, fill)
            out[oi] = v
        return out

    def _fill_value(self, e, fv, dtype):
        if fv is not None:
            return lift_const(np.asarray(fv, dtype))[()]
        if is_float(dtype):
            return NAN
        if is_bool(dtype):
            return TRUE
        lo, hi = _dtype_range(dtype)
        return const(lo if lo < 0 else hi)

    def _scatter(self, e, op, ind, upd, combine):
        p = e.params
        dn = p['dimension_numbers']
        mode = p['mode'].name if hasattr(p['mode'], 'name') else str(p['mode'])
        obd = tuple(getattr(dn, 'operand_batching_dims', ()) or ())
        sbd = tuple(getattr(dn, 'scatter_indices_batching_dims', ()) or ())
        win_op = [d for d in range(op.ndim) if d not in dn.inserted_window_dims and d not in obd]
        scat_dims = [d for d in range(upd.ndim) if d not in dn.update_window_dims]
        wsize = {}
        for d, ud in zip(win_op, dn.update_window_dims):
            wsize[d] = upd.shape[ud]
        out = op.copy()
        contrib = {}
        for ui in np.ndindex(*upd.shape):
            b = tuple(ui[d] for d in scat_dims)
            off = [0] * op.ndim
            for d, ud in zip(win_op, dn.update_window_dims):
                off[d] = ui[ud]
            for d, sd in zip(obd, sbd):
                off[d] = b[sd]
            starts, ok = {}, TRUE
            for k, d in enumerate(dn.scatter_dims_to_operand_dims):
                s = ind[b + (k,)]
                mx = op.shape[d] - wsize.get(d, 1)
                if mode == 'CLIP':
                    s = min_(max_(s, ZERO), const(mx))
                else:
                    ok = and_(ok, in_range(s, 0, mx))
                starts[d] = s
            if ok is FALSE:
                continue
            # candidate targets
            ranges = []
            for d in range(op.ndim):
                if d in starts:
                    mx = op.shape[d] - wsize.get(d, 1)
                    ks = _possible(starts[d], 0, mx)
                    ranges.append([(k, and_(TRUE, eq(starts[d], const(k)))) for k in ks])
                else:
                    ranges.append([(0, TRUE)])
            for combo in itertools.product(*ranges):
                c = ok
                tgt = []
                for d, (k, cc) in enumerate(combo):
                    c = and_(c, cc)
                    tgt.append(off[d] + k)
                if c is FALSE:
                    continue
                contrib.setdefault(tuple(tgt), []).append((c, upd[ui]))
        for tgt, lst in contrib.items():
            out[tgt] = combine(op[tgt], lst)
        return out

    def p_scatter(self, e, op, ind, upd):
        def comb(v, lst):
            for c, u in lst:
                v = ite(c, u, v)
            return v
        return self._scatter(e, op, ind, upd, comb)

    def p_scatter_add(self, e, op, ind, upd):
        def comb(v, lst):
            return add(v, T.sum_nodes([ite(c, u, ZERO) for c, u in lst]))
        return self._scatter(e, op, ind, upd, comb)

    def p_scatter_mul(self, e, op, ind, upd):
        def comb(v, lst):
            for c, u in lst:
                v = mul(v, ite(c, u, ONE))
            return v
        return self._scatter(e, op, ind, upd, comb)

    def p_scatter_min(self, e, op, ind, upd):
        def comb(v, lst):
            for c, u in lst:
                v = ite(c, min_(v, u), v)
            return v
        return self._scatter(e, op, ind, upd, comb)

    def p_scatter_max(self, e, op, ind, upd):
        def comb(v, lst):
            for c, u in lst:
                v = ite(c, max_(v, u), v)
            return v
        return self._scatter(e, op, ind, upd, comb)

    def p_dynamic_slice(self, e, op, *starts):
        sizes = e.params['slice_sizes']
        starts = [min_(max_(s[()], ZERO), const(op.shape[d] - sizes[d])) for d, s in enumerate(starts)]
        out = np.empty(sizes, object)
        for oi in np.ndindex(*sizes):
            def rec(chosen, d):
                if d == op.ndim:
                    return op[tuple(c + o for c, o in zip(chosen, oi))]
                return switch(starts[d], 0, op.shape[d] - sizes[d], lambda k: rec(chosen + [k], d + 1))
            out[oi] = rec([], 0)
        return out

    def p_dynamic_update_slice(self, e, op, upd, *starts):
        starts = [min_(max_(s[()], ZERO), const(op.shape[d] - upd.shape[d])) for d, s in enumerate(starts)]
        out = np.empty(op.shape, object)
        for oi in np.ndindex(*op.shape):
            def rec(chosen, d):
                if d == op.ndim:
                    rel = tuple(o - c for o, c in zip(oi, chosen))
                    if all(0 <= r < s for r, s in zip(rel, upd.shape)):
                        return upd[rel]
                    return op[oi]
                return switch(starts[d], 0, op.shape[d] - upd.shape[d], lambda k: rec(chosen + [k], d + 1))
            out[oi] = rec([], 0)
        return out

    # -- reductions

    def _reduce(self, a, axes, f):
        keep = [d for d in range(a.ndim) if d not in axes]
        t = a.transpose(keep + list(axes)).reshape([a.shape[d] for d in keep] + [math.prod(a.shape[d] for d in axes)])
        out = np.empty(t.shape[:-1], object)
        for idx in np.ndindex(*out.shape):
            out[idx] = f(list(t[idx]))
        return out

    def p_reduce_sum(self, e, a):
        return self._reduce(a, e.params['axes'], T.sum_nodes)

    def p_reduce_prod(self, e, a):
        def f(xs):
            r = ONE
            for x in xs:
                r = mul(r, x)
            return r
        return self._reduce(a, e.params['axes'], f)

    def p_reduce_or(self, e, a):
        def f(xs):
            r = FALSE
            for x in xs:
                r = or_(T.truth(r), T.truth(x))
            return r
        return self._reduce(a, e.params['axes'], f)

    def p_reduce_and(self, e, a):
        def f(xs):
            r = TRUE
            for x in xs:
                r = and_(T.truth(r), T.truth(x))
            return r
        return self._reduce(a, e.params['axes'], f)

    def p_reduce_max(self, e, a):
        return self._reduce(a, e.params['axes'], lambda xs: reduce_ext('max', xs))

    def p_reduce_min(self, e, a):
        return self._reduce(a, e.params['axes'], lambda xs: reduce_ext('min', xs))

    def p_argmax(self, e, a):
        return self._reduce(a, e.params['axes'], lambda xs: _arg_ext(xs, gt))

    def p_argmin(self, e, a):
        return self._reduce(a, e.params['axes'], lambda xs: _arg_ext(xs, lt))

    def _cum(self, e, a, f):
        ax, rev = e.params['axis'], e.params['reverse']
        t = np.moveaxis(a, ax, -1)
        out = np.empty(t.shape, object)
        for idx in np.ndindex(*t.shape[:-1]):
            row = list(t[idx])
            if rev:
                row = row[::-1]
            res = [f(row[:k + 1]) for k in range(len(row))]
            if rev:
                res = res[::-1]
            for k, r in enumerate(res):
                out[idx + (k,)] = r
        return np.moveaxis(out, -1, ax)

    def p_cumsum(self, e, a):
        return self._cum(e, a, T.sum_nodes)

    def p_cummax(self, e, a):
        return self._cum(e, a, lambda xs: reduce_ext('max', xs))

    def p_cummin(self, e, a):
        return self._cum(e, a, lambda xs: reduce_ext('min', xs))

    def p_cumprod(self, e, a):
        def f(xs):
            r = ONE
            for x in xs:
                r = mul(r, x)
            return r
        return self._cum(e, a, f)

    def p_dot_general(self, e, a, b):
        (ca, cb), (ba, bb) = e.params['dimension_numbers']
        fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
        fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
        ta = a.transpose(list(ba) + fa + list(ca))
        tb = b.transpose(list(bb) + fb + list(cb))
        nb, nc = len(ba), len(ca)
        bs = ta.shape[:nb]
        sa, sb = ta.shape[nb:ta.ndim - nc], tb.shape[nb:tb.ndim - nc]
        out = np.empty(bs + sa + sb, object)
        cs = ta.shape[ta.ndim - nc:]
        for i in np.ndindex(*bs):
            for j in np.ndindex(*sa):
                for k in np.ndindex(*sb):
                    out[i + j + k] = T.sum_nodes([mul(ta[i + j + c], tb[i + k + c]) for c in np.ndindex(*cs)])
        return out

    def p_sort(self, e, *ops):
        d, nk = e.params['dimension'], e.params['num_keys']
        ts = [np.moveaxis(o, d, -1) for o in ops]
        outs = [np.empty(t.shape, object) for t in ts]
        for idx in np.ndindex(*ts[0].shape[:-1]):
            rows = [tuple(t[idx]) for t in ts]
            n = len(rows[0])
            if len(ops) == 1:
                res = [sorted_values(rows[0], outdtype=e.outvars[0].aval.dtype)]
            else:
                if all(T.isconst(x) for r in rows[:nk] for x in r):
                    order = sorted(range(n), key=lambda k: tuple(T.constval(r[k]) for r in rows[:nk]))
                    res = [[r[k] for k in order] for r in rows]
                else:
                    it = [is_int(v.aval.dtype) for v in e.outvars]
                    res = [[fn_nodes_raw('sortn', tuple(rows), q, k, isint=it[q]) for k in range(n)] for q in range(len(ops))]
            for o, r in zip(outs, res):
                for k in range(n):
                    o[idx + (k,)] = r[k]
        return [np.moveaxis(o, -1, d) for o in outs]

    # -- control flow

    def p_pjit(self, e, *ins):
        name = e.params.get('name', '')
        cj = e.params['jaxpr']
        if name.startswith('rng:'):
            return self.rng(e, name, ins)
        if name.startswith('lib:'):
            return self.lib(e, name, ins)
        if name in ('floor_divide', 'remainder') and is_int(e.outvars[0].aval.dtype) and len(ins) == 2:
            try:
                if name == 'floor_divide':
                    return [fit(emap(_floordiv, *ins), e.outvars[0].aval.dtype)]
                return [fit(emap(_floormod, *ins), e.outvars[0].aval.dtype)]
            except Unsupported:
                pass
        return self.run(cj, ins)
    p_closed_call = None
    p_core_call = None

    def p_custom_jvp_call(self, e, *ins):
        return self.run(e.params['call_jaxpr'], ins)

    def p_custom_vjp_call_jaxpr(self, e, *ins):
        return self.run(e.params['fun_jaxpr'], ins)

    def p_remat(self, e, *ins):
        return self.eval(e.params['jaxpr'], [], list(ins))
    p_checkpoint = p_remat

    def p_cond(self, e, idx, *ins):
        brs = e.params['branches']
        i = idx[()]
        if T.isconst(i):
            k = int(min(max(T.constval(i), 0), len(brs) - 1))
            return self.run(brs[k], ins)
        g = self.guard
        outs = []
        for k, b in enumerate(brs):
            if len(brs) == 2:
                ck = T.truth(i) if k == 1 else not_(T.truth(i))
            else:
                ck = eq(i, const(k))
            self.guard = and_(g, ck)
            outs.append(self.run(b, ins))
        self.guard = g
        res = []
        for vals in zip(*outs):
            res.append(emap(lambda *vs: switch(i, 0, len(vs) - 1, lambda k: vs[k]), *vals))
        return res

    def p_scan(self, e, *ins):
        p = e.params
        nc, nk, L, rev = p['num_consts'], p['num_carry'], p['length'], p['reverse']
        body = p['jaxpr']
        consts, carry, xs = list(ins[:nc]), list(ins[nc:nc + nk]), list(ins[nc + nk:])
        if L > self.max_unroll:
            raise Unsupported(f'scan of length {L} at {eqn_loc(e)}')
        ys = []
        cut_at = []
        if self.cut is not None and nk and L > 1:
            for k in range(nk):
                if self.cut(e, e.invars[nc + k].aval, k):
                    cut_at.append(k)
        sid = self.nscan
        self.nscan += bool(cut_at)
        order = range(L - 1, -1, -1) if rev else range(L)
        for it, t in enumerate(order):
            outs = self.run(body, consts + carry + [x[t] if x.ndim > 1 else _as_arr(x[t]) for x in xs])
            carry = [np.asarray(o) for o in outs[:nk]]
            ys.append(outs[nk:])
            if it < L - 1 or True:
                for k in cut_at:
                    av = e.invars[nc + k].aval
                    unk = make_input(f'cut{sid}.{cut_at.index(k)}.{it}', av.shape, av.dtype)
                    self.cuts.append(Cut(sid, k, it, unk, carry[k]))
                    carry[k] = unk
        if rev:
            ys = ys[::-1]
        stacked = []
        for q in range(len(e.outvars) - nk):
            av = e.outvars[nk + q].aval
            arr = np.empty(av.shape, object)
            for t in range(L):
                arr[t] = ys[t][q] if ys[t][q].ndim else ys[t][q][()]
            stacked.append(arr)
        return carry + stacked

    def p_while(self, e, *ins):
        p = e.params
        cn, bn = p['cond_nconsts'], p['body_nconsts']
        cc, bc, carry = list(ins[:cn]), list(ins[cn:cn + bn]), list(ins[cn + bn:])
        for _ in range(self.max_unroll):
            c = self.run(p['cond_jaxpr'], cc + carry)[0][()]
            if not T.isconst(c):
                raise Unsupported(f'while loop with data-dependent trip count at {eqn_loc(e)}')
            if T.constval(c) == 0:
                return carry
            carry = self.run(p['body_jaxpr'], bc + carry)
        raise Unsupported(f'long while loop at {eqn_loc(e)}')

    def p_debug_callback(self, e, *ins):
        cb = e.params['callback']
        self.effects.append(Effect(e, callback_name(cb), ins, self.guard, eqn_loc(e)))
        return []

    def p_pure_callback(self, e, *ins):
        name = callback_name(e.params['callback'])
        outs = []
        for q, v in enumerate(e.outvars):
            shape = v.aval.shape
            if e.params.get('vectorized'):
                bs = [np.broadcast_to(a, shape) for a in ins]
                o = np.empty(shape, object)
                for idx in np.ndindex(*shape):
                    o[idx] = fn_nodes('callback:' + name, q, *[b[idx] for b in bs])
            else:
                o = np.empty(shape, object)
                for idx in np.ndindex(*shape):
                    o[idx] = fn_nodes_raw('callback:' + name, q, idx, tuple(tuple(a.ravel()) for a in ins))
            outs.append(o)
        return outs

    # -- randomness

    def _key_rf(self, n):
        if n.cond is not None:
            raise Unsupported('data-dependent random key')
        return n.rf

    def use_key(self, n, kind, e, data=None):
        """Record the consumption of one key by one executed equation."""
        self.key_events.append((leaf(self._key_rf(n)), kind, self.neqns, self.guard, eqn_loc(e), data))

    def p_random_seed(self, e, a):
        def f(n):
            return leaf(rf_atom(mkatom('key', ('seed', n))))
        return emap(f, a)

    def p_random_split(self, e, k):
        shape = e.params['shape']
        out = np.empty(k.shape + tuple(shape), object)
        tot = int(np.prod(shape)) if shape else 1
        for idx in np.ndindex(*k.shape):
            par = self._key_rf(k[idx])
            self.use_key(k[idx], 'split', e)
            for q, j in enumerate(np.ndindex(*shape)):
                out[idx + j] = leaf(rf_atom(mkatom('key', ('split', par, tot, q))))
        return out

    def p_random_fold_in(self, e, k, d):
        def f(a, b):
            self.use_key(a, 'fold', e, b)
            return leaf(rf_atom(mkatom('key', ('fold', self._key_rf(a), b))))
        return emap(f, k, d)

    def p_random_wrap(self, e, a):
        t = a.reshape(e.outvars[0].aval.shape + (-1,))
        out = np.empty(e.outvars[0].aval.shape, object)
        for idx in np.ndindex(*out.shape):
            els = list(t[idx])
            at = None
            if len(els) and els[0].cond is None:
                ats = [T.ATOMS[next(iter(T.rf_atoms(x.rf)))] if x.cond is None and len(T.rf_atoms(x.rf)) == 1 else None for x in els]
                if all(x is not None and x.kind == 'keybits' and x.args[0] == ats[0].args[0] and x.args[1] == i for i, x in enumerate(ats)):
                    at = leaf(ats[0].args[0])
            out[idx] = at if at is not None else leaf(rf_atom(mkatom('key', ('wrap', tuple(els)))))
        return out

    def p_random_unwrap(self, e, k):
        shape = e.outvars[0].aval.shape
        n = shape[-1]
        out = np.empty(shape, object)
        for idx in np.ndindex(*k.shape):
            for i in range(n):
                out[idx + (i,)] = leaf(rf_atom(mkatom('keybits', (self._key_rf(k[idx]), i), Fraction(0), Fraction(2**32 - 1), True)))
        return out

    def p_random_bits(self, e, k):
        shape = e.params['shape']
        bw = e.params['bit_width']
        out = np.empty(k.shape + tuple(shape), object)
        for idx in np.ndindex(*k.shape):
            kr = self._key_rf(k[idx])
            self.use_key(k[idx], 'draw', e)
            for j in np.ndindex(*shape):
                a = mkatom('draw', ('bits', kr, j), Fraction(0), Fraction(2**bw - 1), True)
                self.draws.append((a, eqn_loc(e)))
                out[idx + j] = leaf(rf_atom(a))
        return out

    def rng(self, e, name, ins):
        """Library samplers: name = 'rng:<fn>:<sample shape>:<arg shapes>'."""
        _, fname, meta = name.split(':', 2)
        meta = eval(meta, {})
        shape, argshapes = meta['shape'], meta['args']
        key = ins[0]
        B = key.shape
        oshape = e.outvars[0].aval.shape
        out = np.empty(oshape, object)
        dt = e.outvars[0].aval.dtype
        if oshape != B + tuple(shape):
            if B != () or oshape[len(oshape) - len(shape):] != tuple(shape):
                raise Unsupported(f'{name}: output shape {oshape} does not extend key shape {B} at {eqn_loc(e)}')
            # batched over the arguments only: all the batch shares the draw
            B = oshape[:len(oshape) - len(shape)]
        args = [align_batch(a, s, B) for a, s in zip(ins[1:], argshapes)]
        for b in np.ndindex(*key.shape):
            self.use_key(key[b], 'draw', e)
        for b in np.ndindex(*B):
            kr = self._key_rf(key[b] if key.shape else key[()])
            av = [np.broadcast_to(a[b], shape) if True else a for a in args]
            for j in np.ndindex(*shape):
                xs = [a[j] for a in av]
                if fname == 'uniform':
                    lo, hi = (xs + [ZERO, ONE][len(xs):])
                    a = mkatom('draw', ('uniform', kr, j), Fraction(0), Fraction(1))
                    self.draws.append((a, eqn_loc(e)))
                    out[b + j] = add(lo, mul(sub(hi, lo), leaf(rf_atom(a))))
                elif fname == 'normal':
                    a = mkatom('draw', ('normal', kr, j))
                    self.draws.append((a, eqn_loc(e)))
                    out[b + j] = leaf(rf_atom(a))
                elif fname == 'randint':
                    lo, hi = xs
                    out[b + j] = randint_node(kr, j, lo, hi, self, eqn_loc(e))
                else:
                    out[b + j] = draw_node(fname, kr, j, tuple(xs), self, eqn_loc(e), isint=is_int(dt))
        return [out]

    def lib(self, e, name, ins):
        _, fname, meta = name.split(':', 2)
        meta = eval(meta, {})
        if fname == 'searchsorted':
            a, v = ins
            sa, sv = meta['args']
            if sa[0] == 0:
                return [np.full(e.outvars[0].aval.shape, ZERO, object)]
            B = tuple(e.outvars[0].aval.shape[:len(e.outvars[0].aval.shape) - len(sv)])
            a, v = align_batch(a, sa, B), align_batch(v, sv, B)
            out = np.empty(e.outvars[0].aval.shape, object)
            n = sa[0]
            for b in np.ndindex(*B):
                row = tuple(a[b])
                for j in np.ndindex(*sv):
                    out[b + j] = searchsorted_node(row, v[b][j] if sv else v[b], meta['side'])
            return [out]
        B = _common_batch(ins, meta['args'])
        outs = []
        als = [align_batch(a, s, B) for a, s in zip(ins, meta['args'])]
        for q, v in enumerate(e.outvars):
            shape = v.aval.shape
            if shape[:len(B)] != B:
                raise Unsupported(f'{name}: batched output at {eqn_loc(e)}')
            o = np.empty(shape, object)
            for b in np.ndindex(*B):
                args = tuple(tuple(np.asarray(a[b], dtype=object).ravel()) if isinstance(a[b], np.ndarray) else (a[b],) for a in als)
                for j in np.ndindex(*shape[len(B):]):
                    h = LIBFN.get(fname)
                    if h is not None:
                        o[b + j] = h(meta, q, j, args, v.aval)
                    else:
                        o[b + j] = fn_nodes_raw('lib:' + fname, repr(sorted(meta.get('static', {}).items())), q, j, args, isint=is_int(v.aval.dtype))
            outs.append(o)
        return outs


def _unique_sized(meta, q, j, args, aval):
    """Sorted distinct values, padded with the fill value (or the minimum)."""
    size, row = meta['size'], list(args[0])
    fill = args[1][0] if len(args) > 1 else None
    k = j[0]

    def rec(xs, f):
        cs = [x.cond for x in xs + ([f] if f is not None else []) if x.cond is not None]
        if cs:
            c = min(cs)

            def br(val):
                return rec([T.cofactor(x, c, val) for x in xs], None if f is None else T.cofactor(f, c, val))
            return T.ite_cond(c, br(True), br(False))
        if all(T.isconst(x) for x in xs):
            v = sorted({T.constval(x) for x in xs})
            if k < len(v):
                return const(v[k])
            return f if f is not None else (const(v[0]) if v else ZERO)
        return fn_nodes_raw('lib:unique', size, k, tuple(sorted(xs, key=lambda n: n.id)), f, isint=all(T.rf_isint(x.rf) for x in xs))
    return rec(row, fill)


def _strip_scale(xs):
    """Divide plain values by the positive factor common to all of them."""
    if any(x.cond is not None for x in xs):
        return xs, T.RF1
    g = None
    for x in xs:
        if not x.rf.ispoly():
            return xs, T.RF1
        if x.rf.num:
            cm = T._common_mono(x.rf.num)
            g = cm if g is None else {a: min(k, cm[a]) for a, k in g.items() if a in cm}
    g = {a: k for a, k in (g or {}).items() if T.ATOMS[a].pos}
    if not g:
        return xs, T.RF1
    return ([leaf(RF({T._mono_div(m, g): v for m, v in x.rf.num.items()}, T.P1)) for x in xs],
            RF({tuple(sorted(g.items())): Fraction(1)}, T.P1))


def _lstsq(meta, q, j, args, aval):
    """Least squares: the residuals do not see the scale of the regressors and
    are homogeneous of degree 2 in the response; so are the fitted values, of
    degree 1."""
    (m, n), st = meta['args'][0], repr(sorted(meta.get('static', {}).items()))
    A, b = args
    f, cols = T.RF1, [T.RF1] * n
    if q in (0, 1, 2) and len(A) == m * n and len(b) == m:
        A = list(A)
        for k in range(n):
            A[k::n], cols[k] = _strip_scale(A[k::n])
        b, f = _strip_scale(list(b))
        A, b = tuple(A), tuple(b)
    if q == 2:
        return fn_nodes_raw('lib:lstsq', st, q, j, (A, ()), isint=True, lo=0, hi=min(m, n))
    v = fn_nodes_raw('lib:lstsq', st, q, j, (A, b), **(dict(lo=0) if q == 1 else {}))
    if q == 0 and len(j) == 1:
        return T.div(mul(v, leaf(f)), leaf(cols[j[0]]))
    return mul(v, leaf(T.rf_mul(f, f))) if q == 1 else v


LIBFN = dict(unique=_unique_sized, lstsq=_lstsq)


def _as_arr(x):
    if isinstance(x, np.ndarray):
        return x
    return scalar(x)


def _common_batch(ins, shapes):
    B = ()
    for a, s in zip(ins, shapes):
        n = a.ndim - len(s)
        if n > len(B):
            B = tuple(a.shape[:n])
    return B


def align_batch(a, s, B):
    """Broadcast an argument of unbatched shape s to batch shape B (leading)."""
    n = a.ndim - len(s)
    pre = a.shape[:n]
    assert a.shape[n:] == tuple(s), (a.shape, s)
    if n == len(B):
        assert pre == tuple(B)
        return a
    if n == 0:
        return np.broadcast_to(a, tuple(B) + tuple(s))
    # match the batch prefix to a subsequence of B, uniquely by size
    pos = [c for c in itertools.combinations(range(len(B)), n) if tuple(B[i] for i in c) == pre]
    if len(pos) != 1:
        raise Unsupported('ambiguous batch dimensions')
    sh = [1] * len(B)
    for i, d in zip(pos[0], pre):
        sh[i] = d
    return np.broadcast_to(a.reshape(tuple(sh) + tuple(s)), tuple(B) + tuple(s))


def _fdivide(x, y):
    if T.isconst(y) and T.constval(y) == 0:
        if T.isconst(x) and T.constval(x) == 0:
            return NAN
        return fn_nodes('divzero', x)
    return apply2('/', _rf_div0, x, y)


def _rf_div0(a, b):
    if not b.num:
        if not a.num:
            return NAN
        return T.fn('divzero', a)
    if b.ispoly() and len(b.num) == 1:
        (m, c), = b.num.items()
        if len(m) == 1 and T.ATOMS[m[0][0]].kind == 'infinity':
            return T.RF0
    return T.rf_div(a, b)


def _isfinite_rf(rf):
    ats = T.rf_atoms(rf)
    if any(T.ATOMS[x].kind in ('infinity', 'nan', 'divzero', 'neginf') or
           (T.ATOMS[x].kind == 'fn' and T.ATOMS[x].args[0] == 'divzero') for x in ats):
        return FALSE
    if rf.isconst() or T.rf_isint(rf):
        return TRUE
    return leaf(T.fn('isfinite', rf, lo=Fraction(0), hi=Fraction(1), isint=True))


def isfinite(x):
    return T.truth(map1('isfinite', _isfinite_rf, x))


_MINUS_INFTY = neg(INFTY)


def _maybe_infinite(x):
    """a value that is not a polynomial of finite quantities"""
    return any(not r.ispoly() or isfinite(leaf(r)) is FALSE for r in T.leaf_set(x)) and x is not INFTY and x is not _MINUS_INFTY


def compare_ext(op):
    """comparison that tells infinite values from finite ones if one side is
    an infinite constant and the other may be infinite"""
    f = {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[op]
    flip = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}

    def side(op, x, up):
        # x op (inf if up else -inf)
        below = or_(isfinite(x), lt(x, ZERO) if up else gt(x, ZERO))
        if op == 'eq':
            return not_(below)
        if op == 'ne':
            return below
        if (op == 'lt') == up and op in ('lt', 'gt'):
            return below
        if op in ('lt', 'gt'):
            return FALSE
        return TRUE if (op == 'le') == up else not_(below)

    def g(a, b):
        for x, y, o in ((a, b, op), (b, a, flip[op])):
            if (y is INFTY or y is _MINUS_INFTY) and _maybe_infinite(x):
                return side(o, x, y is INFTY)
        return f(a, b)
    return g


def _nonneg(n):
    return all(T.rf_interval(r)[0] >= 0 for r in T.leaf_set(n))


def _idiv(x, y):
    """integer division truncating towards zero"""
    if T.isconst(y) and T.constval(y) > 0:
        c = int(T.constval(y))
        if _nonneg(x):
            return T.fdiv(x, c)
        return ite(ge(x, ZERO), T.fdiv(x, c), neg(T.fdiv(neg(x), c)))
    if T.isconst(y) and T.constval(y) < 0:
        return neg(_idiv(x, neg(y)))
    return fn_nodes('idiv', x, y, isint=True)


def _floordiv(x, y):
    if T.isconst(y) and T.constval(y) > 0:
        return T.fdiv(x, int(T.constval(y)))
    if not T.isconst(y):
        lf = T.leaf_set(y)
        if all(r.isconst() and r.const() > 0 for r in lf):
            return map1(('floordiv', x.id), lambda r: T.fdiv(x, int(r.const())), y)
        return fn_nodes('floordiv', x, y, isint=True)
    raise Unsupported('floor_divide')


def _floormod(x, y):
    return sub(x, mul(y, _floordiv(x, y)))


def _bitand(x, y, dtype):
    if T.isconst(x) and not T.isconst(y):
        x, y = y, x
    if x is y:
        return x
    if y.cond is not None and all(r.isconst() for r in T.leaf_set(y)):
        return map1(('band', x.id, str(dtype)), lambda r: _bitand(x, leaf(r), dtype), y)
    if x.cond is not None and all(r.isconst() for r in T.leaf_set(x)):
        return map1(('band', y.id, str(dtype)), lambda r: _bitand(leaf(r), y, dtype), x)
    if T.isconst(x) and T.isconst(y):
        return const(int(T.constval(x)) & int(T.constval(y)))
    if T.isconst(y):
        lo, hi = _dtype_range(dtype)
        size = hi - lo + 1
        c = int(T.constval(y)) % size
        bits = size.bit_length() - 1
        # decompose into runs of ones: x & run(a,b) = (x mod 2^b) - (x mod 2^a)
        out, i = ZERO, 0
        while i < bits:
            if c >> i & 1:
                j = i
                while j < bits and c >> j & 1:
                    j += 1
                if j == bits:
                    hi_part = x
                    if lo < 0:
                        # sign bit included: x - (x mod 2^i)
                        pass
                else:
                    hi_part = T.mod(x, 2 ** j)
                lo_part = T.mod(x, 2 ** i) if i else ZERO
                out = add(out, sub(hi_part, lo_part))
                i = j
            else:
                i += 1
        return out
    return fn_nodes('bitand', *sorted((x, y), key=lambda n: n.id), isint=True, lo=Fraction(0))


def _bounds(rf):
    lo, hi = T.rf_interval(rf)
    return dict(lo=lo if lo == -T.INF else Fraction(math.floor(lo)),
                hi=hi if hi == T.INF else Fraction(math.ceil(hi)))


def _possible(n, lo, hi):
    ks = set()
    for rf in T.leaf_set(n):
        if rf.isconst():
            c = rf.const()
            if lo <= c <= hi:
                ks.add(int(c))
        else:
            l, h = T.rf_interval(rf)
            l = lo if l == -T.INF else max(lo, math.ceil(l))
            h = hi if h == T.INF else min(hi, math.floor(h))
            ks |= set(range(l, h + 1))
    return sorted(ks)


def fn_nodes_raw(name, *args, **kw):
    """Opaque function whose Node arguments are kept as whole value numbers."""
    return leaf(rf_atom(mkatom('fn', (name,) + args, kw.get('lo', -T.INF), kw.get('hi', T.INF), kw.get('isint', False), kw.get('pos', False))))


# ---- extrema

def reduce_ext(kind, xs):
    if not xs:
        return neg(INFTY) if kind == 'max' else INFTY
    xs = list(xs)
    if len(xs) == 1:
        return xs[0]
    if all(T.isconst(x) for x in xs):
        v = [T.constval(x) for x in xs]
        return const(max(v) if kind == 'max' else min(v))
    inf = INFTY
    if len(xs) <= 2 or all(all(r.isconst() for r in T.leaf_set(x)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = max_(r, x) if kind == 'max' else min_(r, x)
        return r
    allc = set()
    for x in xs:
        allc |= T.conds(x)
    if allc:
        c = min(allc)
        return ite(T.mknode(c, TRUE, FALSE),
                   reduce_ext(kind, [T.restrict(x, c, True) for x in xs]),
                   reduce_ext(kind, [T.restrict(x, c, False) for x in xs]))
    return leaf(_ext_rf(kind, [x.rf for x in xs]))


def _ext_rf(kind, rfs):
    """max/min of plain rational functions, common affine part pulled out."""
    rfs = list(dict.fromkeys(rfs))
    if len(rfs) == 1:
        return rfs[0]
    den = rfs[0].den
    scale = T.RF1
    shift = T.RF0
    if all(r.den == den for r in rfs):
        # common additive part
        nums = [r.num for r in rfs]
        common = {m: c for m, c in nums[0].items() if all(q.get(m) == c for q in nums)}
        nums = [T.p_add(q, common, -1) for q in nums]
        if common:
            shift = T.rf_make(common, den)
        # common monomial factor of known sign
        dsign = T.p_sign(den)
        g = None
        for q in nums:
            if q:
                cm = T._common_mono(q)
                g = cm if g is None else {a: min(k, cm[a]) for a, k in g.items() if a in cm}
        g = {a: k for a, k in (g or {}).items() if T.ATOMS[a].pos}
        if g:
            nums = [{T._mono_div(m, g): v for m, v in q.items()} for q in nums]
            scale = RF({tuple(sorted(g.items())): Fraction(1)}, T.P1)
        lead = [q[max(q)] for q in nums if q]
        cs = abs(max(lead, key=abs))
        if dsign:
            scale = T.rf_mul(scale, T.rf_make({(): cs}, den) if dsign > 0 else T.rf_make({(): cs}, {m: -v for m, v in den.items()}))
            s2 = 1 if dsign > 0 else -1
            rfs = [RF({m: s2 * v / cs for m, v in q.items()}, T.P1) for q in nums]
        else:
            scale = T.rf_mul(scale, rf_const(cs))
            rfs = [T.rf_make({m: v / cs for m, v in q.items()}, den) for q in nums]
    rfs = sorted(set(rfs), key=lambda r: r.key)
    lo = hi = None
    ivs = [T.rf_interval(r) for r in rfs]
    f = max if kind == 'max' else min
    at = mkatom('fn', ('ext:' + kind, tuple(rfs)), f(i[0] for i in ivs), f(i[1] for i in ivs), all(T.rf_isint(r) for r in rfs))
    return rf_add(shift, T.rf_mul(scale, rf_atom(at)))


def _rb_ext(kind):
    def f(a, S):
        return reduce_ext(kind, [S.rf(r) for r in a.args[1]])
    return f


T.REBUILD['ext:max'] = _rb_ext('max')
T.REBUILD['ext:min'] = _rb_ext('min')


def _arg_ext(xs, better):
    best, arg = xs[0], ZERO
    for k, x in enumerate(xs[1:], 1):
        c = better(x, best)
        best, arg = ite(c, x, best), ite(c, const(k), arg)
    return arg


# ---- sorting / searching

def sorted_values(row, outdtype=None):
    n = len(row)
    if all(T.isconst(x) for x in row):
        return [const(v) for v in sorted(T.constval(x) for x in row)]
    o = _decided_order(row)
    if o is not None:
        return o
    key = tuple(sorted(row, key=lambda x: x.id))
    it = all(T.rf_isint(r) for x in row for r in T.leaf_set(x))
    los = sorted(min(T.rf_interval(r)[0] for r in T.leaf_set(x)) for x in row)
    his = sorted(max(T.rf_interval(r)[1] for r in T.leaf_set(x)) for x in row)
    return [fn_nodes_raw('sorted', key, k, lo=los[k], hi=his[k], isint=it) for k in range(n)]


def _decided_order(row):
    """sorted row, if every comparison needed is decided"""
    class Undecided(Exception):
        pass

    def cmp(a, b):
        if a is b:
            return 0
        c = lt(a, b)
        if c is TRUE:
            return -1
        if c is FALSE:
            c = lt(b, a)
            if c is TRUE:
                return 1
            if c is FALSE:
                return 0
        raise Undecided
    try:
        return sorted(row, key=functools.cmp_to_key(cmp))
    except Undecided:
        return None


def _rb_sorted(a, S):
    return sorted_values(tuple(S.node(x) for x in a.args[1]))[a.args[2]]


T.REBUILD['sorted'] = _rb_sorted


def searchsorted_node(row, v, side):
    """Insertion position of v into the sorted row: number of entries < v
    (left) or <= v (right)."""
    n = len(row)
    test = lt if side == 'left' else le
    if n and not all(T.isconst(x) for x in row):
        r = _inverse_cdf(tuple(row), v, side)
        if r is not None:
            return r
    if n <= 2:
        r = ZERO
        for x in row:
            r = add(r, test(x, v))
        return r
    if all(T.isconst(x) or x is INFTY for x in row) or _known_sorted(tuple(row)):
        r = ZERO
        for x in row:
            r = add(r, test(x, v))
        return r
    return fn_nodes_raw('searchsorted', side, row, v, lo=Fraction(0), hi=Fraction(n), isint=True)


@functools.lru_cache(None)
def _known_sorted(row):
    return all(le(a, b) is TRUE for a, b in zip(row, row[1:]))


def _rb_ss(a, S):
    _, side, row, v = a.args
    return searchsorted_node(tuple(S.node(x) for x in row), S.node(v), side)


T.REBUILD['searchsorted'] = _rb_ss


def _inverse_cdf(row, v, side):
    """Position of u * row[-1] in a cumulative sum of weights, with u uniform
    in [0, 1): a categorical variable over the nonzero weights (its values
    are exact, and so are its probabilities).  None if the pattern does not apply."""
    if any(x.cond is not None for x in row) or v.cond is not None or side not in ('left', 'right'):
        return None
    total = row[-1]
    if total is ZERO:
        return None
    us = [T.ATOMS[i] for i in T.rf_atoms(v.rf) if T.ATOMS[i].kind == 'draw' and T.ATOMS[i].args[0] == 'uniform']
    if len(us) != 1:
        return None
    u = leaf(rf_atom(us[0]))
    if T.difference(v, mul(u, total)) is None:
        # at u = 0 the first entry is found, if it counts the entries below
        if side == 'left' and row[0] is ZERO:
            return None
    elif T.difference(v, mul(sub(ONE, u), total)) is None:
        if side == 'right':
            return None
    else:
        return None
    support, weights = [], []
    prev = ZERO
    for k, x in enumerate(row):
        w = sub(x, prev)
        prev = x
        if w is ZERO:
            continue
        if not w.rf.ispoly() or T.p_sign(w.rf.num) <= 0:
            return None
        support.append(k)
        weights.append(w)
    if len(support) == 1:
        return const(support[0])
    a = mkatom('fn', ('pick', side, row, v, tuple(support), tuple(weights)), Fraction(0), Fraction(len(support) - 1), True)
    i = leaf(rf_atom(a))
    out = const(support[-1])
    for j in range(len(support) - 2, -1, -1):
        out = ite(le(i, const(j)), const(support[j]), out)
    return out


def _rb_pick(a, S):
    _, side, row, v, support, weights = a.args
    r = searchsorted_node(tuple(S.node(x) for x in row), S.node(v), side)
    out = ZERO      # back from the selected index to the position in the support
    for j, k in enumerate(support):
        out = add(out, mul(const(j), T.eq(r, const(k))))
    return out


T.REBUILD['pick'] = _rb_pick


# ---- draws

def draw_node(fname, kr, pos, args, lifter, loc, isint=False, lo=-T.INF, hi=T.INF, p=False):
    a = mkatom('draw', (fname, kr, pos, args), lo, hi, isint, p or fname in ('gamma', 'exponential', 'chisquare'))
    if lifter is not None:
        lifter.draws.append((a, loc))
    return leaf(rf_atom(a))


def randint_node(kr, pos, lo, hi, lifter, loc):
    """randint(lo, hi): hi <= lo returns lo (jax semantics)."""
    l = min(T.rf_interval(r)[0] for r in T.leaf_set(lo))
    h = max(T.rf_interval(r)[1] for r in T.leaf_set(hi))
    h = max(l, h - 1)
    return draw_node('randint', kr, pos, (lo, hi), lifter, loc, True, l, h)


# ---------------------------------------------------------------- IR bookkeeping

_ELEMENTWISE = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'logistic',
                'erf', 'erfc', 'erf_inv', 'lgamma', 'digamma', 'igamma', 'igammac', 'cbrt', 'exp2', 'population_count', 'clz',
                'shift_right_arithmetic'}


def F_effects(e):
    return bool(getattr(e, 'effects', None))


_ARITH = {'add', 'sub', 'mul', 'neg', 'div', 'rem', 'shift_left', 'reduce_sum', 'cumsum',
          'integer_pow', 'dot_general', 'abs', 'scatter-add', 'scatter-mul', 'not', 'reduce_prod',
          'add_any', 'or', 'xor', 'and', 'max', 'min', 'clamp'}


def callback_name(cb):
    seen = 0
    names = []

    def nm(f):
        for at in ('__wrapped__',):
            while hasattr(f, at):
                f = getattr(f, at)
        return getattr(f, '__name__', type(f).__name__)
    # unwrap closures/partials produced by jax
    stack = [cb]
    visited = set()
    while stack:
        f = stack.pop()
        if id(f) in visited or seen > 200:
            continue
        visited.add(id(f))
        seen += 1
        mod = getattr(f, '__module__', '') or ''
        if callable(f) and not mod.startswith('jax') and not mod.startswith('functools') and hasattr(f, '__name__'):
            w = f
            while hasattr(w, '__wrapped__'):
                w = w.__wrapped__
            return getattr(w, '__name__', f.__name__)
        if hasattr(f, 'callback_func'):
            stack.append(f.callback_func)
        if hasattr(f, 'func'):
            stack.append(f.func)
        if hasattr(f, '__wrapped__'):
            stack.append(f.__wrapped__)
        for cell in (getattr(f, '__closure__', None) or ()):
            try:
                c = cell.cell_contents
            except ValueError:
                continue
            if callable(c):
                stack.append(c)
    return getattr(cb, '__name__', 'callback')


def eqn_loc(e):
    """file:line of the user frame in /repo that produced an equation."""
    tb = e.source_info.traceback
    if tb is not None:
        for f in tb.frames:
            if '/bartz/' in f.file_name and '/site-packages/' not in f.file_name:
                return f'{f.file_name.split("/repo/")[-1]}:{f.line_num} ({f.function_name})'
    return '?'
