"""Rules on the cutpoint grids and on the binning of predictors."""

import itertools
from fractions import Fraction

import numpy as np
import jax
from jax import numpy as jnp

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..terms import const, add, sub, mul, div, lt, le, sum_nodes, ZERO, ONE

INF_F = 'inf'


def patterns(n):
    """ranks of n values: all the ways they can coincide and be ordered"""
    seen = set()
    for t in itertools.product(range(n), repeat=n):
        ranks = sorted(set(t))
        q = tuple(ranks.index(v) for v in t)
        if q not in seen:
            seen.add(q)
            yield q


def levels(tag, k, dtype, span='free'):
    """k increasing values: a free one and free positive gaps"""
    if jnp.issubdtype(dtype, jnp.floating):
        v = [L.make_input(f'{tag}.v', (), dtype)[()]]
        for j in range(k - 1):
            v.append(add(v[-1], L.make_input(f'{tag}.gap{j}', (), dtype, pos=True, lo=0)[()]))
        return v
    info = jnp.iinfo(dtype)
    if span == 'edges':
        # lowest and highest values the type can hold, up to small offsets
        c = 20
        lo = add(const(int(info.min)), L.make_input(f'{tag}.s', (), dtype, lo=0, hi=c)[()])
        v = [lo]
        for j in range(k - 2):
            v.append(add(v[-1], L.make_input(f'{tag}.gap{j}', (), dtype, lo=1, hi=c)[()]))
        if k > 1:
            v.append(sub(const(int(info.max)), L.make_input(f'{tag}.t', (), dtype, lo=1, hi=c)[()]))
        return v
    w = max(1, (int(info.max) - max(int(info.min), 0)) // (k + 1))
    if span == 'wide':
        w = max(1, (int(info.max) - int(info.min)) // (k + 1))
        v = [L.make_input(f'{tag}.v', (), dtype, lo=int(info.min), hi=int(info.min) + w)[()]]
    else:
        v = [L.make_input(f'{tag}.v', (), dtype, lo=max(int(info.min), -5), hi=5)[()]]
        w = min(w, 20)
    for j in range(k - 1):
        v.append(add(v[-1], L.make_input(f'{tag}.gap{j}', (), dtype, lo=1, hi=w)[()]))
    return v


def holds(dtype, top):
    return jnp.issubdtype(dtype, jnp.unsignedinteger) and int(jnp.iinfo(dtype).max) >= top


def smallest(dtype, top):
    return holds(dtype, top) and not any(holds(d, top) for d in (jnp.uint8, jnp.uint16, jnp.uint32) if jnp.iinfo(d).bits < jnp.iinfo(dtype).bits)


def fits(rep, rule, dtype, top, what, loc):
    rep.ok(rule, smallest(dtype, top), what, loc, f'{dtype} for values up to {top}')


def midpoint(a, b, dtype):
    if jnp.issubdtype(dtype, jnp.floating):
        return div(add(a, b), const(2))
    return add(a, L._floordiv(sub(b, a), const(2)))


def huge(dtype):
    return L.INFTY if jnp.issubdtype(dtype, jnp.floating) else const(int(jnp.iinfo(dtype).max))


def is_huge(x, dtype):
    if jnp.issubdtype(dtype, jnp.floating) and x.cond is None and x.rf.ispoly():
        # an infinite term absorbs finite ones
        (inf,), = L.INFTY.rf.num
        with_inf = {m: c for m, c in x.rf.num.items() if any(a == inf[0] for a, _ in m)}
        return set(with_inf) == {(inf,)} and with_inf[(inf,)] > 0
    return T.difference(x, huge(dtype)) is None


def rows_for(rep, n, dtype):
    pats = list(patterns(n))
    if n > 4 or (n == 4 and not rep.thorough):
        # all ways values coincide, in two orders each
        by = {}
        for q in pats:
            by.setdefault(tuple(sorted(q)), []).append(q)
        pats = [q for v in by.values() for q in {v[0], v[len(v) // 2], v[-1]}]
    return sorted(pats)


def check_row(rep, loc, w, got, nsplit, vals, L_out, dtype):
    """got: cutpoints of one predictor; vals: its distinct values, increasing"""
    k = len(vals)
    cand = [midpoint(vals[i], vals[i + 1], dtype) for i in range(k - 1)]
    used = min(k - 1, L_out)
    rep.same('count', nsplit, const(used), f'number of cutpoints {w}', loc)
    for j in range(L_out):
        if j >= used:
            rep.ok('padding', is_huge(got[j], dtype), f'unused cutpoint {j} is the largest value {w}', loc, T.node_str(got[j], 2))
        elif k - 1 <= L_out:
            rep.same('midpoint', got[j], cand[j], f'cutpoint {j} is halfway between consecutive distinct values {w}', loc)
        else:
            # nearest to equally spaced ranks
            pos = -1 + Fraction((j + 1) * k, L_out + 1)
            ok = [i for i in range(k - 1) if abs(i - pos) <= Fraction(1, 2)]
            rep.ok('spacing', any(T.difference(got[j], cand[i]) is None for i in ok),
                   f'cutpoint {j} is one of those nearest to equally spaced ranks {w}', loc,
                   f'cutpoints allowed: those after the distinct values {ok} of {k}; got {T.node_str(got[j], 2)}')


def rule_quantile(rep):
    fn = F.anchor('prepcovars.quantilized_splits_from_matrix')
    loc = F.where('prepcovars.quantilized_splits_from_matrix')
    f32, i32, u8, u32 = jnp.float32, jnp.int32, jnp.uint8, jnp.uint32
    total = 0
    jobs = []
    for dt in (f32, i32, u8, u32):
        for span in (('free',) if dt == f32 else ('free', 'edges', 'wide')):
            for n in (1, 2, 3, 4) + ((5,) if rep.thorough else ()):
                for mb in sorted({1, 2, max(1, n - 1), n, n + 3}):
                    jobs.append((dt, span, n, mb))
    for dt, span, n, mb in jobs:
        dt = jnp.dtype(dt)
        pats = rows_for(rep, n, dt)
        p = len(pats)
        ir = F.trace(lambda X: fn(X, mb), F.S((p, n), dt), argnames=['X'], label='prepcovars.quantilized_splits_from_matrix')
        rep.ir(ir)
        rep.config(f'n={n} max_bins={mb} {dt.name} values {span}, {p} patterns of ties and orders')
        X = np.empty((p, n), object)
        lv = []
        for i, q in enumerate(pats):
            v = levels(f'x{i}', max(q) + 1, dt, span)
            lv.append(v)
            X[i] = [v[r] for r in q]
        r = lifted.lift(ir, {'X': X})
        splits, ms = r['0'], r['1']
        lo = min(mb, n) - 1
        av = dict(zip(ir.out_names, ir.closed.out_avals))
        rep.ok('shape', splits.shape == (p, lo) and ms.shape == (p,), f'shape of the grid n={n} max_bins={mb}', loc, f'{splits.shape} {ms.shape}')
        if splits.shape != (p, lo):
            continue
        rep.ok('grid-type', av['0'].dtype == dt, f'cutpoints have the type of the predictors ({dt.name})', loc, av['0'].dtype)
        fits(rep, 'count-type', av['1'].dtype, max(lo, 0), f'smallest type for the number of cutpoints n={n} max_bins={mb}', loc)
        for i, q in enumerate(pats):
            check_row(rep, loc, f'[values in order {q}, {span}, {dt.name}, max_bins={mb}]', splits[i], ms[i], lv[i], lo, dt)
            total += 1
    rep.require(total, 'patterns of predictor values', 100)


def rule_quantile_large(rep):
    """number of values at the boundaries of the index types"""
    fn = F.anchor('prepcovars.quantilized_splits_from_matrix')
    loc = F.where('prepcovars.quantilized_splits_from_matrix')
    jobs = [(256, 3), (257, 4), (258, 4), (258, 257), (259, 258), (258, 256)] if not rep.thorough else [(600, 300), (1000, 3), (5, 2), (37, 11), (100, 33), (100, 66)] + [(256, 3), (257, 4), (258, 4), (259, 258), (258, 256), (300, 255), (300, 256), (300, 257)]
    for n, mb in jobs:
        ir = F.trace(lambda X: fn(X, mb), F.S((1, n), jnp.float32), argnames=['X'], label='prepcovars.quantilized_splits_from_matrix')
        rep.ir(ir)
        rep.config(f'n={n} max_bins={mb}, distinct values in decreasing order')
        v0, g = L.make_input('x.v', (), jnp.float32)[()], L.make_input('x.gap', (), jnp.float32, lo=0, pos=True)[()]
        vals = [add(v0, mul(const(i), g)) for i in range(n)]
        X = np.empty((1, n), object)
        X[0] = vals[::-1]
        r = lifted.lift(ir, {'X': X})
        lo = min(mb, n) - 1
        check_row(rep, loc, f'[{n} distinct values, max_bins={mb}]', r['0'][0], r['1'][0], vals, lo, jnp.dtype(jnp.float32))


def rule_uniform(rep):
    fn = F.anchor('prepcovars.uniform_splits_from_matrix')
    loc = F.where('prepcovars.uniform_splits_from_matrix')
    for dt in (jnp.float32, jnp.int32, jnp.uint8):
        for n, p, nb in ((1, 1, 2), (2, 2, 5), (3, 2, 2), (4, 1, 10), (3, 1, 1), (2, 1, 256), (2, 1, 257), (2, 1, 258)):
            ir = F.trace(lambda X: fn(X, nb), F.S((p, n), dt), argnames=['X'], label='prepcovars.uniform_splits_from_matrix')
            rep.ir(ir)
            w = f'[n={n} p={p} bins={nb} {jnp.dtype(dt).name}]'
            rep.config(w)
            r = lifted.lift(ir)
            av = dict(zip(ir.out_names, ir.closed.out_avals))
            s, ms, X = r['0'], r['1'], r.inp['X']
            rep.ok('shape', s.shape == (p, nb - 1) and ms.shape == (p,), f'shape of the grid {w}', loc, f'{s.shape} {ms.shape}')
            if s.shape != (p, nb - 1):
                continue
            fits(rep, 'count-type', av['1'].dtype, nb - 1, f'smallest type for the number of cutpoints {w}', loc)
            for v in range(p):
                lo, hi = L.reduce_ext('min', list(X[v])), L.reduce_ext('max', list(X[v]))
                rep.same('count', ms[v], const(nb - 1), f'number of cutpoints of predictor {v} {w}', loc)
                for j in range(nb - 1):
                    want = add(lo, mul(sub(hi, lo), const(Fraction(j + 1, nb))))
                    rep.same('spacing', s[v, j], want, f'cutpoint {j} of predictor {v} evenly spaced between minimum and maximum {w}', loc)


def rule_binning(rep):
    fn = F.anchor('prepcovars.bin_predictors')
    loc = F.where('prepcovars.bin_predictors')
    S = F.S
    f32, i32, u8 = jnp.float32, jnp.int32, jnp.uint8
    top = int(jnp.iinfo(jnp.int32).max)
    rows = [[-2, 0, 3, 10], [-2, 3, None, None], [None] * 4, [5, 6, 7, None]]
    cases = []
    for xd, sd in ((f32, f32), (i32, i32), (i32, f32), (u8, u8), (f32, i32), (f32, u8), (i32, u8), (u8, i32), (u8, f32)):
        for m in (0, 1, 2, 3, 4) if xd == sd else (2, 4):
            cases.append((xd, sd, m, 'const'))
        cases += [(xd, sd, 1, 'free'), (xd, sd, 2, 'free')]
    cases += [(f32, f32, m, 'long') for m in (254, 255, 256, 257)]
    if rep.thorough:
        cases += [(u8, u8, 256, 'long'), (i32, f32, 256, 'long'), (f32, f32, 300, 'long')]
    for xd, sd, m, how in cases:
        n = 2
        big = huge(sd)
        if how == 'const':
            sp = [[big if v is None else const(v + (2 if sd == u8 else 0)) for v in row[:m]] for row in rows]
        elif how == 'long':
            sp = [[const(v) for v in range(m)], [const(2 * v) for v in range(m // 2)] + [big] * (m - m // 2)]
        else:
            v = levels('s', 2, jnp.dtype(sd))
            sp = [v[:m], (v[:1] + [big])[:m]]
        p = len(sp)
        if how == 'long' and sd == u8:
            continue
        ir = F.trace(lambda X, s: fn(X, s), S((p, n), xd), S((p, m), sd), argnames=['X', 's'], label='prepcovars.bin_predictors')
        rep.ir(ir)
        w = f'[{jnp.dtype(xd).name} predictors, {jnp.dtype(sd).name} grid of {m}, {how} cutpoints]'
        rep.config(w)
        sa = np.empty((p, m), object)
        for v in range(p):
            for j in range(m):
                sa[v, j] = sp[v][j]
        rng = {} if jnp.issubdtype(xd, jnp.integer) and xd != i32 else dict(lo=-top - 1, hi=top) if xd == i32 else dict(lo=-10 ** 9, hi=10 ** 9)
        r = lifted.lift(ir, {'s': sa}, {'X': rng})
        b, X = r[''], r.inp['X']
        rep.ok('shape', b.shape == (p, n), f'one bin per value {w}', loc, b.shape)
        fits(rep, 'bin-type', ir.closed.out_avals[0].dtype, m, f'smallest type for the bin {w}', loc)
        if b.shape != (p, n):
            continue
        for v in range(p):
            for i in range(n):
                want = ZERO
                for c in sp[v]:
                    want = add(want, lt(c, X[v, i]))
                rep.same('bin', b[v, i], want, f'bin is the number of cutpoints strictly below the value, predictor {v} {w}', loc)
    # the lookup method is free
    for method in ('scan', 'sort', 'compare_all'):
        ir = F.trace(lambda X, s: fn(X, s, method=method), S((1, 2), f32), S((1, 2), f32), argnames=['X', 's'], label='prepcovars.bin_predictors')
        v = levels('s', 2, jnp.dtype(f32))
        sa = np.empty((1, 2), object)
        sa[0] = v
        r = lifted.lift(ir, {'s': sa})
        for i in range(2):
            rep.same('bin', r[''][0, i], add(lt(v[0], r.inp['X'][0, i]), lt(v[1], r.inp['X'][0, i])), f'bin with method {method}', loc)


def rule_count_types(rep):
    """types of the counts and of the grids at the boundaries of the integer types"""
    q, u = F.anchor('prepcovars.quantilized_splits_from_matrix'), F.anchor('prepcovars.uniform_splits_from_matrix')
    for n, mb in ((65536, 65535), (65536, 65536), (65537, 65537), (70000, 65537), (70000, 65538), (65536, 10 ** 6), (65537, 10 ** 6), (70000, 256), (70000, 257)):
        for name, fn, lo in (('prepcovars.quantilized_splits_from_matrix', q, min(mb, n) - 1), ('prepcovars.uniform_splits_from_matrix', u, mb - 1)):
            for dt in (jnp.float32, jnp.int32):
                ir = F.trace(lambda X: fn(X, mb), F.S((2, n), dt), argnames=['X'], label=name)
                rep.ir(ir)
                w = f'[{n} points, at most {mb} bins, {jnp.dtype(dt).name}]'
                rep.config(w)
                a, b = ir.closed.out_avals
                rep.ok('shape', a.shape == (2, lo) and b.shape == (2,), f'shape of the grid {w}', F.where(name), f'{a.shape} {b.shape}')
                fits(rep, 'count-type', b.dtype, lo, f'smallest type for the number of cutpoints {w}', F.where(name))


def rule_bin_types(rep):
    """types of the bins at the boundaries of the integer types"""
    fn = F.anchor('prepcovars.bin_predictors')
    loc = F.where('prepcovars.bin_predictors')
    f32, i32, u8 = jnp.float32, jnp.int32, jnp.uint8
    for m in (0, 1, 2, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 10 ** 6):
        for xd, sd in ((f32, f32), (i32, i32), (u8, u8), (i32, f32), (f32, i32), (u8, f32)):
            for p, n in ((1, 1), (3, 2)):
                ir = F.trace(lambda X, s: fn(X, s), F.S((p, n), xd), F.S((p, m), sd), argnames=['X', 's'], label='prepcovars.bin_predictors')
                rep.ir(ir)
                w = f'[{jnp.dtype(xd).name} predictors {(p, n)}, {jnp.dtype(sd).name} grid of {m}]'
                rep.config(w)
                a, = ir.closed.out_avals
                rep.ok('shape', a.shape == (p, n), f'one bin per value {w}', loc, a.shape)
                fits(rep, 'bin-type', a.dtype, m, f'smallest type for the bin {w}', loc)


def rule_unique(rep):
    fn = F.anchor('jaxext.unique')
    loc = F.where('jaxext.unique')
    for dt in (jnp.float32, jnp.int32):
        dt = jnp.dtype(dt)
        for n in (0, 1, 2, 3, 4):
            for size in sorted({0, 1, max(n - 1, 0), n, n + 2}):
                for i, q in enumerate(rows_for(rep, n, dt) if n else [()]):
                    k = max(q) + 1 if q else 0
                    v = levels('x', k, dt) if k else []
                    ir = F.trace(lambda x, f: fn(x, size, f), F.S((n,), dt), F.S((), dt), argnames=['x', 'f'], label='jaxext.unique')
                    rep.ir(ir)
                    x = np.empty((n,), object)
                    for j, rk in enumerate(q):
                        x[j] = v[rk]
                    r = lifted.lift(ir, {'x': x})
                    w = f'[values in order {q}, output of length {size}, {dt.name}]'
                    o, f = r['0'], r.inp['f'][()]
                    rep.ok('shape', o.shape == (size,), f'length of the output {w}', loc, o.shape)
                    rep.same('unique-count', r['1'][()], const(min(k, size)), f'number of distinct values returned {w}', loc)
                    for j in range(min(size, o.shape[0])):
                        rep.same('unique', o[j], v[j] if j < k else f, f'entry {j}: distinct values in order, then the filling {w}', loc)
    rep.config('0 to 4 values, all the ways they coincide, outputs of length 0 to n+2')


def rule_units(rep):
    """change of units of the predictors"""
    bins = F.anchor('prepcovars.bin_predictors')
    f32 = jnp.dtype(jnp.float32)
    done = 0
    for name, n, nb in [('uniform', n, nb) for n, nb in ((2, 2), (2, 4), (3, 3), (4, 2))] + [('quantilized', n, nb) for n, nb in ((2, 2), (3, 5), (4, 3), (5, 2))]:
        path = f'prepcovars.{name}_splits_from_matrix'
        fn, loc = F.anchor(path), F.where(path)

        def go(X, xt):
            s, ms = fn(X, nb)
            return dict(splits=s, count=ms, train=bins(X, s), test=bins(xt, s))
        pats = rows_for(rep, n, f32)
        if name == 'uniform':
            pats = [q for q in pats if max(q) == len(q) - 1][:3]
        p = len(pats)
        ir = F.trace(go, F.S((p, n), f32), F.S((p, 1), f32), argnames=['X', 'xt'], label=path)
        rep.ir(ir)
        a, b = L.make_input('unit', (), f32, lo=0, pos=True)[()], L.make_input('shift', (), f32)[()]
        X = np.empty((p, n), object)
        for i, q in enumerate(pats):
            v = levels(f'x{i}', max(q) + 1, f32)
            X[i] = [v[r] for r in q]
        xt = L.make_input('xt', (p, 1), f32)
        ch = lambda M: _map(M, lambda e: add(mul(a, e), b))
        r0 = lifted.lift(ir, {'X': X, 'xt': xt})
        r1 = lifted.lift(ir, {'X': ch(X), 'xt': ch(xt)})
        w = f'[{name} grid, {n} points, {nb} bins]'
        rep.config(w)
        for i in range(p):
            rep.same('unit-count', r1['count'][i], r0['count'][i], f'number of cutpoints does not depend on the units {w}', loc)
            for j in range(r0['splits'].shape[1]):
                s0, s1 = r0['splits'][i, j], r1['splits'][i, j]
                if is_huge(s0, f32):
                    rep.ok('unit-cutpoints', is_huge(s1, f32), f'unused cutpoints do not depend on the units {w}', loc, T.node_str(s1, 2))
                else:
                    rep.same('unit-cutpoints', s1, add(mul(a, s0), b), f'cutpoints follow the units of the predictor {w}', loc)
            for k in ('train', 'test'):
                for j in range(r0[k].shape[1]):
                    rep.same('unit-bins', r1[k][i, j], r0[k][i, j], f'{k} bins do not depend on the units {w}', loc)
                    done += 1
    rep.require(done, 'binned points', 20)


def _map(M, f):
    out = np.empty(M.shape, object)
    for i in np.ndindex(*M.shape):
        out[i] = f(M[i])
    return out
