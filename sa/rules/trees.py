"""Rules on trees: routing, evaluation, structural predicates."""

import itertools
from fractions import Fraction

import numpy as np
from jax import numpy as jnp

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..model import arr
from ..terms import (const, add, ite, eq, ne, ge, lt, and_, or_, not_, ZERO, ONE, TRUE, FALSE, sum_nodes)
from .proposal import shapes, leaves_of, prunable_of


def route(x, var, split, half, p, i=1):
    """Reference: node reached by point x (array over predictors)."""
    if i >= half:
        return const(i)
    xv = L.switch(var[i], 0, p - 1, lambda v: x[v])
    below = ite(lt(xv, split[i]), route(x, var, split, half, p, 2 * i), route(x, var, split, half, p, 2 * i + 1))
    return ite(eq(split[i], ZERO), const(i), below)


def route_value(x, leafv, var, split, half, p, i=1):
    if i >= half:
        return leafv[i]
    xv = L.switch(var[i], 0, p - 1, lambda v: x[v])
    below = ite(lt(xv, split[i]), route_value(x, leafv, var, split, half, p, 2 * i),
                route_value(x, leafv, var, split, half, p, 2 * i + 1))
    return ite(eq(split[i], ZERO), leafv[i], below)


def tree_configs(rep):
    u8, u16 = jnp.uint8, jnp.uint16
    # (half, p, n, trees, x dtype, var dtype, split dtype, largest cutpoint)
    base = [(1, 2, 2, 2, u8, u8, u8, 9), (2, 3, 2, 3, u8, u8, u8, 255), (4, 2, 2, 2, u8, u8, u8, 9),
            (4, 1, 3, 2, u16, u8, u16, 1000), (8, 1, 1, 1, u8, u8, u8, 200), (128, 1, 1, 1, u8, u8, u8, 9),
            (1, 1, 1, 257, u8, u8, u8, 9), (2, 1, 1, 258, u8, u8, u8, 9), (2, 2, 2, 2, u8, u8, u16, 300), (2, 2, 2, 2, u16, u8, u8, 300)]
    if rep.thorough:
        base += [(8, 2, 1, 1, u8, u8, u8, 200), (4, 3, 1, 2, u16, u8, u16, 65535), (2, 5, 4, 4, u8, u8, u8, 255),
                 (16, 1, 1, 1, u8, u8, u8, 100)]
    return base


def _inputs(c):
    half, p, n, m, xd, vd, sd, ms = c
    S = F.S
    av = (S((p, n), xd), S((m, 2 * half), jnp.float32), S((m, half), vd), S((m, half), sd))
    cap = lambda dt: min(ms, int(np.iinfo(np.dtype(dt)).max))
    rng = {'X': dict(lo=0, hi=cap(xd)), 'var': dict(lo=0, hi=p - 1), 'split': dict(lo=0, hi=ms)}
    sp = L.make_input('split', (m, half), np.dtype(sd), lo=0, hi=cap(sd))
    sp[:, 0] = ZERO
    return av, rng, {'split': sp}


def desc(c):
    return f'half={c[0]} p={c[1]} n={c[2]} trees={c[3]} cutpoints<={c[7]}'


def rule_routing(rep):
    fn = F.anchor('grove.traverse_forest')
    loc = F.where('grove.traverse_forest')
    for c in tree_configs(rep):
        half, p, n, m = c[:4]
        av, rng, inp = _inputs(c)
        ir = F.trace(fn, av[0], av[2], av[3], argnames=['X', 'var', 'split'], label='grove.traverse_forest')
        rep.ir(ir)
        rep.config(desc(c))
        r = lifted.lift(ir, inp, rng)
        out = r['']
        X, V, sp = r.inp['X'], r.inp['var'], r.inp['split']
        rep.ok('shape', out.shape == (m, n), f'one leaf per tree and point, {desc(c)}', loc, out.shape)
        if out.shape != (m, n):
            continue
        for t in range(m):
            for j in range(n):
                rep.same('routing', out[t, j], route(X[:, j], V[t], sp[t], half, p),
                         f'leaf of point {j} in tree {t}, {desc(c)}', loc)


def rule_routing_deep(rep):
    """trees around the depths at which the index of a node needs a larger
    type, with one path of decision nodes down to the bottom"""
    fn, ev = F.anchor('grove.traverse_forest'), F.anchor('grove.evaluate_forest')
    loc, loce = F.where('grove.traverse_forest'), F.where('grove.evaluate_forest')
    S = F.S
    for d in (7, 8, 9, 15, 16, 17):
        half, p, m = 2 ** (d - 1), 2, 4
        sp = np.full((m, half), ZERO, object)
        vt = np.full((m, half), ZERO, object)
        lv = np.full((m, 2 * half), ZERO, object)
        for t, turns in enumerate(([0] * d, [1] * d, [i % 2 for i in range(d)], [1] * (d - 1) + [0])):
            k = 1
            for i, s in enumerate(turns[:d - 1]):
                sp[t, k] = const(100 + i if s == 0 else 50 - i)
                vt[t, k] = const(i % p)
                lv[t, 2 * k + 1 - s] = const(1000 + i)
                k = 2 * k + s
            lv[t, k] = const(1)
        w = f'[depth {d}]'
        rep.config(w)
        inp = {'X': L.make_input('X', (p, 1), np.dtype('uint8'), lo=0, hi=255), 'var': vt, 'split': sp, 'leaf': lv}
        av = {'X': S((p, 1), jnp.uint8), 'var': S((m, half), jnp.uint8), 'split': S((m, half), jnp.uint8), 'leaf': S((m, 2 * half), jnp.float32)}

        def ref(x, t, at, k=1):
            if k >= half or sp[t, k] is ZERO:
                return at(k)
            return ite(lt(x[int(T.constval(vt[t, k]))], sp[t, k]), ref(x, t, at, 2 * k), ref(x, t, at, 2 * k + 1))
        ir = F.trace(fn, av['X'], av['var'], av['split'], argnames=['X', 'var', 'split'], label='grove.traverse_forest')
        rep.ir(ir)
        out = lifted.lift(ir, {k: inp[k] for k in ('X', 'var', 'split')})['']
        ir = F.trace(lambda X, leaf, var, split: ev(X, leaf, var, split, jnp.float32, False), av['X'], av['leaf'], av['var'], av['split'],
                     argnames=['X', 'leaf', 'var', 'split'], label='grove.evaluate_forest')
        rep.ir(ir)
        val = lifted.lift(ir, inp)['']
        for t in range(m):
            rep.same('routing', out[t, 0], ref(inp['X'][:, 0], t, const), f'leaf of a point in tree {t} {w}', loc)
            rep.same('evaluate', val[t, 0], ref(inp['X'][:, 0], t, lambda k: lv[t, k]), f'leaf value of a point in tree {t} {w}', loce)


def rule_evaluate(rep):
    fn = F.anchor('grove.evaluate_forest')
    loc = F.where('grove.evaluate_forest')
    for c in tree_configs(rep):
        half, p, n, m = c[:4]
        av, rng, inp = _inputs(c)
        for sums in (True, False):
            ir = F.trace(lambda X, leaf, var, split: fn(X, leaf, var, split, jnp.float32, sums), *av,
                         argnames=['X', 'leaf', 'var', 'split'], label='grove.evaluate_forest')
            rep.ir(ir)
            rep.config(desc(c) + f' sum={sums}')
            r = lifted.lift(ir, inp, rng)
            out = r['']
            X, lv, V, sp = (r.inp[k] for k in ('X', 'leaf', 'var', 'split'))
            ref = np.empty((m, n), object)
            for t in range(m):
                for j in range(n):
                    ref[t, j] = route_value(X[:, j], lv[t], V[t], sp[t], half, p)
            if sums:
                out2 = np.empty((n,), object)
                for j in range(n):
                    out2[j] = sum_nodes(list(ref[:, j]))
                ref = out2
            rep.same_arr('evaluate', out, ref, f'{"sum over the trees of the" if sums else ""} leaf value of a point, {desc(c)}', loc)


def rule_predicates(rep):
    """leaf / prunable-node masks, depths, array sizes"""
    leaf_fn, par_fn = F.anchor('grove.is_actual_leaf'), F.anchor('grove.is_leaves_parent')
    for half in (1, 2, 4, 8) + ((16,) if rep.thorough else ()):
        S = F.S((half,), jnp.uint8)
        irs = {}
        for nm, f in (('leaf', lambda split: leaf_fn(split)), ('leafb', lambda split: leaf_fn(split, add_bottom_level=True)),
                      ('parent', lambda split: par_fn(split))):
            irs[nm] = F.trace(f, S, argnames=['split'], label='grove.is_actual_leaf' if nm != 'parent' else 'grove.is_leaves_parent')
            rep.ir(irs[nm])
        rep.config(f'half={half}')
        sh = list(shapes(half))
        if len(sh) > 40:
            sh = sh[::max(1, len(sh) // 40)] + [sh[-1]]
        for s in sh:
            sp = L.make_input('split', (half,), np.dtype('uint8'), lo=1, hi=255)
            for k in range(half):
                if k not in s:
                    sp[k] = ZERO
            want = {
                'leaf': set(leaves_of(s, half)),
                'leafb': {k for k in range(1, 2 * half) if k not in s and (k == 1 or k // 2 in s)},
                'parent': {k for k in s if 2 * k not in s and 2 * k + 1 not in s},
            }
            for nm, ir in irs.items():
                r = lifted.lift(ir, {'split': sp})
                out = r['']
                loc = F.where(ir.label)
                size = 2 * half if nm == 'leafb' else half
                rep.ok('mask-shape', out.shape == (size,), f'mask has one entry per node ({nm})', loc, out.shape)
                for k in range(min(size, out.shape[0])):
                    rep.same('mask', T.truth(out[k]), TRUE if k in want[nm] else FALSE,
                             f'{ {"leaf": "leaf that is not at the bottom", "leafb": "leaf", "parent": "parent of two leaves"}[nm]} mask at node {k} of tree with decision nodes {sorted(s)}', loc)
    predicates_deep(rep)
    td, tdep, mk = F.anchor('grove.tree_depths'), F.anchor('grove.tree_depth'), F.anchor('grove.make_tree')
    for d in range(0, 9):
        n = 2 ** d
        ir = F.trace(lambda: td(n), label='grove.tree_depths')
        rep.ir(ir)
        r = lifted.lift(ir)['']
        loc = F.where('grove.tree_depths')
        rep.ok('depth-shape', r.shape == (n,), f'depths of {n} nodes', loc, r.shape)
        bad = [k for k in range(min(n, r.shape[0])) if not (T.isconst(r[k]) and T.constval(r[k]) == max(0, k.bit_length() - 1))]
        rep.ok('depth', not bad, f'depth of a node is the position of its leading bit ({n} nodes)', loc, f'wrong at {bad[:10]}')
        got = []
        for sh in ((n,), (3, n), (2, 5, n)):
            x = lifted.lift(F.trace(lambda t: jnp.asarray(tdep(t)), F.S(sh, jnp.uint8), label='grove.tree_depth'))['']
            got.append(T.constval(x[()]) if T.isconst(x[()]) else None)
        rep.ok('tree-depth', got == [d] * 3, f'number of levels of a tree array with {n} entries', F.where('grove.tree_depth'), got)
        ir = F.trace(lambda: mk(d, jnp.uint16), label='grove.make_tree')
        r = lifted.lift(ir)['']
        rep.ok('make-tree', r.shape == (n,) and all(x is ZERO for x in r) and ir.closed.out_avals[0].dtype == jnp.uint16,
               f'new tree of depth {d} is all zeros with {n} entries', F.where('grove.make_tree'), r.shape)


def predicates_deep(rep):
    """masks of trees around the sizes at which the index of a node or of
    its children needs a larger type"""
    for half in (64, 128, 256, 512):
        d = half.bit_length()
        spines = []
        for turns in ([0] * d, [1] * d, [i % 2 for i in range(d)]):
            for top in (d - 1, d - 2):
                k, s = 1, set()
                for b in turns[:top]:
                    s.add(k)
                    k = 2 * k + b
                spines.append(s)
        S = F.S((half,), jnp.uint8)
        for label, f in (('grove.is_actual_leaf', lambda fn, split: fn(split)), ('grove.is_actual_leaf', lambda fn, split: fn(split, add_bottom_level=True)),
                         ('grove.is_leaves_parent', lambda fn, split: fn(split))):
            fn = F.anchor(label)
            ir = F.trace(lambda split: f(fn, split), S, argnames=['split'], label=label)
            rep.ir(ir)
            for s in spines:
                sp = np.full((half,), ZERO, object)
                for k in s:
                    sp[k] = const(255)
                out = lifted.lift(ir, {'split': sp})['']
                if label == 'grove.is_actual_leaf':
                    want = {k for k in range(1, len(out)) if k not in s and (k == 1 or k // 2 in s)}
                else:
                    want = {k for k in s if 2 * k not in s and 2 * k + 1 not in s}
                bad = [k for k in range(len(out)) if T.truth(out[k]) is not (TRUE if k in want else FALSE)]
                rep.ok('mask', not bad, f'{label} of a tree with {half} possible decision nodes and a path to the bottom', F.where(label), f'wrong at nodes {bad[:8]}')
        rep.config(f'half={half}, paths to the bottom')


def rule_trace(rep):
    """evaluation of the samples of a trace"""
    fn = F.anchor('mcmcloop.evaluate_trace')
    loc = F.where('mcmcloop.evaluate_trace')
    f16 = jnp.float16
    for c, ns, lf in [((2, 2, 2, 2, jnp.uint8, jnp.uint8, jnp.uint8, 9), 2, jnp.float32), ((1, 1, 3, 1, jnp.uint8, jnp.uint8, jnp.uint8, 9), 3, jnp.float32),
                      ((4, 2, 1, 3, jnp.uint16, jnp.uint8, jnp.uint16, 1000), 1, jnp.float32), ((2, 1, 1, 2, jnp.uint8, jnp.uint8, jnp.uint8, 255), 2, f16),
                      ((2, 2, 2, 2, jnp.uint8, jnp.uint8, jnp.uint8, 9), 0, jnp.float32),
                      ((1, 1, 1, 257, jnp.uint8, jnp.uint8, jnp.uint8, 9), 1, jnp.float32), ((1, 1, 1, 1, jnp.uint8, jnp.uint8, jnp.uint8, 9), 257, jnp.float32)]:
        half, p, n, m, xd, vd, sd, ms = c
        S = F.S
        tr = dict(leaf_trees=S((ns, m, 2 * half), lf), var_trees=S((ns, m, half), vd), split_trees=S((ns, m, half), sd), sigma2=S((ns,), jnp.float32),
                  grow_acc_count=S((ns,), jnp.int32))
        sp = L.make_input('t.split_trees', (ns, m, half), np.dtype(sd), lo=0, hi=ms)
        sp[..., 0] = ZERO
        ir = F.trace(lambda t, X: fn(t, X), tr, S((p, n), xd), argnames=['t', 'X'], label='mcmcloop.evaluate_trace')
        rep.ir(ir)
        w = f'[{ns} samples, {desc(c)}]'
        rep.config(w)
        lifter = lifted.SummaryLifter()
        lifter.rounding = lf == f16     # sums are not rounded to the type of the leaves
        r = lifted.lift(ir, {'t.split_trees': sp}, {'X': dict(lo=0, hi=ms), 't.var_trees': dict(lo=0, hi=p - 1)}, lifter=lifter)
        od = ir.closed.out_avals[0].dtype
        rep.ok('trace-type', od == jnp.float32, f'predictions in single precision {w}', loc, od)
        X, lv, V = r.inp['X'], r.inp['t.leaf_trees'], r.inp['t.var_trees']
        out = r['']
        rep.ok('shape', out.shape == (ns, n), f'one prediction per sample and point {w}', loc, out.shape)
        if out.shape != (ns, n):
            continue
        for q in range(ns):
            for j in range(n):
                want = sum_nodes([route_value(X[:, j], lv[q, t], V[q, t], sp[q, t], half, p) for t in range(m)])
                rep.same('trace-value', out[q, j], want, f'prediction of sample {q} at point {j} is the sum of the leaf values {w}', loc)
