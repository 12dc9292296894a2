"""Diagnostics of trees and traces (debug module)."""

import itertools

import numpy as np
import jax
from jax import numpy as jnp

from .. import frontend as F
from .. import host
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..terms import const, add, ite, eq, ne, lt, and_, or_, not_, ZERO, ONE, TRUE, FALSE
from .proposal import shapes
from .trees import route

S = F.S


def split_of(tag, s, half, hi=9):
    sp = L.make_input(tag, (half,), np.dtype('uint8'), lo=1, hi=hi)
    for k in range(half):
        if k not in s:
            sp[k] = ZERO
    return sp


def leaves(s, half):
    return [k for k in range(1, 2 * half) if k not in s and (k == 1 or k // 2 in s)]


def level(k):
    return k.bit_length() - 1


def total(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def rule_depths(rep):
    ta, fd, td = (F.anchor('debug.' + k) for k in ('tree_actual_depth', 'forest_depth_distr', 'trace_depth_distr'))
    loc = F.where('debug.tree_actual_depth')
    for half in (1, 2, 4, 8):
        ir = F.trace(lambda split: ta(split), S((half,), jnp.uint8), argnames=['split'], label='debug.tree_actual_depth')
        rep.ir(ir)
        sh = list(shapes(half))
        if len(sh) > 60 and not rep.thorough:
            sh = sh[::len(sh) // 50] + [sh[-1]]
        rep.config(f'{len(sh)} tree shapes of at most {level(2 * half)} levels')
        for s in sh:
            r = lifted.lift(ir, {'split': split_of('split', s, half)})
            rep.same('depth', r[''][()], const(max(level(k) for k in leaves(s, half))), f'depth of the tree with decision nodes {sorted(s)}', loc)
    for half in (64, 128, 256):
        ir = F.trace(lambda split: ta(split), S((half,), jnp.uint8), argnames=['split'], label='debug.tree_actual_depth')
        d = half.bit_length()
        for top in (0, 1, d - 2, d - 1):
            for b in (0, 1):
                k, sp = 1, np.array([ZERO] * half, object)
                for _ in range(top):
                    sp[k] = ONE
                    k = 2 * k + b
                rep.same('depth', lifted.lift(ir, {'split': sp})[''][()], const(top), f'depth of a tree with {top} nested decision nodes out of {d}', loc)
    # many trees of the same depth
    for m in (255, 256, 257):
        ir = F.trace(lambda split: fd(split), S((m, 1), jnp.uint8), argnames=['split'], label='debug.forest_depth_distr')
        r = lifted.lift(ir, {'split': np.array([[ZERO]] * m, object)})['']
        rep.ok('depth-counts', r.shape == (1,) and T.isconst(r[0]) and T.constval(r[0]) == m, f'{m} trees without decision nodes', F.where('debug.forest_depth_distr'), [T.node_str(x) for x in r])
    loc = F.where('debug.forest_depth_distr')
    for half in (1, 2, 4):
        sh = list(shapes(half))
        forests = [sh[:3], sh[-2:], [sh[0]], [sh[-1], sh[0], sh[len(sh) // 2], sh[-1]]]
        for fo in forests:
            m = len(fo)
            sp = np.array([split_of(f's{t}', s, half) for t, s in enumerate(fo)], object)
            want = [sum(max(level(k) for k in leaves(s, half)) == d for s in fo) for d in range(level(2 * half))]
            ir = F.trace(lambda split: fd(split), S((m, half), jnp.uint8), argnames=['split'], label='debug.forest_depth_distr')
            rep.ir(ir)
            r = lifted.lift(ir, {'split': sp})['']
            rep.same_arr('depth-counts', r, np.array([const(v) for v in want] + [None], object)[:-1], f'number of trees per depth, decision nodes {[sorted(s) for s in fo]}', loc)
            ir = F.trace(lambda split: td(split), S((2, m, half), jnp.uint8), argnames=['split'], label='debug.trace_depth_distr')
            rep.ir(ir)
            r = lifted.lift(ir, {'split': np.stack([sp, sp[::-1]])})['']
            rep.same_arr('depth-counts', r, np.array([[const(v) for v in want]] * 2, object), f'number of trees per depth for each sample, decision nodes {[sorted(s) for s in fo]}', F.where('debug.trace_depth_distr'))


def rule_points(rep):
    pl, fp, tp = (F.anchor('debug.' + k) for k in ('points_per_leaf_distr', 'forest_points_per_leaf_distr', 'trace_points_per_leaf_distr'))
    loc = F.where('debug.points_per_leaf_distr')

    def reference(s, sp, var, X, half, p, n):
        at = [route(X[:, j], var, sp, half, p) for j in range(n)]
        cnt = [total(eq(a, const(k)) for a in at) for k in leaves(s, half)]
        return [total(eq(c, const(q)) for c in cnt) for q in range(n + 1)]
    cases = [(1, 0, 2), (1, 3, 2), (2, 2, 2), (2, 3, 1), (4, 2, 1)] + ([(4, 2, 2), (2, 4, 1)] if rep.thorough else [])
    for half, n, p in cases:
        ir = F.trace(lambda var, split, X: pl(var, split, X), S((half,), jnp.uint8), S((half,), jnp.uint8), S((p, n), jnp.uint8),
                     argnames=['var', 'split', 'X'], label='debug.points_per_leaf_distr')
        rep.ir(ir)
        rep.config(f'{n} points, {p} predictors, trees of at most {level(2 * half)} levels')
        for s in shapes(half):
            sp = split_of('split', s, half)
            r = lifted.lift(ir, {'split': sp}, {'var': dict(lo=0, hi=p - 1), 'X': dict(lo=0, hi=9)})
            out = r['']
            want = reference(s, sp, r.inp['var'], r.inp['X'], half, p, n)
            w = f'[{n} points, decision nodes {sorted(s)}]'
            rep.ok('shape', out.shape == (n + 1,), f'one count per number of points {w}', loc, out.shape)
            for q in range(min(n + 1, out.shape[0])):
                rep.same('points-per-leaf', out[q], want[q], f'number of leaves with {q} points {w}', loc)
    # sums over trees, one row per sample
    half, p, n = 2, 2, 2
    sh = list(shapes(half))
    for fo in ([sh[0], sh[-1]], [sh[-1]], [sh[-1], sh[-1]]):
        m = len(fo)
        sp = np.array([[split_of(f's{q}{t}', s, half) for t, s in enumerate(fo)] for q in range(2)], object)
        rg = {'var_trees': dict(lo=0, hi=p - 1), 'bart.var_trees': dict(lo=0, hi=p - 1), 'X': dict(lo=0, hi=9)}
        for fn, label, dims, sel in ((fp, 'debug.forest_points_per_leaf_distr', (m, half), sp[0]), (tp, 'debug.trace_points_per_leaf_distr', (2, m, half), sp)):
            ir = F.trace(lambda b, X: fn(b, X), dict(var_trees=S(dims, jnp.uint8), split_trees=S(dims, jnp.uint8)), S((p, n), jnp.uint8),
                         argnames=['bart', 'X'], label=label)
            rep.ir(ir)
            r = lifted.lift(ir, {'bart.split_trees': sel}, rg)
            out = np.asarray(r[''])
            X, V = r.inp['X'], r.inp['bart.var_trees']
            outs, sels, Vs = (out, sel, V) if out.ndim == 2 else (out[None], sel[None], V[None])
            rep.ok('shape', outs.shape == ((1 if fn is fp else 2), n + 1), f'counts per sample {label}', F.where(label), out.shape)
            if outs.shape != ((1 if fn is fp else 2), n + 1):
                continue
            for i in range(len(outs)):
                parts = [reference(s, sels[i][t], Vs[i][t], X, half, p, n) for t, s in enumerate(fo)]
                for q in range(n + 1):
                    rep.same('points-per-leaf', outs[i][q], total(x[q] for x in parts), f'number of leaves with {q} points over {m} trees, sample {i}', F.where(label))
    # number of points at the boundaries of the integer types
    for n in (255, 256, 257):
        ir = F.trace(lambda var, split, X: pl(var, split, X), S((1,), jnp.uint8), S((1,), jnp.uint8), S((1, n), jnp.uint8), argnames=['var', 'split', 'X'],
                     label='debug.points_per_leaf_distr')
        r = lifted.lift(ir, {'split': split_of('split', (), 1), 'var': np.array([ZERO], object)})['']
        want = [ZERO] * n + [ONE]
        rep.same_arr('points-per-leaf', r, np.array(want + [None], object)[:-1], f'one leaf with all the {n} points', loc)


def rule_check(rep):
    ct = F.anchor('debug.check_tree')
    loc = F.where('debug.check_tree')
    names = [f.__name__ for f in F.anchor('debug.check_functions')]
    de = F.anchor('debug.describe_error')
    try:
        for code in range(1 << len(names)):
            want = [nm for i, nm in enumerate(names) if code >> i & 1]
            (_, said), = host.paths(de, [const(code)], {}, result=True)
            said = [x.literal() if isinstance(x, host.Text) else x for x in host.items(said)]
            rep.ok('describe', said == want, f'the error code {code} is described by the checks that fail', F.where('debug.describe_error'), said)
    except host.Raised as e:
        rep.ok('describe', False, 'the error code is described', F.where('debug.describe_error'), f'stops: {e}')
    except (host.Undecided, ValueError) as e:
        rep.notes.append(f'description of the errors not decided: {e}')
    bit = {k: i for i, k in enumerate(names)}
    need = ('check_types', 'check_sizes', 'check_unused_node', 'check_leaf_values', 'check_stray_nodes')
    for k in need:
        if k not in bit:
            raise F.MissingAnchor(f'debug.check_functions lacks {k}')

    def report(half, lhalf, p, vd, sd, md, fix, rng=None):
        ir = F.trace(lambda leaf, var, split, ms: ct(leaf, var, split, ms), S((2 * lhalf,), jnp.float32), S((half,), vd), S((half,), sd), S((p,), md),
                     argnames=['leaf', 'var', 'split', 'ms'], label='debug.check_tree')
        rep.ir(ir)
        r = lifted.lift(ir, fix, rng or {})
        return r[''][()], r

    # any pattern of decision nodes, valid or not
    for half in (1, 2, 4):
        good_leaf = np.array([const(k) for k in range(2 * half)], object)
        var = np.array([ZERO] * half, object)
        for r in range(half + 1):
            for s in itertools.combinations(range(half), r):
                sp = split_of('split', s, half)
                got, _ = report(half, half, 2, jnp.uint8, jnp.uint8, jnp.uint8, {'split': sp, 'leaf': good_leaf, 'var': var})
                stray = any(k >= 2 and k // 2 not in s for k in s if k >= 1)
                unused = 0 in s
                # a node whose parent is the unused node 0 does not exist
                want = (1 << bit['check_unused_node']) * unused + (1 << bit['check_stray_nodes']) * stray
                rep.same('check-structure', got, const(want), f'errors reported for decision nodes {s}', loc)
        # leaf values
        got, r = report(half, half, 2, jnp.uint8, jnp.uint8, jnp.uint8, {'split': split_of('split', (), half), 'var': var})
        fin = [a for a in T.all_atoms(got) if a.kind == 'fn' and a.args[0] == 'isfinite']
        want = {T.difference(T.leaf(T.rf_atom(a)), L.fn_nodes('isfinite', x)) is None and x.id for a in fin for x in r.inp['leaf']
                if T.difference(T.leaf(T.rf_atom(a)), L.fn_nodes('isfinite', x)) is None}
        rep.ok('check-leaves', want == {x.id for x in r.inp['leaf']}, f'finiteness of each of the {2 * half} leaf values is checked', loc, len(want))
        allfin = {a: ONE for a in fin}
        rep.same('check-leaves', T.Subst(allfin).node(got), ZERO, 'no error when all the leaf values are finite', loc)
        for a in fin:
            rep.same('check-leaves', T.Subst({**allfin, a: ZERO}).node(got), const(1 << bit['check_leaf_values']), 'error when a leaf value is not finite', loc)
        got, r = report(half, half, 2, jnp.uint8, jnp.uint8, jnp.uint8, {'split': split_of('split', (), half), 'leaf': good_leaf},
                        {'var': dict(lo=0, hi=255)})
        rep.same('check-unused', got, ite(ne(r.inp['var'][0], ZERO), const(1 << bit['check_unused_node']), ZERO), 'unused node has no axis', loc)
    # sizes around the largest values of the types of the indices of nodes
    for half in (64, 128, 256):
        d = half.bit_length()
        good_leaf = np.array([const(k) for k in range(2 * half)], object)
        var = np.array([ZERO] * half, object)
        for turns in ([0] * d, [1] * d, [i % 2 for i in range(d)]):
            spine, k = [], 1
            for b in turns[:d - 1]:
                spine.append(k)
                k = 2 * k + b
            for s in [spine, spine[:-1], spine[-1:]] + [spine[:i] + spine[i + 1:] for i in (0, 1, d - 4, d - 3)] + [spine + [half - 1], spine + [half // 2]]:
                s = sorted(set(s))
                sp = np.array([ZERO] * half, object)
                for k in s:
                    sp[k] = ONE
                got, _ = report(half, half, 2, jnp.uint8, jnp.uint8, jnp.uint8, {'split': sp, 'leaf': good_leaf, 'var': var})
                stray = any(k >= 2 and k // 2 not in s for k in s)
                rep.same('check-structure', got, const((1 << bit['check_stray_nodes']) * stray), f'errors reported for decision nodes {s}', loc)
    # types and sizes
    u8, u16 = jnp.uint8, jnp.uint16
    for half, lhalf, p, vd, sd, md in itertools.product((2,), (1, 2, 4), (2, 256, 257), (u8, u16), (u8, u16), (u8, u16)):
        lv = np.array([const(k) for k in range(2 * lhalf)], object)
        got, _ = report(half, lhalf, p, vd, sd, md, {'split': split_of('split', (), half), 'leaf': lv, 'var': np.array([ZERO] * half, object)})
        ty = vd == (u8 if p <= 256 else u16) and sd == md
        want = (1 << bit['check_types']) * (not ty) + (1 << bit['check_sizes']) * (half != lhalf)
        rep.same('check-types', got, const(want), f'types and sizes: axes {vd.__name__} with {p} predictors, cutpoints {sd.__name__}/{md.__name__}, sizes {lhalf}/{half}', loc)
    # one report per tree of each sample
    tr = F.anchor('debug.check_trace')
    half, m, q = 2, 2, 3
    sh = [(), (1,), (0,), (1, 0)]
    tree = {'leaf_trees': S((q, m, 2 * half), jnp.float32), 'var_trees': S((q, m, half), u8), 'split_trees': S((q, m, half), u8)}
    ir = F.trace(lambda t, s: tr(t, s), tree, {'max_split': S((2,), u8)}, argnames=['t', 's'], label='debug.check_trace')
    rep.ir(ir)
    sp = np.empty((q, m, half), object)
    want = np.empty((q, m), object)
    for i, (a, b) in enumerate(itertools.product(range(q), range(m))):
        s = sh[i % 4]
        sp[a, b] = split_of(f's{i}', s, half)
        want[a, b] = const((1 << bit['check_unused_node']) * (0 in s))
    lv = np.empty((q, m, 2 * half), object)
    lv[...] = ONE
    vr = np.empty((q, m, half), object)
    vr[...] = ZERO
    r = lifted.lift(ir, {'t.split_trees': sp, 't.leaf_trees': lv, 't.var_trees': vr})
    rep.same_arr('check-trace', r[''], want, 'one error code per tree of each sample', F.where('debug.check_trace'))
