"""Automatic batching is transparent."""

import warnings
import math

import numpy as np
import jax
from jax import numpy as jnp

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted

ANCHOR = 'jaxext.autobatch'


def funcs():
    """(name, function, argument shapes for batch size s, in axes, out axes, elements of input+output)"""
    f32, f16, u8, i32 = jnp.float32, jnp.float16, jnp.uint8, jnp.int32
    S = F.S
    return [
        ('rows', lambda a, b: a * b[:, None] + 1, lambda s: (S((s, 2), f32), S((s,), f32)), 0, 0),
        ('mixed axes', lambda a, b, c: ((a * b[:, None]).sum(1), c - b[None, :]), lambda s: (S((s, 3), f32), S((s,), f32), S((2, s), f32)), (0, 0, 1), (0, 1)),
        ('shared argument', lambda a, b: {'x': a + b, 'y': [jnp.stack([a * b, a])]}, lambda s: (S((s,), f32), S((), f32)), (0, None),
         {'x': 0, 'y': [1]}),
        ('shared first', lambda w, t: (t['u'] @ w, t['v'][:, 0] + t['u'][:, 0]), lambda s: (S((2,), f32), {'u': S((s, 2), f32), 'v': S((s, 1), f32)}), (None, {'u': 0, 'v': 0}), 0),
        ('integer', lambda a: (a.astype(f32) * 2, a), lambda s: (S((2, s), u8),), 1, (1, 1)),
        ('last axis', lambda a: a + 1, lambda s: (S((2, s), i32),), -1, -1),
        ('third axis', lambda a, b: (a + b[:, None], jnp.moveaxis(a, 2, 0) * 2), lambda s: (S((2, 3, s), f32), S((2, s), f32)), (2, 1), (2, 0)),
        ('third axis from the end', lambda a: jnp.moveaxis(a, 0, 2), lambda s: (S((s, 2, 3), f32),), -3, -1),
        ('inner axis of four', lambda a: a * 3, lambda s: (S((2, 3, s, 2), f32),), 2, -2),
        ('middle axis', lambda a, b: jnp.swapaxes(a, 0, 2) * b, lambda s: (S((2, s, 1), f32), S((s, 1), f32)), (1, 0), 1),
    ]


def nbytes(tree):
    return sum(math.prod(x.shape) * x.dtype.itemsize for x in jax.tree_util.tree_leaves(tree))


def batched_part(args, axes):
    axes = axes if isinstance(axes, (tuple, list)) else [axes] * len(args)
    return [a for a, x in zip(args, axes) if x is not None]


def rule_autobatch(rep):
    ab = F.anchor(ANCHOR)
    loc = F.where(ANCHOR)
    sizes = (0, 1, 2, 3, 4, 6, 7) if not rep.thorough else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 14)
    n = 0
    for name, f, mk, ia, oa in funcs():
        for s in sizes:
            args = mk(s)
            ref_ir = F.trace(f, *args, argnames=None, label='reference')
            ref = lifted.lift(ref_ir)
            outs = jax.eval_shape(f, *args)
            total = nbytes(batched_part(args, ia)) + nbytes(outs)
            per = total // s if s else 0
            lims = sorted({1, max(1, per - 1), max(1, per), per + 1, max(1, 2 * per), max(1, 2 * per - 1), max(1, 3 * per + 1), max(1, total - 1), max(1, total), total + 1, 10 ** 9})
            for lim in lims:
                for count in (False, True):
                    w = f'[{name}, batch axis of {s}, limit {lim} of {total} bytes]'
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter('always')
                        nb = []

                        def go(*a):
                            r = ab(f, lim, ia, oa, count)(*a) if count else ab(f, lim, ia, oa)(*a)
                            if count:
                                r, k = r
                                nb.append(k)
                                return r, k
                            return r
                        ir = F.trace(go, *args, label=ANCHOR)
                    rep.ir(ir)
                    r = lifted.lift(ir)
                    got = r.out
                    if count:
                        ks = [v for k, v in got.items() if k == '1']
                        got = {k[2:] if k.startswith('0.') else k.removeprefix('0'): v for k, v in got.items() if k != '1'}
                        k = int(T.constval(ks[0][()])) if T.isconst(ks[0][()]) else None
                        good = k is not None and k >= 1 and (s % k == 0)
                        rep.ok('batches', good, f'the batch axis is divided evenly {w}', loc, k)
                        if good and total:
                            fits = total // k <= lim
                            rep.ok('limit', fits or k == s, f'a batch exceeds the limit only if it cannot be divided further {w}', loc, f'{k} batches of {total // k} bytes')
                            warned = any(issubclass(x.category, UserWarning) and 'max_io_nbytes' in str(x.message) for x in ws)
                            rep.ok('warning', warned == (not fits), f'a warning is given iff the limit is exceeded {w}', loc, f'{k} batches, warned: {warned}')
                    av = dict(zip(ir.out_names, ir.closed.out_avals))
                    rv = dict(zip(ref_ir.out_names, ref_ir.closed.out_avals))
                    rep.ok('outputs', set(got) == set(ref.out), f'same outputs {w}', loc, f'{sorted(got)} {sorted(ref.out)}')
                    for k in ref.out:
                        if k not in got:
                            continue
                        a = av[k if not count else ('0.' + k if k else '0')]
                        rep.ok('types', (a.shape, a.dtype) == (rv[k].shape, rv[k].dtype), f'same type of output {k!r} {w}', loc, a)
                        rep.same_arr('value', got[k], ref.out[k], f'output {k!r} is the one of the unbatched function {w}', loc)
                    n += 1
        rep.config(f'{name}, batch axis of {sizes}, limits around one, two and all the items')
    rep.require(n, 'batched calls', 200)
