"""Rules on the initial state of the sampler."""

import itertools

import numpy as np
import jax
from jax import numpy as jnp

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..model import Config
from ..terms import const, div, ge, gt, ite, mul, ZERO, ONE, TRUE, FALSE

FIELDS = ('leaf_trees', 'var_trees', 'split_trees', 'resid', 'sigma2', 'grow_prop_count', 'grow_acc_count',
          'prune_prop_count', 'prune_acc_count', 'p_nonterminal', 'p_propose_grow', 'sigma2_alpha', 'sigma2_beta',
          'max_split', 'y', 'X', 'leaf_indices')


def finite(n):
    """n with finiteness tests of symbols resolved to true"""
    m = {a: ONE for a in T.all_atoms(n) if a.kind == 'fn' and a.args[0] == 'isfinite'}
    return T.Subst(m).node(n) if m else n


def configs(rep):
    f16, f32 = jnp.float16, jnp.float32
    out = [Config(), Config(n=1, p=1, nt=1, d=1, min_points=False), Config(n=0, p=2, nt=2, d=2, resid_batch=None),
           Config(n=4, p=3, nt=2, d=4, save_ratios=True, count_batch=2, msdtype=jnp.uint16, max_split=1000),
           Config(n=5, p=1, nt=2, d=1, save_ratios=True), Config(n=3, p=2, nt=2, d=3, small=f16, min_points=False)]
    if rep.thorough:
        out += [Config(n=n, p=p, nt=nt, d=d, min_points=mp, save_ratios=sr) for n, p, nt, d, mp, sr in
                itertools.product((0, 2, 9), (1, 4), (1, 3), (1, 2, 3, 5), (True, False), (True, False))]
    return out


def int_capacity(dt):
    return jnp.issubdtype(dt, jnp.integer), int(jnp.iinfo(dt).max) if jnp.issubdtype(dt, jnp.integer) else -1


NAMES = ['X', 'y', 'max_split', 'p_nonterminal', 'alpha', 'beta', 'min_points']


def traced(cfg):
    """[(configuration, IR)]: for any requirement on the leaf size or, if the
    code looks at its value on the host, for given ones"""
    def go(c):
        return c, F.trace(c.init_fn(), *c.init_avals(), argnames=NAMES, label='mcmcstep.init')
    try:
        return [go(cfg)]
    except F.TraceFailure as e:
        if not cfg.min_points or not isinstance(e.exc, F.CONCRETE):
            raise
    return [go(cfg.with_(mp_value=v)) for v in sorted({0, 1, 2, cfg.n // 2, (cfg.n + 1) // 2, cfg.n, 5})]


def rule_init(rep):
    loc = F.where('mcmcstep.init')
    for cfg, ir in (x for c in configs(rep) for x in traced(c)):
        rep.ir(ir)
        rep.config(cfg)
        n, p, nt, half, full = cfg.n, cfg.p, cfg.nt, cfg.half, cfg.full
        r = lifted.lift(ir, None, {'alpha': dict(lo=0, pos=True), 'beta': dict(lo=0, pos=True), 'min_points': dict(lo=0, hi=2 ** 20)})
        av = dict(zip(ir.out_names, ir.closed.out_avals))
        inp = r.inp
        w = f'[{cfg}]'
        missing = [k for k in FIELDS if k not in r.out]
        rep.ok('fields', not missing, f'documented fields present {w}', loc, missing)
        if missing:
            continue

        def zeros(k, shape):
            a = r[k]
            rep.ok('zeros', a.shape == shape and all(x is ZERO for x in a.ravel()), f'{k} starts at zero {w}', loc,
                   f'shape {a.shape}, {[T.node_str(x, 1) for x in a.ravel()[:4]]}')
        zeros('leaf_trees', (nt, full))
        zeros('var_trees', (nt, half))
        zeros('split_trees', (nt, half))
        for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'):
            zeros(k, ())
        li = r['leaf_indices']
        rep.ok('all-at-root', li.shape == (nt, n) and all(x is ONE for x in li.ravel()), f'all points start at the root of every tree {w}', loc)
        rep.same_arr('data', r['y'], inp['y'], f'response {w}', loc)
        rep.same_arr('data', r['X'], inp['X'], f'predictors {w}', loc)
        rep.same_arr('data', r['max_split'], inp['max_split'], f'number of cutpoints {w}', loc)
        rep.same_arr('residuals', r['resid'], inp['y'], f'residuals of zero trees are the data {w}', loc)
        rep.same_arr('prior', r['sigma2_alpha'], inp['alpha'], f'noise prior shape {w}', loc)
        rep.same_arr('prior', r['sigma2_beta'], inp['beta'], f'noise prior scale {w}', loc)
        rep.same('noise-start', finite(r['sigma2'][()]), div(inp['beta'][()], inp['alpha'][()]),
                 f'noise variance starts at scale / shape of its prior {w}', loc)
        pn = inp['p_nonterminal']
        want = np.empty(cfg.d, object)
        want[:-1], want[-1] = pn, ZERO
        rep.same_arr('node-prior', r['p_nonterminal'], want, f'prior probability of splitting per level, zero at the last one {w}', loc)
        ppg = r['p_propose_grow']
        rep.ok('grow-weights', ppg.shape == (half,), f'one growth weight per non-bottom node {w}', loc, ppg.shape)
        for k in range(1, half):
            rep.same('grow-weights', ppg[k], want[k.bit_length() - 1], f'growth weight of node {k} is the prior probability of its level {w}', loc)
        if cfg.min_points:
            m = inp['min_points'][()] if cfg.mp_value is None else const(cfg.mp_value)
            rep.ok('min-points', 'min_points_per_leaf' in r.out and 'affluence_trees' in r.out, f'leaf size requirement stored {w}', loc)
            rep.same('min-points', r['min_points_per_leaf'][()], m, f'minimum leaf size stored {w}', loc)
            af = r['affluence_trees']
            rep.ok('growable', af.shape == (nt, half), f'growability mark per node {w}', loc, af.shape)
            for t in range(nt):
                for k in range(1, half):
                    rep.same('growable', T.truth(af[t, k]), ge(const(n), mul(const(2), m)) if k == 1 else FALSE,
                             f'node {k} of tree {t} starts growable iff it is the root and holds twice the minimum of points {w}', loc)
        else:
            rep.ok('min-points', 'min_points_per_leaf' not in r.out and 'affluence_trees' not in r.out, f'no leaf size requirement {w}', loc)
        has = sorted(k for k in r.out if k.startswith('ratios'))
        rep.ok('ratios', has == (['ratios.log_likelihood', 'ratios.log_trans_prior'] if cfg.save_ratios else []), f'ratios stored iff requested {w}', loc, has)
        for k in has:
            rep.ok('ratios', r[k].shape == (nt,), f'one {k} per tree {w}', loc, r[k].shape)
        # types
        for k, want in dict(leaf_trees=cfg.small, y=cfg.small, resid=cfg.large, sigma2=cfg.large, p_nonterminal=cfg.large,
                            p_propose_grow=cfg.large, sigma2_alpha=cfg.large, sigma2_beta=cfg.large).items():
            rep.ok('float-type', av[k].dtype == jnp.dtype(want), f'{k} has the requested float type {w}', loc, av[k].dtype)
        for k, top in dict(var_trees=p - 1, split_trees=cfg.max_split, leaf_indices=full - 1, X=cfg.max_split).items():
            ok, cap = int_capacity(av[k].dtype)
            rep.ok('int-type', ok and cap >= top, f'type of {k} holds values up to {top} {w}', loc, av[k].dtype)


def rule_init_noise(rep):
    """degenerate priors start the noise variance at one"""
    loc = F.where('mcmcstep.init')
    cfg = Config(n=3, p=1, nt=2, d=2)
    (cfg, ir), *_ = traced(cfg)
    rep.ir(ir)
    for what, fix in (('zero scale', {'beta': ZERO}), ('zero shape and scale', {'alpha': ZERO, 'beta': ZERO}),
                      ('zero shape', {'alpha': ZERO}), ('infinite scale', {'beta': L.INFTY})):
        r = lifted.lift(ir, fix, {'alpha': dict(lo=0, pos=True), 'beta': dict(lo=0, pos=True)})
        rep.same('noise-start', finite(r['sigma2'][()]), ONE, f'noise variance starts at one with {what}', loc)


def rule_capacity(rep):
    """integer types of the state hold all the values at the boundaries"""
    loc = F.where('mcmcstep.init')
    u8, u16, u32 = jnp.uint8, jnp.uint16, jnp.uint32
    for p in (1, 2, 255, 256, 257, 65535, 65536, 65537):
        for d in (1, 2, 7, 8, 9, 10):
            for ms, top in ((u8, 255), (u16, 65535), (u32, 10 ** 6)):
                cfg = Config(n=2, p=p, nt=1, d=d, msdtype=ms, max_split=top)
                st = cfg.state
                for k, t in dict(var_trees=p - 1, leaf_indices=2 ** d - 1, split_trees=top, X=top, max_split=top).items():
                    ok, cap = int_capacity(st[k].dtype)
                    rep.ok('int-type', ok and cap >= t, f'type of {k} holds values up to {t} ({p} predictors, depth {d}, cutpoints {ms.__name__})', loc, st[k].dtype)
        rep.config(f'p={p}, depths 1,2,7..10, cutpoint types uint8/16/32')


def rule_options(rep):
    """compile-time options of the state"""
    loc = F.where('mcmcstep.init')
    init = F.anchor('mcmcstep.init')
    S = F.S

    def opt(n, **kw):
        with F.guarded('mcmcstep.init'):
            st = jax.eval_shape(lambda X, y, ms: init(X=X, y=y, max_split=ms, num_trees=2, p_nonterminal=jnp.ones(2), sigma2_alpha=1., sigma2_beta=1., **kw),
                                S((2, n), jnp.uint8), S((n,), jnp.float32), S((2,), jnp.uint8))
        return st['opt']
    for rb, cb in itertools.product((None, 1, 3, 64), (None, 1, 4)):
        o = opt(10, resid_batch_size=rb, count_batch_size=cb)
        rep.ok('batch-option', o['resid_batch_size'] == rb and o['count_batch_size'] == cb, f'batch sizes {rb}, {cb} are used as given', loc, dict(o))
    for n in (0, 1, 2, 3, 5, 6, 7, 10, 100, 1000, 10 ** 5, 10 ** 6):
        o = opt(n)
        for k in ('resid_batch_size', 'count_batch_size'):
            v = o[k]
            rep.ok('batch-option', v is None or (isinstance(v, int) and v >= 1), f'automatic {k} with {n} points is a positive number or none', loc, v)
    for mp in (None, 0, 5):
        o = opt(10, min_points_per_leaf=mp)
        rep.ok('min-points-option', o['require_min_points'] == (mp is not None), f'leaf size requirement with min_points_per_leaf={mp}', loc, dict(o))
    for sf, lf in itertools.product((jnp.float16, jnp.float32), (jnp.float32,)):
        o = opt(3, small_float=sf, large_float=lf)
        rep.ok('float-option', o['small_float'] == jnp.dtype(sf) and o['large_float'] == jnp.dtype(lf), 'float types', loc, dict(o))
