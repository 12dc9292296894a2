"""Rules on the MCMC loop (mcmcloop.run_mcmc) with the iteration as an opaque call."""

import numpy as np
import jax
from jax import numpy as jnp
from jax import tree_util

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..model import Config
from ..terms import const

ANCHOR = 'mcmcloop.run_mcmc'
BURN = ('sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')
MAIN = BURN + ('leaf_trees', 'var_trees', 'split_trees')
CBARGS = ('bart', 'burnin', 'i_total', 'i_skip', 'n_burn', 'n_save', 'n_skip')


def recorder(got):
    """A user callback: leaves one call node in the IR at each invocation."""
    def callback(*args, **kw):
        got.append((len(args), tuple(sorted(kw))))
        flat, _ = tree_util.tree_flatten_with_path(kw)
        leaves = [jnp.asarray(v) for _, v in flat]
        F.summary_p.bind(*leaves, out_avals=(), name='callback', in_names=tuple(F.path_name(p) for p, _ in flat),
                         out_names=(), static=F._Static({}, None))
    return callback


def run_ir(cfg, nb, ns, nk, got):
    fn = F.anchor(ANCHOR)
    cb = recorder(got)
    return F.trace(lambda bart, key: fn(bart, nb, ns, nk, cb, key), cfg.state, F.KEY, argnames=['bart', 'key'], label=ANCHOR)


def long_schedules(rep):
    """phases at the capacity of the 8-bit integers"""
    return [(258, 1, 1), (1, 2, 258), (0, 258, 1), (130, 65, 2)]


def schedules(rep):
    out = [(0, 0, 1), (2, 0, 1), (0, 2, 1), (3, 2, 1), (2, 3, 2), (1, 2, 3), (0, 1, 4)]
    if rep.thorough:
        out += [(a, b, c) for a in range(4) for b in range(4) for c in (1, 2, 3, 5)]
    return out


def configs(rep):
    return [Config(n=2, p=1, nt=2, d=2, min_points=False), Config(n=3, p=2, nt=1, d=3, save_ratios=True)]


def runs(rep):
    with F.summarize('mcmcstep.step'):
        for cfg in configs(rep):
            for s in schedules(rep) + (long_schedules(rep) if cfg.n == 2 else []):
                got = []
                ir = run_ir(cfg, *s, got)
                rep.ir(ir)
                rep.config(f'burn-in {s[0]}, saved {s[1]}, thinning {s[2]}, {cfg}')
                r = lifted.lift(ir, None, cfg.state_ranges())
                steps = [c for c in r.lifter.calls if c['name'] == 'mcmcstep.step']
                fin = {k[2:]: v for k, v in r.out.items() if k.startswith('0.')}
                start = state_of(r, None)
                idle = set(fin) == set(start) and all(same_all(fin[k], start[k]) for k in start)
                # nothing at all is done to the state: no iteration is done; else it may be done without calling the function
                rep.require(len(steps) + idle, 'calls of the iteration in the loop')
                yield cfg, s, ir, r, steps, [c for c in r.lifter.calls if c['name'] == 'callback'], got


def same_all(a, b):
    return a.shape == b.shape and all(x is y for x, y in zip(a.ravel(), b.ravel()))


def state_of(r, call, pre='bart.'):
    """fields of the state before/after a call"""
    if call is None:
        return {k[len(pre):]: v for k, v in r.inp.items() if k.startswith(pre)}
    return call['out']


def rule_run(rep):
    loc = F.where(ANCHOR)
    for cfg, (nb, ns, nk), ir, r, steps, _, _ in runs(rep):
        w = f'[burn-in {nb}, saved {ns}, thinning {nk}]'
        rep.ok('iterations', len(steps) == nb + ns * nk, f'number of iterations {w}', loc, len(steps))
        if len(steps) != nb + ns * nk:
            continue
        prev = state_of(r, None)
        for i, c in enumerate(steps):
            args = {k[5:]: v for k, v in c['args'].items() if k.startswith('bart.')}
            bad = [k for k in prev if k not in args or not same_all(args[k], prev[k])]
            rep.ok('chain', not bad and set(args) == set(prev), f'iteration {i} starts from the state left by the previous one {w}', c['loc'], bad)
            prev = c['out']
        out = {}
        for nm in r.out:
            head, _, rest = nm.partition('.')
            out.setdefault(head, {})[rest] = r.out[nm]
        heads = sorted(out)
        fin = out.get('0', {})
        bad = [k for k in prev if k not in fin or not same_all(fin[k], prev[k])]
        rep.ok('final', not bad and set(fin) == set(prev), f'final state is the one left by the last iteration {w}', loc, bad)
        before = state_of(r, None)
        for head, want, idx, what in (('1', BURN, list(range(nb)), 'burn-in trace'),
                                      ('2', MAIN, [nb + (j + 1) * nk - 1 for j in range(ns)], 'main trace')):
            tr = out.get(head, {})
            extra = [k for k in tr if k not in want and not k.startswith('ratios')]
            rep.ok('fields', not extra and all(k in tr for k in want), f'{what} has the documented fields {w}', loc, sorted(tr))
            rat = [k for k in tr if k.startswith('ratios')]
            rep.ok('fields', sorted(rat) == sorted(k for k in before if k.startswith('ratios')) or (not rat), f'{what} has all the ratios or none {w}', loc, rat)
            for k, a in tr.items():
                if k not in before:
                    continue
                rep.ok('trace-length', a.shape == (len(idx),) + before[k].shape, f'{what} of {k} has one entry per recorded iteration {w}', loc, a.shape)
                if a.shape != (len(idx),) + before[k].shape:
                    continue
                bad = [j for j, i in enumerate(idx) if not same_all(np.asarray(a[j]), steps[i]['out'][k])]
                rep.ok('trace-value', not bad, f'{what} of {k} holds the states after iterations {idx} {w}', loc, f'wrong entries {bad}')
        rep.ok('outputs', heads == ['0', '1', '2'], f'state and two traces are returned {w}', loc, heads)
    # same types whatever the lengths
    cfg = configs(rep)[1]
    fn = F.anchor(ANCHOR)
    cb = recorder([])
    ref = None
    for s in schedules(rep) + long_schedules(rep):
        with F.guarded(ANCHOR):
            res = jax.eval_shape(lambda bart, key: fn(bart, *s, cb, key), cfg.state, F.KEY)
        sig = [{F.path_name(p): (tuple(v.shape[1:]), str(v.dtype)) for p, v in tree_util.tree_flatten_with_path(t)[0]} for t in res[1:]]
        ref = ref or sig
        rep.ok('trace-types', sig == ref, f'fields and types of the traces do not depend on the lengths of the phases {s}', loc, sig)
        st = {F.path_name(p): (tuple(v.shape), str(v.dtype)) for p, v in tree_util.tree_flatten_with_path(res[0])[0]}
        st0 = {F.path_name(p): (tuple(v.shape), str(v.dtype)) for p, v in tree_util.tree_flatten_with_path(cfg.state)[0]}
        rep.ok('state-types', st == st0, f'the final state has the fields and types of the initial one {s}', loc, {k: v for k, v in st.items() if st0.get(k) != v})


def rule_callback(rep):
    loc = F.where(ANCHOR)
    n = 0
    for cfg, (nb, ns, nk), ir, r, steps, cbs, got in runs(rep):
        w = f'[burn-in {nb}, saved {ns}, thinning {nk}]'
        rep.ok('by-keyword', all(g == (0, tuple(sorted(CBARGS))) for g in got), f'callback gets the documented arguments by keyword {w}', loc, got[:2])
        rep.ok('once', len(cbs) == len(steps), f'callback invoked once per iteration {w}', loc, f'{len(cbs)} calls, {len(steps)} iterations')
        if len(cbs) != len(steps):
            continue
        order = [c['name'] for c in r.lifter.calls if c['name'] in ('callback', 'mcmcstep.step')]
        for i, (c, s) in enumerate(zip(cbs, steps)):
            a = c['args']
            if not all(k in a for k in CBARGS[1:]):
                rep.ok('arguments', False, f'callback arguments {w}', loc, sorted(a))
                continue
            st = {k[5:]: v for k, v in a.items() if k.startswith('bart.')}
            bad = [k for k in s['out'] if k not in st or not same_all(st[k], s['out'][k])]
            rep.ok('state', not bad, f'callback {i} sees the state left by its iteration {w}', c['loc'], bad)
            burn = i < nb
            want = dict(burnin=int(burn), i_total=i, i_skip=i if burn else (i - nb) % nk, n_burn=nb, n_save=ns, n_skip=nk)
            for k, v in want.items():
                rep.same('arguments', T.truth(a[k][()]) if k == 'burnin' else a[k][()], const(v), f'{k} passed to callback {i} {w}', c['loc'])
                n += 1
            rep.ok('unconditional', T.isconst(c['guard']) and T.constval(c['guard']) == 1, f'callback {i} is not skipped {w}', c['loc'])
    rep.require(n, 'callback invocations', 20)
