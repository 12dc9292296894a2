"""Independence of results from earlier calls (hidden state)."""

import numpy as np
import jax
from jax import numpy as jnp
from jax import tree_util

from .. import frontend as F
from .. import lift as L
from .. import lifted
from . import gb
from ..model import Config
from .mutation import Frame


class SharedLifter(lifted.SummaryLifter):
    """Opaque calls with equal arguments have equal results across lifts."""
    table = {}

    def p_summary(self, e, *ins):
        p = e.params
        key = (p['name'], repr(sorted((k, str(v)) for k, v in p['static'].values.items() if k != 'callback')),
               p['in_names']) + tuple(x.id for a in ins for x in a.ravel())
        cid = self.table.setdefault(key, len(self.table))
        for a, v in zip(ins, e.invars):
            if L.is_key(v.aval.dtype):
                for k in a.ravel():
                    self.use_key(k, 'call', e, p['name'])
        rng = self.call_ranges.get(p['name'], {})
        outs = [L.make_input(f'{p["name"]}@{cid}.{nm}', v.aval.shape, v.aval.dtype, **rng.get(nm, {}))
                for nm, v in zip(p['out_names'], e.outvars)]
        self.calls.append(dict(key=key, id=cid, name=p['name'], args=dict(zip(p['in_names'], ins)), static=p['static'].values,
                               guard=self.guard, loc=L.eqn_loc(e), out=dict(zip(p['out_names'], outs))))
        return outs


def compare(rep, what, loc, alone, after, names, avals, label, ranges=None, summaries=False):
    """values of a call alone == values of the same call after others"""
    res = []
    for fn in (alone, after):
        ir = F.trace(fn, *avals, argnames=names, label=label)
        rep.ir(ir)
        res.append(lifted.lift(ir, None, ranges or {}, lifter=SharedLifter(call_ranges=gb.RANGES)))
    a, b = res
    rep.ok('history', set(a.out) == set(b.out), f'{what}: same results after other calls', loc, sorted(set(a.out) ^ set(b.out)))
    for k in a.out:
        if k in b.out and not (a[k].size and L.is_key(dict(zip(a.ir.out_names, a.ir.closed.out_avals))[k].dtype)):
            rep.same_arr('history', b[k], a[k], f'{what}: {k} does not depend on earlier calls', loc)


def slice_of(fn, avals, label):
    """backward slice of the IR from the results, as canonical lines"""
    from jax.interpreters import partial_eval as pe
    with F.guarded(label):
        closed = jax.make_jaxpr(fn)(*avals)
    j, used = pe.dce_jaxpr(closed.jaxpr, [True] * len(closed.jaxpr.outvars))
    consts = dict(zip(closed.jaxpr.constvars, closed.consts))
    return canonical(j, [_value(consts[v]) for v in j.constvars]), used, F.count_eqns(closed.jaxpr)


def _value(c):
    a = np.asarray(c)
    return f'{a.dtype}{a.shape}{a.tolist()}'


def canonical(jaxpr, consts=()):
    """lines that identify a jaxpr up to the names of its variables"""
    names, out = {}, []
    for i, v in enumerate(jaxpr.invars):
        names[v] = f'in{i}'
    for v, c in zip(jaxpr.constvars, consts):
        names[v] = c

    def ref(v):
        if hasattr(v, 'val'):
            return _value(v.val)
        return names[v]

    def par(v):
        if hasattr(v, 'jaxpr') and hasattr(v, 'consts'):
            return tuple(canonical(v.jaxpr, [_value(c) for c in v.consts]))
        if hasattr(v, 'eqns'):
            return tuple(canonical(v))
        if isinstance(v, (tuple, list)):
            return tuple(par(x) for x in v)
        if callable(v):
            return getattr(v, '__name__', type(v).__name__)
        return repr(v)
    for k, e in enumerate(jaxpr.eqns):
        for i, v in enumerate(e.outvars):
            names[v] = f'v{k}.{i}'
        out.append((e.primitive.name, tuple(ref(v) for v in e.invars), tuple((q, par(v)) for q, v in sorted(e.params.items())),
                    tuple(str(v.aval) for v in e.outvars)))
    out.append(tuple(ref(v) for v in jaxpr.outvars))
    return out


def sliced(rep, what, loc, alone, after, own, others):
    """the slice of a call is the same alone and after a call on other data"""
    n = len(tree_util.tree_leaves(own))
    a, ua, na = slice_of(alone, own + others, what)
    b, ub, nb = slice_of(after, own + others, what)
    rep.analysed[what] = max(rep.analysed.get(what, 0), nb)
    rep.ok('history', not any(ub[n:]), f'{what}: results do not depend on the arguments of an earlier call', loc, ub)
    d = next(((x, y) for x, y in zip(a, b) if x != y), None) or (len(a) != len(b))
    rep.ok('history', not d, f'{what}: same computation after an earlier call', loc, str(d)[:600])


def rule_interface(rep):
    """a fit, and each prediction, do not depend on what was computed before"""
    cls = F.anchor('BART.gbart')
    loc = F.where('BART.gbart')
    S, f = F.S, jnp.float32

    def attrs(g):
        return {k: jnp.asarray(getattr(g, k)) for k in ('offset', 'scale', 'lamda', 'sigma', 'first_sigma', 'yhat_train', 'yhat_train_mean')}
    for uq, n, p in ((False, 4, 2), (True, 3, 1)):
        kw = dict(ntree=2, ndpost=2, nskip=1, maxdepth=3, numcut=4, usequants=uq)
        av = [S((p, n), f), S((n,), f), S((p, 3), f)] * 2
        names = ['x', 'y', 'xt', 'x0', 'y0', 'xt0']
        w = f'[n={n} p={p} usequants={uq}]'
        rep.config(w)

        def alone(x, y, xt, x0, y0, xt0):
            return attrs(cls(x, y, **kw)) | dict(predict=cls(x, y, **kw).predict(xt), test=cls(x, y, x_test=xt, **kw).yhat_test)

        def after(x, y, xt, x0, y0, xt0):
            g0 = cls(x0, y0, x_test=xt0, k=3, power=1, seed=1, initkw=dict(min_points_per_leaf=3), **kw)
            g0.yhat_train, g0.yhat_train_mean, g0.predict(xt)
            g = cls(x, y, x_test=xt, **kw)
            test = g.yhat_test
            g.predict(xt0)
            pr = g.predict(xt)
            g0.predict(xt0)
            return attrs(g) | dict(predict=pr, test=test)

        def swapped(x, y, xt, x0, y0, xt0):
            g = cls(x, y, x_test=xt0, **kw)
            g.yhat_train_mean
            pr = g.predict(xt)
            cls(x0, y0, **kw).yhat_train
            return attrs(g) | dict(predict=pr, test=g.predict(xt))
        with F.summarize(*gb.SUMMARIES, static=gb.STATIC):
            compare(rep, f'fit after another {w}', loc, alone, after, names, av, 'BART.gbart')
            compare(rep, f'predictions in another order {w}', loc, alone, swapped, names, av, 'BART.gbart')


def rule_inputs_now(rep):
    """predictions use the present content of their argument"""
    cls = F.anchor('BART.gbart')
    loc = F.where('BART.gbart')
    S, f = F.S, jnp.float32

    class Changing(Frame):
        def put(self, v):
            self.__dict__['_v'] = v
    n = 0
    for uq, kind in ((False, 'frame'), (True, 'frame'), (False, 'array'), (True, 'array')):
        kw = dict(ntree=2, ndpost=2, nskip=1, maxdepth=3, numcut=4, usequants=uq)
        w = f'[{kind}, usequants={uq}]'
        rep.config(w)
        cols = ['a', 'b']
        wrap = (lambda v, c: Frame(v.T, [], 'x', cols)) if kind == 'frame' else (lambda v, c: v)
        if kind == 'frame':
            def again(x, y, xt, x0):
                g = cls(Frame(x.T, [], 'x', cols), y, **kw)
                o = Changing(x0.T, [], 'x_test', cols)
                g.predict(o)
                o.put(xt.T)
                return dict(predict=g.predict(o))

            def fitted(x, y, xt, x0):
                o = Changing(x.T, [], 'x', cols)
                g = cls(o, y, x_test=o, **kw)
                o.put(x0.T)
                return dict(train=g.yhat_train, predict=g.predict(Frame(xt.T, [], 'x', cols)), test=g.yhat_test)
            av = [S((2, 3), f), S((3,), f), S((2, 2), f), S((2, 2), f)]
            runs = [('predictions', lambda x, y, xt, x0: dict(predict=cls(wrap(x, 0), y, **kw).predict(wrap(xt, 0))), again),
                    ('fit', lambda x, y, xt, x0: (lambda g: dict(train=g.yhat_train, predict=g.predict(wrap(xt, 0)), test=g.yhat_test))(cls(wrap(x, 0), y, x_test=wrap(x, 0), **kw)), fitted)]
        else:
            old, new = np.array([[0., 1.], [2., 3.]], np.float32), np.array([[5., 4.], [.5, 7.]], np.float32)

            def again(x, y):
                g = cls(x, y, **kw)
                o = old.copy()
                g.predict(o)
                o[...] = new
                return dict(predict=g.predict(o))
            av = [S((2, 3), f), S((3,), f)]
            runs = [('predictions', lambda x, y: dict(predict=cls(x, y, **kw).predict(new)), again)]
        with F.summarize(*gb.SUMMARIES, static=gb.STATIC):
            for what, alone, after in runs:
                compare(rep, f'{what} after the argument was modified {w}', loc, alone, after, ['x', 'y', 'xt', 'x0'][:len(av)], av, 'BART.gbart')
                n += 1
    rep.require(n, 'modified arguments', 4)


def rule_functions(rep):
    """the public functions keep no state between calls"""
    S, f = F.S, jnp.float32
    cfg = Config(n=3, p=2, nt=2, d=2)
    st = cfg.state
    rng = cfg.state_ranges() | cfg.state_ranges('other.')
    A = F.anchor
    for c in (cfg, Config(n=4, p=3, nt=2, d=4, save_ratios=True, min_points=False)):
        st2 = c.state
        for path, args in (('mcmcstep.step', (st2, F.KEY)), ('mcmcstep.sample_moves', (st2, F.KEY)), ('mcmcstep.sample_sigma', (st2, F.KEY)),
                           ('mcmcstep.accept_moves_and_sample_leaves', (st2, c.moves, F.KEY))):
            fn, k = A(path), len(args)
            sliced(rep, path, F.where(path), lambda *a: fn(*a[:k]), lambda *a: (fn(*a[k:]), fn(*a[:k]))[1], args, args)
    init = cfg.init_fn()
    path = 'mcmcstep.init'
    av = cfg.init_avals()
    nm = ['X', 'y', 'max_split', 'pn', 'alpha', 'beta', 'mp']
    compare(rep, path, F.where(path), lambda *a: init(*a[:7]), lambda *a: (init(*a[7:]), init(*a[:7]))[1],
            nm + [k + '0' for k in nm], av + av, path)
    run = A('mcmcloop.run_mcmc')
    cb = lambda **kw: None
    path = 'mcmcloop.run_mcmc'
    with F.summarize('mcmcstep.step'):
        compare(rep, path, F.where(path), lambda bart, key, other, key0: run(bart, 1, 2, 2, cb, key),
                lambda bart, key, other, key0: (run(other, 1, 2, 2, cb, key0), run(bart, 1, 2, 2, cb, key))[1],
                ['bart', 'key', 'other', 'key0'], (st, F.KEY) * 2, path, rng)
        compare(rep, path + ' continued', F.where(path), lambda bart, key, other, key0: run(bart, 0, 2, 1, cb, key),
                lambda bart, key, other, key0: (run(other, 2, 2, 1, cb, key0), run(bart, 0, 2, 1, cb, key))[1],
                ['bart', 'key', 'other', 'key0'], (st, F.KEY) * 2, path, rng)
    X = S((2, 3), f)
    for path, extra in (('prepcovars.uniform_splits_from_matrix', (4,)), ('prepcovars.quantilized_splits_from_matrix', (3,))):
        fn = A(path)
        compare(rep, path, F.where(path), lambda X, X0: fn(X, *extra), lambda X, X0: (fn(X0, *extra), fn(X, *extra))[1], ['X', 'X0'], (X, X), path)
    path = 'prepcovars.bin_predictors'
    fn = A(path)
    compare(rep, path, F.where(path), lambda X, s, X0, s0: fn(X, s), lambda X, s, X0, s0: (fn(X0, s0), fn(X, s0), fn(X0, s), fn(X, s))[3],
            ['X', 's', 'X0', 's0'], (X, S((2, 2), f)) * 2, path)
    tr = tree_util.tree_map(lambda x: S((2,) + x.shape, x.dtype), {k: st[k] for k in ('leaf_trees', 'var_trees', 'split_trees')})
    path = 'mcmcloop.evaluate_trace'
    fn = A(path)
    rngt = {f'{t}.{k}': v for t in ('trace', 'trace0') for k, v in (('var_trees', dict(lo=0, hi=1)), ('split_trees', dict(lo=0, hi=9)))} | {'X': dict(lo=0, hi=9), 'X0': dict(lo=0, hi=9)}
    XB = S((2, 2), cfg.xdtype)
    compare(rep, path, F.where(path), lambda trace, X, trace0, X0: fn(trace, X),
            lambda trace, X, trace0, X0: (fn(trace0, X0), fn(trace, X0), fn(trace0, X), fn(trace, X))[3], ['trace', 'X', 'trace0', 'X0'], (tr, XB) * 2, path, rngt)
