"""Inputs are never modified."""

import inspect

import numpy as np
import jax
from jax import numpy as jnp
from jax import tree_util

from .. import frontend as F
from .. import lift as L
from ..model import Config
from . import loop


def snapshot(x):
    """Structure of containers with the identity of what they hold."""
    if isinstance(x, dict):
        return (type(x).__name__, id(x), tuple((k, snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), tuple(snapshot(v) for v in x))
    return id(x)


def diff(a, b, path='argument'):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2]:
        x, y = a[2], b[2]
        if x and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], str):
            dx, dy = dict(x), dict(y)
            for k in sorted(set(dx) | set(dy)):
                if k not in dx:
                    return f'{path}: entry {k!r} added'
                if k not in dy:
                    return f'{path}: entry {k!r} removed'
                r = diff(dx[k], dy[k], f'{path}[{k!r}]')
                if r:
                    return r
            return f'{path}: entries reordered'
    return f'{path}: value replaced'


def copied(tree):
    """fresh containers, same leaves"""
    if type(tree) is dict:
        return {k: copied(v) for k, v in tree.items()}
    if type(tree) in (list, tuple):
        return type(tree)(copied(v) for v in tree)
    if isinstance(tree, dict):
        return type(tree)(tree)
    return tree


def watch(rep, path, call, *avals, label=None):
    """Trace call(*containers) and compare the containers before and after."""
    loc = F.where(path)
    out = []

    def go(*args):
        args = [copied(a) for a in args]
        before = [snapshot(a) for a in args]
        res = call(*args)
        out.append([(diff(b, snapshot(a))) for a, b in zip(args, before)])
        return res
    with F.guarded(path):
        closed = jax.make_jaxpr(go)(*avals)
    rep.analysed[path] = max(rep.analysed.get(path, 0), F.count_eqns(closed.jaxpr))
    bad = donated(closed.jaxpr)
    rep.ok('donation', not bad, f'{path} does not give away the buffers of its arguments {label or ""}', loc, bad)
    for i, d in enumerate(out[-1]):
        rep.ok('containers', d is None, f'{path} leaves its container argument {i} as given {label or ""}', loc, d)


def donated(jaxpr):
    """inputs handed over to compiled calls for reuse of their memory"""
    mine, bad = set(jaxpr.invars), []
    for e in jaxpr.eqns:
        d = e.params.get('donated_invars', ())
        bad += [f'{e.params.get("name")} at {L.eqn_loc(e)}' for v, x in zip(e.invars, d) if x and not hasattr(v, 'val') and v in mine]
    return bad


def rule_containers(rep):
    cfgs = [Config(n=3, p=2, nt=2, d=3, save_ratios=True), Config(n=3, p=2, nt=2, d=2, min_points=False), Config(n=2, p=1, nt=1, d=1, save_ratios=True)]
    A = F.anchor
    for cfg in cfgs:
        rep.config(cfg)
        st, mv, K = cfg.state, cfg.moves, F.KEY
        w = f'[{cfg}]'
        watch(rep, 'mcmcstep.step', lambda b, k: A('mcmcstep.step')(b, k), st, K, label=w)
        watch(rep, 'mcmcstep.sample_trees', lambda b, k: A('mcmcstep.sample_trees')(b, k), st, K, label=w)
        watch(rep, 'mcmcstep.sample_moves', lambda b, k: A('mcmcstep.sample_moves')(b, k), st, K, label=w)
        watch(rep, 'mcmcstep.sample_sigma', lambda b, k: A('mcmcstep.sample_sigma')(b, k), st, K, label=w)
        watch(rep, 'mcmcstep.accept_moves_and_sample_leaves', lambda b, m, k: A('mcmcstep.accept_moves_and_sample_leaves')(b, m, k), st, mv, K, label=w)
        cb = loop.recorder([])
        for s in ((1, 2, 2), (0, 0, 1)):
            watch(rep, 'mcmcloop.run_mcmc', lambda b, k: A('mcmcloop.run_mcmc')(b, *s, cb, k), st, K, label=w)
        pr = A('mcmcloop.make_simple_print_callback')(3)
        watch(rep, 'mcmcloop.make_simple_print_callback', lambda b, i: pr(bart=b, burnin=True, i_total=i, i_skip=i, n_burn=1, n_save=1, n_skip=1) or (), st, F.S((), jnp.int32), label=w)
        with F.guarded('mcmcloop.run_mcmc'):
            _, bt, mt = jax.eval_shape(lambda b, k: A('mcmcloop.run_mcmc')(b, 1, 2, 1, cb, k), st, K)
        watch(rep, 'mcmcloop.evaluate_trace', lambda t, X: A('mcmcloop.evaluate_trace')(t, X), mt, F.S((cfg.p, 4), cfg.xdtype), label=w)
        watch(rep, 'debug.check_trace', lambda t, s: A('debug.check_trace')(t, s), mt, st, label=w)
        watch(rep, 'debug.trace_points_per_leaf_distr', lambda t, X: A('debug.trace_points_per_leaf_distr')(t, X), mt, F.S((cfg.p, 4), cfg.xdtype), label=w)


class Probe:
    """An array given by the user: reads go to the abstract value, in-place
    operations are recorded."""

    def __init__(self, val, log, name):
        self.__dict__.update(_v=val, _log=log, _name=name)

    def __jax_array__(self):
        return self._v

    shape = property(lambda s: s._v.shape)
    ndim = property(lambda s: s._v.ndim)
    size = property(lambda s: s._v.size)
    dtype = property(lambda s: s._v.dtype)
    T = property(lambda s: Probe(s._v.T, s._log, s._name))

    def _hit(self, what):
        fr = inspect.currentframe().f_back.f_back
        self._log.append((self._name, what, f'{fr.f_code.co_name}:{fr.f_lineno}'))

    def __setitem__(self, k, v):
        self._hit('item assignment')

    def __setattr__(self, k, v):
        self._hit(f'attribute assignment .{k}')

    def __len__(self):
        return self._v.shape[0]

    def __getitem__(self, k):
        return Probe(self._v[k], self._log, self._name)

    def __getattr__(self, k):
        if k.startswith('__') or k in ('columns', 'to_numpy', 'name', 'index'):
            raise AttributeError(k)
        if k in ('sort', 'fill', 'partition', 'put', 'itemset', 'resize', 'byteswap', 'setflags'):
            def f(*a, **kw):
                self._hit(f'.{k}()')
            return f
        if k in ('reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view'):
            return lambda *a, **kw: Probe(getattr(self._v, k)(*a, **kw), self._log, self._name)
        return getattr(self._v, k)


def _inplace(op):
    def f(self, other):
        self._hit(f'in-place {op}')
        return self
    return f


def _binary(op):
    def f(self, *other):
        return getattr(self._v, op)(*[o._v if isinstance(o, Probe) else o for o in other])
    return f


for _o in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor', 'lshift', 'rshift', 'matmul'):
    setattr(Probe, f'__i{_o}__', _inplace(_o))
    setattr(Probe, f'__{_o}__', _binary(f'__{_o}__'))
    setattr(Probe, f'__r{_o}__', _binary(f'__r{_o}__'))
for _o in ('neg', 'pos', 'abs', 'invert', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(Probe, f'__{_o}__', _binary(f'__{_o}__'))
Probe.__hash__ = object.__hash__


class Frame:
    """Dataframe / series given by the user."""

    def __init__(self, val, log, name, columns=None):
        self.__dict__.update(_v=val, _log=log, _name=name)
        if columns is not None:
            self.__dict__['columns'] = columns
        else:
            self.__dict__['name'] = 'y'

    def to_numpy(self, *a, **kw):
        return Probe(self._v, self._log, self._name)

    values = property(lambda s: Probe(s._v, s._log, s._name))
    shape = property(lambda s: s._v.shape)

    def __len__(self):
        return self._v.shape[0]

    def _rec(self, what):
        self._log.append((self._name, what, ''))

    def __setitem__(self, k, v):
        self._rec('item assignment')

    def __setattr__(self, k, v):
        self._rec(f'attribute assignment .{k}')

    def __delitem__(self, k):
        self._rec('item deletion')

    def __getitem__(self, k):
        if 'columns' in self.__dict__:
            if isinstance(k, str):
                return Frame(self._v[:, list(self.columns).index(k)], self._log, self._name)
            if isinstance(k, (list, tuple)) or hasattr(k, 'tolist'):
                i = [list(self.columns).index(c) for c in k]
                return Frame(self._v[:, np.array(i)], self._log, self._name, type(self.columns)(k))
        return Frame(self._v[k], self._log, self._name)

    def __getattr__(self, k):
        if k in ('pop', 'insert', 'update', 'drop_in_place', 'insert_column', 'sort', 'clear', 'extend', 'fill'):
            def f(*a, **kw):
                self._rec(f'.{k}()')
            return f
        raise AttributeError(k)


for _o in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor'):
    def _f(self, other, _o=_o):
        self._rec(f'in-place {_o}')
        return self
    setattr(Frame, f'__i{_o}__', _f)


def columns_of(kind):
    if kind == 'pandas':
        import pandas
        return pandas.Index(['a', 'b'])
    return ['a', 'b']


def rule_user_arrays(rep):
    gb = F.anchor('BART.gbart')
    loc = F.where('BART.gbart')
    S = F.S
    sig = inspect.signature(gb.__init__)
    dflt = {k: snapshot(v.default) for k, v in sig.parameters.items() if isinstance(v.default, (dict, list))}
    with F.summarize('mcmcloop.run_mcmc', 'mcmcloop.evaluate_trace', static={'mcmcloop.run_mcmc': ('n_burn', 'n_save', 'n_skip', 'callback')}):
        for kind in ('array', 'pandas', 'polars'):
            for uq in (False, True):
                for xd in (jnp.float32, jnp.int32):
                    log, kws = [], []

                    def go(x, y, xt):
                        if kind != 'array':
                            c1, c2 = columns_of(kind), columns_of(kind)
                            X, Y, XT = Frame(x.T, log, 'x_train', c1), Frame(y, log, 'y_train'), Frame(xt.T, log, 'x_test', c2)
                        else:
                            X, Y, XT = Probe(x, log, 'x_train'), Probe(y, log, 'y_train'), Probe(xt, log, 'x_test')
                        kw = dict(save_ratios=True, resid_batch_size=None)
                        before = snapshot(kw)
                        g = gb(X, Y, x_test=XT, usequants=uq, ntree=2, ndpost=2, nskip=1, maxdepth=3, initkw=kw)
                        kws.append(diff(before, snapshot(kw), 'initkw'))
                        p = g.predict(XT)
                        if kind != 'array':
                            kws.append(None if X.columns is c1 and XT.columns is c2 and list(c1) == list(c2) == ['a', 'b'] else 'columns changed')
                        return g.sigma, g.yhat_train, p
                    w = f'[{kind} input, usequants={uq}, {jnp.dtype(xd).name} predictors]'
                    try:
                        with F.guarded('BART.gbart'):
                            c = jax.make_jaxpr(go)(S((2, 5), xd), S((5,), jnp.float32), S((2, 3), xd))
                    except Exception:
                        if not log:
                            raise
                    else:
                        rep.analysed['BART.gbart'] = F.count_eqns(c.jaxpr)
                        bad = donated(c.jaxpr)
                        rep.ok('donation', not bad, f'the buffers of the arrays of the user are not given away {w}', loc, bad)
                    rep.config(w)
                    for nm in ('x_train', 'y_train', 'x_test'):
                        hits = [h for h in log if h[0] == nm]
                        rep.ok('user-array', not hits, f'{nm} is not modified {w}', loc, hits)
                    rep.ok('user-dict', not any(kws), f'the dictionary of sampler options is not modified {w}', loc, kws)
    now = {k: snapshot(v.default) for k, v in inspect.signature(gb.__init__).parameters.items() if isinstance(v.default, (dict, list))}
    rep.ok('defaults', dflt == now, 'default arguments are not modified by calls', loc, [k for k in dflt if dflt[k] != now.get(k)])
