"""Configurations and symbolic inputs shared by the rules."""

import functools
from fractions import Fraction

import numpy as np
import jax
from jax import numpy as jnp

from . import frontend as F
from . import lift as L
from . import terms as T
from . import lifted
from .terms import const


class Config:
    rounding = False    # casts to a narrower float type are opaque

    def __init__(self, n=7, p=2, nt=3, d=3, msdtype=jnp.uint8, max_split=9, min_points=True,
                 resid_batch=3, count_batch=None, save_ratios=False, small=jnp.float32, large=jnp.float32, deep=False, bulk=False, mp_value=None):
        self.__dict__.update(n=n, p=p, nt=nt, d=d, msdtype=jnp.dtype(msdtype), max_split=max_split,
                             min_points=min_points, resid_batch=resid_batch, count_batch=count_batch,
                             save_ratios=save_ratios, small=small, large=large, deep=deep, bulk=bulk, mp_value=mp_value)
        self.ident = repr(sorted(self.__dict__.items()))
        self.xdtype = self.msdtype

    def __repr__(self):
        return (f'n={self.n} p={self.p} trees={self.nt} depth={self.d} max_split<={self.max_split}:{self.msdtype.name} '
                f'min_points={self.min_points} resid_batch={self.resid_batch} count_batch={self.count_batch} '
                f'save_ratios={self.save_ratios}')

    def with_(self, **kw):
        import inspect
        names = [k for k in inspect.signature(Config.__init__).parameters if k != 'self']
        return Config(**{k: getattr(self, k) for k in names} | kw)

    @property
    def half(self):
        return 2 ** (self.d - 1)

    @property
    def full(self):
        return 2 ** self.d

    def init_fn(self):
        init = F.anchor('mcmcstep.init')
        cfg = self

        def make(X, y, max_split, p_nonterminal, alpha, beta, min_points):
            return init(X=X, y=y, max_split=max_split, num_trees=cfg.nt, p_nonterminal=p_nonterminal,
                        sigma2_alpha=alpha, sigma2_beta=beta, small_float=cfg.small, large_float=cfg.large,
                        min_points_per_leaf=None if not cfg.min_points else min_points if cfg.mp_value is None else cfg.mp_value,
                        resid_batch_size=cfg.resid_batch, count_batch_size=cfg.count_batch,
                        save_ratios=cfg.save_ratios)
        return make

    def init_avals(self):
        S = F.S
        return (S((self.p, self.n), self.xdtype), S((self.n,), jnp.float32), S((self.p,), self.msdtype),
                S((self.d - 1,), jnp.float32), S((), jnp.float32), S((), jnp.float32), S((), jnp.int32))

    @functools.cached_property
    def state(self):
        fn = self.init_fn()
        try:
            with F.guarded('mcmcstep.init'):
                return jax.eval_shape(fn, *self.init_avals())
        except F.TraceFailure as e:
            if self.mp_value is not None or not self.min_points or not isinstance(e.exc, F.CONCRETE):
                raise
            # the requirement is looked at on the host
            return self.with_(mp_value=5).state

    @functools.cached_property
    def moves(self):
        fn, st = F.anchor('mcmcstep.sample_moves'), self.state
        with F.guarded('mcmcstep.sample_moves'):
            return jax.eval_shape(fn, st, F.KEY)

    def state_ranges(self, pre='bart.'):
        r = {
            'X': dict(lo=0, hi=self.max_split),
            'max_split': dict(lo=0, hi=self.max_split),
            'var_trees': dict(lo=0, hi=self.p - 1),
            'split_trees': dict(lo=0, hi=self.max_split),
            'leaf_indices': dict(lo=1, hi=self.full - 1),
            'sigma2': dict(lo=0, pos=True),
            'sigma2_alpha': dict(lo=0, pos=True),
            'sigma2_beta': dict(lo=0, pos=True),
            'p_nonterminal': dict(lo=0, hi=lambda i: 0 if i == self.d - 1 else 1, pos=True),
            'p_propose_grow': dict(lo=0, hi=1, pos=True),
            'min_points_per_leaf': dict(lo=0, hi=2 ** 20),
            'grow_prop_count': dict(lo=0, hi=self.nt), 'grow_acc_count': dict(lo=0, hi=self.nt),
            'prune_prop_count': dict(lo=0, hi=self.nt), 'prune_acc_count': dict(lo=0, hi=self.nt),
        }
        return {pre + k: v for k, v in r.items()}

    def moves_ranges(self, pre='moves.'):
        r = {
            'num_growable': dict(lo=0, hi=self.half),
            'partial_ratio': dict(lo=0, pos=True),
            'grow_var': dict(lo=0, hi=self.p - 1),
            'grow_split': dict(lo=1, hi=self.max_split),
            'var_trees': dict(lo=0, hi=self.p - 1),
            'logu': dict(hi=0),
            'node': dict(lo=1, hi=self.full),
            'left': dict(lo=2, hi=2 * self.full),
            'right': dict(lo=3, hi=2 * self.full + 1),
        }
        return {pre + k: v for k, v in r.items()}


def arr(vals):
    a = np.empty(len(vals), object)
    for i, v in enumerate(vals):
        a[i] = v if isinstance(v, T.Node) else const(v)
    return a


def atom(node):
    """The single atom of a plain-variable node."""
    (m, c), = node.rf.num.items()
    return T.ATOMS[m[0][0]]


def descendants(i, size):
    out, todo = set(), [i]
    while todo:
        k = todo.pop()
        if k < size:
            out.add(k)
            todo += [2 * k, 2 * k + 1]
    return out


def ancestors(i):
    out = []
    i //= 2
    while i:
        out.append(i)
        i //= 2
    return out
