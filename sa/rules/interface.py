"""Shapes, types, formats and units at the interface."""

import itertools
from fractions import Fraction

import numpy as np
import jax
from jax import numpy as jnp
from jax import tree_util
from jax.experimental import enable_x64

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from ..model import Config
from ..terms import const, add, mul
from . import gb
from .mutation import Frame, columns_of

GB = 'BART.gbart'
CONCRETE = F.CONCRETE


# ------------------------------------------------------------ whole interface

class Call:
    """One call of gbart, with abstract data."""

    def __init__(self, n=7, p=2, m=3, x=jnp.float32, y=jnp.float32, xt=None, **kw):
        self.n, self.p, self.m, self.x, self.y, self.xt, self.kw = n, p, m, x, y, x if xt is None else xt, kw

    def __repr__(self):
        return f'x {jnp.dtype(self.x).name}[{self.p},{self.n}] y {jnp.dtype(self.y).name} test {self.m} ' + ' '.join(f'{k}={v}' for k, v in self.kw.items())

    def get(self, k):
        return self.kw.get(k, dict(ndpost=2, nskip=1, maxdepth=6, ntree=3).get(k))


def calls(rep):
    C = Call
    base = [
        C(), C(n=0, usequants=True), C(n=0, usequants=True, lamda=1., offset=0.), C(n=1), C(n=2, p=3), C(n=2, p=2), C(n=3, p=2), C(p=1),
        C(maxdepth=1), C(maxdepth=2), C(maxdepth=1, n=1, p=1, ntree=1), C(maxdepth=9, ntree=1),
        C(numcut=1), C(numcut=255), C(numcut=256), C(numcut=300, usequants=True), C(usequants=True, numcut=1), C(n=6, usequants=True, numcut=2),
        C(x=jnp.int32), C(x=jnp.int32, usequants=True), C(x=jnp.uint8, usequants=True), C(x=jnp.uint8), C(x=jnp.int16, y=jnp.int32), C(x=jnp.uint32, usequants=True),
        C(x=jnp.float16, usequants=True), C(x=jnp.bfloat16), C(y=jnp.int32), C(y=jnp.float16), C(x=jnp.int32, xt=jnp.float32), C(x=jnp.float32, xt=jnp.int32),
        C(nskip=0), C(ndpost=0), C(ndpost=0, nskip=0), C(ndpost=3, nskip=2, keepevery=4), C(ndpost=1, nskip=0, keepevery=2), C(keepevery=0),
        C(m=None), C(m=0), C(m=1), C(p=255, n=3), C(p=256, n=3), C(p=257, n=3),
        C(initkw=dict(save_ratios=True)), C(initkw=dict(small_float=jnp.float16)), C(initkw=dict(large_float=jnp.float16, small_float=jnp.float16)), C(initkw=dict(min_points_per_leaf=None)), C(initkw=dict(resid_batch_size=None, count_batch_size=2)),
        C(initkw=dict(count_batch_size=None, resid_batch_size=3)), C(initkw=dict(save_ratios=True, min_points_per_leaf=None), nskip=0),
        C(sigest=1, lamda=None), C(lamda=2, offset=1), C(lamda=2., offset=1., sigest=3.), C(sigdf=4., sigquant=.5, k=1, power=1., base=1), C(seed='key'), C(seed='int64'), C(seed='uint8'), C(seed='uint32'), C(seed='jint32'), C(seed='juint8'), C(seed=2 ** 32 + 5), C(seed=-1), C(printevery=1),
        # numbers as numpy scalars
        C(numcut=np.int64(5), ndpost=np.int64(2), nskip=np.int64(1), keepevery=np.int64(2), printevery=np.int64(2), ntree=np.int64(3), maxdepth=np.int64(4)),
        C(numcut=np.int32(5), ndpost=np.int32(2), nskip=np.int32(0), ntree=np.int32(2), maxdepth=np.int32(3), usequants=np.bool_(True)), C(numcut=np.uint8(100), usequants=True, maxdepth=np.uint8(6), ntree=np.uint8(200)),
        C(k=np.float64(2), power=np.int64(2), base=np.float64(.9), sigdf=np.int64(3), sigquant=np.float32(.9), sigest=np.float64(1)), C(lamda=np.float32(1), offset=np.int64(0), y=jnp.int8),
        C(y=jnp.int8), C(y=jnp.uint8, n=2), C(y=jnp.uint32, offset=3, n=3, p=3),
        C(k='traced', power='traced', base='traced', sigdf='traced', sigquant='traced', sigest='traced'), C(lamda='traced', offset='traced'),
    ]
    if rep.thorough:
        for n, p, d, uq in itertools.product((0, 1, 2, 3, 8), (1, 2, 3), (1, 2, 3, 6), (False, True)):
            if n or uq:
                base.append(C(n=n, p=p, maxdepth=d, usequants=uq))
        for x, y, uq in itertools.product((jnp.float32, jnp.float16, jnp.int8, jnp.int16, jnp.int32, jnp.uint8, jnp.uint16, jnp.uint32), (jnp.float32, jnp.int32, jnp.uint8), (False, True)):
            base.append(C(x=x, y=y, usequants=uq, n=5))
        for a, b, c, m in itertools.product((0, 1, 3), (0, 1, 3), (1, 3), (None, 0, 2)):
            base.append(C(ndpost=a, nskip=b, keepevery=c, m=m, maxdepth=3))
    return base


def rule_matrix(rep):
    """every documented way of calling gbart works and gives arrays of the documented shapes and types"""
    loc = F.where(GB)
    cls = F.anchor(GB)
    S = F.S
    for c in calls(rep):
        matrix(rep, cls, c, f'[{c}]', loc)
    with enable_x64():
        for c in (Call(), Call(n=1, usequants=True, nskip=0), Call(x=jnp.float64, y=jnp.float64, usequants=True), Call(x=jnp.int64, y=jnp.int64), Call(p=3, n=2, initkw=dict(large_float=jnp.float64))):
            matrix(rep, cls, c, f'[{c}, 64 bit types enabled]', loc)


def matrix(rep, cls, c, w, loc):
    S = F.S
    rep.config(w)
    traced = [k for k, v in c.kw.items() if isinstance(v, str) and v == 'traced']
    seed = c.kw.get('seed')
    if isinstance(seed, str) and seed != 'key':
        seed = jnp.asarray(np.ones((), seed[1:])) if seed[0] == 'j' else np.dtype(seed).type(1)

    def go(x, y, xt, key, *tr):
        kw = dict(ntree=3, ndpost=2, nskip=1, maxdepth=c.get('maxdepth'))
        kw.update(c.kw)
        kw.update(zip(traced, tr))
        if kw.get('seed') == 'key':
            kw['seed'] = key
        elif seed is not None:
            kw['seed'] = seed
        if c.m is not None:
            kw['x_test'] = xt
        g = cls(x, y, **kw)
        out = {k: getattr(g, k) for k in ('offset', 'scale', 'lamda', 'sigma', 'first_sigma', 'yhat_train', 'yhat_train_mean')}
        if g.sigest is not None:
            out['sigest'] = g.sigest
        for k in ('yhat_test', 'yhat_test_mean'):
            if hasattr(g, k):
                out[k] = getattr(g, k)
        out['predict'] = g.predict(xt)
        return tree_util.tree_map(jnp.asarray, out), None
    m = 2 if c.m is None else c.m
    try:
        ir = F.trace(go, S((c.p, c.n), c.x), S((c.n,), c.y), S((c.p, m), c.xt), F.KEY, *[S((), jnp.float32)] * len(traced), label=GB)
    except F.TraceFailure as e:
        if isinstance(e.exc, CONCRETE):
            if traced:  # parameters need not be abstract
                return
            raise RuntimeError(f'gbart uses the concrete value of an input: {e}') from e
        rep.ok('works', False, f'gbart accepts a documented configuration {w}', e.loc, f'{type(e.exc).__name__}: {e.exc}')
        return
    rep.ok('works', True, f'gbart accepts a documented configuration {w}', loc)
    rep.ir(ir)
    got = {k[2:]: v for k, v in zip(ir.out_names, ir.closed.out_avals)}
    nd, nb = c.get('ndpost'), c.get('nskip')
    want = dict(offset=(), scale=(), lamda=(), sigma=(nd,), first_sigma=(nb,), yhat_train=(nd, c.n), yhat_train_mean=(c.n,), predict=(nd, m))
    if c.m is not None:
        want |= dict(yhat_test=(nd, m), yhat_test_mean=(m,))
    if c.kw.get('lamda') is None:
        want |= dict(sigest=())
    rep.ok('outputs', set(want) == set(got), f'documented results present {w}', loc, sorted(set(want) ^ set(got)))
    for k in want:
        if k not in got:
            continue
        rep.ok('shape', got[k].shape == want[k], f'shape of {k} {w}', loc, f'{got[k].shape} instead of {want[k]}')
        scalar_given = k in ('offset', 'lamda', 'scale')
        if not scalar_given:
            rep.ok('type', L.is_float(got[k].dtype), f'{k} is a floating point array {w}', loc, got[k].dtype)
        if k in ('sigma', 'first_sigma', 'yhat_train', 'yhat_test', 'predict'):
            rep.ok('type', jnp.dtype(got[k].dtype).itemsize >= 4, f'{k} has at least single precision {w}', loc, got[k].dtype)


# ------------------------------------------------------------ stability of the state

def describe(tree):
    return {F.path_name(p): (v.shape, v.dtype) for p, v in tree_util.tree_flatten_with_path(tree)[0]}


def state_configs(rep):
    C = Config
    out = [C(), C(save_ratios=True), C(min_points=False), C(min_points=False, save_ratios=True), C(d=1), C(d=2), C(d=1, save_ratios=True, nt=1, p=1, n=1),
           C(n=1), C(n=2, p=3), C(msdtype=jnp.uint16, max_split=300), C(d=8, nt=1), C(d=9, nt=1), C(p=255, n=2), C(p=256, n=2), C(p=257, n=2),
           C(resid_batch=None, count_batch=None), C(resid_batch=None, count_batch=2), C(resid_batch=2, count_batch=3),
           C(large=jnp.float32, small=jnp.float16), C(large=jnp.float32, small=jnp.bfloat16), C(large=jnp.float16, small=jnp.float16, save_ratios=True)]
    if rep.thorough:
        out += [C(n=n, p=p, d=d, nt=nt, save_ratios=s, min_points=mp) for n in (1, 4) for p in (1, 3) for d in (1, 2, 4, 10) for nt in (1, 2)
                for s in (False, True) for mp in (False, True)]
    return out


def rule_state_types(rep):
    """an iteration maps a state to a state of the same form"""
    for c in state_configs(rep):
        state_types(rep, c, f'[{c}]')
    with enable_x64():
        C = Config
        for c in (C(), C(save_ratios=True), C(min_points=False, save_ratios=True, large=jnp.float64), C(d=2, large=jnp.float64, small=jnp.float64, resid_batch=None)):
            state_types(rep, c, f'[{c}, large float {jnp.dtype(c.large).name}, 64 bit types enabled]')


def state_types(rep, c, w):
    rep.config(w)
    with F.guarded('mcmcstep.init'):
        st = c.state
    a = describe(st)
    for path, args in (('mcmcstep.step', (st, F.KEY)), ('mcmcstep.sample_trees', (st, F.KEY)), ('mcmcstep.sample_sigma', (st, F.KEY)),
                       ('mcmcstep.accept_moves_and_sample_leaves', (st, None, F.KEY))):
        fn = F.anchor(path)
        loc = F.where(path)
        if args[1] is None:
            args = (st, c.moves, F.KEY)
        with F.guarded(path):
            closed, out = jax.make_jaxpr(fn, return_shape=True)(*args)
        rep.analysed[path] = max(rep.analysed.get(path, 0), F.count_eqns(closed.jaxpr))
        b = describe(out)
        rep.ok('fields', set(a) == set(b), f'{path} keeps the fields of the state {w}', loc, sorted(set(a) ^ set(b)))
        for k in a:
            if k in b:
                rep.ok('field-type', a[k] == b[k], f'{path} keeps shape and type of {k} {w}', loc, f'{a[k]} becomes {b[k]}')
        rep.ok('tree', tree_util.tree_structure(st) == tree_util.tree_structure(out), f'{path} keeps the structure of the state {w}', loc, tree_util.tree_structure(out))


def rule_transforms(rep):
    """the step can be vectorised over chains and compiled"""
    for c in (Config(), Config(save_ratios=True, min_points=False), Config(d=1), Config(d=2, resid_batch=None, count_batch=2)):
        rep.config(c)
        st = c.state
        step = F.anchor('mcmcstep.step')
        loc = F.where('mcmcstep.step')
        w = f'[{c}]'
        arrays = lambda s: tree_util.tree_map(lambda x: F.S((2,) + x.shape, x.dtype), s)
        with F.guarded('mcmcstep.step'):
            out = jax.eval_shape(jax.vmap(step), arrays(st), jax.eval_shape(lambda: jax.random.split(jax.random.key(0), 2)))
        a, b = describe(st), describe(out)
        rep.ok('vectorised', set(a) == set(b) and all(b[k] == ((2,) + a[k][0], a[k][1]) for k in a), f'the step can be run on several chains at once {w}', loc)
        cb = lambda **kw: None
        run = F.anchor('mcmcloop.run_mcmc')
        with F.guarded('mcmcloop.run_mcmc'):
            fs, bt, mt = jax.eval_shape(lambda s, k: run(s, 2, 3, 1, cb, k), st, F.KEY)
        b = describe(fs)
        rep.ok('final-state', a == b, f'the final state of a run can be the initial one of another {w}', F.where('mcmcloop.run_mcmc'), [k for k in set(a) | set(b) if a.get(k) != b.get(k)])


# ------------------------------------------------------------ formats

STATIC = {'mcmcloop.run_mcmc': ('n_burn', 'n_save', 'n_skip', 'callback')}


def table(x, names, kind):
    """data frame of a (p, n) abstract array"""
    import pandas
    cols = pandas.Index(names) if kind == 'pandas' else list(names)
    return Frame(x.T, [], 'frame', cols)


def series(y):
    return Frame(y, [], 'series')


def attempt(fn, *avals):
    """exception raised by the analysed sources while lowering, or None"""
    try:
        with F.guarded(GB):
            jax.make_jaxpr(fn)(*avals)
    except F.TraceFailure as e:
        if isinstance(e.exc, CONCRETE):
            raise RuntimeError(f'gbart uses the concrete value of an input: {e}') from e
        return e
    return None


def rule_rejected(rep):
    """inconsistent inputs are rejected"""
    cls = F.anchor(GB)
    loc = F.where(GB)
    S = F.S
    f = jnp.float32
    kw = dict(ntree=2, ndpost=2, nskip=1, maxdepth=3)
    x, y, x3, x1 = S((2, 5), f), S((5,), f), S((3, 5), f), S((1, 5), f)
    ab, ba, abc, ac = ['a', 'b'], ['b', 'a'], ['a', 'b', 'c'], ['a', 'c']

    def A(v):
        return v
    bad = []
    for uq, given in itertools.product((False, True), ({}, dict(lamda=1.), dict(sigest=1.), dict(lamda=1., offset=0.))):
        k = kw | dict(usequants=uq) | given
        uq = ', '.join([str(uq), *given])
        bad += [
            (f'training response shorter than the predictors (usequants={uq})', lambda x, y, k=k: cls(x, y[:-1], **k), (x, y)),
            (f'training response longer than the predictors (usequants={uq})', lambda x, y, k=k: cls(x[:, :-1], y, **k), (x, y)),
            (f'single response for many points (usequants={uq})', lambda x, y, k=k: cls(x, y[:1], **k), (x, y)),
            (f'single point for many responses (usequants={uq})', lambda x, y, k=k: cls(x[:, :1], y, **k), (x, y)),
            (f'transposed predictors (usequants={uq})', lambda x, y, k=k: cls(x.T, y, **k), (x, y)),
            (f'predictors not a matrix (usequants={uq})', lambda x, y, k=k: cls(x[0], y, **k), (x, y)),
            (f'predictors with three axes (usequants={uq})', lambda x, y, k=k: cls(x[None], y, **k), (x, y)),
            (f'response with two axes (usequants={uq})', lambda x, y, k=k: cls(x, y[None], **k), (x, y)),
            (f'response as column (usequants={uq})', lambda x, y, k=k: cls(x, y[:, None], **k), (x, y)),
            (f'response with equal axes (usequants={uq})', lambda x, y, k=k: cls(x, jnp.outer(y, y), **k), (x, y)),
            (f'no response for one point (usequants={uq})', lambda x, y, k=k: cls(x[:, :1], y[:0], **k), (x, y)),
            (f'no point for one response (usequants={uq})', lambda x, y, k=k: cls(x[:, :0], y[:1], **k), (x, y)),
        ]
    def pred(tr, te):
        def go(*a):
            g = cls(tr(a[0]), a[1], **kw)
            return g.predict(te(a[2]))
        return go

    def ctor(tr, te):
        def go(*a):
            return cls(tr(a[0]), a[1], x_test=te(a[2]), **kw).sigma
        return go
    for how, mk in (('predict', pred), ('x_test', ctor)):
        bad += [
            (f'{how} with more predictors than in training', mk(A, A), (x, y, x3)),
            (f'{how} with fewer predictors than in training', mk(A, A), (x, y, x1)),
            (f'{how} with one vector', mk(A, lambda v: v[0]), (x, y, x)),
            (f'{how} with three axes', mk(A, lambda v: v[:, None]), (x, y, x)),
        ]
        for kind in ('pandas', 'polars'):
            df = lambda names, kind=kind: (lambda v: table(v, names, kind))
            bad += [
                (f'{how} on an array after training on a {kind} dataframe', mk(df(ab), A), (x, y, x)),
                (f'{how} on a {kind} dataframe after training on an array', mk(A, df(ab)), (x, y, x)),
                (f'{how} with reordered {kind} columns', mk(df(ab), df(ba)), (x, y, x)),
                (f'{how} with another {kind} column', mk(df(ab), df(ac)), (x, y, x)),
                (f'{how} with additional {kind} columns', mk(df(ab), df(abc)), (x, y, x3)),
                (f'{how} with missing {kind} columns', mk(df(abc), df(ab)), (x3, y, x)),
            ]
    # the size of the response against a dataframe
    bad += [('dataframe longer than the response', lambda x, y: cls(table(x, ab, 'pandas'), y[1:], **kw), (x, y)),
            ('series shorter than the predictors', lambda x, y: cls(x, series(y[1:]), **kw), (x, y)),
            ('training data transposed in a dataframe', lambda x, y: cls(Frame(x, [], 'x', ['c%d' % i for i in range(5)]), y, **kw), (x, y))]
    with F.summarize('mcmcloop.run_mcmc', 'mcmcloop.evaluate_trace', static=STATIC):
        for what, fn, av in bad:
            e = attempt(lambda *a: (fn(*a), 0)[1], *av)
            rep.config(what)
            rep.ok('rejected', e is not None, f'rejected: {what}', loc, 'accepted without error')
    rep.analysed[GB] = max(rep.analysed.get(GB, 0), len(bad))


def rule_accepted(rep):
    """dataframes and series mean the same as the arrays they hold"""
    cls = F.anchor(GB)
    loc = F.where(GB)
    S = F.S
    for xd, uq, n, m in ((jnp.float32, False, 4, 3), (jnp.float32, True, 4, 3), (jnp.int32, False, 4, 3), (jnp.float32, False, 2, 0), (jnp.float32, True, 1, 1), (jnp.float32, True, 0, 1)):
        kw = dict(ntree=2, ndpost=2, nskip=1, maxdepth=3, usequants=uq)
        res = {}
        for kind in ('array', 'pandas', 'polars', 'mixed'):
            def go(x, y, xt):
                if kind == 'array':
                    a, b, c, d = x, y, xt, xt
                elif kind == 'mixed':
                    a, b, c, d = x, series(y), xt, xt
                else:
                    a, b, c, d = table(x, ['u', 'v'], kind), series(y), table(xt, ['u', 'v'], kind), table(xt, ['u', 'v'], kind)
                g = cls(a, b, x_test=c, **kw)
                out = {k: getattr(g, k, None) for k in ('offset', 'scale', 'lamda', 'sigma', 'first_sigma', 'yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean')}
                return {k: v for k, v in out.items() if v is not None} | dict(predict=g.predict(d))
            with F.summarize(*gb.SUMMARIES, static=gb.STATIC):
                try:
                    ir = F.trace(go, S((2, n), xd), S((n,), jnp.float32), S((2, m), xd), argnames=['x', 'y', 'xt'], label=GB)
                except F.TraceFailure as e:
                    if isinstance(e.exc, CONCRETE):
                        raise RuntimeError(f'gbart uses the concrete value of an input: {e}') from e
                    rep.ok('accepted', False, f'{kind} input is accepted ({n} points, {m} test points, usequants={uq})', e.loc, e)
                    continue
            rep.ir(ir)
            r = gb.lifted.lift(ir, None, {}, lifter=gb.lifted.SummaryLifter(call_ranges=gb.RANGES))
            res[kind] = r
            rep.ok('accepted', True, f'{kind} input is accepted', loc)
        ref = res.get('array')
        for kind, r in res.items():
            if kind == 'array' or ref is None:
                continue
            rep.ok('same-result', set(r.out) == set(ref.out), f'{kind} input gives the same results as arrays ({n} points, {m} test points, usequants={uq})', loc, sorted(set(r.out) ^ set(ref.out)))
            for k in sorted(set(ref.out) & set(r.out)):
                rep.same_arr('same-result', r[k], ref[k], f'{k} from {kind} input equals the one from arrays (usequants={uq}, {jnp.dtype(xd).name})', loc)
            for a, b in zip(r.lifter.calls, ref.lifter.calls):
                good = a['name'] == b['name'] and set(a['args']) == set(b['args'])
                rep.ok('same-calls', good, f'same computation for {kind} input', loc, (a['name'], b['name']))
                if good:
                    for k in a['args']:
                        rep.same_arr('same-data', a['args'][k], b['args'][k], f'{a["name"]} gets the same {k} from {kind} input (usequants={uq}, {jnp.dtype(xd).name})', loc)
            rep.ok('same-calls', len(r.lifter.calls) == len(ref.lifter.calls), f'same computation for {kind} input', loc, len(r.lifter.calls))


# ------------------------------------------------------------ units of the response

def rule_units(rep):
    """change of units of the response"""
    loc = F.where(GB)
    SU = gb.Setup
    cs = [SU(), SU(usequants=True), SU(n=2, p=2), SU(n=3, p=1, given=('lamda',)), SU(n=3, p=1, given=('sigest',)), SU(n=4, p=1, given=('offset',)),
          SU(n=3, p=1, given=('lamda', 'offset')), SU(n=4, p=2, defaults=True), SU(n=3, p=2, given=('sigest', 'offset'), maxdepth=2)]
    if rep.thorough:
        cs += [SU(n=n, p=p, given=g) for n in (2, 3, 5) for p in (1, 2, 3) for g in ((), ('lamda',), ('sigest',), ('offset',), ('lamda', 'offset'))]
    for s in cs:
        def tr(d):
            a, b = d['scale_y'], d['shift_y']
            d = dict(d)
            d['y'] = a * d['y'] + b
            if 'lamda' in d:
                d['lamda'] = a * a * d['lamda']
            if 'sigest' in d:
                d['sigest'] = a * d['sigest']
            if 'offset' in d:
                d['offset'] = a * d['offset'] + b
            return d
        R0 = gb.Run(s, rep)
        R1 = gb.Run(s, None, transform=(('scale_y', 'shift_y'), tr))
        a, b = R1.inp['scale_y'][()], R1.inp['shift_y'][()]
        w = f'[{s}]'
        c0, c1 = R0.mcmc(), R1.mcmc()
        rep.ok('sampler-invariant', set(c0['args']) == set(c1['args']), f'same kind of sampler {w}', loc)
        for k in c0['args']:
            if k in c1['args'] and k != 'key':
                rep.same_arr('sampler-invariant', c1['args'][k], c0['args'][k], f'the sampler gets the same {k} in any units of the response {w}', loc)

        def scaled(k, f):
            if k not in R0.r.out:
                return
            v = R0.r[k]
            want = np.empty(v.shape, object)
            for i in np.ndindex(*v.shape):
                want[i] = f(v[i])
            rep.same_arr('units', R1.r[k], want, f'{k} follows the units of the response {w}', loc, root=k in ('sigest', 'sigma', 'first_sigma'))
        for k in ('offset', 'yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean', 'predict'):
            scaled(k, lambda v: add(mul(a, v), b))
        for k in ('scale', 'sigest', 'sigma', 'first_sigma'):
            scaled(k, lambda v: mul(a, v))
        scaled('lamda', lambda v: mul(mul(a, a), v))
