"""Obtains the IR of the code in /repo with JAX's own front end.

`jax.make_jaxpr` lowers Python functions to jaxpr from abstract shapes/dtypes
only: under omnistaging no array value exists while it does so, hence nothing
is executed on data.  Library calls whose IR is not of interest (samplers,
searchsorted, ...) are kept as named call nodes.
"""

import os
os.environ['JAX_PLATFORMS'] = 'cpu'
os.environ.setdefault('JAX_ENABLE_X64', '0')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
import sys
sys.dont_write_bytecode = True

import contextlib
import functools
import warnings

REPO = os.environ.get('BARTZ_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)

import numpy as np
import jax
from jax import numpy as jnp
from jax import core as jcore
from jax import tree_util

warnings.filterwarnings('ignore')

# ------------------------------------------------------------ library call nodes

_ORIG = {}


def _shape_of(x):
    return tuple(jnp.shape(x))


def _named(name, f):
    f.__name__ = name
    f.__qualname__ = name
    return jax.jit(f)


def _wrap_rng():
    R = jax.random
    _ORIG.update(uniform=R.uniform, normal=R.normal, randint=R.randint, gamma=R.gamma)

    def tagged(fname, shape, args):
        return f'rng:{fname}:' + repr(dict(shape=tuple(shape), args=[_shape_of(a) for a in args]))

    def norm_shape(shape):
        if shape is None:
            return ()
        if isinstance(shape, (int, np.integer)):
            return (int(shape),)
        return tuple(int(s) for s in shape)

    def uniform(key, shape=(), dtype=float, minval=0., maxval=1.):
        shape = norm_shape(shape)
        f = _named(tagged('uniform', shape, [minval, maxval]),
                   lambda k, lo, hi: _ORIG['uniform'](k, shape, dtype, lo, hi))
        return f(key, minval, maxval)

    def normal(key, shape=(), dtype=float):
        shape = norm_shape(shape)
        return _named(tagged('normal', shape, []), lambda k: _ORIG['normal'](k, shape, dtype))(key)

    def randint(key, shape, minval, maxval, dtype=int):
        shape = norm_shape(shape)
        f = _named(tagged('randint', shape, [minval, maxval]),
                   lambda k, lo, hi: _ORIG['randint'](k, shape, lo, hi, dtype))
        return f(key, minval, maxval)

    def gamma(key, a, shape=None, dtype=float):
        shape = _shape_of(a) if shape is None else norm_shape(shape)
        f = _named(tagged('gamma', shape, [a]), lambda k, x: _ORIG['gamma'](k, x, shape, dtype))
        return f(key, a)

    for n, f in dict(uniform=uniform, normal=normal, randint=randint, gamma=gamma).items():
        functools.update_wrapper(f, _ORIG[n])
        setattr(R, n, f)


def _wrap_lib():
    _ORIG.update(searchsorted=jnp.searchsorted, unique=jnp.unique, lstsq=jnp.linalg.lstsq)

    def searchsorted(a, v, side='left', sorter=None, **kw):
        if sorter is not None:
            return _ORIG['searchsorted'](a, v, side, sorter, **kw)
        name = 'lib:searchsorted:' + repr(dict(side=side, args=[_shape_of(a), _shape_of(v)]))
        return _named(name, lambda x, y: _ORIG['searchsorted'](x, y, side, **kw))(a, v)

    def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, *, equal_nan=True, size=None, fill_value=None):
        if size is None or return_index or return_inverse or return_counts or axis is not None:
            return _ORIG['unique'](ar, return_index, return_inverse, return_counts, axis, equal_nan=equal_nan, size=size, fill_value=fill_value)
        args = [ar] if fill_value is None else [ar, fill_value]
        name = 'lib:unique:' + repr(dict(size=int(size), args=[_shape_of(a) for a in args]))
        return _named(name, lambda x, *f: _ORIG['unique'](x, size=size, fill_value=f[0] if f else None))(*args)

    def lstsq(a, b, rcond=None, **kw):
        name = 'lib:lstsq:' + repr(dict(static=dict(rcond=rcond, **kw), args=[_shape_of(a), _shape_of(b)]))
        return _named(name, lambda x, y: _ORIG['lstsq'](x, y, rcond, **kw))(a, b)

    for n, f in dict(searchsorted=searchsorted, unique=unique).items():
        functools.update_wrapper(f, _ORIG[n])
        setattr(jnp, n, f)
    functools.update_wrapper(lstsq, _ORIG['lstsq'])
    jnp.linalg.lstsq = lstsq


_wrap_rng()
_wrap_lib()

import bartz
from bartz import BART, debug, grove, jaxext, mcmcloop, mcmcstep, prepcovars

MODULES = dict(BART=BART, debug=debug, grove=grove, jaxext=jaxext,
               mcmcloop=mcmcloop, mcmcstep=mcmcstep, prepcovars=prepcovars)

for _m in MODULES.values():
    if not os.path.realpath(_m.__file__).startswith(os.path.realpath(SRC) + os.sep):
        raise SystemExit(f'bartz imported from {_m.__file__}, expected {SRC}')


class MissingAnchor(Exception):
    pass


def anchor(path):
    """Resolve 'module.function' in the analysed tree."""
    mod, _, attr = path.partition('.')
    if mod not in MODULES:
        raise MissingAnchor(path)
    obj = MODULES[mod]
    for a in attr.split('.'):
        if not hasattr(obj, a):
            raise MissingAnchor(f'{path} not found in {MODULES[mod].__file__}')
        obj = getattr(obj, a)
    return obj


def where(path):
    """file:line of an anchor, for reports."""
    import inspect
    try:
        f = inspect.unwrap(anchor(path))
        while hasattr(f, 'func'):
            f = f.func
        f = inspect.unwrap(f)
        fn = inspect.getsourcefile(f)
        _, ln = inspect.getsourcelines(f)
        return f'{os.path.relpath(fn, REPO)}:{ln} ({path})'
    except Exception:
        return path


# ------------------------------------------------------------ tracing

S = jax.ShapeDtypeStruct
KEY = jax.eval_shape(lambda: jax.random.key(0))


def path_name(path):
    out = []
    for k in path:
        for at in ('key', 'idx', 'name'):
            if hasattr(k, at):
                out.append(str(getattr(k, at)))
                break
        else:
            out.append(str(k))
    return '.'.join(out)


class IR:
    """A traced function: closed jaxpr with named inputs and outputs."""

    def __init__(self, closed, in_names, in_avals, out_names, out_tree, label):
        self.closed, self.in_names, self.in_avals = closed, in_names, in_avals
        self.out_names, self.out_tree, self.label = out_names, out_tree, label

    @property
    def neqns(self):
        return count_eqns(self.closed.jaxpr)


class TraceFailure(Exception):
    """The analysed code itself rejects an input it documents."""

    def __init__(self, label, exc, loc):
        super().__init__(f'{label}: {type(exc).__name__}: {exc}')
        self.label, self.exc, self.loc = label, exc, loc


CONCRETE = (jax.errors.ConcretizationTypeError, jax.errors.TracerArrayConversionError, jax.errors.TracerIntegerConversionError,
            jax.errors.NonConcreteBooleanIndexError)
# documented attributes of the user interface
DOCUMENTED = {'offset', 'scale', 'lamda', 'sigest', 'ntree', 'maxdepth', 'sigma', 'first_sigma', 'yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean', 'predict'}
HOST = ('BART.', 'mcmcstep.init', 'debug.')


def concrete_only(e):
    """the failure comes from code that may legitimately inspect values on the host"""
    return isinstance(e.exc, CONCRETE) and e.label.startswith(HOST)


@contextlib.contextmanager
def guarded(label):
    """Errors raised from within the analysed sources become TraceFailure."""
    import traceback
    try:
        yield
    except (MissingAnchor, TraceFailure, MemoryError):
        raise
    except Exception as exc:
        last = None
        for fr, ln in traceback.walk_tb(exc.__traceback__):
            if os.path.realpath(fr.f_code.co_filename).startswith(os.path.realpath(SRC) + os.sep):
                last = f'{os.path.relpath(fr.f_code.co_filename, REPO)}:{ln} ({fr.f_code.co_name})'
        if last is None and isinstance(exc, AttributeError) and exc.name in DOCUMENTED and type(exc.obj).__module__.partition('.')[0] == 'bartz':
            last = f'{type(exc.obj).__module__}.{type(exc.obj).__qualname__}'
        if last is None:
            raise
        raise TraceFailure(label, exc, last) from exc


def trace(fn, *args, label=None, argnames=None, **kw):
    with guarded(label or getattr(fn, '__name__', 'fn')):
        closed, out_shape = jax.make_jaxpr(fn, return_shape=True)(*args, **kw)
    flat, _ = tree_util.tree_flatten_with_path((args, kw))
    names = []
    for path, _ in flat:
        nm = path_name(path)
        # '0.<argidx>.rest' -> '<argname>.rest'
        parts = nm.split('.')
        if parts[0] == '0':
            i = int(parts[1])
            head = argnames[i] if argnames else f'a{i}'
            names.append('.'.join([head] + parts[2:]) if head else '.'.join(parts[2:]))
        else:
            names.append('.'.join(parts[1:]))
    out_flat, out_tree = tree_util.tree_flatten_with_path(out_shape)
    out_names = [path_name(p) for p, _ in out_flat]
    return IR(closed, names, [a for _, a in flat], out_names, out_tree, label or getattr(fn, '__name__', 'fn'))


def sub_jaxprs(eqn):
    for v in eqn.params.values():
        for x in (v if isinstance(v, (tuple, list)) else [v]):
            if isinstance(x, jcore.ClosedJaxpr):
                yield x.jaxpr
            elif isinstance(x, jcore.Jaxpr):
                yield x


def walk_eqns(jaxpr):
    for e in jaxpr.eqns:
        yield e
        for s in sub_jaxprs(e):
            yield from walk_eqns(s)


def count_eqns(jaxpr):
    return sum(1 for _ in walk_eqns(jaxpr))


# ------------------------------------------------------------ call summaries

summary_p = jcore.Primitive('summary')
summary_p.multiple_results = True


@summary_p.def_abstract_eval
def _summary_abs(*avals, out_avals, **params):
    return list(out_avals)


@contextlib.contextmanager
def summarize(*paths, static=None):
    """Replace functions by opaque call nodes in every bartz module namespace
    (module globals and class attributes) while tracing."""
    static = static or {}
    saved = []
    for path in paths:
        orig = anchor(path)
        w = _summary_wrapper(path, orig, static.get(path, ()))
        for m in MODULES.values():
            for k, v in list(vars(m).items()):
                if v is orig:
                    saved.append((m, k, v))
                    setattr(m, k, w)
    jax.clear_caches()
    try:
        yield
    finally:
        for m, k, v in saved:
            setattr(m, k, v)
        jax.clear_caches()


def _summary_wrapper(path, orig, static_names):
    import inspect
    try:
        sig = inspect.signature(orig)
    except (TypeError, ValueError):
        sig = None

    def wrapper(*args, **kw):
        if sig is not None:
            ba = sig.bind(*args, **kw)
            ba.apply_defaults()
            arguments = dict(ba.arguments)
        else:
            arguments = {str(i): a for i, a in enumerate(args)} | kw
        extra, pos = {}, ()
        if sig is not None:
            for k, q in sig.parameters.items():
                if q.kind is q.VAR_KEYWORD:
                    extra = arguments.pop(k, {})
                elif q.kind is q.VAR_POSITIONAL:
                    pos = arguments.pop(k, ())
        if pos:
            raise TypeError(f'variadic positional arguments in the call of {path}')
        st = {k: arguments.pop(k) for k in list(arguments) if k in static_names} | extra
        flat, tree = tree_util.tree_flatten_with_path(arguments)
        leaves = [v for _, v in flat]
        names = tuple(path_name(p) for p, _ in flat)
        treedef = tree_util.tree_structure(arguments)

        def call(ls):
            a = tree_util.tree_unflatten(treedef, ls)
            return orig(**a, **st)
        out = jax.eval_shape(call, leaves)
        oflat, otree = tree_util.tree_flatten_with_path(out)
        oavals = tuple(jcore.ShapedArray(o.shape, o.dtype) for _, o in oflat)
        leaves = [jnp.asarray(v) if not isinstance(v, jax.Array) else v for v in leaves]
        res = summary_p.bind(*leaves, out_avals=oavals, name=path, in_names=names,
                             out_names=tuple(path_name(p) for p, _ in oflat),
                             static=_Static(st, treedef))
        return tree_util.tree_unflatten(tree_util.tree_structure(out), res)
    functools.update_wrapper(wrapper, orig)
    wrapper.__wrapped__ = orig
    return wrapper


class _Static:
    def __init__(self, values, tree):
        self.values, self.tree = values, tree

    def __repr__(self):
        return repr(self.values)


def is_source(filename):
    return os.path.realpath(filename).startswith(os.path.realpath(SRC) + os.sep)


@contextlib.contextmanager
def host_calls():
    """Calls from compiled code back to the host (debug.callback, debug.print,
    io_callback) become call nodes named 'host'."""
    from jax.experimental import io_callback

    def bind(func, args, kw):
        args = list(args)
        flat, tree = tree_util.tree_flatten((args, kw))
        paths, _ = tree_util.tree_flatten_with_path((args, kw))
        leaves = [jnp.asarray(v) for v in flat]
        summary_p.bind(*leaves, out_avals=(), name='host', in_names=tuple(path_name(p) for p, _ in paths), out_names=(),
                       static=_Static({'func': func, 'tree': tree}, tree))

    def callback(callback, *args, ordered=False, partitioned=False, **kw):
        bind(callback, args, kw)

    def dprint(fmt, *args, ordered=False, **kw):
        bind(fmt, args, kw)

    def io(callback, result_shape_dtypes, *args, sharding=None, ordered=False, **kw):
        if tree_util.tree_leaves(result_shape_dtypes):
            raise NotImplementedError('host call with results')
        bind(callback, args, kw)
        return result_shape_dtypes

    import jax.experimental
    repl = {jax.debug.callback: callback, jax.debug.print: dprint, io_callback: io}
    saved = []
    for m in [*MODULES.values(), jax.debug, jax.experimental]:
        for k, v in list(vars(m).items()):
            try:
                hit = repl.get(v)
            except TypeError:
                continue
            if hit is not None:
                saved.append((m, k, v))
                setattr(m, k, hit)
    jax.clear_caches()
    try:
        yield
    finally:
        for m, k, v in saved:
            setattr(m, k, v)
        jax.clear_caches()
