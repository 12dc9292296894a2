"""Random key discipline."""

import ast
import os

import numpy as np
import jax
from jax import numpy as jnp

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..model import Config
from ..terms import and_, const, ZERO, FALSE
from . import loop


def root_of(n):
    """chain of derivations of a key: (root args, depth)"""
    depth = 0
    while True:
        if n.cond is not None:
            return None, depth
        ats = [T.ATOMS[i] for i in T.rf_atoms(n.rf)]
        if len(ats) != 1 or ats[0].kind != 'key':
            return None, depth
        a = ats[0]
        if a.args[0] in ('split', 'fold'):
            n = T.leaf(a.args[1])
            depth += 1
            continue
        return a, depth


def discipline(rep, r, roots, what, loc):
    """every key is consumed at most once and descends from an input key"""
    ev = {}
    for n, kind, seq, guard, where, data in r.lifter.key_events:
        ev.setdefault(n.id, []).append((n, kind, seq, guard, where, data))
        a, _ = root_of(n)
        rep.ok('seeded', a is not None and a.args in roots, f'random numbers derive from the given key, {what}', where,
               f'key derived from {None if a is None else a.args}')
    for es in ev.values():
        clash = None
        for i, x in enumerate(es):
            for y in es[:i]:
                if x[1] == y[1] == 'fold' and T.isconst(x[5]) and T.isconst(y[5]) and T.constval(x[5]) != T.constval(y[5]):
                    continue
                if and_(x[3], y[3]) is FALSE:
                    continue
                clash = clash or (y, x)
        rep.ok('single-use', clash is None, f'a key is consumed once, {what}', es[-1][4],
               '' if clash is None else f'key {T.node_str(es[0][0], 3)} consumed by {clash[0][1]} at {clash[0][4]} and by {clash[1][1]} at {clash[1][4]}')
    return len(ev)


def rule_step(rep):
    fn = F.anchor('mcmcstep.step')
    loc = F.where('mcmcstep.step')
    cfgs = [Config(n=3, p=2, nt=3, d=1, min_points=False), Config(n=3, p=2, nt=2, d=3, max_split=9)]
    if rep.thorough:
        cfgs += [Config(n=4, p=3, nt=4, d=2), Config(n=3, p=1, nt=2, d=2, save_ratios=True, min_points=False), Config(n=2, p=2, nt=1, d=4, resid_batch=None)]
    for cfg in cfgs:
        ir = F.trace(fn, cfg.state, F.KEY, argnames=['bart', 'key'], label='mcmcstep.step')
        rep.ir(ir)
        rep.config(cfg)
        r = events_only(ir)
        n = discipline(rep, r, {('in', 'key')}, f'within an iteration, {cfg}', loc)
        rep.require(n, 'keys consumed by an iteration', cfg.nt + 2)


class KeyLifter(lifted.SummaryLifter):
    """Only key-typed values and constants are tracked; the rest is unknown."""

    KEYPRIMS = {'random_seed', 'random_split', 'random_fold_in', 'random_wrap', 'random_unwrap', 'random_bits'}

    def eqn(self, e, ins):
        name = e.primitive.name
        structural = name in ('pjit', 'scan', 'while', 'cond', 'remat', 'checkpoint', 'custom_jvp_call', 'custom_vjp_call_jaxpr',
                              'closed_call', 'core_call', 'summary')
        carries_key = any(L.is_key(v.aval.dtype) for v in e.invars) or any(L.is_key(v.aval.dtype) for v in e.outvars)
        rng = name == 'pjit' and e.params.get('name', '').startswith('rng:')
        if rng:
            self.neqns += 1
            for a, v in zip(ins, e.invars):
                if L.is_key(v.aval.dtype):
                    for k in a.ravel():
                        self.use_key(k, 'draw', e)
            return [self.unknown(v) for v in e.outvars]
        has_rng = structural and any(uses_keys(j) for j in F.sub_jaxprs(e))
        if carries_key or name in self.KEYPRIMS or has_rng or name == 'summary':
            return super().eqn(e, ins)
        if name in ('convert_element_type', 'add', 'sub', 'mul', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'select_n', 'broadcast_in_dim', 'reshape', 'squeeze', 'iota') and \
                all(T.isconst(x) for a in ins for x in a.ravel()) and all(int(np.prod(v.aval.shape)) < 50 for v in e.outvars):
            return super().eqn(e, ins)
        self.neqns += 1
        return [self.unknown(v) for v in e.outvars]

    def unknown(self, v):
        self._u = getattr(self, '_u', 0) + 1
        return L.make_input(f'?{self._u}', v.aval.shape, v.aval.dtype)


_uses_memo = {}


def uses_keys(jaxpr):
    k = id(jaxpr)
    if k not in _uses_memo:
        _uses_memo[k] = (jaxpr, any(L.is_key(v.aval.dtype) for e in F.walk_eqns(jaxpr) for v in list(e.invars) + list(e.outvars)
                                    if hasattr(v.aval, 'dtype')) or any(L.is_key(v.aval.dtype) for v in jaxpr.invars))
    return _uses_memo[k][1]


def events_only(ir, ranges=None):
    return lifted.lift(ir, None, ranges or {}, lifter=KeyLifter())


def rule_run(rep):
    """distinct iterations use unrelated keys"""
    loc = F.where(loop.ANCHOR)
    for cfg, s, ir, r, steps, cbs, _ in loop.runs(rep):
        w = f'[burn-in {s[0]}, saved {s[1]}, thinning {s[2]}]'
        discipline(rep, r, {('in', 'key')}, f'across iterations {w}', loc)
        ks = []
        for c in steps:
            kk = [a[()] for nm, a in c['args'].items() if not nm.startswith('bart.')]
            rep.ok('iteration-key', len(kk) == 1 and root_of(kk[0])[0] is not None, f'each iteration gets one key {w}', c['loc'], len(kk))
            ks += kk
        rep.ok('iteration-key', len({k.id for k in ks}) == len(steps), f'keys of distinct iterations differ {w}', loc, len({k.id for k in ks}))


def rule_seed(rep):
    """the user-facing seed is the only source of randomness"""
    loc = F.where('BART.gbart')
    gb = F.anchor('BART.gbart')
    with F.summarize('mcmcloop.run_mcmc', static={'mcmcloop.run_mcmc': ('n_burn', 'n_save', 'n_skip', 'callback')}):
        x, y = F.S((2, 4), jnp.float32), F.S((4,), jnp.float32)
        given = [('key', None)] + [(0, trace_seed(gb, x, y, 0, **kw)) for kw in (dict(ndpost=0), dict(nskip=0), dict(ndpost=0, nskip=0, usequants=True))]
        try:
            given.append(('integer', trace_seed(gb, x, y, F.S((), jnp.int32))))
        except F.TraceFailure as e:
            if not isinstance(e.exc, F.CONCRETE):
                raise
            # the value is looked at on the host: decide for given values
            given += [(v, None) for v in (0, 1, 2, 7, 100, 2 ** 31 - 1)]
        for kind, ir in given:
            if ir is None:
                ir = trace_seed(gb, x, y, F.KEY if kind == 'key' else kind)
            rep.ir(ir)
            r = events_only(ir)
            calls = [c for c in r.lifter.calls if c['name'] == 'mcmcloop.run_mcmc']
            rep.require(len(calls), 'call of the MCMC loop')
            rep.ok('one-run', len(calls) == 1, f'the sampler is run once, seed {kind}', loc, len(calls))
            k = calls[0]['args']['key'][()]
            a, depth = root_of(k)
            if kind == 'key':
                good = a is not None and a.args == ('in', 'seed')
            elif kind == 'integer':
                good = a is not None and a.args[0] == 'seed' and a.args[1] is r.inp['seed'][()]
            else:
                good = a is not None and a.args[0] == 'seed' and T.isconst(a.args[1]) and T.constval(a.args[1]) == kind
            rep.ok('seed', good, f'the key of the sampler derives from the seed, {kind}', calls[0]['loc'], None if a is None else a.args)
            roots = {('in', 'seed')} if kind == 'key' else {a.args} if a is not None else set()
            discipline(rep, r, roots, f'before the sampler, seed {kind}', loc)


def trace_seed(gb, x, y, seed, **kw):
    """IR of the interface with an abstract or given seed"""
    kw = dict(ntree=2, ndpost=1, nskip=1, maxdepth=2) | kw
    if isinstance(seed, int):
        return F.trace(lambda x, y: gb(x, y, seed=seed, **kw).sigma, x, y, argnames=['x', 'y'], label='BART.gbart')
    return F.trace(lambda x, y, seed: gb(x, y, seed=seed, **kw).sigma, x, y, seed, argnames=['x', 'y', 'seed'], label='BART.gbart')


AMBIENT = ('random', 'numpy.random', 'secrets')


def rule_ambient(rep):
    """no other entropy source is reachable from the sources"""
    for name, mod in F.MODULES.items():
        fn = mod.__file__
        with open(fn) as f:
            tree = ast.parse(f.read())
        loc = os.path.relpath(fn, F.REPO)
        alias = {}
        bad = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                    if a.name in AMBIENT:
                        bad.append((n.lineno, a.name))
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    full = f'{n.module}.{a.name}'
                    alias[a.asname or a.name] = full
                    if n.module in AMBIENT or full in AMBIENT:
                        bad.append((n.lineno, full))
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute):
                d = dotted(n)
                if d:
                    head, _, rest = d.partition('.')
                    full = alias.get(head, head) + ('.' + rest if rest else '')
                    if full in AMBIENT or full in ('os.urandom', 'os.getrandom'):
                        bad.append((n.lineno, full))
        rep.ok('ambient', not bad, f'module {name} uses no entropy source other than jax keys', loc, bad)


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return '.'.join([n.id] + parts[::-1])
    return None
