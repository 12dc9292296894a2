"""Rules on the user interface (BART.gbart) with the sampler as an opaque call."""

from fractions import Fraction

import numpy as np
import jax
from jax import numpy as jnp

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..terms import (const, leaf, add, sub, mul, div, neg, ite, ge, gt, map1, ZERO, ONE, TRUE, FALSE, sum_nodes)

SUMMARIES = ('mcmcloop.run_mcmc', 'mcmcloop.evaluate_trace', 'prepcovars.bin_predictors',
             'prepcovars.uniform_splits_from_matrix', 'prepcovars.quantilized_splits_from_matrix')
STATIC = {'mcmcloop.run_mcmc': ('n_burn', 'n_save', 'n_skip', 'callback'),
          'prepcovars.uniform_splits_from_matrix': ('num_bins',),
          'prepcovars.quantilized_splits_from_matrix': ('max_bins',)}
RANGES = {'mcmcloop.run_mcmc': {f'{i}.{k}': dict(lo=0, pos=True) for i in (0, 1, 2) for k in ('sigma2',)}}
POS = dict(lo=0, pos=True)


class Setup:
    """One way of calling gbart."""

    def __init__(self, n=4, p=2, m=3, given=(), usequants=False, test=True, power=2, maxdepth=4, ntree=3, numcut=9,
                 ndpost=2, nskip=1, keepevery=1, initkw=None, xdtype=jnp.float32, ydtype=jnp.float32, defaults=False,
                 printevery=100, static=None):
        self.__dict__.update(locals())
        self.given = tuple(given)
        self.static = static or {}   # given as Python numbers

    def __repr__(self):
        return (f'n={self.n} p={self.p} given={",".join(f"{g}={self.static[g]}" if g in self.static else g for g in self.given) or "none"} usequants={self.usequants} power={self.power} '
                f'maxdepth={self.maxdepth} x:{jnp.dtype(self.xdtype).name} y:{jnp.dtype(self.ydtype).name}'
                + (' default parameters' if self.defaults else '') + (f' initkw={sorted(self.initkw)}' if self.initkw else ''))


class Run:
    def __init__(self, s, rep=None, transform=None, extra_inputs=None):
        self.s = s
        gb = F.anchor('BART.gbart')
        S = F.S
        scal = ('k', 'base', 'sigdf', 'sigquant') if not s.defaults else ()
        given = tuple(g for g in s.given if g not in s.static)
        names = ['x', 'y', 'xt'] + list(scal) + list(given)
        av = [S((s.p, s.n), s.xdtype), S((s.n,), s.ydtype), S((s.p, s.m), s.xdtype)] + [S((), jnp.float32)] * (len(scal) + len(given))
        if transform:
            names += list(transform[0])
            av += [S((), jnp.float32)] * len(transform[0])
        self.keep = {}

        def go(*args):
            d = dict(zip(names, args))
            if transform:
                d = transform[1](d)
            kw = {k: d[k] for k in scal + given} | s.static
            if not s.defaults:
                kw |= dict(power=s.power, maxdepth=s.maxdepth, ntree=s.ntree, numcut=s.numcut)
            else:
                kw |= dict(ntree=s.ntree, numcut=s.numcut)
            if s.initkw:
                kw['initkw'] = s.initkw
            g = gb(d['x'], d['y'], x_test=d['xt'] if s.test else None, usequants=s.usequants, ndpost=s.ndpost, nskip=s.nskip,
                   keepevery=s.keepevery, printevery=s.printevery, seed=0, **kw)
            self.keep = {k: getattr(g, k) for k in ('ntree', 'maxdepth')}
            out = {}
            for k in ('offset', 'scale', 'lamda', 'sigest', 'sigma', 'first_sigma', 'yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean'):
                v = getattr(g, k) if s.test or 'test' not in k else None
                if v is not None:
                    out[k] = jnp.asarray(v)
            out['predict'] = g.predict(d['xt'])
            return out
        with F.summarize(*SUMMARIES, static=STATIC):
            self.ir = F.trace(go, *av, argnames=names, label='BART.gbart')
        rng = {k: POS for k in ('k', 'base', 'sigdf', 'sigquant', 'lamda', 'sigest', 'scale_y', 'scale_x')}
        rng['sigquant'] = dict(lo=0, hi=1, pos=True)
        self.r = lifted.lift(self.ir, None, rng, lifter=lifted.SummaryLifter(call_ranges=RANGES))
        self.inp, self.calls = dict(self.r.inp), self.r.lifter.calls
        for k, v in s.static.items():
            self.inp[k] = np.empty((), object)
            self.inp[k][()] = const(v)
        if rep is not None:
            rep.ir(self.ir)
            rep.config(s)

    def call(self, name, n=None):
        cs = [c for c in self.calls if c['name'] == name]
        if not cs:
            raise F.MissingAnchor(f'gbart does not call {name}')
        return cs

    def mcmc(self):
        cs = self.call('mcmcloop.run_mcmc')
        return cs[0]

    def param(self, k):
        s = self.s
        if 'sigdf' in k and s.defaults:
            return const(3)
        if k == 'k' and s.defaults:
            return const(2)
        if k == 'sigquant' and s.defaults:
            return const(Fraction(9, 10))
        if k == 'base' and s.defaults:
            return const(Fraction(95, 100))
        if k == 'power':
            return s.power if not s.defaults else 2
        if k == 'maxdepth':
            return s.maxdepth if not s.defaults else 6
        return self.inp[k][()]


def mean(xs):
    return div(sum_nodes(list(xs)), const(len(xs)))


def ref_offset(R):
    s = R.s
    if 'offset' in s.given:
        return R.inp['offset'][()]
    return ZERO if s.n < 1 else mean(R.inp['y'])


def ref_scale(R):
    y = list(R.inp['y'])
    if len(y) < 2:
        return ONE
    return div(sub(L.reduce_ext('max', y), L.reduce_ext('min', y)), mul(const(2), R.param('k')))


def centered(x):
    return [sub(v, mean(x)) for v in x]


def check_lstsq(rep, R, node, loc, w):
    """node == chisq / (n - rank) of the regression of centered y on centered x"""
    s = R.s
    ats = {a for a in T.all_atoms(node) if a.kind == 'fn' and str(a.args[0]) == 'lib:lstsq'}
    by = {a.args[2]: a for a in ats}
    args = {a.args[-1] for a in ats if a.args[2] == 1}
    byhand = [a for a in ats if a.args[2] == 0]   # the residuals computed from the coefficients
    if not args and byhand:
        args = {a.args[-1] for a in byhand}
        by[1] = byhand[0]
    if not rep.ok('regression', len(args) == 1 and {1, 2} <= set(by) and len(ats) == (2 if by[1].args[2] else 1 + len(byhand)) and by[2].args[-1][0] == by[1].args[-1][0], f'noise scale from one linear regression {w}', loc,
                  T.node_str(node, 2)[:500]):
        return
    A, b = next(iter(args))
    x, y = R.inp['x'], R.inp['y']
    xc = [centered(x[v]) for v in range(s.p)]
    good = len(A) == s.n * s.p and len(b) == s.n
    for i in range(s.n):
        for v in range(s.p):
            good = good and T.difference(A[i * s.p + v], xc[v][i]) is None
    rep.ok('regression', good, f'regressors are the predictors with an intercept {w}', loc, [T.node_str(a, 1) for a in A[:4]])
    yc = centered(y)
    rep.ok('regression', len(b) == s.n and all(T.difference(p, q) is None for p, q in zip(b, yc)), f'regression of the response with an intercept {w}', loc,
           [T.node_str(a, 1) for a in b[:3]])
    if by[1].args[2]:
        chisq = leaf(T.rf_atom(by[1]))
    else:
        coef = {a.args[3][0]: leaf(T.rf_atom(a)) for a in byhand}
        misfit = [T.sum_nodes([b[i]] + [T.neg(mul(A[i * s.p + v], coef[v])) for v in range(s.p) if v in coef]) for i in range(s.n)]
        chisq = T.sum_nodes([mul(e, e) for e in misfit])
    want = div(chisq, sub(const(s.n), leaf(T.rf_atom(by[2]))))
    rep.same('noise-estimate', node, want, f'residual sum of squares over the degrees of freedom {w}', loc)


def ppf(q, a):
    """quantile q of the inverse gamma distribution of shape a"""
    return div(ONE, L.fn_nodes('callback:gammainccinv', 0, a, q))


def setups(rep):
    out = [Setup(), Setup(n=2, p=2), Setup(n=0, p=2, usequants=True), Setup(n=1, p=1), Setup(n=3, p=1, given=('lamda',), power=1),
           Setup(n=3, p=1, given=('sigest',), usequants=True), Setup(n=4, p=1, given=('offset',), power=3),
           Setup(n=3, p=2, given=('lamda', 'offset'), maxdepth=1), Setup(n=3, p=3, given=('offset',), maxdepth=2),
           Setup(n=4, p=1, defaults=True), Setup(n=1, p=2, given=('sigest', 'offset')),
           Setup(n=4, p=2, usequants=True, xdtype=jnp.int32, keepevery=2),
           # integer data: the range of the response may not fit its type
           Setup(n=4, p=2, ydtype=jnp.int8), Setup(n=3, p=1, ydtype=jnp.int32, given=('lamda',)), Setup(n=2, p=2, ydtype=jnp.uint8, usequants=True),
           Setup(n=4, p=1, ydtype=jnp.uint32, xdtype=jnp.int8, defaults=True), Setup(n=3, p=1, ydtype=jnp.int16, given=('offset', 'sigest'), usequants=True),
           Setup(n=3, p=1, ydtype=jnp.uint8, given=('offset',), static=dict(offset=100)), Setup(n=3, p=3, ydtype=jnp.int8, given=('offset', 'lamda'), static=dict(offset=-100, lamda=2)),
           Setup(n=3, p=1, ydtype=jnp.int32, given=('offset', 'sigest'), static=dict(offset=7, sigest=3)), Setup(n=2, p=2, given=('offset', 'sigest'), static=dict(offset=0, sigest=1)),
           Setup(n=1, p=2, ydtype=jnp.int16, given=('offset',), static=dict(offset=-30000))]
    if rep.thorough:
        for n in (0, 1, 2, 5):
            for p in (1, 3):
                for g in ((), ('lamda',), ('sigest',), ('offset',), ('lamda', 'offset'), ('sigest', 'offset'), ('lamda', 'sigest')):
                    for uq in (False, True) if n else (True,):
                        out.append(Setup(n=n, p=p, given=g, usequants=uq, power=1, maxdepth=3))
    return out


def rule_prior(rep):
    """calibration of the prior and parameters handed to the sampler"""
    loc = F.where('BART.gbart')
    for s in setups(rep):
        R = Run(s, rep)
        w = f'[{s}]'
        r = R.r
        off, sc = ref_offset(R), ref_scale(R)
        rep.same('offset', r['offset'][()], off, f'prior mean of the regression function {w}', loc)
        rep.same('scale', r['scale'][()], sc, f'prior scale of the regression function {w}', loc)
        df = R.param('sigdf')
        half = div(df, const(2))
        lam = r['lamda'][()]
        if 'lamda' in s.given:
            rep.same('lamda', lam, R.inp['lamda'][()], f'given scale of the noise prior used {w}', loc)
            rep.ok('sigest', 'sigest' not in r.out, f'no noise estimate when the noise prior is given {w}', loc)
        else:
            sig2 = mul(lam, mul(half, ppf(R.param('sigquant'), half)))
            if 'sigest' in s.given:
                want = mul(R.inp['sigest'][()], R.inp['sigest'][()])
            elif s.n < 2:
                want = ONE
            elif s.n <= s.p:
                want = mean([mul(sub(v, mean(R.inp['y'])), sub(v, mean(R.inp['y']))) for v in R.inp['y']])
            else:
                want = 'lstsq'
            if want == 'lstsq':
                check_lstsq(rep, R, sig2, loc, w)
            elif want is not None:
                rep.same('noise-quantile', sig2, want, f'the prior puts its quantile at the estimated noise variance {w}', loc)
            se = r['sigest'][()]
            rep.same('sigest', mul(se, se), sig2, f'reported noise estimate matches the quantile of the prior {w}', loc)
        # what the sampler receives
        c = R.mcmc()
        a = c['args']
        y = R.inp['y']
        sy = a.get('bart.y')
        rep.ok('sampler-data', sy is not None and sy.shape == (s.n,), f'the sampler gets the response {w}', loc)
        if sy is None or sy.shape != (s.n,):
            continue
        for i in range(s.n):
            rep.same('sampler-data', mul(sy[i], sc), sub(y[i], off), f'the sampler gets the standardised response {w}', loc)
            rep.same('sampler-data', a['bart.resid'][i], sy[i], f'residuals start at the standardised response {w}', loc)
        rep.same('noise-prior', a['bart.sigma2_alpha'][()], half, f'shape of the noise prior is half the degrees of freedom {w}', loc)
        rep.same('noise-prior', mul(a['bart.sigma2_beta'][()], mul(sc, sc)), mul(half, lam), f'scale of the noise prior in standardised units {w}', loc)
        d = R.param('maxdepth')
        pn = a['bart.p_nonterminal']
        rep.ok('depth', pn.shape == (d,) and a['bart.leaf_trees'].shape == (s.ntree, 2 ** d), f'number of trees and maximum depth {w}', loc, f'{pn.shape} {a["bart.leaf_trees"].shape}')
        for k in range(min(d, pn.shape[0])):
            want = ZERO if k == d - 1 else div(R.param('base'), const(Fraction(1 + k) ** R.param('power')))
            rep.same('tree-prior', pn[k], want, f'prior probability that a node at depth {k} is not terminal {w}', loc)
        mp = a.get('bart.min_points_per_leaf')
        rep.ok('min-points', mp is not None and T.isconst(mp[()]) and T.constval(mp[()]) == 5, f'leaves hold at least five points {w}', loc, mp)
        rep.ok('attributes', R.keep.get('ntree') == s.ntree and R.keep.get('maxdepth') == d, f'reported number of trees and depth {w}', loc, R.keep)


def rule_defaults(rep):
    """documented default values"""
    import inspect
    loc = F.where('BART.gbart')
    sig = inspect.signature(F.anchor('BART.gbart').__init__).parameters
    want = dict(usequants=False, sigest=None, sigdf=3, sigquant=0.9, k=2, power=2, base=0.95, maxdepth=6, lamda=None, offset=None,
                ntree=200, numcut=255, ndpost=1000, nskip=100, keepevery=1, printevery=100, seed=0, x_test=None)
    for k, v in want.items():
        rep.ok('default', k in sig and sig[k].default == v and type(sig[k].default) is type(v), f'default value of {k}', loc, sig.get(k))


PLUMB = [(a, b, c, nc, uq, pe) for a, b, c, nc, uq, pe in
         ((2, 1, 1, 9, False, 100), (3, 0, 2, 255, True, 7), (0, 2, 3, 100, False, 1), (1, 5, 4, 1, True, 3), (2, 3, 1, 256, False, 10))]


def plumb_setups(rep):
    for a, b, c, nc, uq, pe in PLUMB:
        yield Setup(n=3, p=1, given=('lamda',), ndpost=a, nskip=b, keepevery=c, numcut=nc, usequants=uq, printevery=pe)
    yield Setup(n=4, p=2, xdtype=jnp.int32, numcut=3)
    yield Setup(n=2, p=3, xdtype=jnp.uint8, numcut=3, usequants=True)
    # past the capacity of the narrow integers
    for a, b, c, nc, uq in ((257, 256, 70000, 256, False), (1, 300, 257, 257, True), (3, 1, 256, 255, True)):
        yield Setup(n=2, p=1, m=1, given=('lamda',), ntree=1, maxdepth=1, ndpost=a, nskip=b, keepevery=c, numcut=nc, usequants=uq)


def rule_schedule(rep):
    """lengths of the phases reach the sampler loop"""
    loc = F.where('BART.gbart')
    for s in plumb_setups(rep):
        R = Run(s, rep)
        w = f'[nskip={s.nskip} ndpost={s.ndpost} keepevery={s.keepevery}]'
        cs = R.call('mcmcloop.run_mcmc')
        rep.ok('one-run', len(cs) == 1, f'the sampler is run once {w}', loc, len(cs))
        st = cs[0]['static']
        rep.ok('schedule', (st['n_burn'], st['n_save'], st['n_skip']) == (s.nskip, s.ndpost, s.keepevery),
               f'burn-in, number of samples and thinning reach the sampler {w}', loc, st)


def rule_plumbing(rep):
    """binning of the predictors"""
    loc = F.where('BART.gbart')
    for s in plumb_setups(rep):
        R = Run(s, rep)
        w = f'[{s} numcut={s.numcut}]'
        cs = R.call('mcmcloop.run_mcmc')
        name = 'prepcovars.' + ('quantilized' if s.usequants else 'uniform') + '_splits_from_matrix'
        other = 'prepcovars.' + ('uniform' if s.usequants else 'quantilized') + '_splits_from_matrix'
        if any(c['name'] == other for c in R.calls) and not rep.ok('grid', any(c['name'] == name for c in R.calls), f'the requested kind of grid is used {w}', loc, f'only {other} is called'):
            continue
        sp = R.call(name)
        rep.ok('grid', len(sp) == 1 and not [c for c in R.calls if c['name'] == other], f'the requested kind of grid is used {w}', loc, len(sp))
        nb = list(sp[0]['static'].values())
        rep.ok('grid', nb == [s.numcut + 1], f'number of bins is the number of cutpoints plus one {w}', loc, nb)
        rep.same_arr('grid', sp[0]['args']['X'], R.inp['x'], f'the grid is made from the training predictors {w}', loc)
        rep.same_arr('cutpoints', cs[0]['args']['bart.max_split'], sp[0]['out']['1'], f'number of cutpoints per predictor reaches the sampler {w}', loc)
        bp = R.call('prepcovars.bin_predictors')
        tr = [c for c in bp if all(x is y for x, y in zip(c['out'][''].ravel(), cs[0]['args']['bart.X'].ravel())) and c['out'][''].shape == cs[0]['args']['bart.X'].shape]
        rep.ok('binning', len({c['id'] for c in tr}) == 1, f'the sampler gets binned training predictors {w}', loc, len(tr))
        if tr:
            rep.same_arr('binning', tr[0]['args']['X'], R.inp['x'], f'training predictors are binned {w}', loc)
        for c in bp:
            rep.same_arr('binning', c['args']['splits'], sp[0]['out']['0'], f'binning always uses the training grid {w}', loc)


def rule_options(rep):
    """sampler options override"""
    loc = F.where('BART.gbart')
    for kw in (dict(min_points_per_leaf=None), dict(save_ratios=True), dict(num_trees=5), dict(min_points_per_leaf=2, resid_batch_size=3)):
        s = Setup(n=3, p=1, given=('lamda',), initkw=kw)
        R = Run(s, rep)
        a = R.mcmc()['args']
        if 'min_points_per_leaf' in kw:
            mp = a.get('bart.min_points_per_leaf')
            v = kw['min_points_per_leaf']
            rep.ok('override', mp is None if v is None else mp is not None and T.isconst(mp[()]) and T.constval(mp[()]) == v, f'sampler option overridden {kw}', loc, mp)
        if 'save_ratios' in kw:
            rep.ok('override', 'bart.ratios.log_likelihood' in a, f'sampler option overridden {kw}', loc, sorted(a))
        if 'num_trees' in kw:
            rep.ok('override', a['bart.leaf_trees'].shape[0] == kw['num_trees'], f'sampler option overridden {kw}', loc, a['bart.leaf_trees'].shape)


def rule_output(rep):
    """predictions and noise traces in the units of the response"""
    loc = F.where('BART.gbart')
    n = 0
    for s in setups(rep) + [Setup(n=3, p=1, given=('lamda',), test=False)]:
        R = Run(s, rep)
        w = f'[{s}]'
        r = R.r
        off, sc = r['offset'][()], r['scale'][()]
        c = R.mcmc()
        a, o = c['args'], c['out']
        for attr, tr in (('sigma', '2'), ('first_sigma', '1')):
            want = np.array([mul(sc, map1('sqrt', T.rf_sqrt, v)) for v in o[tr + '.sigma2']] + [None], object)[:-1]
            rep.same_arr('noise-sd', r[attr], want, f'{attr} is the scaled square root of the sampled noise variance {w}', loc, root=True)
        ev = R.call('mcmcloop.evaluate_trace')
        bp = R.call('prepcovars.bin_predictors')

        def evaluated(out, what, xs):
            """out == offset + scale * evaluation of the main trace on xs"""
            hit = None
            for e in ev:
                v = e['out']['']
                if v.shape == out.shape and all(T.difference(q, add(off, mul(sc, z))) is None for q, z in zip(out.ravel(), v.ravel())):
                    hit = e
            rep.ok('prediction', hit is not None, f'{what} is offset + scale x sum of trees for each saved sample {w}', loc,
                   f'shape {out.shape}, ' + (T.node_str(out.ravel()[0], 2)[:300] if out.size else ''))
            if hit is None:
                return
            tr = {k[6:]: v for k, v in hit['args'].items() if k.startswith('trace.')}
            for k in ('leaf_trees', 'var_trees', 'split_trees'):
                rep.ok('prediction-trace', k in tr and all(x is y for x, y in zip(tr[k].ravel(), o['2.' + k].ravel())),
                       f'{what} uses the saved samples after burn-in {w}', loc, k)
            X = hit['args']['X']
            rep.ok('prediction-data', any(X.shape == x.shape and all(p is q for p, q in zip(X.ravel(), x.ravel())) for x in xs), f'{what} evaluates the right points {w}', loc, X.shape)

        def binned(x):
            return [b['out'][''] for b in bp if b['args']['X'].shape == x.shape and all(T.difference(p, q) is None for p, q in zip(b['args']['X'].ravel(), x.ravel()))]
        evaluated(r['yhat_train'], 'training prediction', [o['0.X'], a['bart.X']])
        evaluated(r['predict'], 'prediction', binned(R.inp['xt']))
        n += 2
        means = [('yhat_train', 'yhat_train_mean')]
        if s.test:
            evaluated(r['yhat_test'], 'test prediction', binned(R.inp['xt']))
            means.append(('yhat_test', 'yhat_test_mean'))
        else:
            rep.ok('no-test', 'yhat_test' not in r.out, f'no test predictions without test points {w}', loc)
        for full, m in means:
            v = r[full]
            want = np.empty(v.shape[1:], object)
            for i in range(v.shape[1]):
                want[i] = mean(list(v[:, i]))
            rep.same_arr('posterior-mean', r[m], want, f'{m} is the average over samples {w}', loc)
    rep.require(n, 'predictions', 10)
