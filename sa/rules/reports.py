"""Progress reports and summaries of a fit."""

import re

import numpy as np
import jax
from jax import numpy as jnp
from jax import tree_util

from .. import frontend as F
from .. import host
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..model import Config
from ..terms import const
from . import gb

MAKE = 'mcmcloop.make_simple_print_callback'
LABELS = (('index', r'[Ii]ter(ation)?\s*:?\s*$'), ('total', r'/\s*$'),
          ('grow proposals', r'P_grow\s*[=:]\s*$'), ('grow acceptances', r'A_grow\s*[=:]\s*$'),
          ('prune proposals', r'P_prune\s*[=:]\s*$'), ('prune acceptances', r'A_prune\s*[=:]\s*$'))


def progress_ir(cb, cfg, burnin, nb, ns, nk, label):
    def fn(bart, i_total, i_skip):
        cb(bart=bart, burnin=burnin, i_total=i_total, i_skip=i_skip, n_burn=nb, n_save=ns, n_skip=nk)
        return ()
    S = F.S
    return F.trace(fn, cfg.state, S((), jnp.int32), S((), jnp.int32), argnames=['bart', 'i_total', 'i_skip'], label=label)


def lines(rep, call):
    """(condition, text) of what a host call prints, on each of its paths"""
    tree, names = call['static']['tree'], list(call['args'])
    vals = [a[()] if a.shape == () else None for a in call['args'].values()]
    args, kw = tree_util.tree_unflatten(tree, vals)
    f = call['static']['func']
    if isinstance(f, str):
        t = host.brace(host.Text([f]), list(args), dict(kw))
        return [(const(1), [t])]
    return host.paths(f, args, kw)


def check_progress(rep, make, cfg, pe, sched, iters, loc):
    nb, ns, nk = sched
    total = nb + ns * nk
    B = {}
    seen = {}
    for i in iters:
        burnin = i < nb
        with F.host_calls():
            with F.guarded(MAKE):
                cb = make(pe)
            ir = progress_ir(cb, cfg, burnin, nb, ns, nk, MAKE)
        rep.ir(ir)
        nk_i = (i if burnin else (i - nb) % nk)
        rng = {f'bart.{k}_{q}_count': dict(lo=1, hi=cfg.nt) for k in ('grow', 'prune') for q in ('prop', 'acc')}
        r = lifted.lift(ir, {'i_total': const(i), 'i_skip': const(nk_i)}, cfg.state_ranges() | rng)
        B = {k: r.inp[f'bart.{k}'][()] for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')}
        w = f'[iteration {i} of {total}, every {pe}, burn-in {nb}]'
        out = []
        try:
            for c in r.lifter.calls:
                if c['name'] != 'host':
                    continue
                for cond, texts in lines(rep, c):
                    g = T.mul(T.truth(c['guard']), cond)
                    if not (T.isconst(g) and T.constval(g) == 0):
                        out += [(g, t) for t in texts if t.parts]
        except host.Raised as e:
            rep.ok('reported', False, f'the report is printed {w}', loc, f'stops: {e}')
            continue
        except host.Undecided as e:
            note = f'host code of the report not decided: {e}'
            if note not in rep.notes:
                rep.notes.append(note)
            continue
        due = (i + 1) % pe == 0
        n = sum((g for g, _ in out), start=const(0)) if False else None
        cnt = const(0)
        for g, _ in out:
            cnt = T.add(cnt, g)
        if not due:
            rep.ok('silent', all(T.isconst(g) and T.constval(g) == 0 for g, _ in out), f'nothing is reported between the requested iterations {w}', loc, out)
            continue
        rep.ok('reported', bool(out) and all(T.isconst(g) for g, _ in out), f'the requested iteration is reported {w}', loc, out)
        if not out or not all(T.isconst(g) for g, _ in out):
            continue
        text = host.Text([p for _, t in out for p in [*t.parts, '\n']])
        want = {'index': const(i + 1), 'total': const(total)}
        for k in ('grow', 'prune'):
            want[f'{k} proposals'] = T.div(B[f'{k}_prop_count'], const(cfg.nt))
            want[f'{k} acceptances'] = T.div(B[f'{k}_acc_count'], B[f'{k}_prop_count'])
        shown = [(text.parts[j - 1] if j and isinstance(text.parts[j - 1], str) else '', p) for j, p in enumerate(text.parts) if isinstance(p, host.Shown)]
        lit = text.literal()
        for name, lab in LABELS:
            hit = [p for pre, p in shown if re.search(lab, pre)]
            v = want[name]
            if hit:
                for p in hit:
                    rep.same('value', p.node, v, f'reported {name} {w}', loc)
            else:
                ok = any(T.difference(p.node, v) is None for _, p in shown)
                if name in ('index', 'total'):
                    ok = ok or str(T.constval(v)) in lit
                rep.ok('value', ok, f'{name} in the report {w}', loc, text)
            if name not in ('index', 'total'):
                rep.ok('digits', all(not re.fullmatch(r'.*(d|\.0[a-z%]?)', p.spec) for p in hit), f'{name} are shown as fractions {w}', loc, [p.spec for p in hit])
        if 'burn' in lit.lower() or not burnin:
            rep.ok('phase', ('burn' in lit.lower()) == burnin, f'the phase is reported {w}', loc, text)
        seen.setdefault(burnin, lit)
    if len(seen) == 2:
        rep.ok('phase', seen[True] != seen[False], f'reports of burn-in iterations are told apart [every {pe}]', loc, seen[True])
    return len(seen)


def rule_progress(rep):
    """progress lines"""
    loc = F.where(MAKE)
    make = F.anchor(MAKE)
    n = 0
    for pe, sched, iters in ((1, (2, 2, 1), range(4)), (2, (3, 2, 2), range(7)), (3, (0, 2, 3), range(6)), (3, (5, 1, 1), range(6)),
                             (100, (150, 25, 2), (0, 48, 49, 50, 98, 99, 100, 148, 149, 150, 198, 199)), (7, (7, 7, 1), (0, 5, 6, 7, 12, 13)),
                             (4, (3, 2, 2), range(7)), (10, (0, 0, 1), ()),
                             # past the capacity of the narrow integers
                             (1, (254, 5, 1), range(252, 259)), (257, (200, 200, 2), (0, 255, 256, 257, 512, 513)),
                             (256, (32766, 3, 11000), (127, 255, 511, 32767, 65535, 65536, 65791))):
        for cfg in (Config(n=2, p=1, nt=3, d=2, min_points=False), Config(n=2, p=1, nt=1, d=3, save_ratios=True))[:1 if not rep.thorough and pe > 3 else 2]:
            rep.config(f'every {pe}, burn-in {sched[0]}, saved {sched[1]}, thinning {sched[2]}, trees {cfg.nt}')
            n += check_progress(rep, make, cfg, pe, sched, iters, loc)
    if not any('not decided' in x for x in rep.notes):
        rep.require(n, 'reports', 5)


def rule_progress_interface(rep):
    """the interface asks for the reports the user wants"""
    loc = F.where('BART.gbart')
    cfg = Config(n=2, p=1, nt=3, d=2, min_points=False)
    for pe, ke in ((1, 1), (3, 2), (3, 1), (100, 1), (2, 3)):
        R = gb.Run(gb.Setup(n=3, p=1, given=('lamda',), printevery=pe, keepevery=ke), rep)
        cb = R.mcmc()['static'].get('callback')
        if not rep.ok('callback', callable(cb), f'the run has a callback [every {pe}]', loc, cb):
            continue
        check_progress(rep, lambda _: cb, cfg, pe, (3, 4, 1) if pe < 100 else (50, 60, 1), range(6) if pe < 100 else (0, 49, 50, 98, 99, 100), loc)


SUMS = ('_sigma_harmonic_mean', '_compare_resid', '_avg_acc', '_avg_prop', '_avg_move', '_depth_distr', '_points_per_leaf_distr', '_check_trees', '_tree_goes_bad')


class Fit:
    """A fit with the sampler opaque, and its summaries."""

    def __init__(self, rep, n=3, p=2, ntree=2, maxdepth=3, ndpost=2, nskip=1, usequants=False, initkw=None):
        cls = F.anchor('BART.gbart')
        S, f = F.S, jnp.float32
        self.names = []

        def go(x, y, lamda):
            kw = {} if initkw is None else dict(initkw=initkw)
            g = cls(x, y, lamda=lamda, ntree=ntree, maxdepth=maxdepth, ndpost=ndpost, nskip=nskip, usequants=usequants, numcut=5, seed=0, **kw)
            out = {'scale': jnp.asarray(g.scale)}
            for k in SUMS:
                m = getattr(g, k, None)
                if m is None:
                    continue
                out[k] = m()
                if k == '_sigma_harmonic_mean':
                    out[k + ':prior'] = m(prior=True)
            return out
        with F.summarize('mcmcloop.run_mcmc', 'mcmcloop.evaluate_trace', static=gb.STATIC):
            self.ir = F.trace(go, S((p, n), f), S((n,), f), S((), f), argnames=['x', 'y', 'lamda'], label='BART.gbart')
        cnt = {f'2.{k}_{q}_count': dict(lo=1, hi=ntree) for k in ('grow', 'prune') for q in ('prop', 'acc')}
        rng = {'mcmcloop.run_mcmc': {'0.var_trees': dict(lo=0, hi=p - 1), '2.var_trees': dict(lo=0, hi=p - 1), '0.sigma2_alpha': gb.POS, '0.sigma2_beta': gb.POS} | cnt}
        self.r = lifted.lift(self.ir, None, {'lamda': gb.POS}, lifter=lifted.SummaryLifter(call_ranges=rng))
        rep.ir(self.ir)
        rep.config(f'n={n} p={p} trees={ntree} levels={maxdepth} samples={ndpost} usequants={usequants} initkw={initkw}')
        cs = [c for c in self.r.lifter.calls if c['name'] == 'mcmcloop.run_mcmc']
        rep.require(len(cs), 'call of the sampler')
        self.o = cs[0]['out']
        self.avals = {}
        for e in F.walk_eqns(self.ir.closed.jaxpr):
            if e.primitive is F.summary_p and e.params['name'] == 'mcmcloop.run_mcmc':
                self.avals = dict(zip(e.params['out_names'], (v.aval for v in e.outvars)))
        self.w = f'[n={n} p={p} trees={ntree} levels={maxdepth} samples={ndpost}]'

    def again(self, path, names, fixed=(), args=None):
        """the library function on outputs of the sampler"""
        fn = F.anchor(path)
        av = [F.S(self.avals[k].shape, self.avals[k].dtype) for k in names]
        ir = F.trace(lambda *a: fn(*args(*a)) if args else fn(*a), *av, argnames=[f'x{i}' for i in range(len(names))], label=path)
        return lifted.lift(ir, {f'x{i}': self.o[k] for i, k in enumerate(names)})

    def get(self, k):
        return self.r.out.get(k)


def rule_fit(rep):
    """summaries of the fit"""
    loc = F.where('BART.gbart')
    fits = [dict(), dict(n=1, p=1, ntree=1, maxdepth=2, ndpost=3), dict(n=4, p=1, ntree=3, maxdepth=2, ndpost=1), dict(n=2, p=1, ntree=2, maxdepth=3, ndpost=2, nskip=0, usequants=True),
            dict(n=3, p=1, ntree=2, maxdepth=2, ndpost=2, initkw=dict(save_ratios=True)), dict(n=0, p=1, ntree=2, maxdepth=2, usequants=True),
            dict(n=5, p=1, ntree=2, maxdepth=2, ndpost=4, initkw=dict(min_points_per_leaf=None))]
    if rep.thorough:
        fits += [dict(n=n, p=1, ntree=t, maxdepth=d, ndpost=s) for n in (2, 6) for t in (1, 4) for d in (1, 3) for s in (1, 5)]
    done = 0
    for kw in fits:
        R = Fit(rep, **kw)
        w, o = R.w, R.o
        sc = R.r['scale'][()]

        def check(k, want, what):
            nonlocal done
            got = R.get(k)
            if got is None:
                return
            done += 1
            want = np.asarray(want, object) if not isinstance(want, np.ndarray) else want
            rep.same_arr('summary', got, want, f'{what} {w}', loc, root=k.startswith('_sigma'))

        def one(n):
            a = np.empty((), object)
            a[()] = n
            return a
        n = len(o['0.resid'])
        alpha, beta = o['0.sigma2_alpha'][()], o['0.sigma2_beta'][()]
        ss = T.sum_nodes([T.mul(v, v) for v in o['0.resid']]) if n else const(0)
        half = const(T.Fraction(1, 2))

        def hm(a, b):
            return one(T.mul(sc, T.map1('sqrt', T.rf_sqrt, T.div(b, a))))
        check('_sigma_harmonic_mean:prior', hm(alpha, beta), 'prior scale of the noise in the units of the response')
        check('_sigma_harmonic_mean', hm(T.add(alpha, T.mul(half, const(n))), T.add(beta, T.mul(half, ss))), 'conditional scale of the noise in the units of the response')
        check('_compare_resid.0', o['0.resid'], 'residuals kept by the sampler')
        if '_compare_resid.1' in R.r.out:
            ev = R.again('grove.evaluate_forest', ['0.X', '0.leaf_trees', '0.var_trees', '0.split_trees']).out['']
            want = np.empty(n, object)
            for i in range(n):
                want[i] = T.sub(o['0.y'][i], ev[i])
            check('_compare_resid.1', want, 'residuals recomputed from the final trees')
        tot = {f'{k}_{q}': T.sum_nodes(list(o[f'2.{k}_{q}_count'])) for k in ('grow', 'prune') for q in ('prop', 'acc')}
        allp = T.add(tot['grow_prop'], tot['prune_prop'])
        for j, k in enumerate(('grow', 'prune')):
            check(f'_avg_acc.{j}', one(T.div(tot[f'{k}_acc'], tot[f'{k}_prop'])), f'fraction of {k} proposals accepted over the saved samples')
            check(f'_avg_prop.{j}', one(T.div(tot[f'{k}_prop'], allp)), f'fraction of proposals that are {k} over the saved samples')
            check(f'_avg_move.{j}', one(T.div(tot[f'{k}_acc'], allp)), f'fraction of proposals that are accepted {k} over the saved samples')
        if '_depth_distr' in R.r.out:
            check('_depth_distr', R.again('debug.trace_depth_distr', ['2.split_trees']).out[''], 'distribution of the depths of the saved trees')
        if '_points_per_leaf_distr' in R.r.out and n:
            want = R.again('debug.trace_points_per_leaf_distr', ['2.var_trees', '2.split_trees', '0.X'], args=lambda v, s, X: (dict(var_trees=v, split_trees=s), X)).out['']
            check('_points_per_leaf_distr', want, 'distribution of the points per leaf of the saved trees at the training points')
        if '_check_trees' in R.r.out:
            want = R.again('debug.check_trace', ['2.leaf_trees', '2.var_trees', '2.split_trees', '0.max_split'],
                           args=lambda l, v, s, m: (dict(leaf_trees=l, var_trees=v, split_trees=s), dict(max_split=m))).out['']
            check('_check_trees', want, 'errors of the saved trees')
            bad = np.empty(want.shape, object)
            for i in range(want.shape[0]):
                for j in range(want.shape[1]):
                    b = T.gt(want[i, j], const(0))
                    bad[i, j] = b if not i else T.mul(b, T.sub(const(1), T.gt(want[i - 1, j], const(0))))
            got = R.get('_tree_goes_bad')
            if got is not None:
                done += 1
                ok = got.shape == bad.shape
                rep.ok('summary', ok, f'trees that become invalid {w}', loc, got.shape)
                if ok:
                    for idx in np.ndindex(*bad.shape):
                        rep.same('summary', T.truth(got[idx]), bad[idx], f'tree that becomes invalid {list(idx)} {w}', loc)
    rep.require(done, 'summaries of a fit', 10)
