"""Rules on the noise variance update."""

from fractions import Fraction

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..model import Config
from ..terms import const, leaf, add, mul, div, ZERO, ONE, sum_nodes


def check_sigma(rep, label, loc, new, resid, alpha, beta, n, what):
    """new == (beta + sum(resid^2)/2) / Gamma(alpha + n/2)"""
    ds = [a for a in T.all_atoms(new) if a.kind == 'draw' and a.args[0] == 'gamma']
    top = [a for r in T.leaf_set(new) for a in (T.ATOMS[i] for i in T.rf_atoms(r)) if a.kind == 'draw']
    if not rep.ok('noise-draw', len(set(top)) == 1 and top[0] in ds, f'noise variance is one inverse gamma draw, {what}', loc,
                  f'draws {sorted(set(map(str, top)))[:4]}: {T.node_str(new, 3)[:500]}'):
        return None
    g = top[0]
    G = leaf(T.rf_atom(g))
    rep.same('noise-shape', g.args[3][0], add(alpha, const(Fraction(n, 2))), f'shape parameter is the prior one plus half the number of points, {what}', loc)
    ss = sum_nodes([mul(r, r) for r in resid])
    rep.same('noise-scale', mul(new, G), add(beta, mul(const(Fraction(1, 2)), ss)),
             f'scale parameter is the prior one plus half the sum of squared residuals, {what}', loc)
    return g


def rule_sigma(rep):
    fn = F.anchor('mcmcstep.sample_sigma')
    loc = F.where('mcmcstep.sample_sigma')
    cfgs = [Config(n=n, d=2, nt=2, p=1, min_points=mp) for n, mp in ((1, True), (2, True), (5, False), (0, True))]
    if rep.thorough:
        cfgs += [Config(n=n, d=d, nt=nt, p=2) for n in (3, 16, 50) for d, nt in ((1, 1), (3, 3))]
    for cfg in cfgs:
        ir = F.trace(fn, cfg.state, F.KEY, argnames=['bart', 'key'], label='mcmcstep.sample_sigma')
        rep.ir(ir)
        rep.config(cfg)
        r = lifted.lift(ir, None, cfg.state_ranges())
        I = lambda k: r.inp['bart.' + k]
        check_sigma(rep, 'sample_sigma', loc, r['sigma2'][()], list(I('resid')), I('sigma2_alpha')[()], I('sigma2_beta')[()], cfg.n, str(cfg))
        for nm in r.out:
            if nm != 'sigma2':
                rep.same_arr('noise-frame', r[nm], r.inp['bart.' + nm], f'{nm} is not changed by the noise variance update', loc)


def rule_step(rep):
    """The whole iteration on stumps of depth one, where nothing can be
    proposed: order of the two updates."""
    fn = F.anchor('mcmcstep.step')
    loc = F.where('mcmcstep.step')
    for cfg in (Config(n=3, d=1, nt=2, p=1, min_points=False), Config(n=4, d=1, nt=3, p=2, resid_batch=None, save_ratios=True)):
        ir = F.trace(fn, cfg.state, F.KEY, argnames=['bart', 'key'], label='mcmcstep.step')
        rep.ir(ir)
        rep.config(cfg)
        n = cfg.n
        sp = L.make_input('bart.split_trees', (cfg.nt, 1), cfg.msdtype, lo=0, hi=0)
        sp[...] = ZERO
        li = L.make_input('bart.leaf_indices', (cfg.nt, n), ir.in_avals[ir.in_names.index('bart.leaf_indices')].dtype, lo=1, hi=1)
        li[...] = ONE
        r = lifted.lift(ir, {'bart.split_trees': sp, 'bart.leaf_indices': li}, cfg.state_ranges(),
                        cut=lambda e, av, k: tuple(av.shape) == (n,) and L.is_float(av.dtype))
        I = lambda k: r.inp['bart.' + k]
        check_sigma(rep, 'step', loc, r['sigma2'][()], list(r['resid']), I('sigma2_alpha')[()], I('sigma2_beta')[()], n,
                    f'with the residuals left by the update of the trees, {cfg}')
        old = T.atom_ids(I('sigma2')[()]) if hasattr(T, 'atom_ids') else {a.id for a in T.all_atoms(I('sigma2')[()])}
        # trees are updated given the current noise variance, not the new one
        for t in range(cfg.nt):
            used = T.all_atoms(r['leaf_trees'][t, 1])
            rep.ok('step-order', any(a.id in old for a in used) and not any(a.kind == 'draw' and a.args[0] == 'gamma' for a in used),
                   f'leaves of tree {t} are drawn given the noise variance at the start of the iteration, {cfg}', loc)
        for nm in ('X', 'y', 'max_split', 'p_nonterminal', 'p_propose_grow', 'sigma2_alpha', 'sigma2_beta', 'min_points_per_leaf'):
            if nm in r.out:
                rep.same_arr('step-frame', r[nm], I(nm), f'{nm} is not changed by an iteration', loc)
        for nm in r.inp:
            if nm.startswith('bart.'):
                rep.ok('step-frame', nm[5:] in r.out, f'{nm[5:]} is still present after an iteration', loc)
