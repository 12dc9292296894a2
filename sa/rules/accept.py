"""Rules on the acceptance phase (mcmcstep.accept_moves_and_sample_leaves)."""

import functools
from fractions import Fraction

import numpy as np
from jax import numpy as jnp

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..model import Config, arr, atom, descendants, ancestors
from ..terms import (const, leaf, add, sub, mul, div, ite, eq, ne, ge, gt, lt, le, and_, or_, not_,
                     map1, ZERO, ONE, TRUE, FALSE, sum_nodes)

ANCHOR = 'mcmcstep.accept_moves_and_sample_leaves'


class Case:
    def __init__(self, kind, node, var=0):
        self.kind, self.node, self.var = kind, node, var
        self.left, self.right = 2 * node, 2 * node + 1

    def __repr__(self):
        return f'{self.kind} node {self.node}' + (f' var {self.var}' if self.kind == 'grow' else '')


def cases(cfg):
    if cfg.nt > 8:
        cs = [c for c in cases(cfg.with_(nt=1)) if c.kind != 'none']
        return [c for k in ('grow', 'prune') for c in ([c for c in cs if c.kind == k] * cfg.nt)[:cfg.nt]]
    if cfg.bulk and cfg.n > 2 ** 16:
        return [Case('grow', 1), Case('prune', 1)]
    if cfg.deep:
        # nodes at the extremes of the last level that can be split
        h = cfg.half
        return [Case(kind, k) for k in (h - 1, h // 2, h - 2, h // 2 - 1) for kind in ('grow', 'prune')]
    out = [Case('grow', k, v) for k in range(1, cfg.half) for v in range(cfg.p)]
    out += [Case('prune', k) for k in range(1, cfg.half)]
    out.append(Case('none', cfg.full))
    return out


def admissible(cfg, c, j=0):
    """Leaves in which a datapoint may lie before the move, given that the
    move's node is a leaf (grow) / a parent of leaves (prune) of the tree.
    A tree with no allowed move is a single root."""
    if c.kind == 'none':
        return [1]
    inner = descendants(c.node, cfg.full) | set(ancestors(c.node)) | {0}
    mine = {c.node} if c.kind == 'grow' else {c.left, c.right}
    if cfg.bulk:
        return [c.node] if c.kind == 'grow' else [c.left if j < cfg.n - 2 else c.right]
    if cfg.deep:
        return sorted({c.node ^ 1} | mine)
    return sorted((set(range(cfg.full)) - inner) | mine)


def batches(cs, nt):
    cs = list(cs)
    if nt > 8:
        return [cs[i:i + nt] for i in range(0, len(cs), nt)]
    # interleave so that a batch mixes kinds
    cs = [c for i in range(nt) for c in cs[i::nt]]
    while len(cs) % nt:
        cs.append(cs[len(cs) % 3])
    k = len(cs) // nt
    return [cs[i::k] for i in range(k)]


_ir_cache = {}


def accept_ir(cfg):
    key = cfg.ident
    if key not in _ir_cache:
        _ir_cache[key] = F.trace(F.anchor(ANCHOR), cfg.state, cfg.moves, F.KEY,
                                 argnames=['bart', 'moves', 'key'], label=ANCHOR)
    return _ir_cache[key]


class View:
    """Lifted acceptance phase for one assignment of cases to trees."""

    def __init__(self, cfg, batch):
        self.cfg, self.batch = cfg, batch
        ir = self.ir = accept_ir(cfg)
        inputs = {
            'moves.grow': arr([int(c.kind == 'grow') for c in batch]),
            'moves.node': arr([c.node for c in batch]),
            'moves.left': arr([c.left for c in batch]),
            'moves.right': arr([c.right for c in batch]),
            'moves.grow_var': arr([c.var if c.kind == 'grow' else cfg.p - 1 for c in batch]),
        }
        rng = {**cfg.state_ranges(), **cfg.moves_ranges()}
        # symbolic inputs that need per-case refinement
        sp = L.make_input('bart.split_trees', (cfg.nt, cfg.half), cfg.msdtype, lo=0, hi=cfg.max_split)
        al = L.make_input('moves.allowed', (cfg.nt,), np.dtype(bool))
        for t, c in enumerate(batch):
            sp[t, 0] = ZERO
            if c.kind == 'grow':
                for k in descendants(c.node, cfg.half):
                    sp[t, k] = ZERO
                for k in ancestors(c.node):
                    sp[t, k] = self.nonzero(sp[t, k])
            elif c.kind == 'prune':
                for k in descendants(c.node, cfg.half):
                    sp[t, k] = ZERO
                orig = L.make_input('bart.split_trees', (cfg.nt, cfg.half), cfg.msdtype, lo=0, hi=cfg.max_split)
                for k in [c.node] + ancestors(c.node):
                    sp[t, k] = self.nonzero(orig[t, k])
            else:
                al[t] = FALSE
                for k in range(cfg.half):
                    sp[t, k] = ZERO
        li = np.empty((cfg.nt, cfg.n), object)
        for t, c in enumerate(batch):
            for j in range(cfg.n):
                adm = admissible(cfg, c, j)
                if len(adm) > 1:
                    a = T.mkatom('in', ('bart.leaf_indices', (t, j, tuple(adm))), Fraction(0), Fraction(len(adm) - 1), True)
                    li[t, j] = L.switch(leaf(T.rf_atom(a)), 0, len(adm) - 1, lambda k: const(adm[k]))
                else:
                    li[t, j] = const(adm[0])
        inputs['bart.leaf_indices'] = li
        if cfg.bulk:
            # many points of two kinds; most residuals are known
            inputs['bart.X'] = np.array([[const(5 if j < cfg.n - 2 else 3) for j in range(cfg.n)]] * cfg.p, object)
            rs = L.make_input('bart.resid', (cfg.n,), np.dtype(cfg.large))
            rs[3:-1] = [const(j % 7 - 3) for j in range(cfg.n - 4)]
            inputs['bart.resid'] = rs
        inputs['bart.split_trees'] = sp
        inputs['moves.allowed'] = al
        for nm in ('bart.split_trees', 'moves.allowed') + tuple(inputs):
            if nm not in ir.in_names:
                raise F.MissingAnchor(f'{ANCHOR}: input {nm}')
        n = cfg.n
        lifter = lifted.SummaryLifter(cut=lambda e, av, k: tuple(av.shape) == (n,) and L.is_float(av.dtype))
        lifter.rounding = cfg.rounding
        self.r = lifted.lift(ir, inputs, rng, lifter=lifter)
        self.inp = self.r.inp

    def nonzero(self, n):
        if T.isconst(n):
            return n
        a = atom(n)
        return leaf(T.rf_atom(T.mkatom('in', (a.args[0] + '+', a.args[1]), Fraction(1), a.hi, True)))

    def I(self, name):
        if name not in self.inp:
            raise F.MissingAnchor(f'{ANCHOR}: input {name}')
        return self.inp[name]

    # -- reference quantities

    @functools.cache
    def Lprime(self, t):
        """leaf indices in the larger of the two trees involved in the move"""
        c, cfg = self.batch[t], self.cfg
        Li = self.I('bart.leaf_indices')[t]
        if c.kind != 'grow':
            return Li
        X, gs = self.I('bart.X'), self.I('moves.grow_split')[t]
        out = np.empty(Li.shape, object)
        for j in range(cfg.n):
            out[j] = ite(eq(Li[j], const(c.node)),
                         ite(lt(X[c.var, j], gs), const(c.left), const(c.right)), Li[j])
        return out

    @functools.cache
    def count(self, t, i):
        return sum_nodes([eq(l, const(i)) for l in self.Lprime(t)])

    @functools.cache
    def resid_in(self, t):
        if t == 0:
            return self.I('bart.resid')
        return self.cut(t - 1).unknown

    def cut(self, it):
        if self.cfg.nt == 1 and not self.r.lifter.cuts:
            return L.Cut(0, 0, 0, self.r['resid'], self.r['resid'])
        cs = [c for c in self.r.lifter.cuts if c.it == it]
        if len(cs) != 1 or len([c for c in self.r.lifter.cuts]) != self.cfg.nt:
            raise F.MissingAnchor(f'{ANCHOR}: loop over the trees carrying the residuals')
        return cs[0]

    @functools.cache
    def old_leaf(self, t, i):
        c = self.batch[t]
        lt_ = self.I('bart.leaf_trees')[t]
        if c.kind == 'grow' and i in (c.left, c.right):
            i = c.node
        return lt_[i]

    @functools.cache
    def rsum(self, t, i):
        r, Lp = self.resid_in(t), self.Lprime(t)
        s = sum_nodes([ite(eq(l, const(i)), x, ZERO) for l, x in zip(Lp, r)])
        return add(s, mul(self.count(t, i), self.old_leaf(t, i)))

    def stats(self, t, i):
        """(count, residual sum without this tree) of final-tree node i"""
        c = self.batch[t]
        if c.kind != 'none' and i == c.node:
            return (add(self.count(t, c.left), self.count(t, c.right)),
                    add(self.rsum(t, c.left), self.rsum(t, c.right)))
        return self.count(t, i), self.rsum(t, i)

    @functools.cache
    def llk(self, t):
        c, nt = self.batch[t], self.cfg.nt
        s2 = self.I('bart.sigma2')[()]
        prior = const(Fraction(1, nt))

        def v(cnt):
            return add(s2, mul(cnt, prior))
        cl, rl = self.count(t, c.left), self.rsum(t, c.left)
        cr, rr = self.count(t, c.right), self.rsum(t, c.right)
        ct, rt = add(cl, cr), add(rl, rr)
        det = div(mul(s2, v(ct)), mul(v(cl), v(cr)))
        quad = sub(add(div(mul(rl, rl), v(cl)), div(mul(rr, rr), v(cr))), div(mul(rt, rt), v(ct)))
        return add(mul(const(Fraction(1, 2)), map1('log', T.rf_log, det)),
                   mul(div(prior, mul(const(2), s2)), quad))

    @functools.cache
    def p_prune(self, t):
        c, cfg = self.batch[t], self.cfg
        ng = self.I('moves.num_growable')[t]
        if c.kind == 'grow':
            again = ge(ng, const(2))
            if c.left < cfg.half:
                if cfg.min_points:
                    m2 = mul(const(2), self.I('bart.min_points_per_leaf')[()])
                    again = or_(again, or_(ge(self.count(t, c.left), m2), ge(self.count(t, c.right), m2)))
                else:
                    again = TRUE
            return ite(again, const(Fraction(1, 2)), ONE)
        return ite(ge(ng, ONE), const(Fraction(1, 2)), ONE)

    @functools.cache
    def ltp(self, t):
        return map1('log', T.rf_log, mul(self.I('moves.partial_ratio')[t], self.p_prune(t)))

    # -- acceptance indicator as visible in the new tree structure

    @functools.cache
    def acc(self, t):
        c = self.batch[t]
        out = self.r['split_trees'][t, c.node] if c.kind != 'none' else None
        if c.kind == 'grow':
            return ne(out, ZERO)
        if c.kind == 'prune':
            return eq(out, ZERO)
        return FALSE

    # -- the comparison of the random threshold with the log ratio

    def threshold(self, t):
        """(abstracted acceptance, [(path condition independent) R nodes])

        Conditions of acc that involve logu are replaced by a marker; their
        thresholds R (acceptance iff logu <= R) are collected, with the
        conditions under which they decide."""
        logu = atom(self.I('moves.logu')[t])
        marker = leaf(T.rf_atom(T.mkatom('in', ('ACCEPT', (t,)), Fraction(0), Fraction(1), True)))
        M = T.truth(marker)
        found = {}      # comparison -> (R, where it decides)

        def on_logu(cond):
            return logu.id in T.rf_atoms(T.BASES[cond[0]].rf)

        def other_cond(n):
            """a condition of n that does not involve the random threshold"""
            seen, stack = set(), [n]
            while stack:
                m = stack.pop()
                if m.cond is None or m.id in seen:
                    continue
                seen.add(m.id)
                if not on_logu(m.cond):
                    return m.cond
                stack += [m.hi, m.lo]
            return None
        memo = {}

        def rec(n, path):
            """decide the other conditions first, whatever their order in n"""
            c = other_cond(n)
            if c is not None:
                k = (n.id, path.id)
                if k not in memo:
                    yes = T.mknode(c, TRUE, FALSE)
                    memo[k] = ite(yes, rec(T.restrict(n, c, True), and_(path, yes)), rec(T.restrict(n, c, False), and_(path, not_(yes))))
                return memo[k]
            if n.cond is None:
                return n
            R, sg = self.compared(n, logu)
            key = n.id
            found[key] = (R, n, T.or_(found[key][2], path) if key in found else path)
            if R is None:
                return n
            # base >= tau  <=>  logu >= R (sg>0)  or logu <= R (sg<0)
            return ite(M, n.hi, n.lo) if sg < 0 else ite(M, n.lo, n.hi)
        a = rec(self.acc(t), TRUE)
        return a, M, list(found.values())

    def compared(self, n, logu):
        """(R, sign): the single comparison logu <= R (sign -1) or >= R (1) n makes"""
        if n.hi.cond is not None or n.lo.cond is not None:
            return None, 0
        b, (tau, strict) = n.cond
        rf = T.BASES[b].rf
        K, Mn = {}, {}
        for m, c in rf.num.items():
            d = dict(m)
            e = d.pop(logu.id, 0)
            if e == 0:
                Mn[m] = c
            elif e == 1:
                K[tuple(sorted(d.items()))] = c
            else:
                return None, 0
        sg = T.p_sign(K) if K else 0
        if not rf.ispoly() or sg == 0:
            return None, 0
        return T.rf_make(T.p_add(T.p_const(tau), Mn, -1), K), sg

    def points_ok(self, t):
        c = self.batch[t]
        if not self.cfg.min_points:
            return TRUE
        m = self.I('bart.min_points_per_leaf')[()]
        return and_(ge(self.count(t, c.left), m), ge(self.count(t, c.right), m))

    def loc(self):
        return F.where(ANCHOR)


def configs(rep):
    base = [Config(), Config(min_points=False, resid_batch=None, count_batch=2, save_ratios=True), Config(n=3, p=1, nt=1, d=2, resid_batch=2, msdtype='uint16', max_split=1000)]
    if rep.thorough:
        base += [Config(count_batch=4, resid_batch=1), Config(d=4, p=2), Config(d=2, p=3, nt=2),
                 Config(min_points=False, d=4, resid_batch=2, count_batch=None),
                 Config(n=11, nt=2, resid_batch=4, count_batch=5), Config(nt=1, n=5, resid_batch=2)]
    return base


def views(rep, cfgs=None, only=None):
    for cfg in (cfgs if cfgs is not None else configs(rep)):
        rep.config(cfg)
        cs = cases(cfg)
        if only:
            cs = [c for c in cs if c.kind in only]
        rep.ir(accept_ir(cfg))
        for b in batches(cs, cfg.nt):
            v = View(cfg, b)
            yield v


# ---------------------------------------------------------------- rules

DATA_INPUTS = ('bart.resid', 'bart.sigma2', 'bart.leaf_indices', 'bart.leaf_trees', 'bart.X', 'cut', 'moves.grow_split')


def _depends(rf_or_node, prefixes):
    for a in T.all_atoms(rf_or_node):
        if a.kind == 'in' and str(a.args[0]).startswith(prefixes):
            return True
    return False


def _discrepancies(whole, reach, part):
    """(path, rf) where whole is not zero because of the data, and for other
    reasons, among the points where reach holds"""
    d = ite(reach, whole, ZERO)
    bad = {True: None, False: None}
    mine = part == 'likelihood'

    def result():
        return bad[True], bad[False]
    # points where it does not vanish come first: refining every path of a
    # term that is not zero can be expensive
    # the condition under which it matters may be met at few of the points
    for path, rf in T.witnesses(d, 24 if T.refute(whole) is None else 3000):
        k = _depends(rf, DATA_INPUTS)
        bad[k] = bad[k] or (path, rf)
        if bad[mine]:
            return result()
    if bad[not mine]:
        for path, rf in T.witnesses(d, 300):
            if _depends(rf, DATA_INPUTS) == mine:
                bad[mine] = (path, rf)
                return result()
    T._effort[0] = 30000 if bad[not mine] else T.INF
    try:
        for path, rf in T.leaves(d):
            if not rf.num or not T.path_feasible(path):
                continue
            w = T._refine(path, rf, None, 3)
            if w is None or not T.path_possible(*w):
                continue
            k = _depends(w[1], DATA_INPUTS)
            bad[k] = bad[k] or w
            if bad[mine]:
                break
    except T.Effort:
        pass
    finally:
        T._effort[0] = T.INF
    return result()


def rule_ratio(rep, part, cfgs=None):
    """part = 'likelihood' or 'transition'."""
    n = 0
    for v in views(rep, cfgs, only=('grow', 'prune')):
        for t, c in enumerate(v.batch):
            sign = 1 if c.kind == 'grow' else -1
            _, M, found = v.threshold(t)
            if not found:
                rep.ok(f'{part}-used', False, f'acceptance of {c} depends on the log ratio', v.loc(), T.node_str(v.acc(t), 2, 4))
                continue
            llk = v.llk(t) if sign > 0 else sub(ZERO, v.llk(t))
            ltp = v.ltp(t) if sign > 0 else sub(ZERO, v.ltp(t))
            for R, node, reach in found:
                n += 1
                if R is None:
                    rep.ok(f'{part}-form', False, f'{c}: log ratio compared linearly with the log uniform', v.loc(), T.node_str(node, 2, 4))
                    continue
                d = sub(sub(leaf(R), llk), ltp)
                bad_data, bad_other = _discrepancies(d, reach, part)
                bad = bad_data if part == 'likelihood' else bad_other
                det = '' if bad is None else f'under {T.path_str(bad[0])} the log ratio differs by {T.rf_str(bad[1], 2)[:500]}'
                rep.ok(part, bad is None, f'log ratio that decides {c} [{v.cfg}]', v.loc(), det)
            # reported ratios
            if v.cfg.save_ratios:
                if part == 'likelihood':
                    rep.same('reported-likelihood', v.r['ratios.log_likelihood'][t], v.llk(t),
                             f'reported log likelihood ratio of {c}', v.loc())
                else:
                    rep.same('reported-transition', v.r['ratios.log_trans_prior'][t], v.ltp(t),
                             f'reported log transition-prior ratio of {c}', v.loc())
    rep.require(n, 'comparisons of the log ratio with the log uniform', 8 if cfgs is None else 1)


def rule_decision(rep, cfgs=None):
    n = 0
    for v in views(rep, cfgs):
        for t, c in enumerate(v.batch):
            if c.kind == 'none':
                new = v.r['split_trees'][t]
                old = v.I('bart.split_trees')[t]
                rep.same_arr('not-allowed', new, old, f'tree without an allowed move keeps its rules', v.loc())
                n += 1
                continue
            abst, M, found = v.threshold(t)
            want = and_(T.truth(v.I('moves.allowed')[t]), and_(M, v.points_ok(t)))
            rep.same('decision', abst, want, f'{c} accepted iff allowed, log u <= log ratio and both leaves have enough points [{v.cfg}]',
                     v.loc())
            n += 1
            for R, node, reach in found:
                if R is None:
                    continue
                # direction of the ratio: prune uses the inverse of grow
                coef = None
                pr = atom(v.I('moves.partial_ratio')[t])
                la = T.mkatom('log', T.p_freeze({((pr.id, 1),): Fraction(1)}))
                coef = R.num.get(((la.id, 1),)) if R.ispoly() else _lin_coef(R, la)
                want_c = 1 if c.kind == 'grow' else -1
                rep.ok('direction', coef is not None and coef == want_c,
                       f'{c} uses the {"direct" if want_c > 0 else "inverse"} ratio', v.loc(), f'coefficient of the log transition ratio: {coef}')
    rep.require(n, 'move decisions', 8 if cfgs is None else 1)


def _lin_coef(R, la):
    """coefficient of atom la in the rational function R if linear, else None"""
    num = {}
    for m, c in R.num.items():
        d = dict(m)
        if d.pop(la.id, 0) == 1:
            num[tuple(sorted(d.items()))] = c
    if not num:
        return None
    q = T.rf_make(num, R.den)
    return q.const() if q.isconst() else None


def active_leaves(cfg, c):
    """(node indices that may be leaves in both trees, {acc: nodes}, ...)"""
    if c.kind == 'none':
        return [1], {True: [], False: []}
    inner = descendants(c.node, cfg.full) | set(ancestors(c.node)) | {0}
    others = [i for i in range(cfg.full) if i not in inner]
    if cfg.deep:
        others = [c.node ^ 1]
    if c.kind == 'grow':
        return others, {True: [c.left, c.right], False: [c.node]}
    return others, {True: [c.node], False: [c.left, c.right]}


def rule_leaves(rep, cfgs=None):
    n = 0
    for v in views(rep, cfgs):
        cfg = v.cfg
        s2 = v.I('bart.sigma2')[()]
        for t, c in enumerate(v.batch):
            others, mine = active_leaves(cfg, c)
            acc = v.acc(t)
            drawn = {}
            for i, guard in [(i, TRUE) for i in others] + [(i, acc) for i in mine[True]] + [(i, not_(acc)) for i in mine[False]]:
                cnt, rs = v.stats(t, i)
                prec = add(div(cnt, s2), const(cfg.nt))
                mean = div(div(rs, s2), prec)
                sd = map1('sqrt', T.rf_sqrt, div(ONE, prec))
                out = v.r['leaf_trees'][t, i]
                z = ite(guard, div(sub(out, mean), sd), ZERO)
                drs, bad = set(), _not_a_draw(z)
                if bad is None:
                    # terms whose refinement is expensive are tried at more points first
                    T._effort[0] = 30000
                    try:
                        drs, bad = _draws_of(z)
                    except T.Effort:
                        T._effort[0] = T.INF
                        bad = _not_a_draw(z, 3000)
                        if bad is None:
                            drs, bad = _draws_of(z)
                    finally:
                        T._effort[0] = T.INF
                n += 1
                if bad is not None:
                    S = {a: ZERO for a in T.rf_atoms(bad[1]) if T.ATOMS[a].kind == 'draw'}
                    rep.ok('leaf-conditional', False, f'leaf {i} of a tree with {c} ~ N(mean, sd) of its conditional posterior [{cfg}]', v.loc(),
                           f'under {T.path_str(bad[0])}: (leaf - mean)/sd = {T.rf_str(bad[1], 2)[:700]}')
                    continue
                rep.ok('leaf-conditional', len(drs) >= 1, f'leaf {i} of a tree with {c}: conditional posterior with a standard normal draw', v.loc(), 'no draw')
                for a in drs:
                    drawn.setdefault(a, set()).add(i)
            # distinct leaves of the same final tree use distinct draws
            for a, is_ in drawn.items():
                for grp in (mine[True], mine[False]):
                    live = set(others) | set(grp)
                    hit = sorted(is_ & live)
                    rep.ok('leaf-independence', len(hit) <= 1, f'draws of distinct leaves are distinct ({c})', v.loc(), f'leaves {hit} share {a}')
            v.__dict__.setdefault('_draws', {})[t] = set(drawn)
        d = v.__dict__['_draws']
        for t in d:
            for u in d:
                if t < u:
                    rep.ok('tree-independence', not (d[t] & d[u]), 'draws of distinct trees are distinct', v.loc(), list(d[t] & d[u])[:3])
    rep.require(n, 'leaf draws', 20 if cfgs is None else 1)


def _draws_of(z):
    """the normal draws z is equal to, by path, or a path where it is none"""
    drs = set()
    for path, rf in T.leaves(z):
        if not rf.num or not T.path_feasible(path):
            continue
        a = _single_atom(rf)
        if a is None or a.kind != 'draw' or a.args[0] != 'normal':
            if not T.path_possible(path, rf):
                continue
            a = _same_draw(path, rf)
            if a is None:
                return drs, (path, rf)
        drs.add(a)
    return drs, None


def _not_a_draw(z, tries=24):
    """(path, rf) of a valuation where z is neither zero nor one of the normal
    draws it depends on, or None"""
    for k in range(tries):
        pt = T._Point(k)
        try:
            val, path, rf = pt.node(z)
            a = _single_atom(rf)
            if not rf.num or (a is not None and a.kind == 'draw' and a.args[0] == 'normal'):
                continue
            cands = [pt.atom(i) for i in T.rf_atoms(rf) if T.ATOMS[i].kind == 'draw' and T.ATOMS[i].args[0] == 'normal']
        except (T._Skip, OverflowError, ZeroDivisionError, KeyError, TypeError):
            continue
        if abs(val) > 1e-5 and all(abs(val - c) > 1e-5 for c in cands):
            return path, rf
    return None


def _same_draw(path, rf):
    """the normal draw this expression is equal to, after unfolding sums"""
    for i in T.rf_atoms(rf):
        a = T.ATOMS[i]
        if a.kind == 'draw' and a.args[0] == 'normal':
            w = T._refine(path, T.rf_add(rf, T.rf_atom(a), -1), None, 3)
            if w is None or not T.path_possible(*w):
                return a
    return None


def _single_atom(rf):
    if rf.ispoly() and len(rf.num) == 1:
        (m, c), = rf.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return T.ATOMS[m[0][0]]
    return None


def _leaf_lookup(tree_row, idx, size):
    return L.switch(idx, 0, size - 1, lambda k: tree_row[k])


def rule_residuals(rep, cfgs=None):
    n = 0
    if cfgs is None:
        # leaves of a narrower type: the residuals follow the stored values
        f16 = Config(n=3, p=1, nt=2, d=2, small=jnp.float16, resid_batch=None)
        f16.rounding = True
        cfgs_ = configs(rep) + [f16]
    for v in views(rep, cfgs_ if cfgs is None else cfgs):
        cfg = v.cfg
        for t, c in enumerate(v.batch):
            cut = v.cut(t)
            rin = v.resid_in(t)
            lold, lnew = v.I('bart.leaf_indices')[t], v.r['leaf_indices'][t]
            told, tnew = v.I('bart.leaf_trees')[t], v.r['leaf_trees'][t]
            for j in range(cfg.n):
                want = sub(_leaf_lookup(told, lold[j], cfg.full), _leaf_lookup(tnew, lnew[j], cfg.full))
                rep.same('residual-update', sub(cut.value[j], rin[j]), want,
                         f'residual of point {j} changes by (old leaf - new leaf) of its leaf, {c} [{cfg}]', v.loc())
                n += 1
        last = v.cut(cfg.nt - 1).unknown
        for j in range(cfg.n):
            rep.same('residual-final', v.r['resid'][j], last[j], f'residuals after the last tree are the new residuals', v.loc())
    rep.require(n, 'residual updates', 20 if cfgs is None else 1)


def deep_configs(rep):
    return [Config(n=2, p=1, nt=2, d=d, resid_batch=rb, count_batch=cb, deep=True)
            for d, rb, cb in ((8, None, 1), (9, 2, None), (10, None, 2))]


def rule_deep(rep, part=None):
    """the same at the last levels of trees at the capacity of the types of the node indices"""
    cfgs = deep_configs(rep)
    if part in (None, 'structure'):
        rule_structure(rep, cfgs)
    if part in (None, 'leaves'):
        rule_leaves(rep, cfgs)
    if part in (None, 'residuals'):
        rule_residuals(rep, cfgs)
    if part in (None, 'decision'):
        rule_decision(rep, cfgs)
    for q in ('likelihood', 'transition'):
        if part in (None, q):
            rule_ratio(rep, q, cfgs)


def rule_many_points(rep, part=None):
    """the same with more datapoints than the narrow integers can count"""
    cfgs = [Config(n=258, p=1, nt=1, d=2, bulk=True, **kw) for kw in (dict(resid_batch=None), dict(min_points=False, count_batch=2, resid_batch=1), dict(resid_batch=257, count_batch=300))]
    if rep.thorough or part in ('leaves', 'likelihood'):
        cfgs += [Config(n=2 ** 16 + 2, p=1, nt=1, d=2, bulk=True, resid_batch=None, count_batch=cb) for cb in (None, 2 ** 17)]
    if part in (None, 'structure'):
        rule_structure(rep, cfgs)
    if part in (None, 'leaves'):
        rule_leaves(rep, cfgs)
    if part in (None, 'residuals'):
        rule_residuals(rep, cfgs)
    if part in (None, 'decision'):
        rule_decision(rep, cfgs)
    for q in ('likelihood', 'transition'):
        if part in (None, q):
            rule_ratio(rep, q, cfgs)


def rule_many_trees(rep, part=None):
    """the same with more trees than the narrow integers can count"""
    cfgs = [Config(n=1, p=1, nt=257, d=2, min_points=False, resid_batch=None),
            Config(n=1, p=1, nt=257, d=2, min_points=part in (None, 'structure', 'decision'), resid_batch=1, count_batch=1)]
    if part in (None, 'structure'):
        rule_structure(rep, cfgs)
    if part in (None, 'leaves'):
        rule_leaves(rep, cfgs)
    if part in (None, 'residuals'):
        rule_residuals(rep, cfgs)
    if part in (None, 'decision'):
        rule_decision(rep, cfgs)
    for q in ('likelihood', 'transition'):
        if part in (None, q):
            rule_ratio(rep, q, cfgs)


def rule_structure(rep, cfgs=None):
    n = 0
    for v in views(rep, cfgs):
        cfg = v.cfg
        loc = v.loc()
        X = v.I('bart.X')
        ga, pa, gp, pp = [], [], [], []
        for t, c in enumerate(v.batch):
            acc = v.acc(t)
            # rules of the tree
            rep.same_arr('axes', v.r['var_trees'][t], v.I('moves.var_trees')[t], f'decision axes after {c}', loc)
            old, new = v.I('bart.split_trees')[t], v.r['split_trees'][t]
            for k in range(cfg.half):
                if c.kind == 'none' or k != c.node:
                    if k in descendants(c.node, cfg.half):
                        continue
                    want = old[k]
                elif c.kind == 'grow':
                    want = ite(acc, v.I('moves.grow_split')[t], ZERO)
                else:
                    want = ite(acc, ZERO, old[k])
                rep.same('cutpoints', new[k], want, f'cutpoint {k} after {c}', loc)
                n += 1
            # leaf indices
            lold, lnew, lp = v.I('bart.leaf_indices')[t], v.r['leaf_indices'][t], v.Lprime(t)
            for j in range(cfg.n):
                if c.kind == 'grow':
                    want = ite(acc, lp[j], lold[j])
                elif c.kind == 'prune':
                    want = ite(acc, ite(or_(eq(lold[j], const(c.left)), eq(lold[j], const(c.right))), const(c.node), lold[j]), lold[j])
                else:
                    want = lold[j]
                rep.same('leaf-index', lnew[j], want, f'recorded leaf of point {j} after {c} [{cfg}]', loc)
                n += 1
            g, a = (c.kind == 'grow'), T.truth(v.I('moves.allowed')[t])
            if g:
                gp.append(ONE)
                ga.append(acc)
            elif c.kind == 'prune':
                pp.append(a)
                pa.append(acc)
            # affluence: which leaves can be grown
            if cfg.min_points:
                m2 = mul(const(2), v.I('bart.min_points_per_leaf')[()])
                others, mine = active_leaves(cfg, c)
                for i, guard in [(i, TRUE) for i in others] + [(i, acc) for i in mine[True]] + [(i, not_(acc)) for i in mine[False]]:
                    if i < cfg.half:
                        cnt, _ = v.stats(t, i)
                        rep.same('affluence', ite(guard, v.r['affluence_trees'][t, i], ZERO), ite(guard, ge(cnt, m2), ZERO),
                                 f'leaf {i} after {c} is growable iff it holds twice the minimum number of points', loc)
                        n += 1
        for nm, lst in (('grow_prop_count', gp), ('grow_acc_count', ga), ('prune_prop_count', pp), ('prune_acc_count', pa)):
            rep.same('counters', v.r[nm][()], sum_nodes(lst), f'{nm} counts the moves of this iteration', loc)
        # frame: everything else is untouched
        for nm in v.r.out:
            if nm in ('leaf_trees', 'var_trees', 'split_trees', 'resid', 'leaf_indices', 'affluence_trees') or nm.endswith('_count') or nm.startswith('ratios'):
                continue
            if 'bart.' + nm in v.inp:
                rep.same_arr('frame', v.r[nm], v.I('bart.' + nm), f'{nm} is not changed by the tree update', loc)
    rep.require(n, 'structure updates', 50 if cfgs is None else 1)


def rule_batch_sizes(rep):
    """the update is the same, exact, one whatever the sizes of the batches of the reductions"""
    for dims in (dict(n=5, p=1, nt=2, d=2), dict(n=7, p=1, nt=2, d=2)) + ((dict(n=8, p=2, nt=2, d=3), dict(n=6, p=1, nt=3, d=2), dict(n=1, p=1, nt=2, d=2)) if rep.thorough else ()):
        N = dims['n']
        sizes = [(None, None), (1, 1), (2, 3), (3, 2), (max(1, N - 1), 4), (4, max(1, N - 1)), (N, N), (N + 1, 2 * N), (None, 2), (2, None)]
        cfgs = [Config(resid_batch=rb, count_batch=cb, **dims) for rb, cb in sizes]
        rule_ratio(rep, 'likelihood', cfgs)
        rule_ratio(rep, 'transition', cfgs)
        rule_leaves(rep, cfgs)
        rule_structure(rep, cfgs)


def rule_batch_sizes_many(rep):
    """the same with more trees or batches than the narrow integers can count"""
    cfgs = [Config(n=1, p=1, nt=257, d=2, min_points=False, resid_batch=1, count_batch=1)]
    cfgs += [Config(n=258, p=1, nt=1, d=2, bulk=True, **kw) for kw in (dict(resid_batch=1, count_batch=1), dict(resid_batch=257, count_batch=300))]
    rule_leaves(rep, cfgs)
    rule_structure(rep, cfgs)
