"""Rules on the proposal phase (mcmcstep.sample_moves)."""

import itertools
from fractions import Fraction

import numpy as np

from .. import frontend as F
from .. import lift as L
from .. import terms as T
from .. import lifted
from ..model import Config, arr, atom, descendants, ancestors
from ..terms import (const, leaf, add, sub, mul, div, ite, eq, ne, ge, gt, lt, le, and_, or_, not_,
                     map1, ZERO, ONE, TRUE, FALSE, min_, max_)

ANCHOR = 'mcmcstep.sample_moves'


def shapes(half):
    """Sets of internal nodes of the binary trees that fit in `half` slots."""
    def sub_(i):
        if i >= half:
            return [frozenset()]
        out = [frozenset()]
        for a in sub_(2 * i):
            for b in sub_(2 * i + 1):
                out.append(a | b | {i})
        return out
    return sub_(1)


class PCase:
    """A tree shape with the growability of its leaves and its axes."""

    def __init__(self, internal, poor, var, name=None):
        self.internal, self.poor, self.var, self.name = internal, poor, var, name

    def leaves(self, half):
        return [k for k in range(1, half) if k not in self.internal and (k == 1 or k // 2 in self.internal)]

    def growable(self, half, min_points):
        return [k for k in self.leaves(half) if not (min_points and k in self.poor)]

    def __repr__(self):
        return self.name or f'tree with decision nodes {sorted(self.internal)} axes {self.var} poor leaves {sorted(self.poor)}'


def leaves_of(internal, half):
    return [k for k in range(1, half) if k not in internal and (k == 1 or k // 2 in internal)]


def prunable_of(internal, half):
    return [k for k in sorted(internal) if 2 * k not in internal and 2 * k + 1 not in internal]


def cases(cfg, thorough):
    out = []
    for s in shapes(cfg.half):
        lv = leaves_of(s, cfg.half)
        poors = [frozenset()]
        if cfg.min_points and lv:
            poors = [frozenset(c) for r in range(len(lv) + 1) for c in itertools.combinations(lv, r)]
        if len(poors) > 4 and not thorough:
            poors = [poors[0], poors[1], poors[len(poors) // 2], poors[-1]]
        nodes = sorted(s)
        vs = list(itertools.product(range(cfg.p), repeat=len(nodes)))
        if len(vs) > 4:
            k = 16 if thorough else 3
            vs = [vs[(len(vs) - 1) * i // (k - 1)] for i in range(k)] if len(vs) > k else vs
        for i, pr in enumerate(poors):
            for j, v in enumerate(vs):
                if i and j and (i + j) % 2:
                    continue
                out.append(PCase(s, pr, dict(zip(nodes, v))))
    return out


def chains(cfg):
    """one path of decision nodes down to the deepest growable level, each
    way of turning and of choosing the axes; only its last leaf can grow"""
    out = []
    for turns in itertools.product((0, 1), repeat=cfg.d - 2):
        nodes = [1]
        for s in turns:
            nodes.append(2 * nodes[-1] + s)
        inner = nodes[:-1]
        axes = list(itertools.product(range(cfg.p), repeat=len(inner)))
        if len(axes) > 6:
            axes = [axes[i] for i in sorted({0, 1, 2, len(axes) // 2 - 1, len(axes) // 2, len(axes) - 1})]
        for v in axes:
            s = frozenset(inner)
            out.append(PCase(s, frozenset(leaves_of(s, cfg.half)) - {nodes[-1]}, dict(zip(inner, v))))
    return out


def shallow(cfg):
    """few decision nodes in a tree with room for many: only the shallowest
    leaves, or the ones at both ends, can grow"""
    out = []
    for inner in ((), (1,), (1, 2), (1, 3)):
        s = frozenset(inner)
        lv = leaves_of(s, cfg.half)
        for rich in {(lv[0],), (lv[-1],)}:
            for x in sorted({0, cfg.p - 1}):
                out.append(PCase(s, frozenset(lv) - set(rich), {k: (x + i) % cfg.p for i, k in enumerate(inner)}))
    return out


_ir_cache = {}


def move_ir(cfg):
    key = cfg.ident
    if key not in _ir_cache:
        _ir_cache[key] = F.trace(F.anchor(ANCHOR), cfg.state, F.KEY, argnames=['bart', 'key'], label=ANCHOR)
    return _ir_cache[key]


class View:
    def __init__(self, cfg, batch, max_split_lo=1, fixed=False):
        self.cfg, self.batch = cfg, batch
        ir = self.ir = move_ir(cfg)
        rng = cfg.state_ranges()
        rng['bart.max_split'] = dict(lo=max_split_lo, hi=cfg.max_split)
        sp = L.make_input('bart.split_trees', (cfg.nt, cfg.half), cfg.msdtype, lo=1, hi=cfg.max_split)
        vt = L.make_input('bart.var_trees', (cfg.nt, cfg.half), np.dtype('uint8'), lo=0, hi=cfg.p - 1)
        af = L.make_input('bart.affluence_trees', (cfg.nt, cfg.half), np.dtype(bool))
        for t, c in enumerate(batch):
            for k in range(cfg.half):
                if k in c.internal:
                    vt[t, k] = const(c.var[k])
                else:
                    sp[t, k] = ZERO
            for k in c.leaves(cfg.half):
                af[t, k] = const(int(k not in c.poor))
        inputs = {'bart.split_trees': sp, 'bart.var_trees': vt}
        if fixed:
            # cutpoints in the middle of the range left by the ancestors
            inputs['bart.max_split'] = arr([cfg.max_split] * cfg.p)
            for t, c in enumerate(batch):
                rng_ = {}
                for k in sorted(c.internal):
                    x, (lo, hi) = c.var[k], rng_.get((k, c.var[k]), (1, cfg.max_split + 1))
                    cut = (lo + hi) // 2
                    assert lo <= cut < hi
                    sp[t, k] = const(cut)
                    for ch, b in ((2 * k, (lo, cut)), (2 * k + 1, (cut + 1, hi))):
                        for y in range(cfg.p):
                            b0 = rng_.get((k, y))
                            if b0:
                                rng_[ch, y] = b0
                        rng_[ch, x] = b
        if cfg.min_points:
            inputs['bart.affluence_trees'] = af
        for nm in inputs:
            if nm not in ir.in_names:
                raise F.MissingAnchor(f'{ANCHOR}: input {nm}')
        self.r = lifted.lift(ir, inputs, rng)
        self.inp = self.r.inp

    def I(self, name):
        if name not in self.inp:
            raise F.MissingAnchor(f'{ANCHOR}: input {name}')
        return self.inp[name]

    def o(self, name, t):
        return self.r[name][t]

    def loc(self):
        return F.where(ANCHOR)

    # reference

    def sets(self, t):
        c, h = self.batch[t], self.cfg.half
        return c.growable(h, self.cfg.min_points), prunable_of(c.internal, h)

    def prior_ratio(self, k):
        p = self.I('bart.p_nonterminal')
        d = k.bit_length() - 1
        pd, pc = p[d], p[d + 1]
        q = sub(ONE, pc)
        return div(mul(mul(q, q), pd), sub(ONE, pd))

    def ratio(self, t, k, kind):
        """prior ratio x transition ratio of growing node k, without the
        probability of proposing to prune"""
        c, cfg = self.batch[t], self.cfg
        w = self.I('bart.p_propose_grow')
        if kind == 'grow':
            small, big = c.internal, c.internal | {k}
            growable = c.growable(cfg.half, cfg.min_points)
        else:
            small, big = c.internal - {k}, c.internal
            growable = [j for j in leaves_of(small, cfg.half) if not (cfg.min_points and j in c.poor and j != k)]
        tot = ZERO
        for j in growable:
            tot = add(tot, w[j])
        p_choose = div(w[k], tot)
        n_prune = len(prunable_of(big, cfg.half))
        p_grow = ONE if not small else const(Fraction(1, 2))
        fwd = mul(p_grow, p_choose)
        back = const(Fraction(1, n_prune))
        return mul(self.prior_ratio(k), div(back, fwd))

    def split_bounds(self, t, k, v):
        """inclusive lower / exclusive upper bound of the cutpoints of v at k"""
        c = self.batch[t]
        sp = self.I('bart.split_trees')[t]
        lo, hi = ONE, add(self.I('bart.max_split')[v], ONE)
        child = k
        for a in ancestors(k):
            if c.var.get(a) == v:
                if child == 2 * a:
                    hi = min_(hi, sp[a])
                else:
                    lo = max_(lo, add(sp[a], ONE))
            child = a
        return lo, hi


    # every decision rule lies in the range left by its ancestors
    def valid(self, t):
        g = TRUE
        sp = self.I('bart.split_trees')[t]
        for a, x in self.batch[t].var.items():
            lo, hi = self.split_bounds(t, a, x)
            g = and_(g, and_(ge(sp[a], lo), lt(sp[a], hi)))
        return g


def configs(rep):
    base = [Config(n=2), Config(n=2, min_points=False, max_split=255), Config(n=2, d=2, nt=2, p=1), Config(n=2, d=3, nt=2, p=1)]
    if rep.thorough:
        base += [Config(n=2, d=4, nt=2, p=2), Config(n=2, d=3, nt=3, p=3, max_split=300, msdtype='uint16'),
                 Config(n=2, d=4, nt=2, p=1, min_points=False)]
    return base


def views(rep, cfgs=None, **kw):
    jobs = [(c, cases(c, rep.thorough)) for c in (cfgs if cfgs is not None else configs(rep))]
    if cfgs is None:
        deep = [Config(n=2, d=4, nt=4, p=1), Config(n=2, d=4, nt=4, p=2), Config(n=2, d=5, nt=4, p=1)]
        if rep.thorough:
            deep += [Config(n=2, d=5, nt=4, p=2), Config(n=2, d=4, nt=4, p=3)]
        jobs += [(c, chains(c)) for c in deep]
        jobs += [(c, shallow(c)) for c in [*deep, Config(n=2, d=7, nt=4, p=1, max_split=300, msdtype='uint16'), Config(n=2, d=9, nt=2, p=2)]]
    for cfg, cs in jobs:
        rep.config(cfg)
        rep.ir(move_ir(cfg))
        while len(cs) % cfg.nt:
            cs.append(cs[len(cs) % 3])
        for i in range(0, len(cs), cfg.nt):
            yield View(cfg, cs[i:i + cfg.nt], **kw)


def at(v, t, k, kind):
    """guard: the proposed move is `kind` at node k"""
    g = T.truth(v.o('grow', t))
    if kind == 'prune':
        g = and_(not_(g), T.truth(v.o('allowed', t)))
    return and_(g, eq(ite(g, v.o('node', t), const(-1)), const(k)))


def draws_in(n):
    return sorted((a for a in T.all_atoms(n) if a.kind == 'draw'), key=lambda a: a.id)


def direct_atoms(n):
    """atoms occurring directly (not inside other atoms) in a value"""
    out = set()
    seen, stack = set(), [n]
    while stack:
        m = stack.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        if m.cond is None:
            out |= T.rf_atoms(m.rf)
        else:
            out |= T.rf_atoms(T.BASES[m.cond[0]].rf)
            stack += [m.hi, m.lo]
    return [T.ATOMS[a] for a in sorted(out)]


def direct_draws(n):
    return [a for a in direct_atoms(n) if a.kind == 'draw']


# ---------------------------------------------------------------- rules

def rule_wide(rep, part):
    """the same in complete trees, with more nodes that can be grown or pruned
    than the narrow integers can count"""
    for d, top, mp in ((10, 512, False), (10, 511, False), (10, 256, True)):
        cfg = Config(n=2, p=1, nt=1, d=d, max_split=65535, msdtype='uint16', min_points=mp)
        inner = frozenset(range(1, top))
        rep.config(cfg)
        v = View(cfg, [PCase(inner, frozenset(), dict.fromkeys(inner, 0), f'complete tree with {top - 1} decision nodes')], fixed=True)
        rep.ir(v.ir)
        {'choice': rule_choice, 'ratio': rule_partial_ratio}[part](rep, [v])


def rule_partial_ratio(rep, vs=None):
    """transition x prior ratio carried by the proposal"""
    n = 0
    for v in views(rep) if vs is None else vs:
        for t, c in enumerate(v.batch):
            gr, pr = v.sets(t)
            for kind, nodes in (('grow', gr), ('prune', pr)):
                for k in nodes:
                    g = at(v, t, k, kind)
                    rep.same('proposal-ratio', ite(g, v.o('partial_ratio', t), ZERO), ite(g, v.ratio(t, k, kind), ZERO),
                             f'prior x transition ratio of {kind} node {k} of a {c}', v.loc())
                    n += 1
            rep.same('num-growable', v.o('num_growable', t), const(len(gr)), f'number of growable leaves of a {c}', v.loc())
    rep.require(n, 'proposal ratios', 20 if vs is None else 1)


def rule_choice(rep, vs=None):
    """which move and which node is proposed"""
    n = 0
    for v in views(rep) if vs is None else vs:
        cfg = v.cfg
        w = v.I('bart.p_propose_grow')
        for t, c in enumerate(v.batch):
            gr, pr = v.sets(t)
            loc = v.loc()
            grow, node = T.truth(v.o('grow', t)), v.o('node', t)
            # move kind
            if gr and pr:
                ds = [a for a in direct_draws(grow)]
                good = len(ds) == 1 and ds[0].args[0] == 'uniform'
                rep.ok('kind', good, f'grow or prune decided by one uniform draw for a {c}', loc, T.node_str(grow, 2))
                if good:
                    rep.ok('kind', _prob(grow, ds[0]) == Fraction(1, 2), f'grow and prune equally likely for a {c}', loc, T.node_str(grow, 2))
            else:
                rep.same('kind', grow, TRUE if gr else FALSE, f'a {c} can only be {"grown" if gr else "pruned"}', loc)
            al = T.truth(v.o('allowed', t))
            rep.same('allowed', and_(not_(grow), al), not_(grow) if pr else FALSE, f'a prune move is allowed iff there is a decision node, {c}', loc)
            rep.same('children', v.o('left', t), mul(const(2), node), f'left child index, {c}', loc)
            rep.same('children', v.o('right', t), add(mul(const(2), node), ONE), f'right child index, {c}', loc)
            n += 4
            # support: only growable leaves are grown, only leaf parents pruned
            ok_g = FALSE
            for k in gr:
                ok_g = or_(ok_g, at(v, t, k, 'grow'))
            rep.same('grow-support', grow, and_(grow, ok_g), f'only growable leaves are proposed for growth, {c}', loc)
            ok_p = FALSE
            for k in pr:
                ok_p = or_(ok_p, at(v, t, k, 'prune'))
            pg = and_(not_(grow), T.truth(v.o('allowed', t)))
            rep.same('prune-support', pg, and_(pg, ok_p), f'only parents of two leaves are proposed for pruning, {c}', loc)
            # uniform choice of the node to prune
            if pr:
                pn = ite(pg, node, const(-1))
                ds = [a for a in direct_draws(pn) if a.args[0] != 'uniform']
                if len(pr) == 1:
                    rep.same('prune-choice', pn, ite(pg, const(pr[0]), const(-1)), f'the only leaf parent is pruned, {c}', loc)
                else:
                    good = len(ds) == 1 and ds[0].args[0] == 'randint' and T.difference(ds[0].args[3][0], ZERO) is None \
                        and T.difference(ds[0].args[3][1], const(len(pr))) is None
                    rep.ok('prune-choice', good, f'uniform draw among the {len(pr)} prunable nodes of a {c}', loc, T.node_str(pn, 2))
                    if good:
                        got = [T.Subst({ds[0]: const(u)}).node(pn) for u in range(len(pr))]
                        vals = []
                        for x in got:
                            y = [k for k in pr if T.difference(x, ite(pg, const(k), const(-1))) is None]
                            vals.append(y[0] if y else None)
                        rep.ok('prune-choice', sorted(x for x in vals if x is not None) == pr, f'each prunable node equally likely, {c}', loc, vals)
                n += 1
            # leaf choice proportional to the growth weights
            if gr:
                gn = ite(grow, node, const(-1))
                if len(gr) == 1:
                    rep.same('grow-choice', gn, ite(grow, const(gr[0]), const(-1)), f'the only growable leaf is grown, {c}', loc)
                else:
                    ss = [a for a in direct_atoms(gn) if a.kind == 'fn' and a.args[0] == 'pick']
                    good = len(ss) == 1 and list(ss[0].args[4]) == gr
                    det = ''
                    for f in WEIGHTS if not ss else ():
                        # not the inversion of the cumulative distribution: measure
                        got, W = _measures(weighted(v, gn, f)), sum(f(k) for k in gr)
                        half = Fraction(1, 2) if pr else 1
                        good = got is not None and all(got.get(k, 0) == f(k) * half / W for k in gr)
                        if not good:
                            det = f'weights {[str(f(k)) for k in gr]} probabilities {got and {int(k): str(x) for k, x in got.items()}}'
                            break
                    if ss and good:
                        tot, W = ZERO, ZERO
                        for k, x in zip(gr, ss[0].args[5]):
                            tot, W = add(tot, w[k]), add(W, x)
                        same = T.difference(tot, W) is None
                        for k, x in zip(gr, ss[0].args[5]):
                            if (T.difference(x, w[k]) if same else T.difference(mul(x, tot), mul(w[k], W))) is not None:
                                good, det = False, f'leaf {k} has weight {T.node_str(x, 2)[:200]}'
                    rep.ok('grow-choice', good, f'leaf of a {c} drawn with probability proportional to its growth weight', loc, det or T.node_str(gn, 3)[:600])
                    if ss and good:
                        i = leaf(T.rf_atom(ss[0]))
                        for j, k in enumerate(gr):
                            rep.same('grow-choice', at(v, t, k, 'grow'), and_(grow, eq(i, const(j))),
                                     f'selected leaf {k} is the one grown, {c}', loc)
                n += 1
            # the lower extreme of the draws is as good as the others
            for f in WEIGHTS[:1] if gr else ():
                gn = weighted(v, ite(grow, node, const(gr[0])), f)
                for a in direct_draws(gn):
                    if a.args[0] == 'uniform':
                        x = T.Subst({a: ZERO}).node(gn)
                        for z in direct_draws(x):
                            if z.args[0] == 'uniform':
                                x = T.Subst({z: const(Fraction(1, 3))}).node(x)
                        rep.ok('extreme-draw', T.isconst(x) and T.constval(x) in gr, f'a growable leaf is picked even if the uniform draw is zero, {c}', loc, T.node_str(x, 2)[:300])
            # log-uniform threshold
            lu = v.o('logu', t)
            ds = direct_draws(lu) or draws_in(lu)
            good = len(ds) == 1 and ds[0].args[0] == 'uniform'
            if good:
                u = leaf(T.rf_atom(ds[0]))
                good = T.difference(lu, map1('log', T.rf_log, sub(ONE, u))) is None or T.difference(lu, map1('log', T.rf_log, u)) is None
            rep.ok('log-uniform', good, f'acceptance threshold is the log of a uniform draw', loc, T.node_str(lu, 3))
        own_draws(rep, v)
    rep.require(n, 'proposal choices', 20 if vs is None else 1)


def own_draws(rep, v):
    """trees, and the decisions on a tree, do not share random numbers"""
    loc, used = v.loc(), {}
    for t, c in enumerate(v.batch):
        kind, lu = draws_in(T.truth(v.o('grow', t))), draws_in(v.o('logu', t))
        rest = {a for k in ('node', 'allowed', 'grow_var', 'grow_split', 'partial_ratio') for a in draws_in(v.o(k, t))}
        both = [str(a) for a in lu if a in rest or a in kind]
        rep.ok('threshold-draw', not both, f'the acceptance threshold has its own random draw, {c}', loc, both[:3])
        # the choices of the node, given the kind of move
        g = T.truth(v.o('grow', t))
        node, axis = v.o('node', t), v.o('grow_var', t)
        picks = {a for x in direct_atoms(node) + direct_atoms(axis) if x.kind == 'fn' for y in x.args if isinstance(y, T.Node) for a in draws_in(y)}
        both = [str(a) for a in kind if a in picks or a in direct_draws(axis)]
        rep.ok('kind-draw', not both, f'the kind of move has its own random draw, {c}', loc, both[:3])
        for a in {*kind, *lu, *rest}:
            used.setdefault(a, set()).add(t)
    shared = [(str(a), sorted(ts)) for a, ts in used.items() if len(ts) > 1]
    rep.ok('own-draws', not shared, f'each tree has its own random draws [{v.cfg}]', loc, shared[:2])


def _prob(n, a):
    """Probability of a 0/1 value that only compares the uniform draw a."""
    tot = Fraction(0)
    for path, rf in T.leaves(n):
        lo, hi = Fraction(0), Fraction(1)
        for b, (l, ls, h, hs) in T._path_intervals(path).items():
            rfb = T.BASES[b].rf
            if rfb != T.rf_atom(a):
                return None
            lo, hi = max(lo, l), min(hi, h)
        if not rf.isconst():
            return None
        tot += rf.const() * max(hi - lo, 0)
    return tot


def _measures(n):
    """value -> probability for a value that depends only on comparisons of
    uniform draws with numbers; None if it is not of this kind"""
    tot = {}
    for path, rf in T.leaves(n):
        box = {}
        for b, (l, ls, h, hs) in T._path_intervals(path).items():
            rfb = T.BASES[b].rf
            if not rfb.ispoly() or len(rfb.num) != 1:
                return None
            (m, c), = rfb.num.items()
            if c != 1 or len(m) != 1 or m[0][1] != 1 or T.ATOMS[m[0][0]].kind != 'draw' or T.ATOMS[m[0][0]].args[0] != 'uniform':
                return None
            box[m[0][0]] = max(Fraction(0), l) if l != -T.INF else Fraction(0), min(Fraction(1), h) if h != T.INF else Fraction(1)
        pr = Fraction(1)
        for l, h in box.values():
            pr *= max(h - l, 0)
        if not pr:
            continue
        if not rf.isconst():
            return None
        tot[rf.const()] = tot.get(rf.const(), 0) + pr
    return tot


WEIGHTS = (lambda k: k + 1, lambda k: Fraction(1, k), lambda k: (k * 7) % 11 + 1)


def weighted(v, x, f):
    """x for given numeric growth weights"""
    w = v.I('bart.p_propose_grow')
    S = {T.ATOMS[a]: const(f(k)) for k in range(1, len(w)) for a in T.rf_atoms(w[k].rf)}
    return T.Subst(S).node(x)


def rule_rule_choice(rep):
    """axis and cutpoint of the proposed rule"""
    n = 0
    for v in views(rep):
        cfg = v.cfg
        for t, c in enumerate(v.batch):
            gr, pr = v.sets(t)
            loc = v.loc()
            for k in c.internal:
                rep.same('axes-kept', v.o('var_trees', t)[k], v.I('bart.var_trees')[t, k], f'axis of decision node {k} kept, {c}', loc)
            for k in gr:
                n += _rule_at(rep, v, t, k, loc)
    rep.require(n, 'proposed rules', 20)


def _under(G, x):
    """the constant value of x where G holds, or None"""
    if T.isconst(x):
        return T.constval(x)
    vals = set()
    for gpath, grf in T.leaves(G):
        if not grf.num or not T.path_feasible(gpath):
            continue
        for y in (x, None):
            if y is None:       # unfold the sums along this path
                y = T.expand_inds(T.expand_msums(x))
            for c, val in gpath:
                y = T.restrict(y, c, val)
            ends = [(gpath + path, rf.const() if rf.isconst() else None) for path, rf in T.leaves(y) if T.path_feasible(gpath + path)]
            got = {x for _, x in ends}
            if len(got) > 1:
                got = {x for path, x in ends if T.path_possible(path)}
            if len(got) == 1 and None not in got:
                break
        vals |= got
        if len(vals) > 1 or None in vals:
            return None
    return vals.pop() if len(vals) == 1 else None


def specialise(n, G):
    """n where G holds, with the ranges of its integer draws resolved"""
    n = ite(G, n, const(-1))
    sub_ = {}
    for a in direct_draws(n):
        if a.args[0] == 'randint':
            lo, hi = _under(G, a.args[3][0]), _under(G, a.args[3][1])
            if lo is None or hi is None:
                continue
            sub_[a] = const(lo) if hi <= lo + 1 else L.randint_node(a.args[1], a.args[2], const(lo), const(hi), None, None)
    return ite(G, T.Subst(sub_).node(n), const(-1)) if sub_ else n


def cut_fault(H, split, lo, hi):
    """what is wrong with the cutpoint where H holds, if it is not an integer
    drawn uniformly in [lo, hi); a draw may be shifted"""
    bad = None
    for path, rf in T.leaves(ite(H, split, const(-1))):
        if not T.path_feasible(path) or (rf.isconst() and rf.const() == -1):
            continue
        a = [T.ATOMS[i] for i in T.rf_atoms(rf) if T.ATOMS[i].kind == 'draw']
        if len(a) != 1 and not T.path_possible(path):
            continue
        P = H
        for cnd, val in path:
            y = T.mknode(cnd, TRUE, FALSE)
            P = and_(P, y if val else not_(y))
        if not a:
            # the only cutpoint in the range
            w = T.difference(ite(P, leaf(rf), ZERO), ite(P, lo, ZERO))
            if w is None and T.difference(ite(P, hi, ZERO), ite(P, add(lo, ONE), ZERO)) is None:
                continue
        if len(a) != 1 or a[0].args[0] != 'randint':
            bad = bad or f'cutpoint {T.rf_str(rf, 3)[:300]} is not one integer draw'
            continue
        rest = T.rf_add(rf, T.rf_atom(a[0]), -1)
        if a[0].id in T.rf_atoms(rest):
            bad = f'cutpoint {T.rf_str(rf, 3)[:300]}'
            continue
        l2, h2 = add(a[0].args[3][0], leaf(rest)), add(a[0].args[3][1], leaf(rest))
        for nm, got, want in (('lower', l2, lo), ('upper', h2, hi)):
            w = T.difference(ite(P, got, ZERO), ite(P, want, ZERO))
            if w is not None:
                bad = bad or f'{nm} bound {T.node_str(got, 3, 3)[:300]} instead of {T.node_str(want, 3, 3)[:300]}'
    return bad


def _rule_at(rep, v, t, k, loc):
    c, cfg = v.batch[t], v.cfg
    # partition on the selected leaf
    grow, node = T.truth(v.o('grow', t)), v.o('node', t)
    S = {}
    for a in direct_atoms(ite(grow, node, const(-1))):
        if a.kind == 'fn' and a.args[0] == 'pick' and k in a.args[4]:
            S[a] = const(a.args[4].index(k))
    S = T.Subst(S).node if S else (lambda x: x)
    g = and_(and_(S(grow), eq(S(node), const(k))), v.valid(t))
    var, split, allow = S(v.o('grow_var', t)), S(v.o('grow_split', t)), S(T.truth(v.o('allowed', t)))
    rep.same('axis-recorded', ite(g, S(v.o('var_trees', t)[k]), ZERO), ite(g, var, ZERO), f'axis of grown node {k} recorded, {c}', loc)
    anc = sorted({c.var[a] for a in ancestors(k)})
    bounds = {x: v.split_bounds(t, k, x) for x in range(cfg.p)}
    n = 0
    for r in range(len(anc) + 1):
        for ex in itertools.combinations(anc, r):
            allowed = [x for x in range(cfg.p) if x not in ex]
            G = g
            for x in anc:
                lo, hi = bounds[x]
                e = ge(lo, hi)
                G = and_(G, e if x in ex else not_(e))
            if G is FALSE or _infeasible(G):
                continue
            rep.same('rule-available', specialise(allow, G), ite(G, TRUE if allowed else FALSE, const(-1)),
                     f'growing leaf {k} is allowed iff some predictor has cutpoints left, {c}', loc)
            if not allowed:
                n += 1
                continue
            V = specialise(var, G)
            m = len(allowed)
            ds = [a for a in direct_draws(V) if a not in direct_draws(G)]
            good, vals = False, None
            if m == 1:
                good = T.difference(V, ite(G, const(allowed[0]), const(-1))) is None
            elif len(ds) == 1 and _randint_is(ds[0], G, ZERO, const(m)):
                vals = []
                for u in range(m):
                    x = T.Subst({ds[0]: const(u)}).node(V)
                    y = [a for a in allowed if T.difference(x, ite(G, const(a), const(-1))) is None]
                    vals.append(y[0] if y else None)
                good = None not in vals and sorted(vals) == allowed
            rep.ok('axis-choice', good, f'axis at leaf {k} uniform among {allowed}, {c}', loc, f'draws give {vals}; {T.node_str(V, 2, 4)[:600]}')
            n += 1
            for x in allowed:
                bad = cut_fault(and_(G, eq(var, const(x))), split, *bounds[x])
                rep.ok('cut-choice', bad is None, f'cutpoint of predictor {x} at leaf {k} uniform within the range left by the ancestors, {c} [{cfg}]', loc, bad or '')
                n += 1
    return n


def _infeasible(G):
    for path, rf in T.leaves(G):
        if rf.num and T.path_possible(path):
            return False
    return True


def _randint_is(a, G, lo, hi):
    return (a.args[0] == 'randint' and T.difference(ite(G, a.args[3][0], ZERO), ite(G, lo, ZERO)) is None
            and T.difference(ite(G, a.args[3][1], ZERO), ite(G, hi, ZERO)) is None)


def rule_no_cutpoints(rep):
    """a predictor without cutpoints is never used for a rule"""
    for cfg in (Config(n=2, d=2, nt=1, p=2), Config(n=2, d=3, nt=1, p=2, min_points=False, max_split=255)):
        for c in (PCase(frozenset(), frozenset(), {}), PCase(frozenset([1]), frozenset(), {1: 0})):
            if cfg.d == 2 and c.internal:
                continue
            v = View(cfg, [c], max_split_lo=0)
            rep.config(cfg)
            rep.ir(v.ir)
            ms = v.I('bart.max_split')
            for k in c.growable(cfg.half, cfg.min_points):
                g = and_(at(v, 0, k, 'grow'), T.truth(v.o('allowed', 0)))
                for x in range(cfg.p):
                    if x in c.var.values():
                        continue
                    sel = and_(and_(g, eq(ms[x], ZERO)), eq(v.o('grow_var', 0), const(x)))
                    rep.ok('empty-predictor', _infeasible(sel), f'predictor {x} without cutpoints is not used at leaf {k}, {c} [{cfg}]', v.loc(),
                           f'allowed when {T.node_str(sel, 2, 3)[:400]}')


def spines(cfg):
    """one path of decision nodes down to the deepest growable level of a deep
    tree: the leftmost, the rightmost and an alternating one"""
    out = []
    for turns in ([0] * (cfg.d - 2), [1] * (cfg.d - 2), [(i + 1) % 2 for i in range(cfg.d - 2)]):
        nodes = [1]
        for s in turns:
            nodes.append(2 * nodes[-1] + s)
        s = frozenset(nodes[:-1])
        # the predictor with the largest index is used at the top, others below
        axes = {k: (cfg.p - 1 - i) % cfg.p for i, k in enumerate(nodes[:-1])}
        out.append(PCase(s, frozenset(leaves_of(s, cfg.half)) - {nodes[-1]}, axes))
        out.append(PCase(s - {nodes[-2]}, frozenset(leaves_of(s - {nodes[-2]}, cfg.half)) - {nodes[-2]}, {k: v for k, v in axes.items() if k != nodes[-2]}))
    # leaves close to the root of the same deep trees
    out.append(PCase(frozenset(), frozenset(), {}))
    for side in (2, 3):
        out.append(PCase(frozenset([1]), frozenset([side]), {1: 0}))
    for inner, rich in (((1, 2), 5), ((1, 3), 6), ((1, 3), 2)):
        s = frozenset(inner)
        out.append(PCase(s, frozenset(leaves_of(s, cfg.half)) - {rich}, {k: i % cfg.p for i, k in enumerate(inner)}))
    # at small depths some of these leaves do not exist
    out = [c for c in out if c.growable(cfg.half, True)]
    return [out[i % len(out)] for i in range(cfg.nt)]


def rule_deep(rep):
    """indices of nodes and predictors at the capacity of small integer types"""
    n = 0
    M = dict(n=2, nt=12, max_split=1000, msdtype='uint16')
    cfgs = [Config(p=1, d=7, **M), Config(p=2, d=8, **M), Config(p=1, d=9, **M), Config(p=1, d=10, **M), Config(n=2, p=1, nt=12, d=4, max_split=255), Config(n=2, p=1, nt=12, d=4, max_split=65535, msdtype='uint16')]
    cfgs += [Config(p=p, d=3, **M) for p in (2, 255, 256, 257)]
    if rep.thorough:
        cfgs += [Config(p=2, d=10, **M)] + [Config(p=p, d=4, **M) for p in (254, 256, 258, 300)]
    for cfg in cfgs:
        rep.config(cfg)
        v = View(cfg, spines(cfg), fixed=True)
        rep.ir(v.ir)
        loc = v.loc()
        for t, c in enumerate(v.batch):
            gr, pr = v.sets(t)
            w = f'[depth {cfg.d}, {cfg.p} predictors, {cfg.max_split} cutpoints, decision nodes {sorted(c.internal)}]'
            rep.same('num-growable', v.o('num_growable', t), const(len(gr)), f'number of growable leaves {w}', loc)
            node, left, right = v.o('node', t), v.o('left', t), v.o('right', t)
            al, gw = T.truth(v.o('allowed', t)), T.truth(v.o('grow', t))
            k, = gr
            g = and_(gw, al)
            rep.same('grown-node', ite(g, node, ZERO), ite(g, const(k), ZERO), f'the leaf proposed for growth {w}', loc)
            rep.same('child', left, mul(const(2), node), f'left child of the node of the move {w}', loc)
            rep.same('child', right, add(mul(const(2), node), ONE), f'right child of the node of the move {w}', loc)
            h = and_(not_(gw), al)
            if pr:
                rep.same('pruned-node', ite(h, node, ZERO), ite(h, const(pr[0]), ZERO), f'the node proposed for pruning {w}', loc)
            rep.same('possible', ite(gw, al, ONE), ONE, f'growth is possible {w}', loc)
            # the new axis: any predictor, stored without change
            order = None
            var, split = v.o('grow_var', t), v.o('grow_split', t)
            rep.same('axis-recorded', ite(g, v.o('var_trees', t)[k], ZERO), ite(g, var, ZERO), f'the new axis is recorded at the leaf {w}', loc)
            for a in c.internal:
                rep.same('axes-kept', v.o('var_trees', t)[a], const(c.var[a]), f'the axis of node {a} is kept {w}', loc)
            ds = [a for a in direct_draws(var) if a.args[0] == 'randint']
            if cfg.p == 1 and not ds:
                rep.same('axis', ite(g, var, ZERO), ZERO, f'the only axis is used {w}', loc)
            else:
                good = len(ds) == 1 and _randint_is(ds[0], TRUE, ZERO, const(cfg.p))
                if good and T.difference(ite(g, var, ZERO), ite(g, leaf(T.rf_atom(ds[0])), ZERO)) is not None:
                    # the draw picks the axis in some other order
                    order = [_under(g, T.Subst({ds[0]: const(u)}).node(var)) for u in range(cfg.p)]
                    good = None not in order and sorted(order) == list(range(cfg.p))
                if not rep.ok('axis', good, f'the axis is uniform among all predictors {w}', loc, T.node_str(var, 2)[:400]):
                    continue
            for x in sorted(set(c.var.values()) | {0, cfg.p - 1}):
                y = T.Subst({ds[0]: const(order.index(x) if order else x)}).node(split) if ds else split
                lo, hi = v.split_bounds(t, k, x)
                bad = cut_fault(g, y, lo, hi)
                rep.ok('cut', bad is None, f'the cutpoint of predictor {x} is uniform in the range left by the ancestors {w}', loc, bad or '')
                n += 1
    rep.require(n, 'deep trees', 20)
