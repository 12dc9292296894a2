"""Rules on the textual rendering of trees."""

import re
import unicodedata

import numpy as np

from .. import frontend as F
from .. import host
from .. import lift as L
from .. import terms as T
from ..terms import const, ZERO
from .proposal import shapes

ANCHOR = 'debug.print_tree'


def tree(inner, d, name=''):
    """arrays of a tree with d levels: leaf values, axes and cutpoints"""
    half = 2 ** (d - 1)
    lv = L.make_input(name + 'leaf_tree', (2 * half,), np.dtype('float32'))
    vt = L.make_input(name + 'var_tree', (half,), np.dtype('uint8'), lo=0, hi=255)
    sp = L.make_input(name + 'split_tree', (half,), np.dtype('uint8'), lo=1, hi=255)
    for k in range(half):
        if k not in inner:
            sp[k] = ZERO
    return lv, vt, sp


def flat(text):
    """[parts]: literal strings, with constant integers written out, and values"""
    out = []
    for p in text.parts:
        if isinstance(p, host.Shown) and T.isconst(p.node) and T.Fraction(T.constval(p.node)).denominator == 1 and not p.spec.endswith(('f', 'g', 'e', '%')):
            p = str(int(T.constval(p.node)))
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def lines_of(texts):
    """one list of parts per printed line"""
    out = []
    for t in texts:
        cur = []
        for p in flat(t):
            if isinstance(p, str):
                first, *rest = p.split('\n')
                cur.append(first)
                for r in rest:
                    out.append(cur)
                    cur = [r]
            else:
                cur.append(p)
        if cur:
            out.append(cur)
    return [x for x in out if any(not isinstance(p, str) or p.strip() for p in x)]


def preorder(inner, size, every, k=1):
    if k >= size:
        return []
    out = [k]
    if every or k in inner:
        out += preorder(inner, size, every, 2 * k) + preorder(inner, size, every, 2 * k + 1)
    return out


def prefix(parts):
    """(number of the node, what is drawn between it and the contents)"""
    if not isinstance(parts[0], str):
        return None, None
    m = re.match(r'\W*?(\d+)', parts[0])
    if not m:
        return None, None
    rest = parts[0][m.end():]
    n = re.match(r'[^\w(\[{<"\']*', rest)
    return int(m.group(1)), n.group(0)


def box(c):
    return unicodedata.name(c[:1] or ' ', '').startswith('BOX DRAWINGS')


def down(c):
    n = unicodedata.name(c[:1] or ' ', '')
    return 'DOWN' in n or 'VERTICAL AND RIGHT' in n


def check_lines(rep, texts, inner, d, arrays, every, w, loc):
    lv, vt, sp = arrays
    half, size = 2 ** (d - 1), 2 ** d
    order = preorder(inner, size, every)
    lines = lines_of(texts)
    pre = [prefix(x) for x in lines]
    got = [k for k, _ in pre]
    if not rep.ok('nodes', got == order, f'one line per {"node" if every else "node of the tree"}, left before right {w}', loc, f'nodes {got[:40]} instead of {order[:40]}'):
        return
    col = {}
    drawn = {}
    for k, parts, (_, draw) in zip(order, lines, pre):
        vals = [p for p in parts if isinstance(p, host.Shown)]
        used = all(a in inner for a in ancestors_(k))
        text = ''.join(p if isinstance(p, str) else '\0' for p in parts)
        if k in inner:
            i = [j for j, p in enumerate(vals) if p.node is vt[k]]
            j = [j for j, p in enumerate(vals) if p.node is sp[k]]
            rep.ok('rule', bool(i and j) and i[0] < j[0], f'decision node {k} shows its predictor and cutpoint {w}', loc, parts)
            stray = [p for p in vals if p.node not in (vt[k], sp[k], lv[k])]
        else:
            hit = [p for p in vals if p.node is lv[k]]
            rep.ok('value', bool(hit) and all(not re.fullmatch(r'.*(d|\.0[f%]?)', p.spec) for p in hit), f'leaf {k} shows its value {w}', loc, [f'{p!r}' for p in vals])
            stray = [p for p in vals if not (p.node is lv[k] or every and k < half and p.node is vt[k])]
        rep.ok('own', not stray, f'the line of node {k} shows no value of another node {w}', loc, stray)
        if every:
            name = 'decision' if k in inner and used else 'leaf' if used else 'unused'
            said = [x for x in ('decision', 'leaf', 'unused') if x in text.lower()]
            rep.ok('kind', said == [name], f'node {k} is labelled as {name} {w}', loc, said)
        depth = k.bit_length() - 1
        col.setdefault(depth, set()).add(len(draw))
        drawn.setdefault(draw[:-1], []).append(k) if depth else None
    ok = rep.ok('nesting', all(len(c) == 1 for c in col.values()) and all(min(col[i + 1]) > max(col[i]) for i in range(len(col) - 1)),
           f'nodes are indented by their depth {w}', loc, {k: sorted(v) for k, v in col.items()})
    if not ok:
        return
    W = [min(col[i]) - 1 for i in range(len(col))]
    bad = []
    for k, (_, draw) in zip(order, pre):
        depth = k.bit_length() - 1
        for i in range(1, depth + 1):
            a = k >> (depth - i)
            block, more = draw[W[i - 1]:W[i]], a % 2 == 0
            if a != k and (block.strip() != '') != more:
                bad.append((k, a, block))
            if a == k and (not block.strip() or box(block[0]) and down(block[0]) != more):
                bad.append((k, a, block))
        if (box(draw[-1:]) or draw[-1:] == ' ') and down(draw[-1:]) != (2 * k in order):
            bad.append((k, k, draw[-1:]))
    rep.ok('lines', not bad, f'the lines drawn go on to the next child, and only there {w}', loc, bad[:4])
    # leaves of the last level, which have no room below, are told apart from the others
    ends = {(2 * k >= size): set() for k in order}
    for k, (_, draw) in zip(order, pre):
        if k not in inner and not every:
            ends[2 * k >= size].add(draw[-1:])
    rep.ok('bottom', not (ends.get(True, set()) & ends.get(False, set())), f'leaves of the last level are drawn differently from the others {w}', loc, ends)
    # the drawing tells the left from the right subtree at each level above
    rep.ok('branches', all(len(v) == 1 for v in drawn.values()), f'nodes of the same depth in different branches are drawn differently {w}', loc, [v for v in drawn.values() if len(v) > 1][:3])
    return True


def ancestors_(k):
    out = []
    while k > 1:
        k //= 2
        out.append(k)
    return out


def cases(rep):
    for d in (1, 2, 3):
        for s in shapes(2 ** (d - 1)):
            yield d, s
    for d, every in ((4, 5), (5, 200)):
        al = list(shapes(2 ** (d - 1)))
        yield from ((d, s) for s in al[1::every if not rep.thorough else 1 + every // 10])
    # stray decision nodes below leaves
    for s in ({2}, {3}, {2, 3}):
        yield 3, frozenset(s)
    for s in ({2, 4}, {1, 4}, {1, 2, 7}, {1, 6, 7}, {5}, {1, 2, 3, 5}, {2, 5, 6}):
        yield 4, frozenset(s)
    for d in (7, 9, 10):
        for turns in ([0] * d, [1] * d, [i % 2 for i in range(d)]):
            k, s = 1, set()
            for b in turns[:d - 1]:
                s.add(k)
                k = 2 * k + b
            yield d, frozenset(s)


def rule_print(rep):
    """the rendering of a tree"""
    fn = F.anchor(ANCHOR)
    loc = F.where(ANCHOR)
    n = 0
    try:
        for d, inner in cases(rep):
            arrays = tree(inner, d)
            for every in (False, True):
                if every and d > 5:
                    continue
                w = f'[{d} levels, decision nodes {sorted(inner)}{", all the nodes" if every else ""}]'
                rep.config(w)
                args = [host.Array(a) for a in arrays]
                n += printed(rep, lambda: host.paths(fn, args, {'print_all': const(int(every))} if every else {}), inner, d, arrays, every, w, loc)
        # the tree asked for
        cls = F.anchor('BART.gbart')
        show = getattr(cls, '_show_tree', None)
        if show is not None:
            loc = F.where('BART.gbart')
            d, shp = 3, [frozenset(), frozenset([1]), frozenset([1, 2]), frozenset([1, 3]), frozenset([1, 2, 3]), frozenset([1])]
            alls = [[tree(shp[3 * i + j], d, f's{i}.t{j}.') for j in range(3)] for i in range(2)]
            trace = {nm: host.Array(np.array([[alls[i][j][q] for j in range(3)] for i in range(2)], object)) for q, nm in enumerate(('leaf_trees', 'var_trees', 'split_trees'))}
            others = [tree(frozenset([1, 2, 3]), d, f'last.t{j}.') for j in range(3)]
            state = {nm: host.Array(np.array([others[j][q] for j in range(3)], object)) for q, nm in enumerate(('leaf_trees', 'var_trees', 'split_trees'))}
            for i in range(2):
                for j in range(3):
                    for every in (False, True):
                        w = f'[tree {j} of sample {i}{", all the nodes" if every else ""}]'
                        me = host.Obj(cls, {'_main_trace': dict(trace), '_mcmc_state': dict(state), 'ntree': const(3), 'maxdepth': const(d)})
                        n += printed(rep, lambda: host.paths(show, [me, const(i), const(j)], {'print_all': const(1)} if every else {}), shp[3 * i + j], d, alls[i][j], every, w, loc)
    except host.Undecided as e:
        rep.notes.append(f'not decided: {e}')
        rep.ok('read', True, 'the rendering is read', loc)
        return
    rep.require(n, 'rendered trees', 20)


def printed(rep, run, inner, d, arrays, every, w, loc):
    try:
        ps = run()
    except host.Raised as e:
        rep.ok('fails', False, f'the tree is rendered {w}', loc, f'stops: {e}')
        return 1
    live = [t for c, t in ps if not (T.isconst(c) and not T.constval(c))]
    for t in live:
        check_lines(rep, t, inner, d, arrays, every, w, loc)
    return len(live)
