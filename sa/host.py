"""Abstract interpretation of small host (Python) functions over their syntax tree.

Numbers are value numbers, texts are sequences of literal parts and of rendered
values, anything else is unknown.  Branches on values that are not constant are
enumerated; a construct that is not modelled gives an unknown value, and an
obligation that meets one is left undecided.
"""

import ast
import builtins
import functools
import importlib
import inspect
import re
from fractions import Fraction

from . import frontend as F
from . import terms as T
from .terms import const


class Undecided(Exception):
    """The host code uses something that is not modelled."""


class Shown:
    """A value rendered in a text."""

    def __init__(self, node, spec):
        self.node, self.spec = node, spec

    def __repr__(self):
        return '{%s:%s}' % (T.node_str(self.node, 1, 2)[:60], self.spec)


class Text:
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif p != '':
                self.parts.append(p)

    def literal(self):
        return ''.join(p if isinstance(p, str) else '\0' for p in self.parts)

    def plain(self):
        return all(isinstance(p, str) for p in self.parts)

    def __repr__(self):
        return ''.join(map(str, self.parts))


class Array:
    """An array of values with known shape."""

    def __init__(self, a):
        self.a = a

    def index(self, k):
        k = list(k) if isinstance(k, (list, tuple)) else [k]
        out = []
        for i in k:
            if not (is_node(i) and T.isconst(i)):
                raise Undecided('index of an array')
            out.append(int(T.constval(i)))
        if len(out) > self.a.ndim:
            raise Undecided('index of an array')
        return [i + n if i < 0 else i for i, n in zip(out, self.a.shape)]

    def read(self, k, fill=None):
        k = self.index(k)
        if any(not 0 <= i < n for i, n in zip(k, self.a.shape)):
            if fill is not None:
                return fill
            k = [min(max(i, 0), n - 1) for i, n in zip(k, self.a.shape)]
        v = self.a[tuple(k)]
        return v if is_node(v) else Array(v)

    def items(self):
        return [v if is_node(v) else Array(v) for v in self.a]


class At:
    def __init__(self, arr, k=None):
        self.arr, self.k = arr, k


class Obj:
    """An object with known attributes."""

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def get(self, name):
        if name in self.attrs:
            return self.attrs[name]
        f = inspect.getattr_static(self.cls, name, None)
        if isinstance(f, staticmethod):
            return f.__func__
        if inspect.isfunction(f):
            return functools.partial(f, self)
        raise Undecided(f'attribute {name}')


class Raised(Exception):
    """The host code stops with an error."""


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


def is_node(v):
    return isinstance(v, T.Node)


def wrap(v):
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, (int, Fraction)):
        return const(v)
    if isinstance(v, float):
        return const(Fraction(v))
    if isinstance(v, str):
        return Text([v])
    return v


def render(v, spec='', conv=-1):
    if isinstance(v, Text):
        if spec and not re.fullmatch(r'(.?[<>^])?\d*s?', spec):
            raise Undecided(f'format {spec!r} of a text')
        return v.parts
    if is_node(v):
        return [Shown(v, spec)]
    if v is None:
        return ['None']
    raise Undecided('rendering of an unknown value')


def text_len(t):
    n = 0
    for p in t.parts:
        if isinstance(p, str):
            n += len(p)
        elif p.spec == '' and T.isconst(p.node) and Fraction(T.constval(p.node)).denominator == 1:
            n += len(str(int(T.constval(p.node))))
        else:
            raise Undecided('length of a text')
    return n


class Path:
    """One path through a host function."""

    def __init__(self, choices):
        self.choices, self.k, self.conds, self.printed, self.depth, self.steps = choices, 0, [], [], 0, 0

    def truth(self, v):
        if isinstance(v, Text):
            if v.plain():
                return bool(v.literal())
            return True
        if v is None:
            return False
        if isinstance(v, (list, tuple, dict)):
            return bool(v)
        if isinstance(v, Array) and v.a.size == 1:
            return self.truth(v.a.flat[0])
        if callable(v) and not is_node(v):
            return True
        if not is_node(v):
            raise Undecided('condition on an unknown value')
        v = T.truth(v)
        if T.isconst(v):
            return bool(T.constval(v))
        if self.k == len(self.choices):
            self.choices.append(True)
        c = self.choices[self.k]
        self.k += 1
        self.conds.append(v if c else T.sub(const(1), v))
        return c

    # ------------------------------------------------------------ calls

    def call(self, fn, args, kw):
        self.depth += 1
        if self.depth > 200:
            raise Raised('recursion without end')
        try:
            while isinstance(fn, functools.partial):
                args = [wrap(a) for a in fn.args] + list(args)
                kw = {k: wrap(v) for k, v in fn.keywords.items()} | kw
                fn = fn.func
            if isinstance(fn, Closure):
                return fn.run(self, args, kw)
            f = inspect.unwrap(fn) if callable(fn) else fn
            if not inspect.isfunction(f):
                raise Undecided(f'call of {fn!r}')
            if not F.is_source(f.__code__.co_filename):
                raise Undecided(f'call of {f.__qualname__}')
            tree = definition(f)
            cells = {}
            if f.__closure__:
                for nm, c in zip(f.__code__.co_freevars, f.__closure__):
                    cells[nm] = wrap(c.cell_contents)
            defaults = inspect.signature(f).parameters
            return Closure(tree, [cells], f.__globals__, {k: wrap(p.default) for k, p in defaults.items() if p.default is not p.empty}).run(self, args, kw)
        finally:
            self.depth -= 1


def definition(f):
    """syntax tree of a function"""
    with open(f.__code__.co_filename) as file:
        tree = ast.parse(file.read())
    first = f.__code__.co_firstlineno
    hits = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Lambda) and f.__name__ == '<lambda>' and n.lineno == first:
            hits.append(n)
        if isinstance(n, ast.FunctionDef) and n.name == f.__name__ and min([n.lineno] + [d.lineno for d in n.decorator_list]) == first:
            hits.append(n)
    hits = [h for h in hits if [a.arg for a in h.args.posonlyargs + h.args.args] == list(f.__code__.co_varnames[:f.__code__.co_argcount])]
    if len(hits) != 1:
        raise Undecided(f'definition of {f.__qualname__}')
    return hits[0]


class Closure:
    def __init__(self, tree, scopes, globs, defaults):
        self.tree, self.scopes, self.globs, self.defaults = tree, scopes, globs, defaults

    def run(self, path, args, kw):
        a = self.tree.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(self.defaults)
        if len(args) > len(names):
            if a.vararg is None:
                raise Undecided('too many arguments')
            env[a.vararg.arg] = list(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = []
        env.update(zip(names, args))
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Undecided(f'unexpected argument {k}')
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        for k in names + [x.arg for x in a.kwonlyargs]:
            if k not in env:
                raise Undecided(f'missing argument {k}')
        fr = Frame(path, [*self.scopes, env], self.globs)
        if isinstance(self.tree, ast.Lambda):
            return fr.ev(self.tree.body)
        try:
            fr.block(self.tree.body)
        except _Return as r:
            return r.v
        return None


class Frame:
    def __init__(self, path, scopes, globs):
        self.path, self.scopes, self.globs = path, scopes, globs

    # ------------------------------------------------------- statements

    def block(self, body):
        for s in body:
            self.path.steps += 1
            if self.path.steps > 20000:
                raise Undecided('too many steps')
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Undecided(f'statement {type(s).__name__}')
            m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Return(self, s):
        raise _Return(None if s.value is None else self.ev(s.value))

    def s_If(self, s):
        self.block(s.body if self.path.truth(self.ev(s.test)) else s.orelse)

    def s_FunctionDef(self, s):
        d = [self.ev(x) for x in s.args.defaults]
        nm = [x.arg for x in s.args.posonlyargs + s.args.args]
        df = dict(zip(nm[len(nm) - len(d):], d))
        df |= {x.arg: self.ev(v) for x, v in zip(s.args.kwonlyargs, s.args.kw_defaults) if v is not None}
        self.scopes[-1][s.name] = Closure(s, list(self.scopes), self.globs, df)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        self.assign(s.target, self.binop(type(s.op).__name__, self.ev(s.target), self.ev(s.value)))

    def s_Import(self, s):
        pass

    def s_ImportFrom(self, s):
        for a in s.names:
            mod = importlib.import_module('.' * s.level + (s.module or ''), self.globs.get('__package__'))
            v = getattr(mod, a.name, None)
            if v is None:
                v = importlib.import_module(f'{mod.__name__}.{a.name}')
            self.scopes[-1][a.asname or a.name] = wrap(v)

    def s_Assert(self, s):
        try:
            v = self.ev(s.test)
            bad = is_node(v) and T.isconst(v) and not T.constval(v)
        except Undecided:
            return
        if bad:
            raise Raised(ast.unparse(s.test))

    def s_Break(self, s):
        raise _Break

    def s_Continue(self, s):
        raise _Continue

    def s_While(self, s):
        if s.orelse:
            raise Undecided('loop')
        while self.path.truth(self.ev(s.test)):
            try:
                self.block(s.body)
            except _Break:
                break
            except _Continue:
                pass

    def s_For(self, s):
        it = items(self.ev(s.iter))
        if s.orelse:
            raise Undecided('loop')
        for v in it:
            self.assign(s.target, v)
            try:
                self.block(s.body)
            except _Break:
                break
            except _Continue:
                pass

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.scopes[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (list, tuple)) and len(v) == len(t.elts):
            for x, y in zip(t.elts, v):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev(t.slice)
            if isinstance(o, dict) and isinstance(k, Text) and k.plain():
                o[k.literal()] = v
            else:
                raise Undecided('assignment')
        else:
            raise Undecided('assignment')

    # ------------------------------------------------------ expressions

    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided(f'expression {type(e).__name__}')
        return m(e)

    def e_Constant(self, e):
        return wrap(e.value)

    def e_Name(self, e):
        for sc in reversed(self.scopes):
            if e.id in sc:
                return sc[e.id]
        if e.id in self.globs:
            return wrap(self.globs[e.id])
        if not hasattr(builtins, e.id):
            raise Raised(f'name {e.id} is not defined')
        return Builtin(e.id)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if not isinstance(v, (list, tuple)):
                    raise Undecided('starred')
                out += v
            else:
                out.append(self.ev(x))
        return out

    e_List = e_Tuple

    def e_Dict(self, e):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out |= self.ev(v)
                continue
            k = self.ev(k)
            if not (isinstance(k, Text) and k.plain()):
                raise Undecided('key')
            out[k.literal()] = self.ev(v)
        return out

    def e_Lambda(self, e):
        return Closure(e, list(self.scopes), self.globs, {})

    def comp(self, e):
        if len(e.generators) != 1:
            raise Undecided('comprehension')
        g = e.generators[0]
        it = items(self.ev(g.iter))
        out = []
        self.scopes.append({})
        for v in it:
            self.assign(g.target, v)
            if all(self.path.truth(self.ev(c)) for c in g.ifs):
                out.append(self.ev(e.elt))
        self.scopes.pop()
        return out

    e_ListComp = e_GeneratorExp = comp

    def e_IfExp(self, e):
        return self.ev(e.body if self.path.truth(self.ev(e.test)) else e.orelse)

    def e_BoolOp(self, e):
        stop = isinstance(e.op, ast.Or)
        for x in e.values:
            v = self.ev(x)
            if self.path.truth(v) == stop:
                return v
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return const(int(not self.path.truth(v)))
        if not is_node(v):
            raise Undecided('operand')
        if isinstance(e.op, ast.USub):
            return T.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and T.truth(v) is v:
            return T.not_(v)
        raise Undecided('operator')

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        if op == 'Mod' and isinstance(a, Text):
            return percent(a, b)
        if op == 'Add' and isinstance(a, Text) and isinstance(b, Text):
            return Text(a.parts + b.parts)
        if op == 'Mult' and isinstance(a, Text) and is_node(b) and T.isconst(b):
            return Text(a.parts * max(int(T.constval(b)), 0))
        if op == 'Add' and isinstance(a, list) and isinstance(b, list):
            return a + b
        if op == 'Add' and (isinstance(a, Text) and is_node(b) or isinstance(b, Text) and is_node(a)):
            raise Raised('sum of a text and a number')
        if not (is_node(a) and is_node(b)):
            raise Undecided('operands')
        simple = dict(Add=T.add, Sub=T.sub, Mult=T.mul, Div=T.div)
        if op in simple:
            if op == 'Div' and T.isconst(b) and not T.constval(b):
                raise Undecided('division by zero')
            return simple[op](a, b)
        if T.isconst(a) and T.isconst(b):
            x, y = T.constval(a), T.constval(b)
            if op == 'Mod' and y:
                return const(x % y)
            if op == 'FloorDiv' and y:
                return const(x // y)
            if op == 'Pow' and Fraction(y).denominator == 1 and 0 <= y < 100:
                return const(Fraction(x) ** int(y))
            if op == 'BitAnd':
                return const(int(x) & int(y))
            if op == 'BitOr':
                return const(int(x) | int(y))
            if op == 'LShift' and 0 <= y < 64:
                return const(int(x) << int(y))
            if op == 'RShift' and y >= 0:
                return const(int(x) >> int(y))
        if op == 'BitAnd':
            return T.mul(T.truth(a), T.truth(b))
        raise Undecided(f'operator {op}')

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = const(1)
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            if not self.path.truth(res):
                return res
            res = self.compare(type(op).__name__, left, right)
            left = right
        return res

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if a is None or b is None:
                return const(int((a is b) == (op == 'Is')))
            raise Undecided('identity')
        if isinstance(a, Text) and isinstance(b, Text) and a.plain() and b.plain() and op in ('Eq', 'NotEq'):
            return const(int((a.literal() == b.literal()) == (op == 'Eq')))
        if not (is_node(a) and is_node(b)):
            raise Undecided('comparison')
        one = const(1)
        if op == 'GtE':
            return T.ge(a, b)
        if op == 'Gt':
            return T.gt(a, b)
        if op == 'LtE':
            return T.ge(b, a)
        if op == 'Lt':
            return T.gt(b, a)
        if op in ('Eq', 'NotEq'):
            eq = T.mul(T.ge(a, b), T.ge(b, a))
            return eq if op == 'Eq' else T.sub(one, eq)
        raise Undecided('comparison')

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts += self.e_FormattedValue(v).parts
        return Text(parts)

    def e_FormattedValue(self, e):
        spec = ''
        if e.format_spec is not None:
            t = self.ev(e.format_spec)
            spec = ''.join(p if isinstance(p, str) else str(int(T.constval(p.node))) if T.isconst(p.node) else '?' for p in t.parts)
        return Text(render(self.ev(e.value), spec))

    def e_Subscript(self, e):
        o, k = self.ev(e.value), self.ev(e.slice)
        if isinstance(o, dict) and isinstance(k, Text) and k.plain() and k.literal() in o:
            return o[k.literal()]
        if isinstance(o, (list, tuple)) and is_node(k) and T.isconst(k):
            return o[int(T.constval(k))]
        if isinstance(o, (list, tuple, Text)) and isinstance(k, slice) and (not isinstance(o, Text) or o.plain()):
            return Text([o.literal()[k]]) if isinstance(o, Text) else o[k]
        if isinstance(o, Array) and not isinstance(k, slice):
            return o.read(k)
        if isinstance(o, At) and o.k is None:
            return At(o.arr, k)
        raise Undecided('subscript')

    def e_Slice(self, e):
        def end(x):
            v = None if x is None else self.ev(x)
            if v is None:
                return v
            if not (is_node(v) and T.isconst(v)):
                raise Undecided('slice')
            return int(T.constval(v))
        return slice(end(e.lower), end(e.upper), end(e.step))

    def e_Attribute(self, e):
        o = self.ev(e.value)
        if isinstance(o, Obj):
            return o.get(e.attr)
        if isinstance(o, Array):
            if e.attr == 'at':
                return At(o)
            if e.attr == 'shape':
                return [const(n) for n in o.a.shape]
            if e.attr in ('size', 'ndim'):
                return const(getattr(o.a, e.attr))
        if inspect.isfunction(o) and e.attr in ('__name__', '__qualname__'):
            return Text([getattr(o, e.attr)])
        return Method(o, e.attr)

    def e_Starred(self, e):
        raise Undecided('starred')

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Call(self, e):
        fn = self.ev(e.func)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if not isinstance(v, (list, tuple)):
                    raise Undecided('starred')
                args += v
            else:
                args.append(self.ev(x))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Undecided('starred')
                kw |= v
            else:
                kw[k.arg] = v
        if isinstance(fn, Builtin):
            return self.builtin(fn.name, args, kw)
        if isinstance(fn, Method):
            return self.method(fn.obj, fn.name, args, kw)
        return self.path.call(fn, args, kw)

    def emit(self, text):
        self.path.printed.append(text)

    def builtin(self, name, args, kw):
        if name == 'print':
            sep = kw.get('sep')
            sep = ' ' if sep is None else sep.literal()
            out = []
            for i, a in enumerate(args):
                out += ([sep] if i else []) + render(a)
            if not set(kw) <= {'sep', 'end', 'flush', 'file'}:
                raise Undecided('print')
            self.emit(Text(out))
            return None
        if name in ('str', 'format') and args:
            spec = args[1].literal() if len(args) > 1 else ''
            return Text(render(args[0], spec))
        if name == 'len' and len(args) == 1:
            if isinstance(args[0], Text):
                return const(text_len(args[0]))
            if isinstance(args[0], (list, tuple, dict)):
                return const(len(args[0]))
            if isinstance(args[0], Array) and args[0].a.ndim:
                return const(len(args[0].a))
        if name == 'range' and args and all(is_node(a) and T.isconst(a) for a in args):
            return [const(i) for i in range(*(int(T.constval(a)) for a in args))]
        if name == 'enumerate' and args:
            k = args[1] if len(args) > 1 else kw.get('start', const(0))
            return [[T.add(k, const(i)), v] for i, v in enumerate(items(args[0]))]
        if name == 'reversed' and len(args) == 1:
            return items(args[0])[::-1]
        if name in ('int', 'float', 'bool') and len(args) == 1 and is_node(args[0]):
            v = args[0]
            if name == 'bool':
                return T.truth(v)
            if name == 'float' or T.isconst(v) and Fraction(T.constval(v)).denominator == 1:
                return v
            raise Undecided('int')
        if name == 'dict' and not args:
            return dict(kw)
        if name in ('list', 'tuple') and len(args) == 1:
            return list(items(args[0]))
        if name in ('list', 'tuple') and not args:
            return []
        if name == 'zip' and all(isinstance(a, (list, tuple)) for a in args):
            return [list(t) for t in zip(*args)]
        if name in ('max', 'min') and args and all(is_node(a) and T.isconst(a) for a in args):
            return const({'max': max, 'min': min}[name](T.constval(a) for a in args))
        if name == 'divmod' and len(args) == 2:
            return [self.binop('FloorDiv', *args), self.binop('Mod', *args)]
        raise Undecided(f'call of {name}')

    def method(self, obj, name, args, kw):
        if isinstance(obj, Text):
            if name in ('rjust', 'ljust', 'center', 'zfill', 'strip', 'rstrip', 'lstrip', 'expandtabs'):
                return obj
            if name == 'format':
                return brace(obj, args, kw)
            if name == 'join' and len(args) == 1 and isinstance(args[0], (list, tuple)) and all(isinstance(a, Text) for a in args[0]):
                out = []
                for i, a in enumerate(args[0]):
                    out += (obj.parts if i else []) + a.parts
                return Text(out)
        if is_node(obj) and name in ('item', 'tolist', '__float__', '__int__', '__bool__') and not args:
            return obj
        if is_node(obj) and name == 'astype':
            return obj
        if isinstance(obj, dict) and not kw:
            if name == 'items':
                return [[Text([k]), v] for k, v in obj.items()]
            if name == 'values':
                return list(obj.values())
            if name == 'keys':
                return [Text([k]) for k in obj]
        if isinstance(obj, list) and name == 'append' and len(args) == 1:
            obj.append(args[0])
            return None
        if isinstance(obj, list) and name == 'extend' and len(args) == 1:
            obj.extend(items(args[0]))
            return None
        if isinstance(obj, list) and name in ('pop', 'insert') and all(is_node(a) and T.isconst(a) for a in args[:1]):
            k = [int(T.constval(a)) for a in args[:1]]
            return getattr(obj, name)(*k, *args[1:])
        if isinstance(obj, At) and obj.k is not None:
            if name == 'get':
                mode = kw.get('mode')
                if mode is None or mode.literal() in ('clip', 'promise_in_bounds'):
                    return obj.arr.read(obj.k)
                if mode.literal() == 'fill':
                    # the default depends on the type, but is never zero
                    return obj.arr.read(obj.k, kw.get('fill_value', const(255)))
            if name == 'set' and len(args) == 1 and not kw and is_node(args[0]):
                k = tuple(obj.arr.index(obj.k))
                a = obj.arr.a.copy()
                if all(0 <= i < n for i, n in zip(k, a.shape)) and len(k) == a.ndim:
                    a[k] = args[0]
                    return Array(a)
            raise Undecided(f'indexed {name}')
        if isinstance(obj, Method) and obj.name in ('stdout', 'stderr') and name in ('write', 'flush'):
            if name == 'write':
                self.emit(args[0])
            return None
        import types
        if isinstance(obj, types.ModuleType):
            f = getattr(obj, name, None)
            mod = obj.__name__.split('.')[0]
            if mod in ('numpy', 'jax') and name in ('asarray', 'array', 'float32', 'float64', 'int32', 'bool_', 'device_get') and len(args) == 1 and (is_node(args[0]) or isinstance(args[0], Array)):
                return args[0]
            if mod in ('numpy', 'jax') and name in ('where',) and len(args) == 3:
                return args[1] if self.path.truth(args[0]) else args[2]
            if mod in ('numpy', 'jax') and name in ('remainder', 'mod'):
                return self.binop('Mod', *args)
            if inspect.isfunction(f) or callable(f):
                return self.path.call(f, args, kw)
        raise Undecided(f'method {name}')


def items(v):
    if isinstance(v, dict):
        return [Text([k]) for k in v]
    if isinstance(v, Array) and v.a.ndim:
        return v.items()
    if not isinstance(v, (list, tuple)):
        raise Undecided('loop')
    return v


class Builtin:
    def __init__(self, name):
        self.name = name


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


def percent(fmt, args):
    if not fmt.plain():
        raise Undecided('format')
    args = list(args) if isinstance(args, (list, tuple)) else [args]
    out, pos = [], 0
    for m in re.finditer(r'%(%|\((\w+)\))?([-+ 0#]*[\d.*]*)([a-zA-Z])?', fmt.literal()):
        out.append(fmt.literal()[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        if m.group(2) or '*' in m.group(3) or not m.group(4):
            raise Undecided('format')
        if not args:
            raise Undecided('format')
        k = m.group(4)
        out += render(args.pop(0), m.group(3) + k if k not in 'sr' else '')
    out.append(fmt.literal()[pos:])
    return Text(out)


def brace(fmt, args, kw):
    import string
    if not fmt.plain():
        raise Undecided('format')
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt.literal()):
        out.append(lit)
        if field is None:
            continue
        if '{' in spec:
            raise Undecided('format')
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Undecided('format')
        out += render(v, spec)
    return Text(out)


def paths(fn, args, kw, limit=64, result=False):
    """All the paths of a host function: list of (condition, printed texts),
    or of (condition, returned value)."""
    out, todo = [], [[]]
    while todo:
        p = Path(todo.pop())
        start = len(p.choices)
        try:
            val = p.call(fn, list(args), dict(kw))
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, OSError, SyntaxError, ZeroDivisionError) as e:
            raise Undecided(f'{type(e).__name__}: {e}')
        for i in range(start, len(p.choices)):
            todo.append(p.choices[:i] + [False])
        cond = const(1)
        for c in p.conds:
            cond = T.mul(cond, c)
        out.append((cond, val if result else p.printed))
        if len(out) > limit:
            raise Undecided('too many paths')
    return out
