"""Abstract interpreter over the Python syntax tree: flow-sensitive, inlining
calls, with fixpoints at loop heads / tail-recursive function entries."""
import ast
import builtins
import time
from collections import deque

from .lin import Lin, Num, V, join, widen, covered, coarsen
from .model import Class, Func, mangle, names_used
from .state import (St, Sub, Obj, Chunk, NONE, TRUE, FALSE, INF, I, Unsupported, Budget, fresh, show, walk)
from . import shapes, trees
from .shapes import materialise, nonnull


class Exc:
    def __init__(self, name, node=None, func=None):
        self.name = name
        self.node = node
        self.func = func

    def __repr__(self):
        return f"Exc({self.name})"


class Unwind(Exc):
    def __init__(self, sig):
        super().__init__("$unwind")
        self.sig = sig


def range_open(st, v):
    """Linear expression that is >= 0 exactly when the range is not empty."""
    k = st.num.norm(v[3][1])
    if not k.is_const() or k.c == 0:
        raise Unsupported("range step")
    return v[2][1] - v[1][1] - 1 if k.c > 0 else v[1][1] - v[2][1] - 1


def join_facts(a, b):
    """Weaken the order facts of `a` to those that hold in `b` as well."""
    keep = set()

    def holds(st, f):
        if f[0] == "ne":
            return st.known_ne(f[1], f[2])
        return st.lt(f[1], f[2]) if f[0] == "lt" else st.le(f[1], f[2])
    new = set()
    for f in a.facts:
        if holds(b, f):
            new.add(f)
        elif f[0] == "lt" and b.le(f[1], f[2]):
            new.add(("le", f[1], f[2]))
    for f in b.facts:
        if holds(a, f):
            new.add(f)
        elif f[0] == "lt" and a.le(f[1], f[2]):
            new.add(("le", f[1], f[2]))
    grown = any(not holds(_with(a, new), f) for f in a.facts)
    same = not grown and all(holds(a, f) and holds(_with(a, new), f) for f in b.facts)
    if grown or not same:
        a.inexact("order facts joined at a loop head")
    if grown:
        a.facts = frozenset(new)
    return grown


def _with(st, facts):
    s = st.copy()
    s.facts = frozenset(facts)
    return s


class Ctx:
    __slots__ = ("func", "depth", "tail")

    def __init__(self, func, depth, tail=False):
        self.func = func
        self.depth = depth
        self.tail = tail


TOP = ("top",)

MAX_STATES = 60000


class Interp:
    def __init__(self, prog, specs, budget_s=60):
        self.factjoin = False
        self.prog = prog
        self.specs = specs
        self.cur = []
        self.active = []
        self.handlers = []
        self.visited = set()
        self.loops = set()
        self.callsites = set()
        self.steps = 0
        self.deadline = time.process_time() + budget_s
        self.keep_live = False
        self.inline = 0          # depth to which recursion is followed (structures of known size)
        self.assumed = None       # inductive hypothesis hook
        self.excstack = []
        self.force_exact = False
        self.peel = 0
        self.dropped = 0
        self.voids = set()        # frame depths whose return value is discarded
        self.shared = {}         # program point -> abstract states explored from there
        self.closures = 0        # python closures that hold part of the continuation
        self.callnode = {}        # frame depth -> call expression that entered it

    # ------------------------------------------------------------ utilities
    def tick(self, node=None, func=None):
        self.steps += 1
        if self.steps & 63 == 0 and time.process_time() > self.deadline:
            raise Budget("analysis budget exhausted", node, func)

    def uns(self, msg, node, ctx):
        return Unsupported(msg, node, ctx.func if ctx else None)

    # ------------------------------------------------------------ expressions
    def evs(self, nodes, st, ctx):
        base = len(st.temps)
        cur = [st]
        bad = []
        for n in nodes:
            nxt = []
            for s in cur:
                for s2, v in self.ev(n, s, ctx):
                    if isinstance(v, Exc):
                        del s2.temps[base:]
                        bad.append((s2, v))
                    else:
                        s2.temps.append(v)
                        nxt.append(s2)
            cur = nxt
        out = bad
        for s in cur:
            vals = s.temps[base:]
            del s.temps[base:]
            out.append((s, vals))
        return out

    def ev(self, n, st, ctx):
        self.tick(n, ctx.func)
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise self.uns(f"expression {type(n).__name__}", n, ctx)
        return m(n, st, ctx)

    def ev_Constant(self, n, st, ctx):
        v = n.value
        if v is None:
            return [(st, NONE)]
        if isinstance(v, bool):
            return [(st, ("c", v))]
        if isinstance(v, int):
            return [(st, I(v))]
        if isinstance(v, (str, float)):
            return [(st, ("c", v))]
        raise self.uns("constant", n, ctx)

    def ev_JoinedStr(self, n, st, ctx):
        return [(st, ("top", "str"))]

    def ev_Name(self, n, st, ctx):
        f = st.frames[ctx.depth]
        if n.id in f:
            return [(st, f[n.id])]
        if n.id in ctx.func.locals:
            return [(st, Exc("UnboundLocalError", n, ctx.func))]
        if ctx.func.parent is not None:
            d = self.home(st, n.id, ctx, n)
            if d is not None:
                return [(st, st.frames[d][n.id])]
        return [(st, self.global_name(n.id, st, ctx, n))]

    def home(self, st, name, ctx, n):
        """Depth of the frame of an enclosing function that binds name, for a closure."""
        f, d = ctx.func, ctx.depth
        while f.parent is not None:
            d = st.frames[d]["$up"][1]
            f = f.parent
            if name in st.frames[d]:
                return d
            if name in f.locals:
                raise self.uns(f"unbound name {name} of an enclosing function", n, ctx)
        return None

    def target_depth(self, st, name, ctx, n):
        """Depth of the frame an assignment to name writes to."""
        if name in ctx.func.nonlocals:
            d = self.home(st, name, ctx, n)
            if d is not None:
                return d
        return ctx.depth

    def global_name(self, name, st, ctx, node=None):
        r = self.prog.resolve(ctx.func.module, name)
        if r is not None:
            return self.env_value(r, ctx.func.module, st, ctx)
        if name in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "object", "frozenset"):
            return ("builtin", name)
        if hasattr(builtins, name):
            b = getattr(builtins, name)
            if isinstance(b, type) and issubclass(b, BaseException):
                return ("exccls", name)
            return ("builtin", name)
        raise self.uns(f"unknown name {name}", node, ctx)

    def env_value(self, r, module, st, ctx):
        if r[0] == "fn":
            return ("fn", r[1])
        if r[0] == "cls":
            return ("cls", r[1])
        if r[0] == "mod":
            return ("mod", r[1])
        if r[0] == "ext":
            return ("ext", r[1], r[2])
        if r[0] == "expr":
            return self.const_expr(r[1], module, ctx)
        raise Unsupported("environment entry")

    def const_expr(self, e, module, ctx=None):
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None:
                return NONE
            if isinstance(v, int) and not isinstance(v, bool):
                return I(v)
            return ("c", v)
        if isinstance(e, ast.Name):
            r = self.prog.resolve(module, e.id)
            if r is not None:
                return self.env_value(r, module, None, ctx)
            if e.id in ("int", "float", "str", "bool", "list", "tuple", "dict", "set"):
                return ("builtin", e.id)
        if isinstance(e, (ast.Set, ast.Tuple, ast.List)):
            return ("tup", tuple(self.const_expr(x, module, ctx) for x in e.elts))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "tuple") \
                and len(e.args) == 1:
            return self.const_expr(e.args[0], module, ctx)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "float" and len(e.args) == 1 \
                and isinstance(e.args[0], ast.Constant):
            try:
                return ("c", float(e.args[0].value))
            except Exception:
                pass
        if isinstance(e, ast.Attribute):
            b = self.const_expr(e.value, module, ctx)
            if b[0] == "cls" and any(x == "Enum" for x in b[1].mro):
                return ("enum", b[1].name, e.attr)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.const_expr(e.operand, module, ctx)
            if v[0] == "i":
                return ("i", -v[1])
            if v[0] == "c":
                return ("c", -v[1])
        return TOP

    def ev_Attribute(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            out.extend(self.getattr(s, v, n.attr, n, ctx))
        return out

    def getattr(self, st, v, name, n, ctx):
        t = v[0]
        if t == "p":
            if v not in st.objs:
                c, _ = st.chunk_at(v)
                if c is not None and c.kind != "seg":
                    nm = mangle(name, ctx.func.cls)
                    if nm not in ("_data", "_left", "_right"):
                        return self.chunk_attr(st, v, nm, name, n, ctx)
            st.temps.append(v)
            slot = len(st.temps) - 1
            out = []
            for s in materialise(st, slot):
                w = s.temps.pop()
                if w[0] == "p":
                    if w not in s.objs:
                        raise self.uns(f"access through an untracked reference (.{name})", n, ctx)
                    out.extend(self.obj_attr(s, w, name, n, ctx))
                else:
                    out.extend(self.getattr(s, w, name, n, ctx))
            return out
        if t == "none":
            if name == "__class__":
                return [(st, ("builtin", "NoneType"))]
            return [(st, Exc("AttributeError", n, ctx.func))]
        if t == "cls":
            c = v[1]
            nm = mangle(name, ctx.func.cls)
            e, owner = c.lookup(nm)
            if e is None:
                if name in ("__class__", "__name__"):
                    return [(st, ("top", "str"))]
                raise self.uns(f"class attribute {c.name}.{name}", n, ctx)
            if e[0] == "fn":
                if e[1].kind == "classm":
                    return [(st, ("bm", e[1], v))]
                return [(st, ("fn", e[1]))]
            if "Enum" in c.mro or any(b == "Enum" for b in c.mro):
                return [(st, ("enum", c.name, name))]
            return [(st, self.const_expr(e[1], owner.module, ctx))]
        if t == "super":
            cls, after, selfv = v[1], v[2], v[3]
            nm = mangle(name, ctx.func.cls)
            e, owner = cls.lookup(nm, after)
            if e is None:
                if name == "__init__":
                    return [(st, ("noop",))]
                raise self.uns(f"super().{name}", n, ctx)
            if e[0] == "fn":
                f = e[1]
                if f.kind == "static":
                    return [(st, ("fn", f))]
                if f.kind == "prop":
                    return self.call_func(f, [selfv], {}, st, n)
                if f.kind == "classm":
                    return [(st, ("bm", f, selfv if selfv[0] == "cls" else ("cls", cls)))]
                return [(st, ("bm", f, selfv))]
            return [(st, self.const_expr(e[1], owner.module, ctx))]
        if t == "mod":
            m = self.prog.modules.get(v[1])
            if m is not None:
                r = self.prog.resolve(m, name)
                if r is not None:
                    return [(st, self.env_value(r, m, st, ctx))]
            return [(st, ("ext", v[1], name))]
        if t == "ext":
            if name == "__name__":
                return [(st, ("c", v[2]))]
            return [(st, ("ext", v[1] + "." + v[2], name))]
        if t in ("e", "c", "i", "top", "tup", "typeof", "strv", "builtin", "enum", "slice", "w", "range"):
            if t == "slice" and name in ("start", "stop", "step"):
                return [(st, v[1 + ("start", "stop", "step").index(name)])]
            if t == "range" and name in ("start", "stop", "step"):
                return [(st, v[1 + ("start", "stop", "step").index(name)])]
            if t == "tup" or t == "w":
                return [(st, ("sm", name, v))]
            return [(st, ("sm", name, v))]
        if t in ("bm", "fn"):
            return [(st, ("top", "attr"))]
        raise self.uns(f"attribute .{name} of {t}", n, ctx)

    def chunk_attr(self, st, v, nm, name, n, ctx):
        """Attribute of a tree cell that need not be exposed for it."""
        c, where = st.chunk_at(v)
        out = []
        if c.kind == "tree" and nonnull(st, v) is not True:
            st.temps.append(v)
            for s, empty in trees.split_empty(st, c):
                w = s.temps.pop()
                if empty:
                    out.extend(self.getattr(s, w, name, n, ctx))
                else:
                    out.extend(self.chunk_attr(s, w, nm, name, n, ctx))
            return out
        if nm in c.spec.layout:
            r = trees.peek(st, v, nm)
            if r is not None:
                return r
            st.temps.append(v)
            for s in materialise(st, len(st.temps) - 1):
                w = s.temps.pop()
                out.extend(self.obj_attr(s, w, name, n, ctx))
            return out
        return self.cls_attr(st, v, c.spec.cls, nm, name, n, ctx)

    def obj_attr(self, s, p, name, n, ctx):
        o = s.objs[p]
        nm = mangle(name, ctx.func.cls)
        if nm in o.a:
            return [(s, o.a[nm])]
        if isinstance(o.cls, str):
            return [(s, ("lm", name, p))]
        return self.cls_attr(s, p, o.cls, nm, name, n, ctx)

    def cls_attr(self, s, p, cls, nm, name, n, ctx):
        e, owner = cls.lookup(nm)
        if e is None:
            if name == "__class__":
                return [(s, ("cls", cls))]
            if name == "__dict__":
                raise self.uns("__dict__", n, ctx)
            return [(s, Exc("AttributeError", n, ctx.func))]
        if e[0] == "fn":
            f = e[1]
            if f.kind == "static":
                return [(s, ("fn", f))]
            if f.kind == "classm":
                return [(s, ("bm", f, ("cls", cls)))]
            if f.kind == "prop":
                return self.call_func(f, [p], {}, s, n)
            return [(s, ("bm", f, p))]
        return [(s, self.const_expr(e[1], owner.module, ctx))]

    # ---- stores
    def setattr(self, st, v, name, val, n, ctx):
        """returns list of (st, None|Exc)"""
        if v[0] == "p":
            if v not in st.objs:
                c, where = st.chunk_at(v)
                if c is not None and c.kind != "seg" and where == "front" and nonnull(st, v) is True and \
                        mangle(name, ctx.func.cls) == c.spec.parent and val[0] in ("p", "none"):
                    st.chunks = [Chunk(x.kind, x.spec, **{**x.f, "parent": val}) if x is c else x for x in st.chunks]
                    return [(st, None)]
            st.temps.append(val)
            st.temps.append(v)
            out = []
            for s in materialise(st, len(st.temps) - 1):
                w = s.temps.pop()
                x = s.temps.pop()
                if w == NONE:
                    out.append((s, Exc("AttributeError", n, ctx.func)))
                    continue
                if w not in s.objs:
                    raise self.uns(f"store through an untracked reference (.{name})", n, ctx)
                nm = mangle(name, ctx.func.cls)
                o = s.objs[w]
                if not isinstance(o.cls, str):
                    e, _ = o.cls.lookup(nm + "$setter")
                    if e is not None:
                        for s2, r in self.call_func(e[1], [w, x], {}, s, n):
                            out.append((s2, r if isinstance(r, Exc) else None))
                        continue
                s.objs[w].a[nm] = x
                out.append((s, None))
            return out
        if v == NONE:
            return [(st, Exc("AttributeError", n, ctx.func))]
        if v[0] == "cls":
            raise self.uns("store to a class attribute", n, ctx)
        raise self.uns(f"attribute store on {v[0]}", n, ctx)

    # ---- operators
    def ev_BoolOp(self, n, st, ctx):
        isand = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.ev(e, s, ctx):
                    if isinstance(v, Exc) or last:
                        out.append((s2, v))
                        continue
                    s2.temps.append(v)
                    for s3, b in self.truth(s2, v, e, ctx):
                        w = s3.temps.pop()
                        if isinstance(b, Exc):
                            out.append((s3, b))
                        elif b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, w if w[0] != "top" else ("c", b)))
            cur = nxt
        return out

    def ev_UnaryOp(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.operand, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
            elif isinstance(n.op, ast.Not):
                for s2, b in self.truth(s, v, n.operand, ctx):
                    out.append((s2, b if isinstance(b, Exc) else ("c", not b)))
            elif isinstance(n.op, ast.USub) and v[0] == "i":
                out.append((s, ("i", -v[1])))
            elif isinstance(n.op, ast.USub) and v[0] == "c" and isinstance(v[1], float):
                out.append((s, ("c", -v[1])))
            else:
                out.append((s, TOP))
        return out

    def ev_IfExp(self, n, st, ctx):
        out = []
        for s, b in self.test(n.test, st, ctx):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                out.extend(self.ev(n.body if b else n.orelse, s, ctx))
        return out

    def ev_NamedExpr(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if not isinstance(v, Exc):
                s.frames[ctx.depth][n.target.id] = v
            out.append((s, v))
        return out

    def spread(self, n, st, ctx):
        """[*a, b, *c] is list(a) + [b] + list(c)"""
        e = getattr(n, "_spread", None)
        if e is None:
            parts, run = [], []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    if run:
                        parts.append(ast.List(elts=run, ctx=ast.Load()))
                        run = []
                    parts.append(ast.Call(func=ast.Name(id="list", ctx=ast.Load()), args=[x.value], keywords=[]))
                else:
                    run.append(x)
            if run:
                parts.append(ast.List(elts=run, ctx=ast.Load()))
            e = parts[0]
            for q in parts[1:]:
                e = ast.BinOp(left=e, op=ast.Add(), right=q)
            ast.copy_location(e, n)
            for q in ast.walk(e):
                if not hasattr(q, "lineno"):
                    ast.copy_location(q, n)
            n._spread = e
        return self.ev(e, st, ctx)

    def ev_Tuple(self, n, st, ctx):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.spread(n, st, ctx)
        return [(s, v if isinstance(v, Exc) else ("tup", tuple(v))) for s, v in self.evs(n.elts, st, ctx)]

    def ev_Set(self, n, st, ctx):
        return self.ev_Tuple(n, st, ctx)

    def ev_List(self, n, st, ctx):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.spread(n, st, ctx)
        out = []
        for s, v in self.evs(n.elts, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.append((s, self.new_list(s, tuple(("E", x) for x in v))))
        return out

    def ev_Dict(self, n, st, ctx):
        raise self.uns("dict display", n, ctx)

    def new_list(self, s, word):
        return s.alloc("list", {"w": ("w", tuple(word))})

    def ev_Lambda(self, n, st, ctx):
        return self.closure(n, st, ctx)

    def closure(self, n, st, ctx):
        f = ctx.func.nested(n)
        a = n.args
        st.frames[ctx.depth]["$clo"] = NONE
        out = []
        for s, vs in self.evs(list(a.defaults) + [d for d in a.kw_defaults if d is not None], st, ctx):
            out.append((s, vs if isinstance(vs, Exc) else ("clo", f, ctx.depth, tuple(vs))))
        return out

    def ev_Starred(self, n, st, ctx):
        raise self.uns("starred expression", n, ctx)

    def ev_Slice(self, n, st, ctx):
        parts = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
        return [(s, v if isinstance(v, Exc) else ("slice",) + tuple(v)) for s, v in self.evs(parts, st, ctx)]

    def ev_BinOp(self, n, st, ctx):
        out = []
        for s, v in self.evs([n.left, n.right], st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.binop(s, type(n.op).__name__, v[0], v[1], n, ctx))
        return out

    def binop(self, st, op, a, b, n, ctx):
        if a[0] == "c" and isinstance(a[1], bool):
            a = I(int(a[1]))
        if b[0] == "c" and isinstance(b[1], bool):
            b = I(int(b[1]))
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if op == "Add":
                return [(st, ("i", x + y))]
            if op == "Sub":
                return [(st, ("i", x - y))]
            if op == "Mult":
                xn, yn = st.num.norm(x), st.num.norm(y)
                if xn.is_const():
                    return [(st, ("i", y.scale(xn.c)))]
                if yn.is_const():
                    return [(st, ("i", x.scale(yn.c)))]
                return [(st, st.new_int())] if not st.inexact("nonlinear product") else None
            if op in ("FloorDiv", "Mod"):
                yn = st.num.norm(y)
                if yn.is_const() and yn.c > 0:
                    d = yn.c
                    xn = st.num.norm(x)
                    if xn.is_const():
                        return [(st, I(xn.c // d if op == "FloorDiv" else xn.c % d))]
                    if all(k % d == 0 for _, k in xn.t):
                        t = Lin(0, tuple((v, k // d) for v, k in xn.t))
                        return [(st, ("i", t + xn.c // d) if op == "FloorDiv" else I(xn.c % d))]
                    q = st.new_int()
                    r = x - q[1].scale(d)
                    st.num.add_ge(r)
                    st.num.add_ge(Lin(d - 1) - r)
                    return [(st, q if op == "FloorDiv" else ("i", r))]
                if op == "Mod":
                    return self.sym_mod(st, x, y, n, ctx)
                st.inexact("division by a variable")
                return [(st, st.new_int())]
            if op == "Pow":
                xn, yn = st.num.norm(x), st.num.norm(y)
                if xn.is_const() and yn.is_const() and 0 <= yn.c < 40:
                    return [(st, I(xn.c ** yn.c))]
                st.inexact("power")
                return [(st, st.new_int())]
            if op == "Div":
                st.inexact("true division")
                return [(st, TOP)]
            if op in ("RShift", "LShift"):
                yn = st.num.norm(y)
                if yn.is_const() and 0 <= yn.c < 30:
                    return self.binop(st, "FloorDiv" if op == "RShift" else "Mult", a, I(2 ** yn.c), n, ctx)
        if op in ("Add", "Sub") and {a[0], b[0]} <= {"c", "i"}:
            ca = a[1] if a[0] == "c" else None
            cb = b[1] if b[0] == "c" else None
            if ca in (INF, -INF) and cb is None:
                return [(st, a)]
            if cb in (INF, -INF) and ca is None:
                return [(st, ("c", cb if op == "Add" else -cb))]
            if isinstance(ca, str) and isinstance(cb, str) and op == "Add":
                return [(st, ("c", ca + cb))]
        # list concatenation
        if op == "Add" and a[0] == "p" and b[0] == "p":
            oa, ob = st.objs.get(a), st.objs.get(b)
            if oa and ob and oa.cls == "list" and ob.cls == "list":
                return [(st, self.new_list(st, oa.a["w"][1] + ob.a["w"][1]))]
        if op == "Add" and a[0] == "tup" and b[0] == "tup":
            return [(st, ("tup", a[1] + b[1]))]
        if a[0] in ("p", "none") or b[0] in ("p", "none"):
            if op in ("Sub", "Div", "FloorDiv", "Mod", "Pow") and all(
                    v[0] in ("none", "i") or v[0] == "p" and v in st.objs and st.objs[v].cls == "list" for v in (a, b)):
                return [(st, Exc("TypeError", n, ctx.func))]
            raise self.uns(f"operator {op} on references", n, ctx)
        if a == ("top", "str") or b == ("top", "str") or "str" in (a[-1], b[-1]) or \
                (a[0] == "c" and isinstance(a[1], str)) or (b[0] == "c" and isinstance(b[1], str)):
            return [(st, ("top", "str"))]
        return [(st, TOP)]

    def sym_mod(self, st, x, y, n, ctx):
        out = []
        for s, b in self.cmp_ge(st, y - 1):        # y >= 1
            if not b:
                if s.num.entails_eq(y):
                    out.append((s, Exc("ZeroDivisionError", n, ctx.func)))
                else:
                    s.inexact("modulo by a non-positive value")
                    out.append((s, s.new_int()))
                continue
            # x already in range?
            if s.num.entails_ge(x) and s.num.entails_ge(y - x - 1):
                out.append((s, ("i", x)))
                continue
            ky = s.num.norm(y)
            if ky.is_const():
                xn = s.num.norm(x)
                if all(k % ky.c == 0 for _, k in xn.t):
                    out.append((s, I(xn.c % ky.c)))
                    continue
                q, r = s.new_int(), s.new_int()
                s.num.add_ge(r[1])
                s.num.add_ge(y - r[1] - 1)
                s.num.add_eq(x - q[1].scale(ky.c) - r[1])
                if s.num.sat():
                    out.append((s, r))
                continue
            key = None
            for g, gv in s.ghosts.items():
                if g.startswith("mod:") and gv[0] == "tup":
                    gx, gy, gr = gv[1]
                    if s.num.entails_eq(gx[1] - x) and s.num.entails_eq(gy[1] - y):
                        key = gr
                        break
            if key is not None:
                out.append((s, key))
                continue
            # x = q*y + r for the quotients that are near; the rest loses precision
            for q in (0, 1, 2, -1):
                t = s.copy()
                t.num.add_ge(x - y.scale(q))
                t.num.add_ge(y.scale(q + 1) - x - 1)
                if t.num.sat():
                    out.append((t, ("i", x - y.scale(q))))
            for far in (x - y.scale(3), -x - y - 1):
                t = s.copy()
                t.num.add_ge(far)
                if not t.num.sat():
                    continue
                r = t.new_int()
                t.num.add_ge(r[1])
                t.num.add_ge(y - r[1] - 1)
                t.inexact("remainder of a large quotient")
                t.ghosts[f"mod:{fresh()}"] = ("tup", (("i", x), ("i", y), r))
                out.append((t, r))
        return out

    # ---- truth and comparison
    def truth(self, st, v, n, ctx):
        """Split on the truth value: list of (st, bool|Exc)."""
        t = v[0]
        if t == "c":
            return [(st, bool(v[1]))]
        if t == "none":
            return [(st, False)]
        if t == "i":
            return self.cmp_eq_int(st, v[1], neg=True)
        if t == "p":
            out = []
            o0 = st.objs.get(v)
            if o0 is None:
                k = nonnull(st, v)
                c, _ = st.chunk_at(v)
                if c is not None and c.spec is not None:
                    e, _o = c.spec.cls.lookup("__len__")
                    e2, _o = c.spec.cls.lookup("__bool__")
                    if e is None and e2 is None:
                        if k is not None:
                            return [(st, k)]
                        if c.kind == "tree":
                            return [(s, not b) for s, b in trees.split_empty(st, c)]
            st.temps.append(v)
            for s in materialise(st, len(st.temps) - 1):
                w = s.temps.pop()
                if w == NONE:
                    out.append((s, False))
                    continue
                o = s.objs.get(w)
                if o is None:
                    raise self.uns("truth of an untracked reference", n, ctx)
                if o.cls == "list":
                    out.extend((s2, b) for s2, b in self.cmp_eq_int(s, s.wlen(o.a["w"][1]), neg=True))
                    continue
                if isinstance(o.cls, str):
                    out.extend(self.native_truth(s, w, n, ctx))
                    continue
                e, _ = o.cls.lookup("__bool__")
                if e is None:
                    e, _ = o.cls.lookup("__len__")
                if e is None:
                    out.append((s, True))
                    continue
                for s2, r in self.call_func(e[1], [w], {}, s, n):
                    if isinstance(r, Exc):
                        out.append((s2, r))
                    else:
                        out.extend(self.truth(s2, r, n, ctx))
            return out
        if t == "w":
            return self.cmp_eq_int(st, st.wlen(v[1]), neg=True)
        if t == "range":
            return self.cmp_ge(st, range_open(st, v))
        if t in ("cls", "fn", "bm", "clo", "builtin", "enum", "ext", "gen", "slice", "mod", "exccls"):
            return [(st, True)]
        if t == "tup":
            return [(st, bool(v[1]))]
        if t == "e" and st.kinds.get(v[1]) in ("num", "prio", "obj") and v not in st.meas:
            out = []
            for s, r in self.equal(st, "Eq", v, I(0), n, ctx):
                if r is not True and s.kinds.get(v[1]) == "obj":
                    # other items count as false too
                    s2 = s.copy()
                    s2.inexact("truth of an item")
                    out.append((s2, False))
                out.append((s, r is not True))
            return out
        s2 = st.copy()
        st.inexact("branch on an unknown value")
        s2.inexact("branch on an unknown value")
        return [(st, True), (s2, False)]

    def native_truth(self, s, w, n, ctx):
        raise self.uns("truth of a native object", n, ctx)

    def cmp_ge(self, st, e):
        """Split on e >= 0."""
        if st.num.entails_ge(e):
            return [(st, True)]
        if st.num.entails_ge(-e - 1):
            return [(st, False)]
        s2 = st.copy()
        st.num.add_ge(e)
        s2.num.add_ge(-e - 1)
        out = []
        if st.num.sat():
            out.append((st, True))
        if s2.num.sat():
            out.append((s2, False))
        return out

    def cmp_eq_int(self, st, e, neg=False):
        """Split on e == 0."""
        if st.num.entails_eq(e):
            return [(st, not neg)]
        lo = st.num.entails_ge(e)
        hi = st.num.entails_ge(-e)
        if (lo and st.num.entails_ge(e - 1)) or (hi and st.num.entails_ge(-e - 1)):
            return [(st, neg)]
        out = []
        s1 = st.copy()
        s1.num.add_eq(e)
        if s1.num.sat():
            out.append((s1, not neg))
        if not hi:
            s2 = st.copy()
            s2.num.add_ge(e - 1)
            if s2.num.sat():
                out.append((s2, neg))
        if not lo:
            s3 = st
            s3.num.add_ge(-e - 1)
            if s3.num.sat():
                out.append((s3, neg))
        return out

    def test(self, n, st, ctx):
        """Evaluate a condition: list of (st, bool|Exc)."""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            out = []
            cur = [st]
            for i, e in enumerate(n.values):
                nxt = []
                for s in cur:
                    for s2, b in self.test(e, s, ctx):
                        if isinstance(b, Exc) or b != isand:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            out.extend((s, isand) for s in cur)
            return out
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else not b) for s, b in self.test(n.operand, st, ctx)]
        out = []
        for s, v in self.ev(n, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v, n, ctx))
        return out

    def ev_Compare(self, n, st, ctx):
        # a op b [op c ...]
        out = []
        cur = []
        for s, v in self.ev(n.left, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                s.temps.append(v)
                cur.append(s)
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            last = i == len(n.ops) - 1
            nxt = []
            for s in cur:
                for s2, r in self.ev(rn, s, ctx):
                    if isinstance(r, Exc):
                        s2.temps.pop()
                        out.append((s2, r))
                        continue
                    l = s2.temps.pop()
                    s2.temps.append(r)
                    for s3, b in self.compare(s2, type(op).__name__, l, r, n, ctx):
                        if isinstance(b, Exc) or last or not (b is True):
                            s3.temps.pop()
                            out.append((s3, b if isinstance(b, (Exc, tuple)) else ("c", b)))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out

    NEG = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}

    def compare(self, st, op, a, b, n, ctx):
        """list of (st, bool | value | Exc)"""
        if op in self.NEG:
            if op == "NotEq" and a[0] == "p" and a in st.objs and not isinstance(st.objs[a].cls, str):
                e, _ = st.objs[a].cls.lookup("__ne__")
                if e is not None:
                    return self.call_cmp(e[1], a, b, st, n, ctx)
            return [(s, (not r) if isinstance(r, bool) else r)
                    for s, r in self.compare(st, self.NEG[op], a, b, n, ctx)]
        if op == "In":
            return self.contains(st, a, b, n, ctx)
        if op in ("Eq", "Is"):
            return self.equal(st, op, a, b, n, ctx)
        if op == "Gt":
            return self.less(st, b, a, True, n, ctx, ("Gt", a, b))
        if op == "GtE":
            return self.less(st, b, a, False, n, ctx, ("GtE", a, b))
        if op == "Lt":
            return self.less(st, a, b, True, n, ctx, ("Lt", a, b))
        return self.less(st, a, b, False, n, ctx, ("LtE", a, b))

    def call_cmp(self, f, a, b, st, n, ctx):
        out = []
        for s, r in self.call_func(f, [a, b], {}, st, n):
            if isinstance(r, Exc):
                out.append((s, r))
            else:
                out.extend(self.truth(s, r, n, ctx))
        return out

    def less(self, st, a, b, strict, n, ctx, orig):
        ta, tb = a[0], b[0]
        if ta == "c" and isinstance(a[1], bool):
            a, ta = I(int(a[1])), "i"
        if tb == "c" and isinstance(b[1], bool):
            b, tb = I(int(b[1])), "i"
        if ta == "i" and tb == "i":
            return self.cmp_ge(st, b[1] - a[1] - (1 if strict else 0))
        if ta == "c" and tb == "i" and isinstance(a[1], float):
            if a[1] == INF:
                return [(st, False)]
            if a[1] == -INF:
                return [(st, True)]
        if tb == "c" and ta == "i" and isinstance(b[1], float):
            if b[1] == INF:
                return [(st, True)]
            if b[1] == -INF:
                return [(st, False)]
        if ta == "c" and tb == "c" and type(a[1]) is type(b[1]):
            return [(st, a[1] < b[1] if strict else a[1] <= b[1])]
        ka = st.kinds.get(a[1]) if ta == "e" else None
        kb = st.kinds.get(b[1]) if tb == "e" else None
        na = (ka in ("num", "prio")) or (ta == "c" and isinstance(a[1], float)) or ta == "i"
        nb = (kb in ("num", "prio")) or (tb == "c" and isinstance(b[1], float)) or tb == "i"
        if na and nb:
            if ta == "i":
                a = self.int_as_const(st, a)
            if tb == "i":
                b = self.int_as_const(st, b)
            return self.split_order(st, a, b, strict)
        if ta == "p" or tb == "p":
            op, x, y = orig
            o = st.objs.get(x)
            if o is not None and not isinstance(o.cls, str):
                e, _ = o.cls.lookup({"Gt": "__gt__", "GtE": "__ge__", "Lt": "__lt__", "LtE": "__le__"}[op])
                if e is not None:
                    return self.call_cmp(e[1], x, y, st, n, ctx)
            return [(st, Exc("TypeError", n, ctx.func))]
        if ta == "none" or tb == "none":
            return [(st, Exc("TypeError", n, ctx.func))]
        s2 = st.copy()
        st.inexact("comparison of opaque values")
        s2.inexact("comparison of opaque values")
        return [(st, True), (s2, False)]

    def int_as_const(self, st, v):
        x = st.num.norm(v[1])
        if x.is_const():
            return ("c", float(x.c))
        raise Unsupported("comparison of a symbolic integer with an element")

    def split_order(self, st, a, b, strict):
        if strict:
            if st.lt(a, b):
                return [(st, True)]
            if st.le(b, a):
                return [(st, False)]
            s2 = st.copy()
            out = []
            if st.add_fact("lt", a, b) and st.order_ok():
                out.append((st, True))
            if s2.add_fact("le", b, a) and s2.order_ok():
                out.append((s2, False))
            return out
        return [(s, not r) for s, r in self.split_order(st, b, a, True)]

    def equal(self, st, op, a, b, n, ctx):
        ta, tb = a[0], b[0]
        if op == "Is" and "e" in (ta, tb):
            # items are modelled up to equality: equal items need not be identical
            out = [(s, False) for s in (st.copy(),)]
            for s, r in self.equal(st, "Eq", a, b, n, ctx):
                if r is True:
                    out.append((s, True))
            return out
        if op == "Is" and ta == "i" and tb == "i":
            out = []
            for s, r in self.cmp_eq_int(st, a[1] - b[1]):
                x = s.num.norm(a[1])
                if r and not (x.is_const() and -5 <= x.c <= 256):
                    s2 = s.copy()
                    s2.inexact("identity of equal integers")
                    out.append((s2, False))
                out.append((s, r))
            return out
        if a == b:
            return [(st, True)]
        if ta == "c" and isinstance(a[1], bool) and tb == "i":
            a, ta = I(int(a[1])), "i"
        if tb == "c" and isinstance(b[1], bool) and ta == "i":
            b, tb = I(int(b[1])), "i"
        if ta == "i" and tb == "i":
            return self.cmp_eq_int(st, a[1] - b[1])
        if ta == "p" or tb == "p":
            return self.eq_ptr(st, op, a, b, n, ctx)
        if "typeof" in (ta, tb):
            return self.eq_type(st, a, b, n, ctx)
        if ta == "none" or tb == "none":
            x = b if ta == "none" else a
            if x[0] == "top":
                return self.split_unknown(st)
            return [(st, False)]
        if ta == "i" and tb == "c" or ta == "c" and tb == "i":
            c = a if ta == "c" else b
            if isinstance(c[1], float) and c[1] in (INF, -INF) or isinstance(c[1], str):
                return [(st, False)]
        if ta == "c" and tb == "c":
            return [(st, a[1] == b[1])]
        if ta == "enum" and tb == "enum":
            return [(st, a == b)]
        if "enum" in (ta, tb) and {ta, tb} & {"c", "i", "tup"}:
            m = a if ta == "enum" else b
            c = next((k for k in self.prog.classes.values() if k.name == m[1]), None)
            if c is not None and c.bases == ["Enum"] and "__eq__" not in c.attrs:
                return [(st, False)]
        if ta in ("cls", "builtin", "fn", "ext", "enum", "exccls") and tb in ("cls", "builtin", "fn", "ext", "enum", "exccls"):
            return [(st, a == b)]
        if ta == "e" or tb == "e":
            x, y = a, b
            if x[0] == "i":
                x = self.int_as_const(st, x)
            if y[0] == "i":
                y = self.int_as_const(st, y)
            kx = st.kinds.get(x[1]) if x[0] == "e" else None
            ky = st.kinds.get(y[1]) if y[0] == "e" else None
            if x[0] not in ("e", "c") or y[0] not in ("e", "c"):
                return self.split_unknown(st)
            if kx == "clr" or ky == "clr":
                return self.split_unknown(st)
            if st.known_ne(x, y):
                return [(st, False)]
            s2 = st.copy()
            out = []
            r = st.assume_eq(x, y)
            if r is None:
                raise self.uns("equality of two tracked elements", n, ctx)
            if r:
                out.append((st, True))
            if s2.add_fact("ne", x, y) and s2.order_ok():
                out.append((s2, False))
            return out
        if ta == "tup" and tb == "tup":
            if len(a[1]) != len(b[1]):
                return [(st, False)]
        if ta == "w" and tb == "w":
            return self.split_unknown(st)
        return self.split_unknown(st)

    def split_unknown(self, st):
        s2 = st.copy()
        st.inexact("comparison with an unknown value")
        s2.inexact("comparison with an unknown value")
        return [(st, True), (s2, False)]

    def eq_ptr(self, st, op, a, b, n, ctx):
        # list literal comparison, user-defined __eq__, else identity
        if op == "Eq":
            for x, y in ((a, b), (b, a)):
                o = st.objs.get(x) if x[0] == "p" else None
                if o is not None and not isinstance(o.cls, str):
                    e, _ = o.cls.lookup("__eq__")
                    if e is not None:
                        return self.call_cmp(e[1], x, y, st, n, ctx)
                if o is not None and o.cls == "list":
                    oy = st.objs.get(y) if y[0] == "p" else None
                    if oy is not None and oy.cls == "list":
                        if not oy.a["w"][1]:
                            return self.cmp_eq_int(st, st.wlen(o.a["w"][1]))
                        if not o.a["w"][1]:
                            return self.cmp_eq_int(st, st.wlen(oy.a["w"][1]))
                        return self.split_unknown(st)
                    if y[0] != "p":
                        return [(st, False)]
        if a[0] != "p" and a[0] != "none" or b[0] != "p" and b[0] != "none":
            return [(st, False)]
        if NONE in (a, b):
            p = b if a == NONE else a
            k = nonnull(st, p)
            if k is not None:
                return [(st, not k)]
            c, _ = st.chunk_at(p)
            if c is not None and c.kind == "tree":
                return trees.split_empty(st, c)
            st.temps.append(p)
            out = []
            for s in materialise(st, len(st.temps) - 1):
                w = s.temps.pop()
                if w[0] == "p" and w not in s.objs:
                    raise self.uns("null test of an untracked reference", n, ctx)
                out.append((s, w == NONE))
            return out
        if a != b and self.apart(st, a, b):
            return [(st, False)]
        st.temps.append(a)
        st.temps.append(b)
        i = len(st.temps) - 2
        out = []
        for s in materialise(st, i):
            for s2 in materialise(s, i + 1):
                y = s2.temps.pop()
                x = s2.temps.pop()
                for w in (x, y):
                    if w[0] == "p" and w not in s2.objs:
                        raise self.uns("identity test of an untracked reference", n, ctx)
                out.append((s2, x == y))
        return out

    def apart(self, st, a, b):
        """Separate parts of the heap and not both None."""
        pa = a if a in st.objs else st.chunk_at(a)[0]
        pb = b if b in st.objs else st.chunk_at(b)[0]
        if pa is None or pb is None or pa is pb:
            return False
        for p in (pa, pb):
            if not isinstance(p, tuple) and p.kind == "seg":
                return False
        return bool(nonnull(st, a) or nonnull(st, b))

    def type_is(self, st, v, name):
        t = v[0]
        if t == "i":
            return name == "int"
        if t == "c":
            return type(v[1]).__name__ == name
        if t == "none":
            return name == "NoneType"
        if t == "tup":
            return name in ("tuple",)
        if t == "e":
            k = st.kinds.get(v[1])
            if k in ("num", "prio"):
                return None if name in ("int", "float") else False
            if k == "str":
                return name == "str"
            return False
        if t == "p":
            o = st.objs.get(v)
            if o is None:
                return False
            if isinstance(o.cls, str):
                return o.cls == name
            return False
        if t == "top":
            if len(v) > 1 and v[1] == "str":
                return name == "str"
            return None
        if t == "slice":
            return name == "slice"
        if t == "w":
            return name == "str"
        return False

    def eq_type(self, st, a, b, n, ctx):
        if a[0] != "typeof":
            a, b = b, a
        v = a[1]
        if b[0] == "builtin":
            r = self.type_is(st, v, b[1])
            if r is None:
                return self.split_unknown(st)
            return [(st, r)]
        if b[0] == "cls":
            if v[0] == "p" and v in st.objs:
                return [(st, st.objs[v].cls is b[1])]
            return [(st, False)]
        if b[0] == "typeof":
            w = b[1]
            cv = st.objs[v].cls if v[0] == "p" and v in st.objs else None
            cw = st.objs[w].cls if w[0] == "p" and w in st.objs else None
            if cv is not None and cw is not None:
                return [(st, cv is cw or cv == cw)]
            if (cv is None) != (cw is None):
                return [(st, False)]
        return self.split_unknown(st)

    def contains(self, st, a, b, n, ctx):
        if a[0] == "typeof" and b[0] == "tup":
            v = a[1]
            names = [x[1] for x in b[1] if x[0] == "builtin"]
            if len(names) == len(b[1]):
                if v[0] == "e" and st.kinds.get(v[1]) in ("num", "prio") and {"int", "float"} <= set(names):
                    return [(st, True)]
                rs = [self.type_is(st, v, x) for x in names]
                if any(r is True for r in rs):
                    return [(st, True)]
                if all(r is False for r in rs):
                    return [(st, False)]
                return self.split_unknown(st)
        if b[0] == "tup":
            out = []
            cur = [st]
            # disjunction of equalities
            base = len(st.temps)
            st.temps.append(a)
            st.temps.append(b)
            for i in range(len(b[1])):
                nxt = []
                for s in cur:
                    for s2, r in self.equal(s, "Eq", s.temps[base], s.temps[base + 1][1][i], n, ctx):
                        if r is True or isinstance(r, Exc):
                            del s2.temps[base:]
                            out.append((s2, r))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                del s.temps[base:]
                out.append((s, False))
            return out
        if b[0] == "p":
            o = st.objs.get(b)
            if o is not None and o.cls == "list":
                return self.list_contains(st, a, b, n, ctx)
            if o is not None and isinstance(o.cls, str):
                return self.native_contains(st, a, b, n, ctx)
            if o is not None:
                e, _ = o.cls.lookup("__contains__")
                if e is not None:
                    return self.call_cmp(e[1], b, a, st, n, ctx)
        if b[0] == "range" and a[0] == "i":
            k = st.num.norm(b[3][1])
            if not k.is_const() or k.c == 0:
                raise self.uns("range step", n, ctx)
            sg = 1 if k.c > 0 else -1
            out = []
            for s, lo in self.cmp_ge(st, (a[1] - b[1][1]).scale(sg)):
                for s2, hi in (self.cmp_ge(s, (b[2][1] - a[1]).scale(sg) - 1) if lo else [(s, False)]):
                    if not hi or k.c == sg:
                        out.append((s2, hi))
                        continue
                    for s3, r in self.binop(s2, "Mod", ("i", (a[1] - b[1][1]).scale(sg)), I(abs(k.c)), n, ctx):
                        out.extend(self.cmp_eq_int(s3, r[1]))
            return out
        if b[0] == "none":
            return [(st, Exc("TypeError", n, ctx.func))]
        if b[0] in ("top", "sm", "ext", "dictview", "c"):
            if a[0] == "c" and b[0] == "c" and isinstance(a[1], str) and isinstance(b[1], str):
                return [(st, a[1] in b[1])]
            return self.split_unknown(st)
        raise self.uns("membership test", n, ctx)

    def native_contains(self, st, a, b, n, ctx):
        raise self.uns("membership in a native object", n, ctx)

    def list_contains(self, st, a, b, n, ctx):
        w = st.objs[b].a["w"][1]
        if not w:
            return [(st, False)]
        if a in st.meas:
            c = st.wcnt(w, a)
            if c is not None:
                return self.cmp_eq_int(st, c, neg=True)
        if all(it[0] == "E" for it in w):
            return [(s, pos is not None) for s, pos in self.find_in(st, b, a, n, ctx)]
        return self.split_unknown(st)

    def find_in(self, st, lp, v, n, ctx):
        """First position of v in the spelled out list lp, or None -> (state, position)."""
        out = []
        work = [(st, v, 0)]
        while work:
            s, v, k = work.pop()
            w = s.objs[lp].a["w"][1]
            if k >= len(w):
                out.append((s, None))
                continue
            s.temps.append(v)
            for s2, r in self.equal(s, "Eq", w[k][1], v, n, ctx):
                v2 = s2.temps.pop()
                if r is True:
                    out.append((s2, k))
                elif r is False:
                    work.append((s2, v2, k + 1))
                else:
                    raise self.uns("comparison of list items", n, ctx)
        return out

    # ------------------------------------------------------------ subscript
    def ev_Subscript(self, n, st, ctx):
        out = []
        for s, v in self.evs([n.value, n.slice], st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.getitem(s, v[0], v[1], n, ctx))
        return out

    def getitem(self, st, b, i, n, ctx):
        if b[0] == "p":
            o = st.objs.get(b)
            if o is None:
                raise self.uns("subscript of an untracked reference", n, ctx)
            if o.cls == "list":
                return self.list_get(st, b, i, n, ctx)
            if isinstance(o.cls, str):
                return self.native_getitem(st, b, i, n, ctx)
            e, _ = o.cls.lookup("__getitem__")
            if e is not None:
                return self.call_func(e[1], [b, i], {}, st, n)
            return [(st, Exc("TypeError", n, ctx.func))]
        if b[0] == "tup":
            if i[0] == "i":
                x = st.num.norm(i[1])
                if x.is_const():
                    if -len(b[1]) <= x.c < len(b[1]):
                        return [(st, b[1][x.c])]
                    return [(st, Exc("IndexError", n, ctx.func))]
        if b[0] == "range" and i[0] == "i":
            out = []
            for s, ne in self.cmp_ge(st, range_open(st, b)):
                if not ne:
                    out.append((s, Exc("IndexError", n, ctx.func)))
                    continue
                cnt = self.range_count(s, b, n, ctx)
                for s2, neg in self.cmp_ge(s, -i[1] - 1):
                    x = i[1] + cnt if neg else i[1]
                    for s3, ok in self.cmp_ge(s2, x):
                        for s4, ok2 in (self.cmp_ge(s3, cnt - x - 1) if ok else [(s3, False)]):
                            if ok2:
                                out.append((s4, ("i", b[1][1] + x.scale(s4.num.norm(b[3][1]).c))))
                            else:
                                out.append((s4, Exc("IndexError", n, ctx.func)))
            return out
        if b[0] == "none":
            return [(st, Exc("TypeError", n, ctx.func))]
        if b[0] in ("top", "c", "e"):
            return [(st, TOP if b[0] != "c" else ("top", "str"))]
        if b[0] == "w":
            tmp = self.new_list(st, b[1])
            return self.list_get(st, tmp, i, n, ctx)
        raise self.uns("subscript", n, ctx)

    def native_getitem(self, st, b, i, n, ctx):
        raise self.uns("subscript of a native object", n, ctx)

    def list_index(self, st, lp, idx):
        """Locate integer index idx (Lin) in list lp.
        Yields (st, pos) where the list's word has an E item at pos, or (st, None) when out of range."""
        out = []
        work = []
        # bounds
        w = st.objs[lp].a["w"][1]
        L = st.wlen(w)
        for s, nonneg in self.cmp_ge(st, idx):
            if nonneg:
                for s2, inb in self.cmp_ge(s, s.wlen(s.objs[lp].a["w"][1]) - idx - 1):
                    if inb:
                        work.append((s2, idx))
                    else:
                        out.append((s2, None))
            else:
                j = idx + s.wlen(s.objs[lp].a["w"][1])
                for s2, ok in self.cmp_ge(s, j):
                    if ok:
                        work.append((s2, j))
                    else:
                        out.append((s2, None))
        n = 0
        while work:
            s, j = work.pop()
            n += 1
            if n > 200:
                raise Unsupported("list indexing diverges")
            w = s.objs[lp].a["w"][1]
            off = Lin(0)
            pos = 0
            placed = False
            cur = s
            # walk items
            for pos, it in enumerate(w):
                ln = cur.wlen((it,))
                # j < off + ln ?
                rs = self.cmp_ge(cur, off + ln - j - 1)
                nxt = None
                for s2, b in rs:
                    if b:
                        if it[0] == "E":
                            out.append((s2, pos))
                        else:
                            # split the svar at offset j-off
                            for s3, p3 in self.split_at(s2, lp, pos, j - off):
                                if p3 is None:
                                    work.append((s3, j))
                                else:
                                    out.append((s3, p3))
                    else:
                        nxt = s2
                if nxt is None:
                    placed = True
                    break
                cur = nxt
                off = off + ln
            if not placed:
                out.append((cur, None))
        return out

    def split_at(self, s, lp, pos, k):
        """Split the svar item at word position pos into A e B with |A| = k."""
        it = s.objs[lp].a["w"][1][pos]
        if it[0] == "F":
            raise Unsupported("index into a filtered sequence")
        res = []
        for s2, a, pay, b in s.tri_svar(it[1]):
            if it[0] == "S":
                s2.num.add_eq(V(f"len:{a[1]}") - k)
            else:
                s2.num.add_eq(V(f"len:{b[1]}") - k)
            if s2.num.sat():
                # normalise empty parts
                res.append((s2, pos + 1))
        return res

    def list_get(self, st, lp, i, n, ctx):
        if i[0] == "slice":
            return self.list_slice(st, lp, i, n, ctx)
        if i[0] == "c" and isinstance(i[1], bool):
            i = I(int(i[1]))
        if i[0] != "i":
            raise self.uns("list index", n, ctx)
        out = []
        for s, pos in self.list_index(st, lp, i[1]):
            if pos is None:
                out.append((s, Exc("IndexError", n, ctx.func)))
            else:
                out.append((s, s.objs[lp].a["w"][1][pos][1]))
        return out

    def list_slice(self, st, lp, sl, n, ctx):
        lo, hi, step = sl[1], sl[2], sl[3]
        w = st.objs[lp].a["w"][1]
        if step != NONE:
            if step[0] == "i" and st.num.entails_eq(step[1] + 1) and lo == NONE and hi == NONE:
                from .state import rev_word
                return [(st, self.new_list(st, rev_word(w)))]
            if not (step[0] == "i" and st.num.entails_eq(step[1] - 1)):
                raise self.uns("list slice with a step", n, ctx)
        if lo == NONE and hi == NONE:
            return [(st, self.new_list(st, w))]
        if lo != NONE and lo[0] != "i" or hi != NONE and hi[0] != "i":
            raise self.uns("list slice bounds", n, ctx)
        # cut positions
        res = []
        for s, cut1 in self.cut(st, lp, lo if lo != NONE else I(0)):
            s.temps.append(("i", cut1))
            for s2, cut2 in (self.cut(s, lp, hi) if hi != NONE else [(s, s.wlen(s.objs[lp].a["w"][1]))]):
                c1 = s2.temps.pop()[1]
                res.append((s2, self.new_list(s2, self.sub_word(s2, lp, c1, cut2))))
        return res

    def cut(self, st, lp, idx):
        """Make the list word have an item boundary at index idx (clamped)."""
        e = idx[1]
        out = []
        for s, nn in self.cmp_ge(st, e):
            L = s.wlen(s.objs[lp].a["w"][1])
            j = e if nn else e + L
            for s2, ok in (self.cmp_ge(s, j) if not nn else [(s, True)]):
                if not ok:
                    out.append((s2, Lin(0)))
                    continue
                for s3, inb in self.cmp_ge(s2, L - j - 1):
                    if not inb:
                        out.append((s3, s3.wlen(s3.objs[lp].a["w"][1])))
                        continue
                    for s4, pos in self.list_index(s3, lp, j):
                        out.append((s4, j))
        return out

    def sub_word(self, st, lp, lo, hi):
        w = st.objs[lp].a["w"][1]
        off = Lin(0)
        i0 = i1 = None
        for i in range(len(w) + 1):
            if i0 is None and st.num.entails_eq(off - lo):
                i0 = i
            if st.num.entails_eq(off - hi):
                i1 = i
            if i < len(w):
                off = off + st.wlen((w[i],))
        if i0 is None or i1 is None:
            raise Unsupported("slice boundary not found")
        return w[i0:i1] if i1 >= i0 else ()

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(self, n, st, ctx):
        return self.comp(n, st, ctx)

    def ev_GeneratorExp(self, n, st, ctx):
        return self.comp(n, st, ctx)

    def ev_SetComp(self, n, st, ctx):
        raise self.uns("set comprehension", n, ctx)

    def comp(self, n, st, ctx, first=None):
        """first: any | all | next: leave at the first item that decides"""
        self.closures += 1
        try:
            return self.comp1(n, st, ctx, first)
        finally:
            self.closures -= 1

    def comp1(self, n, st, ctx, first=None):
        name = f"$c{n.lineno}_{n.col_offset}"
        if not first:
            st.frames[ctx.depth][name] = self.new_list(st, ())
        names = set()
        for g in n.generators:
            names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        saved = {k: st.frames[ctx.depth].get(k) for k in names}
        for k, v in saved.items():
            if v is not None:
                st.frames[ctx.depth]["$s" + name + k] = v

        def level(i):
            g = n.generators[i]

            def body(s):
                cur = [s]
                for c in g.ifs:
                    nx = []
                    res = []
                    for x in cur:
                        for x2, b in self.test(c, x, ctx):
                            if isinstance(b, Exc):
                                res.append((x2, ("raise", b)))
                            elif b:
                                nx.append(x2)
                            else:
                                res.append((x2, None))
                    cur = nx
                    outs.extend(res)
                r = []
                for x in cur:
                    if i + 1 < len(n.generators):
                        r.extend(run(i + 1, x))
                    elif first in ("any", "all"):
                        for x2, b in self.test(n.elt, x, ctx):
                            if isinstance(b, Exc):
                                r.append((x2, ("raise", b)))
                            elif b == (first == "any"):
                                x2.frames[ctx.depth][name] = ("c", b)
                                r.append((x2, ("return",)))
                            else:
                                r.append((x2, None))
                    elif first:
                        for x2, v in self.ev(n.elt, x, ctx):
                            if isinstance(v, Exc):
                                r.append((x2, ("raise", v)))
                            else:
                                x2.frames[ctx.depth][name] = v
                                r.append((x2, ("return",)))
                    else:
                        for x2, v in self.ev(n.elt, x, ctx):
                            if isinstance(v, Exc):
                                r.append((x2, ("raise", v)))
                            else:
                                lp = x2.frames[ctx.depth][name]
                                x2.objs[lp].a["w"] = ("w", x2.objs[lp].a["w"][1] + (("E", v),))
                                r.append((x2, None))
                return r

            outs = []

            def wrapped(s):
                nonlocal outs
                outs = []
                r = body(s)
                return r + outs
            return wrapped

        def run(i, s):
            g = n.generators[i]
            res = []
            for s2, itv in self.ev(g.iter, s, ctx):
                if isinstance(itv, Exc):
                    res.append((s2, ("raise", itv)))
                else:
                    res.extend(self.run_for(s2, ctx, itv, g.target, level(i), g, f"{n.lineno}_{n.col_offset}_{i}"))
            return res

        out = []
        for s, sig in run(0, st):
            fr = s.frames[ctx.depth]
            for k in names:
                fr.pop(k, None)
                o = fr.pop("$s" + name + k, None)
                if o is not None:
                    fr[k] = o
            if sig is None and first:
                out.append((s, ("c", first == "all") if first != "next" else None))
            elif sig is None or first and sig[0] == "return":
                lp = fr.pop(name)
                out.append((s, lp))
            elif sig[0] == "raise":
                fr.pop(name, None)
                out.append((s, sig[1]))
            else:
                raise self.uns("comprehension control flow", n, ctx)
        return out

    # ------------------------------------------------------------ generators
    def ev_Yield(self, n, st, ctx):
        out = []
        for s, v in (self.ev(n.value, st, ctx) if n.value is not None else [(st, NONE)]):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            if not self.handlers:
                raise self.uns("yield outside an analysed iteration", n, ctx)
            h = self.handlers.pop()
            try:
                res = h(s, v)
            finally:
                self.handlers.append(h)
            for s2, sig in res:
                if sig is None or sig == ("continue",):
                    out.append((s2, NONE))
                else:
                    out.append((s2, Unwind(sig)))
        return out

    def ev_YieldFrom(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            h = self.handlers[-1]
            tgt = f"$yf{n.lineno}"

            def body(x):
                val = x.frames[ctx.depth].pop(tgt)
                return h(x, val)
            hs = self.handlers.pop()
            try:
                res = self.run_for(s, ctx, v, ast.Name(id=tgt, ctx=ast.Store()), body, n, f"yf{n.lineno}")
            finally:
                self.handlers.append(hs)
            for s2, sig in res:
                if sig is None:
                    out.append((s2, NONE))
                elif sig[0] == "raise":
                    out.append((s2, sig[1]))
                else:
                    out.append((s2, Unwind(sig)))
        return out

    def run_gen(self, st, ctx, func, args, handler, node):
        """Run generator func, calling handler(st, value) at every yield."""
        base = len(st.frames)
        self.check_active(func, node)
        fr = self.bind(func, list(args), {}, st, node)
        if isinstance(fr, Exc):
            return [(st, ("raise", fr))]
        st.frames.append(fr)
        self.enter(func, base)
        self.handlers.append(handler)
        try:
            outs = self.block(func.node.body, st, Ctx(func, base))
        finally:
            self.handlers.pop()
            self.leave(func, base)
        res = []
        for s, sig in outs:
            del s.frames[base:]
            if sig is None or sig[0] == "return":
                res.append((s, None))
            elif sig[0] == "raise" and isinstance(sig[1], Unwind):
                res.append((s, ("unwound", sig[1].sig)))
            elif sig[0] == "raise":
                res.append((s, sig))
            else:
                raise Unsupported("generator control flow", node, func)
        return res

    # ------------------------------------------------------------ calls
    def enter(self, func, base):
        self.visited.add(func)
        self.active.append(func)
        while len(self.cur) <= base:
            self.cur.append(None)
        self.cur[base] = (func, None)

    def leave(self, func, base):
        self.active.pop()
        del self.cur[base:]

    def check_active(self, func, node):
        if self.active.count(func) > 0:
            raise Unsupported(f"recursion through {func!r}", node, func)
        if len(self.active) > 60:
            raise Unsupported("call depth", node, func)

    def bind(self, func, args, kwargs, st, node):
        a = func.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unsupported("star parameters", node, func)
        params = [x.arg for x in a.args]
        fr = {}
        given = {}
        if func.parent is not None:
            args = list(args)
            up = args.pop()
            fr["$up"] = ("depth", up[1])
            names = params[len(params) - len(a.defaults):] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            given = dict(zip(names, up[2]))
        if len(args) > len(params):
            return Exc("TypeError", node, func)
        for p, v in zip(params, args):
            fr[p] = v
        for k, v in kwargs.items():
            if k in fr or (k not in params and k not in [x.arg for x in a.kwonlyargs]):
                return Exc("TypeError", node, func)
            fr[k] = v
        for k, v in given.items():
            fr.setdefault(k, v)
        nd = len(a.defaults)
        for p, d in zip(params[len(params) - nd:], a.defaults):
            if p not in fr:
                if isinstance(d, (ast.List, ast.Dict, ast.Set)):
                    if isinstance(d, ast.List) and not d.elts:
                        fr[p] = self.new_list(st, ())
                        continue
                    raise Unsupported("mutable default argument", node, func)
                fr[p] = self.const_expr(d, func.module)
        for p, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if p not in fr and d is not None:
                fr[p] = self.const_expr(d, func.module)
        for p in params:
            if p not in fr:
                return Exc("TypeError", node, func)
        return fr

    def is_void(self, st, n):
        """The value of call n is not needed."""
        return getattr(n, "_void", False) or (getattr(n, "_ret", False) and len(st.frames) - 1 in self.voids)

    def call_func(self, func, args, kwargs, st, node, void=False):
        """Inline call.  list of (st, value|Exc)."""
        self.tick(node, func)
        if func.kind == "unknown":
            raise Unsupported("decorated function", node, func)
        if func.is_gen:
            if kwargs:
                raise Unsupported("keyword arguments to a generator", node, func)
            return [(st, ("gen", func, tuple(args)))]
        if func in self.active:
            if self.assumed is not None:
                r = self.assumed(self, func, args, kwargs, st, node)
                if r is not None:
                    return r
            if self.inline and self.active.count(func) > self.inline and st.exact:
                # deeper than any structure of this size
                return [(st, Exc("RecursionError", node, func))]
            if not self.inline or self.active.count(func) > self.inline:
                raise Unsupported(f"recursion through {func!r}", node, func)
        if len(self.active) > 60:
            raise Unsupported("call depth", node, func)
        fr = self.bind(func, args, kwargs, st, node)
        if isinstance(fr, Exc):
            return [(st, fr)]
        base = len(st.frames)
        self.callsites.add((func, getattr(node, "lineno", 0)))
        st.frames.append(fr)
        self.enter(func, base)
        self.callnode[base] = node
        if void:
            self.voids.add(base)
        try:
            if self.has_tail(func):
                outs = self.tail_loop(func, st, base)
            else:
                outs = self.block(func.node.body, st, Ctx(func, base))
        finally:
            self.leave(func, base)
            self.voids.discard(base)
        res = []
        for s, sig in outs:
            f = s.frames[base]
            del s.frames[base:]
            if sig is None:
                res.append((s, NONE))
            elif sig[0] == "return":
                res.append((s, f["$ret"]))
            elif sig[0] == "raise":
                res.append((s, sig[1]))
            else:
                raise Unsupported("control flow", node, func)
        if not self.peel and len(res) > 3 and not self.prog.query(func):
            res = self.merge_returns(res, node)
        return res

    def has_tail(self, func):
        r = getattr(func, "_tail", None)
        if r is None:
            r = False
            for x in ast.walk(func.node) if func.parent is None else ():
                if isinstance(x, ast.Return) and isinstance(x.value, ast.Call):
                    f = x.value.func
                    if (isinstance(f, ast.Attribute) and f.attr == func.name and not (
                            isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and
                            f.value.func.id == "super")) or \
                            (isinstance(f, ast.Name) and f.id == func.name):
                        r = True
            func._tail = r
        return r

    def tail_loop(self, func, st, base):
        params = [x.arg for x in func.node.args.args]

        def step(s):
            nexts, outs = [], []
            for s2, sig in self.block(func.node.body, s, Ctx(func, base, True)):
                if sig is not None and sig[0] == "tail":
                    fr = s2.frames[base]["$tail"]
                    s2.frames[base] = dict(fr[1])
                    nexts.append(s2)
                else:
                    outs.append((s2, sig))
            return nexts, outs
        return self.fixpoint([st], step, func.node, Ctx(func, base), live=set(params))

    def ev_Call(self, n, st, ctx, tail=False):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and \
                n.func.id not in st.frames[ctx.depth]:
            return [(st, self.super_value(st, ctx, n))]
        for a in n.args:
            if isinstance(a, ast.Starred):
                return self.star_args(n, st, ctx)
        for k in n.keywords:
            if k.arg is None:
                raise self.uns("double star argument", n, ctx)
        if isinstance(n.func, ast.Name) and n.func.id in ("print",) and not n.keywords:
            return [(st, NONE)]
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "next") and n.args and not n.keywords and \
                isinstance(n.args[0], ast.GeneratorExp) and len(n.args) <= 1 + (n.func.id == "next") and \
                self.is_builtin(n.func.id, st, ctx):
            out = []
            for s, v in self.comp(n.args[0], st, ctx, n.func.id):
                if v is not None:
                    out.append((s, v))
                elif len(n.args) == 2:
                    out.extend(self.ev(n.args[1], s, ctx))
                else:
                    out.append((s, Exc("StopIteration", n, ctx.func)))
            return out
        # exception construction / warnings: message arguments are irrelevant
        out = []
        for s, f in self.ev(n.func, st, ctx):
            if isinstance(f, Exc):
                out.append((s, f))
                continue
            if f[0] == "exccls":
                out.append((s, ("exc", f[1])))
                continue
            if f[0] == "ext" and f[1] == "warnings" and f[2] == "warn":
                s.events = s.events if "warn" in s.events else s.events + ("warn",)
                out.append((s, NONE))
                continue
            if f[0] == "sm" and f[2][0] == "c" and isinstance(f[2][1], str) and f[1] in ("format", "join"):
                out.append((s, ("top", "str")))
                continue
            s.temps.append(f)
            base = len(s.temps) - 1
            for s2, vals in self.evs(list(n.args) + [k.value for k in n.keywords], s, ctx):
                fv = s2.temps[base]
                del s2.temps[base:]
                if isinstance(vals, Exc):
                    out.append((s2, vals))
                    continue
                args = vals[:len(n.args)]
                kw = {k.arg: v for k, v in zip(n.keywords, vals[len(n.args):])}
                if tail and ctx.tail:
                    tf, targs = None, None
                    if fv[0] == "fn":
                        tf, targs = fv[1], args
                    elif fv[0] == "bm":
                        tf, targs = fv[1], [fv[2]] + args
                    if tf is ctx.func:
                        fr = self.bind(tf, targs, kw, s2, n)
                        if isinstance(fr, Exc):
                            out.append((s2, fr))
                        else:
                            s2.frames[ctx.depth]["$tail"] = ("tailframe", tuple(sorted(fr.items())))
                            out.append((s2, ("$tailcall",)))
                        continue
                out.extend(self.call(s2, fv, args, kw, n, ctx))
        return out

    def is_builtin(self, name, st, ctx):
        r = self.ev(ast.Name(id=name, ctx=ast.Load(), lineno=0, col_offset=0), st, ctx)
        return len(r) == 1 and r[0][1] == ("builtin", name)

    def super_value(self, st, ctx, n):
        f = ctx.func
        if f.parent is not None:
            raise self.uns("super() in a nested function", n, ctx)
        if f.cls is None:
            raise self.uns("super() outside a class", n, ctx)
        first = f.node.args.args[0].arg if f.node.args.args else None
        v = st.frames[ctx.depth].get(first)
        if v is None:
            raise self.uns("super() without self", n, ctx)
        if v[0] == "cls":
            return ("super", v[1], f.cls, v)
        if v[0] == "p":
            o = st.objs.get(v)
            if o is None:
                c, _ = st.chunk_at(v)
                if c is None:
                    raise self.uns("super() on an untracked object", n, ctx)
                return ("super", c.spec.cls, f.cls, v)
            if isinstance(o.cls, str) or f.cls not in o.cls.mro:
                return Exc("TypeError", n, f)
            return ("super", o.cls, f.cls, v)
        if v[0] in ("none", "i", "c", "tup", "enum"):
            return Exc("TypeError", n, f)       # super() of something that is no instance of the class
        raise self.uns("super()", n, ctx)

    def call(self, st, f, args, kw, n, ctx):
        t = f[0]
        if t == "fn":
            return self.call_func(f[1], args, kw, st, n, self.is_void(st, n))
        if t == "bm":
            return self.call_func(f[1], [f[2]] + args, kw, st, n, self.is_void(st, n))
        if t == "clo":
            # the function it was made in is still running, at the same depth
            if f[2] >= len(self.cur) or self.cur[f[2]] is None or self.cur[f[2]][0] is not f[1].parent or \
                    "$clo" not in st.frames[f[2]]:
                raise self.uns("closure called after the function it belongs to", n, ctx)
            return self.call_func(f[1], list(args) + [("up", f[2], f[3])], kw, st, n, self.is_void(st, n))
        if t == "cls":
            return self.instantiate(st, f[1], args, kw, n, ctx)
        if t == "noop":
            return [(st, NONE)]
        if t == "exccls":
            return [(st, ("exc", f[1]))]
        if t == "builtin":
            return self.call_builtin(st, f[1], args, kw, n, ctx)
        if t == "lm":
            return self.list_method(st, f[1], f[2], args, kw, n, ctx)
        if t == "sm":
            return self.str_method(st, f[1], f[2], args, kw, n, ctx)
        if t == "ext":
            return self.call_ext(st, f[1], f[2], args, kw, n, ctx)
        if t == "p":
            o = st.objs.get(f)
            if o is not None and not isinstance(o.cls, str):
                e, _ = o.cls.lookup("__call__")
                if e is not None:
                    return self.call_func(e[1], [f] + args, kw, st, n)
            return [(st, Exc("TypeError", n, ctx.func))]
        if t == "none":
            return [(st, Exc("TypeError", n, ctx.func))]
        raise self.uns(f"call of {t}", n, ctx)

    def instantiate(self, st, cls, args, kw, n, ctx):
        if any(b == "Enum" for b in cls.mro):
            raise self.uns("enum construction", n, ctx)
        p = st.alloc(cls, {})
        e, _ = cls.lookup("__init__")
        if e is None:
            return [(st, p)]
        st.temps.append(p)
        out = []
        for s, r in self.call_func(e[1], [p] + args, kw, st, n):
            q = s.temps.pop()
            out.append((s, r if isinstance(r, Exc) else q))
        return out

    def call_ext(self, st, mod, name, args, kw, n, ctx):
        if mod == "warnings":
            st.events = st.events if "warn" in st.events else st.events + ("warn",)
            return [(st, NONE)]
        if mod == "random":
            if name != "seed" and "draws:" in st.ghosts and getattr(self, "draws", 0):
                # only so many random draws are followed
                k = int(st.ghosts["draws:"][1].c) + 1
                if k > self.draws:
                    return []
                st.ghosts["draws:"] = I(k)
            if name in ("seed", "shuffle"):
                return [(st, NONE)] if name == "seed" else self._uns("shuffle", n, ctx)
            if name in ("randint", "randrange"):
                return [(st, self.random_value(st))]
            if name in ("random", "uniform"):
                return [(st, self.random_value(st))]
            if name == "getrandbits":
                v = st.new_int(0)
                st.num.add_ge(Lin(1) - v[1])
                return [(st, v)]
            if name == "choice" and args and args[0][0] in ("p", "tup"):
                items = None
                if args[0][0] == "tup":
                    items = list(args[0][1])
                else:
                    o = st.objs.get(args[0])
                    if o is not None and o.cls == "list" and all(i[0] == "E" for i in o.a["w"][1]):
                        items = [i[1] for i in o.a["w"][1]]
                if items:
                    out = []
                    for i, v in enumerate(items):
                        s = st if i == len(items) - 1 else st.copy()
                        out.append((s, v))
                    return out
        if mod == "operator" and len(args) == 2:
            op = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE",
                  "is_": "Is", "is_not": "IsNot"}.get(name)
            if op:
                return [(s, ("c", b) if isinstance(b, bool) else b)
                        for s, b in self.compare(st, op, args[0], args[1], n, ctx)]
            bop = {"add": "Add", "sub": "Sub", "mul": "Mult", "mod": "Mod", "floordiv": "FloorDiv"}.get(name)
            if bop:
                return self.binop(st, bop, args[0], args[1], n, ctx)
        if mod == "copy" and name == "copy" and args[0][0] == "p" and st.objs.get(args[0]) and st.objs[args[0]].cls == "list":
            return [(st, self.new_list(st, st.objs[args[0]].a["w"][1]))]
        if mod == "math" and name == "isinf" and args:
            v = args[0]
            if v[0] == "i":
                return [(st, FALSE)]
            if v[0] == "c":
                return [(st, ("c", v[1] in (INF, -INF)))]
        raise self.uns(f"external call {mod}.{name}", n, ctx)

    def random_value(self, st):
        return st.new_elem("prio")

    def _uns(self, msg, n, ctx):
        raise self.uns(msg, n, ctx)

    def str_method(self, st, name, v, args, kw, n, ctx):
        if name == "replace" and v[0] == "e" and len(args) == 2 and args[0] == ("c", "\n"):
            return [(st, v)]          # assumption: scenario strings hold no newline
        if v[0] == "slice" and name == "indices":
            raise self.uns("slice.indices", n, ctx)
        if v[0] == "c" and isinstance(v[1], str):
            if name == "lower":
                return [(st, ("c", v[1].lower()))]
            if name == "upper":
                return [(st, ("c", v[1].upper()))]
            return [(st, ("top", "str"))]
        if v[0] in ("top", "strv"):
            return [(st, TOP)]
        raise self.uns(f"method .{name}() of an opaque value", n, ctx)

    # ---- builtins
    def call_builtin(self, st, name, args, kw, n, ctx):
        m = getattr(self, "bi_" + name, None)
        if m is None:
            raise self.uns(f"builtin {name}", n, ctx)
        return m(st, args, kw, n, ctx)

    def bi_len(self, st, args, kw, n, ctx):
        v = args[0]
        if v[0] == "p":
            o = st.objs.get(v)
            if o is None:
                raise self.uns("len of an untracked reference", n, ctx)
            if o.cls == "list":
                return [(st, ("i", st.wlen(o.a["w"][1])))]
            if isinstance(o.cls, str):
                return self.native_len(st, v, n, ctx)
            e, _ = o.cls.lookup("__len__")
            if e is not None:
                return self.call_func(e[1], [v], {}, st, n)
            return [(st, Exc("TypeError", n, ctx.func))]
        if v[0] == "tup":
            return [(st, I(len(v[1])))]
        if v[0] == "w":
            return [(st, ("i", st.wlen(v[1])))]
        if v[0] == "c" and isinstance(v[1], str):
            return [(st, I(len(v[1])))]
        if v[0] == "top":
            return [(st, st.new_int(0))]
        if v[0] == "range":
            out = []
            for s, ne in self.cmp_ge(st, range_open(st, v)):
                out.append((s, ("i", self.range_count(s, v, n, ctx)) if ne else I(0)))
            return out
        return [(st, Exc("TypeError", n, ctx.func))]

    def range_count(self, st, v, n, ctx):
        """Number of elements of a non-empty range with a constant step."""
        k = st.num.norm(v[3][1])
        e = range_open(st, v)
        if abs(k.c) == 1:
            return e + 1
        (s, q), = self.binop(st, "FloorDiv", ("i", e), I(abs(k.c)), n, ctx)
        return q[1] + 1

    def native_len(self, st, v, n, ctx):
        raise self.uns("len of a native object", n, ctx)

    def bi_type(self, st, args, kw, n, ctx):
        v = args[0]
        if v[0] == "p":
            st.temps.append(v)
            out = []
            for s in materialise(st, len(st.temps) - 1):
                w = s.temps.pop()
                o = s.objs.get(w) if w[0] == "p" else None
                if o is not None and not isinstance(o.cls, str):
                    out.append((s, ("cls", o.cls)))
                else:
                    out.append((s, ("typeof", w)))
            return out
        return [(st, ("typeof", v))]

    def bi_isinstance(self, st, args, kw, n, ctx):
        v, c = args
        if v[0] == "p" and v not in st.objs:
            ch, _ = st.chunk_at(v)
            if ch is None:
                raise self.uns("isinstance of an untracked reference", n, ctx)
            k = nonnull(st, v)
            if k is None:
                st.temps.extend([c, v])
                out = []
                for s in ([s for s, _ in trees.split_empty(st, ch)] if ch.kind == "tree" else
                          materialise(st, len(st.temps) - 1)):
                    w = s.temps.pop()
                    cc = s.temps.pop()
                    out.extend(self.bi_isinstance(s, [w, cc], kw, n, ctx))
                return out
            cls = ch.spec.cls
        elif v[0] == "p":
            cls = st.objs[v].cls
        else:
            cls = None
        cs = list(c[1]) if c[0] == "tup" else [c]
        unk = False
        for x in cs:
            if x[0] == "cls":
                if isinstance(cls, Class) and cls.is_sub(x[1]):
                    return [(st, TRUE)]
            elif x[0] == "builtin":
                nm = x[1]
                if isinstance(cls, str):
                    r = cls == nm
                elif isinstance(cls, Class):
                    r = nm == "object"
                else:
                    r = self.type_is(st, v, nm)
                    if nm == "object":
                        r = True
                    if nm == "int" and v[0] == "c" and isinstance(v[1], bool):
                        r = True
                    if r is None and v[0] == "e" and {"int", "float"} <= {y[1] for y in cs if y[0] == "builtin"}:
                        r = True
                if r:
                    return [(st, TRUE)]
                if r is None:
                    unk = True
            elif x[0] == "ext":
                if v[0] in ("i",) and x[2] in ("Number", "Real", "Integral"):
                    return [(st, TRUE)]
                if v[0] == "e" and st.kinds.get(v[1]) == "num" and x[2] in ("Number", "Real"):
                    return [(st, TRUE)]
                if isinstance(cls, str) and cls == "list" and x[2] in ("Iterable", "Sequence", "Collection", "Container"):
                    return [(st, TRUE)]
                if isinstance(cls, Class) and x[2] == "Iterable" and cls.lookup("__iter__")[0] is not None:
                    return [(st, TRUE)]
                if v[0] in ("e", "none", "c", "i"):
                    continue
                unk = True
            else:
                unk = True
        if unk:
            return [(s, ("c", b)) for s, b in self.split_unknown(st)]
        return [(st, FALSE)]

    def bi_hasattr(self, st, args, kw, n, ctx):
        v, a = args
        if a[0] != "c":
            raise self.uns("hasattr", n, ctx)
        nm = a[1]
        if v[0] == "p":
            o = st.objs.get(v)
            if o is None:
                raise self.uns("hasattr on an untracked reference", n, ctx)
            if o.cls == "list":
                return [(st, ("c", hasattr([], nm)))]
            if isinstance(o.cls, str):
                return [(st, ("c", nm in ("__iter__", "__len__")))]
            return [(st, ("c", nm in o.a or o.cls.lookup(nm)[0] is not None))]
        if v[0] in ("e", "i", "none"):
            k = st.kinds.get(v[1]) if v[0] == "e" else None
            if k == "str":
                return [(st, ("c", hasattr("", nm)))]
            return [(st, ("c", hasattr(None, nm)))]
        if v[0] == "tup":
            return [(st, ("c", hasattr((), nm)))]
        if v[0] == "c":
            return [(st, ("c", hasattr(v[1], nm)))]
        if v[0] in ("gen", "range"):
            return [(st, ("c", nm in ("__iter__",)))]
        return [(s, ("c", b)) for s, b in self.split_unknown(st)]

    def bi_getattr(self, st, args, kw, n, ctx):
        if args[1][0] != "c" or not isinstance(args[1][1], str):
            raise self.uns("getattr", n, ctx)
        if len(args) == 3:
            r = self.bi_hasattr(st, args[:2], {}, n, ctx)
            if len(r) != 1:
                raise self.uns("getattr", n, ctx)
            if r[0][1] == FALSE:
                return [(st, args[2])]
        return self.getattr(st, args[0], args[1][1], n, ctx)

    def bi_setattr(self, st, args, kw, n, ctx):
        if args[1][0] != "c" or not isinstance(args[1][1], str):
            raise self.uns("setattr", n, ctx)
        return [(s, e if isinstance(e, Exc) else NONE) for s, e in self.setattr(st, args[0], args[1][1], args[2], n, ctx)]

    def star_args(self, n, st, ctx):
        """Rewrite f(*x) for the shapes of x that can be spelled out."""
        import copy
        a = n.args[0] if len(n.args) == 1 else None
        if a is not None and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute) and \
                a.value.func.attr == "indices" and isinstance(n.func, ast.Name) and n.func.id == "range":
            out = []
            for s, vs in self.evs([a.value.func.value] + list(a.value.args), st, ctx):
                if isinstance(vs, Exc):
                    out.append((s, vs))
                    continue
                if vs[0][0] != "slice" or len(vs) != 2:
                    raise self.uns("slice.indices", n, ctx)
                for s2, t in self.slice_indices(s, vs[0], vs[1], n, ctx):
                    if isinstance(t, Exc):
                        out.append((s2, t))
                    else:
                        out.extend(self.bi_range(s2, list(t), {}, n, ctx))
            return out
        raise self.uns("star argument", n, ctx)

    def slice_indices(self, st, sl, ln, n, ctx):
        """slice.indices for a positive constant step -> [(state, (lo, hi, step))]."""
        step = sl[3]
        if step == NONE:
            step = I(1)
        if step[0] != "i" or not st.num.norm(step[1]).is_const() or ln[0] != "i":
            raise self.uns("slice step", n, ctx)
        k = st.num.norm(step[1]).c
        if k == 0:
            return [(st, Exc("ValueError", n, ctx.func))]
        last = ("i", ln[1] - 1)
        cur = [(st, ())]
        for v, dflt in ((sl[1], I(0) if k > 0 else last), (sl[2], ln if k > 0 else I(-1))):
            nxt = []
            for s, t in cur:
                if v == NONE:
                    nxt.append((s, t + (dflt,)))
                    continue
                if v[0] != "i":
                    return [(s, Exc("TypeError", n, ctx.func))]
                for s2, neg in self.cmp_ge(s, -v[1] - 1):
                    x = v[1] + ln[1] if neg else v[1]
                    for s3, low in self.cmp_ge(s2, -x - 1):
                        if low:
                            nxt.append((s3, t + (I(0 if k > 0 else -1),)))
                            continue
                        for s4, hi in self.cmp_ge(s3, x - ln[1]):
                            nxt.append((s4, t + ((ln if k > 0 else last) if hi else ("i", x),)))
            cur = nxt
        return [(s, t + (step,)) for s, t in cur]

    def bi_range(self, st, args, kw, n, ctx):
        for a in args:
            if a[0] != "i":
                return [(st, Exc("TypeError", n, ctx.func))] if a[0] in ("none", "p") else self._uns("range", n, ctx)
        lo, hi, step = I(0), args[0], I(1)
        if len(args) > 1:
            lo, hi = args[0], args[1]
        if len(args) > 2:
            step = args[2]
        return [(st, ("range", lo, hi, step))]

    def bi_enumerate(self, st, args, kw, n, ctx):
        start = args[1] if len(args) > 1 else kw.get("start", I(0))
        return [(st, ("enumerate", args[0], start))]

    def bi_zip(self, st, args, kw, n, ctx):
        return [(st, ("zip", tuple(args)))]

    def bi_iter(self, st, args, kw, n, ctx):
        v = args[0]
        if v[0] == "p" and st.objs.get(v) is not None and not isinstance(st.objs[v].cls, str):
            e, _ = st.objs[v].cls.lookup("__iter__")
            if e is not None:
                return self.call_func(e[1], [v], {}, st, n)
        return [(st, v)]

    def bi_float(self, st, args, kw, n, ctx):
        if not args:
            return [(st, ("c", 0.0))]
        v = args[0]
        if v[0] == "c" and isinstance(v[1], (str, float)):
            try:
                return [(st, ("c", float(v[1])))]
            except ValueError:
                return [(st, Exc("ValueError", n, ctx.func))]
        return [(st, TOP)]

    def bi_int(self, st, args, kw, n, ctx):
        if not args:
            return [(st, I(0))]
        v = args[0]
        if v[0] == "i":
            return [(st, v)]
        if v[0] == "c" and isinstance(v[1], bool):
            return [(st, I(int(v[1])))]
        st.inexact("int()")
        return [(st, st.new_int())]

    def bi_bool(self, st, args, kw, n, ctx):
        if not args:
            return [(st, FALSE)]
        return [(s, b if isinstance(b, Exc) else ("c", b)) for s, b in self.truth(st, args[0], n, ctx)]

    def bi_str(self, st, args, kw, n, ctx):
        return [(st, ("top", "str"))]

    bi_repr = bi_str
    bi_format = bi_str

    def bi_dir(self, st, args, kw, n, ctx):
        if len(args) == 1 and args[0] == ("mod", "operator"):
            import operator
            return [(st, ("tup", tuple(("c", x) for x in dir(operator))))]
        return [(st, ("top", "dir"))]

    def bi_id(self, st, args, kw, n, ctx):
        raise self.uns("id()", n, ctx)

    def bi_round(self, st, args, kw, n, ctx):
        if args[0][0] == "i":
            return [(st, args[0])]
        if args[0][0] == "c":
            if args[0][1] in (INF, -INF):
                return [(st, Exc("OverflowError", n, ctx.func))]
        st.inexact("round")
        return [(st, st.new_int())]

    def bi_abs(self, st, args, kw, n, ctx):
        v = args[0]
        if v[0] == "i":
            return [(s, v if b else ("i", -v[1])) for s, b in self.cmp_ge(st, v[1])]
        return [(st, TOP)]

    def bi_sum(self, st, args, kw, n, ctx):
        v = args[0]
        if v[0] == "p" and st.objs.get(v) is not None and st.objs[v].cls == "list":
            w = st.objs[v].a["w"][1]
            if all(i[0] == "E" and i[1][0] in ("i", "c") for i in w):
                t = Lin(0)
                for i in w:
                    x = i[1]
                    t = t + (x[1] if x[0] == "i" else Lin(int(x[1])))
                return [(st, ("i", t))]
        raise self.uns("sum", n, ctx)

    def minmax(self, st, args, kw, n, ctx, ismax):
        if kw:
            raise self.uns("min/max keywords", n, ctx)
        if len(args) == 1:
            v = args[0]
            items = None
            if v[0] == "tup":
                items = list(v[1])
            elif v[0] == "p" and st.objs.get(v) is not None and st.objs[v].cls == "list":
                w = st.objs[v].a["w"][1]
                if all(i[0] == "E" for i in w):
                    items = [i[1] for i in w]
            if items is None:
                return self.minmax_word(st, v, ismax, n, ctx)
            if not items:
                return [(st, Exc("ValueError", n, ctx.func))]
            args = items
        cur = [(st, args[0])]
        base = len(st.temps)
        st.temps.extend(args)
        cur = [(st, base)]
        for i in range(1, len(args)):
            nxt = []
            for s, best in cur:
                a, b = s.temps[best], s.temps[base + i]
                # python: max keeps the first maximal
                rs = self.less(s, a, b, True, n, ctx, ("Lt", a, b)) if ismax else \
                    self.less(s, b, a, True, n, ctx, ("Lt", b, a))
                for s2, r in rs:
                    if isinstance(r, Exc):
                        nxt.append((s2, r))
                    else:
                        nxt.append((s2, base + i if r is True else best))
            done = [(s, x) for s, x in nxt if isinstance(x, Exc)]
            cur = [(s, x) for s, x in nxt if not isinstance(x, Exc)]
            if done:
                raise self.uns("min/max of incomparable values", n, ctx)
        out = []
        for s, best in cur:
            v = s.temps[best]
            del s.temps[base:]
            out.append((s, v))
        return out

    def minmax_word(self, st, v, ismax, n, ctx):
        raise self.uns("min/max of a sequence", n, ctx)

    def bi_max(self, st, args, kw, n, ctx):
        return self.minmax(st, args, kw, n, ctx, True)

    def bi_min(self, st, args, kw, n, ctx):
        return self.minmax(st, args, kw, n, ctx, False)

    def bi_list(self, st, args, kw, n, ctx):
        if not args:
            return [(st, self.new_list(st, ()))]
        v = args[0]
        if v[0] == "p" and st.objs.get(v) is not None and st.objs[v].cls == "list":
            return [(st, self.new_list(st, st.objs[v].a["w"][1]))]
        if v[0] == "tup":
            return [(st, self.new_list(st, tuple(("E", x) for x in v[1])))]
        # consume any other iterable
        name = f"$l{n.lineno}_{n.col_offset}"
        st.frames[ctx.depth][name] = self.new_list(st, ())
        tgt = f"$lt{n.lineno}_{n.col_offset}"

        def body(x):
            val = x.frames[ctx.depth].pop(tgt)
            lp = x.frames[ctx.depth][name]
            x.objs[lp].a["w"] = ("w", x.objs[lp].a["w"][1] + (("E", val),))
            return [(x, None)]
        out = []
        for s, sig in self.run_for(st, ctx, v, ast.Name(id=tgt, ctx=ast.Store()), body, n, name):
            lp = s.frames[ctx.depth].pop(name)
            if sig is None:
                out.append((s, lp))
            elif sig[0] == "raise":
                out.append((s, sig[1]))
            else:
                raise self.uns("list()", n, ctx)
        return out

    def bi_tuple(self, st, args, kw, n, ctx):
        return self.bi_list(st, args, kw, n, ctx) if args else [(st, ("tup", ()))]

    def bi_set(self, st, args, kw, n, ctx):
        if args and args[0][0] == "range":
            return [(st, args[0])]
        raise self.uns("set()", n, ctx)

    def bi_reversed(self, st, args, kw, n, ctx):
        from .state import rev_word
        v = args[0]
        if v[0] == "p" and st.objs.get(v) is not None and st.objs[v].cls == "list":
            return [(st, self.new_list(st, rev_word(st.objs[v].a["w"][1])))]
        if v[0] == "tup":
            return [(st, ("tup", tuple(reversed(v[1]))))]
        raise self.uns("reversed", n, ctx)

    def bi_any(self, st, args, kw, n, ctx):
        raise self.uns("any", n, ctx)

    def bi_all(self, st, args, kw, n, ctx):
        raise self.uns("all", n, ctx)

    # ---- python list methods
    def list_method(self, st, name, lp, args, kw, n, ctx):
        o = st.objs[lp]
        if o.cls != "list":
            return self.native_method(st, name, lp, args, kw, n, ctx)
        w = o.a["w"][1]
        if name == "append":
            o.a["w"] = ("w", w + (("E", args[0]),))
            return [(st, NONE)]
        if name == "copy":
            return [(st, self.new_list(st, w))]
        if name == "clear":
            o.a["w"] = ("w", ())
            return [(st, NONE)]
        if name == "extend":
            v = args[0]
            if v[0] == "p" and st.objs.get(v) is not None and st.objs[v].cls == "list":
                o.a["w"] = ("w", w + st.objs[v].a["w"][1])
                return [(st, NONE)]
            if v[0] == "tup":
                o.a["w"] = ("w", w + tuple(("E", x) for x in v[1]))
                return [(st, NONE)]
            raise self.uns("list.extend of a non-list", n, ctx)
        if name == "pop":
            idx = args[0][1] if args else Lin(-1)
            out = []
            for s, pos in self.list_index(st, lp, idx):
                if pos is None:
                    out.append((s, Exc("IndexError", n, ctx.func)))
                    continue
                w2 = s.objs[lp].a["w"][1]
                v = w2[pos][1]
                s.objs[lp].a["w"] = ("w", w2[:pos] + w2[pos + 1:])
                out.append((s, v))
            return out
        if name == "insert":
            out = []
            st.temps.append(args[1])
            for s, c in self.cut(st, lp, args[0]):
                v = s.temps.pop()
                w2 = s.objs[lp].a["w"][1]
                off = Lin(0)
                pos = None
                for i in range(len(w2) + 1):
                    if s.num.entails_eq(off - c):
                        pos = i
                        break
                    if i < len(w2):
                        off = off + s.wlen((w2[i],))
                if pos is None:
                    raise self.uns("list.insert position", n, ctx)
                s.objs[lp].a["w"] = ("w", w2[:pos] + (("E", v),) + w2[pos:])
                out.append((s, NONE))
            return out
        if name == "index" and len(args) == 1:
            return self.list_find(st, lp, args[0], n, ctx)
        if name == "remove" and all(it[0] == "E" for it in w):
            out = []
            for s, pos in self.find_in(st, lp, args[0], n, ctx):
                if pos is not None:
                    w2 = s.objs[lp].a["w"][1]
                    s.objs[lp].a["w"] = ("w", w2[:pos] + w2[pos + 1:])
                out.append((s, NONE if pos is not None else Exc("ValueError", n, ctx.func)))
            return out
        if name == "reverse":
            from .state import rev_word
            o.a["w"] = ("w", rev_word(w))
            return [(st, NONE)]
        if name == "count":
            if args[0] in st.meas:
                c = st.wcnt(w, args[0])
                if c is not None:
                    return [(st, ("i", c))]
        if not hasattr(list, name):
            return [(st, Exc("AttributeError", n, ctx.func))]
        raise self.uns(f"list.{name}", n, ctx)

    def native_method(self, st, name, lp, args, kw, n, ctx):
        raise self.uns(f"{st.objs[lp].cls}.{name}", n, ctx)

    def list_find(self, st, lp, v, n, ctx):
        if not all(it[0] == "E" for it in st.objs[lp].a["w"][1]):
            raise self.uns("list.index", n, ctx)
        return [(s, Exc("ValueError", n, ctx.func) if pos is None else I(pos))
                for s, pos in self.find_in(st, lp, v, n, ctx)]

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in cur:
                old = self.cur[ctx.depth] if ctx.depth < len(self.cur) else None
                while len(self.cur) <= ctx.depth:
                    self.cur.append(None)
                self.cur[ctx.depth] = (ctx.func, s)
                try:
                    res = self.stmt(s, x, ctx)
                finally:
                    self.cur[ctx.depth] = old
                for y, sig in res:
                    if sig is None:
                        nxt.append(y)
                    else:
                        out.append((y, sig))
            cur = self.dedupe(nxt, s, ctx)
            if len(cur) > 400 and not (self.peel and len(cur) < 5000 and (self.inline or trees.present(cur[0], self.specs))):
                raise Budget("too many disjuncts", s, ctx.func)
            if not cur:
                break
        return out + [(x, None) for x in cur]

    def dedupe(self, states, s, ctx):
        return states

    def stmt(self, s, st, ctx):
        self.tick(s, ctx.func)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise self.uns(f"statement {type(s).__name__}", s, ctx)
        return m(s, st, ctx)

    def st_Pass(self, s, st, ctx):
        return [(st, None)]

    def st_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        s.value._void = True
        return [(x, ("raise", v) if isinstance(v, Exc) else None) for x, v in self.ev(s.value, st, ctx)]

    def st_Assign(self, s, st, ctx):
        out = []
        # targets that are attribute/subscript are evaluated after the value (python order)
        for x, v in self.ev(s.value, st, ctx):
            if isinstance(v, Exc):
                out.append((x, ("raise", v)))
                continue
            x.temps.append(v)
            slot = len(x.temps) - 1
            cur = [(x, None)]
            for t in s.targets:
                nxt = []
                for y, sig in cur:
                    if sig is not None:
                        nxt.append((y, sig))
                    else:
                        nxt.extend(self.assign(t, y, y.temps[slot], ctx))
                cur = nxt
            for y, sig in cur:
                del y.temps[slot:]
                out.append((y, sig))
        return out

    def st_AnnAssign(self, s, st, ctx):
        if s.value is None:
            return [(st, None)]
        return self.st_Assign(ast.copy_location(ast.Assign(targets=[s.target], value=s.value), s), st, ctx)

    def assign(self, t, st, v, ctx):
        """list of (st, sig)"""
        if isinstance(t, ast.Name):
            st.frames[self.target_depth(st, t.id, ctx, t)][t.id] = v
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == "p" and st.objs.get(v) is not None and st.objs[v].cls == "list":
                w = st.objs[v].a["w"][1]
                if all(i[0] == "E" for i in w):
                    v = ("tup", tuple(i[1] for i in w))
            if v[0] == "top":
                v = ("tup", tuple(TOP for _ in t.elts))
            if v[0] != "tup":
                if v[0] == "none":
                    return [(st, ("raise", Exc("TypeError", t, ctx.func)))]
                raise self.uns("unpacking", t, ctx)
            if len(v[1]) != len(t.elts):
                return [(st, ("raise", Exc("ValueError", t, ctx.func)))]
            st.temps.append(v)
            slot = len(st.temps) - 1
            cur = [(st, None)]
            for i, e in enumerate(t.elts):
                nxt = []
                for y, sig in cur:
                    if sig is not None:
                        nxt.append((y, sig))
                    else:
                        nxt.extend(self.assign(e, y, y.temps[slot][1][i], ctx))
                cur = nxt
            for y, sig in cur:
                del y.temps[slot:]
            return cur
        if isinstance(t, ast.Attribute):
            st.temps.append(v)
            slot = len(st.temps) - 1
            out = []
            for x, b in self.ev(t.value, st, ctx):
                val = x.temps[slot]
                del x.temps[slot:]
                if isinstance(b, Exc):
                    out.append((x, ("raise", b)))
                    continue
                for y, r in self.setattr(x, b, t.attr, val, t, ctx):
                    out.append((y, ("raise", r) if isinstance(r, Exc) else None))
            return out
        if isinstance(t, ast.Subscript):
            st.temps.append(v)
            slot = len(st.temps) - 1
            out = []
            for x, vals in self.evs([t.value, t.slice], st, ctx):
                val = x.temps[slot]
                del x.temps[slot:]
                if isinstance(vals, Exc):
                    out.append((x, ("raise", vals)))
                    continue
                for y, r in self.setitem(x, vals[0], vals[1], val, t, ctx):
                    out.append((y, ("raise", r) if isinstance(r, Exc) else None))
            return out
        raise self.uns("assignment target", t, ctx)

    def setitem(self, st, b, i, v, n, ctx):
        if b[0] == "p":
            o = st.objs.get(b)
            if o is None:
                raise self.uns("store into an untracked reference", n, ctx)
            if o.cls == "list":
                if i[0] != "i":
                    raise self.uns("list slice store", n, ctx)
                st.temps.append(v)
                out = []
                for s, pos in self.list_index(st, b, i[1]):
                    val = s.temps.pop()
                    if pos is None:
                        out.append((s, Exc("IndexError", n, ctx.func)))
                        continue
                    w = s.objs[b].a["w"][1]
                    s.objs[b].a["w"] = ("w", w[:pos] + (("E", val),) + w[pos + 1:])
                    out.append((s, None))
                return out
            if isinstance(o.cls, str):
                return self.native_setitem(st, b, i, v, n, ctx)
            e, _ = o.cls.lookup("__setitem__")
            if e is not None:
                return [(s, r if isinstance(r, Exc) else None)
                        for s, r in self.call_func(e[1], [b, i, v], {}, st, n)]
        raise self.uns("subscript store", n, ctx)

    def native_setitem(self, st, b, i, v, n, ctx):
        raise self.uns("store into a native object", n, ctx)

    def st_AugAssign(self, s, st, ctx):
        op = type(s.op).__name__
        out = []
        if isinstance(s.target, ast.Name):
            for x, vals in self.evs([ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), s.value], st, ctx):
                if isinstance(vals, Exc):
                    out.append((x, ("raise", vals)))
                    continue
                for y, r in self.aug(x, op, vals[0], vals[1], s, ctx):
                    if isinstance(r, Exc):
                        out.append((y, ("raise", r)))
                    else:
                        y.frames[self.target_depth(y, s.target.id, ctx, s)][s.target.id] = r
                        out.append((y, None))
            return out
        if isinstance(s.target, ast.Attribute):
            for x, b in self.ev(s.target.value, st, ctx):
                if isinstance(b, Exc):
                    out.append((x, ("raise", b)))
                    continue
                x.temps.append(b)
                slot = len(x.temps) - 1
                for y, old in self.getattr(x, b, s.target.attr, s, ctx):
                    if isinstance(old, Exc):
                        del y.temps[slot:]
                        out.append((y, ("raise", old)))
                        continue
                    y.temps.append(old)
                    for z, v in self.ev(s.value, y, ctx):
                        if isinstance(v, Exc):
                            del z.temps[slot:]
                            out.append((z, ("raise", v)))
                            continue
                        o2 = z.temps.pop()
                        for w, r in self.aug(z, op, o2, v, s, ctx):
                            bb = w.temps[slot]
                            del w.temps[slot:]
                            if isinstance(r, Exc):
                                out.append((w, ("raise", r)))
                                continue
                            for q, e in self.setattr(w, bb, s.target.attr, r, s, ctx):
                                out.append((q, ("raise", e) if isinstance(e, Exc) else None))
            return out
        if isinstance(s.target, ast.Subscript):
            for x, vals in self.evs([s.target.value, s.target.slice, s.value], st, ctx):
                if isinstance(vals, Exc):
                    out.append((x, ("raise", vals)))
                    continue
                x.temps.extend(vals)
                slot = len(x.temps) - 3
                for y, old in self.getitem(x, vals[0], vals[1], s, ctx):
                    if isinstance(old, Exc):
                        del y.temps[slot:]
                        out.append((y, ("raise", old)))
                        continue
                    b, i, v = y.temps[slot:slot + 3]
                    for z, r in self.aug(y, op, old, v, s, ctx):
                        b, i, v = z.temps[slot:slot + 3]
                        del z.temps[slot:]
                        for q, e in self.setitem(z, b, i, r, s, ctx):
                            out.append((q, ("raise", e) if isinstance(e, Exc) else None))
            return out
        raise self.uns("augmented assignment", s, ctx)

    def aug(self, st, op, a, b, s, ctx):
        if op == "Add" and a[0] == "p" and st.objs.get(a) is not None and st.objs[a].cls == "list":
            return [(x, r if isinstance(r, Exc) else a) for x, r in
                    self.list_method(st, "extend", a, [b], {}, s, ctx)]
        return self.binop(st, op, a, b, s, ctx)

    def st_If(self, s, st, ctx):
        out = []
        for x, b in self.test(s.test, st, ctx):
            if isinstance(b, Exc):
                out.append((x, ("raise", b)))
                continue
            self.mark(x, s, b, ctx)
            body = s.body if b else s.orelse
            if body:
                out.extend(self.block(body, x, ctx))
            else:
                out.append((x, None))
        return out

    def mark(self, st, node, b, ctx):
        st.trace = (f"{ctx.func.file}:{node.lineno}{'+' if b else '-'}", st.trace)

    def st_Assert(self, s, st, ctx):
        out = []
        for x, v in self.ev(s.test, st, ctx):
            if isinstance(v, Exc):
                out.append((x, ("raise", v)))
                continue
            if v[0] == "top":
                out.append((x, None))
                continue
            for y, b in self.truth(x, v, s.test, ctx):
                if isinstance(b, Exc):
                    out.append((y, ("raise", b)))
                elif b:
                    out.append((y, None))
                elif y.exact or st.exact is False:
                    out.append((y, ("raise", Exc("AssertionError", s, ctx.func))))
                elif not y.loss.startswith("comparison with an unknown"):
                    out.append((y, ("raise", Exc("AssertionError", s, ctx.func))))
        return out

    def st_Return(self, s, st, ctx):
        if s.value is None:
            st.frames[ctx.depth]["$ret"] = NONE
            return [(st, ("return",))]
        out = []
        if ctx.depth in self.voids:
            if isinstance(s.value, (ast.Name, ast.Constant)):
                st.frames[ctx.depth]["$ret"] = NONE
                return [(st, ("return",))]
            if isinstance(s.value, ast.Call):
                s.value._ret = True
        res = self.ev_Call(s.value, st, ctx, tail=True) if isinstance(s.value, ast.Call) and ctx.tail else \
            self.ev(s.value, st, ctx)
        for x, v in res:
            if isinstance(v, Exc):
                out.append((x, ("raise", v)))
            elif v == ("$tailcall",):
                out.append((x, ("tail",)))
            else:
                x.frames[ctx.depth]["$ret"] = v
                out.append((x, ("return",)))
        return out

    def st_Raise(self, s, st, ctx):
        if s.exc is None:
            if self.excstack:
                return [(st, ("raise", self.excstack[-1]))]
            raise self.uns("bare raise", s, ctx)
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            if e.id in st.frames[ctx.depth]:
                v = st.frames[ctx.depth][e.id]
                if v[0] == "exc":
                    return [(st, ("raise", Exc(v[1], s, ctx.func)))]
            return [(st, ("raise", Exc(e.id, s, ctx.func)))]
        raise self.uns("raise", s, ctx)

    def st_Break(self, s, st, ctx):
        return [(st, ("break",))]

    def st_Continue(self, s, st, ctx):
        return [(st, ("continue",))]

    def st_Delete(self, s, st, ctx):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for x, sig in cur:
                if sig is not None:
                    nxt.append((x, sig))
                    continue
                if isinstance(t, ast.Name):
                    x.frames[ctx.depth].pop(t.id, None)
                    nxt.append((x, None))
                elif isinstance(t, ast.Attribute):
                    for y, b in self.ev(t.value, x, ctx):
                        if isinstance(b, Exc):
                            nxt.append((y, ("raise", b)))
                            continue
                        y.temps.append(b)
                        for z in materialise(y, len(y.temps) - 1):
                            w = z.temps.pop()
                            if w == NONE or w not in z.objs:
                                nxt.append((z, ("raise", Exc("AttributeError", s, ctx.func))))
                            else:
                                z.objs[w].a.pop(mangle(t.attr, ctx.func.cls), None)
                                nxt.append((z, None))
                elif isinstance(t, ast.Subscript):
                    for y, vals in self.evs([t.value, t.slice], x, ctx):
                        if isinstance(vals, Exc):
                            nxt.append((y, ("raise", vals)))
                            continue
                        for z, r in self.delitem(y, vals[0], vals[1], t, ctx):
                            nxt.append((z, ("raise", r) if isinstance(r, Exc) else None))
                else:
                    raise self.uns("del", s, ctx)
            cur = nxt
        return cur

    def delitem(self, st, b, i, n, ctx):
        if b[0] == "p":
            o = st.objs.get(b)
            if o is not None and o.cls == "list" and i[0] == "i":
                return [(s, r if isinstance(r, Exc) else None)
                        for s, r in self.list_method(st, "pop", b, [i], {}, n, ctx)]
            if o is not None and not isinstance(o.cls, str):
                e, _ = o.cls.lookup("__delitem__")
                if e is not None:
                    return [(s, r if isinstance(r, Exc) else None)
                            for s, r in self.call_func(e[1], [b, i], {}, st, n)]
            if o is not None and isinstance(o.cls, str):
                return self.native_delitem(st, b, i, n, ctx)
        raise self.uns("del subscript", n, ctx)

    def native_delitem(self, st, b, i, n, ctx):
        raise self.uns("del on a native object", n, ctx)

    def st_Try(self, s, st, ctx):
        outs = []
        for x, sig in self.block(s.body, st, ctx):
            if sig is not None and sig[0] == "raise" and not isinstance(sig[1], Unwind):
                h = self.find_handler(s.handlers, sig[1])
                if h is not None:
                    if h.name:
                        x.frames[ctx.depth][h.name] = ("exc", sig[1].name)
                    self.excstack.append(sig[1])
                    try:
                        outs.extend(self.block(h.body, x, ctx))
                    finally:
                        self.excstack.pop()
                    continue
                outs.append((x, sig))
            elif sig is None and s.orelse:
                outs.extend(self.block(s.orelse, x, ctx))
            else:
                outs.append((x, sig))
        if not s.finalbody:
            return outs
        res = []
        for x, sig in outs:
            keep = x.frames[ctx.depth].get("$ret")
            for y, sig2 in self.block(s.finalbody, x, ctx):
                if sig2 is None:
                    res.append((y, sig))
                else:
                    res.append((y, sig2))
        return res

    def find_handler(self, handlers, exc):
        ec = getattr(builtins, exc.name, None)
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                nm = t.id if isinstance(t, ast.Name) else getattr(t, "attr", None)
                hc = getattr(builtins, nm, None) if nm else None
                if nm == exc.name or (isinstance(ec, type) and isinstance(hc, type) and issubclass(ec, hc)):
                    return h
        return None

    def st_FunctionDef(self, s, st, ctx):
        if s.decorator_list:
            raise self.uns("decorated nested function", s, ctx)
        out = []
        for x, v in self.closure(s, st, ctx):
            if isinstance(v, Exc):
                out.append((x, ("raise", v)))
            else:
                x.frames[self.target_depth(x, s.name, ctx, s)][s.name] = v
                out.append((x, None))
        return out

    def st_Nonlocal(self, s, st, ctx):
        return [(st, None)]

    def st_Import(self, s, st, ctx):
        for a in s.names:
            st.frames[ctx.depth][a.asname or a.name.split(".")[0]] = ("mod", a.name)
        return [(st, None)]

    def st_ImportFrom(self, s, st, ctx):
        for a in s.names:
            m = self.prog.modules.get(s.module)
            r = self.prog.resolve(m, a.name) if m else None
            st.frames[ctx.depth][a.asname or a.name] = self.env_value(r, m, st, ctx) if r else ("ext", s.module, a.name)
        return [(st, None)]

    def st_With(self, s, st, ctx):
        for it in s.items:
            src = ast.unparse(it.context_expr)
            if "catch_warnings" not in src:
                raise self.uns("with statement", s, ctx)
        return self.block(s.body, st, ctx)

    # ------------------------------------------------------------ loops
    def st_While(self, s, st, ctx):
        self.loops.add((ctx.func, s.lineno))

        def step(x):
            nexts, outs = [], []
            for y, b in self.test(s.test, x, ctx):
                if isinstance(b, Exc):
                    outs.append((y, ("raise", b)))
                    continue
                self.mark(y, s, b, ctx)
                if not b:
                    if s.orelse:
                        outs.extend(self.block(s.orelse, y, ctx))
                    else:
                        outs.append((y, None))
                    continue
                for z, sig in self.block(s.body, y, ctx):
                    if sig is None or sig == ("continue",):
                        nexts.append(z)
                    elif sig == ("break",):
                        outs.append((z, None))
                    else:
                        outs.append((z, sig))
            return nexts, outs
        return self.fixpoint([st], step, s, ctx)

    def st_For(self, s, st, ctx):
        self.loops.add((ctx.func, s.lineno))
        out = []
        for x, itv in self.ev(s.iter, st, ctx):
            if isinstance(itv, Exc):
                out.append((x, ("raise", itv)))
                continue

            def body(y):
                return self.block(s.body, y, ctx)
            self.closures += 1
            try:
                res = self.run_for(x, ctx, itv, s.target, body, s, f"{s.lineno}_{s.col_offset}")
            finally:
                self.closures -= 1
            for y, sig in res:
                if sig is None and s.orelse:
                    out.extend(self.block(s.orelse, y, ctx))
                elif sig == ("break",):
                    out.append((y, None))
                else:
                    out.append((y, sig))
        return out

    def run_for(self, st, ctx, itv, target, body, node, uid):
        """Iterate; returns (st, sig) with sig None on exhaustion, ('break',) on break."""
        t = itv[0]
        d = ctx.depth
        it = f"$it{uid}"
        if t == "p":
            o = st.objs.get(itv)
            if o is None:
                raise self.uns("iteration over an untracked reference", node, ctx)
            if o.cls == "list":
                itv = o.a["w"]
                st.frames[d][it + "src"] = ("tup", (("p", itv) if False else NONE,))
                t = "w"
            elif isinstance(o.cls, str):
                return self.native_for(st, ctx, itv, target, body, node, uid)
            else:
                e, _ = o.cls.lookup("__iter__")
                if e is None:
                    return [(st, ("raise", Exc("TypeError", node, ctx.func)))]
                out = []
                for s, r in self.call_func(e[1], [itv], {}, st, node):
                    if isinstance(r, Exc):
                        out.append((s, ("raise", r)))
                    else:
                        out.extend(self.run_for(s, ctx, r, target, body, node, uid))
                return out
        if t == "tup":
            itv = ("w", tuple(("E", x) for x in itv[1]))
            t = "w"
        if t == "gen":
            def handler(s, v):
                base = len(s.frames)
                out = []
                for s2, sig in self.assign(target, s, v, ctx):
                    if sig is not None:
                        out.append((s2, sig))
                    else:
                        out.extend(body(s2))
                return out
            res = []
            for s, sig in self.run_gen(st, ctx, itv[1], itv[2], handler, node):
                if sig is None:
                    res.append((s, None))
                elif sig[0] == "unwound":
                    res.append((s, sig[1]))
                else:
                    res.append((s, sig))
            return res
        if t == "w":
            st.frames[d].pop(it + "src", None)
            w = itv[1]
            if len(w) <= 4 and all(i[0] == "E" for i in w):
                # unroll a literal sequence
                outs = []
                st.frames[d][it] = ("tup", tuple(i[1] for i in w))
                cur = [st]
                for k in range(len(w)):
                    nxt = []
                    for s in cur:
                        v = s.frames[d][it][1][k]
                        for s2, sig in self.assign(target, s, v, ctx):
                            if sig is not None:
                                outs.append((s2, sig))
                                continue
                            for s3, sg in body(s2):
                                if sg is None or sg == ("continue",):
                                    nxt.append(s3)
                                else:
                                    s3.frames[d].pop(it, None)
                                    outs.append((s3, sg))
                    cur = nxt
                for s in cur:
                    s.frames[d].pop(it, None)
                    outs.append((s, None))
                return outs
            st.frames[d][it] = itv

            def step(s):
                nexts, outs = [], []
                work = [s]
                while work:
                    x = work.pop()
                    w = x.frames[d][it][1]
                    if not w:
                        x.frames[d].pop(it)
                        outs.append((x, None))
                        continue
                    if w[0][0] != "E":
                        if w[0][0] == "F":
                            raise self.uns("iteration over a filtered sequence", node, ctx)
                        work.extend(x.split_svar(w[0][1], "front" if w[0][0] == "S" else "back"))
                        continue
                    v = w[0][1]
                    x.frames[d][it] = ("w", w[1:])
                    for s2, sig in self.assign(target, x, v, ctx):
                        if sig is not None:
                            outs.append((s2, sig))
                            continue
                        for s3, sg in body(s2):
                            if sg is None or sg == ("continue",):
                                nexts.append(s3)
                            else:
                                s3.frames[d].pop(it, None)
                                outs.append((s3, sg))
                return nexts, outs
            return self.fixpoint([st], step, node, ctx)
        if t == "range":
            stp = st.num.norm(itv[3][1])
            if not stp.is_const() or stp.c == 0:
                raise self.uns("range step", node, ctx)
            k = stp.c
            st.frames[d][it] = itv[1]
            st.frames[d][it + "hi"] = itv[2]

            def step(s):
                nexts, outs = [], []
                i, hi = s.frames[d][it][1], s.frames[d][it + "hi"][1]
                cond = hi - i - 1 if k > 0 else i - hi - 1
                for x, b in self.cmp_ge(s, cond):
                    if not b:
                        x.frames[d].pop(it)
                        x.frames[d].pop(it + "hi")
                        outs.append((x, None))
                        continue
                    x.frames[d][it] = ("i", i + k)
                    for s2, sig in self.assign(target, x, ("i", i), ctx):
                        if sig is not None:
                            outs.append((s2, sig))
                            continue
                        for s3, sg in body(s2):
                            if sg is None or sg == ("continue",):
                                nexts.append(s3)
                            else:
                                s3.frames[d].pop(it, None)
                                s3.frames[d].pop(it + "hi", None)
                                outs.append((s3, sg))
                return nexts, outs
            return self.fixpoint([st], step, node, ctx)
        if t == "enumerate":
            cn = f"$en{uid}"
            vn = f"$ev{uid}"
            st.frames[d][cn] = itv[2]

            def body2(s):
                v = s.frames[d].pop(vn)
                c = s.frames[d][cn]
                s.frames[d][cn] = ("i", c[1] + 1)
                out = []
                for s2, sig in self.assign(target, s, ("tup", (c, v)), ctx):
                    if sig is not None:
                        out.append((s2, sig))
                    else:
                        out.extend(body(s2))
                return out
            res = self.run_for(st, ctx, itv[1], ast.Name(id=vn, ctx=ast.Store()), body2, node, uid + "e")
            for s, sig in res:
                s.frames[d].pop(cn, None)
            return res
        if t == "none":
            return [(st, ("raise", Exc("TypeError", node, ctx.func)))]
        if t in ("e", "i"):
            return [(st, ("raise", Exc("TypeError", node, ctx.func)))]
        raise self.uns(f"iteration over {t}", node, ctx)

    def native_for(self, st, ctx, itv, target, body, node, uid):
        raise self.uns("iteration over a native object", node, ctx)

    # ------------------------------------------------------------ fixpoint
    def prune(self, st, node, ctx, live):
        for i, f in enumerate(st.frames):
            if "$clo" in f:
                # what closures use stays
                continue
            c = self.cur[i] if i < len(self.cur) else None
            if ctx is None:
                if c is None or c[1] is None or id(c[1]) not in c[0].live_out:
                    continue
                fn, stm = c
                lo, us = fn.flow(i in self.voids)
                keep = lo[id(stm)] | us.get(id(stm), set())
                nxt = self.callnode.get(i + 1) if i + 1 < len(st.frames) else node
                if len(st.temps) == 1 and nxt is not None and nxt is getattr(stm, "value", self) and \
                        isinstance(stm, (ast.Expr, ast.Return, ast.Assign)):
                    keep = lo[id(stm)]
                    if isinstance(stm, ast.Assign):
                        keep = keep.union(*[names_used(t) for t in stm.targets])
                for k in list(f):
                    if k not in keep and not k.startswith("$"):
                        del f[k]
                continue
            if i == ctx.depth and live is not None:
                keep = live
            elif i == ctx.depth and id(node) in ctx.func.live_out:
                lo, us = ctx.func.flow(i in self.voids)
                keep = lo[id(node)] | us.get(id(node), set())
            else:
                if c is None or c[1] is None:
                    continue
                fn, stm = c
                if id(stm) not in fn.live_out:
                    continue
                lo, us = fn.flow(i in self.voids)
                if i + 1 < len(st.frames) and not st.temps and self.callnode.get(i + 1) is getattr(stm, "value", self) \
                        and isinstance(stm, (ast.Expr, ast.Return, ast.Assign)):
                    # the statement's only call is under way: its arguments are evaluated
                    keep = lo[id(stm)]
                    if isinstance(stm, ast.Assign):
                        keep = keep.union(*[names_used(t) for t in stm.targets])
                else:
                    keep = lo[id(stm)] | us.get(id(stm), set())
            for k in list(f):
                if k not in keep and not k.startswith("$"):
                    del f[k]

    def abstract(self, st, node, ctx, live=None):
        """Generalise a state at a loop head.  Returns (key, canonical state) or None."""
        self.prune(st, node, ctx, live)
        shapes.gc(st)
        if not shapes.drop_empty_svars(st):
            return None
        if not st.num.sat():
            return None
        trees.prepare(st, self)
        shapes.to_segs(st, self.specs)
        shapes.merge_segs(st)
        if not self.peel and trees.fold(st, self):
            # what is summarised here is no longer a particular tree
            st.inexact("subtrees summarised at a loop head")
        shapes.gc(st)
        shapes.merge_words(st)
        shapes.gc(st)
        if self.coarse(st):
            trees.pad(st)
            trees.spell_length(st)
            coarsen(st.num)
            st.iters = tuple(Lin(0) for _ in st.iters)
            key, c = shapes.canonicalise(st)
            return key + (trees.disc(c, self.specs),), c
        return shapes.canonicalise(st)

    def point(self, st, node):
        """Identity of a program point (with the calls under way), or None when states may not be shared there.

        The continuation of a state is determined by this point and the state
        itself, so what was explored for one state need not be explored again
        for a state it covers."""
        if self.closures or self.handlers or not self.coarse(st):
            return None
        d = len(st.frames)
        return (id(node), len(st.temps), tuple((id(c[0]), id(c[1])) if c else None for c in self.cur[:d]),
                tuple(id(self.callnode.get(i)) for i in range(d)))

    def coarse(self, st):
        return not self.peel and trees.present(st, self.specs)

    def merge_returns(self, res, node):
        """Proof pass over trees: exits of a call with the same shape become one state."""
        keep, touched = [], {}
        local = {}
        for s, v in res:
            if isinstance(v, Exc) or not self.coarse(s):
                keep.append((s, v))
                continue
            s.temps.append(v)
            sig = self.point(s, node)
            r = self.abstract(s, node, None)
            if r is None:
                continue
            key, c = r
            groups = local if sig is None else self.shared.setdefault(("ret", sig), {})
            g = groups.get(key)
            if g is None:
                g = groups[key] = [c, 0]
            else:
                old = g[0]
                if c.num.entails(old.num):
                    continue
                vs = old.num.vars() | c.num.vars()
                j = join(old.num, c.num, vs, coarse=True)
                g[1] += 1
                if g[1] > 6:
                    j = widen(old.num, j)
                old.num = j
                old.inexact("exits of a call joined")
            touched[key] = g
        for key, g in touched.items():
            c = g[0].copy()
            keep.append((c, c.temps.pop()))
        return keep

    def fixpoint(self, inits, step, node, ctx, live=None):
        """Least fixpoint over the abstract states reaching a loop head.

        States with the same shape (key) share one entry whose numeric part is
        joined and widened.  With self.peel = K the first K iterations keep
        their own entries (trace partitioning).  An entry is exact when its
        numeric part is covered by the states that actually arrived there and
        every entry they came from is exact."""
        sig = self.point(inits[0], node) if live is None or isinstance(node, ast.FunctionDef) else None
        entries = self.shared.setdefault(sig, {}) if sig is not None else {}
        before = bool(entries)
        touched = {}
        work = deque()
        for s in inits:
            s.iters = s.iters + (Lin(0),)
            work.append((s, None, 0))
        rounds = 0
        while work:
            self.tick(node, ctx.func)
            s, src, itn = work.popleft()
            apart = self.peel and trees.present(s, self.specs)
            if apart and itn > self.peel:
                self.dropped += 1
                continue        # witness search only: deeper iterations are left to the proof pass
            tr = s.trace
            r = self.abstract(s, node, ctx, live)
            if r is None:
                continue
            key, c = r
            if self.factjoin:
                key = (key[0],) + key[2:]
            level = min(itn, self.peel)
            key = (key, level)
            if level < self.peel or apart:
                n = 0
                while (key, n) in entries and not (c.num.entails(entries[key, n]["st"].num)):
                    n += 1
                key = (key, n)
            ent = entries.get(key)
            con = (c.num, src, c.exact, c.loss)
            if ent is None:
                ent = dict(st=c, contribs=[con], outs=[], n=0)
                entries[key] = ent
            else:
                old = ent["st"].num
                ent["contribs"].append(con)
                if self.factjoin:
                    grown = join_facts(ent["st"], c)
                    if not grown and c.num.entails(old):
                        continue
                elif c.num.entails(old):
                    continue
                vs = old.vars() | c.num.vars()
                j = join(old, c.num, vs, coarse=self.coarse(c))
                if ent["n"] >= 4:
                    j = widen(old, j)
                ent["n"] += 1
                if ent["n"] > 30:
                    raise Budget("no convergence", node, ctx.func)
                for v in sorted(vs):
                    if v.startswith("len:") or v.startswith("cnt:"):
                        j.add_ge(V(v))
                        if v.startswith("cnt:"):
                            j.add_ge(V("len:" + v.split(":")[1]) - V(v))
                ent["st"].num = j
            rounds += 1
            if not apart and (rounds > (400 if sig is None else 2000) or len(entries) > (200 if sig is None else 800)):
                self.last_fix = (ctx.func, node, entries)
                raise Budget("fixpoint too large", node, ctx.func)
            x = ent["st"].copy()
            if not self.factjoin:
                x.exact, x.loss = True, ""
            # one more completed iteration
            x.trace = tr
            nexts, outs = step(x)
            ent["outs"] = outs
            touched[key] = True
            for z in nexts:
                z.iters = z.iters[:-1] + (z.iters[-1] + 1,)
                work.append((z, key, itn + 1))
        # exactness
        loss = {}
        for key, ent in (() if before else entries.items()):
            cs = [c for c, _, ex, _ in ent["contribs"] if ex]
            bad = [l for _, _, ex, l in ent["contribs"] if not ex]
            if len(ent["contribs"]) == 1 and not bad:
                continue
            uniq = []
            for c in cs:
                if not any(c.entails(u) for u in uniq):
                    uniq = [u for u in uniq if not u.entails(c)] + [c]
            if not covered(ent["st"].num, list(reversed(uniq)), 8):
                loss[key] = bad[0] if bad else "widening at a loop head"
        changed = not before
        while changed:
            changed = False
            for key, ent in entries.items():
                if key in loss:
                    continue
                if any(src in loss for _, src, _, _ in ent["contribs"]):
                    good = [c for c, src, ex, _ in ent["contribs"] if ex and src not in loss]
                    if not covered(ent["st"].num, list(reversed(good)), 6):
                        loss[key] = loss[next(src for _, src, _, _ in ent["contribs"] if src in loss)]
                        changed = True
        self.last_fix = (ctx.func, node, entries)
        res = []
        for key in touched:
            for s, sig in entries[key]["outs"]:
                if before:
                    s.inexact("loop states shared between paths")
                elif key in loss:
                    s.inexact(loss[key])
                s.iters = s.iters[:-1]
                res.append((s, sig))
        return res
