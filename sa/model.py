"""Source model: parses every module of the package under analysis from the
current working tree, resolves classes, methods, MROs and imports, and computes
per-function liveness.  Nothing is imported or executed."""
import ast
import os
import copy

REPO = os.environ.get("SA_REPO", "/repo")


class Func:
    def __init__(self, node, module, cls, kind="fn"):
        self.node = node
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.module = module
        self.cls = cls
        self.kind = kind             # fn | static | classm | prop
        self.is_gen = _is_gen(node)
        self.file = module.rel
        self.parent = None           # enclosing function of a closure
        self.nonlocals = frozenset()
        self._live = None
        self.live_in = {}
        if not isinstance(node, ast.Lambda):
            node.body = normalise_body(node)
            self.live_out, self.used = liveness(node)
            self.locals = _locals(node)
        else:
            self.live_out, self.used = {}, {}
            self.locals = set()

    def flow(self, void):
        """(live_out, used); with `void` the value returned is not needed."""
        if not void:
            return self.live_out, self.used
        if self._live is None:
            self._live = liveness(self.node, True)
        return self._live

    def __repr__(self):
        return f"{self.cls.name + '.' if self.cls else ''}{self.name}"

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return f"{self.file}:{n.lineno} in {self!r}"

    def nested(self, node):
        """Func of a function or lambda written inside this one."""
        f = getattr(node, "_func", None)
        if f is None:
            d = node
            if isinstance(node, ast.Lambda):
                d = ast.FunctionDef(name="<lambda>", args=node.args, body=[ast.Return(value=node.body)], decorator_list=[],
                                    returns=None, type_params=[])
                ast.copy_location(d, node)
                ast.copy_location(d.body[0], node.body)
            f = Func(d, self.module, self.cls)
            f.parent = self
            f.nonlocals = frozenset(x for s in ast.walk(d) if isinstance(s, ast.Nonlocal) for x in s.names)
            f.locals = f.locals - f.nonlocals
            node._func = f
        return f


class Class:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.bases = []          # Class or str (external)
        self.attrs = {}          # name -> ("fn", Func) | ("expr", ast)
        self.mro = None

    def __repr__(self):
        return f"<class {self.name}>"

    def lookup(self, name, after=None):
        """Find attribute along the MRO (optionally strictly after class `after`)."""
        skip = after is not None
        for c in self.mro:
            if skip:
                if c is after:
                    skip = False
                continue
            if isinstance(c, Class) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def is_sub(self, other):
        return any(c is other or (isinstance(other, str) and (c == other)) for c in self.mro)


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        self.src = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.src)
        self.env = {}


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _locals(node):
    s = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        s.add(x.arg)
    if a.vararg:
        s.add(a.vararg.arg)
    if a.kwarg:
        s.add(a.kwarg.arg)
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name)
            continue
        if isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return s


def _calls_name(node, name):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and (f.attr == name):
                return True
            if isinstance(f, ast.Name) and f.id == name:
                return True
    return False


def normalise_body(fn):
    body = [s for i, s in enumerate(fn.body)
            if not (i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not body:
        body = [ast.copy_location(ast.Pass(), fn)]
    if _calls_name(ast.Module(body=body, type_ignores=[]), fn.name):
        body = _sink(copy.deepcopy(body), fn.name)
    return body


def _jumps(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))


def _sink(body, name):
    """Sink a trailing `return x` into preceding branches so that recursive
    calls in tail position are syntactically visible (behaviour preserving)."""
    if len(body) >= 2 and isinstance(body[-1], ast.Return) and (
            body[-1].value is None or isinstance(body[-1].value, (ast.Name, ast.Constant))):
        ret, prev = body[-1], body[-2]
        if isinstance(prev, ast.If) and _calls_name(prev, name):
            for attr in ("body", "orelse"):
                br = getattr(prev, attr)
                if not _jumps(br):
                    br = br + [copy.deepcopy(ret)]
                setattr(prev, attr, _sink(br, name))
            return body[:-1]
        if (isinstance(prev, ast.Assign) and len(prev.targets) == 1
                and isinstance(prev.targets[0], ast.Name) and isinstance(ret.value, ast.Name)
                and prev.targets[0].id == ret.value.id and isinstance(prev.value, ast.Call)
                and _calls_name(prev.value, name)):
            return body[:-2] + [ast.copy_location(ast.Return(value=prev.value), prev)]
    elif body and isinstance(body[-1], ast.If):
        for attr in ("body", "orelse"):
            br = getattr(body[-1], attr)
            if br:
                setattr(body[-1], attr, _sink(br, name))
    elif body and isinstance(body[-1], ast.While):
        pass
    return body


# ---------------------------------------------------------------- liveness
def names_used(n):
    s = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            s.add(x.id)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            s.add(x.target.id)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super":
            s.add("self")
    return s


def names_def(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def liveness(fn, void=False):
    out = {}
    used = {}
    allnames = names_used(fn)
    first = fn.args.args[0].arg if fn.args.args else None
    has_super = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super"
                    for x in ast.walk(fn))

    def block(stmts, lo, brk, cont):
        for s in reversed(stmts):
            lo = stmt(s, lo, brk, cont)
        return lo

    def stmt(s, lo, brk, cont):
        out[id(s)] = out.get(id(s), frozenset()) | lo
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            u = names_used(s.value) if s.value is not None else set()
            d = set()
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                u |= names_used(t)
                d |= names_def(t)
            used[id(s)] = u
            return (lo - d) | u
        if isinstance(s, ast.AugAssign):
            u = names_used(s)
            used[id(s)] = u
            return lo | u
        if isinstance(s, ast.Return):
            u = set() if void and isinstance(s.value, (ast.Name, ast.Constant)) else names_used(s)
            used[id(s)] = u
            out[id(s)] = frozenset()
            return frozenset(u)
        if isinstance(s, ast.Raise):
            u = names_used(s)
            used[id(s)] = u
            return frozenset(u) | tryset[-1]
        if isinstance(s, ast.Break):
            used[id(s)] = set()
            return brk
        if isinstance(s, ast.Continue):
            used[id(s)] = set()
            return cont
        if isinstance(s, ast.If):
            b = block(s.body, lo, brk, cont) | block(s.orelse, lo, brk, cont)
            used[id(s)] = used.get(id(s), frozenset()) | names_used(s.test) | b
            return frozenset(names_used(s.test)) | b
        if isinstance(s, ast.While):
            u = frozenset(names_used(s.test))
            used[id(s)] = set(u)
            after = block(s.orelse, lo, brk, cont) if s.orelse else lo
            head = after | u
            while True:
                h2 = head | u | after | block(s.body, head, lo, head)
                if h2 == head:
                    break
                head = h2
            out[id(s)] = out[id(s)] | head
            return head
        if isinstance(s, ast.For):
            u = frozenset(names_used(s.iter))
            d = names_def(s.target)
            used[id(s)] = set(u) | names_used(s.target)
            after = block(s.orelse, lo, brk, cont) if s.orelse else lo
            head = after
            while True:
                h2 = head | after | (block(s.body, head, lo, head) - d) | names_used(s.target)
                if h2 == head:
                    break
                head = h2
            out[id(s)] = out[id(s)] | head
            return head | u
        if isinstance(s, ast.Try):
            fin = block(s.finalbody, lo, brk, cont) if s.finalbody else lo
            h = frozenset()
            for hd in s.handlers:
                h |= block(hd.body, fin, brk, cont)
            els = block(s.orelse, fin, brk, cont) if s.orelse else fin
            tryset.append(tryset[-1] | h | fin)
            # anything the handlers need is live throughout the body
            b = els | h
            for x in reversed(s.body):
                b = stmt(x, b, brk, cont) | h
                out[id(x)] = out[id(x)] | h
            for x in s.body:
                for y in ast.walk(x):
                    if isinstance(y, ast.stmt):
                        out[id(y)] = out.get(id(y), frozenset()) | h
            tryset.pop()
            used[id(s)] = set()
            return b | h
        if isinstance(s, ast.With):
            u = set()
            for it in s.items:
                u |= names_used(it.context_expr)
            b = block(s.body, lo, brk, cont)
            used[id(s)] = set(u) | b
            return b | u
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            used[id(s)] = set(allnames)
            return lo | allnames
        u = names_used(s)
        used[id(s)] = u
        return lo | u

    tryset = [frozenset()]
    base = frozenset()
    if has_super and first:
        allw = frozenset([first])
    else:
        allw = frozenset()
    block(fn.body, base, base, base)
    # closures (comprehensions are inline; nested functions keep everything)
    nested = [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn]
    extra = frozenset()
    for x in nested:
        extra |= frozenset(names_used(x))
    if has_super and first:
        extra |= allw
    if extra:
        for k in out:
            out[k] = out[k] | extra
    return out, used


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}
        self.funcs = []
        self._query = None
        root = os.path.join(self.repo, "extra")
        if not os.path.isdir(root):
            raise RuntimeError(f"package directory {root} vanished")
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.repo)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    self.modules[name] = Module(name, p, rel)
        for m in self.modules.values():
            self._scan(m)
        for m in self.modules.values():
            for c in [v[1] for v in m.env.values() if v[0] == "cls" and v[1].module is m]:
                for b in c.node.bases:
                    c.bases.append(self._resolve_base(b, m))
        for c in list(self.classes.values()):
            self._mro(c)

    def query(self, func):
        """No loop, no recursion and no store to an object, in func or in anything that may be called by it."""
        if self._query is None:
            by = {}
            for f in self.funcs:
                if not isinstance(f.node, ast.Lambda):
                    by.setdefault(f.name, []).append(f)
            bad = set()
            calls = {}
            for name, fs in by.items():
                calls[name] = set()
                for f in fs:
                    for n in ast.walk(f.node):
                        if isinstance(n, (ast.While, ast.For)) or \
                                isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                            bad.add(name)
                        elif isinstance(n, ast.Call):
                            m = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "?")
                            if m == name and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) \
                                    and getattr(n.func.value.func, "id", "") == "super":
                                continue
                            if m in by and m not in ("append", "extend"):
                                calls[name].add(m)
            ok = set()
            more = True
            while more:
                more = False
                for name in by:
                    if name not in ok and name not in bad and calls[name] <= ok:
                        ok.add(name)
                        more = True
            self._query = ok
        return func.name in self._query

    def _scan(self, m):
        env = m.env
        for s in self._toplevel(m.tree.body):
            if isinstance(s, ast.FunctionDef):
                f = Func(s, m, None)
                env[s.name] = ("fn", f)
                self.funcs.append(f)
            elif isinstance(s, ast.ClassDef):
                c = Class(s.name, m, s)
                env[s.name] = ("cls", c)
                self.classes[m.name + "." + s.name] = c
                for b in s.body:
                    if isinstance(b, ast.FunctionDef):
                        kind = "fn"
                        skip = False
                        for d in b.decorator_list:
                            n = d.id if isinstance(d, ast.Name) else getattr(d, "attr", "?")
                            if n == "staticmethod":
                                kind = "static"
                            elif n == "classmethod":
                                kind = "classm"
                            elif n == "property":
                                kind = "prop"
                            elif n in ("abstractmethod", "overload", "wraps"):
                                pass
                            elif n in ("setter", "deleter"):
                                skip = True
                            else:
                                kind = "unknown"
                        f = Func(b, m, c, kind)
                        self.funcs.append(f)
                        nm = mangle(b.name, c)
                        if skip:
                            c.attrs[nm + "$" + n] = ("fn", f)
                        else:
                            c.attrs[nm] = ("fn", f)
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[mangle(t.id, c)] = ("expr", b.value)
                    elif isinstance(b, ast.AnnAssign) and b.value is not None and isinstance(b.target, ast.Name):
                        c.attrs[mangle(b.target.id, c)] = ("expr", b.value)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    env[a.asname or a.name] = ("from", s.module, a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    env[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        env[t.id] = ("expr", s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                env[s.target.id] = ("expr", s.value)

    def _toplevel(self, body):
        for s in body:
            if isinstance(s, (ast.If, ast.Try)):
                yield from self._toplevel(s.body)
            else:
                yield s

    def resolve(self, m, name, seen=()):
        e = m.env.get(name)
        if e is None:
            return None
        if e[0] == "from":
            tm = self.modules.get(e[1])
            if tm is None:
                return ("ext", e[1], e[2])
            sub = self.modules.get(e[1] + "." + e[2])
            r = self.resolve(tm, e[2]) if (e[1], e[2]) not in seen else None
            if r is not None:
                return r
            return ("mod", sub.name) if sub else None
        return e

    def _resolve_base(self, b, m):
        if isinstance(b, ast.Name):
            r = self.resolve(m, b.id)
            if r and r[0] == "cls":
                return r[1]
            return b.id
        return getattr(b, "attr", "?")

    def _mro(self, c):
        if c.mro is not None:
            return c.mro
        seqs = []
        for b in c.bases:
            seqs.append(list(self._mro(b)) if isinstance(b, Class) else [b])
        seqs.append(list(c.bases))
        res = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise RuntimeError(f"cannot linearise the bases of {c.name}")
            res.append(h)
            seqs = [[x for x in s if x is not h and x != h] if True else s for s in seqs]
            seqs = [s for s in seqs if s]
        c.mro = res
        return res

    def cls(self, name):
        for k, c in self.classes.items():
            if c.name == name:
                return c
        return None


def mangle(name, cls):
    if cls is not None and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.name.lstrip("_") + name
    return name
