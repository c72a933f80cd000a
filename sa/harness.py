"""Obligations: scenario construction, exit checks and three-valued verdicts.

An obligation fixes one entry point (class, method), one family of pre-states
(described symbolically: arbitrary sequences / trees subject to the class
invariant) and the post-condition.  It is
  proved     when the post-condition holds in every abstract exit state,
  violated   when some exit state that was derived without any loss of
             precision contradicts it (a concrete instance is printed),
  undecided  otherwise.
"""
import os
import time
import traceback

from .lin import Lin, V
from .model import Program, Class
from .state import (St, Spec, Obj, Chunk, NONE, TRUE, FALSE, I, Unsupported, Budget, show, show_item, reset_names,
                    rev_word, Sub)
from .interp import Interp, Exc
from . import shapes, trees


class Bad(Exception):
    """Post-condition fails in this exit state (definite when the state is exact)."""

    def __init__(self, msg, st=None):
        self.msg = msg
        self.st = st
        super().__init__(msg)


class Anchor(Exception):
    """A public entry point the obligation is about no longer exists."""


class Case:
    def __init__(self, prop, name, fn, tier="quick", budget=60, kw=None, wide=None, weight=1, tree=False, deep=100,
                 heights=None, scope=None):
        self.weight = weight
        # tree: the witness passes only look at the first iterations of every
        # loop; deep: seconds for the deeper ones
        self.tree = tree
        self.deep = deep
        # heights: pass number -> heights of the trees looked at exhaustively
        self.heights = heights
        # scope: what a fully discharged obligation covers when that is not everything
        self.scope = scope
        # wide: the same obligation from a superset of its pre-states; when that
        # is proved the obligation holds, when not it says nothing
        self.wide = wide
        self.prop = prop
        self.name = name
        self.fn = fn
        self.tier = tier
        self.budget = budget
        self.kw = kw or {}
        self.hname = "black height" if name.startswith("Red") else "levels"


REG = []


def case(prop, name, **kw):
    def deco(fn):
        REG.append(Case(prop, name, fn, **kw))
        return fn
    return deco


def add_case(prop, name, fn, **kw):
    REG.append(Case(prop, name, fn, **kw))


class Env:
    """Everything one obligation needs: program, interpreter, builder."""

    def __init__(self, prog, budget, peel=0):
        self.prog = prog
        self.specs = make_specs(prog)
        self.it = Interp(prog, self.specs, budget)
        self.it.env = self
        self.it.peel = peel
        self.st = St()
        self.mode = "full"
        self.size = None
        self.exits = 0
        self.exit_ok = 0
        self.scale = 1
        self.scope = None

    def spelled(self):
        """Analyse structures of known size: loops and recursion are followed to their end."""
        from .texts import Texts
        old = self.it
        if isinstance(old, Texts):
            return
        self.it = Texts(self.prog, self.specs, 0)
        self.it.deadline = old.deadline
        self.it.env = self

    # ---- construction
    def cls(self, name):
        c = self.prog.cls(name)
        if c is None:
            raise Anchor(f"class {name} vanished")
        return c

    def svar(self, kind="obj", lo=0):
        s = self.st.new_svar(kind)
        if lo:
            self.st.num.add_ge(V(f"len:{s[1]}") - lo)
        return s

    def elem(self, kind="obj"):
        return self.st.new_elem(kind)

    def measured(self, kind="obj"):
        """An element whose occurrences are counted; create it before the sequences."""
        v = self.st.new_elem(kind)
        self.st.meas = self.st.meas + (v,)
        self.ghost("v", v)
        return v

    def cnt(self, s, v):
        return V(f"cnt:{s[1]}:{v[1]}")

    def ne(self, a, b):
        self.st.add_fact("ne", a, b)

    def ln(self, s):
        return V(f"len:{s[1]}")

    def ghost(self, name, v):
        self.st.ghosts[name] = v
        return v

    def method(self, cname, mname):
        c = self.cls(cname)
        e, _ = c.lookup(mname)
        if e is None or e[0] != "fn":
            raise Anchor(f"{cname}.{mname} vanished")
        return e[1]

    def run(self, st, recv, mname, args=(), kw=None):
        """Call a method of the object held in ghost `recv` -> exits."""
        p = st.ghosts[recv] if isinstance(recv, str) else recv
        o = st.objs[p]
        if isinstance(o.cls, str):
            raise Unsupported("receiver")
        e, _ = o.cls.lookup(mname)
        if e is None:
            raise Anchor(f"{o.cls.name}.{mname} vanished")
        st.temps = []
        st.iters = ()
        self.it.shared = {}
        f = e[1]
        res = self.it.call_func(f, [p] + list(args), dict(kw or {}), st, f.node)
        return self._finish(res, f)

    def construct(self, st, cname, args=(), kw=None):
        c = self.cls(cname)
        e, _ = c.lookup("__init__")
        if e is None:
            raise Anchor(f"{cname}.__init__ vanished")
        from .interp import Ctx
        self.it.shared = {}
        res = self.it.instantiate(st, c, list(args), dict(kw or {}), e[1].node, Ctx(e[1], 0))
        return self._finish(res, e[1])

    def call_fn(self, st, f, args):
        self.it.shared = {}
        return self._finish(self.it.call_func(f, list(args), {}, st, f.node), f)

    def _finish(self, res, f):
        out = []
        for s, v in res:
            if not s.num.sat() or not s.order_ok():
                continue
            out.append((s, v))
        return out

    def gen_list(self, st, gv):
        """Collect a generator / iterable into a python list -> exits (value: list pointer)."""
        from .interp import Ctx
        import ast
        f = gv[1] if gv[0] == "gen" else None
        node = f.node if f else ast.parse("0").body[0]
        ctx = Ctx(f or self.prog.funcs[0], len(st.frames))
        st.frames.append({})
        while len(self.it.cur) < len(st.frames):
            self.it.cur.append(None)
        out = []
        fake = ast.copy_location(ast.Constant(value=0), node)
        fake.lineno = getattr(node, "lineno", 0)
        fake.col_offset = 0
        for s, v in self.it.bi_list(st, [gv], {}, fake, ctx):
            s.frames.pop()
            out.append((s, v))
        return out


def make_specs(prog):
    specs = {}

    def lst(name, **kw):
        c = prog.cls(name)
        if c is not None:
            specs[name] = Spec("list", c, **kw)
    lst("Node", nxt="_next")
    lst("DoublyNode", nxt="_next", prv="_prev")
    lst("PriorityNode", nxt="_next", prv="_prev", fields=("_priority", "_data"))
    trees.make_specs(prog, specs)
    return specs


# ---------------------------------------------------------------- verdicts
def run_case(c, prog=None, scale=1):
    """-> dict(name, verdict, ...)"""
    reset_names()
    t0 = time.time()
    r = dict(name=c.name, prop=c.prop, verdict="proved", why="", exits=0, functions=[], loops=0, calls=0, undecided=[])
    env = None
    try:
        prog = prog or Program()
        # first pass: plain fixpoint (the proof).  If it leaves something open,
        # a second pass keeps the first iterations of every loop apart, where
        # no precision is lost.  Trees: short refutations are looked for first.
        if not c.tree:
            order = ((0,) if c.wide is None else ("wide", 0)) + (3,)
        elif c.heights:
            order = tuple(sorted(k for k in c.heights if k < 4 or scale > 1)) + (0,)
        else:
            order = (1, 0, 2, 3)
        deep = 0
        upto = None         # heights exhausted by the witness passes
        seen = 0            # exits judged by them
        for peel in order:
            budget = c.budget * scale
            if c.tree and peel:
                budget = min(60 * scale, c.deep * scale - deep)
                if budget < 5:
                    continue
            reset_names()
            t1 = time.time()
            env = Env(prog, budget, 0 if peel == "wide" else peel)
            env.it.factjoin = peel == "wide"
            env.case = c
            env.scale = scale
            env.scope = c.scope
            bads, unk = [], []
            env.bads, env.unk = bads, unk
            try:
                (c.wide if peel == "wide" else c.fn)(env, **c.kw)
            except Unsupported as e:
                unk.append(str(e))
            except RecursionError:
                unk.append("analysis recursion depth")
            env.spent = time.time() - t1
            if c.tree and peel:
                deep += env.spent
                seen += env.exits
                if c.heights:
                    if not (bads or unk or env.it.dropped) and upto is not False:
                        upto = max(c.heights[peel])
                    else:
                        upto = upto or False
            if peel == 0:
                first = (bads, unk, env)
            if peel == "wide":
                if not (bads or unk) and env.exits:
                    first = (bads, unk, env)
                    break
                continue
            if any(b["definite"] for b in bads) or (not (bads or unk) and not (c.tree and peel)):
                break
        if not any(b["definite"] for b in bads):
            bads, unk, env = first
        if any(b["definite"] for b in bads):
            r["verdict"] = "violated"
            b = [b for b in bads if b["definite"]][0]
            r["why"] = b["msg"]
            r["witness"] = b.get("witness", "")
            r["trace"] = b.get("trace", [])
            r["site"] = b.get("site", "")
        elif bads or unk:
            r["verdict"] = "undecided"
            r["why"] = (bads[0]["msg"] + " [" + bads[0]["loss"] + "]") if bads else unk[0]
            if upto:
                # nothing was lost or left out for the trees up to this height
                r["verdict"] = "bounded"
                r["why"] = f"every tree up to height {upto} ({c.hname}); no invariant found for all heights: " + r["why"]
        elif c.scope:
            r["verdict"] = "bounded"
            r["why"] = env.scope
        if env.exits + (seen if upto else 0) == 0 and r["verdict"] in ("proved", "bounded"):
            r["verdict"] = "undecided"
            r["why"] = "no exit state"
    except Anchor as e:
        r["verdict"] = "anchor"
        r["why"] = str(e)
    except SyntaxError as e:
        r["verdict"] = "anchor"
        r["why"] = f"source does not parse: {e}"
    except Exception as e:
        r["verdict"] = "undecided"
        r["why"] = "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip()
        r["internal"] = traceback.format_exc()
    if env is not None:
        r["exits"] = env.exits
        r["functions"] = sorted({f"{f!r}" for f in env.it.visited})
        r["loops"] = len(env.it.loops)
        r["calls"] = len(env.it.callsites)
        r["steps"] = env.it.steps
    r["wall"] = round(time.time() - t0, 3)
    return r


def judge(env, exits, post):
    """Apply post(X) to every exit."""
    if not exits:
        env.unk.append("no exit state")
    for s, v in exits:
        if not s.num.sat() or not s.order_ok():
            continue
        env.exits += 1
        x = X(env, s, v)
        try:
            post(x)
            env.exit_ok += 1
        except Bad as b:
            env.bads.append(describe(env, b, b.st or s, v))
        except Unsupported as e:
            env.unk.append(str(e))


def trace_of(st, n=14):
    out = []
    t = st.trace
    while t is not None and len(out) < n:
        out.append(t[0])
        t = t[1]
    return list(reversed(out))


def describe(env, b, st, v):
    d = dict(msg=b.msg, definite=False, loss=st.loss or "", st=st)
    if isinstance(v, Exc):
        d["msg"] += f" (raises {v.name}{' at ' + v.func.loc(v.node) if v.func else ''})"
        if v.func:
            d["site"] = v.func.loc(v.node)
    d["trace"] = trace_of(st)
    if not st.exact:
        d["loss"] = st.loss or "imprecise"
        return d
    m = st.num.model()
    if m is None:
        d["loss"] = "no integer instance found"
        return d
    d["definite"] = True
    d["witness"] = witness(st, m)
    return d


def eval_lin(e, m):
    n = e.c
    for v, k in e.t:
        n += k * m.get(v, 0)
    return n


def inst_word(st, w, m):
    out = []
    for it in w:
        if it[0] == "E":
            out.append(inst_val(it[1], m))
        else:
            n = m.get(f"len:{it[1]}", 0)
            n = max(0, min(int(n), 8))
            ids = [f"s{it[1]}.{i}" for i in range(n)]
            if it[0] == "R":
                ids.reverse()
            if it[0] == "F":
                k = m.get(f"cnt:{it[1]}:{it[2][1]}", 0)
                ids = ids[:max(0, n - int(k))]
            out.extend(ids)
    return out


def inst_val(v, m):
    if v[0] == "i":
        return str(eval_lin(v[1], m))
    if v[0] == "tup":
        return "(" + ", ".join(inst_val(x, m) for x in v[1]) + ")"
    return show(v)


def witness(st, m):
    out = []
    for k, v in st.ghosts.items():
        if ":" in k:
            continue
        if v[0] == "w":
            out.append(f"{k}=[{', '.join(inst_word(st, v[1], m))}]")
        elif v[0] == "i":
            out.append(f"{k}={eval_lin(v[1], m)}")
        elif v[0] in ("e", "c", "none"):
            out.append(f"{k}={show(v)}")
    return "; ".join(out)


class X:
    """View of an exit state."""

    def __init__(self, env, st, val):
        self.env = env
        self.st = st
        self.val = val

    def g(self, name):
        return self.st.ghosts[name]

    @property
    def exc(self):
        return self.val.name if isinstance(self.val, Exc) else None

    def returned(self):
        if isinstance(self.val, Exc):
            raise Bad(f"unexpected {self.val.name}")
        return self.val

    def raised(self, *names):
        if not isinstance(self.val, Exc):
            raise Bad(f"expected {'/'.join(names)}, returned {show(self.val)}")
        import builtins
        for n in names:
            if self.val.name == n:
                return
            a, b = getattr(builtins, self.val.name, None), getattr(builtins, n, None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                return
        raise Bad(f"expected {'/'.join(names)}, raised {self.val.name}")

    # ---- values
    def int_is(self, v, e, what):
        if v[0] == "c" and isinstance(v[1], bool):
            v = I(int(v[1]))
        if v[0] == "top":
            raise Unsupported(f"{what}: unknown value")
        if v[0] != "i":
            raise Bad(f"{what}: expected {e}, got {show(v)}")
        self.eq_lin(v[1], e, what)

    def eq_lin(self, a, b, what):
        d = a - b
        n = self.st.num
        if n.entails_eq(d):
            return
        for e in (d - 1, -d - 1):
            s = self.st.copy()
            s.num.add_ge(e)
            if s.num.sat() and s.num.model() is not None:
                raise Bad(f"{what}: {a!r} instead of {b!r}", s)
        raise Unsupported(f"{what}: cannot compare")

    def val_is(self, v, want, what):
        """Element / None / pointer equality."""
        if v == want:
            return
        if v[0] == "i" and want[0] == "i":
            return self.eq_lin(v[1], want[1], what)
        if v[0] == "top":
            raise Unsupported(f"{what}: unknown value")
        if v[0] in ("e", "c") and want[0] in ("e", "c") and self.st.le(v, want) and self.st.le(want, v):
            return
        if v[0] == "tup" and want[0] == "tup" and len(v[1]) == len(want[1]):
            for a, b in zip(v[1], want[1]):
                self.val_is(a, b, what)
            return
        raise Bad(f"{what}: {show(v)} instead of {show(want)}")

    def bool_is(self, v, cond, what):
        """cond: python bool, or a Lin e meaning e >= 1."""
        if v[0] == "top":
            raise Unsupported(f"{what}: unknown truth value")
        if v[0] != "c" or not isinstance(v[1], bool):
            raise Bad(f"{what}: {show(v)} is not a bool")
        if isinstance(cond, bool):
            if v[1] != cond:
                raise Bad(f"{what}: {v[1]} instead of {cond}")
            return
        if v[1]:
            if self.st.num.entails_ge(cond - 1):
                return
            s = self.st.copy()
            s.num.add_ge(-cond)
        else:
            if self.st.num.entails_ge(-cond):
                return
            s = self.st.copy()
            s.num.add_ge(cond - 1)
        if s.num.sat():
            raise Bad(f"{what}: {v[1]} although the opposite holds", s)
        raise Unsupported(what)

    # ---- words
    def words(self, got, want, what):
        words_equal(self.st, got, want, what)

    def pylist(self, v, what="result"):
        if v[0] == "top":
            raise Unsupported(f"{what}: unknown value")
        o = self.st.objs.get(v) if v[0] == "p" else None
        if o is None or o.cls != "list":
            raise Bad(f"{what}: expected a python list, got {show(v)}")
        return o.a["w"][1]


def norm_word(st, w):
    out = []
    for it in w:
        if it[0] != "E" and st.num.entails_eq(V(f"len:{it[1]}")):
            continue
        if it[0] == "F" and st.num.entails_eq(V(f"len:{it[1]}") - V(f"cnt:{it[1]}:{it[2][1]}")):
            continue
        if it[0] == "F" and st.num.entails_eq(V(f"cnt:{it[1]}:{it[2][1]}")):
            it = ("S", it[1])
        out.append(it)
    return tuple(out)


def pay_eq(st, a, b):
    if a == b:
        return True
    if a[0] == "i" and b[0] == "i":
        return st.num.entails_eq(a[1] - b[1])
    if a[0] in ("e", "c") and b[0] in ("e", "c") and st.le(a, b) and st.le(b, a):
        return True
    if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
        return all(pay_eq(st, x, y) for x, y in zip(a[1], b[1]))
    return False


def _item_eq(st, a, b):
    if a == b:
        return True
    if a[0] == "E" and b[0] == "E":
        return pay_eq(st, a[1], b[1])
    return False


def words_equal(st, got, want, what, depth=0):
    """Raise Bad (with a refined state) when the two words can differ."""
    g, w = list(norm_word(st, got)), list(norm_word(st, want))
    while g and w and _item_eq(st, g[0], w[0]):
        g.pop(0)
        w.pop(0)
    while g and w and _item_eq(st, g[-1], w[-1]):
        g.pop()
        w.pop()
    if not g and not w:
        return
    # a length-one variable and its reverse are the same word
    if len(g) == 1 and len(w) == 1 and g[0][0] in "SR" and w[0][0] in "SR" and g[0][1] == w[0][1] and \
            st.num.entails_ge(Lin(1) - V(f"len:{g[0][1]}")):
        return
    msg = f"{what}: [{' '.join(map(show_item, norm_word(st, got)))}] instead of [{' '.join(map(show_item, norm_word(st, want)))}]"
    if depth > 6:
        raise Unsupported(msg + " (undecided)")
    # split a possibly empty variable at a mismatching end
    for side in (g, w):
        for it in side[:1]:
            if it[0] in ("S", "R") and not st.num.entails_ge(V(f"len:{it[1]}") - 1):
                s1 = st.copy()
                s1.ghosts["$w"] = ("tup", (("w", tuple(got)), ("w", tuple(want))))
                for s in s1.split_svar(it[1]):
                    a, b = s.ghosts.pop("$w")[1]
                    words_equal(s, a[1], b[1], what, depth + 1)
                return
    # definite difference: look for an integer instance in which they differ
    lg, lw = st.wlen(got), st.wlen(want)
    for e in (lg - lw - 1, lw - lg - 1):
        s = st.copy()
        s.num.add_ge(e)
        if s.num.sat() and s.num.model() is not None:
            raise Bad(msg, s)
    for extra in (None, 2, 1):
        s = st.copy()
        if extra is not None:
            for it in g + w:
                if it[0] != "E":
                    s2 = s.copy()
                    s2.num.add_ge(V(f"len:{it[1]}") - extra)
                    if s2.num.sat():
                        s = s2
        m = s.num.model()
        if m is not None and inst_word(s, norm_word(s, got), m) != inst_word(s, norm_word(s, want), m):
            for k, val in m.items():
                if k.startswith("len:"):
                    s.num.add_eq(V(k) - val)
            raise Bad(msg, s)
    raise Unsupported(msg + " (undecided)")
