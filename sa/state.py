"""Abstract states of the shape analysis.

A state is a separating conjunction of explicit objects and summary chunks
(list segments, trees, tree contexts) over sequence words, together with an
integer constraint store (lin.Num) and order facts about elements.

Values are hashable tuples:
  ('none',) | ('c', const) | ('i', Lin) | ('e', id) | ('p', id) | ('w', word)
  ('tup', (v, ...)) | ('cls', Class) | ('fn', Func) | ('bm', Func, recv) | ...
Word items: ('E', value) | ('S', sid) | ('R', sid) | ('F', sid, value)
"""
from .lin import Lin, Num, V, C, ZERO, ONE

NONE = ("none",)
TRUE = ("c", True)
FALSE = ("c", False)
INF = float("inf")


class Unsupported(Exception):
    """The analysis cannot interpret this construct: verdict unknown."""

    def __init__(self, msg, node=None, func=None):
        self.msg = msg
        self.node = node
        self.func = func
        loc = ""
        if func is not None:
            loc = " at " + func.loc(node)
        super().__init__(msg + loc)


class Budget(Unsupported):
    pass


def I(n):
    return ("i", n if isinstance(n, Lin) else Lin(n))


_ctr = [1000]


def fresh():
    _ctr[0] += 1
    return _ctr[0]


def reset_names():
    _ctr[0] = 1000


class Spec:
    """Layout of a node class for summary chunks."""

    def __init__(self, kind, cls, nxt=None, prv=None, fields=("_data",), left=None, right=None, parent=None,
                 attrs=()):
        self.kind = kind
        self.cls = cls
        self.nxt = nxt
        self.prv = prv
        self.fields = fields
        self.left, self.right, self.parent = left, right, parent
        self.attrs = attrs

    def __repr__(self):
        return f"{self.kind}<{self.cls.name}>"

    def payload(self, a):
        if len(self.fields) == 1:
            return a[self.fields[0]]
        return ("tup", tuple(a[f] for f in self.fields))

    def unpay(self, v):
        if len(self.fields) == 1:
            return {self.fields[0]: v}
        return dict(zip(self.fields, v[1]))


class Obj:
    __slots__ = ("cls", "a")

    def __init__(self, cls, a):
        self.cls = cls
        self.a = a


class Chunk:
    __slots__ = ("kind", "spec", "f")

    def __init__(self, kind, spec, **f):
        self.kind = kind
        self.spec = spec
        self.f = f

    def __getattr__(self, n):
        try:
            return self.f[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"{self.kind}({', '.join(k + '=' + show(v) for k, v in sorted(self.f.items()))})"


# ------------------------------------------------------------- printing
def show(v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    t = v[0]
    if t == "none":
        return "None"
    if t == "c":
        return repr(v[1])
    if t == "i":
        return repr(v[1])
    if t == "e":
        return f"x{v[1]}"
    if t == "p":
        return f"@{v[1]}"
    if t == "w":
        return "[" + " ".join(show_item(i) for i in v[1]) + "]"
    if t == "tup":
        return "(" + ", ".join(show(x) for x in v[1]) + ")"
    return str(v)


def show_item(i):
    if i[0] == "E":
        return show(i[1])
    if i[0] == "S":
        return f"S{i[1]}"
    if i[0] == "R":
        return f"rev(S{i[1]})"
    return f"filter(S{i[1]}!={show(i[2])})"


# ------------------------------------------------------------- substitution
class Sub:
    """Simultaneous substitution of symbols (pointers/elements) and svars."""

    def __init__(self, m=None, sm=None, im=None):
        self.m = m or {}
        self.sm = sm or {}
        self.im = im or {}

    def val(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        t = v[0]
        if t == "p" or t == "e":
            return self.m.get(v, v)
        if t in ("none", "c"):
            return v
        if t == "i":
            if self.im:
                return ("i", v[1].subst_all(self.im))
            return v
        if t == "w":
            return ("w", self.word(v[1]))
        r = tuple(self.val(x) if isinstance(x, tuple) else x for x in v)
        return r if r != v else v

    def word(self, w):
        out = []
        ch = False
        for it in w:
            k = it[0]
            if k == "E":
                n = self.val(it[1])
                if n is not it[1]:
                    ch = True
                    it = ("E", n)
                out.append(it)
                continue
            r = self.sm.get(it[1])
            if r is None:
                if k == "F":
                    n = self.val(it[2])
                    if n != it[2]:
                        ch = True
                        it = ("F", it[1], n)
                out.append(it)
                continue
            ch = True
            if k == "S":
                out.extend(r)
            elif k == "R":
                out.extend(rev_word(r))
            else:
                out.extend(filter_word(r, self.val(it[2])))
        return tuple(out) if ch else w


def rev_word(w):
    out = []
    for it in reversed(w):
        if it[0] == "E":
            out.append(it)
        elif it[0] == "S":
            out.append(("R", it[1]))
        elif it[0] == "R":
            out.append(("S", it[1]))
        else:
            raise Unsupported("reverse of a filtered word")
    return tuple(out)


def filter_word(w, v):
    out = []
    for it in w:
        if it[0] == "E":
            if it[1] != v:
                out.append(it)     # callers guarantee it is known to differ
        elif it[0] == "S":
            out.append(("F", it[1], v))
        else:
            raise Unsupported("filter of a reversed word")
    return tuple(out)


def walk(v, fn):
    """Call fn on every symbol occurrence ('p'/'e'/S items) inside a value."""
    if not isinstance(v, tuple) or not v:
        return
    t = v[0]
    if t in ("p", "e"):
        fn(v)
        return
    if t in ("none", "c", "i"):
        return
    if t == "w":
        for it in v[1]:
            if it[0] == "E":
                walk(it[1], fn)
            else:
                fn(("S", it[1]))
                if it[0] == "F":
                    walk(it[2], fn)
        return
    for x in v:
        if isinstance(x, tuple):
            walk(x, fn)


def int_slots(v, fn):
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == "i":
        fn(v[1])
        return
    if v[0] == "w":
        for it in v[1]:
            if it[0] == "E":
                int_slots(it[1], fn)
        return
    for x in v:
        if isinstance(x, tuple):
            int_slots(x, fn)


class St:
    __slots__ = ("frames", "temps", "objs", "chunks", "num", "kinds", "skinds", "facts", "ghosts",
                 "meas", "sorted", "events", "exact", "trace", "iters", "loss", "oc")

    def __init__(self):
        self.frames = []
        self.temps = []
        self.objs = {}
        self.chunks = []
        self.num = Num()
        self.kinds = {}
        self.skinds = {}
        self.facts = frozenset()
        self.ghosts = {}
        self.meas = ()
        self.sorted = ()
        self.events = ()
        self.exact = True
        self.loss = ""
        self.trace = None
        self.iters = ()
        self.oc = None

    def copy(self):
        s = St.__new__(St)
        s.frames = [dict(f) for f in self.frames]
        s.temps = list(self.temps)
        s.objs = {k: Obj(o.cls, dict(o.a)) for k, o in self.objs.items()}
        s.chunks = list(self.chunks)
        s.num = self.num.copy()
        s.kinds = dict(self.kinds)
        s.skinds = dict(self.skinds)
        s.facts = self.facts
        s.ghosts = dict(self.ghosts)
        s.meas = self.meas
        s.sorted = self.sorted
        s.events = self.events
        s.exact = self.exact
        s.loss = self.loss
        s.trace = self.trace
        s.iters = self.iters
        s.oc = self.oc
        return s

    def inexact(self, why):
        if self.exact:
            self.exact = False
            self.loss = why

    # ---- naming
    def new_ptr(self):
        return ("p", fresh())

    def new_elem(self, kind):
        e = ("e", fresh())
        self.kinds[e[1]] = kind
        return e

    def new_payload(self, kind):
        if isinstance(kind, tuple):
            return ("tup", tuple(self.new_payload(k) for k in kind))
        if kind.startswith("int"):
            v = self.new_int()
            return v
        return self.new_elem(kind)

    def new_svar(self, kind):
        s = fresh()
        self.skinds[s] = kind
        self.num.add_ge(V(f"len:{s}"))
        for m in self.meas:
            self.num.add_ge(V(f"cnt:{s}:{m[1]}"))
            self.num.add_ge(V(f"len:{s}") - V(f"cnt:{s}:{m[1]}"))
        return ("S", s)

    def new_int(self, lo=None):
        v = f"n{fresh()}"
        if lo is not None:
            self.num.add_ge(V(v) - lo)
        return ("i", V(v))

    def alloc(self, cls, attrs=None):
        p = self.new_ptr()
        self.objs[p] = Obj(cls, attrs or {})
        return p

    # ---- measures
    def wlen(self, w):
        n = Lin(0)
        for it in w:
            if it[0] == "E":
                n = n + 1
            elif it[0] in ("S", "R"):
                n = n + V(f"len:{it[1]}")
            else:
                n = n + V(f"len:{it[1]}") - V(f"cnt:{it[1]}:{it[2][1]}")
        return n

    def wcnt(self, w, v):
        n = Lin(0)
        for it in w:
            if it[0] == "E":
                if it[1] == v:
                    n = n + 1
                elif not self.known_ne(it[1], v):
                    return None
            elif it[0] in ("S", "R"):
                n = n + V(f"cnt:{it[1]}:{v[1]}")
            elif it[2] != v:
                return None
        return n

    # ---- symbol substitution
    def subst(self, sub):
        for f in self.frames:
            for k, v in f.items():
                n = sub.val(v)
                if n is not v:
                    f[k] = n
        self.temps = [sub.val(v) for v in self.temps]
        for k, v in self.ghosts.items():
            self.ghosts[k] = sub.val(v)
        if sub.m:
            no = {}
            for p, o in self.objs.items():
                q = sub.m.get(p, p)
                if q in no:
                    raise Unsupported("unification of two allocated cells")
                no[q] = o
            self.objs = no
        for o in self.objs.values():
            for k, v in o.a.items():
                n = sub.val(v)
                if n is not v:
                    o.a[k] = n
        nc = []
        for c in self.chunks:
            nf = {}
            ch = False
            for k, v in c.f.items():
                n = sub.val(v)
                nf[k] = n
                if n is not v:
                    ch = True
            nc.append(Chunk(c.kind, c.spec, **nf) if ch else c)
        self.chunks = nc
        if self.facts:
            out = set()
            for f in self.facts:
                xs = [self._fact_parts(sub, x) for x in f[1:]]
                for a in xs[0]:
                    for b in xs[1]:
                        out.add((f[0], a, b))
            self.facts = frozenset(out)
        if sub.m:
            self.meas = tuple(sub.val(m) for m in self.meas)

    def _fact_parts(self, sub, x):
        if x[0] == "S":
            r = sub.sm.get(x[1])
            if r is None:
                return [x]
            out = []
            for it in r:
                if it[0] == "E":
                    out.append(it[1] if it[1][0] != "tup" else it[1][1][0])
                else:
                    out.append(("S", it[1]))
            return out
        return [sub.val(x)]

    def subst_svar(self, sid, word):
        self.subst(Sub(sm={sid: word}))

    def replace_svar(self, sid, word):
        """sid := word (items that are measured elements or known to differ from them), measures included."""
        im = {f"len:{sid}": self.wlen(word)}
        for m in self.meas:
            n = Lin(0)
            for it in word:
                n = n + (V(f"cnt:{it[1]}:{m[1]}") if it[0] != "E" else (1 if it[1] == m else 0))
            im[f"cnt:{sid}:{m[1]}"] = n
        for k, e in im.items():
            self.num.substitute(k, e)
        self.subst(Sub(sm={sid: word}, im=im))
        self.iters = tuple(e.subst_all(im) for e in self.iters)

    # ---- order facts -----------------------------------------------------
    def known_ne(self, a, b):
        if a == b:
            return False
        if a[0] == "c" and b[0] == "c":
            return a[1] != b[1]
        if ("ne", a, b) in self.facts or ("ne", b, a) in self.facts:
            return True
        if a[0] == "none" or b[0] == "none":
            return True
        if a[0] == "e" and b[0] == "e" and (_ordk(self.kinds.get(a[1])) or _ordk(self.kinds.get(b[1]))):
            return self.lt(a, b) or self.lt(b, a)
        if (a[0] == "c" or b[0] == "c"):
            return self.lt(a, b) or self.lt(b, a)
        return False

    def _edges(self):
        """adjacency: x -> [(y, strict)]"""
        g = {}
        for f in self.facts:
            if f[0] == "lt":
                g.setdefault(f[1], []).append((f[2], True))
            elif f[0] == "le":
                g.setdefault(f[1], []).append((f[2], False))
        for name in self.sorted:
            gv = self.ghosts.get(name)
            if gv is None:
                continue
            w = [(it[1] if it[1][0] != "tup" else it[1][1][0]) if it[0] == "E" else ("S", it[1]) for it in gv[1]]
            n = len(w)
            for i in range(n):
                for j in range(i + 1, n):
                    g.setdefault(w[i], []).append((w[j], True))
        consts = set()
        for x in list(g):
            if x[0] == "c":
                consts.add(x)
            for y, _ in g[x]:
                if y[0] == "c":
                    consts.add(y)
        cl = sorted(consts, key=lambda c: c[1])
        for i in range(len(cl) - 1):
            g.setdefault(cl[i], []).append((cl[i + 1], True))
        return g

    def _order(self):
        """Order graph with memoised reachability, valid while nothing it depends on changes."""
        oc = self.oc
        ws = tuple(self.ghosts.get(n) for n in self.sorted)
        if oc is not None and oc[0] is self.facts and oc[1] == self.num.ver and oc[2] == ws:
            return oc
        self.oc = oc = (self.facts, self.num.ver, ws, self._edges(), {}, {})
        return oc

    def _nonempty(self, x):
        if x[0] != "S":
            return True
        m = self._order()[5]
        r = m.get(x)
        if r is None:
            r = m[x] = self.num.entails_ge(V(f"len:{x[1]}") - 1)
        return r

    def _from(self, a):
        """{(b, strict)} reachable from a."""
        oc = self._order()
        seen = oc[4].get(a)
        if seen is not None:
            return seen
        g = oc[3]
        seen = set()
        work = [(a, False)]
        first = True
        while work:
            x, s = work.pop()
            if not first and x != a and not self._nonempty(x):
                continue
            first = False
            for y, st in g.get(x, ()):
                n = (y, s or st)
                if n not in seen and (y, True) not in seen:
                    seen.add(n)
                    work.append(n)
        oc[4][a] = seen
        return seen

    def _reach(self, a, b, strict):
        if a == b and not strict:
            return a[0] != "S"
        r = self._from(a)
        return (b, True) in r or (not strict and (b, False) in r)

    def lt(self, a, b):
        if a[0] == "c" and b[0] == "c":
            return a[1] < b[1]
        if a[0] == "c" and a[1] == -INF and b[0] == "e" and self.kinds.get(b[1]) == "num":
            return True
        if b[0] == "c" and b[1] == INF and a[0] == "e" and self.kinds.get(a[1]) == "num":
            return True
        return self._reach(a, b, True)

    def le(self, a, b):
        if a == b:
            return True
        if a[0] == "c" and b[0] == "c":
            return a[1] <= b[1]
        if a[0] == "c" and a[1] == -INF:
            return True
        if b[0] == "c" and b[1] == INF:
            return True
        return self.lt(a, b) or self._reach(a, b, False)

    def add_fact(self, op, a, b):
        """Returns False when contradictory."""
        if op == "lt":
            if a == b or self.le(b, a):
                return False
        elif op == "le":
            if self.lt(b, a):
                return False
            if a == b:
                return True
            if self.known_ne(a, b):
                op = "lt"
        elif op == "ne":
            if a == b:
                return False
            if self.le(a, b) and _maybe_ord(self, a, b):
                op = "lt"
            elif self.le(b, a) and _maybe_ord(self, a, b):
                op, a, b = "lt", b, a
        self.facts = self.facts | {(op, a, b)}
        return True

    def order_ok(self):
        """No strict cycle among atoms."""
        if not self.facts and not self.sorted:
            return True
        for x in list(self._order()[3]):
            if x[0] == "S" and not self._nonempty(x):
                continue
            if (x, True) in self._from(x):
                return False
        for f in self.facts:
            if f[0] == "ne" and f[1] == f[2]:
                return False
        return True

    # ---- element equality ------------------------------------------------
    def assume_eq(self, a, b):
        """Unify two elements.  Returns False on contradiction."""
        if a == b:
            return True
        if self.known_ne(a, b):
            return False
        if a[0] != "e" and b[0] != "e":
            return False
        keep, drop = (a, b)
        prot = set(self.meas) | {v for v in self.ghosts.values() if v[0] == "e"}
        if keep[0] == "e" and (drop[0] != "e" or (drop in prot and keep not in prot)):
            keep, drop = drop, keep
        if drop in self.meas and keep in self.meas:
            return None
        if drop in self.meas:
            if keep[0] != "e":
                return None
            keep, drop = drop, keep
        ka, kb = self.kinds.get(drop[1]), (self.kinds.get(keep[1]) if keep[0] == "e" else "num")
        self.subst(Sub({drop: keep}))
        return self.order_ok()

    # ---- svar splitting --------------------------------------------------
    def split_svar(self, sid, end="front"):
        """Case split on a sequence variable: empty / one element exposed."""
        out = []
        ln = V(f"len:{sid}")
        if not self.num.entails_ge(ln - 1):
            s0 = self.copy()
            s0.num.add_eq(ln)
            for m in s0.meas:
                s0.num.add_eq(V(f"cnt:{sid}:{m[1]}"))
            s0.subst_svar(sid, ())
            if s0.num.sat() and s0.order_ok():
                out.append(s0)
        s1 = self
        s1.num.add_ge(ln - 1)
        if not s1.num.sat():
            return out
        out.extend(s1.peel_svar(sid, end))
        return out

    def peel_svar(self, sid, end):
        kind = self.skinds[sid]
        variants = []
        pay = self.new_payload(kind)
        variants.append((self, pay))
        for m in list(self.meas):
            nv = []
            for s, p in variants:
                if p[0] == "e" and p != m and self.kinds.get(p[1]) == self.kinds.get(m[1]):
                    s2 = s.copy()
                    if s.add_fact("ne", p, m):
                        nv.append((s, p))
                    nv.append((s2, m))
                else:
                    nv.append((s, p))
            variants = nv
        out = []
        for s, p in variants:
            rest = s.new_svar(kind)
            w = (("E", p), rest) if end == "front" else (rest, ("E", p))
            s.replace_svar(sid, w)
            if s.num.sat() and s.order_ok():
                out.append(s)
        return out

    def tri_svar(self, sid):
        """S := A . e . B  (S known non-empty).  Yields (state, A, payload, B)."""
        kind = self.skinds[sid]
        variants = [(self, self.new_payload(kind))]
        for m in list(self.meas):
            nv = []
            for s, p in variants:
                if p[0] == "e" and p != m and self.kinds.get(p[1]) == self.kinds.get(m[1]):
                    s2 = s.copy()
                    if s.add_fact("ne", p, m):
                        nv.append((s, p))
                    nv.append((s2, m))
                else:
                    nv.append((s, p))
            variants = nv
        out = []
        for s, p in variants:
            a = s.new_svar(kind)
            b = s.new_svar(kind)
            s.replace_svar(sid, (a, ("E", p), b))
            if s.num.sat() and s.order_ok():
                out.append((s, a, p, b))
        return out

    # ---- chunks ----------------------------------------------------------
    def chunk_at(self, p):
        for c in self.chunks:
            if c.f.get("first") == p:
                return c, "front"
        for c in self.chunks:
            if c.kind == "seg" and c.spec.prv and c.f.get("last") == p:
                return c, "back"
            if c.kind == "ctx" and c.f.get("holep") == p and p != NONE:
                return c, "hole"
        return None, None

    def remove_chunk(self, c):
        self.chunks = [x for x in self.chunks if x is not c]

    def show(self):
        o = []
        for i, f in enumerate(self.frames):
            o.append(f"  frame{i}: " + ", ".join(f"{k}={show(v)}" for k, v in f.items()))
        if self.temps:
            o.append("  temps: " + ", ".join(show(t) for t in self.temps))
        for p, ob in self.objs.items():
            o.append(f"  {show(p)}: {ob.cls if isinstance(ob.cls, str) else ob.cls.name}"
                     f"{{{', '.join(k + '=' + show(v) for k, v in sorted(ob.a.items()))}}}")
        for c in self.chunks:
            o.append("  " + repr(c))
        o.append("  ghosts: " + ", ".join(f"{k}={show(v)}" for k, v in self.ghosts.items()))
        o.append("  num: " + repr(self.num))
        if self.facts:
            o.append("  facts: " + ", ".join(f"{f[0]}({show(f[1])},{show(f[2])})" for f in sorted(self.facts, key=str)))
        o.append(f"  exact={self.exact} {self.loss}")
        return "\n".join(o)


def _ordk(k):
    return k in ("num", "prio")


def _maybe_ord(st, a, b):
    return True
