"""The interpreter for structures of known size: loops and recursion are followed to their end, and texts, dictionaries
and sets are spelled out.  A text is a sequence of characters, each a constant or a symbol that is known only up to
equality (a plain character: no white space, none of the constant characters the sources mention)."""
import ast
import re
import string

from .lin import Lin
from .state import St, NONE, TRUE, FALSE, I, Obj, Unsupported, Budget
from .interp import Interp, Exc, Ctx

TOPSTR = ("top", "str")
MAXIT = 200


def chars(v):
    """The characters of a text value, or None."""
    if v[0] == "str":
        return v[1]
    if v[0] == "c" and isinstance(v[1], str):
        return tuple(("c", ch) for ch in v[1])
    return None


def text(cs):
    cs = tuple(cs)
    if all(c[0] == "c" for c in cs):
        return ("c", "".join(c[1] for c in cs))
    return ("str", cs)


def is_const(v):
    return v[0] == "c" and isinstance(v[1], str)


class Texts(Interp):
    unroll = True

    def __init__(self, prog, specs, budget):
        Interp.__init__(self, prog, specs, budget)
        self.inline = 40
        self.peel = 1000

    # ------------------------------------------------------------ control
    def fixpoint(self, inits, step, node, ctx, live=None):
        res = []
        work = []
        for s in inits:
            s.iters = s.iters + (Lin(0),)
            work.append((s, 0))
        while work:
            s, k = work.pop()
            self.tick(node, ctx.func)
            if k > MAXIT:
                # a structure of a few items cannot need that many rounds
                if not s.exact:
                    raise Budget("a loop goes on", node, ctx.func)
                s.iters = s.iters[:-1]
                res.append((s, ("raise", Exc("endless loop", node, ctx.func))))
                continue
            nexts, outs = step(s)
            for z, sig in outs:
                z.iters = z.iters[:-1]
                res.append((z, sig))
            work.extend((z, k + 1) for z in nexts if z.num.sat())
        if len(res) > 5000:
            raise Budget("too many paths", node, ctx.func)
        return res

    def has_tail(self, func):
        return False

    def merge_returns(self, res, node):
        return res

    # ------------------------------------------------------------ equality
    def char_equal(self, st, a, b):
        if a == b:
            return [(st, True)]
        if a[0] == "c" or b[0] == "c":
            return [(st, False)]
        if st.known_ne(a, b):
            return [(st, False)]
        s2 = st.copy()
        out = []
        if st.assume_eq(a, b) and st.order_ok():
            out.append((st, True))
        if s2.add_fact("ne", a, b) and s2.order_ok():
            out.append((s2, False))
        return out

    def equal(self, st, op, a, b, n, ctx):
        ca, cb = chars(a), chars(b)
        if ca is not None and cb is not None and (a[0] == "str" or b[0] == "str"):
            if len(ca) != len(cb):
                return [(st, False)]
            st.temps.append(("tup", (a, b)))
            base = len(st.temps) - 1
            out, cur = [], [st]
            for i in range(len(ca)):
                nxt = []
                for s in cur:
                    x, y = s.temps[base][1]
                    for s2, r in self.char_equal(s, chars(x)[i], chars(y)[i]):
                        if r:
                            nxt.append(s2)
                        else:
                            del s2.temps[base:]
                            out.append((s2, False))
                cur = nxt
            for s in cur:
                del s.temps[base:]
                out.append((s, True))
            return out
        if a[0] == "str" or b[0] == "str":
            return [(st, False)] if (b if a[0] == "str" else a)[0] not in ("top", "typeof") else self.split_unknown(st)
        if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
            return self.seq_equal(st, [a[1], b[1]], n, ctx)
        if op == "Eq" and a[0] == "p" and b[0] == "p" and a in st.objs and b in st.objs and a != b:
            oa, ob = st.objs[a], st.objs[b]
            if oa.cls == ob.cls == "list":
                wa, wb = oa.a["w"][1], ob.a["w"][1]
                if all(i[0] == "E" for i in wa + wb):
                    if len(wa) != len(wb):
                        return [(st, False)]
                    return self.seq_equal(st, [tuple(i[1] for i in wa), tuple(i[1] for i in wb)], n, ctx)
            if oa.cls == ob.cls == "dict" and (not oa.a["kv"][1] or not ob.a["kv"][1]):
                return [(st, len(oa.a["kv"][1]) == len(ob.a["kv"][1]))]
        return Interp.equal(self, st, op, a, b, n, ctx)

    def seq_equal(self, st, ab, n, ctx):
        base = len(st.temps)
        st.temps.append(("tup", (("tup", ab[0]), ("tup", ab[1]))))
        out, cur = [], [st]
        for i in range(len(ab[0])):
            nxt = []
            for s in cur:
                x, y = s.temps[base][1]
                for s2, r in self.equal(s, "Eq", x[1][i], y[1][i], n, ctx):
                    if r is True:
                        nxt.append(s2)
                    elif r is False:
                        del s2.temps[base:]
                        out.append((s2, False))
                    else:
                        raise self.uns("comparison of sequences", n, ctx)
            cur = nxt
        for s in cur:
            del s.temps[base:]
            out.append((s, True))
        return out

    def less(self, st, a, b, strict, n, ctx, orig):
        ca, cb = chars(a), chars(b)
        if ca is not None and cb is not None:
            for x, y in zip(ca, cb):
                if x == y:
                    continue
                lt = self.char_less(st, x, y)
                if lt is None:
                    raise self.uns("order of unknown characters", n, ctx)
                return [(st, lt)]
            return [(st, len(ca) < len(cb) if strict else len(ca) <= len(cb))]
        return Interp.less(self, st, a, b, strict, n, ctx, orig)

    def char_less(self, st, x, y):
        if x[0] == "c" and y[0] == "c":
            return x[1] < y[1]
        if x[0] == "c" or y[0] == "c":
            # plain characters come after the marks the sources use
            c = x if x[0] == "c" else y
            if c[1] in "$ \n\t":
                return x[0] == "c"
            return None
        if st.lt(x, y):
            return True
        if st.lt(y, x):
            return False
        return None

    def type_is(self, st, v, name):
        if v[0] == "str":
            return name == "str"
        if v[0] == "p" and v in st.objs and st.objs[v].cls in ("dict", "set"):
            return name == st.objs[v].cls
        return Interp.type_is(self, st, v, name)

    def bi_isinstance(self, st, args, kw, n, ctx):
        if args[0][0] == "str":
            cs = args[1][1] if args[1][0] == "tup" else (args[1],)
            return [(st, ("c", any(c == ("builtin", "str") for c in cs)))]
        return Interp.bi_isinstance(self, st, args, kw, n, ctx)

    def bi_hasattr(self, st, args, kw, n, ctx):
        if args[0][0] == "str" and is_const(args[1]):
            return [(st, ("c", hasattr("", args[1][1])))]
        return Interp.bi_hasattr(self, st, args, kw, n, ctx)

    def truth(self, st, v, n, ctx):
        if v[0] == "str":
            return [(st, bool(v[1]))]
        return Interp.truth(self, st, v, n, ctx)

    def contains(self, st, a, b, n, ctx):
        cb = chars(b)
        if cb is not None and (b[0] == "str" or a[0] == "str"):
            ca = chars(a)
            if ca is None:
                return [(st, Exc("TypeError", n, ctx.func))]
            base = len(st.temps)
            st.temps.append(("tup", (a, b)))
            cur, out = [st], []
            for i in range(len(cb) - len(ca) + 1):
                nxt = []
                for s in cur:
                    x, y = s.temps[base][1]
                    for s2, r in self.equal(s, "Eq", x, text(chars(y)[i:i + len(ca)]), n, ctx):
                        if r:
                            del s2.temps[base:]
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                del s.temps[base:]
                out.append((s, False))
            return out
        return Interp.contains(self, st, a, b, n, ctx)

    # ------------------------------------------------------------ texts
    def ev_JoinedStr(self, n, st, ctx):
        try:
            cur = [(st, ())]
            for p in n.values:
                nxt = []
                for s, cs in cur:
                    if isinstance(p, ast.Constant):
                        nxt.append((s, cs + tuple(("c", c) for c in p.value)))
                        continue
                    spec = ""
                    if p.format_spec is not None:
                        spec = None
                        for _, v in self.ev_JoinedStr(p.format_spec, s.copy(), ctx):
                            if not is_const(v) or spec not in (None, v[1]):
                                return [(st, TOPSTR)]
                            spec = v[1]
                    if p.conversion not in (-1, 115) or spec is None:
                        return [(st, TOPSTR)]
                    s.temps.append(("str", cs))
                    for s2, v in self.ev(p.value, s, ctx):
                        c0 = s2.temps.pop()[1]
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                            continue
                        if v[0] == "p":
                            s2.temps.append(("str", c0))
                        told = self.texts_of(s2, v, "__str__", n, ctx)
                        for s3, t in told:
                            if v[0] == "p":
                                c0 = s3.temps.pop()[1]
                            if isinstance(t, Exc):
                                nxt.append((s3, t))
                                continue
                            c1 = self.padded(chars(t), spec, v[0] != "i")
                            if c1 is None:
                                return [(s2, TOPSTR)] if len(cur) == 1 and len(told) == 1 else self._uns("formatted text", n, ctx)
                            nxt.append((s3, c0 + c1))
                done = [(s, c) for s, c in nxt if isinstance(c, Exc)]
                if done:
                    return [(st, TOPSTR)]
                cur = nxt
            return [(s, text(cs)) for s, cs in cur]
        except Unsupported:
            return [(st, TOPSTR)]

    def padded(self, c, spec, left=True):
        """the characters filled up to a width by a format specification; None when it is of another kind"""
        if c is None or not spec:
            return c
        m = re.fullmatch(r"(?:(.)?([<>^]))?(\d+)s?", spec)
        if m is None or m.group(2) is None and m.group(3)[0] == "0":
            return None
        gap = max(0, int(m.group(3)) - len(c))
        side = m.group(2) or ("<" if left else ">")
        a = {"<": 0, ">": gap, "^": gap // 2}[side]
        f = ("c", m.group(1) or " ")
        return (f,) * a + tuple(c) + (f,) * (gap - a)

    def as_text(self, st, v):
        if v[0] == "str" or is_const(v):
            return v
        if v[0] == "i":
            x = st.num.norm(v[1])
            if x.is_const() and x.c == int(x.c):
                return ("c", str(int(x.c)))
        if v[0] == "c" and isinstance(v[1], float):
            return ("c", str(v[1]))
        if v[0] == "c" and isinstance(v[1], bool) or v[0] == "none":
            return ("c", str(v[1] if v[0] == "c" else None))
        return TOPSTR

    def texts_of(self, st, v, name, n, ctx):
        """str() or repr() of a value: an object's own method when it has one"""
        if v[0] == "p":
            o = st.objs.get(v)
            if o is not None and not isinstance(o.cls, str):
                for m in (name, "__repr__"):
                    e, _ = o.cls.lookup(m)
                    if e is not None:
                        return self.call_func(e[1], [v], {}, st, n)
        if name == "__repr__" and chars(v) is not None:
            return [(st, ("c", repr(v[1])) if is_const(v) else TOPSTR)]
        return [(st, self.as_text(st, v))]

    def bi_str(self, st, args, kw, n, ctx):
        if len(args) == 1:
            return self.texts_of(st, args[0], "__str__", n, ctx)
        return [(st, ("c", "") if not args else TOPSTR)]

    def bi_repr(self, st, args, kw, n, ctx):
        return self.texts_of(st, args[0], "__repr__", n, ctx) if len(args) == 1 else [(st, TOPSTR)]

    def bi_int(self, st, args, kw, n, ctx):
        if len(args) == 1 and chars(args[0]) is not None:
            if is_const(args[0]):
                try:
                    return [(st, I(int(args[0][1])))]
                except ValueError:
                    pass
            elif not any(c[0] == "e" for c in args[0][1]):
                pass
            else:
                return [(st, Exc("ValueError", n, ctx.func))]
            return [(st, Exc("ValueError", n, ctx.func))]
        return Interp.bi_int(self, st, args, kw, n, ctx)

    def bi_len(self, st, args, kw, n, ctx):
        if args[0][0] == "str":
            return [(st, I(len(args[0][1])))]
        return Interp.bi_len(self, st, args, kw, n, ctx)

    def binop(self, st, op, a, b, n, ctx):
        ca, cb = chars(a), chars(b)
        if op == "Add" and ca is not None and cb is not None:
            return [(st, text(ca + cb))]
        if op == "Mult" and (ca is not None and b[0] == "i" or cb is not None and a[0] == "i"):
            cs, k = (ca, b) if ca is not None else (cb, a)
            x = st.num.norm(k[1])
            if x.is_const():
                return [(st, text(cs * max(0, int(x.c))))]
        if op == "Mod" and is_const(a):
            parts = re.split(r"%([%sd])", a[1])
            vals = list(b[1]) if b[0] == "tup" else [b]
            if "%" not in "".join(parts[::2]) and len(vals) == sum(k != "%" for k in parts[1::2]):
                out, it = [], iter(vals)
                for k, p in enumerate(parts):
                    c1 = tuple(("c", c) for c in p) if k % 2 == 0 else (("c", "%"),)
                    if k % 2 and p != "%":
                        v = next(it)
                        c1 = chars(self.as_text(st, v)) if p == "s" or v[0] == "i" else None
                    if c1 is None:
                        return [(st, TOPSTR)]
                    out.extend(c1)
                return [(st, text(out))]
            return [(st, TOPSTR)]
        if op == "Mult" and {a[0], b[0]} == {"p", "i"}:
            r, k = (a, b) if a[0] == "p" else (b, a)
            o, x = st.objs.get(r), st.num.norm(k[1])
            if o is not None and o.cls == "list" and x.is_const() and all(q[0] == "E" for q in o.a["w"][1]):
                return [(st, self.new_list(st, o.a["w"][1] * max(0, int(x.c))))]
        if op == "Add" and (ca is not None and b[0] in ("none", "i", "p", "tup") or cb is not None and a[0] in ("none", "i", "p", "tup")):
            return [(st, Exc("TypeError", n, ctx.func))]
        if op in ("Sub", "Div", "FloorDiv", "Pow") and (ca is not None or cb is not None) and \
                {a[0], b[0]} <= {"str", "c", "i", "none", "tup"}:
            return [(st, Exc("TypeError", n, ctx.func))]
        if "str" in (a[0], b[0]):
            raise self.uns(f"operator {op} on a text", n, ctx)
        return Interp.binop(self, st, op, a, b, n, ctx)

    def getattr(self, st, v, name, n, ctx):
        if v[0] == "str":
            return [(st, ("sm", name, v))]
        return Interp.getattr(self, st, v, name, n, ctx)

    def index_of(self, st, k, ln):
        """constant index k into a sequence of ln items, or None"""
        x = st.num.norm(k[1])
        if not x.is_const():
            return "?"
        i = int(x.c)
        return i if -ln <= i < ln else None

    def bounds(self, st, sl, ln):
        out = []
        for v in sl[1:4]:
            if v == NONE:
                out.append(None)
                continue
            x = st.num.norm(v[1]) if v[0] == "i" else None
            if x is None or not x.is_const():
                return None
            out.append(int(x.c))
        return slice(*out)

    def getitem(self, st, b, i, n, ctx):
        cs = chars(b)
        if cs is not None:
            if i[0] == "slice":
                sl = self.bounds(st, i, len(cs))
                if sl is None:
                    raise self.uns("slice of a text", n, ctx)
                return [(st, text(cs[sl]))]
            if i[0] == "i":
                k = self.index_of(st, i, len(cs))
                if k == "?":
                    raise self.uns("index into a text", n, ctx)
                return [(st, Exc("IndexError", n, ctx.func) if k is None else text((cs[k],)))]
            return [(st, Exc("TypeError", n, ctx.func))]
        if b[0] == "p" and i[0] == "slice" and b in st.objs and st.objs[b].cls == "list":
            w = st.objs[b].a["w"][1]
            if all(x[0] == "E" for x in w):
                sl = self.bounds(st, i, len(w))
                if sl is not None:
                    return [(st, self.new_list(st, w[sl]))]
        if b[0] == "tup" and i[0] == "slice":
            sl = self.bounds(st, i, len(b[1]))
            if sl is not None:
                return [(st, ("tup", b[1][sl]))]
        return Interp.getitem(self, st, b, i, n, ctx)

    def run_for(self, st, ctx, itv, target, body, node, uid):
        cs = chars(itv)
        if cs is not None:
            itv = ("tup", tuple(text((c,)) for c in cs))
        elif itv[0] == "p" and itv in st.objs and st.objs[itv].cls == "dict":
            itv = ("tup", tuple(kv[1][0] for kv in st.objs[itv].a["kv"][1]))
        elif itv[0] == "p" and itv in st.objs and st.objs[itv].cls == "set":
            itv = ("tup", st.objs[itv].a["el"][1])
        elif itv[0] == "zip":
            cols = [self.spelled(st, x) for x in itv[1]]
            if any(c is None for c in cols):
                raise self.uns("zip", node, ctx)
            itv = ("tup", tuple(("tup", r) for r in zip(*cols)))
        elif itv[0] == "p" and itv in st.objs and st.objs[itv].cls == "list" and not getattr(node, "_live", False):
            w = st.objs[itv].a["w"][1]
            if all(i[0] == "E" for i in w):
                return self.live_for(st, ctx, itv, target, body, node, uid)
        if itv[0] == "tup":
            return self.tup_for(st, ctx, itv, target, body, node, uid)
        return Interp.run_for(self, st, ctx, itv, target, body, node, uid)

    def tup_for(self, st, ctx, itv, target, body, node, uid):
        d, it = ctx.depth, f"$it{uid}"
        st.frames[d][it] = itv
        return self.steps_for(st, ctx, it, lambda s, k: s.frames[d][it][1][k] if k < len(s.frames[d][it][1]) else None,
                              target, body)

    def live_for(self, st, ctx, lp, target, body, node, uid):
        """Iteration over a list sees the changes made to it meanwhile."""
        d, it = ctx.depth, f"$it{uid}"
        st.frames[d][it] = lp

        def at(s, k):
            w = s.objs[s.frames[d][it]].a["w"][1]
            return w[k][1] if k < len(w) else None
        return self.steps_for(st, ctx, it, at, target, body)

    def steps_for(self, st, ctx, it, at, target, body):
        d = ctx.depth
        outs, work = [], [(st, 0)]
        while work:
            s, k = work.pop()
            self.tick()
            v = at(s, k)
            if v is None:
                s.frames[d].pop(it, None)
                outs.append((s, None))
                continue
            if k > MAXIT:
                if not s.exact:
                    raise Unsupported("a loop goes on")
                s.frames[d].pop(it, None)
                outs.append((s, ("raise", Exc("endless loop", None, ctx.func))))
                continue
            for s2, sig in self.assign(target, s, v, ctx):
                if sig is not None:
                    outs.append((s2, sig))
                    continue
                for s3, sg in body(s2):
                    if sg is None or sg == ("continue",):
                        work.append((s3, k + 1))
                    else:
                        s3.frames[d].pop(it, None)
                        outs.append((s3, sg))
        return outs

    def spelled(self, st, v):
        """The items of an iterable value, or None."""
        cs = chars(v)
        if cs is not None:
            return tuple(text((c,)) for c in cs)
        if v[0] == "tup":
            return v[1]
        if v[0] == "range":
            b = [st.num.norm(x[1]) for x in v[1:4]]
            if all(x.is_const() for x in b) and b[2].c:
                return tuple(I(k) for k in range(*[int(x.c) for x in b]))
            return None
        if v[0] == "p" and v in st.objs:
            o = st.objs[v]
            if o.cls == "list" and all(i[0] == "E" for i in o.a["w"][1]):
                return tuple(i[1] for i in o.a["w"][1])
            if o.cls == "dict":
                return tuple(kv[1][0] for kv in o.a["kv"][1])
            if o.cls == "set":
                return o.a["el"][1]
        return None

    def str_method(self, st, name, v, args, kw, n, ctx):
        if v[0] == "slice" and name == "indices" and len(args) == 1 and args[0][0] == "i":
            x = st.num.norm(args[0][1])
            sl = self.bounds(st, v, 0)
            if x.is_const() and sl is not None:
                if sl.step == 0:
                    return [(st, Exc("ValueError", n, ctx.func))]
                return [(st, ("tup", tuple(I(k) for k in sl.indices(int(x.c)))))]
        cs = chars(v)
        if cs is None or kw:
            return Interp.str_method(self, st, name, v, args, kw, n, ctx)
        ac = [chars(a) for a in args]
        if name in ("strip", "lstrip", "rstrip") and not args:
            lo, hi = 0, len(cs)
            ws = lambda c: c[0] == "c" and c[1].isspace()
            while name != "rstrip" and lo < hi and ws(cs[lo]):
                lo += 1
            while name != "lstrip" and lo < hi and ws(cs[hi - 1]):
                hi -= 1
            return [(st, text(cs[lo:hi]))]
        if name == "isspace" and not args:
            return [(st, ("c", bool(cs) and all(c[0] == "c" and c[1].isspace() for c in cs)))]
        if name == "replace" and len(args) == 2 and is_const(args[0]) and args[0][1] and ac[1] is not None:
            pat, out, i = ac[0], [], 0
            while i < len(cs):
                if cs[i:i + len(pat)] == pat:
                    out.extend(ac[1])
                    i += len(pat)
                else:
                    out.append(cs[i])
                    i += 1
            return [(st, text(out))]
        if name in ("split", "partition") and len(args) == 1 and is_const(args[0]) and args[0][1]:
            pat, parts, cur, i = ac[0], [], [], 0
            while i < len(cs):
                if cs[i:i + len(pat)] == pat and not (name == "partition" and parts):
                    parts.append(text(cur))
                    cur = []
                    i += len(pat)
                else:
                    cur.append(cs[i])
                    i += 1
            parts.append(text(cur))
            if name == "partition":
                return [(st, ("tup", (parts[0], args[0], parts[1]) if len(parts) == 2 else (v, ("c", ""), ("c", ""))))]
            return [(st, self.new_list(st, tuple(("E", p) for p in parts)))]
        if name == "join" and len(args) == 1:
            items = self.spelled(st, args[0])
            if items is not None:
                out = []
                for k, x in enumerate(items):
                    c = chars(x)
                    if c is None:
                        if x[0] == "top":
                            return [(st, TOPSTR)]
                        return [(st, Exc("TypeError", n, ctx.func))]
                    out.extend((cs if k else ()) + c)
                return [(st, text(out))]
        if name in ("startswith", "endswith") and len(args) in (2, 3) and ac[0] is not None:
            sl = self.bounds(st, ("slice",) + tuple(args[1:]) + ((NONE,) if len(args) == 2 else ()) + (NONE,), len(cs))
            if sl is None:
                raise self.uns(f"str.{name}", n, ctx)
            if sl.start is not None and sl.start > len(cs):
                return [(st, FALSE)]
            return self.str_method(st, name, text(cs[sl]), args[:1], kw, n, ctx)
        if name == "format" and is_const(v) and not kw:
            out, auto, ok = [], 0, True
            try:
                parts = list(string.Formatter().parse(v[1]))
            except ValueError:
                return [(st, TOPSTR)]
            for lit, field, spec, conv in parts:
                out.extend(("c", c) for c in lit)
                if field is None:
                    continue
                if field == "":
                    field, auto = str(auto), auto + 1
                if not field.isdigit() or int(field) >= len(args) or "{" in spec or conv not in (None, "s"):
                    return [(st, TOPSTR)]
                c1 = self.padded(chars(self.as_text(st, args[int(field)])), spec, args[int(field)][0] != "i")
                if c1 is None:
                    return [(st, TOPSTR)]
                out.extend(c1)
            return [(st, text(out))]
        if name in ("ljust", "rjust", "center") and len(args) in (1, 2) and args[0][0] == "i":
            x, f = st.num.norm(args[0][1]), ac[1] if len(args) == 2 else (("c", " "),)
            if x.is_const() and f is not None and len(f) == 1:
                gap = max(0, int(x.c) - len(cs))
                a = {"ljust": 0, "rjust": gap, "center": gap // 2 + (gap & int(x.c) & 1)}[name]
                return [(st, text(tuple(f) * a + tuple(cs) + tuple(f) * (gap - a)))]
        if name in ("startswith", "endswith") and len(args) == 1 and ac[0] is not None:
            k = len(ac[0])
            part = (cs[:k] if name == "startswith" else cs[len(cs) - k:]) if k <= len(cs) else None
            if part is None:
                return [(st, FALSE)]
            return [(s, ("c", r)) for s, r in self.equal(st, "Eq", text(part), args[0], n, ctx)]
        if not is_const(v) or any(a is not None and not is_const(b) for a, b in zip(ac, args)):
            if all(a is not None for a in ac):
                if name in ("strip", "lstrip", "rstrip") and len(args) == 1:
                    return self.strip_chars(st, name, v, args[0], n, ctx)
                if name in ("removeprefix", "removesuffix") and len(args) == 1:
                    k, m = len(ac[0]), len(cs)
                    if k > m:
                        return [(st, v)]
                    a, b = (0, k) if name == "removeprefix" else (m - k, m)
                    st.temps.append(v)
                    out = []
                    for s, r in self.equal(st, "Eq", text(cs[a:b]), args[0], n, ctx):
                        c2 = chars(s.temps.pop())
                        out.append((s, text(c2[:a] + c2[b:] if r is True else c2)))
                    return out
                if name in ("find", "rfind", "index", "rindex", "count", "split", "partition", "rpartition", "replace") and \
                        len(args) == (2 if name == "replace" else 1):
                    return self.search_text(st, name, v, args, n, ctx)
        if name in ("lower", "upper") and not args and not is_const(v):
            raise self.uns("case of unknown characters", n, ctx)
        if is_const(v) and not any(a[0] == "str" for a in args):
            if name == "format":
                return [(st, TOPSTR)]
            return Interp.str_method(self, st, name, v, args, kw, n, ctx)
        raise self.uns(f"str.{name}", n, ctx)

    def strip_chars(self, st, name, v, what, n, ctx):
        """v.strip(what) with unknown characters: the states are told apart by which characters are stripped."""
        st.temps.extend((v, what))
        done = []
        for side in ("l", "r"):
            if name not in ("strip", side + "strip"):
                continue
            work, done = (done or [st]), []
            while work:
                s = work.pop()
                cs, ws = chars(s.temps[-2]), chars(s.temps[-1])
                if not cs:
                    done.append(s)
                    continue
                for s2, r in self.contains(s, text((cs[0 if side == "l" else -1],)), text(ws), n, ctx):
                    if r is True:
                        c2 = chars(s2.temps[-2])
                        s2.temps[-2] = text(c2[1:] if side == "l" else c2[:-1])
                        work.append(s2)
                    elif r is False:
                        done.append(s2)
                    else:
                        raise self.uns("str." + name, n, ctx)
        out = []
        for s in done:
            r = s.temps[-2]
            del s.temps[-2:]
            out.append((s, r))
        return out

    def search_text(self, st, name, v, args, n, ctx):
        """find, count, split, replace ... with unknown characters: told apart by where the pattern occurs."""
        k, m = len(chars(args[0])), len(chars(v))
        if k == 0:
            raise self.uns(f"str.{name} of an empty text", n, ctx)
        back = name in ("rfind", "rindex", "rpartition")
        once = name not in ("count", "split", "replace")
        base = len(st.temps)
        st.temps.extend([v] + list(args))
        found, work = [], [(st, m - k if back else 0, ())]
        while work:
            s, i, at = work.pop()
            if not 0 <= i <= m - k or once and at:
                found.append((s, at))
                continue
            for s2, r in self.equal(s, "Eq", text(chars(s.temps[base])[i:i + k]), s.temps[base + 1], n, ctx):
                if r is True:
                    work.append((s2, i + k, at + (i,)))
                elif r is False:
                    work.append((s2, i - 1 if back else i + 1, at))
                else:
                    raise self.uns("str." + name, n, ctx)
        out = []
        for s, at in found:
            cs, a = chars(s.temps[base]), s.temps[base + 1:base + 1 + len(args)]
            del s.temps[base:]
            if name in ("find", "rfind", "index", "rindex"):
                out.append((s, I(at[0]) if at else I(-1) if "find" in name else Exc("ValueError", n, ctx.func)))
            elif name == "count":
                out.append((s, I(len(at))))
            else:
                cuts = [0] + [c for i in at for c in (i, i + k)] + [m]
                parts = [cs[cuts[j]:cuts[j + 1]] for j in range(0, len(cuts), 2)]
                if name == "split":
                    out.append((s, self.new_list(s, tuple(("E", text(q)) for q in parts))))
                elif name == "replace":
                    r = parts[0]
                    for q in parts[1:]:
                        r = r + chars(a[1]) + q
                    out.append((s, text(r)))
                elif len(parts) == 1:
                    e = ("c", "")
                    out.append((s, ("tup", (text(cs), e, e) if name == "partition" else (e, e, text(cs)))))
                else:
                    out.append((s, ("tup", (text(parts[0]), a[0], text(parts[1])))))
        return out

    def ev_Call(self, n, st, ctx, tail=False):
        # joining constants matters here
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], ast.Starred):
            out = []
            for s, vs in self.evs([n.func.value, n.args[0]], st, ctx):
                if isinstance(vs, Exc):
                    out.append((s, vs))
                elif chars(vs[0]) is not None:
                    arg = vs[1]
                    for s2, a in self.collect(s, arg, n, ctx):
                        if isinstance(a, Exc):
                            out.append((s2, a))
                        else:
                            out.extend(self.str_method(s2, "join", vs[0], [a], {}, n, ctx))
                else:
                    for s2, f in self.getattr(s, vs[0], "join", n, ctx):
                        out.extend([(s2, f)] if isinstance(f, Exc) else self.call(s2, f, [vs[1]], {}, n, ctx))
            return out
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and \
                isinstance(n.func.value.value, str) and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            try:
                out = []
                for s, vs in self.evs(list(n.args), st.copy(), ctx):
                    out.extend([(s, vs)] if isinstance(vs, Exc) else
                               self.str_method(s, "format", ("c", n.func.value.value), list(vs), {}, n, ctx))
                return out
            except Unsupported:
                return [(st, TOPSTR)]
        return Interp.ev_Call(self, n, st, ctx, tail)

    def collect(self, st, v, n, ctx):
        if v[0] == "gen" or v[0] == "p" and v in st.objs and not isinstance(st.objs[v].cls, str):
            return self.bi_list(st, [v], {}, n, ctx)
        return [(st, v)]

    # ------------------------------------------------------------ dictionaries
    def ev_Dict(self, n, st, ctx):
        if any(k is None for k in n.keys):
            raise self.uns("dict display", n, ctx)
        out = []
        for s, vs in self.evs(list(n.keys) + list(n.values), st, ctx):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            k = len(n.keys)
            p = s.alloc("dict", {"kv": ("tup", ())})
            cur = [s]
            s.temps.append(("tup", vs if isinstance(vs, tuple) else tuple(vs)))
            for i in range(k):
                nxt = []
                for x in cur:
                    t = x.temps[-1][1]
                    nxt.extend(y for y, r in self.dict_set(x, p, t[i], t[k + i], n, ctx))
                cur = nxt
            for x in cur:
                x.temps.pop()
                out.append((x, p))
        return out

    def dict_find(self, st, d, k, n, ctx):
        """Position of key k -> [(state, index or None)]"""
        if k[0] == "top":
            raise self.uns("unknown dictionary key", n, ctx)
        if k[0] == "p" and k in st.objs and st.objs[k].cls in ("list", "dict", "set"):
            return [(st, Exc("TypeError", n, ctx.func))]
        base = len(st.temps)
        st.temps.append(k)
        out, cur = [], [st]
        for i in range(len(st.objs[d].a["kv"][1])):
            nxt = []
            for s in cur:
                for s2, r in self.equal(s, "Eq", s.objs[d].a["kv"][1][i][1][0], s.temps[base], n, ctx):
                    if r is True:
                        del s2.temps[base:]
                        out.append((s2, i))
                    elif r is False:
                        nxt.append(s2)
                    else:
                        raise self.uns("comparison of keys", n, ctx)
            cur = nxt
        for s in cur:
            del s.temps[base:]
            out.append((s, None))
        return out

    def dict_set(self, st, d, k, v, n, ctx):
        st.temps.append(("tup", (k, v)))
        out = []
        for s, i in self.dict_find(st, d, k, n, ctx):
            k2, v2 = s.temps.pop()[1]
            if isinstance(i, Exc):
                out.append((s, i))
                continue
            kv = s.objs[d].a["kv"][1]
            e = ("tup", ((kv[i][1][0] if i is not None else k2), v2))
            s.objs[d].a["kv"] = ("tup", kv[:i] + (e,) + kv[i + 1:] if i is not None else kv + (e,))
            out.append((s, None))
        return out

    def dict_del(self, s, d, i):
        kv = s.objs[d].a["kv"][1]
        s.objs[d].a["kv"] = ("tup", kv[:i] + kv[i + 1:])
        return kv[i][1][1]

    def native_getitem(self, st, b, i, n, ctx):
        if st.objs[b].cls == "dict":
            return [(s, k if isinstance(k, Exc) else Exc("KeyError", n, ctx.func) if k is None
                     else s.objs[b].a["kv"][1][k][1][1]) for s, k in self.dict_find(st, b, i, n, ctx)]
        return [(st, Exc("TypeError", n, ctx.func))]

    def native_setitem(self, st, b, i, v, n, ctx):
        if st.objs[b].cls == "dict":
            return self.dict_set(st, b, i, v, n, ctx)
        return [(st, Exc("TypeError", n, ctx.func))]

    def native_delitem(self, st, b, i, n, ctx):
        out = []
        for s, k in self.dict_find(st, b, i, n, ctx):
            if k is None or isinstance(k, Exc):
                out.append((s, k or Exc("KeyError", n, ctx.func)))
            else:
                self.dict_del(s, b, k)
                out.append((s, None))
        return out

    def native_contains(self, st, a, b, n, ctx):
        o = st.objs[b]
        if o.cls == "dict":
            return [(s, k if isinstance(k, Exc) else k is not None) for s, k in self.dict_find(st, b, a, n, ctx)]
        return self.contains(st, a, o.a["el"], n, ctx)

    def native_len(self, st, v, n, ctx):
        o = st.objs[v]
        return [(st, I(len(o.a["kv" if o.cls == "dict" else "el"][1])))]

    def native_truth(self, s, w, n, ctx):
        o = s.objs[w]
        return [(s, bool(o.a["kv" if o.cls == "dict" else "el"][1]))]

    def native_method(self, st, name, lp, args, kw, n, ctx):
        o = st.objs[lp]
        if kw:
            raise self.uns(f"{o.cls}.{name} keywords", n, ctx)
        if o.cls == "dict":
            kv = o.a["kv"][1]
            if name in ("keys", "values", "items") and not args:
                k = {"keys": 0, "values": 1}.get(name)
                return [(st, self.new_list(st, tuple(("E", e if k is None else e[1][k]) for e in kv)))]
            if name == "copy":
                return [(st, st.alloc("dict", dict(o.a)))]
            if name == "clear":
                o.a["kv"] = ("tup", ())
                return [(st, NONE)]
            if name in ("get", "pop", "setdefault"):
                out = []
                st.temps.append(("tup", tuple(args)))
                for s, i in self.dict_find(st, lp, args[0], n, ctx):
                    a = s.temps.pop()[1]
                    if isinstance(i, Exc):
                        out.append((s, i))
                    elif i is None:
                        if name == "pop" and len(a) < 2:
                            out.append((s, Exc("KeyError", n, ctx.func)))
                            continue
                        d = a[1] if len(a) > 1 else NONE
                        if name == "setdefault":
                            s.objs[lp].a["kv"] = ("tup", s.objs[lp].a["kv"][1] + (("tup", (a[0], d)),))
                        out.append((s, d))
                    else:
                        out.append((s, self.dict_del(s, lp, i) if name == "pop" else s.objs[lp].a["kv"][1][i][1][1]))
                return out
            if name == "popitem" and not args:
                if not kv:
                    return [(st, Exc("KeyError", n, ctx.func))]
                o.a["kv"] = ("tup", kv[:-1])
                return [(st, kv[-1])]
            if name == "update" and len(args) == 1 and args[0][0] == "p" and args[0] in st.objs and st.objs[args[0]].cls == "dict":
                cur = [st]
                src = args[0]
                for i in range(len(st.objs[src].a["kv"][1])):
                    nxt = []
                    for s in cur:
                        e = s.objs[src].a["kv"][1][i][1]
                        nxt.extend(x for x, r in self.dict_set(s, lp, e[0], e[1], n, ctx))
                    cur = nxt
                return [(s, NONE) for s in cur]
        if o.cls == "set":
            if name == "add":
                return self.set_add(st, lp, args[0], n, ctx)
            if name == "update" and len(args) == 1:
                xs = self.spelled(st, args[0])
                if xs is not None:
                    return [(s, NONE) for s in self.set_all(st, lp, xs, n, ctx)]
            if name in ("remove", "discard"):
                out = []
                for s, i in self.find_item(st, lp, args[0], n, ctx):
                    el = s.objs[lp].a["el"][1]
                    if i is None:
                        out.append((s, NONE if name == "discard" else Exc("KeyError", n, ctx.func)))
                    else:
                        s.objs[lp].a["el"] = ("tup", el[:i] + el[i + 1:])
                        out.append((s, NONE))
                return out
            if name == "copy":
                return [(st, st.alloc("set", dict(o.a)))]
            if name == "clear":
                o.a["el"] = ("tup", ())
                return [(st, NONE)]
        raise self.uns(f"{o.cls}.{name}", n, ctx)

    def list_method(self, st, name, lp, args, kw, n, ctx):
        o = st.objs[lp]
        if o.cls == "list":
            if name == "sort":
                out = []
                for s, r in self.bi_sorted(st, [lp], kw, n, ctx):
                    if isinstance(r, Exc):
                        out.append((s, r))
                    else:
                        s.objs[lp].a["w"] = s.objs[r].a["w"]
                        out.append((s, NONE))
                return out
            if name == "extend" and len(args) == 1:
                out = []
                for s, v in self.collect(st, args[0], n, ctx):
                    if isinstance(v, Exc):
                        out.append((s, v))
                        continue
                    xs = self.spelled(s, v)
                    if xs is None:
                        raise self.uns("list.extend", n, ctx)
                    s.objs[lp].a["w"] = ("w", s.objs[lp].a["w"][1] + tuple(("E", x) for x in xs))
                    out.append((s, NONE))
                return out
            if name == "count" and len(args) == 1 and args[0] not in st.meas:
                out = []
                st.temps.append(args[0])
                base = len(st.temps) - 1
                cur = [(st, 0)]
                for i in range(len(o.a["w"][1])):
                    nxt = []
                    for s, k in cur:
                        for s2, r in self.equal(s, "Eq", s.objs[lp].a["w"][1][i][1], s.temps[base], n, ctx):
                            nxt.append((s2, k + (r is True)))
                    cur = nxt
                for s, k in cur:
                    del s.temps[base:]
                    out.append((s, I(k)))
                return out
        return Interp.list_method(self, st, name, lp, args, kw, n, ctx)

    # ------------------------------------------------------------ sets
    def find_item(self, st, p, v, n, ctx):
        base = len(st.temps)
        st.temps.append(v)
        out, cur = [], [st]
        for i in range(len(st.objs[p].a["el"][1])):
            nxt = []
            for s in cur:
                for s2, r in self.equal(s, "Eq", s.objs[p].a["el"][1][i], s.temps[base], n, ctx):
                    if r is True:
                        del s2.temps[base:]
                        out.append((s2, i))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            del s.temps[base:]
            out.append((s, None))
        return out

    def set_add(self, st, p, v, n, ctx):
        st.temps.append(v)
        out = []
        for s, i in self.find_item(st, p, v, n, ctx):
            x = s.temps.pop()
            if i is None:
                s.objs[p].a["el"] = ("tup", s.objs[p].a["el"][1] + (x,))
            out.append((s, NONE))
        return out

    def set_all(self, st, p, xs, n, ctx):
        st.temps.append(("tup", tuple(xs)))
        cur = [st]
        for i in range(len(xs)):
            cur = [s2 for s in cur for s2, _ in self.set_add(s, p, s.temps[-1][1][i], n, ctx)]
        for s in cur:
            s.temps.pop()
        return cur

    def bi_set(self, st, args, kw, n, ctx):
        out = []
        if not args:
            return [(st, st.alloc("set", {"el": ("tup", ())}))]
        for s, v in self.collect(st, args[0], n, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            xs = self.spelled(s, v)
            if xs is None:
                raise self.uns("set()", n, ctx)
            p = s.alloc("set", {"el": ("tup", ())})
            out.extend((s2, p) for s2 in self.set_all(s, p, xs, n, ctx))
        return out

    def ev_Set(self, n, st, ctx):
        if all(isinstance(e, ast.Name) and e.id in ("int", "float", "str", "bool", "list", "tuple", "dict", "set") for e in n.elts):
            return Interp.ev_Set(self, n, st, ctx)
        out = []
        for s, vs in self.evs(n.elts, st, ctx):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            p = s.alloc("set", {"el": ("tup", ())})
            out.extend((s2, p) for s2 in self.set_all(s, p, tuple(vs), n, ctx))
        return out

    def ev_SetComp(self, n, st, ctx):
        out = []
        for s, v in self.comp(n, st, ctx):
            out.extend([(s, v)] if isinstance(v, Exc) else self.bi_set(s, [v], {}, n, ctx))
        return out

    def ev_DictComp(self, n, st, ctx):
        pair = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        ast.copy_location(pair, n)
        ast.fix_missing_locations(pair)
        out = []
        for s, v in self.comp(pair, st, ctx):
            out.extend([(s, v)] if isinstance(v, Exc) else self.bi_dict(s, [v], {}, n, ctx))
        return out

    def bi_dict(self, st, args, kw, n, ctx):
        p = st.alloc("dict", {"kv": ("tup", tuple(("tup", (("c", k), v)) for k, v in kw.items()))})
        if not args:
            return [(st, p)]
        xs = self.spelled(st, args[0])
        if args[0][0] == "p" and args[0] in st.objs and st.objs[args[0]].cls == "dict":
            xs = st.objs[args[0]].a["kv"][1]
        if xs is None or not all(x[0] == "tup" and len(x[1]) == 2 for x in xs):
            raise self.uns("dict()", n, ctx)
        st.temps.append(("tup", xs))
        cur = [st]
        for i in range(len(xs)):
            cur = [y for s in cur for y, _ in self.dict_set(s, p, s.temps[-1][1][i][1][0], s.temps[-1][1][i][1][1], n, ctx)]
        for s in cur:
            s.temps.pop()
        return [(s, p) for s in cur]

    # ------------------------------------------------------------ builtins over spelled out sequences
    def bi_sorted(self, st, args, kw, n, ctx):
        out = []
        for s, v in self.collect(st, args[0], n, ctx):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            xs = self.spelled(s, v)
            if xs is None:
                raise self.uns("sorted", n, ctx)
            rev = kw.get("reverse", FALSE)
            if rev not in (TRUE, FALSE):
                raise self.uns("sorted", n, ctx)
            keys = []
            for x in xs:
                if "key" not in kw or kw["key"] == NONE:
                    keys.append(x)
                    continue
                rs = self.call(s, kw["key"], [x], {}, n, ctx)
                if len(rs) != 1 or isinstance(rs[0][1], Exc):
                    raise self.uns("sort key", n, ctx)
                s, k = rs[0]
                keys.append(k)
            order = []
            for i in range(len(xs)):
                j = len(order)
                while j > 0:
                    a, b = (keys[i], keys[order[j - 1]]) if rev == FALSE else (keys[order[j - 1]], keys[i])
                    rs = self.key_less(s, a, b, n, ctx)
                    if not rs:
                        break
                    j -= 1
                order.insert(j, i)
            out.append((s, self.new_list(s, tuple(("E", xs[i]) for i in order))))
        return out

    def key_less(self, st, a, b, n, ctx):
        if a[0] == "tup" and b[0] == "tup":
            for x, y in zip(a[1], b[1]):
                if self.key_less(st, x, y, n, ctx):
                    return True
                if self.key_less(st, y, x, n, ctx):
                    return False
            return len(a[1]) < len(b[1])
        rs = self.less(st.copy(), a, b, True, n, ctx, ("Lt", a, b))
        if len(rs) != 1 or not isinstance(rs[0][1], bool) or not rs[0][0].exact and st.exact:
            raise self.uns("sort order", n, ctx)
        return rs[0][1]

    def minmax(self, st, args, kw, n, ctx, ismax):
        if set(kw) <= {"key", "default"} and len(args) == 1 and kw:
            xs = self.spelled(st, args[0])
            if xs is not None:
                if not xs:
                    return [(st, kw["default"] if "default" in kw else Exc("ValueError", n, ctx.func))]
                best, bk = None, None
                for x in xs:
                    k = x
                    if "key" in kw:
                        rs = self.call(st, kw["key"], [x], {}, n, ctx)
                        if len(rs) != 1 or isinstance(rs[0][1], Exc):
                            raise self.uns("key", n, ctx)
                        st, k = rs[0]
                    if best is None or (self.key_less(st, bk, k, n, ctx) if ismax else self.key_less(st, k, bk, n, ctx)):
                        best, bk = x, k
                return [(st, best)]
        if len(args) == 1 and not kw:
            xs = self.spelled(st, args[0])
            if xs is not None and xs and args[0][0] != "tup":
                return Interp.minmax(self, st, [("tup", xs)], kw, n, ctx, ismax)
            if xs == ():
                return [(st, Exc("ValueError", n, ctx.func))]
        return Interp.minmax(self, st, args, kw, n, ctx, ismax)

    def bi_sum(self, st, args, kw, n, ctx):
        xs = self.spelled(st, args[0])
        if xs is not None and all(x[0] in ("i", "c") and (x[0] == "i" or isinstance(x[1], bool)) for x in xs):
            t = Lin(0) if len(args) < 2 else args[1][1]
            for x in xs:
                t = t + (x[1] if x[0] == "i" else Lin(int(x[1])))
            return [(st, ("i", t))]
        return Interp.bi_sum(self, st, args, kw, n, ctx)

    def bi_any(self, st, args, kw, n, ctx, every=False):
        xs = self.spelled(st, args[0])
        if xs is None:
            raise self.uns("any", n, ctx)
        base = len(st.temps)
        st.temps.append(("tup", xs))
        out, cur = [], [st]
        for i in range(len(xs)):
            nxt = []
            for s in cur:
                for s2, r in self.truth(s, s.temps[base][1][i], n, ctx):
                    if isinstance(r, Exc) or r != every:
                        del s2.temps[base:]
                        out.append((s2, r if isinstance(r, Exc) else ("c", r)))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            del s.temps[base:]
            out.append((s, ("c", every)))
        return out

    def bi_all(self, st, args, kw, n, ctx):
        return self.bi_any(st, args, kw, n, ctx, True)

    def bi_reversed(self, st, args, kw, n, ctx):
        xs = self.spelled(st, args[0])
        if xs is not None:
            return [(st, self.new_list(st, tuple(("E", x) for x in reversed(xs))))]
        return Interp.bi_reversed(self, st, args, kw, n, ctx)

    def bi_list(self, st, args, kw, n, ctx):
        if args:
            xs = self.spelled(st, args[0])
            if xs is not None:
                return [(st, self.new_list(st, tuple(("E", x) for x in xs)))]
        return Interp.bi_list(self, st, args, kw, n, ctx)

    def bi_tuple(self, st, args, kw, n, ctx):
        out = []
        for s, p in self.bi_list(st, args, kw, n, ctx) if args else [(st, None)]:
            if p is None:
                out.append((s, ("tup", ())))
            elif isinstance(p, Exc):
                out.append((s, p))
            else:
                out.append((s, ("tup", tuple(i[1] for i in s.objs[p].a["w"][1]))))
        return out

    def bi_map(self, st, args, kw, n, ctx):
        xs = self.spelled(st, args[1]) if len(args) == 2 else None
        if xs is None:
            raise self.uns("map", n, ctx)
        st.temps.append(("tup", xs))
        base = len(st.temps) - 1
        st.temps.append(self.new_list(st, ()))
        out, cur = [], [st]
        for i in range(len(xs)):
            nxt = []
            for s in cur:
                for s2, r in self.call(s, args[0], [s.temps[base][1][i]], {}, n, ctx):
                    if isinstance(r, Exc):
                        del s2.temps[base:]
                        out.append((s2, r))
                    else:
                        lp = s2.temps[base + 1]
                        s2.objs[lp].a["w"] = ("w", s2.objs[lp].a["w"][1] + (("E", r),))
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            lp = s.temps[base + 1]
            del s.temps[base:]
            out.append((s, lp))
        return out
