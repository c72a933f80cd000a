"""Histories: every sequence of a few public calls on an object made by its constructor, the values symbolic.

Nothing here relies on how a class represents its contents (only the link and balance checks read node fields): the
pre-states are whatever the constructor and the calls build, so fields the other contracts do not know about (caches,
counters, remembered ends) are carried along and a stale one shows in a later answer."""
from .lin import Lin
from .state import NONE, TRUE, FALSE, I, Unsupported, show
from .harness import Bad, X, describe, add_case
from .interp import Exc
from .texts import text


def chain(env, n):
    """n numbers in increasing order"""
    xs = [env.elem("num") for _ in range(n)]
    for a, b in zip(xs, xs[1:]):
        env.st.add_fact("lt", a, b)
    return xs


def distinct(env, n, kind="obj"):
    xs = [env.elem(kind) for _ in range(n)]
    for i, a in enumerate(xs):
        for b in xs[:i]:
            env.ne(a, b)
    return xs


class Hist:
    """One family of histories."""
    draws = None

    def __init__(self, env):
        self.env = env
        env.spelled()
        if self.draws is not None:
            env.it.draws = self.draws
        self.labels = []

    # -- running one call
    def checked(self, st, what, go, post):
        """Run go(st), check every exit -> the states in which post held."""
        env, good = self.env, []
        st.events = frozenset() if isinstance(st.events, frozenset) else type(st.events)()
        if self.draws is not None:
            st.ghosts["draws:"] = I(0)
        try:
            exits = go(st)
        except Unsupported as e:
            if str(e) not in env.unk:
                env.unk.append(str(e))
            return []
        for s, v in exits:
            if not s.num.sat() or not s.order_ok():
                continue
            env.exits += 1
            x = X(env, s, v)
            try:
                post(x)
                env.exit_ok += 1
                good.append(s)
            except Bad as b:
                b.msg = f"after {', '.join(self.labels) or 'construction'}: {b.msg}"
                env.bads.append(describe(env, b, b.st or s, v))
            except Unsupported as e:
                if str(e) not in env.unk:
                    env.unk.append(str(e))
        return good

    def ask(self, st, m, args, post, recv="self"):
        """A reading call on a copy of the state."""
        return self.checked(st.copy(), m, lambda s: self.env.run(s, recv, m, args), post)

    # -- exploration
    def explore(self, states, model, depth, k=0):
        if not any(b["definite"] for b in self.env.bads):
            for st in states:
                self.reads(st, model)
        if depth == 0 or not states or any(b["definite"] for b in self.env.bads):
            return
        for label, go, post, after in self.ops(model, k):
            self.labels.append(label)
            nxt = []
            for st in states:
                nxt += self.checked(st.copy(), label, go, post)
            self.explore(nxt, after, depth - 1, k + 1)
            self.labels.pop()

    def start(self, cname, args, model, depth):
        self.cname = cname
        st0 = self.env.st
        cur = []

        def made(x):
            x.returned()
            x.st.ghosts["self"] = x.val
        cur = self.checked(st0, "construction", lambda s: self.env.construct(s, cname, args(s) if callable(args) else args), made)
        self.explore(cur, model, depth)

    def call(self, m, args=(), recv="self"):
        return lambda s: self.env.run(s, recv, m, [a(s) if callable(a) else a for a in args])


def ok(x):
    x.returned()


def gives(v, what):
    def post(x):
        r = x.returned()
        if isinstance(v, bool):
            x.bool_is(r, v, what)
        elif isinstance(v, int):
            x.int_is(r, Lin(v), what)
        else:
            x.val_is(r, v, what)
    return post


def raises(*names):
    return lambda x: x.raised(*names)


def values(x, v, what):
    out = []
    for it in x.pylist(v, what):
        if it[0] != "E":
            raise Unsupported(f"{what}: unknown part")
        out.append(it[1])
    return out


def lists(want, what):
    def post(x):
        got = values(x, x.returned(), what)
        if len(got) != len(want):
            raise Bad(f"{what}: {len(got)} items instead of {len(want)}", x.st)
        for a, b in zip(got, want):
            x.val_is(a, b, what)
    return post


def same_set(want, what):
    def post(x):
        got = values(x, x.returned(), what)
        if len(got) != len(want):
            raise Bad(f"{what}: {len(got)} items instead of {len(want)}", x.st)
        rest = list(want)
        for v in got:
            for w in rest:
                try:
                    x.val_is(v, w, what)
                except Bad:
                    continue
                rest.remove(w)
                break
            else:
                raise Bad(f"{what}: {show(v)} should not be there", x.st)
    return post


# ---------------------------------------------------------------- lists
class Lists(Hist):
    def go(self, cname, n, depth):
        self.pool = distinct(self.env, n + depth + 3)
        self.spare = self.pool[n + depth:]
        first = self.pool[:n]
        self.base = n

        def args(s):
            return [s.alloc("list", {"w": ("w", tuple(("E", v) for v in first))})] if n else []
        self.start(cname, args, list(first), depth)

    def extend(self, vals):
        def go(s):
            p = s.alloc("list", {"w": ("w", tuple(("E", v) for v in vals))})
            out = []
            for s2, o in self.env.construct(s, self.cname, [p]):
                out += [(s2, o)] if isinstance(o, Exc) else self.env.run(s2, "self", "extend", [o])
            return out
        return go

    def edits(self, m, k):
        v, n = self.pool[self.base + k], len(m)
        c, out = self.call, []

        def op(label, meth, args, new, post=ok):
            out.append((label, c(meth, args), post, new))
        op("add_front", "add_front", [v], [v] + m)
        op("add_end", "add_end", [v], m + [v])
        if n:
            op("add_end of a present item", "add_end", [m[0]], m + [m[0]])
            op("insert at 1", "insert", [I(1), v], m[:1] + [v] + m[1:])
            op("setting the last", "__setitem__", [I(n - 1), v], m[:-1] + [v])
            op("del first", "__delitem__", [I(0)], m[1:])
            op("remove of the first's value", "remove", [m[0]], [x for x in m if x != m[0]])
            i = len(m) - 1
            j = m.index(m[-1])
            op("remove of the last's value once", "remove", [m[-1], FALSE], m[:j] + m[j + 1:])
            op("rotate_left", "rotate_left", [I(1)], m[1:] + m[:1])
            op("rotate_right", "rotate_right", [I(1)], m[-1:] + m[:-1])
        if n > 1:
            op("del last", "__delitem__", [I(i)], m[:-1])
        if n > 2:
            op("del second", "__delitem__", [I(1)], m[:1] + m[2:])
        op("remove_front", "remove_front", [], m[1:])
        op("remove_end", "remove_end", [], m[:-1])
        op("clear", "clear", [], [])
        return out

    def ops(self, m, k):
        out = self.edits(m, k)
        two = self.spare[:2]
        out.append(("extend", self.extend(two), ok, m + two))
        return out


class Edits(Lists):
    def reads(self, st, m):
        self.ask(st, "to_list", [], lists(m, "to_list"))
        self.ask(st, "__len__", [], gives(len(m), "len()"))


class Queries(Lists):
    def reads(self, st, m):
        self.ask(st, "is_empty", [], gives(not m, "is_empty"))
        self.ask(st, "__len__", [], gives(len(m), "len()"))
        for i, v in enumerate(m):
            self.ask(st, "__getitem__", [I(i)], gives(v, f"the item at {i}"))
        for v in dict.fromkeys(m + self.pool[:1] + self.pool[-1:]):
            self.ask(st, "__contains__", [v], gives(v in m, "membership"))
        for v in dict.fromkeys(m[:1] + self.pool[-1:]):
            self.ask(st, "count", [v], gives(m.count(v), "count"))


class Links(Lists):
    def reads(self, st, m):
        def post(x):
            s = x.st
            o = s.objs[x.g("self")]
            if self.cname == "DoublyLinkedList":
                if not {"_head", "_tail"} <= set(o.a):
                    raise Unsupported("representation changed")
                p, got = o.a["_tail"], []
                while p != NONE and len(got) <= len(m):
                    a = s.objs[p].a
                    got.append(a["_data"])
                    p = a["_prev"]
                want = m[::-1]
                if len(got) != len(want) or any(a != b for a, b in zip(got, want)):
                    raise Bad(f"walking backwards meets [{' '.join(map(show, got))}] instead of [{' '.join(map(show, want))}]", s)
            elif m:
                if "_head" not in o.a:
                    raise Unsupported("representation changed")
                p = q = o.a["_head"]
                for v in m:
                    if p == NONE or s.objs[p].a["_data"] != v:
                        raise Bad("walking forwards meets another item", s)
                    p = s.objs[p].a["_next"]
                if p != (q if self.cname == "CircularLinkedList" else NONE):
                    raise Bad("the last node is not linked to where it should be", s)
        self.ask(st, "__len__", [], lambda x: (gives(len(m), "len()")(x), post(x)))


class Derived(Lists):
    """What is derived from a list after edits."""

    def reads(self, st, m):
        n = len(m)

        def has(want, what):
            return lambda x: self.ask2(x, want, what)
        self.ask(st, "copy", [], has(m, "the copy"))
        self.ask(st, "reverse", [], has(m[::-1], "the reversed list"))
        self.ask(st, "__iter__", [], lambda x: self.items(x, m))
        for k in {0, n // 2, n} if self.cname != "CircularLinkedList" else {0, n // 2}:
            def pieces(x, k=k):
                r = x.returned()
                if r[0] != "tup" or len(r[1]) != 2:
                    raise Bad("split does not give two lists", x.st)
                for p, w in zip(r[1], (m[:k], m[k:])):
                    x.val = p
                    self.ask2(x, w, f"a piece of the split at {k}")
            self.ask(st, "split", [I(k)], pieces)
        if n:
            self.ask(st, "rotate_left", [I(1), FALSE], has(m[1:] + m[:1], "the rotated list"))
            self.ask(st, "rotate_right", [I(1), FALSE], has(m[-1:] + m[:-1], "the rotated list"))

    def items(self, x, m):
        for s, v in self.env.gen_list(x.st, x.returned()):
            lists(m, "iteration")(X(self.env, s, v))

    def ask2(self, x, want, what):
        for s, v in self.env.run(x.st.copy(), x.returned(), "to_list", []):
            lists(want, what)(X(self.env, s, v))
        for s, v in self.env.run(x.st.copy(), x.val, "__len__", []):
            gives(len(want), "the length of " + what)(X(self.env, s, v))


class Pair(Lists):
    """A list and one derived from it: edits of one never show in the other."""

    def ops(self, model, k):
        a, b = model
        out = []
        v = self.pool[self.base + k]
        for who, m in (("self", a), ("other", b)):
            if m is None:
                continue

            def put(new, who=who):
                return (new, b) if who == "self" else (a, new)
            nm = "the list" if who == "self" else "the other"
            out.append((f"add_end to {nm}", self.call("add_end", [v], who), ok, put(m + [v])))
            out.append((f"add_front to {nm}", self.call("add_front", [v], who), ok, put([v] + m)))
            if m:
                out.append((f"setting the first of {nm}", self.call("__setitem__", [I(0), v], who), ok, put([v] + m[1:])))
                out.append((f"remove_end of {nm}", self.call("remove_end", [], who), ok, put(m[:-1])))
                out.append((f"remove_front of {nm}", self.call("remove_front", [], who), ok, put(m[1:])))
        def keep(f=None):
            def post(x):
                r = x.returned()
                x.st.ghosts["other"] = f(r) if f else r
            return post

        def part(i):
            def f(r):
                if r[0] != "tup" or len(r[1]) != 2:
                    raise Unsupported("result of split")
                return r[1][i]
            return f
        c = self.call
        out.append(("copy", c("copy"), keep(), (a, list(a))))
        out.append(("reverse", c("reverse"), keep(), (a, a[::-1])))
        if len(a) > 1:
            out.append(("split at 1, first piece", c("split", [I(1)]), keep(part(0)), (a, a[:1])))
            out.append(("split at 0, second piece", c("split", [I(0)]), keep(part(1)), (a, list(a))))
            out.append(("rotate_left into a new one", c("rotate_left", [I(1), FALSE]), keep(), (a, a[1:] + a[:1])))
        out.append(("constructing from it", lambda s: self.env.construct(s, self.cname, [s.ghosts["self"]]), keep(), (a, list(a))))
        if b is not None:
            out.append(("extend by the other", lambda s: self.env.run(s, "self", "extend", [s.ghosts["other"]]), ok, (a + b, b)))
        return out

    def reads(self, st, model):
        for who, m in (("self", model[0]), ("other", model[1])):
            if m is not None:
                nm = "the list" if who == "self" else "the other"
                self.ask(st, "to_list", [], lists(m, "to_list of " + nm), who)
                self.ask(st, "__len__", [], gives(len(m), "len() of " + nm), who)

    def explore(self, states, model, depth, k=0):
        Hist.explore(self, states, (model, None) if k == 0 else model, depth, k)


def put(prop, name, cls, cname, depth, *args, what="any items", **kw):
    """One family of histories, one call longer when time allows it."""
    def fn(env):
        d = depth + (env.scale > 1)
        env.scope = (SCOPE % d).replace("any items", what)
        cls(env).go(cname, *args, d)
    add_case(prop, name, fn, scope=SCOPE % depth, **kw)


SCOPE = "every sequence of at most %d of these calls on new objects, any items"
for _cn in ("LinkedList", "DoublyLinkedList", "CircularLinkedList"):
    for _p, _h, _n in (("P01", Edits, "edits"), ("P06", Queries, "queries after edits"), ("P02", Links, "links after edits"),
                       ("P03", Derived, "derived lists after edits"), ("P04", Pair, "a list and a derived one")):
        if _p == "P02" and _cn == "LinkedList":
            continue
        for _k, _d in ((0, 2), (3, 2 if _p == "P03" else 3)):
            if _p == "P04" and _k == 0:
                continue
            put(_p, f"{_cn} histories: {_n}, {_k} items at first", _h, _cn, _d, _k, budget=120)


# ---------------------------------------------------------------- stacks, queues, deques, priority queues
class Ends(Hist):
    """Containers served at their ends; the model: the items from left to right."""
    # method: which end it adds to / takes from (0 left, -1 right)
    ADD = {"Stack": {"push": -1}, "Queue": {"enqueue": 0}, "Deque": {"append_left": 0, "append_right": -1}}
    TAKE = {"Stack": {"pop": -1}, "Queue": {"dequeue": -1}, "Deque": {"pop_left": 0, "pop_right": -1}}
    LOOK = {"Stack": {"peek": -1}, "Queue": {"top": -1}, "Deque": {"get_left": 0, "get_right": -1}}

    def go(self, cname, cap, depth):
        self.cap = cap
        self.pool = distinct(self.env, depth)
        self.start(cname, [] if cap is None else [I(cap)], [], depth)

    def ops(self, m, k):
        c, out = self.call, []
        v = self.pool[k]
        for name, end in self.ADD[self.cname].items():
            if self.cap is not None and len(m) >= self.cap:
                if self.cname == "Stack":
                    out.append((name, c(name, [v]), raises("OverflowError"), m))
                    continue
                rest = m[1:] if end else m[:-1]
                new = [] if self.cap == 0 else rest + [v] if end else [v] + rest
            else:
                new = m + [v] if end else [v] + m
            out.append((name, c(name, [v]), ok, new))
        for name, end in self.TAKE[self.cname].items():
            out.append((name, c(name), gives(m[end] if m else NONE, name), m[:-1] if end else m[1:]))
        out.append(("clear", c("clear"), ok, []))
        return out

    def reads(self, st, m):
        self.ask(st, "__len__", [], gives(len(m), "len()"))
        self.ask(st, "is_empty", [], gives(not m, "is_empty"))
        self.ask(st, "is_full", [], gives(len(m) == self.cap, "is_full"))
        for name, end in self.LOOK[self.cname].items():
            self.ask(st, name, [], gives(m[end], name) if m else raises("IndexError"))


class Ranked(Ends):
    """Priority queue; the model: (item, priority) from the newest to the oldest."""

    def ops(self, m, k):
        c, out = self.call, []
        v = self.pool[k]
        ps = sorted(p for _, p in m)
        for p in dict.fromkeys([ps[0] - 10, ps[-1] + 10, (ps[0] + ps[1]) // 2 if len(ps) > 1 else ps[0] - 5] if ps else [0]):
            new = [(v, p)] + m
            if self.cap is not None:
                new = new[:self.cap]
            out.append((f"enqueue with priority {p}", c("enqueue", [v, I(p)]), ok, new))
        for low in (False, True):
            best = (min if low else max)(m, key=lambda e: e[1]) if m else None
            out.append((f"dequeue{' the lowest' if low else ''}", c("dequeue", [TRUE] if low else []),
                        gives(best[0] if m else NONE, "dequeue"), [e for e in m if e != best]))
        out.append(("clear", c("clear"), ok, []))
        return out

    def reads(self, st, m):
        self.ask(st, "__len__", [], gives(len(m), "len()"))
        self.ask(st, "is_empty", [], gives(not m, "is_empty"))
        self.ask(st, "is_full", [], gives(len(m) == self.cap, "is_full"))
        for low in (False, True):
            best = (min if low else max)(m, key=lambda e: e[1]) if m else None
            self.ask(st, "dequeue", [TRUE] if low else [], gives(best[0] if m else NONE, "dequeue"))


for _cn, _p, _h, _d in (("Stack", "P08", Ends, 7), ("Queue", "P09", Ends, 7), ("Deque", "P10", Ends, 5), ("PriorityQueue", "P12", Ranked, 5)):
    for _c in (None, 0, 1, 2):
        put(_p if _c is None else "P11", f"{_cn} histories, {'no bound' if _c is None else f'capacity {_c}'}", _h, _cn,
            _d if _c is None else 5, _c, budget=120)


# ---------------------------------------------------------------- search trees
class Search(Hist):
    """Search trees; the model: the sorted values present, as indexes into an increasing chain."""

    def go(self, cname, first, n, depth):
        self.vs = chain(self.env, n)
        if cname == "Treap":
            # given priorities: drawn ones only add orders
            self.ps = chain(self.env, 3)
            self.cname = cname

            def made(x):
                x.returned()
                x.st.ghosts["self"] = x.val
            cur = self.checked(self.env.st, "construction", lambda s: self.env.construct(s, cname, []), made)
            for k, i in enumerate(first):
                cur = [t for s in cur for t in self.checked(s, "insert", self.call("insert", [self.vs[i], self.ps[(k + 1) % 3]]), ok)]
            return self.explore(cur, sorted(first), depth)

        def args(s):
            return [s.alloc("list", {"w": ("w", tuple(("E", self.vs[i]) for i in first))})]
        self.start(cname, args, sorted(first), depth)

    def ops(self, m, k):
        c, out = self.call, []
        for i, v in enumerate(self.vs):
            if i in m:
                out.append((f"remove of value {i}", c("remove", [v]), ok, [j for j in m if j != i]))
            else:
                for pr in ([self.ps[0]], [self.ps[2]]) if self.cname == "Treap" else ([],):
                    out.append((f"insert of value {i}{' with priority %s' % show(pr[0]) if pr else ''}", c("insert", [v] + pr), self.placed(v),
                                sorted(m + [i])))
        if self.cname == "SplayTree":
            for i in m:
                out.append((f"look-up of value {i}", c("__contains__", [self.vs[i]]), self.placed(self.vs[i]), m))
        if k:
            out.append(("clear", c("clear"), ok, []))
        return out

    def placed(self, v):
        return ok

    def tree(self, x):
        """The nodes as linked."""
        from .c_trees import T
        st = x.st
        o = st.objs[x.g("self")]
        if "_root" not in o.a:
            raise Unsupported("representation changed")
        seen = set()

        def go(p):
            if p == NONE:
                return NONE
            n = st.objs.get(p)
            if p[0] != "p" or n is None or not {"_left", "_right", "_data"} <= set(n.a):
                raise Unsupported("representation changed")
            if p in seen:
                raise Bad("a node is reachable in two ways", st)
            seen.add(p)
            return ("tup", (p, ("tup", (go(n.a["_left"]), go(n.a["_right"]))),
                            ("tup", tuple(("tup", (("c", k), n.a[k])) for k in sorted(n.a)))))
        v = go(o.a["_root"])
        return T(v) if v != NONE else None

    def structure(self, st, f):
        """f(x, root) on the state itself."""
        return self.checked(st.copy(), "structure", lambda s: [(s, NONE)], lambda x: f(x, self.tree(x)))

    def field(self, t, k):
        if k not in t.a:
            raise Unsupported("representation changed")
        return t.a[k]


class Items(Search):
    def reads(self, st, m):
        want = [self.vs[i] for i in m]
        self.ask(st, "__len__", [], gives(len(m), "len()"))
        self.ask(st, "is_empty", [], gives(not m, "is_empty"))
        self.ask(st, "inorder_traverse", [], lists(want, "in-order traversal"))
        for i, v in enumerate(self.vs):
            self.ask(st, "__contains__", [v], gives(i in m, "membership"))


class Parents(Search):
    def reads(self, st, m):
        def f(x, t):
            def go(n, up):
                if n is None:
                    return
                if self.field(n, "_parent") != up:
                    raise Bad(f"the parent link of {show(n.x)} names another node", x.st)
                go(n.l, n.p)
                go(n.r, n.p)
            go(t, NONE)
        self.structure(st, f)


class Balance(Search):
    def reads(self, st, m):
        def avl(x, t):
            if t is None:
                return -1
            a, b = avl(x, t.l), avl(x, t.r)
            if abs(a - b) > 1:
                raise Bad("the heights of two siblings differ by more than one", x.st)
            h = max(a, b) + 1
            x.int_is(self.field(t, "_height"), Lin(h), "a stored height")
            return h

        def rb(x, t, up=True):
            from .trees import RED, BLACK
            if t is None:
                return 0
            c = self.field(t, "_color")
            if c not in (RED, BLACK):
                raise Unsupported("colour")
            if up and c == RED:
                raise Bad("a red node has a red parent or is the root", x.st)
            a, b = rb(x, t.l, c == RED), rb(x, t.r, c == RED)
            if a != b:
                raise Bad("paths of one node have different numbers of black nodes", x.st)
            return a + (c == BLACK)

        def treap(x, t):
            from .c_heaps import le
            for k in t.kids if t else ():
                if k:
                    p, q = self.field(k, "_priority"), self.field(t, "_priority")
                    le(x, p, q, "a node has a smaller priority than its child")
                    treap(x, k)
        self.structure(st, {"AVL": avl, "RedBlackTree": rb, "Treap": treap}[self.cname])


class Splayed(Search):
    def placed(self, v):
        def post(x):
            x.returned()
            t = self.tree(x)
            if t is None or t.x != v:
                raise Bad("the accessed value is not at the root", x.st)
        return post

    def reads(self, st, m):
        pass


class Answers(Search):
    SKIP = ("get_depth", "is_strict", "is_perfect")

    def reads(self, st, m):
        from .c_trees import QUERIES, blacks, q_int
        table = dict(QUERIES)
        if self.cname == "RedBlackTree":
            table["get_black_height"] = ((), q_int(blacks))
        for m, (args, ck) in table.items():
            if ":" in m or m in self.SKIP:
                continue
            if m == "__iter__":
                continue

            def post(x, ck=ck, m=m):
                t = self.tree(x)
                if t is None and m in ("get_min", "get_max"):
                    return x.raised("IndexError")
                ck(x, t, x.returned(), m)
            self.ask(st, m, list(args), post)


for _cn in ("BST", "AVL", "RedBlackTree", "Treap", "SplayTree"):
    for _p, _h, _n in (("P13", Items, "values"), ("P14", Parents, "parents"), ({"AVL": "P15", "RedBlackTree": "P16", "Treap": "P17"}.get(_cn), Balance, "balance"),
                       ("P18" if _cn == "SplayTree" else None, Splayed, "value at the root"), ("P19", Answers, "answers")):
        if _p is None:
            continue
        for _f in ((1, 0, 2), (0, 4, 3, 1)):
            put(_p, f"{_cn} histories: {_n}, from values {' '.join(map(str, _f))}", _h, _cn, 3 if _cn == "Treap" else 4, _f, 5,
                what="five values", budget=150)


# larger balanced trees: what a rotation or recolouring leaves behind shows a few calls later
for _cn, _p in (("AVL", "P15"), ("RedBlackTree", "P16")):
    for _f in ((3, 1, 5, 0, 2, 4, 6), (0, 1, 2, 3, 4, 5, 6)):
        put(_p, f"{_cn} histories: balance, from values {' '.join(map(str, _f))}", Balance, _cn, 4, _f, 8, what="eight values", budget=150)
        put("P13", f"{_cn} histories: values, from values {' '.join(map(str, _f))}", Items, _cn, 2, _f, 8, what="eight values", budget=150)


# ---------------------------------------------------------------- heaps
def warned(x):
    x.returned()
    if "warn" not in x.st.events:
        raise Bad("removing what is not there is not reported with a warning", x.st)


class Heaps(Hist):
    """The model: the sorted indexes held, with repetitions."""

    def go(self, cname, first, n, depth):
        self.vs = chain(self.env, n)
        self.cname = cname

        def made(x):
            x.st.ghosts["self"] = x.returned()

        def mk(s):
            if not first:
                return self.env.construct(s, cname, [])
            it = s.alloc("list", {"w": ("w", tuple(("E", self.vs[i]) for i in first))})
            return self.env.call_fn(s, self.env.method(cname, "heapify"), [("cls", self.env.cls(cname)), it])
        self.explore(self.checked(self.env.st, "construction", mk, made), sorted(first), depth)

    def ops(self, m, k):
        c, out = self.call, []
        for i, v in enumerate(self.vs):
            out.append((f"insert of value {i}", c("insert", [v]), ok, sorted(m + [i])))
            if i in m:
                j = m.index(i)
                out.append((f"remove of value {i}", c("remove", [v]), ok, m[:j] + m[j + 1:]))
        out.append(("remove_min", c("remove_min"), ok if m else raises("IndexError"), m[1:]))
        out.append(("remove_max", c("remove_max"), ok if m else raises("IndexError"), m[:-1]))
        out.append(("clear", c("clear"), ok, []))
        return out


class HeapEnds(Heaps):
    def reads(self, st, m):
        self.ask(st, "get_min", [], gives(self.vs[m[0]], "get_min") if m else raises("IndexError"))
        self.ask(st, "get_max", [], gives(self.vs[m[-1]], "get_max") if m else raises("IndexError"))


class HeapItems(Heaps):
    def reads(self, st, m):
        self.ask(st, "__len__", [], gives(len(m), "len()"))
        self.ask(st, "is_empty", [], gives(not m, "is_empty"))
        self.ask(st, "to_list", [], same_set([self.vs[i] for i in m], "to_list"))
        for i, v in enumerate(self.vs):
            self.ask(st, "__contains__", [v], gives(i in m, "membership"))
            if i not in m:
                self.ask(st, "remove", [v], warned)


for _cn in ("MinHeap", "MaxHeap"):
    for _f in ((), (1, 0, 2, 1, 3)):
        for _p, _h, _n in (("P21", HeapEnds, "ends"), ("P22", HeapItems, "items")):
            put(_p, f"{_cn} histories: {_n}, from {len(_f)} values", _h, _cn, 5 - bool(_f or _p == "P22"), _f, 4, what="four values", budget=150)


# ---------------------------------------------------------------- skip lists
class Skips(Hist):
    """The model: the indexes held; every promotion by up to two levels."""
    draws = 3

    def go(self, cname, first, n, depth):
        self.vs = chain(self.env, n)
        self.cname = cname
        self.env.st.ghosts["draws:"] = I(0)

        def made(x):
            x.returned()
            x.st.ghosts["self"] = x.val
        cur = self.checked(self.env.st, "construction", lambda s: self.env.construct(s, cname, []), made)
        for i in first:
            cur = [t for s in cur for t in self.checked(s, "insert", self.call("insert", [self.vs[i]]), ok)]
        self.explore(cur, sorted(first), depth)

    def ops(self, m, k):
        c, out = self.call, []
        for i, v in enumerate(self.vs):
            if i in m:
                out.append((f"remove of value {i}", c("remove", [v]), ok, [j for j in m if j != i]))
            elif k == 0 or i == 0 or len(m) < 2:
                out.append((f"insert of value {i}", c("insert", [v]), ok, sorted(m + [i])))
        if m:
            out.append(("del of the last", c("__delitem__", [I(len(m) - 1)]), ok, m[:-1]))
        out.append(("clear", c("clear"), ok, []))
        return out


class SkipItems(Skips):
    def reads(self, st, m):
        self.ask(st, "to_list", [], lists([self.vs[i] for i in m], "to_list"))
        for i, v in enumerate(self.vs):
            self.ask(st, "__contains__", [v], gives(i in m, "membership"))


class SkipAnswers(Skips):
    def reads(self, st, m):
        self.ask(st, "__len__", [], gives(len(m), "len()"))
        self.ask(st, "is_empty", [], gives(not m, "is_empty"))
        for k, i in enumerate(m):
            self.ask(st, "__getitem__", [I(k)], gives(self.vs[i], f"item {k}"))
        self.ask(st, "__getitem__", [I(len(m))], raises("IndexError"))


for _p, _h, _n in (("P26", SkipItems, "numbers"), ("P27", SkipAnswers, "answers")):
    for _f in ((), (1, 0)):
        put(_p, f"SkipList histories: {_n}, from {len(_f)} numbers", _h, "SkipList", 3, _f, 3, what="three numbers", budget=200)


# ---------------------------------------------------------------- tries
class Words(Hist):
    """The model: the words held, as texts over two characters."""
    POOL = ("a", "ab", "abb", "aba", "b", "abab")

    def go(self, cname, first, depth):
        self.cname = cname
        a, b = distinct(self.env, 2, "chr")
        self.ch = {"a": a, "b": b}

        def made(x):
            x.returned()
            x.st.ghosts["self"] = x.val
        cur = self.checked(self.env.st, "construction", lambda s: self.env.construct(s, cname, []), made)
        for w in first:
            cur = [t for s in cur for t in self.checked(s, "insert", self.call("insert", [self.t(w)]), ok)]
        self.explore(cur, sorted(first), depth)

    def cs(self, w):
        return tuple(self.ch[c] for c in w)

    def t(self, w):
        return text(self.cs(w))

    def ops(self, m, k):
        c, out = self.call, []
        for w in self.POOL:
            out.append((f"insert of {w!r}", c("insert", [self.t(w)]), ok, sorted({*m, w})))
            if w in m:
                out.append((f"remove of {w!r}", c("remove", [self.t(w)]), ok, [u for u in m if u != w]))
        miss = next(w for w in ("ab", "a", "b", "abb", "aba") if w not in m) if len(m) < 5 else None
        if miss and m:
            out.append((f"remove of the missing {miss!r}", c("remove", [self.t(miss)]), warned, m))
        if m:
            out.append(("clear", c("clear"), ok, []))
        return out


class Held(Words):
    def reads(self, st, m):
        for w in self.POOL + ("ba",):
            self.ask(st, "__contains__", [self.t(w)], gives(w in m, f"membership of {w!r}"))
        self.ask(st, "is_empty", [], gives(not m, "is_empty"))


class Prefixes(Words):
    def reads(self, st, m):
        from .c_tries import texts_of, texts_are
        for w in ("a", "ab", "aba", "b", "bb"):
            want = [u for u in m if u.startswith(w)]
            self.ask(st, "has_prefix", [self.t(w)], gives(bool(want), f"has_prefix({w!r})"))
            self.ask(st, "auto_complete", [self.t(w)],
                     lambda x, want=want, w=w: texts_are(x, texts_of(x, x.returned(), "auto_complete"), [self.cs(u) for u in want], f"auto_complete({w!r})"))
        if self.cname == "Trie":
            pre = {u[:k] for u in m for k in range(1, len(u) + 1)}
            self.ask(st, "__len__", [], gives(1 + len(pre), "len()"))
            self.ask(st, "get_height", [], gives(max(map(len, m), default=0), "get_height"))
            self.ask(st, "count_leaf_nodes", [], gives(sum(not any(v != u and v.startswith(u) for v in pre) for u in pre), "count_leaf_nodes"))


for _cn in ("Trie", "RadixTrie"):
    for _p, _h, _n in (("P23", Held, "words"), ("P24", Prefixes, "prefixes")):
        for _f in ((), ("abb", "ab", "aba")):
            put(_p, f"{_cn} histories: {_n}, from {len(_f)} words", _h, _cn, 4 if not _f else 3, _f, what="words over two characters", budget=200)


# ---------------------------------------------------------------- suffix tries
class Suffixes(Hist):
    """Sequences of questions to one suffix trie."""

    def go(self, cname, word, depth):
        self.cname = cname
        a, b = distinct(self.env, 2, "chr")
        self.env.st.add_fact("lt", a, b)
        self.ch = {"a": a, "b": b}
        self.word = word
        self.start(cname, [self.t(word)], None, depth)

    def cs(self, w):
        return tuple(self.ch[c] for c in w)

    def t(self, w):
        return text(self.cs(w))

    def reads(self, st, m):
        pass

    def ops(self, m, k):
        from .c_tries import texts_of, texts_are
        from .c_suffix import repeated, measures, chars
        w, c, out = self.word, self.call, []
        n = len(w)
        for q in ("a", "b", "ab", "ba", "aa", "abab"):
            out.append((f"has_substring({q!r})", c("has_substring", [self.t(q)]), gives(q in w, "has_substring"), m))
            out.append((f"count_pattern_occurrences({q!r})", c("count_pattern_occurrences", [self.t(q)]),
                        gives(sum(w.startswith(q, i) for i in range(n)), "the number of occurrences"), m))
        want = sorted(range(n + 1), key=lambda i: w[i:])
        out.append(("to_suffix_array", c("to_suffix_array"), lists([I(i) for i in want], "the suffix array"), m))
        ln, at = repeated(tuple(w))

        def lrs(x):
            got = texts_of(x, x.returned(), "the longest repeated substrings")
            if ln or got:
                texts_are(x, got, [self.cs(w[i:i + ln]) for i in at], "the longest repeated substrings")
        out.append(("get_longest_repeated_substring", c("get_longest_repeated_substring"), lrs, m))
        for i, j in ((0, 1), (0, 2), (1, 3)):
            d = 0
            while max(i, j) + d < n and w[i + d] == w[j + d]:
                d += 1

            def lca(x, i=i, d=d):
                texts_are(x, [chars(x.returned())], [self.cs(w[i:i + d])], "the common ancestor")
            out.append((f"get_lowest_common_ancestor({i}, {j})", c("get_lowest_common_ancestor", [I(i), I(j)]), lca, m))
        nodes, leaves, height = measures(tuple(w))
        for q, v in (("__len__", nodes), ("count_leaf_nodes", leaves), ("get_height", height)):
            out.append((q, c(q), gives(v, q), m))
        return out


for _f in ("abab", "aabab", "bbb"):
    put("P25", f"SuffixTrie histories, {_f}", Suffixes, "SuffixTrie", 3, _f, what="two characters", budget=150)
