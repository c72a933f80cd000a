"""Contracts of the heaps (MinHeap, MaxHeap): every size up to a bound, the items symbolic and only ordered by the heap
invariant."""
from .lin import Lin
from .state import St, NONE, TRUE, FALSE, I, Unsupported, show
from .harness import Bad, Env, judge, add_case
from .interp import Exc

ORDER, HELD = "P21", "P22"
SIZE = 16
SCOPE = f"every heap of up to {SIZE} items in any admissible order"


def probe(env, cname):
    """The heap is one list: check the constructor still builds that."""
    memo = env.__dict__.setdefault("_hprobe", {})
    if cname not in memo:
        sub = Env(env.prog, 10)
        okk = False
        try:
            for s, p in sub.construct(sub.st, cname):
                o = None if isinstance(p, Exc) else s.objs[p]
                okk = o is not None and set(o.a) == {"_heap"} and s.objs[o.a["_heap"]].cls == "list"
        except (Unsupported, KeyError):
            okk = False
        memo[cname] = okk
    if not memo[cname]:
        raise Unsupported(f"representation of {cname} changed")


def mk(env, cname, n):
    """A heap of n arbitrary items -> state with ghosts self, w."""
    probe(env, cname)
    st = env.st = St()
    xs = [st.new_elem("num") for _ in range(n)]
    for k in range(1, n):
        a, b = xs[(k - 1) // 2], xs[k]
        st.add_fact("le", *((a, b) if cname == "MinHeap" else (b, a)))
    w = ("w", tuple(("E", x) for x in xs))
    st.ghosts["w"] = ("tup", tuple(xs))
    l = st.alloc("list", {"w": w})
    st.ghosts["self"] = st.alloc(env.cls(cname), {"_heap": l})
    return st


def items(x, name="self", what="the heap"):
    o = x.st.objs[x.g(name)]
    if set(o.a) != {"_heap"}:
        raise Unsupported("representation changed")
    out = []
    for it in x.pylist(o.a["_heap"], what):
        if it[0] != "E":
            raise Unsupported(f"{what}: unknown part")
        out.append(it[1])
    return out


def heap_order(x, cname, what="the heap", name="self"):
    xs = items(x, name, what)
    for k in range(1, len(xs)):
        a, b = xs[(k - 1) // 2], xs[k]
        if cname == "MaxHeap":
            a, b = b, a
        le(x, a, b, f"{what}: an item is on the wrong side of the one below it")


def le(x, a, b, msg):
    if a == b or x.st.le(a, b):
        return
    s = x.st.copy()
    if s.add_fact("lt", b, a) and s.num.sat() and s.order_ok():
        raise Bad(msg, s)
    raise Unsupported(f"{msg}: cannot decide")


def multiset(x, got, want, what):
    """Equal as multisets of values."""
    rest = list(want)
    for g in got:
        if g in rest:
            rest.remove(g)
            continue
        c = [r for r in rest if not x.st.known_ne(g, r)]
        if c:
            if g[0] == "top":
                raise Unsupported(f"{what}: unknown item")
            # some order of the values makes them different
            s = x.st.copy()
            for r in c:
                if not s.add_fact("ne", g, r):
                    raise Unsupported(f"{what}: cannot decide")
            if not s.order_ok():
                raise Unsupported(f"{what}: cannot decide")
        raise Bad(f"{what}: {show(g)} is held although it should not be", x.st)
    if rest:
        raise Bad(f"{what}: an item is lost", x.st)


def each(env, cname, op, post, lo=0, hi=SIZE):
    env.spelled()
    for n in range(lo, hi + 1):
        mk(env, cname, n)
        judge(env, op(env, env.st), post)


def pre(x):
    return list(x.g("w")[1])


def length_is(x, n, what="the heap"):
    if len(items(x)) != n:
        raise Bad(f"{what}: {len(items(x))} items instead of {n}", x.st)


def insert_case(cname, aspect):
    def op(env, s):
        s.ghosts["v"] = s.new_elem("num")
        return env.run(s, "self", "insert", [s.ghosts["v"]])

    def post(x):
        x.returned()
        if aspect == ORDER:
            heap_order(x, cname)
        else:
            multiset(x, items(x), pre(x) + [x.g("v")], "items after insert")
    return lambda env: each(env, cname, op, post)


def remove_case(cname, aspect):
    def op(env, s):
        s.ghosts["v"] = s.new_elem("num")
        return env.run(s, "self", "remove", [s.ghosts["v"]])

    def post(x):
        x.returned()
        if aspect == ORDER:
            heap_order(x, cname)
            return
        want, v = pre(x), x.g("v")
        if v in want:
            want.remove(v)
        else:
            if aspect == HELD:
                warned(x)
            for w in want:
                if not x.st.known_ne(w, v) and len(items(x)) == len(want):
                    s = x.st.copy()
                    if s.assume_eq(w, v) and s.order_ok():
                        raise Bad("a value that is there was not removed", s)
        multiset(x, items(x), want, "items after remove")
    return lambda env: each(env, cname, op, post)


def remove_end_case(cname, which, aspect):
    def post(x):
        xs = pre(x)
        if not xs:
            x.raised("IndexError")
            length_is(x, 0)
            return
        x.returned()
        if aspect == ORDER:
            heap_order(x, cname)
        got = items(x)
        gone = list(xs)
        for g in got:
            if g not in gone:
                multiset(x, got, xs[1:], f"items after {which}")
            gone.remove(g)
        if len(gone) != 1:
            raise Bad(f"items after {which}: {len(gone)} items are gone", x.st)
        if aspect == ORDER:
            for y in xs:
                le(x, *((gone[0], y) if which == "remove_min" else (y, gone[0])),
                   f"{which} removes an item that is not the {which[7:]}imum")
    return lambda env: each(env, cname, lambda env, s: env.run(s, "self", which), post)


def get_case(cname, which):
    def post(x):
        xs = pre(x)
        if not xs:
            x.raised("IndexError")
        else:
            r = x.returned()
            if r not in xs:
                raise Bad(f"{which} answers {show(r)}, which is not held", x.st)
            for y in xs:
                le(x, *((r, y) if which == "get_min" else (y, r)), f"{which} does not answer the {which[4:]}imum")
        kept(x)
    return lambda env: each(env, cname, lambda env, s: env.run(s, "self", which), post)


def kept(x, what="a query"):
    got, want = items(x), pre(x)
    if len(got) != len(want):
        raise Bad(f"{what} changes the heap", x.st)
    for a, b in zip(got, want):
        x.val_is(a, b, f"the heap after {what}")


def heapify_case(cname, n, aspect, how):
    def go(env):
        env.spelled()
        probe(env, cname)
        st = env.st = St()
        xs = [st.new_elem("num") for _ in range(n)]
        st.ghosts["w"] = ("tup", tuple(xs))
        it = st.alloc("list", {"w": ("w", tuple(("E", x) for x in xs))})
        st.ghosts["it"] = it

        def post(x):
            p = x.returned()
            o = x.st.objs.get(p)
            if o is None or isinstance(o.cls, str) or o.cls.name != cname:
                raise Bad(f"heapify does not give a {cname}", x.st)
            x.st.ghosts["self"] = p
            if aspect == ORDER:
                heap_order(x, cname)
            else:
                multiset(x, items(x), pre(x), "items after heapify")
                x.words(x.pylist(x.g("it")), tuple(("E", y) for y in pre(x)), "the given list")
                if o.a["_heap"] == x.g("it"):
                    raise Bad("the heap shares the given list", x.st)
        judge(env, env.call_fn(st, env.method(cname, "heapify"), [("cls", env.cls(cname)), it]), post)
    return go


def contains_case(cname):
    def op(env, s):
        s.ghosts["v"] = s.new_elem("num")
        return env.run(s, "self", "__contains__", [s.ghosts["v"]])

    def post(x):
        r, v, xs = x.returned(), x.g("v"), pre(x)
        if r == TRUE:
            if v not in xs:
                raise Bad("membership is reported for a value that is not there", x.st)
        elif r == FALSE:
            for w in xs:
                s = x.st.copy()
                if w == v or (not s.known_ne(w, v) and s.assume_eq(w, v) and s.order_ok()):
                    raise Bad("a value that is there is reported missing", s)
        else:
            raise Bad(f"membership answers {show(r)}", x.st)
        kept(x)
    return lambda env: each(env, cname, op, post)


def query_case(cname, m):
    def op(env, s):
        ex = env.run(s, "self", m)
        if m == "__iter__":
            ex = [y for s2, g in ex for y in (env.gen_list(s2, g) if not isinstance(g, Exc) else [(s2, g)])]
        return ex

    def post(x):
        xs, r = pre(x), x.returned()
        if m == "__len__":
            x.int_is(r, Lin(len(xs)), "the length")
        elif m == "is_empty":
            x.bool_is(r, not xs, "emptiness")
        else:
            got = x.pylist(r, m)
            if any(i[0] != "E" for i in got):
                raise Unsupported("unknown part")
            got = [i[1] for i in got]
            multiset(x, got, xs, m)
            if m == "to_list":
                for a, b in zip(got, xs):
                    x.val_is(a, b, m)
                if r == x.st.objs[x.g("self")].a["_heap"]:
                    raise Bad("to_list hands out the heap's own list", x.st)
        kept(x)
    return lambda env: each(env, cname, op, post)


def clear_case(cname):
    def post(x):
        x.returned()
        if items(x):
            raise Bad("items are left after clear", x.st)
    return lambda env: each(env, cname, lambda env, s: env.run(s, "self", "clear"), post)


def warned(x):
    if "warn" not in x.st.events:
        raise Bad("removing what is not there is not reported with a warning", x.st)


def rejected_new(cname, kind):
    def go(env):
        st = env.st = St()
        judge(env, env.call_fn(st, env.method(cname, "heapify"), [("cls", env.cls(cname)), I(5) if kind == "number" else NONE]),
              lambda x: x.raised("TypeError"))
    return go


def rejected(cname, m, kind):
    def op(env, s):
        bad = {"none": lambda: NONE, "str": lambda: ("c", "x"), "bool": lambda: TRUE,
               "structure": lambda: s.alloc(env.cls("BST"), {"_root": NONE, "_length": I(0)})}[kind]()
        return env.run(s, "self", m, [bad])

    def post(x):
        if m == "insert":
            x.raised("ValueError" if kind == "none" else "TypeError")
        elif m == "__contains__":
            x.bool_is(x.returned(), False, "membership of something that is no number")
        else:
            x.returned()
            warned(x)
        kept(x, "a rejected call")
    return lambda env: each(env, cname, op, post, hi=4)


for c in ("MinHeap", "MaxHeap"):
    for a in (ORDER, HELD):
        add_case(a, f"{c}.insert", insert_case(c, a), budget=60, scope=SCOPE)
        add_case(a, f"{c}.remove", remove_case(c, a), budget=120, scope=SCOPE, weight=3)
        for m in ("remove_min", "remove_max"):
            add_case(a, f"{c}.{m}", remove_end_case(c, m, a), budget=120, scope=SCOPE, weight=3)
        for n in range(6):
            add_case(a, f"{c}.heapify {n} values", heapify_case(c, n, a, "list"), budget=100,
                     scope=f"{n} values in any order")
    for m in ("get_min", "get_max"):
        add_case(ORDER, f"{c}.{m}", get_case(c, m), budget=60, scope=SCOPE)
    add_case(HELD, f"{c}.contains", contains_case(c), budget=60, scope=SCOPE)
    for m in ("__len__", "is_empty", "to_list", "__iter__"):
        add_case(HELD, f"{c}.{m}", query_case(c, m), budget=60, scope=SCOPE)
    add_case(HELD, f"{c}.clear", clear_case(c), budget=60, scope=SCOPE)
    for k in ("number", "none"):
        add_case(HELD, f"{c}.heapify {k}", rejected_new(c, k), budget=60)
    for k in ("none", "str", "bool", "structure"):
        for m in ("insert", "remove", "__contains__"):
            add_case(HELD, f"{c}.{m} with {k}", rejected(c, m, k), budget=60, scope="heaps of up to 4 items")
