"""Contracts of SkipList: every skip list of a few numbers with every way they can be promoted, the numbers symbolic."""
import itertools

from .lin import Lin
from .state import St, NONE, TRUE, FALSE, I, Unsupported, show
from .harness import Bad, Env, X, judge, add_case
from .interp import Exc
from .c_heaps import le, multiset

HOLD, ORDER, ASK = "P26", "P26", "P27"
ITEMS, LEVELS, DRAWS = 5, 3, 4
NEG = ("c", float("-inf"))


def probe(env):
    memo = env.__dict__.setdefault("_sprobe", {})
    if "ok" not in memo:
        sub = Env(env.prog, 10)
        sub.spelled()
        good = False
        try:
            for s, p in sub.construct(sub.st, "SkipList"):
                o = None if isinstance(p, Exc) else s.objs[p]
                if o is None or set(o.a) != {"_level_lists", "_num_levels"} or o.a["_num_levels"] != I(1):
                    continue
                (it,) = s.objs[o.a["_level_lists"]].a["w"][1]
                ll = s.objs[it[1]]
                n = s.objs[ll.a["_head"]]
                good = ll.cls.name == "LinkedList" and set(ll.a) == {"_head", "_length"} and ll.a["_length"] == I(1) and \
                    n.cls.name == "SkipNode" and set(n.a) == {"_data", "_next", "_down"} and n.a["_data"] == NEG and \
                    n.a["_next"] == NONE and n.a["_down"] == NONE
        except (Unsupported, KeyError, ValueError, TypeError, AttributeError):
            good = False
        memo["ok"] = good
    if not memo["ok"]:
        raise Unsupported("representation of SkipList changed")


def mk(env, heights):
    """A skip list whose i-th smallest number reaches heights[i] levels -> state with ghosts self, w."""
    probe(env)
    st = env.st = St()
    n = len(heights)
    xs = [st.new_elem("num") for _ in range(n)]
    for a, b in zip(xs, xs[1:]):
        st.add_fact("lt", a, b)
    ncls, lcls = env.cls("SkipNode"), env.cls("LinkedList")
    below = {}
    lists = []
    for lev in range(max(heights, default=1)):
        row = [NEG] + [x for x, h in zip(xs, heights) if h > lev]
        nxt, here = NONE, {}
        for x in reversed(row):
            nxt = here[x] = st.alloc(ncls, {"_data": x, "_next": nxt, "_down": below.get(x, NONE)})
        below = here
        lists.append(st.alloc(lcls, {"_head": nxt, "_length": I(len(row))}))
    st.ghosts["w"] = ("tup", tuple(xs))
    ll = st.alloc("list", {"w": ("w", tuple(("E", p) for p in lists))})
    st.ghosts["self"] = st.alloc(env.cls("SkipList"), {"_level_lists": ll, "_num_levels": I(len(lists))})
    st.ghosts["draws:"] = I(0)
    return st


def read(x, what="the skip list"):
    """The numbers held; checks order, levels and links."""
    st = x.st
    o = st.objs[x.g("self")]
    if set(o.a) != {"_level_lists", "_num_levels"}:
        raise Unsupported("representation changed")
    lists = x.pylist(o.a["_level_lists"], "levels")
    x.int_is(o.a["_num_levels"], Lin(len(lists)), f"{what}: the number of levels")
    below, bottom = None, None
    if not lists:
        raise Bad(f"{what}: no level is left", st)
    for lev, it in enumerate(lists):
        if it[0] != "E" or it[1] not in st.objs or set(st.objs[it[1]].a) != {"_head", "_length"}:
            raise Unsupported("representation changed")
        ll = st.objs[it[1]].a
        p, row, seen = ll["_head"], [], []
        while p != NONE:
            if p[0] != "p" or p not in st.objs or set(st.objs[p].a) != {"_data", "_next", "_down"}:
                raise Unsupported("representation changed")
            if p in seen:
                raise Bad(f"{what}: level {lev} runs in a circle", st)
            seen.append(p)
            a = st.objs[p].a
            row.append((p, a["_data"], a["_down"]))
            p = a["_next"]
        if not row or row[0][1] != NEG:
            raise Bad(f"{what}: level {lev} does not start with the header", st)
        x.int_is(ll["_length"], Lin(len(row)), f"{what}: the length of level {lev}")
        for (_, a, _), (_, b, _) in zip(row, row[1:]):
            if b[0] not in ("e", "i"):
                raise Bad(f"{what}: level {lev} holds {show(b)}", st)
            if a == NEG:
                continue
            if not st.lt(a, b):
                s = st.copy()
                if s.add_fact("le", b, a) and s.order_ok():
                    raise Bad(f"{what}: level {lev} is not strictly increasing", s)
                raise Unsupported("order of a level")
        for p, v, d in row:
            if below is None:
                if d != NONE:
                    raise Bad(f"{what}: a node of the lowest level has something below it", st)
            elif d not in below:
                raise Bad(f"{what}: the node of {show(v)} on level {lev} is not linked to a node of the level below", st)
            elif below[d] != v:
                raise Bad(f"{what}: the node of {show(v)} on level {lev} is linked down to {show(below[d])}", st)
        if lev and len(row) == 1:
            raise Bad(f"{what}: level {lev} is left without numbers", st)
        below = {p: v for p, v, _ in row}
        if bottom is None:
            bottom = [v for _, v, _ in row[1:]]
    return bottom, [len(lists)]


def pre(x):
    return list(x.g("w")[1])


def shapes(lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(range(1, LEVELS + 1), repeat=n)


def each(env, op, post, lo=0, hi=ITEMS):
    env.spelled()
    env.it.draws = DRAWS
    for hs in shapes(lo, hi):
        mk(env, hs)
        judge(env, op(env, env.st), post)


def seq(x, got, want, what):
    if len(got) != len(want):
        raise Bad(f"{what}: {len(got)} numbers instead of {len(want)}", x.st)
    for a, b in zip(got, want):
        x.val_is(a, b, what)


def same_values(x, want, what):
    got, _ = read(x, what)
    multiset(x, got, want, f"the numbers held by {what}")


def kept(x, what):
    got, _ = read(x, f"the skip list after {what}")
    seq(x, got, pre(x), f"the numbers after {what}")


def with_value(m):
    def op(env, s):
        s.ghosts["v"] = s.new_elem("num")
        return env.run(s, "self", m, [s.ghosts["v"]])
    return op


def split(x):
    """Split the exit on whether the argument is among the numbers held before."""
    cur, out = [x.st.copy()], []
    for i in range(len(x.g("w")[1])):
        nxt = []
        for s in cur:
            v, u = s.ghosts["v"], s.ghosts["w"][1][i]
            if v == u:
                out.append((X(x.env, s, x.val), True))
            elif s.known_ne(v, u):
                nxt.append(s)
            else:
                s2 = s.copy()
                if s2.assume_eq(v, u) and s2.order_ok():
                    out.append((X(x.env, s2, x.val), True))
                if s.add_fact("ne", v, u) and s.order_ok():
                    nxt.append(s)
        cur = nxt
    return out + [(X(x.env, s, x.val), False) for s in cur]


def insert_post(x):
    x.returned()
    for y, there in split(x):
        same_values(y, pre(y) + ([] if there else [y.g("v")]), "the skip list after insert")


def remove_post(x):
    x.returned()
    for y, there in split(x):
        want = pre(y)
        if there:
            want.remove(y.g("v"))
        same_values(y, want, "the skip list after remove")


def contains_post(x):
    v = x.returned()
    for y, there in split(x):
        y.bool_is(v, there, "membership")
    kept(x, "a membership test")


def query_case(m):
    def op(env, s):
        ex = env.run(s, "self", m)
        if m == "__iter__":
            ex = [y for s2, g in ex for y in (env.gen_list(s2, g) if not isinstance(g, Exc) else [(s2, g)])]
        return ex

    def post(x):
        v, xs = x.returned(), pre(x)
        held, (levels,) = read(x, f"the skip list after {m}")
        seq(x, held, xs, f"the numbers after {m}")
        if m == "__len__":
            x.int_is(v, Lin(len(xs)), "the length")
        elif m == "is_empty":
            x.bool_is(v, not xs, "emptiness")
        elif m == "get_height":
            x.int_is(v, Lin(levels), "the height")
        else:
            got = x.pylist(v, m)
            if any(i[0] != "E" for i in got):
                raise Unsupported(m)
            seq(x, [i[1] for i in got], xs, m)
    return lambda env: each(env, op, post)


def index_case(m, n):
    def fn(env):
        for k in range(-n - 1, n + 2):
            def post(x):
                xs = pre(x)
                if not 0 <= k < n:
                    x.raised("IndexError")
                    kept(x, "a rejected call")
                    return
                v = x.returned()
                if m == "__getitem__":
                    x.val_is(v, xs[k], f"item {k}")
                    kept(x, "reading an item")
                else:
                    same_values(x, xs[:k] + xs[k + 1:], "the skip list after del")
            each(env, lambda env, s: env.run(s, "self", m, [I(k)]), post, n, n)
    return fn


def bad_index_case(m, kind):
    def op(env, s):
        v = {"slice": ("slice", I(0), I(1), NONE), "text": ("c", "0"), "none": NONE}[kind]
        return env.run(s, "self", m, [v])

    def post(x):
        x.raised("IndexError" if kind == "slice" else "TypeError")
        kept(x, "a rejected call")
    return lambda env: each(env, op, post, 0, 3)


def clear_case():
    def post(x):
        x.returned()
        if read(x)[0]:
            raise Bad("numbers are left after clear", x.st)
    return lambda env: each(env, lambda env, s: env.run(s, "self", "clear"), post, 0, 2)


def new_case(n, form):
    def fn(env):
        env.spelled()
        env.it.draws = n + 3
        probe(env)
        st = env.st = St()
        st.ghosts["draws:"] = I(0)
        xs = [st.new_elem("num") for _ in range(n)]
        st.ghosts["w"] = ("tup", tuple(xs))
        args = []
        if form == "list":
            args = [st.alloc("list", {"w": ("w", tuple(("E", v) for v in xs))})]
        elif form == "tuple":
            args = [("tup", tuple(xs))]
        exits = []
        for s, p in env.construct(st, "SkipList", args):
            if not isinstance(p, Exc):
                s.ghosts["self"] = p
            exits.append((s, p))

        def post(x):
            x.returned()
            got, _ = read(x, "the new skip list")
            want = []
            for v in x.g("w")[1]:
                if v not in want:
                    want.append(v)
            # every pair was compared while inserting
            for a, b in itertools.combinations(want, 2):
                if not x.st.known_ne(a, b):
                    raise Unsupported("numbers that were never compared")
            multiset(x, got, want, "the numbers of the new skip list")
        judge(env, exits, post)
    return fn


def rejected_new(kind):
    def fn(env):
        env.spelled()
        env.it.draws = 2
        st = env.st = St()
        st.ghosts["draws:"] = I(0)
        if kind == "number":
            v = I(3)
        else:
            bad = NONE if kind == "none inside" else ("c", "x")
            v = st.alloc("list", {"w": ("w", (("E", st.new_elem("num")), ("E", bad)))})
        judge(env, env.construct(st, "SkipList", [v]), lambda x: x.raised("ValueError" if kind == "none inside" else "TypeError"))
    return fn


def rejected(m, kind):
    def op(env, s):
        bad = {"none": lambda: NONE, "text": lambda: ("c", "x"), "bool": lambda: TRUE,
               "list": lambda: s.alloc("list", {"w": ("w", (("E", I(1)),))})}[kind]()
        return env.run(s, "self", m, [bad])

    def post(x):
        if m == "insert":
            x.raised("ValueError" if kind == "none" else "TypeError")
        elif m == "__contains__":
            x.bool_is(x.returned(), False, "membership of something that is no number")
        else:
            x.returned()
        kept(x, "a rejected call")
    return lambda env: each(env, op, post, 0, 3)


SC = f"every skip list of up to {ITEMS} numbers on up to {LEVELS} levels, promotions by up to {DRAWS - 1} levels"
add_case(HOLD, "SkipList.insert", lambda env: each(env, with_value("insert"), insert_post), budget=300, scope=SC, weight=9)
add_case(HOLD, "SkipList.remove", lambda env: each(env, with_value("remove"), remove_post), budget=300, scope=SC, weight=9)
add_case(HOLD, "SkipList.__contains__", lambda env: each(env, with_value("__contains__"), contains_post), budget=300, scope=SC)
for m in ("__len__", "is_empty", "get_height", "to_list", "__iter__"):
    add_case(ASK, f"SkipList.{m}", query_case(m), budget=100, scope=SC)
for m, p in (("__getitem__", ASK), ("__delitem__", HOLD)):
    for n in range(ITEMS + 1):
        add_case(p, f"SkipList.{m}, {n} numbers", index_case(m, n), budget=200, scope=SC)
    for k in ("slice", "text", "none"):
        add_case(p, f"SkipList.{m} with {k}", bad_index_case(m, k), budget=60, scope="skip lists of up to 3 numbers")
add_case(HOLD, "SkipList.clear", clear_case(), budget=60, scope="skip lists of up to 2 numbers")
for n in range(4):
    for form in ("list", "tuple") + (("nothing",) if n == 0 else ()):
        add_case(HOLD, f"SkipList({form} of {n})", new_case(n, form), budget=200, scope=f"{n} numbers, up to 2 promotions")
for k in ("number", "none inside", "text inside"):
    add_case(HOLD, f"SkipList with {k}", rejected_new(k), budget=60)
for k in ("none", "text", "bool", "list"):
    for m in ("insert", "remove", "__contains__"):
        add_case(HOLD, f"SkipList.{m} with {k}", rejected(m, k), budget=60, scope="skip lists of up to 3 numbers")
