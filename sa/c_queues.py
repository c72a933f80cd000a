"""Contracts of Stack, Queue, Deque and PriorityQueue."""
from .lin import Lin, V
from .state import NONE, TRUE, FALSE, INF, I, Obj, Unsupported, show
from .harness import X, Bad, Anchor, Env, judge, add_case, words_equal
from .interp import Exc
from .lists import mk_list, check_list, W
from .c_lists import el, want, sym_int

STACK, QUEUE, DEQUE, CAP, PQ, REJ = "P08", "P09", "P10", "P11", "P12", "P05"
CINF = ("c", INF)


# ---------------------------------------------------------------- representation
def probe(env, cname):
    """What the constructor builds -> {attribute: value} plus the container kind."""
    memo = env.__dict__.setdefault("_probe", {})
    if cname in memo:
        return memo[cname]
    r = None
    try:
        sub = Env(env.prog, 10)
        ex = sub.construct(sub.st, cname)
        if len(ex) == 1 and not isinstance(ex[0][1], Exc):
            s, p = ex[0]
            o = s.objs[p]
            if set(o.a) == ({"_container", "_max_capacity"} if cname != "PriorityQueue" else
                            {"_container", "_max_capacity", "_min_priority", "_max_priority"}):
                c = s.objs.get(o.a["_container"])
                kind = c.cls if isinstance(c.cls, str) else c.cls.name
                # orientation: which end does the first inserted item go to?
                sub.st = s
                u, v = sub.elem(), sub.elem()
                sub.ghost("u", u), sub.ghost("v", v), sub.ghost("self", p)
                m = {"Stack": "push", "Deque": "append_left"}.get(cname, "enqueue")
                extra = [I(1)] if cname == "PriorityQueue" else []
                ok = True
                for s1, r1 in sub.run(s, "self", m, [u] + extra):
                    for s2, r2 in sub.run(s1, "self", m, [s1.ghosts["v"]] + extra):
                        if isinstance(r1, Exc) or isinstance(r2, Exc):
                            continue
                        x = X(sub, s2, r2)
                        c2 = s2.objs[s2.ghosts["self"]].a["_container"]
                        uu, vv = s2.ghosts["u"], s2.ghosts["v"]
                        pay = (lambda e: el(("tup", (I(1), e)))) if cname == "PriorityQueue" else el
                        try:
                            if kind == "list":
                                x.words(s2.objs[c2].a["w"][1], (el(uu), el(vv)), "")
                            else:
                                check_list(x, c2, (pay(vv), pay(uu)), "", links=False)
                        except Bad:
                            # the mirror image is a different representation; anything else is a
                            # defect that the general obligations will report
                            try:
                                if kind == "list":
                                    x.words(s2.objs[c2].a["w"][1], (el(vv), el(uu)), "")
                                else:
                                    check_list(x, c2, (pay(uu), pay(vv)), "", links=False)
                                ok = False
                            except Bad:
                                pass
                if ok and kind == ("list" if cname == "Stack" else "DoublyLinkedList"):
                    r = kind
    except Unsupported:
        r = None
    memo[cname] = r
    return r


def mk(env, cname, word, cap, name="self"):
    if probe(env, cname) is None:
        raise Unsupported(f"representation of {cname} changed")
    st = env.st
    if cname == "Stack":
        c = st.alloc("list", {"w": ("w", tuple(word))})
    else:
        c = mk_list(env, "DoublyLinkedList", tuple(word), "$c", node="PriorityNode" if cname == "PriorityQueue" else None)
        del st.ghosts["$c"]
    a = {"_container": c, "_max_capacity": cap}
    p = st.alloc(env.cls(cname), a)
    st.ghosts[name] = p
    env.ghost("W", ("w", tuple(word)))
    if cap[0] == "i":
        env.ghost("capacity", cap)
    return p


def contents(x, want_word, what, name="self"):
    o = x.st.objs[x.g(name)]
    if o.cls.name == "Stack":
        x.words(x.pylist(o.a["_container"]), want_word, f"contents of {what}")
    else:
        check_list(x, o.a["_container"], want_word, what, links=True)
    if x.st.ghosts.get("capacity") is not None:
        x.int_is(o.a["_max_capacity"], x.g("capacity")[1], "the capacity")


def capv(env, word, kind):
    """Capacity of the pre-state: unbounded, larger than the contents, or equal."""
    n = env.st.wlen(word)
    if kind == "inf":
        return CINF
    if kind == "room":
        c = V("x:cap")
        env.st.num.add_ge(c - n - 1)
        return ("i", c)
    return ("i", n)


def run(env, mname, args, expect, kw=None, ret=None, exc=None, what="the container"):
    env.ghost("want", ("w", tuple(expect)))
    if ret is not None:
        env.ghost("ret", ret)
    ex = env.run(env.st, "self", mname, args, kw)

    def post(x):
        if exc:
            x.raised(exc)
        else:
            x.returned()
            if ret is not None:
                x.val_is(x.val, x.g("ret"), f"the result of {mname}")
        contents(x, x.g("want")[1], f"{what} after {mname}")
    judge(env, ex, post)


# ---------------------------------------------------------------- one-step obligations
def insert_case(env, cname, m, kind, empty):
    v = env.ghost("v", env.elem())
    a = () if empty else (env.svar("obj", 1),)
    mk(env, cname, a, capv(env, a, kind))
    if cname == "Stack" or m == "append_right":
        w = a + (el(v),)
    else:
        w = (el(v),) + a
    run(env, m, [v], w)


def full_case(env, cname, m):
    v = env.ghost("v", env.elem())
    a, u = env.svar(), env.elem()
    if cname == "Stack":
        w = (a, el(u))
        mk(env, cname, w, capv(env, w, "full"))
        return run(env, m, [v], w, exc="OverflowError")
    w = (el(u), a) if m == "append_right" else (a, el(u))
    mk(env, cname, w, capv(env, w, "full"))
    run(env, m, [v], (a, el(v)) if m == "append_right" else (el(v), a))


def zero_case(env, cname, m):
    v = env.ghost("v", env.elem())
    mk(env, cname, (), I(0))
    run(env, m, [v], (), exc="OverflowError" if cname == "Stack" else None)


def take_case(env, cname, m, end, take, kind="inf"):
    """Peek at or remove the item at one end."""
    a, u = env.svar(), env.ghost("u", env.elem())
    w = (el(u), a) if end == "head" else (a, el(u))
    mk(env, cname, w, capv(env, w, kind))
    run(env, m, [], (a,) if take else w, ret=u)


def empty_case(env, cname, m, exc):
    mk(env, cname, (), CINF)
    run(env, m, [], (), exc=exc, ret=None if exc else NONE)


def size_case(env, cname, kind, empty):
    a = () if empty else (env.svar("obj", 1),)
    if cname == "PriorityQueue" and a:
        a = (pq_svar(env),)
    mk_any(env, cname, a, capv(env, a, kind))
    s0, s1, s2 = env.st, env.st.copy(), env.st.copy()
    ex = env.run(s0, "self", "__len__")
    judge(env, ex, lambda x: (x.returned(), x.int_is(x.val, x.st.wlen(x.g("W")[1]), "len()"),
                              contents(x, x.g("W")[1], "the container after len()")))
    ex = env.run(s1, "self", "is_empty")
    judge(env, ex, lambda x: (x.returned(), x.bool_is(x.val, empty, "is_empty()")))
    ex = env.run(s2, "self", "is_full")
    judge(env, ex, lambda x: (x.returned(), x.bool_is(x.val, kind == "full", "is_full()")))


def clear_case(env, cname, kind):
    a = (env.svar("obj", 1),) if cname != "PriorityQueue" else (pq_svar(env),)
    mk_any(env, cname, a, capv(env, a, kind))
    run(env, "clear", [], ())


def mk_any(env, cname, a, cap):
    if cname == "PriorityQueue":
        pq(env, a, cap)
    else:
        mk(env, cname, a, cap)


for _c, _m, _p in (("Stack", "push", STACK), ("Queue", "enqueue", QUEUE), ("Deque", "append_left", DEQUE),
                   ("Deque", "append_right", DEQUE)):
    for _e in (False, True):
        add_case(_p, f"{_c}.{_m} on {'an empty' if _e else 'a non-empty'} container, no bound",
                 lambda env, c=_c, m=_m, e=_e: insert_case(env, c, m, "inf", e))
        add_case(CAP, f"{_c}.{_m} with room on {'an empty' if _e else 'a non-empty'} container",
                 lambda env, c=_c, m=_m, e=_e: insert_case(env, c, m, "room", e))
    add_case(CAP, f"{_c}.{_m} on a full container", lambda env, c=_c, m=_m: full_case(env, c, m))
    add_case(CAP, f"{_c}.{_m} with capacity zero", lambda env, c=_c, m=_m: zero_case(env, c, m))
for _c, _m, _end, _take, _p in (("Stack", "peek", "tail", False, STACK), ("Stack", "pop", "tail", True, STACK),
                                ("Queue", "top", "tail", False, QUEUE), ("Queue", "dequeue", "tail", True, QUEUE),
                                ("Deque", "get_left", "head", False, DEQUE), ("Deque", "pop_left", "head", True, DEQUE),
                                ("Deque", "get_right", "tail", False, DEQUE), ("Deque", "pop_right", "tail", True, DEQUE)):
    for _k in ("inf", "full"):
        add_case(_p, f"{_c}.{_m} {'of a full container' if _k == 'full' else ''}".strip(),
                 lambda env, c=_c, m=_m, e=_end, t=_take, k=_k: take_case(env, c, m, e, t, k))
for _c, _m, _x, _p in (("Stack", "peek", "IndexError", STACK), ("Stack", "pop", None, STACK), ("Queue", "top", "IndexError", QUEUE),
                       ("Queue", "dequeue", None, QUEUE), ("Deque", "get_left", "IndexError", DEQUE),
                       ("Deque", "get_right", "IndexError", DEQUE), ("Deque", "pop_left", None, DEQUE),
                       ("Deque", "pop_right", None, DEQUE)):
    add_case(_p, f"{_c}.{_m} of an empty container", lambda env, c=_c, m=_m, x=_x: empty_case(env, c, m, x))


# ---------------------------------------------------------------- constructors
def ctor_case(env, cname, arg, exc):
    a = [arg] if arg is not None else []
    if arg == "sym":
        a = [env.ghost("cap", sym_int(env, "cap", 0))]
    if arg == "neg":
        a = [env.ghost("cap", sym_int(env, "cap", None, -1))]
    ex = env.construct(env.st, cname, a)

    def post(x):
        if exc:
            return x.raised(exc)
        x.returned()
        r = env.run(x.st.copy(), x.val, "__len__")
        for s, v in r:
            y = X(env, s, v)
            y.int_is(y.returned(), Lin(0), "len() of a new container")
        if arg == "sym":
            o = x.st.objs[x.val]
            if "_max_capacity" in o.a:
                x.int_is(o.a["_max_capacity"], x.g("cap")[1], "the capacity")
    judge(env, ex, post)


for _c in ("Stack", "Queue", "Deque", "PriorityQueue"):
    add_case(CAP, f"{_c} constructed without a bound", lambda env, c=_c: ctor_case(env, c, None, None))
    add_case(CAP, f"{_c} constructed with a bound", lambda env, c=_c: ctor_case(env, c, "sym", None))
    add_case(CAP, f"{_c} constructed with a negative bound", lambda env, c=_c: ctor_case(env, c, "neg", "ValueError"))
    add_case(CAP, f"{_c} constructed with a string bound", lambda env, c=_c: ctor_case(env, c, ("c", "x"), "TypeError"))
    for _k in ("inf", "room", "full"):
        for _e in (False, True):
            if _e and _k == "full":
                continue
            add_case(CAP, f"{_c} size queries, {dict(inf='no bound', room='room left', full='full')[_k]}, {'empty' if _e else 'non-empty'}",
                     lambda env, c=_c, k=_k, e=_e: size_case(env, c, k, e))
    for _k in ("inf", "room"):
        add_case(CAP, f"{_c}.clear keeps the bound, {_k}", lambda env, c=_c, k=_k: clear_case(env, c, k))


# ---------------------------------------------------------------- rejected items
def rej_item(env, cname, m, kind, full=False):
    if kind == "none":
        v, exc = NONE, "ValueError"
    else:
        v, exc = mk_list(env, "LinkedList", (env.svar("obj", 1),), "bad"), "TypeError"
    a = (env.svar("obj", 1),) if cname != "PriorityQueue" else (pq_svar(env),)
    mk_any(env, cname, a, capv(env, a, "full" if full else "inf"))
    run(env, m, [v], a, exc=exc)


for _c, _m in (("Stack", "push"), ("Queue", "enqueue"), ("Deque", "append_left"), ("Deque", "append_right"), ("PriorityQueue", "enqueue")):
    for _k in ("none", "extra"):
        add_case(REJ, f"{_c}.{_m} of {'None' if _k == 'none' else 'another structure'}", lambda env, c=_c, m=_m, k=_k: rej_item(env, c, m, k))
        if _c != "Stack":
            add_case(REJ, f"{_c}.{_m} of {'None' if _k == 'none' else 'another structure'} on a full container",
                     lambda env, c=_c, m=_m, k=_k: rej_item(env, c, m, k, True))


# ---------------------------------------------------------------- histories
def hist(env, cname, ctor, steps):
    """Run a fixed sequence of calls on a new object; every item is symbolic."""
    el_ = {}
    for k in "abcde":
        el_[k] = env.ghost(k, env.elem())
    cur = []
    for s, v in env.construct(env.st, cname, ctor):
        if isinstance(v, Exc):
            judge(env, [(s, v)], lambda x: x.returned())
            continue
        s.ghosts["self"] = v
        cur.append(s)
    for m, args, exp in steps:
        nxt = []
        for s in cur:
            av = [s.ghosts[a] if isinstance(a, str) and a in el_ else a for a in args]
            ex = env.run(s, "self", m, av)

            def post(x):
                if exp == "raise":
                    return x.raised("IndexError", "OverflowError")
                x.returned()
                if exp is None:
                    return
                if isinstance(exp, bool):
                    x.bool_is(x.val, exp, m)
                elif isinstance(exp, int):
                    x.int_is(x.val, Lin(exp), m)
                elif exp == "none":
                    x.val_is(x.val, NONE, m)
                else:
                    x.val_is(x.val, x.g(exp), f"the result of {m} in this history")
            judge(env, ex, post)
            nxt += [s2 for s2, v2 in ex if not isinstance(v2, Exc) or exp == "raise"]
        cur = nxt


HS = [
    (STACK, "Stack", [], "push x3, pop x3", [("push", "a", None), ("push", "b", None), ("push", "c", None), ("__len__", "", 3),
                                              ("pop", "", "c"), ("peek", "", "b"), ("pop", "", "b"), ("push", "d", None), ("pop", "", "d"),
                                              ("pop", "", "a"), ("is_empty", "", True), ("pop", "", "none")]),
    (CAP, "Stack", [I(2)], "bounded stack", [("push", "a", None), ("is_full", "", False), ("push", "b", None), ("is_full", "", True),
                                             ("push", "c", "raise"), ("__len__", "", 2), ("pop", "", "b"), ("push", "d", None),
                                             ("pop", "", "d"), ("pop", "", "a")]),
    (QUEUE, "Queue", [], "enqueue x3, dequeue x3", [("enqueue", "a", None), ("enqueue", "b", None), ("top", "", "a"), ("enqueue", "c", None),
                                                    ("dequeue", "", "a"), ("dequeue", "", "b"), ("enqueue", "d", None), ("top", "", "c"),
                                                    ("dequeue", "", "c"), ("dequeue", "", "d"), ("dequeue", "", "none"), ("__len__", "", 0),
                                                    ("enqueue", "e", None), ("dequeue", "", "e")]),
    (CAP, "Queue", [I(2)], "bounded queue", [("enqueue", "a", None), ("enqueue", "b", None), ("enqueue", "c", None), ("__len__", "", 2),
                                             ("dequeue", "", "b"), ("enqueue", "d", None), ("enqueue", "e", None), ("__len__", "", 2),
                                             ("dequeue", "", "d"), ("dequeue", "", "e"), ("is_empty", "", True)]),
    (CAP, "Queue", [I(1)], "queue of one", [("enqueue", "a", None), ("enqueue", "b", None), ("top", "", "b"), ("__len__", "", 1),
                                            ("dequeue", "", "b"), ("is_empty", "", True), ("enqueue", "c", None), ("top", "", "c")]),
    (DEQUE, "Deque", [], "both ends", [("append_left", "a", None), ("append_right", "b", None), ("append_left", "c", None),
                                       ("get_left", "", "c"), ("get_right", "", "b"), ("pop_right", "", "b"), ("append_right", "d", None),
                                       ("pop_left", "", "c"), ("pop_left", "", "a"), ("pop_left", "", "d"), ("pop_left", "", "none"),
                                       ("append_right", "e", None), ("pop_left", "", "e"), ("append_left", "a", None), ("pop_right", "", "a")]),
    (CAP, "Deque", [I(2)], "bounded deque", [("append_left", "a", None), ("append_right", "b", None), ("append_right", "c", None),
                                             ("__len__", "", 2), ("get_left", "", "b"), ("append_left", "d", None), ("__len__", "", 2),
                                             ("pop_right", "", "b"), ("pop_right", "", "d"), ("is_empty", "", True)]),
    (CAP, "Deque", [I(1)], "deque of one", [("append_left", "a", None), ("append_right", "b", None), ("get_left", "", "b"), ("__len__", "", 1),
                                            ("append_left", "c", None), ("pop_right", "", "c"), ("is_empty", "", True)]),
    (CAP, "Stack", [I(0)], "stack of none", [("push", "a", "raise"), ("is_full", "", True), ("__len__", "", 0)]),
]
for _p, _c, _a, _l, _s in HS:
    add_case(_p, f"{_c} history: {_l}", lambda env, c=_c, a=_a, s=_s: hist(env, c, a, s))


# ---------------------------------------------------------------- priority queue
KP = ("num", "obj")


def pq_svar(env, lo=1):
    return env.svar(KP, lo)


def pq_item(env, name):
    p, d = env.ghost("prio_" + name, env.elem("num")), env.ghost(name, env.elem("obj"))
    return p, d, el(("tup", (p, d)))


def pq(env, word, cap, lo=None, hi=None, name="self"):
    """A priority queue whose cached bounds are right: `lo`/`hi` are the extremal
    priorities (items of the word); fresh bounds that only bracket the contents
    are used when they are not given (sound only for calls that ignore them)."""
    p = mk(env, "PriorityQueue", word, cap, name)
    o = env.st.objs[p]
    if not word:
        o.a["_min_priority"], o.a["_max_priority"] = CINF, ("c", -INF)
    else:
        o.a["_min_priority"] = lo if lo is not None else env.elem("num")
        o.a["_max_priority"] = hi if hi is not None else env.elem("num")
    return p


def keys(w):
    return [("S", it[1]) if it[0] != "E" else it[1][1][0] for it in w]


def order(env, op, a, b):
    if not env.st.add_fact(op, a, b):
        raise Unsupported("contradictory scenario")


def pq_follow(env, s, what, wantname="want"):
    """Whatever the cached bounds are, the next removals must pick extremal items."""
    for low in (False, True):
        ex = env.run(s.copy(), "self", "dequeue", [TRUE if low else FALSE])

        def post(x):
            x.returned()
            v = x.val
            w = x.g(wantname)[1]
            if x.st.num.entails_eq(x.st.wlen(w)):
                return x.val_is(v, NONE, "dequeue of an empty queue")
            items = [it for it in w if it[0] == "E" and it[1][1][1] == v]
            if len(items) != 1:
                if v[0] in ("none", "c", "i"):
                    raise Bad(f"{what}: the next dequeue returns {show(v)}")
                raise Unsupported(f"{what}: the next dequeue returns {show(v)}")
            k = items[0][1][1][0]
            for q in keys(w):
                if q == k:
                    continue
                a, b = (k, q) if low else (q, k)
                if x.st.le(a, b):
                    continue
                s2 = x.st.copy()
                if q[0] == "S":
                    s2.num.add_ge(V(f"len:{q[1]}") - 1)
                    if not s2.num.sat():
                        continue
                    for s3 in s2.split_svar(q[1]):
                        if s3.exact:
                            q2 = [it for it in s3.ghosts[wantname][1] if it[0] == "E" and it != items[0]]
                            for it in q2:
                                s4 = s3.copy()
                                kk = it[1][1][0]
                                if s4.add_fact("lt", *((kk, k) if low else (k, kk))) and s4.order_ok():
                                    raise Bad(f"{what}: the next dequeue does not return an item of "
                                              f"{'lowest' if low else 'highest'} priority", s4)
                    raise Unsupported(f"{what}: order of the next dequeue")
                if s2.add_fact("lt", b, a) and s2.order_ok():
                    raise Bad(f"{what}: the next dequeue does not return an item of "
                              f"{'lowest' if low else 'highest'} priority", s2)
        judge(env, ex, post)


def pq_bounds(env, x, w):
    o = x.st.objs[x.g("self")]
    if x.st.num.entails_eq(x.st.wlen(w)):
        return True
    for f, low in (("_min_priority", True), ("_max_priority", False)):
        b = o.a[f]
        ks = keys(w)
        if b not in ks and not (b[0] == "i" and any(k[0] == "i" and x.st.num.entails_eq(k[1] - b[1]) for k in ks)):
            return False
        for k in ks:
            if k == b or k[0] == "S" and x.st.num.entails_eq(V(f"len:{k[1]}")):
                continue
            if not x.st.le(*((b, k) if low else (k, b))):
                return False
    return True


def pq_run(env, m, args, expect, ret=None, kw=None):
    env.ghost("want", ("w", tuple(expect)))
    if ret is not None:
        env.ghost("ret", ret)
    ex = env.run(env.st, "self", m, args, kw)

    def post(x):
        x.returned()
        if ret is not None:
            x.val_is(x.val, x.g("ret"), f"the result of {m}")
        contents(x, x.g("want")[1], f"the queue after {m}")
        if not pq_bounds(env, x, x.g("want")[1]):
            n = len(env.bads) + len(env.unk)
            pq_follow(env, x.st.copy(), f"after {m}")
            if len(env.bads) + len(env.unk) == n and env.it.peel == 0:
                pass
    judge(env, ex, post)


def pq_deq(env, low, kind, one=False):
    """Unique extremal item somewhere in the queue; the opposite bound sits
    before it, after it, or is the same item."""
    p, d, m = pq_item(env, "m")
    a, b = pq_svar(env, 0), pq_svar(env, 0)
    op = (lambda x: order(env, "lt", p, x)) if low else (lambda x: order(env, "lt", x, p))
    if one:
        pq(env, (m,), CINF, p, p)
        return pq_run(env, "dequeue", [TRUE] if low else [], (), ret=d)
    q, e, o = pq_item(env, "o")
    if kind == "before":
        w, rest = (a, o, b, m), (a, o, b)
        c = pq_svar(env, 0)
        w, rest = (a, o, b, m, c), (a, o, b, c)
    else:
        c = pq_svar(env, 0)
        w, rest = (a, m, b, o, c), (a, b, o, c)
    for s in (a, b, c, q):
        op(s)
    for s in (a, b, c):
        order(env, "le", s, q) if low else order(env, "le", q, s)
    pq(env, w, CINF, p if low else q, q if low else p)
    pq_run(env, "dequeue", [TRUE] if low else [], rest, ret=d)


def pq_deq_wide(env, low):
    """The removed item is extremal; the opposite bound only brackets the contents."""
    p, d, m = pq_item(env, "m")
    q = env.elem("num")
    a, b = pq_svar(env, 0), pq_svar(env, 0)
    op = (lambda x: order(env, "lt", p, x)) if low else (lambda x: order(env, "lt", x, p))
    op(a), op(b)
    env.st.add_fact("le", p, q) if low else env.st.add_fact("le", q, p)
    for s in (a, b):
        order(env, "le", s, q) if low else order(env, "le", q, s)
    pq(env, (a, m, b), CINF, p if low else q, q if low else p)
    del env.st.ghosts["W"]
    pq_run(env, "dequeue", [TRUE] if low else [], (a, b), ret=d)


def pq_deq_empty(env, low):
    pq(env, (), CINF)
    run(env, "dequeue", [TRUE] if low else [], (), ret=NONE)


def pq_enq(env, kind, where):
    """Insert with priority p into a queue with bounds lo <= hi."""
    d = env.ghost("item", env.elem("obj"))
    p = env.ghost("priority", env.elem("num"))
    new = el(("tup", (p, d)))
    if where == "empty":
        pq(env, (), capv(env, (), kind) if kind == "inf" else ("i", V("x:cap")))
        if kind != "inf":
            env.st.num.add_ge(V("x:cap") - 1)
        return pq_run(env, "enqueue", [d, p], (new,))
    a, b, c = pq_svar(env, 0), pq_svar(env, 0), pq_svar(env, 0)
    q, _, x = pq_item(env, "lo")
    r, _, y = pq_item(env, "hi")
    order(env, "le", q, r)
    for s in (a, b, c):
        order(env, "le", q, s)
        order(env, "le", s, r)
    w = (a, x, b, y, c) if where == "lohi" else (a, y, b, x, c)
    if kind == "full":
        last = pq_item(env, "last")
        order(env, "le", q, last[0])
        order(env, "le", last[0], r)
        w = w + (last[2],)
        pq(env, w, capv(env, w, "full"), q, r)
        return pq_run(env, "enqueue", [d, p], (new,) + w[:-1])
    pq(env, w, capv(env, w, kind), q, r)
    pq_run(env, "enqueue", [d, p], (new,) + w)


def pq_enq_full_wide(env):
    d = env.ghost("item", env.elem("obj"))
    p = env.ghost("priority", env.elem("num"))
    new = el(("tup", (p, d)))
    lo, hi = env.elem("num"), env.elem("num")
    order(env, "le", lo, hi)
    a = pq_svar(env, 1)
    last = pq_item(env, "last")
    for k in (a, last[0]):
        order(env, "le", lo, k)
        order(env, "le", k, hi)
    w = (a, last[2])
    pq(env, w, capv(env, w, "full"), lo, hi)
    for g in ("W", "last", "prio_last"):
        del env.st.ghosts[g]
    pq_run(env, "enqueue", [d, p], (new, a))


def pq_top(env):
    u = env.ghost("u", env.elem("obj"))
    p = env.elem("num")
    a = pq_svar(env, 0)
    w = (a, el(("tup", (p, u))))
    pq(env, w, CINF)
    run(env, "top", [], w, ret=u)


def pq_prio_type(env, full):
    d = env.ghost("item", env.elem("obj"))
    a = (pq_svar(env),)
    pq(env, a, capv(env, a, "full" if full else "inf"))
    run(env, "enqueue", [d, ("c", "x")], a, exc="TypeError")


for _low in (False, True):
    t = "lowest" if _low else "highest"
    for _k in ("before", "after"):
        add_case(PQ, f"PriorityQueue.dequeue ({t}), opposite bound {_k} it", lambda env, l=_low, k=_k: pq_deq(env, l, k),
                 wide=lambda env, l=_low: pq_deq_wide(env, l))
    add_case(PQ, f"PriorityQueue.dequeue ({t}) of the only item", lambda env, l=_low: pq_deq(env, l, "", True))
    add_case(PQ, f"PriorityQueue.dequeue ({t}) of an empty queue", lambda env, l=_low: pq_deq_empty(env, l))
for _k in ("inf", "room"):
    for _w in ("empty", "lohi", "hilo"):
        add_case(PQ if _k == "inf" else CAP, f"PriorityQueue.enqueue, {_k}, {_w}", lambda env, k=_k, w=_w: pq_enq(env, k, w))
for _w in ("lohi", "hilo"):
    add_case(CAP, f"PriorityQueue.enqueue on a full queue, {_w}", lambda env, w=_w: pq_enq(env, "full", w), wide=pq_enq_full_wide)
add_case(PQ, "PriorityQueue.top", pq_top)
add_case(PQ, "PriorityQueue.top of an empty queue", lambda env: (pq(env, (), CINF), run(env, "top", [], (), exc="IndexError")))
add_case(REJ, "PriorityQueue.enqueue with a non-numeric priority", lambda env: pq_prio_type(env, False))
add_case(REJ, "PriorityQueue.enqueue with a non-numeric priority on a full queue", lambda env: pq_prio_type(env, True))


def pq_hist(env, ctor, prios, ops):
    """Items with concrete priorities; ops: ('d', low, expected) | ('e', k)."""
    names = "abcde"
    for k in names:
        env.ghost(k, env.elem())
    cur = []
    for s, v in env.construct(env.st, "PriorityQueue", ctor):
        s.ghosts["self"] = v
        cur.append(s)
    for op in ops:
        nxt = []
        for s in cur:
            if op[0] == "e":
                k = op[1]
                ex = env.run(s, "self", "enqueue", [s.ghosts[k], I(prios[names.index(k)])])
                judge(env, ex, lambda x: x.returned())
            elif op[0] == "n":
                ex = env.run(s, "self", "__len__", [])
                judge(env, ex, lambda x, n=op[1]: (x.returned(), x.int_is(x.val, Lin(n), "len()")))
            else:
                ex = env.run(s, "self", "dequeue", [TRUE] if op[1] else [])

                def post(x, k=op[2]):
                    x.returned()
                    x.val_is(x.val, NONE if k is None else x.g(k), "the dequeued item in this history")
                judge(env, ex, post)
            nxt += [s2 for s2, v2 in ex if not isinstance(v2, Exc)]
        cur = nxt


PH = [
    ("mixed", [], [3, 1, 5, 2, 4], [("e", "a"), ("e", "b"), ("e", "c"), ("e", "d"), ("d", False, "c"), ("d", True, "b"), ("e", "e"),
                                    ("d", False, "e"), ("d", True, "d"), ("d", False, "a"), ("d", False, None)]),
    ("drain low", [], [2, 3, 1, 5, 4], [("e", "a"), ("e", "b"), ("e", "c"), ("d", True, "c"), ("d", True, "a"), ("e", "d"), ("e", "e"),
                                        ("d", True, "b"), ("d", True, "e"), ("d", True, "d"), ("n", 0)]),
    ("bounded", [I(2)], [9, 1, 5, 4, 7], [("e", "a"), ("e", "b"), ("e", "c"), ("n", 2), ("d", False, "c"), ("d", False, "b"), ("e", "d"),
                                          ("e", "e"), ("d", True, "d"), ("d", True, "e"), ("n", 0)]),
    ("negative priorities", [], [-3, 0, -7, 2, -1], [("e", "a"), ("e", "b"), ("e", "c"), ("d", True, "c"), ("d", False, "b"), ("e", "d"),
                                                     ("d", False, "d"), ("e", "e"), ("d", False, "e"), ("d", True, "a")]),
    ("refill", [], [1, 2, 3, 4, 5], [("e", "e"), ("d", False, "e"), ("e", "a"), ("d", True, "a"), ("e", "c"), ("e", "b"), ("d", False, "c"),
                                     ("d", False, "b"), ("e", "d"), ("n", 1), ("d", True, "d")]),
]
for _l, _c, _pr, _o in PH:
    add_case(PQ if _l != "bounded" else CAP, f"PriorityQueue history: {_l}", lambda env, c=_c, p=_pr, o=_o: pq_hist(env, c, p, o))
