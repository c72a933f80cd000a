"""Contracts of LinkedList, DoublyLinkedList and CircularLinkedList."""
from .lin import Lin, V
from .state import NONE, TRUE, FALSE, I, Obj, Unsupported, show, rev_word
from .harness import X, Bad, Anchor, judge, add_case, words_equal
from .interp import Exc
from .lists import (LISTS, NODE, mk_list, check_list, check_disjoint, settle, unchanged, W)

EDIT, LINK, DERIV, ISO, REJ, QUERY, CMP = "P01", "P02", "P03", "P04", "P05", "P06", "P07"


def el(v):
    return ("E", v)


def edit(cn, label, fn, **kw):
    """Register an editing scenario for contents and, where there is more
    linkage than the forward chain, for the links."""
    add_case(EDIT, f"{cn}.{label}", lambda env: fn(env, cn, False), **kw)
    if cn != "LinkedList":
        add_case(LINK, f"{cn}.{label} [links]", lambda env: fn(env, cn, True), **kw)


def pre(env, cn, items, name="self", word="W"):
    return mk_list(env, cn, W(env, items, word), name)


def want(env, items):
    env.ghost("want", ("w", tuple(items)))


def after(env, mname, args, links, name="self", kw=None, what="the list"):
    """Run a method that must return nothing and leave the wanted contents."""
    ex = env.run(env.st, name, mname, args, kw)

    def post(x):
        r = x.returned()
        if r != NONE:
            raise Bad(f"{mname} returns {show(r)}")
        check_list(x, x.g(name), x.g("want")[1], what + f" after {mname}", links=links)
    judge(env, ex, post)
    return ex


# ---------------------------------------------------------------- edits
def e_front(env, cn, links):
    a = env.svar("obj", 1)
    v = env.ghost("v", env.elem())
    pre(env, cn, (a,))
    want(env, (el(v), a))
    after(env, "add_front", [v], links)


def e_front0(env, cn, links):
    v = env.ghost("v", env.elem())
    pre(env, cn, ())
    want(env, (el(v),))
    after(env, "add_front", [v], links)


def e_end(env, cn, links):
    a = env.svar("obj", 1)
    v = env.ghost("v", env.elem())
    pre(env, cn, (a,))
    want(env, (a, el(v)))
    after(env, "add_end", [v], links)


def e_end0(env, cn, links):
    v = env.ghost("v", env.elem())
    pre(env, cn, ())
    want(env, (el(v),))
    after(env, "add_end", [v], links)


def e_insert(env, cn, links):
    a, b = env.svar(), env.svar()
    v = env.ghost("v", env.elem())
    env.st.num.add_ge(env.ln(a) + env.ln(b) - 1)
    pre(env, cn, (a, b))
    want(env, (a, el(v), b))
    i = env.ghost("idx", ("i", env.ln(a)))
    after(env, "insert", [i, v], links)


def e_insert0(env, cn, links):
    v = env.ghost("v", env.elem())
    pre(env, cn, ())
    want(env, (el(v),))
    after(env, "insert", [I(0), v], links)


def big_index(env, base, m):
    """An index >= m that is congruent to `base` modulo m: base + k*m for k in {1, 2}."""
    return ("i", base + m)


def e_insert_wrap(env, cn, links):
    a, b = env.svar(), env.svar()
    v = env.ghost("v", env.elem())
    env.st.num.add_ge(env.ln(a) + env.ln(b) - 1)
    pre(env, cn, (a, b))
    want(env, (a, el(v), b))
    i = env.ghost("idx", big_index(env, env.ln(a), env.ln(a) + env.ln(b) + 1))
    after(env, "insert", [i, v], links)


def e_insert0_wrap(env, cn, links):
    v = env.ghost("v", env.elem())
    pre(env, cn, ())
    want(env, (el(v),))
    after(env, "insert", [env.ghost("idx", sym_int(env, "idx", 0)), v], links)


def sym_int(env, name, lo=None, hi=None):
    e = V(f"x:{name}")
    if lo is not None:
        env.st.num.add_ge(e - lo)
    if hi is not None:
        env.st.num.add_ge(Lin(hi) - e)
    return ("i", e)


def e_set(env, cn, links):
    a, b = env.svar(), env.svar()
    v, u = env.ghost("v", env.elem()), env.elem()
    pre(env, cn, (a, el(u), b))
    want(env, (a, el(v), b))
    i = env.ghost("idx", ("i", env.ln(a)))
    after(env, "__setitem__", [i, v], links)


def e_set_wrap(env, cn, links):
    a, b = env.svar(), env.svar()
    v, u = env.ghost("v", env.elem()), env.elem()
    pre(env, cn, (a, el(u), b))
    want(env, (a, el(v), b))
    i = env.ghost("idx", big_index(env, env.ln(a), env.ln(a) + env.ln(b) + 1))
    after(env, "__setitem__", [i, v], links)


def e_del(env, cn, links):
    a, b = env.svar(), env.svar()
    u = env.elem()
    pre(env, cn, (a, el(u), b))
    want(env, (a, b))
    i = env.ghost("idx", ("i", env.ln(a)))
    after(env, "__delitem__", [i], links)


def e_del_wrap(env, cn, links):
    a, b = env.svar(), env.svar()
    u = env.elem()
    pre(env, cn, (a, el(u), b))
    want(env, (a, b))
    i = env.ghost("idx", big_index(env, env.ln(a), env.ln(a) + env.ln(b) + 1))
    after(env, "__delitem__", [i], links)


def e_rfront(env, cn, links):
    b = env.svar()
    pre(env, cn, (el(env.elem()), b))
    want(env, (b,))
    after(env, "remove_front", [], links)


def e_rend(env, cn, links):
    a = env.svar()
    pre(env, cn, (a, el(env.elem())))
    want(env, (a,))
    after(env, "remove_end", [], links)


def e_rempty(env, cn, links, m):
    pre(env, cn, ())
    want(env, ())
    after(env, m, [], links)


def e_remove_all(env, cn, links):
    v = env.measured()
    a = env.svar("obj", 1)
    pre(env, cn, (a,))
    del env.st.ghosts["W"]
    want(env, (("F", a[1], v),))
    after(env, "remove", [v], links)


def e_remove_first(env, cn, links):
    v = env.measured()
    a, b = env.svar(), env.svar()
    env.st.num.add_eq(env.cnt(a, v))
    pre(env, cn, (a, el(v), b))
    want(env, (a, b))
    after(env, "remove", [v, FALSE], links)


def e_remove_none(env, cn, links):
    v = env.measured()
    a = env.svar("obj", 1)
    env.st.num.add_eq(env.cnt(a, v))
    pre(env, cn, (a,))
    want(env, (a,))
    after(env, "remove", [v, FALSE], links)


def e_remove0(env, cn, links):
    v = env.ghost("v", env.elem())
    pre(env, cn, ())
    want(env, ())
    after(env, "remove", [v], links)


def e_clear(env, cn, links):
    a = env.svar("obj", 1)
    pre(env, cn, (a,))
    want(env, ())
    after(env, "clear", [], links)


def e_extend(env, cn, links):
    a, b = env.svar("obj", 1), env.svar("obj", 1)
    pre(env, cn, (a,))
    pre(env, cn, (b,), "other", "B")
    want(env, (a, b))
    after(env, "extend", [env.st.ghosts["other"]], links)


def e_extend_from_empty(env, cn, links):
    b = env.svar("obj", 1)
    pre(env, cn, ())
    pre(env, cn, (b,), "other", "B")
    want(env, (b,))
    after(env, "extend", [env.st.ghosts["other"]], links)


def e_extend_by_empty(env, cn, links):
    a = env.svar("obj", 1)
    pre(env, cn, (a,))
    pre(env, cn, (), "other", "B")
    want(env, (a,))
    after(env, "extend", [env.st.ghosts["other"]], links)


def e_extend_self(env, cn, links):
    a = env.svar("obj", 1)
    pre(env, cn, (a,))
    want(env, (a, a))
    after(env, "extend", [env.st.ghosts["self"]], links)


def e_construct(env, cn, links, kind):
    a = env.svar("obj", 1)
    env.ghost("W", ("w", (a,)))
    want(env, (a,))
    if kind == "iter":
        arg = env.st.alloc("list", {"w": ("w", (a,))})
    else:
        arg = mk_list(env, cn, (a,), "src")
    ex = env.construct(env.st, cn, [arg])

    def post(x):
        x.returned()
        check_list(x, x.val, x.g("want")[1], "the constructed list", links=links)
    judge(env, ex, post)


def e_construct0(env, cn, links):
    want(env, ())
    ex = env.construct(env.st, cn, [])

    def post(x):
        x.returned()
        check_list(x, x.val, (), "the constructed list", links=links)
    judge(env, ex, post)


def e_rotate(env, cn, links, m):
    a, b = env.svar(), env.svar("obj", 1)
    pre(env, cn, (a, b))
    want(env, (b, a))
    d = env.ln(a) if m == "rotate_left" else env.ln(b)
    if m == "rotate_right":
        env.st.num.add_ge(env.ln(a) - 1)
    after(env, m, [env.ghost("distance", ("i", d))], links)


def e_rotate_full(env, cn, links, m):
    a = env.svar("obj", 1)
    pre(env, cn, (a,))
    want(env, (a,))
    after(env, m, [env.ghost("distance", ("i", env.ln(a)))], links)


def e_rotate_zero(env, cn, links, m):
    a = env.svar("obj", 1)
    pre(env, cn, (a,))
    want(env, (a,))
    after(env, m, [env.ghost("distance", I(0))], links)


def e_rotate_big(env, cn, links, m):
    a, b = env.svar(), env.svar("obj", 1)
    pre(env, cn, (a, b))
    want(env, (b, a))
    d = env.ln(a) if m == "rotate_left" else env.ln(b)
    if m == "rotate_right":
        env.st.num.add_ge(env.ln(a) - 1)
    after(env, m, [env.ghost("distance", ("i", d + env.ln(a) + env.ln(b)))], links)


def e_rotate0(env, cn, links, m):
    pre(env, cn, ())
    want(env, ())
    after(env, m, [env.ghost("distance", sym_int(env, "d", 0))], links)


for _cn in LISTS:
    edit(_cn, "add_front on a non-empty list", e_front)
    edit(_cn, "add_front on an empty list", e_front0)
    edit(_cn, "add_end on a non-empty list", e_end)
    edit(_cn, "add_end on an empty list", e_end0)
    edit(_cn, "insert anywhere", e_insert)
    edit(_cn, "insert into an empty list", e_insert0)
    edit(_cn, "item assignment", e_set)
    edit(_cn, "item deletion", e_del)
    edit(_cn, "remove_front", e_rfront)
    edit(_cn, "remove_end", e_rend)
    for _m in ("remove_front", "remove_end"):
        edit(_cn, f"{_m} on an empty list", lambda env, cn, links, m=_m: e_rempty(env, cn, links, m))
    edit(_cn, "remove every occurrence", e_remove_all)
    edit(_cn, "remove first occurrence", e_remove_first)
    edit(_cn, "remove of an absent value", e_remove_none)
    edit(_cn, "remove from an empty list", e_remove0)
    edit(_cn, "clear", e_clear)
    edit(_cn, "extend", e_extend)
    edit(_cn, "extend of an empty list", e_extend_from_empty)
    edit(_cn, "extend by an empty list", e_extend_by_empty)
    edit(_cn, "extend by itself", e_extend_self)
    edit(_cn, "construction from an iterable", lambda env, cn, links: e_construct(env, cn, links, "iter"))
    edit(_cn, "construction from another list", lambda env, cn, links: e_construct(env, cn, links, "list"))
    edit(_cn, "construction without items", e_construct0)
    for _m in ("rotate_left", "rotate_right"):
        edit(_cn, f"in-place {_m}", lambda env, cn, links, m=_m: e_rotate(env, cn, links, m))
        edit(_cn, f"in-place {_m} by the length", lambda env, cn, links, m=_m: e_rotate_full(env, cn, links, m))
        edit(_cn, f"in-place {_m} by zero", lambda env, cn, links, m=_m: e_rotate_zero(env, cn, links, m))
        edit(_cn, f"in-place {_m} by more than the length", lambda env, cn, links, m=_m: e_rotate_big(env, cn, links, m))
        edit(_cn, f"in-place {_m} of an empty list", lambda env, cn, links, m=_m: e_rotate0(env, cn, links, m))
edit("CircularLinkedList", "insert at a wrapping index", e_insert_wrap)
edit("CircularLinkedList", "insert at any index into an empty list", e_insert0_wrap)
edit("CircularLinkedList", "item assignment at a wrapping index", lambda env, cn, links: e_set_wrap(env, cn, links))
edit("CircularLinkedList", "item deletion at a wrapping index", lambda env, cn, links: e_del_wrap(env, cn, links))


def e_cdel0(env, cn, links):
    pre(env, cn, ())
    want(env, ())
    after(env, "__delitem__", [env.ghost("idx", sym_int(env, "idx", 0))], links)


edit("CircularLinkedList", "item deletion on an empty list", e_cdel0)


# ---------------------------------------------------------------- derived lists
def derived(env, cn, mname, args, checks, kw=None, iso=False):
    """Run a method that builds new lists from `self`; `checks(x)` gives the
    list of (value, wanted word)."""
    ex = env.run(env.st, "self", mname, args, kw)

    def post(x):
        x.returned()
        res = checks(x)
        if not iso:
            for v, w in res:
                check_list(x, v, w, f"the result of {mname}", cls=cn, links=True)
        else:
            unchanged(x, what=f"the operand of {mname}")
            for v, w in res:
                if v[0] == "p" and v in x.st.objs and not isinstance(x.st.objs[v].cls, str):
                    check_disjoint(x, x.g("self"), v, mname)
            for i in range(len(res)):
                for j in range(i):
                    check_disjoint(x, res[i][0], res[j][0], mname)
    judge(env, ex, post)


def one(x):
    return [(x.val, x.g("want")[1])]


def two(x):
    v = x.val
    if v[0] == "top":
        raise Unsupported("result")
    if v[0] != "tup" or len(v[1]) != 2:
        raise Bad(f"expected a pair of lists, got {show(v)}")
    return [(v[1][0], x.g("left")[1]), (v[1][1], x.g("right")[1])]


def d_copy(env, cn, iso):
    a = env.svar("obj", 1)
    pre(env, cn, (a,))
    want(env, (a,))
    derived(env, cn, "copy", [], one, iso=iso)


def d_reverse(env, cn, iso):
    a = env.svar("obj", 1)
    pre(env, cn, (a,))
    want(env, (("R", a[1]),))
    derived(env, cn, "reverse", [], one, iso=iso)


def d_empty(env, cn, iso, m):
    pre(env, cn, ())
    want(env, ())
    derived(env, cn, m, [], one, iso=iso)


def d_split(env, cn, iso):
    a, b = env.svar(), env.svar()
    env.st.num.add_ge(env.ln(a) + env.ln(b) - 1)
    if cn == "CircularLinkedList":
        env.st.num.add_ge(env.ln(b) - 1)
    pre(env, cn, (a, b))
    env.ghost("left", ("w", (a,)))
    env.ghost("right", ("w", (b,)))
    derived(env, cn, "split", [env.ghost("idx", ("i", env.ln(a)))], two, iso=iso)


def d_split_wrap(env, cn, iso):
    a, b = env.svar(), env.svar("obj", 1)
    pre(env, cn, (a, b))
    env.ghost("left", ("w", (a,)))
    env.ghost("right", ("w", (b,)))
    derived(env, cn, "split", [env.ghost("idx", ("i", env.ln(a).scale(2) + env.ln(b)))], two, iso=iso)


def d_split0(env, cn, iso):
    pre(env, cn, ())
    env.ghost("left", ("w", ()))
    env.ghost("right", ("w", ()))
    derived(env, cn, "split", [I(0)], two, iso=iso)


def d_rotate(env, cn, iso, m):
    a, b = env.svar(), env.svar("obj", 1)
    if m == "rotate_right":
        env.st.num.add_ge(env.ln(a) - 1)
    pre(env, cn, (a, b))
    want(env, (b, a))
    d = env.ln(a) if m == "rotate_left" else env.ln(b)
    derived(env, cn, m, [env.ghost("distance", ("i", d)), FALSE], one, iso=iso)


def d_slice(env, cn, iso):
    a, b, c = env.svar(), env.svar(), env.svar()
    env.st.num.add_ge(env.ln(a) + env.ln(b) + env.ln(c) - 1)
    pre(env, cn, (a, b, c))
    want(env, (b,))
    sl = ("slice", ("i", env.ln(a)), ("i", env.ln(a) + env.ln(b)), NONE)
    derived(env, cn, "__getitem__", [sl], one, iso=iso)


def d_slice_form(env, cn, iso, form):
    a, b = env.svar("obj", 1), env.svar("obj", 1)
    pre(env, cn, (a, b))
    la, lb = ("i", env.ln(a)), ("i", env.ln(b))
    w, sl = {
        "from": ((b,), ("slice", la, NONE, NONE)),
        "upto": ((a,), ("slice", NONE, la, NONE)),
        "last": ((b,), ("slice", ("i", -env.ln(b)), NONE, NONE)),
        "butlast": ((a,), ("slice", NONE, ("i", -env.ln(b)), NONE)),
        "all": ((a, b), ("slice", NONE, NONE, NONE)),
        "beyond": ((b,), ("slice", la, ("i", env.ln(a) + env.ln(b) + 3), NONE)),
        "none": ((), ("slice", ("i", env.ln(a) + env.ln(b)), NONE, NONE)),
        "crossed": ((), ("slice", ("i", env.ln(a)), ("i", env.ln(a) - 1), NONE)),
        "back": (tuple(rev_word((a, b))), ("slice", NONE, NONE, I(-1))),
        "backto": (tuple(rev_word((b,))), ("slice", NONE, ("i", env.ln(a) - 1), I(-1))),
    }[form]
    want(env, w)
    derived(env, cn, "__getitem__", [sl], one, iso=iso)


def d_slice_step(env, cn, iso, n, lo, hi, k):
    es = [env.elem("obj") for _ in range(n)]
    for i, e in enumerate(es):
        env.ghost(f"e{i}", e)
    pre(env, cn, tuple(el(e) for e in es))
    want(env, tuple(el(e) for e in es[lo:hi:k]))
    f = lambda x: NONE if x is None else I(x)
    derived(env, cn, "__getitem__", [("slice", f(lo), f(hi), f(k))], one, iso=iso)


def d_rotate_n(env, cn, iso, m, n, r, inplace):
    """A list of n items rotated by any distance q * n + r."""
    es = [env.ghost(f"e{i}", env.elem("obj")) for i in range(n)]
    pre(env, cn, tuple(el(e) for e in es))
    k = r if m == "rotate_left" else -r % n
    want(env, tuple(el(e) for e in es[k:] + es[:k]))
    q = V("x:q")
    env.ghost("turns", ("i", q))
    env.st.num.add_ge(q)
    d = env.ghost("distance", ("i", q.scale(n) + r))
    if inplace:
        after(env, m, [d], False)
    else:
        derived(env, cn, m, [d, FALSE], one, iso=iso)


for _cn in LISTS:
    for _m in ("rotate_left", "rotate_right"):
        for _n in (1, 2, 3):
            for _r in range(_n):
                add_case(DERIV, f"{_cn}.{_m} of {_n} items, any distance with remainder {_r}",
                         lambda env, cn=_cn, m=_m, n=_n, r=_r: d_rotate_n(env, cn, False, m, n, r, False))
                add_case(EDIT, f"{_cn}.in-place {_m} of {_n} items, any distance with remainder {_r}",
                         lambda env, cn=_cn, m=_m, n=_n, r=_r: d_rotate_n(env, cn, False, m, n, r, True))
    if _cn != "CircularLinkedList":
        for _f in ("from", "upto", "last", "butlast", "all", "beyond", "none", "crossed", "back", "backto"):
            add_case(DERIV, f"{_cn}.slicing, {_f}", lambda env, cn=_cn, f=_f: d_slice_form(env, cn, False, f))
        for _s in ((4, 0, 4, 2), (5, 1, None, 2), (5, None, None, 3), (4, None, None, -1), (5, 4, 0, -2), (3, -1, -3, -1),
                   (4, 2, 3, None), (4, 3, None, None), (1, 0, 1, 2), (3, 5, 0, -2)):
            add_case(DERIV, f"{_cn}.slicing {_s[0]} items by {_s[1:]}", lambda env, cn=_cn, s=_s: d_slice_step(env, cn, False, *s))

for _cn in LISTS:
    for _p, _iso, _t in ((DERIV, False, ""), (ISO, True, " [isolation]")):
        def reg(label, fn, p=_p, iso=_iso, t=_t, cn=_cn):
            add_case(p, f"{cn}.{label}{t}", lambda env: fn(env, cn, iso))
        reg("copy", d_copy)
        reg("reverse", d_reverse)
        for _m in ("copy", "reverse"):
            reg(f"{_m} of an empty list", lambda env, cn, iso, m=_m: d_empty(env, cn, iso, m))
        reg("split anywhere", d_split)
        reg("split of an empty list", d_split0)
        for _m in ("rotate_left", "rotate_right"):
            reg(f"{_m} into a new list", lambda env, cn, iso, m=_m: d_rotate(env, cn, iso, m))
        if _cn != "CircularLinkedList":
            reg("slicing", d_slice)
        else:
            reg("split at a wrapping index", d_split_wrap)


def d_tolist(env, cn, empty):
    if empty:
        pre(env, cn, ())
        want(env, ())
    else:
        a = env.svar("obj", 1)
        pre(env, cn, (a,))
        want(env, (a,))
    ex = env.run(env.st, "self", "to_list")
    judge(env, ex, lambda x: (x.returned(), x.words(x.pylist(x.val), x.g("want")[1], "result of to_list")))


def d_iter(env, cn, empty):
    if empty:
        pre(env, cn, ())
        want(env, ())
    else:
        a = env.svar("obj", 1)
        pre(env, cn, (a,))
        want(env, (a,))
    ex = []
    for s, v in env.run(env.st, "self", "__iter__"):
        if isinstance(v, Exc):
            ex.append((s, v))
        else:
            ex.extend(env.gen_list(s, v))
    judge(env, ex, lambda x: (x.returned(), x.words(x.pylist(x.val), x.g("want")[1], "the iteration"),
                              unchanged(x, what="the list after iterating")))


for _cn in LISTS:
    for _e in (False, True):
        add_case(DERIV, f"{_cn}.to_list{' of an empty list' if _e else ''}", lambda env, cn=_cn, e=_e: d_tolist(env, cn, e))
        add_case(DERIV, f"{_cn}.iteration{' of an empty list' if _e else ''}", lambda env, cn=_cn, e=_e: d_iter(env, cn, e))


def iso_extend(env, cn):
    a, b = env.svar("obj", 1), env.svar("obj", 1)
    pre(env, cn, (a,))
    pre(env, cn, (b,), "other", "B")
    ex = env.run(env.st, "self", "extend", [env.st.ghosts["other"]])

    def post(x):
        x.returned()
        check_list(x, x.g("other"), x.g("B")[1], "the argument of extend", links=True)
        check_disjoint(x, x.g("self"), x.g("other"), "extend")
    judge(env, ex, post)


def iso_extend_empty(env, cn):
    b = env.svar("obj", 1)
    pre(env, cn, ())
    pre(env, cn, (b,), "other", "B")
    ex = env.run(env.st, "self", "extend", [env.st.ghosts["other"]])

    def post(x):
        x.returned()
        check_list(x, x.g("other"), x.g("B")[1], "the argument of extend", links=True)
        check_disjoint(x, x.g("self"), x.g("other"), "extend")
    judge(env, ex, post)


def iso_construct(env, cn):
    a = env.svar("obj", 1)
    mk_list(env, cn, W(env, (a,)), "src")
    ex = env.construct(env.st, cn, [env.st.ghosts["src"]])

    def post(x):
        x.returned()
        check_list(x, x.g("src"), x.g("W")[1], "the list passed to the constructor", links=True)
        check_disjoint(x, x.g("src"), x.val, "construction")
    judge(env, ex, post)


for _cn in LISTS:
    add_case(ISO, f"{_cn}.extend leaves its argument alone", lambda env, cn=_cn: iso_extend(env, cn))
    add_case(ISO, f"{_cn}.extend of an empty list leaves its argument alone", lambda env, cn=_cn: iso_extend_empty(env, cn))
    add_case(ISO, f"{_cn}.construction leaves the source alone", lambda env, cn=_cn: iso_construct(env, cn))


# ---------------------------------------------------------------- queries
def q_get(env, cn, wrap=False, neg=False):
    a, b = env.svar(), env.svar()
    u = env.ghost("u", env.elem())
    pre(env, cn, (a, el(u), b))
    n = env.ln(a) + env.ln(b) + 1
    i = env.ln(a)
    if wrap:
        i = i + n
    if neg:
        i = i - n
    ex = env.run(env.st, "self", "__getitem__", [env.ghost("idx", ("i", i))])
    judge(env, ex, lambda x: (x.returned(), x.val_is(x.val, x.g("u"), "the item at that index"),
                              unchanged(x, what="the list after indexing")))


def q_contains(env, cn, present):
    v = env.measured()
    a, b = env.svar(), env.svar()
    if present:
        pre(env, cn, (a, el(v), b))
    else:
        env.st.num.add_eq(env.cnt(a, v))
        env.st.num.add_ge(env.ln(a) - 1)
        pre(env, cn, (a,))
    ex = env.run(env.st, "self", "__contains__", [v])
    judge(env, ex, lambda x: (x.returned(), x.bool_is(x.val, present, "membership"),
                              unchanged(x, what="the list after a membership test")))


def q_contains0(env, cn):
    v = env.ghost("v", env.elem())
    pre(env, cn, ())
    ex = env.run(env.st, "self", "__contains__", [v])
    judge(env, ex, lambda x: (x.returned(), x.bool_is(x.val, False, "membership")))


def q_contains_none(env, cn):
    a = env.svar("obj", 1)
    pre(env, cn, (a,))
    ex = env.run(env.st, "self", "__contains__", [NONE])
    judge(env, ex, lambda x: (x.returned(), x.bool_is(x.val, False, "membership of None")))


def q_count(env, cn):
    v = env.measured()
    a = env.svar("obj", 1)
    c = env.cnt(a, v)
    pre(env, cn, (a,))
    env.ghost("n", ("i", c))
    ex = env.run(env.st, "self", "count", [v])
    judge(env, ex, lambda x: (x.returned(), x.int_is(x.val, x.g("n")[1], "the number of occurrences"),
                              unchanged(x, what="the list after count")))


def q_len(env, cn, empty):
    if empty:
        pre(env, cn, ())
    else:
        pre(env, cn, (env.svar("obj", 1),))
    s0 = env.st.copy()
    ex = env.run(env.st, "self", "__len__")
    judge(env, ex, lambda x: (x.returned(), x.int_is(x.val, x.st.wlen(x.g("W")[1]), "len()")))
    ex = env.run(s0, "self", "is_empty")
    judge(env, ex, lambda x: (x.returned(), x.bool_is(x.val, empty, "is_empty()")))


for _cn in LISTS:
    add_case(QUERY, f"{_cn}.indexing", lambda env, cn=_cn: q_get(env, cn))
    if _cn == "CircularLinkedList":
        add_case(QUERY, f"{_cn}.indexing past the end wraps", lambda env, cn=_cn: q_get(env, cn, wrap=True))
    else:
        add_case(QUERY, f"{_cn}.negative indexing", lambda env, cn=_cn: q_get(env, cn, neg=True))
    add_case(QUERY, f"{_cn}.membership of a present value", lambda env, cn=_cn: q_contains(env, cn, True))
    add_case(QUERY, f"{_cn}.membership of an absent value", lambda env, cn=_cn: q_contains(env, cn, False))
    add_case(QUERY, f"{_cn}.membership in an empty list", lambda env, cn=_cn: q_contains0(env, cn))
    add_case(QUERY, f"{_cn}.membership of None", lambda env, cn=_cn: q_contains_none(env, cn))
    add_case(QUERY, f"{_cn}.count", lambda env, cn=_cn: q_count(env, cn))
    for _e in (False, True):
        add_case(QUERY, f"{_cn}.len and is_empty{' of an empty list' if _e else ''}", lambda env, cn=_cn, e=_e: q_len(env, cn, e))


# ---------------------------------------------------------------- comparisons
def cmp_case(env, cn, op, setup, expect):
    setup(env, cn)
    ex = env.run(env.st, "self", op, [env.st.ghosts["other"]])

    def post(x):
        x.returned()
        x.bool_is(x.val, expect, f"{op}")
        unchanged(x, what=f"the left operand of {op}")
        unchanged(x, "other", "B", what=f"the right operand of {op}")
    judge(env, ex, post)


def c_same(env, cn):
    a = env.svar("num", 1)
    pre(env, cn, (a,))
    pre(env, cn, (a,), "other", "B")


def c_empty(env, cn):
    pre(env, cn, ())
    pre(env, cn, (), "other", "B")


def c_prefix(env, cn):
    a, b = env.svar("num"), env.svar("num", 1)
    if cn == "CircularLinkedList":
        pass
    env.st.num.add_ge(env.ln(a) - 1)
    pre(env, cn, (a,))
    pre(env, cn, (a, b), "other", "B")


def c_longer(env, cn):
    a, b = env.svar("num", 1), env.svar("num", 1)
    pre(env, cn, (a, b))
    pre(env, cn, (a,), "other", "B")


def c_differ(env, cn):
    """Common prefix, then two different elements, equal lengths."""
    a, b, c = env.svar("num"), env.svar("num"), env.svar("num")
    u, v = env.elem("num"), env.elem("num")
    env.st.num.add_eq(env.ln(b) - env.ln(c))
    env.ne(u, v)
    env.ghost("u", u)
    env.ghost("v", v)
    pre(env, cn, (a, el(u), b))
    pre(env, cn, (a, el(v), c), "other", "B")


def c_less(env, cn, flip=False):
    """Common prefix and suffix, one position where the left item is smaller."""
    a, b = env.svar("num"), env.svar("num")
    u, v = env.elem("num"), env.elem("num")
    env.st.add_fact("lt", v, u) if flip else env.st.add_fact("lt", u, v)
    pre(env, cn, (a, el(u), b))
    pre(env, cn, (a, el(v), b), "other", "B")


def c_greater(env, cn):
    c_less(env, cn, True)


def c_0vs(env, cn):
    pre(env, cn, ())
    pre(env, cn, (env.svar("num", 1),), "other", "B")


OPS = {"__eq__": dict(same=True, empty=True, prefix=False, longer=False, differ=False, e0=False),
       "__ne__": dict(same=False, empty=False, prefix=True, longer=True, differ=True, e0=True),
       "__lt__": dict(less=True, greater=False, same=False, empty=False, prefix=True, longer=False, e0=True),
       "__le__": dict(less=True, greater=False, same=True, empty=True, prefix=True, longer=False, e0=True),
       "__gt__": dict(less=False, greater=True, same=False, empty=False, prefix=False, longer=True, e0=False),
       "__ge__": dict(less=False, greater=True, same=True, empty=True, prefix=False, longer=True, e0=False)}
SETUPS = dict(less=(c_less, "one smaller item on the left"), greater=(c_greater, "one greater item on the left"),
              same=(c_same, "equal lists"), empty=(c_empty, "empty lists"), prefix=(c_prefix, "a proper prefix on the left"),
              longer=(c_longer, "a proper prefix on the right"), differ=(c_differ, "lists with one differing element"),
              e0=(c_0vs, "an empty list on the left"))
for _cn in LISTS:
    for _op, _tab in OPS.items():
        for _k, _exp in _tab.items():
            add_case(CMP, f"{_cn}.{_op} with {SETUPS[_k][1]}",
                     lambda env, cn=_cn, op=_op, k=_k, e=_exp: cmp_case(env, cn, op, SETUPS[k][0], e))


# lists that differ in several places or in length as well: one is below the other when it is not longer and no item of
# it is greater than the opposing one
def c_pair(env, cn, rel, shape):
    """A common prefix, then items related as in `rel` (one symbol per place: < or >) with common runs between, then the
    rest: of the `left` or `right` list only, or the `same` in both."""
    lft, rgt = [], []
    for i, r in enumerate(rel):
        a = env.svar("num")
        u, v = env.elem("num"), env.elem("num")
        env.ghost(f"u{i}", u)
        env.ghost(f"v{i}", v)
        env.st.add_fact("lt", *((u, v) if r == "<" else (v, u)))
        lft += [a, el(u)]
        rgt += [a, el(v)]
    if shape == "same":
        a = env.svar("num")
        lft, rgt = lft + [a], rgt + [a]
    else:
        (lft if shape == "left" else rgt).append(env.svar("num", 1))
    pre(env, cn, tuple(lft))
    pre(env, cn, tuple(rgt), "other", "B")


PAIRS = [(rel, shape) for rel in ("<", ">", "<<", ">>", "<>", "><") for shape in ("same", "left", "right")
         if len(rel) > 1 or shape != "same"]
LONGER = {"same": "of one length", "left": "the left one longer", "right": "the right one longer"}
for _cn in LISTS:
    for _rel, _shape in PAIRS:
        _le = ">" not in _rel and _shape != "left"
        _ge = "<" not in _rel and _shape != "right"
        for _op, _exp in dict(__lt__=_le, __le__=_le, __gt__=_ge, __ge__=_ge, __eq__=False, __ne__=True).items():
            add_case(CMP, f"{_cn}.{_op} with items {' '.join(_rel)}, {LONGER[_shape]}",
                     lambda env, cn=_cn, op=_op, r=_rel, h=_shape, e=_exp: cmp_case(env, cn, op, lambda env, cn: c_pair(env, cn, r, h), e))


def cmp_mismatch(env, cn, op):
    a = env.svar("num", 1)
    pre(env, cn, (a,))
    other = env.st.alloc("list", {"w": ("w", (a,))})
    ex = env.run(env.st, "self", op, [other])
    judge(env, ex, lambda x: (x.raised("TypeError"), unchanged(x)))


for _cn in LISTS:
    for _op in OPS:
        add_case(REJ, f"{_cn}.{_op} with a python list", lambda env, cn=_cn, op=_op: cmp_mismatch(env, cn, op))


# ---------------------------------------------------------------- rejected calls
def rej(env, cn, items, mname, args, excs, kw=None):
    pre(env, cn, items)
    ex = env.run(env.st, "self", mname, args, kw)
    judge(env, ex, lambda x: (x.raised(*excs), unchanged(x)))


def r_idx(env, cn, m, rng):
    a = env.svar("obj", 1)
    n = env.ln(a)
    if rng == "over":
        i = ("i", n + 1 if m in ("insert", "split") else n)
        e = V("x:i")
        env.st.num.add_ge(e - (n + 1 if m in ("insert", "split") else n))
        i = ("i", e)
    elif rng == "under":
        i = sym_int(env, "i", None, -1)
        if m == "__getitem__" and cn != "CircularLinkedList":
            env.st.num.add_ge(-n - 1 - i[1])
    env.ghost("idx", i)
    args = {"insert": [i, env.elem()], "__setitem__": [i, env.elem()]}.get(m, [i])
    rej(env, cn, (a,), m, args, ("IndexError",))


def r_idx_type(env, cn, m):
    a = env.svar("obj", 1)
    i = env.ghost("idx", ("c", "x"))
    args = {"insert": [i, env.elem()], "__setitem__": [i, env.elem()]}.get(m, [i])
    rej(env, cn, (a,), m, args, ("TypeError",))


def r_none(env, cn, m):
    a = env.svar("obj", 1)
    args = {"insert": [I(0), NONE], "__setitem__": [I(0), NONE]}.get(m, [NONE])
    rej(env, cn, (a,), m, args, ("ValueError",))


def r_extra(env, cn, m):
    a = env.svar("obj", 1)
    bad = mk_list(env, cn, (env.svar("obj", 1),), "bad")
    args = {"insert": [I(0), bad], "__setitem__": [I(0), bad]}.get(m, [bad])
    rej(env, cn, (a,), m, args, ("TypeError",))


def r_construct(env, cn, kind):
    a, b = env.svar(), env.svar()
    if kind == "none":
        arg = env.st.alloc("list", {"w": ("w", (a, ("E", NONE), b))})
        exc = "ValueError"
    elif kind == "extra":
        bad = mk_list(env, cn, (env.svar("obj", 1),), "bad")
        arg = env.st.alloc("list", {"w": ("w", (a, ("E", bad), b))})
        exc = "TypeError"
    else:
        arg = I(5)
        exc = "TypeError"
    ex = env.construct(env.st, cn, [arg])
    judge(env, ex, lambda x: x.raised(exc))


def r_extend(env, cn):
    a = env.svar("obj", 1)
    other = env.st.alloc("list", {"w": ("w", (a,))})
    rej(env, cn, (a,), "extend", [other], ("TypeError",))


def r_rot(env, cn, m, kind):
    a = env.svar("obj", 1)
    if kind == "negative":
        args, e = [sym_int(env, "d", None, -1)], "ValueError"
    elif kind == "type":
        args, e = [("c", "x")], "TypeError"
    else:
        args, e = [I(1), I(1)], "TypeError"
    rej(env, cn, (a,), m, args, (e,))


def r_remove_all(env, cn):
    a = env.svar("obj", 1)
    rej(env, cn, (a,), "remove", [env.elem(), I(1)], ("TypeError",))


def r_empty(env, cn, m):
    args = {"__setitem__": [I(0), env.elem()]}.get(m, [I(0)])
    rej(env, cn, (), m, args, ("IndexError",))


for _cn in LISTS:
    circ = _cn == "CircularLinkedList"
    for _m in ("insert", "__setitem__", "__delitem__", "__getitem__", "split"):
        for _r in ("over", "under"):
            if _r == "over" and circ:
                continue
            add_case(REJ, f"{_cn}.{_m} with an index {'past the end' if _r == 'over' else 'below the range'}",
                     lambda env, cn=_cn, m=_m, r=_r: r_idx(env, cn, m, r))
        add_case(REJ, f"{_cn}.{_m} with a non-integer index", lambda env, cn=_cn, m=_m: r_idx_type(env, cn, m))
    for _m in ("add_front", "add_end", "insert", "__setitem__", "remove"):
        add_case(REJ, f"{_cn}.{_m} of None", lambda env, cn=_cn, m=_m: r_none(env, cn, m))
        add_case(REJ, f"{_cn}.{_m} of another structure", lambda env, cn=_cn, m=_m: r_extra(env, cn, m))
    for _k in ("none", "extra", "scalar"):
        add_case(REJ, f"{_cn} constructed from {dict(none='items with None', extra='items with a structure', scalar='a non-iterable')[_k]}",
                 lambda env, cn=_cn, k=_k: r_construct(env, cn, k))
    add_case(REJ, f"{_cn}.extend with a python list", lambda env, cn=_cn: r_extend(env, cn))
    for _m in ("rotate_left", "rotate_right"):
        for _k in ("negative", "type", "flag"):
            add_case(REJ, f"{_cn}.{_m} with a bad {'distance' if _k != 'flag' else 'flag'} ({_k})",
                     lambda env, cn=_cn, m=_m, k=_k: r_rot(env, cn, m, k))
    add_case(REJ, f"{_cn}.remove with a bad flag", lambda env, cn=_cn: r_remove_all(env, cn))
    for _m in ("__getitem__", "__setitem__") + (() if circ else ("__delitem__",)):
        add_case(REJ, f"{_cn}.{_m} on an empty list", lambda env, cn=_cn, m=_m: r_empty(env, cn, m))
