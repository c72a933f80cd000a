"""Obligations for the linked lists (LinkedList, DoublyLinkedList, CircularLinkedList)."""
from .lin import Lin, V
from .state import NONE, TRUE, FALSE, I, Chunk, Obj, Unsupported, show, rev_word
from .harness import Env, X, Bad, Anchor, judge, add_case, words_equal
from .interp import Exc
from . import shapes

LISTS = ("LinkedList", "DoublyLinkedList", "CircularLinkedList")
NODE = {"LinkedList": "Node", "DoublyLinkedList": "DoublyNode", "CircularLinkedList": "Node",
        "Queue": "Node", "Deque": "DoublyNode"}


# ------------------------------------------------------------- construction
def mk_list(env, cname, word, name, node=None):
    """An instance of list class `cname` whose contents are `word`, which is
    either () or a word known to be non-empty."""
    st = env.st
    cls = env.cls(cname)
    sp = env.specs.get(node or NODE[cname])
    if sp is None:
        raise Anchor("node class vanished")
    check_repr(env, cname)
    if not word:
        a = {"_head": st.new_ptr(), "_length": I(0)}     # the head of an empty list is dead
        if cname == "DoublyLinkedList":
            a["_tail"] = st.new_ptr()
    else:
        h = st.new_ptr()
        a = {"_head": h, "_length": ("i", st.wlen(word))}
        if sp.prv:
            t = st.new_ptr()
            a["_tail"] = t
            st.chunks.append(Chunk("seg", sp, first=h, before=NONE, last=t, after=NONE, word=("w", tuple(word))))
        elif cname == "CircularLinkedList":
            st.chunks.append(Chunk("seg", sp, first=h, after=h, word=("w", tuple(word))))
        else:
            st.chunks.append(Chunk("seg", sp, first=h, after=NONE, word=("w", tuple(word))))
    p = st.alloc(cls, a)
    st.ghosts[name] = p
    return p


REPR = {"LinkedList": {"_head", "_length"}, "DoublyLinkedList": {"_head", "_tail", "_length"},
        "CircularLinkedList": {"_head", "_length"}}


def check_repr(env, cname):
    """The representation the pre-states describe must still be the one the
    constructor builds; otherwise nothing can be concluded."""
    memo = getattr(env, "_repr_ok", None)
    if memo is None:
        memo = env._repr_ok = {}
    if cname not in memo:
        sub = Env(env.prog, 10)
        ok = True
        try:
            for s, v in sub.construct(sub.st, cname):
                if isinstance(v, Exc) or set(s.objs[v].a) != REPR[cname]:
                    ok = False
        except Unsupported:
            ok = False
        memo[cname] = ok
    if not memo[cname]:
        raise Unsupported(f"representation of {cname} changed")


# ------------------------------------------------------------- reading back
def settle(st):
    """Case split until every segment is known to be non-empty."""
    out = []
    work = [st.copy()]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 200:
            raise Unsupported("too many cases in an exit state")
        if not shapes.drop_empty_svars(s) or not s.num.sat():
            continue
        for c in s.chunks:
            if c.kind != "seg":
                continue
            w = c.f["word"][1]
            if s.num.entails_ge(s.wlen(w) - 1):
                if c.spec.prv and len(w) == 1 and w[0][0] == "E" and c.f["first"] != c.f["last"]:
                    work.extend(shapes.unfold(s, c, "front"))
                    break
                continue
            sv = [it for it in w if it[0] != "E"][0]
            work.extend(s.split_svar(sv[1]))
            break
        else:
            out.append(s)
    return out


def read_nodes(s, head, what, circular=False, dbl=False, prev=NONE):
    """Walk the next chain.  -> (word, cells, last pointer, per-node prev problems)"""
    word, cells, cur, pv = (), [], head, prev
    seen = set()
    last = None
    while True:
        if cur == NONE:
            if circular:
                raise Bad(f"{what}: the chain of nodes ends instead of closing on its head", s)
            break
        if cur in seen:
            if cur == head and not dbl:
                break
            raise Bad(f"{what}: the chain of nodes contains a cycle", s)
        seen.add(cur)
        o = s.objs.get(cur)
        if o is not None:
            if isinstance(o.cls, str):
                raise Bad(f"{what}: a {o.cls} is linked as a node", s)
            if "_data" not in o.a or "_next" not in o.a:
                raise Unsupported(f"{what}: unexpected node layout")
            if dbl:
                check_prev(s, o.a.get("_prev", NONE), pv, what)
            word += (("E", pay(o)),)
            cells.append(cur)
            pv = last = cur
            cur = o.a["_next"]
            continue
        c = [c for c in s.chunks if c.kind == "seg" and c.f["first"] == cur]
        if not c:
            raise Unsupported(f"{what}: a node of unknown shape")
        c = c[0]
        if dbl:
            if not c.spec.prv:
                raise Bad(f"{what}: singly linked nodes in a doubly linked list", s)
            check_prev(s, c.f["before"], pv, what)
            pv = c.f["last"]
        last = c.f.get("last", ("segend", cur))
        word += c.f["word"][1]
        cells.append(cur)
        cur = c.f["after"]
    return word, cells, last


def pay(o):
    if "_priority" in o.a:
        return ("tup", (o.a["_priority"], o.a["_data"]))
    return o.a["_data"]


def check_prev(s, got, want, what):
    if got == want:
        return
    if got[0] == "p" and got not in s.objs and s.chunk_at(got)[0] is None:
        raise Unsupported(f"{what}: unknown previous link")
    raise Bad(f"{what}: a node's previous link does not mirror the next link leading to it", s)


def check_list(x, p, want, what, cls=None, links=False):
    """Object p must be a well formed list with contents `want`; returns its cells."""
    st = x.st
    if p[0] != "p" or p not in st.objs:
        if p[0] in ("top",):
            raise Unsupported(f"{what}: unknown value")
        raise Bad(f"{what}: {show(p)} is not a list")
    o = st.objs[p]
    if isinstance(o.cls, str):
        raise Bad(f"{what}: a python {o.cls} instead of a list object")
    if cls is not None and o.cls.name != cls:
        raise Bad(f"{what}: a {o.cls.name} instead of a {cls}")
    base = o.cls.name
    base = {"Queue": "LinkedList"}.get(base, base)
    x.int_is(o.a["_length"], st.wlen(want), f"length of {what}")
    if st.num.entails_eq(st.wlen(want)):
        return []
    allc = []
    st0 = st.copy()
    st0.ghosts["$chk"] = ("tup", (p, ("w", tuple(want))))
    for s in settle(st0):
        q, w = s.ghosts.pop("$chk")[1]
        o = s.objs[q]
        if s.num.entails_eq(s.wlen(w[1])):
            continue
        dbl = base == "DoublyLinkedList"
        head = o.a["_head"]
        if head == NONE:
            raise Bad(f"{what}: no head although it is not empty", s)
        got, cells, last = read_nodes(s, head, what, base == "CircularLinkedList" and links, dbl and links)
        words_equal(s, got, w[1], f"contents of {what}")
        if dbl and links:
            t = o.a["_tail"]
            if t != last:
                if t[0] == "p" and t not in s.objs and s.chunk_at(t)[0] is None:
                    raise Unsupported(f"{what}: unknown tail")
                raise Bad(f"{what}: the tail is not the last node", s)
        allc.append((s, q, cells))
    return allc


def check_disjoint(x, p, q, what):
    """Lists p and q must not share nodes."""
    st0 = x.st.copy()
    st0.ghosts["$chk"] = ("tup", (p, q))
    for s in settle(st0):
        a, b = s.ghosts.pop("$chk")[1]
        ca = node_set(s, a)
        cb = node_set(s, b)
        if ca & cb:
            raise Bad(f"{what}: two lists share nodes", s)
        if a == b:
            raise Bad(f"{what}: the result is the operand itself", s)


def node_set(s, p):
    o = s.objs[p]
    if s.num.entails_eq(o.a["_length"][1]):
        return set()
    out, cur = set(), o.a["_head"]
    while cur != NONE and cur not in out:
        out.add(cur)
        ob = s.objs.get(cur)
        if ob is not None:
            cur = ob.a.get("_next", NONE)
            continue
        c = [c for c in s.chunks if c.kind == "seg" and c.f["first"] == cur]
        if not c:
            break
        cur = c[0].f["after"]
    return out


def unchanged(x, name="self", word="W", what=None):
    check_list(x, x.g(name), x.g(word)[1], what or "the list after a rejected call")


def W(env, items, name="W"):
    env.st.ghosts[name] = ("w", tuple(items))
    return tuple(items)


def setup_exact(env, cname, items, name="self", wname="W"):
    return mk_list(env, cname, W(env, items, wname), name)
