"""Contracts of the binary search trees (BST, AVL, RedBlackTree, Treap, SplayTree)."""
from .lin import Lin, V
from .state import St, NONE, TRUE, FALSE, I, Obj, Unsupported, show
from .harness import X, Bad, Anchor, Env, judge, add_case, words_equal, norm_word
from .interp import Exc
from . import trees
from .trees import RED, BLACK, color_of, max_is, eq

ITEMS, LINKS, AVLP, RBP, TREAPP, SPLAYP, READS, QUERY = "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20"
NODE = {"BST": "BSTNode", "AVL": "AVLNode", "RedBlackTree": "RedBlackNode", "Treap": "TreapNode",
        "SplayTree": "BSTNode"}
TREES = tuple(NODE)


# ---------------------------------------------------------------- pre-states
def probe(env, cname):
    """The pre-states describe this representation; check the constructor still builds it."""
    memo = env.__dict__.setdefault("_tprobe", {})
    if cname not in memo:
        okk = False
        try:
            sub = Env(env.prog, 10)
            ex = sub.construct(sub.st, cname)
            okk = bool(ex)
            for s, p in ex:
                okk &= not isinstance(p, Exc) and s.objs[p].a == {"_root": NONE, "_length": I(0)}
                if not okk:
                    break
                sub.ghost("self", p)
                s.ghosts["self"] = p
                sub.st = s
                v = sub.elem("num")
                for s2, r in sub.run(s, "self", "insert", [v]):
                    if isinstance(r, Exc):
                        continue
                    root = s2.objs[s2.ghosts["self"]].a["_root"]
                    o = s2.objs.get(root)
                    sp = sub.specs.get(NODE[cname])
                    if o is not None and sp is not None and (o.cls is not sp.cls or set(o.a) != sp.layout):
                        okk = False
        except Unsupported:
            okk = False
        memo[cname] = okk
    if not memo[cname]:
        raise Unsupported(f"representation of {cname} changed")


def mk(env, cname, word, name="self"):
    st = env.st
    cls = env.cls(cname)
    sp = env.specs.get(NODE[cname])
    if sp is None:
        raise Anchor("node class vanished")
    probe(env, cname)
    if env.mode == "items":
        sp = trees.variant(env.specs, NODE[cname], bal=False)
    elif env.mode == "links":
        sp = trees.variant(env.specs, NODE[cname], bal=False, ordered=True)
    elif env.mode == "balance":
        sp = trees.variant(env.specs, NODE[cname], ordered=True)
    r = NONE
    if word:
        r = st.new_ptr()
        at = trees.add_tree(st, sp, r, NONE, word)
        if sp.bal == "rb":
            st.num.add_eq(at["c"][1])
        if env.size is not None and sp.bal in ("avl", "rb"):
            st.num.add_eq(at[{"avl": "H", "rb": "bh"}[sp.bal]][1] - env.size)
            trees.bound_size(st, sp, at, word)
    p = st.alloc(cls, {"_root": r, "_length": ("i", st.wlen(word))})
    st.ghosts[name] = p
    return p


def set_mode(env, mode):
    """items: the in-order word, balance data unknown.  links / balance: no word is remembered, the summaries are
    sorted trees.  The witness pass keeps everything."""
    env.mode = "full" if env.it.peel else mode


def sorted_word(env, lo=0):
    s = env.svar("num", lo)
    if env.mode in ("items", "full"):
        env.ghost("w", ("w", (s,)))
        env.st.sorted = ("w",)
    return (s,)


def value(env, name="v"):
    v = env.elem("num")
    if env.mode in ("items", "full"):
        env.ghost(name, v)
    return v


# ---------------------------------------------------------------- reading back
class Reader:
    """Walk the tree below a root: in-order word and structural checks of the chosen aspects."""

    def __init__(self, st, sp, what, aspects):
        self.st, self.sp, self.what, self.aspects = st, sp, what, aspects
        self.seen = set()

    def bad(self, msg, st=None):
        raise Bad(f"{self.what}: {msg}", st or self.st)

    def eq(self, e, msg):
        """e must be 0"""
        n = self.st.num
        if n.entails_eq(e):
            return
        for d in (e - 1, -e - 1):
            s = self.st.copy()
            s.num.add_ge(d)
            if s.num.sat() and s.num.model() is not None:
                self.bad(msg, s)
        raise Unsupported(f"{self.what}: {msg}: cannot decide")

    def ge(self, e, msg):
        if self.st.num.entails_ge(e):
            return
        s = self.st.copy()
        s.num.add_ge(-e - 1)
        if s.num.sat():
            self.bad(msg, s)
        raise Unsupported(f"{self.what}: {msg}: cannot decide")

    def le(self, a, b, msg):
        if a == NONE or b == NONE or self.st.le(a, b):
            return
        s = self.st.copy()
        if s.add_fact("lt", b, a) and s.order_ok():
            self.bad(msg, s)
        raise Unsupported(f"{self.what}: {msg}: cannot decide")

    def parent(self, got, want):
        if "links" not in self.aspects or not self.sp.parent:
            return
        if got != want:
            self.bad("a node's parent is not the node it hangs below")

    def read(self, p, parent):
        """-> (word, attrs)"""
        st, sp = self.st, self.sp
        if p == NONE:
            return (), trees.empty_attrs(sp)
        if p[0] != "p":
            self.bad(f"{show(p)} is linked as a node")
        if p in self.seen:
            self.bad("a node is reachable in two ways")
        self.seen.add(p)
        o = st.objs.get(p)
        if o is None:
            c, where = st.chunk_at(p)
            if c is None or c.kind not in ("tree", "ctx") or where != "front":
                raise Unsupported(f"{self.what}: untracked node")
            self.parent(c.f.get("parent", NONE), parent)
            if c.kind == "tree":
                return c.f["word"][1], trees.chunk_attrs(c)
            w, at = self.read(c.f["hole"], c.f["holep"])
            return c.f["L"][1] + w + c.f["R"][1], self.fill(c, at)
        if o.cls is not sp.cls:
            self.bad("a foreign object is linked as a node")
        if "_left" not in o.a or "_right" not in o.a or "_data" not in o.a:
            raise Unsupported(f"{self.what}: unexpected node layout")
        if sp.parent:
            self.parent(o.a.get(sp.parent, NONE), parent)
        lw, la = self.read(o.a["_left"], p)
        rw, ra = self.read(o.a["_right"], p)
        d = o.a["_data"]
        if d[0] == "top":
            raise Unsupported(f"{self.what}: unknown data")
        return lw + (("E", d),) + rw, self.attrs(o, la, ra)

    def attrs(self, o, la, ra):
        sp, on = self.sp, self.sp.bal in self.aspects
        if sp.bal == "avl":
            h = o.a["_height"]
            if h[0] != "i":
                if on:
                    self.bad(f"the stored height is {show(h)}")
                return {"H": self.st.new_int(1)}
            if on:
                H, a, b = h[1], la["H"][1], ra["H"][1]
                if not max_is(self.st, H, a, b):
                    self.ge(a - b + 1, "the heights of two siblings differ by more than one")
                    self.ge(b - a + 1, "the heights of two siblings differ by more than one")
                    self.ge(H - a, "a stored height is too small")
                    self.ge(H - b, "a stored height is too small")
                    s = self.st.copy()
                    s.num.add_ge(H - a - 1)
                    s.num.add_ge(H - b - 1)
                    if s.num.sat():
                        self.bad("a stored height is too large", s)
            return {"H": ("i", h[1] + 1)}
        if sp.bal == "rb":
            c = color_of(o)
            if c is None:
                if on:
                    self.bad(f"a node's colour is {show(o.a['_color'])}")
                c = 0
            if on:
                if c == 1:
                    self.eq(la["c"][1], "a red node has a red child")
                    self.eq(ra["c"][1], "a red node has a red child")
                self.eq(la["bh"][1] - ra["bh"][1], "paths of one node have different numbers of black nodes")
            return {"bh": ("i", la["bh"][1] + 1 - c), "c": I(c)}
        if sp.bal == "treap":
            p = o.a["_priority"]
            if on:
                if p[0] not in ("e", "c"):
                    raise Unsupported(f"{self.what}: priority {show(p)}")
                self.le(la["pm"], p, "a node has a smaller priority than its child")
                self.le(ra["pm"], p, "a node has a smaller priority than its child")
            return {"pm": p}
        return {}

    def fill(self, c, at):
        if self.sp.bal not in self.aspects or self.sp.bal is None:
            return {k: c.f[k] for k in trees.TATTR[self.sp.bal]}
        f = c.f
        if self.sp.bal == "avl":
            self.eq(f["hH"][1] - at["H"][1], "stored heights above a changed subtree are stale")
        elif self.sp.bal == "rb":
            self.eq(f["hbh"][1] - at["bh"][1], "paths of one node have different numbers of black nodes")
            self.ge(Lin(1) - f["pc"][1] - at["c"][1], "a red node has a red child")
        else:
            self.le(at["pm"], f["hpm"], "a node has a smaller priority than its child")
        return {k: c.f[k] for k in trees.TATTR[self.sp.bal]}


def read(x, name="self", aspects=(), what="the tree"):
    st = x.st
    o = st.objs[x.g(name)]
    sp = x.env.specs[NODE[o.cls.name]]
    r = Reader(st, sp, what, aspects)
    w, at = r.read(o.a["_root"], NONE)
    if sp.bal == "rb" and "rb" in aspects:
        r.eq(at["c"][1], "the root is red")
    if "length" in aspects:
        x.int_is(o.a["_length"], st.wlen(w), f"{what}: stored length")
    return w, at


# ---------------------------------------------------------------- words and membership
def pos_ok(x, got, v, what):
    """v occurs once in got, in order."""
    i = [k for k, it in enumerate(got) if it == ("E", v)]
    if not i:
        raise Bad(f"{what}: the value is missing", x.st)
    if len(i) > 1:
        raise Bad(f"{what}: the value is there twice", x.st)
    i = i[0]
    for k, it in enumerate(got):
        if k == i:
            continue
        a = it[1] if it[0] == "E" else ("S", it[1])
        u, w = (a, v) if k < i else (v, a)
        if it[0] == "S" and x.st.num.entails_eq(V(f"len:{it[1]}")):
            continue
        if not x.st.lt(u, w):
            s = x.st.copy()
            if it[0] == "S":
                s.num.add_ge(V(f"len:{it[1]}") - 1)
            if s.add_fact("lt", w, u) and s.num.sat() and s.order_ok():
                raise Bad(f"{what}: the value is out of order", s)
            raise Unsupported(f"{what}: order of the value")
    return got[:i] + got[i + 1:]


def absent(x, word, v, what):
    """v must be known not to occur in word; Bad (refined) when it can."""
    for it in word:
        if it[0] == "E":
            if x.st.known_ne(it[1], v):
                continue
            s = x.st.copy()
            if it[1] == v or s.assume_eq(it[1], v):
                raise Bad(what, s)
            continue
        if x.st.num.entails_eq(V(f"len:{it[1]}")) or x.st.lt(("S", it[1]), v) or x.st.lt(v, ("S", it[1])):
            continue
        s = x.st.copy()
        s.num.add_ge(V(f"len:{it[1]}") - 1)
        if not s.num.sat():
            continue
        for s2, a, p, b in s.tri_svar(it[1]):
            if s2.assume_eq(p, v) and s2.num.sat() and s2.order_ok():
                raise Bad(what, s2)


ALL = ("length",)


# ---------------------------------------------------------------- operations
def op_insert(env, cname, mode, prio=None):
    set_mode(env, mode)
    w = sorted_word(env)
    p = mk(env, cname, w)
    v = value(env)
    args = [v]
    if prio:
        args.append(value(env, "p"))
    return env.run(env.st, "self", "insert", args)


def op_remove(env, cname, mode):
    set_mode(env, mode)
    w = sorted_word(env)
    p = mk(env, cname, w)
    v = value(env)
    return env.run(env.st, "self", "remove", [v])


def op_contains(env, cname, mode):
    set_mode(env, mode)
    w = sorted_word(env)
    p = mk(env, cname, w)
    v = value(env)
    return env.run(env.st, "self", "__contains__", [v])


def failed(x):
    """Without the balance data some branches cannot happen: their exceptions say nothing (the balance obligations
    decide them)."""
    if isinstance(x.val, Exc):
        sp = x.env.specs[NODE[x.st.objs[x.g("self")].cls.name]]
        if sp.havoc:
            return True
    x.returned()
    return False


def check_insert(x):
    if failed(x):
        return
    w, _ = read(x, aspects=("length",))
    v, pre = x.g("v"), x.g("w")[1]
    if ("E", v) in pre:
        x.words(w, pre, "items after inserting a value that is there")
    else:
        rest = pos_ok(x, w, v, "items after insert")
        x.words(rest, pre, "the other items after insert")


def check_remove(x):
    if failed(x):
        return
    w, _ = read(x, aspects=("length",))
    v, pre = x.g("v"), x.g("w")[1]
    if ("E", v) in pre:
        x.words(w, tuple(it for it in pre if it != ("E", v)), "items after remove")
    else:
        x.words(w, pre, "items after removing a value that is not there")
        absent(x, pre, v, "a value that is there was not removed")


def check_contains(x):
    r = x.returned()
    w, _ = read(x, aspects=("length",))
    v, pre = x.g("v"), x.g("w")[1]
    x.words(w, pre, "items after a membership test")
    if r == TRUE:
        if ("E", v) not in pre:
            raise Bad("membership is reported for a value that is not there", x.st)
    elif r == FALSE:
        absent(x, pre, v, "a value that is there is reported missing")
    elif r[0] == "top":
        raise Unsupported("unknown truth value")
    else:
        raise Bad(f"membership answers {show(r)}", x.st)


def check_struct(*aspects):
    def f(x):
        if isinstance(x.val, Exc):
            if aspects == ("links",):
                return
            x.returned()
        read(x, aspects=aspects)
    return f


# heights / black heights looked at by the witness passes
HEIGHTS = {"AVL": {1: (0, 1, 2), 2: (3,), 3: (4,), 4: (5,)}, "RedBlackTree": {1: (0, 1), 2: (2,), 3: (3,), 4: (4,)}}


def run(op, check, cname, *args, **kw):
    def go(env):
        peel = env.it.peel
        trees.SIZES = bool(peel)
        sizes = HEIGHTS.get(cname, {}).get(peel, (None,))
        if sizes != (None,):
            env.it.peel = {"AVL": sizes[-1] + 1, "RedBlackTree": 2 * sizes[-1] + 1}[cname]
        for k in sizes:
            env.size = k
            env.st = St()
            judge(env, op(env, cname, *args, **kw), check)
    return go


OPS = {"insert": (op_insert, check_insert), "remove": (op_remove, check_remove), "contains": (op_contains, check_contains)}
BAL = {"AVL": ("avl", AVLP), "RedBlackTree": ("rb", RBP), "Treap": ("treap", TREAPP)}
# seconds for the fixpoint over trees of every height (no invariant of the removals is in reach: the passes over
# trees of bounded height decide them)
BUDGET = {("AVL", "insert"): 300, ("RedBlackTree", "insert"): 300, ("AVL", "remove"): 8, ("RedBlackTree", "remove"): 8}


def op_case(prop, name, c, n, op, check, mode, **kw):
    if (c, n) == ("AVL", "insert"):
        mode = "full"
    b = BUDGET.get((c, n), 100)
    add_case(prop, name, run(op, check, c, mode, **kw), budget=b, tree=True, heights=HEIGHTS.get(c), weight=b)


for c in TREES:
    for n, (op, ck) in OPS.items():
        op_case(ITEMS, f"{c}.{n}", c, n, op, ck, "items")
        if n != "contains" or c == "SplayTree":
            op_case(LINKS, f"{c}.{n}: parents", c, n, op, check_struct("links"), "items")
            if c in BAL:
                op_case(BAL[c][1], f"{c}.{n}: {BAL[c][0]}", c, n, op, check_struct(BAL[c][0]), "full")
    if c == "Treap":
        op_case(ITEMS, f"{c}.insert with a priority", c, n, op_insert, check_insert, "items", prio=True)
        op_case(TREAPP, f"{c}.insert with a priority", c, n, op_insert, check_struct("treap"), "full", prio=True)


# ---------------------------------------------------------------- reading operations: every shape of a few nodes
def shapes_of(env, cname, n, kind="num"):
    """Every tree of class cname with n nodes, spelled out -> states."""
    env.mode = "full"
    trees.SIZES = True
    st = env.st = St()
    xs = [st.new_elem(kind) for _ in range(n)]
    word = tuple(("E", x) for x in xs)
    trees.order(st, word)
    mk(env, cname, word)
    st.ghosts["w"] = ("w", word)
    out, work = [], [st]
    while work:
        s = work.pop()
        c = next((c for c in s.chunks if c.kind == "tree"), None)
        if c is None:
            out.append(s)
            continue
        for s2 in trees.unfold_tree(s, c):
            if s2.num.sat() and s2.order_ok():
                work.append(s2)
    return out


def spell(st, p):
    """The spelled out tree below p as one value: (node, children, ((field, value), ...))"""
    if p == NONE:
        return NONE
    o = st.objs[p]
    return ("tup", (p, ("tup", (spell(st, o.a["_left"]), spell(st, o.a["_right"]))),
                    ("tup", tuple(("tup", (("c", k), o.a[k])) for k in sorted(o.a)))))


class T:
    """A spelled out (sub)tree."""

    def __init__(self, v):
        self.p, kids, at = v[1]
        self.a = {f[1][0][1]: f[1][1] for f in at[1]}
        self.x = self.a["_data"]
        self.kids = [T(k) if k != NONE else None for k in kids[1]]
        self.l, self.r = self.kids if "_left" in self.a else (None, None)

    def pre(self):
        return [self.x] + [x for k in self.kids if k for x in k.pre()]

    def post(self):
        return [x for k in self.kids if k for x in k.post()] + [self.x]

    def ino(self):
        return (self.l.ino() if self.l else []) + [self.x] + (self.r.ino() if self.r else [])

    def levels(self):
        out, cur = [], [self]
        while cur:
            out.append([t.x for t in cur])
            cur = [k for t in cur for k in t.kids if k]
        return out

    def height(self):
        return len(self.levels()) - 1

    def leaves(self):
        return sum(k.leaves() for k in self.kids if k) or 1

    def strict(self):
        return (self.l is None) == (self.r is None) and all(k.strict() for k in self.kids if k)

    def nodes(self):
        return [self] + [n for k in self.kids if k for n in k.nodes()]


def remember(st):
    o = st.objs[st.ghosts["self"]]
    st.ghosts["t"] = spell(st, o.a["_root"])
    st.ghosts["n"] = o.a["_length"] if "_length" in o.a else NONE


def tree_of(st):
    v = st.ghosts["t"]
    return T(v) if v != NONE else None


def same(x, w, v):
    return w == v or (w is not None and w[0] == "i" and v[0] == "i" and x.st.num.entails_eq(w[1] - v[1]))


def unchanged(x, t):
    me = x.st.objs[x.g("self")]
    for n in t.nodes() if t else ():
        o = x.st.objs.get(n.p)
        if o is None:
            raise Unsupported("a node is no longer tracked")
        for k, v in n.a.items():
            if not same(x, o.a.get(k), v):
                raise Bad(f"a query changes {o.cls.name}.{k}", x.st)
            if k == "_children" and [it[1] for it in x.st.objs[v].a["w"][1]] != [c.p for c in n.kids]:
                raise Bad("a query changes the children of a node", x.st)
    if me.a["_root"] != (t.p if t else NONE) or ("_length" in me.a and not same(x, me.a["_length"], x.g("n"))):
        raise Bad("a query changes the tree", x.st)


def word_of(x, v, what):
    """The list (or exhausted generator) v -> [values]"""
    w = x.pylist(v, what)
    out = []
    for it in w:
        if it[0] != "E":
            raise Unsupported(f"{what}: unknown part")
        out.append(it[1])
    return out


def same_list(x, got, want, what):
    if len(got) != len(want):
        raise Bad(f"{what}: {len(got)} items instead of {len(want)}", x.st)
    for a, b in zip(got, want):
        x.val_is(a, b, what)


def q_list(f):
    def ck(x, t, r, what):
        same_list(x, word_of(x, r, what), f(t) if t else [], what)
    return ck


def q_levels(x, t, r, what):
    rows = word_of(x, r, what)
    want = t.levels() if t else []
    if len(rows) != len(want):
        raise Bad(f"{what}: {len(rows)} levels instead of {len(want)}", x.st)
    for a, b in zip(rows, want):
        same_list(x, word_of(x, a, what), b, what)


def q_int(f, empty=0):
    def ck(x, t, r, what):
        x.int_is(r, Lin(f(t) if t else empty), what)
    return ck


def q_bool(f, empty=True):
    def ck(x, t, r, what):
        x.bool_is(r, f(t) if t else empty, what)
    return ck


def q_val(f):
    def ck(x, t, r, what):
        x.val_is(r, f(t), what)
    return ck


def half(t):
    a, b = [(k.height() + 1 if k else 0) for k in t.kids]
    return abs(a - b) <= 1


def blacks(t):
    n = 0
    while t:
        n += t.a["_color"] == BLACK
        t = t.l
    return n


BFS = q_list(lambda t: [x for lv in t.levels() for x in lv])
QUERIES = {
    "__len__": ((), q_int(lambda t: len(t.nodes()))),
    "is_empty": ((), q_bool(lambda t: False)),
    "get_height": ((), q_int(lambda t: t.height())),
    "get_depth": ((), q_int(lambda t: 0)),
    "get_leftside_view": ((), q_list(lambda t: [lv[0] for lv in t.levels()])),
    "get_rightside_view": ((), q_list(lambda t: [lv[-1] for lv in t.levels()])),
    "count_leaf_nodes": ((), q_int(lambda t: t.leaves())),
    "is_balanced": ((), q_bool(half)),
    "is_perfect": ((), q_bool(lambda t: all(len(lv) == 2 ** k for k, lv in enumerate(t.levels())))),
    "is_strict": ((), q_bool(lambda t: t.strict())),
    "to_list": ((), BFS),
    "__iter__": ((), BFS),
    "get_nodes_per_level": ((), q_levels),
    "preorder_traverse": ((), q_list(lambda t: t.pre())),
    "depth_first_traverse": ((), q_list(lambda t: t.pre())),
    "postorder_traverse": ((), q_list(lambda t: t.post())),
    "inorder_traverse": ((), q_list(lambda t: t.ino())),
    "breadth_first_traverse": ((), BFS),
    "get_min": ((), q_val(lambda t: t.ino()[0])),
    "get_max": ((), q_val(lambda t: t.ino()[-1])),
}
for _m, _f in (("inorder", "inorder_traverse"), ("preorder", "preorder_traverse"), ("postorder", "postorder_traverse"),
               ("depth-first", "preorder_traverse"), ("breadth-first", "to_list")):
    QUERIES["traverse:" + _m] = ((("c", _m),), QUERIES[_f][1])
for _m in ("__iter__", "to_list", "__len__", "is_empty", "get_height", "get_depth", "count_leaf_nodes", "get_nodes_per_level"):
    GENERAL = globals().setdefault("GENERAL", {})
    GENERAL[_m] = QUERIES[_m]
NODES = {"AVL": 6}          # everything else: 5


# -- trees without an order: the shapes are enumerated, the items are arbitrary
def splits(n, k):
    """n as an ordered sum of k non-negative parts"""
    if k == 0:
        return [()] if n == 0 else []
    return [(i,) + r for i in range(n + 1) for r in splits(n - i, k - 1)]


def bin_shapes(n):
    if n == 0:
        return [None]
    return [(a, b) for i in range(n) for a in bin_shapes(i) for b in bin_shapes(n - 1 - i)]


def gen_shapes(n):
    """ordered trees with n nodes, as tuples of children"""
    if n == 1:
        return [()]
    out = []
    for k in range(1, n):
        for parts in splits(n - 1 - k, k):
            todo = [()]
            for m in parts:
                todo = [t + (g,) for t in todo for g in gen_shapes(m + 1)]
            out += todo
    return out


def build(env, cname, n):
    """Every plain (binary) tree with n nodes -> states."""
    node = {"Tree": "TreeNode", "BinaryTree": "BinaryTreeNode"}[cname]
    out = []
    for sh in ([None] if n == 0 else bin_shapes(n) if cname == "BinaryTree" else gen_shapes(n)):
        st = env.st = St()
        cls = env.cls(node)
        items = []

        def mkn(t):
            if t is None:
                return NONE, NONE
            x = st.new_elem("obj")
            items.append(x)
            if cname == "BinaryTree":
                (l, lt), (r, rt) = mkn(t[0]), mkn(t[1])
                a = {"_data": x, "_left": l, "_right": r}
                kids = (lt, rt)
            else:
                ks = [mkn(k) for k in t]
                kp = st.alloc("list", {"w": ("w", tuple(("E", k) for k, _ in ks))})
                a = {"_data": x, "_children": kp}
                kids = tuple(kt for _, kt in ks)
            p = st.alloc(cls, a)
            return p, ("tup", (p, ("tup", kids), ("tup", tuple(("tup", (("c", f), a[f])) for f in sorted(a)))))
        if env.__dict__.get("_plain") is None:
            # the states described here are the ones the constructor builds
            sub = Env(env.prog, 10)
            for s, q in sub.construct(sub.st, node, [sub.elem("obj")]):
                if not isinstance(q, Exc) and set(s.objs[q].a) != ({"_data", "_left", "_right"} if cname == "BinaryTree" else {"_data", "_children"}):
                    raise Unsupported("representation of the nodes changed")
            env._plain = True
        root, spelled = mkn(sh)
        st.ghosts["self"] = st.alloc(env.cls(cname), {"_root": root})
        st.ghosts["t"] = spelled
        st.ghosts["n"] = NONE
        st.ghosts["items"] = ("tup", tuple(items))
        out.append(st)
    return out


def states(env, cname, n):
    if cname in ("Tree", "BinaryTree"):
        return build(env, cname, n)
    out = shapes_of(env, cname, n)
    for s in out:
        remember(s)
    return out


def each(env, cname, op, post, lo=0):
    """op on every tree of class cname with at most NODES nodes, post on its exits."""
    env.spelled()
    for n in range(lo, NODES.get(cname, 5) + 1):
        for s in states(env, cname, n):
            env.st = s
            judge(env, op(env, s), post)


def query_case(cname, m, table):
    args, ck = table[m]

    def op(env, s):
        ex = env.run(s, "self", m.split(":")[0], args)
        if m == "__iter__":
            ex = [y for s2, g in ex for y in (env.gen_list(s2, g) if not isinstance(g, Exc) else [(s2, g)])]
        return ex

    def post(x):
        t = tree_of(x.st)
        if t is None and m in ("get_min", "get_max"):
            x.raised("IndexError")
        else:
            ck(x, t, x.returned(), m)
        unchanged(x, t)
    return lambda env: each(env, cname, op, post)


def contains_case(cname):
    """Membership by equality in a tree without an order."""
    def op(env, s):
        s.ghosts["v"] = s.new_elem("obj")
        return env.run(s, "self", "__contains__", [s.ghosts["v"]])

    def post(x):
        t, r, v = tree_of(x.st), x.returned(), x.g("v")
        vals = [n.x for n in t.nodes()] if t else []
        if r == TRUE:
            if not any(y == v for y in vals):
                raise Bad("membership is reported for a value that is not there", x.st)
        elif r == FALSE:
            absent(x, tuple(("E", y) for y in vals), v, "a value that is there is reported missing")
        else:
            raise Bad(f"membership answers {show(r)}", x.st)
        unchanged(x, t)
    return lambda env: each(env, cname, op, post)


SHAPES = "every shape of up to %d nodes, any items"
for c in TREES + ("BinaryTree", "Tree"):
    table = dict(GENERAL if c == "Tree" else QUERIES)
    if c == "RedBlackTree":
        table["get_black_height"] = ((), q_int(blacks))
    for m in table:
        if c == "BinaryTree" and m in ("get_min", "get_max"):
            continue
        add_case(READS, f"{c}.{m}", query_case(c, m, table), budget=60, scope=SHAPES % NODES.get(c, 5))
    if c in ("Tree", "BinaryTree"):
        add_case(READS, f"{c}.contains", contains_case(c), budget=60, scope=SHAPES % 5)


# ---------------------------------------------------------------- splaying
def root_is(x, v, what):
    st = x.st
    r = st.objs[x.g("self")].a["_root"]
    if r == NONE:
        raise Bad(f"{what}: the tree is empty", st)
    if st.objs.get(r) is None:
        raise Unsupported(f"{what}: the root is not spelled out")
    x.val_is(st.objs[r].a["_data"], v, what)


def check_splayed(always):
    def ck(x):
        r = x.returned()
        if always or r == TRUE:
            root_is(x, x.g("v"), "the root after the access")
    return ck


def splay_case(m, post):
    def op(env, s):
        s.ghosts["v"] = s.new_elem("num")
        return env.run(s, "self", m, [s.ghosts["v"]])
    return lambda env: each(env, "SplayTree", op, post)


for m in ("insert", "__contains__"):
    add_case(SPLAYP, f"SplayTree.{m}: value at the root", splay_case(m, check_splayed(m == "insert")), budget=200,
             scope=SHAPES % 5)


# ---------------------------------------------------------------- rejected calls
def tree_kept(x):
    w, _ = read(x, aspects=("length",))
    x.words(w, x.g("w")[1], "items after a rejected call")


def rejected(cname, m, kind):
    def go(env):
        env.mode = "items"
        w = sorted_word(env)
        mk(env, cname, w)
        st = env.st
        bad = {"none": lambda: NONE, "str": lambda: ("c", "x"), "bool": lambda: TRUE,
               "structure": lambda: st.alloc(env.cls("BST"), {"_root": NONE, "_length": I(0)}),
               "priority": lambda: value(env)}[kind]()
        args = [bad] + ([("c", "x")] if kind == "priority" else [])

        def post(x):
            if m in ("insert", "__contains__") and (m == "insert" or cname == "SplayTree"):
                x.raised("ValueError" if kind == "none" else "TypeError")
            elif m == "__contains__":
                x.bool_is(x.returned(), False, "membership of something that is no number")
            else:
                x.returned()
                warned(x)
            tree_kept(x)
        judge(env, env.run(st, "self", m, args), post)
    return go


def warned(x):
    if "warn" not in x.st.events:
        raise Bad("removing what is not there is not reported with a warning", x.st)


def missing_case(cname):
    """Removing a number that is not there."""
    def op(env, s):
        v = s.ghosts["v"] = s.new_elem("num")
        t = tree_of(s)
        for n in t.nodes() if t else ():
            s.add_fact("ne", v, n.x)
        return env.run(s, "self", "remove", [v])

    def post(x):
        x.returned()
        warned(x)
        tree_kept(x)
    return lambda env: each(env, cname, op, post)


def rejected_new(cname):
    def go(env):
        env.mode = "items"
        judge(env, env.construct(env.st, cname, [I(5)]), lambda x: x.raised("TypeError"))
    return go


for c in TREES:
    for k in ("none", "str", "bool", "structure"):
        for m in ("insert", "remove", "__contains__"):
            add_case(QUERY, f"{c}.{m} with {k}", rejected(c, m, k), budget=30)
    add_case(QUERY, f"{c} from a number", rejected_new(c), budget=30)
    add_case(QUERY, f"{c}.remove of a missing value", missing_case(c), budget=100, scope=SHAPES % NODES.get(c, 5))
add_case(QUERY, "Treap.insert with a bad priority", rejected("Treap", "insert", "priority"), budget=30)


# ---------------------------------------------------------------- clear, construction, parsing, mirroring
def clear_case(cname):
    def go(env):
        env.mode = "items"
        w = sorted_word(env)
        mk(env, cname, w)

        def post(x):
            x.returned()
            w, _ = read(x, aspects=("length",))
            x.words(w, (), "items after clear")
        judge(env, env.run(env.st, "self", "clear", []), post)
    return go


def new_case(cname, n):
    """Constructed from n values in any order, with repetitions."""
    def go(env):
        env.mode = "full"
        env.spelled()
        st = env.st
        probe(env, cname)
        xs = [st.new_elem("num") for _ in range(n)]
        st.ghosts["xs"] = ("w", tuple(("E", x) for x in xs))
        it = st.alloc("list", {"w": st.ghosts["xs"]})
        st.ghosts["it"] = it

        def post(x):
            p = x.returned()
            x.st.ghosts["self"] = p
            w, _ = read(x, aspects=("length",))
            if any(i[0] != "E" for i in w):
                raise Unsupported("items not spelled out")
            xs, got = [i[1] for i in x.g("xs")[1]], [i[1] for i in w]
            for v in xs:
                if not any(g == v or not x.st.known_ne(g, v) for g in got):
                    raise Bad("a value given to the constructor is missing", x.st)
            for a, b in zip(got, got[1:]):
                if not x.st.lt(a, b):
                    s = x.st.copy()
                    if s.add_fact("le", b, a) and s.order_ok():
                        raise Bad("the constructed tree is not sorted", s)
            for g in got:
                if g not in xs:
                    raise Bad("the constructed tree holds a value it was not given", x.st)
            x.words(x.pylist(x.g("it")), x.g("xs")[1], "the given list")
        judge(env, env.construct(st, cname, [it]), post)
    return go


for c in TREES:
    add_case(ITEMS, f"{c}.clear", clear_case(c), budget=30)
    for n in range(4):
        add_case(ITEMS, f"{c} from {n} values", new_case(c, n), budget=60, scope=f"{n} values in any order")


def spelled_is(x, t, p, what, mirror=False):
    """The tree below p has the shape and items of t."""
    if t is None or p == NONE:
        if (t is None) != (p == NONE):
            raise Bad(f"{what}: a node is missing or there is one too many", x.st)
        return
    o = x.st.objs.get(p)
    if o is None or "_left" not in o.a:
        raise Unsupported(f"{what}: unknown node")
    x.val_is(o.a["_data"], t.x, what)
    l, r = (t.r, t.l) if mirror else (t.l, t.r)
    spelled_is(x, l, o.a["_left"], what, mirror)
    spelled_is(x, r, o.a["_right"], what, mirror)


def invert_case(env):
    def post(x):
        x.returned()
        spelled_is(x, tree_of(x.st), x.st.objs[x.g("self")].a["_root"], "the inverted tree", True)
    each(env, "BinaryTree", lambda env, s: env.run(s, "self", "invert", []), post)


def parse_case(kind):
    """The nested sequence that describes a tree: [item, left, right], the right end left out when it is missing."""
    def go(env):
        def nested(s, t):
            if t.l is None and t.r is not None:
                return None
            parts = [t.x]
            for k in (t.l, t.r):
                if k is not None:
                    v = nested(s, k)
                    if v is None:
                        return None
                    parts.append(v)
            if len(parts) == 1 and kind == "leaf":
                return t.x
            return s.alloc("list", {"w": ("w", tuple(("E", v) for v in parts))})

        def op(env, s):
            t = tree_of(s)
            v = nested(s, t)
            if v is None:
                return None
            if v == t.x:
                v = s.alloc("list", {"w": ("w", (("E", v),))})
            f = env.method("BinaryTree", "parse")
            return env.call_fn(s, f, [v])

        def post(x):
            p = x.returned()
            o = x.st.objs.get(p)
            if o is None or "_root" not in o.a:
                raise Bad("parsing does not give a tree", x.st)
            spelled_is(x, tree_of(x.st), o.a["_root"], "the parsed tree")
        env.spelled()
        for n in range(1, 6):
            for s in states(env, "BinaryTree", n):
                env.st = s
                ex = op(env, s)
                if ex is not None:
                    judge(env, ex, post)
    return go


add_case(READS, "BinaryTree.invert", invert_case, budget=60, scope=SHAPES % 5)
add_case(READS, "BinaryTree.parse", parse_case("leaf"), budget=60, scope=SHAPES % 5)
add_case(READS, "BinaryTree.parse, leaves as sequences", parse_case("list"), budget=60, scope=SHAPES % 5)
