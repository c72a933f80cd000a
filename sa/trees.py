"""Summary chunks for binary trees.

  tree(first, parent, word, attrs)             a possibly empty subtree hanging below `parent`
  ctx(first, parent, holep, hole, L, R, attrs) a non-empty tree with one missing subtree: the subtree `hole`
                                               hangs below the cell `holep`; in-order word L . hole . R

`word`, `L`, `R` are in-order sequences.  Balanced trees carry attributes that
make the structural invariant inductive:
  avl    tree: H (0 empty, 1 + stored height)        ctx: H, hH (height the hole must have)
  rb     tree: bh, c (1 = red root)                  ctx: bh, c, hbh, pc (1 = the cell above the hole is red)
  treap  tree: pm (priority of the root)             ctx: pm, hpm (priority of the cell above the hole)
"""
from .lin import Lin, V
from .state import St, Sub, Obj, Chunk, Spec, NONE, Unsupported, walk, I

TOP = ("top",)
RED = ("enum", "Color", "RED")
BLACK = ("enum", "Color", "BLACK")
EXTRA = {"avl": "_height", "rb": "_color", "treap": "_priority", None: None}
TATTR = {None: (), "avl": ("H",), "rb": ("bh", "c"), "treap": ("pm",)}
CATTR = {None: (), "avl": ("H", "hH"), "rb": ("bh", "c", "hbh", "pc"), "treap": ("pm", "hpm")}


def make_specs(prog, specs):
    for name, bal, par in (("BinaryTreeNode", None, None), ("BSTNode", None, "_parent"), ("AVLNode", "avl", "_parent"),
                           ("RedBlackNode", "rb", "_parent"), ("TreapNode", "treap", "_parent")):
        c = prog.cls(name)
        if c is not None:
            sp = Spec("tree", c, left="_left", right="_right", parent=par)
            sp.bal, sp.havoc, sp.sorted = bal, None, False
            sp.layout = {"_data", "_left", "_right"} | ({par} if par else set()) | ({EXTRA[bal]} if bal else set())
            specs[name] = sp


def variant(specs, name, bal=True, ordered=False):
    """Switch a node class to a weaker summary: without its balance attributes, or with sortedness as a property of
    the summaries themselves instead of a ghost word."""
    import copy
    sp = copy.copy(specs[name])
    if not bal and sp.bal:
        sp.havoc, sp.bal = EXTRA[sp.bal], None
    sp.sorted = ordered
    specs[name] = sp
    return sp


def atoms(word):
    return [("S", it[1]) if it[0] != "E" else it[1] for it in word]


def order(s, *words):
    """The concatenation of the words is strictly increasing (assumed)."""
    at = [x for w in words for x in atoms(w)]
    for i, a in enumerate(at):
        for b in at[i + 1:]:
            if not s.lt(a, b):
                s.facts = s.facts | {("lt", a, b)}


def ordered(s, *words):
    at = [x for w in words for x in atoms(w)]
    return all(s.lt(a, b) for i, a in enumerate(at) for b in at[i + 1:])


def anchor_fields(c):
    if c.kind == "seg":
        return ("first", "last") if c.spec.prv else ("first",)
    if c.kind == "tree":
        return ("first",)
    return ("first", "holep")


# ------------------------------------------------------------- construction
# witness passes: trees of a known height / black height only have the sizes
# such trees have, so that every state stands for a real tree
SIZES = False


def lin(v):
    return v[1]


def bound_size(st, sp, at, word):
    n = st.wlen(word)
    if sp.bal == "avl":
        k = const_of(st.num, lin(at["H"]))
        if k is not None and 0 <= k <= 6:
            lo = [0, 1, 2, 4, 7, 12, 20][int(k)]
            st.num.add_ge(n - lo)
            st.num.add_ge(Lin(2 ** int(k) - 1) - n)
    elif sp.bal == "rb":
        k = const_of(st.num, lin(at["bh"]))
        if k is not None and 0 <= k <= 4:
            k, c = int(k), lin(at["c"])
            st.num.add_ge(n - (2 ** k - 1) - c.scale(2 ** k))
            st.num.add_ge(Lin(4 ** k - 1) + c.scale(4 ** k) - n)


def add_tree(st, sp, first, parent, word, attrs=None):
    """Add a tree chunk (fresh attributes unless given); returns its attributes."""
    at = dict(attrs or {})
    n = st.wlen(word)
    if sp.bal == "avl":
        if "H" not in at:
            at["H"] = st.new_int(0)
        st.num.add_ge(lin(at["H"]))
    elif sp.bal == "rb":
        for k in ("bh", "c"):
            if k not in at:
                at[k] = st.new_int(0)
        st.num.add_ge(lin(at["bh"]))
        st.num.add_ge(lin(at["c"]))
        st.num.add_ge(Lin(1) - lin(at["c"]))
    elif sp.bal == "treap" and "pm" not in at:
        at["pm"] = st.new_elem("num")
    if SIZES:
        bound_size(st, sp, at, word)
    f = dict(first=first, word=("w", tuple(word)), **at)
    if sp.parent:
        f["parent"] = parent
    st.chunks.append(Chunk("tree", sp, **f))
    return at


def empty_attrs(sp):
    return {None: {}, "avl": {"H": I(0)}, "rb": {"bh": I(0), "c": I(0)}, "treap": {"pm": NONE}}[sp.bal]


def find(st, kind, first):
    for c in st.chunks:
        if c.kind == kind and c.f["first"] == first:
            return c
    raise Unsupported("lost summary")


def assume_eq_lin(st, a, b):
    st.num.add_eq(lin(a) - lin(b) if isinstance(b, tuple) else lin(a) - b)


def tree_empty(st, c):
    """The chunk's word is (): drop it.  False when contradictory."""
    st.remove_chunk(c)
    if c.spec.bal == "avl":
        st.num.add_eq(lin(c.f["H"]))
    elif c.spec.bal == "rb":
        st.num.add_eq(lin(c.f["bh"]))
        st.num.add_eq(lin(c.f["c"]))
    p = c.f["first"]
    if p == NONE:
        return True
    if p in st.objs:
        return False
    st.subst(Sub({p: NONE}))
    return True


def ctx_is_empty(st, c):
    return False


def ctx_empty(st, c):
    return False


def prepare(st, it):
    pass


def pad(st):
    """Sorted summaries: give every context both flanks, so that an empty flank is no case of its own."""
    for i, c in enumerate(st.chunks):
        if c.kind != "ctx" or not c.spec.sorted:
            continue
        for k, o in (("L", "R"), ("R", "L")):
            if c.f[k][1]:
                continue
            ref = atoms(c.f[o][1])
            inside = hole_atoms(st, c)
            z = st.new_svar("num")
            zz = ("S", z[1])
            new = set()
            for u in all_atoms(st):
                if u == zz:
                    continue
                if u in ref or u in inside:
                    new.add(("lt", zz, u) if k == "L" else ("lt", u, zz))
                elif all(st.lt(u, r) for r in ref):
                    new.add(("lt", u, zz))
                elif all(st.lt(r, u) for r in ref):
                    new.add(("lt", zz, u))
            st.facts = st.facts | new
            c = Chunk("ctx", c.spec, **{**c.f, k: ("w", (z,))})
            st.chunks = st.chunks[:i] + [c] + st.chunks[i + 1:]


def hole_atoms(st, c):
    out, work, seen = [], [c.f["hole"]], set()
    while work:
        p = work.pop()
        if p == NONE or p in seen or p[0] != "p":
            continue
        seen.add(p)
        o = st.objs.get(p)
        if o is not None:
            if "_data" in o.a:
                out.append(o.a["_data"])
            work += [o.a.get("_left", NONE), o.a.get("_right", NONE)]
            continue
        for d in st.chunks:
            if d.f.get("first") == p and d.kind == "tree":
                out += atoms(d.f["word"][1])
            elif d.f.get("first") == p and d.kind == "ctx":
                out += atoms(d.f["L"][1]) + atoms(d.f["R"][1])
                work.append(d.f["hole"])
    return out


def all_atoms(st):
    out = set()
    for f in st.facts:
        out |= {f[1], f[2]}
    for c in st.chunks:
        for k in ("word", "L", "R"):
            if k in c.f:
                out |= set(atoms(c.f[k][1]))
    for o in st.objs.values():
        d = o.a.get("_data")
        if d is not None and d[0] == "e":
            out.add(d)
    return out


def const_of(num, e):
    e = num.norm(e)
    return e.c if e.is_const() else None


def whole(st):
    for name in st.sorted:
        g = st.ghosts.get(name)
        if g is not None:
            return st.wlen(g[1])
    return Lin(0)


def spell_length(st):
    """Write a stored length as the length of the remembered word plus a constant."""
    for o in st.objs.values():
        v = o.a.get("_length")
        if v is not None and v[0] == "i":
            d = const_of(st.num, v[1] - whole(st))
            if d is not None:
                o.a["_length"] = ("i", whole(st) + d)


def disc(st, specs):
    """Discrete facts that keep states apart: known balance factors, colours and black heights."""
    out = []
    first = {c.f["first"]: c for c in st.chunks if c.kind != "seg"}
    n = st.num

    def top(p, key, attr, off):
        if p == NONE:
            return Lin(0)
        o = st.objs.get(p)
        if o is not None:
            v = o.a.get(attr, NONE)
            return v[1] + off if v[0] == "i" else None
        c = first.get(p)
        return lin(c.f[key]) if c is not None and key in c.f else None
    for p, o in st.objs.items():
        sp = tree_spec(specs, o)
        if sp is not None and sp.bal == "avl" and o.a.get("_height", NONE)[0] == "i":
            for k in ("_left", "_right"):
                t = top(o.a.get(k, NONE), "H", "_height", 1)
                if t is not None:
                    out.append((p, k, const_of(n, lin(o.a["_height"]) - t)))
        elif sp is not None and sp.bal == "rb":
            ts = [top(o.a.get(k, NONE), "bh", None, 0) for k in ("_left", "_right")]
            if None not in ts:
                out.append((p, const_of(n, ts[0] - ts[1])))
        v = o.a.get("_length")
        if v is not None and v[0] == "i":
            out.append((p, "len", repr(n.norm(v[1] - whole(st)))))
    for c in st.chunks:
        if c.kind == "seg" or c.spec.bal not in ("avl", "rb"):
            continue
        if c.spec.bal == "avl" and c.kind == "ctx":
            t = top(c.f["hole"], "H", "_height", 1)
            if t is not None:
                out.append((c.f["first"], "h", const_of(n, lin(c.f["hH"]) - t)))
        if c.spec.bal == "rb":
            out.append((c.f["first"], "c", const_of(n, lin(c.f["c"]))))
            if c.kind == "ctx":
                out.append((c.f["first"], "pc", const_of(n, lin(c.f["pc"]))))
                t = top(c.f["hole"], "bh", None, 0)
                if t is not None:
                    out.append((c.f["first"], "bh", const_of(n, lin(c.f["hbh"]) - t)))
    return tuple(out)


def present(st, specs):
    return any(c.kind != "seg" for c in st.chunks) or \
        any(tree_spec(specs, o) is not None for o in st.objs.values())


# ------------------------------------------------------------- words
def picks(st, key, getw):
    """Every way to read the word getw(state) as A . x . B.  `st` is consumed.
    Yields (state, A, x, B)."""
    w = getw(st)
    out = []
    for i, it in enumerate(w):
        s = st.copy()
        if it[0] == "E":
            out.append((s, w[:i], it[1], w[i + 1:]))
        elif it[0] == "S":
            s.num.add_ge(V(f"len:{it[1]}") - 1)
            if not s.num.sat():
                continue
            for s2, a, p, b in s.tri_svar(it[1]):
                w2 = getw(s2)
                out.append((s2, w2[:i + 1], w2[i + 1][1], w2[i + 2:]))
        else:
            raise Unsupported("tree over a reversed or filtered word")
    return out


def ends(st, getw, front):
    """Expose the first / last item of a word: yields (state, x, rest)."""
    out = []
    work = [st]
    while work:
        s = work.pop()
        w = getw(s)
        if not w:
            continue
        it = w[0] if front else w[-1]
        if it[0] == "E":
            out.append((s, it[1], w[1:] if front else w[:-1]))
        elif it[0] == "S":
            work.extend(s.split_svar(it[1], "front" if front else "back"))
        else:
            raise Unsupported("tree over a reversed or filtered word")
    return out


def cut_svar(s, sid):
    kind = s.skinds[sid]
    a, b = s.new_svar(kind), s.new_svar(kind)
    s.replace_svar(sid, (a, b))


def cuts(st, getw):
    """Every way to cut a word in two: yields (state, A, B)."""
    w = getw(st)
    out = []
    if not w:
        return [(st, (), ())]
    # boundaries not adjacent to a variable
    for i in range(len(w) + 1):
        if (i > 0 and w[i - 1][0] != "E") or (i < len(w) and w[i][0] != "E"):
            continue
        out.append((st.copy(), w[:i], w[i:]))
    for i, it in enumerate(w):
        if it[0] == "S":
            s = st.copy()
            cut_svar(s, it[1])
            w2 = getw(s)
            out.append((s, w2[:i + 1], w2[i + 1:]))
    return out


def force_empty(st, getw):
    """Assume a word empty -> bool."""
    while True:
        w = getw(st)
        if not w:
            return st.num.sat()
        it = w[0]
        if it[0] == "E":
            return False
        st.num.add_eq(V(f"len:{it[1]}"))
        for m in st.meas:
            st.num.add_eq(V(f"cnt:{it[1]}:{m[1]}"))
        if not st.num.sat():
            return False
        st.subst_svar(it[1], ())


def ok(s):
    return s.num.sat() and s.order_ok()


def split_empty(st, c):
    """-> [(state, is the subtree empty)]"""
    first = c.f["first"]
    out = []
    s0 = st.copy()
    if force_empty(s0, lambda s: find(s, "tree", first).f["word"][1]) and s0.order_ok():
        if tree_empty(s0, find(s0, "tree", first)) and ok(s0):
            out.append((s0, True))
    st.num.add_ge(st.wlen(c.f["word"][1]) - 1)
    if c.spec.bal == "avl":
        st.num.add_ge(lin(c.f["H"]) - 1)
    elif c.spec.bal == "rb":
        st.num.add_ge(lin(c.f["bh"]) + lin(c.f["c"]) - 1)
    if ok(st):
        out.append((st, False))
    return out


def peek(st, p, name):
    """Read a field of a summarised cell that the summary records: [(state, value)], or None."""
    c, where = st.chunk_at(p)
    if c is None or c.kind == "seg":
        return None
    sp = c.spec
    if name == sp.parent:
        return [(st, c.f["parent"])] if where == "front" else None
    if sp.bal is None or name != EXTRA[sp.bal]:
        return None
    hole = where == "hole"
    if sp.bal == "avl":
        return None if hole else [(st, ("i", lin(c.f["H"]) - 1))]
    if sp.bal == "treap":
        return [(st, c.f["hpm" if hole else "pm"])]
    out = []
    for red in (0, 1):
        s = st.copy() if red == 0 else st
        s.num.add_eq(lin(c.f["pc" if hole else "c"]) - red)
        if red == 0 and c.kind == "tree":
            s.num.add_ge(lin(c.f["bh"]) - 1)
        if ok(s):
            out.append((s, RED if red else BLACK))
    return out


# ------------------------------------------------------------- unfolding
def unfold(st, c, where):
    if c.kind == "tree":
        return unfold_tree(st, c)
    if where == "front":
        return unfold_top(st, c)
    return unfold_hole(st, c)


def child(st, sp, parent, word, attrs):
    """A child subtree with the given word: pointer (None when the word is ())."""
    if not word:
        if sp.bal == "avl":
            st.num.add_eq(lin(attrs["H"]))
        elif sp.bal == "rb":
            st.num.add_eq(lin(attrs["bh"]))
            st.num.add_eq(lin(attrs["c"]))
        return NONE
    q = st.new_ptr()
    add_tree(st, sp, q, parent, word, attrs)
    return q


def kid_attrs(st, sp):
    if sp.bal == "avl":
        return {"H": st.new_int(0)}
    if sp.bal == "rb":
        return {"bh": st.new_int(0), "c": st.new_int(0)}
    if sp.bal == "treap":
        return {"pm": st.new_elem("num")}
    return {}


def height_cases(st, H, a, b):
    """H = 1 + max(a, b), |a - b| <= 1 -> states"""
    out = []
    for x, y in ((1, 1), (1, 2), (2, 1)):
        s = st.copy()
        s.num.add_eq(lin(a) - H + x)
        s.num.add_eq(lin(b) - H + y)
        if s.num.sat():
            out.append(s)
    return out


def mk_node(st, sp, p, x, left, right, parent, extra=None):
    a = {"_data": x, "_left": left, "_right": right}
    if sp.parent:
        a[sp.parent] = parent
    if sp.bal:
        a[EXTRA[sp.bal]] = extra
    elif sp.havoc:
        a[sp.havoc] = TOP
    st.objs[p] = Obj(sp.cls, a)


def unfold_tree(st, c):
    first = c.f["first"]
    sp = c.spec
    out = []
    getw = lambda s: find(s, "tree", first).f["word"][1]
    if not st.num.entails_ge(st.wlen(c.f["word"][1]) - 1):
        s0 = st.copy()
        if force_empty(s0, getw) and s0.order_ok():
            if tree_empty(s0, find(s0, "tree", first)) and ok(s0):
                out.append(s0)
        st.num.add_ge(st.wlen(c.f["word"][1]) - 1)
        if not st.num.sat():
            return out
    for s, A, x, B in picks(st, first, getw):
        ch = find(s, "tree", first)
        s.remove_chunk(ch)
        out.extend(s2 for s2 in expose(s, ch, first, A, x, B) if ok(s2))
    return out


def expose(s, ch, p, A, x, B):
    """Root cell p of tree chunk ch = A . x . B (chunk already removed)."""
    sp = ch.spec
    par = ch.f.get("parent", NONE)
    if sp.sorted:
        order(s, A, (("E", x),), B)
    if sp.bal == "avl":
        H = lin(ch.f["H"])
        s.num.add_ge(H - 1)
        la, ra = kid_attrs(s, sp), kid_attrs(s, sp)
        out = []
        for s2 in height_cases(s, H, la["H"], ra["H"]):
            l = child(s2, sp, p, A, la)
            r = child(s2, sp, p, B, ra)
            mk_node(s2, sp, p, x, l, r, par, ("i", H - 1))
            out.append(s2)
        return out
    if sp.bal == "rb":
        out = []
        for red in (0, 1):
            s2 = s.copy()
            s2.num.add_eq(lin(ch.f["c"]) - red)
            k = lin(ch.f["bh"]) - 1 + red
            s2.num.add_ge(k)
            if not s2.num.sat():
                continue
            ats = []
            for _ in range(2):
                at = {"bh": ("i", k), "c": I(0) if red else s2.new_int(0)}
                ats.append(at)
            l = child(s2, sp, p, A, ats[0])
            r = child(s2, sp, p, B, ats[1])
            mk_node(s2, sp, p, x, l, r, par, RED if red else BLACK)
            out.append(s2)
        return out
    if sp.bal == "treap":
        pm = ch.f["pm"]
        la, ra = kid_attrs(s, sp), kid_attrs(s, sp)
        if A and not s.add_fact("le", la["pm"], pm):
            return []
        if B and not s.add_fact("le", ra["pm"], pm):
            return []
        l = child(s, sp, p, A, la)
        r = child(s, sp, p, B, ra)
        mk_node(s, sp, p, x, l, r, par, pm)
        return [s]
    l = child(s, sp, p, A, {})
    r = child(s, sp, p, B, {})
    mk_node(s, sp, p, x, l, r, par)
    return [s]


def add_ctx(st, sp, first, parent, holep, hole, L, R, attrs):
    n = st.wlen(L) + st.wlen(R)
    st.num.add_ge(n - 1)
    if sp.bal == "avl":
        st.num.add_ge(lin(attrs["hH"]))
        st.num.add_ge(lin(attrs["H"]) - lin(attrs["hH"]) - 1)
    elif sp.bal == "rb":
        for k in ("c", "pc"):
            st.num.add_ge(lin(attrs[k]))
            st.num.add_ge(Lin(1) - lin(attrs[k]))
        st.num.add_ge(lin(attrs["hbh"]))
        st.num.add_ge(lin(attrs["bh"]) - lin(attrs["hbh"]))
    f = dict(first=first, holep=holep, hole=hole, L=("w", tuple(L)), R=("w", tuple(R)), **attrs)
    if sp.parent:
        f["parent"] = parent
    st.chunks.append(Chunk("ctx", sp, **f))


def unify_cells(s, a, b):
    """Two cell symbols, both without explicit cell, denote the same cell."""
    if a == b:
        return True
    s.subst(Sub({a: b}))
    return True


def unfold_hole(st, c):
    """Expose the cell above the hole."""
    first, sp = c.f["first"], c.spec
    out = []
    gR = lambda s: find(s, "ctx", first).f["R"][1]
    gL = lambda s: find(s, "ctx", first).f["L"][1]
    for side in ("left", "right"):
        near, far = (gR, gL) if side == "left" else (gL, gR)
        # the only cell
        if True:
            s = st.copy()
            if force_empty(s, far):
                for s2, x, rest in ends(s, near, side == "left"):
                    ch = find(s2, "ctx", first)
                    s2.remove_chunk(ch)
                    out.extend(single(s2, ch, side, x, rest))
        # more cells above
        for s2, x, rest in ends(st.copy(), near, side == "left"):
            # rest = T . R'   (left)   or   L' . T   (right)
            g = (lambda s: near(s)[1:]) if side == "left" else (lambda s: near(s)[:-1])
            for s3, A, B in cuts(s2, g):
                T, out_ = (A, B) if side == "left" else (B, A)
                ch = find(s3, "ctx", first)
                # pieces keep their old names only through the chunk: read them again
                L, R = (ch.f["L"][1], out_) if side == "left" else (out_, ch.f["R"][1])
                s3.remove_chunk(ch)
                s3.num.add_ge(s3.wlen(L) + s3.wlen(R) - 1)
                if not s3.num.sat():
                    continue
                out.extend(more_above(s3, ch, side, x, T, L, R))
    return [s for s in out if ok(s)]


def place(side, hole, t):
    return (hole, t) if side == "left" else (t, hole)


def single(s, ch, side, x, T):
    """The context is one cell with the hole on `side` and the subtree T on the other."""
    sp = ch.spec
    p = ch.f["first"]
    if sp.sorted:
        order(s, *(((("E", x),), T) if side == "left" else (T, (("E", x),))))
    unify_cells(s, ch.f["holep"], p)
    sub = Sub({ch.f["holep"]: p})
    hole = sub.val(ch.f["hole"])
    par = sub.val(ch.f.get("parent", NONE))
    out = []
    if sp.bal == "avl":
        ta = kid_attrs(s, sp)
        for s2 in height_cases(s, lin(ch.f["H"]), ch.f["hH"], ta["H"]):
            t = child(s2, sp, p, T, ta)
            l, r = place(side, hole, t)
            mk_node(s2, sp, p, x, l, r, par, ("i", lin(ch.f["H"]) - 1))
            out.append(s2)
        return out
    if sp.bal == "rb":
        for red in (0, 1):
            s2 = s.copy()
            s2.num.add_eq(lin(ch.f["c"]) - red)
            s2.num.add_eq(lin(ch.f["pc"]) - red)
            s2.num.add_eq(lin(ch.f["bh"]) - lin(ch.f["hbh"]) - 1 + red)
            if not s2.num.sat():
                continue
            t = child(s2, sp, p, T, {"bh": ch.f["hbh"], "c": I(0) if red else s2.new_int(0)})
            l, r = place(side, hole, t)
            mk_node(s2, sp, p, x, l, r, par, RED if red else BLACK)
            out.append(s2)
        return out
    extra = None
    ta = {}
    if sp.bal == "treap":
        pm, hpm = ch.f["pm"], ch.f["hpm"]
        if pm != hpm:
            r = s.assume_eq(pm, hpm)
            if not r:
                return []
            pm = hpm if hpm[1] in _elems(s, hpm) else pm
            pm = _rep(s, ch.f["pm"], ch.f["hpm"])
        ta = kid_attrs(s, sp)
        if T and not s.add_fact("le", ta["pm"], pm):
            return []
        extra = pm
    t = child(s, sp, p, T, ta)
    l, r = place(side, hole, t)
    mk_node(s, sp, p, x, l, r, par, extra)
    return [s]


def _elems(s, e):
    return ()


def _rep(s, a, b):
    """After assume_eq(a, b): the surviving one (assume_eq prefers to drop unprotected symbols)."""
    prot = set(s.meas) | {v for v in s.ghosts.values() if v[0] == "e"}
    keep, drop = a, b
    if keep[0] == "e" and (drop[0] != "e" or (drop in prot and keep not in prot)):
        keep, drop = drop, keep
    return keep


def more_above(s, ch, side, x, T, L, R):
    sp = ch.spec
    p = ch.f["holep"]
    if sp.sorted:
        if side == "left":
            order(s, (("E", x),), T, R)
        else:
            order(s, L, T, (("E", x),))
    first, par, hole = ch.f["first"], ch.f.get("parent", NONE), ch.f["hole"]
    q = s.new_ptr()
    out = []
    if sp.bal == "avl":
        ta = kid_attrs(s, sp)
        up = s.new_int(0)
        for s2 in height_cases(s, lin(up), ch.f["hH"], ta["H"]):
            t = child(s2, sp, p, T, ta)
            l, r = place(side, hole, t)
            mk_node(s2, sp, p, x, l, r, q, ("i", lin(up) - 1))
            add_ctx(s2, sp, first, par, q, p, L, R, {"H": ch.f["H"], "hH": up})
            out.append(s2)
        return out
    if sp.bal == "rb":
        for red in (0, 1):
            s2 = s.copy()
            s2.num.add_eq(lin(ch.f["pc"]) - red)
            if not s2.num.sat():
                continue
            t = child(s2, sp, p, T, {"bh": ch.f["hbh"], "c": I(0) if red else s2.new_int(0)})
            l, r = place(side, hole, t)
            mk_node(s2, sp, p, x, l, r, q, RED if red else BLACK)
            add_ctx(s2, sp, first, par, q, p, L, R,
                    {"bh": ch.f["bh"], "c": ch.f["c"], "hbh": ("i", lin(ch.f["hbh"]) + 1 - red),
                     "pc": I(0) if red else s2.new_int(0)})
            out.append(s2)
        return out
    extra, ta, ca = None, {}, {}
    if sp.bal == "treap":
        extra = ch.f["hpm"]
        ta = kid_attrs(s, sp)
        if T and not s.add_fact("le", ta["pm"], extra):
            return []
        up = s.new_elem("num")
        if not s.add_fact("le", extra, up) or not s.add_fact("le", up, ch.f["pm"]):
            return []
        ca = {"pm": ch.f["pm"], "hpm": up}
    t = child(s, sp, p, T, ta)
    l, r = place(side, hole, t)
    mk_node(s, sp, p, x, l, r, q, extra)
    add_ctx(s, sp, first, par, q, p, L, R, ca)
    return [s]


def unfold_top(st, c):
    """Expose the topmost cell of a context."""
    first, sp = c.f["first"], c.spec
    out = []
    gR = lambda s: find(s, "ctx", first).f["R"][1]
    gL = lambda s: find(s, "ctx", first).f["L"][1]
    for side in ("left", "right"):
        near, far = (gR, gL) if side == "left" else (gL, gR)
        s = st.copy()
        if force_empty(s, far):
            for s2, x, rest in ends(s, near, side == "left"):
                ch = find(s2, "ctx", first)
                s2.remove_chunk(ch)
                out.extend(single(s2, ch, side, x, rest))
        # hole under the left child: R = R_below . x . T;  under the right: L = T . x . L_below
        for s2, A, x, B in picks(st.copy(), first, near):
            ch = find(s2, "ctx", first)
            if side == "left":
                T, L, R = B, ch.f["L"][1], A
            else:
                T, L, R = A, B, ch.f["R"][1]
            s2.remove_chunk(ch)
            s2.num.add_ge(s2.wlen(L) + s2.wlen(R) - 1)
            if not s2.num.sat():
                continue
            out.extend(more_below(s2, ch, side, x, T, L, R))
    return [s for s in out if ok(s)]


def more_below(s, ch, side, x, T, L, R):
    sp = ch.spec
    p = ch.f["first"]
    if sp.sorted:
        if side == "left":
            order(s, R, (("E", x),), T)
        else:
            order(s, T, (("E", x),), L)
    par, hole, holep = ch.f.get("parent", NONE), ch.f["hole"], ch.f["holep"]
    if p == holep:
        return []
    q = s.new_ptr()
    out = []
    if sp.bal == "avl":
        ta, low = kid_attrs(s, sp), s.new_int(0)
        for s2 in height_cases(s, lin(ch.f["H"]), low, ta["H"]):
            t = child(s2, sp, p, T, ta)
            l, r = place(side, q, t)
            mk_node(s2, sp, p, x, l, r, par, ("i", lin(ch.f["H"]) - 1))
            add_ctx(s2, sp, q, p, holep, hole, L, R, {"H": low, "hH": ch.f["hH"]})
            out.append(s2)
        return out
    if sp.bal == "rb":
        for red in (0, 1):
            s2 = s.copy()
            s2.num.add_eq(lin(ch.f["c"]) - red)
            k = lin(ch.f["bh"]) - 1 + red
            if not s2.num.sat():
                continue
            t = child(s2, sp, p, T, {"bh": ("i", k), "c": I(0) if red else s2.new_int(0)})
            l, r = place(side, q, t)
            mk_node(s2, sp, p, x, l, r, par, RED if red else BLACK)
            add_ctx(s2, sp, q, p, holep, hole, L, R, {"bh": ("i", k), "c": I(0) if red else s2.new_int(0),
                                                      "hbh": ch.f["hbh"], "pc": ch.f["pc"]})
            out.append(s2)
        return out
    extra, ta, ca = None, {}, {}
    if sp.bal == "treap":
        extra = ch.f["pm"]
        ta = kid_attrs(s, sp)
        low = s.new_elem("num")
        if T and not s.add_fact("le", ta["pm"], extra):
            return []
        if not s.add_fact("le", low, extra) or not s.add_fact("le", ch.f["hpm"], low):
            return []
        ca = {"pm": low, "hpm": ch.f["hpm"]}
    t = child(s, sp, p, T, ta)
    l, r = place(side, q, t)
    mk_node(s, sp, p, x, l, r, par, extra)
    add_ctx(s, sp, q, p, holep, hole, L, R, ca)
    return [s]


# ------------------------------------------------------------- folding
def tree_spec(it_specs, o):
    if isinstance(o.cls, str):
        return None
    sp = it_specs.get(o.cls.name)
    return sp if sp is not None and sp.kind == "tree" else None


def eq(st, e):
    return st.num.entails_eq(e)


def max_is(st, h, a, b):
    """Entailed: h = max(a, b) and |a - b| <= 1"""
    n = st.num
    if not (n.entails_ge(h - a) and n.entails_ge(h - b)):
        return False
    if not (n.entails_ge(a - b + 1) and n.entails_ge(b - a + 1)):
        return False
    if eq(st, h - a) or eq(st, h - b):
        return True
    s = st.num.copy()
    s.add_ge(h - a - 1)
    s.add_ge(h - b - 1)
    return not s.sat()


def color_of(o):
    c = o.a.get("_color")
    return 1 if c == RED else 0 if c == BLACK else None


def tree_attrs_of(st, sp, o, la, ra):
    """Attributes of the tree rooted at explicit cell o, or None when its local invariant is not established."""
    if sp.bal is None:
        return {}
    if sp.bal == "avl":
        h = o.a["_height"]
        if h[0] != "i" or not max_is(st, lin(h), lin(la["H"]), lin(ra["H"])):
            return None
        return {"H": ("i", lin(h) + 1)}
    if sp.bal == "rb":
        c = color_of(o)
        if c is None or not eq(st, lin(la["bh"]) - lin(ra["bh"])):
            return None
        if c == 1 and not (eq(st, lin(la["c"])) and eq(st, lin(ra["c"]))):
            return None
        return {"bh": ("i", lin(la["bh"]) + 1 - c), "c": I(c)}
    if sp.bal == "treap":
        p = o.a["_priority"]
        if p[0] not in ("e", "c"):
            return None
        for k in (la, ra):
            if k["pm"] != NONE and not st.le(k["pm"], p):
                return None
        return {"pm": p}


def chunk_attrs(c):
    return {k: c.f[k] for k in TATTR[c.spec.bal]}


def ctx_attrs_of(st, sp, o, ta, hole, specs):
    """Attributes of the one-cell context o with sibling subtree attributes ta."""
    if sp.bal is None:
        return {}
    if sp.bal == "avl":
        h = o.a["_height"]
        if h[0] != "i":
            return None
        h = lin(h)
        cand = []
        ho = st.objs.get(hole)
        if ho is not None:
            v = ho.a.get("_height", NONE)
            if v[0] == "i":
                cand.append(lin(v) + 1)
        else:
            for c in st.chunks:
                if c.f.get("first") == hole and "H" in c.f:
                    cand.append(lin(c.f["H"]))
        if hole == NONE:
            cand.append(Lin(0))
        for x in cand:
            if max_is(st, h, x, lin(ta["H"])):
                return {"H": ("i", h + 1), "hH": ("i", x)}
        if eq(st, h - lin(ta["H"]) - 1):
            return {"H": ("i", h + 1), "hH": ("i", h)}
        return None
    if sp.bal == "rb":
        c = color_of(o)
        if c is None:
            return None
        if c == 1 and not eq(st, lin(ta["c"])):
            return None
        return {"bh": ("i", lin(ta["bh"]) + 1 - c), "c": I(c), "hbh": ta["bh"], "pc": I(c)}
    if sp.bal == "treap":
        p = o.a["_priority"]
        if p[0] not in ("e", "c"):
            return None
        if ta["pm"] != NONE and not st.le(ta["pm"], p):
            return None
        return {"pm": p, "hpm": p}


def good_data(v):
    return v[0] in ("e", "c", "i")


def fold(st, it, specs=None):
    """Summarise explicit tree cells that nothing points into directly."""
    specs = specs or it.specs
    folded = False
    while True:
        refs = None
        did = False
        cells = [(p, o, tree_spec(specs, o)) for p, o in st.objs.items()]
        cells = [(p, o, sp) for p, o, sp in cells if sp is not None]
        if not cells and not any(c.kind == "ctx" for c in st.chunks):
            return folded
        from .shapes import refcounts
        refs = refcounts(st)

        def pinned(p):
            return any(t == "root" or t[0] == "ghost" for t in refs.get(p, ()))
        trees = {c.f["first"]: (i, c) for i, c in enumerate(st.chunks) if c.kind == "tree"}
        ctxs = {c.f["first"]: (i, c) for i, c in enumerate(st.chunks) if c.kind == "ctx"}

        def as_tree(owner, field, q, sp):
            """(word, attrs, chunk) of child q when it is a private subtree of owner"""
            if q == NONE:
                return (), empty_attrs(sp), None
            x = trees.get(q)
            if x is None or x[1].spec is not sp:
                return None
            if sp.parent and x[1].f["parent"] != owner:
                return None
            for t in refs[q]:
                if t not in (("obj", owner, field), ("chunk", x[0], "first"), ("chunk", x[0], "parent")) and \
                        not (t[0] == "chunk" and t[2] == "hole" and st.chunks[t[1]].f["holep"] == owner):
                    return None
            return x[1].f["word"][1], chunk_attrs(x[1]), x[1]
        # subtrees
        for p, o, sp in cells:
            if set(o.a) != sp.layout or pinned(p) or not good_data(o.a["_data"]):
                continue
            if sp.parent and o.a[sp.parent][0] not in ("p", "none"):
                continue
            l, r = as_tree(p, "_left", o.a["_left"], sp), as_tree(p, "_right", o.a["_right"], sp)
            if o.a["_left"] == o.a["_right"] != NONE:
                continue
            if l is not None and r is not None:
                at = tree_attrs_of(st, sp, o, l[1], r[1])
                if at is None or (sp.sorted and not ordered(st, l[0], (("E", o.a["_data"]),), r[0])):
                    continue
                del st.objs[p]
                st.chunks = [c for c in st.chunks if c is not l[2] and c is not r[2]]
                add_tree(st, sp, p, o.a.get(sp.parent, NONE), l[0] + (("E", o.a["_data"]),) + r[0], at)
                did = folded = True
                break
            if l is None and r is None:
                continue
            t, hole = (r, o.a["_left"]) if l is None else (l, o.a["_right"])
            if hole[0] != "p":
                continue
            at = ctx_attrs_of(st, sp, o, t[1], hole, specs)
            if at is None:
                continue
            x = (("E", o.a["_data"]),)
            L, R = ((), x + t[0]) if l is None else (t[0] + x, ())
            if sp.sorted and not ordered(st, L, R):
                continue
            del st.objs[p]
            st.chunks = [c for c in st.chunks if c is not t[2]]
            add_ctx(st, sp, p, o.a.get(sp.parent, NONE), p, hole, L, R, at)
            did = folded = True
            break
        if did:
            continue
        for i, a in enumerate(st.chunks):
            if a.kind != "ctx":
                continue
            hole, sp = a.f["hole"], a.spec
            # holep must not be named elsewhere (unless the context is one cell: then it stays as `first`)
            def free(q, allowed):
                return all(t in allowed for t in refs.get(q, ()))
            x = ctxs.get(hole)
            if x is not None and x[0] != i and x[1].spec is sp:
                j, b = x
                if sp.parent and b.f["parent"] != a.f["holep"]:
                    continue
                if a.f["holep"] != a.f["first"] and not free(a.f["holep"], (("chunk", i, "holep"), ("chunk", j, "parent"))):
                    continue
                if b.f["first"] != b.f["holep"] and not free(b.f["first"], (("chunk", i, "hole"), ("chunk", j, "first"))):
                    continue
                at = join_ctx(st, sp, a, b)
                if at is None or (sp.sorted and not ordered(st, a.f["L"][1], b.f["L"][1], b.f["R"][1], a.f["R"][1])):
                    continue
                st.chunks = [c for c in st.chunks if c is not a and c is not b]
                add_ctx(st, sp, a.f["first"], a.f.get("parent", NONE), b.f["holep"], b.f["hole"],
                        a.f["L"][1] + b.f["L"][1], b.f["R"][1] + a.f["R"][1], at)
                did = folded = True
                break
            # fill the hole
            if hole == NONE:
                t = ((), empty_attrs(sp), None)
                jj = None
            else:
                y = trees.get(hole)
                if y is None or y[1].spec is not sp or (sp.parent and y[1].f["parent"] != a.f["holep"]):
                    continue
                jj = y[0]
                if not free(hole, (("chunk", i, "hole"), ("chunk", jj, "first"))):
                    continue
                t = (y[1].f["word"][1], chunk_attrs(y[1]), y[1])
            if a.f["holep"] != a.f["first"]:
                if not free(a.f["holep"], (("chunk", i, "holep"), ("chunk", jj, "parent"))):
                    continue
            elif pinned(a.f["first"]):
                continue
            at = fill_ctx(st, sp, a, t[1])
            if at is None or (sp.sorted and not ordered(st, a.f["L"][1], t[0], a.f["R"][1])):
                continue
            st.chunks = [c for c in st.chunks if c is not a and c is not t[2]]
            add_tree(st, sp, a.f["first"], a.f.get("parent", NONE), a.f["L"][1] + t[0] + a.f["R"][1], at)
            did = folded = True
            break
        if not did:
            return folded


def join_ctx(st, sp, a, b):
    if sp.bal is None:
        return {}
    if sp.bal == "avl":
        if not eq(st, lin(a.f["hH"]) - lin(b.f["H"])):
            return None
        return {"H": a.f["H"], "hH": b.f["hH"]}
    if sp.bal == "rb":
        if not eq(st, lin(a.f["hbh"]) - lin(b.f["bh"])) or \
                not st.num.entails_ge(Lin(1) - lin(a.f["pc"]) - lin(b.f["c"])):
            return None
        return {"bh": a.f["bh"], "c": a.f["c"], "hbh": b.f["hbh"], "pc": b.f["pc"]}
    if not st.le(b.f["pm"], a.f["hpm"]):
        return None
    return {"pm": a.f["pm"], "hpm": b.f["hpm"]}


def fill_ctx(st, sp, a, t):
    if sp.bal is None:
        return {}
    if sp.bal == "avl":
        return {"H": a.f["H"]} if eq(st, lin(a.f["hH"]) - lin(t["H"])) else None
    if sp.bal == "rb":
        if not eq(st, lin(a.f["hbh"]) - lin(t["bh"])) or \
                not st.num.entails_ge(Lin(1) - lin(a.f["pc"]) - lin(t["c"])):
            return None
        return {"bh": a.f["bh"], "c": a.f["c"]}
    if t["pm"] != NONE and not st.le(t["pm"], a.f["hpm"]):
        return None
    return {"pm": a.f["pm"]}
