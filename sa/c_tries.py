"""Contracts of Trie and RadixTrie: every shape of a few nodes, every marking of words, the characters symbolic."""
import ast

from .lin import Lin
from .state import St, NONE, TRUE, FALSE, I, Unsupported, show
from .harness import Bad, Env, judge, add_case
from .interp import Exc
from .texts import chars, text

HOLD, ASK = "P23", "P24"
NODES = 5
ATTRS = {"_parent", "_data", "_children", "_is_word"}


class N:
    """A node as the contracts see it: its characters, whether a word ends here, the nodes below."""

    def __init__(self, data, word, kids):
        self.data, self.word, self.kids = data, word, kids

    def count(self):
        return 1 + sum(k.count() for k in self.kids)


def forests(n):
    """Ordered forests of n nodes as nested tuples."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in forests(k - 1):
            for rest in forests(n - k):
                yield (first,) + rest


def marked(f, lens):
    """Forests with (length of the data, word?) at every node; leaves are words."""
    if not f:
        yield ()
        return
    for rest in marked(f[1:], lens):
        for kids in marked(f[0], lens):
            for m in ((True, False) if f[0] else (True,)):
                for k in lens:
                    yield ((k, m, kids),) + rest


def probe(env, cname):
    memo = env.__dict__.setdefault("_tprobe", {})
    if cname not in memo:
        sub = Env(env.prog, 10)
        sub.spelled()
        okk = False
        try:
            for s, p in sub.construct(sub.st, cname):
                o = None if isinstance(p, Exc) else s.objs[p]
                if o is None or set(o.a) != {"_root", "_nodes_count"}:
                    continue
                r = s.objs[o.a["_root"]]
                okk = set(r.a) == ATTRS and s.objs[r.a["_children"]].cls == "dict" and \
                    o.a["_nodes_count"] == I(1) and r.a["_is_word"] == FALSE and r.a["_parent"] == NONE
                memo[cname, "root"] = r.a["_data"]
        except (Unsupported, KeyError):
            okk = False
        memo[cname] = okk
    if not memo[cname]:
        raise Unsupported(f"representation of {cname} changed")
    return memo[cname, "root"]


def build(env, cname, forest, given=None):
    """A trie of that shape -> state with ghosts self, W (the words), T (the shape)."""
    root = probe(env, cname)
    st = env.st = St()
    ncls = env.cls("TrieNode")
    words = []
    cnt = [1]
    given = list(given or ())

    def sym():
        return given.pop(0) if given else st.new_elem("chr")

    def node(shape, parent, prefix):
        k, m, kids = shape
        cs = tuple(sym() for _ in range(k))
        p = st.alloc(ncls, {"_parent": parent, "_data": text(cs), "_is_word": TRUE if m else FALSE})
        cnt[0] += 1
        prefix = prefix + cs
        if m:
            words.append(text(prefix))
        st.objs[p].a["_children"] = below(kids, p, prefix)
        return p, cs[0]

    def below(kids, p, prefix):
        kv = []
        for sh in kids:
            q, c = node(sh, p, prefix)
            for k, _ in kv:
                if k[0] == "c" and c[0] == "c":
                    continue
                st.add_fact("ne", k, c)
            kv.append((c, q))
        return st.alloc("dict", {"kv": ("tup", tuple(("tup", (text((c,)), q)) for c, q in kv))})

    r = st.alloc(ncls, {"_parent": NONE, "_data": root, "_is_word": FALSE})
    st.objs[r].a["_children"] = below(forest, r, ())
    st.ghosts["W"] = ("tup", tuple(words))
    st.ghosts["self"] = st.alloc(env.cls(cname), {"_root": r, "_nodes_count": I(cnt[0])})
    return st


def read(x, cname, what="the trie"):
    """The nodes below the root at the exit; checks what ties them together."""
    st = x.st
    o = st.objs[x.g("self")]
    if set(o.a) != {"_root", "_nodes_count"}:
        raise Unsupported("representation changed")
    total = [0]

    def node(p, parent):
        if p[0] != "p" or p not in st.objs or set(st.objs[p].a) != ATTRS:
            raise Unsupported("representation changed")
        a = st.objs[p].a
        total[0] += 1
        if total[0] > 200:
            raise Bad(f"{what}: the nodes form a loop", st)
        if a["_parent"] != parent:
            raise Bad(f"{what}: the parent link of a node does not name the node above it", st)
        if a["_is_word"] not in (TRUE, FALSE):
            raise Unsupported("word mark")
        cs = chars(a["_data"])
        if cs is None:
            raise Unsupported("data of a node")
        if a["_children"][0] != "p" or st.objs[a["_children"]].cls != "dict":
            raise Unsupported("representation changed")
        kids, keys = [], []
        for kv in st.objs[a["_children"]].a["kv"][1]:
            k, q = kv[1]
            kid = node(q, p)
            kc = chars(k)
            if kc is None or not kid.data:
                raise Unsupported("key of a child")
            if len(kc) != 1:
                raise Bad(f"{what}: a child is filed under {show(k)}", st)
            same(x, kc[0], kid.data[0], f"{what}: a child is filed under another character than its own")
            if cname == "Trie" and len(kid.data) != 1:
                raise Bad(f"{what}: a node holds {len(kid.data)} characters", st)
            for j in keys:
                if not differ(st, j, kc[0]):
                    raise Unsupported("keys of children")
            keys.append(kc[0])
            kids.append(kid)
        if parent != NONE and not kids and a["_is_word"] == FALSE:
            raise Bad(f"{what}: a branch is left that leads to no word", st)
        return N(cs, a["_is_word"] == TRUE, kids)

    r = node(o.a["_root"], NONE)
    if r.word:
        raise Bad(f"{what}: the empty word is held", st)
    x.int_is(o.a["_nodes_count"], Lin(total[0]), f"{what}: the number of nodes")
    return r


def differ(st, a, b):
    """A symbol stands for a character the sources do not mention."""
    return a != b and (a[0] == "c" or b[0] == "c" or st.known_ne(a, b))


def same(x, a, b, msg):
    if a == b:
        return
    s = x.st.copy()
    if differ(x.st, a, b) or s.add_fact("ne", a, b) and s.order_ok():
        raise Bad(msg, s)
    raise Unsupported(msg)


def words(r):
    out = []

    def go(n, pre):
        if n.word:
            out.append(pre)
        for k in n.kids:
            go(k, pre + k.data)
    go(r, ())
    return out


def levels(r):
    out, cur = [], r.kids
    while cur:
        out.append([n.data for n in cur])
        cur = [k for n in cur for k in n.kids]
    return out


def apart(s, a, b):
    """Make two texts of the same length differ in state s; False when that is impossible."""
    for c, d in zip(a, b):
        if differ(s, c, d):
            return True
    for c, d in zip(a, b):
        if c != d:
            s2 = s.copy()
            if s2.add_fact("ne", c, d) and s2.order_ok():
                s.add_fact("ne", c, d)
                return True
    return False


def txt(cs):
    return "".join(c[1] if c[0] == "c" else f"<{show(c)}>" for c in cs) or "''"


def texts_are(x, got, want, what):
    """Equal as multisets of texts (tuples of characters)."""
    rest, extra = list(want), []
    for g in got:
        if g in rest:
            rest.remove(g)
        else:
            extra.append(g)
    if not rest and not extra:
        return
    s = x.st.copy()
    for g in (extra[:1] if extra else [rest[0]]):
        for r in (rest if extra else extra):
            if len(r) == len(g) and not apart(s, g, r):
                raise Unsupported(f"{what}: cannot decide")
    raise Bad(f"{what}: {txt(extra[0])} should not be there" if extra else f"{what}: {txt(rest[0])} is missing", s)


def seq_is(x, got, want, what):
    if len(got) != len(want):
        raise Bad(f"{what}: {len(got)} items instead of {len(want)}", x.st)
    for g, w in zip(got, want):
        if g == w:
            continue
        s = x.st.copy()
        if len(g) == len(w) and not apart(s, g, w):
            raise Unsupported(what)
        raise Bad(f"{what}: {txt(g)} instead of {txt(w)}", s)


def pre_words(x):
    return [chars(w) for w in x.g("W")[1]]


def split_on(x, pairs):
    """Exit states in which every pair of texts is decided -> (X, [equal?])."""
    cur = [(x.st.copy(), ())]
    x0 = x
    for name, a, b in pairs:
        nxt = []
        for s, rs in cur:
            for s2, r in x0.env.it.equal(s, "Eq", a(s), b(s), None, None):
                nxt.append((s2, rs + (r,)))
        cur = nxt
    from .harness import X
    out = []
    for s, rs in cur:
        if s.num.sat() and s.order_ok():
            out.append((X(x0.env, s, x0.val), rs))
    return out


def word_ghost(st):
    return st.ghosts["w"]


def held(x):
    """Split the exit on whether the argument word is among the words held before."""
    n = len(x.g("W")[1])
    return split_on(x, [(str(i), word_ghost, (lambda s, i=i: s.ghosts["W"][1][i])) for i in range(n)])


def begins(x):
    """... on which of the words held before start with the argument."""
    k = len(chars(x.g("w")))
    n = len(x.g("W")[1])
    return split_on(x, [(str(i), word_ghost, (lambda s, i=i: text(chars(s.ghosts["W"][1][i])[:k]))) for i in range(n)])


def shapes(cname, n):
    if cname == "Trie":
        lens = (1,)
    else:
        lens = (1, 2, 3) if n <= 2 else (1, 2) if n == 3 else (2,)
    for f in forests(n):
        yield from marked(f, lens)


def each(env, cname, op, post, lo=0, hi=NODES, n=None):
    env.spelled()
    for k in range(lo, hi + 1) if n is None else (n,):
        for f in shapes(cname, k):
            build(env, cname, f)
            judge(env, op(env, env.st), post)


def with_word(m, k):
    def op(env, s):
        s.ghosts["w"] = text(tuple(s.new_elem("chr") for _ in range(k)))
        return env.run(s, "self", m, [s.ghosts["w"]])
    return op


def kept(x, cname, what):
    r = read(x, cname, f"the trie after {what}")
    texts_are(x, words(r), pre_words(x), f"the words after {what}")


def insert_post(cname):
    def post(x):
        x.returned()
        for y, eq in held(x):
            r = read(y, cname)
            want = pre_words(y)
            if not any(eq):
                want = want + [chars(y.g("w"))]
            texts_are(y, words(r), want, "words after insert")
    return post


def remove_post(cname):
    def post(x):
        x.returned()
        for y, eq in held(x):
            r = read(y, cname)
            want = pre_words(y)
            if any(eq):
                del want[eq.index(True)]
                if "warn" in y.st.events:
                    raise Bad("removing a word that is held is reported as if it was not", y.st)
            elif not chars(y.g("w")):
                pass
            elif "warn" not in y.st.events:
                raise Bad("removing a word that is not held is not reported with a warning", y.st)
            texts_are(y, words(r), want, "words after remove")
    return post


def contains_post(cname):
    def post(x):
        v = x.returned()
        for y, eq in held(x):
            y.bool_is(v, any(eq), "membership")
        kept(x, cname, "a membership test")
    return post


def prefix_post(cname):
    def post(x):
        v = x.returned()
        for y, eq in begins(x):
            if not y.g("W")[1] and not chars(y.g("w")):
                continue
            y.bool_is(v, any(eq), "has_prefix")
        kept(x, cname, "has_prefix")
    return post


def texts_of(x, v, what):
    out = []
    for i in x.pylist(v, what):
        cs = chars(i[1]) if i[0] == "E" else None
        if cs is None:
            raise Unsupported(f"{what}: unknown part")
        out.append(cs)
    return out


def complete_post(cname):
    def post(x):
        x.returned()
        for y, eq in begins(x):
            want = [w for w, e in zip(pre_words(y), eq) if e]
            # the value was renamed along with the state
            texts_are(y, texts_of(y, y.val, "auto_complete"), want, "auto_complete")
        kept(x, cname, "auto_complete")
    return post


def query_case(cname, m, n):
    def op(env, s):
        ex = env.run(s, "self", m)
        if m == "__iter__":
            ex = [y for s2, g in ex for y in (env.gen_list(s2, g) if not isinstance(g, Exc) else [(s2, g)])]
        return ex

    def post(x):
        v = x.returned()
        r = read(x, cname, f"the trie after {m}")
        texts_are(x, words(r), pre_words(x), f"the words after {m}")
        ls = levels(r)
        if m == "__len__":
            x.int_is(v, Lin(r.count()), "the length")
        elif m == "is_empty":
            x.bool_is(v, not r.kids, "emptiness")
        elif m == "get_height":
            x.int_is(v, Lin(len(ls)), "the height")
        elif m == "count_leaf_nodes":
            def leaves(z):
                return sum(leaves(k) for k in z.kids) if z.kids else 1
            x.int_is(v, Lin(leaves(r) if r.kids else 0), "the number of leaves")
        elif m in ("__iter__", "to_list"):
            seq_is(x, texts_of(x, v, m), [d for l in ls for d in l], m)
        elif m == "get_nodes_per_level":
            rows = x.pylist(v, m)
            if len(rows) != len(ls):
                raise Bad(f"{len(rows)} levels instead of {len(ls)}", x.st)
            for row, l in zip(rows, ls):
                seq_is(x, texts_of(x, row[1], "a level"), l, "a level")
    return lambda env: each(env, cname, op, post, n=n)


def op_case(cname, m, post, n, lens):
    def fn(env):
        for k in lens:
            each(env, cname, with_word(m, k), post(cname), n=n)
    return fn


def clear_case(cname):
    def post(x):
        x.returned()
        r = read(x, cname)
        if r.kids:
            raise Bad("words are left after clear", x.st)
    return lambda env: each(env, cname, lambda env, s: env.run(s, "self", "clear"), post, hi=3)


def constants(prog):
    """Texts the sources of the tries mention (documentation aside)."""
    out = set()
    for cn in ("Trie", "RadixTrie", "TrieNode", "SuffixTrie"):
        c = prog.cls(cn)
        tree = getattr(getattr(c, "module", None), "tree", None) or getattr(c, "node", None)
        if tree is None:
            continue
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                skip.add(id(n.value))
            if isinstance(n, ast.JoinedStr):
                for m in ast.walk(n):
                    skip.add(id(m))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in skip and \
                    0 < len(n.value) <= 4 and not any(ch.isspace() for ch in n.value):
                out.add(n.value)
    return sorted(out)


def marks_case(cname, m, post):
    """Words made of the very characters the sources mention."""
    def fn(env):
        env.spelled()
        for t in sorted(set(constants(env.prog)) | {"}", "{", "$", "ROOT", "~", "\U0010ffff", "\x00", "a"}):
            cs = tuple(("c", ch) for ch in t)
            for n in (0, 1, 2):
                for f in shapes("Trie", n):
                    for given in ((), cs):
                        if len(given) > n:
                            continue
                        for tail in (0, 1):
                            build(env, cname, f, given)
                            s = env.st
                            s.ghosts["w"] = text(cs + tuple(s.new_elem("chr") for _ in range(tail)))
                            judge(env, env.run(s, "self", m, [s.ghosts["w"]]), post(cname))
    return fn


def blank_case(cname):
    def post(x):
        x.raised("ValueError")
        kept(x, cname, "a rejected call")

    def fn(env):
        for t in ("", " ", " \t\n"):
            each(env, cname, lambda env, s: env.run(s, "self", "insert", [("c", t)]), post, hi=2)
    return fn


def rejected(cname, m, kind):
    def op(env, s):
        bad = {"none": lambda: NONE, "number": lambda: I(3), "bool": lambda: TRUE,
               "list": lambda: s.alloc("list", {"w": ("w", (("E", ("c", "a")),))})}[kind]()
        return env.run(s, "self", m, [bad])

    def post(x):
        if m in ("insert", "auto_complete"):
            x.raised("ValueError" if kind == "none" else "TypeError")
        elif m in ("__contains__", "has_prefix"):
            x.bool_is(x.returned(), False, "looking for something that is no text")
        else:
            x.returned()
            if "warn" not in x.st.events:
                raise Bad("removing what is not there is not reported with a warning", x.st)
        kept(x, cname, "a rejected call")
    return lambda env: each(env, cname, op, post, hi=2)


def new_case(cname):
    def fn(env):
        env.spelled()
        probe(env, cname)
        st = env.st = St()
        exits = []
        for s, p in env.construct(st, cname):
            if not isinstance(p, Exc):
                s.ghosts["self"] = p
            exits.append((s, p))

        def post(x):
            x.returned()
            if read(x, cname).kids:
                raise Bad("a new trie holds words", x.st)
        judge(env, exits, post)
    return fn


for c in ("Trie", "RadixTrie"):
    for n in range(NODES + (2 if c == "Trie" else 1)):
        sc = f"every {c} of {n} nodes below the root, any characters"
        lens = (1, 2, 3, 4) if c == "Trie" else (1, 2, 3, 4, 5)
        for m, p, a, ks in (("insert", insert_post, HOLD, lens), ("remove", remove_post, HOLD, (0,) + lens),
                            ("__contains__", contains_post, HOLD, (0,) + lens),
                            ("has_prefix", prefix_post, ASK, (0,) + lens), ("auto_complete", complete_post, ASK, (0,) + lens)):
            add_case(a, f"{c}.{m}, {n} nodes", op_case(c, m, p, n, ks), budget=250, scope=sc, weight=1 + n * n)
        for m in ("__len__", "is_empty", "get_height", "count_leaf_nodes", "__iter__", "to_list", "get_nodes_per_level"):
            add_case(ASK, f"{c}.{m}, {n} nodes", query_case(c, m, n), budget=100, scope=sc)
    for m, p, a in (("insert", insert_post, HOLD), ("remove", remove_post, HOLD), ("__contains__", contains_post, HOLD),
                    ("has_prefix", prefix_post, ASK), ("auto_complete", complete_post, ASK)):
        add_case(a, f"{c}.{m}, special characters", marks_case(c, m, p), budget=200,
                 scope="tries of up to 2 nodes and the characters the sources mention", weight=5)
    add_case(HOLD, f"{c}.clear", clear_case(c), budget=60, scope="every trie of up to 3 nodes")
    add_case(HOLD, f"{c}.__init__", new_case(c), budget=60)
    add_case(HOLD, f"{c}.insert of a blank", blank_case(c), budget=60, scope="every trie of up to 2 nodes")
    for k in ("none", "number", "bool", "list"):
        for m in ("insert", "remove", "__contains__", "has_prefix", "auto_complete"):
            add_case(HOLD if m in ("insert", "remove", "__contains__") else ASK, f"{c}.{m} with {k}", rejected(c, m, k), budget=60,
                     scope="every trie of up to 2 nodes")
