"""Printed forms: the drawing of each structure, with unknown texts of different widths as items (lists, stacks, queues)
or numbers of different widths (skip lists, trees, heaps), compared with the documented drawing or, for trees drawn
as boxes, with the tree that can be read off the drawing."""
import itertools
import re

from .state import St, NONE, I, Unsupported
from .harness import Bad, judge, add_case, describe
from .interp import Exc
from .texts import chars, text

PROP = "P28"


def cs(s):
    return tuple(("c", c) for c in s)


def trimmed(c):
    """lines without trailing blanks"""
    lines, cur = [], []
    for x in tuple(c) + (("c", "\n"),):
        if x == ("c", "\n"):
            while cur and cur[-1] == ("c", " "):
                cur.pop()
            lines.append(tuple(cur))
            cur = []
        else:
            cur.append(x)
    return lines


def shown(c):
    return "".join(x[1] if x[0] == "c" else "?" for x in c)


def drawing_is(x, want, what):
    v = x.returned()
    got = chars(v)
    if got is None:
        if v[0] == "top":
            raise Unsupported(f"{what}: unknown text")
        raise Bad(f"{what}: not a text", x.st)
    a, b = trimmed(got), trimmed(want)
    if len(a) != len(b):
        raise Bad(f"{what} has {len(a)} lines instead of {len(b)}", x.st)
    for k, (p, q) in enumerate(zip(a, b)):
        if p != q:
            raise Bad(f"line {k + 1} of {what} is {shown(p)!r} instead of {shown(q)!r}", x.st)


def unknown_texts(env, widths):
    st = env.st
    sym = [st.new_elem("chr") for _ in range(sum(widths))]
    for a, b in itertools.combinations(sym, 2):
        st.add_fact("ne", a, b)
    it = iter(sym)
    return [text(tuple(next(it) for _ in range(w))) for w in widths]


def twice(env, s, draw, what, m="__repr__"):
    """The drawing, and the drawing once more after it."""
    for s1, v in env.run(s, "self", m, []):
        judge(env, [(s1.copy(), v)], lambda x: draw(x, what))
        if not isinstance(v, Exc):
            judge(env, env.run(s1, "self", m, []), lambda x: draw(x, what + ", printed again"))


# ---------------------------------------------------------------- rows of boxes
def row(items, kind):
    ws = [len(chars(v)) + 2 for v in items]
    mid = [chars(v) for v in items]
    if kind == "linked" or kind == "circular":
        if not items:
            return cs("┌─\n│\n└─")
        top = cs("".join("┌" + "─" * w + "┐ " for w in ws))
        low = cs("".join("└" + "─" * w + "┘ " for w in ws))
        m = ()
        for c in mid:
            m += cs("│ ") + c + cs(" │⟶")
        if kind == "linked":
            return top + cs("\n") + m + cs("\n") + low
        m += cs(" ┐")
        off = (ws[0] + 2) // 2
        rest = len(m) - 2 - off
        return top + cs("\n") + m + cs("\n") + low + cs(" │\n" + " " * off + "↑" + " " * rest + "│\n" +
                                                        " " * off + "└" + "─" * rest + "┘")
    if kind == "doubly":
        if not items:
            return cs("┌─\n│\n└─")
        m = ()
        for c in mid:
            m += cs("⟷│ ") + c + cs(" │")
        return cs("".join(" ┌" + "─" * w + "┐" for w in ws) + "\n") + m + cs("⟷\n" +
                                                                             "".join(" └" + "─" * w + "┘" for w in ws))
    if kind == "stack":
        m = cs("│")
        for c in mid:
            m += cs(" ") + c + cs(" │")
        return cs("┌" + "".join("─" * w + "┬" for w in ws) + "─\n") + m + cs("\n└" + "".join("─" * w + "┴" for w in ws) + "─")
    d = {"queue": "⟶", "deque": "⟷"}[kind]
    m = cs(d + "│")
    for c in mid:
        m += cs(" ") + c + cs(" │")
    e = "─" if items else ""
    return cs("─┬" + "".join("─" * w + "┬" for w in ws) + e + "\n") + m + cs((d if items else "") + "\n─┴" +
                                                                           "".join("─" * w + "┴" for w in ws) + e)


def rows_case(cname, kind, n):
    def fn(env):
        env.spelled()
        for widths in itertools.product((1, 2, 5), repeat=n) if n < 4 else [(1, 2, 5, 3), (4, 1, 1, 2)]:
            st = env.st = St()
            items = unknown_texts(env, widths)
            st.ghosts["items"] = ("tup", tuple(items))
            what = f"the drawing of {n} items of widths {widths}"
            if kind in ("linked", "circular", "doubly"):
                args = [st.alloc("list", {"w": ("w", tuple(("E", v) for v in items))})]
                made = env.construct(st, cname, args)
                order = items
            else:
                made = env.construct(st, cname, [])
                add = {"Stack": "push", "Queue": "enqueue", "PriorityQueue": "enqueue", "Deque": "append_left"}[cname]
                order = items if cname == "Stack" else items[::-1]
            cur = []
            for s, p in made:
                if isinstance(p, Exc):
                    judge(env, [(s, p)], lambda x: x.returned())
                    continue
                s.ghosts["self"] = p
                cur.append(s)
            if kind not in ("linked", "circular", "doubly"):
                for k in range(n):
                    nxt = []
                    for s in cur:
                        v = s.ghosts["items"][1][k]
                        for s2, r in env.run(s, "self", add, [v] + ([I(3)] if cname == "PriorityQueue" else [])):
                            if isinstance(r, Exc):
                                judge(env, [(s2, r)], lambda x: x.returned())
                            else:
                                nxt.append(s2)
                    cur = nxt
            want = row(order, kind)
            for s in cur:
                twice(env, s, lambda x, w: drawing_is(x, want, w), what)
    return fn


for cname, kind in (("LinkedList", "linked"), ("DoublyLinkedList", "doubly"), ("CircularLinkedList", "circular"),
                    ("Stack", "stack"), ("Queue", "queue"), ("PriorityQueue", "queue"), ("Deque", "deque")):
    for n in range(5):
        add_case(PROP, f"{cname}: {n} items", rows_case(cname, kind, n), budget=200, weight=8 * n,
                 scope=f"{n} unknown texts of {'1, 2 or 5' if n < 4 else '1 to 5'} characters")


# ---------------------------------------------------------------- trees drawn with branches
def branches(tree):
    """tree: (label, [subtrees])"""
    out = [tree[0]]

    def go(kids, pre):
        for i, (label, sub) in enumerate(kids):
            last = i == len(kids) - 1
            out.append(pre + ("└─" if last else "├─") + ("┬ " if sub else "─ ") + label)
            go(sub, pre + ("  " if last else "│ "))
    go(tree[1], "")
    return "\n".join(out)


def shapes(n):
    """ordered trees of n nodes, as nested lists"""
    def forests(k):
        if k == 0:
            yield []
        for a in range(1, k + 1):
            for t in (f for f in forests(a - 1)):
                for r in forests(k - a):
                    yield [t] + r
    return list(forests(n - 1))


def plain_case(n):
    def fn(env):
        env.spelled()
        names = ["r", "bb", "c", "dddd", "e5", "f"]
        for shape in shapes(n):
            st = env.st = St()
            tree, node = env.cls("Tree"), env.cls("TreeNode")
            count = itertools.count()

            def build(kids):
                label = names[next(count)]
                sub = [build(k) for k in kids]
                word = ("w", tuple(("E", p) for _, p in sub))
                p = st.alloc(node, {"_data": ("c", label), "_children": st.alloc("list", {"w": word})})
                return (label, [t for t, _ in sub]), p
            t, p = build(shape)
            st.ghosts["self"] = st.alloc(tree, {"_root": p})
            want = cs(branches(t))
            twice(env, st, lambda x, w: drawing_is(x, want, w), "the drawing")
    return fn


for n in range(1, 7):
    add_case(PROP, f"Tree: {n} nodes", plain_case(n), budget=200, weight=n * n, scope=f"every ordered tree of {n} nodes")


def trie_of(words, radix, mark=" ✓"):
    """(label, kids) of the trie; kids in the order of first insertion (a split keeps its edge's place)"""
    order = {}
    for w in words:
        for i in range(len(w)):
            order.setdefault(w[:i + 1], len(order))

    def go(pre):
        kids = []
        heads = sorted({w[:len(pre) + 1] for w in words if w.startswith(pre) and w != pre}, key=lambda p: order[p])
        for h in heads:
            if radix:
                while h not in words and len({w[:len(h) + 1] for w in words if w.startswith(h)}) == 1:
                    h = next(w for w in words if w.startswith(h))[:len(h) + 1]
            kids.append((h[len(pre):] + (mark if h in words else ""), go(h)))
        return kids
    return ("ROOT", go(""))


WORDS = ["car", "cart", "cast", "do", "c", "cab", "dot", "caste"]


def trie_case(cname, n):
    def fn(env):
        env.spelled()
        pools = itertools.permutations(WORDS, n) if n < 3 else \
            [p for i, p in enumerate(itertools.permutations(WORDS, n)) if i % 7 == 0][:60]
        for words in pools:
            st = env.st = St()
            cur = []
            for s, p in env.construct(st, cname, []):
                s.ghosts["self"] = p
                cur.append(s)
            for w in words:
                cur = [s2 for s in cur for s2, r in env.run(s, "self", "insert", [("c", w)]) if not isinstance(r, Exc)]
            want = cs(branches(trie_of(list(words), cname == "RadixTrie"))) if words else cs("--")

            def draw(x, w):
                if not words:
                    return drawing_is(x, want, w)
                v = x.returned()
                if v[0] == "top":
                    raise Unsupported("unknown text")
                a, b = sorted(paths(shown(chars(v)))), sorted(paths(shown(want)))
                if a != b:
                    raise Bad(f"{w} of {words} shows the branches {a} instead of {b}", x.st)
            for s in cur:
                twice(env, s, draw, "the drawing")
    return fn


LINE = re.compile(r"^((?:│ |  )*)(├─|└─)([┬─]) (.*)$")


def paths(drawing):
    """The labels from the root to each node, read off a drawing; Bad when its lines do not fit together."""
    lines = drawing.split("\n")
    out, stack, open_ = [(lines[0],)], [], {}
    for k, line in enumerate(lines[1:]):
        m = LINE.match(line)
        if not m:
            raise Bad(f"line {k + 2} of the drawing is {line!r}")
        pre, end, tail, label = m.groups()
        d = len(pre) // 2
        if d > len(stack):
            raise Bad(f"line {k + 2} of the drawing is too far right: {line!r}")
        for i in range(d):
            if (pre[2 * i] == "│") != open_.get(i, False):
                raise Bad(f"line {k + 2} of the drawing has a wrong rule: {line!r}")
        if d < len(stack) and not open_.get(d):
            raise Bad(f"line {k + 2} of the drawing follows the last child of its node: {line!r}")
        stack = stack[:d] + [label]
        open_ = {i: v for i, v in open_.items() if i < d}
        open_[d] = end == "├─"
        nxt = LINE.match(lines[k + 2]) if k + 2 < len(lines) else None
        deeper = nxt is not None and len(nxt.group(1)) // 2 == d + 1
        if deeper != (tail == "┬"):
            raise Bad(f"line {k + 2} of the drawing has a wrong branch: {line!r}")
        out.append((lines[0],) + tuple(stack))
    if any(v for i, v in open_.items()):
        raise Bad("the drawing ends before the last child")
    return out


for cname in ("Trie", "RadixTrie"):
    for n in range(4):
        add_case(PROP, f"{cname}: {n} words", trie_case(cname, n), budget=200, weight=10 * n,
                 scope=f"{n} of the words {', '.join(WORDS)} in every order" + (" (a sample)" if n == 3 else ""))


def suffix_case(word):
    def fn(env):
        env.spelled()
        want = branches(trie_of([f"{word[i:]}$ ⟶ {i}" for i in range(len(word) + 1)], True, ""))
        for s, p in env.construct(env.st, "SuffixTrie", [("c", word)]):
            s.ghosts["self"] = p

            def draw(x, w):
                v = x.returned()
                if v[0] == "top":
                    raise Unsupported("unknown text")
                a, b = sorted(paths(shown(chars(v)))), sorted(paths(want))
                if a != b:
                    raise Bad(f"{w} of the suffixes of {word} shows the branches {a} instead of {b}", x.st)
            twice(env, s, draw, "the drawing")
    return fn


for word in ("a", "aa", "ab", "aba", "abb", "abab", "aaaa", "abcab", "banana", "abcdefghijk", "mississippi"):
    add_case(PROP, f"SuffixTrie: {word}", suffix_case(word), budget=200, weight=len(word) * 4, scope=f"the word {word}")


# ---------------------------------------------------------------- trees drawn as boxes
def read_boxes(x, v, want, what):
    """want: list of levels, each a list of (label, number of the node in order, is left child, parent's number)"""
    if v[0] == "top":
        raise Unsupported(f"{what}: unknown text")
    c = chars(v)
    if c is None or any(k[0] != "c" for k in c):
        raise Bad(f"{what}: not a text", x.st)
    lines = shown(c).rstrip("\n").split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    if len(lines) != 2 * len(want) - 1:
        raise Bad(f"{what} has {len(lines)} lines for {len(want)} levels", x.st)
    col = {}
    for d, level in enumerate(want):
        got = [(m.start(), m.group(0)) for m in re.finditer(r"[^ _]+", lines[2 * d])]
        if [g for _, g in got] != [w[0] for w in level]:
            raise Bad(f"line {2 * d + 1} of {what} shows {[g for _, g in got]} instead of {[w[0] for w in level]}", x.st)
        for (start, g), w in zip(got, level):
            col[w[1]] = (start, start + len(g))
        if d:
            arms = [(m.start(), m.group(0)) for m in re.finditer(r"\S", lines[2 * d - 1])]
            want_arms = ["/" if w[2] else "\\" for w in level]
            if [a for _, a in arms] != want_arms:
                raise Bad(f"line {2 * d} of {what} shows {[a for _, a in arms]} instead of {want_arms}", x.st)
            for (at, a), w in zip(arms, level):
                lo, hi = col[w[3]]
                c0, c1 = col[w[1]]
                way = lines[2 * d - 2][at + 1:lo] if a == "/" else lines[2 * d - 2][hi:at]
                if not c0 - 1 <= at <= c1 or way.strip("_"):
                    raise Bad(f"line {2 * d} of {what}: the arm to {w[0]} does not join it to its parent", x.st)
                if a == "/" and at >= lo or a == "\\" and at < hi:
                    raise Bad(f"line {2 * d} of {what}: the arm to {w[0]} is on the wrong side of its parent", x.st)
    order = [col[k] for k in sorted(col)]
    for (a, b), (c2, d2) in zip(order, order[1:]):
        if c2 < b:
            raise Bad(f"{what}: the columns do not follow the in-order sequence", x.st)


def boxes(shape, labels):
    """the documented drawing (that of the binarytree package); labels in in-order sequence"""
    it = iter(labels)

    def number(t):
        if t is None:
            return None
        a = number(t[0])
        k = next(it)
        return (a, k, number(t[1]))

    def go(t):
        """lines, columns of the first and the last character of the root"""
        if t is None:
            return [], 0, 0
        (left, ls, le), k, (right, rs, re_) = go(t[0]), t[1], go(t[2])
        lw, rw = len(left[0]) if left else 0, len(right[0]) if right else 0
        one = two = ""
        if lw:
            m = (ls + le) // 2 + 1
            one = " " * (m + 1) + "_" * (lw - m)
            two = " " * m + "/" + " " * (lw - m)
        start = len(one)
        one, two = one + k, two + " " * len(k)
        if rw:
            m = (rs + re_) // 2
            one += "_" * m + " " * (rw - m + 1)
            two += " " * m + "\\" + " " * (rw - m)
        gap = " " * (len(one) - lw - rw)
        rows = [(left[i] if i < len(left) else " " * lw) + gap + (right[i] if i < len(right) else " " * rw)
                for i in range(max(len(left), len(right)))]
        return [one, two] + rows, start, start + len(k) - 1
    return "\n".join(go(number(shape))[0]).rstrip()


def same_boxes(x, shape, labels, what):
    c = chars(x.returned())
    if c is not None:
        while c and c[-1] in (("c", "\n"), ("c", " ")):
            c = c[:-1]
        x = type(x)(x.env, x.st, text(c))
    drawing_is(x, cs(boxes(shape, labels)), what)


def levels(shape, labels):
    """shape: None or (left, right); labels in in-order sequence"""
    out = []
    it = itertools.count()

    def number(t):
        if t is None:
            return None
        a = number(t[0])
        k = next(it)
        return (a, k, number(t[1]))

    def go(t, d, left, up):
        if t is None:
            return
        while len(out) <= d:
            out.append([])
        out[d].append((labels[t[1]], t[1], left, up))
        go(t[0], d + 1, True, t[1])
        go(t[2], d + 1, False, t[1])
    go(number(shape), 0, None, None)
    return out


def binary(n):
    if n == 0:
        return [None]
    return [(a, b) for k in range(n) for a in binary(k) for b in binary(n - 1 - k)]


NUMBERS = [-12, 3, 40, 555, 6001, 70000]


def boxes_case(n):
    def fn(env):
        env.spelled()
        for shape in binary(n):
            st = env.st = St()
            tree, node = env.cls("BinaryTree"), env.cls("BinaryTreeNode")
            it = iter(NUMBERS)

            def build(t):
                if t is None:
                    return NONE
                a = build(t[0])
                v = next(it)
                b = build(t[1])
                return st.alloc(node, {"_data": I(v), "_left": a, "_right": b})
            st.ghosts["self"] = st.alloc(tree, {"_root": build(shape)})
            want = levels(shape, [str(v) for v in NUMBERS])

            def draw(x, w):
                if n == 0:
                    return drawing_is(x, cs("/ \\"), w)
                read_boxes(x, x.returned(), want, w)
                same_boxes(x, shape, [str(v) for v in NUMBERS[:n]], w)
            twice(env, st, draw, "the drawing")
    return fn


for n in range(7):
    add_case(PROP, f"BinaryTree: {n} nodes", boxes_case(n), budget=300, weight=n * n * 2,
             scope=f"every binary tree of {n} nodes, numbers of different widths")


def bst_shape(nums):
    if not nums:
        return None
    r = nums[0]
    return (bst_shape([v for v in nums[1:] if v < r]), bst_shape([v for v in nums[1:] if v > r]))


def search_case(cname, n):
    """Only the levels and the order are known for rebalancing trees: read the drawing and check it against the answers."""
    def fn(env):
        env.spelled()
        for nums in itertools.permutations(NUMBERS[:n]):
            st = env.st = St()
            cur = []
            args = [st.alloc("list", {"w": ("w", tuple(("E", I(v)) for v in nums))})]
            for s, p in env.construct(st, cname, args):
                if isinstance(p, Exc):
                    judge(env, [(s, p)], lambda x: x.returned())
                    continue
                s.ghosts["self"] = p
                cur.append(s)
            for s in cur:
                for s1, v in env.run(s, "self", "get_nodes_per_level", []):
                    def draw(x, w):
                        r = x.returned()
                        if r[0] == "top":
                            raise Unsupported("unknown text")
                        lev = [[it[1] for it in x.pylist(l[1], "a level")] for l in x.pylist(v, "the levels")]
                        def coloured(raw, d):
                            for _, g in raw:
                                if g[-2:] not in ("|R", "|B") or d == 0 and g[-2:] == "|R" or n == 2 and d == 1 and g[-2:] == "|B":
                                    raise Bad(f"{w} shows {g!r} on level {d}", x.st)
                        if cname == "BST":
                            same_boxes(x, bst_shape(nums), [str(v) for v in sorted(nums)], w)
                        drawn_levels(x, r, [[str(int(i[1].c)) for i in l] for l in lev], w, sorted(nums),
                                     coloured if cname == "RedBlackTree" else None)
                    twice(env, s1, draw, "the drawing")
    return fn


def drawn_levels(x, v, lev, what, order, tag=None):
    c = chars(v)
    if c is None or any(k[0] != "c" for k in c):
        raise Bad(f"{what}: not a text", x.st)
    lines = shown(c).rstrip("\n").split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    if len(lines) != 2 * len(lev) - 1:
        raise Bad(f"{what} has {len(lines)} lines for {len(lev)} levels", x.st)
    col = {}
    for d, level in enumerate(lev):
        raw = [(m.start(), m.group(0)) for m in re.finditer(r"[^ _]+", lines[2 * d])]
        if tag is not None:
            tag(raw, d)
        got = [(at, g.split("|")[0]) for at, g in raw]
        if [g for _, g in got] != level:
            raise Bad(f"line {2 * d + 1} of {what} shows {[g for _, g in got]} instead of {level}", x.st)
        for at, g in raw:
            col[int(g.split("|")[0])] = (at, at + len(g))
        if d:
            for m in re.finditer(r"\S", lines[2 * d - 1]):
                if not any(lo - 1 <= m.start() <= hi for lo, hi in (col[int(g)] for g in level)):
                    raise Bad(f"line {2 * d} of {what}: an arm does not lead to a value below", x.st)
    spans = sorted(col.values())
    if [k for k, _ in sorted(col.items(), key=lambda kv: kv[1])] != list(order) or any(b < a for (_, a), (b, _) in zip(spans, spans[1:])):
        raise Bad(f"{what}: the columns do not follow the in-order sequence", x.st)


for cname in ("BST", "AVL", "SplayTree", "RedBlackTree"):
    for n in range(1, 5):
        add_case(PROP, f"{cname}: {n} values", search_case(cname, n), budget=300, weight=n * n * 3,
                 scope=f"{n} numbers of different widths inserted in every order")


def treap_case(n):
    def fn(env):
        env.spelled()
        nums = NUMBERS[:n]
        for prio in itertools.permutations(range(1, n + 1)):
            st = env.st = St()
            cur = []
            for s, q in env.construct(st, "Treap", []):
                s.ghosts["self"] = q
                cur.append(s)
            for v, p in zip(nums, prio):
                cur = [s2 for s in cur for s2, r in env.run(s, "self", "insert", [I(v), I(p)]) if not isinstance(r, Exc)]
            by = dict(zip(nums, prio))

            def tree(lo, hi):
                if lo >= hi:
                    return None
                k = max(range(lo, hi), key=lambda i: prio[i])
                return (tree(lo, k), tree(k + 1, hi))
            for s in cur:
                twice(env, s, lambda x, w: same_boxes(x, tree(0, n), [str(v) for v in nums], w), f"the drawing of priorities {by}")
    return fn


for n in range(1, 5):
    add_case(PROP, f"Treap: {n} values", treap_case(n), budget=300, weight=n * n * 3,
             scope=f"{n} numbers of different widths with priorities in every order")


def heap_case(cname, n):
    def fn(env):
        env.spelled()
        nums = sorted([40, 7, -3, 555, 61, 9, 1000][:n], reverse=cname == "MaxHeap")
        for p in itertools.islice(itertools.permutations(nums), 0, None, 1 if n < 5 else 97):
            st = env.st = St()
            cur = []
            for s, q in env.construct(st, cname, []):
                s.ghosts["self"] = q
                cur.append(s)
            for v in p:
                cur = [s2 for s in cur for s2, r in env.run(s, "self", "insert", [I(v)]) if not isinstance(r, Exc)]
            for s in cur:
                for s1, v in env.run(s, "self", "to_list", []):
                    def draw(x, w):
                        if n == 0:
                            return drawing_is(x, cs("/ \\"), w)
                        vals = [str(int(i[1][1].c)) for i in x.pylist(v, "to_list")]

                        def sh(i):
                            return None if i >= n else (sh(2 * i + 1), sh(2 * i + 2))

                        def inorder(i):
                            return [] if i >= n else inorder(2 * i + 1) + [vals[i]] + inorder(2 * i + 2)
                        same_boxes(x, sh(0), inorder(0), w)
                    twice(env, s1, draw, "the drawing")
    return fn


for cname in ("MinHeap", "MaxHeap"):
    for n in range(8):
        add_case(PROP, f"{cname}: {n} values", heap_case(cname, n), budget=300, weight=n * n,
                 scope=f"{n} numbers of different widths in " + ("every order" if n < 5 else "some orders"))


# ---------------------------------------------------------------- skip lists
def skip_drawing(nums, heights):
    labels = ["-∞"] + [str(v) for v in nums]
    top = max(heights, default=1)
    h = [top] + list(heights)
    ws = [len(s) + 2 for s in labels]
    out = ["".join("┌" + "─" * w + "┐ " if k == top else " " * (w + 3) for w, k in zip(ws, h))]
    for l in range(top - 1, -1, -1):
        out.append("".join(f"| {s} │⟶" if k > l else "⟶" * (w + 3) for s, w, k in zip(labels, ws, h)))
        line = ""
        for w, k in zip(ws, h):
            if k > l:
                line += ("├" if l else "└") + "─" * w + ("┤ " if l else "┘ ")
            elif k == l:
                line += "┌" + "─" * w + "┐ "
            else:
                line += " " * (w + 3)
        out.append(line)
    return "\n".join(out)


def skip_case(n):
    def fn(env):
        env.spelled()
        nums = NUMBERS[:n]
        for heights in itertools.product((1, 2, 3), repeat=n):
            if heights and set(range(1, max(heights) + 1)) - set(heights) and max(heights) > 1 and \
                    any(not any(h > l for h in heights) for l in range(max(heights))):
                continue
            st = env.st = St()
            sk, ll, nd = env.cls("SkipList"), env.cls("LinkedList"), env.cls("SkipNode")
            top = max(heights, default=1)
            below, lists = {}, []
            for l in range(top):
                nxt, here = NONE, {}
                vals = [("c", float("-inf"))] + [I(v) for v, h in zip(nums, heights) if h > l]
                keys = [None] + [v for v, h in zip(nums, heights) if h > l]
                for k, v in reversed(list(zip(keys, vals))):
                    nxt = here[k] = st.alloc(nd, {"_data": v, "_next": nxt, "_down": below.get(k, NONE)})
                below = here
                lists.append(st.alloc(ll, {"_head": nxt, "_length": I(len(vals))}))
            st.ghosts["self"] = st.alloc(sk, {"_level_lists": st.alloc("list", {"w": ("w", tuple(("E", p) for p in lists))}),
                                              "_num_levels": I(top)})
            want = cs(skip_drawing(nums, heights))
            twice(env, st, lambda x, w: drawing_is(x, want, w), f"the drawing of {list(zip(nums, heights))}")
    return fn


for n in range(4):
    add_case(PROP, f"SkipList: {n} numbers", skip_case(n), budget=300, weight=n * 10,
             scope=f"{n} numbers of different widths on up to 3 levels in every way")


# ---------------------------------------------------------------- nodes
def node_case(cname):
    def fn(env):
        env.spelled()
        twoway = cname in ("DoublyNode", "PriorityNode")
        for nums in itertools.permutations((7, -33, 4), 3):
            for links in ((), ("set_next",), ("set_prev",), ("set_next", "set_prev")):
                if links and (cname not in ("Node", "SkipNode") and not twoway) or "set_prev" in links and not twoway:
                    continue
                st = env.st = St()
                cur = [st]
                for g, v in zip("abd", nums):
                    nxt = []
                    for s in cur:
                        more = [I(90)] if cname in ("PriorityNode", "TreapNode") else []
                        for s2, q in env.construct(s, cname, [("c", str(v)) if cname == "TrieNode" else I(v)] + more):
                            s2.ghosts[g] = q
                            nxt.append(s2)
                    cur = nxt
                for m, g in zip(links, "bd"):
                    cur = [s2 for s in cur for s2, _ in env.run(s, "a", m, [s.ghosts[g]])]
                near = dict(zip(links, map(str, nums[1:])))
                want = [str(nums[0])]
                if cname == "DoublyNode":
                    want += [near.get("set_prev", "None"), near.get("set_next", "None")]
                elif cname in ("Node", "SkipNode"):
                    want.append(near.get("set_next", "None"))
                elif cname in ("PriorityNode", "TreapNode"):
                    want.append("90")

                def draw(x):
                    c = chars(x.returned())
                    if c is None:
                        if x.val[0] == "top":
                            raise Unsupported("unknown text")
                        raise Bad("the printed form of a node is not a text", x.st)
                    got = re.findall(r"-?\d+|None", shown(c))
                    if got != want or cname == "RedBlackNode" and not shown(c).startswith("Red"):
                        raise Bad(f"a node of {', '.join(want)} is printed as {shown(c)!r}", x.st)
                for s in cur:
                    judge(env, env.run(s, "a", "__repr__", []), draw)
    return fn


for cname in ("Node", "DoublyNode", "PriorityNode", "SkipNode", "TreeNode", "BinaryTreeNode", "BSTNode", "AVLNode", "RedBlackNode",
              "TreapNode", "TrieNode", "HeapNode"):
    add_case(PROP, f"{cname}: printed", node_case(cname), budget=60, scope="three numbers, with and without neighbours")
