"""Nodes: what a node is told by its constructor and setters is what it answers, links that run both ways agree, and a
refused call changes nothing.  Every scenario makes new nodes, makes some calls and asks every node afterwards."""
import itertools

from .state import NONE, TRUE, FALSE, I, Unsupported
from .harness import Bad, Anchor, judge, add_case
from .interp import Exc
from .trees import RED, BLACK

PROP = "P29"
LIST = "a list"
NUMBER_NODES = ("SkipNode", "BSTNode", "AVLNode", "RedBlackNode", "TreapNode", "HeapNode")
TREE_NODES = ("BSTNode", "AVLNode", "RedBlackNode", "TreapNode")
ALL = ("Node", "DoublyNode", "PriorityNode", "TreeNode", "BinaryTreeNode", "TrieNode") + NUMBER_NODES
KIN = {"Node": {"Node", "DoublyNode", "PriorityNode", "SkipNode"}, "DoublyNode": {"DoublyNode", "PriorityNode"},
       "SkipNode": {"SkipNode"}, "TreeNode": set(ALL) - {"Node", "DoublyNode", "PriorityNode", "SkipNode"},
       "BinaryTreeNode": {"BinaryTreeNode", "BSTNode", "AVLNode", "RedBlackNode", "TreapNode", "HeapNode"},
       "BSTNode": set(TREE_NODES), "TrieNode": {"TrieNode"}}


def word(*vals):
    return (LIST,) + vals


class Scene:
    """steps: ("new", name, class, args) | (receiver, method, args) | (receiver, method, args, exceptions)
    facts: (receiver, getter, args, answer); "@x" is the node called x"""

    def __init__(self, steps, facts):
        self.steps, self.facts = steps, facts

    def arg(self, st, a):
        if isinstance(a, str) and a[0] == "@":
            return st.ghosts[a[1:]]
        if isinstance(a, tuple) and a and a[0] == LIST:
            return st.alloc("list", {"w": ("w", tuple(("E", self.arg(st, x)) for x in a[1:]))})
        return a

    def go(self, env, k, st, said):
        if k == len(self.steps):
            self.ask(env, st, 0, said)
            return
        step = self.steps[k]
        if step[0] == "new":
            text = f"{step[1]} = {step[2]}({self.told(step[3])})"
            res = env.construct(st, step[2], [self.arg(st, a) for a in step[3]])
            wrong = step[4] if len(step) > 4 else None
        elif step[1][0] == "$":
            text = f"{step[1][1:]}({self.told(step[2])})"
            res = self.static(env, st, step)
            wrong = step[3] if len(step) > 3 else None
        else:
            text = f"{step[0]}.{step[1]}({self.told(step[2])})"
            res = env.run(st, step[0], step[1], [self.arg(st, a) for a in step[2]])
            wrong = step[3] if len(step) > 3 else None
        said = said + [text]
        for s, v in res:
            if wrong:
                judge(env, [(s, v)], lambda x: self.refused(x, wrong, said))
                if not isinstance(v, Exc):
                    continue
            elif isinstance(v, Exc):
                def post(x):
                    raise Bad(f"{'; '.join(said)}: unexpected {v.name}", x.st)
                judge(env, [(s, v)], post)
                continue
            if step[0] == "new" and not wrong:
                s.ghosts[step[1]] = v
            self.go(env, k + 1, s, said)

    def static(self, env, st, step):
        e, _ = st.objs[st.ghosts[step[0]]].cls.lookup(step[1][1:])
        if e is None:
            raise Anchor(f"{step[1][1:]} vanished")
        st.temps, st.iters = [], ()
        return env.call_fn(st, e[1], [self.arg(st, a) for a in step[2]])

    def refused(self, x, names, said):
        if not isinstance(x.val, Exc):
            raise Bad(f"{'; '.join(said)} is not refused", x.st)
        x.raised(*names)

    def told(self, args):
        def one(a):
            if isinstance(a, str):
                return a[1:]
            if a[0] == LIST:
                return "[" + ", ".join(map(one, a[1:])) + "]"
            if a[0] == "i":
                return str(int(a[1].c))
            return "None" if a == NONE else repr(a[1]) if a[0] == "c" else a[-1] if a[0] == "enum" else "?"
        return ", ".join(one(a) for a in args)

    def ask(self, env, st, k, said):
        if k == len(self.facts):
            judge(env, [(st, TRUE)], lambda x: None)
            return
        r, m, args, want = self.facts[k]
        for s, v in env.run(st, r, m, [self.arg(st, a) for a in args]):
            what = f"after {'; '.join(said)}: {r}.{m}({self.told(args)})"
            judge(env, [(s.copy(), v)], lambda x: self.same(x, x.returned(), want, what))
            if not isinstance(v, Exc):
                self.ask(env, s, k + 1, said)

    def same(self, x, v, want, what):
        if isinstance(want, tuple) and want and want[0] == LIST:
            got = x.pylist(v, what)
            if any(i[0] != "E" for i in got):
                raise Unsupported(what)
            if len(got) != len(want) - 1:
                raise Bad(f"{what} has {len(got)} items instead of {len(want) - 1}", x.st)
            for g, w in zip(got, want[1:]):
                self.same(x, g[1], w, what)
            return
        want = self.arg(x.st, want)
        if v != want and {v[0], want[0]} & {"p", "none"} and v[0] != "top":
            raise Bad(f"{what} is another object than it should be", x.st)
        x.val_is(v, want, what)


def scenes(name, makes, weight=2, scope="every call listed, on new nodes"):
    def fn(env):
        env.spelled()
        base, open_ = env.st, None
        for steps, facts in makes():
            env.st = base.copy()
            try:
                Scene(steps, facts).go(env, 0, env.st, [])
            except Unsupported as e:        # the other scenes may still be refuted
                open_ = open_ or e
        if open_ is not None:
            raise open_
    add_case(PROP, name, fn, budget=200, weight=weight, scope=scope)


def data(c, k):
    """the k-th payload for a node of class c"""
    return ("c", "wxyz"[k]) if c == "TrieNode" else I((5, 3, 8, 1)[k]) if c in NUMBER_NODES else \
        (I(5), ("c", "some text"), I(0), ("c", ""))[k]


def new(name, c, k, *more):
    return ("new", name, c, (data(c, k),) + more)


GETTERS = {"Node": [("get_next", NONE)], "DoublyNode": [("get_next", NONE), ("get_prev", NONE)],
           "PriorityNode": [("get_next", NONE), ("get_prev", NONE)], "SkipNode": [("get_next", NONE), ("get_down", NONE)],
           "TreeNode": [("get_children", word()), ("is_leaf", TRUE)],
           "BinaryTreeNode": [("get_children", word()), ("is_leaf", TRUE), ("get_left", NONE), ("get_right", NONE), ("has_one_child", FALSE)],
           "TrieNode": [("get_children", word()), ("is_leaf", TRUE), ("get_parent", NONE)]}
GETTERS["HeapNode"] = GETTERS["BinaryTreeNode"]
for _c in TREE_NODES:
    GETTERS[_c] = GETTERS["BinaryTreeNode"] + [("get_parent", NONE)]


def fresh(c):
    def makes():
        for k in range(4):
            extra = [("get_height", I(0))] if c == "AVLNode" else [("get_color", RED)] if c == "RedBlackNode" else []
            yield [new("a", c, k)], [("a", "get_data", (), data(c, k))] + [("a", m, (), w) for m, w in GETTERS[c] + extra]
        if c == "RedBlackNode":
            for col in (RED, BLACK):
                yield [new("a", c, 0, col)], [("a", "get_color", (), col), ("a", "get_data", (), data(c, 0))]
            yield [("new", "a", c, (I(5), ("c", "red")), ("ValueError", "TypeError"))], []
        if c in ("PriorityNode", "TreapNode"):
            for p in (I(0), I(-4), I(7)):
                yield [new("a", c, 1, p)], [("a", "get_priority", (), p), ("a", "get_data", (), data(c, 1))]
            yield [("new", "a", c, (data(c, 0), ("c", "7")), ("TypeError",))], []
        yield [("new", "a", c, (NONE,), ("ValueError", "TypeError"))], []
        yield [new("b", c, 0), ("new", "a", c, ("@b",), ("TypeError",))], [("b", m, (), w) for m, w in GETTERS[c]]
        if c in NUMBER_NODES:
            for bad in (("c", "5"), word(), TRUE):
                yield [("new", "a", c, (bad,), ("TypeError",))], []
        if c == "TrieNode":
            yield [("new", "a", c, (I(5),), ("TypeError",))], []
    return makes


for _c in ALL:
    scenes(f"{_c}: new nodes", fresh(_c))


def wrong_args(c, kin, none):
    """arguments a link setter of class c refuses, with the steps that make them"""
    if none:
        yield [], NONE
    for bad in (I(5), ("c", "b"), word(), TRUE):
        yield [], bad
    for o in ALL:
        if o not in KIN[kin]:
            yield [new("o", o, 1)], "@o"


def links(c, kin, setter, getter, back, none, others):
    """c.setter(node of the kin) is answered by getter, and the node answers c to `back`"""
    def makes():
        kind = [o for o in ALL if o in KIN[kin]]
        for o in kind:
            facts = [("a", getter, (), "@b"), ("b", "get_data", (), data(o, 1)), ("a", "get_data", (), data(c, 0))]
            if back and back in [m for m, _ in GETTERS[o]]:
                facts.append(("b", back, (), "@a"))
            facts += [("a", m, (), NONE) for m in others]
            facts += [("b", m, (), w) for m, w in GETTERS[o] if m != back and m in (getter,) + tuple(others)]
            steps = [new("a", c, 0), new("b", o, 1), ("a", setter, ("@b",))]
            yield steps, facts
            # again, with another node
            yield [new("a", c, 0), new("d", o, 2), new("b", o, 1), ("a", setter, ("@d",)), ("a", setter, ("@b",))], facts
            # the other node belonged to someone else
            yield [new("a", c, 0), new("d", c, 2), new("b", o, 1), ("d", setter, ("@b",)), ("a", setter, ("@b",))], facts
            # a refused call in between changes nothing
            for make, bad in wrong_args(c, kin, not none):
                if o in (c, kin):
                    yield steps + make + [("a", setter, (bad,), ("TypeError",))], facts
        if none:
            yield [new("a", c, 0), new("b", c, 1), ("a", setter, ("@b",)), ("a", setter, (NONE,))], \
                [("a", getter, (), NONE), ("b", "get_data", (), data(c, 1)), ("a", "get_data", (), data(c, 0))]
    return makes


for _a in (("Node", "Node", "set_next", "get_next", None, True, ()),
           ("SkipNode", "Node", "set_next", "get_next", None, True, ("get_down",)),
           ("SkipNode", "SkipNode", "set_down", "get_down", None, False, ("get_next",)),
           ("DoublyNode", "DoublyNode", "set_next", "get_next", "get_prev", True, ("get_prev",)),
           ("DoublyNode", "DoublyNode", "set_prev", "get_prev", "get_next", True, ("get_next",)),
           ("PriorityNode", "DoublyNode", "set_next", "get_next", "get_prev", True, ("get_prev",)),
           ("PriorityNode", "DoublyNode", "set_prev", "get_prev", "get_next", True, ("get_next",)),
           ("BinaryTreeNode", "BinaryTreeNode", "set_left", "get_left", None, False, ("get_right",)),
           ("BinaryTreeNode", "BinaryTreeNode", "set_right", "get_right", None, False, ("get_left",)),
           ("HeapNode", "BinaryTreeNode", "set_left", "get_left", None, False, ("get_right",)),
           ("HeapNode", "BinaryTreeNode", "set_right", "get_right", None, False, ("get_left",))):
    scenes(f"{_a[0]}.{_a[2]}", links(*_a), weight=8)
for _c in TREE_NODES:
    # an AVL node measures its children
    for _s, _g, _o in (("set_left", "get_left", "get_right"), ("set_right", "get_right", "get_left")):
        def _tree(c=_c, s=_s, g=_g, o=_o):
            kin = "AVLNode" if c == "AVLNode" else "BSTNode"
            for steps, facts in links(c, "BSTNode", s, g, "get_parent", True, (o,))():
                made = {st[1]: st[2] for st in steps if st[0] == "new"}
                if kin == "AVLNode" and any(made.get(x, kin) != kin for x in ("b", "d")):
                    continue
                yield steps, facts
        scenes(f"{_c}.{_s}", _tree, weight=8)


def parents():
    for c in TREE_NODES:
        base = [new("a", c, 0), new("b", c, 1)]
        yield base + [("a", "set_parent", ("@b",))], [("a", "get_parent", (), "@b"), ("a", "get_data", (), data(c, 0))]
        yield base + [("a", "set_parent", ("@b",)), ("a", "set_parent", (NONE,))], [("a", "get_parent", (), NONE)]
        for make, bad in wrong_args(c, "BSTNode", False):
            yield base + [("a", "set_parent", ("@b",))] + make + [("a", "set_parent", (bad,), ("TypeError",))], [("a", "get_parent", (), "@b")]


scenes("set_parent of search tree nodes", parents, weight=8)


def relatives():
    # numbers in order: a < l < b < r < g < t < u
    val = dict(a=1, l=2, b=3, r=4, g=5, t=6, u=7)
    for c in TREE_NODES:
        def n(x):
            return ("new", x, c, (I(val[x]),))
        for kids in itertools.product((0, 1), repeat=3):
            steps = [n("g"), n("b")]
            facts = []
            have = {"l": kids[0], "r": kids[1], "u": kids[2]}
            steps += [n(x) for x in "lru" if have[x]]
            if have["l"]:
                steps.append(("b", "set_left", ("@l",)))
            if have["r"]:
                steps.append(("b", "set_right", ("@r",)))
            steps.append(("g", "set_left", ("@b",)))
            if have["u"]:
                steps.append(("g", "set_right", ("@u",)))

            def who(x):
                return "@" + x if have[x] else NONE
            for x, y in ("lr", "rl"):
                if have[x]:
                    facts += [(x, "get_parent", (), "@b"), (x, "get_grand_parent", (), "@g"), (x, "get_uncle", (), who("u")),
                              (x, "get_sibling", (), who(y)), (x, "is_left_child", (), TRUE if x == "l" else FALSE)]
            facts += [("b", "get_sibling", (), who("u")), ("b", "get_uncle", (), NONE), ("b", "get_grand_parent", (), NONE),
                      ("g", "get_sibling", (), NONE), ("g", "get_uncle", (), NONE), ("g", "get_grand_parent", (), NONE),
                      ("b", "has_one_child", (), TRUE if kids[0] + kids[1] == 1 else FALSE),
                      ("b", "is_leaf", (), FALSE if kids[0] + kids[1] else TRUE),
                      ("b", "get_children", (), word(*["@" + x for x in "lr" if have[x]]))]
            if have["u"]:
                facts += [("u", "get_sibling", (), "@b"), ("u", "is_left_child", (), FALSE)]
            yield steps, facts
            # the mirror image
            if have["u"]:
                steps2 = [n("u"), n("b"), n("g")] + [("new", x, c, (I(v),)) for x, v in (("t", 6),)] + \
                    [("b", "set_right", ("@u",)), ("u", "set_left", ("@t",))] + ([n("l"), ("b", "set_left", ("@l",))] if have["l"] else [])
                yield steps2, [("t", "get_uncle", (), who("l")), ("t", "get_grand_parent", (), "@b"), ("t", "get_sibling", (), NONE),
                               ("u", "get_sibling", (), who("l"))]


scenes("relatives of search tree nodes", relatives, weight=10)


def heights():
    c = "AVLNode"
    for lh, rh in itertools.product((None, 0, 1, 4), repeat=2):
        for first in "lr":
            steps, up = [new("a", c, 0)], [-1]
            order = "lr" if first == "l" else "rl"
            for x in order:
                h = lh if x == "l" else rh
                if h is not None:
                    steps += [new(x, c, 1 if x == "l" else 2), (x, "set_height", (I(h),)),
                              ("a", "set_left" if x == "l" else "set_right", ("@" + x,))]
                    up.append(h)
            a, b = (0 if h is None else 1 + h for h in (lh, rh))
            yield steps, [("a", "get_height", (), I(1 + max(up))), ("a", "get_left_height", (), I(a)), ("a", "get_right_height", (), I(b)),
                          ("a", "get_children_heights", (), word(I(a), I(b))), ("a", "is_balanced", (), TRUE if abs(a - b) <= 1 else FALSE)]
    steps = [new("a", c, 0), ("a", "set_height", (I(3),))]
    yield steps, [("a", "get_height", (), I(3))]
    yield steps + [("a", "set_height", (I(-1),), ("ValueError",))], [("a", "get_height", (), I(3))]
    for bad in (NONE, ("c", "2"), TRUE, word()):
        yield steps + [("a", "set_height", (bad,), ("TypeError",))], [("a", "get_height", (), I(3))]
    # a child that goes lowers its parent
    yield [new("a", c, 0), new("l", c, 1), ("a", "set_left", ("@l",)), ("a", "set_left", (NONE,))], [("a", "get_height", (), I(0))]


scenes("heights of AVL nodes", heights, weight=8)


def colours():
    c = "RedBlackNode"
    for col in (RED, BLACK):
        yield [new("a", c, 0), ("a", "set_color", (col,))], [("a", "get_color", (), col), ("a", "get_data", (), data(c, 0))]
        for bad in (("c", "red"), I(0), NONE, ("c", "")):
            yield [new("a", c, 0), ("a", "set_color", (col,)), ("a", "set_color", (bad,), ("ValueError", "TypeError"))], [("a", "get_color", (), col)]


scenes("colours of red-black nodes", colours)


def priorities():
    for c in ("PriorityNode", "TreapNode"):
        for p in (I(0), I(-4), I(7)):
            steps = [new("a", c, 0, I(2)), ("a", "set_priority", (p,))]
            yield steps, [("a", "get_priority", (), p), ("a", "get_data", (), data(c, 0))]
            for bad in (NONE, ("c", "7"), TRUE, word()):
                yield steps + [("a", "set_priority", (bad,), ("TypeError",))], [("a", "get_priority", (), p)]


scenes("priorities of nodes", priorities)


def payloads():
    for c in ("Node", "DoublyNode", "PriorityNode"):
        for k in range(4):
            steps = [new("a", c, 0), new("b", c, 1), ("a", "set_next", ("@b",)), ("a", "set_data", (data(c, k),))]
            facts = [("a", "get_data", (), data(c, k)), ("a", "get_next", (), "@b"), ("b", "get_data", (), data(c, 1))]
            yield steps, facts
            yield steps + [("a", "set_data", (NONE,), ("ValueError",))], facts
            for bad in ("@b", "@a"):
                yield steps + [("a", "set_data", (bad,), ("TypeError",))], facts
        yield [new("a", c, 0), ("a", "set_data", (("c", "two\nlines"),))], [("a", "get_data", (), ("c", "two\\nlines"))]
    for c in ("Node", "DoublyNode", "PriorityNode", "TreeNode", "BinaryTreeNode"):
        yield [("new", "a", c, (("c", "two\nlines\n"),))], [("a", "get_data", (), ("c", "two\\nlines\\n"))]


scenes("payloads of list nodes", payloads, weight=4)


def children():
    c = "TreeNode"
    base = [new("a", c, 0), new("b", c, 1), new("d", c, 2), new("e", "BinaryTreeNode", 3)]
    for kids in ((), ("@b",), ("@b", "@d"), ("@d", "@b"), ("@e", "@b", "@d")):
        yield base + [("a", "set_child", (k,)) for k in kids], \
            [("a", "get_children", (), word(*kids)), ("a", "is_leaf", (), FALSE if kids else TRUE), ("b", "get_children", (), word()), ("d", "is_leaf", (), TRUE)]
        for old in ((), ("@d",), ("@b", "@e")):
            before = base + [("a", "set_children", (word(*old),))]
            yield before + [("a", "set_children", (word(*kids),))], [("a", "get_children", (), word(*kids)), ("b", "get_children", (), word())]
            yield before + [("a", "set_children", (word(*kids),)), ("a", "set_child", ("@e",))], [("a", "get_children", (), word(*kids, "@e"))]
            for bad in (I(5), NONE, ("c", "b"), word()):
                for at in range(len(kids) + 1):
                    yield before + [("a", "set_children", (word(*kids[:at], bad, *kids[at:]),), ("TypeError",))], [("a", "get_children", (), word(*old))]
            for bad in (I(5), NONE, "@b"):
                yield before + [("a", "set_children", (bad,), ("TypeError",))], [("a", "get_children", (), word(*old))]
            for make, bad in wrong_args(c, "TreeNode", True):
                yield before + make + [("a", "set_child", (bad,), ("TypeError",))], [("a", "get_children", (), word(*old))]
    for c in ("BinaryTreeNode", "HeapNode") + TREE_NODES:
        yield [new("a", c, 0), new("b", c, 1), ("a", "set_left", ("@b",)), ("a", "set_children", (word(),), ("NotImplementedError",))], \
            [("a", "get_left", (), "@b")]


scenes("children of tree nodes", children, weight=10)


def trie_children():
    c = "TrieNode"
    base = [new("a", c, 0), new("b", c, 1), new("d", c, 2)]
    x, y = ("c", "x"), ("c", "y")
    one = base + [("a", "set_child", (x, "@b"))]
    yield one, [("a", "get_child", (x,), "@b"), ("a", "get_child", (y,), NONE), ("b", "get_parent", (), "@a"), ("a", "is_leaf", (), FALSE),
                ("a", "get_children", (), word("@b")), ("d", "is_leaf", (), TRUE), ("b", "is_leaf", (), TRUE)]
    two = one + [("a", "set_child", (y, "@d"))]
    facts = [("a", "get_child", (x,), "@b"), ("a", "get_child", (y,), "@d"), ("a", "get_children", (), word("@b", "@d")),
             ("b", "get_parent", (), "@a"), ("d", "get_parent", (), "@a")]
    yield two, facts
    yield one + [("a", "set_child", (x, "@d"))], [("a", "get_child", (x,), "@d"), ("d", "get_parent", (), "@a"), ("a", "get_children", (), word("@d"))]
    for bad in (I(1), NONE, "@b"):
        yield two + [("a", "set_child", (bad, "@d"), ("TypeError",))], facts
    for make, bad in wrong_args(c, "TrieNode", True):
        yield two + make + [("a", "set_child", (x, bad), ("TypeError",))], facts
        yield two + make + [("a", "set_child", (("c", "z"), bad), ("TypeError",))], facts + [("a", "get_child", (("c", "z"),), NONE)]


scenes("children of trie nodes", trie_children, weight=6)


def swaps():
    for c in ("TreeNode", "BinaryTreeNode", "HeapNode") + TREE_NODES:
        link = "set_child" if c == "TreeNode" else "set_left"
        steps = [new("a", c, 0), new("b", c, 1), new("d", c, 2), ("a", link, ("@d",))]
        facts = [("a", "get_children", (), word("@d")), ("b", "get_children", (), word()), ("d", "get_data", (), data(c, 2))]
        old = [("a", "get_data", (), data(c, 0)), ("b", "get_data", (), data(c, 1))]
        new_ = [("a", "get_data", (), data(c, 1)), ("b", "get_data", (), data(c, 0))]
        cols = [((RED, BLACK), (BLACK, RED)), ((BLACK, BLACK), (BLACK, BLACK))] if c == "RedBlackNode" else [((), ())]
        for was, now in cols:
            s2 = steps + [(x, "set_color", (k,)) for x, k in zip("ab", was)]
            yield s2 + [("a", "$swap", ("@a", "@b"))], facts + new_ + [(x, "get_color", (), k) for x, k in zip("ab", now)]
            yield s2 + [("a", "$swap", ("@a", "@a"))], facts + old + [(x, "get_color", (), k) for x, k in zip("ab", was)]
            for bad in (NONE, I(5)):
                for args in (("@a", bad), (bad, "@a")):
                    yield s2 + [("a", "$swap", args, ("TypeError",))], facts + old + [(x, "get_color", (), k) for x, k in zip("ab", was)]


scenes("swapping what nodes hold", swaps, weight=6)
