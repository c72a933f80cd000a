"""Contracts of SuffixTrie: every word of a few characters, told apart by which of them are equal (and, where sorting
matters, by their order)."""
import itertools

from .lin import Lin
from .state import St, NONE, TRUE, FALSE, I, Unsupported, show
from .harness import Bad, judge, add_case
from .interp import Exc
from .texts import chars, text
from .c_tries import texts_are, seq_is, split_on, texts_of

PROP = "P25"


def patterns(n):
    """Restricted growth strings: which positions hold equal characters."""
    def go(pre, top):
        if len(pre) == n:
            yield tuple(pre)
            return
        for k in range(top + 2):
            yield from go(pre + [k], max(top, k))
    yield from go([], -1)


def new(env, pat, order=None):
    """Exits of constructing the suffix trie of that word; ghosts self, word."""
    env.spelled()
    st = env.st = St()
    k = max(pat, default=-1) + 1
    sym = [st.new_elem("chr") for _ in range(k)]
    for a, b in itertools.combinations(range(k), 2):
        st.add_fact("ne", sym[a], sym[b])
    if order:
        for a, b in zip(order, order[1:]):
            st.add_fact("lt", sym[a], sym[b])
    st.ghosts["word"] = text(tuple(sym[i] for i in pat))
    out = []
    for s, p in env.construct(st, "SuffixTrie", [st.ghosts["word"]]):
        if isinstance(p, Exc):
            judge(env, [(s, p)], lambda x: x.returned())
            continue
        s.ghosts["self"] = p
        s.ghosts["before"] = stored(s, p)
        out.append((s, p))
    return out


def stored(st, p):
    """All texts on the way from the root to a leaf, when the representation is the known one."""
    o = st.objs[p].a.get("_rt")
    try:
        r = st.objs[o].a["_root"]
        out = []

        def go(q, pre, depth):
            a = st.objs[q].a
            kids = st.objs[a["_children"]].a["kv"][1]
            if not kids:
                out.append(text(pre))
            for kv in kids:
                c = chars(st.objs[kv[1][1]].a["_data"])
                if depth > 50:
                    raise KeyError
                go(kv[1][1], pre + c, depth + 1)
        go(r, (), 0)
        return ("tup", tuple(out))
    except (KeyError, TypeError):
        return NONE


def kept(x, what):
    b = x.g("before")
    if b == NONE:
        return
    a = stored(x.st, x.g("self"))
    if a == NONE:
        raise Unsupported("representation changed")
    texts_are(x, [chars(t) for t in a[1]], [chars(t) for t in b[1]], f"the suffixes after {what}")


def ask(env, pat, m, args, post, order=None, gen=False):
    for s, _ in new(env, pat, order):
        a = args(s)
        ex = env.run(s, "self", m, a)
        if gen:
            ex = [y for s2, g in ex for y in (env.gen_list(s2, g) if not isinstance(g, Exc) else [(s2, g)])]
        judge(env, ex, post)


def places(x):
    """Split on where the pattern w occurs."""
    n, k = len(chars(x.g("word"))), len(chars(x.g("w")))
    return split_on(x, [(str(i), lambda s: s.ghosts["w"], (lambda s, i=i: text(chars(s.ghosts["word"])[i:i + k])))
                        for i in range(n - k + 1)])


def search_case(m, n):
    def fn(env):
        for pat in patterns(n):
            for k in range(0 if m == "has_substring" else 1, n + 2):
                def args(s):
                    s.ghosts["w"] = text(tuple(s.new_elem("chr") for _ in range(k)))
                    return [s.ghosts["w"]]

                def post(x):
                    v = x.returned()
                    for y, at in places(x):
                        if m == "has_substring":
                            y.bool_is(v, any(at), "has_substring")
                        else:
                            y.int_is(v, Lin(sum(at)), "the number of occurrences")
                    kept(x, m)
                ask(env, pat, m, args, post)
    return fn


def array_case(n):
    def fn(env):
        for pat in patterns(n):
            for order in itertools.permutations(range(max(pat, default=-1) + 1)):
                rank = {c: i for i, c in enumerate(order)}
                w = [rank[c] for c in pat]
                want = sorted(range(n + 1), key=lambda i: w[i:])

                def post(x):
                    v = x.pylist(x.returned(), "to_suffix_array")
                    if len(v) != n + 1 or any(i[0] != "E" for i in v):
                        raise Bad(f"the suffix array has {len(v)} entries instead of {n + 1}", x.st)
                    for k, (i, j) in enumerate(zip(v, want)):
                        x.int_is(i[1], Lin(j), f"entry {k} of the suffix array")
                    kept(x, "to_suffix_array")
                ask(env, pat, "to_suffix_array", lambda s: [], post, order)
    return fn


def repeated(pat):
    n = len(pat)
    for k in range(n - 1, 0, -1):
        seen = {}
        for i in range(n - k + 1):
            seen.setdefault(pat[i:i + k], []).append(i)
        r = [v[0] for v in seen.values() if len(v) > 1]
        if r:
            return k, r
    return 0, [0]


def repeated_case(m, n):
    def fn(env):
        for pat in patterns(n):
            k, at = repeated(pat)

            def post(x):
                v, w = x.returned(), chars(x.g("word"))
                got = texts_of(x, v, m)
                if k == 0 and not got:
                    return
                texts_are(x, got, [w[i:i + k] for i in at], "the longest repeated substrings")
                kept(x, m)
            ask(env, pat, m, lambda s: [], post)
    return fn


def ancestor_case(n):
    def fn(env):
        for pat in patterns(n):
            for s0, _ in new(env, pat):
                for i in range(n + 1):
                    for j in range(n + 1):
                        if i == j:
                            continue
                        k = 0
                        while max(i, j) + k < n and pat[i + k] == pat[j + k]:
                            k += 1

                        def post(x):
                            v = chars(x.returned())
                            if v is None:
                                raise Bad(f"the common ancestor is {show(x.val)}", x.st)
                            w = chars(x.g("word"))
                            texts_are(x, [v], [w[i:i + k]], f"the common ancestor of the suffixes {i} and {j}")
                            kept(x, "get_lowest_common_ancestor")
                        judge(env, env.run(s0.copy(), "self", "get_lowest_common_ancestor", [I(i), I(j)]), post)
    return fn


def measures(pat):
    """Numbers of nodes, leaves and the height of the compressed trie of all suffixes with a terminator."""
    n = len(pat)
    suf = [pat[i:] + ("$",) for i in range(n + 1)]

    def go(group, d):
        # group: suffixes that agree on the first d characters
        if len(group) == 1:
            return 1, 1, 0
        nodes, leaves, height = 1, 0, 0
        by = {}
        for s in group:
            by.setdefault(s[d], []).append(s)
        for g in by.values():
            e = d + 1
            while len(g) > 1 and len({s[e] for s in g}) == 1:
                e += 1
            a, b, h = go(g, e)
            nodes, leaves, height = nodes + a, leaves + b, max(height, h + 1)
        return nodes, leaves, height
    if n == 0:
        return 2, 1, 1
    return go(suf, 0)


def labels(pat):
    """The texts at the nodes of that trie, as (start, end) in the word; the terminator is one further."""
    n = len(pat)
    suf = [(i, pat[i:] + ("$",)) for i in range(n + 1)]
    out = []

    def go(group, d):
        if len(group) == 1 and d == len(group[0][1]):
            return
        by = {}
        for i, s in group:
            by.setdefault(s[d], []).append((i, s))
        for g in by.values():
            e = d + 1
            while e < min(len(s) for _, s in g) and len({s[e] for _, s in g}) == 1:
                e += 1
            if len(g) == 1:
                e = len(g[0][1])
            out.append((g[0][0] + d, g[0][0] + e))
            if len(g) > 1:
                go(g, e)
    go(suf, 0)
    return out


def iter_case(m, n):
    def fn(env):
        for pat in patterns(n):
            def post(x):
                w = chars(x.g("word")) + (("c", "$"),)
                texts_are(x, texts_of(x, x.returned(), m), [w[a:b] for a, b in labels(pat)], "the nodes' texts")
                kept(x, m)
            ask(env, pat, m, lambda s: [], post, gen=m == "__iter__")
    return fn


def query_case(m, n):
    def fn(env):
        for pat in patterns(n):
            nodes, leaves, height = measures(pat)

            def post(x):
                v = x.returned()
                x.int_is(v, Lin({"__len__": nodes, "count_leaf_nodes": leaves, "get_height": height}[m]), m)
                kept(x, m)
            ask(env, pat, m, lambda s: [], post)
    return fn


def rejected_new(kind):
    def fn(env):
        env.spelled()
        st = env.st = St()
        v = {"none": NONE, "number": I(5), "empty": ("c", ""), "bool": TRUE}[kind]
        judge(env, env.construct(st, "SuffixTrie", [v]),
              lambda x: x.raised("TypeError" if kind in ("number", "bool") else "ValueError"))
    return fn


def rejected(m, kind, args, exc):
    def fn(env):
        for n in (1, 2, 3):
            for pat in patterns(n):
                def post(x):
                    if exc is None:
                        v = x.returned()
                        x.bool_is(v, False, m) if m == "has_substring" else x.int_is(v, Lin(0), m)
                    else:
                        x.raised(exc)
                    kept(x, "a rejected call")
                ask(env, pat, m, lambda s: [a(n) if callable(a) else a for a in args], post)
    return fn


SPECIAL = (" ", "!", "#", "~", "a", "\u27f6")
PIECES = (" \u27f6 ", "a", "b", "1")


def spelled_words(n):
    if n:
        for w in itertools.product(SPECIAL, repeat=n):
            yield "".join(w)
    else:
        for k in (1, 2, 3, 4):
            for w in itertools.product(PIECES, repeat=k):
                if PIECES[0] in w:
                    yield "".join(w)


def spelled_case(m, n):
    """Words of characters that mean something to a careless implementation: below and above the terminator, separators."""
    def fn(env):
        for word in spelled_words(n):
            env.spelled()
            st = env.st = St()
            st.ghosts["word"] = ("c", word)
            for s, p in env.construct(st, "SuffixTrie", [st.ghosts["word"]]):
                if isinstance(p, Exc):
                    judge(env, [(s, p)], lambda x: x.returned())
                    continue
                s.ghosts["self"] = p
                s.ghosts["before"] = stored(s, p)

                def array(x):
                    v = x.pylist(x.returned(), m)
                    want = sorted(range(len(word) + 1), key=lambda i: word[i:])
                    if len(v) != len(want) or any(i[0] != "E" for i in v):
                        raise Bad(f"the suffix array of {word!r} has {len(v)} entries instead of {len(want)}", x.st)
                    for k, (i, j) in enumerate(zip(v, want)):
                        x.int_is(i[1], Lin(j), f"entry {k} of the suffix array of {word!r}")
                    kept(x, m)

                def nodes(x):
                    w = word + "$"
                    texts_are(x, texts_of(x, x.returned(), m), [chars(("c", w[a:b])) for a, b in labels(tuple(word))],
                              f"the texts at the nodes of {word!r}")
                    kept(x, m)

                def amount(x):
                    q = x.g("w")[1]
                    k = sum(word.startswith(q, i) for i in range(len(word)))
                    if m == "has_substring":
                        x.bool_is(x.returned(), k > 0, f"{q!r} in {word!r}")
                    else:
                        x.int_is(x.returned(), Lin(k), f"the number of {q!r} in {word!r}")

                if m == "to_suffix_array":
                    judge(env, env.run(s, "self", m, []), array)
                elif m in ("has_substring", "count_pattern_occurrences"):
                    asked = {word[i:j] for i in range(len(word)) for j in range(i + 1, len(word) + 1)}
                    asked |= set(SPECIAL) | {word + c for c in SPECIAL}
                    for q in sorted(asked):
                        s2 = s.copy()
                        s2.ghosts["w"] = ("c", q)
                        judge(env, env.run(s2, "self", m, [("c", q)]), amount)
                else:
                    ex = env.run(s, "self", m, [])
                    if m == "__iter__":
                        ex = [y for s2, g in ex for y in (env.gen_list(s2, g) if not isinstance(g, Exc) else [(s2, g)])]
                    judge(env, ex, nodes)
    return fn


for m in ("to_suffix_array", "to_list", "__iter__", "has_substring", "count_pattern_occurrences"):
    for n in (1, 2, 3, 0):
        if n == 0 and m not in ("to_list", "__iter__"):
            continue
        add_case(PROP, f"SuffixTrie.{m}, " + (f"{n} special characters" if n else "words with the separator"),
                 spelled_case(m, n), budget=300, weight=30,
                 scope=f"every word of {n} of the characters {' '.join(map(repr, SPECIAL))}" if n else
                 f"every word of up to 4 of {' '.join(map(repr, PIECES))} with the separator")

SC = "every word of {} characters, by which of them are equal"
for n in range(1, 8):
    kw = dict(budget=300, scope=SC.format(n), weight=n ** 3)
    if n < 7:
        for m in ("has_substring", "count_pattern_occurrences"):
            add_case(PROP, f"SuffixTrie.{m}, {n} characters", search_case(m, n), **kw)
        for m in ("__iter__", "to_list"):
            add_case(PROP, f"SuffixTrie.{m}, {n} characters", iter_case(m, n), **kw)
    if n < 6:
        add_case(PROP, f"SuffixTrie.to_suffix_array, {n} characters", array_case(n),
                 **dict(kw, scope=f"every word of {n} letters, in every order of its letters"))
        add_case(PROP, f"SuffixTrie.get_lowest_common_ancestor, {n} characters", ancestor_case(n), **kw)
    for m in ("get_longest_common_substring", "get_longest_repeated_substring"):
        add_case(PROP, f"SuffixTrie.{m}, {n} characters", repeated_case(m, n), **kw)
    for m in ("__len__", "count_leaf_nodes", "get_height"):
        add_case(PROP, f"SuffixTrie.{m}, {n} characters", query_case(m, n), **kw)
for k in ("none", "number", "empty", "bool"):
    add_case(PROP, f"SuffixTrie of {k}", rejected_new(k), budget=30)
for nm, args, exc in (("negative", (I(-1), I(0)), "ValueError"), ("too large", (I(0), lambda n: I(n + 1)), "ValueError"),
                      ("too large first", (lambda n: I(n + 1), I(0)), "ValueError"), ("a text", (("c", "1"), I(0)), "TypeError"),
                      ("none", (I(0), NONE), "TypeError")):
    add_case(PROP, f"SuffixTrie.get_lowest_common_ancestor with {nm}", rejected("get_lowest_common_ancestor", nm, args, exc),
             budget=60, scope="every word of up to 3 characters")
for m in ("has_substring", "count_pattern_occurrences"):
    for nm, v in (("none", NONE), ("number", I(3))):
        add_case(PROP, f"SuffixTrie.{m} with {nm}", rejected(m, nm, (v,), None), budget=60,
                 scope="every word of up to 3 characters")
