"""Unfolding, folding, abstraction and canonical renaming of abstract states."""
from .lin import Lin, Num, V
from .state import (St, Sub, Obj, Chunk, Spec, NONE, Unsupported, walk, int_slots, fresh, show, I)
from . import trees

# ------------------------------------------------------------------ unfold


def unify(st, a, b):
    """a is a symbol denoting no cell; make it equal to b.  False if contradictory."""
    if a == b:
        return True
    if a[0] != "p":
        if b[0] == "p":
            a, b = b, a
        else:
            return False
    if a in st.objs:
        if b[0] != "p" or b in st.objs:
            return False
        a, b = b, a
    st.subst(Sub({a: b}))
    return True


def seg_empty(st, c):
    """Assume the segment's word is empty (word already ()), remove the chunk."""
    f, a, b, l = c.f["first"], c.f["after"], c.f.get("before"), c.f.get("last")
    st.remove_chunk(c)
    dbl = c.spec.prv is not None
    sub = {}
    if f != a:
        if f[0] == "p":
            st.subst(Sub({f: a}))
            s = Sub({f: a})
            b, l = s.val(b) if b else b, s.val(l) if l else l
        else:
            return False
    if dbl and l != b:
        if l[0] == "p" and l not in st.objs:
            st.subst(Sub({l: b}))
        else:
            return False
    return True


def unfold(st, c, where):
    """Expose the cell at one end of chunk c.  Returns list of states."""
    if c.kind in ("tree", "ctx"):
        return trees.unfold(st, c, where)
    w = c.f["word"][1]
    if not w:
        return [st] if seg_empty(st, c) else []
    if where == "front":
        it = w[0]
        if it[0] != "E":
            return st.split_svar(it[1], "front" if it[0] != "R" else "back")
        first, rest = c.f["first"], w[1:]
        st.remove_chunk(c)
        a = c.spec.unpay(it[1])
        dbl = c.spec.prv is not None
        if dbl:
            a[c.spec.prv] = c.f["before"]
        if not rest:
            a[c.spec.nxt] = c.f["after"]
            st.objs[first] = Obj(c.spec.cls, a)
            if dbl and c.f["last"] != first:
                if not unify_last(st, c.f["last"], first):
                    return []
            return [st]
        q = st.new_ptr()
        a[c.spec.nxt] = q
        st.objs[first] = Obj(c.spec.cls, a)
        n = dict(first=q, after=c.f["after"], word=("w", rest))
        if dbl:
            n["before"] = first
            n["last"] = c.f["last"]
        st.chunks.append(Chunk("seg", c.spec, **n))
        return [st]
    # back of a doubly linked segment
    it = w[-1]
    if it[0] != "E":
        return st.split_svar(it[1], "back" if it[0] != "R" else "front")
    last, rest = c.f["last"], w[:-1]
    st.remove_chunk(c)
    a = c.spec.unpay(it[1])
    a[c.spec.nxt] = c.f["after"]
    if not rest:
        a[c.spec.prv] = c.f["before"]
        if c.f["first"] != last:
            st.subst(Sub({last: c.f["first"]}))
            s = Sub({last: c.f["first"]})
            a = {k: s.val(v) for k, v in a.items()}
            last = c.f["first"]
        st.objs[last] = Obj(c.spec.cls, a)
        return [st]
    q = st.new_ptr()
    a[c.spec.prv] = q
    st.objs[last] = Obj(c.spec.cls, a)
    st.chunks.append(Chunk("seg", c.spec, first=c.f["first"], before=c.f["before"], last=q, after=last,
                           word=("w", rest)))
    return [st]


def unify_last(st, last, first):
    if last in st.objs and last != first:
        return False
    st.subst(Sub({last: first}))
    return True


def materialise(st, slot):
    """Make the value in temps[slot] an explicit cell, None or a non-pointer."""
    out = []
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 60:
            raise Unsupported("materialisation diverges")
        v = s.temps[slot]
        if v[0] != "p" or v in s.objs:
            out.append(s)
            continue
        c, where = s.chunk_at(v)
        if c is None:
            out.append(s)
            continue
        work.extend(unfold(s, c, where))
    return out


def nonnull(st, p):
    """True / False / None(unknown) for a pointer symbol."""
    if p == NONE:
        return False
    if p[0] != "p":
        return True
    if p in st.objs:
        return True
    c, where = st.chunk_at(p)
    if c is None:
        return None
    if c.kind == "seg":
        if st.num.entails_ge(st.wlen(c.f["word"][1]) - 1):
            return True
        return None
    if c.kind == "tree":
        if st.num.entails_ge(st.wlen(c.f["word"][1]) - 1):
            return True
        return None
    return True          # both ends of a context are cells


# ------------------------------------------------------------------ abstraction
def node_spec(specs, o):
    if isinstance(o.cls, str):
        return None
    return specs.get(o.cls.name)


def gc(st):
    """Drop heap parts unreachable from roots."""
    seen = set()
    work = []

    def push(x):
        if x[0] == "p" and x not in seen:
            seen.add(x)
            work.append(x)
    for f in st.frames:
        for v in f.values():
            walk(v, push)
    for v in st.temps:
        walk(v, push)
    for v in st.ghosts.values():
        walk(v, push)
    used_chunks = set()
    byptr = {}
    for i, c in enumerate(st.chunks):
        for k in trees.anchor_fields(c):
            byptr.setdefault(c.f[k], []).append(i)
    while work:
        p = work.pop()
        o = st.objs.get(p)
        if o:
            for v in o.a.values():
                walk(v, push)
        for i in byptr.get(p, ()):
            if i not in used_chunks:
                used_chunks.add(i)
                for v in st.chunks[i].f.values():
                    walk(v, push)
    st.objs = {p: o for p, o in st.objs.items() if p in seen}
    st.chunks = [c for i, c in enumerate(st.chunks) if i in used_chunks]


def refcounts(st):
    """symbol -> list of (where, key); where: 'root' | ('obj',p,attr) | ('chunk',i,field)."""
    refs = {}

    def add(tag):
        def f(x):
            refs.setdefault(x, []).append(tag)
        return f
    for i, f in enumerate(st.frames):
        for k, v in f.items():
            walk(v, add("root"))
    for v in st.temps:
        walk(v, add("root"))
    for k, v in st.ghosts.items():
        walk(v, add(("ghost", k)))
    for p, o in st.objs.items():
        for k, v in o.a.items():
            walk(v, add(("obj", p, k)))
    for i, c in enumerate(st.chunks):
        for k, v in c.f.items():
            walk(v, add(("chunk", i, k)))
    return refs


def to_segs(st, specs):
    """Turn every explicit, well formed list node into a one-element segment."""
    for p, o in list(st.objs.items()):
        sp = node_spec(specs, o)
        if sp is None or sp.kind != "list":
            continue
        want = set(sp.fields) | {sp.nxt} | ({sp.prv} if sp.prv else set())
        if set(o.a) != want:
            continue
        nx = o.a[sp.nxt]
        if nx[0] not in ("p", "none"):
            continue
        pv = o.a.get(sp.prv) if sp.prv else None
        if sp.prv and pv[0] not in ("p", "none"):
            continue
        pay = sp.payload(o.a)
        if pay == NONE or not _good_payload(pay):
            continue
        del st.objs[p]
        f = dict(first=p, after=nx, word=("w", (("E", pay),)))
        if sp.prv:
            f["before"] = pv
            f["last"] = p
        st.chunks.append(Chunk("seg", sp, **f))


def _good_payload(p):
    if p[0] == "tup":
        return all(_good_payload(x) for x in p[1])
    return p[0] in ("e", "c", "i")


def merge_segs(st):
    changed = True
    while changed:
        changed = False
        refs = refcounts(st)
        segs = [(i, c) for i, c in enumerate(st.chunks) if c.kind == "seg"]
        first = {}
        for i, c in segs:
            first.setdefault(c.f["first"], []).append((i, c))
        for i, a in segs:
            nx = first.get(a.f["after"])
            if not nx or len(nx) != 1:
                continue
            j, b = nx[0]
            if i == j or a.spec is not b.spec:
                continue
            # possibly-empty pieces may alias: only merge when shapes compose
            bf = b.f["first"]
            if a.spec.prv is None:
                ok = all(t == ("chunk", i, "after") or t == ("chunk", j, "first") for t in refs[bf])
                # circular: b.after == a.first is fine, but a.after==a.first is not
                if ok and bf != a.f["first"]:
                    st.chunks = [c for k, c in enumerate(st.chunks) if k not in (i, j)]
                    st.chunks.append(Chunk("seg", a.spec, first=a.f["first"], after=b.f["after"],
                                           word=("w", a.f["word"][1] + b.f["word"][1])))
                    changed = True
                    break
            else:
                al, bl = a.f["last"], b.f["last"]
                if b.f["before"] != al or bf == a.f["first"]:
                    continue
                okf = True
                for t in refs[bf]:
                    if t in (("chunk", i, "after"), ("chunk", j, "first")):
                        continue
                    if bl == bf and t == ("chunk", j, "last"):
                        continue
                    if bl == bf and t[0] == "chunk" and t[2] == "before":
                        continue
                    # last may be referenced from outside (it stays named)
                    if bl == bf:
                        okf = okf and True
                        # any outside reference to the single node: it remains nameable as `last`
                        continue
                    okf = False
                if bl == bf:
                    # node b is a single cell; keep it separate if pinned from outside
                    out = [t for t in refs[bf] if not (t[0] == "chunk")]
                    if out:
                        okf = False
                okl = True
                if al != a.f["first"]:
                    for t in refs[al]:
                        if t in (("chunk", i, "last"), ("chunk", j, "before")):
                            continue
                        okl = False
                if okf and okl:
                    st.chunks = [c for k, c in enumerate(st.chunks) if k not in (i, j)]
                    st.chunks.append(Chunk("seg", a.spec, first=a.f["first"], before=a.f["before"],
                                           last=bl, after=b.f["after"],
                                           word=("w", a.f["word"][1] + b.f["word"][1])))
                    changed = True
                    break


def all_words(st):
    ws = []

    def col(v):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == "w":
            ws.append(v[1])
            for it in v[1]:
                if it[0] == "E":
                    col(it[1])
            return
        for x in v:
            if isinstance(x, tuple):
                col(x)
    for f in st.frames:
        for v in f.values():
            col(v)
    for v in st.temps:
        col(v)
    for v in st.ghosts.values():
        col(v)
    for o in st.objs.values():
        for v in o.a.values():
            col(v)
    for c in st.chunks:
        for v in c.f.values():
            col(v)
    return ws


def drop_empty_svars(st):
    done = True
    sids = set()
    for w in all_words(st):
        for it in w:
            if it[0] != "E":
                sids.add(it[1])
    for s in sorted(sids):
        if st.num.entails_eq(V(f"len:{s}")):
            st.num.add_eq(V(f"len:{s}"))
            for m in st.meas:
                st.num.add_eq(V(f"cnt:{s}:{m[1]}"))
            st.subst_svar(s, ())
    # remove segments with an empty word
    again = True
    while again:
        again = False
        for c in st.chunks:
            if c.kind in ("seg", "tree") and not c.f["word"][1]:
                if c.kind == "seg":
                    if not seg_empty(st, c):
                        return False
                else:
                    if not trees.tree_empty(st, c):
                        return False
                again = True
                break
            if c.kind == "ctx" and trees.ctx_is_empty(st, c):
                if not trees.ctx_empty(st, c):
                    return False
                again = True
                break
    return done


def elem_refs_outside_words(st):
    """Elements (and svars) mentioned anywhere but inside words."""
    s = set()

    def col(v):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == "w":
            return
        if v[0] == "e":
            s.add(v)
            return
        for x in v:
            if isinstance(x, tuple):
                col(x)
    for f in st.frames:
        for v in f.values():
            col(v)
    for v in st.temps:
        col(v)
    for v in st.ghosts.values():
        col(v)
    for o in st.objs.values():
        for v in o.a.values():
            col(v)
    for c in st.chunks:
        for k, v in c.f.items():
            col(v)
    return s


def pay_elems(p):
    if p[0] == "e":
        return [p]
    if p[0] == "tup":
        r = []
        for x in p[1]:
            r += pay_elems(x)
        return r
    return []


def pay_kind(st, p):
    if p[0] == "e":
        return st.kinds.get(p[1])
    if p[0] == "tup":
        return tuple(pay_kind(st, x) for x in p[1])
    return None


def lift_runs(st):
    """Name the runs of a measured element (a run is determined by its length)."""
    for m in st.meas:
        words = all_words(st)
        if any(it[0] == "F" and it[2] == m for w in words for it in w):
            continue
        runs = set()
        e = ("E", m)
        for w in words:
            n = 0
            for it in w + (None,):
                if it == e:
                    n += 1
                else:
                    if n:
                        runs.add(n)
                    n = 0
        if not runs or max(runs) < 2:
            continue
        var = {}
        for n in runs:
            z = st.new_svar(st.kinds.get(m[1]))
            st.num.add_eq(V(f"len:{z[1]}") - n)
            st.num.add_eq(V(f"cnt:{z[1]}:{m[1]}") - n)
            for o in st.meas:
                if o != m:
                    st.num.add_eq(V(f"cnt:{z[1]}:{o[1]}"))
            var[n] = z

        def fn(w):
            out, n = [], 0
            for it in w + (None,):
                if it == e:
                    n += 1
                    continue
                if n:
                    out.append(var[n])
                n = 0
                if it is not None:
                    out.append(it)
            return tuple(out)
        _map_words(st, fn)


def merge_words(st):
    """Generalise adjacent word items that co-occur everywhere."""
    lift_runs(st)
    changed = True
    while changed:
        changed = False
        words = [w for w in all_words(st)]
        pinned = elem_refs_outside_words(st)
        meas = set(st.meas)
        # occurrence tables
        cand = []
        seenp = set()
        for w in words:
            for i in range(len(w) - 1):
                x, y = w[i], w[i + 1]
                if x[0] in ("S", "E") and y[0] in ("S", "E") and (x, y) not in seenp:
                    seenp.add((x, y))
                    cand.append((x, y))
        for x, y in cand:
            if x == y or st.sorted and apart(st, x, y):
                continue
            if can_merge(st, words, x, y, pinned, meas) or unit_merge(st, words, x, y, pinned, meas):
                do_merge(st, x, y)
                changed = True
                break
    # lone unpinned elements
    words = [w for w in all_words(st)]
    pinned = elem_refs_outside_words(st)
    lone = {}
    for w in words:
        for it in w:
            if it[0] == "E":
                es = pay_elems(it[1])
                if es and not any(e in pinned or e in st.meas for e in es) and it[1][0] in ("e", "tup"):
                    if it[1][0] == "tup" and not all(x[0] == "e" for x in it[1][1]):
                        continue
                    lone[it] = True
    for it in lone:
        es = pay_elems(it[1])
        # the elements must not occur in other payloads
        clash = False
        for w in words:
            for j in w:
                if j[0] == "E" and j != it and any(e in pay_elems(j[1]) for e in es):
                    clash = True
        if not clash:
            do_lone(st, it)


def apart(st, x, y):
    """A remembered element is known to lie between x and y."""
    a, b = [("S", it[1]) if it[0] != "E" else (it[1] if it[1][0] != "tup" else it[1][1][0]) for it in (x, y)]
    for v in st.ghosts.values():
        if v[0] == "e" and v != a and v != b and st.lt(a, v) != st.lt(b, v):
            return True
    return False


def unit_merge(st, words, x, y, pinned, meas):
    """Merge x . y where some words hold y . x and one of the two is a
    single-element variable (equal to its own reverse)."""
    if x[0] != "S" or y[0] != "S" or st.skinds.get(x[1]) != st.skinds.get(y[1]):
        return False
    ux = st.num.entails_eq(V(f"len:{x[1]}") - 1)
    uy = st.num.entails_eq(V(f"len:{y[1]}") - 1)
    if not (ux or uy):
        return False
    rx = (x, _rev(x)) if ux else (_rev(x),)
    ry = (y, _rev(y)) if uy else (_rev(y),)
    for w in words:
        i, n = 0, len(w)
        while i < n:
            it = w[i]
            if it[0] == "F" and it[1] in (x[1], y[1]):
                return False
            if it[0] != "E" and it[1] in (x[1], y[1]):
                nx = w[i + 1] if i + 1 < n else None
                fwd = (it == x or ux and it == _rev(x)) and (nx == y or uy and nx == _rev(y))
                bwd = it in ry and nx in rx
                if not (fwd or bwd):
                    return False
                i += 2
                continue
            i += 1

    def fn(w):
        out = []
        i, n = 0, len(w)
        while i < n:
            it = w[i]
            if it[0] != "E" and it[1] in (x[1], y[1]):
                out += [x, y] if it[1] == x[1] else [_rev(y), _rev(x)]
                i += 2
                continue
            out.append(it)
            i += 1
        return tuple(out)
    _map_words(st, fn)
    return True


def occ_ok(words, x, y, meas):
    """Check every occurrence of x is followed by y (respecting rev/filter)."""
    yv = y[1] if y[0] == "E" else None
    for w in words:
        n = len(w)
        for i, it in enumerate(w):
            # x occurrences
            if it == x:
                if not (i + 1 < n and w[i + 1] == y):
                    if x[0] == "E" and it[0] == "E" and i > 0 and w[i - 1] == _rev(y):
                        pass
                    else:
                        return False
            elif x[0] == "S" and it[0] == "R" and it[1] == x[1]:
                if not (i > 0 and w[i - 1] == _rev(y)):
                    return False
            elif x[0] == "S" and it[0] == "F" and it[1] == x[1]:
                v = it[2]
                if y[0] == "S":
                    if not (i + 1 < n and w[i + 1] == ("F", y[1], v)):
                        return False
                else:
                    if y[1] == v:
                        pass
                    elif not (i + 1 < n and w[i + 1] == y):
                        return False
            # y occurrences
            if y[0] == "S":
                if it == y and not (i > 0 and w[i - 1] == x):
                    return False
                if it[0] == "R" and it[1] == y[1] and not (i + 1 < n and w[i + 1] == _rev(x)):
                    return False
                if it[0] == "F" and it[1] == y[1]:
                    v = it[2]
                    if x[0] == "S":
                        if not (i > 0 and w[i - 1] == ("F", x[1], v)):
                            return False
                    elif x[1] == v:
                        pass
                    elif not (i > 0 and w[i - 1] == x):
                        return False
            else:
                if it == y and not (y[1] in meas):
                    ok = (i > 0 and w[i - 1] == x)
                    if not ok and x[0] == "S":
                        ok = (i > 0 and w[i - 1][0] == "F" and w[i - 1][1] == x[1]) or \
                             (i + 1 < n and w[i + 1] == ("R", x[1]))
                    if not ok and x[0] == "E":
                        ok = i + 1 < n and w[i + 1] == x
                    if not ok:
                        return False
    return True


def _rev(it):
    if it[0] == "S":
        return ("R", it[1])
    return it


def can_merge(st, words, x, y, pinned, meas):
    kinds = []
    for it in (x, y):
        if it[0] == "E":
            p = it[1]
            if p[0] not in ("e", "tup"):
                return False
            es = pay_elems(p)
            if p[0] == "tup" and not all(q[0] == "e" for q in p[1]):
                return False
            for e in es:
                if e in pinned and e not in meas:
                    return False
            if p in meas:
                other = y if it is x else x
                if other[0] != "S":
                    return False
            kinds.append(pay_kind(st, p))
        else:
            kinds.append(st.skinds.get(it[1]))
    if kinds[0] != kinds[1]:
        return False
    if x[0] == "E" and x[1] in meas:
        # v . S : only when nothing depends on it (handled through S . v merging)
        if not occ_ok_first(words, x, y, meas):
            return False
        return True
    return occ_ok(words, x, y, meas)


def occ_ok_first(words, x, y, meas):
    """x is the measured element, y an svar: every occurrence of y must be preceded
    by x (raw), or be filtered."""
    for w in words:
        for i, it in enumerate(w):
            if it == y and not (i > 0 and w[i - 1] == x):
                return False
            if it[0] == "R" and it[1] == y[1]:
                return False
            if it[0] == "F" and it[1] == y[1] and it[2] != x[1]:
                return False
    return True


def do_merge(st, x, y):
    kind = st.skinds[x[1]] if x[0] == "S" else (st.skinds[y[1]] if y[0] == "S" else pay_kind(st, x[1]))
    z = st.new_svar(kind)
    lz = V(f"len:{z[1]}")
    tot = Lin(0)
    for it in (x, y):
        tot = tot + (1 if it[0] == "E" else V(f"len:{it[1]}"))
    for m in st.meas:
        ct = Lin(0)
        bad = False
        for it in (x, y):
            if it[0] == "S":
                ct = ct + V(f"cnt:{it[1]}:{m[1]}")
            elif it[1] == m:
                ct = ct + 1
            elif not st.known_ne(it[1], m):
                bad = True
        if not bad:
            st.num.add_eq(V(f"cnt:{z[1]}:{m[1]}") - ct)
        else:
            st.inexact("occurrence count of a merged sequence")
    st.num.add_eq(lz - tot)
    lift_facts(st, z, [x, y])
    _replace_pair(st, x, y, z)


def lift_facts(st, z, parts):
    """Order facts of a merged item: entailed for every part."""
    if not st.facts and not st.sorted:
        return
    ps = [("S", it[1]) if it[0] == "S" else (it[1] if it[1][0] != "tup" else it[1][1][0]) for it in parts]
    others = set()
    for f in st.facts:
        others.add(f[1])
        others.add(f[2])
    for name in st.sorted:
        g = st.ghosts.get(name)
        if g:
            for it in g[1]:
                others.add(("S", it[1]) if it[0] != "E" else (it[1] if it[1][0] != "tup" else it[1][1][0]))
    new = set()
    implied = set()
    for name in st.sorted:
        g = st.ghosts.get(name)
        if g:
            at = {("S", it[1]) if it[0] != "E" else (it[1] if it[1][0] != "tup" else it[1][1][0]) for it in g[1]}
            if all(p in at for p in ps):
                implied |= at       # the order of this word says it all
    for u in others:
        if u in ps or u in implied:
            continue
        for op in ("lt", "le"):
            fn = st.lt if op == "lt" else st.le
            if all(fn(p, u) for p in ps):
                new.add((op, z, u))
                break
        for op in ("lt", "le"):
            fn = st.lt if op == "lt" else st.le
            if all(fn(u, p) for p in ps):
                new.add((op, u, z))
                break
    st.facts = st.facts | new
    # an order fact about a part that the merged item does not carry is lost
    insorted = any(("S", z[1]) in g[1] or any(it in g[1] for it in parts)
                   for n in st.sorted for g in [st.ghosts.get(n)] if g)
    for f in st.facts:
        for i in (1, 2):
            if f[i] not in ps:
                continue
            u = f[3 - i]
            if f[0] == "ne":
                if u in st.meas or u[0] == "c":
                    continue
                st.inexact("order facts of merged elements")
                continue
            if u in ps:
                if not insorted:
                    st.inexact("order facts of merged elements")
                continue
            if any(g[i] == ("S", z[1]) and g[3 - i] == u and (g[0] == f[0] or g[0] == "lt") for g in new):
                continue
            if u[0] == "e" and u not in live_elems(st):
                continue
            st.inexact("order facts of merged elements")


def live_elems(st):
    r = getattr(st, "_live", None)
    out = set()
    for w in all_words(st):
        for it in w:
            if it[0] == "E":
                out.update(pay_elems(it[1]))
    out |= elem_refs_outside_words(st)
    return out


def _map_words(st, fn):
    def mv(v):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "w":
            return ("w", fn(v[1]))
        if v[0] in ("none", "c", "i", "e", "p"):
            return v
        r = tuple(mv(x) if isinstance(x, tuple) else x for x in v)
        return r
    for f in st.frames:
        for k in f:
            f[k] = mv(f[k])
    st.temps = [mv(v) for v in st.temps]
    for k in st.ghosts:
        st.ghosts[k] = mv(st.ghosts[k])
    for o in st.objs.values():
        for k in o.a:
            o.a[k] = mv(o.a[k])
    st.chunks = [Chunk(c.kind, c.spec, **{k: mv(v) for k, v in c.f.items()}) for c in st.chunks]


def _replace_pair(st, x, y, z):
    def fn(w):
        out = []
        i = 0
        n = len(w)
        while i < n:
            it = w[i]
            nx = w[i + 1] if i + 1 < n else None
            if it == x and nx == y:
                out.append(z)
                i += 2
                continue
            if nx is not None and it == _rev(y) and nx == _rev(x) and (x[0] == "S" or y[0] == "S") \
                    and (it[0] == "R" or nx[0] == "R"):
                out.append(("R", z[1]))
                i += 2
                continue
            if nx is not None and x[0] == "E" and y[0] == "E" and it == y and nx == x:
                out.append(("R", z[1]))
                i += 2
                continue
            if x[0] == "S" and it[0] == "F" and it[1] == x[1]:
                out.append(("F", z[1], it[2]))
                i += 1
                if y[0] == "S" or y[1] != it[2]:
                    i += 1
                continue
            if x[0] == "E" and y[0] == "S" and it == x and nx is not None and nx[0] == "F" and nx[1] == y[1]:
                out.append(("F", z[1], nx[2]))
                i += 2
                continue
            if x[0] == "E" and y[0] == "S" and it[0] == "F" and it[1] == y[1] and x[1] == it[2]:
                out.append(("F", z[1], it[2]))
                i += 1
                continue
            out.append(it)
            i += 1
        return tuple(out)
    _map_words(st, fn)


def do_lone(st, it):
    kind = pay_kind(st, it[1])
    z = st.new_svar(kind)
    st.num.add_eq(V(f"len:{z[1]}") - 1)
    for m in st.meas:
        if st.known_ne(it[1], m):
            st.num.add_eq(V(f"cnt:{z[1]}:{m[1]}"))
        elif pay_kind(st, it[1]) == st.kinds.get(m[1]):
            st.inexact("occurrence count of a merged sequence")
    lift_facts(st, z, [it])

    def fn(w):
        return tuple(z if j == it else j for j in w)
    _map_words(st, fn)


# ------------------------------------------------------------------ canonical form
class Key:
    pass


def canonicalise(st):
    """Rename symbols canonically.  Returns (key, state over canonical names)."""
    pm, em, sm = {}, {}, {}
    km = {}           # canonical int var -> Lin
    order = []

    def tok(v):
        if not isinstance(v, tuple):
            if isinstance(v, (str, int, float, bool)) or v is None:
                return v
            return repr(v)
        if not v:
            return v
        t = v[0]
        if t == "p":
            if v not in pm:
                pm[v] = ("p", len(pm) + 1)
                order.append(v)
            return pm[v]
        if t == "e":
            if v not in em:
                em[v] = ("e", len(em) + 1)
            return ("e", em[v][1], st.kinds.get(v[1]))
        if t == "c":
            return ("c", type(v[1]).__name__, repr(v[1]))
        if t == "i":
            return ("i",)
        if t == "w":
            r = []
            for it in v[1]:
                if it[0] == "E":
                    r.append(("E", tok(it[1])))
                else:
                    if it[1] not in sm:
                        sm[it[1]] = len(sm) + 1
                    x = (it[0], sm[it[1]], st.skinds.get(it[1]))
                    if it[0] == "F":
                        x = x + (tok(it[2]),)
                    r.append(x)
            return ("w", tuple(r))
        return tuple(tok(x) for x in v)

    parts = []
    for i, f in enumerate(st.frames):
        for k in sorted(f):
            parts.append((i, k, tok(f[k])))
    for v in st.temps:
        parts.append(("t", tok(v)))
    for k in sorted(st.ghosts):
        parts.append(("g", k, tok(st.ghosts[k])))
    anch = {}
    for i, c in enumerate(st.chunks):
        for k in trees.anchor_fields(c):
            anch.setdefault(c.f[k], []).append((k, i))
    done = set()
    corder = []
    qi = 0
    while qi < len(order):
        p = order[qi]
        qi += 1
        o = st.objs.get(p)
        if o is not None:
            cn = o.cls if isinstance(o.cls, str) else o.cls.name
            parts.append(("o", pm[p], cn, tuple((k, tok(o.a[k])) for k in sorted(o.a))))
        for k, i in sorted(anch.get(p, ()), key=lambda t: (t[0], st.chunks[t[1]].kind, len(st.chunks[t[1]].f["word"][1]) if "word" in st.chunks[t[1]].f else 0)):
            if i in done:
                continue
            done.add(i)
            corder.append(i)
            c = st.chunks[i]
            parts.append(("k", c.kind, repr(c.spec), tuple((k2, tok(c.f[k2])) for k2 in sorted(c.f))))
    for i, c in enumerate(st.chunks):
        if i not in done:
            # unreachable chunk (should have been collected)
            corder.append(i)
            parts.append(("k", c.kind, repr(c.spec), tuple((k2, tok(c.f[k2])) for k2 in sorted(c.f))))

    # facts among named items
    def named(x):
        if x[0] == "e":
            return x in em
        if x[0] == "S":
            return x[1] in sm
        return x[0] == "c"
    facts = set()
    items = set()
    lost = False
    for f in st.facts:
        if named(f[1]) and named(f[2]):
            facts.add(f)
        else:
            lost = True
        items.add(f[1])
        items.add(f[2])
    if lost:
        ni = [x for x in items if named(x)]
        for a in ni:
            for b in ni:
                if a != b and ("lt", a, b) not in facts:
                    if st.lt(a, b):
                        facts.add(("lt", a, b))
                    elif st.le(a, b):
                        facts.add(("le", a, b))
    if any(c.kind != "seg" for c in st.chunks) and st.sorted:
        facts = close_facts(st, facts)
    else:
        # drop facts implied by the others through sortedness alone
        facts = reduce_facts(st, facts)

    def cn(x):
        if x[0] == "e":
            return em[x]
        if x[0] == "S":
            return ("S", sm[x[1]])
        return x
    cf = frozenset((f[0], cn(f[1]), cn(f[2])) for f in facts)

    # numeric store over canonical names
    num = st.num.copy()
    ren = {}
    keep = set()
    for s, i in sm.items():
        ren[f"len:{s}"] = f"len:{i}"
        keep.add(f"len:{s}")
        for m in st.meas:
            if m in em:
                ren[f"cnt:{s}:{m[1]}"] = f"cnt:{i}:{em[m][1]}"
                keep.add(f"cnt:{s}:{m[1]}")
    cnt = [0]

    def ints(v):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "i":
            cnt[0] += 1
            k = f"k{cnt[0]}"
            num.add_eq(V("$" + k) - v[1])
            keep.add("$" + k)
            ren["$" + k] = k
            return ("i", V(k))
        if v[0] == "w":
            return ("w", tuple((("E", ints(it[1])) if it[0] == "E" else it) for it in v[1]))
        if v[0] in ("none", "c", "e", "p"):
            return v
        return tuple(ints(x) if isinstance(x, tuple) else x for x in v)

    n = St()
    sub = Sub({**pm, **em}, {s: (("S", i),) for s, i in sm.items()})
    n.frames = [{k: sub.val(ints(f[k])) for k in sorted(f)} for f in st.frames]
    n.temps = [sub.val(ints(v)) for v in st.temps]
    n.ghosts = {k: sub.val(ints(st.ghosts[k])) for k in sorted(st.ghosts)}
    for p in order:
        o = st.objs.get(p)
        if o is not None:
            n.objs[pm[p]] = Obj(o.cls, {k: sub.val(ints(o.a[k])) for k in sorted(o.a)})
    for i in corder:
        c = st.chunks[i]
        n.chunks.append(Chunk(c.kind, c.spec, **{k: sub.val(ints(c.f[k])) for k in sorted(c.f)}))
    iters = []
    for v in st.iters:
        cnt[0] += 1
        k = f"k{cnt[0]}"
        num.add_eq(V("$" + k) - v)
        keep.add("$" + k)
        ren["$" + k] = k
        iters.append(V(k))
    n.iters = tuple(iters)
    pr, exact = num.project(keep)
    n.num = pr.rename(ren)
    n.kinds = {em[e][1]: st.kinds.get(e[1]) for e in em}
    n.skinds = {i: st.skinds.get(s) for s, i in sm.items()}
    n.facts = cf
    n.meas = tuple(em[m] for m in st.meas if m in em)
    n.sorted = st.sorted
    n.events = st.events
    n.exact = st.exact
    n.loss = st.loss
    n.trace = st.trace
    if not exact:
        n.inexact("integer projection")
    key = (tuple(parts), tuple(sorted(cf, key=str)), n.meas, n.events, n.sorted, len(n.iters))
    return key, n


def close_facts(st, facts):
    """Everything known about remembered elements against the items of sorted words, spelled out: what follows only
    as long as some variable between them is not empty would be lost when states are joined."""
    out = set(facts)
    for name in st.sorted:
        g = st.ghosts.get(name)
        if g is None:
            continue
        at = [("S", it[1]) if it[0] != "E" else (it[1] if it[1][0] != "tup" else it[1][1][0]) for it in g[1]]
        ins = set(at)
        out = {f for f in out if f[0] == "ne" or f[1] not in ins or f[2] not in ins}
        vs = {v for v in st.ghosts.values() if v[0] == "e" and v not in ins}
        for v in vs:
            for a in at:
                for x, y in ((a, v), (v, a)):
                    if ("lt", x, y) not in out and st.lt(x, y):
                        out.add(("lt", x, y))
    return {f for f in out if f[0] != "le" or ("lt", f[1], f[2]) not in out}


def reduce_facts(st, facts):
    if not facts:
        return facts
    out = set(facts)
    old = st.facts
    for f in sorted(facts, key=str):
        if f[0] not in ("lt", "le"):
            continue
        st.facts = frozenset(out - {f})
        if (f[0] == "lt" and st.lt(f[1], f[2])) or (f[0] == "le" and st.le(f[1], f[2])):
            out.discard(f)
    st.facts = old
    return out
