"""Linear integer arithmetic domain: affine equalities in solved form plus
inequalities, with Fourier-Motzkin entailment, projection, join and widening.
Everything here is plain constraint propagation; there is no external solver.
"""
from math import gcd


class Lin:
    """Immutable linear expression  c + sum(k_i * v_i)."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t            # sorted tuple of (var, coeff!=0)
        self._h = hash((c, t))

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __hash__(self):
        return self._h

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for v, k in o.t:
            n = d.get(v, 0) + k
            if n:
                d[v] = n
            else:
                d.pop(v, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((v, -k) for v, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((v, x * k) for v, x in self.t))

    def is_const(self):
        return not self.t

    def coeff(self, v):
        for w, k in self.t:
            if w == v:
                return k
        return 0

    def vars(self):
        return [v for v, _ in self.t]

    def drop(self, v):
        return Lin(self.c, tuple(p for p in self.t if p[0] != v))

    def subst(self, v, e):
        k = self.coeff(v)
        if not k:
            return self
        return self.drop(v) + e.scale(k)

    def subst_all(self, m):
        r = self
        if not any(v in m for v, _ in self.t):
            return self
        r = Lin(self.c)
        for v, k in self.t:
            e = m.get(v)
            r = r + (e.scale(k) if e is not None else Lin(0, ((v, k),)))
        return r

    def rename(self, m):
        d = {}
        for v, k in self.t:
            w = m.get(v, v)
            d[w] = d.get(w, 0) + k
        return Lin(self.c, tuple(sorted((v, k) for v, k in d.items() if k)))

    def __repr__(self):
        s = []
        for v, k in self.t:
            s.append(("+" if k > 0 else "-") + (str(abs(k)) + "*" if abs(k) != 1 else "") + str(v))
        if self.c or not s:
            s.append(("+" if self.c >= 0 else "-") + str(abs(self.c)))
        r = "".join(s)
        return r[1:] if r[0] == "+" else r


ZERO = Lin(0)
ONE = Lin(1)


def V(name):
    return Lin(0, ((name, 1),))


def C(n):
    return Lin(n)


def _tight(e):
    """Integer tightening of e >= 0."""
    if not e.t:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
    if g > 1:
        return Lin(e.c // g, tuple((v, k // g) for v, k in e.t))
    return e


FM_LIMIT = 400


_ver = [0]


class Num:
    """Conjunction of linear constraints over integers."""
    __slots__ = ("eqs", "ge", "bad", "_satc", "ver")

    def __init__(self):
        self.eqs = {}        # var -> Lin (var does not occur elsewhere)
        self.ge = frozenset()  # Lin >= 0
        self.bad = False
        self.touch()

    def copy(self):
        n = Num.__new__(Num)
        n.eqs = dict(self.eqs)
        n.ge = self.ge
        n.bad = self.bad
        n._satc = self._satc
        n.ver = self.ver
        return n

    def touch(self):
        """The constraints are about to change."""
        self._satc = None
        _ver[0] += 1
        self.ver = _ver[0]

    def norm(self, e):
        return e.subst_all(self.eqs)

    def _set_ge(self, items):
        best = {}
        for e in items:
            e = _tight(e)
            if not e.t:
                if e.c < 0:
                    self.bad = True
                continue
            o = best.get(e.t)
            if o is None or e.c < o:
                best[e.t] = e.c
        # opposite pairs  t + c >= 0  and  -t + d >= 0
        out = []
        neweq = []
        for t, c in best.items():
            nt = tuple((v, -k) for v, k in t)
            d = best.get(nt)
            if d is not None:
                if c + d < 0:
                    self.bad = True
                if c + d == 0:
                    if t < nt:
                        neweq.append(Lin(c, t))
                    continue
            out.append(Lin(c, t))
        self.ge = frozenset(out)
        return neweq

    def add_ge(self, e):
        """Assume e >= 0."""
        self.touch()
        e = self.norm(e)
        pend = self._set_ge(set(self.ge) | {e})
        for q in pend:
            self.add_eq(q)
        return not self.bad

    def add_eq(self, e):
        self.touch()
        e = self.norm(e)
        if not e.t:
            if e.c != 0:
                self.bad = True
            return not self.bad
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.c % g:
            self.bad = True
            return False
        if g > 1:
            e = Lin(e.c // g, tuple((v, k // g) for v, k in e.t))
        pick = None
        for v, k in e.t:
            if abs(k) == 1:
                if pick is None or _prio(v) > _prio(pick[0]):
                    pick = (v, k)
        if pick is None:
            # no unit coefficient: keep as two inequalities
            s = set(self.ge)
            s.add(e)
            s.add(-e)
            # avoid infinite recursion: store raw
            self.ge = frozenset(s)
            return not self.bad
        v, k = pick
        rhs = e.drop(v).scale(-k)      # v = rhs
        for w in list(self.eqs):
            self.eqs[w] = self.eqs[w].subst(v, rhs)
        self.eqs[v] = rhs
        pend = self._set_ge({x.subst(v, rhs) for x in self.ge})
        for q in pend:
            self.add_eq(q)
        return not self.bad

    def vars(self):
        s = set(self.eqs)
        for e in self.eqs.values():
            s.update(e.vars())
        for e in self.ge:
            s.update(e.vars())
        return s

    def sat(self):
        if self.bad:
            return False
        if self._satc is None:
            self._satc = _fm_sat(self.ge)
        return self._satc

    def entails_ge(self, e):
        if self.bad:
            return True
        e = self.norm(e)
        if not e.t:
            return e.c >= 0 or not self.sat()
        n = _tight(-e - 1)
        # quick syntactic check
        for g in self.ge:
            if g.t == e.t and g.c <= e.c:
                return True
        return not _fm_sat(self.ge | {n}, n)

    def lower(self, t):
        """Greatest c with t >= c, or None."""
        t = self.norm(t)
        if not t.t:
            return t.c
        ge = set(self.ge)
        ge.add(V("$z") - t)
        ge.add(t - V("$z"))
        while True:
            vs = {v for e in ge for v in e.vars()} - {"$z"}
            if not vs:
                break
            v = min(vs, key=lambda x: (sum(1 for e in ge if e.coeff(x) > 0) * sum(1 for e in ge if e.coeff(x) < 0), x))
            ge, _ = _fm_elim(ge, v, False)
            best = {}
            for e in ge:
                if e.t and (e.t not in best or e.c < best[e.t]):
                    best[e.t] = e.c
            ge = {Lin(c, q) for q, c in best.items()}
            if len(ge) > FM_LIMIT:
                return None
        lo = None
        for e in ge:
            k = e.coeff("$z")
            if k > 0:
                b = -(e.c // k)          # k z + c >= 0  ->  z >= ceil(-c/k)
                lo = b if lo is None or b > lo else lo
        return lo

    def entails_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0 or not self.sat()
        return self.entails_ge(e) and self.entails_ge(-e)

    def entails(self, other):
        for e in other.constraints_ge():
            if not self.entails_ge(e):
                return False
        for e in other.constraints_eq():
            if not self.entails_eq(e):
                return False
        return True

    def constraints_eq(self):
        return [V(v) - e for v, e in self.eqs.items()]

    def constraints_ge(self):
        return list(self.ge)

    def rename(self, m):
        n = Num()
        n.bad = self.bad
        n.eqs = {m.get(v, v): e.rename(m) for v, e in self.eqs.items()}
        n.ge = frozenset(e.rename(m) for e in self.ge)
        return n

    def substitute(self, var, e):
        """Replace variable var (going out of scope) by expression e."""
        self.touch()
        if var in self.eqs:
            r = self.eqs.pop(var)
            self.add_eq(r - e)
            return
        if any(var in x.vars() for x in self.eqs.values()) or any(var in x.vars() for x in self.ge):
            self.eqs = {w: x.subst(var, e) for w, x in self.eqs.items()}
            # the new variables in e may themselves be solved
            old = self.eqs
            ge = self.ge
            self.eqs = {}
            self.ge = frozenset()
            for w, x in old.items():
                self.add_eq(V(w) - x)
            for x in ge:
                self.add_ge(x.subst(var, e))

    def project(self, keep):
        """Existentially eliminate every variable outside keep.
        Returns (Num, exact)."""
        n = self.copy()
        n.touch()
        exact = True
        for v in sorted(n.vars() - keep, key=str):
            # try to swap it out through an equality
            if v in n.eqs:
                e = n.eqs[v]
                cand = None
                for w, k in e.t:
                    if abs(k) == 1 and w in keep:
                        cand = (w, k)
                        break
                if cand is None:
                    for w, k in e.t:
                        if abs(k) == 1:
                            cand = (w, k)
                            break
                if cand is None:
                    # v = e : v only occurs here -> just drop (may lose divisibility)
                    if e.t:
                        g = 0
                        for _, k in e.t:
                            g = gcd(g, k)
                    del n.eqs[v]
                    continue
                if cand[0] not in keep:
                    # v occurs only in its own definition
                    del n.eqs[v]
                    continue
                # v = e and e mentions only kept vars: dropping v is exact
                del n.eqs[v]
                continue
            # v occurs on right-hand sides
            sol = None
            for w in sorted(n.eqs, key=str):
                k = n.eqs[w].coeff(v)
                if abs(k) == 1:
                    sol = (w, k)
                    break
            if sol is not None:
                w, k = sol
                # w = k*v + rest  ->  v = k*(w - rest)
                rest = n.eqs[w].drop(v)
                rhs = (V(w) - rest).scale(k)
                del n.eqs[w]
                n.eqs = {x: y.subst(v, rhs) for x, y in n.eqs.items()}
                p = n._set_ge({x.subst(v, rhs) for x in n.ge})
                for q in p:
                    n.add_eq(q)
                continue
            bad_eq = [w for w in n.eqs if n.eqs[w].coeff(v)]
            for w in bad_eq:
                e = V(w) - n.eqs[w]
                del n.eqs[w]
                n.ge = n.ge | {e, -e}
                exact = False
            ge, ex = _fm_elim(n.ge, v)
            exact = exact and ex
            p = n._set_ge(ge)
            for q in p:
                n.add_eq(q)
        n.touch()
        return n, exact

    def __repr__(self):
        return "{" + ", ".join([f"{v}={e}" for v, e in sorted(self.eqs.items(), key=str)]
                               + [f"{e}>=0" for e in sorted(self.ge, key=str)]) + ("BAD" if self.bad else "") + "}"

    def model(self, prefer=None, lo=-2, hi=7):
        """A small integer model (dict) or None; bounded search."""
        if self.bad or not self.sat():
            return None
        free = set()
        for e in self.ge:
            free.update(e.vars())
        for e in self.eqs.values():
            free.update(e.vars())
        free = sorted(free, key=str)
        budget = [20000]

        def rec(i, ge, asg):
            budget[0] -= 1
            if budget[0] < 0:
                return None
            if i == len(free):
                return asg
            v = free[i]
            l, h = lo, hi
            for e in ge:
                if len(e.t) == 1 and e.t[0][0] == v:
                    k = e.t[0][1]
                    if k > 0:
                        l = max(l, -(e.c // k))
                    else:
                        h = min(h, e.c // (-k))
            vals = list(range(l, h + 1))
            if prefer and v in prefer:
                vals.sort(key=lambda x: abs(x - prefer[v]))
            else:
                vals.sort(key=lambda x: (abs(x - 2), x))
            for x in vals:
                cx = Lin(x)
                ge2 = []
                ok = True
                for e in ge:
                    e2 = e.subst(v, cx)
                    if not e2.t:
                        if e2.c < 0:
                            ok = False
                            break
                    else:
                        ge2.append(e2)
                if not ok or not _fm_sat(frozenset(_tight(e) for e in ge2)):
                    continue
                a2 = dict(asg)
                a2[v] = x
                r = rec(i + 1, ge2, a2)
                if r is not None:
                    return r
            return None

        m = rec(0, list(self.ge), {})
        if m is None:
            return None
        for v, e in self.eqs.items():
            m[v] = e.c + sum(k * m[w] for w, k in e.t)
        return m


def _prio(v):
    """Which variable to solve for: program counters before lengths."""
    s = str(v)
    return 0 if s.startswith("len:") or s.startswith("cnt:") else 1


def _fm_elim(ges, v, check=True):
    pos, neg, rest = [], [], []
    for e in ges:
        k = e.coeff(v)
        if k > 0:
            pos.append((k, e))
        elif k < 0:
            neg.append((-k, e))
        else:
            rest.append(e)
    exact = True
    dark = []
    out = set(rest)
    for kp, p in pos:
        for kn, q in neg:
            r = p.drop(v).scale(kn) + q.drop(v).scale(kp)
            if kp != 1 and kn != 1:
                dark.append(r - (kp - 1) * (kn - 1))
            out.add(_tight(r))
    for d in dark if check else ():
        # Omega test: no integer point is lost when the dark shadow is implied
        if _fm_sat(out | {-d - 1}):
            exact = False
            break
    return out, exact


_FM_CACHE = {}


def _fm_sat(ges, focus=None):
    ges = frozenset(ges)
    r = _FM_CACHE.get(ges)
    if r is None:
        r = _fm_sat0(ges)
        if len(_FM_CACHE) > 200000:
            _FM_CACHE.clear()
        _FM_CACHE[ges] = r
    return r


def _fm_sat0(ges):
    cur = {}
    for e in ges:
        e = _tight(e)
        if not e.t:
            if e.c < 0:
                return False
            continue
        if e.t not in cur or e.c < cur[e.t]:
            cur[e.t] = e.c
    while cur:
        cnt = {}
        for t in cur:
            for v, k in t:
                p = cnt.setdefault(v, [0, 0])
                p[0 if k > 0 else 1] += 1
        v = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], str(x)))
        pos, neg, rest = [], [], {}
        for t, c in cur.items():
            e = Lin(c, t)
            k = e.coeff(v)
            if k > 0:
                pos.append((k, e))
            elif k < 0:
                neg.append((-k, e))
            else:
                rest[t] = c
        for kp, p in pos:
            for kn, q in neg:
                r = _tight(p.drop(v).scale(kn) + q.drop(v).scale(kp))
                if not r.t:
                    if r.c < 0:
                        return False
                    continue
                if r.t not in rest or r.c < rest[r.t]:
                    rest[r.t] = r.c
        if len(rest) > FM_LIMIT:
            return True
        cur = rest
    return True


def is_len(v):
    return isinstance(v, str) and v.startswith(("len:", "cnt:"))


def coarsen(num):
    """Forget everything about lengths but which of them are positive."""
    lens = [v for v in num.vars() if is_len(v)]
    pos = [v for v in lens if num.entails_ge(V(v) - 1)]
    num.ge = frozenset(e for e in num.ge if not any(is_len(v) for v in e.vars()))
    num.eqs = {v: e for v, e in num.eqs.items() if not is_len(v) and not any(is_len(u) for u in e.vars())}
    num.touch()
    for v in lens:
        num.add_ge(V(v) - (1 if v in pos else 0))


def join(a, b, vars_, coarse=False):
    """Convex-ish over-approximation of a or b (both over vars_)."""
    if not a.sat():
        return b.copy()
    if not b.sat():
        return a.copy()
    out = Num()
    # affine hull (Karr) of the two affine subspaces
    for e in _affine_join(a, b, sorted(vars_, key=str)):
        out.add_eq(e)
    cands = set()
    for s in (a, b):
        for e in s.ge:
            cands.add(e)
        for e in s.constraints_eq():
            cands.add(e)
            cands.add(-e)
    # octagonal templates over the variables left free by the affine hull
    free = sorted({v for v in vars_ if v not in out.eqs}, key=str)
    tmpl = []
    for v in free:
        tmpl += [V(v), -V(v)]
    rel = [v for v in free if not (coarse and is_len(v))]
    for i, v in enumerate(rel):
        for w in rel[i + 1:]:
            tmpl += [V(v) - V(w), V(w) - V(v), V(v) + V(w), -V(v) - V(w)]
    for t in tmpl:
        la = a.lower(t)
        if la is None:
            continue
        lb = b.lower(t)
        if lb is None:
            continue
        cands.add(t - min(la, lb))
    if coarse:
        cands = {e for e in cands if len(e.t) == 1 or not any(is_len(v) for v in e.vars())}
    for e in cands:
        if not out.entails_ge(e) and a.entails_ge(e) and b.entails_ge(e):
            out.add_ge(e)
    return out


def widen(old, new):
    """Keep only the constraints of old that new also satisfies, and every
    equality of new that old satisfies too (affine subspaces only grow finitely
    often)."""
    out = Num()
    for e in new.constraints_eq():
        if old.entails_eq(e):
            out.add_eq(e)
    for e in old.constraints_eq():
        if new.entails_eq(e):
            out.add_eq(e)
        else:
            if new.entails_ge(e):
                out.add_ge(e)
            if new.entails_ge(-e):
                out.add_ge(-e)
    for e in old.ge:
        if new.entails_ge(e):
            out.add_ge(e)
    return out


def _affine_join(a, b, vs):
    """Karr: equalities valid on the affine hull of two solution spaces.
    Both spaces are given in solved form; work with rational row operations."""
    from fractions import Fraction
    # points + directions of each space over vs
    def gens(s):
        free = sorted({w for v in vs for w in (s.eqs[v].vars() if v in s.eqs else [v])}, key=str)
        # base point: free = 0
        def ev(asg):
            r = []
            for v in vs:
                e = s.eqs.get(v)
                if e is None:
                    r.append(Fraction(asg.get(v, 0)))
                else:
                    r.append(Fraction(e.c + sum(k * asg.get(w, 0) for w, k in e.t)))
            return r
        base = ev({})
        dirs = []
        for f in free:
            p = ev({f: 1})
            dirs.append([x - y for x, y in zip(p, base)])
        return base, dirs
    ba, da = gens(a)
    bb, db = gens(b)
    dirs = da + db + [[x - y for x, y in zip(bb, ba)]]
    n = len(vs)
    # row-reduce the directions
    rows = []
    for d in dirs:
        d = d[:]
        for (p, r) in rows:
            if d[p]:
                f = d[p]
                d = [x - f * y for x, y in zip(d, r)]
        p = next((i for i in range(n) if d[i]), None)
        if p is None:
            continue
        f = d[p]
        d = [x / f for x in d]
        new = []
        for (q, r) in rows:
            if r[p]:
                g = r[p]
                r = [x - g * y for x, y in zip(r, d)]
            new.append((q, r))
        rows = new + [(p, d)]
    piv = {p: r for p, r in rows}
    eqs = []
    for j in range(n):
        if j in piv:
            continue
        # x_j = base_j + sum_p r_p[j] * (x_p - base_p)
        coef = {vs[j]: Fraction(1)}
        c = -ba[j]
        for p, r in piv.items():
            if r[j]:
                coef[vs[p]] = coef.get(vs[p], 0) - r[j]
                c += r[j] * ba[p]
        den = 1
        for f in list(coef.values()) + [c]:
            den = den * f.denominator // gcd(den, f.denominator)
        eqs.append(Lin(int(c * den), tuple(sorted((v, int(k * den)) for v, k in coef.items() if k))))
    return eqs


def covered(a, bs, depth=6):
    """True if every integer point of a lies in some b of bs (all over the same vars)."""
    if not a.sat():
        return True
    if not bs or depth == 0:
        return False
    b = bs[0]
    cons = [e for e in b.constraints_ge()]
    for e in b.constraints_eq():
        cons += [e, -e]
    for e in cons:
        if a.entails_ge(e):
            continue
        x = a.copy()
        x.add_ge(-e - 1)
        if not covered(x, bs[1:], depth - 1):
            return False
    return True
