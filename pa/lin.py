"""Linear forms over symbols and a small convex-polyhedra style domain.

A constraint is a Lin that is >= 0.  All symbols are integers.  Feasibility is
decided by Fourier-Motzkin elimination with integer tightening; this is the
numeric abstract domain of the interpreter in interp.py.
"""
from math import gcd


_ids = {}


def symid(s):
    """A number for a symbol, giving an arbitrary but stable order."""
    i = _ids.get(s)
    if i is None:
        i = _ids[s] = len(_ids)
    return i


def _key(x):
    return symid(x[0])


class Lin:
    __slots__ = ("c", "k", "_h")

    def __init__(self, coefs=(), const=0):
        if isinstance(coefs, dict):
            coefs = coefs.items()
        self.c = tuple(sorted(((s, v) for s, v in coefs if v), key=_key))
        self.k = const
        self._h = hash((self.c, self.k))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        if not self.c:
            return str(self.k)
        s = []
        for n, v in self.c:
            s.append(("+" if v > 0 else "-") + ("" if abs(v) == 1 else str(abs(v)) + "*") + str(n))
        r = "".join(s)
        if self.k:
            r += "%+d" % self.k
        return r[1:] if r.startswith("+") else r

    @property
    def const(self):
        return not self.c

    def syms(self):
        return [s for s, _ in self.c]

    def __add__(self, o):
        if not isinstance(o, Lin):
            o = Lin((), o)
        d = dict(self.c)
        for s, v in o.c:
            d[s] = d.get(s, 0) + v
        return Lin(d, self.k + o.k)

    def __neg__(self):
        return Lin([(s, -v) for s, v in self.c], -self.k)

    def __sub__(self, o):
        if not isinstance(o, Lin):
            o = Lin((), o)
        return self + (-o)

    def scale(self, n):
        return Lin([(s, v * n) for s, v in self.c], self.k * n)

    def subst(self, m):
        d, k = {}, self.k
        for s, v in self.c:
            x = m.get(s)
            if x is None:
                d[s] = d.get(s, 0) + v
            else:
                k += x.k * v
                for t, w in x.c:
                    d[t] = d.get(t, 0) + w * v
        return Lin(d, k)


def sym(s):
    return Lin([(s, 1)])


def num(n):
    return Lin((), n)


_cache = {}


def feasible(cons):
    """Whether the conjunction of c >= 0 has a solution (rational, tightened)."""
    key = frozenset(cons)
    r = _cache.get(key)
    if r is None:
        if len(_cache) > 300000:
            _cache.clear()
        r = _cache[key] = _feasible(key)
    return r


def _row(c):
    ks = c.c
    k = c.k
    if len(ks) == 1:
        s, v = ks[0]
        if v > 1:
            k, v = k // v, 1
        elif v < -1:
            k, v = k // -v, -1
        return ((symid(s), v),), k
    g = 0
    for _, v in ks:
        g = gcd(g, v)
        if g == 1:
            break
    if g > 1:
        return tuple((symid(s), v // g) for s, v in ks), k // g
    return tuple((symid(s), v) for s, v in ks), k


def _substitute(rows, s, expr, const):
    """Replace symbol s by expr + const in all rows; None if infeasible."""
    out = {}
    for d, k in rows.items():
        for t, c in d:
            if t == s:
                break
        else:
            o = out.get(d)
            if o is None or k < o:
                out[d] = k
            continue
        e = dict(d)
        del e[s]
        for t, v in expr:
            v = e.get(t, 0) + v * c
            if v:
                e[t] = v
            else:
                del e[t]
        k = k + const * c
        if not e:
            if k < 0:
                return None
            continue
        g = 0
        for v in e.values():
            g = gcd(g, v)
            if g == 1:
                break
        if g > 1:
            d = tuple(sorted((t, v // g) for t, v in e.items()))
            k //= g
        else:
            d = tuple(sorted(e.items()))
        o = out.get(d)
        if o is None or k < o:
            out[d] = k
    return out


def _feasible(cons):
    best = {}
    for c in cons:
        if not c.c:
            if c.k < 0:
                return False
            continue
        d, k = _row(c)
        if d not in best or k < best[d]:
            best[d] = k
    return _fm(best)


def _fm(best):
    """Fourier-Motzkin elimination on rows."""
    while best:
        count = {}
        eq = None
        for d, k in best.items():
            neg = tuple([(s, -v) for s, v in d])
            o = best.get(neg)
            if o is not None and o + k <= 0:
                if o + k < 0:
                    return False
                if eq is None or len(d) < len(eq[0]):
                    for s, v in d:
                        if v == 1 or v == -1:
                            eq = d, k, s, v
                            break
            for s, v in d:
                pn = count.get(s)
                if pn is None:
                    pn = count[s] = [0, 0]
                pn[0 if v > 0 else 1] += 1
        if eq is not None:
            # s = -(rest + k) / v
            d0, k0, s, v0 = eq
            best = _substitute(best, s, [(t, -v * v0) for t, v in d0 if t != s], -k0 * v0)
            if best is None:
                return False
            continue
        s = min(count, key=lambda x: (count[x][0] * count[x][1], x))
        np, nn = count[s]
        if np * nn > 4000:
            return True     # give up: assume feasible (leads to "undecided")
        pos, neg, rest = [], [], {}
        for d, k in best.items():
            for t, v in d:
                if t == s:
                    (pos if v > 0 else neg).append((d, k, abs(v)))
                    break
            else:
                rest[d] = k
        for dp, kp, vp in pos:
            for dn, kn, vn in neg:
                d = {t: v * vn for t, v in dp} if vn != 1 else dict(dp)
                for t, v in dn:
                    v = d.get(t, 0) + v * vp
                    if v:
                        d[t] = v
                    else:
                        del d[t]
                k = kp * vn + kn * vp
                if not d:
                    if k < 0:
                        return False
                    continue
                g = 0
                for v in d.values():
                    g = gcd(g, v)
                    if g == 1:
                        break
                if g > 1:
                    d = tuple(sorted((t, v // g) for t, v in d.items()))
                    k //= g
                else:
                    d = tuple(sorted(d.items()))
                o = rest.get(d)
                if o is None or k < o:
                    rest[d] = k
        best = rest
    return True


class System:
    """A conjunction of constraints, prepared for many questions: unit
    equalities are substituted, difference constraints form a graph."""
    __slots__ = ("bad", "sub", "rows", "edges", "dist", "comp", "mixed")

    def __init__(self, cons):
        self.bad = False
        self.sub = {}
        self.dist = {}
        best = {}
        for c in cons:
            if not c.c:
                if c.k < 0:
                    self.bad = True
                continue
            d, k = _row(c)
            if d not in best or k < best[d]:
                best[d] = k
        subs = []
        while True:
            eq = None
            for d, k in best.items():
                if len(d) > 3 or (eq is not None and len(d) >= len(eq[0])):
                    continue
                o = best.get(tuple([(s, -v) for s, v in d]))
                if o is not None and o + k <= 0:
                    if o + k < 0:
                        self.bad = True
                        return
                    for s, v in reversed(d):
                        if v == 1 or v == -1:
                            eq = d, k, s, v
                            break
            if eq is None:
                break
            d0, k0, s, v0 = eq
            expr, const = [(t, -v * v0) for t, v in d0 if t != s], -k0 * v0
            best = _substitute(best, s, expr, const)
            if best is None:
                self.bad = True
                return
            subs.append((s, expr, const))
        # resolve the substitutions, the last one first
        for s, expr, const in reversed(subs):
            e, k = {}, const
            for t, v in expr:
                if t in self.sub:
                    e2, k2 = self.sub[t]
                    k += v * k2
                    for u, w in e2:
                        e[u] = e.get(u, 0) + v * w
                else:
                    e[t] = e.get(t, 0) + v
            self.sub[s] = (tuple((t, v) for t, v in e.items() if v), k)
        self.rows = best
        # components, edges of the difference constraints
        parent = {}
        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x
        self.edges = {}
        mixed = []
        for d, k in best.items():
            f = d[0][0]
            for t, _ in d:
                if t not in parent:
                    parent[t] = t
                a, b = find(t), find(f)
                if a != b:
                    parent[a] = b
            if len(d) == 1 and d[0][1] in (1, -1):
                t, v = d[0]
                if v > 0:
                    self.edges.setdefault(t, []).append((-1, k))
                else:
                    self.edges.setdefault(-1, []).append((t, k))
            elif len(d) == 2 and d[0][1] * d[1][1] == -1:
                (a, va), (b, vb) = d
                if va < 0:
                    a, b = b, a
                self.edges.setdefault(a, []).append((b, k))
            else:
                mixed.append(f)
        self.comp = {}
        for t in parent:
            self.comp[t] = find(t)
        self.mixed = set(self.comp[f] for f in mixed)

    def shortest(self, a):
        """b -> smallest k with b <= a + k"""
        d = self.dist.get(a)
        if d is None:
            d = self.dist[a] = {a: 0}
            n, cur = 0, {a}
            lim = len(self.comp) + 3
            while cur:
                n += 1
                if n > lim:
                    self.bad = True
                    break
                nxt = set()
                for x in cur:
                    dx = d[x]
                    for y, k in self.edges.get(x, ()):
                        o = d.get(y)
                        if o is None or dx + k < o:
                            d[y] = dx + k
                            nxt.add(y)
                cur = nxt
        return d

    def entails(self, lin):
        if self.bad:
            return True
        e, k = {}, lin.k
        for s, v in lin.c:
            s = _ids.get(s)
            if s is None:
                return False        # nothing is known about it
            x = self.sub.get(s)
            if x is None:
                e[s] = e.get(s, 0) + v
            else:
                k += v * x[1]
                for t, w in x[0]:
                    e[t] = e.get(t, 0) + v * w
        e = [(t, v) for t, v in e.items() if v]
        if not e:
            return k >= 0
        comp = self.comp
        for t, v in e:
            if t not in comp:
                return False        # unbounded
        diff = True
        if len(e) == 1:
            (t, v), = e
            if v > 0:
                a, b, q = t, -1, k // v
            else:
                a, b, q = -1, t, k // -v
        elif len(e) == 2 and e[0][1] == -e[1][1]:
            a, b = e[0][0], e[1][0]
            v = e[0][1]
            if v < 0:
                a, b, v = b, a, -v
            q = k // v
        else:
            diff = False
        if diff:
            d = self.shortest(a).get(b)
            if self.bad:
                return True
            if d is not None and d <= q:
                return True
            if not self.mixed or not any(comp[t] in self.mixed for t, v in e):
                return False
        want = set(comp[t] for t, v in e)
        rows = {d: kk for d, kk in self.rows.items() if comp[d[0][0]] in want}
        neg = tuple(sorted((t, -v) for t, v in e))
        g = 0
        for t, v in neg:
            g = gcd(g, v)
        nk = -k - 1
        if g > 1:
            neg = tuple((t, v // g) for t, v in neg)
            nk //= g
        o = rows.get(neg)
        if o is None or nk < o:
            rows[neg] = nk
        return not _fm(rows)


_systems = {}


def system(cons):
    r = _systems.get(cons)
    if r is None:
        if len(_systems) > 20000:
            _systems.clear()
        r = _systems[cons] = System(cons)
    return r


_asked = {}


def entails(cons, lin):
    """cons |= lin >= 0 ? (cons: frozenset)"""
    if lin.const:
        return lin.k >= 0
    key = (cons, lin)
    r = _asked.get(key)
    if r is None:
        if len(_asked) > 300000:
            _asked.clear()
        r = _asked[key] = system(cons).entails(lin)
    return r


def entails_eq(cons, lin):
    return entails(cons, lin) and entails(cons, -lin)
