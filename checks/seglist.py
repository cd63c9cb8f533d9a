"""Lists of unknown length as sequences of segments (source, lo, hi)."""
from pa.interp import *


def seg(src, lo, hi):
    return Tup((src, lo, hi))


def length(segs):
    n = num(0)
    for s in segs:
        n = n + (s.items[2] - s.items[1])
    return n


def norm(st, segs):
    """Drop empty segments, join adjacent ones."""
    out = []
    for s in segs:
        src, lo, hi = s.items
        if st.entails_eq(hi - lo):
            continue
        if out:
            a = out[-1].items
            if a[0] == src and src.op != "one" and st.entails_eq(a[2] - lo):
                out[-1] = seg(src, a[1], hi)
                continue
        out.append(s)
    return out


def same(st, a, b):
    a, b = norm(st, a), norm(st, b)
    if len(a) != len(b):
        return False
    return all(x.items[0] == y.items[0] and st.entails_eq(x.items[1] - y.items[1]) and st.entails_eq(x.items[2] - y.items[2])
               for x, y in zip(a, b))


def cut(st, segs, p):
    """(left, right) of segs split at position p, or None if not decided."""
    left, right, at = [], [], num(0)
    for i, s in enumerate(segs):
        src, lo, hi = s.items
        n = hi - lo
        if st.entails(p - at - n):
            left.append(s)
        elif st.entails(at - p):
            right.append(s)
        elif st.entails(p - at) and st.entails(at + n - p):
            left.append(seg(src, lo, lo + (p - at)))
            right.append(seg(src, lo + (p - at), hi))
        else:
            return None
        at = at + n
    return left, right


class Segs(Hooks):
    """Mixin: self.is_seg(obj) tells which objects are segment lists."""

    def segs(self, it, st, v):
        if isinstance(v, Obj) and (v, "#segs") in st.heap:
            x = st.heap[(v, "#segs")]
            if not isinstance(x, Tup):
                n = it.as_lin(st, st.heap.get((v, "#len"), NONE))
                return [seg(x, num(0), n if n is not None else it.freshint("len"))]
            return list(x.items)
        if isinstance(v, Term) and v.op == "segs":
            return list(v.args[0].items)
        if isinstance(v, Obj) or isinstance(v, Tup):
            x = it.exact_items(st, v)
            if x is not None:
                return [seg(T("one", i if isinstance(i, (Term, V)) else NONE), num(0), num(1)) for i in x]
        if isinstance(v, Term):
            n = it.len_of(st, v)
            if n is None:
                n = sym(T("len", v, 0))
            st.assume(n)
            return [seg(v, num(0), n)]
        if isinstance(v, IterV) and v.kind == "repeat" and len(v.args) == 2:
            return [seg(T("repeat", v.args[0]), num(0), it.as_lin(st, v.args[1]))]
        return None

    def put(self, st, o, segs):
        st.heap[(o, "#segs")] = Tup(norm(st, segs))
        st.heap[(o, "#len")] = length(segs)

    def bounds(self, it, st, o_segs, key):
        """Positions of a slice in the list, clamped like Python does; None if not decided."""
        n = length(o_segs)
        out = []
        for v, d in ((key.lo, num(0)), (key.hi, n)):
            if v in (None, NONE):
                out.append(d)
                continue
            l = it.as_lin(st, v)
            if l is None:
                return None
            if st.entails(-l - 1):
                l = n + l
                if st.entails(-l):
                    l = num(0)
                elif not st.entails(l):
                    return None
            elif st.entails(l):
                if st.entails(l - n):
                    l = n
                elif not st.entails(n - l):
                    return None
            else:
                return None
            out.append(l)
        return out

    def seg_slice(self, it, st, segs, key):
        b = self.bounds(it, st, segs, key)
        if b is None:
            return None
        c = cut(st, segs, b[1])
        if c is None:
            return None
        left, tail = c
        c = cut(st, left, b[0])
        if c is None:
            return None
        return c[0], c[1], tail

    def seg_call(self, it, st, label, recv, args, node):
        if isinstance(recv, Obj) and (recv, "#segs") in st.heap:
            cur = self.segs(it, st, recv)
            if label in (".extend", ".append") and args:
                if label == ".append":
                    x = [seg(T("one", args[0]), num(0), num(1))]
                else:
                    x = self.segs(it, st, args[0])
                if x is None:
                    return [(it.imprecise(st, "list.extend", node) or st, NONE)]
                self.put(st, recv, cur + x)
                return [(st, NONE)]
            if label == ".clear":
                self.put(st, recv, [])
                return [(st, NONE)]
            if label == ".copy":
                return [(st, T("segs", Tup(cur)))]
            if label == ".pop" and not args:
                n = length(cur)
                out = []
                s2 = st.copy()
                if s2.assume(-n) is not None:
                    out.append((s2, Raised(Exc("IndexError"))))
                if st.assume(n - 1) is not None:
                    c = cut(st, cur, n - 1)
                    if c is not None:
                        self.put(st, recv, c[0])
                        out.append((st, T("popped item", next(it.counter))))
                return out
        if label in ("tuple", "list") and args and (isinstance(args[0], Obj) and (args[0], "#segs") in st.heap
                                                   or isinstance(args[0], Term) and args[0].op == "segs"):
            return [(st, T("segs", Tup(self.segs(it, st, args[0]))))]
        if label == "len" and args and (isinstance(args[0], Obj) and (args[0], "#segs") in st.heap
                                       or isinstance(args[0], Term) and args[0].op == "segs"):
            return [(st, length(self.segs(it, st, args[0])))]
        if label.endswith("repeat") and len(args) == 2:
            n = it.as_lin(st, args[1])
            if n is not None:
                return [(st, T("segs", Tup((seg(T("repeat", args[0]), num(0), n),))))]
        return None

    def getitem(self, it, st, base, key, node):
        if isinstance(key, SliceV) and key.step in (None, NONE) and (isinstance(base, Obj) and (base, "#segs") in st.heap
                                                                   or isinstance(base, Term) and base.op == "segs"):
            r = self.seg_slice(it, st, self.segs(it, st, base), key)
            if r is not None:
                return [(st, T("segs", Tup(r[1])))]

    def setitem(self, it, st, base, key, val, node):
        if isinstance(base, Obj) and (base, "#segs") in st.heap and isinstance(key, SliceV):
            r = self.seg_slice(it, st, self.segs(it, st, base), key)
            x = self.segs(it, st, val)
            if r is None or x is None:
                self.put(st, base, [seg(it.fresh("list"), num(0), it.freshint())])
                st.unk = st.unk + ("list",)
            else:
                self.put(st, base, r[0] + x + r[2])
            return [(st, None)]

    def delitem(self, it, st, base, key, node):
        if isinstance(base, Obj) and (base, "#segs") in st.heap and isinstance(key, SliceV):
            r = self.seg_slice(it, st, self.segs(it, st, base), key)
            if r is None:
                self.put(st, base, [seg(it.fresh("list"), num(0), it.freshint())])
                st.unk = st.unk + ("list",)
            else:
                self.put(st, base, r[0] + r[2])
            return [(st, None)]
