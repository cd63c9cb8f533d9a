"""P09: edits of a document are applied exactly, completely and all or nothing."""
import ast
from pa.interp import *
from pa import model
from .docmodel import Edits, text_term


# ------------------------------------------------ applying edits to the text

class Apply(Edits):
    """MutableString._update_text: the pieces of the new text."""

    def emit(self, it, st, v, node):
        f = it.stack[-1].func
        if v == EMPTY:
            return
        if isinstance(v, Term) and v.op == "cat":
            self.emit(it, st, v.args[0], node)
            self.emit(it, st, v.args[1], node)
            return
        at = it.as_lin(st, st.g("at"))
        if v == self.text:
            v = T("slice", self.text, num(0), it.len_of(st, self.text))
        if isinstance(v, Term) and v.op == "slice" and v.args[0] == self.text:
            lo, hi = v.args[1], v.args[2]
            if lo in (None, NONE):
                lo = num(0)
            if hi in (None, NONE):
                hi = it.len_of(st, self.text)
            if isinstance(lo, Lin) and isinstance(hi, Lin):
                it.oblige("pieces", st.entails_eq(lo - at), node, f, st,
                          "old text is copied from {} where {} is expected".format(lo, at))
                st.setg("at", hi)
                return
        cur = st.g("cur")
        if isinstance(v, Term) and v.op == "text":
            if v.args[0] != cur:
                it.oblige("pieces", None, node, f, st)
                return
            s = sym(T("start", cur))
            it.oblige("pieces", st.entails_eq(s - at), node, f, st,
                      "the new text is put at {} in the old text instead of {}".format(at, s))
            st.setg("at", sym(T("end", cur)))
            st.setg("emitted", TRUE)
            return
        st.setg("lost", TRUE)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == ".join" and recv == EMPTY and len(args) == 1 and isinstance(args[0], GenV):
            def body(s, v):
                self.emit(it, s, v, node)
                return [(s, NEXT)]
            out = []
            for s, o in it.iterate(st, args[0], body, node, it.stack[-1]):
                if o[0] == "raise":
                    out.append((s, Raised(o[1])))
                else:
                    out.append((s.setg("joined", TRUE), T("joined")))
            return out
        if label == ".append" and isinstance(recv, Obj) and recv.cls == "list" and len(args) == 1:
            self.emit(it, st, args[0], node)
        if label == ".join" and recv == EMPTY:
            return [(st.setg("joined", TRUE), T("joined"))]

    def iter_next(self, it, st, seq, k, elem, node):
        if seq == self.changes:
            cur = st.g("cur")
            if st.g("emitted") == FALSE and cur != NONE:
                f = it.stack[-1].func
                n = it.len_of(st, T("text", cur))
                at = it.as_lin(st, st.g("at"))
                it.oblige("pieces", st.entails_eq(n) if st.g("lost") != TRUE else None, node, f, st, "the new text of an edit may be left out")
                it.oblige("pieces", st.entails_eq(at - sym(T("start", cur))) if st.g("lost") != TRUE else None, node, f, st,
                          "the text up to an edit may be left out")
                st.setg("at", sym(T("end", cur)))
        Edits.iter_next(self, it, st, seq, k, elem, node)


def run_apply(factory, ctx, prog):
    cls = prog.cls("mutablestring.MutableString")
    me = Obj(0, cls, "self")
    h = Apply()
    h.text = text_term(ctx, factory, prog, "mutablestring.MutableString", me)
    it = factory(h)
    f = cls.find_method("_update_text")
    a = f.arg_names()
    st = State()
    st.setg("at", num(0)).setg("cur", NONE).setg("emitted", FALSE)
    n = it.len_of(st, h.text)
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {a[0]: me, a[1]: h.changes}, None, None):
        if isinstance(v, Raised):
            it.oblige("pieces", None, f.node, f, s)
            continue
        new = s.heap.get((me, h.text.args[1]))
        if s.g("iterated") != TRUE or s.g("lost") == TRUE:
            it.oblige("pieces", None, f.node, f, s)
            continue
        at = it.as_lin(s, s.g("at"))
        it.oblige("pieces", s.g("done") == TRUE and s.entails_eq(n - at), f.node, f, s,
                  "the rest of the old text may be left out")
        it.oblige("stored", True if new == T("joined") else None if new is not None else False, f.node, f, s,
                  "the new text is not stored")


# ------------------------------------------------ collecting edits

class Get(Hooks):
    """_get_changes: the edits in order of their start, overlaps refused."""
    def __init__(self, me):
        self.me = me
        self.keys = None
        self.emissions = 0

    def is_key(self, v):
        return isinstance(v, Term) and v.op == "key"

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == "sorted" and len(args) == 1 and not kwargs:
            v = args[0]
            if isinstance(v, Term) and v.op == "attr" and v.args[0] == self.me:
                st.setg("sorted", TRUE)
                return [(st, T("sortedkeys", v))]
            if isinstance(v, Term) and v.op == "m" and v.args[0] in ("items", "keys"):
                return [(st, T("sorted" + v.args[0], v.args[1]))]
        if label in ("list", "tuple") and len(args) == 1 and (
                isinstance(args[0], Term) and args[0].op in ("sortedkeys", "sorteditems")
                or isinstance(args[0], Term) and args[0].op == "attr" and args[0].args[0] == self.me):
            return [(st, args[0])]
        if label in (".items", ".keys") and isinstance(recv, Term) and recv.op == "attr" and recv.args[0] == self.me:
            return [(st, T("m", label[1:], recv))]
        if label in ("max", "min") and len(args) == 1 and isinstance(args[0], GenV):
            seen = []
            def body(s, v):
                seen.append(v)
                return [(s, NEXT)]
            it.iterate(st.copy(), args[0], body, node, it.stack[-1])
            bases = set()
            for v in seen:
                if isinstance(v, Lin) and len(v.c) == 1:
                    v = v.c[0][0]
                if isinstance(v, Term) and v.op == "centry" and v.args[1] == 0:
                    bases.add(v.args[0])
                else:
                    bases.add(None)
            if len(bases) == 1 and None not in bases:
                return [(st, self.aggr(it, st, label, bases.pop()))]
        if label in ("sorted", "reversed") and args and isinstance(args[0], Term) and args[0].op in ("clist", "permuted"):
            return [(st, T("permuted", *args[0].args))]
        if label == ".join" and len(args) == 1 and isinstance(args[0], GenV):
            seen = []
            def body(s, v):
                seen.append(v)
                return [(s, NEXT)]
            it.iterate(st.copy(), args[0], body, node, it.stack[-1])
            if seen and all(isinstance(v, Term) and v.op == "centry" and v.args[1] == 1 for v in seen) \
                    and len(set(v.args[0] for v in seen)) == 1:
                return [(st, T("jointext", recv, seen[0].args[0]))]

    def aggr(self, it, st, label, base):
        if isinstance(base, Term) and base.op == "permuted":
            base = T("clist", *base.args)
        t = sym(T(label + "end", base))
        if isinstance(base, Term) and base.op == "clist":
            st.assume(t - sym(base.args[1]))
        return t

    def keysym(self, st, seq, k):
        t = T("key", seq, k)
        return t

    def iter_elem(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and seq.op in ("sortedkeys", "sortedkeys_") or \
                isinstance(seq, Term) and seq.op == "sorteditems":
            key = T("key", k)
            prev = st.g("prevkey")
            if prev is not None and prev != NONE:
                if st.assume(sym(key) - prev - 1) is None:
                    return []
                st.setg("before", prev)
            st.setg("prevkey", sym(key))
            st.setg("curkey", sym(key))
            st.setg("emitted", FALSE)
            if seq.op == "sorteditems":
                return [(st, Tup((sym(key), T("clist", seq.args[0], key))))]
            return [(st, sym(key))]
        if isinstance(seq, Term) and seq.op in ("clist", "permuted"):
            return [(st, Tup((sym(T("centry", seq, 0, k)), T("centry", seq, 1, k))))]
        if isinstance(seq, Term) and seq.op == "attr" and seq.args[0] == self.me or \
                isinstance(seq, Term) and seq.op == "m" and seq.args[0] in ("items", "keys"):
            # keys in arbitrary order
            key = T("key", k)
            if st.g("prevkey") is not None:
                st.setg("before", st.g("prevkey"))
            st.setg("prevkey", sym(key))
            st.setg("curkey", sym(key)).setg("emitted", FALSE)
            if seq.op == "m" and seq.args[0] == "items":
                return [(st, Tup((sym(key), T("clist", seq.args[1], key))))]
            return [(st, sym(key))]

    def iter_next(self, it, st, seq, k, elem, node):
        if st.g("curkey") not in (None, NONE) and not (isinstance(seq, Term) and seq.op in ("clist", "permuted")):
            it.oblige("collected", st.g("emitted") == TRUE, node, it.stack[-1].func, st, "an edit may be skipped")
            st.setg("curkey", NONE)

    def getitem(self, it, st, base, key, node):
        if isinstance(base, Term) and base.op == "attr" and base.args[0] == self.me:
            if isinstance(key, Lin) and len(key.c) == 1 and key.k == 0 and self.is_key(key.c[0][0]):
                return [(st, T("clist", base, key.c[0][0]))]
        if isinstance(base, Term) and base.op == "clist" and isinstance(key, Lin) and key.const:
            return [(st, Tup((sym(T("centry", base, 0, key)), T("centry", base, 1, key))))]
        if isinstance(base, Term) and base.op == "sortedkeys" and key == num(0):
            return [(st, sym(T("key", num(0))))]
        return None

    def emit(self, it, st, v, node):
        f = it.stack[-1].func
        if not (isinstance(v, Tup) and len(v.items) == 3):
            return
        self.emissions += 1
        start, end, text = v.items
        key = st.g("curkey")
        if key in (None, NONE):
            it.oblige("collected", None, node, f, st)
            return
        start, end = it.as_lin(st, start), it.as_lin(st, end)
        it.oblige("collected", start is not None and st.entails_eq(start - key), node, f, st, "an edit gets another start")
        prevend = st.g("prevend")
        if prevend is not None:
            it.oblige("no-overlap", start is not None and st.entails(start - prevend), node, f, st,
                      "an edit may start before the end of the one before it")
        kt = key.c[0][0]
        good = None
        if end is not None and len(end.c) == 1 and end.k == 0:
            t = end.c[0][0]
            if isinstance(t, Term):
                if t.op == "maxend":
                    good = t.args[0].args[1] == kt
                elif t.op == "minend":
                    good = False
        if end is not None and good is None:
            for t, _ in end.c:
                if isinstance(t, Term) and (t.op in ("maxend", "minend", "key") or t.op == "centry" and t.args[2].const):
                    good = False
        it.oblige("collected", good, node, f, st, "an edit gets {} as its end".format(end))
        if isinstance(text, Term) and text.op == "jointext" and text.args[1].op == "permuted":
            it.oblige("collected", False, node, f, st, "the texts inserted at a position are not used in the order they were given")
        elif isinstance(text, Term) and text.op == "jointext":
            it.oblige("collected", text.args[0] == EMPTY and text.args[1].args[1] == kt, node, f, st, "an edit gets another text")
        elif isinstance(text, Term) and text.op == "centry":
            it.oblige("collected", False, node, f, st, "only one of the texts inserted at a position is used")
        else:
            it.oblige("collected", None, node, f, st)
        st.setg("prevend", end if end is not None else it.freshint("end"))
        st.setg("emitted", TRUE)

    def on_yield(self, it, st, func, v, node):
        if isinstance(v, Tup) and len(v.items) == 3:
            st = st.copy()
            self.emit(it, st, v, node)
            return st


def run_get(factory, ctx, prog):
    cls = prog.cls("mutablestring.AbstractMutableString")
    f = cls.find_method("_get_changes")
    if f is None:
        return
    me = Obj(0, cls, "self")
    h = Get(me)
    it = factory(h)
    for s, v in it.run_fn(State(), FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        if isinstance(v, Raised) and v.exc.name not in ("IndexError", "StopIteration", "KeyError"):
            key, pe, before = s.g("curkey"), s.g("prevend"), s.g("before")
            if key in (None, NONE):
                continue
            if pe is None or before is None:
                it.oblige("no-overlap", False, f.node, f, s, "the first edit may be refused")
                continue
            it.oblige("no-overlap", s.entails(it.as_lin(s, pe) - key - 1), f.node, f, s, "an edit after the one before it may be refused")
            it.oblige("no-overlap", s.entails(key - it.as_lin(s, before)), f.node, f, s,
                      "edits that do not overlap may be refused because they were not made in order")


# ------------------------------------------------ recording edits, edit context

class Rec(Hooks):
    opaque = ("_apply_changes", "_get_changes", "_update_text", "text_changed", "text")

    def __init__(self, me, text, total, key):
        self.me, self.text, self.total, self.key = me, text, total, key

    def getitem(self, it, st, base, key, node):
        if base == self.me and isinstance(key, SliceV):
            lo, hi = it.as_lin(st, key.lo), it.as_lin(st, key.hi)
            if lo is not None and hi is not None and st.entails(lo) and st.entails(hi - lo) and st.entails(self.total - hi):
                return [(st, T("slice", self.text, lo, hi))]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label.endswith(".text") and recv == self.me:
            return [(st, self.text)]
        if label == ".indices" and recv == self.key:
            s, e = sym(T("in", "start")), sym(T("in", "end"))
            if st.assume(s, e, self.total - s, self.total - e) is None:
                return []
            return [(st, Tup((s, e, num(1))))]
        if label.endswith("._apply_changes"):
            it.oblige("context", st.g("recorded") == TRUE or st.g("nothing") == TRUE, node, it.stack[-1].func, st,
                      "edits are applied before the edit is recorded")
            return [(st.setg("applied", TRUE), NONE)]
        if label in (".append", ".insert", ".extend") and args and isinstance(args[-1], Tup):
            st.setg("recorded", TRUE)
            base = recv
            st.setg("rec", Tup((base if isinstance(base, (Term, V)) else NONE, args[-1])))
            return [(st, NONE)]
        if label == ".clear" and isinstance(recv, Term) and recv.op == "attr" and recv.args[0] == self.me:
            return [(st.setg("cleared", TRUE), NONE)]
        if label == "len" and args and args[0] == self.me:
            return [(st, self.total)]


def find_counter(factory, prog, cls, me):
    """The attribute __enter__ increments."""
    f = cls.find_method("__enter__")
    it = factory(Hooks())
    for s, v in it.run_fn(State(), FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        for (o, name), val in s.heap.items():
            if o == me and isinstance(val, Lin) and val == sym(T("attr", me, name, 0)) + 1:
                return name
    return None


def run_setitem(factory, ctx, prog):
    cls = prog.cls("mutablestring.MutableString")
    me = Obj(0, cls, "self")
    text = T("in", "text")
    total = sym(T("len", text, 0))
    key = T("in", "key")
    h = Rec(me, text, total, key)
    counter = find_counter(factory, prog, cls, me)
    h.preds = {}
    it = factory(h)
    new = T("in", "new")
    f = cls.find_method("__setitem__")
    a = f.arg_names()
    n = None
    st = State()
    st.assume(total)
    newlen = it.len_of(st, new)
    ctxv = sym(T("attr", me, counter, 0)) if counter else None
    if ctxv is not None:
        st.assume(ctxv)
    st.facts[("isinstance", key, "slice")] = True
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {a[0]: me, a[1]: key, a[2]: new}, None, None):
        if isinstance(v, Raised):
            if v.exc.name == "IndexError" and not s.unk:
                continue
            it.oblige("recorded", None, f.node, f, s)
            continue
        lo, hi = s.copy(), None
        S, E = sym(T("in", "start")), sym(T("in", "end"))
        if not any(t == T("in", "start") for c in s.cons for t, _ in c.c):
            # an index
            S = sym(key)
        if s.g("recorded") == TRUE:
            base, tup = s.g("rec").items
            if len(tup.items) >= 2:
                e, t = tup.items[-2], tup.items[-1]
                it.oblige("recorded", t == new, f.node, f, s, "another text than the given one is recorded")
                e = it.as_lin(s, e)
                if S != sym(key) and e is not None:
                    for cons, exp in (([E - S], E), ([S - E - 1], S)):
                        s2 = s.copy().assume(*cons)
                        if s2 is not None:
                            it.oblige("recorded", s2.entails_eq(e - exp), f.node, f, s2,
                                      "the edit is recorded to end at {} instead of {}".format(e, exp))
                if isinstance(base, Term) and base.op == "item" and isinstance(base.args[1], Lin) and S != sym(key):
                    it.oblige("recorded", s.entails_eq(base.args[1] - S), f.node, f, s, "the edit is recorded to start at another position")
            if ctxv is not None:
                for cons, exp in (([-ctxv], True), ([ctxv - 1], False)):
                    s2 = s.copy().assume(*cons)
                    if s2 is not None:
                        it.oblige("context", (s2.g("applied") == TRUE) == exp, f.node, f, s2,
                                  "an edit outside an edit context is not applied" if exp else
                                  "an edit inside an edit context is applied immediately")
        else:
            # allowed only if the edit changes nothing
            ok = False
            if S != sym(key):
                ln = newlen
                s2 = s.copy()
                tr = s.facts.get(("truth", new))
                if (tr is False or s.entails(-newlen)) and s.entails(S - E):
                    ok = True
            for k, val in s.facts.items():
                if val is True and k[0] in ("eq", "==") and new in k[1:]:
                    ok = True
            for c in s.trace:
                pass
            it.oblige("recorded", ok, f.node, f, s, "an edit that changes the text may be dropped")


def run_exit(factory, ctx, prog):
    cls = prog.cls("mutablestring.MutableString")
    me = Obj(0, cls, "self")
    text = T("in", "text")
    h = Rec(me, text, sym(T("len", text, 0)), T("in", "key"))
    counter = find_counter(factory, prog, cls, me)
    if counter is None:
        return
    f = cls.find_method("__exit__")
    a = f.arg_names()
    for exc in (True, False):
        it = factory(h)
        st = State()
        ctxv = sym(T("attr", me, counter, 0))
        st.assume(ctxv - 1)
        st.setg("nothing", TRUE)
        args = {a[0]: me}
        for n in a[1:]:
            args[n] = T("in", n) if exc else NONE
            if exc:
                st.facts[("isnone", T("in", n))] = False
                st.facts[("truth", T("in", n))] = True
        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), args, None, None):
            if isinstance(v, Raised):
                it.oblige("context", None, f.node, f, s)
                continue
            left = it.as_lin(s, s.heap.get((me, counter)) or ctxv)
            if exc:
                it.oblige("all-or-nothing", s.g("applied") != TRUE, f.node, f, s, "edits of a failed edit context are applied")
                it.oblige("all-or-nothing", s.g("cleared") == TRUE or any(
                    o == me and k != counter and not isinstance(val, Lin) for (o, k), val in s.heap.items()),
                    f.node, f, s, "edits of a failed edit context are kept for later")
                it.oblige("context", left is not None and s.entails_eq(left), f.node, f, s, "a failed edit context is not left")
                it.oblige("all-or-nothing", v in (NONE, FALSE), f.node, f, s, "the exception is swallowed")
            else:
                for cons, exp in (([ctxv - 2], False), ([1 - ctxv if False else num(1) - ctxv], True)):
                    s2 = s.copy().assume(*cons)
                    if s2 is None:
                        continue
                    it.oblige("context", (s2.g("applied") == TRUE) == exp, f.node, f, s2,
                              "the edits are not applied when the outermost edit context ends" if exp else
                              "the edits are applied when a nested edit context ends")
                    it.oblige("context", left is not None and s2.entails_eq(left - ctxv + 1), f.node, f, s2,
                              "the nesting of edit contexts is miscounted")


# ------------------------------------------------ applying and reporting

class Rep(Edits):
    opaque = ("_update_text", "text_changed", "_get_changes")

    def __init__(self, me):
        Edits.__init__(self)
        self.me = me

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label.endswith("._get_changes"):
            return [(st, T("in", "getchanges"))]
        if label in ("list", "tuple") and args and args[0] == T("in", "getchanges"):
            st2 = st.copy().note(getattr(node, "lineno", 0), "overlap refused")
            n = it.len_of(st, self.changes)
            st.assume(n - 1)
            st2.setg("refused", TRUE)
            return [(st2, Raised(Exc("RuntimeError"))), (st, self.changes)]
        if label == ".clear" and isinstance(recv, Term) and recv.op == "attr" and recv.args[0] == self.me:
            return [(st.setg("cleared", TRUE), NONE)]
        if label.endswith("._update_text"):
            f = it.stack[-1].func
            it.oblige("reported", args and args[0] == self.changes or None, node, f, st, "")
            it.oblige("cleared", st.g("cleared") == TRUE, node, f, st,
                      "the recorded edits are still there while they are applied")
            n = st.g("updates") or num(0)
            return [(st.setg("updates", n + 1), NONE)]
        if label.endswith(".text_changed"):
            f = it.stack[-1].func
            it.oblige("reported", st.g("updates") == num(1), node, f, st, "the change is reported before it was made")
            st.setg("reported", TRUE)
            if len(args) != 3:
                return None
            p, r, a = [it.as_lin(st, x) for x in args]
            first = T("item", self.changes, num(0), 0)
            pp = self.parts(it, st, first)
            head = pp[0]
            it.oblige("reported", p is not None and st.entails_eq(p - head), node, f, st, "the change is reported at {}".format(p))
            if st.g("done") == TRUE or st.g("prev") is not None:
                last, off = it.as_lin(st, st.g("prev")), it.as_lin(st, st.g("offnext"))
                it.oblige("reported", r is not None and st.entails_eq(r - (last - head)), node, f, st,
                          "{} is reported as removed instead of {}".format(r, last - head))
                it.oblige("reported", a is not None and st.entails_eq(a - (last - head + off)), node, f, st,
                          "{} is reported as added instead of {}".format(a, last - head + off))
            else:
                it.oblige("reported", None, node, f, st)
            return [(st, NONE)]

    def attr(self, it, st, base, name):
        if base == self.me and (base, name) not in st.heap and self.me.cls.find_method(name) is None:
            v = T("attr", base, name, 0)
            return v


def run_report(factory, ctx, prog):
    cls = prog.cls("mutablestring.AbstractMutableString")
    f = cls.find_method("_apply_changes")
    if f is None:
        return
    me = Obj(0, cls, "self")
    h = Rep(me)
    it = factory(h)
    for s, v in it.run_fn(State(), FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        if isinstance(v, Raised):
            if s.g("refused") == TRUE:
                it.oblige("cleared", s.g("cleared") == TRUE, f.node, f, s, "refused edits are kept for later")
                it.oblige("all-or-nothing", s.g("updates") is None, f.node, f, s, "the text is changed although the edits are refused")
            continue
        if s.g("refused") == TRUE:
            it.oblige("all-or-nothing", False, f.node, f, s, "the refusal of overlapping edits is swallowed")
            continue
        if s.g("cleared") == TRUE:
            it.oblige("reported", s.g("updates") == num(1) and s.g("reported") == TRUE, f.node, f, s,
                      "recorded edits are dropped without being applied and reported")


# ------------------------------------------------ what a document does on an edit

class Fun(Hooks):
    def __init__(self, me, changes):
        self.me, self.changes = me, changes
        self.opaque = ("_update_cursors", "_store_undo", "_reverse_changes", "_check_undo_state", "emit",
                       "MutableString._update_text")

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = it.stack[-1].func
        if label.endswith("mutablestring.MutableString._update_text"):
            it.oblige("funnel", self.changes in args or None, node, f, st, "")
            n = st.g("texts") or num(0)
            return [(st.setg("texts", n + 1), NONE)]
        if label.endswith("._update_cursors"):
            n = st.g("cursors") or num(0)
            return [(st.setg("cursors", n + 1), NONE)]


def run_funnel(factory, ctx, prog):
    cls = prog.cls("document.Document")
    f = cls.find_method("_update_text")
    me = Obj(0, cls, "self")
    changes = T("in", "changes")
    h = Fun(me, changes)
    it = factory(h)
    a = f.arg_names()
    rev = sym(T("attr", me, "_revision", 0))
    for s, v in it.run_fn(State(), FnV(f, None, None, f.cls), {a[0]: me, a[1]: changes}, None, None):
        if isinstance(v, Raised):
            it.oblige("funnel", None, f.node, f, s)
            continue
        it.oblige("funnel", s.g("texts") == num(1), f.node, f, s, "the text is not updated exactly once")
        if ctx.program.cls("document.AbstractDocument").find_method("_update_cursors"):
            it.oblige("funnel", s.g("cursors") == num(1), f.node, f, s, "the cursors are not updated exactly once")


class Rev(Hooks):
    def __init__(self, me):
        self.me = me
        self.opaque = ("_update_cursors",)


def run_revision(factory, ctx, prog):
    cls = prog.cls("document.AbstractDocument")
    me = Obj(0, cls, "self")
    rf = cls.find_method("revision")
    it = factory(Hooks())
    r = it.run_fn(State(), FnV(rf, None, None, rf.cls), {rf.arg_names()[0]: me}, None, None)
    if len(r) != 1 or not isinstance(r[0][1], Term):
        return
    term = r[0][1]
    f = cls.find_method("_update_text")
    it = factory(Rev(me))
    a = f.arg_names()
    for s, v in it.run_fn(State(), FnV(f, None, None, f.cls), {a[0]: me, a[1]: T("in", "changes")}, None, None):
        if isinstance(v, Raised):
            it.oblige("revision", None, f.node, f, s)
            continue
        x = s.heap.get((me, term.args[1]))
        x = it.as_lin(s, x) if x is not None else None
        it.oblige("revision", x is not None and s.entails(x - sym(term) - 1), f.node, f, s, "an edit does not increase the revision")
        it.oblige("revision", s.heap.get((me, "modified")) == TRUE, f.node, f, s, "an edit does not mark the document as modified")


# ------------------------------------------------ keys

class Key(Rec):
    pass


def run_key(factory, ctx, prog):
    cls = prog.cls("mutablestring.MutableString")
    f = cls.find_method("_parse_key")
    if f is None:
        return
    me = Obj(0, cls, "self")
    text = T("in", "text")
    total = sym(T("len", text, 0))
    key = T("in", "key")
    h = Rec(me, text, total, key)
    for kind in ("slice", "int"):
        it = factory(h)
        st = State()
        st.assume(total)
        st.facts[("isinstance", key, "slice")] = kind == "slice"
        a = f.arg_names()
        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {a[0]: me, a[1]: key}, None, None):
            indices = any(t == T("in", "start") for c in s.cons for t, _ in c.c)
            k = sym(key)
            S, E = sym(T("in", "start")), sym(T("in", "end"))
            if isinstance(v, Raised):
                if indices:
                    it.oblige("keys", False, f.node, f, s, "a slice is refused")
                else:
                    for cons in ([k, total - k - 1], [num(-1) - k, k + total]):
                        s2 = s.copy().assume(*cons)
                        it.oblige("keys", s2 is None, f.node, f, s2 or s, "a valid index is refused")
                continue
            if not (isinstance(v, Tup) and len(v.items) == 2):
                it.oblige("keys", None, f.node, f, s)
                continue
            x, y = [it.as_lin(s, i) for i in v.items]
            if x is None or y is None:
                it.oblige("keys", None, f.node, f, s)
                continue
            it.oblige("keys", s.entails(x) and s.entails(y - x) and s.entails(total - y), f.node, f, s,
                      "a key gives the range {} to {}".format(x, y))
            if indices:
                it.oblige("keys", s.entails_eq(x - S), f.node, f, s, "a slice starts at {}".format(x))
                s2 = s.copy().assume(E - S)
                if s2:
                    it.oblige("keys", s2.entails_eq(y - E), f.node, f, s2, "a slice ends at {}".format(y))
                s2 = s.copy().assume(S - E - 1)
                if s2:
                    it.oblige("keys", s2.entails_eq(y - S), f.node, f, s2, "an inverted slice ends at {}".format(y))
            else:
                it.oblige("keys", s.entails_eq(y - x - 1), f.node, f, s, "an index gives the range {} to {}".format(x, y))
                for cons, exp in (([k], k), ([num(-1) - k], k + total)):
                    s2 = s.copy().assume(*cons)
                    if s2:
                        it.oblige("keys", s2.entails_eq(x - exp), f.node, f, s2, "an index gives {}".format(x))


# ------------------------------------------------ replace and re_sub

class Sub(Hooks):
    def __init__(self, me, start):
        self.me, self.start = me, start

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label in (".find",) and recv == self.text:
            p = sym(T("found", self.text, next(it.counter)))
            st2 = st.copy()
            if st2.assume(-p - 1, p + 1) is None:
                st2 = None
            lo = it.as_lin(st, args[1]) if len(args) > 1 else num(0)
            tail = it.as_lin(st, st.g("tail"))
            it.oblige("occurrence", None if lo is None or tail is None else st.entails_eq(lo - tail), node, it.stack[-1].func, st,
                      "the next occurrence is searched from {}, not from the end of the previous one, {}".format(lo, tail))
            ok = st.assume(p, p - lo) if lo is not None else st.assume(p)
            out = []
            if st2:
                out.append((st2.setg("occ", num(-1)).setg("done", TRUE), num(-1)))
            if ok:
                st.setg("occ", p)
                self.olen = it.len_of(st, args[0])
                out.append((st, p))
            return out
        if label in (".start", ".end") and isinstance(recv, Term) and not args:
            t = sym(T("match" + label, recv))
            return [(st, t)]

    def getitem(self, it, st, base, key, node):
        if base == self.me:
            return [(st, self.text)]

    def setitem(self, it, st, base, key, val, node):
        if base != self.me:
            return None
        f = it.stack[-1].func
        if isinstance(key, SliceV):
            lo, hi = it.as_lin(st, key.lo), it.as_lin(st, key.hi)
            if lo is None or hi is None:
                it.oblige("occurrence", None, node, f, st)
                return [(st, None)]
            occ = it.as_lin(st, st.g("occ"))
            if occ is not None:
                occ = Tup((occ, occ + self.olen))
            if occ is None:
                ms = [t for t, _ in lo.c if isinstance(t, Term) and t.op == "match.start"]
                if len(ms) == 1:
                    m = ms[0].args[0]
                    occ = Tup((sym(T("match.start", m)), sym(T("match.end", m))))
            if occ is None:
                it.oblige("occurrence", None, node, f, st)
                return [(st, None)]
            s, e = occ.items
            it.oblige("occurrence", st.entails_eq(lo - s - self.start) and st.entails_eq(hi - e - self.start), node, f, st,
                      "{}:{} is replaced instead of {}:{}".format(lo, hi, s + self.start, e + self.start))
            n = it.as_lin(st, st.g("n"))
            if n is not None:
                s2 = st.copy().assume(self.count - 1)
                if s2:
                    it.oblige("count", s2.entails(self.count - n - 1), node, f, s2,
                              "an occurrence is replaced although {} of at most {} are replaced already".format(n, self.count))
                st.setg("n", n + 1)
            st.setg("tail", e).setg("pending", NONE)
        else:
            it.oblige("occurrence", None, node, f, st)
        return [(st, None)]

    def enter(self, it, st, val, node):
        return st.setg("in", TRUE)

    def iter_elem(self, it, st, seq, k, elem, node):
        if self.matches(seq):
            st.setg("pending", TRUE)
            return [(st, elem)]
        st.setg("n", NONE)

    def iter_next(self, it, st, seq, k, elem, node):
        if self.matches(seq):
            ok = st.g("pending") != TRUE
            if not ok and any(w in repr(st.facts) for w in ("group", "replacement")):
                ok = None       # it may be the same text
            it.oblige("count", ok, node, it.stack[-1].func, st, "a match is not replaced")

    def iter_done(self, it, st, seq, k, node):
        if self.matches(seq):
            st.setg("done", TRUE)

    def matches(self, seq):
        if isinstance(seq, Term) and seq.op == "enumerate":
            seq = seq.args[0]
        return isinstance(seq, Term) and "finditer" in repr(seq) and "islice" not in repr(seq)


def run_sub(factory, ctx, prog, name):
    cls = prog.cls("document.AbstractDocument")
    f = cls.find_method(name)
    me = Obj(0, cls, "self")
    start = sym(T("in", "start"))
    h = Sub(me, start)
    h.text = T("in", "text")
    h.opaque = ("AbstractMutableString.__exit__", "AbstractMutableString.__enter__")
    it = factory(h)
    st = State()
    a = f.arg_names()
    bound = {a[0]: me}
    for n in a[1:]:
        bound[n] = T("in", n)
    if "count" in a:
        bound["count"] = sym(T("in", "count"))
    bound["start"] = start
    h.count = bound["count"]
    st.assume(start)
    st.setg("n", num(0)).setg("tail", num(0)).setg("done", NONE).setg("pending", NONE)
    for limited in (True, False):
        st1 = st.copy().assume(h.count - 1 if limited else -h.count)
        for s, v in it.run_fn(st1, FnV(f, None, None, f.cls), dict(bound), None, None):
            n = it.as_lin(s, s.g("n"))
            if isinstance(v, Raised) or n is None or s.g("done") == TRUE:
                continue
            s2 = s.copy().assume(n - 1)
            if s2:
                it.oblige("count", s2.entails_eq(n - h.count), f.node, f, s2,
                          "no more occurrences are replaced although {} were, with {} the given number".format(n, h.count))


def scan_writers(ctx, prog):
    """The text attribute is only assigned by the constructor and by _update_text."""
    cls = prog.cls("mutablestring.MutableString")
    tm = cls.find_method("text")
    names = set()
    for n in ast.walk(tm.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
            names.add(n.attr)
    upd = cls.find_method("_update_text")
    allowed = {"__init__", "_update_text"}
    # helpers only called from allowed methods
    for fn in prog.all_functions():
        owner = fn
        while owner.parent is not None:
            owner = owner.parent
        if not (owner.cls and any(c.qualname == cls.qualname for c in owner.cls.mro())):
            continue
        for n in model.own_nodes(fn.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in names \
                    and isinstance(n.value, ast.Name) and n.value.id in ("self",):
                ok = owner.name in allowed
                if not ok:
                    callers = set()
                    for g in prog.all_functions():
                        for m in model.own_nodes(g.node):
                            if isinstance(m, ast.Attribute) and m.attr == owner.name:
                                o = g
                                while o.parent is not None:
                                    o = o.parent
                                callers.add(o.name)
                    ok = bool(callers) and callers <= allowed
                ctx.check("only-writer", owner.short, ok, "the text is replaced without going through the recorded edits",
                          "{}:{}".format(fn.module.path if hasattr(fn.module, "path") else fn.module.name, n.lineno))


def run(ctx):
    P = ctx.program
    ctx.rule("pieces", "the new text consists of the old text up to each edit, the new text of the edit, and the old text after its end, in order")
    ctx.rule("stored", "the new text replaces the old text")
    ctx.rule("collected", "every recorded edit is passed on with its start, its end and all texts given for its position, in order")
    ctx.rule("no-overlap", "an edit that starts before the end of the one before it is refused")
    ctx.rule("recorded", "every edit that changes something is recorded for the range and text given")
    ctx.rule("context", "edits are applied at once, or when the outermost edit context ends")
    ctx.rule("all-or-nothing", "when an edit context fails, or edits are refused, none of its edits is applied")
    ctx.rule("cleared", "recorded edits are forgotten before they are applied, also when they are refused")
    ctx.rule("reported", "the position and the number of removed and added characters are reported after the text has changed")
    ctx.rule("funnel", "an edit of a document updates the cursors and the text exactly once")
    ctx.rule("revision", "an edit increases the revision and marks the document modified")
    ctx.rule("keys", "indices and slices denote a range inside the text, like for a string")
    ctx.rule("occurrence", "replacing text changes exactly the text that was found")
    ctx.rule("count", "every occurrence is replaced, or as many of them as the given number, in order")
    ctx.rule("only-writer", "the text is only replaced by applying edits")
    ctx.analyse(lambda fa: run_apply(fa, ctx, P))
    ctx.analyse(lambda fa: run_get(fa, ctx, P))
    ctx.analyse(lambda fa: run_setitem(fa, ctx, P))
    ctx.analyse(lambda fa: run_exit(fa, ctx, P))
    ctx.analyse(lambda fa: run_report(fa, ctx, P))
    ctx.analyse(lambda fa: run_funnel(fa, ctx, P))
    ctx.analyse(lambda fa: run_revision(fa, ctx, P))
    ctx.analyse(lambda fa: run_key(fa, ctx, P))
    ctx.analyse(lambda fa: run_sub(fa, ctx, P, "replace"))
    ctx.analyse(lambda fa: run_sub(fa, ctx, P, "re_sub"))
    scan_writers(ctx, P)
    ctx.floor("pieces", 1)
    ctx.floor("context", 1)
