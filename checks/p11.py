"""P11: cursors keep pointing at the same text when the document is edited."""
from pa.interp import *
from pa import model


class Reg(Hooks):
    """Find out where a new Cursor registers itself."""
    def __init__(self, doc, me):
        self.doc, self.me, self.names = doc, me, set()

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label in (".add", ".append") and isinstance(recv, Term) and recv.op == "attr" and recv.args[0] == self.doc \
                and args and args[0] == self.me:
            self.names.add(recv.args[1])
            st.setg("reg", TRUE)
            return [(st, NONE)]
        return None


class H(Hooks):
    def __init__(self, doc, names, changes):
        self.doc, self.names, self.changes = doc, names, changes
        self.cursors = [T("attr", doc, n, 0) for n in names]

    def which(self, seq):
        if seq == self.changes:
            return "chg"
        if seq in self.cursors:
            return "cur"

    def attr(self, it, st, base, name):
        if base == self.doc and name in self.names:
            return T("attr", base, name, 0)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label in ("list", "tuple", "set", "frozenset", "iter") and len(args) == 1 and self.which(args[0]):
            return [(st, args[0])]
        if label in (".copy",) and self.which(recv):
            return [(st, recv)]

    def iter_start(self, it, st, seq, node):
        w = self.which(seq)
        if w == "chg":
            st.setg("off", num(0)).setg("offnext", num(0))
        return None

    def iter_elem(self, it, st, seq, k, elem, node):
        w = self.which(seq)
        if w == "chg":
            s = sym(T("start", elem))
            e = sym(T("end", elem))
            text = T("text", elem)
            n = it.len_of(st, text)
            off = st.g("offnext")
            st.setg("off", off)
            st.setg("chg", Tup((s + off, e + off, n)))
            st.setg("offnext", off + n - (e - s))
            st.setg("done.cur", FALSE)
            if st.assume(s, e - s, n, off + s) is None:
                return []
            elem = Tup((s, e, text))
            return [(x, elem) for x in self.spec(it, st)]
        elif w == "cur":
            st.setg("cur", elem)
            st.setg("done.chg", FALSE)
            p = sym(T("pos", elem))
            e = sym(T("curend", elem))
            st.heap[(elem, "pos")] = p
            out = []
            for v in (e, NONE):
                s2 = st.copy()
                s2.heap[(elem, "end")] = v
                if s2.assume(p, e - p) is not None:
                    s2.setg("xp", p).setg("xe", v)
                    out.append((s2, elem))
            return out
        return None

    def spec(self, it, st):
        """Advance the expected position and end of the current cursor by the current edit."""
        cur, chg = st.g("cur"), st.g("chg")
        if cur in (None, NONE) or chg in (None, NONE):
            return [st]
        start, end, n = chg.items
        delta = n - (end - start)
        p0, e0 = it.as_lin(st, st.g("xp")), st.g("xe")
        out = []
        for cons, exp in (([start - p0], p0),
                          ([p0 - start - 1, end - p0], start),
                          ([p0 - end - 1, p0 - start - 1], p0 + delta)):
            s = st.copy().assume(*cons)
            if s is None:
                continue
            s.setg("xp", exp)
            if e0 == NONE:
                out.append(s)
                continue
            e = it.as_lin(s, e0)
            for cons2, exp2 in (([start - e - 1], e),
                                ([e - start, end - e], start + n),
                                ([e - end - 1, e - start], e + delta)):
                s2 = s.copy().assume(*cons2)
                if s2 is not None:
                    out.append(s2.setg("xe", exp2))
        return out

    def iter_next(self, it, st, seq, k, elem, node):
        w = self.which(seq)
        if not w:
            return
        if w == "cur":
            self.verify(it, st, node)
            if st.g("chg") in (None, NONE):
                it.oblige("every-cursor", st.g("done.chg") == TRUE, node, it.stack[-1].func, st,
                          "an edit may be skipped for a cursor")
        elif st.g("cur") in (None, NONE):
            it.oblige("every-cursor", st.g("done.cur") == TRUE, node, it.stack[-1].func, st,
                      "a cursor may be skipped for an edit")
        st.setg(w, NONE)

    def iter_done(self, it, st, seq, k, node):
        w = self.which(seq)
        if w:
            st.setg("done." + w, TRUE)
            st.setg(w, NONE)
        return [st]

    def verify(self, it, st, node):
        cur, chg = st.g("cur"), st.g("chg")
        f = it.stack[-1].func
        p1, e1 = st.heap.get((cur, "pos")), st.heap.get((cur, "end"))
        p1 = it.as_lin(st, p1)
        p0, e0 = it.as_lin(st, st.g("xp")), st.g("xe")
        if chg in (None, NONE):
            # the expected values have followed the edits
            self.same(it, "pos", st, p1, p0, node, f)
            self.same(it, "end", st, e1, e0, node, f)
            return
        start, end, n = chg.items
        delta = n - (end - start)
        for cons, exp in (([start - p0], p0),
                          ([p0 - start - 1, end - p0], start),
                          ([p0 - end - 1, p0 - start - 1], p0 + delta)):
            s = st.copy().assume(*cons)
            if s is not None:
                self.same(it, "pos", s, p1, exp, node, f)
        if e0 == NONE or e1 == NONE:
            self.same(it, "end", st, e1, e0, node, f)
            return
        e0 = it.as_lin(st, e0)
        for cons, exp in (([start - e0 - 1], e0),
                          ([e0 - start, end - e0], start + n),
                          ([e0 - end - 1, e0 - start], e0 + delta)):
            s = st.copy().assume(*cons)
            if s is not None:
                self.same(it, "end", s, e1, exp, node, f)

    def same(self, it, rule, st, v, exp, node, f):
        if v == NONE or exp == NONE:
            ok = v == exp
        else:
            v, exp = it.as_lin(st, v), it.as_lin(st, exp)
            ok = None if v is None or exp is None else st.entails_eq(v - exp)
        it.oblige(rule, ok, node, f, st, "the {} of a cursor becomes {} instead of {}".format(rule, v, exp))


def run_reg(factory, prog, res):
    f = prog.func("document.Cursor.__init__")
    doc, me = T("in", "document"), Obj(1, prog.cls("document.Cursor"), "self")
    h = Reg(doc, me)
    it = factory(h)
    names = f.arg_names()
    bound = {names[0]: me, names[1]: doc}
    for n in names[2:]:
        bound[n] = sym(T("in", n))
    for s, v in it.run_fn(State(), FnV(f, None, None, f.cls), bound, None, None):
        it.oblige("registered", s.g("reg") == TRUE and not isinstance(v, Raised), f.node, f, s,
                  "a new cursor is not made known to its document")
    res |= h.names


def run_upd(factory, prog, names, fname):
    f = prog.func(fname)
    doc = Obj(0, prog.cls("document.AbstractDocument"), "self")
    changes = T("in", "changes")
    h = H(doc, names, changes)
    it = factory(h)
    a = f.arg_names()
    for s, v in it.run_fn(State(), FnV(f, None, None, f.cls), {a[0]: doc, a[1]: changes}, None, None):
        if isinstance(v, Raised):
            it.oblige("every-cursor", None, f.node, f, s, "may raise " + v.exc.name)
            continue
        it.oblige("every-cursor", s.g("done.chg") == TRUE and s.g("done.cur") in (TRUE, None)
                  or s.g("done.cur") == TRUE and s.g("done.chg") in (TRUE, None), f.node, f, s,
                  "the update may end before all cursors and edits were handled")


def run(ctx):
    ctx.rule("registered", "every new cursor is added to the cursors of its document")
    ctx.rule("pos", "for one edit: a start at or before the edit stays, a start inside moves to its begin, one after it is shifted")
    ctx.rule("end", "for one edit: an end before the edit stays, an end inside moves to the end of the new text, one after it is shifted; an open end stays open")
    ctx.rule("every-cursor", "all cursors are updated for all edits, later edits shifted by the growth of the earlier ones")
    ctx.assume("edits arrive sorted and non-overlapping (decided by the property on applying edits)")
    names = set()
    ctx.analyse(lambda factory: run_reg(factory, ctx.program, names))
    ctx.analyse(lambda factory: run_upd(factory, ctx.program, names or {"_cursors"}, "document.AbstractDocument._update_text"))
    ctx.extra["cursor_collections"] = sorted(names)
    ctx.floor("registered", 1)
    ctx.floor("every-cursor", 1)
