"""What the checks on documents share: the list of edits applied in one go."""
from pa.interp import *


class Edits(Hooks):
    """Gives meaning to the sorted, non-overlapping list of (start, end, text) edits.

    Ghosts: offnext (growth of the text by the edits including the current one), prev (end of the current or last edit), cur (the current edit).
    """
    def __init__(self):
        self.changes = T("in", "changes")
        self.text = None      # the term of the old text

    def parts(self, it, st, elem):
        s, e, text = sym(T("start", elem)), sym(T("end", elem)), T("text", elem)
        st.facts[("isnone", text)] = False
        n = it.len_of(st, text)
        if st.assume(s, e - s, n) is None:
            return None
        if self.text is not None:
            if st.assume(it.len_of(st, self.text) - e) is None:
                return None
        return s, e, text, n

    def is_elem(self, v):
        return isinstance(v, Term) and v.op == "item" and v.args[0] == self.changes

    def getitem(self, it, st, base, key, node):
        if self.is_elem(base) and isinstance(key, Lin) and key.const and -3 <= key.k <= 2:
            p = self.parts(it, st, base)
            if p is None:
                return []
            return [(st, p[key.k % 3])]
        return None

    def iter_start(self, it, st, seq, node):
        if seq == self.changes:
            first = sym(T("start", T("item", self.changes, num(0), 0)))
            st.assume(first)
            st.setg("emitted", FALSE).setg("offnext", num(0)).setg("prev", first).setg("cur", NONE).setg("iterated", TRUE)
        return None

    def iter_elem(self, it, st, seq, k, elem, node):
        if seq != self.changes:
            return None
        p = self.parts(it, st, elem)
        if p is None:
            return []
        s, e, text, n = p
        off = st.g("offnext")
        prev = st.g("prev")
        st.setg("offnext", off + n - (e - s))
        if st.assume(s - prev, off + s) is None:
            return []
        st.setg("prev", e)
        st.setg("cur", elem)
        st.setg("emitted", FALSE)
        return [(st, Tup((s, e, text)))]

    def iter_next(self, it, st, seq, k, elem, node):
        if seq == self.changes:
            st.setg("cur", NONE)

    def iter_done(self, it, st, seq, k, node):
        if seq == self.changes:
            st.setg("cur", NONE)
            st.setg("done", TRUE)
        return [st]


def text_term(ctx, factory, prog, cls, obj):
    """The term text() returns for obj."""
    f = prog.cls(cls).find_method("text")
    it = factory(Hooks())
    r = it.run_fn(State(), FnV(f, None, None, f.cls), {f.arg_names()[0]: obj}, None, None)
    if len(r) == 1 and isinstance(r[0][1], Term):
        return r[0][1]
    return None
