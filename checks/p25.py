"""P25: formatting covers the text exactly; every token gets its format."""
import ast
from pa.interp import *
from pa import model

UNK = Const("?")
STREAM, START, FMT = T("stream"), sym(T("in", "start")), T("format")
END = sym(T("in", "end"))
R1, R2 = Const("format 1"), Const("format 2")


class Base(Hooks):
    def fn(self, it):
        return next((f.func for f in reversed(it.stack) if f.func is not None), None)


# ---------------------------------------------------------------- streams

class Stream(Base):
    """Items (pos, end, format) of a stream: last fetched, held back, number."""
    def items(self, it, st):
        p, e = it.freshint("pos"), it.freshint("end")
        st.assume(p - st.g("last"), e - p - 1)
        st.setg("last", e)
        out = []
        for r in self.formats:
            s = st.copy()
            out.append((s, p, e, r))
        return out


def item3(it, st, v):
    x = it.exact_items(st, v) if isinstance(v, (Tup, Obj)) else None
    if x is None or len(x) != 3:
        return None
    a, b = it.as_lin(st, x[0]), it.as_lin(st, x[1])
    if a is None or b is None:
        return None
    return a, b, x[2]


class Fix(Stream):
    formats = (R1,)
    """ghosts: n0 (no item yet), the item that is held: hp, he, hr; held, first"""
    def __init__(self, end):
        self.end = end

    def iter_elem(self, it, st, seq, k, elem, node):
        if seq == STREAM:
            out = []
            for s, p, e, r in self.items(it, st):
                it.oblige("every item", s.g("held") != Const("two"), node, self.fn(it), s, "an item is lost")
                if s.g("held") == TRUE:
                    # the one before is still to be yielded
                    s.setg("pp", s.g("hp")).setg("pe", s.g("he")).setg("pr", s.g("hr")).setg("pf", s.g("first"))
                    s.setg("held", Const("two")).setg("first", FALSE)
                else:
                    s.setg("held", TRUE)
                    s.setg("first", TRUE if s.g("none yet") == TRUE else FALSE)
                s.setg("none yet", FALSE)
                s.setg("hp", p).setg("he", e).setg("hr", r)
                out.append((s, Tup([p, e, r])))
            return out

    def iter_done(self, it, st, seq, k, node):
        if seq == STREAM:
            st.setg("done", TRUE)

    def yielded(self, it, st, v, node):
        f = self.fn(it)
        x = item3(it, st, v)
        if x is None:
            it.oblige("every item", None, node, f, st)
            return
        two = st.g("held") == Const("two")
        it.oblige("every item", two or st.g("held") == TRUE, node, f, st, "an item is yielded twice")
        if not two and st.g("held") != TRUE:
            return
        p, e, r, first = [st.g(n) for n in (("pp", "pe", "pr", "pf") if two else ("hp", "he", "hr", "first"))]
        last = not two and st.g("done") == TRUE
        it.oblige("every item", x[2] == r, node, f, st, "an item gets another format")
        if first == TRUE:
            ok = st.entails_eq(x[0] - p) or st.entails_eq(x[0] - START)
            it.oblige("first", ok and st.entails(x[0] - p) and st.entails(x[0] - START), node, f, st,
                      "the first item starts at {} instead of the largest of its position and the start".format(x[0]))
        else:
            it.oblige("first", st.entails_eq(x[0] - p), node, f, st, "the start of an item is changed")
        if last and self.end is not None:
            ok = st.entails_eq(x[1] - e) or st.entails_eq(x[1] - END)
            it.oblige("last", ok and st.entails(e - x[1]) and st.entails(END - x[1]), node, f, st,
                      "the last item ends at {} instead of the smallest of its end and the end of the range".format(x[1]))
        elif last or two or self.end is None:
            it.oblige("last", st.entails_eq(x[1] - e), node, f, st, "the end of an item is changed")
        else:
            # it may be the last one
            it.oblige("last", st.entails_eq(x[1] - e) and st.entails(END - e), node, f, st,
                      "an item is yielded that may be the last one and end too late")
        st.setg("held", TRUE if two else FALSE)


def run_fix(factory, P):
    f = P.func("util.fix_boundaries")
    n = f.arg_names()
    for end in (None, END):
        h = Fix(end)
        it = factory(h)
        st = State()
        for g in ("pp", "pe", "hp", "he"):
            st.setg(g, num(0))
        st.setg("pr", NONE).setg("hr", NONE).setg("pf", FALSE).setg("first", FALSE).setg("none yet", TRUE)
        st.setg("held", FALSE).setg("done", FALSE).setg("last", num(0))
        st.assume(START)
        if end is not None:
            st.assume(END - START)

        def on_yield(s, v):
            h.yielded(it, s, v, it.stack[-1].func.node if it.stack and it.stack[-1].func else f.node)
            return [(s, NEXT)]
        for s, v in it.run_fn(st, FnV(f), {n[0]: STREAM, n[1]: START, n[2]: END if end is not None else NONE}, None, on_yield):
            if isinstance(v, Raised):
                it.oblige("every item", False, f.node, f, s, "fix_boundaries raises {}".format(v.exc.name))
                continue
            it.oblige("every item", s.g("done") == TRUE and s.g("held") == FALSE, f.node, f, s, "an item is not yielded")


class Merge(Stream):
    formats = (R1, R2)
    """ghosts: the open group gp ge gr (open), the item fetched last np ne nr (new), closed since it was fetched"""
    def settle(self, it, st, node):
        """the item fetched last has been handled: it was added to the group or opened one"""
        f = self.fn(it)
        if st.g("new") != TRUE:
            return
        if st.g("open") == TRUE:
            # added
            it.oblige("merge", st.entails(st.g("ge") - st.g("np")) and st.g("gr") == st.g("nr"), node, f, st,
                      "items are merged that do not adjoin or have different formats")
            st.setg("ge", st.g("ne"))
        else:
            st.setg("open", TRUE).setg("gp", st.g("np")).setg("ge", st.g("ne")).setg("gr", st.g("nr"))
        st.setg("new", FALSE)

    def iter_elem(self, it, st, seq, k, elem, node):
        if seq == STREAM:
            self.settle(it, st, node)
            out = []
            for s, p, e, r in self.items(it, st):
                s.setg("np", p).setg("ne", e).setg("nr", r).setg("new", TRUE)
                out.append((s, Tup([p, e, r])))
            return out

    def iter_done(self, it, st, seq, k, node):
        if seq == STREAM:
            self.settle(it, st, node)
            st.setg("done", TRUE)

    def yielded(self, it, st, v, node):
        f = self.fn(it)
        x = item3(it, st, v)
        if x is None:
            it.oblige("every item", None, node, f, st)
            return
        if st.g("open") != TRUE:
            if st.g("new") == TRUE:
                self.settle(it, st, node)       # a group of one
            else:
                it.oblige("every item", False, node, f, st, "a range is yielded twice")
                return
        ok = st.entails_eq(x[0] - st.g("gp")) and st.entails_eq(x[1] - st.g("ge")) and x[2] == st.g("gr")
        it.oblige("every item", ok, node, f, st, "the merged range is not that of its items")
        if st.g("new") == TRUE:
            it.oblige("merge", not (st.g("gr") == st.g("nr") and not st.entails(st.g("np") - st.g("ge") - 1)), node, f, st,
                      "adjoining items with the same format are not merged")
        st.setg("open", FALSE)


def run_merge(factory, P):
    f = P.func("util.merge_adjacent")
    n = f.arg_names()
    for fac in (ExtV("tuple"), NTV("FormatRange", ("pos", "end", "textformat"))):
        h = Merge()
        it = factory(h)
        st = State()
        for g in ("gp", "ge", "np", "ne"):
            st.setg(g, num(0))
        st.setg("gr", NONE).setg("nr", NONE).setg("open", FALSE).setg("new", FALSE).setg("done", FALSE).setg("last", num(0))

        def on_yield(s, v):
            h.yielded(it, s, v, f.node)
            if fac != ExtV("tuple"):
                it.oblige("merge", isinstance(v, Tup) and v.nt == fac, f.node, f, s, "the ranges are not of the given type")
            return [(s, NEXT)]
        for s, v in it.run_fn(st, FnV(f), {n[0]: STREAM, n[1]: fac}, None, on_yield):
            if isinstance(v, Raised):
                it.oblige("every item", False, f.node, f, s, "merge_adjacent raises {}".format(v.exc.name))
                continue
            it.oblige("every item", s.g("done") == TRUE and s.g("open") == FALSE and s.g("new") == FALSE, f.node, f, s, "a range is not yielded")


# ---------------------------------------------------------------- format_text

TEXT, TREE, RANGES, CTX = T("text"), T("tree"), T("ranges"), T("in", "format_context")
RANGE = T("range")


class Text(Base):
    def __init__(self, me, end):
        self.me, self.end = me, end

    def attr(self, it, st, base, name):
        if base == RANGE and name in ("pos", "end"):
            return st.g("r" + name)
        if base == RANGE and name == "textformat":
            return FMT

    def getitem(self, it, st, base, key, node):
        if base == RANGE and isinstance(key, Lin) and key.const and 0 <= key.k < 3:
            return [(st, (st.g("rpos"), st.g("rend"), FMT)[key.k])]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if fn is not None and fn.name == "format_ranges" and recv == self.me:
            b = dict(zip(fn.arg_names()[1:], args))
            b.update(kwargs)
            ok = b.get("tree") == TREE and b.get("start", num(0)) == START and b.get("end", NONE) == (NONE if self.end is None else END)
            it.oblige("pieces", ok, node, self.fn(it), st, "the ranges are asked for {}".format(b))
            it.oblige("context", b.get("format_context", NONE) == CTX, node, self.fn(it), st, "the format context is not passed on")
            return [(st, RANGES)]

    def iter_elem(self, it, st, seq, k, elem, node):
        if seq == RANGES:
            it.oblige("pieces", st.g("due") == FALSE, node, self.fn(it), st, "a range is not yielded")
            p, e = it.freshint("pos"), it.freshint("end")
            st.assume(p - st.g("last"), e - p - 1, self.limit(it, st) - e)
            st.setg("last", e).setg("rpos", p).setg("rend", e).setg("due", TRUE)
            return [(st, Tup([p, e, FMT], NTV("FormatRange", ("pos", "end", "textformat"))))]

    def iter_done(self, it, st, seq, k, node):
        if seq == RANGES:
            it.oblige("pieces", st.g("due") == FALSE, node, self.fn(it), st, "a range is not yielded")
            st.setg("done", TRUE)

    def limit(self, it, st):
        return END if self.end is not None else it.len_of(st, TEXT)

    def yielded(self, it, st, v, node):
        f = self.fn(it)
        x = it.exact_items(st, v) if isinstance(v, (Tup, Obj)) else None
        t = x[0] if x is not None and len(x) == 2 else None
        if not (isinstance(t, Term) and t.op == "slice" and t.args[0] == TEXT):
            it.oblige("pieces", None, node, f, st)
            return
        lo, hi = t.args[1], t.args[2]
        lo = num(0) if lo == NONE else it.as_lin(st, lo)
        hi = it.len_of(st, TEXT) if hi == NONE else it.as_lin(st, hi)
        if lo is None or hi is None:
            it.oblige("pieces", None, node, f, st)
            return
        it.oblige("pieces", st.entails_eq(lo - st.g("covered")), node, f, st,
                  "a piece of text starts at {}, the one before ended at {}".format(lo, st.g("covered")))
        if x[1] == FMT:
            it.oblige("pieces", st.g("due") == TRUE, node, f, st, "a range is yielded twice")
            it.oblige("pieces", st.entails_eq(lo - st.g("rpos")) and st.entails_eq(hi - st.g("rend")), node, f, st,
                      "the format applies to another piece of text")
            st.setg("due", FALSE)
        else:
            it.oblige("pieces", x[1] == NONE, node, f, st, "text without format gets {}".format(x[1]))
            it.oblige("pieces", st.entails(hi - lo), node, f, st, "a piece of text is missing")
            if st.g("due") == TRUE:
                it.oblige("pieces", st.entails(st.g("rpos") - hi), node, f, st, "text with a format is yielded without")
            elif st.g("done") != TRUE:
                it.oblige("pieces", False, node, f, st, "text is yielded before it is known to have no format")
        st.setg("covered", hi)


def run_text(factory, P):
    c = P.cls("formatter.AbstractFormatter")
    f = c.find_method("format_text")
    for end in (None, END):
        me = Obj(0, c, "self")
        h = Text(me, end)
        it = factory(h)
        st = State()
        st.setg("covered", START).setg("last", START).setg("rpos", num(0)).setg("rend", num(0)).setg("due", FALSE).setg("done", FALSE)
        l = it.len_of(st, TEXT)
        st.assume(START, l - START)
        if end is not None:
            st.assume(END - START, l - END)

        def on_yield(s, v):
            h.yielded(it, s, v, f.node)
            return [(s, NEXT)]
        n = f.arg_names()
        b = {n[0]: me, "text": TEXT, "tree": TREE, "start": START, "end": NONE if end is None else END, "format_context": CTX}
        for s, v in it.run_fn(st, FnV(f, None, None, c), b, None, on_yield):
            if isinstance(v, Raised):
                it.oblige("pieces", False, f.node, f, s, "format_text raises {}".format(v.exc.name))
                continue
            it.oblige("pieces", s.g("done") == TRUE and s.entails_eq(s.g("covered") - h.limit(it, s)), f.node, f, s,
                      "the pieces end at {}".format(s.g("covered")))


CUR, DOC = T("in", "cursor"), T("document")


class Doc(Base):
    def __init__(self, me):
        self.me = me

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if recv == CUR and label == ".has_selection":
            s2 = st.copy().setg("sel", FALSE)
            return [(st.setg("sel", TRUE), TRUE), (s2, FALSE)]
        if recv == CUR and label == ".document":
            return [(st, DOC)]
        if recv == DOC and label == ".text":
            return [(st, TEXT)]
        if recv == DOC and label == ".get_root":
            b = dict(zip(("wait", "callback"), args))
            b.update(kwargs)
            it.oblige("document", b.get("wait") == TRUE, node, self.fn(it), st, "the tree may not be ready yet")
            return [(st, TREE)]
        if fn is not None and fn.name == "format_text" and recv == self.me:
            b = dict(zip(fn.arg_names()[1:], args))
            b.update(kwargs)
            A = lambda n: T("attr", CUR, n, 0)
            ok = b.get("text") == TEXT and b.get("tree") == TREE and b.get("start") == A("pos") and b.get("end") == A("end")
            it.oblige("document", ok, node, self.fn(it), st, "the text of the selection is not what is formatted: {}".format(b))
            it.oblige("context", b.get("format_context", NONE) == CTX, node, self.fn(it), st, "the format context is not passed on")
            st.setg("called", TRUE)
            return [(st, T("pieces"))]

    def iter_elem(self, it, st, seq, k, elem, node):
        if seq == T("pieces"):
            st.setg("due", TRUE)
            return [(st, T("piece"))]


def run_doc(factory, P):
    c = P.cls("formatter.AbstractFormatter")
    f = c.find_method("format_document")
    me = Obj(0, c, "self")
    h = Doc(me)
    it = factory(h)
    st = State()
    st.setg("sel", UNK).setg("called", FALSE).setg("due", FALSE)

    def on_yield(s, v):
        it.oblige("document", v == T("piece") and s.g("due") == TRUE, f.node, f, s, "something else is yielded")
        return [(s.setg("due", FALSE), NEXT)]
    n = f.arg_names()
    for s, v in it.run_fn(st, FnV(f, None, None, c), {n[0]: me, "cursor": CUR, "format_context": CTX}, None, on_yield):
        it.oblige("document", s.g("called") == TRUE or s.g("sel") == FALSE, f.node, f, s, "the selection is not formatted")


# ---------------------------------------------------------------- format_ranges

S = lambda n: T("stable", n)
CACHES, DEF, OWN = S("caches"), S("D"), S("O")
TOKEN, TOKS, CONTEXT = S("token"), S("tokens"), S("context")
TOP, A, B = S("nodes"), S("node A"), S("node B")
LX, LY = Const("X"), Const("Y")
SAVED = {}


class Ranges(Base):
    opaque = ("util.fix_boundaries", "util.merge_adjacent")
    max_heads = 150
    triples = False
    seed_widening = True
    extra_refs = (num(1), num(2))

    langs = (LX, LY)
    nslices = 1
    simple = False      # True: languages only, no positions, contexts nested at most two deep

    def __init__(self, me, default, many, unparsed, base, ctx, end):
        self.me, self.default, self.many, self.unparsed, self.base, self.ctx, self.end = me, default, many, unparsed, base, ctx, end

    # which format cache the current token should have
    def expected(self, st):
        return OWN if self.many and st.g("tlang") == LX else DEF

    def lang(self, st, n):
        return st.g("lang:" + n.args[0])

    def parent(self, st, n):
        if n == TOP or st.entails_eq(st.g("level") - 1):
            return TOP
        return B if n == A else A

    def attr(self, it, st, base, name):
        if base == RANGE and name in ("pos", "end"):
            return it.fresh(name)
        if base == TOKEN:
            if name in ("pos", "end"):
                return st.g("t" + name)
            if name == "action":
                return T("action")
            if name == "is_context":
                return FALSE
            if name == "is_token":
                return TRUE
            if name == "parent":
                return T("parent of", st.g("tlang"))
        if isinstance(base, Term) and base.op == "parent of" and name == "lexicon":
            return T("lexicon", base.args[0])
        if base in (A, B, CONTEXT):
            if name == "is_context":
                return TRUE
            if name == "is_token":
                return FALSE
            if name == "lexicon":
                l = self.lang(st, TOP if base == CONTEXT else base)
                return T("lexicon", l) if l is not None and l != UNK else None
            if name == "parent" and base != CONTEXT and base == st.g("cur"):
                p = self.parent(st, base)
                return CONTEXT if p == TOP else p
        if isinstance(base, Term) and base.op == "lexicon" and name == "language":
            return base.args[0]
        if base in (DEF, OWN):
            if name == "unparsed":
                return Const("unparsed of " + base.args[0]) if self.unparsed else NONE
            if name == "base":
                return Const("base of " + base.args[0]) if self.base else NONE

    def compare(self, it, st, op, a, b, node):
        if op in ("Is", "IsNot", "Eq", "NotEq") and all(isinstance(x, Term) and x in (DEF, OWN, TOP, A, B, CONTEXT, TOKEN) for x in (a, b)):
            return [(st, (a == b) == (op in ("Is", "Eq")))]

    def new_token(self, it, st, node, lang):
        """[state]: a token is fetched"""
        self.leave_token(it, st, node)
        if self.simple:
            st.setg("due", TRUE).setg("fmt", UNK).setg("tlang", lang)
            return
        p, e = it.freshint("pos"), it.freshint("end")
        st.assume(e - p - 1)
        # (the first one may start before the range)
        st.assume(e - st.g("pend") - 1)
        st.setg("tpos", p).setg("tend", e).setg("due", TRUE).setg("fmt", UNK).setg("gap", FALSE).setg("tlang", lang)
        if self.end is not None:
            st.assume(END - p - 1)

    def leave_token(self, it, st, node):
        """the current token is done"""
        f = self.fn(it)
        if st.g("due") == TRUE:
            it.oblige("tokens", st.g("fmt") == NONE, node, f, st, "a token does not get its format")
            if self.unparsed and not self.simple:
                it.oblige("gaps", st.g("gap") == TRUE or st.entails(st.g("pend") - st.g("tpos")), node, f, st,
                          "the text before a token gets no format")
        st.setg("pend", st.g("tend")).setg("due", FALSE).setg("gap", FALSE).setg("tlang", UNK).setg("fmt", UNK)

    def end_slice(self, it, st, node):
        if st.g("cur") != NONE and not self.simple:
            top = st.g("cur") == TOP
            ok = top and st.entails_eq(st.g("next") - st.g("clen"))
            it.oblige("tokens", ok, node, self.fn(it), st, "a part of the tree is skipped")

    def iter_elem(self, it, st, seq, k, elem, node):
        if seq == TOKS:
            out = []
            for l in self.langs:
                s = st.copy()
                self.new_token(it, s, node, l)
                out.append((s, TOKEN))
            return out
        if seq in (TOP, A, B):
            return self.fetch(it, st, seq, st.g("next"), node)

    def iter_done(self, it, st, seq, k, node):
        if seq == TOKS:
            self.leave_token(it, st, node)
            st.setg("done", TRUE)

    def is_done(self, it, st, node):
        """All tokens have been fetched."""
        if st.g("done") == TRUE:
            return True
        if not st.entails_eq(st.g("slices") - self.nslices) or st.g("cur") != TOP:
            return False
        if not self.simple and not st.entails_eq(st.g("next") - st.g("clen")):
            return False
        self.leave_token(it, st, node)
        st.setg("done", TRUE).setg("cur", NONE)
        return True

    def fetch(self, it, st, n, i, node):
        f = self.fn(it)
        ok = n == st.g("cur") and (self.simple or st.entails_eq(i - st.g("next")))
        it.oblige("tokens", ok, node, f, st, "the nodes are not visited in order")
        if not ok:
            return []
        if self.simple:
            st.setg("next", i + 1)
        else:
            st.assume(st.g("clen") - 1 - i)
            st.setg("next", st.g("next") + 1)
        s2 = st.copy()
        self.new_token(it, st, node, self.lang(st, n))
        out = [(st, TOKEN)]
        c = B if n == A else A
        if self.simple and st.entails(st.g("level") - 2):
            return out
        for l in self.langs:
            s = s2.copy()
            s.setg("child", c).setg("lang:" + c.args[0], l)
            out.append((s, c))
        return out

    def enter_child(self, it, st):
        if st.g("cur") != TOP:
            st.setg("lang:" + TOP.args[0], UNK)     # chosen again later
        clen = it.freshint("len")
        st.assume(clen)
        st.setg("clen", clen).setg("cur", st.g("child")).setg("level", st.g("level") + 1).setg("next", num(0)).setg("child", NONE)

    def getitem(self, it, st, base, key, node):
        if base == CONTEXT and isinstance(key, Term) and key.op == "stable" and key.args[0] == "slice":
            ok = st.entails_eq(st.g("slices") - key.args[1])
            it.oblige("tokens", ok, node, self.fn(it), st, "the slices are not visited in order")
            self.end_slice(it, st, node)
            self.leave_token(it, st, node)
            clen = it.freshint("len")
            st.assume(clen)
            st.setg("clen", clen).setg("cur", TOP).setg("next", num(0)).setg("level", num(0)).setg("slices", num(key.args[1] + 1))
            return [(st, TOP)]
        if base in (TOP, A, B) and isinstance(key, Lin):
            return self.fetch(it, st, base, key, node)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if label == "len" and len(args) == 1 and args[0] in (TOP, A, B):
            return [(st, st.g("clen") if args[0] == st.g("cur") else it.freshint("len"))]
        if recv == TREE and label == ".range":
            b = dict(zip(("start", "end"), args))
            b.update(kwargs)
            ok = b.get("start", num(0)) == START and b.get("end", NONE) == (NONE if self.end is None else END)
            it.oblige("tokens", ok, node, f, st, "the tokens of another range are formatted")
            s2 = st.copy()
            s2.setg("empty", TRUE)
            return [(st, RANGE), (s2, NONE)]
        if fn is not None and fn.name == "format_caches" and recv == self.me:
            return [(st, CACHES)]
        if recv == CACHES and label == ".get":
            if args and args[0] == NONE:
                return [(st, DEF if self.default else (args[1] if len(args) > 1 else NONE))]
            if args and args[0] in (LX, LY):
                return [(st, OWN if args[0] == LX and self.many else (args[1] if len(args) > 1 else NONE))]
        if recv == RANGE and label == ".tokens":
            return [(st, TOKS)]
        if recv == RANGE and label == ".slices":
            v = Tup([Tup([CONTEXT, T("stable", "slice", i)]) for i in range(self.nslices)])
            return [(st.copy().setg("lang:" + TOP.args[0], l), v) for l in self.langs]
        if label == ".textformat" and recv in (DEF, OWN):
            ok = recv == self.expected(st) and st.g("due") == TRUE and args == [T("action")]
            it.oblige("tokens", ok, node, f, st, "the format of a token is asked from another theme" if recv != self.expected(st)
                      else "the format is asked for something else than the action of the token")
            s2 = st.copy().setg("fmt", NONE)
            st.setg("fmt", Const("format of " + recv.args[0]))
            return [(st, st.g("fmt")), (s2, NONE)]
        if recv == CTX:
            if label == ".start":
                it.oblige("context", st.g("started") == FALSE and (args == [DEF] or not self.default), node, f, st, "the format context is not started with the default theme, once")
                return [(st.setg("started", TRUE).setg("ctxfc", DEF), NONE)]
            if label == ".switch":
                it.oblige("context", len(args) == 1 and args[0] in (DEF, OWN), node, f, st)
                return [(st.setg("ctxfc", args[0] if args else UNK), NONE)]
            if label == ".done":
                it.oblige("context", st.g("started") == TRUE and st.g("ended") == FALSE and (self.is_done(it, st, node) or not self.default), node, f, st,
                          "the format context is told too early that formatting is done")
                return [(st.setg("ended", TRUE), NONE)]
        if fn is not None and fn.name == "fix_boundaries":
            b = dict(zip(fn.arg_names(), args))
            b.update(kwargs)
            n = fn.arg_names()
            ok = b.get(n[1]) == START and b.get(n[2]) == (NONE if self.end is None else END)
            it.oblige("boundaries", ok, node, f, st, "the ranges are cut at other positions")
            st.setg("fixed", TRUE)
            return [(st, b.get(n[0]))]
        if fn is not None and fn.name == "merge_adjacent":
            b = dict(zip(fn.arg_names(), args))
            b.update(kwargs)
            n = fn.arg_names()
            t = b.get(n[1])
            it.oblige("boundaries", isinstance(t, NTV) and tuple(t.fields) == ("pos", "end", "textformat"), node, f, st,
                      "the merged ranges are not FormatRanges")
            st.setg("merged", TRUE)
            return [(st, b.get(n[0]))]
        if isinstance(recv, Obj) and recv.cls == "list" and label == ".append" and len(args) == 1 and st.g("child") != NONE and st.g("child") is not None:
            kind = self.saved_kind(it, st, args[0])
            if kind is not None:
                self.enter_child(it, st)
                l = it.len_of(st, recv)
                st.heap[(recv, "#val")] = T("stack")
                st.heap[(recv, "#len")] = l + 1
                st.setg("kind", kind)
                return [(st, NONE)]
        if isinstance(recv, Obj) and label == ".pop" and not args and st.heap.get((recv, "#val")) == T("stack") or \
                isinstance(recv, Obj) and label == ".pop" and st.g("kind") not in (None, NONE):
            l = it.len_of(st, recv)
            it.oblige("tokens", st.entails(l - 1), node, f, st, "the stack may be empty")
            cur = st.g("cur")
            it.oblige("tokens", self.simple or isinstance(cur, Term) and st.entails_eq(st.g("next") - st.g("clen")), node, f, st, "a context is left too early")
            it.oblige("tokens", st.entails(st.g("level") - 1), node, f, st, "a context is left that was not entered")
            st.heap[(recv, "#len")] = l - 1
            saved = it.freshint("saved")
            out = []
            lv = st.g("level")
            for s, n in ((st.copy().assume_eq(lv - 1), 1), (st.copy().assume_eq(lv - 2), 2), (st.copy().assume(lv - 3), 3)):
                if s is None:
                    continue
                p = self.parent(s, cur)
                for lg in (UNK,) if n == 1 else self.langs:
                    # the language of the context around the parent
                    s3 = s.copy()
                    s3.setg("lang:" + cur.args[0], lg if n == 3 else UNK)
                    if n == 2:
                        s3.setg("lang:" + TOP.args[0], lg)
                    if n == 1:
                        s3.heap[(recv, "#val")] = Tup([])
                        s3.heap[(recv, "#len")] = num(0)
                    clen = it.freshint("len")
                    s3.setg("clen", clen)
                    s3.assume(saved, clen - saved - 1)
                    s3.setg("cur", p).setg("level", lv - 1).setg("next", saved + 1)
                    kind = s3.g("kind")
                    if n == 1:
                        s3.setg("kind", NONE)
                    out.append((s3, self.restore(kind, saved, p)))
            return out

    def saved_kind(self, it, st, v):
        """What is put on the stack, in terms of the parent list and the index of the child"""
        if isinstance(v, Lin):
            d = v - (st.g("next") - 1)
            for c in (0, 1, -1):
                if st.entails_eq(d - c):
                    return Const(("index", c))
            return None
        if v == st.g("cur"):
            return Const(("parent", 0))
        if isinstance(v, Tup):
            k = [self.saved_kind(it, st, x) for x in v.items]
            return None if None in k else Tup(k)
        return None

    def restore(self, kind, saved, p):
        if isinstance(kind, Tup):
            return Tup([self.restore(k, saved, p) for k in kind.items])
        if kind.v[0] == "index":
            return saved + kind.v[1]
        return p

    def yielded(self, it, st, v, node):
        f = self.fn(it)
        it.oblige("boundaries", st.g("fixed") == TRUE and st.g("merged") == TRUE, node, f, st, "the ranges are not cut or merged")
        if self.ctx:
            it.oblige("context", st.g("started") == TRUE and st.g("ended") == FALSE, node, f, st, "a range is yielded outside of the format context")
        x = item3(it, st, v)
        if x is None:
            it.oblige("tokens", None, node, f, st)
            return
        if not self.simple:
            self.is_done(it, st, node)
        due = st.g("due") == TRUE
        if due and st.entails_eq(x[0] - st.g("tpos")) and st.entails_eq(x[1] - st.g("tend")):
            e = self.expected(st)
            fmt = st.g("fmt")
            ok = x[2] == fmt and fmt not in (UNK, NONE) or fmt == NONE and x[2] == Const("base of " + e.args[0])
            it.oblige("tokens", ok, node, f, st, "a token gets the format {}".format(x[2]))
            if self.ctx:
                it.oblige("context", st.g("ctxfc") == e, node, f, st, "the format context is not told about the other theme")
            it.oblige("gaps", self.simple or not (self.unparsed or self.base) or st.g("gap") == TRUE or st.entails(st.g("pend") - st.g("tpos")), node, f, st,
                      "the text before a token gets no format")
            st.setg("due", FALSE).setg("fmt", UNK).setg("tlang", UNK).setg("gap", FALSE)
            return
        if self.simple:
            it.oblige("gaps", None, node, f, st)
            return
        hi = st.g("tpos") if due else END
        ok = st.entails_eq(x[0] - st.g("pend")) and (due or self.is_done(it, st, node) and self.end is not None) and st.entails_eq(x[1] - hi) \
            and st.entails(x[1] - x[0] - 1)
        it.oblige("gaps", ok, node, f, st, "the range {}-{} is neither a token nor text between tokens".format(x[0], x[1]))
        fm = [Const(("unparsed of " if self.unparsed else "base of ") + c.args[0]) for c in (DEF, OWN)]
        it.oblige("gaps", x[2] in fm, node, f, st, "text between tokens gets the format {}".format(x[2]))
        it.oblige("gaps", st.g("gap") == FALSE, node, f, st, "text between tokens is formatted twice")
        st.setg("gap", TRUE)


def run_languages(factory, P):
    run_ranges(factory, P, ("languages",))


def run_ranges(factory, P, configs=None):
    c = P.cls("formatter.AbstractFormatter")
    f = c.find_method("format_ranges")
    for config in configs or (
            (False, False, False, False, True, True), (True, False, False, False, True, True), (True, False, True, True, True, False),
            (True, False, False, True, False, True), (True, True, False, True, True, True), (True, True, True, True, False, True),
            (True, True, False, False, True, False)):
        default, many, unparsed, base, ctx, end = (True, True, False, False, True, False) if config == "languages" else config
        me = Obj(0, c, "self")
        h = Ranges(me, default, many, unparsed, base, ctx, END if end else None)
        h.simple = config == "languages"
        if many and not h.simple:
            h.langs = (LX,)
        it = factory(h)
        st = State()
        for g in ("next", "level", "slices", "clen"):
            st.setg(g, num(0))
        for g in ("tpos", "tend", "pend"):
            st.setg(g, START)
        for g in ("due", "done", "started", "ended", "gap", "fixed", "merged", "empty"):
            st.setg(g, FALSE)
        st.setg("fmt", UNK).setg("tlang", UNK).setg("cur", NONE).setg("child", NONE).setg("kind", NONE).setg("ctxfc", NONE)
        st.assume(START)
        if end:
            st.assume(END - START)
        for x in (CTX, RANGE, DEF, OWN, TOKEN, CONTEXT, A, B, TOP, CACHES):
            if x not in (TOP, A, B):
                st.facts[("truth", x)] = True
            st.facts[("isnone", x)] = False
        l = it.len_of(st, CACHES)
        if many:
            st.assume(l - 2)
        elif default:
            st.assume_eq(l - 1)

        def on_yield(s, v):
            h.yielded(it, s, v, f.node)
            return [(s, NEXT)]
        n = f.arg_names()
        b = {n[0]: me, "tree": TREE, "start": START, "end": END if end else NONE, "format_context": CTX if ctx else NONE}
        for s, v in it.run_fn(st, FnV(f, None, None, c), b, None, on_yield):
            if isinstance(v, Raised):
                it.oblige("tokens", False, f.node, f, s, "format_ranges raises {}".format(v.exc.name))
                continue
            if s.g("empty") == TRUE:
                continue
            if default:
                it.oblige("tokens", h.is_done(it, s, f.node), f.node, f, s, "not all tokens are formatted")
                if unparsed or base:
                    it.oblige("gaps", h.end is None or s.g("gap") == TRUE or s.entails(s.g("pend") - END), f.node, f, s, "the text after the last token gets no format")
            if ctx:
                it.oblige("context", s.g("started") == TRUE and s.g("ended") == TRUE, f.node, f, s, "the format context is not told that formatting is done")


# ---------------------------------------------------------------- add_theme

THEME, FACTORY, LANG = T("theme"), T("factory"), T("in", "language")


class Themes(Base):
    opaque = ("util.cached_func",)

    def __init__(self, me):
        self.me = me

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if fn is not None and fn.name == "cached_func" and len(args) == 1:
            return [(st, args[0])]
        if fn is not None and fn.name == "format_caches" and recv == self.me:
            return [(st, CACHES)]
        if recv == THEME and label == ".textformat" and len(args) == 1:
            return [(st, T("theme format", args[0]))]
        if recv == THEME and label == ".baseformat":
            b = dict(zip(("role", "state"), args))
            b.update(kwargs)
            return [(st, T("theme base", b.get("role", Const("window")), b.get("state", Const("default"))))]
        if (recv == self.me and label == "._factory" or recv == FACTORY or label == FACTORY) and len(args) == 1:
            return [(st, T("made", args[0]))]

    def attr(self, it, st, base, name):
        if base == self.me and name == "_factory":
            return FACTORY
        if base == self.me and name == "_format_caches":
            return CACHES

    def binop(self, it, st, op, a, b, node):
        if op == "Add" and isinstance(a, Term) and isinstance(b, Term) and {a.op, b.op} <= {"theme base", "theme format"}:
            return [(st, T("sum", a, b))]

    def setitem(self, it, st, base, key, v, node):
        if base == CACHES:
            st.setg("key", key).setg("cache", v)
            return [(st, None)]


def run_themes(factory, P):
    c = P.cls("formatter.Formatter")
    f = c.find_method("add_theme")
    for add in (TRUE, FALSE):
        me = Obj(0, c, "self")
        h = Themes(me)
        it = factory(h)
        st = State()
        n = f.arg_names()
        for s, v in it.run_fn(st, FnV(f, None, None, c), {n[0]: me, "theme": THEME, "language": LANG, "add_baseformat": add}, None, None):
            if isinstance(v, Raised):
                it.oblige("theme", False, f.node, f, s, "add_theme raises {}".format(v.exc.name))
                continue
            fc = s.g("cache")
            if fc is None or not isinstance(fc, Tup) or not fc.nt:
                it.oblige("theme", False if fc is None else None, f.node, f, s, "the theme is not added")
                continue
            it.oblige("theme", s.g("key") == LANG, f.node, f, s, "the theme is added for another language")
            d = dict(zip(fc.nt.fields, fc.items))
            it.oblige("theme", d.get("theme") == THEME, f.node, f, s, "another theme is remembered")
            w = T("theme base", Const("window"), Const("default"))
            it.oblige("theme", d.get("base") == (T("made", w) if add == TRUE else NONE), f.node, f, s, "the base format is {}".format(d.get("base")))
            un = d.get("unparsed")
            it.oblige("theme", None if un is None else un != NONE and isinstance(un, Term) and un.op == "made" and un.args[0].op == "theme format", f.node, f, s,
                      "the format for unparsed text is {}".format(un))
            act = T("action")
            want = T("made", T("theme format", act))
            tf = d.get("textformat")
            if isinstance(tf, Term) and tf.op == "decorated":
                tf = tf.args[0]     # caching does not change it (P13)
            if isinstance(tf, FnV):
                for s2, r in it.call_fn(s.copy(), tf, [act], {}, f.node, None):
                    ok = r == want if add == FALSE else isinstance(r, Term) and r.op == "made" and isinstance(r.args[0], Term) \
                        and r.args[0] == T("sum", w, T("theme format", act))
                    it.oblige("theme", ok, f.node, f, s2, "the format of an action is {}".format(r))
            else:
                it.oblige("theme", None, f.node, f, s)
            bf = d.get("baseformat")
            if isinstance(bf, Term) and bf.op == "decorated":
                bf = bf.args[0]
            if isinstance(bf, FnV):
                for s2, r in it.call_fn(s.copy(), bf, [T("role"), T("state")], {}, f.node, None):
                    it.oblige("theme", r == T("made", T("theme base", T("role"), T("state"))), f.node, f, s2, "the base format of a role is {}".format(r))
            else:
                it.oblige("theme", None, f.node, f, s)


def run(ctx):
    P = ctx.program
    ctx.rule("every item", "every range of a stream is passed on exactly once, in order")
    ctx.rule("first", "only the start of the first range is cut, to the start of the requested range")
    ctx.rule("last", "only the end of the last range is cut, to the end of the requested range")
    ctx.rule("merge", "ranges are merged if they adjoin and have the same format, and only then")
    ctx.rule("pieces", "the pieces of text are the whole text of the range, in order, each with its format")
    ctx.rule("tokens", "every token of the range gets the format its theme gives to its action, in order")
    ctx.rule("gaps", "text between tokens gets the format for unparsed text or the base format")
    ctx.rule("boundaries", "the ranges are cut at the borders of the range and merged")
    ctx.rule("theme", "an added theme gives the formats of its actions and roles, for its language")
    ctx.rule("document", "the text and the finished tree of the selection are formatted")
    ctx.rule("context", "format contexts are passed on")
    for r in (run_fix, run_merge, run_text, run_doc, run_themes):
        ctx.analyse(lambda factory, r=r: r(factory, P))
    ctx.analyse(lambda factory: run_ranges(factory, P), budget=200000)
    ctx.analyse(lambda factory: run_languages(factory, P), budget=400000)
    for r in ctx.rules:
        ctx.floor(r, 1)
