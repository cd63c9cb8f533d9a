"""P12: merged changes describe all the single ones; positions are translated exactly."""
from pa.interp import *
from pa import model
from .seglist import Segs

S, R, A = sym(T("in", "S")), sym(T("in", "R")), sym(T("in", "A"))
s_, r_, a_ = sym(T("in", "start")), sym(T("in", "removed")), sym(T("in", "added"))
TEXT, OLD = T("in", "text"), T("in", "old text")
LEX, OLDLEX = T("in", "lexicon"), T("in", "old lexicon")
TLEN, OLEN = sym(T("len", TEXT, 0)), sym(T("len", OLD, 0))


def setup(factory, P, h, has):
    c = P.cls("treebuilderutil.Changes")
    me = Obj(0, c, "self")
    it = factory(h)
    st = State()
    st.assume(R, A, s_, r_, a_, TLEN, OLEN, S)
    st.heap[(me, "text")] = OLD
    st.heap[(me, "root_lexicon")] = OLDLEX
    if has:
        st.heap[(me, "start")], st.heap[(me, "removed")], st.heap[(me, "added")] = S, R, A
        st.assume(OLEN - S - A, OLEN - s_ - r_)
    else:
        st.heap[(me, "start")], st.heap[(me, "removed")], st.heap[(me, "added")] = num(-1), num(0), num(0)
    st.assume(TLEN - s_ - a_)
    return c, me, it, st


class H(Hooks):
    """Comparisons of a root lexicon (a lexicon, None, or False if unchanged)."""

    def __init__(self, lex):
        self.lex = lex

    def compare(self, it, st, op, a, b, node):
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            for x, y in ((a, b), (b, a)):
                if x == LEX and isinstance(y, (Const, type(NONE))):
                    return [(st, op in ("NotEq", "IsNot"))]


def add(factory, P, has, lex, rnone, anone):
    h = H(lex)
    c, me, it, st = setup(factory, P, h, has)
    f = c.find_method("add")
    if f is None:
        raise model.AnchorLost("Changes.add")
    n = f.arg_names()
    if len(n) < 6:
        raise model.AnchorLost("Changes.add(text, root_lexicon, start, removed, added)")
    if lex == LEX:
        st.facts[("isnone", LEX)] = False
        st.facts[("truth", LEX)] = True
    args = dict(zip(n, (me, TEXT, lex, s_, NONE if rnone else r_, NONE if anone else a_)))
    r, a = (OLEN - s_ if rnone else r_), (TLEN - s_ if anone else a_)
    if rnone:
        st.assume(OLEN - s_)
    if anone:
        st.assume(TLEN - s_)
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), args, None, None):
        if isinstance(v, Raised):
            it.oblige("merge", None, f.node, f, s)
            continue
        g = lambda k: s.heap.get((me, k))
        l = {k: it.as_lin(s, g(k)) for k in ("start", "removed", "added")}
        it.oblige("newest", g("text") == TEXT, f.node, f, s, "the text is not the newest one")
        want = OLDLEX if lex == FALSE else lex
        it.oblige("newest", g("root_lexicon") == want, f.node, f, s, "the root lexicon is {} instead of {}".format(g("root_lexicon"), want))
        if any(x is None for x in l.values()):
            it.oblige("merge", None, f.node, f, s)
            continue
        st1, rm, ad = l["start"], l["removed"], l["added"]
        if not has:
            it.oblige("merge", s.entails_eq(st1 - s_) and s.entails_eq(rm - r) and s.entails_eq(ad - a), f.node, f, s,
                      "the first change is recorded as {} -{} +{}".format(st1, rm, ad))
            continue
        what = "({}, -{}, +{})".format(st1, rm, ad)
        it.oblige("merge", s.entails(S - st1) and s.entails(s_ - st1) and s.entails(st1), f.node, f, s, "starts after one of the changes: " + what)
        # the old text and the new text outside the merged change must be the same: lengths agree
        it.oblige("merge", s.entails_eq((ad - rm) - (A - R + a - r)), f.node, f, s, "the lengths do not agree: " + what)
        # the end covers both: in the middle text the end must be at or after both ends
        mid = st1 + rm - R + A
        it.oblige("merge", s.entails(mid - S - A) and s.entails(mid - s_ - r), f.node, f, s, "ends before the end of one of the changes: " + what)
        for e1, e2 in ((S + A, s_ + r), (s_ + r, S + A)):
            s2 = s.copy().assume(e1 - e2)
            if s2 is not None:
                it.oblige("merge", s2.entails_eq(mid - e1), f.node, f, s2, "ends after the end of both changes: " + what)
        for e1, e2 in ((S, s_), (s_, S)):
            s2 = s.copy().assume(e2 - e1)
            if s2 is not None:
                it.oblige("merge", s2.entails_eq(st1 - e1), f.node, f, s2, "starts before both changes: " + what)
        it.oblige("merge", s.entails(rm) and s.entails(ad), f.node, f, s, "negative numbers of characters: " + what)


def position(factory, P):
    c, me, it, st = setup(factory, P, H(None), True)
    f = c.find_method("new_position")
    if f is None:
        raise model.AnchorLost("Changes.new_position")
    p = sym(T("in", "position"))
    st.assume(p)
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), dict(zip(f.arg_names(), (me, p))), None, None):
        q = it.as_lin(s, v) if not isinstance(v, Raised) else None
        if q is None:
            it.oblige("position", None, f.node, f, s)
            continue
        for cond, want, what in (((S - p - 1,), p, "before the change"), ((p - S, S + R - p - 1), S + A, "in the change"), ((p - S - R,), p - R + A, "after the change")):
            s2 = s.copy().assume(*cond)
            if s2 is not None:
                it.oblige("position", s2.entails_eq(q - want), f.node, f, s2, "a position {} moves to {} instead of {}".format(what, q, want))


def has_changes(factory, P):
    for has in (True, False):
        for lex in (LEX, FALSE, NONE):
            c, me, it, st = setup(factory, P, H(lex), has)
            if lex == LEX:
                st.facts[("isnone", LEX)] = False
                st.facts[("truth", LEX)] = True
            st.heap[(me, "root_lexicon")] = lex
            f = c.find_method("has_changes")
            if f is None:
                raise model.AnchorLost("Changes.has_changes")
            for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
                if isinstance(v, Raised):
                    it.oblige("pending", None, f.node, f, s)
                    continue
                for s2, t in it.truth(s, v):
                    it.oblige("pending", t == (has or lex != FALSE), f.node, f, s2,
                              "with {} and root lexicon {} has_changes() is {}".format("a change" if has else "no change", lex, t))


class Q(Hooks):
    """TreeBuilder.get_changes: all queued changes are merged, in order."""
    opaque = ("Changes.add", "Changes.__init__")

    def __init__(self, me):
        self.me = me


def get_changes(factory, P):
    """Fold of the queue: every change taken from the front of the queue is added as it is, until it is empty."""
    c = P.cls("treebuilder.TreeBuilder")
    f = c.find_method("get_changes")
    if f is None:
        raise model.AnchorLost("TreeBuilder.get_changes")
    me = Obj(0, c, "self")
    queue = Obj(1, "list", "changes")

    class G(Hooks):
        opaque = ("Changes.add",)

        def attr(self, it, st, base, name):
            if base == me and name == "changes":
                return queue

        def call(self, it, st, label, recv, args, kwargs, node, fn=None):
            if label.endswith("Changes.add") or label == ".add" and isinstance(recv, Obj):
                cur = st.g("cur")
                if st.g("odd") == TRUE:
                    it.oblige("fold", None, node, f, st, "the queue is not emptied item by item")
                    return [(st, NONE)]
                ok = cur is not None and cur != NONE and len(args) == 1 and args[0] == T("star", cur)
                if not ok and cur is not None and cur != NONE and len(args) == 5:
                    ok = all(x == T("item", cur, num(i)) or x == T("item", cur, num(i), 0) for i, x in enumerate(args))
                    if not ok:
                        ok = None
                if not ok and len(args) == 1 and isinstance(args[0], Term) and args[0].op == "star":
                    ok = False
                it.oblige("fold", ok, node, f, st, "not the change that was taken from the queue is added, but {}".format(args))
                st.setg("cur", NONE)
                st.setg("into", recv)
                return [(st, NONE)]
            if recv == queue:
                n = it.as_lin(st, st.g("n"))
                if label in (".pop", ".popleft"):
                    first = label == ".popleft" or (args and it.as_lin(st, args[0]) is not None and st.entails_eq(it.as_lin(st, args[0])))
                    it.oblige("fold", bool(first), node, f, st, "changes are not taken in the order they were made")
                    it.oblige("fold", st.g("cur") == NONE, node, f, st, "a change is taken from the queue, but not added")
                    t = T("queued", next(it.counter))
                    st.assume(n - 1)
                    st.setg("n", n - 1).setg("cur", t)
                    return [(st, t)]
                if label in (".clear",):
                    it.oblige("fold", True if st.entails_eq(n) else None, node, f, st, "queued changes are dropped")
                    return [(st, NONE)]
            if label == "len" and args and args[0] == queue:
                return [(st, st.g("n"))]

        def setattr(self, it, st, base, name, val, node):
            if base == me and name == "changes":
                st.setg("odd", TRUE)

        def iter_start(self, it, st, seq, node):
            if seq == queue:
                st.setg("odd", TRUE)

    h = G()
    it = factory(h)
    st = State()
    n0 = sym(T("in", "queue length"))
    st.assume(n0)
    st.setg("odd", FALSE).setg("n", n0).setg("cur", NONE).setg("into", NONE)
    orig = it.truth

    def truth(s, v, *k):
        if v == queue:
            n = it.as_lin(s, s.g("n"))
            out = []
            a = s.copy().assume(n - 1)
            b = s.copy().assume_eq(n)
            return ([(a, True)] if a is not None else []) + ([(b, False)] if b is not None else [])
        return orig(s, v, *k)
    it.truth = truth
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        if isinstance(v, Raised):
            it.oblige("fold", None, f.node, f, s)
            continue
        n = it.as_lin(s, s.g("n"))
        if s.g("odd") == TRUE:
            it.oblige("fold", None, f.node, f, s, "the queue is not emptied item by item")
            continue
        it.oblige("fold", s.entails_eq(n) if n is not None else None, f.node, f, s, "changes remain in the queue")
        it.oblige("fold", s.g("cur") == NONE, f.node, f, s, "a change is taken from the queue, but not added")


def run(ctx):
    P = ctx.program
    ctx.rule("merge", "the merged change covers both changes, and its lengths agree with the text")
    ctx.rule("newest", "the newest text and the newest root lexicon count")
    ctx.rule("position", "a position is moved by a change as documented")
    ctx.rule("pending", "has_changes() is true exactly if there is a change or a new root lexicon")
    ctx.rule("fold", "all queued changes are merged, in order")
    for has in (True, False):
        for lex in (FALSE, LEX, NONE):
            for rn in (False, True):
                for an in (False, True):
                    ctx.analyse(lambda fa: add(fa, P, has, lex, rn, an))
    ctx.analyse(lambda fa: position(fa, P))
    ctx.analyse(lambda fa: has_changes(fa, P))
    ctx.analyse(lambda fa: get_changes(fa, P))
    ctx.floor("merge", 1)
    ctx.floor("newest", 1)
