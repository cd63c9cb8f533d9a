"""P08: walking a tree visits every token exactly once, in order."""
import ast
from pa.interp import *
from pa import model

UNK = Const("?")
S = lambda *n: T("stable", *n)
SELF, TOKEN, A, B, NODES = S("self"), S("token"), S("A"), S("B"), S("nodes")
LISTS = (SELF, A, B, NODES)


class Base(Hooks):
    def fn(self, it):
        return next((f.func for f in reversed(it.stack) if f.func is not None), None)


def bound(fn, args, kwargs, method=True):
    n = fn.arg_names()[1:] if method else fn.arg_names()
    b = dict(zip(n, args))
    b.update(kwargs)
    return b


# ---------------------------------------------------------------- the tokens of a context

class Walk(Base):
    """ghosts: cur (the list that is being visited), next (number of visited children), clen (its length), level,
    child (a context that was fetched but not entered), due (a token that was fetched but not yielded)"""
    max_heads = 60
    extra_refs = (num(1), num(2))

    def __init__(self, top, reverse):
        self.top, self.reverse = top, reverse

    def parent(self, st, n):
        if st.entails_eq(st.g("level") - 1):
            return self.top
        return B if n == A else A

    def attr(self, it, st, base, name):
        if base == TOKEN or base in LISTS:
            if name == "is_context":
                return FALSE if base == TOKEN else TRUE
            if name == "is_token":
                return TRUE if base == TOKEN else FALSE
        if name == "parent" and base in (A, B) and base == st.g("cur"):
            return self.parent(st, base)

    def compare(self, it, st, op, a, b, node):
        if op in ("Is", "IsNot", "Eq", "NotEq") and a in LISTS + (TOKEN,) and b in LISTS + (TOKEN,):
            return [(st, (a == b) == (op in ("Is", "Eq")))]

    def handled(self, it, st, node):
        f = self.fn(it)
        it.oblige("every token", st.g("due") == FALSE, node, f, st, "a token is skipped")
        it.oblige("every token", st.g("child") == NONE, node, f, st, "a context is skipped")
        return st.g("due") == FALSE and st.g("child") == NONE

    def fetch(self, it, st, n, node, count=None):
        f = self.fn(it)
        if not self.handled(it, st, node):
            return []
        ok = n == st.g("cur") and (count is None or st.entails_eq(count - st.g("next")))
        it.oblige("in order", ok, node, f, st, "the nodes are not visited one after the other")
        if not ok:
            return []
        st.assume(st.g("clen") - st.g("next") - 1)
        st.setg("next", st.g("next") + 1)
        s2 = st.copy()
        st.setg("due", TRUE)
        c = B if n == A else A
        s2.setg("child", c)
        return [(st, TOKEN), (s2, c)]

    def enter_child(self, it, st):
        c = it.freshint("len")
        st.assume(c)
        st.setg("cur", st.g("child")).setg("child", NONE).setg("level", st.g("level") + 1).setg("next", num(0)).setg("clen", c)

    def iterators(self, v):
        """the list an iterator walks over, in the right direction"""
        if isinstance(v, Term) and v.op == "stable" and v.args[0] == "iter" and v.args[2] == self.reverse:
            return v.args[1]

    def iter_elem(self, it, st, seq, k, elem, node):
        n = self.iterators(seq)
        if n is not None:
            return self.fetch(it, st, n, node)
        if isinstance(seq, Term) and seq.op == "stable" and seq.args[0] == "tail":
            return self.fetch(it, st, seq.args[1], node)
        if isinstance(seq, Term) and seq.op == "stable" and seq.args[0] == "iter" or isinstance(seq, Term) and seq.op == "reversed" and seq.args[0] in LISTS:
            ok = (seq.op == "reversed") == self.reverse and seq.op == "reversed"
            it.oblige("in order", ok, node, self.fn(it), st, "the nodes are visited in the wrong direction")
            return self.fetch(it, st, seq.args[0], node) if ok else []
        if seq in LISTS:
            it.oblige("in order", not self.reverse, node, self.fn(it), st, "the nodes are visited in the wrong direction")
            return self.fetch(it, st, seq, node)
        if isinstance(seq, Term) and seq.op == "stable" and seq.args[0] == "all of":
            if st.g("child") != seq.args[1]:
                it.oblige("every token", False, node, self.fn(it), st, "the tokens of another context are yielded")
                return []
            return [(st, S("one of", seq.args[1]))]

    def iter_done(self, it, st, seq, k, node):
        n = seq if seq in LISTS else self.iterators(seq)
        if isinstance(seq, Term) and seq.op == "reversed" and seq.args[0] in LISTS:
            n = seq.args[0]
        if isinstance(seq, Term) and seq.op == "stable" and seq.args[0] == "tail":
            n = seq.args[1]
        if n is not None:
            self.handled(it, st, node)
            if n == st.g("cur"):
                if st.assume_eq(st.g("clen") - st.g("next")) is None:
                    st.setg("cur", S("impossible"))
        if isinstance(seq, Term) and seq.op == "stable" and seq.args[0] == "all of" and st.g("child") == seq.args[1]:
            st.setg("child", NONE)

    def getitem(self, it, st, base, key, node):
        if base in LISTS and isinstance(key, Lin):
            if base == st.g("cur") and not self.reverse:
                return self.fetch(it, st, base, node, key)
        if base in LISTS and isinstance(key, SliceV) and not self.reverse:
            return self.tail(it, st, base, key.lo, key.hi, key.step, node)

    def tail(self, it, st, base, lo, hi, step, node):
        """the children that were not visited yet"""
        lo = num(0) if lo == NONE else it.as_lin(st, lo)
        if base == st.g("cur") and hi == NONE and step in (NONE, num(1)) and lo is not None and st.entails_eq(lo - st.g("next")):
            return [(st, S("tail", base))]
        it.oblige("in order", None, node, self.fn(it), st)
        return []

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if label == "len" and len(args) == 1 and args[0] in LISTS:
            return [(st, st.g("clen") if args[0] == st.g("cur") else it.freshint("len"))]
        if label == "itertools.islice" and len(args) >= 3 and args[0] in LISTS and not self.reverse:
            return self.tail(it, st, args[0], args[1], args[2], args[3] if len(args) > 3 else NONE, node)
        if label in ("iter", "reversed") and len(args) == 1 and args[0] in LISTS:
            v = S("iter", args[0], label == "reversed")
            if (label == "reversed") != self.reverse:
                it.oblige("in order", False, node, f, st, "the nodes are visited in the wrong direction")
                return []
            if args[0] == st.g("child"):
                if st.g("pushed") == TRUE:
                    st.setg("pushed", FALSE)
                    self.enter_child(it, st)
                else:
                    st.setg("opened", TRUE)
            return [(st, v)]
        if isinstance(recv, Term) and recv in (A, B) and label == ".tokens":
            b = dict(zip(("reverse",), args))
            b.update(kwargs)
            r = b.get("reverse", FALSE)
            if not isinstance(r, Const):
                it.oblige("in order", None, node, f, st)
                return []
            it.oblige("in order", bool(r.v) == self.reverse, node, f, st, "the tokens of a context are visited in the wrong direction")
            return [(st, S("all of", recv))]
        if isinstance(recv, Obj) and recv.cls == "list" and label == ".append" and len(args) == 1 and st.g("child") != NONE:
            kind = self.kind(it, st, args[0])
            if kind is not None:
                l = it.len_of(st, recv)
                st.heap[(recv, "#val")] = T("stack")
                st.heap[(recv, "#len")] = l + 1
                st.setg("kind", kind)
                if st.g("opened") == TRUE or kind == Const(("index",)):
                    st.setg("opened", FALSE)
                    self.enter_child(it, st)
                else:
                    st.setg("pushed", TRUE)
                return [(st, NONE)]
        if isinstance(recv, Obj) and recv.cls == "list" and label == ".pop" and not args and st.g("kind") != NONE:
            l = it.len_of(st, recv)
            cur = st.g("cur")
            ok = st.entails(l - 1) and st.entails(st.g("level") - 1)
            it.oblige("in order", ok, node, f, st, "a context is left that was not entered")
            done = st.entails_eq(st.g("next") - st.g("clen"))
            it.oblige("every token", done, node, f, st, "a context is left too early")
            if not ok or not done or cur not in (A, B):
                return []
            out = []
            lv = st.g("level")
            for s, n in ((st.copy().assume_eq(lv - 1), 1), (st.copy().assume(lv - 2), 2)):
                if s is None or n == 1 and cur == B:
                    continue
                p = self.parent(s, cur)
                saved, clen = it.freshint("saved"), it.freshint("len")
                s.assume(saved, clen - saved - 1)
                s.setg("cur", p).setg("level", lv - 1).setg("next", saved + 1).setg("clen", clen)
                s.heap[(recv, "#len")] = l - 1
                v = self.restore(s.g("kind"), p, saved)
                if n == 1:
                    s.heap[(recv, "#val")] = Tup([])
                    s.heap[(recv, "#len")] = num(0)
                    s.setg("kind", NONE)
                out.append((s, v))
            return out

    def kind(self, it, st, v):
        if isinstance(v, Lin):
            for c in (0, 1, -1, 2):
                if st.entails_eq(v - (st.g("next") - 1) - c):
                    return Const(("index", c))
            return None
        if self.iterators(v) is not None and self.iterators(v) == st.g("cur"):
            return Const(("iter",))
        if v == st.g("cur"):
            return Const(("list",))
        if isinstance(v, Tup):
            k = [self.kind(it, st, x) for x in v.items]
            return None if None in k else S("kinds", *k)

    def restore(self, kind, p, saved):
        if isinstance(kind, Term):
            return Tup([self.restore(k, p, saved) for k in kind.args[1:]])
        if kind.v[0] == "index":
            return saved + kind.v[1]
        return S("iter", p, self.reverse) if kind.v[0] == "iter" else p

    def yielded(self, it, st, v, node):
        f = self.fn(it)
        if isinstance(v, Term) and v.op == "stable" and v.args[0] == "one of":
            it.oblige("every token", v.args[1] == st.g("child"), node, f, st)
            return
        it.oblige("every token", v == TOKEN and st.g("due") == TRUE, node, f, st,
                  "a token is yielded twice" if v == TOKEN else "something is yielded that is not a token of the tree")
        st.setg("due", FALSE)


def walk_state(top):
    st = State()
    n = sym(T("in", "len"))
    st.assume(n)
    st.setg("cur", top).setg("next", num(0)).setg("clen", n).setg("level", num(0)).setg("child", NONE).setg("due", FALSE)
    st.setg("pushed", FALSE).setg("opened", FALSE).setg("kind", NONE)
    return st


def run_walk(factory, P):
    for f, top in ((P.cls("tree.Context").find_method("tokens"), SELF), (P.func("util.tokens"), NODES)):
        n = f.arg_names()
        for reverse in (False, True):
            h = Walk(top, reverse)
            it = factory(h)
            st = walk_state(top)

            def on_yield(s, v):
                h.yielded(it, s, v, f.node)
                return [(s, NEXT)]
            for s, v in it.run_fn(st, FnV(f), {n[0]: top, n[1]: Const(reverse)}, None, on_yield):
                if isinstance(v, Raised):
                    it.oblige("every token", False, f.node, f, s, "raises {}".format(v.exc.name))
                    continue
                if s.g("cur") == S("impossible"):
                    continue
                h.handled(it, s, f.node)
                ok = s.g("cur") == top and s.entails_eq(s.g("next") - s.g("clen"))
                it.oblige("every token", ok, f.node, f, s, "the walk ends before the end")


# ---------------------------------------------------------------- ancestors

NODE, X, Y, UPTO, UP = S("node"), S("X"), S("Y"), S("upto"), S("parent of upto")


class Up(Base):
    """ghost last: the node of which the parent comes next"""
    def __init__(self, upto):
        self.upto = upto

    def next_of(self, n):
        return Y if n == X else X

    def attr(self, it, st, base, name):
        if name == "parent":
            if base == st.g("last"):
                return self.next_of(base)
            if base == UPTO:
                return UP if self.upto == "inner" else NONE

    def compare(self, it, st, op, a, b, node):
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            for x, y in ((a, b), (b, a)):
                if x == UP and y == NONE:
                    return [(st, op in ("IsNot", "NotEq"))]
                if x == UP and y in (X, Y):
                    if self.upto != "inner":
                        return [(st, op in ("IsNot", "NotEq"))]
                    if y != self.next_of(st.g("last")):
                        return [(st, op in ("IsNot", "NotEq"))]
                    # the parent of upto is reached after upto itself
                    k = ("reached", y)
                    if k in st.facts:
                        return [(st, st.facts[k] == (op in ("Is", "Eq")))]
                    s1, s2 = st.copy(), st.copy()
                    s1.facts[k] = True
                    s2.facts[k] = False
                    s1.facts[("isnone", y)] = False
                    return [(s1, op in ("Is", "Eq")), (s2, op in ("IsNot", "NotEq"))]

    def advance(self, it, st, v, node, what):
        ok = v == self.next_of(st.g("last"))
        it.oblige("ancestors", ok and st.facts.get(("isnone", v)) is False, node, self.fn(it), st, "{} is not the next ancestor".format(what))
        if self.upto == "inner":
            it.oblige("ancestors", ok and st.facts.get(("reached", v)) is False, node, self.fn(it), st, "the walk goes on above the given ancestor")
        if not ok:
            return False
        old = st.g("last")
        if old != NODE:
            for k in [k for k in st.facts if k[0] in ("isnone", "truth", "reached") and k[1] == old]:
                del st.facts[k]
        st.setg("last", v)
        return True

    def ended(self, it, st, f):
        n = self.next_of(st.g("last"))
        ok = st.facts.get(("isnone", n)) is True or self.upto == "inner" and st.facts.get(("reached", n)) is True
        it.oblige("ancestors", ok, f.node, f, st, "the walk ends too early")


def run_up(factory, P):
    f = P.cls("tree.Node").find_method("ancestors")
    n = f.arg_names()
    for upto in (None, "root", "inner"):
        h = Up(upto)
        it = factory(h)
        st = State()
        st.setg("last", NODE)
        if upto:
            st.facts[("truth", UPTO)] = True
            st.facts[("isnone", UPTO)] = False

        def on_yield(s, v):
            return [(s, NEXT)] if h.advance(it, s, v, f.node, "what is yielded") else []
        for s, v in it.run_fn(st, FnV(f), {n[0]: NODE, n[1]: UPTO if upto else NONE}, None, on_yield):
            if isinstance(v, Raised):
                it.oblige("ancestors", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            h.ended(it, s, f)


ANCS = S("ancestors")


class Index(Base):
    """ancestors_with_index, root, depth, forward, backward on the stream of ancestors"""
    def __init__(self, name):
        self.name = name

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if label == ".ancestors" and recv == NODE:
            ok = (args + [kwargs.get("upto", NONE)])[0] == (UPTO if self.name in ("ancestors_with_index",) else NONE)
            it.oblige("ancestors", ok, node, f, st, "other ancestors are asked for")
            return [(st, ANCS)]
        if label == ".ancestors_with_index" and recv == NODE:
            ok = (args + [kwargs.get("upto", NONE)])[0] == UPTO
            it.oblige("ancestors", ok, node, f, st, "the given ancestor is not passed on")
            return [(st, ANCS)]
        if label == ".parent_index":
            return [(st, T("index of", recv))]
        if fn is not None and fn.name == "tokens":
            b = bound(fn, args, kwargs, False)
            n = fn.arg_names()
            return [(st, T("tokens of", b.get(n[0]), b.get(n[1], FALSE)))]

    def iter_elem(self, it, st, seq, k, elem, node):
        f = self.fn(it)
        if seq == ANCS:
            self.settle(it, st, node)
            x = Y if st.g("cur") == X else X
            st.setg("child", st.g("cur")).setg("cur", x).setg("due", TRUE)
            if self.name in ("forward", "backward"):
                i = it.freshint("index")
                st.assume(i)
                st.setg("index", i)
                return [(st, Tup([x, i]))]
            return [(st, x)]
        if isinstance(seq, Term) and seq.op == "tokens of":
            return [(st, T("token of", *seq.args))]

    def iter_done(self, it, st, seq, k, node):
        if seq == ANCS:
            self.settle(it, st, node)
            st.setg("done", TRUE)
        if isinstance(seq, Term) and seq.op == "tokens of":
            self.siblings(it, st, seq, node)
            st.setg("due", FALSE)

    def settle(self, it, st, node):
        if st.g("due") == TRUE:
            if self.name in ("forward", "backward"):
                ok = self.name == "backward" and st.entails_eq(st.g("index"))
                it.oblige("siblings", ok, node, self.fn(it), st, "the tokens of an ancestor are skipped")
            elif self.name == "ancestors_with_index":
                it.oblige("ancestors", False, node, self.fn(it), st, "an ancestor is skipped")
            st.setg("due", FALSE)

    def siblings(self, it, st, seq, node):
        f = self.fn(it)
        v, rev = seq.args
        if not (isinstance(v, Term) and v.op == "slice" and isinstance(rev, Const)):
            it.oblige("siblings", None, node, f, st)
            return
        base, lo, hi = v.args[:3]
        it.oblige("siblings", base == st.g("cur") and st.g("due") == TRUE, node, f, st, "the tokens of another node are visited")
        i = st.g("index")
        if self.name == "forward":
            lo = it.as_lin(st, lo) if lo != NONE else num(0)
            if hi != NONE:
                h = it.as_lin(st, hi)
                hi = NONE if h is not None and st.entails(h - it.len_of(st, base)) else hi
            ok = hi == NONE and lo is not None and st.entails_eq(lo - i - 1) and not rev.v
            it.oblige("siblings", ok, node, f, st, "forward visits {}".format(v))
        else:
            hi = it.as_lin(st, hi) if hi != NONE else None
            lo = num(0) if lo == NONE else it.as_lin(st, lo)
            ok = hi is not None and st.entails_eq(hi - i) and lo == num(0) and bool(rev.v)
            it.oblige("siblings", ok, node, f, st, "backward visits {} (reverse: {})".format(v, rev))

    def yielded(self, it, st, v, node):
        f = self.fn(it)
        if self.name == "ancestors_with_index":
            x = it.exact_items(st, v) if isinstance(v, (Tup, Obj)) else None
            if x is None or len(x) != 2:
                it.oblige("ancestors", None, node, f, st)
                return
            it.oblige("ancestors", x[0] == st.g("cur") and st.g("due") == TRUE, node, f, st, "another ancestor is yielded")
            it.oblige("ancestors", x[1] == T("index of", st.g("child")), node, f, st, "the index is that of {}".format(x[1]))
            st.setg("due", FALSE)
        elif isinstance(v, Term) and v.op == "token of":
            self.siblings(it, st, T("tokens of", *v.args), node)
        else:
            it.oblige("siblings", None, node, f, st)


def run_index(factory, P):
    c = P.cls("tree.Node")
    for name in ("ancestors_with_index", "forward", "backward", "root"):
        f = c.find_method(name)
        h = Index(name)
        it = factory(h)
        st = State()
        st.setg("cur", NODE).setg("child", NONE).setg("due", FALSE).setg("done", FALSE).setg("index", num(0))

        def on_yield(s, v):
            h.yielded(it, s, v, f.node)
            return [(s, NEXT)]
        n = f.arg_names()
        b = {n[0]: NODE}
        if len(n) > 1:
            b[n[1]] = UPTO
        for s, v in it.run_fn(st, FnV(f), b, None, None if name == "root" else on_yield):
            if isinstance(v, Raised):
                it.oblige("ancestors", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            it.oblige("ancestors", s.g("done") == TRUE, f.node, f, s, "not all ancestors are visited")
            if name == "root":
                it.oblige("ancestors", v == s.g("cur"), f.node, f, s, "the root is not the last ancestor")


# ---------------------------------------------------------------- siblings

PARENT = S("parent")
I, N = sym(T("in", "index")), sym(T("in", "number"))


class Sib(Base):
    def attr(self, it, st, base, name):
        if base == NODE and name == "parent":
            return PARENT

    def getitem(self, it, st, base, key, node):
        if base == PARENT and isinstance(key, Lin):
            if key.const and key.k < 0:
                key = N + key.k
            return [(st, T("child", PARENT, key))]

    def compare(self, it, st, op, a, b, node):
        if op in ("Is", "IsNot"):
            for x, y in ((a, b), (b, a)):
                if y == NODE and isinstance(x, Term) and x.op == "child":
                    out = []
                    for s, t in it.num_eq(st, x.args[1], I):
                        out.append((s, t == (op == "Is")))
                    return out

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == "len" and args == [PARENT]:
            return [(st, N)]
        if label == ".parent_index" and recv == NODE:
            return [(st, I)]
        if recv == NODE and label in (".is_first", ".is_last"):
            return [(s, TRUE if t else FALSE) for s, t in it.num_eq(st, I, num(0) if label == ".is_first" else N - 1)]

    def iter_elem(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and (seq.op in ("slice", "slice3") or seq.op == "reversed" and isinstance(seq.args[0], Term) and seq.args[0].op == "slice"):
            return [(st, T("one of", seq))]

    def iter_done(self, it, st, seq, k, node):
        if isinstance(seq, Term) and seq.op in ("slice", "slice3", "reversed"):
            st.setg("seen", seq)


def run_siblings(factory, P):
    c = P.cls("tree.Node")
    for name in ("left_sibling", "right_sibling", "is_first", "is_last"):
        f = c.find_method(name)
        h = Sib()
        it = factory(h)
        st = State()
        st.assume(I, N - I - 1)
        for s, v in it.run_fn(st, FnV(f), {f.arg_names()[0]: NODE}, None, None):
            if isinstance(v, Raised):
                it.oblige("siblings", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            edge = I if "left" in name or name == "is_first" else N - 1 - I
            if name.startswith("is_"):
                for s2, b in it.truth(s, v, f.node):
                    it.oblige("siblings", s2.entails_eq(edge) if b else s2.entails(edge - 1), f.node, f, s2, "{} is wrong".format(name))
                continue
            if v == NONE:
                it.oblige("siblings", s.entails_eq(edge), f.node, f, s, "there is a sibling, but it is not found")
            else:
                ok = isinstance(v, Term) and v.op == "child" and s.entails_eq(v.args[1] - I - (1 if "right" in name else -1)) \
                    and s.entails(v.args[1]) and s.entails(N - 1 - v.args[1])
                it.oblige("siblings", ok, f.node, f, s, "the sibling is {}".format(v))


def run_sibling_lists(factory, P):
    c = P.cls("tree.Node")
    for name in ("left_siblings", "right_siblings"):
        f = c.find_method(name)
        left = name == "left_siblings"
        h = Sib()
        it = factory(h)
        st = State()
        st.assume(I, N - I - 1)
        st.setg("seen", NONE)
        edge = I if left else N - 1 - I

        def good(s, v):
            base, lo, hi = v.args[:3]
            if v.op == "slice3":
                step = v.args[3]
                lo = N - 1 if lo == NONE else it.as_lin(s, lo)
                return left and base == PARENT and step == num(-1) and hi == NONE and lo is not None and s.entails_eq(lo - I + 1) and s.entails(I - 1)
            lo = num(0) if lo == NONE else it.as_lin(s, lo)
            hi = N if hi == NONE else it.as_lin(s, hi)
            if lo is None or hi is None:
                return None
            hi = N if hi == it.len_of(s, PARENT) else hi
            return not left and base == PARENT and s.entails_eq(lo - I - 1) and s.entails(hi - N)

        def on_yield(s, v):
            if isinstance(v, Term) and v.op == "one of":
                v = v.args[0]
                if isinstance(v, Term) and v.op == "reversed" and isinstance(v.args[0], Term) and v.args[0].op == "slice":
                    base, lo, hi = v.args[0].args[:3]
                    lo, hi = it.as_lin(s, lo), it.as_lin(s, hi)
                    ok = left and base == PARENT and lo is not None and hi is not None and s.entails_eq(lo) and s.entails_eq(hi - I)
                else:
                    ok = good(s, v)
                it.oblige("siblings", ok, f.node, f, s, "{} yields {}".format(name, v))
            else:
                it.oblige("siblings", None, f.node, f, s)
            return [(s, NEXT)]
        for s, v in it.run_fn(st, FnV(f), {f.arg_names()[0]: NODE}, None, on_yield):
            if isinstance(v, Raised):
                it.oblige("siblings", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            if s.g("seen") == NONE:
                it.oblige("siblings", s.entails_eq(edge), f.node, f, s, "there are siblings, but they are not visited")


# ---------------------------------------------------------------- ranges

ANC = S("ancestor")


def child(n, i):
    return T("stable", "child", n, i)


class Slices(Base):
    def getitem(self, it, st, base, key, node):
        if isinstance(base, Term) and base.op == "stable" and base.args[0] in ("ancestor", "child") and isinstance(key, Lin):
            return [(st, child(base, key))]

    def attr(self, it, st, base, name):
        if isinstance(base, Term) and base.op == "stable" and base.args[0] == "child" and name == "lexicon":
            return T("lexicon", base)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if recv == T("in", "target_factory"):
            if label == ".pop":
                st.setg("ops", Tup(st.g("ops").items + (Const("pop"),)))
                return [(st, NONE)]
            if label == ".push" and len(args) == 1:
                st.setg("ops", Tup(st.g("ops").items + (args[0],)))
                return [(st, NONE)]


def run_slices(factory, P, limit=3):
    c = P.cls("tree.Range")
    f = c.find_method("slices")
    S0 = [sym(T("in", "s%d" % i)) for i in range(limit + 1)]
    E0 = [sym(T("in", "e%d" % i)) for i in range(limit + 1)]
    TF = T("in", "target_factory")
    for ns in range(limit + 1):
        for ne in range(limit + 1):
            for tf in (NONE, TF):
                me = Obj(0, c, "self")
                h = Slices()
                it = factory(h)
                st = State()
                st.assume(*S0)
                st.assume(*E0)
                st.facts[("truth", TF)] = True
                st.facts[("isnone", TF)] = False
                st.setg("ops", Tup([])).setg("out", Tup([]))
                st.heap[(me, "ancestor")] = ANC
                st.heap[(me, "start_trail")] = it.new_list(st, S0[:ns])
                st.heap[(me, "end_trail")] = it.new_list(st, E0[:ne])
                # what has to come
                want, ops = [], []
                start = num(0)
                if ns:
                    start = S0[0]
                    if ns > 1:
                        nodes = [child(ANC, S0[0])]
                        for i in S0[1:ns - 1]:
                            nodes.append(child(nodes[-1], i))
                        want.append((nodes[-1], S0[ns - 1], None))
                        for k in range(ns - 2, 0, -1):
                            want.append(("pop",))
                            want.append((nodes[k - 1], S0[k] + 1, None))
                        want.append(("pop",))
                        start = start + 1
                if ne == 0:
                    want.append((ANC, start, None))
                elif ne == 1:
                    want.append((ANC, start, E0[0] + 1))
                else:
                    want.append((ANC, start, E0[0]))
                    n = child(ANC, E0[0])
                    for i in E0[1:ne - 1]:
                        want.append(("push", n))
                        want.append((n, num(0), i))
                        n = child(n, i)
                    want.append(("push", n))
                    want.append((n, num(0), E0[ne - 1] + 1))

                def flat(s):
                    out = []
                    for x in s.g("out").items:
                        out.append(x)
                    return out

                def on_yield(s, v):
                    s.setg("out", Tup(s.g("out").items + s.g("ops").items + (v,)))
                    s.setg("ops", Tup([]))
                    return [(s, NEXT)]
                n = f.arg_names()
                for s, v in it.run_fn(st, FnV(f, None, None, c), {n[0]: me, n[1]: tf}, None, on_yield):
                    if isinstance(v, Raised):
                        it.oblige("ranges", False, f.node, f, s, "raises {} (trails of {} and {})".format(v.exc.name, ns, ne))
                        continue
                    got = list(s.g("out").items) + list(s.g("ops").items)
                    exp = [w for w in want if tf == TF or len(w) == 3]
                    what = "start trail of {}, end trail of {} indices".format(ns, ne)
                    if len(got) != len(exp):
                        it.oblige("ranges", False, f.node, f, s, "{} slices instead of {} ({})".format(len(got), len(exp), what))
                        continue
                    for g, w in zip(got, exp):
                        if w == ("pop",):
                            it.oblige("ranges", g == Const("pop"), f.node, f, s, "the target is not told to leave a context ({})".format(what))
                        elif w[0] == "push":
                            it.oblige("ranges", g == T("lexicon", w[1]), f.node, f, s, "the target is not told to enter a context ({})".format(what))
                        else:
                            x = it.exact_items(s, g) if isinstance(g, (Tup, Obj)) else None
                            if x is None or len(x) != 2 or not isinstance(x[1], SliceV):
                                it.oblige("ranges", False if g == Const("pop") or isinstance(g, Term) and g.op == "lexicon" else None, f.node, f, s, "unexpected {}".format(g))
                                continue
                            lo, hi, step = slice_parts(x[1])
                            lo = num(0) if lo == NONE else it.as_lin(s, lo)
                            ok = x[0] == w[0] and step in (NONE, num(1)) and lo is not None and s.entails_eq(lo - w[1])
                            if w[2] is None:
                                ok = ok and hi == NONE
                            else:
                                hi = it.as_lin(s, hi) if hi != NONE else None
                                ok = ok and hi is not None and s.entails_eq(hi - w[2])
                            it.oblige("ranges", ok, f.node, f, s, "the slice is {}[{}:{}] instead of {}[{}:{}] ({})".format(x[0], lo, hi, w[0], w[1], w[2], what))


# ---------------------------------------------------------------- the range between two positions

TREE = S("ancestor")
START, END, TEND = sym(T("in", "start")), sym(T("in", "end")), sym(T("in", "tree.end"))


def path(n):
    """the indices that lead to a node"""
    out = []
    while isinstance(n, Term) and n.op == "stable" and n.args[0] == "child":
        out.insert(0, n.args[2])
        n = n.args[1]
    return out if n == TREE else None


class FromTree(Base):
    extra_refs = (num(1),)

    def __init__(self, s, e):
        self.s, self.e = s, e       # the trails, None: nothing found

    def attr(self, it, st, base, name):
        if base == TREE and name == "end":
            return TEND
        if name in ("is_token", "is_context"):
            p = path(base)
            if p:
                for t in (self.s, self.e):
                    if t is not None and len(p) <= len(t) and all(isinstance(x, Lin) and st.entails_eq(x - y) for x, y in zip(p, t)):
                        return TRUE if (len(p) == len(t)) == (name == "is_token") else FALSE

    def getitem(self, it, st, base, key, node):
        if path(base) is not None and isinstance(key, Lin):
            return [(st, child(base, key))]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if recv == TREE and label in (".find_token_with_trail", ".find_token_left_with_trail") and len(args) == 1:
            left = "left" in label
            it.oblige("ranges", args[0] == (END if left else START), node, f, st, "another position is looked for")
            t = self.e if left else self.s
            if t is None:
                return [(st, Tup([NONE, NONE]))]
            return [(st, Tup([S("token", left), it.new_list(st, t)]))]

    def compare(self, it, st, op, a, b, node):
        if op in ("Gt", "Lt", "GtE", "LtE") and isinstance(a, (Obj, Tup)) and isinstance(b, (Obj, Tup)):
            x, y = it.exact_items(st, a), it.exact_items(st, b)
            if x is None or y is None:
                return None
            out = []
            for s, c in self.order(st, x, y):
                out.append((s, {"Gt": c > 0, "Lt": c < 0, "GtE": c >= 0, "LtE": c <= 0}[op]))
            return out

    def order(self, st, x, y):
        """[(state, -1 | 0 | 1)], how the lists compare"""
        out, cur = [], st
        for p, q in zip(x, y):
            s = cur.copy().assume(p - q - 1)
            if s is not None:
                out.append((s, 1))
            s = cur.copy().assume(q - p - 1)
            if s is not None:
                out.append((s, -1))
            cur = cur.copy().assume_eq(p - q)
            if cur is None:
                return out
        return out + [(cur, (len(x) > len(y)) - (len(x) < len(y)))]


def infeasible(st, s, e):
    """two different tokens, one of which would be a child of the other"""
    return len(s) != len(e) and all(st.entails_eq(x - y) for x, y in zip(s, e))


def run_from_tree(factory, P, limit=3):
    c = P.cls("tree.Range")
    f = c.find_method("from_tree")
    S0 = [sym(T("in", "s%d" % i)) for i in range(limit)]
    E0 = [sym(T("in", "e%d" % i)) for i in range(limit)]
    for ns in range(limit + 1):
        for ne in range(limit + 1):
            for given in (False, True):
                if not given and ne:
                    continue
                strail = S0[:ns] or None
                etrail = E0[:ne] or None
                h = FromTree(strail, etrail)
                it = factory(h)
                st = State()
                st.assume(*S0)
                st.assume(*E0)
                st.assume(TEND)
                n = f.arg_names()
                b = {n[0]: ClsV(c), n[1]: TREE, n[2]: START, n[3]: END if given else NONE}
                for s, v in it.run_fn(st, FnV(f, None, None, c), b, None, None):
                    if isinstance(v, Raised):
                        it.oblige("ranges", infeasible(s, strail or [], etrail or []), f.node, f, s, "raises {}".format(v.exc.name))
                        continue
                    what = "start trail of {}, end trail of {} indices".format(ns, ne)
                    empty = s.facts.get(("truth", TREE)) is False
                    if v == NONE:
                        ok = empty or s.entails(START - 1) and strail is None
                        if not ok and given and s.entails(TEND - END - 1):
                            ok = s.entails(START - END) or etrail is None
                            if not ok and strail and etrail and s.entails(START - 1):
                                ok = all(o > 0 for s2, o in h.order(s, strail, etrail))
                        it.oblige("ranges", ok, f.node, f, s, "there are tokens in the range, but no Range is made ({})".format(what))
                        continue
                    if not isinstance(v, Obj) or s.heap.get((v, "ancestor")) is None:
                        it.oblige("ranges", None, f.node, f, s)
                        continue
                    p = path(s.heap[(v, "ancestor")])
                    a = it.exact_items(s, s.heap.get((v, "start_trail")))
                    e = it.exact_items(s, s.heap.get((v, "end_trail")))
                    if p is None or a is None or e is None:
                        it.oblige("ranges", None, f.node, f, s)
                        continue
                    if infeasible(s, strail or [], etrail or []) and strail and etrail:
                        continue
                    it.oblige("ranges", not empty, f.node, f, s, "a Range is made of an empty tree")
                    if given:
                        s2 = s.copy().assume(START - END, TEND - END - 1)
                        it.oblige("ranges", s2 is None, f.node, f, s, "a Range is made, although the end is not after the start ({})".format(what))
                    for got, want, skip, name in ((a, strail, s.entails(-START), "start"),
                                                  (e, etrail, not given or s.entails(END - TEND), "end")):
                        if not got and not p:
                            it.oblige("ranges", skip, f.node, f, s, "the {} of the range is ignored ({})".format(name, what))
                        else:
                            full = list(p) + list(got)
                            ok = want is not None and len(full) == len(want) and all(s.entails_eq(x - y) for x, y in zip(full, want))
                            it.oblige("ranges", ok, f.node, f, s, "the {} of the range is not at the token that was found ({})".format(name, what))
                    if a and e:
                        ok = all(o <= 0 for s2, o in h.order(s, a, e))
                        it.oblige("ranges", ok, f.node, f, s, "the range ends before it begins ({})".format(what))
                        ok = len(a) == len(e) == 1 or s.entails(e[0] - a[0] - 1)
                        it.oblige("ranges", ok, f.node, f, s, "the ancestor of the range is not the nearest ({})".format(what))


class RangeTokens(Base):
    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if fn is not None and fn.name == "slices" or label == ".slices":
            return [(st, S("slices"))]
        if fn is not None and fn.short == "util.tokens":
            b = bound(fn, args, kwargs, False)
            n = fn.arg_names()
            return [(st, T("tokens of", b.get(n[0]), b.get(n[1], FALSE)))]

    def getitem(self, it, st, base, key, node):
        if base == S("context") and key == S("slice"):
            return [(st, S("part"))]

    def iter_elem(self, it, st, seq, k, elem, node):
        f = self.fn(it)
        if seq == S("slices"):
            it.oblige("ranges", st.g("due") == FALSE, node, f, st, "a part of the range is skipped")
            st.setg("due", TRUE)
            return [(st, Tup([S("context"), S("slice")]))]
        if isinstance(seq, Term) and seq.op == "tokens of":
            ok = seq.args[0] == S("part") and seq.args[1] == FALSE
            it.oblige("ranges", ok, node, f, st, "other tokens are yielded")
            return [(st, S("one"))]

    def iter_done(self, it, st, seq, k, node):
        if seq == S("slices"):
            it.oblige("ranges", st.g("due") == FALSE, node, self.fn(it), st, "a part of the range is skipped")
            st.setg("done", TRUE)
        if isinstance(seq, Term) and seq.op == "tokens of":
            st.setg("due", FALSE)


class RangePos(Base):
    def getitem(self, it, st, base, key, node):
        if path(base) is not None and isinstance(key, Lin):
            return [(st, child(base, key))]

    def attr(self, it, st, base, name):
        if name in ("pos", "end") and path(base) is not None:
            return T(name, base)


def run_range_tokens(factory, P, limit=3):
    c = P.cls("tree.Range")
    f = c.find_method("tokens")
    h = RangeTokens()
    it = factory(h)
    st = State()
    st.setg("due", FALSE).setg("done", FALSE)

    def on_yield(s, v):
        it.oblige("ranges", v == S("one"), f.node, f, s, "something else is yielded")
        return [(s, NEXT)]
    me = Obj(0, c, "self")
    for s, v in it.run_fn(st, FnV(f, None, None, c), {f.arg_names()[0]: me}, None, on_yield):
        ok = not isinstance(v, Raised) and s.g("done") == TRUE
        it.oblige("ranges", ok, f.node, f, s, "not all parts of the range are visited")
    for name, attr in (("pos", "start_trail"), ("end", "end_trail")):
        f = c.find_method(name)
        for n in range(limit + 1):
            h = RangePos()
            it = factory(h)
            st = State()
            t = [sym(T("in", "t%d" % i)) for i in range(n)]
            st.assume(*t)
            me = Obj(0, c, "self")
            st.heap[(me, "ancestor")] = TREE
            for a in ("start_trail", "end_trail"):
                st.heap[(me, a)] = it.new_list(st, t if a == attr else [])
            want = TREE
            for i in t:
                want = child(want, i)
            for s, v in it.run_fn(st, FnV(f, None, None, c), {f.arg_names()[0]: me}, None, None):
                if isinstance(v, Raised):
                    it.oblige("ranges", False, f.node, f, s, "raises {}".format(v.exc.name))
                    continue
                it.oblige("ranges", v == T(name, want) or v == sym(T(name, want)), f.node, f, s, "the {} of the range is {}".format(name, v))


# ---------------------------------------------------------------- the range between two tokens

OTHER = S("other")


def anc(who, level, common):
    """an ancestor; the outer ones are shared"""
    return S("anc", "shared" if level < common else who, level)


class Trails(Base):
    def __init__(self, ns, no, common, same):
        self.ns, self.no, self.common, self.same = ns, no, common, same

    def trail(self, who):
        n = self.ns if who == "self" else self.no
        out = []
        for level in range(n):
            i = sym(T("in", "i", "shared" if level < self.common - 1 else who, level))
            out.append((anc(who, level, self.common), i))
        return out[::-1]

    def attr(self, it, st, base, name):
        if base in (SELF, OTHER):
            if name == "pos":
                return sym(T("in", "pos", base))
            if name == "parent":
                return self.trail("self" if base == SELF else "other")[0][0]

    def compare(self, it, st, op, a, b, node):
        ids = lambda v: isinstance(v, Term) and v.op == "stable" and v.args[0] in ("self", "other", "anc")
        if op in ("Is", "IsNot", "Eq", "NotEq") and ids(a) and ids(b):
            return [(st, (a == b) == (op in ("Is", "Eq")))]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label in (".ancestors_with_index", "tree.Node.ancestors_with_index") and recv in (SELF, OTHER) and not args and not kwargs:
            return [(st, Tup([Tup(x) for x in self.trail("self" if recv == SELF else "other")]))]
        if label in (".ancestors", "tree.Node.ancestors") and recv in (SELF, OTHER) and not args and not kwargs:
            return [(st, Tup([x[0] for x in self.trail("self" if recv == SELF else "other")]))]
        if label in (".parent_index", "tree.Node.parent_index") and recv in (SELF, OTHER):
            return [(st, self.trail("self" if recv == SELF else "other")[0][1])]
        if label == ".index" and len(args) == 1 and isinstance(recv, (Tup, Obj)):
            x = it.exact_items(st, recv)
            if x is not None and all(isinstance(v, Term) and v.op == "stable" for v in x):
                return [(st, num(x.index(args[0])) if args[0] in x else Raised(Exc("ValueError")))]


def run_trails(factory, P, limit=3):
    f = P.cls("tree.Token").find_method("common_ancestor_with_trail")
    n = f.arg_names()
    for ns in range(1, limit + 1):
        for no in range(1, limit + 1):
            for common in range(0, min(ns, no) + 1):
                for same in (False, True):
                    if same and not (ns == no == common):
                        continue
                    h = Trails(ns, no, common, same)
                    it = factory(h)
                    st = State()
                    other = SELF if same else OTHER
                    p, q = sym(T("in", "pos", SELF)), sym(T("in", "pos", OTHER))
                    st.assume(p, q)
                    a, b = [x[1] for x in h.trail("self")][::-1], [x[1] for x in h.trail("other")][::-1]
                    st.assume(*a)
                    st.assume(*b)
                    for s, v in it.run_fn(st, FnV(f), {n[0]: SELF, n[1]: other}, None, None):
                        if isinstance(v, Raised):
                            it.oblige("ranges", False, f.node, f, s, "raises {}".format(v.exc.name))
                            continue
                        what = "tokens at depth {} and {}, {} shared contexts".format(ns, no, common)
                        x = it.exact_items(s, v) if isinstance(v, (Tup, Obj)) else None
                        if x is None or len(x) != 3:
                            it.oblige("ranges", None, f.node, f, s)
                            continue
                        if x[0] == NONE:
                            ok = not same and (common == 0 or s.entails(p - q))
                            it.oblige("ranges", ok, f.node, f, s, "there is a common ancestor, but it is not found ({})".format(what))
                            continue
                        t = [it.exact_items(s, y) for y in x[1:]]
                        if None in t:
                            it.oblige("ranges", None, f.node, f, s)
                            continue
                        ok = common > 0 and x[0] == anc("self", common - 1, common)
                        it.oblige("ranges", ok, f.node, f, s, "{} is not the nearest common ancestor ({})".format(x[0], what))
                        if ok:
                            for got, want, name in ((t[0], a, "start"), (t[1], a if same else b, "end")):
                                want = want[common - 1:]
                                ok = len(got) == len(want) and all(isinstance(y, Lin) and s.entails_eq(y - z) for y, z in zip(got, want))
                                it.oblige("ranges", ok, f.node, f, s, "the {} trail does not lead to the token ({})".format(name, what))
                            if not same:
                                it.oblige("ranges", s.entails(q - p - 1), f.node, f, s, "the other token does not come after this one ({})".format(what))


# ---------------------------------------------------------------- groups

G, BASE, K = sym(T("in", "members")), sym(T("in", "first")), sym(T("in", "member"))


class Group(Base):
    extra_refs = (num(1), BASE + G - 1)

    def group_of(self, it, st, m):
        out = []
        s = st.copy().assume(m, G - 2 - m)
        if s is not None:
            out.append((s, m))
        s = st.copy().assume_eq(m - G + 1)
        if s is not None:
            out.append((s, num(1) - G))
        return out

    def attr(self, it, st, base, name):
        if base == NODE and name == "parent":
            return PARENT
        if base == NODE and name == "group":
            return st.g("group")
        if name == "group" and isinstance(base, Term) and base.op == "child":
            m = base.args[1] - BASE
            if st.entails_eq(m - G + 1):
                return num(1) - G
            if st.entails(m) and st.entails(G - 2 - m):
                return m
            if st.entails(m) and st.entails(G - 1 - m):
                # a member of the group: m, but negative for the last one
                v = sym(T("group of", base))
                return v

    def getitem(self, it, st, base, key, node):
        if base == PARENT and isinstance(key, Lin):
            f = self.fn(it)
            if st.entails(key - BASE) and st.entails(BASE + G - 1 - key):
                out = []
                for s, m in self.group_of(it, st, key - BASE):
                    out.append((s, T("child", PARENT, key)))
                return out
            return [(st, T("child", PARENT, key))]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == "len" and args == [PARENT]:
            return [(st, N)]
        if label == ".parent_index" and recv == NODE:
            return [(st, I)]


def run_groups(factory, P):
    c = P.cls("tree.GroupToken")
    for name in ("get_group", "get_group_start", "get_group_end"):
        f = c.find_method(name)
        for last in (False, True):
            h = Group()
            it = factory(h)
            st = State()
            st.assume(BASE, G - 2, K, G - 1 - K, N - BASE - G)
            st = st.assume_eq(I - BASE - K)
            if last:
                st = st.assume_eq(K - G + 1)
                st.setg("group", num(1) - G)
            else:
                st.assume(G - 2 - K)
                st.setg("group", K)
            for s, v in it.run_fn(st, FnV(f), {f.arg_names()[0]: NODE}, None, None):
                if isinstance(v, Raised):
                    it.oblige("groups", False, f.node, f, s, "raises {}".format(v.exc.name))
                    continue
                if name == "get_group":
                    if not (isinstance(v, Term) and v.op == "slice"):
                        it.oblige("groups", None, f.node, f, s)
                        continue
                    b, lo, hi = v.args[:3]
                    lo, hi = it.as_lin(s, lo), it.as_lin(s, hi)
                    ok = b == PARENT and lo is not None and hi is not None and s.entails_eq(lo - BASE) and s.entails_eq(hi - BASE - G)
                    it.oblige("groups", ok, f.node, f, s, "the group is {}".format(v))
                else:
                    want = BASE if name == "get_group_start" else BASE + G - 1
                    ok = isinstance(v, Term) and v.op == "child" and s.entails_eq(v.args[1] - want)
                    it.oblige("groups", ok, f.node, f, s, "{} returns {}".format(name, v))


def slice_parts(v):
    return tuple(getattr(v, "args", None) or (v.lo, v.hi, v.step))


def run(ctx):
    P = ctx.program
    ctx.rule("every token", "every token is yielded exactly once, and every context is visited completely")
    ctx.rule("in order", "nodes are visited one after the other, in the given direction")
    ctx.rule("ancestors", "the ancestors are visited from the nearest to the root (or the given one), each with the index that leads to it")
    ctx.rule("siblings", "siblings are those at the neighbouring indices, on every level")
    ctx.rule("ranges", "the slices of a range contain exactly the nodes from the first to the last token")
    ctx.rule("groups", "the members of a group are found from any of them")
    for r in (run_walk, run_up, run_index, run_siblings, run_sibling_lists, run_slices, run_from_tree, run_range_tokens, run_trails, run_groups):
        ctx.analyse(lambda factory, r=r: r(factory, P))
    for r in ctx.rules:
        ctx.floor(r, 1)
