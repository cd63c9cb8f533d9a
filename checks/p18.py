"""P18: transforming passes to every method exactly the contents of its context."""
import ast
from pa.interp import *
from pa import model
from checks.p08 import Walk, walk_state, Base, S, SELF, TOKEN, A, B, LISTS, bound

L = (S("lang", 0), S("lang", 1))
CACHE, INTERRUPT = S("cache"), S("interrupt")
UNTRANSFORMED = Const("<untransformed>")


def mentions(v, x):
    if v == x:
        return True
    if isinstance(v, Tup):
        return any(mentions(i, x) for i in v.items)
    if isinstance(v, Term):
        return any(mentions(a, x) for a in v.args if isinstance(a, (Term, V)))
    return False


def unsure(v):
    if isinstance(v, Tup):
        return any(unsure(x) for x in v.items)
    if isinstance(v, Term):
        return v.op != "stable" or any(unsure(a) for a in v.args if isinstance(a, (Term, V)))
    return False


def verdict(ok, *values):
    """undecided if it is about a value that is not known"""
    return True if ok else None if any(unsure(v) for v in values) else False


class Tree(Walk):
    """ghosts besides those of Walk: hasm (is there a method for the fetched context), clang (its language),
    left (the context that was left, but of which the result is not handed over)"""
    max_heads = 200

    def __init__(self, langs=L, flags=(TRUE, FALSE)):
        Walk.__init__(self, SELF, False)
        self.langs, self.flags = langs, flags

    def handled(self, it, st, node):
        f = self.fn(it)
        it.oblige("contents", st.g("due") == FALSE, node, f, st, "a token is left out")
        it.oblige("contents", st.g("left") == NONE, node, f, st, "the result of a context is left out")
        c = st.g("child")
        if c != NONE:
            hasm = st.g("hasm")
            ok = hasm == FALSE and st.g("flag") == FALSE
            it.oblige("contents", ok, node, f, st, "a context is left out" + (" for which there is a method" if hasm == TRUE else ""))
            if not ok:
                return False
            self.forget(st)
        return st.g("due") == FALSE and st.g("left") == NONE

    def forget(self, st):
        st.setg("child", NONE).setg("hasm", NONE).setg("clang", NONE).setg("cflag", NONE)

    def enter_child(self, it, st):
        Walk.enter_child(self, it, st)
        st.setg("flag", st.g("cflag"))
        self.forget(st)

    def fetch(self, it, st, n, node, count=None):
        out = []
        st.setg("below", NONE)
        for s, v in Walk.fetch(self, it, st, n, node, count):
            if v == TOKEN:
                out.append((s, v))
                continue
            # forget what is known about an older context with that name
            for k in [k for k in s.facts if isinstance(k, tuple) and len(k) > 1 and mentions(k[1], v)]:
                del s.facts[k]
            for k, x in list(s.vars.items()):
                if k[0] != "ghost" and mentions(x, v):
                    s.vars[k] = S("stale")
            for l in self.langs:
                s2 = s.copy()
                s2.setg("clang", l).setg("hasm", NONE)
                out.append((s2, v))
        return out

    def attr(self, it, st, base, name):
        if isinstance(base, Obj) and name == "_cache":
            return CACHE
        if isinstance(base, Obj) and name == "_interrupt":
            return INTERRUPT
        if base in (A, B, SELF) and name == "lexicon":
            return S("lexicon", base)
        if name == "parent" and base in (A, B) and base == st.g("below"):
            return st.g("cur")
        if isinstance(base, Term) and base.op == "stable":
            if base.args[0] == "lexicon":
                n = base.args[1]
                if name == "language":
                    return L[0] if n == SELF else st.g("clang") if n == st.g("child") else S("lang of", n)
                if name in ("name", "arg"):
                    return S(name, n)
            if base.args[0] == "meth" and name == "__func__":
                return S("func", base.args[1])
        return Walk.attr(self, it, st, base, name)

    def compare(self, it, st, op, a, b, node):
        if op in ("Is", "IsNot", "Eq", "NotEq") and a in L and b in L:
            return [(st, (a == b) == (op in ("Is", "Eq")))]
        if op in ("In", "NotIn") and b == CACHE:
            s2 = st.copy()
            st.facts["cached", a] = True
            s2.facts["cached", a] = False
            return [(st, op == "In"), (s2, op != "In")]
        return Walk.compare(self, it, st, op, a, b, node)

    def getitem(self, it, st, base, key, node):
        f = self.fn(it)
        if isinstance(base, Obj) and st.heap.get((base, "#val")) == T("stack"):
            return self.unknown(it, st, node)
        if base == INTERRUPT:
            s2 = st.copy()
            s2.setg("interrupted", TRUE)
            return [(st, FALSE), (s2, TRUE)]
        if base == CACHE:
            if st.facts.get(("cached", key)) is not None:
                return [(st, S("cached", key) if st.facts["cached", key] else Raised(Exc("KeyError")))]
            s2 = st.copy()
            s2.note(getattr(node, "lineno", 0), "KeyError")
            return [(st, S("cached", key)), (s2, Raised(Exc("KeyError")))]
        r = Walk.getitem(self, it, st, base, key, node)
        return self.unknown(it, st, node) if r is None and base in LISTS else r

    def unknown(self, it, st, node):
        it.oblige("contents", None, node, self.fn(it), st)
        return []

    def binop(self, it, st, op, a, b, node):
        if any(isinstance(x, Term) and x.op == "stable" and x.args[0] in ("items", "tokens") for x in (a, b)):
            return self.unknown(it, st, node)

    def iter_elem(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and (seq.op == "fresh" or seq.op == "stable" and seq.args[0] in ("items", "tokens")):
            return self.unknown(it, st, node)
        if isinstance(seq, Term) and seq.op == "reversed":
            seq = seq.args[0]
        if isinstance(seq, Obj) and st.heap.get((seq, "#val")) == T("stack"):
            return self.unknown(it, st, node)
        return Walk.iter_elem(self, it, st, seq, k, elem, node)

    def iter_done(self, it, st, seq, k, node):
        if isinstance(seq, Term) and (seq.op == "fresh" or seq.op == "stable" and seq.args[0] in ("items", "tokens")):
            return self.unknown(it, st, node)
        if isinstance(seq, Term) and seq.op == "reversed":
            seq = seq.args[0]
        if isinstance(seq, Obj) and st.heap.get((seq, "#val")) == T("stack"):
            return self.unknown(it, st, node)
        return Walk.iter_done(self, it, st, seq, k, node)

    def setitem(self, it, st, base, key, v, node):
        if base == INTERRUPT:
            return [(st, None)]
        if base == CACHE:
            ok = v == S("result", key) and key in (A, B, SELF)
            it.oblige("cache", verdict(ok, v, key), node, self.fn(it), st, "the result of another context is stored")
            return [(st, None)]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if label.endswith("deque") and recv is None and not args:
            return [(st, it.new_list(st, []))]
        if fn is not None and fn.name == "get_transform":
            return [(st, S("transform", (list(args) + list(kwargs.values()))[0]))]
        if label == ".get" and recv == CACHE and args:
            s2 = st.copy()
            d = args[1] if len(args) > 1 else NONE
            if isinstance(d, Obj) or isinstance(d, Const) and d != NONE or isinstance(d, Term) and d.op == "fresh":
                # something that is not a result
                st.facts["is", S("cached", args[0]), d] = False
            elif d == NONE:
                # None may be a result, too
                s2.setg("none", TRUE)
            return [(st, S("cached", args[0])), (s2, d)]
        if label == "getattr" and len(args) == 3 and args[2] == NONE and isinstance(args[0], Term) and args[0].op == "stable" and args[0].args[0] == "transform":
            n = args[1].args[1] if isinstance(args[1], Term) and args[1].op == "stable" and args[1].args[0] == "name" else None
            if n is None:
                it.oblige("methods", None, node, f, st)
                return []
            lang = args[0].args[1]
            if n == st.g("child"):
                it.oblige("methods", lang == st.g("clang"), node, f, st, "the method is looked up in the transform of another language")
            elif n == SELF:
                it.oblige("methods", lang == L[0], node, f, st, "the method is looked up in the transform of another language")
            else:
                it.oblige("methods", False, node, f, st, "the method of another context is looked up")
            if n == st.g("child") and st.g("hasm") != NONE:
                return [(st, S("meth", n) if st.g("hasm") == TRUE else NONE)]
            s2 = st.copy()
            if n == SELF:
                s2.setg("nothing", TRUE)
            else:
                st.setg("hasm", TRUE)
                s2.setg("hasm", FALSE)
            m = S("meth", n)
            st.facts[("truth", m)] = True
            st.facts[("isnone", m)] = False
            name = "flag" if n == SELF else "cflag"
            return [(st.copy().setg(name, flag), m) for flag in self.flags] + [(s2, NONE)]
        if label == "getattr" and isinstance(args[0], Term) and args[0].op == "stable" and args[0].args[0] in ("func", "meth") and len(args) == 3:
            m = args[0].args[1]
            v = st.g("cflag") if m == st.g("child") else st.g("flag") if m == st.g("cur") else NONE
            it.oblige("contents", v != NONE, node, f, st, "what another method wants is asked")
            return [(st, v)]
        if label == "transform.ItemList" and len(args) == 1:
            a = args[0]
            n = a.args[1] if isinstance(a, Term) and a.op == "stable" and a.args[0] == "arg" else None
            c = st.g("child")
            if n == SELF and st.g("level") == num(0) and c == NONE:
                return [(st, S("items", SELF))]
            it.oblige("contents", verdict(n is not None and n == c, a), node, f, st, "the list of items gets the argument of another lexicon")
            if n is None or n != c:
                return []
            it.oblige("contents", st.g("hasm") == TRUE, node, f, st, "a context is entered without a method")
            if st.g("pushed") == TRUE:
                st.setg("pushed", FALSE)
                self.enter_child(it, st)
            else:
                st.setg("opened", TRUE)
            return [(st, S("items", n))]
        if label == "transform.Item":
            b = dict(zip(("name", "obj"), args))
            b.update(kwargs)
            return [(st, S("Item", b.get("name"), b.get("obj")))]
        if label == ".append" and isinstance(recv, Term) and recv.op == "stable" and recv.args[0] == "items" and len(args) == 1:
            self.add(it, st, recv.args[1], args[0], node)
            return [(st, NONE)]
        if isinstance(recv, Term) and recv.op == "stable" and recv.args[0] == "meth" and label == str(recv):
            m = recv.args[1]
            ok = args == [S("items", m)]
            it.oblige("contents", verdict(ok, *args), node, f, st, "the method gets other items")
            if m == SELF:
                done = self.handled(it, st, node) and st.g("cur") == SELF and st.entails_eq(st.g("next") - st.g("clen"))
                it.oblige("contents", done, node, f, st, "the method of the root is called before all is done")
            else:
                it.oblige("contents", m == st.g("left"), node, f, st, "the method of a context is called too early")
            return [(st, S("result", m))]
        if isinstance(recv, Obj) and recv.cls == "list" and label == ".append" and len(args) == 1 and st.g("child") != NONE:
            kind = self.kind(it, st, args[0])
            if kind is not None:
                l = it.len_of(st, recv)
                st.heap[(recv, "#val")] = T("stack")
                st.heap[(recv, "#len")] = l + 1
                st.setg("kind", kind)
                if st.g("opened") == TRUE:
                    st.setg("opened", FALSE)
                    self.enter_child(it, st)
                else:
                    st.setg("pushed", TRUE)
                return [(st, NONE)]
        if isinstance(recv, Obj) and recv.cls == "list" and label == ".pop" and not args and st.g("kind") != NONE:
            self.handled(it, st, node)
            left = st.g("cur")
            r = Walk.call(self, it, st, label, recv, args, kwargs, node, fn)
            out = []
            for s, v in r or []:
                s.setg("left", left).setg("below", left)
                for flag in self.flags:
                    s2 = s.copy()
                    s2.setg("flag", flag)
                    out.append((s2, self.with_flag(v, flag)))
            return out
        if label in (".append", ".extend", ".insert", ".push", ".appendleft") and any(mentions(a, x) for a in args for x in (TOKEN, st.g("child")) if x != NONE):
            return self.unknown(it, st, node)
        if label in ("len", "iter", "reversed", "itertools.islice"):
            return Walk.call(self, it, st, label, recv, args, kwargs, node, fn)

    def kind(self, it, st, v):
        c = st.g("child")
        for what in ("meth", "lexicon", "name"):
            if v == S(what, c):
                return Const(("child", what))
        if v == c:
            return Const(("child",))
        if v in (TRUE, FALSE):
            return Const(("flag",)) if v == st.g("flag") else Const(("const", v.v))
        for what in ("items", "lexicon", "name"):
            if v == S(what, st.g("cur")):
                return Const(("own", what))
        return Walk.kind(self, it, st, v)

    def with_flag(self, v, flag):
        if isinstance(v, Tup):
            return Tup([self.with_flag(x, flag) for x in v.items])
        return flag if v == S("flag") else v

    def restore(self, kind, p, saved):
        if isinstance(kind, Const) and kind.v[0] == "flag":
            return S("flag")
        if isinstance(kind, Const) and kind.v[0] == "const":
            return Const(kind.v[1])
        if isinstance(kind, Const) and kind.v[0] == "child":
            left = B if p == A else A
            return S(kind.v[1], left) if len(kind.v) > 1 else left
        if isinstance(kind, Const) and kind.v[0] == "own":
            return S(kind.v[1], p)
        return Walk.restore(self, kind, p, saved)

    def add(self, it, st, n, v, node):
        f = self.fn(it)
        it.oblige("contents", n == st.g("cur"), node, f, st, "something is added to the items of another context")
        if v == TOKEN:
            it.oblige("contents", st.g("due") == TRUE, node, f, st, "a token is added twice")
            st.setg("due", FALSE)
            return
        if not (isinstance(v, Term) and v.op == "stable" and v.args[0] == "Item"):
            it.oblige("contents", None, node, f, st)
            return
        name, obj = v.args[1:]
        c, left = st.g("child"), st.g("left")
        if isinstance(obj, Term) and obj.op == "stable" and obj.args[0] in ("cached", "result"):
            m = obj.args[1]
            it.oblige("contents", verdict(name == S("name", m), name), node, f, st, "the item has another name than its context")
            if obj.args[0] == "cached":
                it.oblige("contents", m == c and st.g("hasm") == TRUE, node, f, st, "the cached result of another context is added")
                self.forget(st)
            else:
                it.oblige("contents", m == left, node, f, st, "the result of another context is added")
                st.setg("left", NONE)
        elif obj == c and c != NONE:
            ok = name == UNTRANSFORMED and st.g("hasm") == FALSE and st.g("flag") == TRUE
            it.oblige("contents", ok, node, f, st, "a context is added as item, although {}".format(
                "there is a method for it" if st.g("hasm") == TRUE else "the method does not want it"))
            self.forget(st)
        else:
            it.oblige("contents", verdict(False, obj), node, f, st, "{} is added".format(obj))


def run_tree(factory, P):
    c = P.cls("transform.Transformer")
    f = c.find_method("transform_tree")
    n = f.arg_names()
    for langs, flags in ((L[:1], (TRUE, FALSE)), (L, (FALSE,))):
        h = Tree(langs, flags)
        it = factory(h)
        st = walk_state(SELF)
        st.setg("hasm", NONE).setg("clang", NONE).setg("flag", NONE).setg("cflag", NONE).setg("left", NONE).setg("below", NONE).setg("interrupted", FALSE).setg("nothing", FALSE)
        me = Obj(0, c, "self")
        for s, v in it.run_fn(st, FnV(f, None, None, c), {n[0]: me, n[1]: SELF}, None, None):
            if isinstance(v, Raised):
                it.oblige("contents", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            if v == NONE:
                ok = s.g("interrupted") == TRUE or s.g("nothing") == TRUE or s.facts.get(("truth", S("lexicon", SELF))) is False \
                    or s.facts.get(("isnone", S("lexicon", SELF))) is True
                it.oblige("contents", ok, f.node, f, s, "no result is returned")
            else:
                it.oblige("contents", verdict(v == S("result", SELF), v), f.node, f, s, "another result is returned")


# ---------------------------------------------------------------- transforming text

EVENT = NTV("Event", ("target", "lexemes"))
EVENTS, TARGET, PUSH, LEXEMES, EMPTY = S("events"), S("target"), S("push"), S("lexemes"), Tup([])


class Events(Base):
    """The events of a lexer. ghosts: tpop, tn (pops and pushes of the current event), end"""
    def event(self, it, st):
        """[(state, target, lexemes)]"""
        s1, s2 = st, st.copy()
        s1.setg("tpop", num(0)).setg("tn", num(0))
        p, n = it.freshint("pop"), it.freshint("push")
        s2.assume(-p, n)
        s2.setg("tpop", p).setg("tn", n)
        for s in (s1, s2):
            s.facts[("truth", TARGET)] = True
            s.facts[("isnone", TARGET)] = False
            s.facts[("truth", LEXEMES)] = True
        return [(s1, NONE, LEXEMES), (s2, TARGET, LEXEMES)]

    def attr(self, it, st, base, name):
        if base == TARGET and name == "pop":
            return st.g("tpop")
        if base == TARGET and name == "push":
            return PUSH


def remaining(it, st, h, v, node, rule, pop):
    """v is the event that remains, of which pop contexts are still to be left"""
    f = h.fn(it)
    x = v.args[1:] if isinstance(v, Term) and v.op == "stable" and v.args[0] == "Event" else None
    if x is None:
        it.oblige(rule, None, node, f, st)
        return
    it.oblige(rule, x[1] == LEXEMES, node, f, st, "the lexemes of the event that follows are lost")
    t = x[0]
    if t == NONE:
        ok = st.entails_eq(pop) and (st.entails_eq(st.g("tn")) or st.facts.get(("truth", PUSH)) is False)
        it.oblige(rule, ok, node, f, st, "the target of the event that follows is lost")
        return
    if not (isinstance(t, Term) and t.op == "stable" and t.args[0] == "Target"):
        it.oblige(rule, None, node, f, st)
        return
    p = it.as_lin(st, t.args[1])
    it.oblige(rule, p is not None and st.entails_eq(p - pop), node, f, st, "the event that follows leaves {} contexts instead of {}".format(p, pop))
    it.oblige(rule, t.args[2] == PUSH, node, f, st, "the event that follows enters other contexts")


class Making(Events):
    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label.split(".")[-1] in ("Event", "Target") and recv is None and (fn is None or fn.name in ("Event", "Target")):
            b = list(args) + list(kwargs.values())
            if len(b) == 2:
                return [(st, S(label.split(".")[-1], *b))]
        if label.split(".")[-1] == "make_tokens" and recv is None:
            b = list(args) + list(kwargs.values())
            return [(st, S("tokens", *b))]

    def getitem(self, it, st, base, key, node):
        if base == S("lexs") and isinstance(key, SliceV) and key.lo == num(1) and key.hi == NONE and key.step == NONE:
            return [(st, S("rest"))]
        if base == S("lexs") and key == num(0):
            return [(st, S("lex", "first"))]


class Consume(Making):
    """ghost d: the number of contexts that are open"""
    def iter_elem(self, it, st, seq, k, elem, node):
        if seq != EVENTS:
            return None
        self.follow(it, st, node)
        out = []
        for s, t, l in self.event(it, st):
            s.setg("low", s.g("d") + s.g("tpop"))
            s.setg("d", s.g("low") + s.g("tn"))
            out.append((s, Tup([t, l], EVENT)))
        return out

    def follow(self, it, st, node):
        it.oblige("rest", st.entails(st.g("low") - 1), node, self.fn(it), st, "events are skipped that come after the contexts")

    def iter_done(self, it, st, seq, k, node):
        if seq == EVENTS:
            self.follow(it, st, node)
            st.setg("end", TRUE)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == "len" and args == [S("lexs")]:
            return [(st, NLEX)]
        if label == "len" and args == [PUSH]:
            return [(st, st.g("tn"))]
        return Making.call(self, it, st, label, recv, args, kwargs, node, fn)


NLEX = sym(T("in", "lexicons"))


class Build(Making):
    """Contexts are numbers (their depth below the tree that is built). ghosts: open (depth of the context the lexer is in),
    due (a context that was not added to its parent), todo (lexicons that were not entered), lex (lexemes to be added)"""
    extra_refs = (num(1),)

    def attr(self, it, st, base, name):
        if isinstance(base, Lin) and name == "parent":
            return base - 1
        return Making.attr(self, it, st, base, name)

    def compare(self, it, st, op, a, b, node):
        if op in ("Is", "IsNot") and isinstance(a, Lin) and isinstance(b, Lin):
            return [(s, t == (op == "Is")) for s, t in it.num_eq(st, a, b)]

    def follow(self, it, st, node):
        f = self.fn(it)
        it.oblige("rest", st.g("due") == FALSE, node, f, st, "a context is not added to its parent")
        it.oblige("rest", st.entails_eq(st.g("todo")), node, f, st, "a context is not entered")
        it.oblige("rest", st.g("lex") == FALSE, node, f, st, "tokens are lost")

    def iter_elem(self, it, st, seq, k, elem, node):
        if seq == EVENTS:
            self.follow(it, st, node)
            out = []
            for s, t, l in self.event(it, st):
                s.setg("lex", TRUE).setg("todo", s.g("tn")).setg("open", s.g("open") + s.g("tpop"))
                out.append((s, Tup([t, l], EVENT)))
            return out
        if seq in (PUSH, S("rest")):
            st.assume(st.g("todo") - 1)
            st.setg("todo", st.g("todo") - 1).setg("lexicon", TRUE)
            return [(st, S("lex", "next"))]

    def iter_done(self, it, st, seq, k, node):
        if seq == EVENTS:
            self.follow(it, st, node)
            st.setg("end", TRUE)
        if seq in (PUSH, S("rest")):
            st.assume_eq(st.g("todo"))

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if label == "tree.Context":
            b = list(args) + list(kwargs.values())
            if b[1] == NONE:
                it.oblige("rest", st.g("tree") == FALSE and b[0] == S("lex", "first"), node, f, st, "the tree has another lexicon")
                st.setg("tree", TRUE)
                return [(st, num(0))]
            it.oblige("rest", st.g("due") == FALSE, node, f, st, "a context is not added to its parent")
            ok = isinstance(b[1], Lin) and st.entails_eq(b[1] - st.g("open")) and st.entails(st.g("open"))
            it.oblige("rest", ok, node, f, st, "a context is made in another context than the lexer is in")
            it.oblige("rest", b[0] == S("lex", "next") and st.g("lexicon") == TRUE, node, f, st, "a context has another lexicon")
            st.setg("open", st.g("open") + 1).setg("due", TRUE).setg("lexicon", FALSE)
            return [(st, st.g("open"))]
        if isinstance(recv, Lin) and label == ".append" and len(args) == 1:
            ok = isinstance(args[0], Lin) and st.entails_eq(args[0] - st.g("open")) and st.entails_eq(recv - st.g("open") + 1)
            it.oblige("rest", ok and st.g("due") == TRUE, node, f, st, "a context is added at another place")
            st.setg("due", FALSE)
            return [(st, NONE)]
        if isinstance(recv, Lin) and label == ".extend" and len(args) == 1:
            t = args[0]
            if not (isinstance(t, Term) and t.op == "stable" and t.args[0] == "tokens"):
                it.oblige("rest", None, node, f, st)
                return [(st, NONE)]
            ok = st.entails_eq(recv - st.g("open")) and len(t.args) == 3 and isinstance(t.args[2], Lin) and st.entails_eq(t.args[2] - recv)
            it.oblige("rest", ok, node, f, st, "tokens are added to another context than the lexer is in")
            it.oblige("rest", t.args[1] == LEXEMES and st.g("lex") == TRUE and st.entails_eq(st.g("todo")), node, f, st, "other tokens are added, or too early")
            st.setg("lex", FALSE)
            return [(st, NONE)]
        return Making.call(self, it, st, label, recv, args, kwargs, node, fn)


def small(n):
    return Const(("n", n))


def value(st, name):
    return st.g(name).v[1]


class Text(Tree):
    max_states = 1500
    triples = False
    seed_widening = True
    """ghosts besides those of Tree: tp (contexts still to be left), tpop, tn, done (lexicons that were fetched), lex, end"""
    extra_refs = (num(1),)

    def __init__(self, langs, flags):
        Tree.__init__(self, langs, flags)
        self.captured = {}

    def fn(self, it):
        return next((f.func for f in reversed(it.stack) if f.func is not None), None)

    def event(self, it, st, after=False):
        for pop, push in ((0, 0), (1, 0), (0, 1)) if after else ((0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (2, 1)):
            s = st.copy()
            s.setg("tpop", small(-pop)).setg("tn", small(push))
            s.facts[("truth", TARGET)] = True
            s.facts[("isnone", TARGET)] = False
            s.facts[("truth", LEXEMES)] = True
            if s.assume(s.g("level") - pop) is not None:
                yield s, TARGET if pop or push else NONE, LEXEMES

    def enter_child(self, it, st):
        Tree.enter_child(self, it, st)
        st.setg("next", num(0)).setg("clen", num(0))

    def iter_start(self, it, st, seq, node):
        if seq == EVENTS and st.g("loop") == NONE:
            st.setg("loop", Const(id(node)))

    def item_count(self, it, st, seq):
        if seq == PUSH:
            return value(st, "tn")

    def attr(self, it, st, base, name):
        if base == TARGET and name == "pop":
            return num(value(st, "tpop"))
        if base == TARGET and name == "push":
            return PUSH
        return Tree.attr(self, it, st, base, name)

    def complete(self, it, st, node):
        """the current event was handled"""
        f = self.fn(it)
        self.handled(it, st, node)
        it.oblige("contents", value(st, "tp") == 0, node, f, st, "a context is not left")
        it.oblige("contents", value(st, "tn") == value(st, "done"), node, f, st, "a context is not entered")
        it.oblige("contents", st.g("lex") == FALSE, node, f, st, "tokens are lost")

    def start(self, it, st, after=False):
        out = []
        for s, t, l in self.event(it, st, after):
            s.setg("tp", small(-value(s, "tpop"))).setg("done", small(0)).setg("lex", TRUE)
            out.append((s, t, l))
        return out

    def iter_elem(self, it, st, seq, k, elem, node):
        f = self.fn(it)
        if seq == EVENTS:
            if st.g("loop") != Const(id(node)):
                return self.unknown(it, st, node)
            if st.g("exhausted") == TRUE:
                return []
            self.complete(it, st, node)
            return [(s, Tup([t, l], EVENT)) for s, t, l in self.start(it, st)]
        if seq == PUSH:
            self.handled(it, st, node)
            it.oblige("contents", value(st, "tp") == 0, node, f, st, "a context is entered before others are left")
            st.setg("done", small(k.k + 1))
            c = B if st.g("cur") == A else A
            st.setg("child", c)
            for k in [k for k in st.facts if isinstance(k, tuple) and len(k) > 1 and mentions(k[1], c)]:
                del st.facts[k]
            for k, x in list(st.vars.items()):
                if k[0] != "ghost" and mentions(x, c):
                    st.vars[k] = S("stale")
            out = []
            for l in self.langs:
                s2 = st.copy()
                s2.setg("clang", l).setg("hasm", NONE)
                s2.facts[("truth", S("lexicon", c))] = True
                out.append((s2, S("lexicon", c)))
            return out
        return Tree.iter_elem(self, it, st, seq, k, elem, node)

    def iter_done(self, it, st, seq, k, node):
        if seq == EVENTS:
            if st.g("loop") != Const(id(node)):
                return self.unknown(it, st, node)
            self.complete(it, st, node)
            st.setg("end", TRUE)
            return
        if seq == PUSH:
            self.handled(it, st, node)
            return
        return Tree.iter_done(self, it, st, seq, k, node)

    def getitem(self, it, st, base, key, node):
        if base == PUSH and isinstance(key, SliceV) and key.hi == NONE and key.step == NONE:
            lo = it.as_lin(st, key.lo) if key.lo != NONE else num(0)
            ok = lo is not None and st.entails_eq(lo - value(st, "done") + 1) and st.g("child") != NONE
            it.oblige("contents", ok, node, self.fn(it), st, "other lexicons are handed over")
            return [(st, S("lexs"))]
        return Tree.getitem(self, it, st, base, key, node)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        name = label.split(".")[-1]
        if label == "lexer.Lexer":
            ok = len(args) == 1 and it.exact_items(st, args[0]) == [S("lexicon", SELF)]
            it.oblige("contents", ok, node, f, st, "the text is lexed with another lexicon")
            return [(st, S("lexer"))]
        if label == ".events" and recv == S("lexer"):
            b = list(args) + list(kwargs.values())
            it.oblige("contents", b == [S("text"), sym(T("in", "pos"))], node, f, st, "another text is lexed, or from another position")
            return [(st, EVENTS)]
        if name == "make_tokens" and fn is not None and args[:1] != [EMPTY]:
            return [(st, S("tokens", *args))]
        if label == ".extend" and isinstance(recv, Term) and recv.op == "stable" and recv.args[0] == "items" and len(args) == 1:
            if it.exact_items(st, args[0]) == []:
                return [(st, NONE)]
            self.handled(it, st, node)
            it.oblige("contents", verdict(args[0] == S("tokens", LEXEMES) and st.g("lex") == TRUE, args[0]), node, f, st, "other tokens are added")
            it.oblige("contents", recv.args[1] == st.g("cur"), node, f, st, "tokens are added to another context")
            ok = value(st, "tp") == 0 and value(st, "tn") == value(st, "done")
            it.oblige("contents", ok, node, f, st, "tokens are added before the target is handled")
            st.setg("lex", FALSE).setg("tn", small(0)).setg("done", small(0)).setg("tp", small(0)).setg("tpop", small(0))
            return [(st, NONE)]
        if fn is not None and EVENTS in args + list(kwargs.values()):
            # a function that handles the events up to the end of a context
            b = dict(zip(fn.arg_names(), args))
            b.update(kwargs)
            build = st.g("flag") == TRUE
            want = {S("lexs"), LEXEMES, EVENTS} if build else {S("lexs"), EVENTS}
            got = {v for v in b.values() if not isinstance(v, Obj)}
            it.oblige("contents", got == want, node, f, st, "other events are handed over")
            c = st.g("child")
            it.oblige("contents", c != NONE and st.g("hasm") == FALSE, node, f, st, "a context is not entered for which there is a method")
            self.captured.setdefault((fn.qualname, build), (st.copy(), fn, b))
            if c == NONE:
                return []
            if not build:
                it.oblige("contents", st.g("flag") == FALSE, node, f, st, "a context is left out")
                self.forget(st)
            st.setg("lex", FALSE).setg("tn", small(0)).setg("done", small(0)).setg("tp", small(0)).setg("tpop", small(0))
            s2 = st.copy()
            s2.setg("exhausted", TRUE)
            out = []
            for s, t, l in self.start(it, st, True):
                out.append((s, Tup([t, l], EVENT)))
            out.append((s2, NONE))
            return [(s, Tup([S("context", c), e]) if build else e) for s, e in out]
        if isinstance(recv, Obj) and recv.cls == "list" and label == ".pop" and not args and st.g("kind") != NONE:
            self.handled(it, st, node)
            l, lv, cur = it.len_of(st, recv), st.g("level"), st.g("cur")
            ok = st.entails(l - 1) and st.entails(lv - 1)
            it.oblige("contents", ok, node, f, st, "a context is left that was not entered")
            due = value(st, "tp") > 0 or st.g("end") == TRUE
            it.oblige("contents", due, node, f, st, "a context is left too early")
            if not ok or not due:
                return []
            out = []
            if st.g("end") != TRUE:
                st.setg("tp", small(value(st, "tp") - 1))
            for s, n in ((st.copy().assume_eq(lv - 1), 1), (st.copy().assume(lv - 2), 2)):
                if s is None or n == 1 and cur == B:
                    continue
                p = self.parent(s, cur)
                s.setg("cur", p).setg("level", lv - 1)
                s.heap[(recv, "#len")] = l - 1
                v = self.restore(s.g("kind"), p, None)
                s.setg("left", cur)
                if n == 1:
                    s.heap[(recv, "#val")] = Tup([])
                    s.heap[(recv, "#len")] = num(0)
                    s.setg("kind", NONE)
                for flag in self.flags:
                    s2 = s.copy()
                    s2.setg("flag", flag)
                    out.append((s2, self.with_flag(v, flag)))
            return out
        return Tree.call(self, it, st, label, recv, args, kwargs, node, fn)

    def add(self, it, st, n, v, node):
        c = st.g("child")
        if c != NONE and isinstance(v, Term) and v.op == "stable" and v.args[0] == "Item" and v.args[2] == S("context", c):
            v = S("Item", v.args[1], c)
        Tree.add(self, it, st, n, v, node)


def run_text(factory, P):
    c = P.cls("transform.Transformer")
    f = c.find_method("transform_text")
    n = f.arg_names()
    for langs, flags in ((L[:1], (TRUE, FALSE)), (L, (FALSE,))):
        h = Text(langs, flags)
        it = factory(h)
        st = walk_state(SELF)
        st.setg("clen", num(0))
        st.setg("hasm", NONE).setg("clang", NONE).setg("flag", NONE).setg("cflag", NONE).setg("left", NONE).setg("below", NONE).setg("nothing", FALSE)
        st.setg("tp", small(0)).setg("tpop", small(0)).setg("tn", small(0)).setg("done", small(0)).setg("lex", FALSE).setg("end", FALSE).setg("exhausted", FALSE).setg("loop", NONE)
        me = Obj(0, c, "self")
        for s, v in it.run_fn(st, FnV(f, None, None, c), {n[0]: me, n[1]: S("lexicon", SELF), n[2]: S("text"), n[3]: sym(T("in", "pos"))}, None, None):
            if isinstance(v, Raised):
                it.oblige("contents", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            if v == NONE:
                ok = s.g("nothing") == TRUE or s.facts.get(("truth", S("lexicon", SELF))) is False \
                    or s.facts.get(("isnone", S("lexicon", SELF))) is True
                it.oblige("contents", ok, f.node, f, s, "no result is returned")
            else:
                it.oblige("contents", verdict(v == S("result", SELF) and s.g("end") == TRUE, v), f.node, f, s, "another result is returned")
        if len(flags) == 2:
            for (name, build), (s0, fn, b) in h.captured.items():
                run_rest(factory, build, s0, fn, b, it)


def run_rest(factory, build, s0, fn, b, outer):
    h = Build() if build else Consume()
    it = factory(h)
    # the names of the enclosing function
    it.env_parent, it.env_locals, it.counter = outer.env_parent, outer.env_locals, outer.counter
    st = s0.copy()
    st.cons = State().cons
    st.facts.clear()
    for k in [k for k in st.vars if k[0] == "ghost"]:
        del st.vars[k]
    st.assume(NLEX - 1)
    st.setg("tpop", num(0)).setg("tn", num(0)).setg("end", FALSE).setg("d", NLEX).setg("low", NLEX)
    st.setg("open", num(0)).setg("due", FALSE).setg("todo", NLEX - 1).setg("lex", TRUE).setg("tree", FALSE).setg("lexicon", FALSE)
    st.facts[("truth", LEXEMES)] = True
    env = next((k[0] for k, v in s0.vars.items() if isinstance(k[0], int) and isinstance(v, FnV) and v.func is fn), None)
    for s, v in it.run_fn(st, FnV(fn, env), b, None, None):
        if isinstance(v, Raised):
            it.oblige("rest", False, fn.node, fn, s, "raises {}".format(v.exc.name))
            continue
        if build:
            x = it.exact_items(s, v) if isinstance(v, (Tup, Obj)) else None
            if x is None or len(x) != 2:
                it.oblige("rest", None, fn.node, fn, s)
                continue
            it.oblige("rest", x[0] == num(0) and s.g("tree") == TRUE and s.g("due") == FALSE, fn.node, fn, s, "another tree is returned")
            v = x[1]
        if v == NONE:
            it.oblige("rest", s.g("end") == TRUE, fn.node, fn, s, "not all events are handled")
            continue
        if build:
            it.oblige("rest", s.entails(-s.g("open") - 1) and s.g("lex") == TRUE, fn.node, fn, s, "the tree ends too early")
            remaining(it, s, h, v, fn.node, "rest", s.g("open") + 1)
        else:
            it.oblige("rest", s.entails(-s.g("low")), fn.node, fn, s, "the contexts are left too early")
            remaining(it, s, h, v, fn.node, "rest", s.g("low"))


# ---------------------------------------------------------------- the result that is kept

TREE, RESULT, BUILDER = S("tree"), S("result of the tree"), S("builder")


def up(n):
    """the parent of the node that is looked at"""
    return B if n == A else A


class Process(Base):
    """ghosts: done (events emitted, in order), known (was the transformation interrupted), kept (the cache has the result), root"""
    opaque = ("Observable.emit", "Transformer.transform_tree")

    def attr(self, it, st, base, name):
        if isinstance(base, Obj) and name == "_cache":
            return CACHE
        if isinstance(base, Obj) and name == "_interrupt":
            return INTERRUPT
        if base == BUILDER and name == "root":
            return TREE
        if name == "parent" and base == st.g("node"):
            return up(base)
        if name == "parent" and base == up(st.g("node")) and st.g("node") != NONE:
            self.node_done(it, st, None)
            self.move(st)
            return up(base)

    def move(self, st):
        st.setg("node", up(st.g("node"))).setg("popped", FALSE)
        for k in [k for k in st.facts if isinstance(k, tuple) and len(k) > 1 and k[1] == up(st.g("node"))]:
            del st.facts[k]
        for k, x in list(st.vars.items()):
            if k[0] != "ghost" and x == up(st.g("node")):
                st.vars[k] = S("stale")

    def node_done(self, it, st, node):
        it.oblige("kept", st.g("popped") == TRUE, node or it.stack[-1].func.node, self.fn(it), st, "the result of a changed context stays in the cache")

    def getitem(self, it, st, base, key, node):
        if base == INTERRUPT and key == TREE:
            if st.g("known") != NONE:
                return [(st, st.g("known"))]
            if st.g("stage") != Const("transformed"):
                return [(st, TRUE), (st.copy(), FALSE)]
            s2 = st.copy()
            return [(st.setg("known", TRUE), TRUE), (s2.setg("known", FALSE), FALSE)]

    def compare(self, it, st, op, a, b, node):
        if op in ("In", "NotIn") and b == CACHE:
            s2 = st.copy()
            if a == st.g("node"):
                s2.setg("popped", TRUE)
            s2.facts["cached", a] = False
            st.facts["cached", a] = True
            return [(st, op == "In"), (s2, op != "In")]

    def setitem(self, it, st, base, key, v, node):
        f = self.fn(it)
        if base == INTERRUPT:
            it.oblige("kept", key == TREE, node, f, st, "another tree is interrupted")
            st.setg("interrupts", v)
            return [(st, None)]
        if base == CACHE:
            it.oblige("kept", key == TREE and v == RESULT, node, f, st, "another result is stored")
            it.oblige("kept", st.g("known") == FALSE, node, f, st, "the result of an interrupted transformation is stored")
            st.setg("kept", TRUE)
            return [(st, None)]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if fn is not None and fn.name == "transform_tree":
            it.oblige("kept", args[-1:] == [TREE], node, f, st, "another tree is transformed")
            it.oblige("told", st.g("done") == Tup([Const("started")]), node, f, st, "the start of the transformation is not told")
            st.setg("stage", Const("transformed"))
            return [(st, RESULT)]
        if label == ".pop" and recv == INTERRUPT and args and args[0] == TREE:
            return self.getitem(it, st, INTERRUPT, TREE, node)
        if label == ".get" and recv == INTERRUPT and args and args[0] == TREE:
            return self.getitem(it, st, INTERRUPT, TREE, node)
        if label == ".pop" and recv == CACHE and args:
            if len(args) < 2 and not st.facts.get(("cached", args[0])):
                s2 = st.copy()
                s2.note(getattr(node, "lineno", 0), "not in the cache")
                rs = [(st, S("cached")), (s2, Raised(Exc("KeyError")))]
            else:
                rs = [(st, S("cached"))]
            for s, v in rs:
                if args[0] == s.g("node"):
                    s.setg("popped", TRUE)
                elif args[0] == up(s.g("node")):
                    self.node_done(it, s, node)
                    self.move(s)
                    s.setg("popped", TRUE)
            return rs
        if fn is not None and fn.name == "emit":
            a = args[1:] if args and isinstance(args[0], Obj) else args
            done = st.g("done").items
            e = a[0].v if a and isinstance(a[0], Const) else None
            if e is None:
                it.oblige("told", None, node, f, st)
                return [(st, NONE)]
            if e in ("started", "finished"):
                it.oblige("told", a[1:] == [TREE], node, f, st, "{} is told of another tree".format(e))
            if e == "updated":
                it.oblige("told", a[1:] == [TREE, RESULT], node, f, st, "another result is told")
                it.oblige("told", st.g("kept") == TRUE, node, f, st, "the result is told before it is there")
            if e in ("started", "updated", "finished"):
                st.setg("done", Tup(done + (Const(e),)))
            return [(st, NONE)]
        if recv == BUILDER and label in (".connect", ".disconnect"):
            b = dict(zip(("event", "slot"), args))
            b.update(kwargs)
            st.setg("calls", Tup(st.g("calls").items + (Tup([b.get("event", NONE), b.get("slot", NONE), b.get("prepend_self", FALSE)]),)))
            return [(st, NONE)]

    def delitem(self, it, st, base, key, node):
        if base == CACHE:
            if key == st.g("node"):
                st.setg("popped", TRUE)
            if st.facts.get(("cached", key)):
                return [(st, None)]
            s2 = st.copy()
            s2.note(getattr(node, "lineno", 0), "not in the cache")
            s2.setg("popped", st.g("popped"))
            return [(st, None), (s2, Raised(Exc("KeyError")))]
        if base == INTERRUPT:
            return [(st, None)]


def process_state():
    st = State()
    st.setg("done", Tup([])).setg("known", NONE).setg("kept", FALSE).setg("stage", NONE).setg("interrupts", NONE).setg("calls", Tup([])).setg("node", NONE).setg("popped", FALSE)
    return st


def processed(it, s, f, node):
    d = [x.v for x in s.g("done").items]
    if s.g("known") == FALSE:
        it.oblige("kept", s.g("kept") == TRUE, node, f, s, "the result is not stored")
        it.oblige("told", d == ["started", "updated", "finished"], node, f, s, "{} is told".format(d))
    elif s.g("known") == TRUE:
        it.oblige("told", d == ["started", "finished"], node, f, s, "{} is told of an interrupted transformation".format(d))
    else:
        it.oblige("kept", False, node, f, s, "it is not asked whether the transformation was interrupted")


def run_process(factory, P):
    c = P.cls("transform.Transformer")
    me = Obj(0, c, "self")
    for name in ("process", "build"):
        f = c.find_method(name)
        it = factory(Process())
        for s, v in it.run_fn(process_state(), FnV(f, None, None, c), dict(zip(f.arg_names(), (me, TREE))), None, None):
            if isinstance(v, Raised):
                it.oblige("told", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            processed(it, s, f, f.node)


def run_connect(factory, P):
    c = P.cls("transform.Transformer")
    me = Obj(0, c, "self")
    calls = {}
    for name in ("connect_treebuilder", "disconnect_treebuilder"):
        f = c.find_method(name)
        it = factory(Process())
        for s, v in it.run_fn(process_state(), FnV(f, None, None, c), dict(zip(f.arg_names(), (me, BUILDER))), None, None):
            if isinstance(v, Raised):
                it.oblige("connected", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            x = {}
            for e, slot, pre in (t.items for t in s.g("calls").items):
                if not isinstance(e, Const) or not isinstance(slot, FnV):
                    it.oblige("connected", None, f.node, f, s)
                    return
                it.oblige("connected", slot.self_ == me, f.node, f, s, "a method of another object is connected")
                x[e.v, slot.func.name] = (slot, pre)
            if name[0] == "c":
                calls = x
                for ev, what in (("replace", "interrupted"), ("finished", "started again"), ("invalidate", "told which contexts are invalid")):
                    it.oblige("connected", any(k[0] == ev for k in x), f.node, f, s, "the transformation is not {}".format(what))
            else:
                for k in calls:
                    it.oblige("connected", k in x, f.node, f, s, "the connection of {} with {} stays".format(*k))
    h = None
    for (e, name), (slot, pre) in sorted(calls.items()):
        f = slot.func
        it = factory(Process())
        st = process_state()
        node = A
        args = ([BUILDER] if pre == TRUE else []) + ([node] if e == "invalidate" else [])
        st.setg("node", node)
        n = f.arg_names()
        if len(n) != len(args) + 1:
            it.oblige("connected", False if len(n) - len(f.node.args.defaults) > len(args) + 1 or len(n) < len(args) + 1 and not f.node.args.vararg else None,
                      f.node, f, st, "{} is called with {} arguments".format(name, len(args)))
            continue
        for s, v in it.run_fn(st, FnV(f, None, None, c), dict(zip(n, [me] + args)), None, None):
            if isinstance(v, Raised):
                it.oblige("kept", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            if e == "replace":
                it.oblige("kept", s.g("interrupts") == TRUE, f.node, f, s, "a running transformation is not interrupted when the tree is replaced")
            elif e == "finished":
                processed(it, s, f, f.node)
            elif e == "invalidate":
                x = up(s.g("node"))
                root = s.facts.get(("truth", x)) is False or s.facts.get(("isnone", x)) is True
                it.oblige("kept", root, f.node, f, s, "the results of the contexts around a changed one stay in the cache")


class Mark(Base):
    """what the decorator notes with a function, and what the transformer looks for"""
    def setattr(self, it, st, base, name, val, node):
        if base == S("function"):
            st.setg("mark", Tup([Const(name), val]))
            return [(st, None)]

    def attr(self, it, st, base, name):
        if base == S("method") and name == "__func__":
            return S("function")

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == "setattr" and args[:1] == [S("function")] and len(args) == 3:
            st.setg("mark", Tup(args[1:]))
            return [(st, NONE)]
        if label == "getattr" and args[:1] in ([S("function")], [S("method")]) and len(args) == 3:
            m = st.g("mark")
            return [(st, m.items[1] if m != NONE and m.items[0] == args[1] else args[2])]


def run_mark(factory, P):
    deco, allow = P.func("transform.add_untransformed"), P.func("transform._allow_untransformed")
    it = factory(Mark())
    for marked in (True, False):
        st = State()
        st.setg("mark", NONE)
        r = [(st, None)]
        if marked:
            r = it.run_fn(st, FnV(deco), {deco.arg_names()[0]: S("function")}, None, None)
        for s, v in r:
            if marked:
                it.oblige("marked", v == S("function"), deco.node, deco, s, "the decorator returns something else")
            for s2, v2 in it.run_fn(s, FnV(allow), {allow.arg_names()[0]: S("method")}, None, None):
                it.oblige("marked", v2 == Const(marked), allow.node, allow, s2,
                          "a method {} untransformed contexts".format("that wants them gets no" if marked else "that does not want them gets"))


ROOT, TEXT, POS, TR = S("root lexicon"), S("text"), S("pos"), S("a transform")


class Call(Base):
    opaque = ("Transformer.transform_tree", "Transformer.transform_text", "Transformer.add_transform")

    def attr(self, it, st, base, name):
        if base == TREE and name == "lexicon":
            return ROOT
        if base == ROOT and name == "language":
            return L[0]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if fn is None or fn.name not in ("transform_tree", "transform_text", "add_transform"):
            if label.endswith("Transformer"):
                st.setg("made", TRUE)
                return [(st, Obj(1, it.program.cls("transform.Transformer"), "transformer"))]
            return None
        b = dict(zip(fn.arg_names(), args))
        if len(b) and next(iter(b.values())) != Obj(1, None, ""):
            b = dict(zip(fn.arg_names()[1:], args))
        b.update(kwargs)
        b.pop("self", None)
        b = list(b.values())
        if fn.name == "add_transform":
            it.oblige("called", b == [L[0], TR], node, f, st, "the transform is added for another language")
            st.setg("added", TRUE)
            return [(st, NONE)]
        want = [TREE] if fn.name == "transform_tree" else [ROOT, TEXT, POS]
        it.oblige("called", b == want, node, f, st, "other arguments are passed on")
        it.oblige("called", st.g("added") == TRUE or st.g("given") == FALSE, node, f, st, "the given transform is not used")
        return [(st, S("the result"))]


def run_called(factory, P):
    for name, b in (("transform_tree", dict(tree=TREE)), ("transform_text", dict(root_lexicon=ROOT, text=TEXT, pos=POS))):
        f = P.func("transform." + name)
        for given in (TRUE, FALSE):
            it = factory(Call())
            st = State()
            st.setg("added", FALSE).setg("given", given)
            if given == TRUE:
                st.facts[("truth", TR)] = True
                st.facts[("isnone", TR)] = False
            for s, v in it.run_fn(st, FnV(f), dict(b, transform=TR if given == TRUE else NONE), None, None):
                it.oblige("called", v == S("the result"), f.node, f, s, "another result is returned")


def run(ctx):
    P = ctx.program
    ctx.rule("contents", "a method is called with all tokens and results of its context, in order, and nothing else")
    ctx.rule("methods", "methods are looked up in the transform of the language of the context")
    ctx.rule("cache", "only the result of a context is stored in the cache for it")
    ctx.rule("rest", "contexts without method are passed over or handed over as a whole, up to where they end")
    ctx.rule("kept", "a result is kept if the transformation was not interrupted, until its context or one in it changes")
    ctx.rule("told", "the start, the result and the end of a transformation are told, in that order")
    ctx.rule("connected", "a transformer follows the builder it is connected with, until it is disconnected")
    ctx.rule("marked", "the methods that are marked get untransformed contexts, others do not")
    ctx.rule("called", "the functions use the given transform for the language of the root")
    for r in (run_mark, run_called, run_process, run_connect, run_tree, run_text):
        ctx.analyse(lambda factory, r=r: r(factory, P), budget=400000)
    for r in ctx.rules:
        ctx.floor(r, 1)
