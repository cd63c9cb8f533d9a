"""P02: the lexer's stack of lexicons and the targets in its events agree."""
import ast
from pa.interp import *
from pa import model
from .seglist import Segs, seg, same, length, cut

PUSH = T("in", "push0")
POP = sym(T("in", "pop0"))
TPUSH = T("in", "target push")
TPOP = sym(T("in", "target pop"))


def target_type(it, P):
    m = P.modules.get("parce.target") or P.modules.get("target")
    for name, mod in P.modules.items():
        if name.split(".")[-1] == "target" and "lang" not in name:
            m = mod
    v = it.to_value(State(), P.resolve(m, "Target"), m, "Target")
    return v if isinstance(v, NTV) else None


# ---------------------------------------------------------------- TargetFactory

class TF(Segs):
    opaque = ()

    def __init__(self, me, push):
        self.me, self.pushobj = me, push

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        return self.seg_call(it, st, label, recv, args, node)


def factory_run(factory, P, name, mkargs, verify):
    c = P.cls("target.TargetFactory")
    f = c.find_method(name)
    if f is None:
        raise model.AnchorLost("TargetFactory." + name)
    me = Obj(0, c, "self")
    pushobj = Obj(1, "list", "push")
    h = TF(me, pushobj)
    it = factory(h)
    st = State()
    n0 = sym(T("len", PUSH, 0))
    st.assume(n0, -POP, sym(T("len", TPUSH, 0)), -TPOP)
    popname, pushname = fields(factory, P)
    if popname is None:
        it.oblige("factory", None, f.node, f, st)
        return
    st.heap[(me, popname)] = POP
    st.heap[(me, pushname)] = pushobj
    h.put(st, pushobj, [seg(PUSH, num(0), n0)])
    a = f.arg_names()
    bound = {a[0]: me}
    bound.update(mkargs(it, st, a, f))
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), bound, None, None):
        if isinstance(v, Raised):
            it.oblige("factory", None, f.node, f, s, v.exc.name)
            continue
        p = it.as_lin(s, s.heap.get((me, popname), NONE))
        po = s.heap.get((me, pushname))
        segs = h.segs(it, s, po) if po is not None else None
        verify(it, s, v, f, p, segs, n0, h)


def fields(factory, P):
    """The attributes with the number to pop and the list to push."""
    c = P.cls("target.TargetFactory")
    f = c.find_method("__init__")
    me = Obj(0, c, "self")
    it = factory(Hooks())
    r = it.run_fn(State(), FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None)
    pop = push = None
    for s, v in r[:1]:
        for (o, k), x in s.heap.items():
            if o == me and x == num(0):
                pop = k
            elif o == me and isinstance(x, Obj):
                push = k
    return (pop, push) if pop and push else (None, None)


def composed(it, s, f, p, segs, n0, tpop, tsegs, what):
    """The state must be (POP, PUSH) followed by (tpop, tsegs)."""
    if p is None or segs is None:
        it.oblige("compose", None, f.node, f, s)
        return
    for deep in (True, False):
        s2 = s.copy().assume(-(n0 + tpop) - 1) if deep else s.copy().assume(n0 + tpop)
        if s2 is None:
            continue
        if deep:
            exp_p, exp = POP + n0 + tpop, []
        else:
            exp_p, exp = POP, [seg(PUSH, num(0), n0 + tpop)]
        exp = exp + tsegs
        it.oblige("compose", s2.entails_eq(p - exp_p), f.node, f, s2,
                  "{}: {} lexicons to leave instead of {}".format(what, p, exp_p))
        it.oblige("compose", same(s2, segs, exp), f.node, f, s2, "{}: enters {} instead of {}".format(what, segs, exp))


def run_factory(factory, P):
    def add_args(it, st, a, f):
        nt = target_type(it, P)
        t = Tup((TPOP, TPUSH), nt)
        return {a[1]: t}

    def add_v(it, s, v, f, p, segs, n0, h):
        composed(it, s, f, p, segs, n0, TPOP, [seg(TPUSH, num(0), sym(T("len", TPUSH, 0)))], "adding a target")
    factory_run(factory, P, "add", add_args, add_v)

    def none_v(it, s, v, f, p, segs, n0, h):
        it.oblige("compose", p == POP and same(s, segs, [seg(PUSH, num(0), n0)]), f.node, f, s, "adding no target changes the state")
    factory_run(factory, P, "add", lambda it, st, a, f: {a[1]: NONE}, none_v)

    def pop_v(it, s, v, f, p, segs, n0, h):
        composed(it, s, f, p, segs, n0, TPOP, [], "leaving lexicons")
    factory_run(factory, P, "pop", lambda it, st, a, f: {a[1]: TPOP}, pop_v)

    def push_args(it, st, a, f):
        va = f.node.args.vararg
        if va is None:
            raise model.AnchorLost("TargetFactory.push(*lexicons)")
        return {va.arg: TPUSH}

    def push_v(it, s, v, f, p, segs, n0, h):
        composed(it, s, f, p, segs, n0, num(0), [seg(TPUSH, num(0), sym(T("len", TPUSH, 0)))], "entering lexicons")
    factory_run(factory, P, "push", push_args, push_v)

    def get_v(it, s, v, f, p, segs, n0, h):
        if p is None or segs is None:
            it.oblige("get", None, f.node, f, s)
            return
        it.oblige("get", s.entails_eq(p) and same(s, segs, []), f.node, f, s,
                  "after taking the target, {} and {} are left to be taken again".format(p, segs))
        if v == NONE:
            it.oblige("get", s.entails_eq(POP) and s.entails_eq(n0), f.node, f, s, "no target is returned although lexicons are left or entered")
        elif isinstance(v, Tup) and len(v.items) == 2:
            g = it.as_lin(s, v.items[0])
            x = h.segs(it, s, v.items[1]) if not isinstance(v.items[1], Obj) or (v.items[1], "#segs") not in s.heap else None
            it.oblige("get", g is not None and s.entails_eq(g - POP), f.node, f, s, "the target leaves {} lexicons".format(g))
            it.oblige("get", x is not None and same(s, x, [seg(PUSH, num(0), n0)]), f.node, f, s, "the target enters {}".format(x))
        else:
            it.oblige("get", None, f.node, f, s)
    factory_run(factory, P, "get", lambda it, st, a, f: {}, get_v)


class Make(Hooks):
    """TargetFactory.make: every item of the rule has its effect, in order."""
    opaque = ("TargetFactory.push", "TargetFactory.pop", "TargetFactory.get", "TargetFactory.add", "TargetFactory.__init__")

    def __init__(self, lexicon, rule):
        self.lexicon, self.rule = lexicon, rule

    def iter_start(self, it, st, seq, node):
        if seq == self.rule:
            self.reset(st)
        elif seq == T("reversed", self.rule):
            it.oblige("make", False, node, it.stack[-1].func if it.stack else None, st, "the targets of a rule are followed in another order")

    def reset(self, st):
        st.setg("kind", Const("")).setg("own", num(0)).setg("down", num(0)).setg("it", num(0)).setg("odd", FALSE)

    def iter_elem(self, it, st, seq, k, elem, node):
        if seq != self.rule:
            return None
        out = []
        for kind in ("int", "lexicon"):
            s = st.copy()
            e = T("rule item", kind, next(it.counter))
            v = sym(e) if kind == "int" else e
            self.reset(s)
            s.setg("kind", Const(kind)).setg("item", v)
            s.facts[("isnone", e)] = False
            out.append((s, v))
        return out

    def iter_next(self, it, st, seq, k, elem, node):
        if seq != self.rule:
            return
        f = it.stack[-1].func if it.stack else None
        v = st.g("item")
        own, down, itm = (it.as_lin(st, st.g(x)) for x in ("own", "down", "it"))
        if st.g("odd") == TRUE or own is None or down is None or itm is None:
            it.oblige("make", None, node, f, st, "not known what is entered or left")
            return
        what = "enters its own lexicon {} times, the one in the rule {} times, and leaves {}".format(own, itm, down)
        if st.g("kind") == Const("lexicon"):
            it.oblige("make", st.entails_eq(own) and st.entails_eq(down) and st.entails_eq(itm - 1), node, f, st, "a lexicon in a rule " + what)
            return
        for lo in (1, -1, 0):
            s = st.copy()
            s = s.assume(v - 1) if lo == 1 else s.assume(-v - 1) if lo == -1 else s.assume_eq(v)
            if s is None:
                continue
            ok = s.entails_eq(own - (v if lo == 1 else num(0))) and s.entails_eq(down - (v if lo == -1 else num(0))) and s.entails_eq(itm)
            it.oblige("make", ok, node, f, s, "a {} number in a rule {}".format({1: "positive", -1: "negative", 0: "zero"}[lo], what))

    def count(self, it, st, name, n):
        old = it.as_lin(st, st.g(name))
        if n is None or old is None:
            st.setg("odd", TRUE)
        else:
            st.setg(name, old + n)

    def entered(self, it, st, v):
        if isinstance(v, Term) and v.op == "star":
            v = v.args[0]
            x = it.exact_items(st, v)
            if x is not None:
                for y in x:
                    self.entered(it, st, y)
            elif isinstance(v, Term) and v.op == "repeat" and v.args[0] == self.lexicon:
                self.count(it, st, "own", it.as_lin(st, v.args[1]))
            else:
                st.setg("odd", TRUE)
        elif v == self.lexicon:
            self.count(it, st, "own", num(1))
        elif v == st.g("item") and st.g("kind") == Const("lexicon"):
            self.count(it, st, "it", num(1))
        else:
            st.setg("odd", TRUE)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == "reversed" and args and args[0] == self.rule:
            return [(st, T("reversed", self.rule))]
        if label.endswith("repeat") and len(args) == 2:
            n = it.as_lin(st, args[1])
            if n is not None:
                return [(st, T("repeat", args[0], n))]
        if label.endswith("TargetFactory.push") or label.endswith(".push"):
            for v in args:
                self.entered(it, st, v)
            return [(st, NONE)]
        if label.endswith("TargetFactory.pop") or label.endswith(".pop"):
            self.count(it, st, "down", it.as_lin(st, args[0]) if args else num(-1))
            return [(st, NONE)]
        if label.endswith("TargetFactory.get"):
            st.setg("gets", TRUE)
            return [(st, T("got"))]
        if label == "isinstance" and args:
            v = args[0]
            k = st.g("kind")
            if v == st.g("item") and k is not None and isinstance(args[1], ExtV) and args[1].name == "int":
                return [(st, TRUE if k == Const("int") else FALSE)]

    def compare(self, it, st, op, a, b, node):
        return None


def run_make(factory, P):
    c = P.cls("target.TargetFactory")
    f = c.find_method("make")
    rule, lexicon = T("in", "rule"), T("in", "lexicon")
    h = Make(lexicon, rule)
    it = factory(h)
    a = f.arg_names()
    st = State()
    st.facts[("isnone", lexicon)] = False
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {a[0]: ClsV(c), a[1]: lexicon, a[2]: rule}, None, None):
        if isinstance(v, Raised):
            it.oblige("make", None, f.node, f, s)
            continue
        if v == NONE:
            t = s.facts.get(("truth", rule))
            it.oblige("make", t is False or s.entails_eq(sym(T("len", rule, 0))), f.node, f, s, "a rule with targets gives no target")
        else:
            it.oblige("make", v == T("got"), f.node, f, s, "the target returned is not what was collected")


# ---------------------------------------------------------------- Lexer.events

class Ev(Segs):
    """One run of Lexer.events(). Ghosts:

    cut, ext, add   what was done to the stack and told to the target factory for the current item
    item            the current item: (pos, len, target kind)
    ev              how many events were yielded for the current item
    want            where parsing must go on
    """
    opaque = ("TargetFactory.add", "TargetFactory.get", "TargetFactory.__init__", "replace")

    def __init__(self, P, me, stack, text):
        self.P, self.me, self.stack, self.text = P, me, stack, text
        self.total = sym(T("len", text, 0))
        self.nt = None

    def fn(self, it):
        for f in reversed(it.stack):
            if f.func is not None:
                return f.func

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if label.endswith("TargetFactory.add") or label.endswith(".add") and isinstance(recv, Obj) and isinstance(recv.cls, model.Class):
            it.oblige("told", st.g("add") == NONE, node, f, st, "a target is reported twice")
            st.setg("add", args[0])
            return [(st, NONE)]
        if label.endswith("TargetFactory.get"):
            it.oblige("told", st.g("held") != TRUE, node, f, st, "a target that was taken is not put in an event")
            st.setg("held", TRUE)
            return [(st, T("got", st.g("cut"), st.g("ext"), st.g("add")))]
        if label == ".parse" and len(args) == 2:
            it.oblige("top", recv == T("top"), node, f, st, "not the lexicon on top of the stack is used")
            if recv == T("top"):
                it.oblige("top", self.clean(it, st), node, f, st, "the stack changed without being told, or the other way around")
            a = it.as_lin(st, args[1])
            w = st.g("want")
            it.oblige("resume", a is not None and w is not None and st.entails_eq(a - it.as_lin(st, w)), node, f, st,
                      "lexing continues at {} instead of {}".format(a, w))
            return [(st, T("parsed", a if a is not None else NONE))]
        if label == ".replace" and len(args) == 4:
            i = st.g("item")
            ok = isinstance(i, Tup) and it.as_lin(st, args[1]) == i.items[0] and args[2] == i.items[1] and args[3] == i.items[3] and recv == i.items[2]
            it.oblige("lexeme", ok, node, f, st, "an action is asked to replace ({}, {})".format(args[1], args[2]))
            return [(st, T("replaced", NONE))]
        if label == "tuple" and args and isinstance(args[0], Term) and args[0].op == "replaced":
            s2 = st.copy()
            t = T("lexemes of", NONE)
            st.facts[("truth", t)] = True
            s2.setg("ev", num(1))       # nothing to yield
            return [(st, t), (s2, Tup(()))]
        if label == "isinstance" and args and isinstance(args[0], Term) and args[0].op == "action of":
            k = ("isinstance", args[0])
            if k in st.facts:
                return [(st, TRUE if st.facts[k] else FALSE)]
            s2 = st.copy()
            st.facts[k] = True
            s2.facts[k] = False
            return [(st, TRUE), (s2, FALSE)]
        if label in (".add", ".clear", ".discard", ".remove") and isinstance(recv, Obj) and recv.cls == "set":
            if label == ".add":
                st.setg("noted", TRUE)
            elif label == ".clear":
                st.setg("circ_known", FALSE)
            return [(st, NONE)]
        if isinstance(recv, Obj) and recv == self.stack:
            if label == ".extend" and args:
                it.oblige("told", st.g("ext") == NONE, node, f, st, "lexicons are entered twice")
                st.setg("ext", args[0] if isinstance(args[0], (Term, V)) else NONE)
            elif label == ".pop":
                st.setg("cut", num(-1))
            elif label in (".append", ".insert", ".remove", ".clear"):
                st.unk = st.unk + ("stack",)
        if label == "len" and args and isinstance(args[0], Term) and args[0].op == "txt":
            return [(st, sym(T("len", args[0], 0)))]
        return self.seg_call(it, st, label, recv, args, node)

    def clean(self, it, st):
        """What was done to the stack and what was told agree."""
        c, e, a = st.g("cut"), st.g("ext"), st.g("add")
        if a == NONE:
            return (c == NONE or it.as_lin(st, c) is not None and st.entails_eq(it.as_lin(st, c))) and (e == NONE)
        if not isinstance(a, Tup):
            return None
        p = it.as_lin(st, a.items[0])
        if c == NONE:
            okc = st.entails_eq(p)
        else:
            okc = st.entails_eq(it.as_lin(st, c) - p)
        if e == NONE:
            n = it.len_of(st, a.items[1])
            oke = n is not None and st.entails_eq(n)
        else:
            oke = e == a.items[1]
        return okc and oke

    def settle(self, it, st, node, f, restart):
        """The current item is done with."""
        i = st.g("item")
        if i is None or i == NONE:
            return
        pos, txt, action, match, has = i.items
        n = sym(T("len", txt, 0))
        it.oblige("told", st.g("held") != TRUE, node, f, st, "a target that was taken is not put in an event")
        st.setg("held", NONE)
        ev = it.as_lin(st, st.g("ev"))
        for empty in (True, False):
            s = st.copy().assume_eq(n) if empty else st.copy().assume(n - 1)
            if s is None:
                continue
            it.oblige("lexeme", s.entails_eq(ev) if empty else s.entails_eq(ev - 1), node, f, s,
                      "{} events for {} token".format(ev, "an empty" if empty else "a"))
        it.oblige("told", self.clean(it, st), node, f, st,
                  "the stack changed by {} and {}, but {} is reported".format(st.g("cut"), st.g("ext"), st.g("add")))
        if has == TRUE:
            a = st.g("add")
            # the target is followed, or it is one that leads nowhere, at an empty match
            if a == NONE:
                t = st.g("target")
                lim = it.as_lin(st, st.g("depth"))
                skip = isinstance(t, Tup) and s_eq_min(st, num(0), it.as_lin(st, t.items[0]), lim) \
                    and st.entails_eq(it.len_of(st, t.items[1])) and st.entails_eq(n)
                it.oblige("told", skip, node, f, st, "a target is not followed")
            elif isinstance(a, Tup) and isinstance(st.g("target"), Tup):
                it.oblige("told", a.items[1] == st.g("target").items[1], node, f, st, "other lexicons are entered")
                q = it.as_lin(st, a.items[0])
                p = it.as_lin(st, st.g("target").items[0])
                lim = it.as_lin(st, st.g("depth"))
                ok = s_eq_min(st, q, p, lim)
                it.oblige("told", ok, node, f, st, "{} lexicons are left instead of {} (depth {})".format(q, p, lim))
            if restart:
                st.setg("want", pos + n)
                v = self.posvar(it, st)
                if v is not None and st.entails_eq(n) and st.entails_eq(v - pos - 1):
                    # skips a character: only where the lexer would stay there forever
                    stuck = st.g("circ") == TRUE or st.g("add") == NONE
                    it.oblige("resume", stuck, node, f, st, "a character is skipped")
                    st.setg("want", pos + 1)
                elif st.entails_eq(n):
                    # stays: noted for the next time, or the stack has become smaller
                    t = st.g("add")         # as far as it was followed
                    smaller = isinstance(t, Tup) and st.entails(-it.as_lin(st, t.items[0]) - 1) and st.entails_eq(it.len_of(st, t.items[1]))
                    it.oblige("stuck", st.g("noted") == TRUE or smaller, node, f, st,
                              "an empty match is followed without noting it: lexing may never end")
        st.setg("cut", NONE).setg("ext", NONE).setg("add", NONE)

    def posvar(self, it, st):
        """The position lexing goes on with (the variable that was given to parse())."""
        fr = it.stack[-1]
        return it.as_lin(st, it.lookup(st, fr, self.posname)) if self.posname else None

    def compare(self, it, st, op, a, b, node):
        if op in ("In", "NotIn") and isinstance(b, Obj) and b.cls == "set":
            s2 = st.copy()
            st.setg("circ", TRUE)
            s2.setg("circ", FALSE)
            return [(st, op == "In"), (s2, op != "In")]

    def getitem(self, it, st, base, key, node):
        if base == self.stack and key == num(-1):
            return [(st, T("top"))]
        if isinstance(base, Term) and base.op == "push" and key == num(-1):
            return [(st, T("last of", base))]
        return Segs.getitem(self, it, st, base, key, node)

    def attr(self, it, st, base, name):
        if base == self.me and name == "lexicons":
            return self.stack
        if isinstance(base, Term) and base.op == "last of" and name == "consume":
            return T("consume", base.args[0])

    def delitem(self, it, st, base, key, node):
        if base == self.stack and isinstance(key, SliceV):
            f = self.fn(it)
            p = it.as_lin(st, key.lo) if key.lo not in (None, NONE) else num(0)
            n = it.len_of(st, base)
            if p is not None and n is not None and st.entails_eq(p - n):
                return [(st, None)]     # nothing
            if key.hi not in (None, NONE):
                st.unk = st.unk + ("stack",)
            e = st.g("ext")
            if e not in (None, NONE):
                m = it.len_of(st, e)
                it.oblige("told", m is not None and st.entails_eq(m), node, f, st, "lexicons that were just entered are left again")
            st.setg("cut", p if p is not None else NONE)
            if p is not None and n is not None:
                it.oblige("root", st.entails(n + p - 1) and st.entails(-p - 1), node, f, st, "the root lexicon may be left")
                st.heap[(base, "#len")] = n + p
                self.put(st, base, [seg(it.fresh("stack"), num(0), n + p)])
            return [(st, None)]

    def setitem(self, it, st, base, key, val, node):
        if base == self.stack:
            # lexicons[pop:] = push
            if isinstance(key, SliceV) and key.hi in (None, NONE):
                r = self.delitem(it, st, base, key, node)
                st.setg("ext", val if isinstance(val, (Term, V)) else NONE)
                n = it.len_of(st, val)
                l = it.len_of(st, base)
                if n is not None and l is not None:
                    self.put(st, base, [seg(it.fresh("stack"), num(0), l + n)])
                return r
            st.unk = st.unk + ("stack",)
            return [(st, None)]

    def iter_start(self, it, st, seq, node):
        if isinstance(seq, Term) and seq.op == "parsed":
            st.setg("from", seq.args[0])

    def iter_elem(self, it, st, seq, k, elem, node):
        if not (isinstance(seq, Term) and seq.op == "parsed"):
            return None
        c = next(it.counter)
        pos, txt, action, match = sym(T("p", c)), T("txt", c), T("action of", c), T("match of", c)
        n = sym(T("len", txt, 0))
        frm = it.as_lin(st, st.g("from"))
        st.facts[("isnone", txt)] = False
        st.assume(pos - frm, n, self.total - pos - n)
        st.setg("from", pos + n)
        out = []
        for has in (True, False):
            s = st.copy()
            if has:
                push, pop = T("push", c), sym(T("pop", c))
                t = Tup((pop, push), self.nt)
                ln = sym(T("len", push, 0))
                s.assume(-pop, ln)
                s.facts[("isnone", push)] = False
                # a target does something
                s.setg("target", t)
                for case in (0, 1):
                    s2 = s.copy()
                    s2 = s2.assume(-pop - 1) if case else s2.assume_eq(pop).assume(ln - 1)
                    self.fresh_item(it, s2, Tup((pos, txt, action, match, TRUE)))
                    out.append((s2, Tup((pos, txt, match, action, t))))
            else:
                s.setg("target", NONE)
                self.fresh_item(it, s, Tup((pos, txt, action, match, FALSE)))
                out.append((s, Tup((pos, txt, match, action, NONE))))
        return out

    def fresh_item(self, it, s, item):
        s.setg("item", item).setg("ev", num(0)).setg("cut", NONE).setg("ext", NONE).setg("add", NONE)
        s.setg("circ", FALSE).setg("noted", FALSE).setg("d", num(0)).setg("depth", it.len_of(s, self.stack))

    def iter_done(self, it, st, seq, k, node):
        if isinstance(seq, Term) and seq.op == "parsed":
            self.reset(st)
            return [st]

    def iter_next(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and seq.op == "parsed":
            self.settle(it, st, node, self.fn(it), False)
            self.reset(st)

    def iter_break(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and seq.op == "parsed":
            self.settle(it, st, node, self.fn(it), True)
            st.setg("from", num(0))
            self.reset(st)
            if self.covered(it, st):
                return "covered"

    def covered(self, it, st):
        """Lexing goes on as from an arbitrary position with an arbitrary stack, where the analysis started."""
        w, v = it.as_lin(st, st.g("want")), self.posvar(it, st)
        n = it.len_of(st, self.stack)
        return w is not None and v is not None and n is not None and st.entails_eq(w - v) \
            and st.entails(v) and st.entails(self.total - v) and st.entails(n - 1)

    def reset(self, st):
        st.setg("item", NONE).setg("ev", num(0)).setg("cut", NONE).setg("ext", NONE).setg("add", NONE)
        st.setg("circ", FALSE).setg("noted", FALSE).setg("d", num(0)).setg("depth", num(0)).setg("target", NONE)
        st.setg("held", NONE)

    def on_yield(self, it, st, func, v, node):
        f = self.fn(it)
        if func is not self.main:
            return None
        st = st.copy()
        i = st.g("item")
        if not isinstance(v, Tup) or len(v.items) != 2 or not isinstance(i, Tup):
            it.oblige("lexeme", None, node, f, st)
            return st
        tg, lx = v.items
        pos, txt, action, match, has = i.items
        st.setg("ev", it.as_lin(st, st.g("ev")) + 1)
        if isinstance(lx, Term) and lx.op == "lexemes of":
            pass
        else:
            x = it.exact_items(st, lx)
            ok = None
            if x is not None:
                ok = len(x) == 1 and isinstance(x[0], Tup) and x[0].items == (pos, txt, action)
            it.oblige("lexeme", ok, node, f, st, "an event with {} for the token ({}, {})".format(lx, pos, txt))
        st.setg("held", NONE)
        it.oblige("told", isinstance(tg, Term) and tg.op == "got", node, f, st, "the event does not carry the changes of the stack")
        # the order of stack change and event
        if isinstance(tg, Term) and tg.op == "got" and has == TRUE:
            push = st.g("target").items[1]
            applied = tg.args[2] != NONE
            con = st.facts.get(("truth", T("consume", push)))
            empty = st.entails_eq(sym(T("len", push, 0)))
            if applied:
                it.oblige("consume", con is True, node, f, st, "the token is put in a lexicon that does not consume it")
            else:
                it.oblige("consume", con is False or empty, node, f, st, "the token is not put in the lexicon that consumes it")
        return st


def s_eq_min(st, q, p, depth):
    """q == max(p, 1 - depth)."""
    s1 = st.copy().assume(p - (num(1) - depth))
    if s1 is not None and not s1.entails_eq(q - p):
        return False
    s2 = st.copy().assume((num(1) - depth) - p - 1)
    if s2 is not None and not s2.entails_eq(q - (num(1) - depth)):
        return False
    return True


def run_events(factory, P):
    c = P.cls("lexer.Lexer")
    f = c.find_method("events")
    me = Obj(0, c, "self")
    stack = Obj(1, "list", "stack")
    text = T("in", "text")
    h = Ev(P, me, stack, text)
    h.main = f
    h.posname = None
    # variables that are assigned by the inner loop before they are used
    h.loopvars = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple):
            h.loopvars.update(x.id for x in n.target.elts if isinstance(x, ast.Name))
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "parse" and len(n.args) == 2 \
                and isinstance(n.args[1], ast.Name):
            h.posname = n.args[1].id
    it = factory(h)
    h.nt = target_type(it, P)
    st = State()
    pos0 = sym(T("in", "pos"))
    n0 = sym(T("in", "depth"))
    st.assume(pos0, h.total - pos0, n0 - 1, h.total)
    h.put(st, stack, [seg(T("in", "stack"), num(0), n0)])
    a = f.arg_names()
    st.setg("want", pos0).setg("item", NONE).setg("ev", num(0)).setg("cut", NONE).setg("ext", NONE).setg("add", NONE)
    st.setg("circ", FALSE).setg("noted", FALSE).setg("d", num(0)).setg("depth", n0).setg("target", NONE).setg("from", pos0)
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {a[0]: me, a[1]: text, a[2]: pos0}, None, None):
        pass


def run(ctx):
    P = ctx.program
    ctx.rule("compose", "collected targets are the composition of the single ones")
    ctx.rule("get", "taking the collected target gives it completely, once")
    ctx.rule("make", "every number and lexicon in a rule has its documented effect, in order")
    ctx.rule("root", "the root lexicon is never left")
    ctx.rule("told", "every change of the stack is reported in the events exactly")
    ctx.rule("top", "the lexicon on top of the stack is the one that lexes")
    ctx.rule("resume", "lexing goes on after the last token")
    ctx.rule("stuck", "empty matches are noted, so that the lexer does not follow them forever")
    ctx.rule("lexeme", "every token that is not empty is in one event, with its position, text and action")
    ctx.rule("consume", "a token that leads into a consuming lexicon is its first token, otherwise it stays in the current one")
    ctx.analyse(lambda fa: run_factory(fa, P))
    ctx.analyse(lambda fa: run_make(fa, P))
    ctx.analyse(lambda fa: run_events(fa, P), budget=300000)
    ctx.floor("compose", 3)
    ctx.floor("told", 1)
