"""P28: events reach every connected callback, once, in order."""
import ast
from pa.interp import *
from pa import model

UNK = Const("?")
EVENT, FUNC, ONCE, PREP = T("in", "event"), T("in", "func"), T("in", "once"), T("in", "prepend_self")
PRIO = sym(T("in", "priority"))
SLOTS, OTHER, SNAP = T("slots"), T("other slots"), T("snapshot")
ARGS, KW = T("in", "args"), T("in", "kwargs")


def term_of(v):
    return v


class Obs(Hooks):
    """The dictionary of callbacks and the list of one event.

    Ghosts: present (the event has a list: None, "SLOTS", "OTHER", "none"), in (is the
    observer in the list), elem, called, removed, entered, done, inserted.
    """
    opaque = ("_Observer.__init__",)

    def __init__(self, P, me, table):
        self.P, self.me, self.table = P, me, table
        self.init = P.cls("util._Observer").find_method("__init__")

    def fn(self, it):
        for f in reversed(it.stack):
            if f.func is not None:
                return f.func

    def cb(self, v):
        return v == T("callbacks")

    def attr(self, it, st, base, name):
        if base == self.me and name == self.table:
            return T("callbacks")
        if base == st.g("elem") and base != NONE and name == "once":
            return T("once of", 1 if st.g("called") == TRUE else 0)

    def lookup(self, it, st, node):
        """[(state, SLOTS | OTHER | None)]"""
        p = st.g("present")
        if p != UNK:
            return [(st, {"SLOTS": SLOTS, "OTHER": OTHER, "none": None}[p.v])]
        out = []
        kinds = ("SLOTS", "OTHER", "none") if st.g("later") == TRUE else ("SLOTS", "none")
        for k in kinds:
            s = st.copy().setg("present", Const(k))
            s.note(getattr(node, "lineno", 0), {"SLOTS": "callbacks", "OTHER": "other callbacks", "none": "no callbacks"}[k])
            out.append((s, {"SLOTS": SLOTS, "OTHER": OTHER, "none": None}[k]))
        return out

    def getitem(self, it, st, base, key, node):
        if self.cb(base) and key == EVENT:
            return [(s, Raised(Exc("KeyError")) if v is None else v) for s, v in self.lookup(it, st, node)]
        if base == SLOTS and isinstance(key, SliceV) and key.lo == NONE and key.hi == NONE and key.step == NONE:
            return [(st, SNAP)]

    def delete(self, it, st, node):
        f = self.fn(it)
        t = st.facts.get(("truth", SLOTS))
        if not self.deletes_all:
            it.oblige("lost", st.g("present") == Const("SLOTS") and t is False, node, f, st,
                      "the list of callbacks is discarded although callbacks may be connected")
        st.setg("present", Const("none"))
        st.setg("gone", TRUE)

    deletes_all = emits = False

    def delitem(self, it, st, base, key, node):
        if self.cb(base) and key == EVENT:
            out = []
            for s, v in self.lookup(it, st, node):
                if v is None:
                    out.append((s, Raised(Exc("KeyError"))))
                else:
                    self.delete(it, s, node)
                    out.append((s, None))
            return out

    def setitem(self, it, st, base, key, val, node):
        if self.cb(base) and key == EVENT:
            items = it.exact_items(st, val) if isinstance(val, (Obj, Tup)) else None
            f = self.fn(it)
            out = []
            for s, v in self.lookup(it, st, node):
                if v is None:
                    s.setg("in", FALSE)
                it.oblige("lost", v is None, node, f, s, "the list of callbacks is replaced although callbacks may be connected")
                if items is not None:
                    s.setg("present", Const("SLOTS"))
                    s.facts[("truth", SLOTS)] = bool(items)
                    s.setg("alias", val)
                    for x in items:
                        self.insert(it, s, x, node)
                else:
                    it.imprecise(s, "unknown list of callbacks", node)
                out.append((s, None))
            return out

    def insert(self, it, st, v, node):
        f = self.fn(it)
        it.oblige("connect", st.g("in") == FALSE or st.g("present") == Const("none") or st.g("new") == TRUE, node, f, st,
                  "the callback is connected although it may be connected already: it is called twice")
        it.oblige("connect", st.g("inserted") == NONE, node, f, st, "the callback is connected twice")
        st.setg("inserted", v)
        st.setg("in", TRUE)
        st.facts[("truth", SLOTS)] = True

    def is_slots(self, st, v):
        return v == SLOTS or v != NONE and v == st.g("alias")

    def iter_start(self, it, st, seq, node):
        f = self.fn(it)
        if seq == SLOTS and not self.emits:
            it.imprecise(st, "callbacks iterated", node)
        elif seq == SLOTS:
            it.oblige("all", False, node, f, st, "the list of callbacks is iterated while callbacks may change it: some are not called")
        if seq == SNAP:
            st.setg("looped", TRUE)

    def iter_elem(self, it, st, seq, k, elem, node):
        if self.emits and (seq == SNAP or seq == SLOTS):
            e = T("observer")
            st.facts.pop(("truth", T("once of", 0)), None)
            st.facts.pop(("truth", T("once of", 1)), None)
            st.setg("elem", e).setg("called", FALSE).setg("removed", FALSE).setg("in", UNK).setg("tries", num(0))
            return [(st, e)]

    def iter_next(self, it, st, seq, k, elem, node):
        if not self.emits or seq not in (SNAP, SLOTS):
            return
        f = self.fn(it)
        if st.g("called") == TRUE:
            o = st.facts.get(("truth", T("once of", 1)))
            it.oblige("once", o is False or st.g("removed") == TRUE or st.g("in") == FALSE, node, f, st,
                      "a callback that is dead or was to be called once stays connected")
            it.oblige("context", st.g("tries") == num(1), node, f, st, "the result of a callback is not entered as context manager")
        else:
            it.oblige("all", st.g("in") == FALSE, node, f, st, "a connected callback is not called")
        st.setg("elem", NONE).setg("called", FALSE).setg("removed", FALSE).setg("in", UNK).setg("tries", num(0))
        st.facts.pop(("truth", T("once of", 0)), None)
        st.facts.pop(("truth", T("once of", 1)), None)

    def iter_break(self, it, st, seq, k, elem, node):
        if self.emits and seq in (SNAP, SLOTS):
            it.oblige("all", False, node, self.fn(it), st, "the callbacks after this one are not called")

    def iter_done(self, it, st, seq, k, node):
        if seq in (SNAP, SLOTS):
            st.setg("done", TRUE).setg("elem", NONE).setg("in", UNK)

    def compare(self, it, st, op, a, b, node):
        if op in ("In", "NotIn"):
            if self.cb(b) and a == EVENT:
                return [(s, (v is not None) == (op == "In")) for s, v in self.lookup(it, st, node)]
            if self.is_slots(st, b):
                ok = a == st.g("elem") and a != NONE or isinstance(a, Term) and a.op == "obs" and a.args[0] == FUNC
                if not ok:
                    it.imprecise(st, "something else is searched", node)
                return [(s, t == (op == "In")) for s, t in self.member(it, st, node)]
        if op in ("Is", "IsNot", "Eq", "NotEq") and {a, b} <= {SLOTS, OTHER, NONE} and len({a, b}) == 2:
            return [(st, op in ("IsNot", "NotEq"))]

    def member(self, it, st, node):
        if st.g("in") in (TRUE, FALSE):
            return [(st, st.g("in") == TRUE)]
        out = []
        for t in (True, False):
            s = st.copy().setg("in", TRUE if t else FALSE)
            if t:
                if s.facts.get(("truth", SLOTS)) is False:
                    continue
                s.facts[("truth", SLOTS)] = True
            s.note(getattr(node, "lineno", 0), "connected" if t else "not connected")
            out.append((s, t))
        return out

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        if label.endswith("util._Observer") or label.endswith("._Observer") or label == "_Observer":
            names = self.init.arg_names()[1:]
            b = dict(zip(names, args))
            b.update(kwargs)
            vals = []
            dflt = dict(zip(names[::-1], self.init.node.args.defaults[::-1]))
            for n in ("func", "once", "prepend_self", "priority"):
                if n in b:
                    vals.append(b[n])
                elif n in dflt and isinstance(dflt[n], ast.Constant):
                    vals.append(it.const(dflt[n].value))
                else:
                    vals.append(it.fresh(n))
            return [(st, T("obs", *vals))]
        if label in ("tuple", "list") and args and args[0] == SLOTS or label == ".copy" and recv == SLOTS:
            return [(st, SNAP)]
        if label in (".get", ".pop") and self.cb(recv) and args and args[0] == EVENT:
            out = []
            for s, v in self.lookup(it, st, node):
                if label == ".pop" and v is not None:
                    self.delete(it, s, node)
                if v is None and label == ".pop" and len(args) < 2:
                    out.append((s, Raised(Exc("KeyError"))))
                else:
                    d = args[1] if len(args) > 1 else NONE
                    out.append((s, d if v is None else v))
                    if v is not None:
                        s.facts[("isnone", v)] = False
            return out
        if label == ".setdefault" and self.cb(recv) and len(args) == 2 and args[0] == EVENT:
            out = []
            for s, v in self.lookup(it, st, node):
                if v is None:
                    items = it.exact_items(s, args[1]) if isinstance(args[1], Obj) else None
                    if items is None:
                        it.imprecise(s, "unknown list of callbacks", node)
                    else:
                        s.setg("in", FALSE)
                        s.facts[("truth", SLOTS)] = bool(items)
                        for x in items:
                            self.insert(it, s, x, node)
                    s.setg("present", Const("SLOTS"))
                out.append((s, SLOTS if v is None else v))
            return out
        if label in ("len", "bool") and args and args[0] == SLOTS:
            return [(s, (num(1) if t else num(0)) if label == "len" else TRUE if t else FALSE) for s, t in it.truth(st, SLOTS, node)]
        if label == ".clear" and self.cb(recv):
            st.setg("cleared", TRUE)
            return [(st, NONE)]
        if label.split(".")[-1] in ("insort_right", "insort", "insort_left") and label.startswith("bisect") and len(args) >= 2:
            if self.is_slots(st, args[0]):
                self.insert(it, st, args[1], node)
                if kwargs or len(args) > 2:
                    it.oblige("order", None, node, f, st)
                else:
                    it.oblige("order", not label.endswith("left"), node, f, st,
                              "a callback comes before those with the same priority that were connected earlier")
                return [(st, NONE)]
        if label == ".append" and self.is_slots(st, recv):
            self.insert(it, st, args[0], node)
            st.setg("unsorted", TRUE)
            return [(st, NONE)]
        if label == ".insert" and self.is_slots(st, recv):
            self.insert(it, st, args[1], node)
            it.oblige("order", None, node, f, st)
            return [(st, NONE)]
        if label == ".sort" and self.is_slots(st, recv):
            if not kwargs:
                st.setg("unsorted", FALSE)
            else:
                it.imprecise(st, "sorted otherwise", node)
            return [(st, NONE)]
        if label == ".remove" and self.is_slots(st, recv) and args:
            a = args[0]
            if not (a == st.g("elem") and a != NONE or isinstance(a, Term) and a.op == "obs"):
                it.imprecise(st, "something else is removed", node)
            if isinstance(a, Term) and a.op == "obs":
                it.oblige("disconnect", a.args[0] == FUNC, node, f, st, "another callback is disconnected")
            out = []
            for s, t in self.member(it, st, node):
                if t:
                    s.setg("in", FALSE).setg("removed", TRUE)
                    s.facts.pop(("truth", SLOTS), None)
                    out.append((s, NONE))
                else:
                    out.append((s, Raised(Exc("ValueError"))))
            return out
        if label == ".call" and recv is not None and recv != NONE and recv == st.g("elem"):
            it.oblige("all", st.g("called") != TRUE, node, f, st, "a callback is called more than once")
            it.oblige("disconnected", st.g("in") == TRUE or st.g("removed") == TRUE, node, f, st,
                      "a callback is called that may have been disconnected by another callback")
            o = st.facts.get(("truth", T("once of", 0)))
            it.oblige("once", o is False or st.g("removed") == TRUE, node, f, st,
                      "a callback that is to be called once is still connected while it is called: an event emitted by it calls it again")
            ok = len(args) == 2 and args[0] == self.me and args[1] == T("star", ARGS) and kwargs.get("**") == KW and len(kwargs) == 1
            it.oblige("arguments", ok, node, f, st, "a callback is called with {} {}".format(args, kwargs))
            st.setg("called", TRUE).setg("in", UNK).setg("present", UNK).setg("later", TRUE)
            st.facts.pop(("truth", SLOTS), None)
            st.facts.pop(("truth", OTHER), None)
            s2 = st.copy().setg("raised", TRUE)
            return [(st, T("result")), (s2, Raised(Exc("any")))]
        if label.endswith("ExitStack"):
            return [(st, T("stack"))]
        if label == ".enter_context" and recv == T("stack"):
            it.oblige("context", args[:1] == [T("result")], node, f, st, "something else than the result of the callback is entered")
            st.setg("tries", (it.as_lin(st, st.g("tries")) or num(0)) + 1)
            return [(st, NONE), (st.copy(), Raised(Exc("any")))]


def start(factory, P, name, hooks_kw=(), **bound):
    c = P.cls("util.Observable")
    f = c.find_method(name)
    if f is None:
        raise model.AnchorLost("Observable." + name)
    me = Obj(0, c, "self")
    h = Obs(P, me, table_of(factory, P))
    for k, v in hooks_kw:
        setattr(h, k, v)
    it = factory(h)
    st = State()
    st.setg("elem", NONE).setg("in", UNK).setg("present", UNK).setg("alias", NONE)
    st.setg("called", FALSE).setg("removed", FALSE).setg("inserted", NONE).setg("tries", num(0)).setg("unsorted", FALSE)
    st.setg("done", FALSE).setg("raised", FALSE).setg("gone", FALSE).setg("cleared", FALSE).setg("looped", FALSE).setg("later", FALSE).setg("new", FALSE)
    st.facts[("truth", SLOTS)] = True       # lists of events are not empty
    st.facts[("isnone", SLOTS)] = False
    b = {f.arg_names()[0]: me}
    b.update(bound)
    return it, st, f, h, it.run_fn(st, FnV(f, None, None, c), b, None, None)


def table_of(factory, P):
    c = P.cls("util.Observable")
    f = c.find_method("__init__")
    me = Obj(0, c, "self")
    it = factory(Hooks())
    for s, v in it.run_fn(State(), FnV(f, None, None, c), {f.arg_names()[0]: me}, None, None)[:1]:
        names = [k for (o, k) in s.heap if o == me]
        if len(names) == 1:
            return names[0]
    raise model.AnchorLost("Observable: the dictionary of callbacks")


def run_emit(factory, P):
    f = P.cls("util.Observable").find_method("emit")
    a = f.node.args
    if not a.vararg or not a.kwarg:
        raise model.AnchorLost("Observable.emit(event, *args, **kwargs)")
    it, st, f, h, res = start(factory, P, "emit", [("emits", True)], **{f.arg_names()[1]: EVENT, a.vararg.arg: ARGS, a.kwarg.arg: KW})
    for s, v in res:
        if isinstance(v, Raised):
            it.oblige("all", s.g("raised") == TRUE or v.exc.name == "any", f.node, f, s, "emit raises {}".format(v.exc.name))
            continue
        it.oblige("raises", s.g("raised") != TRUE, f.node, f, s, "an exception in a callback is hidden")
        if s.g("looped") == TRUE:
            it.oblige("all", s.g("done") == TRUE, f.node, f, s, "emit returns before all callbacks are called")
            t = s.facts.get(("truth", SLOTS))
            it.oblige("empty", t is True or s.g("gone") == TRUE or s.g("present") in (Const("OTHER"), Const("none")), f.node, f, s,
                      "the event still has a list, although all callbacks are gone")
        else:
            it.oblige("all", s.g("present") == Const("none"), f.node, f, s, "emit does not call the callbacks")
        it.oblige("context", v == T("stack"), f.node, f, s, "emit returns {}".format(v))


def run_connect(factory, P):
    it, st, f, h, res = start(factory, P, "connect", event=EVENT, func=FUNC, once=ONCE, prepend_self=PREP, priority=PRIO)
    for s, v in res:
        if isinstance(v, Raised):
            it.oblige("connect", False, f.node, f, s, "connect raises {}".format(v.exc.name))
            continue
        i = s.g("inserted")
        if i == NONE:
            it.oblige("connect", s.g("in") == TRUE, f.node, f, s, "the callback is not connected")
        else:
            it.oblige("connect", i == T("obs", FUNC, ONCE, PREP, PRIO), f.node, f, s, "{} is connected".format(i))
            it.oblige("connect", s.g("present") == Const("SLOTS"), f.node, f, s, "the callback is put in a list that is not stored")
            it.oblige("order", s.g("unsorted") != TRUE, f.node, f, s, "the callback is not put at its priority")
    a = f.node.args
    d = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
    it.oblige("connect", all(isinstance(d.get(n), ast.Constant) and not d[n].value for n in ("once", "prepend_self")), f.node, f, State(),
              "the default values are not once=False, prepend_self=False")
    it.oblige("connect", isinstance(d.get("priority"), ast.Constant) and d["priority"].value == 0, f.node, f, State(), "the default priority is not 0")


def run_disconnect(factory, P):
    it, st, f, h, res = start(factory, P, "disconnect", event=EVENT, func=FUNC)
    for s, v in res:
        if isinstance(v, Raised):
            it.oblige("disconnect", False, f.node, f, s, "disconnect raises {}".format(v.exc.name))
            continue
        if s.g("removed") == TRUE:
            t = s.facts.get(("truth", SLOTS))
            it.oblige("empty", t is True or s.g("gone") == TRUE, f.node, f, s, "the event still has a list, although all callbacks are gone")
        else:
            it.oblige("disconnect", s.g("in") == FALSE or s.g("present") == Const("none"), f.node, f, s, "the callback stays connected")

    def truth_is(name, b, want):
        it, st, f, h, res = start(factory, P, name, **b)
        for s, v in res:
            if isinstance(v, Raised):
                it.oblige("connected", False, f.node, f, s, "{} raises {}".format(name, v.exc.name))
                continue
            for s2, t in it.truth(s, v):
                w = want(s2)
                it.oblige("connected", None if w is None else False if w == "unknown" else w == t, f.node, f, s2, "{} returns {}".format(name, t))

    def known(s):
        if s.g("present") == Const("none"):
            return False
        if s.g("in") in (TRUE, FALSE):
            return s.g("in") == TRUE
        return None if s.unk else "unknown"
    truth_is("is_connected", dict(event=EVENT, func=FUNC), known)
    truth_is("has_connections", dict(event=EVENT), lambda s: None if s.g("present") == UNK else s.g("present") == Const("SLOTS"))

    for ev in (EVENT, NONE):
        it, st, f, h, res = start(factory, P, "disconnect_all", [("deletes_all", True)], event=ev)
        if ev == EVENT:
            pass
        for s, v in res:
            if isinstance(v, Raised):
                it.oblige("disconnect", False, f.node, f, s, "disconnect_all raises {}".format(v.exc.name))
                continue
            if ev == NONE:
                it.oblige("disconnect", s.g("cleared") == TRUE, f.node, f, s, "callbacks stay connected")
            elif s.facts.get(("isnone", EVENT)):
                pass
            else:
                it.oblige("disconnect", s.g("cleared") != TRUE, f.node, f, s, "the callbacks of all events are disconnected")
                it.oblige("disconnect", s.g("present") == Const("none"), f.node, f, s, "callbacks stay connected")


class Observer(Hooks):
    def __init__(self, P, method, prep):
        self.P, self.method, self.prep = P, method, prep

    def fn(self, it):
        return next((f.func for f in reversed(it.stack) if f.func is not None), None)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == "isinstance" and args and args[0] == FUNC or label.endswith("ismethod") and args and args[0] == FUNC:
            if label == "isinstance" and not (isinstance(args[1], ExtV) and args[1].name.endswith("MethodType")):
                return None
            return [(st, TRUE if self.method else FALSE)]
        if label.endswith("WeakMethod") and args[:1] == [FUNC]:
            it.oblige("weak", self.method, node, self.fn(it), st, "a weak reference to a function that is no method")
            return [(st, T("weak"))]
        if recv == T("weak") and not args:
            s2 = st.copy().setg("dead", TRUE)
            st.facts[("truth", FUNC)] = True
            st.facts[("isnone", FUNC)] = False
            return [(st, FUNC), (s2, NONE)]
        if recv == FUNC and label == str(FUNC):
            st.setg("calls", st.g("calls") + 1)
            want = [T("in", "observable")] if self.prep else []
            ok = args == want + [T("star", ARGS)] and list(kwargs) == ["**"]
            it.oblige("arguments", ok, node, self.fn(it) or None, st, "the callback is called with {} {}".format(args, kwargs))
            return [(st, T("result"))]


def run_observer(factory, P):
    c = P.cls("util._Observer")
    init = c.find_method("__init__")
    for method in (True, False):
        for prep in (True, False):
            h = Observer(P, method, prep)
            it = factory(h)
            me = Obj(0, c, "observer")
            st = State()
            st.setg("calls", num(0)).setg("dead", FALSE)
            n = init.arg_names()
            b = {n[0]: me, n[1]: FUNC, "once": ONCE, "prepend_self": TRUE if prep else FALSE, "priority": PRIO}
            for s, v in it.run_fn(st, FnV(init, None, None, c), b, None, None):
                if isinstance(v, Raised):
                    it.oblige("observer", None, init.node, init, s)
                    continue
                it.oblige("observer", s.heap.get((me, "priority")) == PRIO and s.heap.get((me, "once")) == ONCE, init.node, init, s,
                          "priority or once are not kept")
                vals = [x for (o, k), x in s.heap.items() if o == me]
                if method:
                    it.oblige("weak", FUNC not in vals and T("weak") in vals, init.node, init, s,
                              "a method is not kept by a weak reference: its object stays alive, or cannot be called")
                fr = Frame(init, it.new_env(None, set()), init.module)
                it.stack.append(fr)
                try:
                    for s2, f in it.getattr(s, me, "call", init.node, fr):
                        for s3, v in it.call_fn(s2, f, [T("in", "observable"), T("star", ARGS)], {"**": KW}, init.node, fr):
                            if isinstance(v, Raised):
                                it.oblige("observer", None, init.node, init, s3)
                                continue
                            n_ = s3.g("calls")
                            if s3.g("dead") == TRUE:
                                it.oblige("observer", n_ == num(0) and s3.heap.get((me, "once")) == TRUE, init.node, init, s3,
                                          "a callback whose object is gone is not marked to be removed")
                            else:
                                it.oblige("observer", n_ == num(1) and v == T("result"), init.node, init, s3,
                                          "the callback is called {} times, {} is returned".format(n_, v))
                                it.oblige("observer", s3.heap.get((me, "once")) == ONCE, init.node, init, s3, "once is changed by a call")
                finally:
                    it.stack.pop()


class Cmp(Hooks):
    def compare(self, it, st, op, a, b, node):
        if {a, b} == {T("in", "f1"), T("in", "f2")} and op in ("Is", "IsNot"):
            # never true for two weak references to the same method
            st.setg("eq", TRUE)
            return [(st, op == "IsNot")]
        if {a, b} == {T("in", "f1"), T("in", "f2")} and op in ("Eq", "NotEq"):
            s2 = st.copy().setg("eq", FALSE)
            st.setg("eq", TRUE)
            return [(st, op == "Eq"), (s2, op == "NotEq")]


def run_compare(factory, P):
    c = P.cls("util._Observer")
    for name in ("__eq__", "__ne__", "__lt__", "__gt__", "__le__", "__ge__"):
        m = c.find_method(name)
        if m is None:
            continue
        it = factory(Cmp())
        a, b = Obj(0, c, "observer"), Obj(1, c, "observer")
        st = State()
        p1, p2 = sym(T("in", "p1")), sym(T("in", "p2"))
        st.heap.update({(a, "func"): T("in", "f1"), (b, "func"): T("in", "f2"), (a, "priority"): p1, (b, "priority"): p2})
        n = m.arg_names()
        for s, v in it.run_fn(st, FnV(m, None, None, c), {n[0]: a, n[1]: b}, None, None):
            if isinstance(v, Raised):
                it.oblige("compare", None, m.node, m, s)
                continue
            for s2, t in it.truth(s, v):
                if name in ("__eq__", "__ne__"):
                    e = s2.g("eq")
                    it.oblige("compare", None if e is None else ((e == TRUE) == (name == "__eq__")) == t, m.node, m, s2,
                              "observers are compared by something else than their function")
                else:
                    l = {"__lt__": p2 - p1 - 1, "__gt__": p1 - p2 - 1, "__le__": p2 - p1, "__ge__": p1 - p2}[name]
                    neg = -l - 1
                    it.oblige("compare", s2.entails(l if t else neg), m.node, m, s2, "observers are not ordered by their priority")


def run(ctx):
    P = ctx.program
    ctx.rule("all", "emit calls every callback that is connected, exactly once, and no other")
    ctx.rule("disconnected", "a callback that was disconnected is not called")
    ctx.rule("once", "callbacks connected once, and dead ones, are removed; before they are called again")
    ctx.rule("arguments", "callbacks get the arguments of the event, and the observable if asked for")
    ctx.rule("context", "results are entered as context managers and left with the returned stack")
    ctx.rule("raises", "exceptions in callbacks are not hidden")
    ctx.rule("empty", "an event without callbacks has no list")
    ctx.rule("lost", "no callback is lost by storing or deleting lists")
    ctx.rule("connect", "connecting adds the callback once")
    ctx.rule("order", "callbacks are called by priority, then in the order they were connected")
    ctx.rule("compare", "observers are equal if their functions are, and ordered by priority")
    ctx.rule("disconnect", "disconnecting removes the callback and never raises")
    ctx.rule("connected", "is_connected() and has_connections() tell the truth")
    ctx.rule("observer", "the function is called once per event, as long as it lives")
    ctx.rule("weak", "methods are referenced weakly")
    for r in (run_emit, run_connect, run_disconnect, run_observer, run_compare):
        ctx.analyse(lambda factory, r=r: r(factory, P))
    for r in ctx.rules:
        ctx.floor(r, 1)
