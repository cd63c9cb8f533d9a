"""P10: undo and redo restore the text exactly."""
import ast
from pa.interp import *
from pa import model
from .docmodel import Edits


def self_attrs(func):
    names = []
    self_ = func.arg_names()[0]
    for n in ast.walk(func.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self_ and n.attr not in names:
            names.append(n.attr)
    return names


class World(Edits):
    """A document with its two stacks, in one of the three modes."""
    opaque = ("_update_cursors", "emit", "MutableString._update_text", "_apply_changes", "__exit__", "__enter__")

    def __init__(self, prog, me, stacks, switches, mode):
        Edits.__init__(self)
        self.prog, self.me, self.stacks, self.switches, self.mode = prog, me, stacks, switches, mode
        self.text = T("in", "text", 0)

    def setup(self, st):
        for name, o in self.stacks.items():
            st.heap[(self.me, name)] = o

    def name_of(self, o):
        for n, x in self.stacks.items():
            if x == o:
                return n

    def is_switch(self, v):
        return isinstance(v, Term) and v.op == "attr" and v.args[0] == self.me and v.args[1] in self.all_switches

    def attr(self, it, st, base, name):
        if base == self.me and name in self.all_switches:
            return T("attr", self.me, name, 0)

    def bump(self, st, name):
        st.setg(name, (st.g(name) or num(0)) + 1)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = it.stack[-1].func
        if label.endswith(".text") and recv == self.me and not args:
            return [(st, T("in", "text", 1 if st.g("texts") else 0))]
        if label.endswith("MutableString._update_text"):
            self.bump(st, "texts")
            return [(st, NONE)]
        n = self.name_of(recv) if isinstance(recv, Obj) else None
        if n is not None:
            if label == ".append" and args:
                self.bump(st, "push." + n)
                it.oblige("kept", st.g("texts") is None, node, f, st, "the old text is stored after it was replaced")
                x = it.exact_items(st, args[0]) if isinstance(args[0], (Obj, Tup)) else None
                if x is not None:
                    mods = [v for v in x if v == self.modified]
                    it.oblige("kept-modified", bool(mods), node, f, st, "the modified state before the edit is not stored")
                return [(st, NONE)]
            if label == ".clear":
                self.bump(st, "clear." + n)
                return [(st, NONE)]
            if label == ".pop":
                self.bump(st, "pop." + n)
                it.oblige("guard", st.g("editing") is None or st.entails_eq(it.as_lin(st, sym(self.ctxv))), node, f, st,
                          "an edit is taken off the stack within an edit context")
                if args and args[0] not in (num(-1),):
                    it.oblige("newest", False, node, f, st, "not the newest edit is taken off the stack")
                st.setg("popped", TRUE)
                return [(st, Tup((T("popped", n, 0), T("popped", n, 1))))]
        if label == ".append" and isinstance(recv, Obj) and recv.cls == "list" and args and isinstance(args[0], Tup) and len(args[0].items) == 3:
            self.emit(it, st, args[0], node)
        return None

    def truth_hook(self):
        pass

    def on_yield(self, it, st, func, v, node):
        if isinstance(v, Tup) and len(v.items) == 3:
            st = st.copy()
            self.emit(it, st, v, node)
            return st

    def emit(self, it, st, v, node):
        cur = st.g("cur")
        f = it.stack[-1].func
        if cur in (None, NONE):
            return
        st.setg("emitted", TRUE)
        p = self.parts(it, st, cur)
        s, e, text, n = p
        off = it.as_lin(st, st.g("offnext")) - n + (e - s)
        a, b = it.as_lin(st, v.items[0]), it.as_lin(st, v.items[1])
        it.oblige("reverse", a is not None and st.entails_eq(a - s - off), node, f, st,
                  "the reverse of an edit starts at {} instead of {}".format(a, s + off))
        it.oblige("reverse", b is not None and st.entails_eq(b - s - off - n), node, f, st,
                  "the reverse of an edit ends at {} instead of {}".format(b, s + off + n))
        t = v.items[2]
        if isinstance(t, Term) and t.op == "slice" and isinstance(t.args[1], Lin) and isinstance(t.args[2], Lin):
            ok = t.args[0] == self.text and st.entails_eq(t.args[1] - s) and st.entails_eq(t.args[2] - e)
            it.oblige("reverse", ok, node, f, st, "the reverse of an edit puts back {}".format(t))
        elif t == text or t == EMPTY:
            it.oblige("reverse", t == EMPTY and st.entails_eq(e - s), node, f, st, "the reverse of an edit puts back {}".format(t))
        else:
            it.oblige("reverse", None, node, f, st)

    def iter_next(self, it, st, seq, k, elem, node):
        if seq == self.changes and self.stage == "reverse" and st.g("texts") is None and it.stack[-1].func.name in self.emitters:
            it.oblige("reverse", st.g("emitted") == TRUE, node, it.stack[-1].func, st, "the reverse of an edit may be missing")
        Edits.iter_next(self, it, st, seq, k, elem, node)


class Modes(World):
    stage = "reverse"
    emitters = ()


def setup_world(prog, mode):
    cls = prog.cls("document.Document")
    me = Obj(0, cls, "self")
    U = self_attrs(cls.find_method("can_undo"))
    R = self_attrs(cls.find_method("can_redo"))
    if len(U) != 1 or len(R) != 1:
        raise model.AnchorLost("stacks of edits not found")
    stacks = {U[0]: Obj(-1, "list", "undo"), R[0]: Obj(-2, "list", "redo")}
    h = Modes(prog, me, stacks, {}, mode)
    h.U, h.R = U[0], R[0]
    h.modified = T("attr", me, "_modified", 0)
    h.all_switches = set()
    for c in cls.mro():
        for name, v in getattr(c, "attrs", {}).items():
            if isinstance(v, ast.Call) and model.dotted(v.func) and model.dotted(v.func).split(".")[-1] == "Switch":
                h.all_switches.add(name)
    return cls, me, h


class UndoRun(Modes):
    """Hooks for undo() and redo()."""
    stage = "undo"

    def enter(self, it, st, val, node):
        if self.is_switch(val):
            st.setg("on." + val.args[1], TRUE)
            self.entered.add(val.args[1])
            return st

    def leave(self, it, st, val, exc, node):
        if self.is_switch(val):
            st.setg("on." + val.args[1], FALSE)
            return st

    def getitem(self, it, st, base, key, node):
        return Edits.getitem(self, it, st, base, key, node)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if recv == self.me and label.endswith("__enter__"):
            st.setg("ctx", (st.g("ctx") or num(0)) + 1)
            return [(st, self.me)]
        if recv == self.me and label.endswith("__exit__"):
            st.setg("ctx", (st.g("ctx") or num(0)) - 1)
            it.oblige("restore", any(st.g("on." + x) == TRUE for x in self.all_switches), node, it.stack[-1].func, st,
                      "the edits are applied when the document does not know anymore that it is undoing or redoing")
            return [(st, NONE)]
        return World.call(self, it, st, label, recv, args, kwargs, node, fn)

    def iter_elem(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and seq.op == "popped" and seq.args[1] == 0:
            st.setg("edit", elem).setg("applied", FALSE)
            return [(st, Tup((sym(T("start", elem)), sym(T("end", elem)), T("text", elem))))]
        return World.iter_elem(self, it, st, seq, k, elem, node)

    def iter_next(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and seq.op == "popped":
            it.oblige("restore", st.g("applied") == TRUE, node, it.stack[-1].func, st, "an edit is not undone")
            return
        World.iter_next(self, it, st, seq, k, elem, node)

    def iter_done(self, it, st, seq, k, node):
        if isinstance(seq, Term) and seq.op == "popped":
            st.setg("alldone", TRUE)
        return World.iter_done(self, it, st, seq, k, node)

    def setitem(self, it, st, base, key, val, node):
        if base != self.me:
            return None
        f = it.stack[-1].func
        e = st.g("edit")
        if e is None or not isinstance(key, SliceV):
            it.oblige("restore", None, node, f, st)
            return [(st, None)]
        lo, hi = it.as_lin(st, key.lo), it.as_lin(st, key.hi)
        ok = lo is not None and hi is not None and st.entails_eq(lo - sym(T("start", e))) \
            and st.entails_eq(hi - sym(T("end", e))) and val == T("text", e)
        it.oblige("restore", ok, node, f, st, "{}:{} is replaced with {} when undoing".format(lo, hi, val))
        it.oblige("restore", st.g("ctx") == num(1), node, f, st, "the edits are not undone in one edit context")
        return [(st.setg("applied", TRUE), None)]

    def setattr(self, it, st, base, name, val, node):
        if base == self.me and name == "modified":
            f = it.stack[-1].func
            it.oblige("modified", not any(st.g("on." + x) == TRUE for x in self.all_switches), node, f, st,
                      "the modified state is set while that has no effect")
            it.oblige("modified", isinstance(val, Term) and val.op == "popped" and val.args[1] == 1, node, f, st,
                      "the modified state becomes {}".format(val))
            st.setg("modset", TRUE)
            return [(st, None)]


def run_undo(factory, prog, which, found):
    cls, me, h = setup_world(prog, None)
    h.__class__ = UndoRun
    h.entered = set()
    f = cls.find_method(which)
    own, other = (h.U, h.R) if which == "undo" else (h.R, h.U)
    ctr = counter(factory, prog, cls, me)
    h.ctxv = T("attr", me, ctr, 0)
    for editing in (False, True):
        it = factory(h)
        st = State()
        h.setup(st)
        n = it.len_of(st, h.stacks[own])
        if editing:
            st.assume(sym(h.ctxv) - 1)
            st.setg("editing", TRUE)
        else:
            st.heap[(me, ctr)] = num(0)
        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
            if editing:
                if isinstance(v, Raised):
                    continue
                s2 = s.copy().assume(sym(h.ctxv) - 1)
                it.oblige("guard", s2 is None or s.g("popped") is None, f.node, f, s, "undoing is possible within an edit context")
                continue
            if isinstance(v, Raised):
                it.oblige("restore", None, f.node, f, s)
                continue
            p, q = s.g("pop." + own), s.g("pop." + other)
            it.oblige("stack", q is None, f.node, f, s, "{}() takes an edit from the other stack".format(which))
            if p is None:
                s2 = s.copy().assume(n - 1)
                it.oblige("stack", s2 is None or s.facts.get(("truth", h.stacks[own])) is False, f.node, f, s,
                          "{}() may do nothing although there is something to {}".format(which, which))
            else:
                it.oblige("stack", p == num(1), f.node, f, s, "more than one edit is taken off the stack")
                it.oblige("restore", s.g("alldone") == TRUE, f.node, f, s, "not all edits are undone")
                it.oblige("modified", s.g("modset") == TRUE, f.node, f, s, "the modified state is not restored")
        if not editing:
            it.oblige("stack", True if len(h.entered) == 1 else None, f.node, f, State(), "")
    found[which] = set(h.entered)


def counter(factory, prog, cls, me):
    f = cls.find_method("__enter__")
    it = factory(Hooks())
    for s, v in it.run_fn(State(), FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        for (o, name), val in s.heap.items():
            if o == me and isinstance(val, Lin) and val == sym(T("attr", me, name, 0)) + 1:
                return name
    raise model.AnchorLost("the edit context counter was not found")


def run_update(factory, prog, mode, switches):
    cls, me, h = setup_world(prog, mode)
    it = factory(h)
    h.emitters = [x.name for x in prog.all_functions() if x.module.name.endswith("document") and any(
        isinstance(n, ast.Yield) for n in model.own_nodes(x.node))]
    f = cls.find_method("_update_text")
    for enabled in (True, False):
        st = State()
        h.setup(st)
        st.heap[(me, "undo_redo_enabled")] = Const(enabled)
        for name in h.all_switches:
            t = T("attr", me, name, 0)
            st.facts[("truth", t)] = mode is not None and name in switches.get(mode, ())
        a = f.arg_names()
        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {a[0]: me, a[1]: h.changes}, None, None):
            if isinstance(v, Raised):
                it.oblige("push", None, f.node, f, s)
                continue
            pu, pr = s.g("push." + h.U) or num(0), s.g("push." + h.R) or num(0)
            cu, cr = s.g("clear." + h.U) or num(0), s.g("clear." + h.R) or num(0)
            what = {None: "an edit", "undo": "undoing", "redo": "redoing"}[mode]
            if not enabled:
                it.oblige("push", pu == num(0) and pr == num(0), f.node, f, s, what + " is stored although undo is disabled")
                continue
            it.oblige("push", pu == num(0 if mode == "undo" else 1), f.node, f, s, "{} adds {} entries to the undo stack".format(what, pu))
            it.oblige("push", pr == num(1 if mode == "undo" else 0), f.node, f, s, "{} adds {} entries to the redo stack".format(what, pr))
            it.oblige("push", cu == num(0), f.node, f, s, what + " clears the undo stack")
            if mode is None:
                it.oblige("push", s.entails(cr - 1), f.node, f, s, "the redo stack is kept after a new edit")
            else:
                it.oblige("push", cr == num(0), f.node, f, s, what + " clears the redo stack")
            it.oblige("reverse", s.g("iterated") == TRUE or None, f.node, f, s)


class Mark(Modes):
    stage = "mark"

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == "itertools.chain":
            return [(st, Tup(tuple(args)) if False else T("chain", *args))]
        return World.call(self, it, st, label, recv, args, kwargs, node, fn)

    def members(self, seq):
        if isinstance(seq, Term) and seq.op == "chain":
            return [self.name_of(x) for x in seq.args]
        if isinstance(seq, Term) and seq.op == "cat":
            return [n for x in seq.args for n in self.members(x)]
        if isinstance(seq, Term) and seq.op in ("content", "copyof"):
            return self.members(seq.args[0])
        if isinstance(seq, Obj):
            n = self.name_of(seq)
            return [n] if n else []
        return []

    def iter_elem(self, it, st, seq, k, elem, node):
        if self.members(seq):
            st.setg("entry", elem).setg("mark", FALSE)
            return [(st, elem)]

    def setitem(self, it, st, base, key, val, node):
        if st.g("entry") is not None and base == st.g("entry"):
            if val == TRUE:
                st.setg("mark", TRUE)
            return [(st, None)]

    def iter_next(self, it, st, seq, k, elem, node):
        if self.members(seq):
            it.oblige("marked", st.g("mark") == TRUE, node, it.stack[-1].func, st,
                      "an older edit keeps the state 'not modified' after the document was set unmodified")

    def iter_done(self, it, st, seq, k, node):
        for n in self.members(seq):
            st.setg("marked." + n, TRUE)
        return [st]


def run_mark(factory, prog):
    cls, me, h = setup_world(prog, None)
    h.__class__ = Mark
    f = cls.find_setter("modified")
    it = factory(h)
    st = State()
    h.setup(st)
    for name in h.all_switches:
        st.facts[("truth", T("attr", me, name, 0))] = False
    a = f.arg_names()
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {a[0]: me, a[1]: FALSE}, None, None):
        if isinstance(v, Raised):
            it.oblige("marked", None, f.node, f, s)
            continue
        for n in (h.U, h.R):
            e = s.copy()
            it.oblige("marked", s.g("marked." + n) == TRUE, f.node, f, s,
                      "entries of {} still say 'not modified' after the document was set unmodified".format(n))


def run_clear(factory, prog):
    cls, me, h = setup_world(prog, None)
    f = cls.find_method("clear_undo_redo")
    it = factory(h)
    st = State()
    h.setup(st)
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        if isinstance(v, Raised):
            continue
        for n in (h.U, h.R):
            it.oblige("push", s.g("clear." + n) is not None or s.heap.get((me, n)) != h.stacks[n], f.node, f, s,
                      "clearing the undo and redo history keeps " + n)


def run(ctx):
    P = ctx.program
    ctx.rule("reverse", "for every edit the stored reverse edit replaces exactly the new text, at its place in the new text, with the old text")
    ctx.rule("kept", "the old text is stored before it is replaced")
    ctx.rule("kept-modified", "the modified state before the edit is stored with it")
    ctx.rule("push", "an edit adds one undo entry and clears redo, undoing adds one redo entry, redoing one undo entry; otherwise the stacks are left alone")
    ctx.rule("stack", "undo() and redo() take exactly the newest entry off their own stack, and do nothing only if it is empty")
    ctx.rule("newest", "the newest entry is taken")
    ctx.rule("restore", "undo and redo apply all stored edits, unchanged, in one edit context while the document is in undo or redo mode")
    ctx.rule("modified", "undo and redo restore the stored modified state afterwards")
    ctx.rule("marked", "setting the document unmodified makes all older and undone states count as modified")
    ctx.rule("guard", "undo and redo are refused within an edit context, before anything is taken off a stack")
    found = {}
    ctx.analyse(lambda fa: run_undo(fa, P, "undo", found))
    ctx.analyse(lambda fa: run_undo(fa, P, "redo", found))
    u, r = found.get("undo", set()), found.get("redo", set())
    if len(u) == 1 and len(r) == 1:
        ctx.check("stack", "undo and redo modes", u != r, "undo and redo use the same mode")
    sw = {"undo": u, "redo": r}
    for mode in (None, "undo", "redo"):
        ctx.analyse(lambda fa: run_update(fa, P, mode, sw))
    ctx.analyse(lambda fa: run_mark(fa, P))
    ctx.analyse(lambda fa: run_clear(fa, P))
    ctx.floor("push", 1)
    ctx.floor("stack", 2)
