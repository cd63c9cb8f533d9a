"""P04: no queued change is lost, and the builder never gets stuck."""
import ast
from pa.interp import *
from pa import model
from .locks import Locks, lock_attrs


class Proc(Locks):
    """TreeBuilder.process(). Ghosts:

    taken    the changes that were taken from the queue and are not in the tree yet
    stage    the stage that was announced last
    checked  the queue was found empty, and the lock has been held since
    idle     busy was made False while checked
    back     what was put back in the queue
    ws, we   a range that was changed in an earlier round (any)
    lex      the open lexicons of the last round that told them
    """
    opaque = ("TreeBuilder.get_changes", "TreeBuilder.build_new_tree", "TreeBuilder.replace_tree", "emit",
              "process_started", "process_finished", "peek", "Changes.has_changes", "Changes.new_position")

    def __init__(self, me, locks, main):
        self.me, self.locks, self.main = me, locks, main

    def attr(self, it, st, base, name):
        l = self.lock_attr(base, name)
        if l is not None:
            return l
        if base == self.me and name == "changes":
            return T("queue")
        if base == self.me and name == "root":
            return T("root")
        if isinstance(base, Term) and base.op == "taken" and name in ("text", "root_lexicon", "start", "removed", "added"):
            return T("change", base.args[0], name)

    def typeof(self, it, st, val):
        return None

    def may_raise(self, it, label, recv, node):
        return False

    def raising(self, it, st, node, what):
        s = st.copy()
        s.note(getattr(node, "lineno", 0), "raises", what)
        return (s, Raised(Exc("any")))

    def on_release(self, it, st, name, node):
        st.setg("checked", FALSE)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        r = self.lock_call(it, st, label, recv, args, node)
        if r is not None:
            return r
        f = self.main
        name = label.split(".")[-1]
        if name == "get_changes":
            it.oblige("taken", st.g("taken") == NONE, node, f, st, "changes are taken while the changes taken before are not in the tree yet")
            it.oblige(self.rule, any(self.held(st, n) for n in self.locks), node, f, st, "the queue is emptied without the lock")
            s2 = st.copy()
            st.setg("taken", Const("yes")).setg("back", NONE).setg("has", TRUE)
            # the ranges changed before are moved by this change
            st.setg("weold", st.g("we"))
            if st.g("wit") == TRUE:
                st.setg("we", it.freshint("we"))
            t = T("taken", 0)
            st.facts[("truth", t)] = True
            s2.facts[("truth", t)] = True
            s2.setg("has", FALSE).setg("taken", NONE).setg("weold", st.g("weold"))
            if any(self.held(st, n) for n in self.locks):
                s2.setg("checked", TRUE)
            return [(st, t), (s2, t)]
        if name == "has_changes" and isinstance(recv, Term) and recv.op == "taken":
            return [(st, st.g("has"))]
        if name == "new_position" and isinstance(recv, Term) and recv.op == "taken" and args:
            x = it.as_lin(st, args[0])
            q = it.freshint("np")
            old, new = it.as_lin(st, st.g("weold")), it.as_lin(st, st.g("we"))
            if st.g("wit") == TRUE and x is not None and old is not None and st.entails(x - old):
                st.assume(q - new)
            return [(st, q)]
        if name == "build_new_tree":
            self.none_held(it, st, node, "the tree is built")
            it.oblige("stage", st.g("stage") == Const("build"), node, f, st, "the tree is built in stage {}".format(st.g("stage")))
            k = st.g("taken")
            ok = k == Const("yes")
            if ok:
                k = 0
                ok = [x for x in args] == [T("change", k, n) for n in ("text", "root_lexicon", "start", "removed", "added")]
            if len(args) == 1 and isinstance(args[0], Term) and args[0].op == "star":
                ok = None
            it.oblige("taken", ok, node, f, st, "the tree is built with {}".format(args))
            e = self.raising(it, st, node, "building")
            return [e, (st, T("built", 0))]
        if name == "replace_tree":
            self.none_held(it, st, node, "the tree is replaced")
            it.oblige("stage", st.g("stage") == Const("replace"), node, f, st, "the tree is replaced in stage {}".format(st.g("stage")))
            it.oblige("stage", st.g("announced") == TRUE, node, f, st, "the tree is replaced without the \"replace\" event")
            st.setg("announced", FALSE)
            k = st.g("taken")
            ok = k == Const("yes") and args and args[0] == T("built", 0)
            it.oblige("taken", ok, node, f, st, "the tree is replaced by {}".format(args))
            e = self.raising(it, st, node, "replacing")
            e[0].setg("touched", TRUE)
            c = next(it.counter)
            rs, re_ = sym(T("r", c, "start")), sym(T("r", c, "end"))
            st.assume(rs, re_ - rs)
            st.setg("taken", NONE)
            out = [e]
            for told in ("no", "last", "early"):
                # whether this round tells the open lexicons, and is the last one that does
                if told != "no" and st.g("lex") == Const("last"):
                    continue
                s = st.copy()
                if told != "no":
                    s.setg("lex", Const(told))
                lx = NONE if told == "no" else T("stable", "lexicons", told)
                if told != "no":
                    s.facts[("isnone", lx)] = False
                r = Tup((rs, re_, lx), self.nt)
                # an earlier range, or this one, is the one that is followed
                if s.g("wit") == TRUE:
                    out.append((s.copy(), r))
                out.append((s.setg("wit", TRUE).setg("ws", rs).setg("we", re_), r))
            return out
        if name in ("process_started", "process_finished", "emit", "peek"):
            self.none_held(it, st, node, "a callback runs")
            if name == "process_finished":
                it.oblige("stage", st.g("stage") == Const("done"), node, f, st, "finished in stage {}".format(st.g("stage")))
                self.at_end(it, st, node, f)
                st.setg("finished", TRUE)
            if name == "process_started":
                it.oblige("stage", st.g("stage") == NONE, node, f, st, "started in stage {}".format(st.g("stage")))
                st.setg("started", TRUE)
            if name == "emit" and args and args[0] == Const("replace"):
                st.setg("announced", TRUE)
            e = self.raising(it, st, node, name)
            return [e, (st, NONE)]
        if recv == T("queue"):
            it.oblige(self.rule, any(self.held(st, n) for n in self.locks), node, f, st, "the queue is changed without the lock")
            if label == ".insert" and len(args) == 2:
                first = it.as_lin(st, args[0])
                st.setg("back", self.kind(it, st, args[1]) if first is not None and st.entails_eq(first) else Const("elsewhere"))
                return [(st, NONE)]
            if label == ".append" and args:
                st.setg("back", Const("elsewhere"))
                return [(st, NONE)]
            if label == ".clear":
                st.setg("back", Const("dropped"))
                return [(st, NONE)]
            st.setg("back", Const("?"))
            return [(st, NONE)]
        if label == "len" and args and isinstance(args[0], Term) and args[0].op == "change":
            return [(st, sym(T("len", args[0], 0)))]

    def kind(self, it, st, v):
        """What is put back: "full" (build everything), "same" (the change as it was), or something else."""
        k = st.g("taken")
        if not isinstance(v, Tup) or len(v.items) != 5 or k != Const("yes"):
            return Const("?")
        k = 0
        ch = lambda n: T("change", k, n)
        text, lex, s, r, a = v.items
        if text != ch("text"):
            return Const("other")
        if list(v.items) == [ch(n) for n in ("text", "root_lexicon", "start", "removed", "added")]:
            return Const("same")
        known = st.facts.get(("isfalse", ch("root_lexicon")))
        if lex == FALSE or lex == ch("root_lexicon") and known is True:
            return Const("other")   # only a part would be built
        if lex == ch("root_lexicon") and known is None:
            return Const("other")
        if lex == T("attr", T("root"), "lexicon", 0) and known is False:
            return Const("other")   # the new root lexicon is forgotten
        s = it.as_lin(st, s)
        if s is None or a == NONE:
            return Const("?")
        return Const("full")

    def compare(self, it, st, op, a, b, node):
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Term) and x.op == "stable" and isinstance(y, Const):
                    return [(st, op in ("NotEq", "IsNot"))]
                if isinstance(x, Term) and x.op == "change" and x.args[1] == "root_lexicon" and y == FALSE:
                    key = ("isfalse", x)
                    pos = op in ("Eq", "Is")
                    if key in st.facts:
                        return [(st, st.facts[key] == pos)]
                    s2 = st.copy()
                    st.facts[key] = True
                    s2.facts[key] = False
                    return [(st, pos), (s2, not pos)]

    def setattr(self, it, st, base, name, val, node):
        if base == self.me and name == "busy" and val == FALSE:
            st.setg("idle", st.g("checked"))

    def on_yield(self, it, st, func, v, node):
        if func is not self.main:
            return None
        st = st.copy()
        self.none_held(it, st, node, "a stage is yielded")
        it.oblige("stage", isinstance(v, Const) and v.v in ("build", "replace", "done") if isinstance(v, Const) else None, node, func, st, "stage {}".format(v))
        st.setg("stage", v)
        return [(self.raising(it, st, node, "the generator is closed or gets an exception")[0], Raised(Exc("any"))), st]

    def at_end(self, it, st, node, f):
        if st.g("wit") == TRUE:
            a, b = (it.as_lin(st, st.heap.get((self.me, n), NONE)) for n in ("start", "end"))
            ws, we = it.as_lin(st, st.g("ws")), it.as_lin(st, st.g("we"))
            it.oblige("range", None if a is None or b is None or ws is None or we is None else st.entails(ws - a) and st.entails(b - we), node, f, st,
                      "the reported range {} to {} does not contain the change from {} to {}".format(a, b, ws, we))
        if st.g("lex") == Const("last"):
            it.oblige("range", st.heap.get((self.me, "lexicons")) == T("stable", "lexicons", "last"), node, f, st, "the open lexicons are not the newest, but {}".format(st.heap.get((self.me, "lexicons"))))


def run_process(factory, P):
    c = P.cls("treebuilder.TreeBuilder")
    f = c.find_method("process")
    if f is None:
        raise model.AnchorLost("TreeBuilder.process")
    me = Obj(0, c, "self")
    h = Proc(me, lock_attrs(c), f)
    it = factory(h)
    m = P.cls("treebuilderutil.Changes").module
    h.nt = it.to_value(State(), P.resolve(m, "ReplaceResult"), m, "ReplaceResult")
    h.nt = h.nt if isinstance(h.nt, NTV) else None
    st = State()
    h.init_locks(st)
    for g in ("taken", "stage", "back", "lex"):
        st.setg(g, NONE)
    st.setg("ws", num(0)).setg("we", num(-1)).setg("weold", num(-1))
    for g in ("wit", "has", "announced", "checked", "idle", "touched", "finished", "started"):
        st.setg(g, FALSE)
    st.heap[(me, "busy")] = TRUE
    st.heap[(me, "start")] = num(0)
    st.heap[(me, "end")] = num(0)
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        exc = isinstance(v, Raised)
        what = "after an exception" if exc else "at the end"
        hs = [n for n in h.locks if h.held(s, n)]
        it.oblige("lock", not hs, f.node, f, s, "{} the lock is still held".format(what))
        it.oblige("busy", s.heap.get((me, "busy")) == FALSE, f.node, f, s, "{} the builder stays busy: it never builds again".format(what))
        if s.g("taken") != NONE:
            b = s.g("back")
            ok = None if b == Const("?") else b == Const("full") or b == Const("same") and s.g("touched") != TRUE
            it.oblige("taken", ok, f.node, f, s, "{} the changes taken from the queue are lost ({})".format(what, b))
        if not exc:
            it.oblige("busy", s.g("idle") == TRUE, f.node, f, s,
                      "the builder stops without having found the queue empty while holding the lock: a change made meanwhile is not handled")
            it.oblige("stage", s.g("stage") == Const("done") and s.g("finished") == TRUE and s.g("started") == TRUE, f.node, f, s, "the end is not announced")


# ---------------------------------------------------------------- asking for a build

TEXT, LEX, START, REMOVED, ADDED = T("in", "text"), T("in", "lexicon"), sym(T("in", "start")), sym(T("in", "removed")), sym(T("in", "added"))


class Ask(Locks):
    opaque = ("start_processing", "Worker.start", "process")

    def __init__(self, me, builder, locks, main):
        self.me, self.builder, self.locks, self.main = me, builder, locks, main

    def attr(self, it, st, base, name):
        if base == self.builder and name in self.locks:
            return T("lock", name)
        if base == self.builder and name == "changes":
            return T("queue")
        if base == self.builder and name == "busy":
            st.setg("asked", st.g("queued"))
            return st.heap.get((self.builder, "busy"))
        if base == self.me and base != self.builder and name in ("_builder", "builder"):
            return self.builder

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        r = self.lock_call(it, st, label, recv, args, node)
        if r is not None:
            return r
        name = label.split(".")[-1]
        if recv == T("queue") and name in ("append", "insert", "extend"):
            it.oblige(self.rule, any(self.held(st, n) for n in self.locks), node, self.main, st, "the queue is changed without the lock")
            v = args[-1]
            want = [TEXT, LEX, START, REMOVED, self.want_added]
            ok = None
            if isinstance(v, Tup) and len(v.items) == 5:
                x = v.items
                l = it.as_lin(st, x[4])
                ok = list(x[:4]) == want[:4] and l is not None and st.entails_eq(l - want[4])
            it.oblige("queued", ok if name == "append" else None, node, self.main, st, "the change is queued as {}".format(v))
            st.setg("queued", TRUE)
            return [(st, NONE)]
        if name in ("start_processing", "start", "process", "run_process"):
            self.none_held(it, st, node, "processing starts")
            it.oblige("queued", st.g("queued") == TRUE, node, self.main, st, "processing starts before the change is queued")
            it.oblige("queued", st.heap.get((self.builder, "busy")) == TRUE, node, self.main, st, "processing starts without marking the builder busy")
            st.setg("runs", num(int(st.g("runs").k) + 1))
            return [(st, NONE)]


def run_ask(factory, P, cls, name, dflt):
    c = P.cls(cls)
    f = c.find_method(name)
    if f is None:
        raise model.AnchorLost(cls + "." + name)
    b = P.cls("treebuilder.TreeBuilder")
    me = Obj(0, c, "self")
    builder = me if c is b else Obj(1, b, "builder")
    for busy in (TRUE, FALSE):
        h = Ask(me, builder, lock_attrs(b), f)
        h.want_added = sym(T("len", TEXT, 0)) - START if dflt else ADDED
        it = factory(h)
        st = State()
        h.init_locks(st)
        st.assume(START, REMOVED, ADDED, sym(T("len", TEXT, 0)))
        st.heap[(builder, "busy")] = busy
        st.setg("queued", FALSE).setg("asked", FALSE).setg("runs", num(0))
        n = f.arg_names()
        if len(n) < 6:
            raise model.AnchorLost(cls + "." + name + " arguments")
        args = dict(zip(n, (me, TEXT, LEX, START, REMOVED, NONE if dflt else ADDED)))
        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), args, None, None):
            if isinstance(v, Raised):
                it.oblige("queued", None, f.node, f, s)
                continue
            it.oblige("queued", s.g("queued") == TRUE, f.node, f, s, "the change is not queued")
            if busy == TRUE:
                it.oblige("queued", s.g("runs") == num(0), f.node, f, s, "processing is started twice at the same time")
                # whether the builder is busy must be found out after the change was queued
                it.oblige("queued", s.g("asked") == TRUE, f.node, f, s,
                          "whether the builder is busy is looked at before the change is queued: it may finish in between, and the change is not handled")
            else:
                it.oblige("queued", s.g("runs") == num(1), f.node, f, s, "processing is started {} times".format(s.g("runs")))


class Changed(Hooks):
    """text_changed(): the change of the text is passed on exactly."""
    opaque = ("update", "rebuild", "text", "Worker.update", "TreeBuilder.rebuild")

    def __init__(self, me, main):
        self.me, self.main = me, main

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        name = label.split(".")[-1]
        if name == "text" and recv == self.me:
            return [(st, TEXT)]
        if name in ("update", "rebuild") and len(args) + len(kwargs) >= 1 and args and args[0] == TEXT or name == "rebuild":
            n = ("text", "root_lexicon", "start", "removed", "added")
            d = {"root_lexicon": FALSE, "start": num(0), "removed": num(0), "added": NONE}
            d.update(zip(n, args))
            d.update({k: v for k, v in kwargs.items() if k in n})
            ok = [d.get(k) for k in n] == [TEXT, FALSE, START, REMOVED, ADDED]
            it.oblige("queued", ok, node, self.main, st, "a changed text is passed on as {}".format(d))
            st.setg("told", num(int(st.g("told").k) + 1))
            return [(st, NONE)]
        if name == "text_changed":
            return [(st, NONE)]


def run_changed(factory, P):
    for m in P.modules.values():
        for c in m.classes.values():
            f = c.methods.get("text_changed")
            if f is None or len(f.arg_names()) != 4:
                continue
            if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "rebuild") for n in ast.walk(f.node)):
                if not any(b.find_method("set_root_lexicon") for b in c.mro() if isinstance(b, model.Class)):
                    continue
            me = Obj(0, c, "self")
            h = Changed(me, f)
            it = factory(h)
            st = State()
            st.assume(START, REMOVED, ADDED)
            st.setg("told", num(0))
            for s, v in it.run_fn(st, FnV(f, None, None, f.cls), dict(zip(f.arg_names(), (me, START, REMOVED, ADDED))), None, None):
                if not isinstance(v, Raised):
                    it.oblige("queued", s.g("told") == num(1), f.node, f, s, "a changed text is passed on {} times".format(s.g("told")))


class Root(Locks):
    """set_root_lexicon(): an update is asked for, unless nothing is going on and the lexicon is there already."""
    opaque = ("update", "rebuild", "text", "Worker.update", "TreeBuilder.rebuild")

    def __init__(self, me, worker, builder, main):
        self.me, self.worker, self.builder, self.main = me, worker, builder, main

    def attr(self, it, st, base, name):
        if base == self.me and name == "_worker":
            return self.worker
        if base == self.worker and name == "_builder":
            return self.builder
        if base == self.worker and name == "_condition":
            return T("condition")
        if base == self.worker and name == "_tree_state":
            return T("tree state")
        if base == self.builder and name == "root":
            return T("root")
        if base == T("root") and name == "lexicon":
            return T("lexicon")

    def compare(self, it, st, op, a, b, node):
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            for x, y in ((a, b), (b, a)):
                k = None
                if x == T("lexicon") and y == T("in", "root_lexicon"):
                    k = "same"
                elif x == T("tree state") and y in (num(0), Const(0)):
                    k = "idle"
                if k:
                    s2 = st.copy()
                    return [(st.setg(k, TRUE), op in ("Eq", "Is")), (s2.setg(k, FALSE), op not in ("Eq", "Is"))]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        name = label.split(".")[-1]
        if name == "text" and recv == self.me:
            return [(st, TEXT)]
        if name == "worker" and recv == self.me:
            return [(st, self.worker)]
        if name == "builder" and recv in (self.me, self.worker):
            return [(st, self.builder)]
        if name in ("update", "rebuild") and args:
            n = ("text", "root_lexicon", "start", "removed", "added")
            d = {"root_lexicon": FALSE, "start": num(0), "removed": num(0), "added": NONE}
            d.update(zip(n, args))
            d.update({k: v for k, v in kwargs.items() if k in n})
            it.oblige("queued", [d.get(k) for k in n] == [TEXT, T("in", "root_lexicon"), num(0), num(0), NONE], node, self.main, st,
                      "a new root lexicon is passed on as {}".format(d))
            st.setg("told", TRUE)
            return [(st, NONE)]


def run_root(factory, P):
    for m in P.modules.values():
        for c in m.classes.values():
            f = c.methods.get("set_root_lexicon")
            if f is None or len(f.arg_names()) != 2:
                continue
            if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "rebuild") for n in ast.walk(f.node)):
                continue
            me, w, b = Obj(0, c, "self"), Obj(1, P.cls("work.Worker"), "worker"), Obj(2, P.cls("treebuilder.TreeBuilder"), "builder")
            h = Root(me, w, b, f)
            it = factory(h)
            st = State()
            st.setg("told", FALSE).setg("same", NONE).setg("idle", NONE)
            for s, v in it.run_fn(st, FnV(f, None, None, f.cls), dict(zip(f.arg_names(), (me, T("in", "root_lexicon")))), None, None):
                if isinstance(v, Raised) or s.g("told") == TRUE:
                    continue
                other = s.g("same") == FALSE
                ok = s.g("same") == TRUE and s.g("idle") == TRUE
                src = ast.unparse(f.node)
                if not ok and not other and s.g("idle") == NONE and any(x in src for x in ("busy", "state", "idle", "get_root", "wait")):
                    ok = None       # asks in another way whether something is going on
                it.oblige("queued", ok, f.node, f, s,
                          "a new root lexicon is not used" if other else "the root lexicon of a tree that is going to be replaced is taken for the newest")


def run(ctx):
    P = ctx.program
    ctx.rule("lock", "the queue of changes is only touched while holding the lock; no callback, stage or build runs while holding it; it is released on every path")
    ctx.rule("busy", "the builder is idle after every way processing can end, and only with an empty queue")
    ctx.rule("taken", "changes that were taken from the queue are built into the tree, or put back")
    ctx.rule("stage", "building happens in the build stage, replacing in the replace stage")
    ctx.rule("range", "the reported range contains the range of every change, and the open lexicons are the newest")
    ctx.rule("queued", "asking for an update queues the change first, and starts processing exactly if the builder is idle")
    ctx.analyse(lambda fa: run_process(fa, P))
    for cls, name in (("treebuilder.TreeBuilder", "rebuild"), ("work.Worker", "update")):
        for d in (False, True):
            ctx.analyse(lambda fa: run_ask(fa, P, cls, name, d))
    ctx.analyse(lambda fa: run_changed(fa, P))
    ctx.analyse(lambda fa: run_root(fa, P))
    ctx.floor("taken", 1)
    ctx.floor("busy", 1)
    ctx.floor("queued", 2)
