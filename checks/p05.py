"""P05: nobody waits forever, gets an unfinished tree, or sees the state of an outdated job."""
import ast
from pa.interp import *
from pa import model
from .locks import Locks, lock_attrs

TREE, TRANS, JOB, TFORM = "_tree_state", "_transform_state", "_job", "_transformer"
STATES = (0, 1, 3, 4)


def tf(n):
    return T("stable", "transformer", n)


def names(P):
    """The states of a worker, from the module: {name: number}."""
    c = P.cls("work.Worker")
    out = {}
    for n, e in c.module.assigns.items():
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            out[n] = e.value
    return out


class Work(Locks):
    def __init__(self, me, builder, locks, main):
        self.me, self.builder, self.locks, self.main = me, builder, locks, main
        self.cond = [n for n, k in locks.items() if k == "Condition"]
        self.other = [n for n, k in locks.items() if k != "Condition"]

    def in_cond(self, st):
        return any(self.held(st, n) for n in self.cond)

    def raising(self, st, node, what):
        s = st.copy()
        s.note(getattr(node, "lineno", 0), "raises", what)
        return (s, Raised(Exc("any")))

    def compare(self, it, st, op, a, b, node):
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            sa, sb = (isinstance(x, Term) and x.op == "stable" for x in (a, b))
            x, y = (v.v if isinstance(v, Const) and type(v.v) is int else int(v.k) if isinstance(v, Lin) and v.const else None for v in (a, b))
            if x is not None and y is not None:
                return [(st, (x == y) == (op in ("Eq", "Is")))]
            if sa and sb or sa and b == NONE or sb and a == NONE:
                return [(st, (a == b) == (op in ("Eq", "Is")))]

    def busy_state(self, v):
        return isinstance(v, (Const, Lin)) and (v.v if isinstance(v, Const) else int(v.k)) & 3 != 0

    def truth_tf(self, st):
        for n in "AB":
            st.facts[("truth", tf(n))] = True
            st.facts[("isnone", tf(n))] = False


class Proc(Work):
    """Worker.process(). Ghosts: job (own, newer, or not looked at while the condition is held),
    building, note (waiters were notified after the last change of a state), cur (the transformer),
    ran (the transformer that ran last)."""
    max_heads = 400
    max_states = 1500
    opaque = ("emit", "start_build", "finish_build", "finish_transform", "TreeBuilder.process", "Transformer.process")

    def attr(self, it, st, base, name):
        l = self.lock_attr(base, name)
        if l is not None:
            return l
        if base == self.me and name in ("_builder",):
            return self.builder
        if base == self.builder and name == "root":
            return T("root")

    def getjob(self, it, st):
        if st.g("first") == FALSE:
            return None

    def on_release(self, it, st, name, node):
        if name in self.cond:
            if st.g("job") == Const("own"):
                st.setg("job", Const("unseen"))
            if st.g("dirty") == TRUE:
                st.setg("stale", TRUE)      # waiters were not told
            st.setg("dirty", FALSE)

    def setattr(self, it, st, base, name, val, node):
        if base == self.me and name in (TREE, TRANS):
            f = self.main
            it.oblige("condition", self.in_cond(st), node, f, st, "{} is changed without the condition".format(name))
            it.oblige("job", st.g("job") == Const("own"), node, f, st, "{} is changed by a process that may be outdated".format(name))
            st.setg("dirty", TRUE)
            if name == TREE:
                st.setg("untold", TRUE)
            if name == TREE and not self.busy_state(val):
                st.setg("stale", FALSE)
                zero = val in (num(0), Const(0))
                it.oblige("wait", not (zero and st.g("building") == TRUE), node, f, st, "the tree counts as ready while it is being built")
        if base == self.builder and name == "busy":
            st.setg("busy", val)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        r = self.lock_call(it, st, label, recv, args, node)
        if r is not None:
            return r
        f = self.main
        name = label.split(".")[-1]
        if self.lock_of(recv) is not None and name in ("notify_all", "notify"):
            it.oblige("condition", self.in_cond(st), node, f, st, "waiters are notified without the condition")
            if name == "notify_all":
                st.setg("dirty", FALSE).setg("stale", FALSE).setg("untold", FALSE)
            return [(st, NONE)]
        if name in ("start_build", "finish_build", "finish_transform", "emit"):
            self.none_held(it, st, node, "a callback runs")
            if name == "finish_build":
                it.oblige("wait", st.g("built") == TRUE, node, f, st, "the end of the build is announced before it")
                st.setg("told", TRUE)
            if name == "finish_transform":
                it.oblige("transformer", st.g("ran") == st.g("cur") or st.g("cur") == NONE and st.g("ran") != NONE, node, f, st,
                          "the end of the transform is announced, but the transformer did not run")
                st.setg("toldt", TRUE)
            return [self.raising(st, node, name), (st, NONE)]
        if name == "process" and recv == self.builder:
            self.none_held(it, st, node, "the tree is built")
            return [(st, T("stages", "build"))]
        if name == "process" and isinstance(recv, Term) and recv.op == "stable":
            self.none_held(it, st, node, "the transformer runs")
            it.oblige("transformer", args and args[0] == T("root"), node, f, st, "the transformer gets {}".format(args))
            it.oblige("wait", st.g("untold") != TRUE, node, f, st, "the transformer runs, but who waits for the tree is not told that it is built")
            it.oblige("transformer", st.g("built") == TRUE, node, f, st, "the transformer runs before the tree is built")
            st.setg("ran", recv).setg("looked", FALSE)
            return [(st, T("stages", "transform"))]
        if label == ".get" and args and isinstance(args[0], Const):
            return None

    def iter_start(self, it, st, seq, node):
        if isinstance(seq, Term) and seq.op == "stages" and seq.args[0] == "build":
            st.setg("building", TRUE).setg("entered", TRUE)

    def iter_elem(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and seq.op == "stages":
            out = []
            for n in ("build", "replace", "done"):
                out.append((st.copy(), Const(n)))
            return out

    def iter_done(self, it, st, seq, k, node):
        if isinstance(seq, Term) and seq.op == "stages":
            if seq.args[0] == "build":
                st.setg("building", FALSE).setg("built", TRUE)
            return [st]

    def on_yield(self, it, st, func, v, node):
        if func is not self.main:
            return None
        st = st.copy()
        self.none_held(it, st, node, "a stage is yielded")
        e = self.raising(st, node, "the generator is closed, or the build fails")
        e[0].setg("building", FALSE)
        return [e, st]


def add_reads(h, it):
    """Reading the job number and the transformer: another thread may have changed them."""
    orig = it.hooks.attr

    def ev_attr(node, st, fr, _orig=it.ev_Attribute):
        out = []
        for s, v in _orig(node, st, fr):
            out.extend(reads(node, s, v, fr))
        return out

    def reads(node, s, v, fr):
        if node.attr == JOB and v == T("stable", "job"):
            if s.g("job") == Const("first"):
                s = s.copy().setg("job", Const("unseen"))
                return [(s, v)]
            if s.g("job") == Const("own"):
                return [(s, v)]
            if s.g("job") == Const("newer"):
                return [(s, T("stable", "newer job"))]
            a, b = s.copy(), s.copy()
            a.setg("job", Const("own" if h.in_cond(s) else "unseen"))
            b.setg("job", Const("newer")).setg("dirty", FALSE).setg("stale", FALSE).setg("untold", FALSE)
            b.heap[(h.me, TREE)] = b.heap[(h.me, TRANS)] = Const(1)
            return [(a, v), (b, T("stable", "newer job"))]
        if node.attr == TFORM and isinstance(v, Term) and v == T("stable", "the transformer"):
            cur = s.g("cur")
            held = any(h.held(s, n) for n in h.other)
            if s.g("seen") == TRUE and held:
                return [(s, cur)]
            it.oblige("transformer", held, node, h.main, s, "the transformer is looked up without its lock")
            out = []
            for x in (tf("A"), tf("B"), NONE):
                out.append((s.copy().setg("cur", x).setg("seen", TRUE).setg("looked", TRUE), x))
            return out
        return [(s, v)]
    it.ev_Attribute = ev_attr


def run_process(factory, P):
    c = P.cls("work.Worker")
    f = c.find_method("process")
    if f is None:
        raise model.AnchorLost("Worker.process")
    me, builder = Obj(0, c, "self"), Obj(1, P.cls("treebuilder.TreeBuilder"), "builder")
    h = Proc(me, builder, lock_attrs(c), f)
    rel = h.on_release

    def on_release(it, st, name, node):
        rel(it, st, name, node)
        if name in h.other:
            st.setg("seen", FALSE)
    h.on_release = on_release
    it = factory(h)
    add_reads(h, it)
    st = State()
    h.init_locks(st)
    h.truth_tf(st)
    st.heap[(me, TREE)] = Const(1)
    st.heap[(me, TRANS)] = Const(1)
    st.heap[(me, JOB)] = T("stable", "job")
    st.heap[(me, TFORM)] = T("stable", "the transformer")
    st.heap[(builder, "busy")] = TRUE
    st.setg("job", Const("first")).setg("cur", NONE).setg("ran", NONE).setg("busy", TRUE)
    for g in ("building", "built", "dirty", "stale", "untold", "told", "toldt", "seen", "entered", "looked"):
        st.setg(g, FALSE)
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        exc = isinstance(v, Raised)
        what = "after an exception" if exc else "at the end"
        hs = [n for n in h.locks if h.held(s, n)]
        it.oblige("lock", not hs, f.node, f, s, "{} a lock is still held".format(what))
        if s.g("job") != Const("newer"):
            a, b = s.heap.get((me, TREE)), s.heap.get((me, TRANS))
            zero = (num(0), Const(0))
            it.oblige("wait", a in zero and b in zero, f.node, f, s,
                      "{} the states are {} and {}: who waits for the tree or the transform waits forever".format(what, a, b))
            it.oblige("wait", s.g("dirty") != TRUE and s.g("stale") != TRUE, f.node, f, s, "{} the waiting threads are not notified".format(what))
        if exc and s.g("entered") != TRUE:
            it.oblige("wait", s.heap.get((builder, "busy")) == FALSE, f.node, f, s, "the builder stays busy, but is not processing")
        if not exc:
            it.oblige("wait", s.g("built") == TRUE and s.g("told") == TRUE, f.node, f, s, "the end of the build is not announced")
            cur = s.g("cur")
            it.oblige("transformer", s.g("looked") == TRUE, f.node, f, s, "a transformer that was set while another one ran is not run")
            it.oblige("transformer", cur == NONE or s.g("ran") == cur and s.g("toldt") == TRUE, f.node, f, s, "the transformer did not run, or its end is not announced")


# ---------------------------------------------------------------- waiting and asking

class Ask(Work):
    opaque = ("connect", "start", "result", "emit")

    def attr(self, it, st, base, name):
        l = self.lock_attr(base, name)
        if l is not None:
            return l
        if base == self.me and name == "_builder":
            return self.builder
        if base == self.builder and name == "root":
            st.setg("rootread", TRUE)
            return T("root")
        if base == self.me and name in (TREE, TRANS) and self.main.name != "__init__":
            it.oblige("condition", self.in_cond(st), None, self.main, st, "{} is read without the condition".format(name))

    def setattr(self, it, st, base, name, val, node):
        if base == self.me and name in (TREE, TRANS, JOB):
            it.oblige("condition", self.in_cond(st), node, self.main, st, "{} is changed without the condition".format(name))

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        r = self.lock_call(it, st, label, recv, args, node)
        if r is not None:
            return r
        name = label.split(".")[-1]
        if self.lock_of(recv) is not None and name in ("wait", "wait_for"):
            it.oblige("condition", self.in_cond(st), node, self.main, st, "waiting without the condition")
            out = []
            for v in STATES:
                for w in STATES:
                    s = st.copy()
                    s.heap[(self.me, TREE)] = Const(v)
                    s.heap[(self.me, TRANS)] = Const(w)
                    if name == "wait_for":
                        pred = args[0] if args else NONE
                        if not isinstance(pred, FnV):
                            s.unk = s.unk + ("wait_for",)
                            out.append((s, TRUE))
                            continue
                        for s2, r in it.call_fn(s, pred, [], {}, node, it.stack[-1]):
                            if isinstance(r, Raised):
                                out.append((s2, r))
                                continue
                            for s3, b in it.truth(s2, r, node):
                                if b:
                                    out.append((s3, TRUE))
                    else:
                        out.append((s, NONE))
            return out
        if name == "connect":
            ev = args[0] if args else NONE
            once = args[2] if len(args) > 2 else kwargs.get("once", FALSE)
            st.setg("connected", Tup((ev, args[1] if len(args) > 1 else NONE, once)))
            return [(st, NONE)]
        if name == "start" and recv == self.me or name == "run_process":
            self.none_held(it, st, node, "processing starts")
            st.setg("starts", num(int(st.g("starts").k) + 1))
            if name == "run_process":
                st.setg("at start", Tup(tuple(st.heap.get((self.me, n), NONE) for n in (TREE, TRANS))))
            return [(st, NONE)]
        if name == "result":
            return [(st, T("result", *[a for a in args if isinstance(a, (Term, V))]))]


def setup(factory, P, name, tree, trans, tform):
    c = P.cls("work.Worker")
    f = c.find_method(name)
    if f is None:
        raise model.AnchorLost("Worker." + name)
    me, builder = Obj(0, c, "self"), Obj(1, P.cls("treebuilder.TreeBuilder"), "builder")
    h = Ask(me, builder, lock_attrs(c), f)
    it = factory(h)
    st = State()
    h.init_locks(st)
    h.truth_tf(st)
    st.heap[(me, TREE)] = Const(tree)
    st.heap[(me, TRANS)] = Const(trans)
    st.heap[(me, JOB)] = sym(T("in", "job"))
    st.heap[(me, TFORM)] = tform
    st.setg("connected", NONE).setg("starts", num(0)).setg("rootread", FALSE).setg("at start", NONE)
    return f, me, h, it, st


def ended(h, it, f, s, v):
    if isinstance(v, Raised):
        it.oblige("wait", None, f.node, f, s)
        return False
    hs = [n for n in h.locks if h.held(s, n)]
    it.oblige("lock", not hs, f.node, f, s, "at the end a lock is still held")
    return True


def run_wait(factory, P):
    for name, attr in (("wait_build", TREE), ("wait_transform", TRANS)):
        for v0 in STATES:
            f, me, h, it, st = setup(factory, P, name, v0, v0, tf("A"))
            for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
                if ended(h, it, f, s, v):
                    it.oblige("wait", not h.busy_state(s.heap[(me, attr)]), f.node, f, s, "waiting ended in state {}".format(s.heap[(me, attr)]))


def run_get(factory, P):
    cb = T("in", "callback")
    for name, attr, event in (("get_root", TREE, "tree_finished"), ("get_transform", TRANS, "transform_finished")):
        for v0 in STATES:
            for wait in (TRUE, FALSE):
                for callback in (cb, NONE):
                    for t in ((tf("A"), NONE) if name == "get_transform" else (tf("A"),)):
                        f, me, h, it, st = setup(factory, P, name, v0, v0, t)
                        st.facts[("truth", cb)] = True
                        st.facts[("isnone", cb)] = False
                        n = f.arg_names()
                        want = T("root") if name == "get_root" else T("result", T("root"))
                        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), dict(zip(n, (me, wait, callback))), None, None):
                            if not ended(h, it, f, s, v):
                                continue
                            if t == NONE:
                                it.oblige("get", v == NONE and s.g("connected") == NONE, f.node, f, s, "without a transformer, {} is returned".format(v))
                                continue
                            pending = bool(v0 & 3)
                            how = "{} wait={} {} a callback".format("pending" if pending else "ready", wait, "with" if callback == cb else "without")
                            conn = s.g("connected")
                            if pending and callback == cb:
                                it.oblige("get", isinstance(conn, Tup) and conn.items[0] == Const(event) and conn.items[1] == cb and conn.items[2] == TRUE, f.node, f, s,
                                          "{}: the callback is not connected to {} once, but {}".format(how, event, conn))
                            else:
                                it.oblige("get", conn == NONE, f.node, f, s, "{}: something is connected: {}".format(how, conn))
                            if pending and wait == FALSE:
                                it.oblige("get", v == NONE, f.node, f, s, "{}: {} is returned".format(how, v))
                            else:
                                it.oblige("get", v == want and not h.busy_state(s.heap[(me, attr)]), f.node, f, s,
                                          "{}: {} is returned in state {}".format(how, v, s.heap[(me, attr)]))


def run_start(factory, P):
    for t in (tf("A"), NONE):
        for tree in STATES:
            for trans in STATES:
                f, me, h, it, st = setup(factory, P, "start", tree, trans, t)
                h.opaque = ("connect", "result", "emit", "run_process")
                for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
                    if not ended(h, it, f, s, v):
                        continue
                    a = s.g("at start")
                    ok = isinstance(a, Tup) and s.g("starts") == num(1)
                    it.oblige("start", ok, f.node, f, s, "the process is run {} times".format(s.g("starts")))
                    if ok:
                        it.oblige("start", h.busy_state(a.items[0]), f.node, f, s, "the process runs with tree state {}: nobody waits for it".format(a.items[0]))
                        if t != NONE and trans != 4:
                            it.oblige("start", h.busy_state(a.items[1]), f.node, f, s, "the process runs with transform state {}: nobody waits for it".format(a.items[1]))
                    j = it.as_lin(s, s.heap[(me, JOB)])
                    it.oblige("job", j is not None and s.entails(j - sym(T("in", "job")) - 1), f.node, f, s, "the job gets no new number, but {}".format(j))


def run_set(factory, P):
    for tree in STATES:
        for trans in STATES:
            for new in (tf("B"), NONE, tf("A")):
                f, me, h, it, st = setup(factory, P, "set_transformer", tree, trans, tf("A"))
                for s, v in it.run_fn(st, FnV(f, None, None, f.cls), dict(zip(f.arg_names(), (me, new))), None, None):
                    if not ended(h, it, f, s, v):
                        continue
                    it.oblige("transformer", s.heap[(me, TFORM)] == new, f.node, f, s, "the transformer is not set")
                    if new == tf("A"):
                        continue
                    going = bool((tree | trans) & 3)
                    if going:
                        it.oblige("transformer", s.g("starts") == num(0), f.node, f, s, "a second process is started")
                        if new != NONE and trans != 4:
                            it.oblige("wait", h.busy_state(s.heap[(me, TRANS)]), f.node, f, s, "the new transformer has not run, but nobody waits for it")
                    elif new != NONE:
                        it.oblige("transformer", s.g("starts") == num(1), f.node, f, s, "the new transformer is not run")


# ---------------------------------------------------------------- what the builder tells the transformer

class Slots(Hooks):
    """Worker.__init__ and the methods it connects with the tree builder."""
    opaque = ("connect", "invalidate_node", "interrupt")

    def __init__(self, me, builder, t):
        self.me, self.builder, self.t = me, builder, t

    def attr(self, it, st, base, name):
        if base == self.me and name == "_builder":
            return self.builder
        if base == self.me and name == TFORM and (self.me, TFORM) not in st.heap:
            return self.t
        if base == self.builder and name == "root":
            return T("root")

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        name = label.split(".")[-1]
        if name == "connect" and recv == self.builder:
            b = dict(zip(("event", "slot", "once", "prepend_self"), args))
            b.update(kwargs)
            st.setg("calls", Tup(st.g("calls").items + (Tup([b.get("event", NONE), b.get("slot", NONE), b.get("once", FALSE), b.get("prepend_self", FALSE)]),)))
            return [(st, NONE)]
        if name in ("invalidate_node", "interrupt"):
            st.setg("did", Tup(st.g("did").items + (Tup([Const(name), recv] + list(args)),)))
            return [(st, NONE)]


def run_slots(factory, P):
    c = P.cls("work.Worker")
    me, builder, t = Obj(0, c, "self"), Obj(1, P.cls("treebuilder.TreeBuilder"), "builder"), tf("A")
    f = c.find_method("__init__")
    h = Slots(me, builder, t)
    it = factory(h)
    st = State()
    st.setg("calls", Tup([])).setg("did", Tup([]))
    slots = {}
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), dict(zip(f.arg_names(), (me, builder, t))), None, None):
        if isinstance(v, Raised):
            continue
        for e, slot, once, pre in (x.items for x in s.g("calls").items):
            if not isinstance(e, Const) or not isinstance(slot, FnV) or slot.self_ != me or pre != FALSE:
                it.oblige("told", None, f.node, f, s)
                return
            if e.v in ("invalidate", "replace"):
                it.oblige("told", once == FALSE, f.node, f, s, "the transformer is told only once of {}".format(e.v))
                slots.setdefault(e.v, []).append(slot)
        for e in ("invalidate", "replace"):
            it.oblige("told", e in slots, f.node, f, s, "the transformer is not told when the builder emits {}".format(e))
    node = T("in", "invalid node")
    st0 = State()
    st0.facts[("truth", t)] = True
    st0.facts[("isnone", t)] = False
    for e, ss in sorted(slots.items()):
        args = [node] if e == "invalidate" else []
        exp = Tup([Const("invalidate_node"), t, node]) if args else Tup([Const("interrupt"), t, T("root")])
        g = ss[0].func
        n = g.arg_names()
        if len(ss) != 1 or len(n) != len(args) + 1:
            continue
        for has in (True, False):
            h = Slots(me, builder, t if has else NONE)
            it = factory(h)
            st = st0.copy().setg("calls", Tup([])).setg("did", Tup([]))
            for s, v in it.run_fn(st, FnV(g, None, None, g.cls), dict(zip(n, [me] + args)), None, None):
                if isinstance(v, Raised):
                    it.oblige("told", None, g.node, g, s)
                    continue
                d = s.g("did").items
                if has:
                    it.oblige("told", exp in d, g.node, g, s, "the transformer is not told of {}, but {}".format(e, d))


def run(ctx):
    P = ctx.program
    n = names(P)
    c = P.cls("work.Worker")
    if sorted(x for x in n.values()) != [0, 1, 3, 4]:
        ctx.unknown("states", "work", "the states of a worker are not the known ones")
        return
    src = " ".join(ast.unparse(f.node) for f in c.methods.values())
    for a in (TREE, TRANS, JOB, TFORM):
        if a not in src:
            ctx.unknown("states", a, "the attribute {} is not used any more".format(a))
            return
    ctx.rule("condition", "the states are only read and changed, waited for and notified while holding the condition")
    ctx.rule("lock", "no callback, build, transform or stage runs while a lock is held; locks are released on every path")
    ctx.rule("job", "a process only changes the states if no newer job was started, as found out while holding the condition")
    ctx.rule("wait", "whatever happens, after the process the states are idle and all waiting threads are notified; waiting ends only when ready")
    ctx.rule("transformer", "the newest transformer has been run on the new tree when the process ends")
    ctx.rule("get", "a tree or transform is only returned when ready; otherwise the callback is called when it is")
    ctx.rule("start", "before a process starts, the states tell that it is pending")
    ctx.rule("told", "the transformer is told which nodes became invalid and when the tree is replaced")
    ctx.analyse(lambda fa: run_slots(fa, P))
    ctx.analyse(lambda fa: run_process(fa, P), budget=3000000)
    ctx.analyse(lambda fa: run_wait(fa, P))
    ctx.analyse(lambda fa: run_get(fa, P))
    ctx.analyse(lambda fa: run_start(fa, P))
    ctx.analyse(lambda fa: run_set(fa, P))
    ctx.floor("wait", 3)
    ctx.floor("get", 2)
