"""P07: position lookups in a tree return the documented boundary."""
from pa.interp import *
from pa import model

FLIP = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}


class Spec:
    def __init__(self, func, measure, rel, shift, kind):
        self.func, self.measure, self.rel, self.shift, self.kind = func, measure, rel, shift, kind


# measure: what a child is compared by; rel: the comparison (measure rel pos) that
# holds for exactly the first children; shift: 0 = first child for which it does
# not hold, -1 = last child for which it holds.
SPECS = [
    Spec("tree.Context.find", "end", "LtE", 0, "index"),
    Spec("tree.Context.find_left", "pos", "Lt", -1, "index"),
    Spec("tree.Context.find_token", "end", "LtE", 0, "token"),
    Spec("tree.Context.find_token_with_trail", "end", "LtE", 0, "trail"),
    Spec("tree.Context.find_token_left", "pos", "Lt", -1, "token"),
    Spec("tree.Context.find_token_left_with_trail", "pos", "Lt", -1, "trail"),
    Spec("tree.Context.find_token_after", "lastpos", "Lt", 0, "token"),
    Spec("tree.Context.find_token_before", "firstend", "LtE", -1, "token"),
    Spec("treebuilderutil.find_token_before", "firstend", "LtE", -1, "token"),
    Spec("tree.Context.find_context", "end", "LtE", 0, "context"),
    Spec("tree.Node.parent_index", "pos", "Lt", 0, "parent"),
]


class H(Hooks):
    opaque = ("Context.first_token", "Context.last_token", "Context.pos", "Context.end", "Token.end",
              "Node.parent", "Token.pos")
    searches = ("Context.find", "Context.find_left")

    def __init__(self, spec, ctxcls, pos):
        self.spec, self.ctxcls, self.pos = spec, ctxcls, pos
        self.root = None
        self.preds = {"sel": self.sel}
        if spec.kind != "index":
            self.opaque = self.opaque + self.searches
        self.extra_refs = []

    # ---- types: anything reached by subscripting a node is a node
    def typeof(self, it, st, v):
        if v == self.root:
            return self.ctxcls
        if isinstance(v, Term):
            if v.op == "item" or v.op == "havoc" or v.op == "call":
                if st.facts.get(("truth", self.isctx(v))) or ("pred", "sel", v) in st.facts \
                        or isinstance(v, Term) and v.op == "item" and self.is_node(v.args[0]):
                    return self.ctxcls
        return None

    def is_node(self, v):
        while isinstance(v, Term) and v.op in ("item", "content"):
            v = v.args[0]
        return v == self.root or isinstance(v, Term) and v.op in ("havoc", "attr")

    def isctx(self, v):
        return T("attr", v, "is_context", 0)

    def bound(self, it, st, base):
        b = sym(T("bound", base))
        n = it.len_of(st, base)
        st.assume(b, n - b)
        # a selected child contains the boundary itself
        if base != self.root and self.sel(it, st, base):
            if self.spec.shift == 0:
                st.assume(n - b - 1)
            else:
                st.assume(b - 1)
        if b not in self.extra_refs:
            self.extra_refs.append(b)
        return b

    def sel(self, it, st, v):
        """v is self, or the child at the boundary of a selected context."""
        if v == self.root:
            return True
        if not isinstance(v, Term):
            return False
        if st.facts.get(("pred", "sel", v)):
            return True
        if v.op == "item":
            base, idx = v.args[0], v.args[1]
            if isinstance(base, Term) and base.op == "content":
                base = base.args[0]
            if self.sel(it, st, base) and isinstance(idx, Lin):
                b = self.bound(it, st, base)
                return st.entails_eq(idx - b - self.spec.shift)
        return False

    def attr(self, it, st, base, name):
        if name in ("is_context", "is_token") and isinstance(base, Term):
            if st.facts.get(("pred", "sel", base)) and False:
                return None
            f = st.facts.get(("truth", self.isctx(base)))
            if name == "is_token":
                if f is not None:
                    return Const(not f)
                return T("attr", base, "is_token", 0)
            return T("attr", base, "is_context", 0)
        if name == "is_context" and base == self.root:
            return TRUE
        if name == "is_token" and base == self.root:
            return FALSE
        if name in ("pos", "end", "parent", "_parent"):
            return T("attr", base, name, 0)
        return None

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label.endswith((".find", ".find_left")) and len(args) == 1 and self.spec.kind != "index":
            # contract, verified on its own
            left = label.endswith("left")
            mr = ("pos", "Lt") if left else ("end", "LtE")
            if mr == (self.spec.measure, self.spec.rel) and args[0] in (self.pos, sym(self.pos)):
                b = self.bound(it, st, recv)
            else:
                b = sym(T("bound", recv, *mr, args[0]))
                st.assume(b, it.len_of(st, recv) - b)
            n = it.len_of(st, recv)
            if left:
                return [(st, b - 1)]
            res = []
            for s, t in it.split_lin(st, n - b - 1, b - n):
                res.append((s, b if t else num(-1)))
            return res
        if label.endswith(".first_token") or label.endswith(".last_token"):
            return [(st, T("first" if "first" in label else "last", recv))]
        if label == ".append" and isinstance(recv, Obj) and recv.cls == "list" and args:
            if self.spec.kind == "trail":
                ok = False
                x = args[0]
                for t in [T_ for T_, _ in x.c if isinstance(T_, Term) and T_.op == "bound"] if isinstance(x, Lin) else ():
                    if self.sel(it, st, t.args[0]) and st.entails_eq(x - sym(t) - self.spec.shift):
                        ok = True
                it.oblige("trail", ok, node, it.stack[-1].func, st,
                          "an index that is not the child's boundary index is added to the trail")
        if label == "len" and len(args) == 1 and (args[0] == self.root or isinstance(args[0], Term)
                                                  and args[0].op in ("item", "havoc")):
            self.bound(it, st, args[0])
        return None

    def measure(self, st, x):
        """Return (base, idx) if x is the expected measure of a child."""
        if not (isinstance(x, Term) and x.op == "attr"):
            return None
        n, name = x.args[0], x.args[1]
        via = None
        if isinstance(n, Term) and n.op in ("first", "last"):
            via, n = n.op, n.args[0]
        if not (isinstance(n, Term) and n.op == "item" and isinstance(n.args[1], Lin)):
            return None
        f = st.facts.get(("truth", self.isctx(n)))
        if f is None:
            t = st.facts.get(("truth", T("attr", n, "is_token", 0)))
            f = None if t is None else not t
        m = self.spec.measure
        ok = False
        if m == "end":
            ok = name == "end" and via in (None, "last")
        elif m == "pos":
            ok = name == "pos" and via in (None, "first")
        elif m == "lastpos":
            ok = name == "pos" and (via == "last" or via is None and f is False)
        elif m == "firstend":
            ok = name == "end" and (via == "first" or via is None and f is False)
            # "first_token() or n": an empty context has no first token
            if name == "end" and via is None and f is True and \
                    st.facts.get(("truth", T("first", n))) is False:
                return "skip"
        if not ok:
            return None
        base = n.args[0]
        if isinstance(base, Term) and base.op == "content":
            base = base.args[0]
        return base, n.args[1]

    def compare(self, it, st, op, a, b, node):
        if op not in FLIP:
            return None
        for x, y, o in ((a, b, op), (b, a, FLIP[op])):
            m = self.measure(st, x)
            if m == "skip":
                return []
            if m is None or y != self.pos:
                continue
            base, idx = m
            rel, neg = o, False
            if rel in ("Gt", "GtE"):
                rel, neg = ("LtE" if rel == "Gt" else "Lt"), True
            if rel != self.spec.rel:
                continue
            s = st.copy()
            bd = self.bound(it, s, base)
            return [(s2, t != neg) for s2, t in it.split_lin(s, bd - idx - 1, idx - bd)]
        return None


def run_one(factory, prog, spec):
    f = prog.func(spec.func)
    ctxcls = prog.cls("tree.Context")
    root = Obj(0, ctxcls, "self")
    pos = T("in", "pos")
    h = H(spec, ctxcls, pos)
    it = factory(h)
    st = State()
    names = f.arg_names()
    if spec.kind == "parent":
        me = T("in", "self")
        root = T("attr", me, "parent", 0)
        h.root = root
        pos = T("attr", me, "pos", 0)
        h.pos = pos
        bound = {names[0]: me}
    else:
        h.root = root
        bound = {names[0]: root, names[1]: pos}
    b = h.bound(it, st, root)
    n = it.len_of(st, root)
    name = spec.func.split(".")[-1]
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), bound, None, None):
        node = f.node
        if isinstance(v, Raised):
            it.oblige(spec.kind, False, node, f, s, "may raise " + v.exc.name)
            continue
        sh = spec.shift
        if spec.kind == "index":
            ok = isinstance(v, Lin) and s.entails_eq(v - b - sh) if sh else \
                isinstance(v, Lin) and (s.entails_eq(v - b) and s.entails(n - b - 1) or v == num(-1) and s.entails_eq(b - n))
            it.oblige("index", bool(ok), node, f, s, "returns {} where the boundary index is expected".format(v))
        elif spec.kind == "parent":
            ok = isinstance(v, Lin) and s.entails_eq(v - b)
            if not ok and isinstance(v, Lin):
                me = bound[names[0]]
                for k, val in s.facts.items():
                    if val is True and k[0] == "is" and me in k[1:]:
                        o = k[1] if k[2] == me else k[2]
                        if isinstance(o, Term) and o.op == "item" and isinstance(o.args[1], Lin) and s.entails_eq(v - o.args[1]):
                            ok = True
            it.oblige("index", bool(ok), node, f, s, "returns {} which need not be the index of the node".format(v))
        else:
            if spec.kind == "trail" and isinstance(v, Tup) and len(v.items) == 2:
                tr = v.items[1]
                v = v.items[0]
                if v != NONE:
                    x = it.exact_items(s, tr)
                    if x is not None:
                        ok = len(x) >= 1 and isinstance(x[0], Lin) and s.entails_eq(x[0] - b - sh)
                        it.oblige("trail", bool(ok), node, f, s, "the trail does not start with the boundary index of the context")
                else:
                    it.oblige("trail", tr == NONE, node, f, s, "a trail is returned without a token")
            if v == NONE:
                if spec.kind == "context":
                    it.oblige("token", False, node, f, s, "returns None")
                    continue
                ok = s.entails_eq(b - n) if sh == 0 else s.entails_eq(b)
                it.oblige("none", ok, node, f, s, "returns None although there is a matching token")
            elif spec.kind == "context":
                ok = h.sel(it, s, v)
                it.oblige("token", bool(ok), node, f, s, "returns {} which is not on the path to the position".format(v))
                if ok:
                    bb = h.bound(it, s, v)
                    nn = it.len_of(s, v)
                    stop = s.entails_eq(bb - nn)
                    # the child at the boundary is not a context that contains the position
                    for k, val in list(s.facts.items()):
                        if k[0] == "truth" and isinstance(k[1], Term) and k[1].op == "attr" and k[1].args[1] == "is_context" and val is False \
                                and isinstance(k[1].args[0], Term) and h.sel(it, s, k[1].args[0]) and child_of(it, s, k[1].args[0], v):
                            stop = True
                    for c in s.cons:
                        for t, _ in c.c:
                            if isinstance(t, Term) and t.op == "attr" and t.args[1] == "pos" and isinstance(t.args[0], Term) \
                                    and h.sel(it, s, t.args[0]) and child_of(it, s, t.args[0], v) \
                                    and s.entails(sym(t) - sym(pos) - 1):
                                stop = True
                    it.oblige("deepest", stop, node, f, s, "may return a context although a child context contains the position")
            else:
                ok = h.sel(it, s, v)
                it.oblige("token", bool(ok), node, f, s, "returns {} which is not the child at the boundary".format(v))
                f1 = s.facts.get(("truth", h.isctx(v)))
                f2 = s.facts.get(("truth", T("attr", v, "is_token", 0)))
                it.oblige("leaf", f1 is False or f2 is True, node, f, s, "may return a context instead of a token")
    return it


def child_of(it, s, c, v):
    if not (isinstance(c, Term)):
        return False
    if c.op == "item":
        b = c.args[0]
        if isinstance(b, Term) and b.op == "content":
            b = b.args[0]
        return b == v
    return c.op == "havoc"


class HEdge(Hooks):
    """first_token/last_token/pos/end of a context: descend along one edge."""
    opaque = ("Token.end",)

    def __init__(self, ctxcls, root, index):
        self.ctxcls, self.root, self.index = ctxcls, root, index
        self.preds = {"edge": self.edge}

    def edge(self, it, st, v):
        if v == self.root or st.facts.get(("pred", "edge", v)):
            return True
        if isinstance(v, Term) and v.op == "item":
            base, idx = v.args[0], v.args[1]
            if isinstance(base, Term) and base.op == "content":
                base = base.args[0]
            if self.edge(it, st, base):
                if idx == num(self.index):
                    return True
                if self.index == -1 and isinstance(idx, Lin):
                    n = it.len_of(st, base)
                    return st.entails_eq(idx - n + 1)
        return False

    def attr(self, it, st, base, name):
        if name in ("is_context", "is_token") and isinstance(base, Term):
            f = st.facts.get(("truth", T("attr", base, "is_context", 0)))
            if name == "is_token" and f is not None:
                return Const(not f)
            return T("attr", base, name, 0)
        if name in ("pos", "end") and isinstance(base, Term):
            return T("attr", base, name, 0)


def run_edge(factory, prog, fname, index, attr):
    f = prog.func(fname)
    ctxcls = prog.cls("tree.Context")
    root = Obj(0, ctxcls, "self")
    h = HEdge(ctxcls, root, index)
    it = factory(h)
    st = State()
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: root}, None, None):
        if isinstance(v, Raised):
            it.oblige("edge", False, f.node, f, s, "may raise " + v.exc.name)
            continue
        if v in (NONE, num(0)):
            ok = any(len(t) > 1 and t[1] in ("IndexError",) for t in s.trace) or s.entails_eq(it.len_of(s, root)) \
                or s.facts.get(("truth", root)) is False
            it.oblige("edge", ok, f.node, f, s, "gives up although the context may have tokens")
            continue
        t = v
        if attr:
            if isinstance(v, Lin) and len(v.c) == 1 and v.k == 0 and v.c[0][1] == 1:
                v = v.c[0][0]
            ok = isinstance(v, Term) and v.op == "attr" and v.args[1] == attr
            it.oblige("edge", ok, f.node, f, s, "returns {} instead of the {} of a token".format(v, attr))
            if not ok:
                continue
            t = v.args[0]
        it.oblige("edge", h.edge(it, s, t), f.node, f, s, "{} is not reached along the {} edge".format(t, "left" if index == 0 else "right"))
        f1 = s.facts.get(("truth", T("attr", t, "is_context", 0)))
        f2 = s.facts.get(("truth", T("attr", t, "is_token", 0)))
        it.oblige("edge-leaf", f1 is False or f2 is True, f.node, f, s, "may stop at a context")


def run(ctx):
    ctx.rule("index", "the returned index equals the boundary index of the sorted children")
    ctx.rule("token", "the returned node is reached by taking the boundary child of every level")
    ctx.rule("none", "None is only returned if no child is on the wanted side of the position")
    ctx.rule("leaf", "a token is returned, not a context")
    ctx.rule("trail", "the trail consists of the boundary indices of the levels passed")
    ctx.rule("deepest", "the deepest context containing the position is returned")
    ctx.rule("edge", "first/last descendants are reached along the left/right edge of the tree")
    ctx.assume("the children of a context are sorted by position and non-empty (the lexing and insertion properties)")
    for spec in SPECS:
        ctx.analyse(lambda factory: run_one(factory, ctx.program, spec))
    for name, index, attr in (("tree.Context.first_token", 0, None), ("tree.Context.last_token", -1, None),
                              ("tree.Context.pos", 0, "pos"), ("tree.Context.end", -1, "end")):
        ctx.analyse(lambda factory: run_edge(factory, ctx.program, name, index, attr))
    ctx.floor("index", 3)
    ctx.floor("token", 7)
