"""P27: the blocks of a document partition its text at the block separators."""
from pa.interp import *
from pa import model

L = sym(T("in", "seplen"))


class H(Hooks):
    """text.find/rfind/count of the separator, relative to the blocks.

    Ghosts: s, e (the block found last), n (how many were found).
    """
    def __init__(self, prog, me, text, doc=None):
        self.me, self.text = me, text
        self.doc = doc or me
        self.total = sym(T("len", text, 0))
        self.sep = T("attr", self.doc, "block_separator", 0)
        self.first = None      # expected argument of the first search

    opaque = ()

    def start(self, st):
        st.assume(self.total, L - 1)
        st.facts[("isnone", self.sep)] = False
        return st

    def missing(self, it, st, base, name):
        if base == self.me and name == "_block_number":
            return (base, name) not in st.heap

    def attr(self, it, st, base, name):
        if base == self.doc and name == "block_separator":
            return self.sep

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = it.stack[-1].func if it.stack else None
        if label == "len" and args:
            if args[0] == self.sep:
                return [(st, L)]
            if args[0] in (self.doc, self.text):
                return [(st, self.total)]
        if label.endswith(".text") and recv == self.doc and not args:
            return [(st, self.text)]
        if label.endswith(".document") and recv == self.me and not args:
            return [(st, self.doc)]
        if label in (".find", ".index") and recv == self.text and args and args[0] == self.sep:
            a = it.as_lin(st, args[1]) if len(args) > 1 else num(0)
            hi = len(args) > 2
            out = []
            s2 = st.copy()
            v = sym(T("nextsep", a, next(it.counter) if hi else 0))
            st.assume(v - a, v, self.total - v - L)
            self.log(it, st, "find", a, v, node, hi)
            out.append((st, v))
            self.log(it, s2, "find", a, None, node, hi)
            if label == ".index":
                return out + [(s2, Raised(Exc("ValueError")))]
            out.append((s2, num(-1)))
            return out
        if label in (".rfind", ".rindex") and recv == self.text and args and args[0] == self.sep:
            if len(args) > 2:
                lo, b = it.as_lin(st, args[1]), it.as_lin(st, args[2])
            else:
                lo, b = it.as_lin(st, args[1]) if len(args) > 1 else num(0), self.total
            odd = lo is None or not lo.const or lo.k != 0
            s2 = st.copy()
            v = sym(T("prevsep", b, next(it.counter) if odd else 0))
            st.assume(v, b - v - L, self.total - v - L)
            self.log(it, st, "rfind", b, v, node, odd)
            self.log(it, s2, "rfind", b, None, node, odd)
            if label == ".rindex":
                return [(st, v), (s2, Raised(Exc("ValueError")))]
            return [(st, v), (s2, num(-1))]
        if label == ".count" and args and args[0] == self.sep:
            t = T("count", recv if isinstance(recv, Term) else NONE)
            st.assume(sym(t))
            return [(st, sym(t))]

    def getitem(self, it, st, base, key, node):
        if base in (self.doc, self.text) and isinstance(key, SliceV):
            lo, hi = key.lo, key.hi
            return [(st, T("part", lo if lo is not None else NONE, hi if hi is not None else NONE))]

    def log(self, it, st, kind, a, v, node, odd):
        f = it.stack[-1].func if it.stack else None
        st.setg("n", (st.g("n") or num(0)) + 1)
        if odd:
            st.setg("odd", TRUE)
        if self.first is None:
            return
        exp = st.g("next")
        it.oblige("number", a is not None and st.entails_eq(a - exp), node, f, st,
                  "the {} block is searched from {} instead of {}".format("next" if kind == "find" else "previous", a, exp))
        if kind == "find":
            e = v if v is not None else self.total
            st.setg("s", exp).setg("e", e).setg("next", e + L)
        else:
            s = v + L if v is not None else num(0)
            st.setg("e", exp).setg("s", s).setg("next", s - L)


def doc_call(factory, prog, name, setup, verify, rule, cls="document.AbstractDocument", first=None):
    c = prog.cls(cls)
    f = c.find_method(name)
    me = Obj(0, c, "self")
    text = T("in", "text")
    h = H(prog, me, text)
    h.first = first
    it = factory(h)
    st = h.start(State())
    a = f.arg_names()
    bound = {a[0]: me}
    bound.update(setup(st, a, h))
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), bound, None, None):
        if isinstance(v, Raised):
            it.oblige(rule, None, f.node, f, s, "may raise " + v.exc.name)
            continue
        verify(it, s, v, f, h)


def blk(s, v):
    """The range of a returned block."""
    if isinstance(v, Obj) and (v, "pos") in s.heap:
        return s.heap[(v, "pos")], s.heap[(v, "end")]
    return None


def nextsep(st, a):
    return sym(T("nextsep", a, 0))


def eob(it, s, h, a):
    """Cases (state, end of the block that contains position a)."""
    t = nextsep(s, a)
    found = any(x == t.c[0][0] for c in s.cons for x, _ in c.c)
    return t if found else h.total


def check_start(it, s, v, f, h, position, rule="start"):
    v = it.as_lin(s, v)
    t = T("prevsep", position, 0)
    found = any(x == t for c in s.cons for x, _ in c.c)
    exp = sym(t) + L if found else num(0)
    ok = v is not None and s.g("n") is not None and s.entails_eq(v - exp) and s.g("odd") is None
    it.oblige(rule, ok, f.node, f, s, "the block of {} starts at {} instead of {}".format(position, v, exp))


def check_end(it, s, v, f, h, position, rule="end"):
    v = it.as_lin(s, v)
    exp = eob(it, s, h, position)
    ok = v is not None and s.g("n") is not None and s.entails_eq(v - exp) and s.g("odd") is None
    it.oblige(rule, ok, f.node, f, s, "the block of {} ends at {} instead of {}".format(position, v, exp))


def run_simple(factory, prog):
    p = sym(T("in", "position"))

    def setup(st, a, h):
        st.assume(p, h.total - p)
        return {a[1]: p}
    doc_call(factory, prog, "find_start_of_block", setup, lambda it, s, v, f, h: check_start(it, s, v, f, h, p), "start")
    doc_call(factory, prog, "find_end_of_block", setup, lambda it, s, v, f, h: check_end(it, s, v, f, h, p), "end")

    def block(it, s, v, f, h):
        r = blk(s, v)
        if r is None:
            it.oblige("block", None if v != NONE else False, f.node, f, s, "no block is returned")
            return
        check_start(it, s, r[0], f, h, p, "block")
        st = it.as_lin(s, r[0])
        e = it.as_lin(s, r[1])
        # the first separator from the start: searching from the position itself
        # would find the next one when the position lies inside a separator
        ok = e is not None and st is not None and s.entails_eq(e - eob(it, s, h, st))
        it.oblige("block", ok, f.node, f, s, "the block of a position ends at {}".format(e))
    doc_call(factory, prog, "find_block", setup, block, "block")


def run_number(factory, prog):
    k = sym(T("in", "number"))
    for neg in (False, True):
        def setup(st, a, h):
            st.assume(-k - 1 if neg else k)
            h.first = True
            st.setg("next", h.total if neg else num(0)).setg("n", num(0)).setg("s", num(-1)).setg("e", num(-1) if not neg else h.total + L)
            return {a[1]: k}

        def verify(it, s, v, f, h):
            n = it.as_lin(s, s.g("n"))
            if v == NONE:
                ok = s.entails_eq(it.as_lin(s, s.g("s"))) if neg else s.entails_eq(it.as_lin(s, s.g("e")) - h.total)
                it.oblige("number", ok, f.node, f, s, "no block is returned before the {} block was reached".format("first" if neg else "last"))
                return
            r = blk(s, v)
            if r is None:
                it.oblige("number", None, f.node, f, s)
                return
            a, b = it.as_lin(s, r[0]), it.as_lin(s, r[1])
            exp = -k if neg else k + 1
            it.oblige("number", s.entails_eq(n - exp), f.node, f, s, "the number of blocks counted is {} instead of {}".format(n, exp))
            it.oblige("number", a is not None and s.entails_eq(a - it.as_lin(s, s.g("s"))), f.node, f, s, "the block starts at {}".format(a))
            it.oblige("number", b is not None and s.entails_eq(b - it.as_lin(s, s.g("e"))), f.node, f, s, "the block ends at {}".format(b))
            x = s.heap.get((v, "_block_number"))
            if x is not None and not neg:
                x = it.as_lin(s, x)
                it.oblige("number", x is not None and (s.entails_eq(x - k) or s.entails_eq(x) and s.entails_eq(a)), f.node, f, s,
                          "the block gets number {}".format(x))
        doc_call(factory, prog, "find_block_by_number", setup, verify, "number", first=True)


def run_next(factory, prog, name):
    c = prog.cls("document.Block")
    f = c.find_method(name)
    me = Obj(0, c, "self")
    text = T("in", "text")
    doc = Obj(5, prog.cls("document.AbstractDocument"), "self")
    for known in (True, False):
        h = H(prog, me, text, doc)
        it = factory(h)
        st = h.start(State())
        pos, end, nr = sym(T("in", "pos")), sym(T("in", "end")), sym(T("in", "nr"))
        st.heap[(me, "pos")] = pos
        st.heap[(me, "end")] = end
        if known:
            st.heap[(me, "_block_number")] = nr
        st.assume(pos, end - pos, h.total - end)
        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
            if isinstance(v, Raised):
                it.oblige("neighbour", None, f.node, f, s)
                continue
            if name == "next_block":
                if v == NONE:
                    it.oblige("neighbour", s.entails(end - h.total), f.node, f, s, "there is no next block although this is not the last one")
                    continue
                r = blk(s, v)
                if r is None:
                    it.oblige("neighbour", None, f.node, f, s)
                    continue
                a, b = it.as_lin(s, r[0]), it.as_lin(s, r[1])
                it.oblige("neighbour", a is not None and s.entails_eq(a - end - L), f.node, f, s, "the next block starts at {}".format(a))
                it.oblige("neighbour", s.entails(h.total - end - 1), f.node, f, s, "there is a next block after the last one")
                exp = eob(it, s, h, end + L)
                it.oblige("neighbour", b is not None and s.entails_eq(b - exp), f.node, f, s, "the next block ends at {}".format(b))
                d = 1
            else:
                if v == NONE:
                    it.oblige("neighbour", s.entails(-pos), f.node, f, s, "there is no previous block although this is not the first one")
                    continue
                r = blk(s, v)
                if r is None:
                    it.oblige("neighbour", None, f.node, f, s)
                    continue
                a, b = it.as_lin(s, r[0]), it.as_lin(s, r[1])
                it.oblige("neighbour", s.entails(pos - 1), f.node, f, s, "there is a previous block before the first one")
                it.oblige("neighbour", b is not None and s.entails_eq(b - pos + L), f.node, f, s, "the previous block ends at {}".format(b))
                t = T("prevsep", pos - L, 0)
                found = any(x == t for cc in s.cons for x, _ in cc.c)
                exp = sym(t) + L if found else num(0)
                it.oblige("neighbour", a is not None and s.entails_eq(a - exp), f.node, f, s, "the previous block starts at {}".format(a))
                d = -1
            x = s.heap.get((v, "_block_number"))
            if x is not None:
                x = it.as_lin(s, x)
                mine = nr if known else sym(T("attr", me, "_block_number", 0))
                if not known and any(isinstance(t, Term) and t.op == "attr" and t.args[:2] == (me, "_block_number") for t, _ in x.c if x is not None):
                    continue    # it is not there: reading it raises
                ok = x is not None and (s.entails_eq(x - mine - d) or s.entails_eq(x) and s.entails_eq(a))
                it.oblige("neighbour", ok, f.node, f, s, "the number of the neighbour becomes {}".format(x))


class Walk(Hooks):
    """blocks(): the sequence of blocks that is yielded."""
    opaque = ("find_block", "next_block")

    def __init__(self, start, end):
        self.start, self.end = start, end
        self.preds = {"before": self.before}

    def before(self, it, s, v):
        return isinstance(v, Term) and self.end != NONE and \
            (s.facts.get(("pred", "before", v)) is True or v == T("block", num(0)) or s.entails(self.end - sym(T("bpos", v)) - 1))

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = it.stack[-1].func
        if label.endswith(".find_block"):
            v = T("block", num(0))
            it.oblige("iterate", it.as_lin(st, args[0]) == self.start, node, f, st, "the blocks do not start at the given position")
            st.setg("k", num(0))
            st.facts[("truth", v)] = True
            st.facts[("isnone", v)] = False
            return [(st, v)]
        if label.endswith(".next_block"):
            k = st.g("k")
            ok = recv == T("block", k) or st.facts.get(("pred", "cur", recv)) is True
            k2 = it.freshint("k")
            v = T("block", k2)
            s2 = st.copy()
            s2.setg("last", TRUE)
            st.setg("k", k2)
            st.facts[("truth", v)] = True
            st.facts[("isnone", v)] = False
            st.setg("pending", TRUE)
            # its start is known to be after the last one
            return [(st, v), (s2, NONE)]

    def attr(self, it, st, base, name):
        if isinstance(base, Term) and name in ("pos", "end"):
            return sym(T("bpos" if name == "pos" else "bend", base))

    def on_yield(self, it, st, func, v, node):
        st = st.copy()
        if self.end != NONE and st.g("pending") == TRUE:
            ok = self.before(it, st, v)
            it.oblige("iterate", ok, node, func, st, "a block is yielded that does not start before the end")
        st.setg("yielded", TRUE)
        st.setg("pending", FALSE)
        st.setg("lasty", v)
        return st


def run_blocks(factory, prog):
    c = prog.cls("document.AbstractDocument")
    f = c.find_method("blocks")
    me = Obj(0, c, "self")
    start = sym(T("in", "start"))
    for end in (NONE, sym(T("in", "end"))):
        h = Walk(start, end)
        it = factory(h)
        st = State()
        a = f.arg_names()
        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {a[0]: me, a[1]: start, a[2]: end}, None, None):
            if isinstance(v, Raised):
                it.oblige("iterate", None, f.node, f, s)
                continue
            it.oblige("iterate", s.g("yielded") == TRUE, f.node, f, s, "no block may be yielded")
            if s.g("last") == TRUE:
                it.oblige("iterate", s.g("pending") != TRUE, f.node, f, s, "a block may be skipped")
            elif end == NONE:
                it.oblige("iterate", False, f.node, f, s, "the iteration may stop before the last block")
            else:
                k = s.g("k")
                p = sym(T("bpos", T("block", k)))
                ok = s.entails(p - end)
                it.oblige("iterate", ok, f.node, f, s, "the iteration may stop at a block that starts before the end")


def run_count(factory, prog):
    def verify(it, s, v, f, h):
        v = it.as_lin(s, v)
        exp = sym(T("count", h.text)) + 1
        it.oblige("count", v is not None and s.entails_eq(v - exp), f.node, f, s, "the number of blocks is {}".format(v))
    doc_call(factory, prog, "block_count", lambda st, a, h: {}, verify, "count")
    c = prog.cls("document.Block")
    f = c.find_method("block_number")
    me = Obj(0, c, "self")
    text = T("in", "text")
    doc = Obj(5, prog.cls("document.AbstractDocument"), "self")
    h = H(prog, me, text, doc)
    it = factory(h)
    st = h.start(State())
    pos = sym(T("in", "pos"))
    st.heap[(me, "pos")] = pos
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        if isinstance(v, Raised):
            it.oblige("count", None, f.node, f, s)
            continue
        x = it.as_lin(s, v)
        good = None
        if x is not None and x.c:
            for t, _ in x.c:
                if isinstance(t, Term) and t.op == "count":
                    p = t.args[0]
                    good = isinstance(p, Term) and p.op == "part" and p.args[0] in (NONE, num(0)) and p.args[1] == pos \
                        and s.entails_eq(x - sym(t))
                elif isinstance(t, Term) and t.op == "attr":
                    good = True      # the stored number
        it.oblige("count", good, f.node, f, s, "the block number is {}".format(x))


def run(ctx):
    P = ctx.program
    ctx.rule("start", "a block starts after the last separator before the position, or at 0")
    ctx.rule("end", "a block ends at the first separator from the position, or at the end of the text")
    ctx.rule("block", "the block of a position starts and ends at its nearest separators")
    ctx.rule("neighbour", "neighbouring blocks are separated by exactly one separator, and are missing only at the ends of the text; known numbers stay consecutive")
    ctx.rule("number", "counting from the start or the end reaches the block with that number, or ends at the last or first block")
    ctx.rule("count", "the number of blocks and of the blocks before a block follows from the separators")
    ctx.rule("iterate", "iterating starts at the block of the start position and yields every block that starts before the end")
    ctx.analyse(lambda fa: run_simple(fa, P))
    ctx.analyse(lambda fa: run_number(fa, P))
    ctx.analyse(lambda fa: run_next(fa, P, "next_block"))
    ctx.analyse(lambda fa: run_next(fa, P, "previous_block"))
    ctx.analyse(lambda fa: run_blocks(fa, P))
    ctx.analyse(lambda fa: run_count(fa, P))
    ctx.floor("start", 1)
    ctx.floor("neighbour", 2)
