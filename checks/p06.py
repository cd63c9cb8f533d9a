"""P06: the tree is built as the lexer tells, and replacing a part of it joins the old and the new nodes."""
import itertools
from pa.interp import *
from pa import model
from checks.p08 import Base, S

START, END, OFFSET = sym(T("in", "start")), sym(T("in", "end")), sym(T("in", "offset"))


# ---------------------------------------------------------------- replacing a part of the tree

class Shape:
    """An old tree, a new one and what is expected of them together.

    a, b: depth of the last token to keep and of the first one to keep after the changed part (0: there is none); c: number of contexts both are in;
    k: number of contexts of the new tree in which both continue; new: are there new tokens
    """
    def __init__(self, it, P, a, b, c, k, new):
        self.it, self.P = it, P
        self.st = State()
        self.st.facts[("truth", S("lexicon"))] = True
        self.st.facts[("isnone", S("lexicon"))] = False
        self.ctx, self.tok = P.cls("tree.Context"), P.cls("tree.Token")
        self.n = 0
        self.name = "last token {} deep, next token {} deep, {} contexts shared before and {} after{}".format(a, b, c, k, "" if new else ", nothing new")
        self.start_trail, self.end_trail = [], []
        self.S = self.E = None
        self.root = self.old(0, a, b, c, True)
        self.tree = self.fresh(0, a, b, k, new, "both")
        self.pos0 = {o: v for (o, name), v in self.st.heap.items() if name == "pos"}
        self.before = {o: self.st.heap[(o, "#val")] for o in self.contexts(self.st, self.root)}

    def token(self, label):
        o = Obj(("t", self.n), self.tok, label + str(self.n))
        self.st.heap[(o, "pos")] = sym(T("in", "pos%d" % self.n))
        self.n += 1
        return o

    def context(self, children, label="context"):
        o = Obj(("c", self.n), self.ctx, label + str(self.n))
        self.n += 1
        self.st.heap[(o, "#val")] = Tup(children)
        self.st.heap[(o, "#len")] = num(len(children))
        self.st.heap[(o, "lexicon")] = S("lexicon")
        self.st.heap[(o, "parent")] = NONE
        self.st.facts[("truth", o)] = bool(children)
        self.st.facts[("isnone", o)] = False
        for n in children:
            self.st.heap[(n, "parent")] = o
        return o

    def old(self, level, a, b, c, both):
        t = self.token
        left = [t("kept")] if level % 2 == 0 else []
        def right():
            return [t("moved"), self.context([t("moved"), self.context([t("moved")])])] if level < 2 else [t("moved")]
        def s_path():
            if a == level + 1:
                self.S = t("last")
                return self.S
            return self.old(level + 1, a, 0, 0, "s")
        def e_path():
            if b == level + 1:
                self.E = t("next")
                return self.E
            return self.old(level + 1, 0, b, 0, "e")
        has_s, has_e = both in (True, "s") and a > level, both in (True, "e") and b > level
        if both is True and level < c:
            i = len(left)
            self.start_trail.append(i)
            self.end_trail.append(i)
            ch = left + [self.old(level + 1, a, b, c, True)] + right()
        else:
            ch = []
            if has_s:
                ch += left
                self.start_trail.append(len(ch))
                ch.append(s_path())
            ch += [t("removed"), self.context([t("removed")])]
            if has_e:
                self.end_trail.append(len(ch))
                ch.append(e_path())
                ch += right()
        return self.context(ch)

    def fresh(self, level, a, b, k, new, side):
        """the new tree: first children continue the contexts of the last token, last children those of the next one"""
        t = lambda: [self.token("new")] if new else []
        left, right = side in ("both", "left") and a > level + 1, side in ("both", "right") and b > level + 1
        if side == "both" and level < k:
            ch = [self.fresh(level + 1, a, b, k, new, "both")]
        else:
            ch = []
            if left:
                ch.append(self.fresh(level + 1, a, b, k, new, "left"))
            ch += t()
            if right:
                ch.append(self.fresh(level + 1, a, b, k, new, "right"))
        return self.context(ch, "new context")

    def items(self, st, o):
        v = st.heap.get((o, "#val"))
        return list(v.items) if isinstance(v, Tup) else None

    def contexts(self, st, o):
        out = [o]
        for n in self.items(st, o) or ():
            if n.cls is self.ctx:
                out += self.contexts(st, n)
        return out

    def events(self, st, o):
        out = []
        x = self.items(st, o)
        if x is None:
            raise ValueError("unknown children")
        for n in x:
            if isinstance(n, Obj) and n.cls is self.ctx:
                out += ["("] + self.events(st, n) + [")"]
            elif isinstance(n, Obj):
                out.append(n)
            else:
                raise ValueError("unknown child")
        return out

    def expected(self, a, b):
        old, new = self.events(self.st, self.root), self.events(self.st, self.tree)
        prefix = old[:old.index(self.S) + 1] if a else []
        suffix = old[old.index(self.E):] if b else []
        mid = new[max(0, a - 1):]
        if b > 1:
            mid = mid[:-(b - 1)]
        r = prefix + mid + suffix
        while r and r[-1] == ")":
            r.pop()
        return r, suffix


class Replace(Base):
    max_states = 200

    def __init__(self):
        self.shape = None

    def items(self, it, st, v):
        x = it.exact_items(st, v)
        return x

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f, sh = self.fn(it), self.shape
        name = fn.name if fn is not None else label.split(".")[-1]
        a = [x for x in args if x != sh.me] + list(kwargs.values())
        if name in ("find_token_left_with_trail", "find_token_with_trail", "find_token_after_with_trail"):
            o = recv if isinstance(recv, Obj) else a.pop(0) if a and isinstance(a[0], Obj) else fn.self_ if isinstance(fn, FnV) else None
            if a and isinstance(a[0], Obj):
                a.pop(0)
            left = "left" in name
            ok = a == [START if left else END]
            it.oblige("joined", ok, node, f, st, "the {} of the changed part is looked up with another position".format("start" if left else "end"))
            t = sh.start_trail if left else sh.end_trail
            tok = sh.S if left else sh.E
            if tok is None:
                return [(st, Tup([NONE, it.new_list(st, [])]))]
            return [(st, Tup([tok, it.new_list(st, [num(i) for i in t])]))]
        if name == "tokens" and (fn is not None or isinstance(recv, Obj)):
            seq = a[0] if a else recv
            if isinstance(recv, Obj) and recv.cls is sh.ctx:
                seq = recv
            x = self.items(it, st, seq)
            if x is None:
                it.oblige("moved", None, node, f, st)
                return []
            out = []
            for n in x:
                if not isinstance(n, Obj):
                    it.oblige("moved", None, node, f, st)
                    return []
                out += [t for t in sh.events(st, n) if not isinstance(t, str)] if n.cls is sh.ctx else [n]
            return [(st, Tup(out))]
        if name == "ancestors_with_index":
            n = recv if isinstance(recv, Obj) else a[0]
            out = []
            while True:
                p = st.heap.get((n, "parent"))
                if not isinstance(p, Obj):
                    break
                x = self.items(it, st, p)
                if x is None or n not in x:
                    it.oblige("moved", None, node, f, st)
                    return []
                out.append(Tup([p, num(x.index(n))]))
                n = p
            return [(st, Tup(out))]
        if name == "emit":
            if a[:1] == [Const("invalidate")] and len(a) == 2:
                st.setg("invalid", Tup(st.g("invalid").items + (a[1],)))
            return [(st, NONE)]
        if label == "slice":
            x = [v if v != NONE else NONE for v in args]
            x = ([NONE] + x if len(x) == 1 else x) + [NONE]
            return [(st, SliceV(*x[:3]))]
        if label.split(".")[-1] == "ReplaceResult":
            b = list(args) + list(kwargs.values())
            if len(b) == 3:
                return [(st, S("ReplaceResult", *b))]

    def setattr(self, it, st, base, name, val, node):
        if name == "parent" and isinstance(base, Obj):
            st.heap[(base, name)] = val
            return [(st, None)]

    def attr(self, it, st, base, name):
        if name == "parent" and isinstance(base, Obj):
            return st.heap.get((base, name), NONE)
        if isinstance(base, Obj) and base.cls is self.shape.ctx and name in ("is_context", "is_token"):
            return Const(name == "is_context")
        if isinstance(base, Obj) and base.cls is self.shape.tok and name in ("is_context", "is_token"):
            return Const(name == "is_token")


def cases():
    for a, b in itertools.product(range(4), range(4)):
        for c in range(min(a, b)) if a and b else (0,):
            for k in range(min(a, b)) if a and b else (0,):
                for new in (True, False):
                    yield a, b, c, k, new


def run_replace(factory, P):
    c = P.cls("treebuilder.TreeBuilder")
    f = c.find_method("replace_tree")
    nt = NTV("BuildResult", ("tree", "start", "end", "offset", "lexicons"))
    for case in cases():
        a, b = case[:2]
        for offset in (OFFSET, num(0)) if b else (num(0),):
            h = Replace()
            it = factory(h)
            sh = h.shape = Shape(it, P, *case)
            st = sh.st.copy()
            sh.me = me = Obj(0, c, "self")
            st.heap[(me, "root")] = sh.root
            st.setg("invalid", Tup([]))
            start = START if a else num(0)
            if a:
                st.assume(START - 1)
            if offset == OFFSET:
                st.assume(OFFSET - 1)
            lexicons = NONE if b else S("lexicons")
            st.facts[("isnone", S("lexicons"))] = False
            want, suffix = sh.expected(a, b)
            r = Tup([sh.tree, start, END, offset, lexicons], nt)
            for s, v in it.run_fn(st, FnV(f, None, None, c), dict(zip(f.arg_names(), (me, r))), None, None):
                def ob(rule, ok, text):
                    it.oblige(rule, ok, f.node, f, s, "{} ({})".format(text, sh.name))
                if isinstance(v, Raised):
                    ob("joined", False, "raises {}".format(v.exc.name))
                    continue
                try:
                    got = sh.events(s, sh.root)
                except ValueError:
                    ob("joined", None, "not known")
                    continue
                while got and got[-1] == ")":
                    got.pop()
                ob("joined", got == want, "the tree becomes {} instead of {}".format(show(got), show(want)))
                if got != want:
                    continue
                cs = sh.contexts(s, sh.root)
                for p in cs:
                    for n in sh.items(s, p):
                        ob("parents", s.heap.get((n, "parent")) == p, "the parent of {} is wrong".format(n.label))
                for n in got:
                    if isinstance(n, str):
                        continue
                    p0, p1 = sh.pos0.get(n), s.heap.get((n, "pos"))
                    d = it.as_lin(s, p1)
                    if d is None:
                        ob("moved", None, "not known")
                        continue
                    by = offset if n in suffix else num(0)
                    ob("moved", s.entails_eq(d - p0 - by), "{} is moved by {} instead of {}".format(n.label, d - p0, by))
                inv = s.g("invalid").items
                safe = set()
                for n in inv:
                    while isinstance(n, Obj):
                        safe.add(n)
                        n = s.heap.get((n, "parent"))
                for p in cs:
                    if p in sh.before and s.heap[(p, "#val")] != sh.before[p]:
                        ob("invalid", p in safe, "a context is changed but not invalidated")
                ok = isinstance(v, Term) and v.op == "stable" and v.args[0] == "ReplaceResult"
                if ok:
                    e = it.as_lin(s, v.args[2])
                    ok = v.args[1] == start and e is not None and s.entails_eq(e - END - offset) and v.args[3] == lexicons
                ob("result", ok if isinstance(v, Term) else None, "another range or other lexicons are returned")


def show(ev):
    return " ".join(e if isinstance(e, str) else "(" if isinstance(e, Tup) else e.label for e in ev)


def run_root(factory, P):
    """another root lexicon"""
    c = P.cls("treebuilder.TreeBuilder")
    f = c.find_method("replace_tree")
    nt = NTV("BuildResult", ("tree", "start", "end", "offset", "lexicons"))
    for lexicon in (S("other lexicon"), NONE):
        h = Replace()
        it = factory(h)
        sh = h.shape = Shape(it, P, 0, 0, 0, 0, lexicon != NONE)
        st = sh.st.copy()
        sh.me = me = Obj(0, c, "self")
        st.heap[(me, "root")] = sh.root
        st.heap[(sh.tree, "lexicon")] = lexicon
        if lexicon != NONE:
            st.facts[("truth", lexicon)] = True
        st.setg("invalid", Tup([]))
        want = sh.events(st, sh.tree)
        h.compare = lambda it, st, op, a, b, node: [(st, (a == b) == (op in ("Eq", "Is")))] if op in ("Eq", "NotEq", "Is", "IsNot") and a in (S("lexicon"), lexicon) and b in (S("lexicon"), lexicon) else None
        r = Tup([sh.tree, num(0), END, num(0), S("lexicons")], nt)
        for s, v in it.run_fn(st, FnV(f, None, None, c), dict(zip(f.arg_names(), (me, r))), None, None):
            if isinstance(v, Raised):
                it.oblige("joined", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            it.oblige("joined", sh.events(s, sh.root) == want, f.node, f, s, "with another root lexicon, the tree is not replaced")
            it.oblige("joined", s.heap.get((sh.root, "lexicon")) == lexicon, f.node, f, s, "the root lexicon is not replaced")
            for p in sh.contexts(s, sh.root):
                for n in sh.items(s, p):
                    it.oblige("parents", s.heap.get((n, "parent")) == p, f.node, f, s, "with another root lexicon, the parent of a node is wrong")
            it.oblige("invalid", sh.root in s.g("invalid").items, f.node, f, s, "the root is replaced but not invalidated")


# ---------------------------------------------------------------- building a new part of the tree

TEXTS = (S("text"), S("newer text"))
LEN = [sym(T("in", "length%d" % i)) for i in (0, 1)]
AT = [tuple(sym(T("in", n + str(i))) for n in ("start", "removed", "added")) for i in (0, 1)]
TARGETS = ((0, 0), (0, 1), (-1, 0), (-1, 2))


class Building(Base):
    """The trees are exact; the text, positions and lengths are not. At most two events are handled between the changes that arrive.

    ghosts: want (the events of the new tree), last (number of tokens of the last event), depth (contexts the lexer is in), events (number of events
    since lexing was started), change (number of changes that arrived while building), new (groups of tokens that are in the new tree), from (where the
    new tree starts), low (position that lexing has to start before), lexicon (root lexicon), forward, at (tokens that may follow)
    """
    exact_loops = 9
    max_states = 4000
    opaque = ("TreeBuilder.get_changes",)
    pos = []

    def __init__(self, P, tail, arrive, whole):
        self.P, self.tail, self.arrive, self.whole = P, tail, arrive, whole
        self.ctx, self.tok = P.cls("tree.Context"), P.cls("tree.Token")

    def make(self, st, cls, label):
        n = st.g("made").items
        o = Obj(("made", len(n)), cls, label + str(len(n)))
        st.setg("made", Tup(n + (o,)))
        if cls is self.ctx:
            st.heap[(o, "#val")] = Tup([])
            st.heap[(o, "#len")] = num(0)
        else:
            st.heap[(o, "pos")] = sym(T("in", "pos of " + o.label))
        return o

    def items(self, st, o):
        v = st.heap.get((o, "#val"))
        if not isinstance(v, Tup):
            raise ValueError("unknown children")
        return list(v.items)

    def events(self, st, o):
        out = []
        for n in self.items(st, o):
            if not isinstance(n, Obj):
                raise ValueError("unknown child")
            out += [Tup([st.heap.get((n, "lexicon"))])] + self.events(st, n) + [")"] if n.cls is self.ctx else [n]
        return out

    def stripped(self, ev):
        ev = list(ev)
        while ev and ev[-1] == ")":
            ev.pop()
        return ev

    def want(self, st, cut=False):
        w = list(st.g("want").items)
        if cut:
            w = w[:-st.g("last").k]
        return self.stripped([")" if x == num(-1) else x for x in w])

    def now(self, st):
        return int(st.g("change").k)

    def built(self, it, st, tree, node, rule="built", cut=False):
        f = self.fn(it)
        try:
            got = self.stripped(self.events(st, tree))
        except (ValueError, AttributeError):
            it.oblige(rule, None, node, f, st)
            return
        want = self.want(st, cut)
        it.oblige(rule, got == want, node, f, st, "the new tree is {} instead of {}".format(show(got), show(want)))
        todo = [tree]
        while todo:
            p = todo.pop()
            for n in self.items(st, p):
                it.oblige("parents", st.heap.get((n, "parent")) == p, node, f, st, "the parent of a new node is wrong")
                if n.cls is self.ctx:
                    todo.append(n)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        name = fn.name if fn is not None else label.split(".")[-1]
        a = list(args) + list(kwargs.values())
        k = self.now(st)
        if name == "get_prepared_lexer":
            tree, text, start = a[0], a[1], a[2]
            it.oblige("built", text == TEXTS[k], node, f, st, "an older text is lexed")
            start = it.as_lin(st, start)
            if start is None:
                it.oblige("built", None, node, f, st)
                return []
            out = []
            def give(s, group, want, depth):
                s.setg("want", Tup(want)).setg("depth", num(depth)).setg("events", num(0)).setg("last", num(0)).setg("lexing", num(k))
                out.append((s, Tup([S("lexer"), S("events", k), it.new_list(s, group)])))
            if tree == self.root:
                for p in st.g("low").items:
                    it.oblige("built", st.entails(p - start), node, f, st, "lexing starts after a changed part")
                s = st.copy()
                s.setg("new", Tup([]))
                out.append((s, NONE))
                if st.copy().assume(start - 1):
                    for group in self.groups:
                        s = st.copy()
                        s.setg("new", Tup([]))
                        d, p = [], s.heap.get((group[0], "parent"))
                        while p != self.root:
                            d.insert(0, Tup([s.heap[(p, "lexicon")]]))
                            p = s.heap.get((p, "parent"))
                        e = s.heap[(group[-1], "end")]
                        s.assume(start - e, e - 1)
                        s.setg("from", e)
                        give(s, group, d, len(d))
            else:
                self.built(it, st, tree, node)
                it.oblige("built", st.entails_eq(start - AT[k][0]), node, f, st, "another position is looked up")
                s = st.copy()
                out.append((s, NONE))
                for j, g in enumerate(st.g("new").items):
                    s = st.copy()
                    w = list(s.g("want").items)
                    w = w[:w.index(g.items[-1]) + 1]
                    s.setg("new", Tup(s.g("new").items[:j + 1]))
                    give(s, list(g.items), w, sum(x.k if isinstance(x, Lin) else isinstance(x, Tup) for x in w))
            return out
        if label.split(".")[-1] == "Context" and recv is None and len(a) == 2:
            o = self.make(st, self.ctx, "new context")
            st.heap[(o, "lexicon")] = a[0]
            st.heap[(o, "parent")] = a[1]
            return [(st, o)]
        if label.split(".")[-1] == "Lexer" and recv is None:
            x = it.exact_items(st, a[0]) if a else None
            ok = x is not None and len(x) == 1
            it.oblige("built", (x[0] == st.g("lexicon")) if ok else None, node, f, st, "the lexer is started with another lexicon")
            return [(st, S("lexer"))]
        if label == ".events" and recv == S("lexer"):
            it.oblige("built", a[:1] == [TEXTS[k]] and a[1:] == self.pos, node, f, st, "another text is lexed, or from another position")
            st.setg("want", Tup([])).setg("depth", num(0)).setg("events", num(0)).setg("last", num(0)).setg("from", num(0)).setg("lexing", num(k))
            return [(st, S("events", k))]
        if label.split(".")[-1] == "make_tokens" and recv is None and len(a) == 2:
            g = st.g("new").items[-1].items if st.g("new").items else None
            if a[0] != S("lexemes") or g is None:
                it.oblige("built", None, node, f, st)
                return []
            for n in g:
                st.heap[(n, "parent")] = a[1]
            return [(st, Tup(g))]
        if name == "get_changes":
            st.heap[(self.changes, "#val")] = Tup([])
            st.heap[(self.changes, "#len")] = num(0)
            st.setg("change", num(k + 1))
            o = Obj("changes", self.P.cls("treebuilderutil.Changes"), "changes")
            start, removed, added = AT[1]
            low = st.g("low").items
            for n, v in zip(("text", "start", "removed", "added"), (TEXTS[1],) + AT[1]):
                st.heap[(o, n)] = v
            out = []
            for lex in (FALSE, S("other lexicon"), NONE):
                s = st.copy()
                s.heap[(o, "root_lexicon")] = lex
                s.assume(start, removed, added, LEN[0] - start - removed)
                s.assume_eq(LEN[1] - LEN[0] - added + removed)
                if lex == FALSE:
                    s.setg("low", Tup(low + (start,)))
                else:
                    s.setg("lexicon", lex).setg("low", Tup([num(0)])).setg("offset", S("none"))
                    if lex != NONE:
                        s.facts[("truth", lex)] = True
                if lex == FALSE and s.g("offset") != S("none"):
                    s.setg("offset", s.g("offset") + added - removed)
                out.append((s, o))
            return out
        if name == "find_token_after":
            it.oblige("reused", a[-1:] != [] and self.lin_eq(it, st, a[-1], AT[0][0] + AT[0][1]), node, f, st, "tokens may be reused that are not after the changed part")
            t = Obj("tail", self.tok, "tail")
            st.heap[(t, "pos")] = sym(T("in", "pos of tail"))
            st.assume(st.heap[(t, "pos")] - AT[0][0] - AT[0][1])
            s = st.copy()
            return [(s, NONE), (st, t)]
        if name in ("forward_including", "forward"):
            st.setg("forward", num(0))
            return [(st, S("forward"))]
        if name == "is_first":
            return [(st, FALSE)]
        if name == "equals":
            n = recv if isinstance(recv, Obj) else a.pop(0)
            s = st.copy()
            s.setg("same", Tup([n, a[-1]]))
            st.setg("same", Tup([]))
            return [(s, TRUE), (st, FALSE)]
        if label == "len" and a and a[0] in TEXTS:
            return [(st, LEN[TEXTS.index(a[0])])]
        if label.split(".")[-1] == "BuildResult":
            b = list(args) + list(kwargs.values())
            if len(b) == 5:
                self.result(it, st, b, node)
                return [(st, S("BuildResult"))]
        if label == ".index" and isinstance(recv, Obj) and recv.cls is self.ctx and len(a) == 1:
            return [(st, num(self.items(st, recv).index(a[0])))]
        if label == ".parent_index":
            p = st.heap.get((recv, "parent"))
            return [(st, num(self.items(st, p).index(recv)))]

    def lin_eq(self, it, st, v, w):
        v = it.as_lin(st, v)
        return None if v is None else st.entails_eq(v - w)

    def result(self, it, st, b, node):
        f = self.fn(it)
        k = self.now(st)
        tree, start, end, offset, lexicons = b
        if st.g("lexicon") == NONE:
            it.oblige("built", isinstance(tree, Obj) and self.items(st, tree) == [] and st.heap.get((tree, "lexicon")) == NONE, node, f, st, "without root lexicon, there is a tree")
            return
        reused = lexicons == NONE
        if isinstance(tree, Obj):
            it.oblige("built", st.heap.get((tree, "lexicon")) == st.g("lexicon") if st.g("lexicon") != S("lexicon") else True, node, f, st, "the new tree has another lexicon")
            it.oblige("built", st.heap.get((tree, "parent")) == NONE, node, f, st, "another context is returned")
            self.built(it, st, tree, node, cut=reused)
        it.oblige("built", st.g("lexing") == num(k), node, f, st, "a change is lost")
        it.oblige("range", self.lin_eq(it, st, start, st.g("from")), node, f, st, "the start is not where the new tree starts")
        if reused:
            same = st.g("same").items
            off = st.g("offset")
            if len(same) != 2 or off == S("none"):
                it.oblige("reused", False, node, f, st, "tokens are reused that were not compared, or have another root lexicon")
                return
            new, old = same
            it.oblige("reused", st.g("new").items != () and new == st.g("new").items[-1].items[0], node, f, st, "other tokens are compared")
            p0, p1 = st.heap.get((old, "pos")), st.heap.get((new, "pos"))
            it.oblige("reused", self.lin_eq(it, st, end, p0), node, f, st, "the end is not where the reused tokens start")
            it.oblige("reused", self.lin_eq(it, st, offset, off), node, f, st, "the reused tokens are moved by another distance")
            it.oblige("reused", st.entails_eq(p1 - off - p0), node, f, st, "the reused tokens are not at the same place")
            s, r, d = AT[k]
            it.oblige("reused", st.entails(p0 + off - s - d), node, f, st, "tokens are reused that a change has touched")
        else:
            it.oblige("range", self.lin_eq(it, st, end, LEN[k]), node, f, st, "the end is not the end of the text")
            it.oblige("range", self.lin_eq(it, st, offset, num(0)), node, f, st, "there is an offset, but nothing is reused")
            it.oblige("range", lexicons == S("open lexicons"), node, f, st, "other lexicons than those that are open are returned")

    def iter_elem(self, it, st, seq, k, elem, node):
        f = self.fn(it)
        if seq == S("forward"):
            n = int(st.g("forward").k)
            if n == 2:
                return []
            t = Obj(("tail", n), self.tok, "tail%d" % n) if n else Obj("tail", self.tok, "tail")
            if n:
                p = sym(T("in", "pos of tail%d" % n))
                prev = Obj(("tail", n - 1), self.tok, "") if n > 1 else Obj("tail", self.tok, "")
                last = st.heap[(Obj("tail", self.tok, "tail"), "pos")] if n == 1 else sym(T("in", "pos of tail%d" % (n - 1)))
                st.heap[(t, "pos")] = p
                st.assume(p - last - 1)
            st.setg("forward", num(n + 1))
            return [(st, t)]
        if isinstance(seq, Term) and seq.op == "stable" and seq.args[0] == "events":
            n = int(st.g("events").k)
            after = self.now(st) == 1
            if n == (1 if after or self.tail and self.arrive else 2):
                return []
            out = []
            for pop, push in TARGETS[:2] if self.tail else TARGETS if after or not self.arrive else (TARGETS[:2], TARGETS[::3])[n]:
                d = int(st.g("depth").k)
                if d + pop < 0:
                    continue
                s = st.copy()
                g = [self.make(s, self.tok, "new"), self.make(s, self.tok, "new")]
                s.setg("new", Tup(s.g("new").items + (Tup(g),)))
                s.setg("want", Tup(s.g("want").items + (num(-1),) * -pop + tuple(Tup([S("lexicon", i)]) for i in range(push)) + tuple(g))).setg("last", num(2))
                s.setg("depth", num(d + pop + push)).setg("events", num(n + 1)).setg("same", Tup([]))
                t = NONE
                if pop or push:
                    t = S("target", pop, push)
                    s.facts[("truth", t)] = True
                    s.facts[("isnone", t)] = False
                e = Tup([t, S("lexemes")], NTV("Event", ("target", "lexemes")))
                out.append((s, e))
                if self.arrive and self.now(s) == 0:
                    s2 = s.copy()
                    s2.heap[(self.changes, "#val")] = Tup([S("change")])
                    s2.heap[(self.changes, "#len")] = num(1)
                    out.append((s2, e))
            return out

    def attr(self, it, st, base, name):
        if isinstance(base, Obj) and name == "parent":
            return st.heap.get((base, name))
        if isinstance(base, Obj) and base.cls in (self.ctx, self.tok):
            if name in ("is_context", "is_token"):
                return Const((name == "is_context") == (base.cls is self.ctx))
            if name == "group":
                return NONE
        if isinstance(base, Term) and base.op == "stable" and base.args[0] == "target":
            if name == "pop":
                return num(base.args[1])
            if name == "push":
                return Tup([S("lexicon", i) for i in range(base.args[2])])
        if base == S("lexer") and name == "lexicons":
            return S("lexicons")

    def getitem(self, it, st, base, key, node):
        if base == S("lexicons") and isinstance(key, SliceV) and key.lo == num(1) and key.hi == NONE:
            return [(st, S("open lexicons"))]

    def setattr(self, it, st, base, name, val, node):
        if name == "parent" and isinstance(base, Obj):
            st.heap[(base, name)] = val
            return [(st, None)]


def run_new(factory, P):
    c = P.cls("treebuilder.TreeBuilder")
    f = c.find_method("build_new_tree")
    for tail, arrive, whole in itertools.product((False, True), repeat=3):
        if tail and whole:
            continue
        h = Building(P, tail, arrive, whole)
        it = factory(h)
        st = State()
        st.setg("made", Tup([]))
        def tok():
            return h.make(st, h.tok, "old")
        def ctx(*ch):
            o = h.make(st, h.ctx, "old context")
            st.heap[(o, "#val")], st.heap[(o, "#len")] = Tup(ch), num(len(ch))
            st.heap[(o, "lexicon")] = S("lexicon", o.label)
            st.heap[(o, "parent")] = NONE
            for n in ch:
                st.heap[(n, "parent")] = o
            return o
        t = [tok() for i in range(6)]
        h.root = ctx(t[0], ctx(t[1], ctx(t[2], t[3]), t[4]), t[5])
        st.heap[(h.root, "lexicon")] = S("lexicon")
        h.groups = [[t[0]], [t[2], t[3]]][tail and arrive:]
        for n in t:
            st.heap[(n, "end")] = sym(T("in", "end of " + n.label))
        for lex in ("lexicon", "root lexicon"):
            st.facts[("truth", S(lex))] = True
            st.facts[("isnone", S(lex))] = False
        me = h.me = Obj("self", c, "self")
        h.changes = Obj("queue", "list", "changes")
        st.heap[(h.changes, "#val")], st.heap[(h.changes, "#len")] = Tup([]), num(0)
        st.heap[(me, "root")], st.heap[(me, "changes")] = h.root, h.changes
        st.heap[(me, "peek_threshold")] = num(0)
        start, removed, added = AT[0]
        st.assume(start, removed, added)
        st.assume(LEN[0] - start - added - 1) if tail else st.assume_eq(LEN[0] - start - added)
        lex = S("root lexicon") if whole else FALSE
        st.setg("want", Tup([])).setg("last", num(0)).setg("depth", num(0)).setg("events", num(0)).setg("change", num(0)).setg("new", Tup([])).setg("from", num(0))
        st.setg("low", Tup([num(0) if whole else start])).setg("lexicon", lex if whole else S("lexicon")).setg("same", Tup([])).setg("lexing", num(-1))
        st.setg("offset", S("none") if whole else added - removed)
        for s, v in it.run_fn(st, FnV(f, None, None, c), dict(zip(f.arg_names(), (me, TEXTS[0], lex, start, removed, added))), None, None):
            if isinstance(v, Raised):
                it.oblige("built", False, f.node, f, s, "raises {}".format(v.exc.name))
            elif v != S("BuildResult"):
                it.oblige("built", None, f.node, f, s)


def run_whole(factory, P):
    """build_tree()"""
    f = P.func("treebuilder.build_tree")
    for lex in (S("lexicon"), NONE):
        h = Building(P, False, False, True)
        h.root, h.pos = None, [S("pos")]
        it = factory(h)
        st = State()
        st.setg("made", Tup([]))
        st.facts[("truth", S("lexicon"))] = True
        st.facts[("isnone", S("lexicon"))] = False
        for g, v in zip("want last depth events change new from low lexicon same lexing offset".split(),
                        (Tup([]), num(0), num(0), num(0), num(0), Tup([]), num(0), Tup([]), lex, Tup([]), num(0), num(0))):
            st.setg(g, v)
        for s, v in it.run_fn(st, FnV(f, None), dict(zip(f.arg_names(), (lex, TEXTS[0], S("pos")))), None, None):
            if isinstance(v, Raised):
                it.oblige("built", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            if not isinstance(v, Obj):
                it.oblige("built", None, f.node, f, s)
                continue
            it.oblige("built", s.heap.get((v, "lexicon")) == lex and s.heap.get((v, "parent")) == NONE, f.node, f, s, "another context is returned")
            it.stack.append(Frame(f, None, f.module))
            h.built(it, s, v, f.node)
            it.stack.pop()


class Tokens(Base):
    def setattr(self, it, st, base, name, val, node):
        if name == "parent" and isinstance(base, Obj):
            st.heap[(base, name)] = val
            return [(st, None)]


def run_tokens(factory, P):
    f = P.func("tree.make_tokens")
    tok, group = P.cls("tree.Token"), P.cls("tree.GroupToken")
    for n in (1, 2, 3):
        it = factory(Tokens())
        st = State()
        x = [[sym(T("in", "pos%d" % i)), S("text", i), S("action", i)] for i in range(n)]
        for s, v in it.run_fn(st, FnV(f, None), dict(zip(f.arg_names(), (Tup([Tup(l) for l in x]), S("context")))), None, None):
            def ob(ok, text):
                it.oblige("tokens", ok, f.node, f, s, "{} ({} lexemes)".format(text, n))
            got = it.exact_items(s, v) if isinstance(v, (Tup, Obj)) else None
            if got is None or not all(isinstance(t, Obj) for t in got):
                ob(False if isinstance(v, Raised) else None, "no tokens")
                continue
            ob(len(got) == n, "{} tokens are made".format(len(got)))
            for i, (t, l) in enumerate(zip(got, x)):
                ob(t.cls is (group if n > 1 else tok), "the token has another type")
                ob([s.heap.get((t, a)) for a in ("pos", "text", "action", "parent")] == l + [S("context")], "token {} has other values".format(i))
                if n > 1 and t.cls is group:
                    g = it.as_lin(s, s.heap.get((t, "group")))
                    want = num(i if i < n - 1 else -i)
                    ob(None if g is None else s.entails_eq(g - want), "token {} has another number in the group".format(i))


# ---------------------------------------------------------------- where lexing is taken up again

BEFORE = sym(T("in", "position"))
BACK = 13


class Prepared(Base):
    """Tokens are numbered backwards from the one before the change. ghosts: back (the tokens that were passed), taken (number of new events that
    were taken), same (number of old events that were the same), lexing (number of the token lexing starts at, -1: the start of the text), first (number of
    the token the old events start with)"""
    exact_loops = BACK + 3
    max_states = 4000

    def __init__(self, P):
        self.tok, self.ctx = P.cls("tree.Token"), P.cls("tree.Context")
        self.tokens = [Obj(("token", i), self.tok, "token%d" % i) for i in range(BACK + 1)]
        self.tree = S("tree")

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        name = fn.name if fn is not None else label.split(".")[-1]
        a = list(args) + list(kwargs.values())
        def bad(rule="taken up"):
            it.oblige(rule, None, node, f, st)
            return []
        if name == "find_token_before":
            it.oblige("taken up", a[-2:] == [self.tree, BEFORE], node, f, st, "a token before another position is looked for")
            s = st.copy()
            return [(s, NONE), (st, self.tokens[0])]
        if name == "backward":
            it.oblige("taken up", recv == self.tokens[0] or a == [self.tokens[0]], node, f, st, "tokens before another token are looked at")
            return [(st, S("back"))]
        if name == "get_lexer" or label.split(".")[-1] == "Lexer" and recv is None and name != "get_lexer":
            if name == "get_lexer":
                if a[0] not in self.tokens:
                    return bad()
                return [(st, S("lexer", self.tokens.index(a[0])))]
            x = it.exact_items(st, a[0])
            it.oblige("taken up", x == [S("root lexicon")], node, f, st, "lexing is started with other lexicons")
            return [(st, S("lexer", -1))]
        if label == ".events" and isinstance(recv, Term) and recv.op == "stable" and recv.args[0] == "lexer":
            n = recv.args[1]
            pos = it.as_lin(st, a[1]) if len(a) > 1 else num(0)
            it.oblige("taken up", a[0] == S("text") and (pos is not None and st.entails_eq(pos - (st.heap[(self.tokens[n], "pos")] if n >= 0 else num(0)))),
                      node, f, st, "lexing starts at another position than the token it is prepared for")
            if n >= 0:
                t = self.tokens[n]
                it.oblige("taken up", st.heap.get((t, "group"), NONE) == NONE, node, f, st, "lexing starts within a group")
                it.oblige("taken up", n not in (3, 10) or st.g(("first", n)) == FALSE or st.facts.get(("truth", S("consume", n))) is False, node, f, st, "lexing starts at a token its lexicon has consumed")
            k = int(st.g("lexers").k)
            st.setg("lexers", num(k + 1)).setg("taken", num(0)).setg("same", num(0)).setg("lexing", num(n))
            return [(st, S("events", k + 1))]
        if name == "events_with_tokens":
            if len(a) != 2 or not all(x in self.tokens for x in a):
                return bad()
            i, j = (self.tokens.index(x) for x in a)
            n = int(st.g("lexing").k)
            # the first token of all may be any token if there are no others before it
            it.oblige("taken up", i == n if n >= 0 else st.g("all") == TRUE and i == int(st.g("back").k), node, f, st, "the old tokens are compared from another token on")
            g = st.heap.get((a[1], "group"), NONE)
            g = None if g == NONE else it.as_lin(st, g)
            it.oblige("taken up", g is None or st.entails(-g - 1) or j > i, node, f, st, "tokens are compared up to the middle of a group")
            return [(st, S("old", int(st.g("lexers").k)))]
        if name == "same_events":
            if a == [S("old event", st.g("taken").k - 1), S("new event", st.g("taken").k - 1)] or a == [S("new event", st.g("taken").k - 1), S("old event", st.g("taken").k - 1)]:
                s = st.copy()
                s.setg("same", s.g("same") + 1)
                return [(s, TRUE), (st, FALSE)]
            return bad()
        if label == "zip" and len(a) == 2:
            return [(st, S("zip", *a))]
        if label.split(".")[-1] == "chain" and len(a) == 2:
            return [(st, S("chain", *a))]
        if name == "is_first":
            n = recv if isinstance(recv, Obj) else a[0]
            if n not in self.tokens:
                return bad()
            i = self.tokens.index(n)
            v = st.g(("first", i))
            if v is not None:
                return [(st, v)]
            if i not in (3, 10):
                return [(st.setg(("first", i), FALSE), FALSE)]
            s = st.copy()
            return [(s.setg(("first", i), TRUE), TRUE), (st.setg(("first", i), FALSE), FALSE)]

    def attr(self, it, st, base, name):
        if base in self.tokens:
            i = self.tokens.index(base)
            if name == "group":
                return st.heap.get((base, name), NONE)
            if name == "pos":
                return st.heap[(base, name)]
            if name == "parent":
                return S("parent", i)
        if isinstance(base, Term) and base.op == "stable":
            if base.args[0] == "parent" and name == "lexicon":
                return S("lexicon of parent", base.args[1])
            if base.args[0] == "lexicon of parent" and name == "consume":
                return S("consume", base.args[1])
        if base == self.tree and name == "lexicon":
            return S("root lexicon")

    def iter_elem(self, it, st, seq, k, elem, node):
        if seq == S("back"):
            n = int(st.g("back").k) + 1
            if n > BACK or st.g("all") == TRUE:
                return []
            st.setg("back", num(n))
            return [(st, self.tokens[n])]
        if isinstance(seq, Term) and seq.op == "stable" and seq.args[0] == "zip":
            x = [y for y in seq.args[1:]]
            if not all(isinstance(y, Term) and y.op == "stable" and y.args[0] in ("old", "events") and y.args[1] == int(st.g("lexers").k) for y in x):
                it.oblige("taken up", None, node, self.fn(it), st)
                return []
            n = int(st.g("taken").k)
            if n == 3:
                return []
            st.setg("taken", num(n + 1))
            return [(st, Tup([Tup([S("old event", n), S("tokens", n)]) if y.args[0] == "old" else S("new event", n) for y in x]))]

    def iter_done(self, it, st, seq, k, node):
        if seq == S("back"):
            st.setg("all", TRUE)
        if isinstance(seq, Term) and seq.op == "stable" and seq.args[0] == "zip" and seq.args[1].args[0] == "events":
            # an event has been taken, and no old one is left to compare it with
            st.setg("taken", st.g("taken") + 1)


def run_prepared(factory, P):
    f = P.func("treebuilderutil.get_prepared_lexer")
    for group, new in itertools.product((None, (1, 0, -1), (0, -1)), (False, True)):
        h = Prepared(P)
        it = factory(h)
        st = State()
        st.assume(BEFORE)
        st.setg("back", num(0)).setg("all", FALSE).setg("lexers", num(0)).setg("taken", num(0)).setg("same", num(0)).setg("lexing", num(-1))
        for i, t in enumerate(h.tokens):
            st.heap[(t, "pos")] = p = sym(T("in", "pos%d" % i))
            st.assume(p, (st.heap[(h.tokens[i - 1], "pos")] if i else BEFORE) - 1 - p)
        st.assume(BEFORE - 1)
        if group:
            # the position is in a group, and the token that is found for lexing may be in a group
            for i, n in enumerate(group):
                st.heap[(h.tokens[i], "group")] = num(n)
            for i, n in zip((11, 12), (-1, 0)):
                st.heap[(h.tokens[i], "group")] = num(n)
        for i in range(3):
            st.facts[("truth", S("tokens", i))] = True
            st.facts[("isnone", S("tokens", i))] = False
        for s, v in it.run_fn(st, FnV(f, None), dict(zip(f.arg_names(), (h.tree, S("text"), BEFORE, Const(new)))), None, None):
            def ob(ok, text):
                it.oblige("taken up", ok, f.node, f, s, text)
            if isinstance(v, Raised):
                ob(False, "raises {}".format(v.exc.name))
                continue
            if v == NONE:
                continue
            x = it.exact_items(s, v) if isinstance(v, (Tup, Obj)) else None
            if x is None or len(x) != 3:
                ob(None, "")
                continue
            lexer, events, tokens = x
            n, k = int(s.g("lexing").k), int(s.g("lexers").k)
            ob(lexer == S("lexer", n), "another lexer is returned")
            ob(not (new and n == -1), "a new tree would be kept without any token")
            same = int(s.g("same").k)
            ob(same > 0 and tokens == S("tokens", same - 1), "other tokens than the last ones that are the same are returned")
            taken, rest = int(s.g("taken").k), events
            if isinstance(events, Term) and events.op == "stable" and events.args[0] == "chain":
                rest = events.args[2]
                y = it.exact_items(s, events.args[1])
                if y is None:
                    ob(None, "")
                    continue
                taken -= len(y)
                ob(y == [S("new event", taken + j) for j in range(len(y))], "other events are yielded again")
            ob(rest == S("events", k), "other events are returned")
            ob(taken == same, "an event is lost or comes twice")


# ---------------------------------------------------------------- the events an existing part of the tree was built from

class Again(Base):
    """ghosts: got (the events that were yielded), pop, push (of the target factory)"""
    exact_loops = 30
    max_states = 200

    def __init__(self, P):
        self.P = P
        self.ctx, self.tok, self.gtok = P.cls("tree.Context"), P.cls("tree.Token"), P.cls("tree.GroupToken")

    def inline(self, func):
        return func.cls is None or func.cls.name == "Range" or func.name in ("is_root", "is_first", "is_last", "ancestors", "tokens", "parent_index")

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        name = fn.name if fn is not None else label.split(".")[-1]
        a = list(args) + list(kwargs.values())
        if label.split(".")[-1] == "TargetFactory":
            return [(st, S("factory"))]
        if recv == S("factory") or isinstance(fn, model.Func) and fn.cls is not None and fn.cls.name == "TargetFactory":
            pop, push = int(st.g("pop").k), list(st.g("push").items)
            if name == "push":
                if any(isinstance(x, IterV) for x in a):
                    return None
                push += a
            elif name == "pop":
                n = -int(a[0].k) if a else 1
                for i in range(n):
                    if push:
                        push.pop()
                    else:
                        pop -= 1
            elif name == "get":
                t = S("target", pop, Tup(push)) if pop or push else NONE
                return [(st.setg("pop", num(0)).setg("push", Tup([])), t)]
            else:
                return None
            return [(st.setg("pop", num(pop)).setg("push", Tup(push)), NONE)]
        if label.split(".")[-1] == "Event" and len(a) == 2:
            return [(st, S("event", *a))]
        if label == ".index" and isinstance(recv, (Obj, Tup)) and len(a) == 1:
            x = it.exact_items(st, recv)
            if x is not None:
                return [(st, num(x.index(a[0])) if a[0] in x else Raised(Exc("ValueError")))]
        if label == "slice":
            x = ([NONE] + a if len(a) == 1 else a) + [NONE]
            return [(st, SliceV(*x[:3]))]
        if name == "common_ancestor_with_trail" and len(a) == 2:
            return [(st, self.trails(it, st, *a))]
        if name == "backward" and len(a) == 1:
            i = self.order.index(a[0])
            return [(st, Tup(self.order[:i][::-1]))]
        if label == "any" and len(a) == 1:
            x = it.exact_items(st, a[0])
            if x is not None and all(isinstance(y, Obj) for y in x):
                return [(st, Const(bool(x)))]

    def trail(self, st, n):
        out = []
        while isinstance(st.heap.get((n, "parent")), Obj):
            p = st.heap[(n, "parent")]
            out.insert(0, (p, st.heap[(p, "#val")].items.index(n)))
            n = p
        return out

    def trails(self, it, st, a, b):
        x, y = self.trail(st, a), self.trail(st, b)
        while len(x) > 1 and len(y) > 1 and x[0] == y[0]:
            del x[0], y[0]
        return Tup([x[0][0], Tup([num(i) for p, i in x]), Tup([num(i) for p, i in y])])

    def attr(self, it, st, base, name):
        if isinstance(base, Obj) and base.cls in (self.ctx, self.tok, self.gtok):
            if name == "parent":
                return st.heap.get((base, name))
            if name in ("is_context", "is_token"):
                return Const((name == "is_context") == (base.cls is self.ctx))
            if name == "group":
                return st.heap.get((base, name), NONE)

    def on_yield(self, it, st, func, val, node):
        if func is self.top:
            st.setg("got", Tup(st.g("got").items + (val,)))


def example(P, first):
    """(state, groups of tokens with the contexts they are in): a tree with tokens and groups at all depths; first: it starts with contexts"""
    base = Again(P)
    st0 = State()
    st0.facts[("truth", S("factory"))] = True
    count = itertools.count()
    def tok(n=1):
        out = []
        for i in range(n):
            k = next(count)
            o = Obj(("t", k), base.gtok if n > 1 else base.tok, "token%d" % k)
            for a in ("pos", "text", "action"):
                st0.heap[(o, a)] = S(a, k)
            st0.heap[(o, "pos")] = sym(T("in", "pos%d" % k))
            if n > 1:
                st0.heap[(o, "group")] = num(i if i < n - 1 else -i)
            out.append(o)
        return out
    def ctx(*ch):
        k = next(count)
        o = Obj(("c", k), base.ctx, "context%d" % k)
        ch = [n for c in ch for n in (c if isinstance(c, list) else [c])]
        st0.heap[(o, "#val")], st0.heap[(o, "#len")] = Tup(ch), num(len(ch))
        st0.heap[(o, "lexicon")] = S("lexicon", k)
        st0.heap[(o, "parent")] = NONE
        for n in ch:
            st0.heap[(n, "parent")] = o
        return o
    def groups(o, path):
        x = list(st0.heap[(o, "#val")].items)
        while x:
            n = x.pop(0)
            if n.cls is base.ctx:
                yield from groups(n, path + [n])
            else:
                g = [n]
                while g[0].cls is base.gtok and not (len(g) > 1 and st0.heap[(g[-1], "group")].k < 0):
                    g.append(x.pop(0))
                yield g, path
    root = ctx(ctx(ctx(tok(), tok(3))) if first else tok(2), ctx(tok(2), ctx(ctx(tok(3), tok()), tok()), ctx(tok(), tok(2))), tok(), tok(2), ctx(ctx(tok()), ctx(tok(), tok(3))))
    st0.facts[("truth", root)] = True
    return st0, list(groups(root, []))


def run_again(factory, P):
    f = P.func("treebuilderutil.events_with_tokens")
    for first in (False, True):
        st0, gs = example(P, first)
        order = [t for g, p in gs for t in g]
        for i, j in itertools.combinations_with_replacement(range(len(gs)), 2):
            if i not in (0, 1, 3, 4) or i == j and len(gs[i][0]) > 1:
                continue
            h = Again(P)
            h.order, h.top = order, f
            it = factory(h)
            st = st0.copy()
            st.setg("got", Tup([])).setg("pop", num(0)).setg("push", Tup([]))
            want = []
            here = gs[i][1] if i else []
            for g, path in gs[i:j + 1]:
                c = len(list(itertools.takewhile(lambda x: x[0] is x[1], zip(here, path))))
                pop, push = c - len(here), [st0.heap[(x, "lexicon")] for x in path[c:]]
                t = S("target", pop, Tup(push)) if pop or push else NONE
                want.append((t, [[st0.heap[(x, a)] for a in ("pos", "text", "action")] for x in g], g))
                here = path
            args = dict(zip(f.arg_names(), (gs[i][0][0], gs[j][0][-1])))
            for s, v in it.run_fn(st, FnV(f, None), args, None, None):
                def ob(ok, text):
                    it.oblige("again", ok, f.node, f, s, text)
                if isinstance(v, Raised):
                    ob(False, "raises {}".format(v.exc.name))
                    continue
                got = s.g("got").items
                ok = len(got) == len(want)
                for x, (t, lex, g) in zip(got, want):
                    x = it.exact_items(s, x)
                    if x is None or len(x) != 2 or not (isinstance(x[0], Term) and x[0].op == "stable" and x[0].args[0] == "event"):
                        ok = None
                        break
                    y, l = it.exact_items(s, x[1]), it.exact_items(s, x[0].args[2])
                    l = None if l is None else [it.exact_items(s, z) for z in l]
                    if y is None or l is None or None in l:
                        ok = None
                        break
                    ok = ok and y == g and l == lex and x[0].args[1] == t
                ob(ok, "other events are made from the tokens {} to {} than those they were built from".format(i, j))



def run_around(factory, P):
    """the helpers that find a token's place"""
    m = "treebuilderutil."
    for first in (False, True):
        st0, gs = example(P, first)
        order = [t for g, p in gs for t in g]
        for k, t in enumerate(order):
            for i, o in enumerate(order[:-1]):
                if o is not t:
                    st0.assume(st0.heap[(order[i + 1], "pos")] - st0.heap[(o, "pos")] - 1)
        def run(name, args, check, text, gen=False):
            f = P.func(m + name)
            h = Around(P)
            h.order, h.top = order, f
            it = factory(h)
            st = st0.copy().setg("got", Tup([]))
            for s, v in it.run_fn(st, FnV(f, None), dict(zip(f.arg_names(), args)), None, None):
                ok = False if isinstance(v, Raised) else check(it, s, s.g("got") if gen else v)
                it.oblige("again", ok, f.node, f, s, text if not isinstance(v, Raised) else "raises {}".format(v.exc.name))
        h = Again(P)
        for t in order:
            tr = h.trail(st0, t)
            run("get_lexer", [t], lambda it, s, v: flat(it, s, v.args[1]) == [st0.heap[(p, "lexicon")] for p, i in tr]
                if isinstance(v, Term) and v.op == "stable" and flat(it, s, v.args[1]) is not None else None, "the lexer for a token has other lexicons than the contexts it is in")
            run("ancestors_with_index", [t], lambda it, s, v: flat(it, s, v) == [[p, num(i)] for p, i in tr[::-1]], "other ancestors or indices of a token are found", True)
            run("backward", [t], lambda it, s, v: list(v.items) == order[:order.index(t)][::-1], "other tokens before a token are found", True)
            run("new_tree", [t], lambda it, s, v: chain(it, s, v, [st0.heap[(p, "lexicon")] for p, i in tr]), "the contexts of a new tree are not those of the token")
        for i, t in enumerate(order):
            for u in order[i::3]:
                def same(it, s, v):
                    x = flat(it, s, v)
                    return None if x is None else x == flat(it, s, h.trails(it, st0, t, u))
                run("common_ancestor_with_trail", [t, u], same, "another common ancestor, or another trail to a token is found")


def flat(it, st, v):
    if isinstance(v, (Tup, Obj)) and not (isinstance(v, Obj) and v.cls != "list"):
        x = it.exact_items(st, v)
        return None if x is None else [flat(it, st, y) if isinstance(y, Tup) or isinstance(y, Obj) and y.cls == "list" else y for y in x]


def chain(it, st, v, lexicons):
    """v is the innermost and the outermost of new contexts with these lexicons"""
    x = flat(it, st, v)
    if x is None or len(x) != 2:
        return None
    n = x[1]
    if st.heap.get((n, "parent")) != NONE:
        return False
    while True:
        if not isinstance(n, Obj) or st.heap.get((n, "lexicon")) != lexicons[0]:
            return False
        lexicons = lexicons[1:]
        ch = it.exact_items(st, n)
        if ch is None:
            return None
        if not lexicons:
            return ch == [] and n == x[0]
        if len(ch) != 1 or st.heap.get((ch[0], "parent")) != n:
            return False
        n = ch[0]


class Around(Again):
    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        name = fn.name if fn is not None else label.split(".")[-1]
        if label.split(".")[-1] == "Lexer" and recv is None:
            return [(st, S("lexer", *args))]
        if name == "Context" and recv is None and len(args) == 2 or fn is None and label.split(".")[-1] == "Context" and len(args) == 2:
            o = it.new_obj(self.ctx, "new context")
            st.heap[(o, "#val")], st.heap[(o, "#len")] = Tup([]), num(0)
            st.heap[(o, "lexicon")], st.heap[(o, "parent")] = args
            return [(st, o)]
        if name in ("common_ancestor_with_trail", "backward"):
            return None
        if name == "tokens":
            a = list(args) + list(kwargs.values())
            x = [recv] if isinstance(recv, Obj) and recv.cls is self.ctx else flat(it, st, a.pop(0)) if a else None
            if x is None:
                return None
            out = []
            def walk(n):
                if n.cls is self.ctx:
                    for m in st.heap[(n, "#val")].items:
                        walk(m)
                else:
                    out.append(n)
            for n in x:
                walk(n)
            return [(st, Tup(out[::-1] if a == [TRUE] else out))]
        return Again.call(self, it, st, label, recv, args, kwargs, node, fn)

    def setattr(self, it, st, base, name, val, node):
        if name == "parent" and isinstance(base, Obj):
            st.heap[(base, name)] = val
            return [(st, None)]


def run(ctx):
    P = ctx.program
    ctx.rule("tokens", "every lexeme becomes a token; tokens that are made together know their place in the group")
    ctx.rule("built", "the new tree has the tokens of all events since the kept ones, in the contexts the lexer is in; nothing is lost when it is restarted")
    ctx.rule("reused", "old tokens are kept only if no change touches them and an equal one at the same place was found")
    ctx.rule("range", "the range of the new tree and the open lexicons are returned")
    ctx.rule("taken up", "lexing is taken up again at a token, with its lexicons, and the events that follow the last old tokens that are the same are all handled")
    ctx.rule("again", "the events that are made from old tokens are those they were built from")
    ctx.rule("joined", "the nodes before the changed part, the new ones and those after it follow each other, in the contexts the lexer was in")
    ctx.rule("parents", "the parent of every node is the context it is in")
    ctx.rule("moved", "exactly the tokens after the changed part are moved, once, by the difference in length")
    ctx.rule("invalid", "a context of which the children change is invalidated")
    ctx.rule("result", "the changed range is told in new positions, with the lexicons that are open")
    for r in (run_replace, run_root, run_new, run_whole, run_tokens, run_prepared, run_again, run_around):
        ctx.analyse(lambda factory, r=r: r(factory, P), budget=900000)
    for r in ctx.rules:
        ctx.floor(r, 1)
