"""P01: tokens are exact slices of the text, in order, and cover it as the rules say.

The parse functions that Lexicon creates are analysed for every kind of
lexicon (no, one literal, one or more other patterns; with a default action,
static or dynamic, a default target, or neither), for all texts and positions.
"""
import ast
from pa.interp import *
from pa import model

TEXT = T("in", "text")
TOTAL = sym(T("len", TEXT, 0))
POS = sym(T("in", "pos"))
NEEDLE = T("needle")
NLEN = sym(T("len", NEEDLE, 0))
RX = T("rx")
DACT = T("default action")
DTGT = T("default target lexicon")


def pat(i):
    return T("pattern", num(i))


def act(i):
    return T("action", num(i))


def tgt(i):
    return T("to", num(i))


class H(Hooks):
    opaque = ("to_string", "needs_evaluation", "evaluate_rule", "TargetFactory.make", "pre_evaluate_rule")

    def __init__(self, me, npat, default, dynamic, literal, target, marks):
        self.me, self.npat, self.default, self.dynamic, self.literal, self.target = me, npat, default, dynamic, literal, target
        rules = [Tup((pat(i), act(i), tgt(i))) for i in range(npat)]
        if default:
            rules.insert(npat // 2, Tup((marks[0], DACT)))
        if target:
            rules.insert(0, Tup((marks[1], DTGT)))
        self.rules = Tup(rules)
        self.parsing = False
        self.idx = [sym(T("group", num(i))) for i in range(npat)]

    # -- creating the function
    def attr(self, it, st, base, name):
        if base == self.me and name in ("rules", "_rules"):
            return self.rules
        if base == self.me and name == "re_flags":
            return num({"ignorecase": 2, "verbose": 64}.get(self.literal, 0))
        if name in ("IGNORECASE", "I", "VERBOSE", "X") and isinstance(base, ExtV) and base.name == "re":
            return num(2 if name[0] == "I" else 64)
        if isinstance(base, Term) and base.op == "match" and name == "lastindex":
            t = T("lastindex", base)
            return sym(t)

    def typeof(self, it, st, val):
        return None

    def compare(self, it, st, op, a, b, node):
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            for x, y in ((a, b), (b, a)):
                if x == DACT or isinstance(x, Term) and x.op in ("pattern", "action", "to"):
                    if True:
                        eq = x == y
                        return [(st, eq if op in ("Eq", "Is") else not eq)]
                if x == NEEDLE and isinstance(y, Term) and y.op == "part":
                    lo, hi = y.args
                    s2 = st.copy()
                    r = []
                    at = it.as_lin(st, lo)
                    ok = st.entails_eq(hi - lo - NLEN)
                    if not ok:
                        return None
                    if st.assume(TOTAL - hi) is not None:
                        st.setg("at", at).setg("stuck", num(-1))
                        self.search(it, st, at, at, "match", node, True)
                        r.append((st, op == "Eq"))
                    s2.setg("at", num(-1))
                    self.search(it, s2, at, None, "match", node, True)
                    r.append((s2, op != "Eq"))
                    return r
        if op in ("In", "NotIn") and isinstance(a, Term) and a.op == "pattern":
            items = it.exact_items(st, b)
            if items is not None:
                return [(st, (a in items) == (op == "In"))]

    def search(self, it, st, a, found, kind, node, literal=False):
        """A search from a: it must start where the last token ended."""
        if not self.parsing:
            return
        f = it.stack[-1].func if it.stack else None
        if not isinstance(f, (type(None), model.Func)):
            f = None
        cur = st.g("cur")
        if literal and self.literal == "ignorecase":
            it.oblige("search", False, node, f, st, "a pattern that ignores case is searched literally")
        if literal and self.literal == "verbose":
            it.oblige("search", False, node, f, st, "a verbose pattern, where whitespace means nothing, is searched literally")
        it.oblige("search", a is not None and st.entails_eq(a - it.as_lin(st, cur)), node, f, st,
                  "the text is searched from {} instead of {}".format(a, cur))
        st.setg("kind", Const(kind))
        st.setg("found", found if found is not None else num(-1))

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label.endswith("needs_evaluation"):
            x = it.exact_items(st, args[0]) if args and isinstance(args[0], (Obj, Tup)) else None
            # either the action or the target may be what needs evaluation
            part = tgt if self.dynamic == "rule" else act
            there = x is None or any(part(i) in x for i in range(self.npat))
            return [(st, TRUE if self.dynamic.startswith("rule") and there else FALSE)]
        if label.endswith("to_string"):
            if self.literal:
                st.facts[("truth", NEEDLE)] = True
                st.facts[("isnone", NEEDLE)] = False
                st.assume(NLEN - 1)
                return [(st, NEEDLE)]
            return [(st, NONE)]
        if label.endswith("TargetFactory.make") or label.endswith(".make") and len(args) == 2:
            r = args[-1]
            lx = args[-2] if len(args) > 1 else None
            it.oblige("action", lx == self.me, node, it.stack[-1].func if it.stack and isinstance(it.stack[-1].func, model.Func) else None, st,
                      "a number in a target means the lexicon {}, not the current one".format(lx))
            x = it.exact_items(st, r) if isinstance(r, (Obj, Tup)) else None
            if x is None:
                t = T("target of", r) if isinstance(r, Term) else T("target of", NONE)
            else:
                if not x:
                    return [(st, NONE)]
                t = T("target of", *x)
            if t in (T("target of", DTGT),) or x is not None:
                st.facts[("truth", t)] = True
                st.facts[("isnone", t)] = False
            return [(st, t)]
        if label.endswith("evaluate_rule") and not label.endswith("pre_evaluate_rule") and len(args) >= 2:
            # an evaluated rule: its action and its targets
            r = args[0]
            x = it.exact_items(st, r) if isinstance(r, (Obj, Tup)) else None
            if x is not None:
                return [(st, Tup(T("evaluated", i, args[1]) for i in x))]
        if label in ("re.compile",):
            return [(st, RX)]
        if label == ".join" or label.endswith(".format") and not self.parsing:
            return [(st, T("rxtext"))] if not self.parsing else None
        if label == "sorted" and not self.parsing:
            return [(st, it.new_list(st, self.idx, "indices"))]
        if label == ".evaluate" and recv == DACT and args:
            d = args[0]
            t = None
            if isinstance(d, Obj):
                t = st.heap.get((d, ("key", "text")))
                x = st.heap.get((d, "#val"))
                if isinstance(x, Term) and x.op == "dict":
                    t = dict(x.args[0]).get(Const("text"), t)
            return [(st, T("dyn", t if t is not None else NONE))]
        if label == "isinstance" and args and not self.parsing and isinstance(args[1], ClsV) and args[1].cls.find_method("evaluate"):
            return [(st, TRUE if self.dynamic == "default" and args[0] == DACT else FALSE)]
        if label == ".find" and recv == TEXT and len(args) in (1, 2) and args[0] == NEEDLE:
            a = it.as_lin(st, args[1]) if len(args) > 1 else num(0)
            if a is None:
                return None
            s2 = st.copy()
            v = it.freshint("i")
            st.assume(v - a, TOTAL - v - NLEN)
            self.search(it, st, a, v, "find", node, True)
            st.setg("at", v)
            self.search(it, s2, a, None, "find", node, True)
            s2.setg("at", num(-1))
            return [(st, v), (s2, num(-1))]
        if label == ".startswith" and recv == TEXT and args and args[0] == NEEDLE:
            a = it.as_lin(st, args[1]) if len(args) > 1 else num(0)
            s2 = st.copy()
            st.setg("at", a)
            self.search(it, st, a, a, "match", node, True)
            st.assume(TOTAL - a - NLEN)
            self.search(it, s2, a, None, "match", node, True)
            s2.setg("at", num(-1))
            return [(st, TRUE), (s2, FALSE)]
        if label in (".finditer",) and recv == RX:
            a = it.as_lin(st, args[1]) if len(args) > 1 else num(0)
            ok = args and args[0] == TEXT
            if not ok or a is None:
                return None
            return [(st, T("finditer", a))]
        if label in (".match", ".search", ".fullmatch") and recv == RX and args and args[0] == TEXT:
            a = it.as_lin(st, args[1]) if len(args) > 1 else num(0)
            s2 = st.copy()
            m = T("match", next(it.counter))
            self.learn(st, m, a)
            if label != ".search":
                st.assume_eq(sym(T("start", m)) - a)
            self.search(it, st, a, sym(T("start", m)), "find" if label == ".search" else "match", node)
            self.search(it, s2, a, None, "find" if label == ".search" else "match", node)
            st.facts[("truth", m)] = True
            st.facts[("isnone", m)] = False
            return [(st, m), (s2, NONE)]
        if isinstance(recv, Term) and recv.op == "match" and not args or \
                isinstance(recv, Term) and recv.op == "match" and args == [num(0)]:
            if label in (".start", ".end"):
                return [(st, sym(T(label[1:], recv)))]
            if label == ".group":
                return [(st, T("group", recv))]
            if label == ".span":
                return [(st, Tup((sym(T("start", recv)), sym(T("end", recv)))))]
        if label == "len" and args and args[0] == NEEDLE:
            return [(st, NLEN)]
        return None

    def learn(self, st, m, a):
        s, e = sym(T("start", m)), sym(T("end", m))
        st.assume(s - a, e - s, TOTAL - e)

    def iter_start(self, it, st, seq, node):
        if isinstance(seq, Term) and seq.op == "finditer":
            return st.copy().setg("fend", seq.args[0]) or st
        return None

    def iter_elem(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and seq.op == "finditer":
            m = T("match", next(it.counter))
            a = it.as_lin(st, st.g("fend"))
            self.learn(st, m, a)
            self.search(it, st, a, sym(T("start", m)), "find", node)
            st.setg("fend", sym(T("end", m)))
            st.facts[("truth", m)] = True
            st.facts[("isnone", m)] = False
            return [(st, m)]

    def iter_done(self, it, st, seq, k, node):
        if isinstance(seq, Term) and seq.op == "finditer":
            self.search(it, st, it.as_lin(st, st.g("fend")), None, "find", node)
            return [st]

    def getitem(self, it, st, base, key, node):
        if base == TEXT and isinstance(key, SliceV) and key.step in (None, NONE):
            lo = it.as_lin(st, key.lo) if key.lo not in (None, NONE) else num(0)
            hi = it.as_lin(st, key.hi) if key.hi not in (None, NONE) else TOTAL
            if lo is None or hi is None:
                return None
            return [(st, T("part", lo, hi))]
        if isinstance(base, Obj) and isinstance(key, Lin) and len(key.c) == 1 and isinstance(key.c[0][0], Term) and key.c[0][0].op == "lastindex":
            if not any(k[0] == base and isinstance(k[1], tuple) and k[1][0] == "slot" for k in st.heap):
                # nothing was stored
                return [(st, NONE)]
            out = []
            for j, i in enumerate(self.idx):
                s = st.copy()
                if s.assume_eq(key - i) is None:
                    continue
                v = s.heap.get((base, ("slot", i)), NONE)
                out.append((s, v))
            return out
        if isinstance(base, Obj) and isinstance(key, Lin) and any(key == i for i in self.idx):
            return [(st, st.heap.get((base, ("slot", key)), NONE))]

    def setitem(self, it, st, base, key, val, node):
        if isinstance(base, Obj) and isinstance(key, Lin) and any(key == i for i in self.idx):
            st.heap[(base, ("slot", key))] = val
            return [(st, None)]
        if isinstance(base, Obj) and isinstance(key, Const):
            st.heap[(base, ("key", key.v))] = val


def yielded(it, st, h, v, node, f):
    """A token is produced by the parse function."""
    if not isinstance(v, Tup) or len(v.items) != 5:
        it.oblige("slice", None, node, f, st)
        return st
    p, t, m, a, g = v.items
    cur = it.as_lin(st, st.g("cur"))
    p = it.as_lin(st, p)
    if p is None:
        it.oblige("slice", None, node, f, st)
        return st
    ln = None
    kind = None
    if isinstance(t, Term) and t.op == "part":
        kind, ln = "default", t.args[1] - t.args[0]
        it.oblige("slice", st.entails_eq(t.args[0] - p) and st.entails(ln) and st.entails(TOTAL - t.args[1]), node, f, st,
                  "the text of a token at {} is text[{}:{}]".format(p, t.args[0], t.args[1]))
    elif t == NEEDLE:
        kind, ln = "rule", NLEN
        at = it.as_lin(st, st.g("at")) if st.g("at") is not None else None
        it.oblige("slice", at is not None and st.entails_eq(at - p), node, f, st,
                  "the literal was found at {}, not at {}".format(at, p))
    elif isinstance(t, Term) and t.op == "group":
        mm = t.args[0]
        kind, ln = "rule", sym(T("end", mm)) - sym(T("start", mm))
        it.oblige("slice", st.entails_eq(p - sym(T("start", mm))), node, f, st, "the match starts at {}, not at {}".format(sym(T("start", mm)), p))
        it.oblige("match", m == mm, node, f, st, "the match object does not come with its text")
    elif t == Const(""):
        kind, ln = "target", num(0)
    else:
        it.oblige("slice", None, node, f, st, "text {}".format(t))
        return st
    it.oblige("order", st.entails(p - cur), node, f, st, "a token starts at {} before the end of the last one at {}".format(p, cur))
    if h.default or h.target:
        it.oblige("no-gap", st.entails_eq(p - cur), node, f, st,
                  "the text from {} to {} is skipped".format(cur, p))
    if kind == "default":
        exp = T("dyn", t) if h.dynamic == "default" else DACT
        it.oblige("action", h.default and a == exp and g == NONE and m == NONE, node, f, st,
                  "text that no pattern matches gets action {} and target {}".format(a, g))
        # such text must not contain the start of a match
        fd = it.as_lin(st, st.g("found"))
        e = t.args[1]
        it.oblige("unmatched", st.entails_eq(fd - e) or st.entails_eq(fd + 1) and st.entails_eq(e - TOTAL), node, f, st,
                  "default text ends at {}, the next match starts at {}".format(e, fd))
    elif kind == "target":
        it.oblige("action", h.target and not h.default and g == T("target of", DTGT), node, f, st,
                  "the default target is not followed, but {}".format(g))
        it.oblige("unmatched", st.entails_eq(it.as_lin(st, st.g("found")) + 1) if st.g("kind") is not None else h.npat == 0, node, f, st,
                  "the default target is followed although a pattern matches")
        it.oblige("no-gap", st.entails(TOTAL - cur - 1), node, f, st, "the default target is followed at the end of the text")
    else:
        if t == NEEDLE:
            exp = [(act(0), T("target of", tgt(0)))]
            ok = (a, g) in exp and not h.dynamic.startswith("rule")
        else:
            li = sym(T("lastindex", t.args[0]))
            ok = None
            for j, i in enumerate(h.idx):
                if st.entails_eq(li - i):
                    if h.dynamic.startswith("rule"):
                        ok = (a, g) == (T("evaluated", act(j), t.args[0]), T("target of", T("evaluated", tgt(j), t.args[0])))
                    else:
                        ok = (a, g) == (act(j), T("target of", tgt(j)))
        it.oblige("action", ok, node, f, st, "a match gets action {} and target {}".format(a, g))
        fd = it.as_lin(st, st.g("found"))
        it.oblige("unmatched", st.entails_eq(fd - p), node, f, st, "the token at {} is not the match that was found at {}".format(p, fd))
    st = st.copy()
    st.setg("cur", p + ln)
    if kind == "rule":
        st.setg("found", num(-2))
    st.setg("last", Const(kind))
    return st


def one(factory, P, npat, default, dynamic, literal, target):
    c = P.cls("lexicon.Lexicon")
    f = c.find_method("_get_parse_function")
    if f is None:
        for g in c.methods.values():
            if any(isinstance(n, ast.Attribute) and n.attr in ("finditer", "groupindex") for n in ast.walk(g.node)):
                f = g
    if f is None:
        raise model.AnchorLost("the method of Lexicon that creates the parse function")
    me = Obj(0, c, "self")
    marks = []
    h = H.__new__(H)
    it0 = factory(Hooks())
    for n in ("default_action", "default_target"):
        marks.append(T("mark", n))
    h.__init__(me, npat, default, dynamic, literal, target, marks)
    h.marks = dict(zip(("default_action", "default_target"), marks))
    orig = h.attr

    def attr(it, st, base, name):
        if isinstance(base, ModV) and name in h.marks:
            return h.marks[name]
        return orig(it, st, base, name)
    h.attr = attr
    cmp_ = h.compare

    def compare(it, st, op, a, b, node):
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Term) and x.op == "mark":
                    eq = x == y
                    return [(st, eq if op in ("Eq", "Is") else not eq)]
        return cmp_(it, st, op, a, b, node)
    h.compare = compare
    it = factory(h)
    st = State()
    st.assume(TOTAL, POS, TOTAL - POS)
    for i, x in enumerate(h.idx):
        st.assume(x - 1 if i == 0 else x - h.idx[i - 1] - 1)
    for a in [act(i) for i in range(npat)] + [DACT, DTGT]:
        st.facts[("isnone", a)] = False
    for s, v in it.run_fn(st, FnV(f, None, None, f.cls), {f.arg_names()[0]: me}, None, None):
        if isinstance(v, Raised) or not isinstance(v, FnV):
            it.oblige("function", None, f.node, f, s, "{}".format(v))
            continue
        h.parsing = True
        s = s.copy()
        s.setg("cur", POS).setg("found", num(-2) if npat else num(-1)).setg("kind", NONE).setg("at", num(-1)).setg("last", NONE)
        pf = v.func
        node = pf.node
        for s2, r in it.call_fn(s, v, [TEXT, POS], {}, node, None):
            if isinstance(r, Raised):
                it.oblige("slice", None, node, f, s2)
                continue

            def body(s3, val):
                return [(yielded(it, s3, h, val, node, f), NEXT)]
            for s3, o in it.iterate(s2, r, body, node, Frame(f, None, f.module)):
                if o != EXHAUST:
                    it.oblige("complete", None, node, f, s3)
                    continue
                cur = it.as_lin(s3, s3.g("cur"))
                fd = it.as_lin(s3, s3.g("found"))
                if h.default:
                    ok = s3.entails_eq(cur - TOTAL)
                    it.oblige("complete", ok, node, f, s3, "the text from {} to the end is lost".format(cur))
                elif h.target:
                    ok = s3.entails_eq(cur - TOTAL) or s3.g("last") == Const("target")
                    it.oblige("complete", ok, node, f, s3, "text remains, but the default target is not followed")
                elif npat:
                    it.oblige("complete", s3.entails_eq(fd + 1), node, f, s3, "the search ended although there may be more matches")
        h.parsing = False


CONFIGS = []
for _npat, _lit in ((0, False), (1, True), (1, "ignorecase"), (1, "verbose"), (1, False), (2, False)):
    for _d, _dyn in ((False, ""), (True, ""), (True, "default")):
        for _t in (False, True):
            if _d and _t and _npat != 2:
                pass
            CONFIGS.append((_npat, _d, _dyn, _lit, _t))
    if _npat and _lit in (False, True):
        CONFIGS.append((_npat, True, "rule", _lit, False))
        CONFIGS.append((_npat, False, "rule", _lit, True))
        CONFIGS.append((_npat, False, "rule action", _lit, False))


def run(ctx):
    P = ctx.program
    ctx.rule("slice", "the text of every token is the slice of the text at its position")
    ctx.rule("order", "no token starts before the end of the one before it")
    ctx.rule("no-gap", "with a default action or target no text is skipped")
    ctx.rule("search", "patterns are searched from the end of the last token")
    ctx.rule("unmatched", "text between matches contains no match; a match is yielded where it was found")
    ctx.rule("action", "every token gets the action and target of the rule that matched, or the default ones")
    ctx.rule("match", "the match object comes with the token it matched")
    ctx.rule("complete", "parsing ends only at the end of the text, at the default target, or if nothing matches any more")
    for cfg in CONFIGS:
        ctx.analyse(lambda fa: one(fa, P, *cfg))
    ctx.rule("groups", "actions that split a match give every part the position and text it has in the match, and drop only empty parts")
    ctx.analyse(lambda fa: run_actions(fa, P))
    ctx.rule("literal", "a pattern is searched literally only if it contains no special characters")
    literal(ctx, P)
    ctx.floor("slice", 1)
    ctx.floor("complete", 1)


def literal(ctx, P):
    """The characters that stop regex.to_string() from taking a pattern for plain text."""
    m = P.modules.get("parce.regex") or P.modules.get("regex")
    f = m.functions.get("to_string") if m else None
    if f is None:
        return
    found = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset") and len(n.args) == 1:
            a = n.args[0]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                found.append(a)
    if len(found) != 1:
        ctx.check("literal", f.short, None, "the set of special characters is not found", f.where)
        return
    missing = sorted(set("^$|.([{+*?") - set(found[0].value))
    ctx.check("literal", f.short, not missing, "patterns with {} are taken for plain text".format(" ".join(missing)), f.where)


# ---------------------------------------------------------------- actions that give more than one token

def parts(v):
    """All terms a value is made of."""
    out = {v} if isinstance(v, Term) else set()
    for a in getattr(v, "args", None) or ():
        if isinstance(a, Term):
            out |= parts(a)
        elif isinstance(a, Lin):
            for t, _ in a.c:
                out |= parts(t)
    return out


GPOS, GTEXT, GMATCH, LEXER = sym(T("in", "token pos")), T("in", "token text"), T("in", "match"), T("in", "lexer")


class Acts(Hooks):
    """The tokens an action yields lie where the match has them."""
    opaque = ("filter_actions", "events", "unroll", "evaluate", "replace", "Lexer.__init__")

    def __init__(self, main, kind):
        self.main, self.kind = main, kind

    def attr(self, it, st, base, name):
        if base == GMATCH and name == "lastindex":
            return sym(T("lastindex", GMATCH))
        if isinstance(base, Term) and base.op == "event" and name == "lexemes":
            return T("lexemes", base)
        if base == self.me and name == "_actions":
            return T("actions")

    def getitem(self, it, st, base, key, node):
        if isinstance(base, Term) and base.op == "event" and key in (num(1), num(-1)):
            return [(st, T("lexemes", base))]

    def typeof(self, it, st, val):
        return None

    def iter_elem(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and seq.op == "events":
            return [(st, T("event", next(it.counter)))]
        if isinstance(seq, Term) and seq.op == "lexemes":
            c = next(it.counter)
            st.facts[("isnone", T("sub text", c))] = False
            return [(st, Tup((sym(T("sub pos", c)), T("sub text", c), T("sub action", c))))]
        if seq == T("actions"):
            j = it.as_lin(st, k)
            if j is not None:
                return [(st, T("subaction", j))]

    def iter_next(self, it, st, seq, k, elem, node):
        if isinstance(seq, Term) and (seq.op == "lexemes" and self.kind == "delegate" or seq == T("actions") and self.kind == "groups"):
            empty = any(k[0] == "truth" and isinstance(k[1], Term) and k[1].op in ("group of", "sub text") and v is False
                        for k, v in st.facts.items() if isinstance(k, tuple) and len(k) == 2)
            it.oblige("groups", st.g("out") == TRUE or empty, node, self.main, st, "a part of the match is left out")
            st.setg("out", NONE)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.main
        if label.endswith("filter_actions") or label.endswith(".replace") or label.endswith("unroll") or label.endswith("evaluate"):
            st.setg("out", TRUE)
        if label.endswith("filter_actions") and len(args) == 4 and (self.kind == "groups" or self.kind == "one"):
            a, p, t, m = args
            if self.kind == "groups":
                ok = None
                p = it.as_lin(st, p)
                if isinstance(t, Term) and t.op == "group of" and p is not None and isinstance(a, Term) and a.op == "subaction":
                    want = sym(T("lastindex", GMATCH)) + 1 + a.args[0]
                    ok = m == GMATCH and st.entails_eq(t.args[0] - want) and st.entails_eq(p - sym(T("start of", t.args[0])))
                it.oblige("groups", ok, node, f, st, "subgroup action {} gets {} at {}".format(a, t, p))
            else:
                it.oblige("groups", it.as_lin(st, p) == GPOS and t == GTEXT and m == GMATCH, node, f, st, "the token is changed to {} {}".format(p, t))
            return [(st, T("filtered", *[x for x in args if isinstance(x, (Term, V, Lin))]))]
        if label.endswith(".replace") and len(args) == 4 and self.kind == "one":
            it.oblige("groups", it.as_lin(st, args[1]) == GPOS and args[2] == GTEXT and args[3] == GMATCH, node, f, st,
                      "the token is changed to {} {}".format(args[1], args[2]))
            return [(st, T("filtered", NONE))]
        if recv == GMATCH and label in (".start", ".group", ".end"):
            i = it.as_lin(st, args[0]) if args else num(0)
            if i is not None:
                return [(st, T("group of", i) if label == ".group" else sym(T(label[1:] + " of", i)))]
        if self.kind == "delegate" and (isinstance(recv, Term) and recv.op == "type" or label.endswith("Lexer")) and len(args) == 1:
            x = it.exact_items(st, args[0]) if isinstance(args[0], (Obj, Tup)) else None
            ok = len(x) == 1 if x is not None else False if LEXER in parts(args[0]) else None
            it.oblige("groups", ok, node, f, st, "the text is not lexed with just the delegate lexicon")
        if label.endswith(".events") or label.endswith("Lexer.events"):
            ok = args and args[0] == GTEXT and (len(args) == 1 or args[1] == num(0))
            it.oblige("groups", ok if self.kind == "delegate" else None, node, f, st, "the delegate lexicon gets {}".format(args))
            return [(st, T("events", next(it.counter)))]
        if label.endswith("evaluate"):
            return [(st, T("evaluated"))]
        if label.endswith("unroll"):
            return [(st, T("unrolled"))]

    def on_yield(self, it, st, func, v, node):
        if func is not self.main:
            return None
        st = st.copy().setg("out", TRUE)
        if isinstance(v, Tup) and len(v.items) == 3:
            p, t, a = v.items
            p = it.as_lin(st, p)
            ok = None
            if self.kind == "delegate" and isinstance(t, Term) and t.op == "sub text":
                c = t.args[0]
                ok = p is not None and p == GPOS + sym(T("sub pos", c)) and a == T("sub action", c)
            elif self.kind == "one":
                ok = p == GPOS and t == GTEXT and a == self.action
                n = it.len_of(st, GTEXT)
                ok = ok and (st.facts.get(("truth", GTEXT)) is True or n is not None and st.entails(n - 1))
            it.oblige("groups", ok, node, self.main, st, "a token {} {} {}".format(p, t, a))
        return st


def run_actions(factory, P):
    jobs = []
    for c in (c for n, m in sorted(P.modules.items()) if ".lang" not in n for c in m.classes.values()):
        if True:
            f = c.methods.get("replace")
            if f is not None and len(f.arg_names()) == 5:
                jobs.append((c, f))
    for c, f in jobs:
        src = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        kind = "delegate" if "events" in src else "groups" if src & {"start", "span", "group", "lastindex"} else None
        if kind is None:
            continue
        h = Acts(f, kind)
        h.me = Obj(0, c, "self")
        it = factory(h)
        st = State()
        st.assume(GPOS, sym(T("lastindex", GMATCH)))
        a = f.arg_names()
        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), dict(zip(a, (h.me, LEXER, GPOS, GTEXT, GMATCH))), None, None):
            pass
    c = P.cls("lexer.Lexer")
    f = c.find_method("filter_actions")
    if f is not None:
        h = Acts(f, "one")
        h.me = Obj(0, c, "self")
        h.action = T("in", "the action")
        it = factory(h)
        a = f.arg_names()
        st = State()
        st.assume(GPOS)
        for s, v in it.run_fn(st, FnV(f, None, None, f.cls), dict(zip(a, (h.me, h.action, GPOS, GTEXT, GMATCH))), None, None):
            if not isinstance(v, Raised) and s.g("out") != TRUE:
                n = it.len_of(s, GTEXT)
                it.oblige("groups", s.facts.get(("truth", GTEXT)) is False or n is not None and s.entails_eq(n), f.node, f, s,
                          "a token that is not empty is left out")
