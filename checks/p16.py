"""P16: the HTML that is written shows exactly the text, with the formats, whatever characters they contain."""
import html
import itertools
import re
import string
from pa.interp import *
from checks.p08 import Base, S

ALPHABET = [chr(c) for c in range(32, 127)] + ["\n", "\t", "\u00e9", "\u20ac"]
OTHER = "\u4e2d"        # stands for any character that is not mentioned
CURSOR = S("cursor")


def src(name):
    """A string of which nothing is known: a piece with the characters replaced so far (none)."""
    return S("str", S("src", name, ()))


def pieces(v):
    """The pieces of a string value, or None."""
    if isinstance(v, Const) and isinstance(v.v, str):
        return (v,)
    if isinstance(v, Term) and v.op == "stable" and v.args[0] == "str":
        return v.args[1:]
    if isinstance(v, Term) and v.op == "m" and v.args[0] == "join" and isinstance(v.args[1], Const) and isinstance(v.args[2][0], Tup):
        out = ()
        for i, x in enumerate(v.args[2][0].items):
            p = pieces(x)
            if p is None:
                return None
            out += ((v.args[1],) if i and v.args[1].v else ()) + p
        return out
    if isinstance(v, Term) and v.op == "Add":
        a, b = map(pieces, v.args)
        return None if a is None or b is None else a + b


def mkstr(ps):
    out = []
    for p in ps:
        if isinstance(p, Const):
            if not p.v:
                continue
            if out and isinstance(out[-1], Const):
                out[-1] = Const(out[-1].v + p.v)
                continue
        out.append(p)
    if all(isinstance(p, Const) for p in out):
        return Const("".join(p.v for p in out))
    return S("str", *out)


def replaced(ps, table):
    """Every character is replaced as the table (a function) says."""
    out = []
    for p in ps:
        if isinstance(p, Const):
            out.append(Const("".join(map(table, p.v))))
        else:
            old = dict(p.args[2])
            new = {}
            for c in set(ALPHABET) | {OTHER}:
                r = "".join(map(table, old.get(c, c)))
                if r != c:
                    new[c] = r
            out.append(S("src", p.args[1], tuple(sorted(new.items()))))
    return mkstr(out)


class Text(Base):
    def string(self, it, st, v):
        return pieces(v)

    def attr(self, it, st, base, name):
        pass

    def binop(self, it, st, op, a, b, node):
        if op == "Add":
            x, y = self.string(it, st, a), self.string(it, st, b)
            if x is not None and y is not None:
                return [(st, mkstr(x + y))]
        if op == "Mod" and isinstance(a, Const) and isinstance(a.v, str):
            items = list(b.items) if isinstance(b, Tup) else [b]
            parts = re.split(r"(%[%s])", a.v)
            out = []
            for p in parts:
                if p == "%s":
                    x = self.string(it, st, items.pop(0)) if items else None
                    if x is None:
                        return None
                    out.extend(x)
                elif "%" in p and p != "%%":
                    return None
                else:
                    out.append(Const("%" if p == "%%" else p))
            return [(st, mkstr(out))]

    def fstring(self, it, st, parts):
        out = []
        for p in parts:
            x = self.string(it, st, p)
            if x is None:
                return None
            out.extend(x)
        return mkstr(out)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == ".format" and isinstance(recv, Const) and isinstance(recv.v, str):
            v = self.format(it, st, recv.v, args, kwargs)
            if v is not None:
                return [(st, v)]
        x = self.string(it, st, recv) if recv is not None else None
        if label == ".replace" and x is not None and len(args) == 2 and all(isinstance(a, Const) and isinstance(a.v, str) for a in args) \
                and len(args[0].v) == 1 and not kwargs:
            return [(st, replaced(x, lambda c: args[1].v if c == args[0].v else c))]
        if label in (".strip", ".lstrip", ".rstrip", ".lower", ".upper", ".title", ".capitalize", ".expandtabs", ".swapcase", ".casefold") and x is not None \
                and all(not isinstance(p, Const) for p in x):
            return [(st, S("str", *[S("src", p.args[1], ((OTHER, "what %s() leaves" % label[1:]),)) for p in x]))]
        if label == ".translate" and x is not None and len(args) == 1:
            t = self.table(it, st, args[0])
            if t is not None:
                return [(st, replaced(x, lambda c: t.get(c, c)))]
        if label == "str.maketrans" and len(args) == 1:
            return [(st, args[0])]
        if label in ("html.escape", "xml.sax.saxutils.escape") and args and self.string(it, st, args[0]) is not None and len(args) <= 2:
            q = args[1] if len(args) > 1 else kwargs.get("quote", TRUE)
            if isinstance(q, Const) and label == "html.escape":
                return [(st, replaced(self.string(it, st, args[0]), lambda c: html.escape(c, bool(q.v))))]
            if len(args) == 1 and not kwargs:
                return [(st, replaced(self.string(it, st, args[0]), lambda c: html.escape(c, False)))]
        if label == "str" and len(args) == 1 and self.string(it, st, args[0]) is not None:
            return [(st, args[0])]
        if label == ".join" and isinstance(recv, Const) and len(args) == 1 and isinstance(recv.v, str):
            items = it.exact_items(st, args[0]) if isinstance(args[0], (Tup, Obj)) else None
            if items is not None:
                out = ()
                for i, v in enumerate(items):
                    p = self.string(it, st, v)
                    if p is None:
                        return None
                    out += ((recv,) if i else ()) + p
                return [(st, mkstr(out))]

    def table(self, it, st, v):
        d = v
        if isinstance(d, Obj):
            d = st.heap.get((d, "#val"))
        if isinstance(d, Term) and d.op == "dict":
            out = {}
            for k, x in d.args[0]:
                if not isinstance(k, (Const, Lin)) or not isinstance(x, Const):
                    return None
                k = k.v if isinstance(k, Const) else k.k
                out[chr(k) if isinstance(k, int) else k] = x.v or ""
            return out

    def format(self, it, st, text, args, kwargs):
        out = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(text):
                out.append(Const(lit))
                if field is None:
                    continue
                if spec or conv not in (None, "s"):
                    return None
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kwargs[field]
                x = self.string(it, st, v)
                if x is None:
                    return None
                out.extend(x)
        except (ValueError, LookupError):
            return None
        return mkstr(out)


# ---------------------------------------------------------------- reading the HTML

def decodes(table, attribute):
    """Why a string in which characters are replaced that way is not read as the string it was, or None."""
    t = dict(table)
    for c in ALPHABET + [OTHER]:
        r = t.get(c, c)
        if html.unescape(r) != c:
            return "{!r} becomes {!r}".format(c, r)
        if c in "&" and r == c:
            return "{!r} is not escaped".format(c)
        if ("<" in r and not attribute) or (attribute and attribute in r):
            return "{!r} is not escaped".format(c)
    return None


def read(ps):
    """Yield (kind, ...) for the pieces: ("open", name, [(attr, pieces)]), ("close", name), ("text", piece), ("error", what)."""
    state, buf = "text", ""
    tag, attr, quote, attrs, val = "", "", "", [], []
    for p in ps:
        if not isinstance(p, Const):
            if state == "text":
                yield ("text", p)
            elif state == "value":
                val.append(p)
            else:
                yield ("error", "something is inserted in a tag")
                return
            continue
        for c in p.v:
            if state == "text":
                if c == "<":
                    state, buf = "tag", ""
                else:
                    yield ("text", Const(c))
            elif state == "tag":
                if c in "\"'":
                    m = re.search(r"([\w-]+)\s*=\s*$", buf)
                    state, quote, attr, val = "value", c, m.group(1) if m else "", []
                    buf = buf[:m.start()] if m else buf
                elif c == ">":
                    b = buf.strip()
                    if b.startswith("/"):
                        yield ("close", b[1:].strip())
                    elif b.startswith("!"):
                        pass
                    else:
                        name = re.match(r"[\w-]*", b).group()
                        yield ("open", name, attrs, b.endswith("/") or name in ("meta", "br", "link", "img", "hr"))
                    attrs, state = [], "text"
                else:
                    buf += c
            elif c == quote:
                attrs.append((attr, quote, val))
                state = "tag"
            else:
                val.append(Const(c))
    if state != "text":
        yield ("error", "a tag is not closed")


def judge(it, st, f, v, items, attr):
    """items: [(name of the text, name of the format or None)]"""
    node = f.node
    ps = pieces(v)
    if ps is None:
        it.oblige("text", None, node, f, st)
        return
    todo = list(items)
    stack = []
    for e in read(ps):
        if e[0] == "error":
            it.oblige("tags", False, node, f, st, e[1])
            return
        if e[0] == "open":
            for name, quote, val in e[2]:
                for p in val:
                    if not isinstance(p, Const):
                        why = decodes(p.args[2], quote)
                        it.oblige("attributes", why is None, node, f, st, "in an attribute, {}".format(why))
                        if p.args[1][0] == "t":
                            it.oblige("text", False, node, f, st, "text is put in an attribute")
            if not e[3]:
                stack.append((e[1], e[2]))
        elif e[0] == "close":
            ok = bool(stack) and stack[-1][0] == e[1]
            it.oblige("tags", ok, node, f, st, "the tags do not match")
            if not ok:
                return
            stack.pop()
        elif isinstance(e[1], Const):
            it.oblige("text", False, node, f, st, "text is written that is not in the document")
            return
        else:
            name = e[1].args[1]
            want = todo.pop(0) if todo else (None, None)
            it.oblige("text", name == want[0], node, f, st, "text is left out, doubled or written in another order")
            if name != want[0]:
                return
            why = decodes(e[1].args[2], "")
            it.oblige("escaped", why is None, node, f, st, "in the text, {}".format(why))
            have = [x.args[1] for t in stack for n, q, val in t[1] for x in val if not isinstance(x, Const)]
            it.oblige("formats", have == ([want[1]] if want[1] else []), node, f, st,
                      "the text gets {} instead of {}".format(", ".join(have) or "no format", want[1] or "none"))
            if want[1] and have == [want[1]]:
                names = [n for t in stack for n, q, val in t[1] if any(not isinstance(x, Const) for x in val)]
                it.oblige("formats", names == [attr], node, f, st, "the format is in the attribute {}".format(names))
    it.oblige("text", not todo, node, f, st, "text is left out")
    it.oblige("tags", not stack, node, f, st, "a tag is not closed")


class Html(Text):
    opaque = ("format_document",)

    def __init__(self, items):
        self.items = items

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if fn is not None and fn.name == "format_document" or label == ".format_document":
            a = [x for x in list(args) + list(kwargs.values()) if not isinstance(x, Obj)]
            it.oblige("text", a[:1] == [CURSOR], node, self.fn(it), st, "the text of another cursor is written")
            out = []
            for t, f in self.items:
                out.append(Tup([src(t), src(f) if f else NONE]))
                for x in (src(t), src(f) if f else None):
                    if x is not None:
                        st.facts[("truth", x)] = True
                        st.facts[("isnone", x)] = False
            return [(st, Tup(out))]
        return Text.call(self, it, st, label, recv, args, kwargs, node, fn)


def run_html(factory, P):
    for cls, attr in (("out.html.HtmlFormatter", "style"), ("out.html.SimpleHtmlFormatter", "class")):
        c = P.cls(cls)
        f = c.find_method("html")
        for n in range(4):
            for fmts in itertools.product((None, "f0", "f1"), repeat=n):
                items = [("t%d" % i, x) for i, x in enumerate(fmts)]
                it = factory(Html(items))
                for s, v in it.run_fn(State(), FnV(f, None, None, c), dict(zip(f.arg_names(), (Obj(0, c, "self"), CURSOR))), None, None):
                    if isinstance(v, Raised):
                        it.oblige("text", False, f.node, f, s, "raises {}".format(v.exc.name))
                    else:
                        judge(it, s, f, v, items, attr)


def run_escape(factory, P):
    for name, attribute in (("escape", ""), ("attrescape", '"')):
        f = P.func("out.html." + name)
        it = factory(Text())
        for s, v in it.run_fn(State(), FnV(f), {f.arg_names()[0]: src("t")}, None, None):
            if isinstance(v, Raised):
                it.oblige("escaped", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            ps = pieces(v)
            if ps is None:
                it.oblige("escaped", None, f.node, f, s)
                continue
            ok = len(ps) == 1 and not isinstance(ps[0], Const)
            why = decodes(ps[0].args[2], attribute) if ok else "something is added"
            if ok and attribute and why is None:
                why = decodes(ps[0].args[2], "")
            it.oblige("escaped", why is None, f.node, f, s, why or "")


class Full(Text):
    opaque = ("baseformat", "html")

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        name = label.split(".")[-1]
        if name == "baseformat" and (fn is not None or isinstance(recv, Obj)):
            s2 = st.copy()
            st.facts[("truth", src("base"))] = True
            st.facts[("isnone", src("base"))] = False
            return [(st.setg("base", TRUE), src("base")), (s2.setg("base", FALSE), NONE)]
        if name == "html" and (fn is not None or isinstance(recv, Obj)):
            a = [x for x in list(args) + list(kwargs.values()) if not isinstance(x, Obj)]
            it.oblige("text", a == [CURSOR], node, self.fn(it), st, "the text of another cursor is written")
            return [(st, src("html"))]
        return Text.call(self, it, st, label, recv, args, kwargs, node, fn)


def run_full(factory, P):
    for cls in ("out.html.HtmlFormatter", "out.html.SimpleHtmlFormatter"):
        c = P.cls(cls)
        f = c.find_method("full_html")
        it = factory(Full())
        st = State()
        st.setg("base", NONE)
        n = f.arg_names()
        for s, v in it.run_fn(st, FnV(f, None, None, c), {n[0]: Obj(0, c, "self"), n[1]: CURSOR, n[2]: src("charset")}, None, None):
            if isinstance(v, Raised):
                it.oblige("text", False, f.node, f, s, "raises {}".format(v.exc.name))
                continue
            ps = pieces(v)
            if ps is None:
                it.oblige("text", None, f.node, f, s)
                continue
            stack, seen, based = [], 0, 0
            for e in read(ps):
                if e[0] == "error":
                    it.oblige("tags", False, f.node, f, s, e[1])
                elif e[0] == "open":
                    for name, quote, val in e[2]:
                        for p in val:
                            if not isinstance(p, Const):
                                if p.args[1] == "base":
                                    based += name == "style"
                                elif p.args[1] == "charset":
                                    continue
                                why = decodes(p.args[2], quote)
                                it.oblige("attributes", why is None, f.node, f, s, "in an attribute, {}".format(why))
                    if not e[3]:
                        stack.append(e[1])
                elif e[0] == "close":
                    ok = bool(stack) and stack[-1] == e[1]
                    it.oblige("tags", ok, f.node, f, s, "the tags do not match")
                    if not ok:
                        break
                    stack.pop()
                elif isinstance(e[1], Const):
                    it.oblige("text", e[1].v.isspace() and "pre" not in stack, f.node, f, s, "text is written that is not in the document")
                else:
                    ok = e[1].args[1] == "html" and not e[1].args[2] and "pre" in stack
                    it.oblige("text", ok, f.node, f, s, "the text is changed or not in a <pre> element" if e[1].args[1] == "html" else "something else is written as text")
                    seen += 1
            it.oblige("text", seen == 1, f.node, f, s, "the text is written {} times".format(seen))
            it.oblige("formats", based == (s.g("base") == TRUE), f.node, f, s, "the base format is left out or doubled")


class Css(Text):
    def __init__(self, n):
        self.n = n

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label.endswith(".css_properties"):
            return [(st, S("props"))]
        if label == ".items" and recv == S("props"):
            return [(st, Tup([Tup([src("p%d" % i), src("v%d" % i)]) for i in range(self.n)]))]
        if label == "sorted" and args and isinstance(args[0], Tup):
            return [(st, args[0])]
        return Text.call(self, it, st, label, recv, args, kwargs, node, fn)


def run_css(factory, P):
    f = P.func("out.html.inline_css")
    for n in range(3):
        it = factory(Css(n))
        for s, v in it.run_fn(State(), FnV(f), {f.arg_names()[0]: S("textformat")}, None, None):
            ps = pieces(v) if not isinstance(v, Raised) else None
            if ps is None:
                it.oblige("formats", False if isinstance(v, Raised) else None, f.node, f, s, "raises")
                continue
            text = "".join(p.v if isinstance(p, Const) else "{%s}" % p.args[1] if not p.args[2] else "?" for p in ps)
            want = r"\s*" + "".join(r"\{p%d\}\s*:\s*\{v%d\}\s*%s\s*" % (i, i, ";" if i < n - 1 else ";?") for i in range(n))
            it.oblige("formats", bool(re.fullmatch(want, text)), f.node, f, s, "the properties are written as {}".format(text))


def run(ctx):
    P = ctx.program
    ctx.rule("escaped", "every character of the text is written such that it is read back as that character")
    ctx.rule("attributes", "what is inserted in an attribute is read back as it was")
    ctx.rule("text", "all text is written, once, in order, and no other")
    ctx.rule("formats", "every piece of text has the format that belongs to it")
    ctx.rule("tags", "the tags are complete and match")
    for r in (run_escape, run_html, run_full, run_css):
        ctx.analyse(lambda factory, r=r: r(factory, P), budget=60000)
    for r in ctx.rules:
        ctx.floor(r, 1)
    ctx.assume("HTML is read as the entities and quoting rules of HTML 5 say (the entity table of the standard library)")
