"""P17: loading and saving documents keep the text."""
import ast
import codecs
from pa.interp import *
from pa import model

UNK = Const("?")
URL, ENC, NL, ERRORS = T("in", "url"), T("in", "encoding"), T("in", "newline"), T("in", "errors")
REG, MIME, WORKER, TRANS = T("in", "registry"), T("in", "mimetype"), T("in", "worker"), T("in", "transformer")
SELFURL, SELFENC, TEXT, LEX = T("document's url"), T("document's encoding"), T("text"), T("lexicon")
DATA, REST, BOM = T("data"), T("data after the mark"), T("encoding of the mark")
RAW, DEF = T("encoding found"), T("default encoding")
FILE, BUF, WRAP = T("file"), T("buffer"), T("wrapper")
WRAP_NAMES = ("buffer", "encoding", "errors", "newline", "line_buffering", "write_through")
OPEN_NAMES = ("file", "mode", "buffering", "encoding", "errors", "newline", "closefd", "opener")
FIND_NAMES = ("name", "filename", "mimetype", "contents")


def bound(names, args, kwargs):
    b = dict(zip(names, args))
    b.update(kwargs)
    return b


def strip(v):
    while isinstance(v, Term) and v.op == "entered":
        v = v.args[0]
    return v


class IOHooks(Hooks):
    opaque = ("util.language_sister_class",)
    max_states = max_unrolled = 4000

    def __init__(self, P, lex=None):
        self.P, self.lex = P, lex
        self.calls = []

    def fn(self, it):
        return next((f.func for f in reversed(it.stack) if f.func is not None), None)

    def fails(self, st, node, what, exc="any"):
        s = st.copy().setg("failed", TRUE)
        s.note(getattr(node, "lineno", 0), what, "fails")
        return (s, Raised(Exc(exc)))

    def attr(self, it, st, base, name):
        if isinstance(base, Term) and base.op == "codec" and name == "name":
            return base.args[0]     # the same encoding
        if base == T("cls"):
            m = self.P.cls("Document").find_method(name)
            if m is not None and "classmethod" in m.decorator_names():
                return FnV(m, None, base, m.cls)
        if base == T("h") and name in ("find_encoding", "default_encoding"):
            return T("attr", base, name, 0)

    def missing(self, it, st, base, name):
        return None

    # ---- coding
    def validity(self, it, st, v, node):
        """[(state, valid)] of the encoding name v"""
        if isinstance(v, Const) and isinstance(v.v, str):
            try:
                codecs.lookup(v.v)
                return [(st, True)]
            except LookupError:
                return [(st, False)]
        k = st.facts.get(("truth", T("valid", v)))
        if k is not None:
            return [(st, k)]
        s2 = st.copy()
        st.facts[("truth", T("valid", v))] = True
        s2.facts[("truth", T("valid", v))] = False
        s2.note(getattr(node, "lineno", 0), "unknown encoding")
        return [(st, True), (s2, False)]

    def choice(self, it, st, order):
        """[(state, encoding)] the first usable encoding of order: (value, must be valid)"""
        if not order:
            return [(st, UNK)]
        (v, check), rest = order[0], order[1:]
        out = []
        for s, t in it.truth(st, v):
            if not t:
                out.extend(self.choice(it, s, rest))
            elif not check:
                out.append((s, v))
            else:
                for s2, ok in self.validity(it, s, v, None):
                    if ok:
                        out.append((s2, v))
                    else:
                        out.extend(self.choice(it, s2, rest))
        return out

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        f = self.fn(it)
        recv = strip(recv)
        name = label.split(".")[-1]
        if label == "isinstance" and args and args[0] == LEX:
            return [(st, FALSE)]
        if label in ("open", "io.open", "codecs.open"):
            b = bound(OPEN_NAMES, args, kwargs)
            mode = b.get("mode", Const("r"))
            st.setg("opened", TRUE)
            st.setg("path", b.get("file", UNK)).setg("mode", mode)
            if not isinstance(mode, Const):
                it.imprecise(st, "unknown mode", node)
            elif set(mode.v) & set("wax+"):
                self.at_open(it, st, node, b)
            return [(st, FILE), self.fails(st, node, "opening", "OSError")]
        if recv == FILE and name == "read" and label.startswith("."):
            m = st.g("mode")
            it.oblige("whole", not args and not kwargs, node, f, st, "only a part of the file is read")
            it.oblige("whole", isinstance(m, Const) and "b" in m.v, node, f, st, "the file is not read as bytes")
            return [(st, DATA), self.fails(st, node, "reading")]
        if recv == FILE and name == "write" and label.startswith("."):
            self.at_write(it, st, args[0] if args else UNK, node)
            return [(st, T("count")), self.fails(st, node, "writing")]
        if recv == FILE and name in ("flush", "close"):
            if name == "close":
                st.setg("closed", TRUE)
            return [(st, NONE), self.fails(st, node, "closing")]
        if label == "docio.localfile" and self.symbolic_local:
            return [(st, T("local", args[0])), self.fails(st, node, "localfile", "ValueError")]
        if label.endswith("util.get_bom_encoding"):
            it.oblige("mark", args == [DATA], node, f, st, "the byte order mark is searched elsewhere")
            out = []
            s = st.copy()
            s.facts[("truth", BOM)] = True
            s.facts[("isnone", BOM)] = False
            s.facts[("truth", T("valid", BOM))] = True
            s.note(getattr(node, "lineno", 0), "byte order mark")
            out.append((s, Tup([BOM, REST])))
            st.note(getattr(node, "lineno", 0), "no byte order mark")
            st.setg("nomark", TRUE)
            out.append((st, Tup([NONE, REST])))
            return out
        if label == "codecs.lookup":
            return [(s, T("codec", args[0]) if ok else Raised(Exc("LookupError"))) for s, ok in self.validity(it, st, args[0], node)]
        if label.endswith("BytesIO"):
            st.setg("buffered", args[0] if args else NONE).setg("flushed", TRUE)
            return [(st, BUF)]
        if label.endswith("TextIOWrapper"):
            b = bound(WRAP_NAMES, args, kwargs)
            if b.get("buffer") != BUF:
                it.imprecise(st, "another buffer", node)
            for n in ("encoding", "errors", "newline"):
                st.setg("wrap " + n, b.get(n, NONE))
            return [(st, WRAP)]
        if recv == WRAP and label.startswith("."):
            if name == "read":
                it.oblige("whole", not args or args == [NONE], node, f, st, "only a part of the text is decoded")
                v = T("decoded", st.g("buffered"), st.g("wrap encoding"), st.g("wrap errors"), st.g("wrap newline"))
                return [(st, v), self.fails(st, node, "decoding", "UnicodeDecodeError")]
            if name == "write":
                it.oblige("complete", st.g("pending") == NONE, node, f, st, "the text is written more than once")
                st.setg("pending", args[0]).setg("flushed", FALSE)
                return [(st, T("count")), self.fails(st, node, "encoding", "UnicodeEncodeError")]
            if name in ("flush", "detach", "close"):
                st.setg("flushed", TRUE)
                return [(st, NONE)]
        if recv == BUF and name == "getvalue":
            it.oblige("complete", st.g("flushed") == TRUE, node, f, st, "the encoded text is taken before it was flushed: a part is missing")
            return [(st, T("encoded", st.g("pending"), st.g("wrap encoding"), st.g("wrap errors"), st.g("wrap newline")))]
        if recv == BUF and name in ("seek", "tell"):
            it.imprecise(st, "moves in the buffer", node)
        if name == "decode" and label.startswith("."):
            return [(st, T("snippet"))]
        if label.endswith("language_sister_class"):
            ok = len(args) >= 4 and args[3] == TRUE or kwargs.get("try_parents") == TRUE
            lex = self.lex if self.lex is not None else st.g("found")
            it.oblige("language", ok and args[:1] == [T("attr", lex, "language", 0)], node, f, st,
                      "not the handler of the language (or of the language it is derived from) is used")
            s2 = st.copy().setg("own handler", FALSE)
            st.setg("own handler", TRUE)
            st.facts[("truth", T("IO class"))] = True
            return [(st, T("IO class")), (s2, NONE)]
        if recv == T("IO class") and not args:
            return [(st, T("h"))]
        if label.endswith("docio.IO"):
            lex = self.lex if self.lex is not None else st.g("found")
            it.oblige("language", lex == NONE or st.facts.get(("truth", lex)) is False or st.g("own handler") == FALSE, node, f, st,
                      "the handler of the language is not used")
            return [(st, T("h"))]
        if recv == T("h") and name == "find_encoding":
            a = args[0] if args else UNK
            it.oblige("language", self.is_text(a), node, f, st, "the encoding is not searched in the text but in {}".format(a))
            return [(st, RAW)]
        if recv == T("h") and name == "default_encoding":
            return [(st, DEF)]
        if recv == REG or recv in (T("in", "parce.registry.registry"), T("default registry")) or isinstance(recv, Obj) and name == "find" and \
                isinstance(recv.cls, model.Class) and recv.cls.name == "Registry":
            if name == "find":
                st.setg("found", T("find", recv if recv == REG else T("default registry"),
                                   *[bound(FIND_NAMES, args, kwargs).get(n, NONE) for n in FIND_NAMES]))
                return [(st, st.g("found"))]
        if label == "os.path.basename":
            return [(st, T("basename", args[0]))]

    symbolic_local = True

    def is_text(self, v):
        if v == T("snippet") or v == TEXT:
            return True
        return isinstance(v, Term) and v.op == "slice" and v.args[0] == TEXT and (v.args[1] in (NONE, num(0)))

    def leave(self, it, st, val, exc, node):
        if strip(val) == FILE:
            return st.setg("closed", TRUE)
        if strip(val) == WRAP:
            return st.setg("flushed", TRUE)

    def at_open(self, it, st, node, b):
        pass

    def at_write(self, it, st, v, node):
        pass


def fresh_state():
    st = State()
    for n in ("opened", "closed", "written", "failed", "flushed", "nomark", "own handler", "cleared"):
        st.setg(n, FALSE)
    st.setg("own handler", UNK)
    for n in ("path", "mode", "pending", "buffered", "wrap encoding", "wrap errors", "wrap newline", "found"):
        st.setg(n, NONE)
    return st


class Save(IOHooks):
    def __init__(self, P, me, lex):
        super().__init__(P, lex)
        self.me = me

    def attr(self, it, st, base, name):
        if base == self.me:
            if name in ("url", "encoding"):
                return st.g("doc " + name)
        return super().attr(it, st, base, name)

    def setattr(self, it, st, base, name, val, node):
        f = self.fn(it)
        if base == self.me and name in ("url", "encoding"):
            given = URL if name == "url" else ENC
            it.oblige("attributes", val == given and st.facts.get(("truth", given)) is not False or val == st.g("doc " + name), node, f, st,
                      "the document's {} is set to {}".format(name, val))
            st.setg("doc " + name, val)
            return [(st, None)]
        if base == self.me and name == "modified":
            ok = val == FALSE and st.g("written") == TRUE and st.g("closed") == TRUE
            it.oblige("modified", ok, node, f, st, "the document is set to {} before the text is written and the file closed"
                      .format("unmodified" if val == FALSE else "modified"))
            st.setg("cleared", TRUE)
            return [(st, None)]

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if recv == self.me and fn is not None and fn.name == "text":
            return [(st, TEXT)]
        if recv == self.me and fn is not None and fn.name == "root_lexicon":
            return [(st, self.lex if self.lex is not None else NONE)]
        if fn is not None and (fn.name in ("to_bytes", "encode_text")):
            it.oblige("encode first", st.g("opened") != TRUE, node, self.fn(it), st,
                      "the text is encoded when the file is already overwritten: if it cannot be encoded, the old contents is lost")
        return super().call(it, st, label, recv, args, kwargs, node, fn)

    def at_open(self, it, st, node, b):
        f = self.fn(it)
        it.oblige("path", b.get("file") == T("local", st.g("doc url")), node, f, st, "the file that is written is {}".format(b.get("file")))
        it.oblige("path", st.g("doc url") == URL if st.facts.get(("truth", URL)) else None if ("truth", URL) not in st.facts else
                  st.g("doc url") == SELFURL, node, f, st, "another file than the given one is written")
        it.oblige("encode first", st.g("pending") == TEXT, node, f, st,
                  "the file is opened for writing, and its contents discarded, before the text is encoded: if that fails the contents is lost")
        m = b.get("mode")
        it.oblige("path", isinstance(m, Const) and "w" in m.v and "b" in m.v, node, f, st, "the file is opened with mode {}".format(m))

    def at_write(self, it, st, v, node):
        f = self.fn(it)
        it.oblige("complete", st.g("written") == FALSE, node, f, st, "the text is written twice")
        st.setg("written", TRUE)
        check_encoded(it, self, st, v, node, f, [(ENC, False), (SELFENC, False)])


def check_encoded(it, h, st, v, node, f, first):
    ok = isinstance(v, Term) and v.op == "encoded"
    it.oblige("complete", ok and v.args[0] == TEXT, node, f, st, "{} is written".format(v))
    if not ok:
        return
    it.oblige("lossless", v.args[2] == NONE or v.args[2] == Const("strict"), node, f, st, "characters that cannot be encoded are replaced or dropped")
    it.oblige("newline", v.args[3] == NL, node, f, st, "the newline option {} is used".format(v.args[3]))
    for s, e in h.choice(it, st.copy(), first + [(RAW, True)]):
        if e == UNK:        # the default
            for s2, d in h.choice(it, s, [(DEF, True), (Const("utf-8"), False)]):
                ok = v.args[1] in (d, Const("utf-8"))
                it.oblige("encoding", ok, node, f, s2, "the text is encoded in {}, not in {}".format(v.args[1], d))
        else:
            it.oblige("encoding", v.args[1] == e, node, f, s, "the text is encoded in {}, not in {}".format(v.args[1], e))


def run_save(factory, P):
    c = P.cls("Document")
    f = c.find_method("save")
    for lex in (LEX, None):
        me = Obj(0, c, "self")
        h = Save(P, me, lex)
        it = factory(h)
        st = fresh_state()
        st.setg("doc url", SELFURL).setg("doc encoding", SELFENC)
        if lex is not None:
            st.facts[("truth", LEX)] = True
        n = f.arg_names()
        for s, v in it.run_fn(st, FnV(f, None, None, c), {n[0]: me, "url": URL, "encoding": ENC, "newline": NL}, None, None):
            if isinstance(v, Raised):
                it.oblige("modified", s.g("failed") == TRUE or v.exc.name in ("LookupError", "any"), f.node, f, s, "save raises {}".format(v.exc.name))
                it.oblige("modified", s.g("cleared") == FALSE, f.node, f, s, "saving failed, but the document is set unmodified")
                continue
            it.oblige("hidden", s.g("failed") == FALSE, f.node, f, s, "saving fails without an exception")
            it.oblige("complete", s.g("written") == TRUE and s.g("closed") == TRUE, f.node, f, s, "nothing is written, or the file is not closed")
            it.oblige("modified", s.g("cleared") == TRUE, f.node, f, s, "after saving the document is still modified")
            for name, given, old in (("url", URL, SELFURL), ("encoding", ENC, SELFENC)):
                for s2, t in it.truth(s.copy(), given):
                    it.oblige("attributes", s2.g("doc " + name) == (given if t else old), f.node, f, s2,
                              "after saving, the document's {} is {}".format(name, s2.g("doc " + name)))


class ToBytes(Save):
    pass


def run_tobytes(factory, P):
    c = P.cls("Document")
    f = c.find_method("to_bytes")
    for lex in (LEX, None):
        me = Obj(0, c, "self")
        h = ToBytes(P, me, lex)
        it = factory(h)
        st = fresh_state()
        st.setg("doc url", SELFURL).setg("doc encoding", SELFENC)
        if lex is not None:
            st.facts[("truth", LEX)] = True
        n = f.arg_names()
        for s, v in it.run_fn(st, FnV(f, None, None, c), {n[0]: me, "encoding": ENC, "newline": NL}, None, None):
            if isinstance(v, Raised):
                it.oblige("hidden", s.g("failed") == TRUE, f.node, f, s, "to_bytes raises {}".format(v.exc.name))
                continue
            it.oblige("hidden", s.g("failed") == FALSE, f.node, f, s, "encoding fails without an exception")
            check_encoded(it, h, s, v, f.node, f, [(ENC, False), (SELFENC, False)])


class Load(IOHooks):
    def __init__(self, P, lex, init):
        super().__init__(P, lex)
        self.init = init

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if recv == T("cls") and label == str(T("cls")):
            b = bound(self.init.arg_names()[1:], args, kwargs)
            st.setg("made", T("made", *[b.get(n, NONE) for n in ("root_lexicon", "text", "url", "encoding", "worker", "transformer")]))
            return [(st, T("document"))]
        return super().call(it, st, label, recv, args, kwargs, node, fn)

    def typeof(self, it, st, v):
        return None

    def compare(self, it, st, op, a, b, node):
        if {a, b} == {LEX, TRUE} and op in ("Is", "IsNot", "Eq", "NotEq"):
            return [(st, op in ("IsNot", "NotEq"))]


LANG = Const("css")


def lexicons(it, st, rl, url, registry):
    """The lexicon that must result: value"""
    reg = REG if registry else T("default registry")
    if rl == LANG:
        return T("find", reg, LANG, NONE, NONE, NONE)
    if rl == TRUE:
        return T("find", reg, NONE, T("basename", URL) if url else NONE, MIME, T("snippet"))
    return rl


def check_decoded(it, h, s, f, rl, root, text, enc):
    url = s.facts.get(("truth", URL))
    reg = s.facts.get(("isnone", REG))
    if rl == TRUE and url is None:
        url = "any"
    for u in ((True, False) if url == "any" else (url,)):
        want = lexicons(it, s, rl, u, not reg)
        it.oblige("lexicon", root == want, f.node, f, s, "the root lexicon is {} instead of {}".format(root, want))
    ok = isinstance(text, Term) and text.op == "decoded"
    it.oblige("complete", ok and text.args[0] == REST, f.node, f, s, "the text is {}".format(text))
    if not ok:
        return
    it.oblige("options", text.args[2] == ERRORS and text.args[3] == NL, f.node, f, s,
              "the text is decoded with the options errors={}, newline={}".format(text.args[2], text.args[3]))
    order = [(BOM, False)] if s.g("nomark") != TRUE else []
    for s2, e in h.choice(it, s.copy(), order + [(RAW, True), (ENC, False), (DEF, True), (Const("utf-8"), False)]):
        it.oblige("encoding", text.args[1] == e, f.node, f, s2, "the text is decoded with {}, not {}".format(text.args[1], e))
        for s3, g in it.truth(s2.copy(), ENC):
            if g:
                it.oblige("remember", enc == ENC, f.node, f, s3, "the given encoding is not remembered, but {}".format(enc))
            elif e in (BOM, RAW):
                ok = enc in ((BOM,) if e == BOM else ()) + (RAW,)
                if enc == RAW:
                    ok = s3.facts.get(("truth", T("valid", RAW))) and s3.facts.get(("truth", RAW))
                it.oblige("remember", bool(ok), f.node, f, s3, "the encoding of the text is not remembered, but {}".format(enc))
            else:
                it.oblige("remember", enc in (NONE, e) or s3.facts.get(("truth", enc)) is False, f.node, f, s3, "{} is remembered as encoding".format(enc))


def run_decode(factory, P):
    f = P.func("docio.decode_data")
    for rl in (NONE, TRUE, LANG, LEX):
        lex = {NONE: None, LEX: LEX}.get(rl)
        h = Load(P, lex, None)
        if rl in (TRUE, LANG):
            h.lex_found = True
        it = factory(h)
        st = fresh_state()
        if rl == LEX:
            st.facts[("truth", LEX)] = True
            st.facts[("isnone", LEX)] = False
            st.facts[("truth", T("isinstance", LEX, "str"))] = False
        for s, v in it.run_fn(st, FnV(f), {"data": DATA, "root_lexicon": rl, "encoding": ENC, "errors": ERRORS, "newline": NL,
                                           "registry": REG, "url": URL, "mimetype": MIME}, None, None):
            if isinstance(v, Raised):
                it.oblige("hidden", s.g("failed") == TRUE, f.node, f, s, "decode_data raises {}".format(v.exc.name))
                continue
            it.oblige("hidden", s.g("failed") == FALSE, f.node, f, s, "decoding fails without an exception")
            if not (isinstance(v, Tup) and v.nt and set(v.nt.fields) >= {"root_lexicon", "text", "encoding"}):
                it.oblige("complete", None, f.node, f, s)
                continue
            r = dict(zip(v.nt.fields, v.items))
            check_decoded(it, h, s, f, rl, r["root_lexicon"], r["text"], r["encoding"])


def run_load(factory, P):
    c = P.cls("Document")
    init = c.find_method("__init__")
    for name in ("load", "from_bytes"):
        f = c.find_method(name)
        for rl in (LEX, LANG, TRUE, NONE):
            h = Load(P, LEX if rl == LEX else None, init)
            it = factory(h)
            st = fresh_state()
            st.setg("made", NONE)
            if rl == LEX:
                st.facts[("truth", LEX)] = True
                st.facts[("isnone", LEX)] = False
                st.facts[("truth", T("isinstance", LEX, "str"))] = False
            n = f.arg_names()
            b = {n[0]: T("cls"), "url": URL, "root_lexicon": rl, "encoding": ENC, "errors": ERRORS, "newline": NL, "registry": REG,
                 "mimetype": MIME, "worker": WORKER, "transformer": TRANS}
            if name == "from_bytes":
                b["data"] = DATA
            for s, v in it.run_fn(st, FnV(f, None, None, c), b, None, None):
                if isinstance(v, Raised):
                    it.oblige("hidden", s.g("failed") == TRUE, f.node, f, s, "{} raises {}".format(name, v.exc.name))
                    continue
                it.oblige("hidden", s.g("failed") == FALSE, f.node, f, s, "loading fails without an exception")
                m = s.g("made")
                if m == NONE or v != T("document"):
                    it.oblige("complete", None, f.node, f, s)
                    continue
                root, text, url, enc, worker, trans = m.args
                it.oblige("options", url == URL and worker == WORKER and trans == TRANS, f.node, f, s,
                          "the document gets the url {}, worker {}, transformer {}".format(url, worker, trans))
                if name == "load":
                    it.oblige("path", s.g("path") == T("local", URL), f.node, f, s, "{} is read".format(s.g("path")))
                check_decoded(it, h, s, f, rl, root, text, enc)


class Local(IOHooks):
    symbolic_local = False

    def compare(self, it, st, op, a, b, node):
        if op in ("Eq", "NotEq") and isinstance(b, Const) and isinstance(b.v, str) and isinstance(a, Term) and a.op == "attr":
            out = []
            for s, t in it.truth(st, a, node):
                if not b.v or not t:
                    out.append((s, (not b.v and not t) == (op == "Eq")))
                    continue
                f = s.facts.get(("truth", T("equal", a, b)))
                for r in (True, False) if f is None else (f,):
                    s2 = s.copy()
                    if r and any(k[0] == "truth" and isinstance(k[1], Term) and k[1].op == "equal" and k[1].args[0] == a and
                                 k[1].args[1] != b and x for k, x in s.facts.items()):
                        continue
                    s2.facts[("truth", T("equal", a, b))] = r
                    out.append((s2, r == (op == "Eq")))
            return out

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label.endswith("urlparse") or label.endswith("urlsplit"):
            b = bound(("url", "scheme", "allow_fragments"), args, kwargs)
            ok = b.get("url") == URL and b.get("scheme", Const("")) in (Const(""), NONE)
            it.oblige("local", ok and b.get("allow_fragments", TRUE) == FALSE, node, self.fn(it), st, "a # in a file name is taken as a fragment")
            return [(st, T("parsed"))]


def run_local(factory, P):
    f = P.func("docio.localfile")
    h = Local(P)
    it = factory(h)
    st = fresh_state()
    NET, SCH, PATH = (T("attr", T("parsed"), n, 0) for n in ("netloc", "scheme", "path"))
    for s, v in it.run_fn(st, FnV(f), {f.arg_names()[0]: URL}, None, None):
        for s2, net in it.truth(s.copy(), NET):
            for s3, sch in it.truth(s2, SCH):
                if not sch:
                    files = [(s3, False)]
                else:
                    files = it.compare(s3, "Eq", SCH, Const("file"), f.node, None)
                    files = [(a, b == TRUE if not isinstance(b, bool) else b) for a, b in files]
                for s4, isfile in files:
                    if s4 is None:
                        continue
                    want = "raise" if net or sch and not isfile else PATH if isfile else URL
                    if isinstance(v, Raised):
                        it.oblige("local", want == "raise" and v.exc.name == "ValueError", f.node, f, s4, "localfile raises {}".format(v.exc.name))
                    else:
                        it.oblige("local", want == v, f.node, f, s4, "localfile returns {}, expected {}".format(v, want))


MARKS = {n: getattr(codecs, n) for n in ("BOM_UTF8", "BOM_UTF32_LE", "BOM_UTF32_BE", "BOM_UTF16_LE", "BOM_UTF16_BE")}
CODECS = {MARKS["BOM_UTF8"]: "utf-8", MARKS["BOM_UTF32_LE"]: "utf-32-le", MARKS["BOM_UTF32_BE"]: "utf-32-be",
          MARKS["BOM_UTF16_LE"]: "utf-16-le", MARKS["BOM_UTF16_BE"]: "utf-16-be"}


class Mark(Hooks):
    def const(self, v):
        if isinstance(v, ExtV) and v.name.startswith("codecs.BOM"):
            return getattr(codecs, v.name.split(".")[1], None)
        if isinstance(v, Const) and isinstance(v.v, bytes):
            return v.v

    def attr(self, it, st, base, name):
        if base == ExtV("codecs") and name.startswith("BOM"):
            b = getattr(codecs, name, None)
            if b is not None:
                return Const(b)

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if label == "len" and self.const(args[0]) is not None:
            return [(st, num(len(self.const(args[0]))))]
        if label == ".startswith" and recv == DATA and len(args) == 1:
            b = self.const(args[0])
            if b is None:
                return None
            tests = st.g("tests").v
            for x, r in tests:
                if x == b:
                    return [(st, TRUE if r else FALSE)]
                if r and x.startswith(b):
                    return [(st, TRUE)]
                if not r and b.startswith(x):
                    return [(st, FALSE)]
            s2 = st.copy().setg("tests", Const(tests + ((b, False),)))
            st.setg("tests", Const(tests + ((b, True),)))
            return [(st, TRUE), (s2, FALSE)]

    def getitem(self, it, st, base, key, node):
        if base == DATA and isinstance(key, SliceV) and key.step == NONE and key.hi == NONE:
            lo = key.lo
            if isinstance(lo, Lin) and lo.const:
                return [(st, T("data from", lo))]


def run_mark(factory, P):
    f = P.func("util.get_bom_encoding")
    it = factory(Mark())
    st = State()
    st.setg("tests", Const(()))
    for s, v in it.run_fn(st, FnV(f), {f.arg_names()[0]: DATA}, None, None):
        if isinstance(v, Raised) or not isinstance(v, Tup) or len(v.items) != 2:
            it.oblige("mark", None, f.node, f, s)
            continue
        tests = dict(s.g("tests").v)
        yes = [x for x, r in tests.items() if r]
        e, d = v.items
        # the marks the data may start with
        maybe = [m for m in CODECS if all(m.startswith(y) or y.startswith(m) for y in yes)
                 and not any(m.startswith(x) for x, r in tests.items() if not r)]
        if e == NONE:
            it.oblige("mark", d == DATA and not yes, f.node, f, s, "data without mark is changed")
            for m in maybe:
                it.oblige("mark", False, f.node, f, s, "the mark {} is not recognised".format(m))
        elif not isinstance(e, Const):
            it.oblige("mark", None, f.node, f, s)
        else:
            try:
                codec = codecs.lookup(e.v).name
            except LookupError:
                codec = None
            best = max((y for y in yes if y in CODECS), key=len, default=None)
            it.oblige("mark", best is not None and CODECS[best] == codec, f.node, f, s, "{} is taken as {}".format(best, e.v))
            longer = [m for m in maybe if best is not None and m.startswith(best) and m != best]
            it.oblige("mark", not longer, f.node, f, s, "data that starts with {} is taken as {}".format(longer, e.v))
            if best is not None:
                it.oblige("mark", d == T("data from", num(len(best))), f.node, f, s, "the mark is not cut off exactly")


class Init(Hooks):
    opaque = ("WorkerDocumentMixin.__init__", "Observable.__init__", "worker", "connect")

    def __init__(self, me):
        self.me = me

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        if fn is not None and fn.name == "__init__" and "WorkerDocumentMixin" in fn.short:
            st.setg("worker args", T("args", *[bound(fn.arg_names(), args, kwargs).get(n, NONE)
                                              for n in ("root_lexicon", "text", "worker", "transformer")]))
            return [(st, NONE)]


def run_init(factory, P):
    for path in ("Document",):
        c = P.cls(path)
        f = c.find_method("__init__")
        me = Obj(0, c, "self")
        h = Init(me)
        it = factory(h)
        st = State()
        st.setg("worker args", NONE)
        n = f.arg_names()
        for s, v in it.run_fn(st, FnV(f, None, None, c), {n[0]: me, "root_lexicon": LEX, "text": TEXT, "url": URL, "encoding": ENC,
                                                          "worker": WORKER, "transformer": TRANS}, None, None):
            if isinstance(v, Raised):
                it.oblige("options", None, f.node, f, s)
                continue
            w = s.g("worker args")
            it.oblige("options", None if w == NONE else w == T("args", LEX, TEXT, WORKER, TRANS), f.node, f, s,
                      "lexicon, text, worker, transformer are {}".format(w))
            texts = [x for (o, k), x in s.heap.items() if o == me and x == TEXT]
            it.oblige("options", bool(texts), f.node, f, s, "the text is not stored in the document")
            for name, given in (("url", URL), ("encoding", ENC)):
                for s2, t in it.truth(s.copy(), given):
                    x = s2.heap.get((me, name), NONE)
                    it.oblige("options", x == given if t else x == NONE or x == given, f.node, f, s2, "the {} of the document is {}".format(name, x))


def run(ctx):
    P = ctx.program
    ctx.rule("encode first", "the text is encoded before the file is opened for writing")
    ctx.rule("complete", "the whole text is written once, or read")
    ctx.rule("whole", "files are read as a whole, as bytes")
    ctx.rule("lossless", "characters are never dropped or replaced when encoding")
    ctx.rule("modified", "the document is set unmodified exactly when the file was written and closed")
    ctx.rule("attributes", "url and encoding of the document are set if they are given, and only then")
    ctx.rule("path", "the right file is read or written")
    ctx.rule("hidden", "failures are reported")
    ctx.rule("encoding", "the encoding is the first of those that apply")
    ctx.rule("remember", "the encoding that was given or found is remembered")
    ctx.rule("newline", "the newline option is used")
    ctx.rule("options", "all options get where they belong")
    ctx.rule("lexicon", "the root lexicon is the given, named or guessed one")
    ctx.rule("language", "the language's own way of finding an encoding is used")
    ctx.rule("local", "urls of local files give their path, other urls are refused")
    ctx.rule("mark", "byte order marks are recognised and cut off exactly")
    for r in (run_save, run_tobytes, run_decode, run_load, run_local, run_mark, run_init):
        ctx.analyse(lambda factory, r=r: r(factory, P))
    for r in ctx.rules:
        ctx.floor(r, 1)
