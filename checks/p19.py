"""P19: the bundled language definitions are valid.

The rules of every lexicon are evaluated from the source: which patterns, actions
and targets it can yield, with the lexicons, groups and constants they refer to.
"""
import ast
import re

from pa import model
from pa.model import Class, Func, Module, dotted

UNKNOWN = ("?",)


class Lex:
    """A lexicon of a language."""
    def __init__(self, cls, name):
        self.cls, self.name = cls, name

    def __eq__(self, other):
        return isinstance(other, Lex) and (self.cls, self.name) == (other.cls, other.name)

    def __hash__(self):
        return hash((self.cls, self.name))

    def __repr__(self):
        return "{}.{}".format(self.cls.name, self.name)


class Rule:
    """A call of one of the functions of parce.rule."""
    def __init__(self, name, args, kwargs, node):
        self.name, self.args, self.kwargs, self.node = name, args, kwargs, node


class Meth:
    def __init__(self, func, cls):
        self.func, self.cls = func, cls


class Thing:
    """An object named by a dotted name: an action, default_target..."""
    def __init__(self, name):
        self.name = name


class Missing:
    def __init__(self, what, node):
        self.what, self.node = what, node


def is_lexicon(func):
    return any((d or "").split(".")[-1] == "lexicon" for d in func.decorator_names())


def languages(P):
    base = None
    for q in ("language.Language", "Language"):
        try:
            base = P.cls(q)
            break
        except model.AnchorLost:
            pass
    if base is None:
        raise model.AnchorLost("Language")
    return [c for m in P.modules.values() for c in m.classes.values() if base in c.mro() and c is not base], base


RULES = ("arg", "bygroup", "call", "chars", "derive", "dselect", "findmember", "gselect", "ifarg", "ifeq",
         "ifgroup", "ifmember", "ifneq", "pattern", "select", "target", "using", "words", "anyof")


class Eval:
    def __init__(self, ctx, base):
        self.ctx, self.P, self.base = ctx, ctx.program, base
        self.depth = 0
        self.cond = False
        self.memo = {}

    # ------------------------------------------------------------ names

    def name(self, module, name, node):
        r = self.P.resolve(module, name)
        if r is None:
            # star imports
            for st in module.tree.body:
                if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                    d = {}
                    module._import(st, d)
                    src = self.P.modules.get(d["*"][1])
                    if src is not None:
                        r = self.P.resolve(src, name)
                        if r is not None:
                            break
        return self.thing(r, name, node)

    def thing(self, r, name, node):
        if isinstance(r, Class):
            return r
        if isinstance(r, Module):
            return r
        if isinstance(r, Func):
            if r.module.name.split(".")[-1] == "rule" and r.name in RULES:
                return Rule
            return Meth(r, None)
        if isinstance(r, tuple) and r[0] == "expr":
            m, n, e = r[1], r[2], r[3]
            if m.name.split(".")[-1] == "rule":
                return Thing(n)
            if e is None:
                return UNKNOWN
            if n in ("default_action", "default_target", "skip"):
                return Thing(n)
            k = (m.name, n)
            if k not in self.memo:
                self.memo[k] = UNKNOWN
                self.memo[k] = self.ev(e, {}, m, None)
            v = self.memo[k]
            return v
        if isinstance(r, tuple) and r[0] == "ext":
            return Thing(r[1])
        return UNKNOWN

    def stored(self):
        """Attribute names that are set from outside."""
        if "<stored>" not in self.memo:
            out = set()
            for m in self.P.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        out.add(x.attr)
                    elif isinstance(x, ast.Call) and dotted(x.func) == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                        out.add(x.args[1].value)
            self.memo["<stored>"] = out
        return self.memo["<stored>"]

    def attr_of_class(self, cls, name, node):
        """cls.name: a lexicon, a method, a value; Missing if there is no such thing."""
        for c in cls.mro():
            if name in c.methods:
                f = c.methods[name]
                return Lex(cls, name) if is_lexicon(f) else Meth(f, cls)
            if name in c.attrs:
                e = c.attrs[name]
                return self.ev(e, {}, c.module, c) if e is not None else UNKNOWN
            for st in c.node.body:
                for t in (st.targets if isinstance(st, ast.Assign) else ()):
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name) and a.id == name:
                                return self.ev(b, {}, c.module, c)
                    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                        return UNKNOWN
        if name.startswith("__") or name in dir(type):
            return UNKNOWN
        for c in cls.mro():
            if [b for b in c.external_bases() if b != "object"] or c.node.decorator_list:
                return UNKNOWN
            for x in ast.walk(c.node):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and x.id == name \
                        or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name and x is not c.node \
                        or isinstance(x, ast.alias) and (x.asname or x.name) == name:
                    return UNKNOWN
        if name in self.stored():
            return UNKNOWN
        return Missing("{}.{}".format(cls.name, name), node)

    # ------------------------------------------------------------ expressions

    def ev(self, n, env, module, cls):
        self.depth += 1
        try:
            if self.depth > 60:
                return UNKNOWN
            m = getattr(self, "ev_" + type(n).__name__, None)
            return m(n, env, module, cls) if m else UNKNOWN
        finally:
            self.depth -= 1

    def ev_Constant(self, n, env, module, cls):
        return n.value

    def ev_Tuple(self, n, env, module, cls):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env, module, cls)
                if not isinstance(v, (tuple, list)) or v == UNKNOWN:
                    return UNKNOWN
                out.extend(v)
            else:
                out.append(self.ev(e, env, module, cls))
        return tuple(out)

    ev_List = ev_Tuple

    def ev_Dict(self, n, env, module, cls):
        if any(k is None for k in n.keys):
            return UNKNOWN
        return {"dict": [(self.ev(k, env, module, cls), self.ev(v, env, module, cls)) for k, v in zip(n.keys, n.values)]}

    def ev_Name(self, n, env, module, cls):
        if n.id in env:
            return env[n.id]
        if cls is not None:
            for st in cls.node.body:
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in st.targets) and not isinstance(st.value, ast.Name):
                    return self.ev(st.value, {}, module, None)
        return self.name(module, n.id, n)

    def ev_Attribute(self, n, env, module, cls):
        b = self.ev(n.value, env, module, cls)
        if isinstance(b, Class):
            if b.name == "StandardAction":
                return Thing(n.attr)
            return self.attr_of_class(b, n.attr, n)
        if isinstance(b, Module):
            r = self.P.resolve(b, n.attr)
            if r is None:
                return self.name(b, n.attr, n)
            return self.thing(r, n.attr, n)
        if isinstance(b, Thing):
            return Thing(b.name + "." + n.attr)
        if isinstance(b, Super):
            for c in b.mro:
                if n.attr in c.methods:
                    f = c.methods[n.attr]
                    return SuperLex(f, b.cls) if is_lexicon(f) else Meth(f, b.cls)
            return Missing("super().{}".format(n.attr), n)
        if isinstance(b, str) and n.attr in ("format", "join"):
            return ("strmeth", b, n.attr)
        return UNKNOWN

    def ev_BinOp(self, n, env, module, cls):
        a, b = self.ev(n.left, env, module, cls), self.ev(n.right, env, module, cls)
        if isinstance(n.op, ast.Add):
            a, b = self.to_pattern(a), self.to_pattern(b)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple) and UNKNOWN not in (a, b):
                return a + b
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a + b
        if isinstance(n.op, ast.BitOr):
            return UNKNOWN
        if isinstance(n.op, ast.Mult) and isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(n.op, ast.Sub) and isinstance(a, int) and isinstance(b, int):
            return a - b
        return UNKNOWN

    def ev_UnaryOp(self, n, env, module, cls):
        v = self.ev(n.operand, env, module, cls)
        if isinstance(n.op, ast.USub) and isinstance(v, int):
            return -v
        return UNKNOWN

    def ev_JoinedStr(self, n, env, module, cls):
        out = ""
        for v in n.values:
            x = self.to_pattern(self.ev(v.value if isinstance(v, ast.FormattedValue) else v, env, module, cls))
            if not isinstance(x, str):
                return UNKNOWN
            out += x
        return out

    def ev_IfExp(self, n, env, module, cls):
        a, b = self.ev(n.body, env, module, cls), self.ev(n.orelse, env, module, cls)
        return ("either", a, b)

    def ev_Subscript(self, n, env, module, cls):
        b = self.ev(n.value, env, module, cls)
        if isinstance(b, Thing) and b.name == "MATCH":
            i = self.ev(n.slice, env, module, cls)
            return ("group", i, n)
        if isinstance(b, tuple) and b[:1] == ("group",):
            return b
        if isinstance(b, Thing) and b.name in ("TEXT", "ARG"):
            return b
        if isinstance(b, tuple) and b != UNKNOWN and b[:1] not in (("either",), ("strmeth",)):
            s = n.slice
            try:
                if isinstance(s, ast.Slice):
                    vals = [x and self.ev(x, env, module, cls) for x in (s.lower, s.upper, s.step)]
                    if all(x is None or isinstance(x, int) for x in vals):
                        return b[slice(*vals)]
                else:
                    i = self.ev(s, env, module, cls)
                    if isinstance(i, int):
                        return b[i]
            except IndexError:
                pass
        return UNKNOWN

    def ev_Lambda(self, n, env, module, cls):
        return UNKNOWN

    def to_pattern(self, v):
        """A string that stands for a regular expression, where it is one."""
        if isinstance(v, Rule):
            if v.name == "words":
                a = list(v.args[1:]) + ["", ""]
                pre = v.kwargs.get("prefix", a[0])
                suf = v.kwargs.get("suffix", a[1] if len(v.args) > 2 else "")
                if isinstance(pre, str) and isinstance(suf, str):
                    return pre + "(?:\x01)" + suf
            elif v.name == "chars":
                return "[\x01]"
        return v

    def ev_Call(self, n, env, module, cls):
        f = self.ev(n.func, env, module, cls)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, module, cls)
                if isinstance(v, tuple) and v != UNKNOWN:
                    args.extend(v)
                else:
                    args.append(("star",))
            else:
                args.append(self.ev(a, env, module, cls))
        kwargs = {k.arg: self.ev(k.value, env, module, cls) for k in n.keywords if k.arg}
        if f is Rule:
            name = (dotted(n.func) or "").split(".")[-1]
            r = self.P.resolve_expr(module, n.func)
            if isinstance(r, Func):
                name = r.name
            return Rule(name, args, kwargs, n)
        if isinstance(f, tuple) and f[:1] == ("strmeth",):
            _, s, meth = f
            vals = [self.to_pattern(a) for a in args]
            kv = {k: self.to_pattern(a) for k, a in kwargs.items()}
            if meth == "format" and all(isinstance(x, (str, int)) for x in vals) and all(isinstance(x, (str, int)) for x in kv.values()):
                try:
                    return s.format(*vals, **kv)
                except (IndexError, KeyError, ValueError):
                    return UNKNOWN
            if meth == "join" and len(vals) == 1 and isinstance(vals[0], tuple) and all(isinstance(x, str) for x in vals[0]):
                return s.join(vals[0])
            return UNKNOWN
        if isinstance(f, Lex):
            return f                    # derived
        if isinstance(f, Missing):
            return f
        if dotted(n.func) == "super" and not n.args and env.get("<meth>") is not None:
            meth, c = env["<meth>"]
            mro = c.mro()
            return Super(c, mro[mro.index(meth.cls) + 1:] if meth.cls in mro else [])
        if isinstance(f, Meth) and f.func.node and not f.func.is_generator:
            return self.result(f, args, kwargs, n)
        return UNKNOWN

    def bind(self, f, args, kwargs):
        a = f.func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if f.func.cls is not None and "staticmethod" not in f.func.decorator_names() and names:
            env[names[0]] = f.cls if f.cls is not None else UNKNOWN
            names = names[1:]
        defaults = dict(zip(names[len(names) - len(a.defaults):] if a.defaults else [], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for k, v in zip(names, args):
            env[k] = v
        for k, v in kwargs.items():
            env[k] = v
        for k, d in defaults.items():
            if k not in env:
                env[k] = self.ev(d, {}, f.func.module, None)
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        for x in names:
            env.setdefault(x, UNKNOWN)
        env["<meth>"] = (f.func, f.cls)
        return env

    def result(self, f, args, kwargs, node):
        """The possible results of a plain function."""
        outs = []
        for kind, v, n in self.body(f, self.bind(f, args, kwargs)):
            if kind == "return":
                outs.append(v)
        if not outs:
            return UNKNOWN
        return outs[0] if len(outs) == 1 else ("either",) + tuple(outs)

    # ------------------------------------------------------------ statements

    def body(self, f, env):
        """Yield ("yield"|"from"|"return", value, node)."""
        self.depth += 1
        try:
            if self.depth > 40:
                return
            yield from self.block(model.body_of(f.func.node), env, f.func.module, f.func.cls)
        finally:
            self.depth -= 1

    def block(self, stmts, env, module, cls):
        for st in stmts:
            if isinstance(st, ast.Assign):
                v = self.ev(st.value, env, module, cls)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        env[t.id] = v
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                env[x.id] = UNKNOWN
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and len(v) == len(t.elts) and v != UNKNOWN:
                            for x, y in zip(t.elts, v):
                                if isinstance(x, ast.Name):
                                    env[x.id] = y
            elif isinstance(st, ast.Expr):
                if isinstance(st.value, ast.Yield):
                    v = st.value.value
                    yield "yield", (self.ev(v, env, module, cls) if v is not None else None), st
                elif isinstance(st.value, ast.YieldFrom):
                    yield from self.from_(st.value.value, env, module, cls, st)
            elif isinstance(st, ast.Return):
                if st.value is not None:
                    yield "return", self.ev(st.value, env, module, cls), st
            elif isinstance(st, ast.If):
                self.ev(st.test, env, module, cls)
                self.cond = True
                e1, e2 = dict(env), dict(env)
                yield from self.block(st.body, e1, module, cls)
                yield from self.block(st.orelse, e2, module, cls)
                for k in set(e1) | set(e2):
                    a, b = e1.get(k, env.get(k)), e2.get(k, env.get(k))
                    try:
                        same = a is b or a == b
                    except Exception:
                        same = False
                    env[k] = a if same or b is None else b if a is None else ("either", a, b)
            elif isinstance(st, (ast.For, ast.While)):
                self.cond = True
                if isinstance(st, ast.For):
                    for x in ast.walk(st.target):
                        if isinstance(x, ast.Name):
                            env[x.id] = UNKNOWN
                yield from self.block(st.body, env, module, cls)
            elif isinstance(st, ast.With):
                yield from self.block(st.body, env, module, cls)
            elif isinstance(st, ast.Try):
                self.cond = True
                for b in [st.body] + [h.body for h in st.handlers] + [st.orelse, st.finalbody]:
                    yield from self.block(b, env, module, cls)
            elif isinstance(st, (ast.FunctionDef,)):
                env[st.name] = UNKNOWN

    def from_(self, e, env, module, cls, st):
        v = None
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env, module, cls)
            args = [self.ev(a, env, module, cls) for a in e.args if not isinstance(a, ast.Starred)]
            kwargs = {k.arg: self.ev(k.value, env, module, cls) for k in e.keywords if k.arg}
            if isinstance(f, Meth) and f.func.is_generator:
                yield from self.body(f, self.bind(f, args, kwargs))
                return
            if isinstance(f, Lex):
                v = f
            elif isinstance(f, Missing):
                yield "yield", f, st
                return
            else:
                v = self.ev(e, env, module, cls)
        else:
            v = self.ev(e, env, module, cls)
        if isinstance(v, Lex):
            m = v.cls.find_method(v.name)
            yield from self.body(Meth(m, v.cls), self.bind(Meth(m, v.cls), [], {}))
        elif isinstance(v, SuperLex):
            yield from self.body(Meth(v.func, v.cls), self.bind(Meth(v.func, v.cls), [], {}))
        elif isinstance(v, Missing):
            yield "yield", v, st
        elif isinstance(v, tuple) and v != UNKNOWN and v and all(isinstance(x, tuple) for x in v):
            for x in v:
                yield "yield", x, st
        else:
            yield "yield", UNKNOWN, st


class Super:
    def __init__(self, cls, mro):
        self.cls, self.mro = cls, mro


class SuperLex:
    def __init__(self, func, cls):
        self.func, self.cls = func, cls


def re_flags(func, ev):
    """The flags of the lexicon decorator, or None if unknown."""
    for d in func.decorators():
        if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "lexicon":
            for k in d.keywords:
                if k.arg == "re_flags":
                    fl = 0
                    for n in ast.walk(k.value):
                        if isinstance(n, ast.Attribute):
                            v = getattr(re, n.attr, None)
                            if v is None:
                                return None
                            fl |= v
                    return fl
    return 0


def pattern_info(v, flags):
    """(groups, error, matches empty) of a pattern value; groups None if unknown."""
    if isinstance(v, tuple) and v[:1] == ("either",):
        infos = [pattern_info(x, flags) for x in v[1:]]
        errs = [i[1] for i in infos if i[1]]
        gs = [i[0] for i in infos]
        return (None if None in gs else max(gs)), errs[0] if errs else None
    if isinstance(v, Rule) and v.name == "ifarg":
        gs = []
        for a in v.args:
            if a is None:
                continue
            g, e = pattern_info(a, flags)
            if e:
                return None, e
            gs.append(g)
        return (None if None in gs or not gs else max(gs)), None
    if isinstance(v, Rule) and v.name == "arg":
        esc = v.kwargs.get("escape", v.args[0] if v.args else True)
        pre, suf = v.kwargs.get("prefix", ""), v.kwargs.get("suffix", "")
        if esc is not True or not isinstance(pre, str) or not isinstance(suf, str):
            return None, None
        v = pre + "\x01" + suf
    if isinstance(v, str):
        try:
            rx = re.compile(v, flags or 0)
        except re.error as e:
            return None, "{}: {}".format(v.replace("\x01", "..."), e)
        return rx.groups, None
    return None, None


def walk(v, seen=None):
    """All values inside a rule item."""
    yield v
    if isinstance(v, Rule):
        for a in v.args:
            yield from walk(a)
        for a in v.kwargs.values():
            yield from walk(a)
    elif isinstance(v, tuple) and v[:1] not in (("group",), ("strmeth",), ("star",)) and v != UNKNOWN:
        for x in v:
            if not isinstance(x, str) or v[:1] != ("either",):
                yield from walk(x)
    elif isinstance(v, dict):
        for k, x in v["dict"]:
            yield from walk(k)
            yield from walk(x)


def pushes(target):
    """The lexicons of a static target without pops, or None."""
    out = []
    for t in target:
        if isinstance(t, Lex):
            out.append(t)
        elif isinstance(t, Rule) and t.name == "derive" and t.args and isinstance(t.args[0], Lex):
            out.append(t.args[0])
        else:
            return None
    return out


class Lang:
    def __init__(self, ctx, ev, cls):
        self.ctx, self.ev, self.cls = ctx, ev, cls
        self.defaults = {}

    def fail(self, rule, lex, detail, node, module):
        self.bad.add(rule)
        self.ctx.fail(rule, "{}: {}".format(lex, ast.unparse(node)[:90] if node is not None else ""), detail,
                      "{}:{}".format(module.relpath, getattr(node, "lineno", "?")))

    def lexicons(self):
        names = {}
        for c in reversed(self.cls.mro()):
            for n, f in c.methods.items():
                if is_lexicon(f):
                    names[n] = f
                else:
                    names.pop(n, None)
        return names

    def check(self):
        n = 0
        for name, f in self.lexicons().items():
            n += 1
            self.bad = set()
            lex = Lex(self.cls, name)
            label = "{}.{}".format(f.module.name.split(".")[-1], lex)
            flags = re_flags(f, self.ev)
            self.ev.cond = False
            rules = list(self.ev.body(Meth(f, self.cls), self.ev.bind(Meth(f, self.cls), [], {})))
            dact, dtgt = [], []
            cond = self.ev.cond
            for kind, v, node in rules:
                if kind != "yield":
                    continue
                self.rule(lex, label, f, flags, v, node, dact, dtgt)
            if not cond:
                if len(dact) > 1 or len(dtgt) > 1 or dact and dtgt:
                    self.fail("default", label, "more than one default action or target", (dact + dtgt)[-1][1], f.module)
            if dtgt:
                self.defaults[lex] = dtgt[0]
            for r in ("rule", "pattern", "group", "target", "default"):
                if r not in self.bad:
                    self.ctx.ok(r, label)
        return n

    def missing(self, v, lex, node, module):
        bad = False
        for x in walk(v):
            if isinstance(x, Missing):
                self.fail("target", lex, "{} does not exist".format(x.what), x.node, module)
                bad = True
        return bad

    def rule(self, lex, label, f, flags, v, node, dact, dtgt):
        module = f.module
        if isinstance(v, Missing):
            self.missing(v, label, node, module)
            return
        if v == UNKNOWN or isinstance(v, (Rule, Lex)) or isinstance(v, tuple) and v[:1] == ("either",):
            return
        if not isinstance(v, tuple):
            if isinstance(v, str):
                self.fail("rule", label, "the rule has no action", node, module)
            return
        if len(v) < 2:
            self.fail("rule", label, "the rule has no action", node, module)
            return
        pat, items = v[0], v[1:]
        if self.missing(v, label, node, module):
            return
        if isinstance(pat, Thing) and pat.name.split(".")[-1] in ("default_action", "default_target"):
            if pat.name.split(".")[-1] == "default_action":
                dact.append((items, node))
                self.action(label, items[0], node, module)
                if len(items) != 1:
                    self.fail("default", label, "a default action with a target", node, module)
            else:
                dtgt.append((items, node))
                for t in items:
                    self.target(label, t, node, module)
                if items == (0,) or all(t == 0 for t in items):
                    self.fail("default", label, "the default target does not change the state", node, module)
            return
        p = self.ev.to_pattern(pat)
        groups, err = pattern_info(p, flags)
        if isinstance(p, (int, float)) and not isinstance(p, bool):
            self.fail("pattern", label, "the pattern is {!r}".format(p), node, module)
        if isinstance(p, Lex):
            self.fail("pattern", label, "the pattern is the lexicon {}".format(p), node, module)
        if err:
            self.fail("pattern", label, err, node, module)
        elif groups is not None:
            for x in walk(items):
                if isinstance(x, Rule) and x.name == "bygroup" and ("star",) not in x.args:
                    if len(x.args) > groups:
                        self.fail("group", label, "{} actions for {} groups".format(len(x.args), groups), node, module)
                elif isinstance(x, Rule) and x.name == "ifgroup" and x.args and isinstance(x.args[0], int):
                    if not 1 <= x.args[0] <= groups:
                        self.fail("group", label, "there is no group {}".format(x.args[0]), node, module)
                elif isinstance(x, Rule) and x.name == "gselect" and ("star",) not in x.args:
                    last = max([i for i, a in enumerate(x.args, 1) if a is not None], default=0)
                    if last > groups:
                        self.fail("group", label, "there is no group {}".format(last), node, module)
                elif isinstance(x, tuple) and x[:1] == ("group",) and isinstance(x[1], int):
                    if not 1 <= x[1] <= groups:
                        self.fail("group", label, "there is no group {}".format(x[1]), node, module)
        self.action(label, items[0], node, module)
        for t in items[1:]:
            self.target(label, t, node, module)

    def leaves(self, v):
        """The values an item can evaluate to: lists of values (an item may give several)."""
        if isinstance(v, Rule):
            a = v.args
            if v.name in ("ifeq", "ifneq", "ifmember"):
                alts = list(a[2:]) + [v.kwargs[k] for k in ("result", "else_result") if k in v.kwargs]
            elif v.name == "ifgroup":
                alts = list(a[1:]) + [v.kwargs[k] for k in ("result", "else_result") if k in v.kwargs]
            elif v.name == "select":
                alts = list(a[1:])
            elif v.name == "gselect":
                alts = [x for x in a if x is not None] + ([v.kwargs["default"]] if "default" in v.kwargs else [])
            elif v.name == "dselect":
                alts = [x for _, x in a[1]["dict"]] if len(a) > 1 and isinstance(a[1], dict) else []
                alts += list(a[2:]) + ([v.kwargs["default"]] if "default" in v.kwargs else [])
            elif v.name == "findmember":
                pairs = a[1] if len(a) > 1 else ()
                alts = []
                if isinstance(pairs, tuple) and pairs != UNKNOWN:
                    for p in pairs:
                        if isinstance(p, tuple) and p != UNKNOWN and len(p) == 2:
                            alts.append(p[1])
                alts += list(a[2:]) + ([v.kwargs["default"]] if "default" in v.kwargs else [])
            else:
                yield (v,)
                return
            if ("star",) in a:
                yield (UNKNOWN,)
                return
            for x in alts:
                yield from self.leaves(x)
        elif isinstance(v, tuple) and v[:1] == ("either",):
            for x in v[1:]:
                yield from self.leaves(x)
        elif isinstance(v, tuple) and v != UNKNOWN and v[:1] not in (("group",), ("strmeth",), ("star",)):
            yield tuple(v)
        else:
            yield (v,)

    def action(self, label, v, node, module):
        for alt in self.leaves(v):
            if not alt:
                continue
            first, rest = alt[0], alt[1:]
            if isinstance(first, Lex) or isinstance(first, bool) or isinstance(first, int) and not isinstance(first, bool):
                self.fail("rule", label, "{!r} is used as the action".format(first), node, module)
            elif isinstance(first, Rule) and first.name in ("derive", "target"):
                self.fail("rule", label, "a target is used as the action", node, module)
            elif isinstance(first, Rule) and first.name not in RULES:
                pass
            for t in rest:
                self.target(label, t, node, module)

    def target(self, label, v, node, module):
        for alt in self.leaves(v):
            for t in alt:
                if isinstance(t, Rule) and t.name not in ("derive", "target", "call", "select"):
                    if t.name in ("bygroup", "using", "words", "chars", "arg"):
                        self.fail("target", label, "{}() is used as a target".format(t.name), node, module)
                elif isinstance(t, Rule) and t.name == "derive" and t.args:
                    for alt2 in self.leaves(t.args[0]):
                        for l in alt2:
                            if isinstance(l, (str, int, Thing, Meth)):
                                self.fail("target", label, "a target is derived from something that is no lexicon", node, module)
                elif isinstance(t, (str, float)) or isinstance(t, Meth):
                    self.fail("target", label, "{} is used as a target".format(t.func.name + "()" if isinstance(t, Meth) else repr(t)), node, module)
                elif isinstance(t, Thing) and t.name.split(".")[-1] not in ("ARG", "TEXT", "MATCH"):
                    self.fail("target", label, "{} is used as a target".format(t.name), node, module)

    def circular(self):
        """No default targets that only enter lexicons, in a circle."""
        for start in self.defaults:
            seen = []
            cur = start
            bad = False
            while cur in self.defaults:
                ps = pushes(self.defaults[cur][0])
                if not ps:
                    break
                if cur in seen:
                    bad = True
                    break
                seen.append(cur)
                cur = ps[-1]
            m = start.cls.find_method(start.name)
            self.bad = set()
            if bad:
                self.fail("circular", "{}.{}".format(m.module.name.split(".")[-1], start), "the default targets {} enter each other forever".format(", ".join(map(repr, seen))), self.defaults[start][1], m.module)
            else:
                self.ctx.ok("circular", "{}.{}".format(m.module.name.split(".")[-1], start))


# ---------------------------------------------------------------- registry

def registry(ctx, ev, base):
    P = ctx.program
    n = 0
    for m in P.modules.values():
        for call in [x for x in ast.walk(m.tree) if isinstance(x, ast.Call)]:
            f = P.resolve_expr(m, call.func) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
            if not (isinstance(f, Func) and f.name == "register" and f.module.name.endswith(".registry")):
                continue
            if not call.args or not isinstance(call.args[0], ast.Constant):
                continue
            n += 1
            q = call.args[0].value
            where = "{}:{}".format(m.relpath, call.lineno)
            parts = q.rsplit(".", 2)
            why = None
            if len(parts) != 3 or parts[0] not in P.modules:
                why = "there is no module {}".format(parts[0])
            else:
                c = P.resolve(P.modules[parts[0]], parts[1])
                if not isinstance(c, Class) or base not in c.mro():
                    why = "{} has no language {}".format(parts[0], parts[1])
                else:
                    meth = c.find_method(parts[2])
                    if meth is None or not is_lexicon(meth):
                        why = "{} has no lexicon {}".format(parts[1], parts[2])
            ctx.check("registry", q, why is None, why or "", where)
            kws = {k.arg: k.value for k in call.keywords}
            if "inherit" not in kws:
                for k in ("name", "desc"):
                    v = kws.get(k)
                    ok = v is not None and not (isinstance(v, ast.Constant) and not v.value)
                    ctx.check("registry", "{} {}".format(q, k), ok, "the entry needs a {}".format(k), where)
            for k in ("filenames", "mimetypes", "guesses"):
                v = kws.get(k)
                if v is None:
                    continue
                val = ev.ev(v, {}, m, None)
                if not isinstance(val, tuple) or val == UNKNOWN:
                    ctx.unknown("registry", "{} {}".format(q, k), "not constant", where)
                    continue
                ok, why = True, ""
                for e in val:
                    if not (isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], str) and isinstance(e[1], (int, float))):
                        if e == UNKNOWN or isinstance(e, tuple) and UNKNOWN in e:
                            continue
                        ok, why = False, "{!r} is no pair of a string and a weight".format(e)
                    elif not 0 <= e[1] <= 1:
                        ok, why = False, "the weight {} is not between 0 and 1".format(e[1])
                    elif k == "guesses":
                        try:
                            re.compile(e[0])
                        except re.error as x:
                            ok, why = False, "{}: {}".format(e[0], x)
                ctx.check("registry", "{} {}".format(q, k), ok, why, where)
    return n


# ---------------------------------------------------------------- transforms

def transforms(ctx, ev, langs):
    P = ctx.program
    try:
        base = P.cls("transform.Transform")
    except model.AnchorLost:
        return
    used = set()
    for m in P.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute):
                used.add(x.attr)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                used.add(x.value)
    for c in langs:
        t = c.module.classes.get(c.name + "Transform")
        if t is None or base not in t.mro():
            continue
        names = {n for k in c.mro() for n, f in k.methods.items() if is_lexicon(f)}
        for k in t.mro():
            if k is base:
                continue
            for n, f in k.methods.items():
                if n.startswith("_") or "staticmethod" in f.decorator_names() or "classmethod" in f.decorator_names():
                    continue
                subs = [x for m2 in P.modules.values() for x in m2.classes.values() if k in x.mro()]
                everywhere = set(names)
                for x in subs:
                    l = x.module.classes.get(x.name[:-9]) if x.name.endswith("Transform") else None
                    if l is not None:
                        everywhere |= {a for y in l.mro() for a, g in y.methods.items() if is_lexicon(g)}
                ok = n in everywhere or n in used
                ctx.check("transform", "{}.{}".format(k.name, n), ok, "{} has no lexicon {!r}, and nothing else uses the method: its contexts are not transformed".format(c.name, n),
                          "{}:{}".format(k.module.relpath, f.node.lineno))


def run(ctx):
    P = ctx.program
    langs, base = languages(P)
    ctx.rule("rule", "every rule has a pattern and an action")
    ctx.rule("pattern", "every pattern is a valid regular expression")
    ctx.rule("group", "actions and items only refer to groups the pattern has")
    ctx.rule("target", "every target is a lexicon of the language that exists, or a number")
    ctx.rule("default", "at most one default action or target, which changes the state")
    ctx.rule("circular", "default targets do not enter lexicons in a circle")
    ctx.rule("registry", "every registered language exists, with weights and patterns that are valid")
    ctx.rule("transform", "every method of a transform belongs to a lexicon, or is used otherwise")
    ev = Eval(ctx, base)
    n = 0
    for c in langs:
        l = Lang(ctx, ev, c)
        n += l.check()
        l.circular()
        ctx.analysed.add("{}.{}".format(c.module.name, c.name))
    r = registry(ctx, ev, base)
    transforms(ctx, ev, langs)
    ctx.extra["languages"] = len(langs)
    ctx.extra["lexicons"] = n
    ctx.assume("patterns are judged by the regular expression compiler of Python's re module; words() and chars() give valid expressions without groups")
    ctx.floor("rule", 100)
    ctx.floor("registry", 20)
