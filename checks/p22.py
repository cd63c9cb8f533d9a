"""P22: no name, attribute or argument list is wrong, on any path of any function."""
import ast
import builtins
import string
import symtable
import warnings

from pa import model
from pa.model import Class, Func, Module, dotted, own_nodes

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__builtins__"}
CLASS_NAMES = {"__class__", "__module__", "__qualname__"}


def where(m, node):
    return "{}:{}".format(m.relpath, getattr(node, "lineno", "?"))


# ---------------------------------------------------------------- names

def module_names(m):
    """All names bound in the module scope (also by "global" in functions); None if unknowable."""
    if hasattr(m, "_names"):
        return m._names
    m._names = None
    m._names = _module_names(m)
    return m._names


def table(m):
    if not hasattr(m, "_table"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m._table = symtable.symtable(m.source, m.path, "exec")
    return m._table


def _module_names(m):
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            d = {}
            m._import(n, d)
            src = m.program.modules.get(d["*"][1])
            names = module_names(src) if src else None
            if names is None:
                return None
            al = src.assigns.get("__all__")
            if isinstance(al, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in al.elts):
                out |= {e.value for e in al.elts}
            elif "__all__" in src.assigns:
                return None
            else:
                out |= {x for x in names if not x.startswith("_")}
    top = table(m)
    for s in top.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace() or s.is_annotated():
            out.add(s.get_name())

    def rec(t):
        for s in t.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                out.add(s.get_name())
        for c in t.get_children():
            rec(c)
    rec(top)
    for st in m.tree.body:
        # sys.modules / globals() tricks make everything possible
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and dotted(n.func) == "globals":
                return None
    if m.is_package:
        p = m.name + "."
        out |= {x[len(p):].split(".")[0] for x in m.program.modules if x.startswith(p)}
    return out


def check_names(ctx, m):
    names = module_names(m)
    if names is None:
        ctx.unknown("names", m.name, "the names of the module are not known")
        return
    lines = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, n.lineno)
    bad = False
    guarded = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Try) and any(h.type is None or any(x in ast.dump(h.type) for x in ("NameError", "'Exception'")) for h in n.handlers):
            for b in n.body:
                guarded |= {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}

    def rec(t, scope):
        nonlocal bad
        for s in t.get_symbols():
            n = s.get_name()
            if not s.is_referenced() or t.get_type() == "annotation":
                continue
            if t.get_type() == "module":
                free = not (s.is_assigned() or s.is_imported() or s.is_namespace())
            elif t.get_type() == "class":
                free = not (s.is_assigned() or s.is_imported() or s.is_namespace()) and s.is_global()
                if n in CLASS_NAMES:
                    free = False
            else:
                free = s.is_global()
            if free and n not in names and n not in BUILTINS and n not in guarded and not n.startswith("_" + t.get_name()):
                if n == "__class__":
                    continue
                bad = True
                line = lines.get(n, t.get_lineno())
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) and x.lineno >= t.get_lineno():
                        line = x.lineno
                        break
                ctx.fail("names", "{}.{}: {}".format(m.name, scope, n), "the name {!r} is not defined".format(n), "{}:{}".format(m.relpath, line))
        for c in t.get_children():
            rec(c, (scope + "." if scope else "") + c.get_name())
    rec(table(m), "")
    if not bad:
        ctx.ok("names", m.name)


# ---------------------------------------------------------------- locals

class Unbound:
    """May-assigned analysis: a read of a local that no path has assigned."""
    def __init__(self, func):
        self.func = func
        self.found = []
        self.locals = func.locals
        a = func.node.args
        start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                start.add(x.arg)
        self.block(func.node.body, start)

    def expr(self, node, s):
        if node is None:
            return s
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                s = s | {n.target.id}
        self.visit(node, s)
        return s

    def visit(self, n, s):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in s:
                self.found.append(n)
            return
        if isinstance(n, (ast.Lambda, ast.FunctionDef)):
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                self.visit(d, s)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            s = set(s)
            for g in n.generators:
                self.visit(g.iter, s)
                s |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for i in g.ifs:
                    self.visit(i, s)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(e, s)
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, s)

    def stores(self, nodes):
        out = set()
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split(".")[0] for a in n.names}
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    out.add(n.name)
                elif isinstance(n, ast.MatchMapping) and n.rest:
                    out.add(n.rest)
        return out

    def block(self, stmts, s):
        """The names that may be assigned after the block; None if it does not end normally."""
        for st in stmts:
            s = self.stmt(st, s)
            if s is None:
                return None
        return s

    def join(self, *ss):
        ss = [x for x in ss if x is not None]
        return set().union(*ss) if ss else None

    def stmt(self, n, s):
        if isinstance(n, (ast.Return, ast.Raise)):
            self.visit(n, s)
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            return None
        if isinstance(n, ast.If):
            s = self.expr(n.test, s)
            return self.join(self.block(n.body, s), self.block(n.orelse, s))
        if isinstance(n, (ast.For, ast.While)):
            all_ = self.stores([n])
            s = self.expr(n.iter if isinstance(n, ast.For) else n.test, s)
            self.block(n.body, s | all_)
            self.block(n.orelse, s | all_)
            return s | all_
        if isinstance(n, ast.Try):
            all_ = self.stores(n.body)
            ends = [self.block(n.body, s)]
            if ends[0] is not None and n.orelse:
                ends[0] = self.block(n.orelse, ends[0])
            for h in n.handlers:
                if h.type:
                    self.visit(h.type, s | all_)
                ends.append(self.block(h.body, s | all_ | ({h.name} if h.name else set())))
            if n.finalbody:
                every = s | self.stores([n])
                f = self.block(n.finalbody, every)
                if f is None:
                    return None
                e = self.join(*ends)
                return None if e is None else e | self.stores(n.finalbody)
            return self.join(*ends)
        if isinstance(n, ast.With):
            for i in n.items:
                s = self.expr(i.context_expr, s)
                if i.optional_vars is not None:
                    s = s | self.stores([i.optional_vars])
            e = self.block(n.body, s)
            return e if e is not None else s | self.stores(n.body)    # may be suppressed
        if isinstance(n, ast.AugAssign):
            self.expr(n.value, s)
            if isinstance(n.target, ast.Name):
                if n.target.id in self.locals and n.target.id not in s:
                    self.found.append(n.target)
            else:
                self.visit(n.target, s)
            return s
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return s
        if isinstance(n, ast.Match):
            s = self.expr(n.subject, s) | self.stores([n])
            for c in n.cases:
                self.block(c.body, s)
            return s
        if isinstance(n, ast.ClassDef):
            return s | {n.name}
        s = self.expr(n, s)
        return s | self.stores([n]) if not isinstance(n, ast.FunctionDef) else s | {n.name}


# ---------------------------------------------------------------- attributes

def ext_class(name):
    """A class of the standard library (not of the analysed package) by its dotted name."""
    import importlib
    if name is None:
        return None
    mod, _, n = name.rpartition(".")
    if not mod:
        return getattr(builtins, n, None) if isinstance(getattr(builtins, n, None), type) else None
    if mod.split(".")[0] not in ("collections", "threading", "weakref", "contextlib", "functools", "enum", "io", "string", "types", "abc", "itertools", "re"):
        return None
    try:
        c = getattr(importlib.import_module(mod), n)
    except Exception:
        return None
    return c if isinstance(c, type) else None


def namedtuple_fields(call):
    if isinstance(call, ast.Call) and (dotted(call.func) or "").split(".")[-1] == "namedtuple" and len(call.args) >= 2:
        a = call.args[1]
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            return a.value.replace(",", " ").split()
        if isinstance(a, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Constant) for e in a.elts):
            return [e.value for e in a.elts]
    return None


def attrs_of(P, cls, memo):
    """Names of the attributes an instance of exactly this class can have; None if unknowable."""
    if cls in memo:
        return memo[cls]
    memo[cls] = None
    out = set(dir(object)) | {"__dict__", "__weakref__", "__module__", "__doc__"}
    for c in cls.mro():
        out |= set(c.methods) | set(c.setters) | set(c.attrs)
        if "__getattr__" in c.methods or "__getattribute__" in c.methods:
            return None
        if c.node.keywords:
            for k in c.node.keywords:
                mc = P.resolve_class(c.module, k.value)
                if isinstance(mc, Class):
                    out |= set(mc.methods) | set(mc.attrs)
        for st in ast.walk(c.node):
            if isinstance(st, (ast.ClassDef, ast.FunctionDef)) and st is not c.node:
                out.add(st.name)
            elif isinstance(st, ast.Attribute) and isinstance(st.ctx, (ast.Store, ast.Del)):
                out.add(st.attr)
            elif isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
                out.add(st.id)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in st.names}
            elif isinstance(st, ast.Constant) and isinstance(st.value, str):
                pass
        if "__slots__" in c.attrs and isinstance(c.attrs["__slots__"], (ast.Tuple, ast.List)):
            out |= {e.value for e in c.attrs["__slots__"].elts if isinstance(e, ast.Constant)}
        for b in c.bases:
            r = P.resolve_class(c.module, b)
            if isinstance(r, Class):
                continue
            f = namedtuple_fields(b)
            if f is None and isinstance(r, tuple) and r[0] == "expr":
                f = namedtuple_fields(r[3])
            if f is not None:
                out |= set(f) | set(dir(tuple)) | {"_replace", "_fields", "_make", "_asdict"}
                continue
            e = ext_class(r[1] if isinstance(r, tuple) and r[0] == "ext" else dotted(b))
            if e is None:
                return None
            out |= set(dir(e))
    memo[cls] = out
    return out


def stored_elsewhere(P):
    """Attribute names that are assigned on something else than self, or by setattr."""
    out = set()
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                if not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                    out.add(n.attr)
            elif isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "object.__setattr__") and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
    return out


class Attrs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.program
        self.memo = {}
        self.elsewhere = stored_elsewhere(self.P)
        self.classes = [c for m in self.P.modules.values() for c in m.classes.values()]
        self.subs = {}
        for c in self.classes:
            for b in c.mro():
                self.subs.setdefault(b, []).append(c)

    def instance_attrs(self, cls):
        """Attributes of an instance of the class or a subclass (mixins: of the classes they are mixed into)."""
        out = set()
        for c in self.subs.get(cls, [cls]):
            a = attrs_of(self.P, c, self.memo)
            if a is None:
                return None
            out |= a
        return out | self.elsewhere

    def guarded(self, func):
        """Attributes tested with hasattr or getattr, or read where AttributeError is caught."""
        out = set()
        for n in ast.walk(func.node):
            if isinstance(n, ast.Call) and dotted(n.func) in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
            elif isinstance(n, ast.Try) and any(h.type is None or "AttributeError" in ast.dump(h.type) or "'Exception'" in ast.dump(h.type) for h in n.handlers):
                for b in n.body:
                    out |= {x.attr for x in ast.walk(b) if isinstance(x, ast.Attribute)}
        return out

    def first_arg(self, func):
        """(name, class) of the first argument of the method the function is, or is nested in."""
        f = func
        while f.parent is not None and f.cls is None:
            f = f.parent
        while f.parent is not None:
            f = f.parent
        if f.cls is None or getattr(func, "local_class", None) is not None:
            return None, None
        g = func
        while g is not None:
            if getattr(g, "local_class", None) is not None:
                return None, None
            g = g.parent
        names = f.decorator_names()
        if "staticmethod" in names or not f.arg_names():
            return None, None
        n = f.arg_names()[0]
        g = func
        while g is not f:
            if n in g.locals:
                return None, None
            g = g.parent
        # not if it is assigned to
        if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            return None, None
        return n, f.cls

    def local_types(self, func):
        """{name: Class} for locals that are only ever assigned an instance of one package class."""
        out, bad = {}, set(func.arg_names())
        a = func.node.args
        for n in own_nodes(func.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                t = n.targets[0].id
                c = self.resolve_in(func, n.value.func)
                if isinstance(c, Class) and c.find_method("__new__") is None and (t not in out or out[t] is c):
                    out[t] = c
                    n.targets[0]._typed = True
        for n in ast.walk(func.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not getattr(n, "_typed", False):
                bad.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not func.node:
                bad.add(n.name)
            elif isinstance(n, ast.arg):
                bad.add(n.arg)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                bad |= {(al.asname or al.name).split(".")[0] for al in n.names}
        return {k: v for k, v in out.items() if k not in bad}

    def resolve_in(self, func, node):
        """Resolve an expression to a thing of the program, seen from inside the function."""
        if isinstance(node, ast.Name):
            f = func
            while f is not None:
                if node.id in f.locals:
                    imps = {}
                    for n in own_nodes(f.node):
                        if isinstance(n, (ast.Import, ast.ImportFrom)):
                            f.module._import(n, imps)
                    others = [n for n in own_nodes(f.node) if isinstance(n, ast.Name) and n.id == node.id and isinstance(n.ctx, ast.Store)]
                    if node.id in imps and not others:
                        return self.P.resolve_import(imps[node.id])
                    defs = [n for n in own_nodes(f.node) if isinstance(n, ast.FunctionDef) and n.name == node.id]
                    if len(defs) == 1 and not others and node.id not in imps and id(defs[0]) in f.children:
                        return f.children[id(defs[0])]
                    return None
                f = f.parent
            return self.P.resolve(func.module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_in(func, node.value)
            if isinstance(b, Module):
                return self.P.resolve(b, node.attr) or self.P.modules.get(b.name + "." + node.attr)
            if isinstance(b, Class):
                return b.find_method(node.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
        return None

    def module_attr_ok(self, m, name):
        names = module_names(m)
        return names is None or name in names or name in BUILTINS or m.name + "." + name in self.P.modules or name in self.elsewhere

    def check(self, func):
        ctx = self.ctx
        self_name, cls = self.first_arg(func)
        meth = func
        while meth.parent is not None:
            meth = meth.parent
        is_cls = cls is not None and ("classmethod" in meth.decorator_names() or any((d or "").split(".")[-1] == "lexicon" for d in meth.decorator_names()) or meth.name == "__new__" or meth.name == "__init_subclass__")
        types = self.local_types(func)
        guarded = self.guarded(meth)
        allowed = self.instance_attrs(cls) if cls else None
        bad = False
        for n in own_nodes(func.node):
            if not isinstance(n, ast.Attribute) or isinstance(n.ctx, ast.Store):
                continue
            v = n.value
            name = n.attr
            if name in guarded:
                continue
            if isinstance(v, ast.Name) and v.id == self_name and allowed is not None:
                if name not in allowed and not (is_cls and name in dir(type)):
                    bad = True
                    ctx.fail("attribute", "{}: {}.{}".format(func.short, v.id, name), "no {} has an attribute {!r}".format(cls.name, name), where(func.module, n))
                continue
            if isinstance(v, ast.Name) and v.id in types:
                a = self.instance_attrs(types[v.id])
                if a is not None and name not in a:
                    bad = True
                    ctx.fail("attribute", "{}: {}.{}".format(func.short, v.id, name), "no {} has an attribute {!r}".format(types[v.id].name, name), where(func.module, n))
                continue
            if isinstance(v, ast.Call) and dotted(v.func) == "super" and not v.args and cls is not None:
                # the attribute must be in the mro of some class, after this one
                ok = None
                for c in self.subs.get(meth.cls, [meth.cls]):
                    mro = c.mro()
                    rest = mro[mro.index(meth.cls) + 1:] if meth.cls in mro else []
                    have = set(dir(object)) | self.elsewhere
                    for k in rest:
                        have |= set(k.methods) | set(k.attrs) | set(k.setters)
                    for e in c.external_bases():
                        x = ext_class(e) or ext_class("collections." + e)
                        if x is None:
                            have = None
                            break
                        have |= set(dir(x))
                    if have is None or name in have:
                        ok = True
                        break
                    ok = False
                if ok is False:
                    bad = True
                    ctx.fail("attribute", "{}: super().{}".format(func.short, name), "no base class has {!r}".format(name), where(func.module, n))
                continue
            b = self.resolve_in(func, v) if isinstance(v, (ast.Name, ast.Attribute)) else None
            if isinstance(b, Module):
                if not self.module_attr_ok(b, name):
                    bad = True
                    ctx.fail("attribute", "{}: {}.{}".format(func.short, dotted(v), name), "the module {} has no {!r}".format(b.name, name), where(func.module, n))
            elif isinstance(b, Class):
                a = attrs_of(self.P, b, self.memo)
                if a is not None and name not in a and name not in dir(type) and name not in self.elsewhere and not b.node.keywords:
                    bad = True
                    ctx.fail("attribute", "{}: {}.{}".format(func.short, dotted(v), name), "the class {} has no {!r}".format(b.name, name), where(func.module, n))
            elif isinstance(b, tuple) and b[0] == "ext":
                if stdlib_missing(b[1], name):
                    bad = True
                    ctx.fail("attribute", "{}: {}.{}".format(func.short, dotted(v), name), "{} has no {!r}".format(b[1], name), where(func.module, n))
        if not bad:
            ctx.ok("attribute", func.short)


def stdlib_missing(modname, name):
    """True if a module of the standard library certainly has no such attribute."""
    import importlib, sys
    if modname.split(".")[0] not in sys.stdlib_module_names or modname in ("this", "antigravity", "__main__"):
        return False
    try:
        m = importlib.import_module(modname)
    except Exception:
        return False
    if hasattr(m, name):
        return False
    try:
        importlib.import_module(modname + "." + name)
        return False
    except Exception:
        return True


# ---------------------------------------------------------------- calls

def signature(func, bound):
    """(min, max or None, names that may be given by keyword or None, required keywords) of a call."""
    a = func.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    ndef = len(a.defaults)
    if bound:
        if not pos and not a.vararg:
            return "self"
        pos = pos[1:]
    required = pos[:max(0, len(pos) - ndef)]
    kwnames = None if a.kwarg else set(x for x in pos if x not in [y.arg for y in a.posonlyargs]) | {x.arg for x in a.kwonlyargs}
    reqkw = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return pos, required, None if a.vararg else len(pos), kwnames, reqkw


def mismatch(call, func, bound):
    """Why the call cannot work, or None."""
    sig = signature(func, bound)
    if sig == "self":
        return "{} takes no arguments, not even the instance".format(func.name)
    if isinstance(call, tuple):
        npos, kws, star = call
    else:
        npos, kws, star = shape(call)
    pos, required, mx, kwnames, reqkw = sig
    if mx is not None and npos > mx:
        return "{} positional arguments, at most {} accepted".format(npos, mx)
    if kwnames is not None:
        for k in kws:
            if k not in kwnames:
                return "unexpected argument {!r}".format(k)
    for k in kws:
        if k in pos[:npos]:
            return "argument {!r} is given twice".format(k)
    if not star:
        for i, r in enumerate(required):
            if i >= npos and r not in kws:
                return "argument {!r} is missing".format(r)
        for r in reqkw:
            if r not in kws:
                return "argument {!r} is missing".format(r)
    return None


def shape(call):
    npos = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    star = any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)
    return npos, [k.arg for k in call.keywords if k.arg is not None], star


PLAIN = {"staticmethod", "classmethod"}


def plain(func):
    return all(d in PLAIN for d in func.decorator_names())


class Calls:
    def __init__(self, ctx, attrs):
        self.ctx, self.attrs, self.P = ctx, attrs, ctx.program

    def candidates(self, func, call):
        """[(function, bound)] of which one is called; or None."""
        f = call.func
        A = self.attrs
        name, cls = A.first_arg(func)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == name and cls is not None:
            if f.attr in A.elsewhere:
                return None
            out = []
            for c in A.subs.get(cls, [cls]):
                for k in c.mro():
                    if f.attr in k.attrs:
                        return None
                    for n in ast.walk(k.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == f.attr:
                            return None
                m = c.find_method(f.attr)
                if m is None:
                    continue
                if not plain(m):
                    return None
                out.append((m, "staticmethod" not in m.decorator_names()))
            # on a class, plain functions are not bound
            meth = func
            while meth.parent is not None:
                meth = meth.parent
            if "classmethod" in meth.decorator_names() or meth.name == "__new__":
                out = [(m, b and "classmethod" in m.decorator_names()) for m, b in out]
            return out or None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and dotted(f.value.func) == "super" and not f.value.args and cls is not None:
            meth = func
            while meth.parent is not None:
                meth = meth.parent
            out = []
            for c in A.subs.get(meth.cls, [meth.cls]):
                m = c.find_method(f.attr, meth.cls)
                if m is None:
                    return None
                if not plain(m) or f.attr == "__new__":
                    return None
                out.append((m, "staticmethod" not in m.decorator_names()))
            return out or None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            t = A.local_types(func).get(f.value.id)
            if t is not None:
                out = []
                for c in A.subs.get(t, [t]):
                    m = c.find_method(f.attr)
                    if m is None or not plain(m) or f.attr in A.elsewhere or any(f.attr in k.attrs for k in c.mro()):
                        return None
                    out.append((m, "staticmethod" not in m.decorator_names()))
                return out
        r = A.resolve_in(func, f)
        return self.of(r, f)

    def of(self, r, f=None):
        if isinstance(r, Func):
            if not plain(r):
                return None
            if r.cls is not None:
                return [(r, "classmethod" in r.decorator_names())]
            return [(r, False)]
        if isinstance(r, Class):
            if r.node.keywords or any(True for _ in r.node.decorator_list):
                return None
            new, init = r.find_method("__new__"), r.find_method("__init__")
            if new and not plain(new):
                return None
            out = [(m, True) for m in (new, init) if m]
            if out:
                return [("all", out)]
            if not r.external_bases() or r.external_bases() == ["object"]:
                return [("none", r)]
        return None

    def check(self, func):
        ctx = self.ctx
        n_ = 0
        bad = False
        calls = [n for n in own_nodes(func.node) if isinstance(n, ast.Call)]
        for call in calls:
            c = self.candidates(func, call)
            if c is None:
                continue
            n_ += 1
            why = self.why(call, c)
            if why:
                bad = True
                ctx.fail("arguments", "{}: {}".format(func.short, ast.unparse(call.func)), "{}: {}".format(ast.unparse(call)[:100], why), where(func.module, call))
        if n_ and not bad:
            ctx.ok("arguments", func.short)
        return n_

    def why(self, call, c):
        whys = []
        for m, b in c:
            if m == "all":
                w = next((x for x in (mismatch(call, k, kb) for k, kb in b) if x), None)
            elif m == "none":
                npos, kws, star = shape(call)
                w = "takes no arguments" if npos or kws else None
            else:
                w = mismatch(call, m, b)
            if w is None:
                return None
            whys.append(w)
        return whys[0]


# ---------------------------------------------------------------- formats

def check_formats(ctx, m):
    bad = False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" \
                and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            npos, kws, star = shape(n)
            if star:
                continue
            try:
                fields = [f for _, f, _, _ in string.Formatter().parse(n.func.value.value) if f is not None]
            except ValueError as e:
                bad = True
                ctx.fail("format", "{}: {!r}".format(m.name, n.func.value.value[:40]), str(e), where(m, n))
                continue
            auto = 0
            for f in fields:
                base = f.replace("[", ".").split(".")[0]
                if base == "":
                    auto += 1
                elif base.isdigit():
                    auto = max(auto, int(base) + 1)
                elif base not in kws:
                    bad = True
                    ctx.fail("format", "{}: {!r}".format(m.name, n.func.value.value[:40]), "the value {!r} is missing".format(base), where(m, n))
            if auto > npos:
                bad = True
                ctx.fail("format", "{}: {!r}".format(m.name, n.func.value.value[:40]), "{} values needed, {} given".format(auto, npos), where(m, n))
    if not bad:
        ctx.ok("format", m.name)


def check_imports(ctx, m):
    P = ctx.program
    bad = False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) or isinstance(n, ast.Import):
            d = {}
            m._import(n, d)
            for name, imp in d.items():
                if name == "*":
                    continue
                if imp[0] == "from" and imp[1] in P.modules:
                    names = module_names(P.modules[imp[1]])
                    ok = names is None or imp[2] in names or imp[1] + "." + imp[2] in P.modules
                elif imp[0] == "from" and imp[1].split(".")[0] == model.PKG:
                    ok = False
                else:
                    ok = True
                    if imp[0] == "from" and stdlib_missing(imp[1], imp[2]):
                        ok = False
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.name.split(".")[0] == model.PKG and a.name not in P.modules:
                            ok = False
                if not ok:
                    bad = True
                    ctx.fail("import", "{}: {}".format(m.name, ".".join(imp[1:])), "there is no such module or name", where(m, n))
    if not bad:
        ctx.ok("import", m.name)


def check_self(ctx, func):
    """A method that is not static takes the instance."""
    a = func.node.args
    if func.cls is not None and func.parent is None and "staticmethod" not in func.decorator_names():
        ok = bool(a.posonlyargs or a.args or a.vararg)
        if all((d or "").split(".")[-1] in ("property", "setter", "classmethod", "cached_property", "cached_method", "deleter") for d in func.decorator_names()):
            ctx.check("self", func.short, ok, "the method takes no instance: every call on an instance fails", where(func.module, func.node))


def run(ctx):
    P = ctx.program
    ctx.rule("names", "every name a function uses is bound in a scope around it")
    ctx.rule("locals", "no function reads a local variable that no path has assigned")
    ctx.rule("attribute", "every attribute of the package's own modules, classes and instances exists")
    ctx.rule("arguments", "every call of a function of the package fits its signature")
    ctx.rule("format", "format strings get the values they need")
    ctx.rule("import", "everything that is imported from the package exists")
    ctx.rule("self", "methods take the instance")
    A = Attrs(ctx)
    C = Calls(ctx, A)
    ncalls = 0
    for m in P.modules.values():
        check_names(ctx, m)
        check_formats(ctx, m)
        check_imports(ctx, m)
        for func in m.all_functions():
            if isinstance(func.node, ast.Lambda):
                continue
            ctx.analysed.add(func.short)
            u = Unbound(func)
            if u.found:
                for n in u.found:
                    ctx.fail("locals", "{}: {}".format(func.short, n.id), "the local variable {!r} is read but not assigned".format(n.id), where(m, n))
            else:
                ctx.ok("locals", func.short)
            A.check(func)
            ncalls += C.check(func)
            check_self(ctx, func)
    ctx.rule("vocabulary", "every attribute that is read exists on something in the package or the library it uses")
    check_vocabulary(ctx, A)
    ctx.extra["calls_resolved"] = ncalls
    ctx.assume("attributes of instances are followed for the first argument of methods and for locals that hold one class only")
    ctx.floor("names", 40)
    ctx.floor("locals", 300)
    ctx.floor("arguments", 40)


def vocabulary(P, A):
    """All attribute names that exist on something: of the package, builtins and the imported library."""
    import importlib, sys, re, io, types, codecs
    out = set(A.elsewhere)
    for m in P.modules.values():
        out |= module_names(m) or set()
        out |= {m.name.split(".")[-1]}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 200:
                out |= {w for w in n.value.replace(",", " ").split() if w.isidentifier()} if namedtuple_word(n.value) else set()
        for c in m.classes.values():
            out |= set(c.attrs)
    # lxml elements (not part of the standard library)
    out |= set("attrib base getchildren getiterator getnext getparent getprevious getroottree index iter iterancestors iterchildren iterdescendants "
               "itersiblings itertext nsmap prefix sourceline tag tail text xpath cssselect find findall findtext insert makeelement set get keys items values".split())
    import importlib.abc, importlib.machinery
    todo = [importlib.abc.ResourceLoader, importlib.machinery.SourceFileLoader, importlib.machinery.ModuleSpec, object, str, bytes, int, float, list, tuple, dict, set, frozenset, type, Exception, OSError, UnicodeError, SyntaxError, slice, range, property,
            types.FunctionType, types.MethodType, types.GeneratorType, types.CodeType, types.ModuleType, types.FrameType, types.TracebackType, re.Pattern, re.Match, io.TextIOWrapper, io.BytesIO, io.StringIO, io.BufferedReader, memoryview]
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            for name in ([a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(n, ast.ImportFrom) and n.module and not n.level else []):
                if name.split(".")[0] in sys.stdlib_module_names and name not in ("this", "antigravity"):
                    try:
                        mod = importlib.import_module(name)
                    except Exception:
                        continue
                    todo.append(mod)
                    todo.extend(v for v in vars(mod).values() if isinstance(v, type))
                    if hasattr(mod, "Lock"):
                        todo.append(type(mod.Lock()))
    try:
        from importlib.resources.abc import ResourceReader, TraversableResources
        todo += [ResourceReader, TraversableResources]
    except ImportError:
        pass
    for t in todo:
        out |= set(dir(t))
    return out


def namedtuple_word(s):
    return all(w.isidentifier() for w in s.replace(",", " ").split())


def check_vocabulary(ctx, A):
    import sys
    P = ctx.program
    voc = vocabulary(P, A)
    for m in P.modules.values():
        bad = False
        foreign = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                foreign |= {(a.asname or a.name).split(".")[0] for a in n.names if a.name.split(".")[0] not in sys.stdlib_module_names and a.name.split(".")[0] != model.PKG}
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level and n.module.split(".")[0] not in sys.stdlib_module_names and n.module.split(".")[0] != model.PKG:
                foreign |= {a.asname or a.name for a in n.names}
        if any(isinstance(n, ast.Name) and n.id in foreign for n in ast.walk(m.tree)):
            ctx.unknown("vocabulary", m.name, "uses a library that is not known")
            continue
        for f in m.all_functions():
            g = A.guarded(f)
            for n in own_nodes(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr not in voc and n.attr not in g and not n.attr[:1].isupper():
                    bad = True
                    ctx.fail("vocabulary", "{}: .{}".format(f.short, n.attr), "nothing has an attribute {!r}".format(n.attr), where(m, n))
        if not bad:
            ctx.ok("vocabulary", m.name)
