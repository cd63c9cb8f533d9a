"""Source model of the analysed package: modules, classes, functions, names.

Everything here is read from the source text with ast; nothing of the analysed
package is imported or run.
"""
import ast
import os
import warnings

REPO = os.environ.get("PA_REPO", "/repo")
PKG = "parce"


class AnchorLost(Exception):
    """Something the analysis is anchored on is not in the source any more."""


def body_of(node):
    """The statements of a function or class, without its docstring."""
    b = node.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) \
            and isinstance(b[0].value.value, str):
        return b[1:]
    return b


class Func:
    """A function definition (or lambda), with its place in the program."""
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent            # enclosing Func
        self.name = getattr(node, "name", "<lambda>")
        if parent:
            self.qualname = parent.qualname + ".<locals>." + self.name
        elif cls:
            self.qualname = cls.qualname + "." + self.name
        else:
            self.qualname = module.name + "." + self.name
        self.children = {}              # id(node) -> Func
        self._locals = None
        self._is_gen = None

    def __repr__(self):
        return "<Func {}>".format(self.qualname)

    @property
    def where(self):
        return "{}:{} ({})".format(self.module.relpath, self.node.lineno, self.short)

    @property
    def short(self):
        q = self.qualname
        return q[len(PKG) + 1:] if q.startswith(PKG + ".") else q

    def decorators(self):
        return getattr(self.node, "decorator_list", [])

    def decorator_names(self):
        return [dotted(d.func if isinstance(d, ast.Call) else d) for d in self.decorators()]

    @property
    def is_generator(self):
        if self._is_gen is None:
            self._is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node))
        return self._is_gen

    @property
    def args(self):
        return self.node.args

    def arg_names(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def locals(self):
        """Names bound in this function (without nonlocal/global)."""
        if self._locals is None:
            s = set()
            a = self.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                s.add(x.arg)
            if a.vararg:
                s.add(a.vararg.arg)
            if a.kwarg:
                s.add(a.kwarg.arg)
            out = set()
            for n in own_nodes(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    s.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        s.add((al.asname or al.name).split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                elif isinstance(n, (ast.Nonlocal, ast.Global)):
                    out.update(n.names)
            self._locals = s - out
        return self._locals


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        d = dotted(node.value)
        return d and d + "." + node.attr
    return None


def own_nodes(node):
    """Walk the nodes of a function without entering nested functions/classes.

    Nested definition nodes themselves are yielded. Comprehension bodies are
    entered, but targets bound by them are not ours, so comprehension targets
    are skipped.
    """
    if isinstance(node, ast.Lambda):
        stack = [node.body]
    else:
        stack = list(reversed(node.body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack.extend(n.decorator_list)
            stack.extend(d for d in n.args.defaults + n.args.kw_defaults if d)
            continue
        if isinstance(n, ast.Lambda):
            stack.extend(d for d in n.args.defaults + n.args.kw_defaults if d)
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(n.decorator_list + n.bases)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                stack.append(g.iter)
                stack.extend(g.ifs)
            if isinstance(n, ast.DictComp):
                stack += [n.key, n.value]
            else:
                stack.append(n.elt)
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Class:
    def __init__(self, node, module, parent=None):
        self.node = node
        self.module = module
        self.name = node.name
        self.qualname = module.name + "." + node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}                 # class level name -> expr
        self.bases = node.bases
        self._mro = None
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = Func(st, module, self)
                names = f.decorator_names()
                if any(d and d.endswith(".setter") for d in names):
                    self.setters[st.name] = f
                elif any(d and d.endswith(".deleter") for d in names):
                    pass
                else:
                    self.methods[st.name] = f
                module._index_children(f)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.attrs[st.target.id] = st.value

    def __repr__(self):
        return "<Class {}>".format(self.qualname)

    def mro(self):
        """A linearisation (depth first, last duplicate kept) of the repo classes."""
        if self._mro is None:
            seqs = []
            direct = []
            for b in self.bases:
                c = self.module.program.resolve_class(self.module, b)
                if isinstance(c, Class):
                    direct.append(c)
                    seqs.append(list(c.mro()))
            seqs.append(direct)
            res = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = res
        return self._mro

    def external_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                r = c.module.program.resolve_class(c.module, b)
                if not isinstance(r, Class):
                    out.append(dotted(b) or ast.dump(b))
        return out

    def find_method(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.methods:
                return c.methods[name]

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]

    def issubclass(self, qualname):
        return any(c.qualname == qualname for c in self.mro())


class Module:
    def __init__(self, program, name, path):
        self.program = program
        self.name = name
        self.path = path
        self.relpath = os.path.relpath(path, REPO)
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.source, path)
        self.is_package = os.path.basename(path) == "__init__.py"
        self.functions = {}
        self.classes = {}
        self.assigns = {}               # name -> last value expr
        self.imports = {}               # name -> ("module", modname) | ("from", modname, name)
        self.func_by_node = {}
        self._scan(self.tree.body)

    def __repr__(self):
        return "<Module {}>".format(self.name)

    def _scan(self, stmts):
        for st in stmts:
            if isinstance(st, ast.FunctionDef):
                f = Func(st, self)
                self.functions[st.name] = f
                self._index_children(f)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.assigns[e.id] = None
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self._import(st, self.imports)
            elif isinstance(st, (ast.If, ast.Try)):
                for f in ("body", "orelse", "finalbody"):
                    self._scan(getattr(st, f, []))
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)

    def _import(self, st, d):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    d[a.asname] = ("module", a.name)
                else:
                    d[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
        else:
            mod = st.module or ""
            if st.level:
                parts = self.name.split(".")
                if not self.is_package:
                    parts = parts[:-1]
                if st.level > 1:
                    parts = parts[:len(parts) - (st.level - 1)]
                mod = ".".join(parts + ([mod] if mod else []))
            for a in st.names:
                d[a.asname or a.name] = ("from", mod, a.name)

    def _index_children(self, func):
        self.func_by_node[id(func.node)] = func
        for n in own_nodes(func.node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                f = Func(n, self, func.cls, func)
                func.children[id(n)] = f
                self._index_children(f)
            elif isinstance(n, ast.ClassDef):
                for st in n.body:
                    if isinstance(st, ast.FunctionDef):
                        f = Func(st, self, None, func)
                        f.local_class = n
                        func.children[id(st)] = f
                        self._index_children(f)

    def all_functions(self):
        return list(self.func_by_node.values())


class Program:
    def __init__(self, root=None, package=PKG):
        self.root = root or os.path.join(REPO, package)
        self.modules = {}
        if not os.path.isdir(self.root):
            raise AnchorLost("package directory {} is missing".format(self.root))
        base = os.path.dirname(self.root)
        for d, dirs, files in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    self.modules[rel] = Module(self, rel, p)

    def module(self, name):
        m = self.modules.get(PKG + "." + name if name else PKG)
        if m is None:
            raise AnchorLost("module {} is missing".format(name))
        return m

    def resolve(self, module, name, _seen=None):
        """Resolve a global name to Func|Class|Module|("ext", dotted)|("expr", module, node)|None."""
        if name in module.functions:
            return module.functions[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.assigns:
            return ("expr", module, name, module.assigns[name])
        if name in module.imports:
            return self.resolve_import(module.imports[name], _seen)
        sub = self.modules.get(module.name + "." + name)
        if sub is not None and module.is_package:
            return sub
        return None

    def resolve_import(self, imp, _seen=None):
        _seen = _seen or set()
        if imp in _seen:
            return self.modules.get(".".join(imp[1:])) or ("ext", ".".join(imp[1:]))
        _seen.add(imp)
        if imp[0] == "module":
            return self.modules.get(imp[1]) or ("ext", imp[1])
        _, mod, name = imp
        m = self.modules.get(mod)
        if m is not None:
            r = self.resolve(m, name, _seen)
            if r is not None:
                return r
            s = self.modules.get(mod + "." + name)
            if s is not None:
                return s
            return None
        return ("ext", mod + "." + name)

    def resolve_expr(self, module, node):
        """Resolve a Name/Attribute expression at module level."""
        if isinstance(node, ast.Name):
            return self.resolve(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if isinstance(b, Module):
                r = self.resolve(b, node.attr)
                return r or self.modules.get(b.name + "." + node.attr)
            if isinstance(b, Class):
                return b.find_method(node.attr) or b.find_attr(node.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
        return None

    def resolve_class(self, module, node):
        return self.resolve_expr(module, node)

    def func(self, dottedname):
        """Find "module.func" or "module.Class.method" (below the package)."""
        parts = dottedname.split(".")
        for i in range(len(parts) - 1, -1, -1):
            m = self.modules.get(".".join([PKG] + parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                f = m.functions.get(rest[0])
                if f:
                    return f
                r = self.resolve(m, rest[0])
                if isinstance(r, Func):
                    return r
            elif len(rest) == 2:
                c = self.resolve(m, rest[0])
                if isinstance(c, Class):
                    f = c.find_method(rest[1])
                    if f:
                        return f
        raise AnchorLost("{} is missing".format(dottedname))

    def cls(self, dottedname):
        mod, _, name = dottedname.rpartition(".")
        c = self.resolve(self.module(mod), name)
        if not isinstance(c, Class):
            raise AnchorLost("class {} is missing".format(dottedname))
        return c

    def all_functions(self):
        for m in self.modules.values():
            yield from m.all_functions()
