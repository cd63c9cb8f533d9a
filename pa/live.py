"""Liveness of local names: which may still be read after a statement."""
import ast


def _uses(node):
    """Names loaded or deleted anywhere in an expression or statement (nested functions included)."""
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}


def _stores(target):
    """Names certainly assigned by a plain target."""
    if isinstance(target, ast.Name):
        return {target.id}
    if isinstance(target, (ast.Tuple, ast.List)):
        return {n for e in target.elts for n in _stores(e)}
    if isinstance(target, ast.Starred):
        return _stores(target.value)
    return set()


def free(n):
    """Names that a nested function or comprehension may read from outside."""
    if isinstance(n, (ast.FunctionDef, ast.Lambda)) and not any(
            isinstance(m, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef)) and m is not n for m in ast.walk(n)):
        own = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        comp = set()
        for m in ast.walk(n):
            if isinstance(m, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                comp |= {id(x) for x in ast.walk(m)}
        body = n.body if isinstance(n.body, list) else [n.body]
        own |= {m.id for b in body for m in ast.walk(b) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and id(m) not in comp}
        outside = {m.id for d in list(n.args.defaults) + [d for d in n.args.kw_defaults if d] + getattr(n, "decorator_list", []) for m in ast.walk(d) if isinstance(m, ast.Name)}
        return (_uses(n) - own) | outside
    return _uses(n)


class Live:
    def __init__(self, fnode):
        self.after = {}     # id(stmt): names live after it
        self.head = {}      # id(loop): names live at its head
        self.keep = set()
        for n in ast.walk(fnode):
            if n is not fnode and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)):
                self.keep |= free(n)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.keep |= set(n.names)
        self.block(fnode.body, set(), (set(), set(), set()))

    def block(self, stmts, out, ctx):
        for s in reversed(stmts):
            self.after[id(s)] = self.after.get(id(s), set()) | out | ctx[2] | self.keep
            out = self.stmt(s, out, ctx)
        return out

    def stmt(self, s, out, ctx):
        brk, cont, exc = ctx
        if isinstance(s, ast.Return):
            return _uses(s) | exc
        if isinstance(s, ast.Raise):
            return _uses(s) | exc
        if isinstance(s, ast.Break):
            return brk | exc
        if isinstance(s, ast.Continue):
            return cont | exc
        if isinstance(s, ast.Assign):
            kill = {n for t in s.targets for n in _stores(t)}
            return (out - kill) | _uses(s) | exc
        if isinstance(s, ast.AugAssign):
            n = {s.target.id} if isinstance(s.target, ast.Name) else set()
            return out | _uses(s) | n | exc
        if isinstance(s, ast.If):
            return self.block(s.body, out, ctx) | self.block(s.orelse, out, ctx) | _uses(s.test) | exc
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            end = self.block(s.orelse, out, ctx)
            head = set(end)
            if isinstance(s, ast.While):
                head |= _uses(s.test)
            for _ in range(3):
                b = self.block(s.body, head, (out, head, exc))
                new = head | (b | _uses(s.test) if isinstance(s, ast.While) else b - _stores(s.target) | _uses(s.target))
                if new == head:
                    break
                head = new
            else:
                head |= self.block(s.body, head, (out, head, exc))
                self.block(s.body, head, (out, head, exc))
            self.head[id(s)] = self.head.get(id(s), set()) | head | exc | self.keep
            return head | (_uses(s.iter) if not isinstance(s, ast.While) else set()) | exc
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            fin = self.block(s.finalbody, out, ctx)
            c2 = (brk | fin, cont | fin, exc | fin) if s.finalbody else ctx
            hs = set(exc) | (fin if s.finalbody else set())
            for h in s.handlers:
                b = self.block(h.body, fin, c2)
                hs |= (b - {h.name}) | (_uses(h.type) if h.type else set())
            end = self.block(s.orelse, fin, c2)
            return self.block(s.body, end, (c2[0], c2[1], c2[2] | hs)) | hs
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b = self.block(s.body, out, ctx)
            for i in reversed(s.items):
                if i.optional_vars is not None:
                    b = b - _stores(i.optional_vars) | _uses(i.optional_vars)
                b = b | _uses(i.context_expr)
            return b | out | exc        # a context manager may swallow an exception
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return out | _uses(s) | exc
        # anything else: reads what it mentions, and kills nothing
        for f in ("body", "orelse", "cases"):
            for b in getattr(s, f, None) or ():
                for n in ast.walk(b):
                    if isinstance(n, ast.stmt):
                        self.after[id(n)] = out | _uses(s) | self.keep | brk | cont | exc
        return out | _uses(s) | exc
