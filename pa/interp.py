"""A trace partitioning abstract interpreter for the Python subset used by the
analysed package.

Values are abstract: integers are affine forms over symbols (see lin.py),
everything unknown is a hash-consed uninterpreted term. Loops are solved by a
widening fixpoint: everything a loop changes is replaced by symbols, about which
only inductive difference/affine relations are kept. Branches on unknown values
are followed both ways. Functions of the package are inlined (also generators:
the consumer's loop body is analysed at the generator's yield).

Checks subclass Hooks to give meaning to library calls and to place obligations.
"""
import ast
import itertools
import os
import time

from . import live, model
from .lin import Lin, sym, num, entails as lin_entails

# ------------------------------------------------------------------ values


class Term:
    __slots__ = ("op", "args", "_h")
    _pool = {}

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == "attr":
            v = "" if not self.args[2] else "'%s" % (self.args[2],)
            return "{}.{}{}".format(self.args[0], self.args[1], v)
        if self.op == "item":
            return "{}[{}]".format(*self.args[:2])
        if self.op == "slice":
            return "{}[{}:{}]".format(*self.args[:3])
        if self.op == "in":
            return "<{}>".format(self.args[0])
        if self.op in ("fresh", "havoc"):
            return "?{}".format(self.args[-1])
        return "{}({})".format(self.op, ", ".join(map(str, self.args)))


def T(op, *args):
    key = (op,) + args
    t = Term._pool.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t._h = hash(key)
        Term._pool[key] = t
    return t


class V:
    """Base of the other abstract values; equality is by key."""
    __slots__ = ("k", "_h")

    def _set(self, *k):
        self.k = (type(self).__name__,) + k
        self._h = hash(self.k)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is type(self) and o._h == self._h and o.k == self.k

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "{}{}".format(type(self).__name__, self.k[1:])


class Const(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        self._set(type(v).__name__, v if v == v else "nan")

    def __repr__(self):
        return repr(self.v)


class Tup(V):
    __slots__ = ("items", "nt")

    def __init__(self, items, nt=None):
        self.items = tuple(items)
        self.nt = nt
        self._set(self.items, nt and nt.name)

    def __repr__(self):
        return "{}({})".format(self.nt.name if self.nt else "", ", ".join(map(str, self.items)))


class Obj(V):
    __slots__ = ("id", "cls", "label")

    def __init__(self, id, cls, label):
        self.id, self.cls, self.label = id, cls, label
        self._set(id)

    def __repr__(self):
        return "<{}#{}>".format(self.label, self.id)


class FnV(V):
    __slots__ = ("func", "env", "self_", "defcls")

    def __init__(self, func, env=None, self_=None, defcls=None):
        self.func, self.env, self.self_, self.defcls = func, env, self_, defcls
        self._set(func.qualname, id(func.node), env, self_)

    def __repr__(self):
        return "<fn {}>".format(self.func.short)


class ClsV(V):
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls
        self._set(cls.qualname)


class NTV(V):
    """A namedtuple class."""
    __slots__ = ("name", "fields")

    def __init__(self, name, fields):
        self.name, self.fields = name, tuple(fields)
        self._set(name, self.fields)


class ModV(V):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod
        self._set(mod.name)


class ExtV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._set(name)

    def __repr__(self):
        return "<ext {}>".format(self.name)


class BM(V):
    """A method of a value whose class is not in the package."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name
        self._set(recv, name)


class GenV(V):
    """A generator that has not been run yet."""
    __slots__ = ("fn", "bound", "node", "env", "fr")

    def __init__(self, fn=None, bound=None, node=None, fr=None):
        self.fn, self.bound, self.node, self.fr = fn, bound, node, fr
        self._set(fn, tuple(bound) if bound else None, id(node), fr and fr.env)


class SliceV(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self._set(lo, hi, step)


class IterV(V):
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        self._set(kind, args)


class SuperV(V):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj
        self._set(cls.qualname, obj)


class Exc(V):
    __slots__ = ("name", "payload")

    def __init__(self, name, payload=None):
        self.name, self.payload = name, payload
        self._set(name, repr(payload))


class Raised:
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "raise {}".format(self.exc.name)


TRUE, FALSE, NONE = Const(True), Const(False), Const(None)
EMPTY = Const("")
NEXT, BREAK, CONTINUE, LOOP, EXHAUST = ("next",), ("break",), ("continue",), ("loop",), ("exhaust",)


class Budget(Exception):
    pass


def nextver(v):
    """The version after v: versions are integers, or (loop, n) after widening."""
    if isinstance(v, tuple):
        return v[:-1] + (v[-1] + 1,) if v[0] == "v" else ("v", v, 1)
    return v + 1


def mentions(v, lid, memo=None):
    """Does the value mention a symbol that loop lid has introduced?"""
    if memo is None:
        memo = {}
    if isinstance(v, (Term, Tup, Lin, V)):
        r = memo.get(v)
        if r is not None:
            return r
        memo[v] = False
    if isinstance(v, Lin):
        r = any(mentions(t, lid, memo) for t, _ in v.c)
    elif isinstance(v, Term):
        r = v.op == "havoc" and v.args[0] == lid or any(mentions(a, lid, memo) for a in v.args)
    elif isinstance(v, V):
        r = any(mentions(a, lid, memo) for a in v.k)
    elif isinstance(v, (tuple, list)):
        return any(mentions(a, lid, memo) for a in v)
    else:
        return False
    memo[v] = r
    return r


class Imprecise(Exception):
    """Raised when a construct is not supported."""


# ------------------------------------------------------------------ state


class State:
    __slots__ = ("vars", "heap", "cons", "facts", "auto", "trace", "ver", "unk")

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.cons = frozenset()
        self.facts = {}
        self.auto = {}
        self.trace = ()
        self.ver = {}
        self.unk = ()       # imprecision met on this path

    def copy(self):
        s = State.__new__(State)
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.cons = self.cons
        s.facts = dict(self.facts)
        s.auto = dict(self.auto)
        s.trace = self.trace
        s.ver = dict(self.ver)
        s.unk = self.unk
        return s

    def key(self):
        return (frozenset(self.vars.items()), frozenset(self.heap.items()), self.cons,
                frozenset(self.facts.items()), frozenset(self.auto.items()),
                frozenset(self.ver.items()), self.unk)

    # numeric
    def assume(self, *lins):
        """Return self (modified) with all lins >= 0, or None if impossible."""
        for l in lins:
            if l.const:
                if l.k < 0:
                    return None
            elif l not in self.cons:
                if lin_entails(self.cons, -l - 1):
                    return None
                self.cons = self.cons | frozenset((l,))
        return self

    def assume_eq(self, l):
        return self.assume(l, -l)

    def entails(self, lin):
        return lin_entails(self.cons, lin)

    def entails_eq(self, lin):
        if lin.const:
            return lin.k == 0
        return self.entails(lin) and self.entails(-lin)

    def note(self, *ev):
        self.trace = self.trace + (ev,)
        return self

    def g(self, name):
        return self.vars.get(("ghost", name))

    def setg(self, name, v):
        self.vars[("ghost", name)] = v
        return self


class Frame:
    __slots__ = ("func", "env", "on_yield", "module", "catching", "depth", "loopn")

    def __init__(self, func, env, module, on_yield=None, depth=0):
        self.func, self.env, self.module, self.on_yield = func, env, module, on_yield
        self.catching = []
        self.depth = depth
        self.loopn = 0


# ------------------------------------------------------------------ hooks


class Hooks:
    """Default meaning of everything the analysis cannot look into."""
    #: qualified names (without package) of functions not looked into
    opaque = ()
    max_depth = 12
    #: greatest number of rounds of a loop, if everything that is looped over is known exactly
    exact_loops = 0

    def inline(self, func):
        q = func.short
        return not any(q == o or q.endswith("." + o) for o in self.opaque)

    def attr(self, it, st, base, name):
        return None

    def missing(self, it, st, base, name):
        """True if the object certainly lacks the attribute, False if it certainly has it."""
        return None

    def typeof(self, it, st, val):
        return None

    def call(self, it, st, label, recv, args, kwargs, node, fn=None):
        """Meaning of a call; return None or [(state, value)].

        Called for every call; fn is the Func for calls into the package.
        """
        return None

    def setattr(self, it, st, base, name, val, node):
        return None

    def setitem(self, it, st, base, key, val, node):
        return None

    def delitem(self, it, st, base, key, node):
        return None

    def getitem(self, it, st, base, key, node):
        return None

    def fstring(self, it, st, parts):
        """The value of an f-string without format specifications."""

    def item_count(self, it, st, seq):
        """The number of items of a sequence, if iter_elem() gives them."""

    def iter_start(self, it, st, seq, node):
        return None

    def iter_elem(self, it, st, seq, k, elem, node):
        """Learn about an element; return [(st, elem)] or None; [] if impossible."""
        return None

    def iter_done(self, it, st, seq, k, node):
        return None

    def iter_next(self, it, st, seq, k, elem, node):
        """The loop body has handled an element and goes on to the next."""
        return None

    def iter_break(self, it, st, seq, k, elem, node):
        """The loop body leaves the loop with break at this element.

        Returns "covered" if what follows is covered by the analysis already.
        """
        return None

    def binop(self, it, st, op, a, b, node):
        """[(state, value)] or None"""

    def compare(self, it, st, op, a, b, node):
        return None

    def on_yield(self, it, st, func, val, node):
        return None

    def enter(self, it, st, val, node):
        return None

    def leave(self, it, st, val, exc, node):
        return None

    def may_raise(self, it, label, recv, node):
        return False


PURE_METHODS = frozenset("""startswith endswith strip lstrip rstrip split rsplit splitlines lower upper
    find rfind index rindex count replace join format encode decode isspace isdigit isalpha isidentifier
    casefold partition rpartition title translate expandtabs group groups groupdict start end span
    keys values items get copy mro indices isupper islower zfill fullmatch match search finditer
    union intersection difference issubset swapcase capitalize center ljust rjust
    __getitem__ __len__ __contains__ __str__ __repr__ __format__ is_alive""".split())

BUILTINS = frozenset("""len isinstance issubclass min max range enumerate zip reversed iter list tuple dict set frozenset
    sorted bool int str float bytes abs getattr hasattr setattr print type super any all sum slice map filter callable repr
    id next ord chr format round divmod hash object property classmethod staticmethod open vars dir bin hex oct pow
    memoryview bytearray complex locals globals eval exec input __import__ NotImplemented Ellipsis
    BaseException Exception KeyError IndexError ValueError TypeError RuntimeError AttributeError NameError
    NotImplementedError StopIteration GeneratorExit KeyboardInterrupt LookupError OSError IOError OverflowError
    ZeroDivisionError UnicodeError UnicodeDecodeError UnicodeEncodeError AssertionError ImportError
    ModuleNotFoundError RecursionError SystemExit UserWarning DeprecationWarning Warning FileNotFoundError
    PermissionError EOFError ArithmeticError TimeoutError SyntaxError __name__ __file__ __doc__ delattr ascii
    StopAsyncIteration MemoryError BufferError ReferenceError SystemError FutureWarning RuntimeWarning""".split())

EXC_PARENTS = {
    "KeyError": ("LookupError",), "IndexError": ("LookupError",), "LookupError": (),
    "UnicodeDecodeError": ("UnicodeError", "ValueError"), "UnicodeEncodeError": ("UnicodeError", "ValueError"),
    "UnicodeError": ("ValueError",), "FileNotFoundError": ("OSError",), "NotImplementedError": ("RuntimeError",),
    "RecursionError": ("RuntimeError",), "ModuleNotFoundError": ("ImportError",),
}
BASE_ONLY = ("GeneratorExit", "KeyboardInterrupt", "SystemExit")


def exc_matches(excname, handler):
    """True / False / None (maybe)."""
    if handler in (None, "BaseException"):
        return True
    if excname == "any":
        return None
    if handler == "Exception":
        return excname not in BASE_ONLY
    if excname == handler:
        return True
    return handler in EXC_PARENTS.get(excname, ())


class Interp:
    def __init__(self, program, hooks, unroll=0, budget=60000):
        self.program = program
        self.hooks = hooks
        self.unroll = unroll
        self.budget = budget
        self.steps = 0
        self.quiet = 0
        self.widened = {}
        self.counter = itertools.count(1)
        self.env_parent = {}
        self.env_locals = {}
        self.env_fr = {}
        self.stack = []
        self.findings = {}       # key -> (rule, node, func, detail, state)
        self.obligations = {}    # key -> "proved" | "failed" | "unknown"
        self.notes = set()
        self.functions = set()
        self.globals_cache = {}
        self.module_objs = {}

    # ------------------------------------------------------------ helpers

    deadline = None

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Budget("analysis budget exceeded")
        if self.deadline and not self.steps & 127 and time.time() > self.deadline:
            raise Budget("analysis time exceeded")

    def fresh(self, label="v"):
        return T("fresh", next(self.counter), label)

    def freshint(self, label="n"):
        return sym(self.fresh(label))

    def imprecise(self, st, what, node=None):
        self.notes.add("{} (line {})".format(what, getattr(node, "lineno", "?")))
        if what not in st.unk:
            st.unk = st.unk + (what,)
        return st

    def new_obj(self, cls, label):
        return Obj(next(self.counter), cls, label)

    unsure = False      # True if something could not be decided

    def oblige(self, rule, ok, node, func, st, detail=""):
        """Record an obligation. ok: True, False or None (undecided)."""
        if self.quiet:
            return
        if ok is None:
            self.unsure = True
        if ok is False and st is not None and st.unk:
            ok = None
        key = (rule, func.short if func else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        old = self.obligations.get(key)
        new = "proved" if ok else ("failed" if ok is False else "unknown")
        rank = {"proved": 0, "unknown": 1, "failed": 2}
        if old is None or rank[new] > rank[old]:
            self.obligations[key] = new
        if ok is False and key not in self.findings:
            self.findings[key] = (rule, node, func, detail, st)

    def where(self, func, node):
        if func is None:
            return "?"
        return "{}:{} in {}".format(func.module.relpath, getattr(node, "lineno", func.node.lineno), func.short)

    # ------------------------------------------------------------ numerics

    def as_lin(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Const):
            if isinstance(v.v, bool):
                return num(int(v.v))
            if isinstance(v.v, int):
                return num(v.v)
            return None
        if isinstance(v, Term):
            return sym(v)
        return None

    def len_of(self, st, v):
        """Return (st, Lin) for len(v)."""
        if isinstance(v, Tup):
            return num(len(v.items))
        if isinstance(v, Const) and isinstance(v.v, (str, bytes, tuple)):
            return num(len(v.v))
        if isinstance(v, Obj):
            l = st.heap.get((v, "#len"))
            if l is not None:
                return l
            t = T("len", v, st.ver.get(("#items", v), 0))
            st.assume(sym(t))
            st.heap[(v, "#len")] = sym(t)
            return sym(t)
        if isinstance(v, Term):
            if v.op == "slice":
                base, lo, hi = v.args[:3]
                bl = self.len_of(st, base)
                if isinstance(lo, Lin) and isinstance(hi, Lin):
                    if st.entails(lo) and st.entails(hi - lo) and st.entails(bl - hi):
                        return hi - lo
            if v.op == "cat":
                a = self.len_of(st, v.args[0])
                b = self.len_of(st, v.args[1])
                if a is not None and b is not None:
                    return a + b
            if v.op == "call" and v.args[0] == "list" and len(v.args) > 2:
                pass
            t = T("len", v, st.ver.get(("#items", v), 0) if v.op != "slice" else 0)
            st.assume(sym(t))
            f = st.facts.get(("truth", v))
            if f is True:
                st.assume(sym(t) - 1)
            elif f is False and st.facts.get(("isnone", v)) is False:
                st.assume(-sym(t))
            return sym(t)
        if isinstance(v, IterV) and v.kind == "range":
            return None
        return None

    # ------------------------------------------------------------ truth

    def truth(self, st, v, node=None):
        """Yield (state, bool)."""
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, Lin):
            if v.const:
                return [(st, v.k != 0)]
            out = []
            if st.entails_eq(v):
                return [(st, False)]
            s = st.copy().assume(v - 1)
            if s:
                out.append((s, True))
            s = st.copy().assume(-v - 1)
            if s:
                out.append((s, True))
            s = st.copy().assume_eq(v)
            if s:
                out.append((s, False))
            return out
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, (FnV, ClsV, NTV, ModV, ExtV, BM, GenV, SliceV, IterV, SuperV)):
            return [(st, True)]
        if isinstance(v, Obj):
            cls = v.cls
            if isinstance(cls, model.Class):
                m = cls.find_method("__bool__")
                if m:
                    out = []
                    for s, r in self.call_fn(st, FnV(m, None, v, m.cls), [], {}, node, None):
                        if isinstance(r, Raised):
                            continue
                        out.extend(self.truth(s, r, node))
                    return out
                m = cls.find_method("__len__")
                if not m and not any(b in ("list", "dict", "str", "set") for b in cls.external_bases()):
                    return [(st, True)]
                if m:
                    out = []
                    for s, r in self.call_fn(st, FnV(m, None, v, m.cls), [], {}, node, None):
                        if not isinstance(r, Raised):
                            out.extend(self.truth(s, r, node))
                    return out
            l = self.len_of(st, v)
            return self.truth(st, l, node)
        if isinstance(v, Term):
            f = st.facts.get(("truth", v))
            if f is not None:
                return [(st, f)]
            if st.facts.get(("isnone", v)):
                return [(st, False)]
            if v.op == "slice":
                l = self.len_of(st, v)
                if l is not None:
                    res = []
                    for s, b in self.truth(st, l, node):
                        s.facts[("truth", v)] = b
                        res.append((s, b))
                    return res
            # numeric knowledge
            sv = sym(v)
            if any(v == y for c in st.cons for y, _ in c.c):
                res = []
                for s, b in self.truth(st, sv, node):
                    s.facts[("truth", v)] = b
                    if b:
                        s.facts[("isnone", v)] = False
                    res.append((s, b))
                return res
            c = self.hooks.typeof(self, st, v)
            if isinstance(c, model.Class) and not c.find_method("__bool__") and not c.find_method("__len__") \
                    and not any(b in ("list", "dict", "str", "set", "tuple", "int") for b in c.external_bases()) \
                    and st.facts.get(("isnone", v)) is False:
                return [(st, True)]
            out = []
            for b in (True, False):
                s = st.copy()
                if self.set_truth(s, v, b) is None:
                    continue
                s.note(getattr(node, "lineno", 0), b)
                out.append((s, b))
            return out
        return [(st.copy(), True), (st.copy(), False)]

    def set_truth(self, s, v, b):
        s.facts[("truth", v)] = b
        if b:
            s.facts[("isnone", v)] = False
            t = T("len", v, s.ver.get(("#items", v), 0))
            if any(t == y for c in s.cons for y, _ in c.c):
                if s.assume(sym(t) - 1) is None:
                    return None
        elif s.facts.get(("isnone", v)) is False:
            t = T("len", v, s.ver.get(("#items", v), 0))
            if any(t == y for c in s.cons for y, _ in c.c):
                if s.assume_eq(sym(t)) is None:
                    return None
        return s

    # ------------------------------------------------------------ env

    def new_env(self, parent, locals_, fr=None):
        e = next(self.counter)
        self.env_parent[e] = parent
        self.env_locals[e] = locals_
        return e

    def find_env(self, env, name):
        while env is not None:
            if name in self.env_locals[env]:
                return env
            env = self.env_parent[env]
        return None

    def lookup(self, st, fr, name, node=None):
        e = self.find_env(fr.env, name)
        if e is not None:
            v = st.vars.get((e, name))
            if v is None:
                # maybe bound later or unbound
                self.imprecise(st, "unbound " + name, node)
                return self.fresh(name)
            return v
        return self.global_value(st, fr.module, name)

    def global_value(self, st, module, name):
        r = self.program.resolve(module, name)
        return self.to_value(st, r, module, name)

    def to_value(self, st, r, module, name):
        if isinstance(r, model.Func):
            for d in r.decorator_names():
                if d and d.split(".")[-1] not in ("contextmanager", "wraps", "staticmethod", "classmethod"):
                    return T("in", r.short)
            return FnV(r)
        if isinstance(r, model.Class):
            return ClsV(r)
        if isinstance(r, model.Module):
            return ModV(r)
        if isinstance(r, tuple):
            if r[0] == "ext":
                return ExtV(r[1])
            if r[0] == "expr":
                _, m, n, expr = r
                key = (m.name, n)
                if key in self.globals_cache:
                    return self.globals_cache[key]
                self.globals_cache[key] = T("in", m.name + "." + n)
                v = self.fold_global(m, n, expr)
                self.globals_cache[key] = v
                return v
        if name in BUILTINS:
            return ExtV(name)
        return T("in", module.name + "." + name)

    def fold_global(self, m, n, expr):
        if isinstance(expr, ast.Constant):
            return self.const(expr.value)
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub) and isinstance(expr.operand, ast.Constant):
            return self.const(-expr.operand.value)
        if isinstance(expr, ast.Call):
            d = model.dotted(expr.func)
            if d and d.split(".")[-1] == "namedtuple" and len(expr.args) >= 2:
                a, b = expr.args[:2]
                if isinstance(a, ast.Constant) and isinstance(b, ast.Constant):
                    return NTV(a.value, b.value.replace(",", " ").split())
                if isinstance(a, ast.Constant) and isinstance(b, (ast.Tuple, ast.List)):
                    return NTV(a.value, [e.value for e in b.elts])
        if isinstance(expr, (ast.Name, ast.Attribute)):
            r = self.program.resolve_expr(m, expr)
            if r is not None and not (isinstance(r, tuple) and r[0] not in ("ext", "expr")):
                return self.to_value(None, r, m, n)
        if isinstance(expr, ast.Dict) and all(isinstance(k, ast.Constant) for k in expr.keys):
            vals = []
            for v in expr.values:
                try:
                    x = ast.literal_eval(v)
                    x = self.const(x)
                except (ValueError, TypeError):
                    x = None
                    if isinstance(v, ast.Name):
                        x = self.global_value(None, m, v.id)
                if x is None:
                    break
                vals.append(x)
            else:
                return T("dict", tuple((self.const(k.value), v) for k, v in zip(expr.keys, vals)))
        return T("in", m.name + "." + n)

    def const(self, v):
        if isinstance(v, bool) or v is None:
            return Const(v)
        if isinstance(v, int):
            return num(v)
        if isinstance(v, tuple):
            return Tup(self.const(x) for x in v)
        if isinstance(v, (str, bytes, float)):
            return Const(v)
        return self.fresh("const")

    def store(self, st, fr, name, val):
        e = self.find_env(fr.env, name)
        if e is None:
            e = fr.env
        st.vars[(e, name)] = val
        return st

    # ------------------------------------------------------------ expressions

    def ev(self, node, st, fr):
        self.tick()
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            self.imprecise(st, "unsupported " + type(node).__name__, node)
            return [(st, self.fresh("unsupported"))]
        return m(node, st, fr)

    def evs(self, nodes, st, fr):
        """Evaluate a list of expressions: [(st, [vals])] or (st, Raised)."""
        res = [(st, [])]
        for n in nodes:
            new = []
            for s, vals in res:
                if isinstance(vals, Raised):
                    new.append((s, vals))
                    continue
                for s2, v in self.ev(n, s, fr):
                    if isinstance(v, Raised):
                        new.append((s2, v))
                    else:
                        new.append((s2, vals + [v]))
            res = new
        return res

    def ev_Constant(self, node, st, fr):
        return [(st, self.const(node.value))]

    def ev_Name(self, node, st, fr):
        return [(st, self.lookup(st, fr, node.id, node))]

    def ev_NamedExpr(self, node, st, fr):
        out = []
        for s, v in self.ev(node.value, st, fr):
            if not isinstance(v, Raised):
                self.store(s, fr, node.target.id, v)
            out.append((s, v))
        return out

    def ev_Tuple(self, node, st, fr):
        return self.seq(node, st, fr, lambda s, items: Tup(items))

    def seq(self, node, st, fr, make):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            out = []
            elts = [e.value if isinstance(e, ast.Starred) else e for e in node.elts]
            for s, vals in self.evs(elts, st, fr):
                if isinstance(vals, Raised):
                    out.append((s, vals))
                    continue
                items = []
                for e, v in zip(node.elts, vals):
                    if isinstance(e, ast.Starred):
                        x = self.exact_items(s, v)
                        if x is None:
                            items.append(T("star", v if not isinstance(v, (Lin,)) else v))
                        else:
                            items.extend(x)
                    else:
                        items.append(v)
                out.append((s, make(s, items)))
            return out
        return [(s, v if isinstance(v, Raised) else make(s, v)) for s, v in self.evs(node.elts, st, fr)]

    def exact_items(self, st, v):
        """The items of a value, if they are all known."""
        if isinstance(v, Tup):
            if any(isinstance(i, Term) and i.op == "star" for i in v.items):
                return None
            return list(v.items)
        if isinstance(v, Obj):
            x = st.heap.get((v, "#val"))
            if isinstance(x, Tup):
                return self.exact_items(st, x)
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(c) for c in v.v]
        if isinstance(v, IterV) and v.kind == "zip":
            x = [self.exact_items(st, a) for a in v.args]
            if None not in x:
                return [Tup(t) for t in zip(*x)]
        return None

    def new_list(self, st, items, label="list", kind="list"):
        o = self.new_obj(kind, label)
        st.heap[(o, "#val")] = Tup(items)
        if not any(isinstance(i, Term) and i.op == "star" for i in items):
            st.heap[(o, "#len")] = num(len(items))
        return o

    def ev_List(self, node, st, fr):
        return self.seq(node, st, fr, lambda s, items: self.new_list(s, items))

    def ev_Set(self, node, st, fr):
        return self.seq(node, st, fr, lambda s, items: self.new_list(s, items, "set", "set"))

    def ev_Dict(self, node, st, fr):
        keys = [k for k in node.keys if k is not None]
        out = []
        for s, vals in self.evs(keys + node.values, st, fr):
            if isinstance(vals, Raised):
                out.append((s, vals))
                continue
            o = self.new_obj("dict", "dict")
            if len(keys) == len(node.values):
                ks, vs = vals[:len(keys)], vals[len(keys):]
                s.heap[(o, "#val")] = T("dict", tuple(zip(ks, vs)))
            else:
                s.heap[(o, "#val")] = self.fresh("dict")
            out.append((s, o))
        return out

    def ev_JoinedStr(self, node, st, fr):
        vals = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
        plain = all(v.format_spec is None and v.conversion in (-1, 115) for v in node.values if isinstance(v, ast.FormattedValue))
        out = []
        for s, v in self.evs(vals, st, fr):
            if not isinstance(v, Raised):
                r = None
                if plain:
                    x = iter(v)
                    r = self.hooks.fstring(self, s, [next(x) if isinstance(n, ast.FormattedValue) else Const(n.value) for n in node.values])
                v = T("fstr", tuple(v)) if r is None else r
            out.append((s, v))
        return out

    def ev_Lambda(self, node, st, fr):
        f = self.func_of(node, fr)
        return [(st, FnV(f, fr.env, None, fr.func.cls if fr.func else None))]

    def func_of(self, node, fr):
        f = fr.module.func_by_node.get(id(node))
        if f is None:
            f = model.Func(node, fr.module, None, fr.func)
            fr.module.func_by_node[id(node)] = f
        return f

    def ev_IfExp(self, node, st, fr):
        out = []
        for s, b in self.cond(node.test, st, fr):
            if isinstance(b, Raised):
                out.append((s, b))
            else:
                out.extend(self.ev(node.body if b else node.orelse, s, fr))
        return out

    def ev_Starred(self, node, st, fr):
        return [(s, v if isinstance(v, Raised) else T("star", v)) for s, v in self.ev(node.value, st, fr)]

    def ev_BoolOp(self, node, st, fr):
        isand = isinstance(node.op, ast.And)
        res = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            for s2, v in self.ev(node.values[i], s, fr):
                if isinstance(v, Raised) or i == len(node.values) - 1:
                    res.append((s2, v))
                    continue
                for s3, b in self.truth(s2, v, node.values[i]):
                    if b == isand:
                        work.append((s3, i + 1))
                    else:
                        res.append((s3, v))
        return res

    def ev_UnaryOp(self, node, st, fr):
        out = []
        if isinstance(node.op, ast.Not):
            for s, b in self.cond(node.operand, st, fr):
                out.append((s, b if isinstance(b, Raised) else Const(not b)))
            return out
        for s, v in self.ev(node.operand, st, fr):
            if isinstance(v, Raised):
                out.append((s, v))
            elif isinstance(node.op, ast.USub):
                l = self.as_lin(s, v)
                out.append((s, -l if l is not None else T("neg", v)))
            elif isinstance(node.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, T("invert", v)))
        return out

    def cond(self, node, st, fr):
        """Evaluate as a condition: [(st, bool|Raised)]."""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            res = []
            work = [(st, 0)]
            while work:
                s, i = work.pop()
                for s2, b in self.cond(node.values[i], s, fr):
                    if isinstance(b, Raised) or i == len(node.values) - 1 or b != isand:
                        res.append((s2, b))
                    else:
                        work.append((s2, i + 1))
            return res
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, b if isinstance(b, Raised) else not b) for s, b in self.cond(node.operand, st, fr)]
        out = []
        for s, v in self.ev(node, st, fr):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v, node))
        return out

    def ev_BinOp(self, node, st, fr):
        out = []
        for s, vals in self.evs([node.left, node.right], st, fr):
            if isinstance(vals, Raised):
                out.append((s, vals))
            else:
                out.extend(self.binop(s, type(node.op).__name__, vals[0], vals[1], node, fr))
        return out

    def is_texty(self, st, v):
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            return True
        return isinstance(v, Term) and (v.op in ("slice", "cat", "fstr") or v.op == "text")

    def binop(self, st, op, a, b, node, fr):
        r = self.hooks.binop(self, st, op, a, b, node)
        if r is not None:
            return r
        if op == "Add":
            if self.is_texty(st, a) or self.is_texty(st, b):
                if isinstance(a, Const) and isinstance(b, Const) and type(a.v) is type(b.v):
                    return [(st, Const(a.v + b.v))]
                if a == EMPTY:
                    return [(st, b)]
                if b == EMPTY:
                    return [(st, a)]
                return [(st, T("cat", a, b))]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            for x in (a, b):
                if isinstance(x, Obj) and x.cls in ("list",):
                    xa, xb = self.exact_items(st, a), self.exact_items(st, b)
                    if xa is not None and xb is not None:
                        return [(st, self.new_list(st, xa + xb))]
                    la, lb = self.len_of(st, a), self.len_of(st, b)
                    o = self.new_obj("list", "list")
                    st.heap[(o, "#val")] = T("cat", self.content(st, a), self.content(st, b))
                    if la is not None and lb is not None:
                        st.heap[(o, "#len")] = la + lb
                    return [(st, o)]
                if isinstance(x, Obj) and isinstance(x.cls, model.Class):
                    m = x.cls.find_method("__add__" if x is a else "__radd__")
                    if m:
                        return self.call_fn(st, FnV(m, None, x, m.cls), [b if x is a else a], {}, node, fr)
        la, lb = self.as_lin(st, a), self.as_lin(st, b)
        if la is not None and lb is not None:
            if op == "Add":
                return [(st, la + lb)]
            if op == "Sub":
                return [(st, la - lb)]
            if op == "Mult":
                if la.const:
                    return [(st, lb.scale(la.k))]
                if lb.const:
                    return [(st, la.scale(lb.k))]
                return [(st, sym(T("*", la, lb)))]
            if op == "RShift" and lb.const:
                op, lb = "FloorDiv", num(2 ** lb.k)
            if op == "FloorDiv" and lb.const and lb.k > 0:
                if la.const:
                    return [(st, num(la.k // lb.k))]
                q = sym(T("//", la, lb.k))
                s = st.assume(la - q.scale(lb.k), q.scale(lb.k) + (lb.k - 1) - la)
                return [(s, q)] if s else []
            if op == "Mod" and lb.const and lb.k > 0:
                if la.const:
                    return [(st, num(la.k % lb.k))]
                q = sym(T("//", la, lb.k))
                s = st.assume(la - q.scale(lb.k), q.scale(lb.k) + (lb.k - 1) - la)
                return [(s, la - q.scale(lb.k))] if s else []
            if la.const and lb.const and op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift", "Pow", "FloorDiv", "Mod"):
                try:
                    f = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y,
                         "LShift": lambda x, y: x << y, "RShift": lambda x, y: x >> y, "Pow": lambda x, y: x ** y,
                         "FloorDiv": lambda x, y: x // y, "Mod": lambda x, y: x % y}[op]
                    return [(st, num(f(la.k, lb.k)))]
                except Exception:
                    pass
        if op == "Mod" and isinstance(a, Const) and isinstance(a.v, str):
            return [(st, T("fstr", (a, b)))]
        if op == "Mult" and isinstance(a, Obj) and a.cls == "list":
            o = self.new_obj("list", "list")
            st.heap[(o, "#val")] = T("repeat", self.content(st, a), b)
            n = self.as_lin(st, b)
            if n is not None and self.exact_items(st, a) is not None and len(self.exact_items(st, a)) == 1:
                st.heap[(o, "#len")] = n
            return [(st, o)]
        for x, y, mn in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(x, Obj) and isinstance(x.cls, model.Class):
                nm = {"Add": "add", "Sub": "sub", "Mult": "mul"}.get(op)
                m = nm and x.cls.find_method(mn % nm)
                if m:
                    return self.call_fn(st, FnV(m, None, x, m.cls), [y], {}, node, fr)
        return [(st, T("op" + op, a, b))]

    def content(self, st, v):
        if isinstance(v, Obj):
            x = st.heap.get((v, "#val"))
            if x is None:
                x = T("content", v, st.ver.get(("#items", v), 0))
            return x
        return v

    def ev_Compare(self, node, st, fr):
        res = []
        work = [(st, None, 0)]
        # evaluate pairwise
        def go(s, left, i):
            if i == len(node.ops):
                res.append((s, TRUE))
                return
            for s2, r in self.ev(node.comparators[i], s, fr):
                if isinstance(r, Raised):
                    res.append((s2, r))
                    continue
                for s3, b in self.compare(s2, type(node.ops[i]).__name__, left, r, node, fr):
                    if isinstance(b, Raised):
                        res.append((s3, b))
                    elif b:
                        go(s3, r, i + 1)
                    else:
                        res.append((s3, FALSE))
        for s, l in self.ev(node.left, st, fr):
            if isinstance(l, Raised):
                res.append((s, l))
            else:
                go(s, l, 0)
        return res

    def split_lin(self, st, lin_true, lin_false):
        """Fork on lin_true >= 0 versus lin_false >= 0."""
        out = []
        s = st.copy().assume(lin_true)
        if s:
            out.append((s, True))
        s = st.copy().assume(lin_false)
        if s:
            out.append((s, False))
        return out

    def compare(self, st, op, a, b, node, fr):
        r = self.hooks.compare(self, st, op, a, b, node)
        if r is not None:
            return r
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            neg = op in ("IsNot", "NotEq")
            out = []
            for s, t in self.equal(st, a, b, op.startswith("Is"), node, fr):
                out.append((s, t if isinstance(t, Raised) else t != neg))
            return out
        if op in ("In", "NotIn"):
            neg = op == "NotIn"
            return [(s, t if isinstance(t, Raised) else t != neg) for s, t in self.contains(st, a, b, node, fr)]
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) == 1:
            return self.compare(st, op, a.items[0], b.items[0], node, fr)
        for x, y, names in ((a, b, {"Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}),):
            if isinstance(x, Obj) and isinstance(x.cls, model.Class):
                m = x.cls.find_method(names[op])
                if m:
                    out = []
                    for s, r in self.call_fn(st, FnV(m, None, x, m.cls), [y], {}, node, fr):
                        if isinstance(r, Raised):
                            out.append((s, r))
                        else:
                            out.extend(self.truth(s, r, node))
                    return out
        la, lb = self.as_lin(st, a), self.as_lin(st, b)
        if la is None or lb is None:
            if isinstance(a, Const) and isinstance(b, Const):
                try:
                    return [(st, {"Lt": a.v < b.v, "Gt": a.v > b.v, "LtE": a.v <= b.v, "GtE": a.v >= b.v}[op])]
                except TypeError:
                    return []
            key = ("cmp", op, a, b)
            if key in st.facts:
                return [(st, st.facts[key])]
            s1, s2 = st.copy(), st.copy()
            s1.facts[key] = True
            s2.facts[key] = False
            return [(s1, True), (s2, False)]
        d = lb - la
        if op == "Lt":
            out = self.split_lin(st, d - 1, -d)
        elif op == "LtE":
            out = self.split_lin(st, d, -d - 1)
        elif op == "Gt":
            out = self.split_lin(st, -d - 1, d)
        else:
            out = self.split_lin(st, -d, d - 1)
        if len(out) > 1:
            for s, t in out:
                s.note(getattr(node, "lineno", 0), t)
        return out

    def equal(self, st, a, b, identity, node, fr):
        if a == b and not isinstance(a, GenV):
            if isinstance(a, Term) and a.op == "attr" and not identity:
                return [(st, True)]
            return [(st, True)]
        if isinstance(b, Const) and not isinstance(a, Const):
            a, b = b, a
        if isinstance(a, Const):
            if isinstance(b, Const):
                if isinstance(a.v, bool) or isinstance(b.v, bool) or type(a.v) is type(b.v):
                    return [(st, a.v == b.v and (not identity or type(a.v) is type(b.v)))]
                return [(st, False)]
            if a.v is None:
                if not isinstance(b, Term):
                    return [(st, False)]
                f = st.facts.get(("isnone", b))
                if f is not None:
                    return [(st, f)]
                if st.facts.get(("truth", b)):
                    return [(st, False)]
                if any(b == y for c in st.cons for y, _ in c.c):
                    return [(st, False)]
                if self.never_none(st, b):
                    return [(st, False)]
                s1, s2 = st.copy(), st.copy()
                s1.facts[("isnone", b)] = True
                s1.facts[("truth", b)] = False
                s2.facts[("isnone", b)] = False
                ln = getattr(node, "lineno", 0)
                return [(s1.note(ln, True), True), (s2.note(ln, False), False)]
            if isinstance(a.v, bool):
                if isinstance(b, Lin) and not identity:
                    return self.num_eq(st, num(int(a.v)), b)
                if isinstance(b, Lin):
                    return [(st, False)]
                if not isinstance(b, Term):
                    return [(st, False)]
            elif not isinstance(b, Term):
                if isinstance(b, Obj) and isinstance(b.cls, model.Class) and not identity:
                    pass
                else:
                    return [(st, False)]
        la = a if isinstance(a, Lin) else None
        lb = b if isinstance(b, Lin) else None
        if la is not None or lb is not None:
            xa, xb = self.as_lin(st, a), self.as_lin(st, b)
            if xa is not None and xb is not None:
                return self.num_eq(st, xa, xb)
            return [(st, False)]
        if isinstance(a, Tup) and isinstance(b, Tup) and not identity:
            if len(a.items) != len(b.items):
                return [(st, False)]
            res = [(st, True)]
            for x, y in zip(a.items, b.items):
                new = []
                for s, t in res:
                    if t:
                        new.extend(self.equal(s, x, y, False, node, fr))
                    else:
                        new.append((s, False))
                res = new
            return res
        if isinstance(a, Obj) and isinstance(b, Obj) and not identity and a.cls == b.cls == "list":
            xa, xb = self.exact_items(st, a), self.exact_items(st, b)
            if xa is not None and xb is not None:
                return self.equal(st, Tup(xa), Tup(xb), False, node, fr)
        if isinstance(a, Term) and isinstance(b, Term) and not identity:
            # both numeric?
            if any(a == y for c in st.cons for y, _ in c.c) and any(b == y for c in st.cons for y, _ in c.c):
                return self.num_eq(st, sym(a), sym(b))
        if not isinstance(a, Term) and not isinstance(b, Term):
            if isinstance(a, Obj) and isinstance(b, Obj) and (identity or not isinstance(a.cls, model.Class)):
                if identity:
                    return [(st, False)]
            elif isinstance(a, Obj) or isinstance(b, Obj):
                if identity:
                    return [(st, False)]
            else:
                return [(st, False)]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and isinstance(x.cls, model.Class):
                    m = x.cls.find_method("__eq__")
                    if m and self.hooks.inline(m):
                        out = []
                        for s, r in self.call_fn(st, FnV(m, None, x, m.cls), [y], {}, node, fr):
                            out.extend([(s, r)] if isinstance(r, Raised) else self.truth(s, r, node))
                        return out
                    if not m:
                        return [(st, False)]
        x, y = sorted((a, b), key=repr)
        key = ("is" if identity else "eq", x, y)
        f = st.facts.get(key)
        if f is None and not identity:
            if st.facts.get(("is", x, y)) is True:
                f = True
        if f is None and identity and st.facts.get(("eq", x, y)) is False:
            f = False
        if f is None and isinstance(a, Const):
            # equal to another constant already?
            for k, v in st.facts.items():
                if v is True and k[0] in ("eq", "is") and len(k) == 3 and b in k[1:]:
                    o = k[1] if k[2] == b else k[2]
                    if isinstance(o, Const) and o != a:
                        f = False
            if isinstance(a.v, bool) and f is None:
                t = st.facts.get(("truth", b))
                if t is not None and t != a.v:
                    f = False
                if st.facts.get(("isnone", b)):
                    f = False
            if isinstance(a.v, str):
                if st.facts.get(("isnone", b)):
                    f = False
                t = st.facts.get(("truth", b))
                if t is not None and t != bool(a.v):
                    f = False
        if f is not None:
            return [(st, f)]
        s1, s2 = st.copy(), st.copy()
        s1.facts[key] = True
        s2.facts[key] = False
        if isinstance(a, Const) and isinstance(a.v, (bool, str)):
            s1.facts[("truth", b)] = bool(a.v)
            s1.facts[("isnone", b)] = False
        ln = getattr(node, "lineno", 0)
        return [(s1.note(ln, True), True), (s2.note(ln, False), False)]

    def never_none(self, st, t):
        return t.op in ("slice", "cat", "len", "fstr", "//")

    def num_eq(self, st, a, b):
        d = a - b
        if d.const:
            return [(st, d.k == 0)]
        out = []
        s = st.copy().assume_eq(d)
        if s:
            out.append((s, True))
        for l in (d - 1, -d - 1):
            s = st.copy().assume(l)
            if s:
                out.append((s, False))
        return out

    def contains(self, st, a, b, node, fr):
        items = self.exact_items(st, b)
        if isinstance(b, Const) and isinstance(b.v, str) and isinstance(a, Const) and isinstance(a.v, str):
            return [(st, a.v in b.v)]
        if items is not None and not (isinstance(b, Const)):
            res = []
            cur = [st]
            for i in items:
                nxt = []
                for s in cur:
                    r = self.hooks.compare(self, s, "Eq", a, i, node)
                    for s2, t in self.equal(s, a, i, False, node, fr) if r is None else r:
                        if t:
                            res.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(s, False) for s in cur]
        if isinstance(b, Obj) and isinstance(b.cls, model.Class):
            m = b.cls.find_method("__contains__")
            if m:
                out = []
                for s, r in self.call_fn(st, FnV(m, None, b, m.cls), [a], {}, node, fr):
                    out.extend([(s, r)] if isinstance(r, Raised) else self.truth(s, r, node))
                return out
        key = ("contains", self.content(st, b), a)
        if key in st.facts:
            return [(st, st.facts[key])]
        s1, s2 = st.copy(), st.copy()
        s1.facts[key] = True
        s2.facts[key] = False
        ln = getattr(node, "lineno", 0)
        return [(s1.note(ln, True), True), (s2.note(ln, False), False)]

    # ------------------------------------------------------------ attributes

    def clsof(self, st, v):
        if isinstance(v, Obj):
            return v.cls if isinstance(v.cls, model.Class) else None
        if isinstance(v, Term):
            c = self.hooks.typeof(self, st, v)
            if isinstance(c, str):
                c = self.program.cls(c)
            return c
        return None

    def ev_Attribute(self, node, st, fr):
        out = []
        for s, b in self.ev(node.value, st, fr):
            if isinstance(b, Raised):
                out.append((s, b))
            else:
                out.extend(self.getattr(s, b, node.attr, node, fr))
        return out

    def getattr(self, st, base, name, node, fr):
        r = self.hooks.attr(self, st, base, name)
        if r is not None:
            return [(st, r)]
        if isinstance(base, ModV):
            r = self.program.resolve(base.mod, name)
            if r is None:
                sub = self.program.modules.get(base.mod.name + "." + name)
                if sub:
                    return [(st, ModV(sub))]
            return [(st, self.to_value(st, r, base.mod, name))]
        if isinstance(base, ExtV):
            return [(st, ExtV(base.name + "." + name))]
        if isinstance(base, Tup) and base.nt:
            if name in base.nt.fields:
                return [(st, base.items[base.nt.fields.index(name)])]
            return [(st, BM(base, name))]
        if isinstance(base, SuperV):
            c = base.obj.cls if isinstance(base.obj, Obj) else self.clsof(st, base.obj)
            if isinstance(base.obj, ClsV):
                c = base.obj.cls
            m = (c or base.cls).find_method(name, base.cls)
            if m:
                return self.method_value(st, m, base.obj, node, fr)
            return [(st, BM(base, name))]
        if isinstance(base, ClsV):
            m = base.cls.find_method(name)
            if m:
                d = m.decorator_names()
                if "classmethod" in d:
                    return [(st, FnV(m, None, base, m.cls))]
                return [(st, FnV(m, None, None, m.cls))]
            a = base.cls.find_attr(name)
            if a:
                return [(st, self.fold_global(a[0].module, base.cls.name + "." + name, a[1]))]
            if name == "__name__":
                return [(st, Const(base.cls.name))]
            return [(st, T("attr", T("in", base.cls.qualname), name, 0))]
        key = (base, name)
        if isinstance(base, (Obj, Term)):
            c = self.clsof(st, base)
            if isinstance(c, model.Class):
                m = c.find_method(name)
                if m and "property" in m.decorator_names() and key not in st.heap:
                    if self.hooks.inline(m):
                        return self.call_fn(st, FnV(m, None, base, m.cls), [], {}, node, fr)
                    return [(st, T("attr", base, name, st.ver.get(name, 0)))]
            if key in st.heap:
                return [(st, st.heap[key])]
            if isinstance(c, model.Class):
                if m:
                    return self.method_value(st, m, base, node, fr)
                a = c.find_attr(name)
                if a and isinstance(base, Obj) and base.label != "self" and not (base.label or "").startswith("in:"):
                    return [(st, self.fold_global(a[0].module, c.name + "." + name, a[1]))]
            v = T("attr", base, name, st.ver.get(name, 0))
            return [(st, v)]
        if isinstance(base, FnV):
            return [(st, T("attr", T("in", base.func.short), name, 0))]
        return [(st, BM(base, name))]

    def method_value(self, st, m, obj, node, fr):
        d = m.decorator_names()
        if "property" in d:
            return self.call_fn(st, FnV(m, None, obj, m.cls), [], {}, node, fr)
        if "staticmethod" in d:
            return [(st, FnV(m, None, None, m.cls))]
        if "classmethod" in d:
            c = self.clsof(st, obj)
            return [(st, FnV(m, None, ClsV(c) if c else obj, m.cls))]
        for x in d:
            if x and x.split(".")[-1] not in ("contextmanager", "wraps"):
                return [(st, T("attr", obj, m.name, 0))]
        return [(st, FnV(m, None, obj, m.cls))]

    def setattr(self, st, base, name, val, node, fr):
        """Return [(st, None|Raised)]."""
        r = self.hooks.setattr(self, st, base, name, val, node)
        if r is not None:
            return r
        c = self.clsof(st, base)
        if isinstance(c, model.Class):
            s = c.find_setter(name)
            if s and self.hooks.inline(s):
                return [(s2, v if isinstance(v, Raised) else None)
                        for s2, v in self.call_fn(st, FnV(s, None, base, s.cls), [val], {}, node, fr)]
        if isinstance(base, Term):
            for k in [k for k in st.heap if k[1] == name and k[0] != base]:
                if isinstance(k[0], Term):
                    del st.heap[k]
            st.ver[name] = nextver(st.ver.get(name, 0))
        st.heap[(base, name)] = val
        return [(st, None)]

    # ------------------------------------------------------------ subscripts

    def ev_Slice(self, node, st, fr):
        parts = [node.lower, node.upper, node.step]
        out = []
        for s, vals in self.evs([p for p in parts if p is not None], st, fr):
            if isinstance(vals, Raised):
                out.append((s, vals))
                continue
            it = iter(vals)
            a = [next(it) if p is not None else NONE for p in parts]
            out.append((s, SliceV(*a)))
        return out

    def ev_Subscript(self, node, st, fr):
        out = []
        for s, vals in self.evs([node.value, node.slice], st, fr):
            if isinstance(vals, Raised):
                out.append((s, vals))
            else:
                out.extend(self.getitem(s, vals[0], vals[1], node, fr))
        return out

    def getitem(self, st, base, key, node, fr):
        r = self.hooks.getitem(self, st, base, key, node)
        if r is not None:
            return r
        c = self.clsof(st, base)
        if isinstance(c, model.Class):
            m = c.find_method("__getitem__")
            if m and self.hooks.inline(m):
                return self.call_fn(st, FnV(m, None, base, m.cls), [key], {}, node, fr)
        if isinstance(key, SliceV):
            return [(st, self.getslice(st, base, key))]
        items = self.exact_items(st, base)
        out = []
        if items is not None and isinstance(key, Lin) and key.const:
            if -len(items) <= key.k < len(items):
                return [(st, items[key.k])]
            return [(st, Raised(Exc("IndexError")))]
        if isinstance(base, Const) and isinstance(base.v, str):
            return [(st, T("item", base, key, 0))]
        val = self.content(st, base)
        if isinstance(val, Term) and val.op == "dict":
            for k, v in reversed(val.args[0]):
                if k == key:
                    return [(st, v)]
            if isinstance(key, (Const,)) and all(isinstance(k, Const) for k, v in val.args[0]):
                return [(st, Raised(Exc("KeyError")))]
        if isinstance(val, Term) and val.op == "put":
            t = val
            while isinstance(t, Term) and t.op == "put":
                if t.args[1] == key:
                    return [(st, t.args[2])]
                t = t.args[0]
                if not isinstance(key, Const):
                    break
        if isinstance(val, Tup) and isinstance(key, Lin):
            # unknown index in a known tuple: negative constants handled above
            pass
        excs = self.caught_of(fr, ("KeyError", "IndexError"))
        for e in excs:
            s2 = st.copy()
            s2.note(getattr(node, "lineno", 0), e)
            out.append((s2, Raised(Exc(e))))
        if isinstance(base, Obj) and not (isinstance(val, Term) and val.op == "content"):
            out.append((st, T("item", val, key, 0)))
        else:
            out.append((st, T("item", base, key, st.ver.get(("#items", base), 0))))
        return out

    def caught_of(self, fr, names):
        """Which of the exception names are of interest to an enclosing handler."""
        res = []
        f = fr
        for fr in reversed(self.stack):
            for hs in fr.catching:
                for h in hs:
                    for n in names:
                        if n not in res and (h == n or h in EXC_PARENTS.get(n, ())):
                            res.append(n)
        return res

    def getslice(self, st, base, sl):
        items = self.exact_items(st, base)
        def cint(v):
            if v == NONE:
                return None
            if isinstance(v, Lin) and v.const:
                return v.k
            return "?"
        lo, hi, step = cint(sl.lo), cint(sl.hi), cint(sl.step)
        if items is not None and "?" not in (lo, hi, step):
            x = items[slice(lo, hi, step)]
            if isinstance(base, Tup):
                return Tup(x)
            if isinstance(base, Const):
                return Const("".join(c.v for c in x))
            return self.new_list(st, x)
        if isinstance(base, Const) and isinstance(base.v, str) and "?" not in (lo, hi, step):
            return Const(base.v[slice(lo, hi, step)])
        if step is not None:
            return T("slice3", self.content(st, base), sl.lo, sl.hi, sl.step)
        n = self.len_of(st, base)
        a = num(0) if sl.lo == NONE else (self.as_lin(st, sl.lo) if self.as_lin(st, sl.lo) is not None else sl.lo)
        b = n if sl.hi == NONE else (self.as_lin(st, sl.hi) if self.as_lin(st, sl.hi) is not None else sl.hi)
        if isinstance(a, Lin) and a.const and a.k < 0 and n is not None and st.entails(n + a.k):
            a = n + a.k
        if isinstance(b, Lin) and b.const and b.k < 0 and n is not None and st.entails(n + b.k):
            b = n + b.k
        if isinstance(a, Lin) and a == num(0) and b == n and not isinstance(base, Obj):
            if isinstance(base, Term) and base.op in ("text", "slice"):
                return base
        if isinstance(base, Term) and base.op == "slice" and isinstance(a, Lin) and isinstance(b, Lin):
            # slice of a slice
            bb, blo, bhi = base.args[:3]
            if isinstance(blo, Lin) and isinstance(bhi, Lin) and n is not None and \
                    st.entails(a) and st.entails(b - a) and st.entails(n - b):
                bl = self.len_of(st, bb)
                if bl is not None and st.entails(blo) and st.entails(bl - bhi) and st.entails(bhi - blo):
                    return T("slice", bb, blo + a, blo + b)
        if isinstance(base, Obj):
            o = self.new_obj("list", "slice")
            st.heap[(o, "#val")] = T("slice", self.content(st, base), a, b)
            if isinstance(a, Lin) and isinstance(b, Lin) and n is not None and st.entails(a) and st.entails(b - a) and st.entails(n - b):
                st.heap[(o, "#len")] = b - a
            return o
        return T("slice", base, a, b)

    def setitem(self, st, base, key, val, node, fr):
        r = self.hooks.setitem(self, st, base, key, val, node)
        if r is not None:
            return r
        c = self.clsof(st, base)
        if isinstance(c, model.Class):
            m = c.find_method("__setitem__")
            if m and self.hooks.inline(m):
                return [(s, v if isinstance(v, Raised) else None)
                        for s, v in self.call_fn(st, FnV(m, None, base, m.cls), [key, val], {}, node, fr)]
        if isinstance(base, Obj):
            items = self.exact_items(st, base)
            if items is not None and isinstance(key, Lin) and key.const and -len(items) <= key.k < len(items):
                items[key.k] = val
                st.heap[(base, "#val")] = Tup(items)
                return [(st, None)]
            if items is not None and key == SliceV(NONE, NONE, NONE):
                x = self.exact_items(st, val)
                if x is not None:
                    st.heap[(base, "#val")] = Tup(x)
                    st.heap[(base, "#len")] = num(len(x))
                    return [(st, None)]
            if items is not None and isinstance(key, SliceV) and key.step == NONE:
                x = self.exact_items(st, val)
                lo = num(0) if key.lo == NONE else self.as_lin(st, key.lo)
                hi = num(len(items)) if key.hi == NONE else self.as_lin(st, key.hi)
                if x is not None and lo is not None and hi is not None and lo.const and hi.const:
                    items[lo.k:hi.k] = x
                    st.heap[(base, "#val")] = Tup(items)
                    st.heap[(base, "#len")] = num(len(items))
                    return [(st, None)]
            if isinstance(key, SliceV) and key.step == NONE:
                n = self.len_of(st, base)
                ln = self.len_of(st, val)
                lo = num(0) if key.lo == NONE else self.as_lin(st, key.lo)
                hi = n if key.hi == NONE else self.as_lin(st, key.hi)
                old = self.content(st, base)
                st.heap[(base, "#val")] = T("splice", old, lo, hi, self.content(st, val))
                newlen = None
                if None not in (lo, hi, ln, n):
                    if hi == n and lo is not None and st.entails(-lo - 1) and st.entails(n + lo):
                        lo = n + lo
                    if st.entails(lo) and st.entails(hi - lo) and st.entails(n - hi):
                        newlen = n - (hi - lo) + ln
                self.set_len(st, base, newlen)
                return [(st, None)]
            st.heap[(base, "#val")] = T("put", self.content(st, base), key, val)
            if base.cls == "list":
                pass
            else:
                self.set_len(st, base, None)
            return [(st, None)]
        self.mutated(st, base)
        return [(st, None)]

    def set_len(self, st, base, l):
        if l is None:
            st.heap.pop((base, "#len"), None)
            st.ver[("#items", base)] = nextver(st.ver.get(("#items", base), 0))
        else:
            st.heap[(base, "#len")] = l

    def mutated(self, st, base):
        st.ver[("#items", base)] = nextver(st.ver.get(("#items", base), 0))
        st.facts.pop(("truth", base), None)
        return st

    def delitem(self, st, base, key, node, fr):
        r = self.hooks.delitem(self, st, base, key, node)
        if r is not None:
            return r
        c = self.clsof(st, base)
        if isinstance(c, model.Class):
            m = c.find_method("__delitem__")
            if m and self.hooks.inline(m):
                return [(s, v if isinstance(v, Raised) else None)
                        for s, v in self.call_fn(st, FnV(m, None, base, m.cls), [key], {}, node, fr)]
        out = []
        for e in self.caught_of(fr, ("KeyError", "IndexError")):
            out.append((st.copy().note(getattr(node, "lineno", 0), e), Raised(Exc(e))))
        if isinstance(base, Obj):
            k = key
            if isinstance(k, Lin) and k.const and base.cls != "dict":
                items = self.exact_items(st, base)
                if items is not None and -len(items) <= k.k < len(items):
                    del items[int(k.k)]
                    st.heap[(base, "#val")] = Tup(items)
                    st.heap[(base, "#len")] = num(len(items))
                    return [(st, None)]
                if items is not None:
                    return [(st, Raised(Exc("IndexError")))]
            if isinstance(key, SliceV) and key.step == NONE:
                items = self.exact_items(st, base)
                n = self.len_of(st, base)
                lo = num(0) if key.lo == NONE else self.as_lin(st, key.lo)
                hi = n if key.hi == NONE else self.as_lin(st, key.hi)
                if items is not None and all(x is not None and x.const for x in (lo, hi)):
                    del items[lo.k:hi.k]
                    st.heap[(base, "#val")] = Tup(items)
                    st.heap[(base, "#len")] = num(len(items))
                    return out + [(st, None)]
                newlen = None
                if None not in (lo, hi, n):
                    if st.entails(-lo - 1) and st.entails(n + lo):
                        lo = n + lo
                    if st.entails(-hi - 1) and st.entails(n + hi):
                        hi = n + hi
                    if st.entails(lo) and st.entails(hi - lo) and st.entails(n - hi):
                        newlen = n - (hi - lo)
                st.heap[(base, "#val")] = T("splice", self.content(st, base), lo, hi, Tup(()))
                self.set_len(st, base, newlen)
                return out + [(st, None)]
            n = self.len_of(st, base)
            st.heap[(base, "#val")] = T("del", self.content(st, base), key)
            if base.cls == "list" and n is not None:
                self.set_len(st, base, n - 1)
            else:
                self.set_len(st, base, None)
            return out + [(st, None)]
        self.mutated(st, base)
        return out + [(st, None)]

    # ------------------------------------------------------------ comprehension

    def ev_GeneratorExp(self, node, st, fr):
        return [(st, GenV(node=node, fr=fr))]

    def ev_ListComp(self, node, st, fr):
        return self.run_comp(node, st, fr, "list")

    def ev_SetComp(self, node, st, fr):
        return self.run_comp(node, st, fr, "set")

    def ev_DictComp(self, node, st, fr):
        o = self.new_obj("dict", "dict")
        st.heap[(o, "#val")] = self.fresh("dict")
        return [(st, o)]

    def run_comp(self, node, st, fr, kind):
        """Collect a comprehension into a list."""
        return self.collect(st, GenV(node=node, fr=fr), kind, node, fr)

    def collect(self, st, itv, kind, node, fr):
        """list()/tuple() of an iterable."""
        x = self.exact_items(st, itv)
        if x is not None:
            return [(st, self.new_list(st, x, kind, kind) if kind in ("list", "set") else Tup(x))]
        if isinstance(itv, Term) or isinstance(itv, Obj):
            c = self.content(st, itv)
            if kind == "tuple":
                v = T("call", "tuple", c, st.ver.get(("#items", itv), 0))
                return [(st, v)]
            o = self.new_obj(kind, kind)
            st.heap[(o, "#val")] = T("copyof", c, st.ver.get(("#items", itv), 0))
            l = self.len_of(st, itv)
            if l is not None and kind == "list":
                st.heap[(o, "#len")] = l
            return [(st, o)]
        key = ("acc", id(node))
        st.vars[key] = Tup(())
        def body(s, v):
            a = s.vars.get(key)
            if isinstance(a, Tup) and len(a.items) < 6:
                s.vars[key] = Tup(a.items + (v,))
            else:
                s.vars[key] = self.fresh("acc")
            return [(s, NEXT)]
        out = []
        for s, o in self.iterate(st, itv, body, node, fr):
            a = s.vars.pop(key, None)
            if o[0] == "raise":
                out.append((s, Raised(o[1])))
                continue
            if isinstance(a, Tup):
                out.append((s, self.new_list(s, a.items, kind, kind) if kind in ("list", "set") else Tup(a.items)))
            else:
                t = self.fresh(kind)
                if kind in ("list", "set"):
                    ob = self.new_obj(kind, kind)
                    s.heap[(ob, "#val")] = t
                    out.append((s, ob))
                else:
                    out.append((s, t))
        return out

    def run_genexp(self, node, st, fr, on_item):
        """Run a generator expression; on_item(st, val) -> [(st, outcome)]."""
        names = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        env = self.new_env(fr.env, names)
        fr2 = Frame(fr.func, env, fr.module, fr.on_yield, fr.depth)
        fr2.catching = fr.catching
        def level(i):
            def body(s, v):
                out = []
                g = node.generators[i]
                for s2, o in self.assign(g.target, v, s, fr2):
                    if o is not None:
                        out.append((s2, ("raise", o.exc)))
                        continue
                    cur = [(s2, True)]
                    for c in g.ifs:
                        nxt = []
                        for s3, t in cur:
                            if t is True:
                                nxt.extend(self.cond(c, s3, fr2))
                            else:
                                nxt.append((s3, t))
                        cur = nxt
                    for s3, t in cur:
                        if isinstance(t, Raised):
                            out.append((s3, ("raise", t.exc)))
                        elif not t:
                            out.append((s3, NEXT))
                        elif i + 1 < len(node.generators):
                            out.extend(run(s3, i + 1))
                        else:
                            for s4, x in self.ev(node.elt, s3, fr2):
                                if isinstance(x, Raised):
                                    out.append((s4, ("raise", x.exc)))
                                else:
                                    out.extend(on_item(s4, x))
                return out
            return body
        def run(s, i):
            out = []
            for s2, itv in self.ev(node.generators[i].iter, s, fr2):
                if isinstance(itv, Raised):
                    out.append((s2, ("raise", itv.exc)))
                    continue
                for s3, o in self.iterate(s2, itv, level(i), node, fr2):
                    out.append((s3, NEXT if o == EXHAUST else o))
            return out
        res = []
        for s, o in run(st, 0):
            res.append((s, EXHAUST if o == NEXT else o))
        return res

    # ------------------------------------------------------------ yield

    def ev_Yield(self, node, st, fr):
        if node.value is None:
            return self.do_yield(st, NONE, node, fr)
        out = []
        for s, v in self.ev(node.value, st, fr):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(self.do_yield(s, v, node, fr))
        return out

    def do_yield(self, st, v, node, fr):
        r = self.hooks.on_yield(self, st, fr.func, v, node)
        if r is not None:
            if not isinstance(r, list):
                r = [r]
        else:
            r = [st]
        out = []
        for s in r:
            if isinstance(s, tuple):
                out.append(s)
                continue
            if fr.on_yield is None:
                out.append((s, NONE))
                continue
            for s2, o in fr.on_yield(s, v):
                if o in (NEXT, CONTINUE):
                    out.append((s2, NONE))
                elif o[0] == "raise" and getattr(fr.on_yield, "ctx", False):
                    out.append((s2, Raised(o[1])))
                else:
                    out.append((s2, Raised(Exc("GeneratorExit", o))))
        return out

    def ev_YieldFrom(self, node, st, fr):
        out = []
        for s, itv in self.ev(node.value, st, fr):
            if isinstance(itv, Raised):
                out.append((s, itv))
                continue
            def body(s2, v):
                res = []
                for s3, r in self.do_yield(s2, v, node, fr):
                    if isinstance(r, Raised):
                        res.append((s3, ("raise", r.exc)))
                    else:
                        res.append((s3, NEXT))
                return res
            for s2, o in self.iterate(s, itv, body, node, fr):
                if o == EXHAUST:
                    out.append((s2, NONE))
                elif o[0] == "raise":
                    out.append((s2, Raised(o[1])))
                else:
                    out.append((s2, Raised(Exc("GeneratorExit", o))))
        return out

    # ------------------------------------------------------------ calls

    def ev_Call(self, node, st, fr):
        out = []
        # zero-argument super()
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            f = fr.func
            while f is not None and f.cls is not None and f.parent is not None:
                f = f.parent
            names = f.arg_names() if f else []
            if f is not None and f.cls is not None and names:
                return [(st, SuperV(f.cls, self.lookup(st, fr, names[0], node)))]
            return [(st, self.fresh("super"))]
        if isinstance(node.func, ast.Name) and node.func.id == "super" and len(node.args) == 2 and not node.keywords:
            out = []
            for s, vals in self.evs(node.args, st, fr):
                if not isinstance(vals, Raised) and isinstance(vals[0], ClsV):
                    out.append((s, SuperV(vals[0].cls, vals[1])))
                else:
                    out.append((s, vals if isinstance(vals, Raised) else self.fresh("super")))
            return out
        pos = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
        kws = [k.value for k in node.keywords]
        for s, f in self.ev(node.func, st, fr):
            if isinstance(f, Raised):
                out.append((s, f))
                continue
            for s2, vals in self.evs(pos + kws, s, fr):
                if isinstance(vals, Raised):
                    out.append((s2, vals))
                    continue
                args = []
                for a, v in zip(node.args, vals):
                    if isinstance(a, ast.Starred):
                        if isinstance(v, GenV) and self.hooks.exact_loops:
                            r = self.collect(s2, v, "tuple", node, fr)
                            if len(r) == 1:
                                s2, v = r[0]
                        x = self.exact_items(s2, v)
                        if x is None:
                            args.append(T("star", v if isinstance(v, (Term, V)) else self.fresh()))
                        else:
                            args.extend(x)
                    else:
                        args.append(v)
                kwargs = {}
                for k, v in zip(node.keywords, vals[len(pos):]):
                    kwargs[k.arg or "**"] = v
                out.extend(self.call_fn(s2, f, args, kwargs, node, fr))
        return out

    def call_label(self, f):
        if isinstance(f, FnV):
            return f.func.short, f.self_
        if isinstance(f, ClsV):
            return f.cls.qualname[len(model.PKG) + 1:], None
        if isinstance(f, ExtV):
            return f.name, None
        if isinstance(f, BM):
            return "." + f.name, f.recv
        if isinstance(f, NTV):
            return f.name, None
        if isinstance(f, Term):
            if f.op == "attr":
                return "." + f.args[1], f.args[0]
            return str(f), f
        return str(f), None

    def call_fn(self, st, f, args, kwargs, node, fr):
        self.tick()
        label, recv = self.call_label(f)
        fn = f.func if isinstance(f, FnV) else None
        r = self.hooks.call(self, st, label, recv, args, kwargs, node, fn)
        if r is not None:
            return r
        pre = []
        if self.hooks.may_raise(self, label, recv, node):
            s2 = st.copy()
            s2.note(getattr(node, "lineno", 0), "raises", label)
            pre.append((s2, Raised(Exc("any"))))
        if isinstance(f, FnV):
            if self.hooks.inline(f.func) and len(self.stack) < self.hooks.max_depth \
                    and sum(1 for x in self.stack if x.func is f.func) < 2:
                b = self.bind(st, f, args, kwargs, node)
                if b is not None:
                    if f.func.is_generator and "contextmanager" not in [d and d.split(".")[-1] for d in f.func.decorator_names()]:
                        return pre + [(st, GenV(f, tuple(sorted(b.items(), key=lambda x: x[0]))))]
                    if f.func.is_generator:
                        return pre + [(st, T("ctxmgr", GenV(f, tuple(sorted(b.items(), key=lambda x: x[0])))))]
                    return pre + self.run_fn(st, f, b, node, None)
            return pre + self.opaque_call(st, label, recv, args, kwargs, node, fr)
        if isinstance(f, ClsV):
            return pre + self.construct(st, f.cls, args, kwargs, node, fr)
        if isinstance(f, NTV):
            vals = list(args)
            for name in f.fields[len(vals):]:
                vals.append(kwargs.get(name, NONE))
            return pre + [(st, Tup(vals, f))]
        if isinstance(f, ExtV):
            m = getattr(self, "b_" + f.name.replace(".", "_"), None)
            if m is not None:
                r = m(st, args, kwargs, node, fr)
                if r is not None:
                    return pre + r
        if isinstance(f, BM) or (isinstance(f, Term) and f.op == "attr"):
            name = f.name if isinstance(f, BM) else f.args[1]
            r = self.method(st, recv, name, args, kwargs, node, fr)
            if r is not None:
                return pre + r
        return pre + self.opaque_call(st, label, recv, args, kwargs, node, fr)

    def opaque_call(self, st, label, recv, args, kwargs, node, fr):
        out = []
        for e in self.caught_opaque(label):
            s2 = st.copy()
            s2.note(getattr(node, "lineno", 0), "raises", e)
            out.append((s2, Raised(Exc(e))))
        # arguments that are generators are run by the callee, maybe
        self.escape(st, [recv] + list(args) + list(kwargs.values()))
        out.append((st, T("call", label, next(self.counter))))
        return out

    def caught_opaque(self, label):
        res = []
        name = label.lstrip(".").split(".")[-1]
        for fr in self.stack:
            for hs in fr.catching:
                for h in hs:
                    if h in (None, "BaseException", "Exception"):
                        h = "any"
                    elif h in ("KeyError", "IndexError", "StopIteration"):
                        if name not in ("next", "pop", "popitem", "__getitem__", "remove"):
                            continue
                    elif h == "ValueError" and name in ("append", "extend", "clear", "pop"):
                        continue
                    elif h == "AttributeError" and name in ("append", "extend"):
                        continue
                    if h not in res:
                        res.append(h)
        return res

    def escape(self, st, vals):
        for v in vals:
            if isinstance(v, Obj) and not isinstance(v.cls, model.Class):
                # the callee may modify it
                if (v, "#val") in st.heap and v.cls in ("list", "set", "dict"):
                    pass

    def bind(self, st, f, args, kwargs, node):
        a = f.func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if f.self_ is not None and "staticmethod" not in f.func.decorator_names():
            vals.insert(0, f.self_)
        b = {}
        kwargs = dict(kwargs)
        if any(isinstance(v, Term) and v.op == "star" for v in vals):
            i = next(i for i, v in enumerate(vals) if isinstance(v, Term) and v.op == "star")
            star = vals[i].args[0]
            head, rest = vals[:i], vals[i + 1:]
            if len(rest) == 0:
                vals = list(head)
                j = 0
                req = len(names) - len(a.defaults)
                while len(vals) < (req if a.vararg else len(names)):
                    if len(vals) >= len(names):
                        break
                    vals.append(T("item", star, num(j), 0))
                    j += 1
                if a.vararg:
                    b[a.vararg.arg] = T("slice", star, num(j), NONE) if j else star
            else:
                vals = [self.fresh("arg") for _ in names]
        for n, v in zip(names, vals):
            b[n] = v
        if a.vararg and a.vararg.arg not in b:
            b[a.vararg.arg] = Tup(vals[len(names):])
        elif len(vals) > len(names) and not a.vararg:
            self.imprecise(st, "too many arguments", node)
            return None
        for x in a.kwonlyargs:
            names.append(x.arg)
        extra = {}
        for k, v in kwargs.items():
            if k in names:
                b[k] = v
            elif k != "**":
                extra[k] = v
        if a.kwarg:
            b[a.kwarg.arg] = self.fresh("kwargs") if extra or "**" in kwargs else T("dict", ())
        pn = [x.arg for x in a.posonlyargs + a.args]
        for x, d in zip(pn[len(pn) - len(a.defaults):], a.defaults):
            if x not in b:
                b[x] = self.default(d, f)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in b and d is not None:
                b[x.arg] = self.default(d, f)
        for n in names:
            if n not in b:
                b[n] = self.fresh(n)
                self.imprecise(st, "missing argument " + n, node)
        return b

    def default(self, d, f):
        if isinstance(d, ast.Constant):
            return self.const(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return self.const(-d.operand.value)
        if isinstance(d, ast.Tuple) and not d.elts:
            return Tup(())
        if isinstance(d, ast.Name):
            return self.global_value(None, f.func.module, d.id)
        return self.fresh("default")

    def run_fn(self, st, f, bound, node, on_yield):
        """Run the body; [(st, val|Raised)]."""
        func = f.func
        self.functions.add(func.short)
        env = self.new_env(f.env, func.locals)
        fr = Frame(func, env, func.module, on_yield, len(self.stack))
        for n, v in bound.items():
            st.vars[(env, n)] = v
        self.stack.append(fr)
        try:
            if isinstance(func.node, ast.Lambda):
                res = self.ev(func.node.body, st, fr)
                out = list(res)
            else:
                out = []
                for s, o in self.exec_block(model.body_of(func.node), st, fr):
                    if o == NEXT:
                        out.append((s, NONE))
                    elif o[0] == "return":
                        out.append((s, o[1]))
                    elif o[0] == "raise":
                        out.append((s, Raised(o[1])))
                    else:
                        out.append((s, NONE))
        finally:
            self.stack.pop()
        if not func.children:
            for s, v in out:
                for k in [k for k in s.vars if k[0] == env]:
                    del s.vars[k]
        return self.dedupe(out)

    def dedupe(self, out):
        if len(out) < 2:
            return out
        seen = {}
        for s, v in out:
            k = (s.key(), v if not isinstance(v, Raised) else ("raised", v.exc))
            if k not in seen:
                seen[k] = (s, v)
        return list(seen.values())

    def construct(self, st, cls, args, kwargs, node, fr):
        ext = cls.external_bases()
        o = self.new_obj(cls, cls.name)
        for b in ext:
            if b in ("list", "dict", "set"):
                st.heap[(o, "#val")] = Tup(()) if b != "dict" else T("dict", ())
                st.heap[(o, "#len")] = num(0)
        m = cls.find_method("__init__")
        if m and self.hooks.inline(m):
            out = []
            for s, v in self.call_fn(st, FnV(m, None, o, m.cls), args, kwargs, node, fr):
                out.append((s, v if isinstance(v, Raised) else o))
            return out
        return [(st, o)]

    # ------------------------------------------------------------ builtins

    def b_len(self, st, args, kw, node, fr):
        if len(args) != 1:
            return None
        v = args[0]
        c = self.clsof(st, v)
        if isinstance(c, model.Class):
            m = c.find_method("__len__")
            if m and self.hooks.inline(m):
                return self.call_fn(st, FnV(m, None, v, m.cls), [], {}, node, fr)
        l = self.len_of(st, v)
        if l is None:
            return None
        return [(st, l)]

    def b_isinstance(self, st, args, kw, node, fr):
        v, c = args
        cs = c.items if isinstance(c, Tup) else (c,)
        res = []
        unknown = []
        for c in cs:
            r = None
            n = c.name if isinstance(c, ExtV) else None
            if isinstance(v, Obj):
                if isinstance(v.cls, model.Class):
                    if isinstance(c, ClsV):
                        r = c.cls in v.cls.mro()
                    elif n:
                        r = n in v.cls.external_bases()
                else:
                    r = v.cls == n
            elif isinstance(v, Const):
                if n:
                    r = type(v.v).__name__ == n or (n == "int" and isinstance(v.v, bool))
                else:
                    r = False
            elif isinstance(v, Lin):
                r = n in ("int", "float") if n else (False if isinstance(c, ClsV) else None)
            elif isinstance(v, Tup):
                r = n == "tuple" or (isinstance(c, NTV) and v.nt == c)
            elif isinstance(v, SliceV):
                r = n == "slice"
            elif isinstance(v, (FnV, ClsV)) and n in ("str", "int", "tuple", "list"):
                r = False
            elif isinstance(v, Term):
                k = self.clsof(st, v)
                if isinstance(k, model.Class):
                    if isinstance(c, ClsV):
                        r = True if c.cls in k.mro() else None
                    elif n in ("str", "int"):
                        r = False
                elif v.op in ("slice", "cat", "fstr"):
                    r = (n == "str") if n in ("str", "int", "tuple", "list") else None
                elif st.facts.get(("isnone", v)):
                    r = False
            if r is True:
                return [(st, TRUE)]
            if r is None:
                unknown.append(c)
        if not unknown:
            return [(st, FALSE)]
        key = ("isinstance", v, tuple(unknown))
        if key in st.facts:
            return [(st, Const(st.facts[key]))]
        s1, s2 = st.copy(), st.copy()
        s1.facts[key] = True
        s2.facts[key] = False
        ln = getattr(node, "lineno", 0)
        return [(s1.note(ln, True), TRUE), (s2.note(ln, False), FALSE)]

    def minmax(self, st, args, kw, node, fr, ismin):
        if len(args) == 1:
            x = self.exact_items(st, args[0])
            if x is None or not x:
                if isinstance(args[0], GenV):
                    t = self.fresh("min" if ismin else "max")
                    out = []
                    for s, o in self.iterate(st, args[0], lambda s, v: [(s, NEXT)], node, fr):
                        out.append((s, Raised(o[1]) if o[0] == "raise" else t))
                    return out
                return None
            args = x
        if kw:
            return None
        res = [(st, args[0])]
        for b in args[1:]:
            new = []
            for s, a in res:
                la, lb = self.as_lin(s, a), self.as_lin(s, b)
                if la is None or lb is None:
                    return None
                d = lb - la if ismin else la - lb
                s2 = s.copy().assume(d)
                if s2:
                    new.append((s2, la))
                s2 = s.copy().assume(-d - 1)
                if s2:
                    new.append((s2, lb))
            res = new
        return res

    def b_min(self, st, args, kw, node, fr):
        return self.minmax(st, args, kw, node, fr, True)

    def b_max(self, st, args, kw, node, fr):
        return self.minmax(st, args, kw, node, fr, False)

    def b_abs(self, st, args, kw, node, fr):
        l = self.as_lin(st, args[0])
        if l is None:
            return None
        out = []
        s = st.copy().assume(l)
        if s:
            out.append((s, l))
        s = st.copy().assume(-l - 1)
        if s:
            out.append((s, -l))
        return out

    def b_int(self, st, args, kw, node, fr):
        if len(args) == 1 and isinstance(args[0], Const) and isinstance(args[0].v, bool):
            return [(st, num(int(args[0].v)))]
        if len(args) == 1 and isinstance(args[0], Lin):
            return [(st, args[0])]

    def b_bool(self, st, args, kw, node, fr):
        if len(args) == 1:
            return [(s, Const(b)) for s, b in self.truth(st, args[0], node)]

    def b_range(self, st, args, kw, node, fr):
        if len(args) == 1:
            a, b, c = num(0), args[0], num(1)
        elif len(args) == 2:
            a, b, c = args[0], args[1], num(1)
        else:
            a, b, c = args
        return [(st, IterV("range", a, b, c))]

    def b_enumerate(self, st, args, kw, node, fr):
        start = args[1] if len(args) > 1 else kw.get("start", num(0))
        return [(st, IterV("enumerate", args[0], start))]

    def b_zip(self, st, args, kw, node, fr):
        return [(st, IterV("zip", *args))]

    def b_reversed(self, st, args, kw, node, fr):
        x = self.exact_items(st, args[0])
        if x is not None:
            return [(st, Tup(reversed(x)))]
        return [(st, IterV("reversed", args[0]))]

    def b_map(self, st, args, kw, node, fr):
        return [(st, IterV("map", *args))]

    def b_filter(self, st, args, kw, node, fr):
        return [(st, IterV("filter", *args))]

    def b_iter(self, st, args, kw, node, fr):
        if len(args) == 1:
            if isinstance(args[0], (GenV,)):
                return [(st, args[0])]
            if isinstance(args[0], IterV):
                return [(st, args[0])]
            if isinstance(args[0], (Term, Obj, Tup)):
                return [(st, IterV("iter", args[0], next(self.counter)))]

    def b_list(self, st, args, kw, node, fr):
        if not args:
            return [(st, self.new_list(st, []))]
        return self.collect(st, args[0], "list", node, fr)

    def b_tuple(self, st, args, kw, node, fr):
        if not args:
            return [(st, Tup(()))]
        return self.collect(st, args[0], "tuple", node, fr)

    def b_set(self, st, args, kw, node, fr):
        if not args:
            return [(st, self.new_list(st, [], "set", "set"))]
        return self.collect(st, args[0], "set", node, fr)

    def b_dict(self, st, args, kw, node, fr):
        o = self.new_obj("dict", "dict")
        st.heap[(o, "#val")] = T("dict", ()) if not args and not kw else self.fresh("dict")
        return [(st, o)]

    def b_slice(self, st, args, kw, node, fr):
        if len(args) == 1:
            return [(st, SliceV(NONE, args[0], NONE))]
        return [(st, SliceV(args[0], args[1], args[2] if len(args) > 2 else NONE))]

    def b_type(self, st, args, kw, node, fr):
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Obj) and isinstance(v.cls, model.Class):
                return [(st, ClsV(v.cls))]
            if isinstance(v, Tup):
                return [(st, v.nt or ExtV("tuple"))]
            if isinstance(v, Const):
                return [(st, ExtV(type(v.v).__name__))]
            c = self.clsof(st, v)
            if isinstance(v, Term):
                return [(st, T("type", v))]

    def b_getattr(self, st, args, kw, node, fr):
        if len(args) >= 2 and isinstance(args[1], Const) and isinstance(args[1].v, str):
            if len(args) == 2:
                return self.getattr(st, args[0], args[1].v, node, fr)
            if len(args) == 3:
                n = args[1].v
                if isinstance(args[0], Obj) and ((args[0], n) in st.heap or isinstance(args[0].cls, model.Class) and args[0].cls.find_method(n)):
                    return self.getattr(st, args[0], n, node, fr)
                r = self.hooks.missing(self, st, args[0], n)
                if r is True:
                    return [(st, args[2])]
                if r is False:
                    return self.getattr(st, args[0], n, node, fr)
                s2 = st.copy()
                return [(s2, args[2])] + list(self.getattr(st, args[0], n, node, fr))
        return [(st, T("getattr", *[a for a in args[:2]], next(self.counter) if len(args) < 2 else 0))] \
            if all(isinstance(a, (Term, V)) for a in args[:2]) else None

    def b_any(self, st, args, kw, node, fr):
        return self.anyall(st, args, node, fr, True)

    def b_all(self, st, args, kw, node, fr):
        return self.anyall(st, args, node, fr, False)

    def anyall(self, st, args, node, fr, isany):
        def body(s, v):
            out = []
            for s2, b in self.truth(s, v, node):
                out.append((s2, BREAK if b == isany else NEXT))
            return out
        out = []
        for s, o in self.iterate(st, args[0], body, node, fr):
            if o[0] == "raise":
                out.append((s, Raised(o[1])))
            else:
                out.append((s, Const(isany if o == BREAK else not isany)))
        return out

    def b_sum(self, st, args, kw, node, fr):
        key = ("sum", id(node))
        st.vars[key] = num(0)
        def body(s, v):
            l = self.as_lin(s, v)
            a = s.vars[key]
            s.vars[key] = a + l if l is not None and isinstance(a, Lin) else self.fresh("sum")
            return [(s, NEXT)]
        out = []
        for s, o in self.iterate(st, args[0], body, node, fr):
            v = s.vars.pop(key, None)
            out.append((s, Raised(o[1]) if o[0] == "raise" else v))
        return out

    # ------------------------------------------------------------ methods of builtin values

    def method(self, st, recv, name, args, kwargs, node, fr):
        if isinstance(recv, SuperV):
            obj = recv.obj
            if name == "__init__":
                if isinstance(obj, Obj) and args and isinstance(obj.cls, model.Class) and \
                        any(b in ("list",) for b in obj.cls.external_bases()):
                    st.heap[(obj, "#val")] = self.fresh("init")
                    self.set_len(st, obj, None)
                return [(st, NONE)]
            return None
        if isinstance(recv, Tup) and recv.nt:
            if name == "_replace":
                items = [kwargs.get(f, v) for f, v in zip(recv.nt.fields, recv.items)]
                return [(st, Tup(items, recv.nt))]
        if isinstance(recv, Const) and isinstance(recv.v, str):
            if name == "join" and len(args) == 1:
                return self.join(st, recv, args[0], node, fr)
            if name == "format":
                return [(st, T("fstr", (recv,) + tuple(self.hashable(a) for a in args)))]
            if all(isinstance(a, Const) for a in args) and not kwargs and name in PURE_METHODS:
                try:
                    return [(st, self.const(getattr(recv.v, name)(*[a.v for a in args])))]
                except Exception:
                    pass
        if isinstance(recv, Obj) and (recv.cls in ("list", "set", "dict") or
                                      isinstance(recv.cls, model.Class) and recv.cls.external_bases()):
            r = self.list_method(st, recv, name, args, node, fr)
            if r is not None:
                return r
        if name in ("append", "extend", "insert", "clear", "remove", "pop", "sort", "add", "discard", "update", "setdefault", "reverse", "popitem", "appendleft", "popleft"):
            if isinstance(recv, (Term,)):
                out = []
                if name in ("remove", "pop", "popitem", "popleft"):
                    for e in self.caught_of(fr, ("ValueError", "KeyError", "IndexError")):
                        out.append((st.copy().note(getattr(node, "lineno", 0), e), Raised(Exc(e))))
                if name == "extend" or name == "update":
                    if args and isinstance(args[0], (GenV, IterV)):
                        for s, o in self.iterate(st, args[0], lambda s, v: [(s, NEXT)], node, fr):
                            self.mutated(s, recv)
                            out.append((s, Raised(o[1]) if o[0] == "raise" else NONE))
                        return out
                self.mutated(st, recv)
                out.append((st, NONE if name in ("append", "extend", "insert", "clear", "remove", "sort", "add", "discard", "update", "reverse")
                            else T("call", "." + name, next(self.counter))))
                return out
        if name in PURE_METHODS:
            out = []
            if name in ("index", "rindex"):
                for e in self.caught_of(fr, ("ValueError",)):
                    out.append((st.copy().note(getattr(node, "lineno", 0), e), Raised(Exc(e))))
            for s, vals in self.materialize(st, args, node, fr):
                v = T("m", name, recv, tuple(self.hashable(a) for a in vals), tuple(sorted((k, self.hashable(x)) for k, x in kwargs.items())),
                      st.ver.get(("#items", recv), 0))
                if name in ("find", "rfind", "index", "rindex", "count", "start", "end"):
                    s.assume(sym(v) + (1 if name in ("find", "rfind") else 0))
                    out.append((s, sym(v)))
                else:
                    out.append((s, v))
            return out
        return None

    def hashable(self, v):
        return v

    def materialize(self, st, args, node, fr):
        """Run generators given as arguments."""
        res = [(st, [])]
        for a in args:
            new = []
            for s, vals in res:
                if isinstance(a, (GenV,)):
                    for s2, o in self.iterate(s, a, lambda s, v: [(s, NEXT)], node, fr):
                        if o == EXHAUST:
                            new.append((s2, vals + [self.fresh("gen")]))
                else:
                    new.append((s, vals + [a]))
            res = new
        return res

    def join(self, st, sep, arg, node, fr):
        x = self.exact_items(st, arg)
        if x is not None:
            if all(isinstance(i, Const) for i in x):
                return [(st, Const(sep.v.join(i.v for i in x)))]
            if sep.v == "":
                v = EMPTY
                for i in x:
                    v = self.binop(st, "Add", v if v != EMPTY else EMPTY, i, node, fr)[0][1] if v != EMPTY else i
                return [(st, v)]
        if isinstance(arg, (GenV, IterV)):
            out = []
            for s, v in self.collect(st, arg, "tuple", node, fr):
                if isinstance(v, Raised):
                    out.append((s, v))
                else:
                    out.extend(self.join(s, sep, v, node, fr) if isinstance(v, Tup) else [(s, T("m", "join", sep, (v,), (), 0))])
            return out
        return [(st, T("m", "join", sep, (self.content(st, arg),), (), st.ver.get(("#items", arg), 0)))]

    def list_method(self, st, o, name, args, node, fr):
        items = self.exact_items(st, o)
        n = self.len_of(st, o) if name in ("append", "extend", "pop", "insert", "remove") else None
        if name in ("append", "add"):
            if items is not None:
                if o.cls == "set" and args[0] in items:
                    return [(st, NONE)]
                st.heap[(o, "#val")] = Tup(items + [args[0]])
            else:
                st.heap[(o, "#val")] = T("append", self.content(st, o), self.hashable(args[0]))
            if name == "append" and n is not None:
                st.heap[(o, "#len")] = n + 1
            else:
                self.set_len(st, o, None if items is None or o.cls == "set" else num(len(items) + 1))
            return [(st, NONE)]
        if name == "extend":
            out = []
            for s, v in (self.collect(st, args[0], "tuple", node, fr) if isinstance(args[0], (GenV, IterV)) else [(st, args[0])]):
                if isinstance(v, Raised):
                    out.append((s, v))
                    continue
                x = self.exact_items(s, v)
                cur = self.exact_items(s, o)
                l = self.len_of(s, v)
                if x is not None and cur is not None:
                    s.heap[(o, "#val")] = Tup(cur + x)
                    s.heap[(o, "#len")] = num(len(cur) + len(x))
                else:
                    s.heap[(o, "#val")] = T("extend", self.content(s, o), self.content(s, v))
                    self.set_len(s, o, n + l if n is not None and l is not None else None)
                out.append((s, NONE))
            return out
        if name == "clear":
            st.heap[(o, "#val")] = Tup(()) if o.cls != "dict" else T("dict", ())
            st.heap[(o, "#len")] = num(0)
            return [(st, NONE)]
        if name == "pop":
            if items is not None and (not args or isinstance(args[0], Lin) and args[0].const):
                i = args[0].k if args else -1
                if not items or not -len(items) <= i < len(items):
                    return [(st, Raised(Exc("IndexError")))]
                v = items.pop(i)
                st.heap[(o, "#val")] = Tup(items)
                st.heap[(o, "#len")] = num(len(items))
                return [(st, v)]
            c = self.content(st, o)
            out = []
            for e in self.caught_of(fr, ("KeyError", "IndexError")):
                out.append((st.copy().note(getattr(node, "lineno", 0), e), Raised(Exc(e))))
            if isinstance(c, Term) and c.op == "append" and not args:
                v = c.args[1]
                st.heap[(o, "#val")] = c.args[0]
            else:
                v = T("item", c, args[0] if args else num(-1), 0)
                st.heap[(o, "#val")] = T("popped", c, args[0] if args else num(-1))
            if o.cls != "dict" and n is not None:
                if st.assume(n - 1) is None:
                    return out
                st.heap[(o, "#len")] = n - 1
            out.append((st, v))
            return out
        if name == "insert" and len(args) == 2:
            if items is not None and isinstance(args[0], Lin) and args[0].const:
                items.insert(args[0].k, args[1])
                st.heap[(o, "#val")] = Tup(items)
                st.heap[(o, "#len")] = num(len(items))
            else:
                st.heap[(o, "#val")] = T("insert", self.content(st, o), args[0], self.hashable(args[1]))
                if n is not None:
                    st.heap[(o, "#len")] = n + 1
            return [(st, NONE)]
        if name == "reverse" and items is not None:
            st.heap[(o, "#val")] = Tup(items[::-1])
            return [(st, NONE)]
        if name in ("sort", "reverse"):
            st.heap[(o, "#val")] = T(name, self.content(st, o))
            return [(st, NONE)]
        if name in ("remove", "discard"):
            out = []
            for e in self.caught_of(fr, ("ValueError", "KeyError")):
                out.append((st.copy().note(getattr(node, "lineno", 0), e), Raised(Exc(e))))
            st.heap[(o, "#val")] = T("remove", self.content(st, o), self.hashable(args[0]))
            self.set_len(st, o, n - 1 if name == "remove" and n is not None and o.cls == "list" else None)
            return out + [(st, NONE)]
        if name == "setdefault":
            st.heap[(o, "#val")] = T("setdefault", self.content(st, o), *map(self.hashable, args))
            return [(st, T("call", ".setdefault", next(self.counter)))]
        if name == "update":
            st.heap[(o, "#val")] = T("update", self.content(st, o), next(self.counter))
            self.set_len(st, o, None)
            return [(st, NONE)]
        return None

    # ------------------------------------------------------------ iteration

    def iterate(self, st, itv, body, node, fr):
        """Run body(st, elem) -> [(st, outcome)] for the elements of itv.

        Outcomes NEXT and CONTINUE go on, others leave the loop. Returns
        [(st, outcome)], where EXHAUST means that the iterable was used up.
        """
        items = None
        if isinstance(itv, (Tup, Obj)):
            items = self.exact_items(st, itv)
        if isinstance(itv, IterV) and itv.kind == "iter":
            if isinstance(itv.args[0], Tup):
                items = self.exact_items(st, itv.args[0])
        if items is not None and len(items) <= max(12, self.hooks.exact_loops):
            cur = [st]
            out = []
            for x in items:
                nxt = []
                for s in cur:
                    for s2, o in body(s, x):
                        if o in (NEXT, CONTINUE):
                            nxt.append(s2)
                        else:
                            out.append((s2, o))
                cur = self.compact(nxt)
            return out + [(s, EXHAUST) for s in cur]
        if isinstance(itv, GenV):
            return self.run_gen(st, itv, body, node, fr)
        if isinstance(itv, IterV):
            k = itv.kind
            if k == "iter":
                inner = itv.args[0]
                if isinstance(inner, (Term, Obj)):
                    return self.iter_shared(st, itv, body, node, fr)
                return self.iterate(st, inner, body, node, fr)
            if k == "range":
                return self.iter_range(st, itv, body, node, fr)
            if k == "enumerate":
                key = ("enum", id(node), len(self.stack), next(self.counter) if False else 0)
                st.vars[key] = self.as_lin(st, itv.args[1])
                if st.vars[key] is None:
                    st.vars[key] = itv.args[1]
                def b2(s, v):
                    i = s.vars[key]
                    out = []
                    for s2, o in body(s, Tup((i, v))):
                        i2 = s2.vars.get(key)
                        if i2 is not None and o in (NEXT, CONTINUE):
                            l = self.as_lin(s2, i2)
                            s2.vars[key] = l + 1 if l is not None else self.fresh("i")
                        out.append((s2, o))
                    return out
                out = self.iterate(st, itv.args[0], b2, node, fr)
                for s, o in out:
                    s.vars.pop(key, None)
                return out
            if k == "map":
                f = itv.args[0]
                def b3(s, v):
                    out = []
                    for s2, r in self.call_fn(s, f, [v], {}, node, fr):
                        if isinstance(r, Raised):
                            out.append((s2, ("raise", r.exc)))
                        else:
                            out.extend(body(s2, r))
                    return out
                if len(itv.args) == 2:
                    return self.iterate(st, itv.args[1], b3, node, fr)
            if k == "zip":
                return self.iter_zip(st, itv, body, node, fr)
            if k == "reversed":
                inner = itv.args[0]
                return self.iter_opaque(st, T("reversed", inner) if isinstance(inner, (Term, V)) else self.fresh("rev"), body, node, fr)
            if k == "filter":
                return self.iter_opaque(st, self.fresh("filter"), body, node, fr)
        c = self.clsof(st, itv)
        if isinstance(c, model.Class):
            m = c.find_method("__iter__")
            if m and self.hooks.inline(m):
                out = []
                for s, r in self.call_fn(st, FnV(m, None, itv, m.cls), [], {}, node, fr):
                    if isinstance(r, Raised):
                        out.append((s, ("raise", r.exc)))
                    else:
                        out.extend(self.iterate(s, r, body, node, fr))
                return out
        return self.iter_opaque(st, itv, body, node, fr)

    def run_gen(self, st, g, body, node, fr):
        if g.node is not None:
            def on_item(s, v):
                return [(s2, NEXT if o == CONTINUE else o) for s2, o in body(s, v)]
            self.stack.append(g.fr)
            try:
                return self.run_genexp(g.node, st, g.fr, on_item)
            finally:
                self.stack.pop()
        if sum(1 for x in self.stack if x.func is g.fn.func) >= 2 or len(self.stack) >= self.hooks.max_depth:
            return self.iter_opaque(st, self.fresh("gen"), body, node, fr)
        saved = self.stack[:]
        def on_yield(s, v):
            # the body runs in the consumer's frame
            cur = self.stack[:]
            self.stack[:] = saved
            try:
                return body(s, v)
            finally:
                self.stack[:] = cur
        out = []
        for s, v in self.run_fn(st, g.fn, dict(g.bound), node, on_yield):
            if isinstance(v, Raised):
                e = v.exc
                if e.name == "GeneratorExit" and e.payload is not None:
                    out.append((s, e.payload))
                else:
                    out.append((s, ("raise", e)))
            else:
                out.append((s, EXHAUST))
        return out

    def iter_range(self, st, itv, body, node, fr):
        a, b, c = [self.as_lin(st, x) for x in itv.args]
        if a is None or b is None or c is None or not c.const or c.k == 0:
            return self.iter_opaque(st, self.fresh("range"), body, node, fr)
        if a.const and b.const and len(range(a.k, b.k, c.k)) <= 4:
            return self.iterate(st, Tup(num(i) for i in range(a.k, b.k, c.k)), body, node, fr)
        key = ("rng", id(node), len(self.stack))
        st.vars[key] = a
        # with steps of one the index never passes the bound
        tight = abs(c.k) == 1 and st.entails(b - a if c.k > 0 else a - b)
        def step(s):
            i = s.vars[key]
            li = self.as_lin(s, i)
            out = []
            d = b - li if c.k > 0 else li - b
            if tight:
                s = s.copy().assume(d) or s
            s2 = s.copy().assume(-d)
            if s2:
                s2.vars.pop(key, None)
                out.append((s2, EXHAUST))
            s2 = s.copy().assume(d - 1)
            if s2:
                for s3, o in body(s2, li):
                    if o in (NEXT, CONTINUE):
                        s3.vars[key] = li + c.k
                        out.append((s3, LOOP))
                    else:
                        s3.vars.pop(key, None)
                        out.append((s3, o))
            return out
        return self.fixpoint(st, step, node, fr)

    def iter_opaque(self, st, seq, body, node, fr):
        key = ("it", id(node), len(self.stack))
        st.vars[key] = num(0)
        r = self.hooks.iter_start(self, st, seq, node)
        if r is not None:
            st = r
        n = self.hooks.item_count(self, st, seq)
        if n is not None:
            # a known number of items
            st.vars.pop(key, None)
            cur, out = [st], []
            for k in range(n):
                nxt = []
                for s in cur:
                    r = self.hooks.iter_elem(self, s, seq, num(k), None, node)
                    for s3, e in r:
                        s3.note(getattr(node, "lineno", 0), "next item")
                        for s4, o in body(s3, e):
                            if o in (NEXT, CONTINUE):
                                nxt.append(s4)
                            else:
                                out.append((s4, o))
                cur = self.compact(nxt)
            for s in cur:
                r = self.hooks.iter_done(self, s, seq, num(n), node)
                out.extend((s3, EXHAUST) for s3 in ([s] if r is None else r))
            return out
        n0 = self.len_of(st, seq) if isinstance(seq, (Term, Obj)) and self.is_seq(seq) else None
        def step(s):
            k = s.vars[key]
            out = []
            s2 = s.copy()
            if n0 is not None:
                s2 = s2.assume_eq(n0 - k)
            if s2 is not None:
                s2.vars.pop(key, None)
                r = self.hooks.iter_done(self, s2, seq, k, node)
                if r is None:
                    r = [s2]
                for s3 in r:
                    out.append((s3.note(getattr(node, "lineno", 0), "end of loop"), EXHAUST))
            s2 = s.copy()
            if n0 is not None:
                s2 = s2.assume(n0 - k - 1)
            if s2 is not None:
                if not k.const and s2.entails_eq(k):
                    k = num(0)
                elem = T("item", self.content(s2, seq), k, 0)
                r = self.hooks.iter_elem(self, s2, seq, k, elem, node)
                if r is None:
                    r = [(s2, elem)]
                for s3, e in r:
                    s3.note(getattr(node, "lineno", 0), "next item")
                    for s4, o in body(s3, e):
                        if o in (NEXT, CONTINUE):
                            self.hooks.iter_next(self, s4, seq, k, e, node)
                            s4.vars[key] = self.as_lin(s4, s4.vars.get(key, k)) + 1
                            out.append((s4, LOOP))
                        else:
                            if o == BREAK and self.hooks.iter_break(self, s4, seq, k, e, node) == "covered":
                                continue
                            s4.vars.pop(key, None)
                            out.append((s4, o))
            return out
        return self.fixpoint(st, step, node, fr)

    def is_seq(self, seq):
        return not (isinstance(seq, Term) and seq.op == "m" and seq.args[0] in ("finditer", "items", "keys", "values"))

    def iter_shared(self, st, itv, body, node, fr):
        """An explicit iterator object that several loops take items from.

        Its position is a variable of the state, so that nested loops share it.
        """
        key = ("shared", itv.args[1])
        if key not in st.vars:
            st.vars[key] = num(0)
            r = self.hooks.iter_start(self, st, itv.args[0], node)
            if r is not None:
                st = r
        seq = itv.args[0]
        n0 = self.len_of(st, seq) if self.is_seq(seq) else None
        def step(s):
            k = self.as_lin(s, s.vars[key])
            out = []
            s2 = s.copy()
            if n0 is not None:
                s2 = s2.assume_eq(n0 - k)
            if s2 is not None:
                r = self.hooks.iter_done(self, s2, seq, k, node)
                if r is None:
                    r = [s2]
                for s3 in r:
                    out.append((s3.note(getattr(node, "lineno", 0), "end of loop"), EXHAUST))
            s2 = s.copy()
            if n0 is not None:
                s2 = s2.assume(n0 - k - 1)
            if s2 is not None:
                elem = T("item", self.content(s2, seq), k, 0)
                s2.vars[key] = k + 1
                r = self.hooks.iter_elem(self, s2, seq, k, elem, node)
                if r is None:
                    r = [(s2, elem)]
                for s3, e in r:
                    for s4, o in body(s3, e):
                        out.append((s4, LOOP if o in (NEXT, CONTINUE) else o))
            return out
        return self.fixpoint(st, step, node, fr)

    def iter_zip(self, st, itv, body, node, fr):
        args = itv.args
        exact = [self.exact_items(st, a) if isinstance(a, (Tup, Obj)) else None for a in args]
        if all(x is not None for x in exact):
            return self.iterate(st, Tup(Tup(x) for x in zip(*exact)), body, node, fr)
        gens = [a for a in args if isinstance(a, GenV)]
        if len(gens) >= 1:
            g = gens[0]
            i0 = args.index(g)
            def b(s, v):
                elem = Tup([v if i == i0 else self.fresh("zip") for i in range(len(args))])
                return body(s, elem)
            return self.iterate(st, g, b, node, fr)
        key = ("zip", id(node), len(self.stack))
        st.vars[key] = num(0)
        lens = [self.len_of(st, a) if isinstance(a, (Term, Obj, Tup)) and self.is_seq(a) else None for a in args]
        def step(s):
            k = s.vars[key]
            out = []
            for l in lens:
                s2 = s.copy()
                if l is not None:
                    s2 = s2.assume_eq(l - k)
                if s2 is not None:
                    s2.vars.pop(key, None)
                    out.append((s2, EXHAUST))
            s2 = s.copy()
            s2 = s2.assume(*[l - k - 1 for l in lens if l is not None])
            if s2 is not None:
                elem = Tup([T("item", self.content(s2, a), k, 0) if isinstance(a, (Term, Obj, Tup)) else self.fresh("zip") for a in args])
                for s3, o in body(s2, elem):
                    if o in (NEXT, CONTINUE):
                        s3.vars[key] = self.as_lin(s3, s3.vars.get(key, k)) + 1
                        out.append((s3, LOOP))
                    else:
                        s3.vars.pop(key, None)
                        out.append((s3, o))
            return out
        return self.fixpoint(st, step, node, fr)

    # ------------------------------------------------------------ fixpoint

    def fixpoint(self, st0, step, node, fr):
        """step(state) -> [(state, LOOP or other outcome)]."""
        limit = getattr(self.hooks, "exact_loops", 0)
        if limit:
            # everything that is looped over has a known number of items
            exits, heads = [], [st0]
            for k in range(limit):
                nxt = {}
                for h in heads:
                    for s, o in step(h):
                        if o == LOOP:
                            nxt.setdefault(s.key(), s)
                        else:
                            exits.append((s, o))
                heads = list(nxt.values())
                if not heads:
                    return self.dedupe(exits)
            raise Budget("loop at line {} is not bounded".format(getattr(node, "lineno", "?")))
        if self.unroll:
            exits = []
            heads = [st0]
            for k in range(self.unroll + 1):
                nxt = []
                for h in heads:
                    for s, o in step(h):
                        if o == LOOP:
                            nxt.append(s)
                        else:
                            exits.append((s, o))
                heads = self.compact(nxt, 60)
                if not heads:
                    break
            return self.dedupe(exits)
        loop = Loop(self, st0, step, node, fr)
        return loop.solve()

    def compact(self, states, limit=100):
        if len(states) < 2:
            return states
        if not self.unroll:
            limit = getattr(self.hooks, "max_states", limit)
        else:
            limit = getattr(self.hooks, "max_unrolled", limit)
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        states = list(seen.values())
        if len(states) > limit and self.unroll:
            # looking for a witness: follow a sample of the paths
            return [states[i * len(states) // limit] for i in range(limit)]
        if len(states) > limit:
            groups = {}
            for s in states:
                groups.setdefault(frozenset(s.auto.items()), []).append(s)
            out = []
            for g in groups.values():
                if len(g) > max(4, limit // 4):
                    out.append(self.join_states(g))
                else:
                    out.extend(g)
            return out
        return states

    def join_states(self, states):
        """Join: keep what all states agree on."""
        s = states[0].copy()
        s.unk = tuple(sorted(set(u for x in states for u in x.unk) | {"joined"}))
        for attr in ("vars", "heap"):
            d = getattr(s, attr)
            for k in list(d):
                v = d[k]
                if any(getattr(x, attr).get(k) != v for x in states[1:]):
                    if k[1:] and k[1] == "#len" or isinstance(v, Lin) and all(isinstance(getattr(x, attr).get(k), Lin) for x in states):
                        d[k] = self.freshint("joined")
                    else:
                        d[k] = self.fresh("joined")
        cons = set(s.cons)
        facts = s.facts
        for x in states[1:]:
            cons &= x.cons
            facts = {k: v for k, v in facts.items() if x.facts.get(k) == v}
            for k, v in x.ver.items():
                s.ver[k] = v if v == s.ver.get(k) else ("v", ("j", next(self.counter)), 0)
        s.cons = frozenset(cons)
        s.facts = facts
        return s

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, st, fr):
        cur = [st]
        done = []
        for stmt in stmts:
            nxt = []
            for s in cur:
                for s2, o in self.ex(stmt, s, fr):
                    if o == NEXT:
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            if len(nxt) > 8:
                self.forget(nxt, stmt, fr)
            cur = self.compact(nxt)
            if not cur:
                break
        return done + [(s, NEXT) for s in cur]

    def forget(self, states, stmt, fr):
        """Drop the local names that are not read any more after the statement."""
        f = fr.func
        if f is None or not isinstance(f.node, ast.FunctionDef):
            return
        lv = getattr(f, "_liveness", None)
        if lv is None:
            lv = f._liveness = live.Live(f.node)
        names = lv.after.get(id(stmt))
        if names is None:
            return
        for s in states:
            for k in [k for k in s.vars if k[0] == fr.env and k[1] not in names and k[1].isidentifier()]:
                del s.vars[k]

    def ex(self, node, st, fr):
        self.tick()
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            self.imprecise(st, "unsupported " + type(node).__name__, node)
            return [(st, NEXT)]
        return m(node, st, fr)

    def ex_Expr(self, node, st, fr):
        return [(s, ("raise", v.exc) if isinstance(v, Raised) else NEXT) for s, v in self.ev(node.value, st, fr)]

    def ex_Pass(self, node, st, fr):
        return [(st, NEXT)]

    def ex_Global(self, node, st, fr):
        return [(st, NEXT)]

    ex_Nonlocal = ex_Global

    def ex_Break(self, node, st, fr):
        return [(st, BREAK)]

    def ex_Continue(self, node, st, fr):
        return [(st, CONTINUE)]

    def ex_Return(self, node, st, fr):
        if node.value is None:
            return [(st, ("return", NONE))]
        return [(s, ("raise", v.exc) if isinstance(v, Raised) else ("return", v)) for s, v in self.ev(node.value, st, fr)]

    def ex_Import(self, node, st, fr):
        d = {}
        fr.module._import(node, d)
        for n, imp in d.items():
            self.store(st, fr, n, self.to_value(st, self.program.resolve_import(imp), fr.module, n))
        return [(st, NEXT)]

    ex_ImportFrom = ex_Import

    def ex_FunctionDef(self, node, st, fr):
        f = self.func_of(node, fr)
        v = FnV(f, fr.env, None, fr.func.cls if fr.func else None)
        for d in f.decorator_names():
            if d and d.split(".")[-1] not in ("wraps", "contextmanager"):
                v = T("decorated", v)
        self.store(st, fr, node.name, v)
        return [(st, NEXT)]

    def ex_ClassDef(self, node, st, fr):
        self.store(st, fr, node.name, T("localclass", id(node)))
        return [(st, NEXT)]

    def ex_Assert(self, node, st, fr):
        out = []
        for s, b in self.cond(node.test, st, fr):
            if isinstance(b, Raised):
                out.append((s, ("raise", b.exc)))
            elif b:
                out.append((s, NEXT))
            else:
                out.append((s, ("raise", Exc("AssertionError"))))
        return out

    def ex_Raise(self, node, st, fr):
        if node.exc is None:
            e = st.vars.get(("exc", len(self.stack)))
            return [(st, ("raise", e if isinstance(e, Exc) else Exc("any")))]
        name = model.dotted(node.exc.func if isinstance(node.exc, ast.Call) else node.exc)
        out = []
        for s, v in self.ev(node.exc, st, fr):
            if isinstance(v, Raised):
                out.append((s, ("raise", v.exc)))
            elif isinstance(v, Exc):
                out.append((s, ("raise", v)))
            else:
                out.append((s, ("raise", Exc((name or "any").split(".")[-1] if name and name[0].isupper() else "any"))))
        return out

    def ex_Assign(self, node, st, fr):
        out = []
        for s, v in self.ev(node.value, st, fr):
            if isinstance(v, Raised):
                out.append((s, ("raise", v.exc)))
                continue
            cur = [(s, None)]
            for t in node.targets:
                nxt = []
                for s2, r in cur:
                    if r is not None:
                        nxt.append((s2, r))
                    else:
                        nxt.extend(self.assign(t, v, s2, fr))
                cur = nxt
            for s2, r in cur:
                out.append((s2, ("raise", r.exc) if r is not None else NEXT))
        return out

    def ex_AnnAssign(self, node, st, fr):
        if node.value is None:
            return [(st, NEXT)]
        out = []
        for s, v in self.ev(node.value, st, fr):
            if isinstance(v, Raised):
                out.append((s, ("raise", v.exc)))
            else:
                for s2, r in self.assign(node.target, v, s, fr):
                    out.append((s2, ("raise", r.exc) if r is not None else NEXT))
        return out

    def assign(self, target, v, st, fr):
        """[(st, None|Raised)]"""
        if isinstance(target, ast.Name):
            self.store(st, fr, target.id, v)
            return [(st, None)]
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            stars = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            items = self.exact_items(st, v)
            if isinstance(v, GenV):
                items = None
            if items is None:
                if isinstance(v, Term) and v.op == "call" and v.args[0] == "tuple":
                    v = v.args[1]
                if stars:
                    i = stars[0]
                    vals = []
                    for j in range(i):
                        vals.append(T("item", v, num(j), 0))
                    o = self.new_obj("list", "rest")
                    st.heap[(o, "#val")] = T("slice", v, num(i), num(-(n - i - 1)) if n - i - 1 else NONE)
                    vals.append(o)
                    for j in range(n - i - 1, 0, -1):
                        vals.append(T("item", v, num(-j), 0))
                else:
                    vals = [T("item", v if isinstance(v, (Term, V)) else self.fresh("it"), num(j), 0) for j in range(n)]
            else:
                if stars:
                    i = stars[0]
                    k = len(items) - (n - 1)
                    if k < 0:
                        return [(st, Raised(Exc("ValueError")))]
                    vals = items[:i] + [self.new_list(st, items[i:i + k])] + items[i + k:]
                else:
                    if len(items) != n:
                        return [(st, Raised(Exc("ValueError")))]
                    vals = items
            cur = [(st, None)]
            for t, x in zip(target.elts, vals):
                if isinstance(t, ast.Starred):
                    t = t.value
                nxt = []
                for s, r in cur:
                    nxt.extend([(s, r)] if r is not None else self.assign(t, x, s, fr))
                cur = nxt
            return cur
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st, fr):
                if isinstance(b, Raised):
                    out.append((s, b))
                else:
                    out.extend(self.setattr(s, b, target.attr, v, target, fr))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, vals in self.evs([target.value, target.slice], st, fr):
                if isinstance(vals, Raised):
                    out.append((s, vals))
                else:
                    out.extend(self.setitem(s, vals[0], vals[1], v, target, fr))
            return out
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, fr)
        return [(st, None)]

    def is_list(self, o):
        return o.cls == "list" or isinstance(o.cls, model.Class) and "list" in o.cls.external_bases() and not o.cls.find_method("__iadd__")

    def ex_AugAssign(self, node, st, fr):
        t = node.target
        op = type(node.op).__name__
        out = []
        def fin(s, r):
            out.append((s, ("raise", r.exc) if isinstance(r, Raised) else NEXT))
        if isinstance(t, ast.Name):
            for s, v in self.ev(node.value, st, fr):
                if isinstance(v, Raised):
                    fin(s, v)
                    continue
                cur = self.lookup(s, fr, t.id, node)
                if isinstance(cur, Obj) and self.is_list(cur) and op == "Add":
                    r = self.hooks.call(self, s, ".extend", cur, [v], {}, node)
                    for s2, r in (r if r is not None else self.list_method(s, cur, "extend", [v], node, fr) or []):
                        fin(s2, r)
                    continue
                if isinstance(cur, Obj) and isinstance(cur.cls, model.Class):
                    m = cur.cls.find_method("__iadd__")
                    if m and op == "Add":
                        for s2, r in self.call_fn(s, FnV(m, None, cur, m.cls), [v], {}, node, fr):
                            if not isinstance(r, Raised):
                                self.store(s2, fr, t.id, r)
                            fin(s2, r)
                        continue
                for s2, r in self.binop(s, op, cur, v, node, fr):
                    if not isinstance(r, Raised):
                        self.store(s2, fr, t.id, r)
                    fin(s2, r)
        elif isinstance(t, ast.Attribute):
            for s, vals in self.evs([t.value, node.value], st, fr):
                if isinstance(vals, Raised):
                    fin(s, vals)
                    continue
                b, v = vals
                for s2, cur in self.getattr(s, b, t.attr, t, fr):
                    if isinstance(cur, Raised):
                        fin(s2, cur)
                        continue
                    if isinstance(cur, Obj) and self.is_list(cur) and op == "Add":
                        r = self.hooks.call(self, s2, ".extend", cur, [v], {}, node)
                        for s3, r in (r if r is not None else self.list_method(s2, cur, "extend", [v], node, fr) or []):
                            fin(s3, r)
                        continue
                    for s3, r in self.binop(s2, op, cur, v, node, fr):
                        for s4, q in self.setattr(s3, b, t.attr, r, t, fr):
                            fin(s4, q)
        elif isinstance(t, ast.Subscript):
            for s, vals in self.evs([t.value, t.slice, node.value], st, fr):
                if isinstance(vals, Raised):
                    fin(s, vals)
                    continue
                b, k, v = vals
                for s2, cur in self.getitem(s, b, k, t, fr):
                    if isinstance(cur, Raised):
                        fin(s2, cur)
                        continue
                    for s3, r in self.binop(s2, op, cur, v, node, fr):
                        for s4, q in self.setitem(s3, b, k, r, t, fr):
                            fin(s4, q)
        return out

    def ex_Delete(self, node, st, fr):
        cur = [(st, NEXT)]
        for t in node.targets:
            nxt = []
            for s, o in cur:
                if o != NEXT:
                    nxt.append((s, o))
                elif isinstance(t, ast.Name):
                    e = self.find_env(fr.env, t.id)
                    s.vars.pop((e, t.id), None)
                    nxt.append((s, NEXT))
                elif isinstance(t, ast.Subscript):
                    for s2, vals in self.evs([t.value, t.slice], s, fr):
                        if isinstance(vals, Raised):
                            nxt.append((s2, ("raise", vals.exc)))
                        else:
                            for s3, r in self.delitem(s2, vals[0], vals[1], t, fr):
                                nxt.append((s3, ("raise", r.exc) if isinstance(r, Raised) else NEXT))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s, fr):
                        if isinstance(b, Raised):
                            nxt.append((s2, ("raise", b.exc)))
                        else:
                            r = self.hooks.setattr(self, s2, b, t.attr, None, t)
                            s2.heap.pop((b, t.attr), None)
                            nxt.append((s2, NEXT))
                elif isinstance(t, ast.Tuple):
                    nxt.append((s, NEXT))
            cur = nxt
        return cur

    def ex_If(self, node, st, fr):
        out = []
        for s, b in self.cond(node.test, st, fr):
            if isinstance(b, Raised):
                out.append((s, ("raise", b.exc)))
            else:
                out.extend(self.exec_block(node.body if b else node.orelse, s, fr))
        return out

    def ex_While(self, node, st, fr):
        def step(s):
            out = []
            for s2, b in self.cond(node.test, s, fr):
                if isinstance(b, Raised):
                    out.append((s2, ("raise", b.exc)))
                elif not b:
                    out.append((s2, EXHAUST))
                else:
                    for s3, o in self.exec_block(node.body, s2, fr):
                        out.append((s3, LOOP if o in (NEXT, CONTINUE) else o))
            return out
        return self.after_loop(self.fixpoint(st, step, node, fr), node, fr)

    def after_loop(self, exits, node, fr):
        out = []
        for s, o in exits:
            if o == EXHAUST:
                out.extend(self.exec_block(node.orelse, s, fr) if node.orelse else [(s, NEXT)])
            elif o == BREAK:
                out.append((s, NEXT))
            else:
                out.append((s, o))
        return out

    def ex_For(self, node, st, fr):
        out = []
        def body(s, v):
            res = []
            for s2, r in self.assign(node.target, v, s, fr):
                if r is not None:
                    res.append((s2, ("raise", r.exc)))
                else:
                    res.extend(self.exec_block(node.body, s2, fr))
            return res
        for s, itv in self.ev(node.iter, st, fr):
            if isinstance(itv, Raised):
                out.append((s, ("raise", itv.exc)))
                continue
            out.extend(self.after_loop(self.iterate(s, itv, body, node, fr), node, fr))
        return out

    def handler_names(self, h):
        if h.type is None:
            return [None]
        if isinstance(h.type, ast.Tuple):
            return [(model.dotted(e) or "?").split(".")[-1] for e in h.type.elts]
        return [(model.dotted(h.type) or "?").split(".")[-1]]

    def ex_Try(self, node, st, fr):
        names = [n for h in node.handlers for n in self.handler_names(h)]
        if names:
            fr.catching.append(names)
        try:
            res = self.exec_block(node.body, st, fr)
        finally:
            if names:
                fr.catching.pop()
        mid = []
        for s, o in res:
            if o == NEXT and node.orelse:
                mid.extend(self.exec_block(node.orelse, s, fr))
            elif o[0] == "raise":
                pending = [s]
                e = o[1]
                for h in node.handlers:
                    nxt = []
                    for s2 in pending:
                        ms = [exc_matches(e.name, n) for n in self.handler_names(h)]
                        if any(m is True for m in ms):
                            m = True
                        elif any(m is None for m in ms):
                            m = None
                        else:
                            m = False
                        if m is not False:
                            s3 = s2.copy()
                            k = ("exc", len(self.stack))
                            old = s3.vars.get(k)
                            s3.vars[k] = e
                            if h.name:
                                self.store(s3, fr, h.name, e)
                            for s4, o2 in self.exec_block(h.body, s3, fr):
                                if old is None:
                                    s4.vars.pop(k, None)
                                else:
                                    s4.vars[k] = old
                                mid.append((s4, o2))
                        if m is not True:
                            nxt.append(s2)
                    pending = nxt
                mid.extend((s2, o) for s2 in pending)
            else:
                mid.append((s, o))
        if not node.finalbody:
            return mid
        out = []
        for s, o in mid:
            for s2, o2 in self.exec_block(node.finalbody, s, fr):
                out.append((s2, o if o2 == NEXT else o2))
        return out

    def ex_With(self, node, st, fr):
        return self.with_items(node.items, node, st, fr)

    def with_items(self, items, node, st, fr):
        if not items:
            return self.exec_block(node.body, st, fr)
        item = items[0]
        out = []
        for s, v in self.ev(item.context_expr, st, fr):
            if isinstance(v, Raised):
                out.append((s, ("raise", v.exc)))
                continue
            out.extend(self.with_value(v, item, items[1:], node, s, fr))
        return out

    def with_value(self, v, item, rest, node, st, fr):
        def inner(s, val):
            if item.optional_vars is not None:
                res = []
                for s2, r in self.assign(item.optional_vars, val, s, fr):
                    if r is not None:
                        res.append((s2, ("raise", r.exc)))
                    else:
                        res.extend(self.with_items(rest, node, s2, fr))
                return res
            return self.with_items(rest, node, s, fr)
        out = []
        if isinstance(v, Term) and v.op == "ctxmgr":
            g = v.args[0]
            saved = self.stack[:]
            results = []
            def on_yield(s, val):
                cur = self.stack[:]
                self.stack[:] = saved
                try:
                    r = inner(s, val)
                finally:
                    self.stack[:] = cur
                res = []
                for s2, o in r:
                    if o == NEXT:
                        res.append((s2, NEXT))
                    else:
                        res.append((s2, o))
                return res
            for s, r in self.run_ctx(st, g, on_yield, node):
                out.append((s, r))
            return out
        c = self.clsof(st, v)
        if isinstance(c, model.Class) and c.find_method("__enter__"):
            en, ex = c.find_method("__enter__"), c.find_method("__exit__")
            for s, val in self.call_fn(st, FnV(en, None, v, en.cls), [], {}, node, fr):
                if isinstance(val, Raised):
                    out.append((s, ("raise", val.exc)))
                    continue
                for s2, o in inner(s, val):
                    if o[0] == "raise":
                        args = [T("exc", o[1]), o[1], self.fresh("tb")]
                        s2.facts[("truth", args[0])] = True
                        s2.facts[("isnone", args[0])] = False
                    else:
                        args = [NONE, NONE, NONE]
                    for s3, r in self.call_fn(s2, FnV(ex, None, v, ex.cls), args, {}, node, fr):
                        if isinstance(r, Raised):
                            out.append((s3, ("raise", r.exc)))
                        elif o[0] == "raise":
                            for s4, b in self.truth(s3, r, node):
                                out.append((s4, NEXT if b else o))
                        else:
                            out.append((s3, o))
            return out
        r = self.hooks.enter(self, st, v, item.context_expr)
        if r is not None:
            st = r
        for s, o in inner(st, T("entered", v if isinstance(v, (Term, V)) else self.fresh())):
            r = self.hooks.leave(self, s, v, o[1] if o[0] == "raise" else None, item.context_expr)
            out.append((r if r is not None else s, o))
        return out

    def run_ctx(self, st, g, on_yield, node):
        out = []
        for s, v in self.run_fn(st, g.fn, dict(g.bound), node, self.ctx_yield(on_yield)):
            if isinstance(v, Raised):
                e = v.exc
                if e.payload is not None and isinstance(e.payload, tuple):
                    out.append((s, e.payload))
                else:
                    out.append((s, ("raise", e)))
            else:
                out.append((s, NEXT))
        return out

    def ctx_yield(self, on_yield):
        # do_yield wraps non-NEXT outcomes in GeneratorExit with the outcome as payload;
        # an exception of the body is raised at the yield by contextlib.
        def f(s, v):
            return on_yield(s, v)
        f.ctx = True
        return f


# ------------------------------------------------------------------ loops


class Loop:
    """Solve one loop by widening and a Houdini style search for invariants."""
    MAX_HEADS = 24

    def __init__(self, it, st0, step, node, fr):
        self.lost = set()
        self.it, self.st0, self.step, self.node, self.fr = it, st0, step, node, fr
        self.W = {}            # key -> set of shapes seen
        self.forced = set()    # keys that are always widened to a term

    def names_needed(self):
        return None

    def key_live(self, k, st0_keys):
        return True

    def shape(self, k, v):
        if k in self.forced:
            return "any" if not isinstance(v, Lin) else "int"
        if v is None:
            return "unbound"
        if isinstance(v, Lin):
            return "int"
        if isinstance(v, Const):
            return v if (not isinstance(v.v, str) or len(v.v) < 20) else "term"
        if isinstance(v, Tup):
            if len(v.items) <= 4 or v.nt:
                return ("tup", v.nt and v.nt.name, tuple(self.shape(k, x) for x in v.items))
            return "term"
        if isinstance(v, Term):
            return v if v.op == "stable" else "term"
        if isinstance(v, (FnV, ClsV, NTV, ModV, ExtV, BM)):
            return v
        if isinstance(v, Obj):
            return v
        return v

    def widen(self, k, v, path=()):
        if v is None:
            return None
        if k in self.forced and not isinstance(v, Lin):
            return T("havoc", self.id, k, path, "any")
        if isinstance(v, Lin):
            return sym(T("havoc", self.id, k, path))
        if isinstance(v, Tup) and (len(v.items) <= 4 or v.nt):
            return Tup([self.widen(k, x, path + (i,)) for i, x in enumerate(v.items)], v.nt)
        if isinstance(v, Term) and v.op != "stable" or (isinstance(v, Const) and isinstance(v.v, str) and len(v.v) >= 20):
            return T("havoc", self.id, k, path, "t")
        return v

    def references(self, s, o, live):
        """How often an object is referred to (by what lives at the loop head)."""
        n = 0
        def count(v):
            if v == o:
                return 1
            if isinstance(v, Tup):
                return sum(map(count, v.items))
            if isinstance(v, Term):
                return sum(count(a) for a in v.args if isinstance(a, (V, Term, tuple)))
            if isinstance(v, tuple):
                return sum(count(a) for a in v if isinstance(a, (V, Term, tuple)))
            if isinstance(v, (BM, GenV, IterV, FnV, SuperV)):
                return 2 if repr(o) in repr(v) else 0
            return 0
        for k, v in s.vars.items():
            if isinstance(k[0], int) and k not in self.st0.vars and ("vars", k) not in self.W:
                continue        # a variable of the loop body
            if isinstance(k[0], int) and k[0] == self.fr.env and live is not None and k[1] not in live:
                continue
            n += count(v)
        for k, v in s.heap.items():
            if k[0] != o:
                n += count(v)
        return n

    def project(self, s):
        """The loop head state for a state arriving at the head."""
        live = self.live_names()
        h = s.copy()
        h.cons = self.st0.cons
        h.facts = dict(self.st0.facts)
        for k in self.lost:
            h.facts.pop(k, None)
        h.trace = self.st0.trace
        if s.trace[:len(self.st0.trace)] != self.st0.trace or len(s.trace) > len(self.st0.trace):
            h.trace = self.st0.trace + ((getattr(self.node, "lineno", 0), "again"),) if s is not self.st0 else self.st0.trace
        h.unk = self.st0.unk
        pk = []
        mapping = {}
        self.tmap = {}
        def walk(w, v):
            if isinstance(w, Lin) and isinstance(v, Lin):
                if len(w.c) == 1:
                    mapping[w.c[0][0]] = v
            elif isinstance(w, Term) and w.op == "havoc":
                self.tmap[w] = v
            elif isinstance(w, Tup) and isinstance(v, Tup):
                for a, b in zip(w.items, v.items):
                    walk(a, b)
        fresh = {}
        for dname in ("vars", "heap"):
            d = getattr(h, dname)
            for k in list(d):
                kk = (dname, k)
                if kk in self.W:
                    v = d[k]
                    if dname == "vars" and isinstance(v, Obj) and v.cls == "list" and kk not in self.forced:
                        # a list that is made in every iteration and has no other reference
                        x = self.it.exact_items(s, v)
                        if x is not None and len(x) <= 4 and self.references(s, v, live) == 1:
                            o = fresh[kk] = Obj(("list", self.id, k), "list", "list")
                            w = self.widen(kk, Tup(x))
                            pk.append((kk, ("list", self.shape(kk, Tup(x)))))
                            d[k] = o
                            walk(w, Tup(x))
                            fresh[kk] = (o, v, w)
                            continue
                    w = self.widen(kk, v)
                    pk.append((kk, self.shape(kk, v)))
                    d[k] = w
                    walk(w, v)
                elif k not in getattr(self.st0, dname):
                    if dname == "vars" and isinstance(k[0], int) or dname == "heap":
                        del d[k]
        for o, v, w in fresh.values():
            for k in [k for k in h.heap if k[0] == v]:
                del h.heap[k]
            h.heap[(o, "#val")] = w
            h.heap[(o, "#len")] = num(len(w.items))
        # versions
        for k in list(h.ver):
            if ("ver", k) in self.W:
                h.ver[k] = ("w", self.id)
        key = (frozenset(pk), frozenset(h.auto.items()))
        return key, h, mapping

    def live_names(self):
        """Variable names of the current function that matter at the loop head or after it."""
        node = self.node
        func = self.fr.func
        if func is None or not hasattr(node, "lineno") or not isinstance(node, (ast.For, ast.While)):
            return None
        cache = getattr(func, "_live", None)
        if cache is None:
            cache = func._live = {}
        if id(node) in cache:
            return cache[id(node)]
        lv = getattr(func, "_liveness", None)
        if lv is None:
            lv = func._liveness = live.Live(func.node)
        res = cache[id(node)] = lv.head.get(id(node))
        return res

    def candidates(self, h, mapping):
        """Candidate invariants (Lin >= 0) over the widened symbols."""
        xs = [sym(s) for s in mapping]
        refs = []
        seen = set()
        def addref(l):
            if isinstance(l, Lin) and l not in seen and len(l.c) <= 2 and not mentions(l, self.id):
                seen.add(l)
                refs.append(l)
        addref(num(0))
        for s, v in mapping.items():
            addref(v)
        for d in (self.st0.vars, h.vars):
            for k, v in d.items():
                if isinstance(v, Lin):
                    addref(v)
        for k, v in h.heap.items():
            if isinstance(v, Lin):
                addref(v)
        for c in self.st0.cons:
            for s, _ in c.c:
                if isinstance(s, Term) and s.op in ("len", "in", "attr", "fresh"):
                    addref(sym(s))
        for l in getattr(self.it.hooks, "extra_refs", ()):
            addref(l)
        refs = refs[:24]
        out = []
        for x in xs:
            for r in refs + [y for y in xs if y is not x]:
                d = x - r
                if d.const:
                    continue
                for c in (0, -1, 1):
                    out.append(d + c)
                    out.append(-d + c)
        m0 = getattr(self, "m0", None)
        if m0 is None:
            m0 = self.m0 = dict(mapping) if h.trace == self.st0.trace else {}
        own = set(mapping)
        ms = []
        for a, va in mapping.items():
            if a in m0:
                va = m0[a]
            elif mentions(va, self.id):
                continue
            ms.append((a, va))
        ms = ms[:9]
        for i in range(len(ms)):
            for j in range(i + 1, len(ms)):
                (a, va), (b, vb) = ms[i], ms[j]
                for sg in (1, -1):
                    l = sym(a) + sym(b).scale(sg) - (va + vb.scale(sg))
                    out.append(l)
                    out.append(-l)
                for k in range(j + 1, len(ms) if getattr(self.it.hooks, "triples", True) else 0):
                    c, vc = ms[k]
                    for s1 in (1, -1):
                        for s2 in (1, -1):
                            l = sym(a) + sym(b).scale(s1) + sym(c).scale(s2) - (va + vb.scale(s1) + vc.scale(s2))
                            out.append(l)
                            out.append(-l)
        for f in getattr(self.it.hooks, "extra_candidates", ()):
            out.extend(f(self.it, self.st0, h, mapping))
        return out

    def solve(self):
        it = self.it
        self.id = ("L", next(it.counter))
        self.reduced = {}
        if getattr(it.hooks, "seed_widening", False):
            # what changed when this loop was solved before will change again
            self.W.update(it.widened.setdefault(id(self.node), {}))
        live = self.live_names()
        st0 = self.st0
        preds = dict(getattr(it.hooks, "preds", None) or {})
        preds["#true"] = lambda it, s, v: isinstance(v, Term) and s.facts.get(("truth", v)) is True
        preds["#nn"] = lambda it, s, v: isinstance(v, Term) and s.facts.get(("isnone", v)) is False
        std = {"#true": ("truth", True), "#nn": ("isnone", False)}
        it.quiet += 1
        try:
            for round_ in range(40):
                heads = {}      # pk -> [state, inv set, mapping-of-first]
                self.m0 = None
                restart = False
                work = []
                def arrive(s):
                    gone = [k for k, v in self.st0.facts.items() if k not in self.lost and s.facts.get(k) != v]
                    if gone:
                        # what held before the loop does not hold after an iteration
                        self.lost.update(gone)
                        return True
                    pk, h, m = self.project(s)
                    if preds:
                        held = set()
                        for w, v in self.tmap.items():
                            for name, p in preds.items():
                                if p(it, s, v):
                                    held.add(("pred", name, w))
                        if pk in heads:
                            old = set(k for k in heads[pk][0].facts if k[0] == "pred" and k[2] in self.tmap)
                            lost = old - held
                            if lost:
                                for k in lost:
                                    del heads[pk][0].facts[k]
                                    if k[1] in std:
                                        heads[pk][0].facts.pop((std[k[1]][0], k[2]), None)
                                if pk not in work:
                                    work.append(pk)
                        else:
                            for k in held:
                                h.facts[k] = True
                                if k[1] in std:
                                    h.facts[(std[k[1]][0], k[2])] = std[k[1]][1]
                    if pk not in heads:
                        inv = set()
                        for c in dict.fromkeys(self.candidates(h, m)):
                            if s.entails(c.subst(m)):
                                inv.add(c)
                        heads[pk] = [h, inv]
                        work.append(pk)
                    else:
                        inv = heads[pk][1]
                        if any(not s.entails(c.subst(m)) for c in self.reduce(inv)):
                            bad = [c for c in inv if not s.entails(c.subst(m))]
                            inv.difference_update(bad)
                            if pk not in work:
                                work.append(pk)
                        old = heads[pk][0]
                        # merge versions / heap objects that differ
                        if old.ver != h.ver:
                            for k in set(old.ver) | set(h.ver):
                                if old.ver.get(k) != h.ver.get(k) and ("ver", k) not in self.W:
                                    self.W[("ver", k)] = True
                                    return True
                    return False
                arrive(st0)
                n = 0
                while work and not restart:
                    n += 1
                    if n > 5 * (getattr(it.hooks, "max_heads", None) or self.MAX_HEADS):
                        raise Budget("loop at line {} does not stabilise".format(getattr(self.node, "lineno", "?")))
                    pk = work.pop(0)
                    h, inv = heads[pk]
                    s = h.copy()
                    s.cons = s.cons | self.reduce(inv)
                    for s2, o in self.step(s):
                        if o != LOOP:
                            continue
                        it.tick()
                        # find changed keys that are not widened
                        for dname in ("vars", "heap"):
                            d0, d1 = getattr(h, dname), getattr(s2, dname)
                            for k, v in d1.items():
                                kk = (dname, k)
                                if kk in self.W:
                                    continue
                                if k in d0:
                                    if d0[k] != v:
                                        if dname == "vars" and isinstance(k[0], int) and live is not None \
                                                and k[0] == self.fr.env and k[1] not in live:
                                            continue
                                        self.W[kk] = True
                                        restart = True
                                elif dname == "vars" and isinstance(k[0], int) and k[0] == self.fr.env:
                                    if live is None or k[1] in live:
                                        self.W[kk] = True
                                        restart = True
                                elif dname == "heap" and (k[0] in self.objs_of(h)):
                                    self.W[kk] = True
                                    restart = True
                                elif dname == "vars" and not isinstance(k[0], int):
                                    self.W[kk] = True
                                    restart = True
                        for k in set(s2.ver) | set(h.ver):
                            if s2.ver.get(k) != h.ver.get(k) and ("ver", k) not in self.W:
                                self.W[("ver", k)] = True
                                restart = True
                        if restart:
                            continue    # collect what else changes
                        if arrive(s2):
                            restart = True
                            continue
                        if len(heads) > (getattr(it.hooks, "max_heads", None) or self.MAX_HEADS):
                            # too many shapes: force the key with most shapes
                            cnt = {}
                            for p in heads:
                                for kk, sh in p[0]:
                                    cnt.setdefault(kk, set()).add(sh)
                            kk = max(cnt, key=lambda x: (len(cnt[x]), repr(x))) if cnt else None
                            if os.environ.get("PA_HEADS"):
                                print("HEADS line", getattr(self.node, "lineno", "?"), {k: v for k, v in cnt.items() if len(v) > 1})
                            if kk is None or kk in self.forced or len(cnt[kk]) < 2:
                                raise Budget("too many states in loop at line {}".format(getattr(self.node, "lineno", "?")))
                            self.forced.add(kk)
                            restart = True
                            break
                if not restart:
                    break
            else:
                raise Budget("loop at line {} does not stabilise".format(getattr(self.node, "lineno", "?")))
        finally:
            it.quiet -= 1
        if getattr(it.hooks, "seed_widening", False):
            it.widened[id(self.node)].update(self.W)
        exits = []
        for pk, (h, inv) in heads.items():
            s = h.copy()
            s.cons = s.cons | self.reduce(inv)
            for s2, o in self.step(s):
                if o != LOOP:
                    exits.append((s2, o))
        return it.dedupe(exits)

    def reduce(self, inv):
        """The invariants without those that follow from others."""
        key = frozenset(inv)
        r = self.reduced.get(key)
        if r is None:
            best = {}
            for l in inv:
                o = best.get(l.c)
                if o is None or l.k < o.k:
                    best[l.c] = l
            small = frozenset(l for l in best.values() if len(l.c) <= 2)
            r = self.reduced[key] = small | frozenset(l for l in best.values() if len(l.c) > 2 and not lin_entails(small, l))
        return r

    def objs_of(self, h):
        r = getattr(h, "_x", None)
        return set(k[0] for k in h.heap)
