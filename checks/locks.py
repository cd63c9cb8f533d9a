"""Locks of an object: which are held, and obligations about them."""
import ast
from pa.interp import *
from pa import model


def lock_attrs(cls):
    """{attribute: kind} of the locks created in the methods of the class."""
    out = {}
    for c in cls.mro():
        if not isinstance(c, model.Class):
            continue
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                    name = ast.unparse(n.value.func).split(".")[-1]
                    if name in ("Lock", "RLock", "Condition"):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                out[t.attr] = name
    return out


class Locks(Hooks):
    """Ghost ("held", lock): how often the lock is held (0 or 1)."""
    locks = {}
    rule = "lock"

    def lock_of(self, v):
        return v.args[0] if isinstance(v, Term) and v.op == "lock" else None

    def held(self, st, name):
        v = st.g("held " + name)
        return 0 if v is None else int(v.k)

    def init_locks(self, st):
        for n in self.locks:
            st.setg("held " + n, num(0))

    def fn(self, it):
        for f in reversed(it.stack):
            if f.func is not None:
                return f.func

    def acquired(self, it, st, name, node):
        h = self.held(st, name)
        if h and self.locks[name] == "Lock":
            it.oblige(self.rule, False, node, self.fn(it), st, "the lock {} is acquired while it is held: deadlock".format(name))
        else:
            it.oblige(self.rule, True, node, self.fn(it), st)
        st.setg("held " + name, num(h + 1))
        self.on_acquire(it, st, name, node)

    def released(self, it, st, name, node):
        h = self.held(st, name)
        it.oblige(self.rule, h > 0, node, self.fn(it), st, "the lock {} is released without being held".format(name))
        self.on_release(it, st, name, node)
        st.setg("held " + name, num(max(0, h - 1)))

    def on_acquire(self, it, st, name, node):
        pass

    def on_release(self, it, st, name, node):
        pass

    def lock_attr(self, base, name):
        if base == self.me and name in self.locks:
            return T("lock", name)

    def lock_call(self, it, st, label, recv, args, node):
        n = self.lock_of(recv)
        if n is not None:
            if label == ".acquire":
                self.acquired(it, st, n, node)
                return [(st, TRUE)]
            if label == ".release":
                self.released(it, st, n, node)
                return [(st, NONE)]

    def enter(self, it, st, val, node):
        n = self.lock_of(val)
        if n is not None:
            st = st.copy()
            self.acquired(it, st, n, node)
            return st

    def leave(self, it, st, val, exc, node):
        n = self.lock_of(val)
        if n is not None:
            st = st.copy()
            self.released(it, st, n, node)
            return st

    def none_held(self, it, st, node, what):
        hs = [n for n in self.locks if self.held(st, n)]
        it.oblige(self.rule, not hs, node, self.fn(it), st, "{} while {} is held".format(what, ", ".join(hs)))
