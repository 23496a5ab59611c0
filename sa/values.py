"""Abstract values of the interpreter.

Concrete Python constants (None, bool, int, float, str, bytes, tuple of values) stand for
themselves.  Everything unknown is a `Sym`: an uninterpreted term that only records where the
value comes from (its provenance).  Heap objects are allocation-site objects with identity.
"""
from __future__ import annotations


class Sym:
    __slots__ = ("op", "args", "hint", "uid")

    def __init__(self, op, args, hint, uid):
        self.op = op
        self.args = args
        self.hint = hint  # 'int' | 'str' | 'bool' | 'atom' | 'hash'
        self.uid = uid

    def __repr__(self):
        if self.op == "var":
            return str(self.args[0])
        if self.op == "lin":
            terms, const = self.args
            out = []
            for t, c in terms:
                out.append(("+" if c > 0 else "-") + (str(abs(c)) + "*" if abs(c) != 1 else "") + repr(t))
            s = "".join(out)
            if s.startswith("+"):
                s = s[1:]
            if const:
                s += f"{const:+d}"
            return "(" + s + ")"
        return f"{self.op}({', '.join(map(short, self.args))})"


class Heap:
    """Base class of mutable heap objects."""

    __slots__ = ("frozen", "label", "site", "seq")

    def __init__(self):
        self.frozen = None
        self.label = None
        self.site = None
        self.seq = 0


class ListV(Heap):
    __slots__ = ("items",)

    def __init__(self, items=None):
        super().__init__()
        self.items = items if items is not None else []

    def __repr__(self):
        return "[" + ", ".join(short(x) for x in self.items) + "]"


class DictV(Heap):
    """Insertion ordered dict; keys compared abstractly when not constant."""

    __slots__ = ("entries", "fast", "kind", "factory")

    def __init__(self, kind="dict", factory=None):
        super().__init__()
        self.entries = []  # list of [key, value]
        self.kind = kind  # 'dict' | 'OrderedDict' | 'defaultdict'
        self.factory = factory

    def __repr__(self):
        return "{" + ", ".join(f"{short(k)}: {short(v)}" for k, v in self.entries) + "}"


class SetV(Heap):
    __slots__ = ("items", "frozenset")

    def __init__(self, items=None, frozenset=False):
        super().__init__()
        self.items = items if items is not None else []
        self.frozenset = frozenset

    def __repr__(self):
        return "set(" + ", ".join(short(x) for x in self.items) + ")"


class Obj(Heap):
    __slots__ = ("cls", "attrs", "payload", "extra")

    def __init__(self, cls, payload=None):
        super().__init__()
        self.cls = cls
        self.attrs = {}
        self.payload = payload
        self.extra = None

    def __repr__(self):
        lab = self.label or ""
        if self.payload is not None:
            return f"<{self.cls.name} {lab} {short(self.payload)}>"
        if "start" in self.attrs and "end" in self.attrs:
            return f"<{self.cls.name} {lab}({short(self.attrs['start'])}, {short(self.attrs['end'])})>"
        return f"<{self.cls.name} {lab}>"


class ClassV(Heap):
    __slots__ = ("name", "bases", "ns", "mro", "module", "node", "builtin_base", "is_dataclass", "is_typeddict",
                 "annotations", "dc_frozen", "native", "nt_fields")

    def __init__(self, name, bases, ns, module=None, node=None):
        super().__init__()
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.is_dataclass = False
        self.is_typeddict = False
        self.dc_frozen = False
        self.annotations = {}
        self.native = None  # for builtin classes: constructor callable(interp, args, kwargs)
        self.nt_fields = None
        self.mro = self._c3()

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class FuncV(Heap):
    __slots__ = ("name", "qualname", "node", "env", "module", "defaults", "kw_defaults", "defcls", "is_gen",
                 "locals", "attrs", "params")

    def __repr__(self):
        return f"<function {self.qualname}>"


class NativeV(Heap):
    """A function implemented by the analyser (model of a builtin or library function)."""

    __slots__ = ("name", "fn", "attrs", "is_method", "argnames")

    def __init__(self, name, fn, is_method=False, argnames=None):
        super().__init__()
        self.name = name
        self.fn = fn  # fn(interp, args, kwargs)
        self.is_method = is_method
        self.attrs = {}
        self.argnames = argnames

    def __repr__(self):
        return f"<native {self.name}>"


class BoundV:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return f"<bound {self.func!r}>"


class PropertyV:
    __slots__ = ("fget", "fset", "fdel")

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel


class CachedPropertyV:
    __slots__ = ("fget", "name")

    def __init__(self, fget):
        self.fget = fget
        self.name = fget.name if hasattr(fget, "name") else "?"


class StaticV:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassMethodV:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ModuleV(Heap):
    __slots__ = ("name", "ns", "path", "loader", "package")

    def __init__(self, name, path=None, package=""):
        super().__init__()
        self.name = name
        self.ns = {}
        self.path = path
        self.loader = None
        self.package = package

    def __repr__(self):
        return f"<module {self.name}>"


class IterV:
    """An iterator (wraps a python generator of abstract values)."""

    __slots__ = ("gen", "kind", "frame", "done", "started")

    def __init__(self, gen, kind="iterator", frame=None):
        self.gen = gen
        self.kind = kind  # 'generator' or 'iterator'
        self.frame = frame
        self.done = False

    def __repr__(self):
        return f"<{self.kind}>"


class RangeV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f"range({short(self.start)}, {short(self.stop)}, {short(self.step)})"


class ViewV:
    __slots__ = ("dict", "kind")

    def __init__(self, d, kind):
        self.dict = d
        self.kind = kind

    def __repr__(self):
        return f"<dict {self.kind} {self.dict!r}>"


class AliasV:
    """Generic alias (list[int]) and unions (int | None)."""

    __slots__ = ("origin", "args")

    def __init__(self, origin, args):
        self.origin = origin
        self.args = args

    def __repr__(self):
        return f"{self.origin!r}[{', '.join(map(short, self.args))}]"


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class PartialV:
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Unsupported(Exception):
    """The analysis cannot follow this construct: the path is left undecided."""


class Infeasible(Exception):
    """This path cannot happen (or is beyond the expansion bound)."""

    def __init__(self, why="assume"):
        super().__init__(why)
        self.why = why


class PyExc(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, value, site=None):
        super().__init__(repr(value))
        self.value = value
        self.site = site


def short(v, n=60):
    s = repr(v)
    return s if len(s) <= n else s[: n - 3] + "..."
