"""Models of the Python builtins and of the library modules the package uses."""
from __future__ import annotations

import builtins
import ast
import itertools as _it
import re as _re

from .values import (AliasV, BoundV, CachedPropertyV, ClassMethodV, ClassV, DictV, FuncV, Heap, Infeasible, IterV,
                     ListV, ModuleV, NativeV, Obj, PartialV, PropertyV, PyExc, RangeV, SetV, StaticV, SuperV, Sym,
                     Unsupported, ViewV, short)

CONST = (int, float, str, bytes, bool, type(None), complex)

EXCEPTIONS = {
    "BaseException": "object", "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "GeneratorExit": "BaseException", "StopIteration": "Exception",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError", "OSError": "Exception",
    "Warning": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning",
}


for _name in dir(builtins):
    _cls = getattr(builtins, _name)
    if isinstance(_cls, type) and issubclass(_cls, BaseException) and _cls.__name__ == _name and len(_cls.__bases__) == 1:
        EXCEPTIONS.setdefault(_name, _cls.__base__.__name__)
_order = {}


def _add(name):
    if name not in _order and name != "object":
        _add(EXCEPTIONS[name])
        _order[name] = EXCEPTIONS[name]


for _name in EXCEPTIONS:
    _add(_name)
EXCEPTIONS = _order


def install(ip):
    return Builtins(ip)


def _is_const(v):
    if isinstance(v, tuple):
        return all(_is_const(x) for x in v)
    return isinstance(v, CONST)


class Builtins:
    def __init__(self, ip):
        self.ip = ip
        self.builtins = {}
        self.entry_hook = None
        self.ids = {}
        self.iter_limit = None
        self.undecided = []
        self._classes()
        self._functions()
        self._lib = {}

    # ------------------------------------------------------------------ class table
    def _cls(self, name, bases=("object",), native=None):
        c = ClassV(name, [self.builtins[b] for b in bases], {})
        c.native = native
        self.builtins[name] = c
        return c

    def _classes(self):
        b = self.builtins
        obj = ClassV("object", [], {})
        obj.native = lambda ip, a, k: ip.new(Obj(obj))
        b["object"] = obj
        typ = self._cls("type", native=self._type)
        self._cls("int", native=self._int)
        self._cls("bool", ("int",), native=lambda ip, a, k: self.truth(a[0]) if a else False)
        self._cls("float", native=self._float)
        self._cls("complex", native=self._unsupported("complex"))
        self._cls("str", native=lambda ip, a, k: self.str(a[0]) if a else "")
        self._cls("bytes", native=self._unsupported("bytes"))
        self._cls("tuple", native=lambda ip, a, k: tuple(self.iterate(a[0])) if a else ())
        self._cls("list", native=lambda ip, a, k: ip.list(list(self.iterate(a[0])) if a else []))
        self._cls("dict", native=lambda ip, a, k: self._mkdict("dict", a, k))
        self._cls("set", native=lambda ip, a, k: self._mkset(a, False))
        self._cls("frozenset", native=lambda ip, a, k: self._mkset(a, True))
        self._cls("slice", native=lambda ip, a, k: slice(*a))
        self._cls("range", native=self._range)
        self._cls("NoneType")
        self._cls("ellipsis")
        self._cls("NotImplementedType")
        self._cls("function")
        self._cls("method")
        self._cls("module")
        self._cls("generator")
        self._cls("iterator")
        self._cls("dict_keys")
        self._cls("dict_values")
        self._cls("dict_items")
        self._cls("GenericAlias")
        self._cls("UnionType")
        self._cls("TypeVar")
        self._cls("unknown")
        self._cls("enumerate", native=self._enumerate)
        self._cls("zip", native=self._zip)
        self._cls("map", native=self._map)
        self._cls("filter", native=self._filter)
        self._cls("reversed", native=self._reversed)
        self._cls("property", native=lambda ip, a, k: PropertyV(*(a + [None] * (3 - len(a)))))
        self._cls("staticmethod", native=lambda ip, a, k: StaticV(a[0]))
        self._cls("classmethod", native=lambda ip, a, k: ClassMethodV(a[0]))
        self._cls("super", native=lambda ip, a, k: SuperV(a[0], a[1]))
        self._cls("OrderedDict", ("dict",), native=lambda ip, a, k: self._mkdict("OrderedDict", a, k))
        self._cls("defaultdict", ("dict",), native=self._defaultdict)
        for n, p in EXCEPTIONS.items():
            c = ClassV(n, [b[p]], {})
            b[n] = c
        b["IOError"] = b["OSError"]

        def exc_init(ip, a, k):
            a[0].attrs["args"] = tuple(a[1:])

        b["BaseException"].ns["__init__"] = NativeV("__init__", exc_init, True)
        b["BaseException"].ns["__str__"] = NativeV("__str__", lambda ip, a, k: self.str(a[0].attrs["args"][0])
                                                   if len(a[0].attrs.get("args", ())) == 1 else "", True)
        b["BaseException"].ns["with_traceback"] = NativeV("with_traceback", lambda ip, a, k: a[0], True)
        self.generic = ClassV("Generic", [obj], {})
        self.typing_typeddict = ClassV("TypedDict", [obj], {})
        self.typing_namedtuple = ClassV("NamedTuple", [obj], {})
        self.abcmeta = ClassV("ABCMeta", [typ], {})

        def M(cls, name, fn):
            b[cls].ns[name] = NativeV(name, fn, True)

        def nop(ip, a, k):
            return None

        M("object", "__init__", self._object_init)
        M("object", "__eq__", lambda ip, a, k: True if a[0] is a[1] else NotImplemented)
        M("object", "__ne__", lambda ip, a, k: (lambda r: r if r is NotImplemented else not self.truth(r))(
            ip.call(ip.getattr(a[0], "__eq__"), [a[1]], {})))
        M("object", "__hash__", lambda ip, a, k: ip.intern("hash", (("id", self.ident(a[0])),), "hash"))
        M("object", "__repr__", lambda ip, a, k: ip.intern("repr", (a[0],), "str"))
        M("object", "__str__", lambda ip, a, k: self.repr(a[0]))
        M("object", "__setattr__", lambda ip, a, k: ip.setattr_raw(a[0], a[1], a[2]))
        M("object", "__getattribute__", lambda ip, a, k: ip.getattr(a[0], a[1]))
        b["object"].ns["__new__"] = StaticV(NativeV("__new__", self._object_new))
        b["object"].ns["__init_subclass__"] = ClassMethodV(NativeV("__init_subclass__", nop))

        # ---- list
        L = self.L
        M("list", "append", lambda ip, a, k: self._list_mut(a[0], "append", lambda l: l.items.append(a[1])))
        M("list", "extend", lambda ip, a, k: self._list_extend(a[0], a[1]))
        M("list", "insert", self._list_insert)
        M("list", "remove", self._list_remove)
        M("list", "pop", self._list_pop)
        M("list", "clear", lambda ip, a, k: self._list_mut(a[0], "clear", lambda l: l.items.clear()))
        M("list", "reverse", lambda ip, a, k: self._list_mut(a[0], "reverse", lambda l: l.items.reverse()))
        M("list", "copy", lambda ip, a, k: ip.list(list(L(a[0]).items)))
        M("list", "index", self._seq_index)
        M("list", "count", lambda ip, a, k: sum(1 for x in self.seq(a[0]) if self.same_or_eq(x, a[1])))
        M("list", "sort", self._list_sort)
        M("list", "__init__", lambda ip, a, k: self._list_extend(a[0], a[1]) if len(a) > 1 else None)
        M("list", "__contains__", lambda ip, a, k: self.contains(L(a[0]), a[1]))
        M("list", "__len__", lambda ip, a, k: len(L(a[0]).items))
        M("list", "__iter__", lambda ip, a, k: IterV(self.iterate(L(a[0]))))
        M("list", "__reversed__", lambda ip, a, k: IterV(iter(list(reversed(L(a[0]).items)))))
        M("list", "__getitem__", lambda ip, a, k: self.getitem(L(a[0]), a[1]))
        M("list", "__setitem__", lambda ip, a, k: self.setitem(L(a[0]), a[1], a[2]))
        M("list", "__delitem__", lambda ip, a, k: self.delitem(L(a[0]), a[1]))
        M("list", "__repr__", lambda ip, a, k: self.repr(L(a[0])))
        M("list", "__eq__", lambda ip, a, k: self._list_eq(a[0], a[1]))
        M("list", "__add__", lambda ip, a, k: self.binop("Add", L(a[0]), a[1]))
        b["list"].ns["__hash__"] = None
        # ---- tuple
        M("tuple", "index", self._seq_index)
        M("tuple", "count", lambda ip, a, k: sum(1 for x in self.seq(a[0]) if self.same_or_eq(x, a[1])))
        M("tuple", "__iter__", lambda ip, a, k: IterV(self.iterate(a[0])))
        M("tuple", "__len__", lambda ip, a, k: len(self.seq(a[0])))
        M("tuple", "__contains__", lambda ip, a, k: self.contains(a[0], a[1]))
        M("tuple", "__getitem__", lambda ip, a, k: self.getitem(a[0], a[1]))
        # ---- dict
        D = self.D
        M("dict", "get", lambda ip, a, k: self._dict_get(a, k))
        M("dict", "setdefault", self._dict_setdefault)
        M("dict", "pop", self._dict_pop)
        M("dict", "popitem", self._dict_popitem)
        M("dict", "update", self._dict_update)
        M("dict", "clear", lambda ip, a, k: self._dict_clear(a[0]))
        M("dict", "copy", lambda ip, a, k: self._dict_copy(a[0]))
        M("dict", "keys", lambda ip, a, k: ViewV(D(a[0]), "keys"))
        M("dict", "values", lambda ip, a, k: ViewV(D(a[0]), "values"))
        M("dict", "items", lambda ip, a, k: ViewV(D(a[0]), "items"))
        M("dict", "__init__", lambda ip, a, k: self._dict_update(ip, a, k))
        M("dict", "__contains__", lambda ip, a, k: self.dict_find(D(a[0]), a[1]) is not None)
        M("dict", "__len__", lambda ip, a, k: len(D(a[0]).entries))
        M("dict", "__iter__", lambda ip, a, k: IterV(self.iterate(D(a[0]))))
        M("dict", "__getitem__", lambda ip, a, k: self.getitem(D(a[0]), a[1]))
        M("dict", "__setitem__", lambda ip, a, k: self.setitem(D(a[0]), a[1], a[2]))
        M("dict", "__delitem__", lambda ip, a, k: self.delitem(D(a[0]), a[1]))
        M("dict", "__eq__", lambda ip, a, k: self._dict_eq(a[0], a[1]))
        b["dict"].ns["__hash__"] = None
        b["dict"].ns["fromkeys"] = ClassMethodV(NativeV("fromkeys", self._fromkeys))
        M("OrderedDict", "move_to_end", self._move_to_end)
        # ---- dict views
        for v in ("dict_keys", "dict_values", "dict_items"):
            M(v, "__iter__", lambda ip, a, k: IterV(self.iterate(a[0])))
            M(v, "__len__", lambda ip, a, k: len(a[0].dict.entries))
            M(v, "__contains__", lambda ip, a, k: self.contains(a[0], a[1]))
        # ---- set
        for s in ("set", "frozenset"):
            M(s, "__contains__", lambda ip, a, k: self.contains(self.S(a[0]), a[1]))
            M(s, "__iter__", lambda ip, a, k: IterV(self.iterate(self.S(a[0]))))
            M(s, "__len__", lambda ip, a, k: len(self.S(a[0]).items))
            M(s, "union", lambda ip, a, k: self._set_union(a))
            M(s, "intersection", lambda ip, a, k: self._set_inter(a))
            M(s, "difference", lambda ip, a, k: self._set_diff(a))
            M(s, "symmetric_difference", lambda ip, a, k: self.binop("BitXor", self.S(a[0]), self._mkset([a[1]], False)))
            M(s, "issubset", lambda ip, a, k: all(self.contains(a[1], x) for x in self.S(a[0]).items))
            M(s, "issuperset", lambda ip, a, k: all(self.contains(self.S(a[0]), x) for x in self.iterate(a[1])))
            M(s, "isdisjoint", lambda ip, a, k: not any(self.contains(self.S(a[0]), x) for x in self.iterate(a[1])))
            M(s, "copy", lambda ip, a, k: ip.new(SetV(list(self.S(a[0]).items), self.S(a[0]).frozenset)))
        M("set", "add", lambda ip, a, k: self._set_mut(a[0], "add", lambda s: self.set_add(s, a[1])))
        M("set", "discard", lambda ip, a, k: self._set_mut(a[0], "discard", lambda s: self._set_drop(s, a[1], False)))
        M("set", "remove", lambda ip, a, k: self._set_mut(a[0], "remove", lambda s: self._set_drop(s, a[1], True)))
        M("set", "pop", self._set_pop)
        M("set", "clear", lambda ip, a, k: self._set_mut(a[0], "clear", lambda s: s.items.clear()))
        M("set", "update", lambda ip, a, k: self._set_mut(a[0], "update", lambda s: [self.set_add(s, x) for o in a[1:] for x in self.iterate(o)] and None))
        M("set", "difference_update", lambda ip, a, k: self._set_mut(a[0], "difference_update", lambda s: [self._set_drop(s, x, False) for o in a[1:] for x in list(self.iterate(o))] and None))
        M("set", "__init__", lambda ip, a, k: [self.set_add(self.S(a[0]), x) for x in self.iterate(a[1])] and None if len(a) > 1 else None)
        b["set"].ns["__hash__"] = None
        # ---- str
        for n in ("lower", "upper", "casefold", "strip", "lstrip", "rstrip", "title", "capitalize", "swapcase",
                  "replace", "center", "ljust", "rjust", "zfill", "translate", "expandtabs", "removeprefix",
                  "removesuffix"):
            M("str", n, self._str_fn(n))
        M("str", "find", self._str_find)
        M("str", "index", self._str_index)
        M("str", "join", self._str_join)
        M("str", "format", lambda ip, a, k: self.concat([a[0]] + [self.str(x) for x in a[1:]]) if a[1:] or k else a[0])
        M("str", "split", self._str_split)
        M("str", "startswith", self._str_pred("startswith"))
        M("str", "endswith", self._str_pred("endswith"))
        for n in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isidentifier", "isdecimal", "isnumeric"):
            M("str", n, self._str_pred(n))
        M("str", "count", self._str_const("count"))
        M("str", "rfind", self._str_const("rfind"))
        M("str", "partition", self._str_const("partition"))
        M("str", "rpartition", self._str_const("rpartition"))
        M("str", "encode", self._str_const("encode"))
        M("str", "splitlines", self._str_const("splitlines"))
        M("str", "__len__", lambda ip, a, k: self.len(a[0]))
        M("str", "__iter__", lambda ip, a, k: IterV(self.iterate(a[0])))
        M("str", "__contains__", lambda ip, a, k: self.contains(a[0], a[1]))
        M("str", "__getitem__", lambda ip, a, k: self.getitem(a[0], a[1]))
        M("int", "bit_length", lambda ip, a, k: a[0].bit_length())
        M("int", "__index__", lambda ip, a, k: a[0])
        # ---- iterators
        for it in ("generator", "iterator"):
            M(it, "__iter__", lambda ip, a, k: a[0])
            M(it, "__next__", lambda ip, a, k: self._next(ip, a, k))
        M("generator", "close", lambda ip, a, k: a[0].gen.close())
        M("generator", "send", self._gen_send)
        for r in ("range",):
            M(r, "__iter__", lambda ip, a, k: IterV(self.iterate(a[0])))
            M(r, "__len__", lambda ip, a, k: self.len(a[0]))
        M("function", "__get__", lambda ip, a, k: BoundV(a[0], a[1]) if a[1] is not None else a[0])

    # ------------------------------------------------------------------ unwrap
    def L(self, v):
        if isinstance(v, ListV):
            return v
        if isinstance(v, Obj) and isinstance(v.payload, ListV):
            return v.payload
        if isinstance(v, Obj):
            self.ip.throw("TypeError", f"descriptor requires a 'list' object but received {v.cls.name}")
        raise Unsupported(f"list expected: {short(v)}")

    def D(self, v):
        if isinstance(v, DictV):
            return v
        if isinstance(v, Obj) and isinstance(v.payload, DictV):
            return v.payload
        raise Unsupported(f"dict expected: {short(v)}")

    def S(self, v):
        if isinstance(v, SetV):
            return v
        if isinstance(v, Obj) and isinstance(v.payload, SetV):
            return v.payload
        if isinstance(v, ViewV):
            s = self.ip.new(SetV())
            for x in self.iterate(v):
                self.set_add(s, x)
            return s
        raise Unsupported(f"set expected: {short(v)}")

    def frozen_of(self, outer):
        return outer

    def seq(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Obj) and isinstance(v.payload, tuple):
            return list(v.payload)
        if isinstance(v, Obj) and v.cls.nt_fields is not None:
            return [v.attrs[f] for f in v.cls.nt_fields]
        return self.L(v).items

    def _unsupported(self, name):
        def f(ip, a, k):
            raise Unsupported(name)

        return f

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        b = self.builtins
        if isinstance(v, Obj):
            return v.cls
        if v is None:
            return b["NoneType"]
        if isinstance(v, bool):
            return b["bool"]
        if isinstance(v, int):
            return b["int"]
        if isinstance(v, str):
            return b["str"]
        if isinstance(v, float):
            return b["float"]
        if isinstance(v, bytes):
            return b["bytes"]
        if isinstance(v, tuple):
            return b["tuple"]
        if isinstance(v, Sym):
            return {"int": b["int"], "hash": b["int"], "str": b["str"], "bool": b["bool"]}.get(v.hint, b["unknown"])
        if isinstance(v, ListV):
            return b["list"]
        if isinstance(v, DictV):
            return b[v.kind]
        if isinstance(v, SetV):
            return b["frozenset"] if v.frozenset else b["set"]
        if isinstance(v, ClassV):
            return b["type"]
        if isinstance(v, (FuncV, NativeV)):
            return b["function"]
        if isinstance(v, BoundV):
            return b["method"]
        if isinstance(v, ModuleV):
            return b["module"]
        if isinstance(v, IterV):
            return b["generator"] if v.kind == "generator" else b["iterator"]
        if isinstance(v, RangeV):
            return b["range"]
        if isinstance(v, ViewV):
            return b["dict_" + v.kind]
        if isinstance(v, slice):
            return b["slice"]
        if isinstance(v, AliasV):
            return b["UnionType"] if v.origin == "Union" else b["GenericAlias"]
        if v is Ellipsis:
            return b["ellipsis"]
        if v is NotImplemented:
            return b["NotImplementedType"]
        if isinstance(v, PartialV):
            return b["object"]
        return b["object"]

    def isinstance(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance(v, c) for c in cls)
        if isinstance(cls, AliasV):
            if cls.origin == "Union":
                return any(self.isinstance(v, c if c is not None else self.builtins["NoneType"]) for c in cls.args)
            return self.isinstance(v, cls.origin)
        if not isinstance(cls, ClassV):
            if isinstance(v, Sym) or isinstance(cls, Sym):
                return self.ip.facts.decide(("isinstance", v if isinstance(v, Sym) else id(v), cls), "isinstance")
            self.ip.throw("TypeError", "isinstance() arg 2 must be a type")
        return self.issubclass(self.type_of(v), cls, v)

    def issubclass(self, c, cls, v=None):
        if isinstance(cls, tuple):
            return any(self.issubclass(c, x) for x in cls)
        if cls in c.mro:
            return True
        hook = cls.ns.get("\0accepts")
        if hook is not None:
            return hook(c, v)
        return False

    def _type(self, ip, a, k):
        if len(a) == 1:
            return self.type_of(a[0])
        raise Unsupported("type() with 3 arguments")

    def _object_new(self, ip, a, k):
        cls = a[0]
        o = ip.new(Obj(cls))
        for c in cls.mro:
            if c.name == "list" and c.native:
                o.payload = ip.list()
            elif c.name == "dict" and c.native:
                o.payload = ip.new(DictV())
        return o

    def _object_init(self, ip, a, k):
        if len(a) > 1 or k:
            o = a[0]
            if isinstance(o, Obj) and (o.payload is not None or "args" in o.attrs):
                return None
            if isinstance(o, Obj) and isinstance(o.cls.lookup("__new__")[0], FuncV):
                return None
            ip.throw("TypeError", f"{o.cls.name}() takes no arguments")
        return None

    # ------------------------------------------------------------------ truth, equality, order
    def truth(self, v):
        ip = self.ip
        if isinstance(v, Sym):
            if v.hint == "int":
                return not ip.facts.eq_int(v, 0, "truth")
            if v.hint == "str":
                return not self._str_empty(v)
            if v.hint == "hash":
                return True
            return ip.facts.truth(v, "truth")
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, ListV):
            return bool(v.items)
        if isinstance(v, DictV):
            return bool(v.entries)
        if isinstance(v, SetV):
            return bool(v.items)
        if isinstance(v, ViewV):
            return bool(v.dict.entries)
        if isinstance(v, RangeV):
            return self.truth(self.len(v))
        if isinstance(v, Obj):
            m, o = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(ip.call(ip.bind_attr(m, v, v.cls), [], {}))
            m, o = v.cls.lookup("__len__")
            if m is not None:
                n = ip.call(ip.bind_attr(m, v, v.cls), [], {})
                if isinstance(n, int) and n < 0:
                    ip.throw("ValueError", "__len__() should return >= 0")
                if isinstance(n, Sym) and n.hint == "int" and ip.facts.known_lt(n, 0) is not False and self.lt(n, 0):
                    ip.throw("ValueError", "__len__() should return >= 0")
                return self.truth(n)
            if v.payload is not None:
                return self.truth(v.payload)
            return True
        return True

    def _str_empty(self, s):
        n = self.len(s)
        return not self.ip.facts.lt(0, n, "empty") if isinstance(n, Sym) else n == 0

    def eq(self, a, b):
        """truth of a == b"""
        r = self.eq_value(a, b)
        return r if isinstance(r, bool) else self.truth(r)

    def same_or_eq(self, a, b):
        return a is b or self.eq(a, b)

    def _user_eq(self, v, name="__eq__"):
        if isinstance(v, Obj):
            m, o = v.cls.lookup(name)
            if m is not None and o is not self.builtins["object"]:
                if o.native is not None and o.module is None:
                    return None  # builtin container: handled structurally
                return m
            # classes overriding only __eq__ get __ne__ from object
            if name == "__ne__":
                e, o2 = v.cls.lookup("__eq__")
                if isinstance(e, FuncV):
                    return m
        return None

    def eq_value(self, a, b):
        ip = self.ip
        if isinstance(a, Obj) or isinstance(b, Obj):
            ua, ub = self._user_eq(a), self._user_eq(b)
            if ua is not None or ub is not None:
                order = [(ua, a, b), (ub, b, a)]
                if (isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not b.cls and a.cls in b.cls.mro
                        and ub is not None):
                    order.reverse()
                for m, x, y in order:
                    if m is not None:
                        r = ip.call(ip.bind_attr(m, x, x.cls), [y], {})
                        if r is not NotImplemented:
                            return r
                return a is b
            if isinstance(a, Obj) and a.extra is not None and isinstance(b, Obj) and b.extra is not None \
                    and a.cls is b.cls and a.cls.is_dataclass:
                return all(self.same_or_eq(a.attrs[f], b.attrs[f]) for f in a.extra)
            if isinstance(a, Obj) and a.cls.is_dataclass and isinstance(b, Obj) and b.cls is a.cls:
                return all(self.same_or_eq(a.attrs.get(f), b.attrs.get(f)) for f in self.dc_fields(a.cls))
            if isinstance(a, Obj) and a.payload is not None:
                return self.eq_value(a.payload, b)
            if isinstance(b, Obj) and b.payload is not None:
                return self.eq_value(a, b.payload)
            return a is b
        if a is b and not isinstance(a, float):
            return True
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if sa or sb:
            return self._sym_eq(a, b) if sa else self._sym_eq(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same_or_eq(x, y) for x, y in zip(a, b))
        if isinstance(a, CONST) and isinstance(b, CONST):
            return a == b
        if isinstance(a, ListV) and isinstance(b, ListV):
            return len(a.items) == len(b.items) and all(self.same_or_eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, DictV) and isinstance(b, DictV):
            return self._dict_eq(a, b)
        if isinstance(a, (SetV, ViewV)) and isinstance(b, (SetV, ViewV)):
            if isinstance(a, ViewV) and a.kind == "values" or isinstance(b, ViewV) and b.kind == "values":
                return a is b
            ia, ib = self.S(a).items, self.S(b).items
            return len(ia) == len(ib) and all(self._in_items(ib, x) for x in ia)
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return self.eq((a.start, a.stop, a.step), (b.start, b.stop, b.step))
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.func is b.func and a.self is b.self
        if isinstance(a, AliasV) and isinstance(b, AliasV):
            return a.origin is b.origin and self.eq(tuple(a.args), tuple(b.args))
        return a is b

    def _sym_eq(self, s, o):
        ip = self.ip
        if s.hint == "int":
            if isinstance(o, bool):
                o = int(o)
            if isinstance(o, int) or (isinstance(o, Sym) and o.hint == "int"):
                return ip.facts.eq_int(s, o, "==")
            if isinstance(o, Sym) and o.hint == "atom":
                return ip.facts.same(o, s, "==")
            return False
        if s.hint == "hash":
            if isinstance(o, Sym) and o.hint == "hash":
                return self.eq(s.args[0], o.args[0])
            return False
        if s.hint == "str":
            if isinstance(o, str) or isinstance(o, Sym) and o.hint == "str":
                if s is o:
                    return True
                known = self._str_known_eq(s, o)
                if known is not None:
                    return known
                r = ip.facts.known_same(s, o)
                if r is not None:
                    return r
                ls, lo = self.len(s), self.len(o)
                k = ip.facts.known_eq(ls, lo)
                if k is False:
                    return False
                r = ip.facts.same(s, o, "==")
                if r:
                    ip.facts.assume_le(ls, lo)
                    ip.facts.assume_le(lo, ls)
                elif isinstance(o, str) and o == "":
                    ip.facts.assume_le(1, ls)
                return r
            if isinstance(o, Sym) and o.hint == "atom":
                return ip.facts.same(o, s, "==")
            return False
        if s.hint == "bool":
            if isinstance(o, (bool, int)):
                return ip.facts.truth(s, "==") == bool(o)
            if isinstance(o, Sym) and o.hint == "bool":
                return ip.facts.truth(s, "==") == ip.facts.truth(o, "==")
            return False
        # atom: an opaque value
        if isinstance(o, Sym) or isinstance(o, (int, str, float)):
            return ip.facts.same(s, o, "==")
        return False

    def _rep(self, x):
        """what stands for an unknown text: the constant it is known to be, or the first slice known to be the same"""
        f = self.ip.facts
        if not isinstance(x, Sym):
            return x
        r = f.find(x)
        if r in f.const_of and isinstance(f.const_of[r], str):
            return f.const_of[r]
        if x.op != "slice":
            return x
        for y in f.slices:
            if y is x or y.args[0] is x.args[0] and f.known_eq(y.args[1], x.args[1]) and f.known_eq(y.args[2], x.args[2]):
                return y
        f.slices.append(x)
        return x

    def _str_known_eq(self, a, b):
        # slices of one string with the same bounds are equal
        if isinstance(b, Sym) and a.op == "slice" and b.op == "slice" and a.args[0] is b.args[0]:
            f = self.ip.facts
            x = f.known_eq(a.args[1], b.args[1])
            y = f.known_eq(a.args[2], b.args[2])
            if x and y:
                return True
        if isinstance(b, Sym) and a.op == b.op == "lower" and self.ip.facts.known_same(a.args[0], b.args[0]):
            return True
        return None

    def lt(self, a, b):
        """truth of a < b"""
        ip = self.ip
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self._rich(a, b, "__lt__", "__gt__")
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.same_or_eq(x, y):
                    return self.lt(x, y)
            return len(a) < len(b)
        if isinstance(a, ListV) and isinstance(b, ListV):
            return self.lt(tuple(a.items), tuple(b.items))
        if isinstance(a, (SetV, ViewV)) and isinstance(b, (SetV, ViewV)):
            ia, ib = self.S(a).items, self.S(b).items
            return len(ia) < len(ib) and all(self._in_items(ib, x) for x in ia)
        ia = isinstance(a, int) or isinstance(a, Sym) and a.hint == "int"
        ib = isinstance(b, int) or isinstance(b, Sym) and b.hint == "int"
        if ia and ib:
            return ip.facts.lt(a, b, "<")
        if isinstance(a, CONST) and isinstance(b, CONST):
            try:
                return a < b
            except TypeError as e:
                ip.throw("TypeError", str(e))
        sa = isinstance(a, str) or isinstance(a, Sym) and a.hint == "str"
        sb = isinstance(b, str) or isinstance(b, Sym) and b.hint == "str"
        if sa and sb:
            if ip.facts.known_same(a, b) if isinstance(a, Sym) else (ip.facts.known_same(b, a) if isinstance(b, Sym) else None):
                return False
            return ip.facts.lt(ip.intern("ord", (a,), "int"), ip.intern("ord", (b,), "int"), "<")
        if isinstance(a, Sym) and isinstance(b, Sym) and a.hint == b.hint == "atom":
            return ip.facts.lt(ip.intern("ord", (a,), "int"), ip.intern("ord", (b,), "int"), "<")
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is None or b is None:
                ip.throw("TypeError", "'<' not supported")
            raise Unsupported(f"order of {short(a)} and {short(b)}")
        ip.throw("TypeError", f"'<' not supported between {short(a)} and {short(b)}")

    def _rich(self, a, b, op, rop):
        r = self.rich_value(a, b, op, rop)
        return r if isinstance(r, bool) else self.truth(r)

    def rich_value(self, a, b, op, rop):
        ip = self.ip
        for x, y, n in ((a, b, op), (b, a, rop)):
            if isinstance(x, Obj):
                m, o = x.cls.lookup(n)
                if m is not None:
                    r = ip.call(ip.bind_attr(m, x, x.cls), [y], {})
                    if r is not NotImplemented:
                        return r
        pa = a.payload if isinstance(a, Obj) else a
        pb = b.payload if isinstance(b, Obj) else b
        if pa is not None and pb is not None and (pa is not a or pb is not b):
            if op == "__lt__":
                return self.lt(pa, pb)
            if op == "__gt__":
                return self.lt(pb, pa)
        ip.throw("TypeError", f"{op} not supported between {short(a)} and {short(b)}")

    def compare(self, op, a, b):
        ip = self.ip
        if op == "Is":
            return self.identical(a, b)
        if op == "IsNot":
            return not self.identical(a, b)
        if op == "Eq":
            return self.eq_value(a, b)
        if op == "NotEq":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    m, o = x.cls.lookup("__ne__")
                    if m is not None and o is not self.builtins["object"] and o.module is not None:
                        r = ip.call(ip.bind_attr(m, x, x.cls), [y], {})
                        if r is not NotImplemented:
                            return r
            return not self.eq(a, b)
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return not self.contains(b, a)
        if isinstance(a, Obj) or isinstance(b, Obj):
            n, r = {"Lt": ("__lt__", "__gt__"), "Gt": ("__gt__", "__lt__"), "LtE": ("__le__", "__ge__"),
                    "GtE": ("__ge__", "__le__")}[op]
            return self.rich_value(a, b, n, r)
        if isinstance(a, (SetV, ViewV)) and op in ("LtE", "GtE"):
            x, y = (a, b) if op == "LtE" else (b, a)
            return all(self._in_items(self.S(y).items, i) for i in self.S(x).items)
        if op == "Lt":
            return self.lt(a, b)
        if op == "Gt":
            return self.lt(b, a)
        if op == "LtE":
            return not self.lt(b, a)
        if op == "GtE":
            return not self.lt(a, b)
        raise Unsupported(op)

    def identical(self, a, b):
        if isinstance(a, Heap) or isinstance(b, Heap):
            return a is b
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.hint == "bool" or b.hint == "bool":
                return self.eq(a, b)
            return a is b
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if s.hint == "bool" and isinstance(o, bool):
                return self.eq(s, o)
            return False
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return a is b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return False
        return a is b

    # ------------------------------------------------------------------ hashing
    def ident(self, o):
        """a number standing for id(o); its order is arbitrary, and reversed in 'rev' mode"""
        n = self.ids.get(id(o))
        if n is None:
            n = (len(self.ids) + 1, o)
            self.ids[id(o)] = n
        return n[0]

    def hashed(self, v):
        """hash of v as a comparable payload; raises TypeError for unhashable values"""
        ip = self.ip
        if isinstance(v, (ListV, DictV)) or isinstance(v, SetV) and not v.frozenset:
            ip.throw("TypeError", f"unhashable type: '{self.type_of(v).name}'")
        if isinstance(v, tuple):
            return tuple(self.hashed(x) for x in v)
        if isinstance(v, Obj):
            h, ho = v.cls.lookup("__hash__")
            e, eo = v.cls.lookup("__eq__")
            mro = v.cls.mro
            if eo is not None and ho is not None and eo is not ho and mro.index(eo) < mro.index(ho):
                if v.cls.is_dataclass and v.cls.dc_frozen:
                    return ("dc",) + tuple(self.hashed(v.attrs[f]) for f in self.dc_fields(v.cls))
                ip.throw("TypeError", f"unhashable type: '{v.cls.name}'")
            if v.cls.is_dataclass and not isinstance(h, FuncV):
                if v.cls.dc_frozen:
                    return ("dc",) + tuple(self.hashed(v.attrs[f]) for f in self.dc_fields(v.cls))
                ip.throw("TypeError", f"unhashable type: '{v.cls.name}'")
            if h is None:
                ip.throw("TypeError", f"unhashable type: '{v.cls.name}'")
            if isinstance(h, FuncV):
                r = ip.call(BoundV(h, v), [], {})
                return r
            return ("id", self.ident(v))
        if isinstance(v, Heap):
            return ("id", self.ident(v))
        return v

    def key_eq(self, a, b):
        """are a and b the same dict / set key"""
        if a is b:
            return True
        if _is_const(a) and _is_const(b):
            return a == b
        if isinstance(a, Obj) or isinstance(b, Obj):
            if self._user_eq(a) is None and self._user_eq(b) is None and not (
                    isinstance(a, Obj) and a.cls.is_dataclass):
                if isinstance(a, Obj) and isinstance(a.payload, tuple) or isinstance(b, Obj) and isinstance(b.payload, tuple):
                    return self.eq(a, b)
                return False
            if not self.eq(self.hashed(a), self.hashed(b)):
                return False
            return self.eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.key_eq(x, y) for x, y in zip(a, b))
        return self.eq(a, b)

    # ------------------------------------------------------------------ dicts
    def dict_find(self, d, key):
        if isinstance(key, (ListV, DictV)) or isinstance(key, SetV) and not key.frozenset:
            self.ip.throw("TypeError", f"unhashable type: '{self.type_of(key).name}'")
        if isinstance(key, Obj):
            self.hashed(key)
        for e in d.entries:
            if e[0] is key or (type(e[0]) is str and type(key) is str and e[0] == key):
                return e
        for e in d.entries:
            if self.key_eq(e[0], key):
                return e
        return None

    def dict_set(self, d, key, value):
        e = self.dict_find(d, key)
        if e is not None:
            e[1] = value
        else:
            d.entries.append([key, value])

    def _touch(self, outer, op, detail=None):
        self.ip.mutate(outer, op, detail)
        if isinstance(outer, Obj) and outer.payload is not None and isinstance(outer.payload, Heap):
            if outer.frozen is None:
                self.ip.mutate(outer.payload, op, detail)

    def _mkdict(self, kind, a, k):
        d = self.ip.new(DictV(kind))
        if a:
            for kk, vv in self.mapping_items(a[0]):
                self.dict_set(d, kk, vv)
        for kk, vv in k.items():
            self.dict_set(d, kk, vv)
        return d

    def _defaultdict(self, ip, a, k):
        d = self._mkdict("defaultdict", a[1:], k)
        d.factory = a[0] if a else None
        return d

    def mapping_items(self, v):
        ip = self.ip
        if isinstance(v, DictV):
            return [(e[0], e[1]) for e in v.entries]
        if isinstance(v, Obj) and isinstance(v.payload, DictV):
            return [(e[0], e[1]) for e in v.payload.entries]
        if isinstance(v, Obj) and ip.hasattr(v, "keys"):
            return [(x, ip.getitem(v, x)) for x in self.iterate(ip.call(ip.getattr(v, "keys"), [], {}))]
        if isinstance(v, (ListV, tuple, IterV, ViewV)):
            out = []
            for x in self.iterate(v):
                p = list(self.iterate(x))
                if len(p) != 2:
                    ip.throw("ValueError", "dictionary update sequence element has wrong length")
                out.append((p[0], p[1]))
            return out
        if v is None or isinstance(v, CONST):
            ip.throw("TypeError", f"{short(v)} is not a mapping")
        raise Unsupported(f"mapping {short(v)}")

    def _dict_get(self, a, k):
        e = self.dict_find(self.D(a[0]), a[1])
        return e[1] if e is not None else (a[2] if len(a) > 2 else k.get("default"))

    def _dict_setdefault(self, ip, a, k):
        d = self.D(a[0])
        e = self.dict_find(d, a[1])
        if e is not None:
            return e[1]
        v = a[2] if len(a) > 2 else k.get("default")
        self._touch(a[0], "setdefault", short(a[1]))
        d.entries.append([a[1], v])
        return v

    def _dict_pop(self, ip, a, k):
        d = self.D(a[0])
        e = self.dict_find(d, a[1])
        if e is None:
            if len(a) > 2:
                return a[2]
            ip.throw("KeyError", a[1])
        self._touch(a[0], "pop", short(a[1]))
        d.entries = [x for x in d.entries if x is not e]
        return e[1]

    def _dict_popitem(self, ip, a, k):
        d = self.D(a[0])
        if not d.entries:
            ip.throw("KeyError", "popitem(): dictionary is empty")
        self._touch(a[0], "popitem")
        last = a[1] if len(a) > 1 else k.get("last", True)
        e = d.entries.pop(-1 if self.truth(last) else 0)
        return (e[0], e[1])

    def _dict_update(self, ip, a, k):
        d = self.D(a[0])
        src = self.mapping_items(a[1]) if len(a) > 1 else []
        src = src + list(k.items())
        if src:
            self._touch(a[0], "update", short(src[0][0]))
        for kk, vv in src:
            self.dict_set(d, kk, vv)

    def _dict_clear(self, o):
        d = self.D(o)
        self._touch(o, "clear")
        d.entries.clear()

    def _dict_copy(self, o):
        d = self.D(o)
        n = self.ip.new(DictV(d.kind, d.factory))
        n.entries = [[x, y] for x, y in d.entries]
        return n

    def _dict_eq(self, a, b):
        if not isinstance(a, (DictV, Obj)) or not isinstance(b, (DictV, Obj)):
            return NotImplemented
        a, b = self.D(a), self.D(b)
        if len(a.entries) != len(b.entries):
            return False
        for k, v in a.entries:
            e = self.dict_find(b, k)
            if e is None or not self.same_or_eq(v, e[1]):
                return False
        return True

    def _fromkeys(self, ip, a, k):
        d = ip.new(DictV())
        for x in self.iterate(a[1]):
            self.dict_set(d, x, a[2] if len(a) > 2 else None)
        return d

    def _move_to_end(self, ip, a, k):
        d = self.D(a[0])
        e = self.dict_find(d, a[1])
        if e is None:
            ip.throw("KeyError", a[1])
        last = a[2] if len(a) > 2 else k.get("last", True)
        self._touch(a[0], "move_to_end")
        d.entries = [x for x in d.entries if x is not e]
        d.entries.insert(len(d.entries) if self.truth(last) else 0, e)

    # ------------------------------------------------------------------ lists
    def _list_mut(self, o, op, fn):
        l = self.L(o)
        self._touch(o, op)
        fn(l)

    def _list_extend(self, o, src):
        l = self.L(o)
        if o is src:
            src = self.ip.list(list(l.items))
        items = self.iterate(src)
        first = True
        for x in items:
            if first:
                self._touch(o, "extend")
                first = False
            l.items.append(x)
        if first and isinstance(o, Heap) and o.frozen is not None:
            # extending with nothing changes nothing
            pass

    def _cint(self, v):
        """an integer usable as a concrete position"""
        if isinstance(v, Sym):
            raise Unsupported(f"unknown position {short(v)}")
        return v

    def _list_insert(self, ip, a, k):
        l = self.L(a[0])
        i = a[1]
        self._touch(a[0], "insert")
        if isinstance(i, Sym):
            n = len(l.items)
            for j in range(n):
                if self.eq(i, j):
                    i = j
                    break
            else:
                i = n if not self.lt(i, 0) else 0
        l.items.insert(i, a[2])

    def _list_remove(self, ip, a, k):
        l = self.L(a[0])
        for i, x in enumerate(l.items):
            if self.same_or_eq(x, a[1]):
                self._touch(a[0], "remove")
                del l.items[i]
                return None
        ip.throw("ValueError", "list.remove(x): x not in list")

    def _list_pop(self, ip, a, k):
        l = self.L(a[0])
        i = self._cint(a[1] if len(a) > 1 else -1)
        if not -len(l.items) <= i < len(l.items):
            ip.throw("IndexError", "pop index out of range")
        self._touch(a[0], "pop")
        return l.items.pop(i)

    def _seq_index(self, ip, a, k):
        items = self.seq(a[0])
        start = a[2] if len(a) > 2 else 0
        for i, x in enumerate(items):
            if i >= start and self.same_or_eq(x, a[1]):
                return i
        ip.throw("ValueError", f"{short(a[1])} is not in list")

    def _list_eq(self, a, b):
        if not isinstance(b, (ListV, Obj)) or isinstance(b, Obj) and not isinstance(b.payload, ListV):
            return NotImplemented
        return self.eq_value(self.L(a), self.L(b))

    def sort_items(self, items, key=None, reverse=False):
        ip = self.ip
        keys = [ip.call(key, [x], {}) for x in items] if key is not None else list(items)
        pairs = list(zip(keys, items))
        if reverse:
            pairs.reverse()
        if all(_is_const(p[0]) for p in pairs):
            try:
                pairs.sort(key=lambda p: p[0])
            except TypeError as e:
                ip.throw("TypeError", str(e))
        else:
            out = []
            for p in pairs:
                j = len(out)
                while j > 0 and self.lt(p[0], out[j - 1][0]):
                    j -= 1
                out.insert(j, p)
            pairs = out
        if reverse:
            pairs.reverse()
        return [p[1] for p in pairs]

    def _list_sort(self, ip, a, k):
        l = self.L(a[0])
        self._touch(a[0], "sort")
        l.items[:] = self.sort_items(list(l.items), k.get("key"), self.truth(k.get("reverse", False)))

    # ------------------------------------------------------------------ sets
    def _mkset(self, a, frozen):
        s = self.ip.new(SetV(frozenset=frozen))
        if a:
            for x in self.iterate(a[0]):
                self.set_add(s, x)
        return s

    def _in_items(self, items, x):
        for y in items:
            if y is x or (type(y) is str and type(x) is str and x == y):
                return True
        return any(self.key_eq(y, x) for y in items)

    def set_add(self, s, x):
        self.hashed(x)
        if not self._in_items(s.items, x):
            s.items.append(x)

    def _set_drop(self, s, x, must):
        for i, y in enumerate(s.items):
            if self.key_eq(y, x):
                del s.items[i]
                return None
        if must:
            self.ip.throw("KeyError", x)
        return None

    def _set_mut(self, o, op, fn):
        s = self.S(o)
        self._touch(o, op)
        fn(s)

    def _set_pop(self, ip, a, k):
        s = self.S(a[0])
        if not s.items:
            ip.throw("KeyError", "pop from an empty set")
        self._touch(a[0], "pop")
        items = self.set_order(s)
        x = items[0]
        s.items = [y for y in s.items if y is not x]
        return x

    def set_order(self, s):
        items = list(s.items)
        if len(items) < 2:
            return items
        self.ip.event("set-iteration", s)
        mode = self.ip.set_mode
        if mode == "fork":
            mode = "fwd" if self.ip.choose(2, "set order") == 0 else "rev"
        if mode == "rev":
            items.reverse()
        return items

    def _set_union(self, a):
        s = self.ip.new(SetV(list(self.S(a[0]).items)))
        for o in a[1:]:
            for x in self.iterate(o):
                self.set_add(s, x)
        return s

    def _set_inter(self, a):
        s = self.ip.new(SetV())
        for x in self.S(a[0]).items:
            if all(self.contains(o, x) for o in a[1:]):
                s.items.append(x)
        return s

    def _set_diff(self, a):
        s = self.ip.new(SetV())
        others = [list(self.iterate(o)) for o in a[1:]]
        for x in self.S(a[0]).items:
            if not any(self._in_items(o, x) for o in others):
                s.items.append(x)
        return s

    # ------------------------------------------------------------------ length, membership, items
    def len(self, v):
        ip = self.ip
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, ListV):
            return len(v.items)
        if isinstance(v, DictV):
            return len(v.entries)
        if isinstance(v, SetV):
            return len(v.items)
        if isinstance(v, ViewV):
            return len(v.dict.entries)
        if isinstance(v, RangeV):
            if v.step == 1:
                d = self.binop("Sub", v.stop, v.start)
                return d if not self.lt(d, 0) else 0
            raise Unsupported("len(range)")
        if isinstance(v, Sym) and v.hint == "str":
            if v.op == "slice":
                s, a, b = v.args
                f = ip.facts
                return f.add(b, a, -1)
            if v.op == "join" or v.op == "concat":
                tot = 0
                for p in v.args:
                    tot = ip.facts.add(tot, self.len(p))
                return tot
            return ip.intern("len", (v,), "int")
        if isinstance(v, Obj):
            m, o = v.cls.lookup("__len__")
            if m is not None:
                n = ip.call(ip.bind_attr(m, v, v.cls), [], {})
                if isinstance(n, int) and not isinstance(n, bool) and n < 0:
                    ip.throw("ValueError", "__len__() should return >= 0")
                if isinstance(n, Sym) and n.hint == "int":
                    if ip.facts.known_lt(n, 0) is not False:
                        if self.lt(n, 0):
                            ip.throw("ValueError", "__len__() should return >= 0")
                return n
            if v.payload is not None:
                return self.len(v.payload)
            if v.cls.nt_fields is not None:
                return len(v.cls.nt_fields)
        if isinstance(v, Sym):
            raise Unsupported(f"len of unknown {short(v)}")
        ip.throw("TypeError", f"object of type {self.type_of(v).name} has no len()")

    def contains(self, c, x):
        ip = self.ip
        if isinstance(c, (tuple, ListV)):
            items = c if isinstance(c, tuple) else c.items
            return any(self.same_or_eq(y, x) for y in list(items))
        if isinstance(c, DictV):
            return self.dict_find(c, x) is not None
        if isinstance(c, SetV):
            self.hashed(x)
            return self._in_items(c.items, x)
        if isinstance(c, ViewV):
            if c.kind == "keys":
                return self.dict_find(c.dict, x) is not None
            return any(self.same_or_eq(y, x) for y in self.iterate(c))
        if isinstance(c, RangeV):
            if not (isinstance(x, int) or isinstance(x, Sym) and x.hint == "int"):
                return False
            if c.step == 1:
                return not self.lt(x, c.start) and self.lt(x, c.stop)
            return any(self.eq(y, x) for y in self.iterate(c))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, str) or isinstance(c, Sym) and c.hint == "str":
            if not (isinstance(x, str) or isinstance(x, Sym) and x.hint == "str"):
                ip.throw("TypeError", "'in <string>' requires string as left operand")
            x = self._rep(x)
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if c == "" or x == "":
                return self.eq(x, c) if c == "" else True
            if x is c or isinstance(x, Sym) and x.op == "slice" and x.args[0] is c:
                return True
            return ip.facts.decide(("in", x if not isinstance(x, Sym) else x.uid, c if not isinstance(c, Sym) else c.uid), "in")
        if isinstance(c, Obj):
            m, o = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth(ip.call(ip.bind_attr(m, c, c.cls), [x], {}))
            return any(self.same_or_eq(y, x) for y in self.iterate(c))
        if isinstance(c, IterV):
            return any(self.same_or_eq(y, x) for y in self.iterate(c))
        if isinstance(c, Sym) and c.hint == "atom":
            return ip.facts.decide(("in", x.uid if isinstance(x, Sym) else ("v", id(x) if isinstance(x, Heap) else x), c.uid), "in")
        ip.throw("TypeError", f"argument of type {self.type_of(c).name} is not iterable")

    def iterate(self, v):
        """python generator over the elements of an abstract iterable"""
        ip = self.ip
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, ListV):
            return self._iter_list(v)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, DictV):
            return self._iter_dict(v, "keys")
        if isinstance(v, ViewV):
            return self._iter_dict(v.dict, v.kind)
        if isinstance(v, SetV):
            return self._iter_set(v)
        if isinstance(v, IterV):
            return self._iter_iter(v)
        if isinstance(v, RangeV):
            return self._iter_range(v)
        if isinstance(v, Obj):
            m, o = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(ip.call(ip.bind_attr(m, v, v.cls), [], {}))
            if v.cls.lookup("__next__")[0] is not None:
                return self._iter_next(v)
            if v.payload is not None:
                return self.iterate(v.payload)
            if v.cls.nt_fields is not None:
                return iter([v.attrs[f] for f in v.cls.nt_fields])
            m, o = v.cls.lookup("__getitem__")
            if m is not None:
                return self._iter_getitem(v)
        if isinstance(v, Sym):
            if v.hint == "str":
                return self._iter_str(v)
            if v.hint == "atom":
                raise Unsupported(f"iteration over unknown {short(v)}")
        if isinstance(v, ClassV):
            raise Unsupported("iteration over class")
        ip.throw("TypeError", f"'{self.type_of(v).name}' object is not iterable")

    def _iter_list(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def _iter_dict(self, d, kind):
        n = len(d.entries)
        i = 0
        while i < len(d.entries):
            e = d.entries[i]
            yield e[0] if kind == "keys" else e[1] if kind == "values" else (e[0], e[1])
            if len(d.entries) != n:
                self.ip.throw("RuntimeError", "dictionary changed size during iteration")
            i += 1

    def _iter_set(self, s):
        n = len(s.items)
        for x in self.set_order(s):
            yield x
            if len(s.items) != n:
                self.ip.throw("RuntimeError", "Set changed size during iteration")

    def _iter_iter(self, it):
        while True:
            try:
                x = self.ip.next_of(it)
            except StopIteration:
                return
            yield x

    def _iter_next(self, o):
        ip = self.ip
        while True:
            try:
                x = ip.call(ip.getattr(o, "__next__"), [], {})
            except PyExc as e:
                if self.builtins["StopIteration"] in e.value.cls.mro:
                    return
                raise
            yield x

    def _iter_getitem(self, o):
        ip = self.ip
        i = 0
        while True:
            try:
                x = ip.getitem(o, i)
            except PyExc as e:
                if self.builtins["IndexError"] in e.value.cls.mro:
                    return
                raise
            yield x
            i += 1

    def _iter_str(self, s):
        n = self.len(s)
        i = 0
        splits = 0
        while True:
            if self.ip.facts.known_lt(i, n) is None:
                splits += 1
            if not self.lt(i, n):
                return
            if splits > self.ip.k or i > 200:
                raise Infeasible("expansion bound: characters")
            yield self.getitem(s, i)
            i += 1

    def _iter_range(self, r):
        a, b, st = r.start, r.stop, r.step
        if isinstance(a, int) and isinstance(b, int) and isinstance(st, int):
            yield from range(a, b, st)
            return
        if isinstance(st, Sym) or st == 0:
            raise Unsupported("range step")
        n = 0
        limit = self.iter_limit or self.ip.k
        total = 0
        while True:
            x, y = (a, b) if st > 0 else (b, a)
            if self.ip.facts.known_lt(x, y) is None:
                n += 1
            if not self.lt(x, y):
                return
            if n > limit or total > 200:
                raise Infeasible("expansion bound: range")
            yield a
            a = self.binop("Add", a, st)
            total += 1

    # ------------------------------------------------------------------ subscripts
    def _index(self, i, n):
        """concrete position of an unknown index in a sequence of n elements"""
        ip = self.ip
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if not -n <= i < n:
                ip.throw("IndexError", "list index out of range")
            return i
        if isinstance(i, Sym) and i.hint == "int":
            for j in range(n):
                if self.eq(i, j):
                    return j
            for j in range(-n, 0):
                if self.eq(i, j):
                    return j
            ip.throw("IndexError", "list index out of range")
        if isinstance(i, Obj):
            m, o = i.cls.lookup("__index__")
            if m is not None:
                return self._index(ip.call(ip.bind_attr(m, i, i.cls), [], {}), n)
        if isinstance(i, Sym):
            raise Unsupported("unknown index")
        ip.throw("TypeError", f"list indices must be integers or slices, not {self.type_of(i).name}")

    def _slice(self, s, n):
        out = []
        for x in (s.start, s.stop, s.step):
            if isinstance(x, Sym):
                for j in range(-n, n + 1):
                    if self.eq(x, j):
                        x = j
                        break
                else:
                    x = (-n - 1) if self.lt(x, 0) else n + 1
            out.append(x)
        return slice(*out)

    def getitem(self, o, i):
        ip = self.ip
        if isinstance(o, Obj):
            m, ow = o.cls.lookup("__getitem__")
            if m is not None and (ow.module is not None or ow.native is None):
                return ip.call(ip.bind_attr(m, o, o.cls), [i], {})
            if o.payload is not None:
                return self.getitem(o.payload, i)
            if o.cls.nt_fields is not None:
                return self.getitem(tuple(o.attrs[f] for f in o.cls.nt_fields), i)
            ip.throw("TypeError", f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, (tuple, ListV)):
            items = o if isinstance(o, tuple) else o.items
            if isinstance(i, slice):
                r = items[self._slice(i, len(items))]
                return r if isinstance(o, tuple) else ip.list(r)
            return items[self._index(i, len(items))]
        if isinstance(o, DictV):
            e = self.dict_find(o, i)
            if e is not None:
                return e[1]
            if o.kind == "defaultdict" and o.factory is not None:
                v = ip.call(o.factory, [], {})
                ip.mutate(o, "defaultdict item creation", short(i))
                o.entries.append([i, v])
                return v
            ip.throw("KeyError", i)
        if isinstance(o, str) or isinstance(o, Sym) and o.hint == "str":
            return self._str_getitem(o, i)
        if isinstance(o, ClassV):
            m, ow = o.lookup("__class_getitem__")
            if m is not None:
                return ip.call(ip.bind_attr(m, o, o), [i], {}) if not isinstance(m, ClassMethodV) else ip.call(BoundV(m.func, o), [i], {})
            return AliasV(o, i if isinstance(i, tuple) else (i,))
        if isinstance(o, AliasV):
            return o
        if isinstance(o, NativeV):
            return AliasV(o, i if isinstance(i, tuple) else (i,))
        if isinstance(o, RangeV):
            if isinstance(i, int) and i >= 0:
                v = self.binop("Add", o.start, i * o.step)
                if self.contains(o, v):
                    return v
                ip.throw("IndexError", "range object index out of range")
            return self.getitem(tuple(self.iterate(o)), i)
        if isinstance(o, Sym):
            raise Unsupported(f"subscript of unknown {short(o)}")
        ip.throw("TypeError", f"'{self.type_of(o).name}' object is not subscriptable")

    def _str_getitem(self, s, i):
        ip = self.ip
        if isinstance(s, str):
            if isinstance(i, slice) and all(not isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
                return s[i]
            if isinstance(i, int):
                if not -len(s) <= i < len(s):
                    ip.throw("IndexError", "string index out of range")
                return s[i]
        n = self.len(s)
        f = ip.facts
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("string step")
            a = 0 if i.start is None else i.start
            b = n if i.stop is None else i.stop
            if not all(isinstance(x, int) or isinstance(x, Sym) and x.hint == "int" for x in (a, b)):
                ip.throw("TypeError", "slice indices must be integers or None")
            a = self._clip(a, n)
            b = self._clip(b, n)
            if f.known_lt(b, a) is None and f.known_lt(a, b) is None and f.known_eq(a, b) is None:
                if f.lt(b, a, "slice"):
                    return ""
            elif f.known_lt(b, a):
                return ""
            if f.known_eq(a, b):
                return ""
            if f.known_eq(a, 0) and f.known_eq(b, n):
                return s
            if isinstance(s, Sym) and s.op == "slice":
                base, o, _ = s.args
                return self._mkslice(base, f.add(o, a), f.add(o, b))
            return self._mkslice(s, a, b)
        if not (isinstance(i, int) or isinstance(i, Sym) and i.hint == "int"):
            ip.throw("TypeError", "string indices must be integers")
        if f.known_lt(i, 0) is None:
            neg = f.lt(i, 0, "index")
        else:
            neg = f.known_lt(i, 0)
        if neg:
            i = f.add(i, n)
            if f.lt(i, 0, "index"):
                ip.throw("IndexError", "string index out of range")
        elif not f.lt(i, n, "index"):
            ip.throw("IndexError", "string index out of range")
        if isinstance(s, Sym) and f.known_eq(n, 1):
            return s
        if isinstance(s, Sym) and s.op == "slice":
            i = f.add(s.args[1], i)
            s = s.args[0]
        if isinstance(s, Sym) and s.op == "join" and isinstance(i, int):
            pos = 0
            for p in s.args:
                if pos == i and self.len(p) == 1:
                    return p
                pos += self.len(p) if isinstance(self.len(p), int) else 10 ** 9
        # a character is a slice of one character
        return self._mkslice(s, i, f.add(i, 1))

    def _mkslice(self, s, a, b):
        return self.ip.intern("slice", (s, a, b), "str")

    def _clip(self, x, n):
        f = self.ip.facts
        k = f.known_lt(x, 0)
        if k is None:
            k = f.lt(x, 0, "slice bound")
        if k:
            x = f.add(x, n)
            if f.lt(x, 0, "slice bound"):
                return 0
            return x
        k = f.known_lt(n, x)
        if k is None:
            k = f.lt(n, x, "slice bound")
        return n if k else x

    def setitem(self, o, i, v):
        ip = self.ip
        if isinstance(o, Obj):
            m, ow = o.cls.lookup("__setitem__")
            if m is not None and (ow.module is not None or ow.native is None):
                ip.call(ip.bind_attr(m, o, o.cls), [i, v], {})
                return
            if o.payload is not None:
                if o.frozen is not None:
                    ip.mutate(o, "item assignment", short(i))
                self.setitem(o.payload, i, v)
                return
            ip.throw("TypeError", f"'{o.cls.name}' object does not support item assignment")
        if isinstance(o, ListV):
            if isinstance(i, slice):
                vals = list(self.iterate(v))
                ip.mutate(o, "slice assignment")
                try:
                    o.items[self._slice(i, len(o.items))] = vals
                except ValueError as e:
                    ip.throw("ValueError", str(e))
                return
            j = self._index(i, len(o.items))
            ip.mutate(o, "item assignment", short(i))
            o.items[j] = v
            return
        if isinstance(o, DictV):
            ip.mutate(o, "item assignment", short(i))
            self.dict_set(o, i, v)
            return
        if isinstance(o, Sym):
            raise Unsupported("item assignment to unknown")
        ip.throw("TypeError", f"'{self.type_of(o).name}' object does not support item assignment")

    def delitem(self, o, i):
        ip = self.ip
        if isinstance(o, Obj):
            m, ow = o.cls.lookup("__delitem__")
            if m is not None and (ow.module is not None or ow.native is None):
                ip.call(ip.bind_attr(m, o, o.cls), [i], {})
                return
            if o.payload is not None:
                if o.frozen is not None:
                    ip.mutate(o, "item deletion", short(i))
                self.delitem(o.payload, i)
                return
        if isinstance(o, ListV):
            if isinstance(i, slice):
                ip.mutate(o, "slice deletion")
                del o.items[self._slice(i, len(o.items))]
                return
            j = self._index(i, len(o.items))
            ip.mutate(o, "item deletion", short(i))
            del o.items[j]
            return
        if isinstance(o, DictV):
            e = self.dict_find(o, i)
            if e is None:
                ip.throw("KeyError", i)
            ip.mutate(o, "item deletion", short(i))
            o.entries = [x for x in o.entries if x is not e]
            return
        if isinstance(o, Sym):
            raise Unsupported("item deletion of unknown")
        ip.throw("TypeError", f"'{self.type_of(o).name}' object doesn't support item deletion")

    # ------------------------------------------------------------------ operators
    DUNDER = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
              "BitOr": ("__or__", "__ror__"), "BitAnd": ("__and__", "__rand__"), "BitXor": ("__xor__", "__rxor__"),
              "Mod": ("__mod__", "__rmod__")}
    IDUNDER = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "BitOr": "__ior__", "BitAnd": "__iand__",
               "BitXor": "__ixor__"}

    def binop(self, op, a, b):
        ip = self.ip
        for x in (a, b):
            if isinstance(x, Obj) and not isinstance(x, tuple):
                r = self._obj_binop(op, a, b)
                if r is not NotImplemented:
                    return r
                break
        if isinstance(a, bool):
            a = int(a) if op in ("Add", "Sub", "Mult") else a
        ia = isinstance(a, int) or isinstance(a, Sym) and a.hint == "int"
        ib = isinstance(b, int) or isinstance(b, Sym) and b.hint == "int"
        if ia and ib and (isinstance(a, Sym) or isinstance(b, Sym)):
            if op == "Add":
                return ip.facts.add(a, b)
            if op == "Sub":
                return ip.facts.add(a, b, -1)
            if op == "Mult":
                if isinstance(b, int):
                    return ip.facts.scale(a, b)
                if isinstance(a, int):
                    return ip.facts.scale(b, a)
            return ip.intern(op, (a, b), "int")
        sa = isinstance(a, str) or isinstance(a, Sym) and a.hint == "str"
        sb = isinstance(b, str) or isinstance(b, Sym) and b.hint == "str"
        if sa and sb and op == "Add":
            return self.concat([a, b])
        if sa and op == "Mod":
            for x in (b if isinstance(b, tuple) else (b,)):
                self.str(x)
            return ip.intern("fmt", (a, b), "str")
        if isinstance(a, CONST) and isinstance(b, CONST):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                        "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                        "Pow": lambda: a ** b, "BitOr": lambda: a | b, "BitAnd": lambda: a & b,
                        "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
            except TypeError as e:
                # classes and None in unions
                ip.throw("TypeError", str(e))
            except ZeroDivisionError as e:
                ip.throw("ZeroDivisionError", str(e))
        if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == "Add" and isinstance(a, ListV) and (isinstance(b, ListV) or isinstance(b, Obj) and isinstance(b.payload, ListV)):
            return ip.list(a.items + self.L(b).items)
        if op == "Mult" and isinstance(a, (tuple, ListV)) and isinstance(b, int):
            return a * b if isinstance(a, tuple) else ip.list(a.items * b)
        if isinstance(a, (SetV, ViewV)) and isinstance(b, (SetV, ViewV)):
            if op == "BitOr":
                return self._set_union([self.S(a), b])
            if op == "BitAnd":
                return self._set_inter([self.S(a), b])
            if op == "Sub":
                return self._set_diff([self.S(a), b])
            if op == "BitXor":
                x = self._set_diff([self.S(a), b])
                y = self._set_diff([self.S(b), a])
                return self._set_union([x, y])
        if isinstance(a, DictV) and isinstance(b, DictV) and op == "BitOr":
            d = self._dict_copy(a)
            for k, v in b.entries:
                self.dict_set(d, k, v)
            return d
        if op == "BitOr" and all(isinstance(x, (ClassV, AliasV, type(None))) for x in (a, b)):
            args = []
            for x in (a, b):
                args.extend(x.args if isinstance(x, AliasV) and x.origin == "Union" else [x])
            return AliasV("Union", tuple(args))
        if isinstance(a, Sym) and a.hint == "atom" or isinstance(b, Sym) and b.hint == "atom":
            raise Unsupported(f"{op} of unknown")
        ip.throw("TypeError", f"unsupported operand type(s) for {op}: {short(a)} and {short(b)}")

    def _obj_binop(self, op, a, b):
        ip = self.ip
        names = self.DUNDER.get(op)
        if names:
            for x, y, n in ((a, b, names[0]), (b, a, names[1])):
                if isinstance(x, Obj):
                    m, o = x.cls.lookup(n)
                    if m is not None:
                        r = ip.call(ip.bind_attr(m, x, x.cls), [y], {})
                        if r is not NotImplemented:
                            return r
        pa = a.payload if isinstance(a, Obj) and a.payload is not None else a
        pb = b.payload if isinstance(b, Obj) and b.payload is not None else b
        if pa is not a or pb is not b:
            return self.binop(op, pa, pb)
        return NotImplemented

    def inplace(self, op, a, b):
        ip = self.ip
        if isinstance(a, Obj):
            n = self.IDUNDER.get(op)
            if n:
                m, o = a.cls.lookup(n)
                if m is not None:
                    r = ip.call(ip.bind_attr(m, a, a.cls), [b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(a.payload, ListV) and op == "Add":
                self._list_extend(a, b)
                return a
            if isinstance(a.payload, DictV) and op == "BitOr":
                self._dict_update(ip, [a, b], {})
                return a
        if isinstance(a, ListV) and op == "Add":
            self._list_extend(a, b)
            return a
        if isinstance(a, ListV) and op == "Mult" and isinstance(b, int):
            self._touch(a, "repeat")
            a.items[:] = a.items * b
            return a
        if isinstance(a, SetV) and not a.frozenset and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            r = self.binop(op, a, b)
            self._touch(a, "in-place " + op)
            a.items = list(r.items)
            return a
        if isinstance(a, DictV) and op == "BitOr":
            self._dict_update(ip, [a, b], {})
            return a
        return self.binop(op, a, b)

    # ------------------------------------------------------------------ strings
    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif isinstance(p, Sym) and p.op == "concat":
                for q in p.args:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
            elif p == "" and isinstance(p, str):
                continue
            else:
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        # adjacent slices of one string join up
        merged = [out[0]]
        for p in out[1:]:
            q = merged[-1]
            if isinstance(p, Sym) and isinstance(q, Sym) and p.op == q.op == "slice" and p.args[0] is q.args[0] \
                    and self.ip.facts.known_eq(q.args[2], p.args[1]):
                merged[-1] = self._mkslice(p.args[0], q.args[1], p.args[2])
            else:
                merged.append(p)
        if len(merged) == 1:
            return merged[0]
        return self.ip.intern("concat", tuple(merged), "str")

    def str(self, v):
        ip = self.ip
        if isinstance(v, (str,)) or isinstance(v, Sym) and v.hint == "str":
            return v
        if isinstance(v, CONST):
            return str(v)
        if isinstance(v, Sym):
            return ip.intern("str", (v,), "str")
        if isinstance(v, Obj):
            m, o = v.cls.lookup("__str__")
            if m is not None and o is not self.builtins["object"]:
                return ip.call(ip.bind_attr(m, v, v.cls), [], {})
        return self.repr(v)

    def repr(self, v):
        ip = self.ip
        if isinstance(v, CONST):
            return repr(v)
        if isinstance(v, Sym):
            return ip.intern("repr", (v,), "str")
        if isinstance(v, Obj):
            m, o = v.cls.lookup("__repr__")
            if m is not None and o is not self.builtins["object"]:
                r = ip.call(ip.bind_attr(m, v, v.cls), [], {})
                if not (isinstance(r, str) or isinstance(r, Sym) and r.hint == "str"):
                    ip.throw("TypeError", "__repr__ returned non-string")
                return r
            if v.payload is not None:
                return self.repr(v.payload)
            return ip.intern("repr", (v,), "str")
        if isinstance(v, (ListV, tuple, SetV, DictV, ViewV)):
            parts = ["["]
            if isinstance(v, DictV):
                for k, x in list(v.entries):
                    parts += [self.repr(k), ": ", self.repr(x), ", "]
            else:
                for x in (v if isinstance(v, tuple) else list(self.iterate(v)) if not isinstance(v, SetV) else list(v.items)):
                    parts += [self.repr(x), ", "]
            return self.concat(parts + ["]"])
        return short(v, 200)

    def _str_fn(self, name):
        def f(ip, a, k):
            if all(isinstance(x, CONST) for x in a) and not k:
                return getattr(a[0], name)(*a[1:])
            if name == "replace" and a[0] == "" and isinstance(a[0], str) and len(a) == 3:
                return a[2] if not ip.truth(a[1]) else ""
            if name in ("lower", "upper", "casefold"):
                if isinstance(a[0], Sym) and a[0].op in (name,):
                    return a[0]
                return ip.intern(name, (a[0],), "str")
            return ip.intern(name, tuple(x if isinstance(x, (Sym, *CONST)) else repr(x) for x in a), "str")

        return f

    def _str_pred(self, name):
        def f(ip, a, k):
            if all(isinstance(x, CONST) or isinstance(x, tuple) for x in a):
                return getattr(a[0], name)(*a[1:])
            return ip.facts.decide((name,) + tuple(x.uid if isinstance(x, Sym) else x for x in a), name)

        return f

    def _str_const(self, name):
        def f(ip, a, k):
            if all(isinstance(x, CONST) for x in a):
                r = getattr(a[0], name)(*a[1:])
                return ip.list(r) if isinstance(r, list) else r
            raise Unsupported(f"str.{name} of unknown")

        return f

    def _str_split(self, ip, a, k):
        if all(isinstance(x, CONST) for x in a) and not k:
            return ip.list(a[0].split(*a[1:]))
        raise Unsupported("str.split of unknown")

    def _str_join(self, ip, a, k):
        parts = list(self.iterate(a[1]))
        for p in parts:
            if not (isinstance(p, str) or isinstance(p, Sym) and p.hint == "str"):
                if isinstance(p, Sym):
                    raise Unsupported("join of unknown")
                ip.throw("TypeError", "sequence item: expected str instance")
        if isinstance(a[0], str) and all(isinstance(p, str) for p in parts):
            return a[0].join(parts)
        if a[0] != "":
            out = []
            for i, p in enumerate(parts):
                if i:
                    out.append(a[0])
                out.append(p)
            return self.concat(out)
        return ip.intern("join", tuple(parts), "str")

    def _str_find(self, ip, a, k):
        s, sub = a[0], a[1]
        start = a[2] if len(a) > 2 else None
        end = a[3] if len(a) > 3 else None
        if all(isinstance(x, CONST) for x in (s, sub, start, end)):
            return s.find(sub, start, end)
        f = ip.facts
        n = self.len(s)
        lo = 0 if start is None else start
        hi = n if end is None else end
        if f.known_lt(lo, 0) is not False:
            if f.lt(lo, 0, "find"):
                lo = f.add(lo, n)
                if f.lt(lo, 0, "find"):
                    lo = 0
        if end is not None:
            hi = self._clip(hi, n)
        m = self.len(sub)
        nf = ip.counters.get("\0find", 0) + 1
        ip.counters["\0find"] = nf
        # no room left: not found
        room = f.known_lt(f.add(hi, lo, -1), m)
        if room is True:
            ip.event("find", s, sub, start, end, -1)
            return -1
        if nf > ip.k + 1 or f_choose(ip, "find"):
            ip.event("find", s, sub, start, end, -1)
            return -1
        p = ip.fresh("pos", "int")
        f.assume_le(lo, p)
        f.assume_le(f.add(p, m), hi)
        f.assume_le(0, p)
        ip.event("find", s, sub, start, end, p)
        return p

    def _str_index(self, ip, a, k):
        r = self._str_find(ip, a, k)
        if isinstance(r, int) and r == -1:
            ip.throw("ValueError", "substring not found")
        return r

    # ------------------------------------------------------------------ builtin functions
    def _int(self, ip, a, k):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, Sym):
            if v.hint == "int":
                return v
            if v.hint == "str":
                if ip.facts.decide(("int-ok", v.uid), "int()"):
                    return ip.intern("int", (v,), "int")
                ip.throw("ValueError", "invalid literal for int()")
            raise Unsupported("int of unknown")
        if isinstance(v, (str, int, float)):
            try:
                return int(v, *a[1:])
            except ValueError as e:
                ip.throw("ValueError", str(e))
        ip.throw("TypeError", f"int() argument must be a string or a number, not {self.type_of(v).name}")

    def _float(self, ip, a, k):
        v = a[0] if a else 0.0
        if isinstance(v, CONST):
            try:
                return float(v)
            except (ValueError, TypeError) as e:
                ip.throw(type(e).__name__, str(e))
        return ip.intern("float", (v,), "atom")

    def _range(self, ip, a, k):
        for x in a:
            if not (isinstance(x, int) or isinstance(x, Sym) and x.hint == "int"):
                ip.throw("TypeError", f"'{self.type_of(x).name}' object cannot be interpreted as an integer")
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        return RangeV(*a)

    def _enumerate(self, ip, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)

        def g():
            i = start
            for x in self.iterate(a[0]):
                yield (i, x)
                i = self.binop("Add", i, 1)

        return IterV(g())

    def _zip(self, ip, a, k):
        def g():
            its = [self.iter(x) for x in a]
            while its:
                row = []
                for it in its:
                    try:
                        row.append(ip.next_of(it))
                    except StopIteration:
                        return
                yield tuple(row)

        return IterV(g())

    def _map(self, ip, a, k):
        def g():
            its = [self.iter(x) for x in a[1:]]
            while True:
                row = []
                for it in its:
                    try:
                        row.append(ip.next_of(it))
                    except StopIteration:
                        return
                yield ip.call(a[0], row, {})

        return IterV(g())

    def _filter(self, ip, a, k):
        src = self.iter(a[1])

        def g():
            while True:
                try:
                    x = ip.next_of(src)
                except StopIteration:
                    return
                if self.truth(x if a[0] is None else ip.call(a[0], [x], {})):
                    yield x

        return IterV(g())

    def _reversed(self, ip, a, k):
        v = a[0]
        if isinstance(v, (tuple, ListV)):
            items = v if isinstance(v, tuple) else v.items

            def g():
                i = len(items) - 1
                while i >= 0:
                    if i < len(items):
                        yield items[i]
                    i -= 1

            return IterV(g())
        if isinstance(v, RangeV):
            if v.step == 1:
                return IterV(self._iter_range(RangeV(self.binop("Sub", v.stop, 1), self.binop("Sub", v.start, 1), -1)))
            return IterV(iter(list(reversed(list(self.iterate(v))))))
        if isinstance(v, DictV):
            return IterV(iter([e[0] for e in reversed(v.entries)]))
        if isinstance(v, ViewV):
            return IterV(iter(list(reversed(list(self.iterate(v))))))
        if isinstance(v, Obj):
            m, o = v.cls.lookup("__reversed__")
            if m is not None:
                return ip.call(ip.bind_attr(m, v, v.cls), [], {})
            if v.payload is not None:
                return self._reversed(ip, [v.payload], k)
        if isinstance(v, str):
            return IterV(iter(list(reversed(v))))
        if isinstance(v, (SetV, IterV)):
            ip.throw("TypeError", f"'{self.type_of(v).name}' object is not reversible")
        raise Unsupported(f"reversed {short(v)}")

    def iter(self, v):
        ip = self.ip
        if isinstance(v, IterV):
            return v
        if isinstance(v, Obj):
            m, o = v.cls.lookup("__iter__")
            if m is not None:
                r = ip.call(ip.bind_attr(m, v, v.cls), [], {})
                if isinstance(r, IterV):
                    return r
                if isinstance(r, Obj):
                    return IterV(self._iter_next(r))
        return IterV(self.iterate(v))

    def _next(self, ip, a, k):
        it = a[0]
        if isinstance(it, Obj):
            try:
                return ip.call(ip.getattr(it, "__next__"), [], {})
            except PyExc as e:
                if len(a) > 1 and self.builtins["StopIteration"] in e.value.cls.mro:
                    return a[1]
                raise
        if not isinstance(it, IterV):
            ip.throw("TypeError", f"'{self.type_of(it).name}' object is not an iterator")
        try:
            return ip.next_of(it)
        except StopIteration:
            if len(a) > 1:
                return a[1]
        ip.throw("StopIteration")

    def _gen_send(self, ip, a, k):
        it = a[0]
        ip.frames.append(it.frame)
        depth = len(ip.frames)
        try:
            return it.gen.send(a[1])
        except StopIteration:
            it.done = True
        finally:
            del ip.frames[depth - 1:]
        ip.throw("StopIteration")

    def _minmax(self, sign):
        def f(ip, a, k):
            key = k.get("key")
            if len(a) == 1:
                items = list(self.iterate(a[0]))
                if not items:
                    if "default" in k:
                        return k["default"]
                    ip.throw("ValueError", "min() iterable argument is empty")
            else:
                items = a
            best = items[0]
            bk = ip.call(key, [best], {}) if key is not None else best
            for x in items[1:]:
                xk = ip.call(key, [x], {}) if key is not None else x
                if (self.lt(xk, bk) if sign < 0 else self.lt(bk, xk)):
                    best, bk = x, xk
            return best

        return f

    def _functions(self):
        b = self.builtins

        def N(name, fn, argnames=None):
            b[name] = NativeV(name, fn, False, argnames)

        N("len", lambda ip, a, k: self.len(a[0]))
        N("isinstance", lambda ip, a, k: self.isinstance(a[0], a[1]))

        def issub(ip, a, k):
            if not isinstance(a[0], ClassV):
                if isinstance(a[0], Sym):
                    raise Unsupported("issubclass")
                ip.throw("TypeError", "issubclass() arg 1 must be a class")
            return self.issubclass(a[0], a[1])

        N("issubclass", issub)
        N("hasattr", lambda ip, a, k: ip.hasattr(a[0], a[1]))
        N("getattr", lambda ip, a, k: ip.getattr(a[0], a[1], *a[2:]))
        N("setattr", lambda ip, a, k: ip.setattr(a[0], a[1], a[2]))
        N("delattr", lambda ip, a, k: ip.delattr(a[0], a[1]))
        N("callable", lambda ip, a, k: self.callable(a[0]))
        N("iter", lambda ip, a, k: self.iter(a[0]) if len(a) == 1 else IterV(self._iter_sentinel(a[0], a[1])))
        N("next", self._next)
        N("sorted", lambda ip, a, k: ip.list(self.sort_items(list(self.iterate(a[0])), k.get("key"), self.truth(k.get("reverse", False)))))
        N("min", self._minmax(-1))
        N("max", self._minmax(1))

        def sum_(ip, a, k):
            r = a[1] if len(a) > 1 else k.get("start", 0)
            for x in self.iterate(a[0]):
                r = self.binop("Add", r, x)
            return r

        N("sum", sum_)
        N("any", lambda ip, a, k: any(self.truth(x) for x in self.iterate(a[0])))
        N("all", lambda ip, a, k: all(self.truth(x) for x in self.iterate(a[0])))

        def abs_(ip, a, k):
            if isinstance(a[0], Sym):
                return a[0] if not self.lt(a[0], 0) else ip.facts.scale(a[0], -1)
            return abs(a[0])

        N("abs", abs_)
        N("repr", lambda ip, a, k: self.repr(a[0]))
        N("format", lambda ip, a, k: self.str(a[0]))
        N("id", lambda ip, a, k: self._id(a[0]))
        N("hash", lambda ip, a, k: self._hash(a[0]))
        N("print", lambda ip, a, k: None)
        N("divmod", lambda ip, a, k: (self.binop("FloorDiv", a[0], a[1]), self.binop("Mod", a[0], a[1])))
        N("round", lambda ip, a, k: round(*a))
        N("ord", lambda ip, a, k: ord(a[0]) if isinstance(a[0], str) else ip.intern("ord", (a[0],), "int"))
        N("chr", lambda ip, a, k: chr(a[0]) if isinstance(a[0], int) else ip.intern("chr", (a[0],), "str"))

        def vars_(ip, a, k):
            if a and isinstance(a[0], (Obj, ClassV)):
                return ip.getattr(a[0], "__dict__")
            raise Unsupported("vars")

        N("vars", vars_)
        N("dir", self._unsupported("dir"))
        N("globals", self._unsupported("globals"))
        N("locals", self._unsupported("locals"))
        N("open", self._unsupported("open"))
        N("eval", self._unsupported("eval"))
        N("exec", self._unsupported("exec"))
        b["NotImplemented"] = NotImplemented
        b["Ellipsis"] = Ellipsis
        b["__debug__"] = True
        b["__name__"] = "builtins"

    def _iter_sentinel(self, fn, sentinel):
        n = 0
        while True:
            x = self.ip.call(fn, [], {})
            if self.eq(x, sentinel):
                return
            yield x
            n += 1
            if n > 20:
                raise Infeasible("loop-bound")

    def _id(self, v):
        if isinstance(v, Heap):
            n = self.ident(v)
            return 10_000 + n if self.ip.set_mode != "rev" else 1_000_000 - n
        return self.ip.intern("id", (v,), "int")

    def _hash(self, v):
        h = self.hashed(v)
        if isinstance(h, Sym) and h.hint == "hash":
            return h
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        if self.ip.set_mode == "rev":
            h = ("another process", h)
        return self.ip.intern("hash", (h,), "hash")

    def callable(self, v):
        if isinstance(v, (FuncV, NativeV, BoundV, ClassV, PartialV)):
            return True
        if isinstance(v, AliasV):
            return v.origin != "Union"
        if isinstance(v, Obj):
            return v.cls.lookup("__call__")[0] is not None
        return False

    # ------------------------------------------------------------------ dataclasses
    def dc_fields(self, cls):
        out = []
        for c in reversed(cls.mro):
            if c.is_dataclass:
                for n, (ann, env) in c.annotations.items():
                    if n not in out and "ClassVar" not in ast.dump(ann):
                        out.append(n)
        return out

    def dc_init(self, cls, name):
        """is this field an argument of the constructor"""
        d, owner = cls.lookup(name)
        return not (isinstance(d, Obj) and d.cls.name == "_Field" and d.attrs.get("init") is False)

    def make_dataclass(self, cls, opts):
        ip = self.ip
        cls.is_dataclass = True
        cls.dc_frozen = bool(opts.get("frozen", False))
        fields = self.dc_fields(cls)

        def init(ip, a, k):
            o = a[0]
            given = [f for f in fields if self.dc_init(cls, f)]
            vals = dict(zip(given, a[1:]))
            if len(a) - 1 > len(given):
                ip.throw("TypeError", "too many positional arguments")
            for kk, v in k.items():
                if kk not in given:
                    ip.throw("TypeError", f"unexpected keyword argument {kk!r}")
                vals[kk] = v
            for f in fields:
                if f not in vals:
                    d, owner = cls.lookup(f)
                    if owner is None:
                        ip.throw("TypeError", f"missing argument {f!r}")
                    if isinstance(d, Obj) and d.cls.name == "_Field":
                        if "default_factory" in d.attrs:
                            d = ip.call(d.attrs["default_factory"], [], {})
                        elif "default" in d.attrs:
                            d = d.attrs["default"]
                        elif f not in given:
                            continue
                        else:
                            ip.throw("TypeError", f"missing argument {f!r}")
                    vals[f] = d
                o.attrs[f] = vals[f]
            post, _ = cls.lookup("__post_init__")
            if post is not None:
                ip.call(ip.bind_attr(post, o, cls), [], {})
            return None

        if "__init__" not in cls.ns:
            cls.ns["__init__"] = NativeV("__init__", init, True, ["self"] + fields)
        if "__repr__" not in cls.ns:
            cls.ns["__repr__"] = NativeV("__repr__", lambda ip, a, k: self.concat(
                [cls.name, "("] + [x for f in fields for x in (f + "=", self.repr(a[0].attrs.get(f)))] + [")"]), True)
        return cls

    def type_hints(self, cls):
        out = {}
        for c in reversed(cls.mro):
            for n, (ann, env) in c.annotations.items():
                if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                    ann = ast.parse(ann.value, mode="eval").body
                out[n] = self.ip.ev(ann, env)
        return out

    # ------------------------------------------------------------------ library modules
    def library_module(self, name):
        from . import library

        return library.load(self.ip, self, name)


def f_choose(ip, why):
    """split: absent (True) or present (False); present first"""
    return ip.choose(2, why) == 1
