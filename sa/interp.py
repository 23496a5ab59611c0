"""Abstract interpreter over the syntax trees of the analysed package.

One `Interp` follows one trace partition: whenever the abstract state does not determine which way
control goes, `choose` splits the partition (the driver loop in explore.py enumerates the splits).
Nothing of the analysed package is imported or executed: its source is parsed and interpreted over
abstract values (values.py) with the facts domain of facts.py."""
from __future__ import annotations

import ast
import builtins as _py_builtins
import collections
import os
import types

from . import facts as F
from .values import (AliasV, BoundV, CachedPropertyV, ClassMethodV, ClassV, DictV, FuncV, Heap, Infeasible, IterV,
                     ListV, ModuleV, NativeV, Obj, PartialV, PropertyV, PyExc, RangeV, SetV, StaticV, SuperV, Sym,
                     Unsupported, ViewV, short)

REAL_TYPES = {
    "list": list, "dict": dict, "str": str, "tuple": tuple, "set": set, "frozenset": frozenset, "int": int,
    "object": object, "float": float, "bool": bool, "bytes": bytes, "range": range, "slice": slice, "OrderedDict": collections.OrderedDict,
    "defaultdict": collections.defaultdict, "function": types.FunctionType, "method": types.MethodType,
    "generator": types.GeneratorType, "dict_keys": type({}.keys()), "dict_values": type({}.values()),
    "dict_items": type({}.items()), "type": type, "property": property, "iterator": type(iter([])),
}
MODEL_ERRORS = (TypeError, IndexError, KeyError, AttributeError, ValueError, AssertionError, NotImplementedError)
DEBUG_ENGINE = bool(os.environ.get("SA_DEBUG"))

CONST = (int, float, str, bytes, bool, type(None), complex)


def on_instances(real, name):
    """does an instance of this builtin type have the attribute (those of its metatype are not seen from it)"""
    return any(name in c.__dict__ for c in real.__mro__)


class Env:
    __slots__ = ("vars", "parent", "kind", "module", "locals", "globals", "nonlocals", "func")

    def __init__(self, vars_, parent, kind, module, func=None):
        self.vars = vars_
        self.parent = parent
        self.kind = kind
        self.module = module
        self.locals = ()
        self.globals = ()
        self.nonlocals = ()
        self.func = func


class Frame:
    __slots__ = ("func", "env", "node", "module", "first")

    def __init__(self, func, env, node, module, first=None):
        self.func = func
        self.env = env
        self.node = node
        self.module = module
        self.first = first


BREAK = ("break",)
CONTINUE = ("continue",)

_locals_cache = {}


def function_locals(node):
    """names local to a function, plus declared globals and nonlocals"""
    key = id(node)
    got = _locals_cache.get(key)
    if got is not None and got[0] is node:
        return got[1]
    loc, glo, non = set(), set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets bind in the enclosing function
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    loc.add(c.target.id)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            target(n.target)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                loc.add(n.name)
        elif isinstance(n, ast.MatchMapping):
            if n.rest:
                loc.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(p.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    if not isinstance(node, ast.Lambda):
        for s in node.body:
            walk(s)
    else:
        walk(node.body)
    loc -= glo
    loc -= non
    res = (frozenset(loc), frozenset(glo), frozenset(non))
    _locals_cache[key] = (node, res)
    return res


_gen_cache = {}


def has_yield(node):
    """does this statement (or function body) contain a yield of its own scope"""
    key = id(node)
    got = _gen_cache.get(key)
    if got is not None and got[0] is node:
        return got[1]

    def walk(n, top):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not top and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return any(walk(c, False) for c in n.body)
        if isinstance(n, ast.Lambda):
            return walk(n.body, False)
        return any(walk(c, False) for c in ast.iter_child_nodes(n))

    r = walk(node, isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)))
    _gen_cache[key] = (node, r)
    return r


class Event:
    __slots__ = ("kind", "data", "site", "stack")

    def __init__(self, kind, data, site, stack):
        self.kind, self.data, self.site, self.stack = kind, data, site, stack


class Interp:
    MAX_STEPS = 400_000
    MAX_DEPTH = 90
    MAX_LOOP = 6

    def __init__(self, program, choose, k=2):
        self.program = program
        self._choose = choose
        self.k = k  # expansion bound for collections of unknown size
        self.table = {}
        self.nsym = 0
        self.facts = F.Facts(self.choose, self.intern)
        self.frames = []
        self.events = []
        self.modules = {}
        self.steps = 0
        self.set_mode = "fork"
        self.log_formats = False
        self.env_vars = {}
        self.available = {}  # importable third party modules: name -> bool or None (split)
        self.violations = []
        self.obligations = 0
        self.decisions = []
        self.covered = set()
        self.callsites = set()
        self.seq = 0
        self.counters = {}
        self.iter_first = None
        self.handled = []
        self.driver_ns = {}
        self.api_calls = []
        from . import builtins_model

        self.b = builtins_model.install(self)

    # ------------------------------------------------------------------ basics
    def choose(self, n, why=""):
        site = self.site()
        c = self._choose(n, why)
        self.decisions.append((site, why, c))
        return c

    def intern(self, op, args, hint):
        key = (op, hint) + tuple((id(a) if isinstance(a, Heap) else (type(a).__name__, a)) if not isinstance(a, Sym)
                                 else ("sym", a.uid) for a in self._flat(args))
        s = self.table.get(key)
        if s is None:
            self.nsym += 1
            s = Sym(op, args, hint, self.nsym)
            self.table[key] = s
        return s

    def _flat(self, args):
        out = []
        for a in args:
            if isinstance(a, tuple):
                out.append("(")
                out.extend(self._flat(a))
                out.append(")")
            elif isinstance(a, CONST) or isinstance(a, (Sym, Heap)):
                out.append(a)
            else:
                out.append(repr(a) + str(id(a)))
        return out

    def fresh(self, name, hint):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return self.intern("var", (name if n == 0 else f"{name}#{n}",), hint)

    def site(self):
        """innermost position inside the analysed package"""
        for f in reversed(self.frames):
            if f.module.package == "rebulk":
                return (f.module.path, getattr(f.node, "lineno", 0), f.func.qualname if f.func else "<module>")
        for f in reversed(self.frames):
            return (f.module.path or f.module.name, getattr(f.node, "lineno", 0),
                    f.func.qualname if f.func else "<module>")
        return ("?", 0, "?")

    def stack(self):
        out = []
        for f in self.frames:
            if f.module.package == "rebulk":
                out.append((f.module.path, getattr(f.node, "lineno", 0), f.func.qualname if f.func else "<module>"))
        return out

    def in_repo(self):
        return bool(self.frames) and any(f.module.package == "rebulk" for f in self.frames)

    def direct_repo(self):
        """is the innermost non-stub frame a frame of the analysed package"""
        for f in reversed(self.frames):
            if f.module.package == "rebulk":
                return True
            if f.module.package == "driver":
                return False
        return False

    def event(self, kind, *data):
        self.events.append(Event(kind, data, self.site(), self.stack()))

    def new(self, heap):
        self.seq += 1
        heap.seq = self.seq
        heap.site = self.site() if self.frames else None
        return heap

    def list(self, items=None):
        return self.new(ListV(items))

    def mutate(self, obj, op, detail=None):
        if obj.frozen is not None and self.in_repo():
            self.event("mutation", obj, op, detail, obj.frozen)
            self.violate("ownership", f"{op} modifies {obj.frozen}" + (f" ({detail})" if detail else ""))

    def violate(self, rule, msg, site=None):
        if site is None:
            site = self.site()
            if site[0] and site[0].startswith("driver") and self.api_calls:
                # an answer judged by the entry point: the construct is the library call that gave it
                site = self.api_calls[-1]
        self.violations.append({
            "rule": rule, "msg": msg, "site": site, "stack": self.stack() or self.api_calls[-4:],
            "decisions": [d for d in self.decisions if d[1]],
        })

    def throw(self, name, *args):
        cls = self.b.builtins[name]
        raise PyExc(self.make_exc(cls, list(args)), self.site())

    def make_exc(self, cls, args):
        o = self.new(Obj(cls))
        o.attrs["args"] = tuple(args)
        return o

    # ------------------------------------------------------------------ modules
    def load_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        info = self.program.modules.get(name)
        if info is None:
            m = self.b.library_module(name)
            self.modules[name] = m
            return m
        m = ModuleV(name, info.path, info.package)
        if info.package == "driver":
            m.ns.update(self.driver_ns)
        m.ns["__name__"] = name
        m.ns["__package__"] = info.pkgname
        m.ns["__file__"] = info.path
        self.modules[name] = m
        env = Env(m.ns, None, "module", m)
        self.frames.append(Frame(None, env, info.tree, m))
        try:
            sig = self.exec_block(info.tree.body, env)
            assert sig is None
        finally:
            self.frames.pop()
        return m

    def import_from(self, env, node):
        cur = env.module
        if node.level:
            base = cur.ns.get("__package__") or ""
            parts = base.split(".") if base else []
            if node.level > 1:
                parts = parts[: len(parts) - (node.level - 1)]
            modname = ".".join(parts + ([node.module] if node.module else []))
        else:
            modname = node.module
        if modname == "__future__":
            return
        for a in node.names:
            full = f"{modname}.{a.name}"
            if full in self.program.modules:
                sub = self.load_module(full)
                m = None
                # `from . import debug`: sub module, unless the package itself defines it
                if modname in self.modules and a.name in self.modules[modname].ns:
                    sub = self.modules[modname].ns[a.name]
                self.bind(env, a.asname or a.name, sub)
                continue
            m = self.load_module(modname)
            if a.name == "*":
                raise Unsupported("import *")
            if a.name not in m.ns:
                if m.loader is not None:
                    m.ns[a.name] = m.loader(a.name)
                elif m.package == "lib":
                    raise Unsupported(f"{m.name}.{a.name} is not modelled")
                else:
                    self.throw("ImportError", f"cannot import name {a.name}")
            self.bind(env, a.asname or a.name, m.ns[a.name])

    # ------------------------------------------------------------------ names
    def bind(self, env, name, value):
        if name in env.globals:
            if env.module.package == "rebulk":
                self.event("global-write", env.module.name, name)
                if env.module.frozen is not None and self.in_repo():
                    self.violate("ownership", f"assignment to module variable {env.module.name}.{name} modifies "
                                              f"{env.module.frozen}")
            env.module.ns[name] = value
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if e.kind in ("function", "comp") and name in e.vars:
                    e.vars[name] = value
                    return
                e = e.parent
        env.vars[name] = value

    def lookup(self, env, name):
        e = env
        first = True
        while e is not None:
            if e.kind == "module":
                if name in e.vars:
                    return e.vars[name]
                break
            if e.kind != "class" or first:
                if name in e.vars:
                    if name not in e.globals:
                        return e.vars[name]
                elif name in e.locals and e.kind == "function":
                    self.throw("UnboundLocalError", f"local variable {name!r} referenced before assignment")
                if name in e.globals:
                    break
            first = False
            e = e.parent
        m = env.module
        if name in m.ns:
            return m.ns[name]
        b = self.b.builtins.get(name)
        if b is not None or name in self.b.builtins:
            return b
        if hasattr(_py_builtins, name):
            raise Unsupported(f"builtin {name} is not modelled")
        self.throw("NameError", f"name {name!r} is not defined")

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            sig = self.exec(s, env)
            if sig is not None:
                return sig
        return None

    def exec(self, s, env):
        self.frames[-1].node = s
        self.steps += 1
        if self.fuel and self.steps > self.fuel:
            self.endless("the call does not end")
        if self.steps > self.MAX_STEPS:
            raise Unsupported("step limit")
        return getattr(self, "x_" + type(s).__name__)(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, env)
        return None

    def x_Pass(self, s, env):
        return None

    def x_Break(self, s, env):
        return BREAK

    def x_Continue(self, s, env):
        return CONTINUE

    def x_Return(self, s, env):
        return ("return", self.ev(s.value, env) if s.value is not None else None)

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if isinstance(s.target, ast.Name) and env.kind == "class":
            env.vars.setdefault("__annotations__", {})[s.target.id] = (s.annotation, env)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            self.bind(env, t.id, self.inplace(op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev_slice(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, cur, self.ev(s.value, env)))
        else:
            raise Unsupported("augassign target")

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            return self.exec_block(s.body, env)
        return self.exec_block(s.orelse, env)

    def loop_guard(self, s, n):
        if n > self.MAX_LOOP * 8:
            raise Infeasible("loop-bound")

    def x_While(self, s, env):
        n = 0
        while True:
            self.frames[-1].node = s
            before = len(self.decisions)
            if not self.truth(self.ev(s.test, env)):
                return self.exec_block(s.orelse, env)
            n += 1
            self.while_guard(s, env, n, before)
            sig = self.exec_block(s.body, env)
            if sig is BREAK:
                return None
            if sig is not None and sig is not CONTINUE:
                return sig

    terminates = None  # turns of one loop after which a search of a small input counts as endless
    fuel = None

    def endless(self, what):
        if self.terminates:
            self.violate("no-progress", what)
            raise Infeasible("loop-bound")

    def while_guard(self, s, env, n, before):
        if self.terminates:
            if n > self.terminates:
                self.endless(f"the loop is still running after {n - 1} turns over a text of a few characters")
            return
        if n > self.MAX_LOOP:
            # loops whose every turn depends on unknown values are cut; others are counted loops
            if n > 200:
                self.event("no-progress", s.lineno)
                raise Infeasible("loop-bound")
            if self.decisions and n > self.MAX_LOOP and len(self.decisions) > before:
                raise Infeasible("loop-bound")

    def x_For(self, s, env):
        for v in self.iterate(self.ev(s.iter, env)):
            self.assign(s.target, v, env)
            sig = self.exec_block(s.body, env)
            if sig is BREAK:
                return None
            if sig is not None and sig is not CONTINUE:
                return sig
        return self.exec_block(s.orelse, env)

    def exc_matches(self, exc, type_, env):
        if type_ is None:
            return True
        t = self.ev(type_, env)
        ts = list(t) if isinstance(t, tuple) else [t]
        for c in ts:
            if isinstance(c, ClassV) and c in exc.value.cls.mro:
                return True
        return False

    def x_Try(self, s, env):
        depth = len(self.frames)
        sig = None
        pending = None
        try:
            try:
                sig = self.exec_block(s.body, env)
                if sig is None:
                    ran = True
                else:
                    ran = False
            except PyExc as e:
                ran = False
                del self.frames[depth:]
                for h in s.handlers:
                    self.frames[-1].node = h
                    if self.exc_matches(e, h.type, env):
                        self.event("caught", e.value, h.lineno)
                        if h.name:
                            env.vars[h.name] = e.value
                        self.handled.append(e)
                        try:
                            sig = self.exec_block(h.body, env)
                        except PyExc as e2:
                            if e2 is not e and e2.value is not e.value:
                                e2.value.attrs.setdefault("__context__", e.value)
                            raise
                        finally:
                            self.handled.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            if ran and s.orelse:
                sig = self.exec_block(s.orelse, env)
        except PyExc as e:
            pending = e
            if not s.finalbody:
                raise
        if s.finalbody:
            del self.frames[depth:]
            fs = self.exec_block(s.finalbody, env)
            if fs is not None:
                if pending is not None:
                    self.event("swallowed", pending.value, s.lineno)
                return fs
            if pending is not None:
                raise pending
        return sig

    def x_Raise(self, s, env):
        if s.exc is None:
            if self.handled:
                raise self.handled[-1]
            self.throw("RuntimeError", "No active exception to reraise")
        v = self.ev(s.exc, env)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if s.cause is not None:
            self.ev(s.cause, env)
        if not isinstance(v, Obj):
            raise Unsupported("raise of unknown")
        raise PyExc(v, self.site())

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            args = [self.ev(s.msg, env)] if s.msg is not None else []
            self.throw("AssertionError", *args)

    def x_Global(self, s, env):
        return None

    x_Nonlocal = x_Global

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                names = env.module.ns if t.id in env.globals else env.vars
                if t.id not in names:
                    self.throw("NameError", t.id)
                if t.id in env.globals:
                    self.event("global-write", env.module.name, t.id)
                del names[t.id]
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev_slice(t.slice, env))
            else:
                raise Unsupported("del target")

    def x_Import(self, s, env):
        for a in s.names:
            if a.name in self.program.modules or "." not in a.name:
                m = self.load_module(a.name)
                if a.asname or "." not in a.name:
                    self.bind(env, a.asname or a.name, m)
                    continue
            top = self.load_module(a.name.split(".")[0])
            full = self.load_module(a.name)
            if a.asname:
                self.bind(env, a.asname, full)
            else:
                top.ns.setdefault(a.name.split(".")[1], full)
                self.bind(env, a.name.split(".")[0], top)

    def x_ImportFrom(self, s, env):
        self.import_from(env, s)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, env)
        self.bind(env, s.name, v)

    def apply_decorator(self, d, v, env):
        dec = self.ev(d, env)
        return self.call(dec, [v], {})

    def make_func(self, node, env, name):
        f = FuncV.__new__(FuncV)
        Heap.__init__(f)
        f.name = name
        f.node = node
        e = env
        cls = None
        if e.kind == "class":
            cls = e
            f.qualname = f"{e.func}.{name}"
            e2 = e.parent
        else:
            f.qualname = name if e.kind == "module" else f"{e.func.qualname if isinstance(e.func, FuncV) else ''}.<locals>.{name}"
            e2 = e
        f.env = e2 if cls is None else e
        f.module = env.module
        a = node.args
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kw_defaults = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                f.kw_defaults[p.arg] = self.ev(d, env)
        f.defcls = None
        if env.kind != "class":
            # functions nested in methods see the same __class__
            f.defcls = None
        f.is_gen = has_yield(node)
        f.locals = function_locals(node)
        f.attrs = {}
        f.params = None
        self.new(f)
        return f

    def x_ClassDef(self, s, env):
        bases = []
        is_td = False
        for b in s.bases:
            v = self.ev(b, env)
            if isinstance(v, AliasV):
                v = v.origin
            if v is self.b.typing_typeddict:
                is_td = True
                v = self.b.builtins["dict"]
            if v is self.b.typing_namedtuple:
                raise Unsupported("typing.NamedTuple")
            if not isinstance(v, ClassV):
                raise Unsupported(f"base class {short(v)}")
            if v is self.b.generic:
                continue
            bases.append(v)
        if not bases:
            bases = [self.b.builtins["object"]]
        ns = {}
        cenv = Env(ns, env if env.kind != "class" else env.parent, "class", env.module, s.name)
        fr = self.frames[-1]
        self.exec_block(s.body, cenv)
        fr.node = s
        ann = ns.pop("__annotations__", {})
        cls = self.new(ClassV(s.name, bases, ns, env.module, s))
        cls.annotations = ann
        cls.is_typeddict = is_td or any(b.is_typeddict for b in bases)
        for n, v in ns.items():
            fv = v
            for x in (fv, getattr(fv, "func", None), getattr(fv, "fget", None), getattr(fv, "fset", None)):
                if isinstance(x, FuncV) and x.defcls is None:
                    x.defcls = cls
            if isinstance(v, CachedPropertyV):
                v.name = n
        ns.setdefault("__module__", env.module.name)
        ns.setdefault("__doc__", None)
        out = cls
        for d in reversed(s.decorator_list):
            out = self.apply_decorator(d, out, env)
        self.bind(env, s.name, out)

    def x_With(self, s, env):
        return self._with(s, env, 0)

    def _with(self, s, env, i):
        if i == len(s.items):
            return self.exec_block(s.body, env)
        item = s.items[i]
        cm = self.ev(item.context_expr, env)
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, env)
        depth = len(self.frames)
        try:
            sig = self._with(s, env, i + 1)
        except PyExc as e:
            del self.frames[depth:]
            if not self.truth(self.call(exit_, [e.value.cls, e.value, None], {})):
                raise
            self.event("swallowed", e.value, s.lineno)
            return None
        self.call(exit_, [None, None, None], {})
        return sig

    def x_Match(self, s, env):
        subject = self.ev(s.subject, env)
        for case in s.cases:
            if self.match_pattern(case.pattern, subject, env) and (
                    case.guard is None or self.truth(self.ev(case.guard, env))):
                return self.exec_block(case.body, env)
        return None

    def match_pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, env):
                return False
            if p.name:
                self.bind(env, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns:
            if not self.b.isinstance(v, self.ev(p.cls, env)):
                return False
            return all(self.match_pattern(q, self.getattr(v, k), env) for k, q in zip(p.kwd_attrs, p.kwd_patterns))
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if not isinstance(v, (tuple, ListV)):
                return False
            items = list(self.iterate(v))
            return len(items) == len(p.patterns) and all(
                self.match_pattern(q, x, env) for q, x in zip(p.patterns, items))
        raise Unsupported("match pattern")

    # ------------------------------------------------------------------ generator bodies
    def gexec_block(self, stmts, env):
        for s in stmts:
            sig = yield from self.gexec(s, env)
            if sig is not None:
                return sig
        return None

    def gexec(self, s, env):
        if not has_yield(s) or isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.exec(s, env)
        self.frames[-1].node = s
        self.steps += 1
        if isinstance(s, ast.Expr):
            yield from self.gyield(s.value, env)
            return None
        if isinstance(s, ast.Assign):
            v = yield from self.gyield(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
            return None
        if isinstance(s, ast.Return):
            v = yield from self.gyield(s.value, env)
            return ("return", v)
        if isinstance(s, ast.If):
            body = s.body if self.truth(self.ev(s.test, env)) else s.orelse
            return (yield from self.gexec_block(body, env))
        if isinstance(s, ast.While):
            n = 0
            while True:
                self.frames[-1].node = s
                before = len(self.decisions)
                if not self.truth(self.ev(s.test, env)):
                    return (yield from self.gexec_block(s.orelse, env))
                n += 1
                self.while_guard(s, env, n, before)
                sig = yield from self.gexec_block(s.body, env)
                if sig is BREAK:
                    return None
                if sig is not None and sig is not CONTINUE:
                    return sig
        if isinstance(s, ast.For):
            for v in self.iterate(self.ev(s.iter, env)):
                self.assign(s.target, v, env)
                sig = yield from self.gexec_block(s.body, env)
                if sig is BREAK:
                    return None
                if sig is not None and sig is not CONTINUE:
                    return sig
            return (yield from self.gexec_block(s.orelse, env))
        if isinstance(s, ast.Try):
            sig = None
            pending = None
            frame = self.frames[-1]
            try:
                try:
                    sig = yield from self.gexec_block(s.body, env)
                except PyExc as e:
                    self._unwind(frame)
                    for h in s.handlers:
                        if self.exc_matches(e, h.type, env):
                            self.event("caught", e.value, h.lineno)
                            if h.name:
                                env.vars[h.name] = e.value
                            self.handled.append(e)
                            try:
                                sig = yield from self.gexec_block(h.body, env)
                            finally:
                                self.handled.pop()
                            break
                    else:
                        raise
                else:
                    if sig is None and s.orelse:
                        sig = yield from self.gexec_block(s.orelse, env)
            except PyExc as e:
                pending = e
                if not s.finalbody:
                    raise
            if s.finalbody:
                self._unwind(frame)
                fs = yield from self.gexec_block(s.finalbody, env)
                if fs is not None:
                    return fs
                if pending is not None:
                    raise pending
            return sig
        if isinstance(s, ast.With):
            return (yield from self._gwith(s, env, 0))
        raise Unsupported(f"yield inside {type(s).__name__}")

    def _unwind(self, frame):
        while self.frames and self.frames[-1] is not frame:
            self.frames.pop()

    def _gwith(self, s, env, i):
        if i == len(s.items):
            return (yield from self.gexec_block(s.body, env))
        item = s.items[i]
        cm = self.ev(item.context_expr, env)
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, env)
        frame = self.frames[-1]
        try:
            sig = yield from self._gwith(s, env, i + 1)
        except PyExc as e:
            self._unwind(frame)
            if not self.truth(self.call(exit_, [e.value.cls, e.value, None], {})):
                raise
            self.event("swallowed", e.value, s.lineno)
            return None
        self.call(exit_, [None, None, None], {})
        return sig

    def gyield(self, e, env):
        if isinstance(e, ast.Yield):
            v = self.ev(e.value, env) if e.value is not None else None
            return (yield v)
        if isinstance(e, ast.YieldFrom):
            it = self.ev(e.value, env)
            for v in self.iterate(it):
                yield v
            return None
        if e is None or not has_yield(e):
            return self.ev(e, env) if e is not None else None
        if isinstance(e, ast.Await):
            raise Unsupported("await")
        if isinstance(e, ast.IfExp) and not has_yield(e.test):
            return (yield from self.gyield(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env))
        raise Unsupported("nested yield expression")

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_slice(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Sym) and v.hint == "atom":
                raise Unsupported("unpack unknown")
            items = []
            need = len(t.elts)
            for x in self.iterate(v):
                items.append(x)
                if not star and len(items) > need:
                    self.throw("ValueError", "too many values to unpack")
            if star:
                i = star[0]
                after = need - i - 1
                if len(items) < need - 1:
                    self.throw("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, self.list(items[i: len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
            else:
                if len(items) < need:
                    self.throw("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
        else:
            raise Unsupported("assign target")

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        self.steps += 1
        return getattr(self, "e_" + type(e).__name__)(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(env, e.id)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev_slice(e.slice, env))

    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*(self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)))
        return self.ev(s, env)

    def e_Slice(self, e, env):
        return self.ev_slice(e, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        tgt = env
        while tgt.kind == "comp":
            tgt = tgt.parent
        self.bind(tgt, e.target.id, v)
        return v

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return self.list(self._elts(e.elts, env))

    def e_Set(self, e, env):
        s = self.new(SetV())
        for v in self._elts(e.elts, env):
            self.b.set_add(s, v)
        return s

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = self.new(DictV())
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, env)
                for kk, vv in self.b.mapping_items(src):
                    self.b.dict_set(d, kk, vv)
            else:
                kk = self.ev(k, env)
                self.b.dict_set(d, kk, self.ev(v, env))
        return d

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Sym) and v.hint == "int":
                return self.facts.scale(v, -1)
            if isinstance(v, (int, float)):
                return -v
        if isinstance(e.op, ast.UAdd) and isinstance(v, (int, float, Sym)):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported(f"unary {type(e.op).__name__} {short(v)}")

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            res = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return res
            left = right
        return res

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else None
                if v.conversion == ord("r"):
                    parts.append(self.b.repr(x))
                else:
                    parts.append(self.b.str(x))
                if spec:
                    parts[-1] = self.intern("fmt", (parts[-1], spec), "str")
        return self.b.concat(parts)

    def e_FormattedValue(self, e, env):
        return self.b.str(self.ev(e.value, env))

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_Yield(self, e, env):
        raise Unsupported("yield expression position")

    e_YieldFrom = e_Yield

    # comprehensions
    def _comp(self, gens, i, env, leaf):
        if i == len(gens):
            yield leaf(env)
            return
        g = gens[i]
        it = self.ev(g.iter, env.parent if i == 0 and env.kind == "comp" else env) if i else env.vars["\0it"]
        for v in self.iterate(it):
            self.assign(g.target, v, env)
            ok = True
            for c in g.ifs:
                if not self.truth(self.ev(c, env)):
                    ok = False
                    break
            if ok:
                yield from self._comp(gens, i + 1, env, leaf)

    def _comp_env(self, e, env):
        it = self.ev(e.generators[0].iter, env)
        c = Env({"\0it": it}, env, "comp", env.module, env.func)
        return c

    def e_ListComp(self, e, env):
        c = self._comp_env(e, env)
        return self.list(list(self._comp(e.generators, 0, c, lambda en: self.ev(e.elt, en))))

    def e_SetComp(self, e, env):
        c = self._comp_env(e, env)
        s = self.new(SetV())
        for v in self._comp(e.generators, 0, c, lambda en: self.ev(e.elt, en)):
            self.b.set_add(s, v)
        return s

    def e_DictComp(self, e, env):
        c = self._comp_env(e, env)
        d = self.new(DictV())
        for k, v in self._comp(e.generators, 0, c, lambda en: (self.ev(e.key, en), self.ev(e.value, en))):
            self.b.dict_set(d, k, v)
        return d

    def e_GeneratorExp(self, e, env):
        c = self._comp_env(e, env)
        fr = self.frames[-1]
        return IterV(self._comp(e.generators, 0, c, lambda en: self.ev(e.elt, en)), "generator",
                     Frame(fr.func, c, e, fr.module, fr.first))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env):
        fr = self.frames[-1]
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr.func
            cls = f.defcls if f is not None else None
            if cls is None:
                raise Unsupported("super() outside method")
            return SuperV(cls, fr.first)
        fn = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.b.mapping_items(self.ev(k.value, env)):
                    if not isinstance(kk, str):
                        if isinstance(kk, Sym):
                            raise Unsupported("unknown keyword")
                        self.throw("TypeError", "keywords must be strings")
                    if kk in kwargs:
                        self.throw("TypeError", f"got multiple values for keyword argument {kk!r}")
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    self.throw("TypeError", f"got multiple values for keyword argument {k.arg!r}")
                kwargs[k.arg] = self.ev(k.value, env)
        if fr.module.package == "rebulk":
            self.callsites.add((fr.module.path, e.lineno, e.col_offset))
        saved = fr.node
        fr.node = e
        try:
            return self.call(fn, args, kwargs)
        finally:
            fr.node = saved

    def call(self, fn, args, kwargs):
        if isinstance(fn, BoundV):
            return self.call(fn.func, [fn.self] + list(args), kwargs)
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, NativeV):
            try:
                return fn.fn(self, list(args), kwargs)
            except MODEL_ERRORS as e:
                if DEBUG_ENGINE:
                    raise
                raise Unsupported(f"model of {fn.name}: {type(e).__name__}: {e}") from e
        if isinstance(fn, ClassV):
            return self.instantiate(fn, list(args), kwargs)
        if isinstance(fn, AliasV):
            if isinstance(fn.origin, ClassV):
                return self.call(fn.origin, args, kwargs)
            raise Unsupported("call of alias")
        if isinstance(fn, PartialV):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.func, list(fn.args) + list(args), kw)
        if isinstance(fn, StaticV):
            return self.call(fn.func, args, kwargs)
        if isinstance(fn, Obj):
            m, _ = fn.cls.lookup("__call__")
            if m is not None:
                return self.call(self.bind_attr(m, fn, fn.cls), args, kwargs)
        if isinstance(fn, Sym):
            raise Unsupported(f"call of unknown {short(fn)}")
        self.throw("TypeError", f"{short(fn)} object is not callable")

    def bind_args(self, f, args, kwargs):
        node = f.node
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        vars_ = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw("TypeError", f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given")
            vars_[a.vararg.arg] = tuple(args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vars_[n] = v
        extra = None
        for k, v in kwargs.items():
            if k in pos[npo:]:
                if k in vars_:
                    self.throw("TypeError", f"{f.name}() got multiple values for argument {k!r}")
                vars_[k] = v
            elif any(k == p.arg for p in a.kwonlyargs):
                vars_[k] = v
            elif a.kwarg is not None:
                if extra is None:
                    extra = self.new(DictV())
                extra.entries.append([k, v])
            else:
                self.throw("TypeError", f"{f.name}() got an unexpected keyword argument {k!r}")
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = extra if extra is not None else self.new(DictV())
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vars_:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vars_[n] = f.defaults[j]
                else:
                    self.throw("TypeError", f"{f.name}() missing required argument {n!r}")
        for p in a.kwonlyargs:
            if p.arg not in vars_:
                if p.arg in f.kw_defaults:
                    vars_[p.arg] = f.kw_defaults[p.arg]
                else:
                    self.throw("TypeError", f"{f.name}() missing keyword-only argument {p.arg!r}")
        return vars_, (vars_[pos[0]] if pos else None)

    def call_func(self, f, args, kwargs):
        if len(self.frames) > self.MAX_DEPTH:
            self.endless("unbounded recursion")
            raise Unsupported("call depth")
        vars_, first = self.bind_args(f, args, kwargs)
        penv = f.env
        if penv.kind == "class":
            penv = penv.parent
        env = Env(vars_, penv, "function", f.module, f)
        env.locals, env.globals, env.nonlocals = f.locals
        frame = Frame(f, env, f.node, f.module, first)
        if f.module.package == "rebulk":
            self.covered.add((f.module.path, f.qualname, f.node.lineno))
            for fr in reversed(self.frames):
                if fr.module.package == "driver":
                    self.api_calls.append((f.module.path, f.node.lineno, f.qualname))
                    break
                if fr.module.package == "rebulk":
                    break
        hook = self.b.entry_hook
        if hook is not None:
            hook(f, args, kwargs)
        if f.is_gen:
            def body():
                sig = yield from self.gexec_block(f.node.body, env)
                return sig[1] if sig else None

            return IterV(body(), "generator", frame)
        self.frames.append(frame)
        depth = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            sig = self.exec_block(f.node.body, env)
            return sig[1] if sig else None
        finally:
            del self.frames[depth - 1:]

    def next_of(self, it):
        """next value of an IterV; raises StopIteration (python) at the end"""
        if it.done:
            raise StopIteration
        if it.frame is not None:
            self.frames.append(it.frame)
            depth = len(self.frames)
            try:
                return next(it.gen)
            except StopIteration:
                it.done = True
                raise
            except PyExc as e:
                it.done = True
                if self.b.builtins["StopIteration"] in e.value.cls.mro:
                    # PEP 479
                    self.throw("RuntimeError", "generator raised StopIteration")
                raise
            finally:
                del self.frames[depth - 1:]
        try:
            return next(it.gen)
        except StopIteration:
            it.done = True
            raise
        except PyExc as e:
            # an iterator of the library (map, filter, ...) that calls code raising StopIteration just ends
            it.done = True
            if self.b.builtins["StopIteration"] in e.value.cls.mro:
                raise StopIteration
            raise

    def gen_throw(self, it, exc):
        self.frames.append(it.frame)
        depth = len(self.frames)
        try:
            return it.gen.throw(exc)
        finally:
            del self.frames[depth - 1:]

    def instantiate(self, cls, args, kwargs):
        if cls.native is not None:
            return cls.native(self, args, kwargs)
        if cls.nt_fields is None:
            base = next((c for c in cls.mro if c.nt_fields is not None), None)
            if base is not None:
                cls.nt_fields = base.nt_fields
        new, owner = cls.lookup("__new__")
        if new is not None and owner.native is None and owner.module is not None:
            o = self.call(new.func if isinstance(new, StaticV) else new, [cls] + args, kwargs)
            if not (isinstance(o, Obj) and cls in o.cls.mro):
                return o
        else:
            o = self.new(Obj(cls))
            for c in cls.mro:
                if c.native is not None and c.name in ("list", "dict", "OrderedDict", "defaultdict", "set", "tuple",
                                                       "str", "int", "frozenset"):
                    if c.name == "list":
                        o.payload = self.list()
                    elif c.name in ("dict", "OrderedDict", "defaultdict"):
                        o.payload = self.new(DictV(c.name))
                    elif c.name in ("set", "frozenset"):
                        o.payload = self.new(SetV())
                    elif c.name == "tuple":
                        if cls.nt_fields is None:
                            o.payload = c.native(self, args, {})
                    else:
                        raise Unsupported(f"subclass of {c.name}")
                    break
            if any(c.name == "BaseException" for c in cls.mro):
                o.attrs["args"] = tuple(args)
        if cls.is_typeddict:
            d = self.new(DictV())
            for k, v in kwargs.items():
                d.entries.append([k, v])
            return d
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call(self.bind_attr(init, o, cls), args, kwargs)
        elif args or kwargs:
            if "args" not in o.attrs and o.payload is None:
                self.throw("TypeError", f"{cls.name}() takes no arguments")
        return o

    # ------------------------------------------------------------------ attributes
    def bind_attr(self, v, obj, cls):
        if isinstance(v, FuncV):
            return BoundV(v, obj)
        if isinstance(v, NativeV) and v.is_method:
            return BoundV(v, obj)
        if isinstance(v, StaticV):
            return v.func
        if isinstance(v, ClassMethodV):
            return BoundV(v.func, cls)
        if isinstance(v, PropertyV):
            if v.fget is None:
                self.throw("AttributeError", "unreadable attribute")
            return self.call(v.fget, [obj], {})
        if isinstance(v, CachedPropertyV):
            if isinstance(obj, Obj):
                if v.name in obj.attrs:
                    return obj.attrs[v.name]
                r = self.call(v.fget, [obj], {})
                self.setattr_raw(obj, v.name, r)
                return r
        return v

    _MISSING = object()

    def getattr(self, o, name, default=_MISSING):
        try:
            r = self._getattr(o, name)
        except PyExc as e:
            if default is self._MISSING or self.b.builtins["AttributeError"] not in e.value.cls.mro:
                raise
            return default
        if r is self._MISSING:
            if default is not self._MISSING:
                return default
            if isinstance(o, Sym) and o.hint == "atom":
                raise Unsupported(f"attribute {name} of unknown {short(o)}")
            self.throw("AttributeError", f"{self.b.type_of(o).name} object has no attribute {name!r}")
        return r

    def _getattr(self, o, name):
        M = self._MISSING
        if isinstance(o, Obj):
            cv, owner = o.cls.lookup(name)
            if isinstance(cv, PropertyV):
                return self.bind_attr(cv, o, o.cls)
            if name in o.attrs:
                return o.attrs[name]
            if cv is not None or owner is not None:
                return self.bind_attr(cv, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = self.new(DictV())
                d.entries = [[k, v] for k, v in o.attrs.items()]
                return d
            ga, _ = o.cls.lookup("__getattr__")
            if ga is not None:
                try:
                    return self.call(ga, [o, name], {})
                except PyExc as e:
                    if self.b.builtins["AttributeError"] in e.value.cls.mro:
                        return M
                    raise
            for c in o.cls.mro:
                real = REAL_TYPES.get(c.name)
                if real is not None and (c.native is not None or c.name == "object") and on_instances(real, name):
                    raise Unsupported(f"{c.name}.{name} is not modelled")
            return M
        if isinstance(o, ModuleV):
            if name in o.ns:
                return o.ns[name]
            full = f"{o.name}.{name}"
            if full in self.program.modules:
                return self.load_module(full)
            if o.loader is not None:
                v = o.loader(name)
                o.ns[name] = v
                return v
            if o.package == "lib":
                raise Unsupported(f"{o.name}.{name} is not modelled")
            return M
        if isinstance(o, ClassV):
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, StaticV):
                    return v.func
                if isinstance(v, ClassMethodV):
                    return BoundV(v.func, o)
                return v
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__dict__":
                d = self.new(DictV())
                d.entries = [[k, v] for k, v in o.ns.items()]
                return d
            if name == "__class__":
                return self.b.builtins["type"]
            if name == "__module__":
                return o.module.name if o.module else "builtins"
            if name == "__annotations__":
                d = self.new(DictV())
                d.entries = [[k, v] for k, v in self.b.type_hints(o).items()]
                return d
            return M
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind_attr(c.ns[name], o.obj, mro[0])
            return M
        if isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.qualname
            if name == "__module__":
                return o.module.name
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__call__":
                return o
            if name == "__defaults__":
                return tuple(o.defaults) or None
            if name == "__class__":
                return self.b.type_of(o)
            return M
        if isinstance(o, BoundV):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            if name == "__call__":
                return NativeV("method-wrapper", lambda ip, a, k: ip.call(o, a, k))
            return self._getattr(o.func, name)
        if isinstance(o, NativeV):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__module__":
                return "builtins"
            if name == "__call__":
                return o
            return M
        if isinstance(o, AliasV):
            if name == "__origin__":
                return o.origin
            if name == "__args__":
                return o.args
            return M
        if isinstance(o, PartialV):
            if name == "keywords":
                d = self.new(DictV())
                d.entries = [[k, v] for k, v in o.kwargs.items()]
                return d
            if name == "__call__":
                return NativeV("method-wrapper", lambda ip, a, k: ip.call(o, a, k))
            return {"func": o.func, "args": tuple(o.args)}.get(name, M)
        if isinstance(o, PropertyV):
            if name == "setter":
                return NativeV("setter", lambda ip, a, k: PropertyV(o.fget, a[0], o.fdel))
            if name == "deleter":
                return NativeV("deleter", lambda ip, a, k: PropertyV(o.fget, o.fset, a[0]))
            if name == "getter":
                return NativeV("getter", lambda ip, a, k: PropertyV(a[0], o.fset, o.fdel))
            if name == "fget":
                return o.fget
            return M
        if name == "__class__":
            return self.b.type_of(o)
        if name == "__dict__":
            return M
        cls = self.b.type_of(o)
        v, owner = cls.lookup(name)
        if owner is not None:
            return self.bind_attr(v, o, cls)
        if isinstance(o, slice) and name in ("start", "stop", "step"):
            return getattr(o, name)
        if isinstance(o, RangeV) and name in ("start", "stop", "step"):
            return getattr(o, name)
        real = REAL_TYPES.get(cls.name)
        if real is not None and on_instances(real, name):
            raise Unsupported(f"{cls.name}.{name} is not modelled")
        return M

    def hasattr(self, o, name):
        try:
            return self._getattr(o, name) is not self._MISSING
        except PyExc as e:
            if self.b.builtins["AttributeError"] in e.value.cls.mro:
                return False
            raise

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            cv, owner = o.cls.lookup(name)
            if isinstance(cv, PropertyV):
                if cv.fset is None:
                    self.throw("AttributeError", f"can't set attribute {name!r}")
                self.call(cv.fset, [o, v], {})
                return
            sa, owner = o.cls.lookup("__setattr__")
            if isinstance(sa, FuncV):
                self.call(sa, [o, name, v], {})
                return
            if o.cls.dc_frozen:
                self.throw("AttributeError", f"cannot assign to field {name!r}")
            self.setattr_raw(o, name, v)
        elif isinstance(o, ClassV):
            self.mutate(o, "attribute assignment", name)
            o.ns[name] = v
            self.event("class-write", o.name, name)
        elif isinstance(o, ModuleV):
            self.mutate(o, "module variable assignment", f"{o.name}.{name}")
            o.ns[name] = v
            self.event("global-write", o.name, name)
        elif isinstance(o, (FuncV, NativeV)):
            self.mutate(o, "function attribute assignment", name)
            o.attrs[name] = v
        elif isinstance(o, BoundV):
            self.throw("AttributeError", "method has no attribute")
        elif isinstance(o, Sym):
            raise Unsupported(f"set attribute of unknown {short(o)}")
        else:
            self.throw("AttributeError", f"{self.b.type_of(o).name} object has no attribute {name!r}")

    def setattr_raw(self, o, name, v):
        self.mutate(o, "attribute assignment", name)
        o.attrs[name] = v

    def delattr(self, o, name):
        if isinstance(o, Obj):
            self.mutate(o, "attribute deletion", name)
            if name not in o.attrs:
                self.throw("AttributeError", name)
            del o.attrs[name]
            return
        raise Unsupported("delattr")

    # delegated to the builtin models
    def truth(self, v):
        return self.b.truth(v)

    def eq(self, a, b):
        return self.b.eq(a, b)

    def iterate(self, v):
        return self.b.iterate(v)

    def getitem(self, o, i):
        return self.b.getitem(o, i)

    def setitem(self, o, i, v):
        self.b.setitem(o, i, v)

    def delitem(self, o, i):
        self.b.delitem(o, i)

    def binop(self, op, a, b):
        return self.b.binop(op, a, b)

    def inplace(self, op, a, b):
        return self.b.inplace(op, a, b)

    def compare(self, op, a, b):
        return self.b.compare(op, a, b)
