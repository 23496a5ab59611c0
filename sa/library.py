"""Library modules known to the analysis."""
from __future__ import annotations

import ast
import re as _re

from . import stubs
from .values import (AliasV, BoundV, CachedPropertyV, ClassMethodV, ClassV, DictV, FuncV, Heap, Infeasible, IterV,
                     ListV, ModuleV, NativeV, Obj, PartialV, PropertyV, PyExc, RangeV, SetV, StaticV, Sym,
                     Unsupported, ViewV, short)

STUB_TREE = ast.parse(stubs.SOURCE)

ABC_ACCEPTS = {
    "Iterable": lambda c, v: c.lookup("__iter__")[1] is not None or c.name in (
        "str", "list", "tuple", "dict", "set", "frozenset", "range", "generator", "iterator", "dict_keys",
        "dict_values", "dict_items", "defaultdict", "OrderedDict"),
    "Callable": lambda c, v: c.name in ("function", "method", "type") or c.lookup("__call__")[1] is not None,
    "Hashable": lambda c, v: c.name not in ("list", "dict", "set", "defaultdict", "OrderedDict"),
    "Sized": lambda c, v: c.lookup("__len__")[1] is not None,
    "Container": lambda c, v: c.lookup("__contains__")[1] is not None,
    "Iterator": lambda c, v: c.name in ("generator", "iterator") or c.lookup("__next__")[1] is not None,
    "Generator": lambda c, v: c.name == "generator",
    "Sequence": lambda c, v: any(x.name in ("list", "tuple", "str", "range") for x in c.mro),
    "MutableSequence": lambda c, v: any(x.name == "list" for x in c.mro),
    "Set": lambda c, v: any(x.name in ("set", "frozenset", "dict_keys", "dict_items") for x in c.mro),
    "MutableSet": lambda c, v: any(x.name == "set" for x in c.mro),
    "Mapping": lambda c, v: any(x.name == "dict" for x in c.mro),
    "MutableMapping": lambda c, v: any(x.name == "dict" for x in c.mro),
    "Collection": lambda c, v: c.lookup("__len__")[1] is not None and c.lookup("__iter__")[1] is not None,
}


def stub_module(ip):
    m = ip.modules.get("\0stubs")
    if m is not None:
        return m
    from .interp import Env, Frame

    m = ModuleV("stubs", "<library model>", "stub")
    ip.modules["\0stubs"] = m
    m.ns["__name__"] = "stubs"
    B = ip.b

    def N(name, fn):
        m.ns[name] = NativeV(name, fn)

    def gen_throw(ip, a, k):
        it, exc = a
        e = PyExc(exc)
        try:
            ip.gen_throw(it, e)
        except StopIteration:
            return True
        except PyExc as e2:
            if e2.value is exc:
                return False
            raise
        ip.throw("RuntimeError", "generator didn't stop after throw()")

    N("__gen_throw__", gen_throw)

    def regex_span(ip, a, k):
        lo, hi = a
        s = ip.fresh("s", "int")
        e = ip.fresh("e", "int")
        f = ip.facts
        f.assume_le(0, s)
        f.assume_le(lo, s)
        f.assume_le(s, e)
        f.assume_le(e, hi)
        return (s, e)

    N("__regex_span__", regex_span)

    def regex_found(ip, a, k):
        n = ip.counters.get("\0regex", 0)
        if n >= ip.regex_total:
            return False
        r = ip.choose(2, "regex found") == 0
        if r:
            ip.counters["\0regex"] = n + 1
        return r

    N("__regex_found__", regex_found)
    def regex_memo(ip, a, k):
        """what the same search found before on this path (when replaying is asked for)"""
        if not ip.regex_memo_on:
            return None
        key = tuple(x if isinstance(x, (str, int)) else id(x) for x in a)
        ip.keepalive.append(a)
        if key not in ip.regex_memo:
            ip.regex_memo[key] = ip.new(ListV([]))
            return (False, ip.regex_memo[key])
        return (True, ip.regex_memo[key])

    N("__regex_memo__", regex_memo)
    N("__regex_max__", lambda ip, a, k: ip.regex_max)
    N("__regex_group_count__", lambda ip, a, k: ip.choose(3, "captures") if ip.truth(a[0]) else ip.choose(2, "group took part"))
    N("__regex_end__", lambda ip, a, k: ip.event("regex-end", *a))
    N("__regex_event__", lambda ip, a, k: ip.event("regex", *a))

    def assume(ip, a, k):
        if not ip.truth(a[0]):
            raise Infeasible("assume")

    N("__assume__", assume)
    env = Env(m.ns, None, "module", m)
    ip.frames.append(Frame(None, env, STUB_TREE, m))
    try:
        ip.exec_block(STUB_TREE.body, env)
    finally:
        ip.frames.pop()
    for n, fn in ABC_ACCEPTS.items():
        m.ns[n].ns["\0accepts"] = fn
    ip.regex_pattern_cls = m.ns["RegexPattern"]
    return m


def regex_compile(ip, pattern, flags=0, repeated=False):
    m = stub_module(ip)
    groups, gi = 0, {}
    text = pattern
    if isinstance(pattern, str):
        try:
            c = _re.compile(pattern)  # constant folding of the group table
            groups, gi = c.groups, dict(c.groupindex)
        except _re.error:
            pass
    d = ip.new(DictV())
    d.entries = [[k, v] for k, v in gi.items()]
    return ip.call(m.ns["RegexPattern"], [text, groups, d, flags, repeated], {})


def load(ip, B, name):
    m = ModuleV(name, f"<{name}>", "lib")
    m.ns["__name__"] = name
    fn = MODULES.get(name)
    if fn is None:
        avail = ip.available.get(name, None)
        if name in KNOWN_ABSENT or avail is False:
            ip.throw("ModuleNotFoundError", f"No module named {name!r}")
        if avail == "broken":
            ip.throw("ImportError", f"{name} cannot be imported")
        if avail is None and name not in ("regex",):
            def missing(attr):
                raise Unsupported(f"{name}.{attr} is not modelled")

            m.loader = missing
            return m
        fn = MODULES["re"] if name == "regex" else None
    fn(ip, B, m)
    return m


KNOWN_ABSENT = set()


def _ident(ip, a, k):
    return a[0]


def mod_builtins(ip, B, m):
    m.ns.update(B.builtins)


def mod_abc(ip, B, m):
    m.ns["ABCMeta"] = B.abcmeta
    m.ns["ABC"] = B.builtins["object"]
    m.ns["abstractmethod"] = NativeV("abstractmethod", _ident)
    m.ns["abstractproperty"] = NativeV("abstractproperty", lambda ip, a, k: PropertyV(a[0]))


def from_stubs(*names, **renames):
    def f(ip, B, m):
        s = stub_module(ip)
        for n in names:
            m.ns[n] = s.ns[n]
        for n, o in renames.items():
            m.ns[n] = s.ns[o]

    return f


def mod_collections(ip, B, m):
    s = stub_module(ip)
    b = B.builtins
    m.ns["OrderedDict"] = b["OrderedDict"]
    m.ns["defaultdict"] = b["defaultdict"]
    m.ns["Counter"] = s.ns["Counter"]
    m.ns["deque"] = s.ns["deque"]

    def namedtuple(ip, a, k):
        fields = a[1]
        fields = fields.replace(",", " ").split() if isinstance(fields, str) else list(B.iterate(fields))
        cls = ip.new(ClassV(a[0], [b["tuple"]], {}))
        cls.nt_fields = fields

        def new(ip, a, k):
            o = ip.new(Obj(a[0]))
            vals = dict(zip(fields, a[1:]))
            vals.update(k)
            for f in fields:
                if f not in vals:
                    ip.throw("TypeError", f"missing argument {f!r}")
                o.attrs[f] = vals[f]
            return o

        cls.ns["__new__"] = StaticV(NativeV("__new__", new))
        cls.ns["__init__"] = NativeV("__init__", lambda ip, a, k: [ip.setattr_raw(a[0], f, v) for f, v in
                                                                    list(zip(fields, a[1:])) + list(k.items())] and None, True)
        return cls

    m.ns["namedtuple"] = NativeV("namedtuple", namedtuple)


def mod_copy(ip, B, m):
    def deep(v, memo):
        if isinstance(v, tuple):
            return tuple(deep(x, memo) for x in v)
        if not isinstance(v, (ListV, DictV, SetV, Obj)):
            return v
        got = memo.get(id(v))
        if got is not None:
            return got
        if isinstance(v, ListV):
            r = memo[id(v)] = ip.list()
            r.items = [deep(x, memo) for x in v.items]
            return r
        if isinstance(v, DictV):
            r = memo[id(v)] = ip.new(DictV(v.kind, v.factory))
            r.entries = [[deep(k, memo), deep(x, memo)] for k, x in v.entries]
            return r
        if isinstance(v, SetV):
            r = memo[id(v)] = ip.new(SetV(frozenset=v.frozenset))
            r.items = [deep(x, memo) for x in v.items]
            return r
        dc, o = v.cls.lookup("__deepcopy__")
        if dc is not None:
            md = ip.new(DictV())
            r = ip.call(ip.bind_attr(dc, v, v.cls), [md], {})
            memo[id(v)] = r
            return r
        if v.cls.lookup("__getstate__")[0] is not None or v.cls.lookup("__reduce__")[0] is not None:
            raise Unsupported("pickle protocol in deepcopy")
        r = memo[id(v)] = ip.new(Obj(v.cls))
        r.label = v.label
        r.attrs = {k: deep(x, memo) for k, x in v.attrs.items()}
        if v.payload is not None:
            r.payload = deep(v.payload, memo)
        r.extra = v.extra
        return r

    def shallow(ip, a, k):
        v = a[0]
        if isinstance(v, ListV):
            return ip.list(list(v.items))
        if isinstance(v, DictV):
            return B._dict_copy(v)
        if isinstance(v, SetV):
            return ip.new(SetV(list(v.items), v.frozenset))
        if isinstance(v, Obj):
            c, o = v.cls.lookup("__copy__")
            if c is not None:
                return ip.call(ip.bind_attr(c, v, v.cls), [], {})
            r = ip.new(Obj(v.cls))
            r.attrs = dict(v.attrs)
            if v.payload is not None:
                r.payload = shallow(ip, [v.payload], {})
            r.extra = v.extra
            return r
        return v

    m.ns["deepcopy"] = NativeV("deepcopy", lambda ip, a, k: deep(a[0], {}))
    m.ns["copy"] = NativeV("copy", shallow)


def mod_itertools(ip, B, m):
    s = stub_module(ip)
    for n in ("groupby", "takewhile", "dropwhile", "filterfalse", "pairwise", "islice", "count", "repeat",
              "zip_longest", "starmap", "product", "combinations", "tee", "accumulate"):
        m.ns[n] = s.ns[n]
    c = NativeV("chain", lambda ip, a, k: ip.call(s.ns["chain"], a, k))
    c.attrs["from_iterable"] = s.ns["chain_from_iterable"]
    m.ns["chain"] = c


def mod_functools(ip, B, m):
    s = stub_module(ip)
    m.ns["reduce"] = s.ns["reduce"]
    m.ns["partial"] = NativeV("partial", lambda ip, a, k: PartialV(a[0], a[1:], k))

    def lru(ip, a, k):
        if a and isinstance(a[0], (FuncV, BoundV)):
            return cached(a[0])
        return NativeV("lru_cache", lambda ip, a, k: cached(a[0]))

    def cached(fn):
        store = ip.call(s.ns["_Cached"], [fn], {})
        store.label = f"cache of {short(fn)}"
        n = NativeV("cached", lambda ip, a, k: ip.call(store, a, k), True)
        n.attrs["__wrapped__"] = fn
        n.attrs["\0store"] = store
        return n

    m.ns["lru_cache"] = NativeV("lru_cache", lru)
    m.ns["cache"] = NativeV("cache", lru)
    m.ns["cached_property"] = NativeV("cached_property", lambda ip, a, k: CachedPropertyV(a[0]))
    m.ns["wraps"] = NativeV("wraps", lambda ip, a, k: NativeV("wraps", _ident))
    m.ns["total_ordering"] = NativeV("total_ordering", lambda ip, a, k: _total_ordering(ip, B, a[0]))
    m.ns["singledispatch"] = NativeV("singledispatch", B._unsupported("singledispatch"))

    def cmp_to_key(ip, a, k):
        raise Unsupported("cmp_to_key")

    m.ns["cmp_to_key"] = NativeV("cmp_to_key", cmp_to_key)


def _total_ordering(ip, B, cls):
    have = [n for n in ("__lt__", "__gt__", "__le__", "__ge__") if isinstance(cls.ns.get(n), FuncV)]
    if not have:
        ip.throw("ValueError", "must define at least one ordering operation")

    def op(fn, neg_eq):
        pass

    root = have[0]

    def res(ip, o, x, name):
        r = ip.call(ip.getattr(o, root), [x], {})
        if r is NotImplemented:
            return r
        r = ip.truth(r)
        eq = lambda: B.eq(o, x)
        table = {
            ("__lt__", "__gt__"): lambda: not r and not eq(), ("__lt__", "__le__"): lambda: r or eq(),
            ("__lt__", "__ge__"): lambda: not r,
            ("__gt__", "__lt__"): lambda: not r and not eq(), ("__gt__", "__ge__"): lambda: r or eq(),
            ("__gt__", "__le__"): lambda: not r,
            ("__le__", "__ge__"): lambda: not r or eq(), ("__le__", "__lt__"): lambda: r and not eq(),
            ("__le__", "__gt__"): lambda: not r,
            ("__ge__", "__le__"): lambda: not r or eq(), ("__ge__", "__gt__"): lambda: r and not eq(),
            ("__ge__", "__lt__"): lambda: not r,
        }
        return table[(root, name)]()

    for n in ("__lt__", "__gt__", "__le__", "__ge__"):
        if n not in have:
            cls.ns[n] = NativeV(n, lambda ip, a, k, n=n: res(ip, a[0], a[1], n), True)
    return cls


def mod_dataclasses(ip, B, m):
    s = stub_module(ip)

    def dataclass(ip, a, k):
        if a:
            return B.make_dataclass(a[0], k)
        return NativeV("dataclass", lambda ip, a, k2: B.make_dataclass(a[0], k))

    m.ns["dataclass"] = NativeV("dataclass", dataclass)
    m.ns["is_dataclass"] = NativeV("is_dataclass", lambda ip, a, k: (
        a[0].is_dataclass if isinstance(a[0], ClassV) else isinstance(a[0], Obj) and a[0].cls.is_dataclass))

    def field(ip, a, k):
        return ip.call(s.ns["_Field"], [], k)

    m.ns["field"] = NativeV("field", field)

    def fields(ip, a, k):
        c = a[0] if isinstance(a[0], ClassV) else a[0].cls
        if not c.is_dataclass:
            ip.throw("TypeError", "must be called with a dataclass type or instance")
        return tuple(ip.call(s.ns["_FieldInfo"], [n, B.dc_init(c, n)], {}) for n in B.dc_fields(c))

    m.ns["fields"] = NativeV("fields", fields)

    def replace(ip, a, k):
        c = a[0].cls
        kw = {f: a[0].attrs[f] for f in B.dc_fields(c)}
        kw.update(k)
        return ip.call(c, [], kw)

    m.ns["replace"] = NativeV("replace", replace)


def argspec(ip, B, fn):
    s = stub_module(ip)
    drop = 0
    if isinstance(fn, BoundV):
        fn = fn.func
    if isinstance(fn, StaticV):
        fn = fn.func
    if isinstance(fn, ClassV):
        new, o1 = fn.lookup("__init__")
        fn = new
        if not isinstance(fn, (FuncV, NativeV)):
            raise Unsupported("signature")
    elif isinstance(fn, Obj):
        c, o = fn.cls.lookup("__call__")
        if c is None:
            ip.throw("TypeError", "unsupported callable")
        fn = c
    if isinstance(fn, NativeV):
        if fn.argnames is None:
            raise Unsupported(f"signature of {fn.name}")
        return ip.call(s.ns["ArgSpec"], [ip.list(list(fn.argnames)), None, None, None, ip.list(), None, ip.new(DictV())], {})
    if isinstance(fn, PartialV):
        inner = fn.func
        spec = argspec(ip, B, inner)
        # the first argument of a method or constructor is given by the call
        bound = 1 if isinstance(inner, (BoundV, ClassV)) else 0
        names = list(spec.attrs["args"].items)[bound + len(fn.args):]
        cut = next((i for i, n in enumerate(names) if n in fn.kwargs), len(names))
        spec.attrs["kwonlyargs"] = ip.list(names[cut:] + list(spec.attrs["kwonlyargs"].items))
        spec.attrs["args"] = ip.list(names[:cut])
        if cut < len(names):
            spec.attrs["varargs"] = None
        spec.attrs["defaults"] = None
        return spec
    if not isinstance(fn, FuncV):
        if isinstance(fn, Sym):
            raise Unsupported("signature of unknown")
        ip.throw("TypeError", "unsupported callable")
    a = fn.node.args
    kd = ip.new(DictV())
    kd.entries = [[k, v] for k, v in fn.kw_defaults.items()]
    return ip.call(s.ns["ArgSpec"], [
        ip.list([p.arg for p in a.posonlyargs + a.args]), a.vararg.arg if a.vararg else None,
        a.kwarg.arg if a.kwarg else None, tuple(fn.defaults) or None, ip.list([p.arg for p in a.kwonlyargs]),
        kd if kd.entries else None, ip.new(DictV())], {})


def mod_inspect(ip, B, m):
    m.ns["isclass"] = NativeV("isclass", lambda ip, a, k: isinstance(a[0], ClassV))
    m.ns["ismodule"] = NativeV("ismodule", lambda ip, a, k: isinstance(a[0], ModuleV))
    m.ns["isfunction"] = NativeV("isfunction", lambda ip, a, k: isinstance(a[0], FuncV))
    m.ns["ismethod"] = NativeV("ismethod", lambda ip, a, k: isinstance(a[0], BoundV) and isinstance(a[0].func, FuncV))
    m.ns["isroutine"] = NativeV("isroutine", lambda ip, a, k: isinstance(a[0], (BoundV, FuncV, NativeV)))
    m.ns["isbuiltin"] = NativeV("isbuiltin", lambda ip, a, k: isinstance(a[0], NativeV) or (
        isinstance(a[0], BoundV) and isinstance(a[0].func, NativeV)))
    m.ns["isgenerator"] = NativeV("isgenerator", lambda ip, a, k: isinstance(a[0], IterV) and a[0].kind == "generator")
    m.ns["isabstract"] = NativeV("isabstract", B._unsupported("isabstract"))
    m.ns["getfullargspec"] = NativeV("getfullargspec", lambda ip, a, k: argspec(ip, B, a[0]))
    m.ns["signature"] = NativeV("signature", B._unsupported("signature"))

    def getmembers(ip, a, k):
        o = a[0]
        pred = a[1] if len(a) > 1 else k.get("predicate")
        if isinstance(o, ModuleV):
            names = sorted(n for n in o.ns)
            get = lambda n: o.ns[n]
        elif isinstance(o, ClassV):
            names = sorted({n for c in o.mro for n in c.ns})
            get = lambda n: ip.getattr(o, n)
        else:
            raise Unsupported("getmembers")
        out = []
        for n in names:
            v = get(n)
            if pred is None or ip.truth(ip.call(pred, [v], {})):
                out.append((n, v))
        return ip.list(out)

    m.ns["getmembers"] = NativeV("getmembers", getmembers)

    frame_cls = ClassV("frame", [B.builtins["object"]], {})

    def currentframe(ip, a, k):
        prev = None
        for f in ip.frames:
            o = ip.new(Obj(frame_cls))
            g = ip.new(DictV())
            g.entries = [[n, v] for n, v in f.module.ns.items() if n in ("__package__", "__name__", "__file__")]
            o.attrs = {"f_globals": g, "f_lineno": getattr(f.node, "lineno", 0), "f_back": prev}
            code = ip.new(Obj(frame_cls))
            code.attrs = {"co_filename": f.module.path or "?", "co_name": f.func.name if f.func else "<module>"}
            o.attrs["f_code"] = code
            prev = o
        return prev

    m.ns["currentframe"] = NativeV("currentframe", currentframe)


def mod_logging(ip, B, m):
    for n, v in (("CRITICAL", 50), ("ERROR", 40), ("WARNING", 30), ("INFO", 20), ("DEBUG", 10), ("NOTSET", 0)):
        m.ns[n] = v
    logger_cls = ClassV("Logger", [B.builtins["object"]], {})

    def log(ip, a, k):
        level, msg, args = a[0], a[1], a[2:]
        if not (isinstance(level, int) or isinstance(level, Sym) and level.hint == "int"):
            ip.throw("TypeError", "level must be an integer")
        ip.event("log", level, msg)
        if ip.log_formats:
            for x in args:
                if isinstance(x, int):
                    continue
                try:
                    B.str(x)
                except PyExc as e:
                    # handlers catch (and report on stderr) what fails while they format a record
                    if not B.isinstance(e.value, B.builtins["Exception"]):
                        raise

    def named(level):
        return NativeV(level, lambda ip, a, k: log(ip, [m.ns[level.upper()]] + a[1:], k), True)

    logger_cls.ns["log"] = NativeV("log", lambda ip, a, k: log(ip, a[1:], k), True)
    for n in ("debug", "info", "warning", "error", "critical"):
        logger_cls.ns[n] = named(n)
    logger_cls.ns["isEnabledFor"] = NativeV("isEnabledFor", lambda ip, a, k: ip.choose(2, "level enabled") == 0 if ip.log_formats == "some" else bool(ip.log_formats), True)
    logger_cls.ns["getEffectiveLevel"] = NativeV("getEffectiveLevel", lambda ip, a, k: 10 if ip.log_formats else 30, True)

    def get(ip, a, k):
        o = ip.new(Obj(logger_cls))
        return o

    m.ns["getLogger"] = NativeV("getLogger", get)
    m.ns["Logger"] = logger_cls
    m.ns["NullHandler"] = ClassV("NullHandler", [B.builtins["object"]], {})
    logger_cls.ns["addHandler"] = NativeV("addHandler", lambda ip, a, k: None, True)


def mod_os(ip, B, m):
    d = ip.new(DictV())
    env_cls = ClassV("_Environ", [B.builtins["object"]], {})
    env = ip.new(Obj(env_cls))

    def value(name):
        ip.event("environ", name)
        v = ip.env_vars.get(name)
        return v

    env_cls.ns["get"] = NativeV("get", lambda ip, a, k: (lambda v: (a[2] if len(a) > 2 else k.get("default")) if v is None else v)(value(a[1])), True)

    def item(ip, a, k):
        v = value(a[1])
        if v is None:
            ip.throw("KeyError", a[1])
        return v

    env_cls.ns["__getitem__"] = NativeV("__getitem__", item, True)
    env_cls.ns["__contains__"] = NativeV("__contains__", lambda ip, a, k: value(a[1]) is not None, True)
    m.ns["environ"] = env
    m.ns["getenv"] = NativeV("getenv", lambda ip, a, k: (lambda v: (a[1] if len(a) > 1 else k.get("default")) if v is None else v)(value(a[0])))
    path = ModuleV("os.path", None, "lib")
    path.ns["basename"] = NativeV("basename", lambda ip, a, k: a[0].rsplit("/", 1)[-1] if isinstance(a[0], str) else ip.intern("basename", (a[0],), "str"))
    m.ns["path"] = path
    m.ns["sep"] = "/"


def mod_re(ip, B, m):
    stub_module(ip)
    m.ns["error"] = B.builtins["ValueError"]
    for n in ("IGNORECASE", "I", "MULTILINE", "M", "DOTALL", "S", "VERBOSE", "X", "UNICODE", "U", "ASCII", "A"):
        m.ns[n] = int(getattr(_re, n))
    repeated = m.name == "regex"

    def comp(ip, a, k):
        names = ["pattern", "flags"]
        vals = dict(zip(names, a))
        vals.update(k)
        for n in vals:
            if n not in names and not repeated:
                ip.throw("TypeError", f"compile() got an unexpected keyword argument {n!r}")
        ip.event("re.compile", m.name, vals.get("pattern"), vals.get("flags", 0))
        return regex_compile(ip, vals["pattern"], vals.get("flags", 0), repeated)

    m.ns["compile"] = NativeV("compile", comp, False, ["pattern", "flags"])

    def const_match(name):
        def f(ip, a, k):
            ip.event("re.match", m.name)
            if all(isinstance(x, (str, int)) for x in a):
                r = getattr(_re, name)(*a)
                if r is None:
                    return None
                spans = ip.list([ip.list([r.span(i + 1)] if r.span(i + 1)[0] >= 0 else []) for i in range(r.re.groups)])
                p = regex_compile(ip, a[0])
                return ip.call(stub_module(ip).ns["RegexMatch"], [p, a[1], r.start(), r.end(), spans], {})
            p = regex_compile(ip, a[0])
            return ip.call(ip.getattr(p, name), a[1:2], {})

        return NativeV(name, f)

    for n in ("match", "search", "fullmatch"):
        m.ns[n] = const_match(n)

    def sub(ip, a, k):
        if all(isinstance(x, (str, int)) for x in a):
            return _re.sub(*a)
        return ip.fresh("resub", "str")

    m.ns["sub"] = NativeV("sub", sub)

    def split(ip, a, k):
        if all(isinstance(x, (str, int)) for x in a):
            return ip.list(_re.split(*a))
        raise Unsupported("re.split")

    m.ns["split"] = NativeV("split", split)
    m.ns["escape"] = NativeV("escape", lambda ip, a, k: _re.escape(a[0]) if isinstance(a[0], str) else ip.intern("escape", (a[0],), "str"))
    m.ns["Pattern"] = stub_module(ip).ns["RegexPattern"]
    m.ns["Match"] = stub_module(ip).ns["RegexMatch"]


def mod_importlib(ip, B, m):
    m.ns["import_module"] = NativeV("import_module", lambda ip, a, k: ip.load_module(a[0]))
    if m.name == "importlib":
        m.ns["util"] = ip.load_module("importlib.util")

    def find_spec(ip, a, k):
        # a module that cannot be imported may well be found
        if a[0] not in MODULES and a[0] not in ip.program.modules and (
                a[0] in KNOWN_ABSENT or ip.available.get(a[0], True) is False):
            return None
        return ip.new(Obj(ClassV("ModuleSpec", [B.builtins["object"]], {})))

    m.ns["find_spec"] = NativeV("find_spec", find_spec)


def mod_types(ip, B, m):
    b = B.builtins
    m.ns["GeneratorType"] = b["generator"]
    m.ns["FunctionType"] = b["function"]
    m.ns["LambdaType"] = b["function"]
    m.ns["MethodType"] = b["method"]
    m.ns["ModuleType"] = b["module"]
    m.ns["UnionType"] = b["UnionType"]
    m.ns["GenericAlias"] = b["GenericAlias"]
    m.ns["NoneType"] = b["NoneType"]
    m.ns["MappingProxyType"] = NativeV("MappingProxyType", _ident)
    m.ns["SimpleNamespace"] = NativeV("SimpleNamespace", B._unsupported("SimpleNamespace"))


def mod_typing(ip, B, m):
    b = B.builtins
    s = stub_module(ip)
    special = ClassV("_SpecialForm", [b["object"]], {})

    def form(name):
        o = ip.new(Obj(special))
        o.label = f"typing.{name}"
        o.attrs["_name"] = name
        return o

    def subscript(name):
        n = form(name)
        return n

    special.ns["__getitem__"] = NativeV("__getitem__", lambda ip, a, k: (
        AliasV("Union", (a[1], None)) if a[0].attrs["_name"] == "Optional" else
        AliasV("Union", a[1] if isinstance(a[1], tuple) else (a[1],)) if a[0].attrs["_name"] == "Union" else
        AliasV(a[0], a[1] if isinstance(a[1], tuple) else (a[1],))), True)
    special.ns["__or__"] = NativeV("__or__", lambda ip, a, k: AliasV("Union", (a[0], a[1])), True)
    special.ns["__ror__"] = NativeV("__ror__", lambda ip, a, k: AliasV("Union", (a[1], a[0])), True)
    m.ns["TYPE_CHECKING"] = False
    for n in ("Any", "Literal", "Union", "Optional", "ClassVar", "Final", "Annotated", "NoReturn", "Self", "Never",
              "TypeAlias", "Required", "NotRequired", "Concatenate", "TypeGuard"):
        m.ns[n] = form(n)
    m.ns["Generic"] = B.generic
    m.ns["Protocol"] = B.generic
    m.ns["TypedDict"] = B.typing_typeddict
    m.ns["NamedTuple"] = B.typing_namedtuple
    for n, t in (("List", "list"), ("Dict", "dict"), ("Set", "set"), ("Tuple", "tuple"), ("FrozenSet", "frozenset"),
                 ("Type", "type")):
        m.ns[n] = b[t]
    for n in ("Iterable", "Iterator", "Sequence", "MutableSequence", "Mapping", "MutableMapping", "Callable",
              "Container", "KeysView", "Hashable", "Generator", "MutableSet", "Collection", "Sized"):
        m.ns[n] = s.ns[n]
    m.ns["OrderedDict"] = b["OrderedDict"]
    m.ns["cast"] = NativeV("cast", lambda ip, a, k: a[1])
    m.ns["overload"] = NativeV("overload", _ident)
    m.ns["final"] = NativeV("final", _ident)
    m.ns["override"] = NativeV("override", _ident)
    m.ns["no_type_check"] = NativeV("no_type_check", _ident)
    m.ns["runtime_checkable"] = NativeV("runtime_checkable", _ident)
    tv = b["TypeVar"]
    mk = NativeV("TypeVar", lambda ip, a, k: ip.new(Obj(tv)))
    for n in ("TypeVar", "ParamSpec", "TypeVarTuple", "NewType"):
        m.ns[n] = mk
    m.ns["get_origin"] = NativeV("get_origin", lambda ip, a, k: (
        (m.ns["Union"] if a[0].origin == "Union" and False else b["UnionType"] if a[0].origin == "Union" else a[0].origin)
        if isinstance(a[0], AliasV) else None))

    def get_args(ip, a, k):
        if isinstance(a[0], AliasV):
            return tuple(b["NoneType"] if x is None else x for x in a[0].args)
        return ()

    m.ns["get_args"] = NativeV("get_args", get_args)

    def hints(ip, a, k):
        d = ip.new(DictV())
        if isinstance(a[0], ClassV):
            d.entries = [[n, v] for n, v in B.type_hints(a[0]).items()]
        return d

    m.ns["get_type_hints"] = NativeV("get_type_hints", hints)
    m.ns["is_typeddict"] = NativeV("is_typeddict", lambda ip, a, k: isinstance(a[0], ClassV) and a[0].is_typeddict)


def mod_contextlib(ip, B, m):
    s = stub_module(ip)
    cm = s.ns["_GeneratorContextManager"]
    m.ns["contextmanager"] = NativeV("contextmanager", lambda ip, a, k: NativeV(
        "contextmanager", lambda ip, a2, k2: ip.call(cm, [ip.call(a[0], a2, k2)], {}), True))
    m.ns["suppress"] = s.ns["suppress"]
    m.ns["nullcontext"] = s.ns["nullcontext"]


def mod_operator(ip, B, m):
    s = stub_module(ip)
    for n in ("attrgetter", "itemgetter", "methodcaller"):
        m.ns[n] = s.ns[n]
    for n, op in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq"),
                  ("is_", "Is"), ("is_not", "IsNot")):
        m.ns[n] = NativeV(n, lambda ip, a, k, op=op: B.compare(op, a[0], a[1]))
    for n, op in (("add", "Add"), ("sub", "Sub"), ("or_", "BitOr"), ("and_", "BitAnd")):
        m.ns[n] = NativeV(n, lambda ip, a, k, op=op: B.binop(op, a[0], a[1]))
    m.ns["not_"] = NativeV("not_", lambda ip, a, k: not B.truth(a[0]))
    m.ns["truth"] = NativeV("truth", lambda ip, a, k: B.truth(a[0]))
    m.ns["contains"] = NativeV("contains", lambda ip, a, k: B.contains(a[0], a[1]))
    m.ns["getitem"] = NativeV("getitem", lambda ip, a, k: B.getitem(a[0], a[1]))


def mod_sys(ip, B, m):
    m.ns["version_info"] = (3, 12, 3)
    m.ns["maxsize"] = 2 ** 63 - 1
    m.ns["modules"] = ip.new(DictV())


def mod_string(ip, B, m):
    import string

    for n in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "punctuation", "whitespace"):
        m.ns[n] = getattr(string, n)


def mod_warnings(ip, B, m):
    m.ns["warn"] = NativeV("warn", lambda ip, a, k: None)


MODULES = {
    "builtins": mod_builtins, "abc": mod_abc, "collections": mod_collections,
    "collections.abc": from_stubs("Sized", "Iterable", "Container", "Callable", "Hashable", "Iterator", "Generator",
                                  "Reversible", "Collection", "KeysView", "ValuesView", "ItemsView", "Sequence",
                                  "MutableSequence", "Set", "MutableSet", "Mapping", "MutableMapping"),
    "copy": mod_copy, "itertools": mod_itertools, "functools": mod_functools, "dataclasses": mod_dataclasses,
    "importlib": mod_importlib, "importlib.util": mod_importlib, "inspect": mod_inspect, "logging": mod_logging, "os": mod_os, "re": mod_re, "types": mod_types,
    "typing": mod_typing, "typing_extensions": mod_typing, "contextlib": mod_contextlib, "operator": mod_operator,
    "sys": mod_sys, "string": mod_string, "warnings": mod_warnings,
    "bisect": from_stubs("bisect_left", "bisect_right", "insort", bisect="bisect_right", insort_right="insort"),
}
