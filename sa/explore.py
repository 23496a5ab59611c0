"""Trace partition enumeration: runs a driver function over all its abstract paths."""
from __future__ import annotations

import ast
import sys
import time
import traceback

from .builtins_model import EXCEPTIONS
from .interp import DEBUG_ENGINE, Env, Frame, Interp
from .values import (AliasV, BoundV, ClassV, DictV, FuncV, Heap, Infeasible, IterV, ListV, ModuleV, NativeV, Obj,
                     PartialV, PropertyV, PyExc, SetV, StaticV, Sym, Unsupported, ViewV, short)

sys.setrecursionlimit(20000)


class Config:
    def __init__(self, **kw):
        self.k = 2
        self.regex_total = 2
        self.regex_max = 2
        self.max_paths = 3000
        self.seconds = 60
        self.crash = True  # an exception leaving the driver is a violation
        self.set_mode = "fwd"
        self.max_loop = 6
        self.env = {}
        self.available = {}
        self.stop_after = 3
        self.thorough = False
        self.__dict__.update(kw)


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.decided = 0
        self.infeasible = 0
        self.bounded = 0
        self.unsupported = {}
        self.violations = []
        self.obligations = 0
        self.covered = set()
        self.callsites = set()
        self.complete = True
        self.internal = []
        self.wall = 0.0
        self.tags = {}

    def merge_dict(self):
        return self.__dict__


def reachable(ip, roots):
    """heap objects reachable from roots, except code and library objects"""
    seen = {}
    todo = list(roots)
    while todo:
        o = todo.pop()
        if isinstance(o, tuple):
            todo.extend(o)
            continue
        if isinstance(o, BoundV):
            todo.append(o.self)
            continue
        if isinstance(o, PartialV):
            todo.extend(o.args)
            todo.extend(o.kwargs.values())
            todo.append(o.func)
            continue
        if isinstance(o, ViewV):
            todo.append(o.dict)
            continue
        if not isinstance(o, Heap) or id(o) in seen:
            continue
        if isinstance(o, (ModuleV, ClassV, NativeV)):
            continue
        seen[id(o)] = o
        if isinstance(o, ListV):
            todo.extend(o.items)
        elif isinstance(o, DictV):
            for k, v in o.entries:
                todo.append(k)
                todo.append(v)
        elif isinstance(o, SetV):
            todo.extend(o.items)
        elif isinstance(o, Obj):
            todo.extend(o.attrs.values())
            if isinstance(o.payload, Heap):
                todo.append(o.payload)
        elif isinstance(o, FuncV):
            todo.extend(o.defaults)
            todo.extend(o.kw_defaults.values())
            todo.extend(o.attrs.values())
            e = o.env
            while e is not None and e.kind != "module":
                todo.extend(e.vars.values())
                e = e.parent
    return list(seen.values())


def intrinsics(ip, ns):
    def N(name, fn):
        ns[name] = NativeV(name, fn)

    def unknown(ip_, a, k):
        hint = a[1] if len(a) > 1 else k.get("hint", "atom")
        v = ip.fresh(a[0], hint)
        return v

    def distinct(ip_, a, k):
        """unknown values assumed non empty, truthy, different from each other and from every constant"""
        out = []
        for label in a[1:]:
            v = ip.fresh(label, a[0])
            ip.facts.opaque.add(v)
            if a[0] == "str":
                ip.facts.assume_le(1, ip.b.len(v))
            else:
                ip.facts.memo[("truth", v)] = True
            out.append(v)
        return tuple(out)

    def choose(ip_, a, k):
        if len(a) == 1 and isinstance(a[0], int) and not isinstance(a[0], bool):
            return ip.choose(a[0], "driver case")
        return a[ip.choose(len(a), "driver case")]

    def check(ip_, a, k):
        ip.obligations += 1
        rule = a[1] if len(a) > 1 else "check"
        msg = a[2] if len(a) > 2 else ""
        ip.tag_obligation(rule)
        if not ip.truth(a[0]):
            if isinstance(msg, tuple):
                msg = " ".join(x if isinstance(x, str) else short(x, 120) for x in msg)
            ip.violate(rule, msg if isinstance(msg, str) else short(msg, 200))

    def fail(ip_, a, k):
        ip.obligations += 1
        ip.tag_obligation(a[0])
        msg = a[1] if len(a) > 1 else ""
        if isinstance(msg, tuple):
            msg = " ".join(x if isinstance(x, str) else short(x, 120) for x in msg)
        ip.violate(a[0], msg if isinstance(msg, str) else short(msg, 200))

    def assume(ip_, a, k):
        if not ip.truth(a[0]):
            raise Infeasible("assume")

    def le(ip_, a, k):
        """assume a <= b without a case split"""
        ip.facts.assume_le(a[0], a[1])

    def lt(ip_, a, k):
        ip.facts.assume_le(a[0], a[1], -1)

    def event(ip_, a, k):
        ip.event(a[0], *a[1:])

    def events(ip_, a, k):
        kinds = set(a)
        return ip.list([(e.kind,) + tuple(e.data) if len(kinds) != 1 else tuple(e.data)
                        for e in ip.events if e.kind in kinds])

    def freeze(ip_, a, k):
        label = a[1]
        skip = {id(x) for x in a[2:]}
        for o in reachable(ip, [a[0]]):
            if id(o) not in skip and o.frozen is None:
                o.frozen = label
        ip.obligations += 1
        ip.tag_obligation("ownership")
        return a[0]

    def shallow(o):
        if isinstance(o, (ListV, SetV)):
            return list(o.items)
        if isinstance(o, DictV):
            return [x for kv in o.entries for x in kv]
        if isinstance(o, Obj):
            return [x for kv in o.attrs.items() for x in kv] + ([o.payload] if isinstance(o.payload, Heap) else [])
        if isinstance(o, FuncV):
            return [x for kv in o.attrs.items() for x in kv] + list(o.defaults)
        return []

    class SnapV(NativeV):
        pass

    def snapshot(ip_, a, k):
        """the contents of every object reachable from a value, to be compared later with changed()"""
        s = SnapV("snapshot", None)
        skip = {id(x) for x in a[1:]}
        s.data = [(o, shallow(o)) for o in reachable(ip, [a[0]]) if id(o) not in skip]
        return s

    def changed(ip_, a, k):
        """a description of the first object that differs from the snapshot, or None"""
        ip.obligations += 1
        ip.tag_obligation("snapshot")
        for o, items in a[0].data:
            now = shallow(o)
            if len(now) != len(items) or any(x is not y and (isinstance(x, Heap) or isinstance(y, Heap) or
                                                             type(x) is not type(y) or x != y)
                                             for x, y in zip(now, items)):
                return f"{short(o, 80)} (was {short(items, 80)})"
        return None

    def unfreeze(ip_, a, k):
        for o in reachable(ip, [a[0]]):
            o.frozen = None

    def freeze_modules(ip_, a, k):
        """module variables, class attributes and function attributes of the package"""
        for m in list(ip.modules.values()):
            if m.package != "rebulk":
                continue
            m.frozen = a[0]
            for v in m.ns.values():
                if isinstance(v, ClassV) and v.module is m:
                    v.frozen = a[0]
                    for x in v.ns.values():
                        for o in reachable(ip, [x]):
                            o.frozen = o.frozen or a[0]
                elif isinstance(v, (ListV, DictV, SetV, Obj, FuncV)):
                    for o in reachable(ip, [v]):
                        o.frozen = o.frozen or a[0]

    def concrete(ip_, a, k):
        v = a[0]
        return not isinstance(v, Sym)

    def setting(ip_, a, k):
        setattr(ip, a[0], a[1])

    def note(ip_, a, k):
        ip.notes[a[0]] = ip.notes.get(a[0], 0) + 1

    def provenance(ip_, a, k):
        """('slice', base, start, stop) of an unknown string, else (op, value)"""
        v = a[0]
        if isinstance(v, Sym):
            return (v.op,) + tuple(v.args)
        return ("const", v)

    def known(ip_, a, k):
        """is the comparison already entailed by the path (no case split)"""
        op, x, y = a
        if op == "==":
            r = ip.facts.known_eq(x, y)
        elif op == "<":
            r = ip.facts.known_lt(x, y)
        elif op == "<=":
            r = ip.facts.known_lt(y, x)
            r = None if r is None else not r
        else:
            raise Unsupported(op)
        return r is True

    def uid(ip_, a, k):
        return ip.b.ident(a[0])

    def show(ip_, a, k):
        if SHOW[0] > 0:
            SHOW[0] -= 1
            print("SHOW", *[short(x, 300) for x in a])

    def isunknown(ip_, a, k):
        return isinstance(a[0], Sym)

    def thorough(ip_, a, k):
        return ip.thorough

    def handled_exceptions(ip_, a, k):
        """the builtin exception classes the package names anywhere but in a raise: all its handlers can tell apart"""
        return tuple(ip.b.builtins[n] for n in handled_names(ip.program))

    def environment(ip_, a, k):
        """value of an environment variable in this abstract case, or None"""
        return ip.env_vars.get(a[0])

    def available(ip_, a, k):
        """whether a third party module can be imported in this abstract case"""
        return ip.available.get(a[0])

    for n, f in list(locals().items()):
        if callable(f) and n not in ("N", "shallow", "SnapV"):
            N(n, f)


def handled_names(program):
    names = getattr(program, "_handled", None)
    if names is None:
        # getattr() with a default and hasattr() handle AttributeError without naming it
        found = {"AttributeError"}
        for m in program.modules.values():
            if m.package != "rebulk":
                continue
            raised = set()
            for node in ast.walk(m.tree):
                if isinstance(node, ast.Raise):
                    raised.update(id(x) for x in ast.walk(node))
                elif isinstance(node, ast.ClassDef):
                    for b in node.bases:
                        raised.update(id(x) for x in ast.walk(b))
            for node in ast.walk(m.tree):
                if isinstance(node, ast.Name) and id(node) not in raised:
                    if node.id in EXCEPTIONS:
                        found.add(node.id)
        names = program._handled = sorted(found - {"StopIteration", "StopAsyncIteration", "GeneratorExit"})
    return names


class Path(Interp):
    def __init__(self, program, choose, cfg):
        self.regex_total = cfg.regex_total
        self.regex_max = cfg.regex_max
        self.regex_memo_on = False
        self.regex_memo = {}
        self.keepalive = []
        self.regex_pattern_cls = None
        self.notes = {}
        self.rule_tags = {}
        self.deadline = None
        super().__init__(program, choose, cfg.k)
        self.set_mode = cfg.set_mode
        self.MAX_LOOP = cfg.max_loop
        # a tuple of values: one abstract case each
        self.env_vars = {n: v[choose(len(v), "environment " + n)] if isinstance(v, tuple) else v
                         for n, v in cfg.env.items()}
        self.available = {n: v[choose(len(v), "importable " + n)] if isinstance(v, tuple) else v
                          for n, v in cfg.available.items()}
        self.thorough = cfg.thorough

    def tag_obligation(self, rule):
        self.rule_tags[rule] = self.rule_tags.get(rule, 0) + 1


_driver_cache = {}
SHOW = [40]


def driver_tree(source, name):
    key = (name, source)
    t = _driver_cache.get(key)
    if t is None:
        t = _driver_cache[key] = ast.parse(source, f"<driver {name}>")
    return t


class Budget(Exception):
    pass


def run_path(program, drv, func, cfg, prefix, deadline):
    """one path; returns (interp, outcome, decisions)"""
    taken = []

    def choose(n, why):
        i = len(taken)
        if n == 1:
            return 0
        c = prefix[i] if i < len(prefix) else 0
        taken.append((c, n))
        if len(taken) > 4000:
            raise Unsupported("too many case splits")
        if time.time() > deadline:
            raise Budget()
        return c

    ip = Path(program, choose, cfg)
    outcome = "ok"
    try:
        m = ModuleV(drv.name, drv.path, "driver")
        ip.modules[drv.name] = m
        m.ns["__name__"] = drv.name
        m.ns["__package__"] = ""
        m.ns["__file__"] = drv.path
        intrinsics(ip, ip.driver_ns)
        m.ns.update(ip.driver_ns)
        env = Env(m.ns, None, "module", m)
        ip.frames.append(Frame(None, env, drv.tree, m))
        ip.exec_block(drv.tree.body, env)
        fn = m.ns[func]
        ip.call(fn, [], {})
    except Infeasible as e:
        outcome = "bounded" if e.why == "loop-bound" else "infeasible"
    except Unsupported as e:
        outcome = f"unsupported: {e}"
    except PyExc as e:
        outcome = f"exception {e.value.cls.name}{tuple(short(x) for x in e.value.attrs.get('args', ()))}"
        if cfg.crash:
            ip.obligations += 1
            site = e.site or ("?", 0, "?")
            ip.violate("unexpected-exception", f"{e.value.cls.name}{tuple(short(x) for x in e.value.attrs.get('args', ()))} "
                       f"leaves the library call", site=site)
    except RecursionError:
        outcome = "unsupported: recursion"
    except Budget:
        raise
    except Exception as e:  # an error of the analyser never counts as a verdict
        if DEBUG_ENGINE:
            raise
        outcome = f"unsupported: analyser {type(e).__name__}: {e}"
        ip.internal = traceback.format_exc()
    return ip, outcome, taken


class DriverMod:
    def __init__(self, name, source):
        self.name = name
        self.path = f"driver:{name}"
        self.tree = driver_tree(source, name)


def explore(program, drv, func, cfg, root=(), limit=None):
    """explore the paths below a prefix of decisions; after `limit` seconds the unexplored prefixes are left in .rest"""
    res = Result(f"{drv.name}.{func}")
    root = list(root)
    prefix = root
    t0 = time.time()
    deadline = t0 + cfg.seconds
    seen = set()
    res.rest = []
    while True:
        if res.paths >= cfg.max_paths:
            res.complete = False
            break
        try:
            ip, outcome, taken = run_path(program, drv, func, cfg, prefix, deadline)
        except Budget:
            res.complete = False
            break
        except Exception:
            res.internal.append(traceback.format_exc())
            res.complete = False
            break
        res.paths += 1
        if outcome == "infeasible":
            res.infeasible += 1
        elif outcome == "bounded":
            res.bounded += 1
        elif outcome.startswith("unsupported"):
            if len(res.internal) < 3 and getattr(ip, "internal", None):
                res.internal.append(ip.internal)
            res.unsupported[outcome] = res.unsupported.get(outcome, 0) + 1
        else:
            res.decided += 1
            res.tags.setdefault(outcome, 0)
            res.tags[outcome] += 1
        if not outcome == "infeasible":
            res.covered |= ip.covered
            res.callsites |= ip.callsites
            res.obligations += ip.obligations
            for n, c in ip.rule_tags.items():
                res.tags["rule:" + n] = res.tags.get("rule:" + n, 0) + c
            for n, c in ip.notes.items():
                res.tags["note:" + n] = res.tags.get("note:" + n, 0) + c
            for v in ip.violations:
                key = (v["rule"], v["site"][0], v["site"][2], v["msg"])
                if key not in seen:
                    seen.add(key)
                    v["driver"] = res.name
                    v["choices"] = [c for c, _ in taken]
                    v["outcome"] = outcome
                    res.violations.append(v)
        if len(res.violations) >= cfg.stop_after:
            res.complete = False
            break
        # next path below the root
        while len(taken) > len(root) and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if len(taken) <= len(root):
            break
        prefix = [c for c, _ in taken[:-1]] + [taken[-1][0] + 1]
        now = time.time()
        if limit is not None and now - t0 > limit:
            for j in range(len(root), len(taken)):
                c, n = taken[j]
                for alt in range(c + 1, n):
                    res.rest.append([x for x, _ in taken[:j]] + [alt])
            break
        if now > deadline:
            res.complete = False
            break
    res.wall = time.time() - t0
    return res


def merge(into, part, stop_after):
    """add the result of one slice of an entry point"""
    into.paths += part.paths
    into.decided += part.decided
    into.infeasible += part.infeasible
    into.bounded += part.bounded
    into.obligations += part.obligations
    into.covered |= part.covered
    into.callsites |= part.callsites
    into.wall += part.wall
    into.complete = into.complete and part.complete
    into.internal = (into.internal + part.internal)[:3]
    for d, e in ((into.unsupported, part.unsupported), (into.tags, part.tags)):
        for k, c in e.items():
            d[k] = d.get(k, 0) + c if isinstance(c, int) else c
    seen = {(v["rule"], v["site"][0], v["site"][2], v["msg"]) for v in into.violations}
    for v in part.violations:
        key = (v["rule"], v["site"][0], v["site"][2], v["msg"])
        if key not in seen and len(into.violations) < stop_after:
            seen.add(key)
            into.violations.append(v)
