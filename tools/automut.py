#!/usr/bin/env python3
"""Development aid: single-edit changes of every expression and statement of the package, made mechanically.
usage: automut.py generate DIR | test DIR | profile DIR | check DIR [FILE or ID...]
generate writes the changes, test drops those the existing tests catch, profile records what each entry point covers, check runs entry points until one reports."""
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
SKIP = {"__version__.py", "remodule.py"}
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!=", "is"], ast.NotEq: ["=="],
       ast.Is: ["is not", "=="], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
ATTR = {"start": ["end", "raw_start"], "end": ["start", "raw_end"], "raw_start": ["start"], "raw_end": ["end"], "name": ["value"],
        "initiator": ["parent"], "_raw_start": ["_start"], "_raw_end": ["_end"], "append": ["remove"], "match_kwargs": ["kwargs"]}


def mutants(path):
    text = open(path, encoding="utf-8").read()
    lines = text.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = text.encode()
    tree = ast.parse(text)
    out = []
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def inside(n):
        q = []
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                q.append(n)
        return q

    def skipped(n):
        x = n
        while x in parents:
            up = parents[x]
            if isinstance(up, ast.FunctionDef):
                names = [ast.unparse(d) for d in up.decorator_list]
                if "overload" in names or "abstractmethod" in names or up.name in ("__repr__", "__str__", "__repr__patterns__"):
                    return True
                if x is up.returns or x in up.decorator_list:
                    return True
            if isinstance(up, ast.arg) or isinstance(up, ast.AnnAssign) and x is up.annotation:
                return True
            if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in ("log", "cast", "TypeVar"):
                return True
            if isinstance(up, ast.If) and "TYPE_CHECKING" in ast.unparse(up.test):
                return True
            if isinstance(up, ast.Raise):
                return True
            x = up
        return not inside(n) or not any(isinstance(q, ast.FunctionDef) for q in inside(n))

    def add(n, new, what):
        if skipped(n):
            return
        a, b = pos(n)
        q = ".".join(x.name for x in reversed(inside(n)))
        if raw[a:b].decode() != new:
            out.append({"file": os.path.basename(path), "a": a, "b": b, "new": new, "what": what, "line": n.lineno, "function": q, "old": raw[a:b].decode()})

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                add(n, f"{src(n.left)} {op} {src(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BoolOp):
            op = "and" if isinstance(n.op, ast.Or) else "or"
            add(n, "(" + f" {op} ".join("(" + src(v) + ")" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                same = "or" if op == "and" else "and"
                add(n, "(" + f" {same} ".join("(" + src(v) + ")" for v in rest) + ")", "operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, src(n.operand), "not")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            op = "-" if isinstance(n.op, ast.Add) else "+"
            add(n, f"{src(n.left)} {op} {src(n.right)}", "arith")
            add(n, src(n.left), "arith-left")
            if isinstance(n.op, ast.Add):
                add(n, src(n.right), "arith-right")
                add(n, f"{src(n.right)} + {src(n.left)}", "arith-swap")
        elif isinstance(n, ast.Constant) and not isinstance(parents.get(n), ast.Expr):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "constant")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "constant")
                add(n, str(n.value - 1), "constant")
            elif n.value is None:
                add(n, "0", "none")
        elif isinstance(n, ast.If):
            add(n.test, "True", "always")
            add(n.test, "False", "never")
        elif isinstance(n, ast.IfExp):
            add(n, src(n.body), "ifexp")
            add(n, src(n.orelse), "ifexp")
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "flow")
            add(n, "break" if isinstance(n, ast.Continue) else "continue", "flow")
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            f = n.value.func if isinstance(n.value, ast.Call) else None
            if not (isinstance(f, ast.Name) and f.id == "log"):
                add(n, "pass", "delete")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            add(n, "pass", "delete")
            if isinstance(n, ast.AugAssign):
                add(n, f"{src(n.target)} = {src(n.value)}", "augassign")
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                add(n.value, "None", "return")
            add(n, "pass", "return")
        elif isinstance(n, ast.For):
            add(n.iter, f"list({src(n.iter)})[:1]", "first")
            add(n.iter, f"list({src(n.iter)})[1:]", "rest")
            add(n.iter, f"reversed(list({src(n.iter)}))", "order")
        elif isinstance(n, ast.comprehension):
            add(n.iter, f"list({src(n.iter)})[:1]", "first")
            add(n.iter, f"reversed(list({src(n.iter)}))", "order")
            for t in n.ifs:
                add(t, "True", "always")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ("list", "dict", "sorted", "reversed", "set", "tuple", "filter_index", "bool", "int") and len(n.args) >= 1:
                add(n, src(n.args[0]), "unwrap")
            if isinstance(f, ast.Attribute) and f.attr in ("copy",) and not n.args:
                add(n, src(f.value), "unwrap")
            for k in n.keywords:
                kept = [src(x) for x in n.args] + [(x.arg + "=" if x.arg else "**") + src(x.value) for x in n.keywords if x is not k]
                add(n, f"{src(f)}({', '.join(kept)})", "argument")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                args = [src(x) for x in n.args]
                kws = [(x.arg + "=" if x.arg else "**") + src(x.value) for x in n.keywords]
                add(n, f"{src(f)}({', '.join([args[1], args[0]] + args[2:] + kws)})", "swap")
                add(n, f"{src(f)}({', '.join(args[:-1] + kws)})", "argument")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, src(n.value), "slice")
        elif isinstance(n, ast.Attribute) and n.attr in ATTR:
            for new in ATTR[n.attr]:
                add(n, f"{src(n.value)}.{new}", "attribute")
        elif isinstance(n, ast.FunctionDef) and not n.name.startswith("__repr"):
            pass
    return out, raw


def generate(d):
    os.makedirs(d, exist_ok=True)
    out = []
    for f in sorted(os.listdir("/repo/rebulk")):
        if f.endswith(".py") and f not in SKIP:
            ms, raw = mutants(os.path.join("/repo/rebulk", f))
            seen = set()
            for m in ms:
                new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
                try:
                    compile(new, f, "exec")
                except SyntaxError:
                    continue
                key = ast.dump(ast.parse(new))
                if key in seen:
                    continue
                seen.add(key)
                out.append(m)
    for i, m in enumerate(out):
        m["id"] = i
    json.dump(out, open(os.path.join(d, "all.json"), "w"), indent=0)
    print(len(out), "changes")


ON_MATCH = ["{}.private", "{}.tags", "{}.parent is not None", "not {}.name", "len({}) > 2", "{}.formatter is not None", "len({}.children) > 1",
            "{}._raw_start is not None", "{}.marker", "{}.has_literal_value", "{}.start > 0", "{}.name"]
GUARDS = {"pattern": ["self.private", "self.marker", "self.tags", "not self.name", "self.name", "self.every", "self.validate_all", "self.children",
                      "self.format_all", "self.private_parent", "self.private_names", "self.ignore_names", "len(self.patterns) > 1"],
          "chain": ["len(self.parts) > 2", "self.chain_breaker", "self.name", "self.private"],
          "part": ["self._hidden", "self.repeater_end is None", "self.repeater_start > 1", "not self.repeater_start"],
          "matches": ["len(self) > 2", "len(self) == 1", "not self.input_string", "len({{m.name for m in self}}) > 1", "isinstance(self, Markers)",
                      "any(m.private for m in self)", "any(m.tags for m in self)"],
          "rebulk": ["self._rebulks", "self._keys", "len(self._patterns) > 1", "len(self._rebulks) > 1", "self._defaults", "len(self._rules) > 2"],
          "builder": ["self._keys", "self._defaults", "isinstance(self, ChainBuilder)", "self._regex_defaults"],
          "match": [g.format("self") for g in ON_MATCH],
          "input_string": ["len(input_string) > 3"], "string": ["len(string) > 3"], "context": ["context"],
          "rule": ["rule.dependency", "rule.name", "rule.priority > 0", "rule.log_level > 10"],
          "kwargs": ["'name' in kwargs", "len(kwargs) > 2", "'tags' in kwargs", "'private' in kwargs", "'children' in kwargs"],
          "list": ["len(matches) > 2"], "predicate": ["predicate"], "index": ["index is not None", "index == -1"], "seps": ["seps"], "ignore": ["ignore"]}
SELF = {"Pattern": "pattern", "StringPattern": "pattern", "RePattern": "pattern", "FunctionalPattern": "pattern", "Chain": "chain", "ChainPart": "part",
        "_BaseMatches": "matches", "Matches": "matches", "Markers": "matches", "Rebulk": "rebulk", "PatternFactory": "builder", "ChainBuilder": "builder",
        "Match": "match"}


def guarded(d, n):
    """pairs of changes and conditions they depend on: only when something else is so"""
    from_ = json.load(open(os.path.join(d, "all.json")))
    rnd = random.Random(int(os.environ.get("SEED", "1")))
    rnd.shuffle(from_)
    out = []
    trees = {}
    for m in from_:
        if len(out) >= n:
            break
        if m["what"] in ("none", "flow", "delete", "augassign") and not (m["what"] == "delete" and "=" not in m["old"] and "yield" not in m["old"]):
            continue
        if m["what"] == "return" and m["new"] == "pass" or "__init__" in m["function"] or "log(" in m["old"]:
            continue
        path = os.path.join("/repo/rebulk", m["file"])
        raw = open(path, "rb").read()
        t = trees.setdefault(path, ast.parse(raw))
        f = None
        for x in ast.walk(t):
            if isinstance(x, ast.FunctionDef) and x.lineno <= m["line"] <= x.end_lineno:
                f = x if f is None or x.lineno >= f.lineno else f
        if f is None:
            continue
        names = {a.arg for a in f.args.args + f.args.kwonlyargs} | ({f.args.kwarg.arg} if f.args.kwarg else set())
        for x in ast.walk(f):
            if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and x.body[0].lineno <= m["line"] <= x.body[-1].end_lineno:
                names.add(x.target.id)
        options = []
        cls = m["function"].split(".")[0]
        for v in names:
            if v == "self":
                options += GUARDS.get(SELF.get(cls), [])
            elif v in ("match", "child", "conflicting_match", "at_match", "main_match", "chain_match") and "call" not in m["function"]:
                options += [g.format(v) for g in ON_MATCH]
            elif v in GUARDS:
                options += GUARDS[v]
        if not options:
            continue
        g = rnd.choice(options)
        new = m["new"] if m["new"] != "pass" else "None"
        m = dict(m, new=f"(({new}) if ({g}) else ({m['old']}))", what="guarded " + m["what"])
        try:
            compile(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:], path, "exec")
        except SyntaxError:
            continue
        m["id"] = 10000 + len(out)
        out.append(m)
    os.makedirs(d + "-guarded", exist_ok=True)
    json.dump(out, open(os.path.join(d + "-guarded", "all.json"), "w"), indent=0)
    shutil.copy(os.path.join(d, "profile.json"), d + "-guarded")
    print(len(out), "changes")


def tree(m):
    d = tempfile.mkdtemp(prefix="am")
    shutil.copytree("/repo/rebulk", os.path.join(d, "rebulk"), ignore=shutil.ignore_patterns("__pycache__"))
    for f in ("README.md", "pyproject.toml"):
        if os.path.exists("/repo/" + f):
            shutil.copy("/repo/" + f, d)
    p = os.path.join(d, "rebulk", m["file"])
    raw = open(p, "rb").read()
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
    return d


def test_one(m):
    d = tree(m)
    try:
        r = subprocess.run(["timeout", "40", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "rebulk"], cwd=d,
                           env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
        return r.returncode == 0
    finally:
        shutil.rmtree(d)


def test(d):
    ms = json.load(open(os.path.join(d, "all.json")))
    with ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(test_one, ms))
    left = [m for m, k in zip(ms, ok) if k]
    json.dump(left, open(os.path.join(d, "survivors.json"), "w"), indent=0)
    print(len(ms), "changes,", len(left), "pass the existing tests")


def entries():
    sys.path.insert(0, ROOT)
    from sa import __main__ as main
    from sa.registry import PROPS
    out = []
    for pid, spec in PROPS.items():
        for dn in spec.get("drivers", ()):
            _, cfg, cases = main.driver(dn)
            for c in cases:
                out.append((pid, dn, c, {**cfg.get("*", {}), **cfg.get(c, {})}))
    return out


def run_case(prog, entry, **more):
    from sa import __main__ as main, explore
    _, dn, c, kw = entry
    d, _, _ = main.driver(dn)
    return explore.explore(prog, d, c, explore.Config(**{**kw, **more}))


def program(repo):
    from sa import __main__ as main, source
    source.REPO = repo
    p = source.load()
    main.add_common(p)
    return p


def profile_one(entry):
    t = time.time()
    r = run_case(program("/repo"), entry, seconds=300, max_paths=100000)
    return [entry, time.time() - t, sorted({f"{f}:{q}" for f, q, _ in r.covered}), sorted({f"{x[0]}:{x[1]}" for x in r.callsites})]


def profile(d):
    es = entries()
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=20) as pool:
        out = pool.map(profile_one, es, chunksize=1)
    json.dump(out, open(os.path.join(d, "profile.json"), "w"), indent=0)
    print(len(out), "entry points,", round(sum(x[1] for x in out)), "s")


def check_one(job):
    m, prof, budget = job
    key = f"rebulk/{m['file']}:{m['function']}"
    todo = sorted((x for x in prof if key in x[2] or any(key.startswith(q + ".") for q in x[2])), key=lambda x: x[1] * len(x[2]) ** 0.5)
    d = tree(m)
    t0 = time.time()
    n = 0
    try:
        prog = program(d)
        for entry, wall, _, _ in todo:
            left = budget - (time.time() - t0)
            if left <= 0:
                return m, "MISSED(budget)", f"{n} of {len(todo)} entry points"
            n += 1
            r = run_case(prog, entry, seconds=min(left, 3 * wall + 20), stop_after=1)
            if r.violations:
                v = r.violations[0]
                return m, "caught", f"{entry[0]} {entry[2]} {v['rule']}: {str(v['msg'])[:80]}"
        return m, "MISSED", f"{n} entry points"
    except Exception as e:
        return m, "ERROR", repr(e)[:200]
    finally:
        shutil.rmtree(d)


def check(d, want):
    budget = float(os.environ.get("BUDGET", "150"))
    ms = json.load(open(os.path.join(d, "survivors.json")))
    prof = json.load(open(os.path.join(d, "profile.json")))
    now = {tuple(e[:3]): e for e in entries()}
    prof = [[now[tuple(x[0][:3])], *x[1:]] for x in prof if tuple(x[0][:3]) in now]
    if want:
        ms = [m for m in ms if m["file"] in want or str(m["id"]) in want]
    log = os.path.join(d, "checked.txt")
    known = set()
    if os.path.exists(log) and not any(x.isdigit() for x in want):
        known = {l.split(" ")[0] for l in open(log)}
    ms = [m for m in ms if str(m["id"]) not in known]
    random.Random(3).shuffle(ms)
    got = []
    with multiprocessing.get_context("fork").Pool(int(os.environ.get("JOBS", "8")), maxtasksperchild=4) as pool:
        for m, what, r in pool.imap_unordered(check_one, [(m, prof, budget) for m in ms], chunksize=1):
            line = f"{m['id']} {what} {m['file']}:{m['line']} {m['function']} {m['what']} {m['old']!r} -> {m['new']!r} | {r}"
            got.append(what)
            with open(log, "a") as f:
                f.write(line + "\n")
    print({w: got.count(w) for w in sorted(set(got))})


if __name__ == "__main__":
    cmd, d, *rest = sys.argv[1:]
    {"guarded": lambda: guarded(d, int(rest[0])), "generate": lambda: generate(d), "test": lambda: test(d), "profile": lambda: profile(d), "check": lambda: check(d, rest)}[cmd]()
