"""Parsing of the analysed package: every run reads the current source of /repo."""
from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")


class Mangle(ast.NodeTransformer):
    """private name mangling (`__x` inside a class becomes `_Class__x`)"""

    def __init__(self):
        self.cls = []

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(b) for b in node.keywords]
        self.cls.append(node.name.lstrip("_"))
        node.body = [self.visit(s) for s in node.body]
        self.cls.pop()
        return node

    def m(self, name):
        if self.cls and self.cls[-1] and name and name.startswith("__") and not name.endswith("__") and "." not in name:
            return f"_{self.cls[-1]}{name}"
        return name

    def visit_Name(self, node):
        node.id = self.m(node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.m(node.attr)
        return node

    def visit_FunctionDef(self, node):
        node.name = self.m(node.name)
        self.generic_visit(node)
        return node

    def visit_arg(self, node):
        node.arg = self.m(node.arg)
        self.generic_visit(node)
        return node

    def visit_keyword(self, node):
        if node.arg:
            node.arg = self.m(node.arg)
        self.generic_visit(node)
        return node

    def visit_Global(self, node):
        node.names = [self.m(n) for n in node.names]
        return node

    visit_Nonlocal = visit_Global


class ModuleInfo:
    def __init__(self, name, path, package, pkgname, tree, text=""):
        self.name, self.path, self.package, self.pkgname, self.tree, self.text = name, path, package, pkgname, tree, text


class Program:
    def __init__(self):
        self.modules = {}
        self.digest = ""

    def add(self, name, path, package, pkgname, text, mangle=True):
        tree = ast.parse(text, path)
        if mangle:
            tree = Mangle().visit(tree)
        self.modules[name] = ModuleInfo(name, path, package, pkgname, tree, text)


def load(repo=None):
    repo = repo or REPO
    prog = Program()
    root = os.path.join(repo, "rebulk")
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "test", "tests"))
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, repo)
            with open(p, encoding="utf-8") as fh:
                text = fh.read()
            h.update(rel.encode() + b"\0" + text.encode() + b"\0")
            parts = rel[:-3].split(os.sep)
            if parts[-1] == "__init__":
                name = ".".join(parts[:-1])
                pkg = name
            else:
                name = ".".join(parts)
                pkg = ".".join(parts[:-1])
            prog.add(name, rel, "rebulk", pkg, text)
    prog.digest = h.hexdigest()
    if "rebulk" not in prog.modules:
        raise SystemExit(f"no package rebulk under {repo}")
    return prog
