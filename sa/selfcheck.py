"""Sanity of the analyser itself: a tiny package with known defects must be reported, and its repaired form not."""
from __future__ import annotations

import sys

from . import explore, source

BAD = '''
STATE = []

class Box:
    def __init__(self, items):
        self.items = items
    def first(self, default):
        return self.items[0] if self.items else default
    def add(self, xs):
        xs.append(1)
        return xs
    def order(self, names):
        return [n for n in set(names)]
    def swallow(self, fn):
        try:
            fn()
        except Exception:
            return None
'''
GOOD = BAD.replace("xs.append(1)", "xs = xs + [1]").replace("for n in set(names)", "for n in dict.fromkeys(names)") \
    .replace("            return None", "            raise")
DRIVER = '''
from rebulk import Box

def case_owner():
    xs = [unknown("x")]
    freeze(xs, "the list of the caller")
    Box([]).add(xs)
    check(len(xs) == 1, "len")

def case_first():
    d = unknown("d")
    x = unknown("x", "int")
    items = [x] if choose(False, True) else []
    check(Box(items).first(d) is (x if items else d), "first")

class Boom(Exception):
    pass

def boom():
    raise Boom()

def case_swallow():
    try:
        Box([]).swallow(boom)
    except Boom:
        check(True, "propagates")
        return
    check(False, "propagates", "swallowed")

def case_order():
    setting("set_mode", "rev")
    a = Box([]).order(["a", "b", "c"])
    setting("set_mode", "fwd")
    check(a == Box([]).order(["a", "b", "c"]), "order")
'''


def run(text):
    prog = source.Program()
    prog.add("rebulk", "rebulk/__init__.py", "rebulk", "rebulk", text)
    drv = explore.DriverMod("self", DRIVER)
    out = {}
    for c in ("case_owner", "case_first", "case_swallow", "case_order"):
        r = explore.explore(prog, drv, c, explore.Config(seconds=20))
        if r.internal or r.unsupported or not r.decided:
            raise SystemExit(f"selfcheck: {c}: {r.internal} {r.unsupported}")
        out[c] = sorted({v["rule"] for v in r.violations})
    return out


def main():
    bad, good = run(BAD), run(GOOD)
    want = {"case_owner": ["len", "ownership"], "case_first": [], "case_swallow": ["propagates"], "case_order": ["order"]}
    if bad != want:
        print("selfcheck: defects not reported:", bad)
        return 1
    if any(good.values()):
        print("selfcheck: false alarms:", good)
        return 1
    print("selfcheck ok")
    return 0


if __name__ == "__main__":
    sys.exit(main())
