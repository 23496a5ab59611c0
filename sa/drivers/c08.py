# C08: order of rules.
from rebulk import Rebulk, Rule, CustomRule
from rebulk.rules import Rules, RemoveMatch
from rebulk.match import Matches
import mod_rules
from common import raises

CONFIG = {"*": {"max_paths": 3000, "seconds": 200}}

S = unknown("text", "str")


def rule(n, prio=0, deps=None, on=True):
    class R(Rule):
        name = n
        priority = prio
        dependency = deps

        def enabled(self, context):
            return on

        def when(self, matches, context):
            event("ran", n)
            return None

    return R


def ran():
    return [x[0] for x in events("ran")]


def before(order, a, b):
    return order.index(a) < order.index(b)


def hashing():
    setting("set_mode", choose("fwd", "rev"))


PERMS = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]
NAMES = ["r0", "r1", "r2", "r3"]


def load(classes, how):
    """registered as classes, as instances, in one or several calls, or in nested rebulks"""
    r = Rebulk(default_rules=False)
    if how == 0:
        r.rules(*classes)
    elif how == 1:
        for c in classes:
            r.rules(c())
    elif how == 2:
        r.rules(classes[0])
        r.rebulk(Rebulk(default_rules=False).rules(*classes[1:]))
    else:
        r.rebulk(*[Rebulk(default_rules=False).rules(c) for c in classes])
    return r


def case_priorities():
    """unknown priorities"""
    hashing()
    prios = [unknown("p0", "int"), unknown("p1", "int"), unknown("p2", "int")]
    how = choose(0, 1, 2, 3)
    classes = [rule(NAMES[i], prios[i]) for i in range(3)]
    load(classes, how).matches(S)
    order = ran()
    check(len(order) == 3, "exactly-once", ("ran", order))
    for i in range(3):
        check(order.count(NAMES[i]) == 1, "exactly-once", ("ran", order))
    for i in range(3):
        for j in range(3):
            if i != j:
                if prios[i] > prios[j]:
                    check(before(order, NAMES[i], NAMES[j]), "descending-priority", (order,))
                elif prios[i] == prios[j] and i < j:
                    check(before(order, NAMES[i], NAMES[j]), "registration-order", (order,))


def case_dependencies():
    """three rules of one priority: every registration order and dependency graph without cycle"""
    hashing()
    perm = PERMS[choose(6)]
    classes = [rule(n) for n in NAMES[:3]]
    # rule i may depend on earlier ones, registered in any order
    d1 = choose(0, 1)
    d2 = choose(0, 1, 2, 3)
    if d1:
        classes[1].dependency = choose(classes[0], [classes[0]])
    if d2 == 1:
        classes[2].dependency = (classes[0],)
    elif d2 == 2:
        classes[2].dependency = classes[1]
    elif d2 == 3:
        classes[2].dependency = [classes[1], classes[0]] if perm[0] else {classes[1], classes[0]}
    how = choose(0, 2)
    load([classes[i] for i in perm], how).matches(S)
    order = ran()
    check(len(order) == 3, "exactly-once", (order,))
    deps = {0: [], 1: [0] if d1 else [], 2: {0: [], 1: [0], 2: [1], 3: [1, 0]}[d2]}
    depth = {}
    for i in range(3):
        depth[i] = 1 + max([depth[d] for d in deps[i]]) if deps[i] else 0
    for i in range(3):
        for d in deps[i]:
            check(before(order, NAMES[d], NAMES[i]), "dependencies-first", (order,))
    for a in range(3):
        for b in range(a + 1, 3):
            i, j = perm[a], perm[b]
            if depth[i] == depth[j]:
                check(before(order, NAMES[i], NAMES[j]), "registration-order", (order,))


def case_four():
    """four rules: every dependency graph without cycle"""
    hashing()
    perm = choose([0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2], [3, 0, 1, 2])
    classes = [rule(n) for n in NAMES]
    deps = {0: []}
    for i in range(1, 4):
        mine = choose(2 ** i)
        deps[i] = [d for d in range(i) if mine >> d & 1]
        if deps[i]:
            classes[i].dependency = [classes[d] for d in deps[i]]
    load([classes[i] for i in perm], choose(0, 1) if thorough() else 0).matches(S)
    order = ran()
    check(len(order) == 4, "exactly-once", (order,))
    depth = {}
    for i in range(4):
        depth[i] = 1 + max([depth[d] for d in deps[i]]) if deps[i] else 0
        for d in deps[i]:
            check(before(order, NAMES[d], NAMES[i]), "dependencies-first", (order,))
    for a in range(4):
        for b in range(a + 1, 4):
            i, j = perm[a], perm[b]
            if depth[i] == depth[j]:
                check(before(order, NAMES[i], NAMES[j]), "registration-order", (order,))


def case_dependency_across_priorities():
    """a dependency at another priority, or not registered, or disabled, is ignored"""
    hashing()
    how = choose(0, 1, 2, 3)
    first = rule("first", choose(5, -5))
    stranger = rule("stranger")
    if how == 0:
        second = rule("second", 0, first)
    elif how == 1:
        second = rule("second", 0, [stranger, first])
    elif how == 2:
        second = rule("second", 0, first())
    else:
        second = rule("second", 0, [stranger()])
    third = rule("third", 0, second)
    zero, fourth = rule("zero"), rule("fourth")
    Rebulk(default_rules=False).rules(third, zero, second, fourth, first).matches(S)
    order = ran()
    check(len(order) == 5, "exactly-once", (order,))
    check(before(order, "zero", "second") and before(order, "second", "fourth"), "registration-order", (order,))
    check(before(order, "second", "third"), "dependencies-first", (order,))
    check(before(order, "first", "second") == (first.priority > 0), "descending-priority", (order,))


def case_duplicates():
    """two rules of one class at one priority"""
    how = choose(0, 1, 2)
    c = rule("twice", choose(0, 3))
    other = rule("other", choose(0, 3))
    items = [[c, c], [c, c()], [c(), other, c()]][how]
    r = Rebulk(default_rules=choose(True, False)).rules(*items)
    check(raises(ValueError, r.matches, S) is not None, "duplicates-refused", "two rules of one class at one priority")


def case_same_class_other_priority():
    hashing()

    class Level(Rule):
        def __init__(self, tag, level):
            super().__init__()
            self.tag = tag
            self.priority = level

        def when(self, matches, context):
            event("ran", self.tag)

    plain = rule("plain")
    items = [Level("high", 5), plain, Level("zero", 0)]
    perm = PERMS[choose(6)]
    Rebulk(default_rules=False).rules(*[items[i] for i in perm]).matches(S)
    order = ran()
    check(len(order) == 3, "exactly-once", (order,))
    check(order[0] == "high", "descending-priority", (order,))
    check(before(order, "plain", "zero") == (perm.index(1) < perm.index(2)), "registration-order", (order,))


def case_cycles():
    hashing()
    shape = choose(0, 1, 2)
    a, b, c = rule("r0"), rule("r1"), rule("r2")
    if shape == 0:
        a.dependency = b
        b.dependency = [a]
    elif shape == 1:
        a.dependency = b
        b.dependency = c
        c.dependency = [a]
    else:
        a.dependency = [b, c]
        b.dependency = a
    items = [a, b, c]
    perm = PERMS[choose(6)]
    r = Rebulk(default_rules=False).rules(*[items[i] for i in perm])
    check(raises(ValueError, r.matches, S) is not None, "cycle-raises", "a dependency cycle")
    order = ran()
    check("r0" not in order and "r1" not in order, "cycle-raises", ("rules of the cycle ran", order))


def case_self_dependency():
    """a rule that names itself depends on nothing"""
    a, b = rule("r0"), rule("r1")
    a.dependency = choose(a, [a, b])
    Rebulk(default_rules=False).rules(a, b).matches(S)
    check(len(ran()) == 2, "exactly-once", (ran(),))


def case_disabled():
    """disabled rules are not evaluated, those after them are"""
    hashing()
    a, b, c = rule("r0", 0, None, choose(True, False)), rule("r1", 0), rule("r2", 0)
    b.dependency = a
    Rebulk(default_rules=False).rules(c, b, a).matches(S)
    check([n for n in ran() if n != "r0"] == ["r2", "r1"], "dependencies-first", (ran(),))


def case_nested_order():
    """parent rules before nested ones, nested rebulks in order, each class once"""
    hashing()
    a, b, c, d = rule("r0"), rule("r1"), rule("r2"), rule("r3")
    one = Rebulk(default_rules=False).rules(b, a)
    two = Rebulk(default_rules=False).rules(c, b)
    r = Rebulk(default_rules=False).rebulk(one, two).rules(d, a)
    r.matches(S)
    check(ran() == ["r3", "r0", "r1", "r2"], "registration-order", (ran(),))


def case_modules():
    """a module registers the rule classes it defines and nothing it imports"""
    hashing()
    a = rule("r0")
    Rebulk(default_rules=False).rules(mod_rules, a).matches(S)
    check(ran() == ["ModB", "ModA", "r0"], "registration-order", (ran(),))


def case_default_rules():
    """conflict resolution before, privacy after ordinary rules, whatever the registration order"""

    class See(Rule):
        priority = choose(0, 2047, -2047)

        def when(self, matches, context):
            event("ran", [m.name for m in matches])

    r = Rebulk().functional(lambda text: (0, 2), name="short").functional(lambda text: (0, 4), name="long") \
        .functional(lambda text: (6, 7), name="hidden", private=True).rules(See)
    r.matches(S)
    check(ran() == [["long", "hidden"]], "descending-priority", (ran(),))


def case_rules_list():
    """executing a list of rules does not reorder it and can be repeated"""
    hashing()
    a, b, c = rule("r0", 0), rule("r1", 5), rule("r2", 0)
    a.dependency = c
    rules = Rules(a, b, c)
    before_items = list(rules)
    ms = Matches(input_string=S)
    rules.execute_all_rules(ms, {})
    rules.execute_all_rules(ms, {})
    check(ran() == ["r1", "r2", "r0", "r1", "r2", "r0"], "exactly-once", (ran(),))
    check(all(x is y for x, y in zip(before_items, rules)) and len(rules) == 3, "registration-order", "the list itself")


def case_toposort():
    """the dependency order of a graph"""
    from rebulk.toposort import toposort, toposort_flatten, CyclicDependency

    hashing()
    data = {"c": {"a", "b"}, "b": {"a"}, "d": {"d", "x"}}
    s = snapshot(data)
    groups = [sorted(g) for g in toposort(data)]
    check(groups == [["a", "x"], ["b", "d"], ["c"]], "dependencies-first", (groups,))
    check(toposort_flatten(data) == ["a", "x", "b", "d", "c"], "dependencies-first", "flattened")
    check(changed(s) is None, "dependencies-first", "the graph of the caller was modified")
    check(raises(CyclicDependency, toposort_flatten, {"a": {"b"}, "b": {"a"}, "c": set()}) is not None, "cycle-raises", "toposort")
    check(toposort_flatten({}) == [], "dependencies-first", "empty graph")
