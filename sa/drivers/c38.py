# C38: the rules, patterns and keys of a call are exactly the registered ones of what is enabled.
import mod_rules
from rebulk import Rebulk, Rule, CustomRule, Key
from rebulk.processors import ConflictSolver, PrivateRemover
from rebulk.pattern import StringPattern
from rebulk.rules import Rules, RemoveMatch
from common import NA, NB, NC, same_items

CONFIG = {"*": {"max_paths": 3000, "seconds": 100}}

S = unknown("text", "str")


def rule(name, plain=False):
    if plain:
        class Made(CustomRule):
            def __init__(self):
                super().__init__()
                event("made", name)

            def when(self, matches, context):
                event("ran", name, context)

            def then(self, matches, when_response, context):
                pass
    else:
        class Made(Rule):
            priority = 0

            def __init__(self):
                super().__init__()
                event("made", name)

            def when(self, matches, context):
                event("ran", name, context)
    Made.__name__ = name
    return Made


def made():
    return [e[0] for e in events("made")]


def ran():
    return [e[0] for e in events("ran")]


A, B, C, D = rule("A"), rule("B", True), rule("C"), rule("D")
ALL = {"A": A, "B": B, "C": C, "D": D}


def classes(rules):
    return [r.__class__.__name__ for r in rules]


def register(r, how, *what):
    if how == 0:
        check(r.rules(*what) is r, "rules", "rules() returns the rebulk")
    else:
        for w in what:
            r.rules(w)
    return r


def case_register():
    """classes, instances and modules, at once or one by one"""
    a = A()
    what = choose([A, B, C], [C, a2(), B], [mod_rules, A], [A, mod_rules, B], [], [B], [B, A, B], [a, A(), C])
    n = len(made())
    r = register(Rebulk(default_rules=False), choose(0, 1), *what)
    want, fresh = [], []
    for w in what:
        if w is mod_rules:
            want += ["ModA", "ModB"]
        elif w in (A, B, C):
            want.append(w.__name__)
            fresh.append(w.__name__)
        else:
            want.append(w.__class__.__name__)
    check(made()[n:] == fresh, "rules", ("instances made", made()[n:]))
    got = r.effective_rules({})
    check(classes(got) == want, "rules", ("registered", want, "effective", classes(got)))
    for w in what:
        if isinstance(w, CustomRule):
            check(len([x for x in got if x is w]) == 1, "rules", "an instance is used as it is")
    for i in range(choose(1, 2)):
        again = r.effective_rules(choose(None, {}))
        check(same_items(again, got), "rules", "effective rules, again")
        check(again is not got, "rules", "effective rules are a list of their own")
    check(made()[n:] == fresh, "rules", "made again")
    if len(what) == 3 and (what[0] is what[2] or what[0] is a):
        return
    r.matches(S)
    check(sorted(ran()) == sorted(want), "rules", ("executed", ran()))
    check(made()[n:] == fresh, "rules", "made by a call")


def a2():
    return D()


def case_default_rules():
    """conflict solver and private remover are there unless not wanted"""
    how = choose("default", "true", "false", "positional")
    if how == "default":
        r = Rebulk()
    elif how == "true":
        r = Rebulk(default_rules=True)
    elif how == "false":
        r = Rebulk(default_rules=False)
    else:
        r = Rebulk(False, False)
    r.rules(A)
    got = list(r.effective_rules())
    if how in ("default", "true"):
        check(len(got) == 3 and isinstance(got[0], ConflictSolver) and isinstance(got[1], PrivateRemover) and
              isinstance(got[2], A), "default-rules", (how, classes(got)))
    else:
        check(classes(got) == ["A"], "default-rules", (how, classes(got)))
    other = Rebulk()
    check(classes(other.effective_rules()) == ["ConflictSolver", "PrivateRemover"], "default-rules", "of another rebulk")


def switch(label):
    return choose(False, True, None)


def case_nested():
    """those of enabled nested rebulks follow, each class once"""
    asked = []

    def test(n, result):
        def disabled(context):
            asked.append((n, context))
            return result
        return disabled

    off1, off2 = choose(False, True), choose(False, True, "yes", None)
    how = choose("constant", "function")
    one = Rebulk(off1 if how == "constant" else test(1, off1), default_rules=choose(True, False))
    two = Rebulk(disabled=off2 if how == "constant" else test(2, off2), default_rules=False)
    one.rules(B, A)
    two.rules(C, choose(B, A, D))
    r = Rebulk(default_rules=choose(True, False)).rebulk(one, two).rules(A, D)
    context = {"k": 1}
    got = r.effective_rules(context)
    want = list(r._rules)
    for n, off in ((one, off1), (two, off2)):
        if not off:
            for x in n._rules:
                if x.__class__ not in [w.__class__ for w in want]:
                    want.append(x)
    check(same_items(got, want), "nested-rules", ("effective", classes(got), "expected", classes(want)))
    if how == "function":
        check([n for n, c in asked] == [1, 2] and asked[0][1] is context and asked[1][1] is context, "nested-rules", "disabled asked")
    r.matches(S, context)
    check(sorted(ran()) == sorted(x for x in classes(want) if x in ALL), "nested-rules", ("executed", ran()))
    for e in events("ran"):
        check(e[1] is context, "context", "of a rule")


class Base(CustomRule):
    def when(self, matches, context):
        event("ran", self.__class__.__name__, context)

    def then(self, matches, when_response, context):
        pass


class Derived(Base):
    pass


class Other(Base):
    priority = 3


class Deeper(Derived):
    name = "Base"


def case_derived():
    """a rule class is itself, not the classes it derives from"""
    own, first, second = choose(([Base], [Derived, Base], [Other]), ([Derived], [Base], [Deeper, Derived]),
                                ([], [Deeper, Derived], [Base, Other, Derived]), ([Other, Deeper], [Derived], [Base]))
    r, a, b = [Rebulk(default_rules=False) for _ in range(3)]
    for x, given in ((r, own), (a, first), (b, second)):
        x.rules(*[c() if choose(False, True) else c for c in given])
    r.rebulk(a, b)
    want = []
    for c in own + first + second:
        if c not in want:
            want.append(c)
    check([x.__class__ for x in r.effective_rules()] == want, "effective", ("derived", len(want)))
    r.matches(S)
    want = [c.__name__ for c in want]
    check(ran() == [n for n in want if n == "Other"] + [n for n in want if n != "Other"], "rules-of-call", "derived")


def case_patterns():
    """patterns of the rebulk and of enabled nested ones, each object once"""
    p, q, s, t = [StringPattern(x, name=NA) for x in ("p", "q", "s", "t")]
    off1, off2 = choose(False, True), choose(False, True)
    one = Rebulk(disabled=off1).pattern(q, *choose([], [p], [q, s]))
    two = Rebulk(disabled=lambda context: off2).pattern(t).pattern(*choose([], [q, p]))
    r = Rebulk().rebulk(one).rebulk(two)
    check(r.pattern(p, s) is r, "patterns", "pattern() returns the rebulk")
    want = [p, s]
    for n, off in ((one, off1), (two, off2)):
        if not off:
            for x in n._patterns:
                if len([w for w in want if w is x]) == 0:
                    want.append(x)
    got = r.effective_patterns(choose(None, {}))
    check(same_items(got, want), "patterns", ("effective", [x.patterns[0] for x in got]))
    got.clear()
    check(same_items(r.effective_patterns(), want), "patterns", "effective patterns are a list of their own")
    single = Rebulk().pattern(p, q).rules(A).declare_keys(Key(NA, int))
    single.effective_patterns().clear()
    check(same_items(single.effective_patterns(), [p, q]), "patterns", "of a rebulk without nested ones")
    single.effective_rules().clear()
    check(len(single.effective_rules()) == 3, "rules", "of a rebulk without nested ones")
    single.effective_keys().clear()
    check(len(single.effective_keys()) == 1, "keys", "of a rebulk without nested ones")


def case_keys():
    """keys of the rebulk win over those of enabled nested ones, earlier over later"""
    off1, off2 = choose(False, True), choose(False, True)
    ks = [Key(NA, int), Key(NA, str), Key(NB, int), Key(NB, str), Key(NC, float)]
    one = Rebulk(disabled=off1).declare_keys(ks[1], ks[2])
    two = Rebulk(disabled=lambda context: off2).declare_keys(ks[3], ks[4])
    r = Rebulk().rebulk(one, two)
    mine = choose(True, False)
    if mine:
        check(r.declare_keys(ks[0]) is r, "keys", "declare_keys() returns the rebulk")
    want = {}
    if mine:
        want[NA] = ks[0]
    if not off1:
        want.setdefault(NA, ks[1])
        want[NB] = ks[2]
    if not off2:
        want.setdefault(NB, ks[3])
        want[NC] = ks[4]
    got = r.effective_keys(choose(None, {}))
    check(len(got) == len(want) and all(k in got for k in want), "keys", ("names", [k for k in got]))
    for k in want:
        check(got.get(k) is want[k], "keys", ("key of", k))
    ms = r.matches(S)
    for k in want:
        check(ms.declared_keys.get(k) is want[k], "keys", ("of the result", k))
    check(len(ms.declared_keys) == len(want), "keys", "of the result")
    got.clear()
    check(len(r.effective_keys()) == len(want), "keys", "effective keys are a dict of their own")


def case_rules_list():
    """Rules is a list of rules, loaded in the order given"""
    a = D()
    rules = Rules(*choose([], [A], [a], [B, a], [mod_rules]))
    before = list(rules)
    what = choose([A, a], [mod_rules], [a, C], [A, A])
    how = choose("load", "one by one")
    if how == "load":
        rules.load(*what)
    else:
        for w in what:
            rules.load(w)
    check(same_items(rules[:len(before)], before), "rules", "what was there before")
    want = []
    for w in what:
        want += ["ModA", "ModB"] if w is mod_rules else [w.__name__ if w in (A, C) else w.__class__.__name__]
    check(classes(rules)[len(before):] == want, "rules", ("loaded", classes(rules)))


def case_context():
    """one context for all: the one given, or one empty dict per call"""
    seen = []

    def see(context):
        seen.append(context)
        return False

    class See(Rule):
        def enabled(self, context):
            seen.append(context)
            return True

        def when(self, matches, context):
            seen.append(context)
            return [1]

        def then(self, matches, when_response, context):
            seen.append(context)

    def found(text, context):
        seen.append(context)
        return [(0, 1), (1, 2)]

    nested = Rebulk(disabled=see).functional(found, name=NA, disabled=see)
    r = Rebulk(disabled=see).rebulk(nested).functional(found, name=NB).rules(See)
    chained = r.chain(disabled=see)
    chained.functional(found, name=NC).repeater("*")
    context = choose(None, {}, {"a": 1})
    r.matches(S, context)
    check(len(seen) > 8, "context", "calls with a context")
    for c in seen:
        check(c is seen[0], "context", "another one")
    if context is not None:
        check(seen[0] is context, "context", "not the given one")
    else:
        check(seen[0] is not None and len(seen[0]) == 0, "context", "without one")
        seen_before = seen[0]
        del seen[:]
        r.matches(S)
        check(seen[0] is not seen_before, "context", "shared by two calls")
