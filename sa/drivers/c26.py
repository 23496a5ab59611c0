# C26: introspection of every kind of pattern and rule.
from rebulk import Rebulk, Rule, CustomRule
from rebulk.introspector import introspect, Introspection, PatternDescription, RuleDescription
from rebulk.pattern import FunctionalPattern, RePattern, StringPattern
from rebulk.processors import ConflictSolver, PrivateRemover
from common import NA, NB, NC, NO, same_items, uniq

CONFIG = {"*": {"max_paths": 6000, "seconds": 120}}

V, W, X = distinct("atom", "v", "w", "x")


def one(text):
    return None


def listed(properties, want, label):
    """name -> values, no name and no value twice"""
    names = list(properties)
    check(len(names) == len(uniq(names)), "names", label)
    for n in names:
        check(n in want, "names", (label, "lists a name that is not public", n))
    for n in want:
        check(n in names, "names", (label, "misses a name", n))
        if n in names:
            got = properties[n]
            check(isinstance(got, list), "values", (label, n))
            for v in got:
                check(v in want[n], "values", (label, "lists a wrong value", n))
            for v in want[n]:
                check(v in got, "values", (label, "misses a value", n))
            check(len(got) == len(uniq(want[n])), "values", (label, "values once each", n))


def union(parts):
    out = {}
    for p in parts:
        for n in p:
            out.setdefault(n, [])
            for v in p[n]:
                if v not in out[n]:
                    out[n].append(v)
    return out


def introspected(r, patterns, want, label, context=None):
    """want: for each pattern that is listed, its properties"""
    i = introspect(r, context) if context is not None else introspect(r)
    check(len(i.patterns) == len(patterns), "patterns", (label, "each public pattern once"))
    for k in range(len(patterns)):
        if k < len(i.patterns):
            check(i.patterns[k].pattern is patterns[k], "patterns", (label, "each public pattern once"))
            listed(i.patterns[k].properties, want[k], label)
    listed(i.properties, union(want + [x.properties for x in i.rules]), (label, "merged"))
    return i


# ---------------------------------------------------------------- one pattern
def naming(groups):
    """the options that decide about names"""
    name = choose(None, NA, "one") if groups else choose(None, NA)
    private = choose([], [NA], ["one"], ["one", NA], ["two"]) if groups else choose([], [NA])
    return name, private


def case_declared():
    """declared properties win over everything"""
    props = choose({NB: [V, W]}, {NB: [V, V], NC: [None]}, {NB: [V, 1, "1", [V], [V]]}, {NA: [W]})
    value = choose({}, {"value": X}, {"name": NA, "value": {NA: X}}, {"name": NA})
    kind = choose(0, 1, 2)
    r = Rebulk()
    if kind == 0:
        r.string("s", properties=props, **value)
    elif kind == 1:
        r.regex("(?P<one>a)", properties=props, **value)
    else:
        r.functional(one, properties=props, **value)
    freeze(props, "the properties given by the caller")
    introspected(r, r.effective_patterns(), [props], "declared properties")


def case_values():
    """literal values, general and by name"""
    name = choose(None, NA)
    value, want = choose((V, {name: [V]}), ({NB: V}, {NB: [V]}), ({None: V, NB: W}, {name: [V], NB: [W]}),
                         ({NB: V, NC: None}, {NB: [V]}), ({NB: "", NC: 0}, {NB: [""], NC: [0]}), ("text", {name: ["text"]}), (3, {name: [3]}),
                         ({None: 0}, {name: [0]}), ({None: "", NB: False}, {name: [""], NB: [False]}), ({NB: 0.0, None: ()}, {name: [()], NB: [0.0]}),
                         ([V, W], {name: [[V, W]]}), ((V, W), {name: [(V, W)]}))
    assume(V)
    assume(W)
    kind = choose(0, 1, 2)
    r = Rebulk()
    if kind == 0:
        r.string("s", name=name, value=value)
    elif kind == 1:
        r.regex("(?P<one>a)", name=name, value=value)
    else:
        r.functional(one, name=name, value=value)
    introspected(r, r.effective_patterns(), [want], "literal values")


def case_strings():
    name = choose(None, NA)
    strings = choose(("a",), ("a", "b"), ("a", "b", "a"), ("b", "a", "c"))
    r = Rebulk().string(*strings, name=name, ignore_case=choose(True, False))
    introspected(r, r.effective_patterns(), [{name: list(strings)}], "strings")
    q = StringPattern(*strings, name=name)
    listed(PatternDescription(q).properties, {name: list(strings)}, "strings")


def case_no_value():
    """no value, or none at all, is no literal value"""
    r = Rebulk().string("a", name=NA, value=choose(None, {}, {NB: None}))
    introspected(r, r.effective_patterns(), [{NA: ["a"]}], "no value")


def case_regex():
    name, private = naming(True)
    private_children = choose(False, True)
    res = choose(("a",), ("(a)",), ("(?P<one>a)",), ("(?P<one>a)(?P<two>b)",), ("(?P<two>b)", "(?P<one>a)(b)"))
    options = choose({}, {"children": True}, {"every": True}, {"private_parent": True})
    r = Rebulk().regex(*res, name=name, private_names=private, private_children=private_children, **options)
    want = {}
    if name and name not in private:
        want[name] = [None]
    if not private_children:
        for x in res:
            for g in ("one", "two"):
                if "<" + g + ">" in x and g not in private:
                    want[g] = [None]
    introspected(r, r.effective_patterns(), [want], "regular expression")


def case_functional():
    name, private = naming(False)
    r = Rebulk().functional(one, one, name=name, private_names=private)
    want = {NA: [None]} if name and name not in private else {}
    introspected(r, r.effective_patterns(), [want], "functional")


# ---------------------------------------------------------------- which patterns
def case_private():
    """private patterns and markers are not listed"""
    a = choose({}, {"private": True}, {"marker": True}, {"private": True, "marker": True}, {"private": False, "marker": None})
    b = choose({}, {"private": True}, {"marker": True}, {"private_parent": True})
    c = choose({}, {"private": True}, {"marker": True}, {"ignore_names": [NC]})
    r = Rebulk().string("a", name=NA, **a).regex("(?P<one>b)", name=NB, **b).functional(one, name=NC, **c)
    wants = [{NA: ["a"]}, {NB: [None], "one": [None]}, {NC: [None]}]
    patterns, want = [], []
    for options, p, w in zip([a, b, c], r.effective_patterns(), wants):
        if not options.get("private") and not options.get("marker"):
            patterns.append(p)
            want.append(w)
    introspected(r, patterns, want, "private patterns and markers")


def case_disabled():
    """the patterns of disabled nested rebulks are not listed, those that are disabled themselves are"""
    off = choose(False, True)
    context = {"off": off}
    sub = Rebulk(disabled=lambda context: context.get("off")).string("b", name=NB).rules(Producing)
    other = Rebulk(disabled=choose(False, True)).functional(one, name=NC)
    r = Rebulk(default_rules=False).string("a", name=NA, disabled=choose(True, False, lambda context: True))
    r.rebulk(sub, other, sub)
    patterns, want = [r._patterns[0]], [{NA: ["a"]}]
    if not off:
        patterns.append(sub._patterns[0])
        want.append({NB: ["b"]})
    if not other.disabled(context):
        patterns.append(other._patterns[0])
        want.append({NC: [None]})
    i = introspected(r, patterns, want, "nested rebulks", context)
    check(len([x for x in i.rules if isinstance(x.rule, Producing)]) == (0 if off else 1), "rules", "nested rebulks")


def case_same_pattern():
    """a pattern registered twice is one pattern"""
    p = StringPattern("a", "b", name=NA)
    r = Rebulk().pattern(p).rebulk(Rebulk().pattern(p), Rebulk().pattern(p).string("a", name=NA))
    got = r.effective_patterns()
    introspected(r, got, [{NA: ["a", "b"]}, {NA: ["a"]}], "a pattern registered twice")


def case_merged():
    """values of a name are those of all patterns, once each"""
    r = Rebulk().string("a", "b", name=NA).string("b", "c", name=NA).regex("x", name=NA).functional(one, name=NA)
    r.string("z", name=NB, value=V).functional(one, name=NB, value=choose(V, W)).regex("(?P<one>a)", "(?P<one>b)")
    r.functional(one, properties={NB: [V, {"x": 1}, {"x": 1}], NC: []})
    ps = r.effective_patterns()
    i = introspect(r)
    want = union([p.properties for p in i.patterns])
    check(len(i.patterns) == len(ps), "patterns", "merged")
    listed(i.properties, want, "merged")
    for n, v in ((NA, "a"), (NA, "b"), (NA, "c"), (NA, None), (NB, V), (NB, {"x": 1}), ("one", None)):
        check(v in i.properties[n], "values", ("merged", n))
    check(len(i.properties["one"]) == 1, "values", "groups of one name")


# ---------------------------------------------------------------- rules
class Producing(Rule):
    properties = {NA: [V], NB: [None, None]}

    def when(self, matches, context):
        return None


class Silent(CustomRule):
    def when(self, matches, context):
        return None

    def then(self, matches, when_response, context):
        return None


class Empty(Rule):
    properties = {}

    def when(self, matches, context):
        return None


class OwnProperties(Silent):
    """decided by each instance"""

    def __init__(self, properties):
        super().__init__()
        self.own = properties

    @property
    def properties(self):
        return self.own


def case_rules():
    classes = choose([Producing], [Silent, Producing], [Producing, Empty], [OwnProperties, Producing, Silent], [])
    nested = choose(False, True)
    default = choose(False, True)
    rules = [c({NA: [W, V], NC: [X]}) if c is OwnProperties else c() for c in classes]
    r = Rebulk(default_rules=default)
    if nested:
        r.rules(*rules[:1]).rebulk(Rebulk(default_rules=default).rules(*rules), Rebulk().rules(*rules[1:]))
    else:
        r.rules(*rules)
    i = introspect(r)
    for c in classes:
        mine = [x for x in i.rules if x.rule.__class__ is c]
        check(len(mine) == 1, "rules", "each rule once")
        want = {Producing: {NA: [V], NB: [None]}, OwnProperties: {NA: [W, V], NC: [X]}}.get(c, {})
        for x in mine:
            listed(x.properties, want, "rule")
    extra = len([x for x in i.rules if x.rule.__class__ in (ConflictSolver, PrivateRemover)])
    check(extra == (2 if default or nested else 0), "rules", "default rules")
    check(len(i.rules) == len(classes) + extra, "rules", "each rule once")
    want = {}
    if Producing in classes:
        want = union([want, {NA: [V], NB: [None]}])
    if OwnProperties in classes:
        want = union([want, {NA: [W, V], NC: [X]}])
    listed(i.properties, want, "rules")


def case_disabled_rules():
    """whether a rule is enabled for an input does not matter"""
    class Never(Producing):
        def enabled(self, context):
            return False

    r = Rebulk(disabled=choose(True, False)).rules(Never).string("a", name=NC)
    i = introspected(r, r.effective_patterns(), [{NC: ["a"]}], "disabled rules")
    listed(i.properties, {NA: [V], NB: [None], NC: ["a"]}, "disabled rules")


def case_again():
    """introspection follows the configuration"""
    r = Rebulk().string("a", name=NA)
    introspected(r, r.effective_patterns(), [{NA: ["a"]}], "before")
    i = introspect(r)
    i.properties[NA].append("changed by the caller")
    r.string("b", name=NB)
    introspected(r, r.effective_patterns(), [{NA: ["a"]}, {NB: ["b"]}], "after another pattern")
