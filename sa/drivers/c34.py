# C34: patterns are searched in registration order, nested rebulks after their parent, and results come in that order.
from rebulk import Rebulk, CustomRule, Key
from rebulk.chain import ChainPart
from rebulk.builder import ChainBuilder
from rebulk.match import Match
from rebulk.pattern import FunctionalPattern, RePattern, StringPattern
from common import NA, NB, NC, TX, same_items, has

CONFIG = {"*": {"max_paths": 3000, "seconds": 100, "regex_total": 1}}

S = unknown("text", "str")
le(30, len(S))
O = unknown("offset", "int")
le(0, O)
le(O, 4)
NAMES = distinct("str", *["name of pattern %d" % i for i in range(8)])


def finder(i, spans, trace):
    def search(text):
        trace.append(i)
        return [(O + a, O + b) for a, b in spans]

    return search


def spans_of(i):
    """what a pattern finds: later patterns find earlier places, and each finds its own in no order of places"""
    return choose([], [(20 - 2 * i, 22 - 2 * i)], [(20 - 2 * i, 22 - 2 * i), (1, 2)]) if thorough() or i in (1, 3) \
        else [(20 - 2 * i, 22 - 2 * i), (2, 3)]


def register(r, i, trace, found, marker=False):
    spans = spans_of(i)
    found.append((NAMES[i], spans))
    r.functional(finder(i, spans, trace), name=NAMES[i], marker=marker)


def in_order(out, found, label):
    want = [(name, O + a, O + b) for name, spans in found for a, b in spans]
    check(len(out) == len(want), "order", (label, "number", len(out), len(want)))
    for m, (name, start, end) in zip(out, want):
        check(m.name is name and m.start == start and m.end == end, "order", (label, m.name))


def case_order():
    """a rebulk and two nested ones, whatever the order of the calls that put them together"""
    trace, found = [], []
    r, a, b = [Rebulk(default_rules=False) for _ in range(3)]
    late = choose(0, 1, 2)
    if late == 1:
        r.rebulk(a, b)
    elif late == 2:
        r.rebulk(a)
    register(r, 0, trace, found)
    register(r, 1, trace, found)
    register(a, 2, trace, found)
    register(b, 3, trace, found)
    register(b, 4, trace, found)
    if late == 0:
        r.rebulk(a).rebulk(b)
    elif late == 2:
        r.rebulk(b)
    ms = r.matches(S)
    check(trace == [0, 1, 2, 3, 4], "search-order", trace)
    in_order(ms, found, "nested")


def case_default_rules():
    """the default rules keep the order"""
    trace, found = [], []
    r, a = Rebulk(), Rebulk()
    for i, x in ((0, r), (2, a), (4, r)):
        x.functional(finder(i, [(20 - 2 * i, 22 - 2 * i)], trace), name=NAMES[i])
    r.rebulk(a)
    ms = r.matches(S)
    check(trace == [0, 4, 2], "search-order", trace)
    check([m.name for m in ms] == [NAMES[0], NAMES[4], NAMES[2]], "order", "default rules")


def case_markers():
    """markers and regular matches have the order of their patterns"""
    trace, found, marked = [], [], []
    r, a = Rebulk(default_rules=False), Rebulk(default_rules=False)
    which = choose((0, 2), (1, 3), (0, 1, 2, 3), (2, 3))
    for i in range(4):
        register(r if i < 2 else a, i, trace, marked if i in which else found, i in which)
    ms = r.rebulk(a).matches(S)
    check(trace == [0, 1, 2, 3], "search-order", trace)
    in_order(ms, found, "regular matches")
    in_order(ms.markers, marked, "markers")


def a_kind(r):
    """what a rebulk may have besides its patterns"""
    kind = choose(0, 1, 2, 3)
    if kind == 0:
        r.rules(RuleA)
    elif kind == 1:
        inner = Rebulk()
        inner.rebulk(Rebulk(default_rules=False))
        r.rebulk(inner)
    elif kind == 2:
        r.declare_keys(Key(NB, int))
        r.defaults(tags=[TX])
        r.disabled = lambda context: False
    return r


def case_kinds():
    """whatever else the rebulks have"""
    trace, found = [], []
    r, a, b = [a_kind(Rebulk(default_rules=False)) for _ in range(3)]
    r.rebulk(a, b)
    for i, x in ((0, r), (1, a), (2, b)):
        found.append((NAMES[i], [(20 - 2 * i, 22 - 2 * i)]))
        x.functional(finder(i, found[-1][1], trace), name=NAMES[i])
    check(same_items(r.effective_patterns(), r._patterns + a._patterns + b._patterns), "effective", "patterns, kinds")
    ms = r.matches(S)
    check(trace == [0, 1, 2], "search-order", trace)
    in_order(ms, found, "kinds")


def case_equal():
    """matches that are equal are each in the result"""
    trace = []
    marker = choose(False, True)
    name = choose(NA, None)
    r, a = Rebulk(default_rules=False), Rebulk(default_rules=choose(False, True))
    for i, x in enumerate((r, choose(r, a))):
        x.functional(finder(i, [(4, 6), (1, 2), (4, 6)], trace), name=name, marker=marker)
    ms = r.rebulk(a).matches(S)
    out = ms.markers if marker else ms
    check(len(ms) + len(ms.markers) == 6, "order", ("equal matches", len(ms), len(ms.markers)))
    check([m.start for m in out] == [O + 4, O + 1, O + 4, O + 4, O + 1, O + 4], "order", "equal matches")


def case_shared():
    """a pattern object of several rebulks is searched once, at its first place"""
    trace = []
    p = [FunctionalPattern(finder(i, [(i, i + 1)], trace), name=NAMES[i]) for i in range(4)]
    r, a, b = [Rebulk(default_rules=False) for _ in range(3)]
    own, first, second, want = choose(
        ([0, 1], [1, 2], [2, 3], [0, 1, 2, 3]), ([2], [0, 2, 1], [1, 3, 0], [2, 0, 1, 3]),
        ([], [3, 1], [1, 0, 3], [3, 1, 0]), ([0], [0], [0, 1], [0, 1]))
    r.pattern(*[p[i] for i in own])
    a.pattern(*[p[i] for i in first])
    b.pattern(*[p[i] for i in second])
    r.rebulk(a, b)
    check(same_items(r.effective_patterns(), [p[i] for i in want]), "effective", "patterns")
    ms = r.matches(S)
    check(trace == want, "search-order", trace)
    check([m.name for m in ms] == [NAMES[i] for i in want], "order", "shared patterns")


def case_within():
    """the strings, expressions or functions of one pattern, each with its occurrences, in order"""
    trace = []
    f = [finder(i, [(20 - 4 * i, 22 - 4 * i), (1, 2)], trace) for i in range(3)]
    kind = choose(0, 1, 2)
    r = Rebulk(default_rules=False)
    if kind == 0:
        ms = r.functional(*f).matches(S)
        check(trace == [0, 1, 2], "search-order", trace)
        check([m.start for m in ms] == [O + 20, O + 1, O + 16, O + 1, O + 12, O + 1], "order", "functions")
    elif kind == 1:
        ms = r.string("ab", "c", "abcd").matches("abcdab c abcd")
        check([m.span for m in ms] == [(0, 2), (4, 6), (9, 11), (2, 3), (7, 8), (11, 12), (0, 4), (9, 13)], "order", "strings")
    else:
        setting("regex_total", 2)
        p = RePattern("(?P<a>x)", "(?P<b>y)", children=True)
        ms = r.pattern(p).matches(S)
        names = [m.name for m in ms]
        check(names == [n for n in names if n == "a"] + [n for n in names if n == "b"], "order", "expressions")
        for x, y in zip(ms, ms[1:]):
            if x.name == y.name:
                check(x.parent.end <= y.parent.start, "order", "occurrences")


def case_post_processor():
    """the list a post processor returns, in its order"""
    trace = []
    r = Rebulk(default_rules=False)
    how = choose(0, 1, 2)

    def post(matches, pattern):
        if how == 0:
            return list(reversed(matches))
        if how == 1:
            matches.append(matches.pop(0))
            return matches
        return [Match(O, O + 9, name=NC, input_string=S)] + matches[1:]

    r.functional(finder(0, [(4, 6), (2, 3), (8, 9)], trace), name=NA, post_processor=post)
    r.functional(finder(1, [(0, 1)], trace), name=NB)
    ms = r.matches(S)
    want = ([8, 2, 4, 0], [2, 8, 4, 0], [0, 2, 8, 0])[how]
    check([m.start for m in ms] == [O + i for i in want], "order", "post processor")


def case_late():
    """what is registered after a call takes part in the next one, at its place"""
    trace = []
    r, a, b = [Rebulk(default_rules=False) for _ in range(3)]
    r.functional(finder(0, [(0, 1)], trace), name=NAMES[0])
    a.functional(finder(2, [(2, 3)], trace), name=NAMES[2])
    r.rebulk(a)
    if choose(True, False):
        r.matches(S)
    if choose(True, False):
        r.effective_patterns()
    del trace[:]
    which = choose(0, 1, 2, 3)
    if which == 0:
        r.functional(finder(1, [(1, 2)], trace), name=NAMES[1])
        want = [0, 1, 2]
    elif which == 1:
        a.functional(finder(3, [(3, 4)], trace), name=NAMES[3])
        want = [0, 2, 3]
    elif which == 2:
        b.functional(finder(4, [(4, 5)], trace), name=NAMES[4])
        r.rebulk(b)
        want = [0, 2, 4]
    else:
        r.pattern(FunctionalPattern(finder(1, [(1, 2)], trace), name=NAMES[1]))
        a.functional(finder(3, [(3, 4)], trace), name=NAMES[3])
        want = [0, 1, 2, 3]
    ms = r.matches(S)
    check(trace == want, "search-order", trace)
    check([m.name for m in ms] == [NAMES[i] for i in want], "order", "registered later")


def case_late_part():
    """parts added to a chain after a call take part in the next one"""
    seen = []

    def first(text):
        seen.append("first")
        return [(0, 2)] if len(seen) == 1 else []

    def second(text):
        seen.append("second")
        return [(0, 2)]

    r = Rebulk(default_rules=False)
    chain = r.chain(name=NC)
    chain.functional(first, name=NA)
    if choose(True, False):
        r.matches(S)
        del seen[:]
    chain.functional(second, name=NB)
    ms = r.matches(S)
    check(seen[:2] == ["first", "second"], "search-order", seen)
    check(len(ms) == 1 and [c.name for c in ms[0].children] == [NA, NB], "order", "parts")


class RuleA(CustomRule):
    def when(self, matches, context):
        return False

    def then(self, matches, when_response, context):
        pass


class RuleB(RuleA):
    pass


class RuleC(RuleA):
    pass


def case_effective():
    """what takes part, in order, in a list of its own"""
    r, a, b = [Rebulk(default_rules=False) for _ in range(3)]
    k1, k2, k3, k4 = Key(NA, int), Key(NA, str), Key(NB, int), Key(NB, float)
    r.string("a").rules(RuleB).declare_keys(k1)
    a.string("b").string("c").rules(RuleA, RuleB).declare_keys(k2, k3)
    b.string("d").rules(RuleC()).declare_keys(k4)
    r.rebulk(a, b)
    for _ in range(2):
        ps = r.effective_patterns(choose(None, {}))
        check(same_items(ps, r._patterns + a._patterns + b._patterns), "effective", "patterns")
        rules = r.effective_rules({})
        check([x.__class__ for x in rules] == [RuleB, RuleA, RuleC], "effective", "rules")
        check(rules[0] is r._rules[0], "effective", "the rule of the parent")
        keys = r.effective_keys({})
        check(len(keys) == 2 and keys[NA] is k1 and keys[NB] is k3, "effective", "keys")
        # lists of their own
        ps.append(None)
        rules.pop()
        keys.clear()


def case_builder():
    """every call registers one pattern, last, on the builder it returns"""
    r = Rebulk(default_rules=False)
    kw = choose({}, {"name": NA}, {"name": NA, "tags": [TX], "children": True})
    if choose(True, False):
        r.string("already there")
    before = list(r._patterns)
    i = choose(4)
    if i == 0:
        x, kind = r.string("a", "b", **kw), StringPattern
    elif i == 1:
        x, kind = r.regex("(a)", "b", **kw), RePattern
    elif i == 2:
        x, kind = r.functional(lambda s: None, **kw), FunctionalPattern
    else:
        p = StringPattern("a")
        x, kind = r.pattern(p), StringPattern
        check(r._patterns[-1] is p, "registered", "the pattern itself")
    check(x is r, "returned", "the builder")
    check(same_items(r._patterns[:-1], before) and isinstance(r._patterns[-1], kind), "registered", ("one pattern", kind.__name__))


def case_builder_others():
    """calls that register no pattern"""
    r, a, b = Rebulk(default_rules=False), Rebulk(), Rebulk()
    i = choose(9)
    if i == 0:
        x = r.defaults(name=NA)
    elif i == 1:
        x = r.string_defaults(name=NA)
    elif i == 2:
        x = r.regex_defaults(name=NA)
    elif i == 3:
        x = r.functional_defaults(name=NA)
    elif i == 4:
        x = r.chain_defaults(name=NA)
    elif i == 5:
        x = r.declare_keys(Key(NA, int))
    elif i == 6:
        x = r.rules(RuleA, RuleB())
        check([type(q) for q in r._rules] == [RuleA, RuleB], "registered", "rules")
    elif i == 7:
        x = r.rebulk(a, b)
        check(same_items(r._rebulks, [a, b]), "registered", "rebulks")
    else:
        x = r.pattern()
    check(x is r, "returned", "the builder")
    check(not r._patterns, "registered", "no pattern")


def case_chain_builder():
    """parts are added to their chain in order; close() returns the builder the chains were opened on"""
    r = Rebulk(default_rules=False)
    r.string("before")
    c = r.chain(name=NA)
    check(isinstance(c, ChainBuilder) and len(r._patterns) == 2, "registered", "one chain")
    chain = r._patterns[1]
    p1 = choose(lambda: c.string("a"), lambda: c.regex("a"), lambda: c.functional(lambda s: None))()
    check(isinstance(p1, ChainPart) and same_items(chain.parts, [p1]), "registered", "first part")
    p2 = choose(lambda: p1.string("b"), lambda: p1.regex("b"), lambda: p1.functional(lambda s: None),
                lambda: c.string("b"))()
    check(isinstance(p2, ChainPart) and same_items(chain.parts, [p1, p2]), "registered", "second part")
    check(p2.hidden() is p2 and p2.is_hidden and not p1.is_hidden, "returned", "the part itself")
    check(p2.hidden(False) is p2 and not p2.is_hidden, "returned", "the part itself")
    check(p2.repeater(choose("+", 2, "{1,2}")) is p2, "returned", "the part itself")
    n = choose(lambda: c.chain(name=NB), lambda: p2.chain())()
    check(isinstance(n, ChainBuilder) and len(chain.parts) == 3, "registered", "nested chain")
    check(chain.parts[2].pattern.__class__ is chain.__class__ and chain.parts[2].pattern is not chain, "registered", "nested chain")
    p3 = n.string("c")
    check(same_items(chain.parts[2].pattern.parts, [p3]) and len(chain.parts) == 3, "registered", "part of the nested chain")
    deeper = p3.chain()
    p4 = deeper.functional(lambda s: None)
    for x in (c, p1, p2, n, p3, deeper, p4):
        check(x.close() is r, "returned", "the builder the chains were opened on")
    check(len(r._patterns) == 2, "registered", "nested chains are parts only")


def case_chain_declared_order():
    """chains are patterns like others"""
    trace = []

    def once(i):
        def search(text):
            trace.append(i)
            return [(0, 2)] if trace.count(i) == 1 else None

        return search

    r = Rebulk(default_rules=False)
    r.functional(once(0), name=NAMES[0])
    r.chain(name=NAMES[1]).functional(once(1)).functional(once(2)).close()
    r.functional(once(3), name=NAMES[3])
    ms = r.matches(S)
    check([m.name for m in ms] == [NAMES[0], NAMES[1], NAMES[3]], "order", "a chain among patterns")
    check([i for i in trace if i in (0, 1, 3)][:2] == [0, 1] and trace[-1] == 3, "search-order", trace)
