# C21: the same scenario twice, every set iterated in the opposite order, identities and hashes ordered the other way.
from rebulk import Rebulk, Rule, CustomRule, Key, RemoveMatch, AppendMatch, RenameMatch, AppendTags, RemoveTags
from rebulk.introspector import introspect
from rebulk.match import Match, Matches
from rebulk.processors import ConflictSolver, PrivateRemover
from rebulk.rules import Rules
from common import NA, NB, NC, NO, TX, TY, TZ

CONFIG = {"*": {"max_paths": 3000, "seconds": 100, "regex_total": 1}}

T = "abcdefghijkl"


def seen(m):
    return (m.start, m.end, m.name, m.value, list(m.tags), bool(m.private), bool(m.marker))


def rows(ms):
    if ms is None:
        return None
    return [seen(m) for m in ms]


def twice(scenario, *args):
    """the observations of both runs must be the same, item by item"""
    setting("regex_memo_on", True)
    setting("set_mode", "fwd")
    a = scenario(*args)
    setting("set_mode", "rev")
    b = scenario(*args)
    setting("set_mode", "fwd")
    for i in range(len(a)):
        check(a[i] == b[i], "same-order", (a[i][0], "differs between two runs"))


def views(ms):
    """every ordered thing a sequence of matches shows"""
    out = [("matches", rows(ms)), ("markers", rows(ms.markers)), ("names", list(ms.names)), ("tags", list(ms.tags))]
    out.append(("named", rows(ms.named(NA, NB, NC)), rows(ms.named(NC, NA, NB))))
    out.append(("tagged", rows(ms.tagged(TX)), rows(ms.tagged(TY))))
    out.append(("range", rows(ms.range(0, 12)), rows(ms.range(2, 5))))
    out.append(("at_span", rows(ms.at_span((0, 4)))))
    out.append(("at_index", rows(ms.at_index(2)), rows(ms.at_index(3))))
    out.append(("starting", rows(ms.starting(0)), rows(ms.ending(4))))
    out.append(("conflicting", rows(ms.conflicting(Match(0, 12)))))
    out.append(("holes", rows(ms.holes(0, 12))))
    out.append(("chain", rows(ms.chain_before(12, "", 0)), rows(ms.chain_after(0, "", 12))))
    if ms:
        out.append(("nearest", rows(ms.previous(ms[-1])), rows(ms.next(ms[0]))))
    d = ms.to_dict()
    out.append(("to_dict", list(d), [d[n] for n in d]))
    out.append(("to_dict matches", list(d.matches), [rows(d.matches[n]) for n in d.matches]))
    out.append(("to_dict values", list(d.values_list), [d.values_list[n] for n in d.values_list]))
    e = ms.to_dict(enforce_list=True)
    out.append(("to_dict lists", list(e), [e[n] for n in e]))
    out.append(("keys", list(ms.declared_keys), ms.all(Key(NA, str)), ms.all(Key(NB, str))))
    return out


def some(kind):
    ms = Matches(input_string=T)
    places = [[(0, 4), (0, 4), (2, 5), (6, 9)], [(6, 9), (2, 5), (0, 2), (0, 4)], [(0, 4), (0, 4), (0, 4), (2, 4)]][kind]
    names = [NA, NB, NA, NC]
    tags = [[TX, TY], [TY, TX], [TX], [TY, TZ, TX]]
    for i in range(4):
        if i == warm_at:
            ms.tags, ms.names, ms.at_index(1), ms.starting(0), ms.ending(0)
        ms.append(Match(places[i][0], places[i][1], name=names[i], tags=list(tags[i]), value=[None, 1, 2, 1][i], input_string=T))
    ms.markers.append(Match(0, 12, name=NC, marker=True))
    ms.markers.append(Match(0, 6, name=NB, marker=True))
    return ms


warm_at = 9


def queries(kind):
    return views(some(kind))


def case_queries():
    global warm_at
    warm_at = choose(9, 0, 2)
    twice(queries, choose(0, 1, 2))


# ---------------------------------------------------------------- conflicts
def conflicts(kind, solver, private):
    """three or four matches in conflict, equal ones too"""
    spans = [[(0, 3), (1, 4), (2, 5), (0, 1)], [(0, 4), (0, 4), (0, 4), (2, 3)], [(0, 2), (1, 3), (1, 3), (2, 6)],
             [(5, 6), (3, 7), (4, 8), (0, 4)]][kind]
    r = Rebulk()
    for i in range(len(spans)):
        kw = {}
        if solver == i:
            kw["conflict_solver"] = [lambda a, b: "__default__", lambda a, b: b, lambda a, b: None, lambda a, b: a][i]
        r.functional(fixed(spans[i]), name=[NA, NB, NC, NA][i], tags=[TX] if i % 2 else [TY, TX],
                     private=(private == i), value=i + 1, **kw)
    return views(r.matches(T))


def fixed(*spans):
    return lambda text: list(spans)


def case_conflicts():
    twice(conflicts, choose(0, 1, 2, 3), choose(0, 1, 2, 3, 9), choose(1, 9))


def tables(table):
    """matches of one length, all in conflict: each pair is decided by the table of the first one"""
    def solver(i):
        def solve(a, b):
            j = order(a if a.name is not names[i] else b)
            t = [None, names[i], names[j]][table[i + j - 1]]
            return a if t is a.name else b if t is b.name else None

        return solve

    names = [NA, NB, NC]

    def order(m):
        return names.index(m.name)

    r = Rebulk()
    for i in range(3):
        r.functional(fixed((i, 3 + i)), name=names[i], conflict_solver=solver(i))
    return views(r.matches(T))


def case_tables():
    """pairs (a, b), (a, c), (b, c): nothing, or either of the two is removed"""
    twice(tables, [choose(0, 1, 2), choose(0, 1, 2), choose(0, 1, 2)])


class Spy(CustomRule):
    def when(self, matches, context):
        return True

    def then(self, matches, when_response, context):
        context["log"].append(("spy", rows(matches)))


class First(Spy):
    priority = 2000


class Last(Spy):
    priority = -3000


def removed(kind):
    """what the built-in rules report they remove, as a selection of the matches"""
    ms = some(kind)
    for m in ms:
        m.private = m.name is NC
    context = {"log": []}
    ret = Rules(First, PrivateRemover, ConflictSolver, Last).execute_all_rules(ms, context)
    return [("rules run", [r.__class__.__name__ for r, w in ret]), ("states", context["log"])] + views(ms)


def case_removed():
    twice(removed, choose(0, 1, 2))


# ---------------------------------------------------------------- rules
def rule(n, prio, what):
    class R(CustomRule):
        priority = prio

        def when(self, matches, context):
            context["log"].append(("when", n, rows(matches)))
            return [m for m in matches if m.name is what]

        def then(self, matches, when_response, context):
            context["log"].append(("then", n, rows(when_response)))
            for m in when_response:
                matches.remove(m)
            for m in when_response:
                matches.append(m)

    R.__name__ = n
    return R


def executed(perm, deps, nested):
    classes = [rule("r0", 0, NA), rule("r1", 0, NB), rule("r2", 0, NC), rule("r3", 0, NA)]
    if deps == 1:
        classes[3].dependency = [classes[0], classes[1]]
        classes[2].dependency = classes[0]
    elif deps == 2:
        classes[0].dependency = (classes[1], classes[2], classes[3])
    elif deps == 3:
        classes[1].priority = 5
        classes[2].priority = 5
    order = [classes[i] for i in perm]
    r = Rebulk(default_rules=False)
    ms = some(0)
    context = {"log": []}
    if nested:
        r.rules(order[0]).rebulk(Rebulk(default_rules=False).rules(order[1], order[2]),
                                 Rebulk(default_rules=False).rules(order[3], order[3]))
    else:
        r.rules(*order)
    ret = r.effective_rules(context).execute_all_rules(ms, context)
    return [("executions", context["log"]), ("reported", [x.__class__.__name__ for x, w in ret]),
            ("effective_rules", [x.__class__.__name__ for x in r.effective_rules()])] + views(ms)


def case_rules():
    deps = choose(0, 1, 2, 3)
    nested = choose(False, True) if deps < 3 else False
    twice(executed, choose([0, 1, 2, 3], [3, 1, 0, 2], [2, 3, 1, 0]), deps, nested)


def consequences(what):
    """every built-in consequence on several matches"""
    class R(Rule):
        consequence = [lambda: RenameMatch(NA), lambda: AppendTags([TY, TZ, TX]), lambda: RemoveTags([TX, TY]),
                       lambda: RemoveMatch(), lambda: AppendMatch(NB)][what]()

        def when(self, matches, context):
            if what == 4:
                return [Match(5, 6, name=NC, tags=[TX]), Match(0, 6, name=NA), Match(5, 6, name=NA)]
            return matches.range(0, 5)

    ms = some(choose_kind)
    Rules(R).execute_all_rules(ms, {})
    return views(ms)


choose_kind = 0


def case_consequences():
    global choose_kind
    choose_kind = choose(0, 1, 2)
    twice(consequences, choose(0, 1, 2, 3, 4))


def load_module_rules():
    import mod_rules
    return [("module rules", [r.__class__.__name__ for r in Rules(mod_rules)])]


def case_module():
    twice(load_module_rules)


# ---------------------------------------------------------------- patterns
def patterns(nested):
    """the order of patterns, nested or not, of values of all kinds"""
    r = Rebulk(default_rules=False)
    a = Rebulk(default_rules=False).functional(fixed((0, 2), (4, 6)), name=NA, tags=[TY, TX, TZ]).string("ab", "cd", name=NB)
    b = Rebulk(default_rules=False).functional(fixed((2, 4), (0, 2)), name=NB, tags=[TX]).functional(fixed((0, 12)), name=NC, marker=True)
    c = Rebulk(default_rules=False).functional(fixed((0, 2)), name=NC, value=4)
    if nested:
        r.rebulk(a, b, c, a)
    else:
        r.functional(fixed((3, 4)), name=NC).rebulk(b).rebulk(c, a)
    r.functional(fixed((0, 1)), name=NA, value=[3, 4])
    ms = r.matches(T)
    return [("effective_patterns", [(p.name, list(p.tags)) for p in r.effective_patterns()])] + views(ms)


def case_patterns():
    twice(patterns, choose(True, False))


def chains(kind):
    r = Rebulk(default_rules=False)
    c = r.chain(name=NA, children=choose_flag, every=True, tags=[TX, TY])
    c.functional(fixed((0, 1), (1, 2)), name=NB).repeater("+")
    c.functional(fixed((0, 1)), name=NC, tags=[TZ]).repeater("*")
    c.close()
    r.functional(fixed((0, 12)), name=NA, private_names=[NB, NC, NA], ignore_names=[NC, NB])
    ms = r.matches(T)
    return views(ms) + [("children", [rows(m.children) for m in ms])]


choose_flag = False


def case_chains():
    global choose_flag
    choose_flag = choose(True, False)
    twice(chains, 0)


# ---------------------------------------------------------------- introspection, keys
class Producing(Rule):
    properties = {"zeta": [None], "alpha": [1, 2]}

    def when(self, matches, context):
        return None


class Other(Rule):
    properties = {"alpha": [2, 3], "beta": [[1], [1], [2]]}

    def when(self, matches, context):
        return None


def introspected(nested):
    r = Rebulk().rules(Producing)
    s = Rebulk().rules(Other).string("x", "y", "x", name="beta").string("z", name="alpha", value="w")
    s.regex("(?P<two>b)(?P<one>a)", "(?P<three>c)(?P<one>d)", name="gamma")
    s.functional(fixed((0, 1)), properties={"delta": [3, 1, 2], "alpha": [9, 2]})
    r.string("q", "p", "o", name="beta").functional(fixed((0, 1)), value={"zz": 1, "aa": 2, "mm": 3})
    r.rebulk(s, s) if nested else s.rebulk(r)
    i = introspect(r if nested else s)
    out = [("introspection", list(i.properties), [i.properties[k] for k in i.properties])]
    out.append(("patterns", [(list(p.properties), [p.properties[k] for k in p.properties]) for p in i.patterns]))
    out.append(("rules", [(list(x.properties), [x.properties[k] for k in x.properties]) for x in i.rules]))
    return out


def case_introspection():
    twice(introspected, choose(True, False))


def keys(allowed):
    r = Rebulk().declare_keys(Key("c", str), Key("a", str), Key("d", str))
    r.rebulk(Rebulk().declare_keys(Key("b", str), Key("e", str)), Rebulk().declare_keys(Key("f", str), Key("a", int)))
    r.functional(fixed((0, 1)), name="d")
    ms = r.matches(T)
    r.chain().functional(fixed((0, 1)), name="e").regex("(?P<g>a)").close()
    allow = [(), "c", ["f", "a"]][allowed]
    return [("check_keys", r.check_keys(allowed_unused=allow)), ("effective_keys", list(r.effective_keys())),
            ("declared_keys", list(ms.declared_keys))]


def case_keys():
    twice(keys, choose(0, 1, 2))


def case_regex():
    """groups and children of a regex pattern"""
    twice(regexes, choose(0, 1, 2))


def regexes(mode):
    r = Rebulk(default_rules=False)
    kw = [{"children": True}, {"every": True}, {"private_children": True}][mode]
    r.regex("(?P<two>a)(?P<one>b)(c)", name=NA, tags=[TX, TY], **kw)
    ms = r.matches(T)
    return [("matches", rows(ms)), ("children", [rows(m.children) for m in ms]),
            ("names of the matches", list(ms.names), list(ms.tags))]


def case_equal_matches():
    """matches that are equal, in every query that removes duplicates"""
    twice(equal, choose(0, 1))


def equal(kind):
    a = Match(0, 4, name=NA, value=1)
    b = Match(0, 4, name=NA, value=1)
    c = Match(0, 4, name=NA, value=2)
    d = Match(2, 4, name=NB, value=1)
    ms = Matches([[a, b, c, d], [d, c, b, a]][kind], input_string=T)
    order = [a, b, c, d]

    def which(found):
        return [[x for x in range(4) if order[x] is m] for m in found]

    out = [("conflicting", which(ms.conflicting(a)), which(ms.conflicting(d)), which(ms.conflicting(Match(0, 12)))),
           ("at_span", which(ms.at_span((0, 4)))), ("range", which(ms.range(0, 4))), ("at_index", which(ms.at_index(3)))]
    Rules(ConflictSolver).execute_all_rules(ms, {})
    out.append(("kept", which(ms)))
    return out
