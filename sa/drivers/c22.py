# C22: the same scenario under the plain configuration and under any other debug and logging configuration.
import mod_frames
from rebulk import Rebulk, Rule, CustomRule, Key, RemoveMatch, AppendMatch, RenameMatch, AppendTags
from rebulk import debug
from rebulk.chain import Chain
from rebulk.introspector import introspect
from rebulk.match import Match, Matches
from rebulk.pattern import FunctionalPattern, RePattern, StringPattern
from rebulk.processors import ConflictSolver, PrivateRemover, POST_PROCESS
from rebulk.rules import Rules
from common import NA, NB, NC, TX, TY, TZ

CONFIG = {"*": {"max_paths": 4000, "seconds": 120, "regex_total": 1, "regex_max": 1}}

T = "abcdefghijkl"


def seen(m):
    return (m.start, m.end, m.name, m.value, list(m.tags), bool(m.private), bool(m.marker), m.raw,
            [(c.start, c.end, c.name, c.value) for c in m.children])


def rows(ms):
    return [seen(m) for m in ms]


def plain():
    setting("regex_memo_on", True)
    setting("log_formats", False)
    debug.DEBUG = False
    debug.LOG_LEVEL = 10


LEVEL = None


def levels():
    """the log_level option given to patterns and rules in this configuration"""
    return {} if LEVEL is None else {"log_level": LEVEL}


def configure(which):
    """the settings while everything is built, and those while it runs"""
    global LEVEL
    if which == "debug":
        debug.DEBUG = True
    elif which == "debug and logging":
        debug.DEBUG = True
        setting("log_formats", True)
    elif which == "logging":
        setting("log_formats", True)
    elif which == "some levels":
        setting("log_formats", "some")
    elif which == "global level":
        debug.LOG_LEVEL = unknown("level", "int")
    elif which == "level 0":
        debug.LOG_LEVEL = 0
    elif which == "object level":
        LEVEL = unknown("level", "int")
        setting("log_formats", True)
    elif which == "object level 0":
        LEVEL = 0


def later(which):
    """settings changed once everything is built"""
    if which == "debug later":
        debug.DEBUG = True
        setting("log_formats", True)
    elif which == "debug off later":
        debug.DEBUG = False
        setting("log_formats", True)
    elif which == "level later":
        debug.LOG_LEVEL = unknown("level", "int")
        setting("log_formats", True)


ALL = ["debug", "debug and logging", "logging", "some levels", "global level", "level 0", "object level",
       "object level 0", "debug later", "debug off later", "level later"]


def compare(build, run, *args):
    """build and run under both configurations"""
    global LEVEL
    LEVEL = None
    plain()
    a = outcome(run, build(*args))
    which = choose(*ALL)
    if which == "debug off later":
        debug.DEBUG = True
    configure(which)
    try:
        built = build(*args)
        later(which)
    except Exception as e:
        check(False, "same-result", (which, "building fails", type(e).__name__))
        return
    b = outcome(run, built)
    plain()
    LEVEL = None
    for i in range(len(a)):
        if i < len(b):
            check(a[i] == b[i], "same-result", (which, a[i][0]))
    check(len(a) == len(b), "same-result", (which, "result or error"))


def outcome(run, built):
    try:
        return run(built)
    except Exception as e:
        return [("error", type(e).__name__)]


def views(ms):
    out = [("matches", rows(ms)), ("markers", rows(ms.markers)), ("names", list(ms.names)), ("tags", list(ms.tags))]
    out.append(("queries", rows(ms.range(0, 12)), rows(ms.at_index(2)), rows(ms.holes(0, 12)), rows(ms.named(NA))))
    d = ms.to_dict()
    out.append(("to_dict", list(d), [d[n] for n in d]))
    return out


def run(r):
    return views(r.matches(T, {"x": 1}))


# ---------------------------------------------------------------- patterns
def spans(*s):
    return lambda text: list(s)


def every_pattern(private):
    r = Rebulk()
    r.string("ab", "cd", name=NA, tags=[TX], **levels())
    r.functional(spans((1, 3), (4, 6)), name=NB, value=3, **levels())
    r.functional(spans((0, 12)), name=NC, marker=True, tags=[TY], **levels())
    r.functional(spans((8, 10)), private=private, name=NA, formatter=lambda raw: raw.upper(), **levels())
    r.functional(spans((10, 11)), disabled=lambda context: True, **levels())
    r.functional(lambda text: None, **levels())
    r.functional(spans((6, 7)), validator=lambda m: False, **levels())
    c = r.chain(name=NB, children=private, private_children=not private, **levels())
    c.functional(spans((0, 2)), name=NA, **levels()).functional(spans((0, 1)), name=NC).repeater("*")
    c.close()
    r.rebulk(Rebulk(disabled=lambda context: not context["x"]).functional(spans((7, 8)), name=NC, **levels()))
    return r


def case_patterns():
    compare(every_pattern, run, choose(True, False))


def regex(mode):
    return Rebulk(default_rules=False).regex("(?P<one>a)(b)", name=NA, **levels(), **[{"children": True}, {"every": True}, {}][mode])


def run_regex(r):
    ms = r.matches(T)
    return [("matches", rows(ms)), ("names", list(ms.names))]


def case_regex():
    compare(regex, run_regex, choose(0, 1, 2))


def options(which):
    """processors and validators of a pattern"""
    r = Rebulk()
    two = spans((0, 2), (4, 6))
    if which == 0:
        r.functional(two, pre_match_processor=lambda m: False if m.start == 0 else None, **levels())
    elif which == 1:
        r.functional(two, post_processor=lambda ms, p: ms[1:], **levels())
    elif which == 2:
        r.functional(lambda text: (x for x in [(0, 2), (4, 6)]), **levels())
    elif which == 3:
        r.functional(two, post_processor=lambda ms, p: (m for m in ms), **levels())
    elif which == 4:
        r.functional(two, validator=lambda m: m.defined_at is None or True, **levels())
    else:
        r.defaults(**levels()).functional_defaults(name=NA).functional(two).string("ab")
    return r


def case_options():
    compare(options, run, choose(0, 1, 2, 3, 4, 5))


def direct(kind):
    """patterns used without a rebulk"""
    if kind == 0:
        return StringPattern("ab", "cd", name=NA, **levels())
    if kind == 1:
        return FunctionalPattern(spans((0, 2)), name=NA, **levels())
    if kind == 2:
        return RePattern("(?P<one>a)", name=NA, children=True, **levels())
    c = Chain(None, name=NA, **levels())
    return c


def run_direct(p):
    found, raw = p.matches(T, {}, True)
    return [("matches", rows(found)), ("raw matches", rows(raw))]


def case_direct():
    compare(direct, run_direct, choose(0, 1, 2, 3))


def conflicts(table):
    """conflict resolution reports what it removes"""
    r = Rebulk(default_rules=False).rules(ConflictSolver(**levels()), PrivateRemover(**levels()))
    solvers = [None, lambda a, b: a, lambda a, b: "__default__"]
    r.functional(spans((0, 4)), name=NA, conflict_solver=solvers[table[0]], **levels())
    r.functional(spans((2, 6), (7, 8)), name=NB, conflict_solver=solvers[table[1]], **levels())
    r.functional(spans((3, 4), (7, 8)), name=NB, private=choose_private, **levels())
    return r


choose_private = False


def case_conflicts():
    global choose_private
    choose_private = choose(True, False)
    compare(conflicts, run, [choose(0, 1, 2), choose(0, 1, 2)])


# ---------------------------------------------------------------- rules
def rule(what):
    class R(Rule):
        consequence = [RemoveMatch, RenameMatch(NC), AppendMatch, AppendTags([TX, TZ]), RemoveMatch, [RemoveMatch, RemoveMatch],
                       RemoveMatch, RemoveMatch][what]

        def enabled(self, context):
            return what != 6

        def when(self, matches, context):
            if what == 0:
                return matches.named(NA)
            if what == 1:
                return matches[0]
            if what == 2:
                return [Match(6, 7, name=NA, value=4), Match(7, 8)]
            if what == 3:
                return (m for m in list(matches))
            if what == 4:
                return iter([matches[0], matches[1]])
            if what == 5:
                return iter([matches[0], [matches[1], matches[2]]])
            if what == 6:
                return list(matches)
            return []

    return R


class WithLevel(CustomRule):
    log_level = 7
    priority = 3

    def when(self, matches, context):
        return matches.named(NB)

    def then(self, matches, when_response, context):
        when_response[0].name = NC


class Quiet(CustomRule):
    """does not call the constructor of its base class"""
    log_level = 3

    def __init__(self):
        self.defined_at = None

    def when(self, matches, context):
        return None


def ruled(what, how):
    r = Rebulk(default_rules=False)
    r.functional(spans((0, 2), (1, 3), (5, 6)), name=NA).functional(spans((2, 4)), name=NB, value=1)
    cls = rule(what)
    first = cls(**levels())
    if how == 0:
        r.rules(first, WithLevel, Quiet)
    elif how == 3:
        cls.priority = 3
        r.rules(WithLevel, cls(**levels()))
    elif how == 4:
        cls.priority = 3
        r.rules(cls, WithLevel(**levels()))
    elif how == 1:
        r.rules(WithLevel(**levels()), cls)
    else:
        cls.dependency = WithLevel
        cls.priority = 3
        r.rebulk(Rebulk(default_rules=False).rules(cls, WithLevel))
    return r


def case_rules():
    compare(ruled, run, choose(0, 1, 2, 3, 4, 5, 6, 7), choose(0, 1))


def case_rules_nested():
    compare(ruled, run, choose(0, 1, 2, 3, 4, 5, 6, 7), 2)


def case_rules_of_one_priority():
    compare(ruled, run, choose(0, 1, 2, 3), choose(3, 4))


def reported(what):
    cls = rule(what)
    ms = Matches([Match(0, 2, name=NA), Match(1, 3, name=NA), Match(5, 6, name=NB)], input_string=T)
    return (Rules(cls(**levels()), WithLevel), ms)


def run_rules(pair):
    rules, ms = pair
    ret = rules.execute_all_rules(ms, None)
    return [("rules that triggered", [r.__class__.__name__ for r, w in ret])] + views(ms)


def case_reported():
    compare(reported, run_rules, choose(0, 1, 2, 3, 4, 5, 6, 7))


# ---------------------------------------------------------------- everything else
def other(what):
    r = Rebulk().declare_keys(Key("a", str), Key("b", int))
    r.functional(spans((0, 2)), name="a", **levels()).regex("(?P<b>x)", **levels()).string("q", name="c")
    r.rules(WithLevel)
    return r


def run_other(r):
    i = introspect(r)
    return [("introspection", list(i.properties), [i.properties[k] for k in i.properties]), ("check_keys", r.check_keys()),
            ("effective", [p.name for p in r.effective_patterns()], len(r.effective_rules())),
            ("keys", list(r.effective_keys()))]


def case_other():
    compare(other, run_other, 0)


def matches_of(kind):
    """matches built by the caller"""
    m = Match(0, 8, name=NA, input_string=T)
    return Matches([m, Match(2, 4, value=1, input_string=T), Match(2, 4, value=1, input_string=T)], input_string=T)


def run_matches(ms):
    m = ms[0]
    return [("crop", rows(m.crop([(2, 3)]))), ("split", rows(m.split("cd"))), ("equal", ms[1] == ms[2], ms[0] == ms[1]),
            ("hash", hash(ms[1]) == hash(ms[2])), ("order", ms[0] < ms[1], ms[1] <= ms[2]),
            ("repr does not fail", isinstance(repr(ms), str))] + views(ms)


def case_matches():
    compare(matches_of, run_matches, 0)


def shown(nothing):
    r = Rebulk()
    r.functional(spans((0, 2)), name=NA, **levels()).regex("(?P<b>x)", **levels()).string("q", **levels())
    c = r.chain(name=NB, **levels())
    c.functional(spans((0, 1))).functional(spans((0, 1)), **levels()).repeater("*")
    c.close()
    r.rules(WithLevel, rule(0)(**levels()))
    return r


def run_shown(r):
    """the texts differ, showing never fails"""
    out = []
    for x in [r.effective_patterns(), r.effective_rules(), r._patterns[-1].parts]:
        for y in x:
            out.append(("repr does not fail", isinstance(repr(y), str), isinstance(str(y), str)))
    ms = r.matches(T)
    out.append(("repr does not fail", isinstance(repr(ms), str)))
    for m in ms:
        out.append(("repr does not fail", isinstance(repr(m), str)))
    return out


def case_shown():
    compare(shown, run_shown, 0)


def case_frames():
    """locations seen from modules of every kind: in no package, without __package__, of a package"""
    debug.DEBUG = True
    which = choose(0, 1, 2)
    mod_frames.use(which)
    try:
        r = mod_frames.build(Rebulk())
        ms = r.matches(T)
        text = repr(ms), repr(r.effective_patterns()), repr(r.effective_rules())
    except Exception as e:
        check(False, "same-result", ("debug locations fail", type(e).__name__))
        return
    finally:
        mod_frames.restore()
    check(len(ms) == 1 and ms[0].span == (0, 2), "same-result", "debug locations")


# ---------------------------------------------------------------- levels
def level_of(given):
    """the level given to an object, else the global one"""
    debug.LOG_LEVEL = choose(10, 0, 35)
    if given == "none":
        return debug.LOG_LEVEL, {}
    if given == "zero":
        return 0, {"log_level": 0}
    n = unknown("level", "int")
    return n, {"log_level": n}


def logged():
    return [e[0] for e in events("log")]


def case_pattern_level():
    want, kw = level_of(choose("none", "zero", "some"))
    kind = choose(0, 1, 2, 3, 4, 5)
    r = Rebulk(default_rules=False)
    if kind == 0:
        r.functional(spans((0, 2)), **kw)
    elif kind == 1:
        r.string("ab", **kw)
    elif kind == 2:
        r.functional(spans((0, 2)), marker=True, **kw)
    elif kind == 3:
        r.functional(spans((0, 2)), disabled=True, **kw)
    elif kind == 4:
        r.chain(**kw).functional(spans((0, 2))).close()
    else:
        r.rebulk(Rebulk(default_rules=False).regex("(a)", **kw))
    for p in r.effective_patterns():
        check(p.log_level == want, "level", ("pattern", kind))
    r.matches(T)
    for level in logged():
        check(level == want, "level", ("messages about a pattern", kind))


class Plain(CustomRule):
    def when(self, matches, context):
        return context.get("go")

    def enabled(self, context):
        return context.get("on")

    def then(self, matches, when_response, context):
        return None


def case_rule_level():
    want, kw = level_of(choose("none", "zero", "some"))
    context = {"go": choose(True, False), "on": choose(True, False)}
    how = choose("instance", "class attribute", "both", "default")
    if how == "instance":
        rule_ = Plain(**kw)
    elif how == "class attribute":
        class Sub(Plain):
            log_level = 21

        rule_, want = Sub(), 21
    elif how == "both":
        class Sub(Plain):
            log_level = 21

        rule_ = Sub(**kw)
        want = want if kw else 21
    else:
        rule_, want = Plain(), debug.LOG_LEVEL
    check(rule_.log_level == want, "level", ("rule", how))
    Rules(rule_).execute_all_rules(Matches(), context)
    check(len(logged()) > 0, "level", ("no message about the rule", how))
    for level in logged():
        check(level == want, "level", ("messages about a rule", how))


def case_conflict_level():
    want, kw = level_of(choose("none", "zero", "some"))
    ms = Matches([Match(0, 4), Match(1, 3)], input_string=T)
    Rules(ConflictSolver(**kw)).execute_all_rules(ms, None)
    for level in logged():
        check(level == want, "level", "messages of the conflict solver")
    check(len(ms) == 1, "level", "conflict solved")
