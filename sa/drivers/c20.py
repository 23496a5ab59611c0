# C20: an exception of a user supplied function reaches the caller, the very same object, whatever its class.
import logging
from dataclasses import dataclass
from typing import Any, TypedDict

from rebulk import Rebulk, Rule, CustomRule, Key, RemoveMatch
from rebulk import debug
from rebulk.chain import Chain
from rebulk.formatters import formatters
from rebulk.introspector import introspect
from rebulk.match import Match, Matches
from rebulk.pattern import FunctionalPattern, RePattern, StringPattern
from rebulk.rules import Consequence, Rules
from rebulk.validators import validators
from common import NA, NB, NC, NO, TX

CONFIG = {"*": {"max_paths": 6000, "seconds": 120, "regex_total": 1}}


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


class Found(Exception):
    """an exception that is falsy and compares equal to everything"""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


# every class a handler of the package can tell apart, and subclasses of them
HANDLED = handled_exceptions()


def an_error():
    i = choose(3 + len(HANDLED) + (2 if thorough() else 0))
    if i == 0:
        return Boom("boom")
    if i == 1:
        return Halt("halt")
    if i == 2:
        return Found("found")
    if i - 3 < len(HANDLED):
        return HANDLED[i - 3]("boom")
    if i - 3 == len(HANDLED):
        return KeyboardInterrupt()
    return RecursionError("boom")


ERROR = None


def arm():
    global ERROR
    ERROR = an_error()
    return ERROR


def boom(*args, **kwargs):
    event("raised")
    raise ERROR


class Later:
    """succeeds the first times, raises afterwards"""

    def __init__(self, n, result):
        self.n = n
        self.result = result

    def __call__(self, *args):
        if self.n > 0:
            self.n -= 1
            return self.result
        boom()


def expect(label, fn, *args, **kwargs):
    """the call must raise the armed error, the same object, with nothing chained in front of it"""
    try:
        fn(*args, **kwargs)
    except BaseException as e:
        check(e is ERROR, "propagates", (label, "replaced by", type(e).__name__))
        return
    check(len(events("raised")) == 0, "propagates", (label, "swallowed"))
    note("not reached", label)


def pair(text):
    return [(0, 2), (1, 4), (5, 7)]


def one(text):
    return (0, 2)


T = "abcdefgh"


def logs():
    """with and without debug locations"""
    debug.DEBUG = choose(False, True)


# ---------------------------------------------------------------- patterns
def functional_generator(text):
    yield (0, 2)
    boom()


class Odd:
    """results whose inspection raises"""

    def __len__(self):
        boom()


def case_functional():
    arm()
    logs()
    f = choose(boom, functional_generator, lambda text, context: boom(), lambda text, **kw: boom())
    where = choose(0, 1, 2, 3, 4)
    r = Rebulk(default_rules=choose(True, False))
    r.functional(one)
    if where == 0:
        r.functional(f)
    elif where == 1:
        r.rebulk(Rebulk().functional(f))
    elif where == 2:
        r.chain().functional(f).close()
    elif where == 3:
        r.chain().functional(one).functional(f).repeater(choose("*", "?", "+")).close()
    else:
        c = r.chain()
        c.functional(one)
        c.chain().functional(f).repeater("*").close()
    expect(("functional pattern", where), r.matches, T)


def case_functional_direct():
    arm()
    p = FunctionalPattern(one, boom)
    expect("functional pattern", p.matches, T, None, choose(True, False))


def option(f):
    return choose(f, {None: f})


def simple(r, kind, **kw):
    if kind == 0:
        r.functional(pair, **kw)
    elif kind == 1:
        r.string("ab", "cd", **kw)
    elif kind == 2:
        r.chain(**kw).functional(one).functional(one).repeater("*").close()
    elif kind == 3:
        r.chain().functional(one, **kw).functional(one).repeater("*").close()
    else:
        r.chain().functional(one).functional(one, **kw).repeater("*").close()


def case_validator():
    arm()
    kind = choose(0, 1, 2, 3, 4)
    n = choose(0, 1) if kind in (0, 1) else 0
    r = Rebulk()
    v = choose(Later(n, True), Later(n, False), {None: Later(n, True)}, validators(lambda m: True, Later(n, True)))
    simple(r, kind, validator=v)
    expect(("validator", kind), r.matches, T)


def case_chain_validator_again():
    """a chain that is shortened asks its validator again"""
    arm()
    r = Rebulk()
    r.chain(validator=Later(1, False)).functional(lambda text: [(0, 1), (1, 2), (2, 3)]).repeater("+").close()
    expect("validator of a shortened chain", r.matches, T)


def case_regex():
    """parents and children of a regex pattern"""
    arm()
    kw = choose({"children": True}, {"every": True}, {"validate_all": True}, {"private_children": True, "validate_all": True})
    which = choose("validator child", "validator parent", "pre", "post", "post_processor")
    if which == "validator child":
        kw = dict(kw, validator=choose({"one": boom}, {"__children__": boom}))
    elif which == "validator parent":
        kw = dict(kw, validator={"__parent__": boom}, validate_all=True)
    elif which == "pre":
        kw["pre_match_processor"] = boom
    elif which == "post":
        kw["post_match_processor"] = boom
    else:
        kw["post_processor"] = boom
    r = Rebulk().regex("(?P<one>a)b", **kw)
    try:
        r.matches(T)
    except BaseException as e:
        check(e is ERROR, "propagates", (which, "replaced by", type(e).__name__))
        return
    check(len(events("raised")) == 0, "propagates", (which, "swallowed"))


def case_processors():
    arm()
    kind = choose(0, 1, 2, 3, 4)
    which = choose("pre_match_processor", "post_match_processor", "post_processor")
    r = Rebulk()
    if which == "post_processor":
        simple(r, kind, post_processor=boom)
    else:
        simple(r, kind, **{which: Later(choose(0, 1) if kind == 0 else 0, None)})
    expect((which, kind), r.matches, T)


def case_chain_breaker():
    arm()
    r = Rebulk()
    n = choose(0, 1)
    r.chain(chain_breaker=Later(n, choose(True, False))).functional(one).functional(one).repeater("*").close()
    expect("chain_breaker", r.matches, T)


def case_disabled():
    arm()
    which = choose("rebulk", "nested", "pattern", "chain", "nested pattern")
    if which == "rebulk":
        r = Rebulk(disabled=boom).functional(one)
    elif which == "nested":
        r = Rebulk().rebulk(Rebulk(disabled=boom).functional(one))
    elif which == "pattern":
        r = Rebulk().functional(one, disabled=boom)
    elif which == "chain":
        r = Rebulk()
        r.chain(disabled=boom).functional(one).close()
    else:
        r = Rebulk().rebulk(Rebulk().string("a", disabled=boom))
    expect(("disabled", which), r.matches, T)
    if which == "nested":
        expect("disabled, effective_patterns", r.effective_patterns)
        expect("disabled, effective_rules", r.effective_rules)
        expect("disabled, effective_keys", r.effective_keys)
        expect("disabled, introspection", introspect, r)


# ---------------------------------------------------------------- formatters
def case_formatter():
    """where a formatted value is needed"""
    arm()
    f = choose(boom, formatters(boom), formatters(lambda x: x, boom), Later(0, None))
    how = choose(0, 1, 2)
    r = Rebulk(default_rules=False)
    if how == 0:
        r.functional(one, name="a", formatter=f)
    elif how == 1:
        r.functional(one, name="a", formatter={"a": f})
    else:
        r.declare_keys(Key("a", str, f)).functional(one, name="a")
    ms = r.matches(T)
    m = ms[0]

    @dataclass
    class Model:
        a: Any = None

    class Typed(TypedDict, total=False):
        a: list[Any]

    use = choose(lambda: m.value, lambda: ms.to_dict(), lambda: ms[Key("a", str)], lambda: ms.all(Key("a", str)),
                 lambda: ms.to(Model), lambda: ms.to(Typed), lambda: ms.to(list[str]), lambda: ms.to(str),
                 lambda: repr(m), lambda: m == Match(0, 2, name="a"), lambda: m != Match(0, 2, name="a"),
                 lambda: ms.index(Match(0, 2, name="a")), lambda: ms.remove(Match(0, 2)),
                 lambda: ms.count(Match(0, 2)), lambda: Match(0, 2) in ms, lambda: repr(ms))
    expect("formatter", use)


def case_formatter_declared():
    """the check of declared keys formats"""
    arm()
    debug.CHECK_DECLARED_KEYS = True
    r = Rebulk(default_rules=False).declare_keys(Key("a", str, boom)).functional(one, name="a")
    expect("converter of a declared key", r.matches, T)


def case_formatter_holes():
    arm()
    ms = Matches([Match(2, 3)], input_string=T)
    h = ms.holes(formatter=boom)[0]
    expect("formatter of a hole", lambda: h.value)


def case_formatter_conflicts():
    """comparing matches formats their values"""
    arm()
    r = Rebulk().functional(lambda text: (0, 2), formatter=boom).functional(lambda text: (0, 2), formatter=boom)
    expect("formatter, conflicts", r.matches, T)


def case_model():
    """the model a caller projects onto"""
    arm()

    @dataclass
    class Model:
        a: Any = None

        def __post_init__(self):
            boom()

    ms = Matches([Match(0, 2, name="a", value=3)], input_string=T)
    expect("model", ms.to, Model)


# ---------------------------------------------------------------- rules
def case_conflict_solver():
    arm()
    logs()
    which = choose(0, 1, 2)
    r = Rebulk()
    a = {"conflict_solver": boom} if which in (0, 2) else {}
    b = {"conflict_solver": boom} if which in (1, 2) else {}
    r.functional(lambda text: (0, 3), **a).functional(lambda text: (1, 5), **b)
    expect("conflict_solver", r.matches, T)


def case_conflict_solver_default():
    """a solver that passes on, then one that raises"""
    arm()
    r = Rebulk().functional(lambda text: (0, 3), conflict_solver=lambda m, o: "__default__")
    r.functional(lambda text: (1, 5), conflict_solver=boom)
    expect("conflict_solver", r.matches, T)


class WhenRule(Rule):
    consequence = RemoveMatch

    def when(self, matches, context):
        boom()


class ThenRule(CustomRule):
    def when(self, matches, context):
        return True

    def then(self, matches, when_response, context):
        boom()


class EnabledRule(Rule):
    consequence = RemoveMatch

    def enabled(self, context):
        boom()

    def when(self, matches, context):
        return None


class BadConsequence(Consequence):
    def then(self, matches, when_response, context):
        boom()


class BadInit(Consequence):
    def __init__(self):
        boom()

    def then(self, matches, when_response, context):
        return None


class Fine(Consequence):
    def then(self, matches, when_response, context):
        return None


class OneConsequence(Rule):
    consequence = BadConsequence

    def when(self, matches, context):
        return list(matches)


class SecondConsequence(Rule):
    consequence = [Fine, BadConsequence]

    def when(self, matches, context):
        return [True, True]


class InstanceConsequence(Rule):
    consequence = BadConsequence()

    def when(self, matches, context):
        return True


class InitConsequence(Rule):
    consequence = BadInit

    def when(self, matches, context):
        return True


class LazyResponse(Rule):
    """the response is consumed by the consequence"""
    consequence = RemoveMatch

    def when(self, matches, context):
        def gen():
            yield matches[0]
            boom()

        return gen()


class Before(Rule):
    priority = 5
    consequence = Fine

    def when(self, matches, context):
        return True


class After(Rule):
    priority = -5

    def when(self, matches, context):
        event("after")
        return None


def case_rule():
    arm()
    logs()
    cls = choose(WhenRule, ThenRule, EnabledRule, OneConsequence, SecondConsequence, InstanceConsequence, InitConsequence,
                 LazyResponse)
    where = choose(0, 1, 2)
    r = Rebulk(default_rules=choose(True, False)).functional(one)
    if where == 0:
        r.rules(Before, cls, After)
    elif where == 1:
        r.rules(After, cls(), Before)
    else:
        r.rules(After).rebulk(Rebulk().rules(cls, Before))
    expect(("rule", cls.__name__), r.matches, T)
    check(len(events("after")) == 0, "propagates", (cls.__name__, "later rules still ran"))


def case_rules_direct():
    arm()
    cls = choose(WhenRule, ThenRule, EnabledRule)
    ms = Matches([Match(0, 2)], input_string=T)
    rules = Rules(Before, cls)
    expect(("rule", cls.__name__), rules.execute_all_rules, ms, None)


def case_rule_init():
    """a rule class whose constructor raises"""
    arm()

    class BadRule(Rule):
        def __init__(self):
            boom()

        def when(self, matches, context):
            return None

    expect("rule constructor", Rebulk().rules, BadRule)


# ---------------------------------------------------------------- predicates
def case_predicates():
    """every query; the predicate raises on the first or a later match"""
    arm()
    ms = Matches([Match(0, 2, name="a", tags=["t"]), Match(0, 2, name="a", tags=["t"], value=3), Match(2, 4),
                  Match(2, 4, value=1), Match(6, 8)], input_string=T)
    m = ms[0]
    p = choose(Later(0, True), Later(1, True), Later(1, False), Later(2, True))
    i = choose({}, {"index": 0}, {"index": 5}, {"index": -1})
    q = choose(
        lambda: ms.named("a", predicate=p, **i), lambda: ms.named("a", p), lambda: ms.tagged("t", p, **i),
        lambda: ms.starting(0, p, **i), lambda: ms.ending(2, p, **i), lambda: ms.at_index(1, p, **i),
        lambda: ms.at_span((0, 2), p, **i), lambda: ms.at_match(m, p, **i), lambda: ms.range(0, 8, p, **i),
        lambda: ms.range(predicate=p, **i), lambda: ms.conflicting(Match(0, 8), p, **i), lambda: ms.previous(ms[4], p, **i),
        lambda: ms.next(m, p, **i), lambda: ms.holes(predicate=Later(0, True), **i),
        lambda: ms.holes(ignore=p, **i), lambda: ms.holes(3, 8, ignore=p), lambda: ms.holes(5, ignore=p, seps="x"),
        lambda: ms.chain_before(4, " ", predicate=p, **i),
        lambda: ms.chain_after(0, " ", predicate=p, **i), lambda: m.crop([(0, 1)], Later(0, True), **i),
        lambda: Match(0, 8, input_string=T).split("c", p, **i), lambda: ms.markers.range(0, 8) or ms.range(1, 8, p))
    expect("predicate", q)


def case_predicate_stop():
    """StopIteration neither ends a query nor is taken for the end of its matches"""
    global ERROR
    ERROR = StopIteration()
    ms = Matches([Match(0, 2, name="a", tags=["t"]), Match(0, 2, name="a", tags=["t"], value=3), Match(2, 4)],
                 input_string=T)
    m = ms[0]
    p = Later(choose(0, 1), True)
    q = choose(lambda: ms.named("a", p), lambda: ms.tagged("t", p), lambda: ms.starting(0, p), lambda: ms.ending(2, p),
               lambda: ms.at_index(1, p), lambda: ms.at_span((0, 2), p), lambda: ms.range(0, 8, p),
               lambda: ms.conflicting(Match(0, 8), p), lambda: ms.next(m, Later(0, True)),
               lambda: ms.chain_after(0, " ", predicate=p), lambda: ms.holes(ignore=p),
               lambda: Match(0, 8, input_string=T).split("c", p))
    try:
        q()
    except BaseException as e:
        check(e is ERROR or isinstance(e, RuntimeError), "propagates", "StopIteration of a predicate")
        return
    check(False, "propagates", "StopIteration of a predicate was swallowed")


def case_callbacks_of_stop():
    """StopIteration of the callbacks of a call never makes it return as if nothing had happened"""
    global ERROR
    ERROR = StopIteration()
    r = Rebulk()
    which = choose(0, 1, 2, 3, 4, 5, 6, 7)
    if which == 0:
        r.functional(one, validator=validators(lambda m: True, boom))
    elif which == 1:
        r.functional(one, validator=boom)
    elif which == 2:
        r.functional(one, post_processor=boom)
    elif which == 3:
        r.functional(one).rules(WhenRule)
    elif which == 4:
        r.functional(lambda text: (0, 3), conflict_solver=boom).functional(lambda text: (1, 5))
    elif which == 5:
        r.functional(boom)
    elif which == 6:
        r.functional(one).rules(OneConsequence)
    else:
        r.chain(chain_breaker=boom).functional(one).functional(one).close()
    try:
        r.matches(T)
    except BaseException as e:
        check(e is ERROR or isinstance(e, RuntimeError), "propagates", ("StopIteration", which))
        return
    check(False, "propagates", ("StopIteration was swallowed", which))


# ---------------------------------------------------------------- values and keys
class Bad:
    """a value whose comparison raises"""

    def __eq__(self, other):
        boom()

    __hash__ = None


def case_values():
    arm()
    ms = Matches([Match(0, 2, name="a", value=Bad()), Match(2, 4, name="a", value=Bad())], input_string=T)
    expect("comparison of values", ms.to_dict)


def case_key():
    arm()
    k = Key("a", str, boom)
    ms = Rebulk(default_rules=False).functional(one, key=k).matches(T)
    use = choose(lambda: ms[k], lambda: ms.all(k))
    expect("converter of a key", use)


def case_context():
    """the context of the caller"""
    arm()

    class Context(dict):
        def get(self, *args):
            boom()

        def __getitem__(self, name):
            boom()

    c = Context()
    which = choose(0, 1)
    if which == 0:
        r = Rebulk(disabled=lambda context: context.get("x"))
    else:
        r = Rebulk().functional(lambda text, context: context["x"])
    expect("context", r.matches, T, c)
