# C33: which arguments user functions of functional patterns, and whatever is called through call(), receive.
from functools import partial
from rebulk import Rebulk
from rebulk.loose import call
from rebulk.pattern import FunctionalPattern, RePattern
from rebulk.remodule import re
from common import NA, NB, TX, same_items, has

CONFIG = {"*": {"max_paths": 3000, "seconds": 100, "regex_total": 1}}

S = unknown("text", "str")
le(20, len(S))
VA, VB = distinct("str", "option value", "other value")
CTX = {"key": unknown("in the context")}
MISSING = object()


class Callbacks:
    """functions of every signature; what they receive is recorded as (positional, named)"""

    def __init__(self, result):
        self.got = []
        self.result = result

    def rec(self, positional, named):
        self.got.append((positional, named))
        return self.result

    def m0(self):
        return self.rec([], {})

    def m1(self, text):
        return self.rec([text], {})

    def m2(self, text, context):
        return self.rec([text, context], {})

    def m2_option(self, text, context, option=MISSING):
        return self.rec([text, context], {"option": option})

    def m_star(self, *args):
        return self.rec(list(args), {})

    def m_kwonly(self, text, *, option=MISSING):
        return self.rec([text], {"option": option})

    @classmethod
    def c1(cls, text):
        return BOX[0].rec([text], {})

    @classmethod
    def c2(cls, text, context):
        return BOX[0].rec([text, context], {})

    @staticmethod
    def s1(text):
        return BOX[0].rec([text], {})


BOX = [None]


class Call1:
    def __call__(self, text):
        return BOX[0].rec([text], {})


class Call2:
    def __call__(self, text, context, option=MISSING):
        return BOX[0].rec([text, context], {"option": option})


class CallAny:
    def __call__(self, *args, **kwargs):
        return BOX[0].rec(list(args), kwargs)


def function_of(cb):
    """(function, number of positional parameters, or None for any, named options it accepts or None for any)"""
    rec = cb.rec

    def f1(text):
        return rec([text], {})

    def f1_default(text=None):
        return rec([text], {})

    def f2(text, context):
        return rec([text, context], {})

    def f2_default(text, context=None):
        return rec([text, context], {})

    def f2_option(text, context, option):
        return rec([text, context], {"option": option})

    def f2_options(text, context, other=MISSING, option=MISSING):
        return rec([text, context], {"option": option, "other": other})

    def f_star(*args):
        return rec(list(args), {})

    def f1_star(text, *args):
        return rec([text] + list(args), {})

    def f1_any(text, **options):
        return rec([text], options)

    def f2_any(text, context, **options):
        return rec([text, context], options)

    def f_all(*args, **options):
        return rec(list(args), options)

    def f1_kwonly(text, *, option=MISSING):
        return rec([text], {"option": option})

    def f2_required(text, context, *, option):
        return rec([text, context], {"option": option})

    def f1_kwonly_mixed(text, *, option, other=MISSING):
        return rec([text], {"option": option, "other": other})

    def f2_kwonly_mixed(text, context, *, other=MISSING, option):
        return rec([text, context], {"option": option, "other": other})

    def f_star_kwonly(*args, option=MISSING, other=MISSING):
        return rec(list(args), {"option": option, "other": other})

    def f_posonly(text, /):
        return rec([text], {})

    def p3(first, text, context):
        return rec([text, context], {})

    return choose(
        (lambda: rec([], {}), 0, ()), (lambda t: rec([t], {}), 1, ()), (lambda t, c: rec([t, c], {}), 2, ()),
        (f1, 1, ()), (f1_default, 1, ()), (f2, 2, ()), (f2_default, 2, ()), (f2_option, 2, ("option",)),
        (f2_options, 2, ("option", "other")), (f_star, None, ()), (f1_star, None, ()), (f1_any, 1, None),
        (f2_any, 2, None), (f_all, None, None), (f1_kwonly, 1, ("option",)), (f2_required, 2, ("option",)),
        (f1_kwonly_mixed, 1, ("other", "option")), (f2_kwonly_mixed, 2, ("other", "option")),
        (f_star_kwonly, None, ("option", "other")), (f_posonly, 1, ()),
        (cb.m0, 0, ()), (cb.m1, 1, ()), (cb.m2, 2, ()), (cb.m2_option, 2, ("option",)), (cb.m_star, None, ()),
        (cb.m_kwonly, 1, ("option",)), (Callbacks.c1, 1, ()), (cb.c2, 2, ()), (cb.s1, 1, ()), (Callbacks.s1, 1, ()),
        (Call1(), 1, ()), (Call2(), 2, ("option",)), (CallAny(), None, None),
        (partial(p3, VB), 2, ()), (partial(cb.m2), 2, ()))


def received(got, args, options, shape, rule="arguments"):
    """what was received against what was offered"""
    fn, arity, names = shape
    positional, named = got
    want = list(args) if arity is None else list(args)[:arity]
    check(same_items(positional, want), rule, ("positional", len(positional), "of", arity))
    for k in named:
        v = named[k]
        if k in options:
            check(v is options[k] or v == options[k], rule, ("option", k))
        elif names is not None:
            check(v is MISSING, rule, ("an option nobody gave", k))
    if names is None:
        for k in options:
            check(k in named, rule, ("option lost", k))


def engine(which, fn, options):
    """the function as a functional pattern, in every way to give one"""
    r = Rebulk(default_rules=False)
    if which == 0:
        r.functional(fn, **options)
    elif which == 1:
        r.pattern(FunctionalPattern(fn, **options))
    elif which == 2:
        r.defaults(**options).functional(fn)
    elif which == 3:
        r.functional_defaults(**options).functional(fn)
    elif which == 4:
        r.rebulk(Rebulk(default_rules=False).functional(fn, **options))
    else:
        r.chain().functional(fn, **options).close()
    return r


def case_functional():
    """every signature; the text and the context of the call, once per call"""
    cb = Callbacks((2, 5))
    BOX[0] = cb
    shape = function_of(cb)
    options = {"option": VA}
    r = engine(0, shape[0], options)
    r.matches(S, CTX)
    check(len(cb.got) == 1, "called-once", len(cb.got))
    received(cb.got[0], (S, CTX), options, shape)
    r.matches(S, CTX)
    check(len(cb.got) == 2, "called-once", len(cb.got))
    received(cb.got[1], (S, CTX), options, shape)


def case_functional_ways():
    """every way to give the function"""
    cb = Callbacks((2, 5))
    BOX[0] = cb

    def f2_options(text, context, other=MISSING, option=MISSING):
        return cb.rec([text, context], {"option": option, "other": other})

    shape = choose((f2_options, 2, ("option", "other")), (cb.m1, 1, ()), (cb.m2_option, 2, ("option",)),
                   (CallAny(), None, None))
    options = choose({"option": VA, "other": VB}, {"option": VA}, {"other": None})
    r = engine(choose(0, 1, 2, 3, 4, 5), shape[0], options)
    r.matches(S, CTX)
    check(len(cb.got) >= 1, "called-once", len(cb.got))
    received(cb.got[0], (S, CTX), options, shape)


def case_default_context():
    """without context functions get an empty one"""
    cb = Callbacks(choose(None, (2, 5), []))
    BOX[0] = cb
    fn = choose(cb.m2, lambda t, c: cb.rec([t, c], {}))
    if choose(True, False):
        Rebulk().functional(fn).matches(S)
        check(cb.got[0][1] == {} and cb.got[0][0][1] == {}, "arguments", "an empty context")
    else:
        FunctionalPattern(fn).matches(S, CTX)
        check(cb.got[0][0][1] is CTX, "arguments", "the context")
    check(cb.got[0][0][0] is S, "arguments", "the text")


def case_several():
    """each function of a pattern, in order"""
    a, b = Callbacks((2, 5)), Callbacks(None)
    r = Rebulk(default_rules=False).functional(a.m1, b.m2, a.m2, name=NA)
    r.matches(S, CTX)
    check(len(a.got) == 2 and len(b.got) == 1, "called-once", (len(a.got), len(b.got)))
    check(len(a.got[0][0]) == 1 and a.got[0][0][0] is S, "arguments", "first")
    check(same_items(b.got[0][0], [S, CTX]), "arguments", "second")
    check(same_items(a.got[1][0], [S, CTX]), "arguments", "third")


def case_standard_options():
    """parameters called as the options every pattern has"""
    got = []

    def fn(text, context, name=MISSING, tags=MISSING, value=MISSING, marker=MISSING):
        got.append((name, tags, value, marker))
        return 2, 5

    def any_option(text, **options):
        got.append((options.get("name", MISSING), options.get("tags", MISSING), options.get("value", MISSING),
                    options.get("marker", MISSING)))
        return 2, 5

    kw = choose({}, {"name": NA}, {"tags": [TX], "value": VA}, {"name": NA, "marker": True, "value": VB})
    Rebulk().functional(choose(fn, any_option), **kw).matches(S, CTX)
    name, tags, value, marker = got[0]
    for k, v in (("name", name), ("tags", tags), ("value", value), ("marker", marker)):
        if k in kw:
            check(v is kw[k] or v == kw[k], "arguments", ("option", k))
        else:
            check(v is MISSING, "arguments", ("an option nobody gave", k))


def case_call():
    """call() drops what does not fit, and nothing else, and returns the result"""
    cb = Callbacks(VA)
    BOX[0] = cb
    shape = function_of(cb)
    offered = choose((), (S,), (S, CTX), (S, CTX, VB))
    options = choose({}, {"option": VA}, {"option": None, "other": VB, "unused": S})
    fn, arity, names = shape
    required = 1 if arity is None else arity
    if names in (("option",), ("other", "option")):
        assume("option" in options)
    assume(len(offered) >= required and len(offered) <= (2 if names else 3))
    ret = call(fn, *offered, **options)
    check(ret is VA, "result", "of the function")
    check(len(cb.got) == 1, "called-once", len(cb.got))
    received(cb.got[0], offered, options, shape)


class Two:
    def __init__(self, a, b=MISSING):
        self.seen = (a, b)


class TwoOption:
    def __init__(self, a, b=MISSING, option=MISSING):
        self.seen = (a, b, option)


class Any:
    def __init__(self, *args, **kwargs):
        self.seen = args
        self.kwargs = kwargs


def case_call_class():
    """constructors"""
    offered = choose((S,), (S, CTX), (S, CTX, VB))
    options = choose({}, {"option": VA})
    o = call(Two, *offered, **options)
    check(isinstance(o, Two), "result", "an instance")
    check(same_items(o.seen, (list(offered) + [MISSING])[:2]), "arguments", "two")
    if len(offered) < 3:
        o = call(TwoOption, *offered, **options)
        check(same_items(o.seen, (list(offered) + [MISSING])[:2] + [options.get("option", MISSING)]), "arguments", "option")
    o = call(Any, *offered, **options)
    check(same_items(o.seen, offered), "arguments", "any")
    for k in options:
        check(o.kwargs.get(k) is options[k], "arguments", ("option", k))


def case_regex_flags():
    """the options of a regex pattern that compile() accepts reach it, the others do not"""
    flags = unknown("flags", "int")
    kw = choose({}, {"flags": flags}, {"flags": flags, "name": NA, "option": VA})
    p = choose(lambda: RePattern("(a)", **kw), lambda: Rebulk().regex("(a)", **kw)._patterns[0],
               lambda: Rebulk().regex_defaults(**kw).regex("(a)")._patterns[0],
               lambda: Rebulk().defaults(**kw).chain().regex("(a)", "b").close()._patterns[0].parts[0].pattern)()
    for compiled in p.patterns:
        check(compiled.flags == kw.get("flags", 0), "arguments", "flags")


def case_chain_context():
    """the functions of every part of a chain get the context of the call"""
    a, b = Callbacks((0, 2)), Callbacks(choose((0, 2), None))
    r = Rebulk(default_rules=False)
    r.chain().functional(a.m2).functional(b.m2).repeater(choose(1, "?", "*")).close()
    r.matches(S, CTX)
    check(a.got and b.got, "called-once", "both parts")
    check(a.got[0][0][0] is S or a.got[0][0][0] == S, "arguments", "the text")
    for positional, _ in a.got + b.got:
        check(len(positional) == 2 and positional[1] is CTX, "arguments", "the context")
