# C17: typed retrieval of named matches, and its refusals.
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, List, Optional, TypedDict, Union

from rebulk import Key, Rebulk
from rebulk.match import Match, Matches
from common import NA, NB, NC, NO, same_items, raises

CONFIG = {"*": {"max_paths": 4000, "seconds": 100}}

S = unknown("text", "str")
le(20, len(S))


def some(names):
    """matches with these names in every overlapping or backward order, their values unknown"""
    ms = Matches(input_string=S)
    places = choose([(0, 2), (3, 4), (5, 9)], [(5, 9), (3, 4), (0, 2)], [(0, 4), (1, 2), (0, 4)])
    for i in range(len(names)):
        v = unknown("value", "atom")
        assume(v)
        ms.append(Match(places[i][0], places[i][1], value=v, name=names[i], input_string=S))
    return ms


def named(ms, name):
    return [m.value for m in ms if m.name == name]


def case_key():
    """matches[key] and all(key), unused and used lookups, falsy and formatted values"""
    names = choose([], [NA], [NB], [NA, NA], [NB, NA, NA], [NA, NB, NA], [None, NA])
    ms = some(names)
    if choose(True, False):
        ms.named(NA)
    for name in (NA, NB, NO):
        key = Key(name, choose(str, int))
        want = named(ms, name)
        got = ms[key]
        check(got is (want[0] if want else None), "first-value", ("matches[key]",))
        check(same_items(ms.all(key), want), "all-values", ("all(key)",))
    if names:
        removed = ms.pop(0)
        key = Key(removed.name, str) if removed.name else Key(NA, str)
        want = named(ms, key.name)
        check(ms[key] is (want[0] if want else None), "first-value", "after a removal")
        check(same_items(ms.all(key), want), "all-values", "after a removal")


def case_key_falsy():
    """a value that is falsy is a value"""
    ms = Matches(input_string=S)
    falsy = choose(0, "", None, False)
    ms.append(Match(0, 2, name=NA, input_string=S, formatter=lambda raw: falsy))
    ms.append(Match(3, 4, name=NA, input_string=S, formatter=lambda raw: 7))
    check(ms[Key(NA, int)] is falsy or ms[Key(NA, int)] == falsy, "first-value", "falsy")
    got = ms.all(Key(NA, int))
    check(len(got) == 2 and got[0] == falsy and got[1] == 7, "all-values", "falsy")


class Shape:
    """a class that is no structured type"""


@dataclass
class Model:
    a: Any = None
    b: Any = "default"
    several: list[Any] = field(default_factory=list)


@dataclass
class Required:
    a: int
    b: int


class Typed(TypedDict, total=False):
    a: Any
    b: Any
    several: list[Any]


def case_dataclass():
    names = choose([], ["a"], ["b", "a"], ["a", "a"], ["several"], ["several", "a", "several"], ["other", None, "a"])
    ms = some(names)
    got = ms.to(Model)
    a, b, several = named(ms, "a"), named(ms, "b"), named(ms, "several")
    check(isinstance(got, Model), "model", "type")
    check(got.a is (a[0] if a else None), "first-value", "dataclass field a")
    check(got.b is (b[0] if b else "default") or got.b == "default" and not b, "first-value", "dataclass field b")
    check(same_items(got.several, several), "all-values", "dataclass list field")


def case_required():
    """a required field without match is an error of the model, not a made up value"""
    names = choose(["a", "b"], ["a"], ["b"], [])
    ms = some(names)
    try:
        got = ms.to(Required)
    except TypeError:
        check(len(names) < 2, "model", "required fields")
        return
    check(len(names) == 2, "model", "a missing required field was filled")
    check(got.a is named(ms, "a")[0] and got.b is named(ms, "b")[0], "first-value", "required fields")


@dataclass
class Lists:
    a: list[Any]
    b: list[Any] = None
    c: Any = None


def case_required_list():
    """a list field gets the list of values, an empty one too, whatever its default"""
    names = choose([], ["a"], ["b", "b"], ["c"], ["a", "b", "a"])
    ms = some(names)
    got = ms.to(Lists)
    check(same_items(got.a, named(ms, "a")), "all-values", "required list field")
    check(got.b is not None and same_items(got.b, named(ms, "b")), "all-values", "list field with another default")
    c = named(ms, "c")
    check(got.c is (c[0] if c else None), "first-value", "field after lists")
    check(got.a is not got.b, "all-values", "the lists of two fields are one object")


def case_typeddict():
    names = choose([], ["a"], ["b", "a"], ["a", "a"], ["several"], ["several", "a", "several"], ["other", None, "a"])
    ms = some(names)
    got = ms.to(Typed)
    a, b, several = named(ms, "a"), named(ms, "b"), named(ms, "several")
    check(("a" in got) == (len(a) > 0), "first-value", "TypedDict field without match")
    check(("b" in got) == (len(b) > 0), "first-value", "TypedDict field without match")
    if a:
        check(got["a"] is a[0], "first-value", "TypedDict field a")
    if b:
        check(got["b"] is b[0], "first-value", "TypedDict field b")
    check(same_items(got["several"], several), "all-values", "TypedDict list field")
    check("other" not in got and None not in got, "model", "other names")


def case_scalar():
    names = choose([], [NA], [None, NA], [NB, NA, NA])
    ms = some(names)
    model = choose(int, str, float, Shape)
    values = [m.value for m in ms]
    try:
        got = ms.to(model)
    except LookupError:
        check(len(names) == 0, "lookup-error", "there are matches")
        return
    check(len(names) > 0, "lookup-error", "no LookupError without match")
    check(got is values[0], "first-value", "scalar")


def case_list():
    names = choose([], [NA], [None, NA], [NB, NA, NA])
    ms = some(names)
    check(same_items(ms.to(choose(list[int], list[str], list[Any])), [m.value for m in ms]), "all-values", "list of a scalar")
    for model in (list[Model], list[Typed]):
        check(raises(TypeError, ms.to, model) is not None, "refused", "list of a structured model")


def case_not_a_model():
    ms = some(choose([], ["a"]))
    for model in (3, "a", None, Model.__name__, dict[str, int]):
        check(raises(TypeError, ms.to, model) is not None or raises(LookupError, ms.to, model) is not None, "refused", "no model")


class Base:
    pass


class Derived(Base):
    pass


class Other:
    pass


built = []


@dataclass
class Checked:
    a: Base = None
    b: Optional[Base] = None
    c: list[Base] = None
    d: Union[Base, Other] = None
    e: Any = None
    f: list = None
    g: Base | None = None
    h: List = None
    i: tuple = None
    j: dict = None
    k: list[list[Base]] = None
    l: Optional[list[Base]] = None
    m: tuple[Base, ...] = None
    n: list[Base | None] = None

    def __post_init__(self):
        event("built")


class CheckedDict(TypedDict, total=False):
    a: Base
    b: Optional[Base]
    c: list[Base]
    d: Union[Base, Other]
    e: Any
    f: list
    g: Base | None
    h: List
    i: tuple
    j: dict
    k: list[list[Base]]
    l: Optional[list[Base]]
    m: tuple[Base, ...]
    n: list[Base | None]


def case_declared():
    """a field that contradicts a declared key is refused before anything is built"""
    ms = some(choose([], ["a"], ["a", "b"]))
    name = choose("a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "zz")
    declared = choose(Base, Derived, Other, object)
    ms.declared_keys = {name: Key(name, declared)}
    if choose(True, False):
        ms.declared_keys["yy"] = Key("yy", Other)
    model = choose(Checked, CheckedDict)
    bad = declared is Other and name in ("a", "b", "c", "g", "k", "l", "n")
    try:
        got = ms.to(model)
    except TypeError:
        check(bad, "contradiction", ("refused field", name, "declared", declared.__name__))
        check(len(events("built")) == 0, "contradiction", "built although refused")
        return
    check(not bad, "contradiction", ("accepted field", name, "declared", declared.__name__))


def case_declared_order():
    """refused although a required field would fail and whatever the place of the field"""
    ms = some([])
    where = choose("a", "b")
    ms.declared_keys = {where: Key(where, str)}
    e = raises(TypeError, ms.to, Required)
    check(e is not None, "contradiction", "required")
    ms = some(["a", "b"])
    ms.declared_keys = {where: Key(where, str)}
    check(raises(TypeError, ms.to, Required) is not None, "contradiction", ("field", where))


def case_key_types():
    """structured value types are refused at construction, others accepted"""
    for model in (Model, Typed, Required):
        check(raises(TypeError, Key, NA, model) is not None, "key-refusal", "structured value type")
        check(raises(TypeError, Key, NA, model, lambda s: s) is not None, "key-refusal", "structured value type with formatter")
    for t in (int, str, Shape, object):
        k = Key(NA, t)
        check(k.name is NA and k.value_type is t and k.converter is t, "key-refusal", "scalar value type")
    f = lambda s: s
    check(Key(NA, int, f).converter is f, "key-refusal", "explicit converter")


def case_through_rebulk():
    """keys from the builder to the result"""
    k = Key(NA, *choose((str, None), (int, lambda s: ("formatted", s))))
    r = Rebulk(default_rules=False)
    if choose(True, False):
        r.functional(lambda text: [(0, 2), (3, 4)], key=k)
    else:
        r.declare_keys(k).functional(lambda text: [(0, 2), (3, 4)], name=NA)
    ms = r.matches(S)
    check(len(ms.all(k)) == 2, "all-values", "through a rebulk")
    if k.formatter is not None:
        check(ms[k] == ("formatted", S[0:2]), "first-value", "through a rebulk")
        check(ms.all(k) == [("formatted", S[0:2]), ("formatted", S[3:4])], "all-values", "through a rebulk")


@dataclass
class Partly:
    """some fields are no business of the caller"""
    one: Any = "none"
    two: list[Any] = field(init=False, default_factory=list)
    three: Any = field(init=False, default=3)
    four: Any = field(init=False)
    five: list[Any] = field(default_factory=list)

    def __post_init__(self):
        self.four = 4


def case_not_given():
    """fields that are not given to the constructor are left to their default"""
    ms = some(choose([], ["one"], ["two"], ["three", "one", "two"], ["four", "five", "five"], ["five", "two", "two"]))
    got = ms.to(Partly)
    one = named(ms, "one")
    check(got.one is one[0] if one else got.one == "none", "model", "a field that is given")
    check(got.two == [] and got.three == 3 and got.four == 4, "model", "fields that are not given")
    check(same_items(got.five, named(ms, "five")), "model", "a list field that is given")
