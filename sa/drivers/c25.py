# C25: the shape of to_dict over matches of every order, name and value, in every mode.
from rebulk.match import Match, Matches
from common import NA, NB, NC, same_items

CONFIG = {"*": {"max_paths": 8000, "seconds": 150}}

S = unknown("text", "str")
V, W = distinct("atom", "v", "w")


def by_span(ms):
    """matches in span order, those of equal spans as they are in the sequence"""
    out = []
    for m in ms:
        i = len(out)
        while i > 0 and out[i - 1].span > m.span:
            i -= 1
        out.insert(i, m)
    return out


def names_of(ms):
    out = []
    for m in ms:
        if m.name not in out:
            out.append(m.name)
    return out


def distinct_values(values):
    out = []
    for v in values:
        if v not in out:
            out.append(v)
    return out


def same_values(got, want, identical=False):
    if len(got) != len(want):
        return False
    for i in range(len(want)):
        if identical:
            if got[i] is not want[i]:
                return False
        elif not (got[i] == want[i]):
            return False
    return True


def verify(ms, details, first_value, enforce_list, label):
    d = ms.to_dict(details=details, first_value=first_value, enforce_list=enforce_list)
    order = by_span(ms)
    names = names_of(order)
    check(same_values(list(d), names), "names-in-span-order", label)
    check(len(d) == len(names), "names-in-span-order", label)
    for n in names:
        mine = [m for m in order if m.name == n]
        values = mine if details else [m.value for m in mine]
        values = distinct_values(values)
        got = d[n]
        if enforce_list:
            check(isinstance(got, list), "always-a-list", label)
            want = values[:1] if first_value else values
            check(same_values(got, want, details), "values", (label, "enforce_list"))
        elif first_value or len(values) == 1:
            check(not isinstance(got, list), "single-value", label)
            check(got is values[0] if details else got == values[0], "values", (label, "single"))
        else:
            check(isinstance(got, list), "several-values", label)
            check(same_values(got, values, details), "values", (label, "several"))
        check(same_items(d.matches[n], mine), "matches-view", label)
        if not enforce_list:
            check(same_values(d.values_list[n], values, details), "values-view", label)
    check(same_values(list(d.matches), names), "matches-view", (label, "names"))


def mode():
    return choose(False, True), choose(False, True), choose(False, True)


PLACES = [[(0, 2), (3, 5), (6, 9)], [(6, 9), (0, 2), (3, 5)], [(3, 5), (3, 9), (0, 9)], [(0, 2), (0, 2), (0, 2)]]


def case_values():
    """three matches: names, and values equal or not"""
    places = PLACES[choose(len(PLACES))]
    names = choose((NA, NA, NA), (NA, NB, NA), (NB, NA, NC), (NA, None, NA), (None, None, NA), (NA, NA, NB))
    values = choose((V, V, V), (V, W, V), (W, V, V), (1, 2, 3), (V, V, W))
    assume(V)
    assume(W)
    ms = Matches(input_string=S)
    for i in range(3):
        ms.append(Match(places[i][0], places[i][1], name=names[i], value=values[i], input_string=S))
    details, first_value, enforce_list = mode()
    verify(ms, details, first_value, enforce_list, (details, first_value, enforce_list))


def case_many():
    """four matches of a name"""
    values = choose((1, 1, 2, 2), (1, 2, 1, 2), (1, 2, 2, 1), (1, 2, 3, 4), (1, 1, 1, 1), (2, 1, 1, 3))
    ms = Matches(input_string=S)
    for i in range(4):
        ms.append(Match(2 * i, 2 * i + 1, name=NA, value=values[i], input_string=S))
        ms.append(Match(2 * i, 2 * i + 1, name=NB, value=7 - values[i], input_string=S))
    details, first_value, enforce_list = mode()
    verify(ms, details, first_value, enforce_list, (details, first_value, enforce_list))


def formatted(value):
    return lambda raw: value


def case_falsy():
    """values that are falsy, None, strings, tuples or dicts are values like others"""
    kinds = (0, "", None, False, (), (1, 2), "ab", V)
    a = kinds[choose(len(kinds))]
    b = choose(0, None, "", (1, 2), W)
    names = choose((NA, NA, NA), (NA, NB, NA))
    ms = Matches(input_string=S)
    ms.append(Match(0, 2, name=names[0], formatter=formatted(a), input_string=S))
    ms.append(Match(3, 4, name=names[1], formatter=formatted(b), input_string=S))
    ms.append(Match(5, 6, name=names[2], formatter=formatted(b), input_string=S))
    details, first_value, enforce_list = False, choose(False, True), choose(False, True)
    verify(ms, details, first_value, enforce_list, (details, first_value, enforce_list))


def case_raw():
    """values are texts"""
    ms = Matches(input_string="ab ab cd ab")
    for s in choose((0, 3, 6, 9), (9, 6, 3, 0), (0, 6, 3, 9)):
        ms.append(Match(s, s + 2, name=NA, input_string="ab ab cd ab"))
    details, first_value, enforce_list = mode()
    verify(ms, details, first_value, enforce_list, (details, first_value, enforce_list))


def case_unhashable():
    """values that cannot be hashed"""
    ms = Matches(input_string=S)
    values = choose(({"x": 1}, {"x": 1}, {"x": 2}), ({"x": 1}, {"x": 2}, {"x": 1}))
    for i in range(3):
        ms.append(Match(i, i + 1, name=NA, value=values[i], input_string=S))
    details, first_value, enforce_list = mode()
    verify(ms, details, first_value, enforce_list, (details, first_value, enforce_list))


def case_details_equal():
    """matches that are equal are one value, those of equal values are not"""
    ms = Matches(input_string=S)
    ms.append(Match(0, 2, name=NA, value=choose(1, 2), input_string=S))
    ms.append(Match(0, 2, name=NA, value=1, tags=["x"], input_string=S))
    ms.append(Match(3, 4, name=NA, value=1, input_string=S))
    first_value, enforce_list = choose(False, True), choose(False, True)
    verify(ms, True, first_value, enforce_list, (True, first_value, enforce_list))


def case_private_and_markers():
    """private matches are listed as the others, markers are apart"""
    ms = Matches(input_string=S)
    ms.append(Match(0, 2, name=NA, value=1, private=True))
    ms.append(Match(3, 4, name=NA, value=2))
    ms.markers.append(Match(0, 9, name=NA, value=3, marker=True))
    ms.markers.append(Match(0, 1, name=NB, value=3, marker=True))
    details, first_value, enforce_list = mode()
    verify(ms, details, first_value, enforce_list, (details, first_value, enforce_list))
    verify(ms.markers, details, first_value, enforce_list, ("markers", details, first_value, enforce_list))


def case_empty():
    details, first_value, enforce_list = mode()
    d = Matches(input_string=S).to_dict(details, first_value, enforce_list)
    check(len(d) == 0 and list(d) == [], "names-in-span-order", "no match")
    check(d == {}, "names-in-span-order", "no match")


def case_lists():
    """a value that is a list: each mode keeps it or its items, and never changes it"""
    value = [V, W]
    freeze(value, "the value of a match")
    ms = Matches(input_string=S)
    ms.append(Match(0, 2, name=NA, value=value, input_string=S))
    more = choose(True, False)
    if more:
        ms.append(Match(3, 4, name=NA, value=5, input_string=S))
    enforce_list, first_value = choose(True, False), choose(True, False)
    d = ms.to_dict(enforce_list=enforce_list, first_value=first_value)
    if enforce_list:
        check(isinstance(d[NA], list), "always-a-list", "a list value")
    if first_value or not more:
        check(isinstance(d[NA], list) and same_values(d[NA], [V, W]), "values", ("a list value", first_value, enforce_list))
    check(same_items(d.matches[NA], list(ms)), "matches-view", "a list value")


def case_unknown_spans():
    """two matches anywhere"""
    ends = []
    ms = Matches(input_string=S)
    for i in range(2):
        s = unknown("start", "int")
        e = unknown("end", "int")
        le(0, s)
        lt(s, e)
        ms.append(Match(s, e, name=NA, value=i + 1, input_string=S))
    details, first_value, enforce_list = choose(False, True), choose(False, True), choose(False, True)
    verify(ms, details, first_value, enforce_list, (details, first_value, enforce_list))
