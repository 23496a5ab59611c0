# C23: equality, hashes and orders of matches with unknown spans, values, names and parents.
from rebulk.match import Match, Matches
from common import M, NA, NB, NC, TX, TY, dressed

CONFIG = {"*": {"max_paths": 6000, "seconds": 120}}

S = unknown("text", "str")
S2 = unknown("other text", "str")


def span(label):
    s = unknown("start " + label, "int")
    e = unknown("end " + label, "int")
    le(0, s)
    le(s, e)
    return s, e


def spans():
    """two spans, equal or not in either end"""
    a = span("a")
    which = choose(0, 1, 2, 3)
    if which == 0:
        return a, a
    b = span("b")
    if which == 1:
        return a, (a[0], b[1]) if b[0] == a[0] else b
    if which == 2:
        return a, (b[0], a[1]) if b[1] == a[1] else b
    return a, b


def equal_spans(a, b):
    return a.start == b.start and a.end == b.end


def laws(a, b, want, label):
    """want: must the two be equal"""
    check((a == b) == want, "equality", label)
    check((b == a) == want, "equality", (label, "symmetric"))
    check((a != b) == (not want), "negation", label)
    check((b != a) == (not want), "negation", (label, "symmetric"))
    check(a == a, "equality", (label, "reflexive"))
    check(not (a != a), "negation", (label, "reflexive"))
    if want:
        check(hash(a) == hash(b), "hash", label)
        check(a in [b], "equality", (label, "membership"))
        check(a in {b}, "hash", (label, "membership in a set"))
        check(a in {b: 1}, "hash", (label, "membership in a dict"))
        check(len({a, b}) == 1, "hash", (label, "set"))


def case_span():
    (s, e), (s2, e2) = spans()
    a = M(s, e, value=5)
    b = M(s2, e2, value=5)
    laws(a, b, s == s2 and e == e2, "spans")


def case_value():
    """literals, raw texts and formatted texts"""
    s, e = span("a")
    v, w = distinct("atom", "v", "w")
    assume(v)
    assume(w)
    kinds = [lambda: Match(s, e, value=v, input_string=S), lambda: Match(s, e, value=w, input_string=S),
             lambda: Match(s, e, input_string=S), lambda: Match(s, e, input_string=S2),
             lambda: Match(s, e, input_string=S, formatter=lambda raw: v),
             lambda: Match(s, e, input_string=S, formatter=lambda raw: w),
             lambda: Match(s, e, input_string=S, formatter=lambda raw: None),
             lambda: Match(s, e), lambda: Match(s, e, value=[v]), lambda: Match(s, e, value=(v,))]
    a = choose(*kinds)()
    b = choose(*kinds)()
    laws(a, b, a.value == b.value, "values")


def case_name():
    s, e = span("a")
    a = M(s, e, value=1, name=choose(NA, None, ""))
    again = unknown("name a again", "str")
    assume(again == NA)
    b = M(s, e, value=1, name=choose(NA, again, NB, None, ""))
    laws(a, b, a.name == b.name, "names")


def parent(kind):
    if kind == 0:
        return None
    if kind == 1:
        return Match(0, 4, value=1, name=NA)
    if kind == 2:
        return Match(0, 4, value=1, name=NB)
    if kind == 3:
        return Match(3, 3, value=1)
    if kind == 4:
        return Match(2, 2, value=1)
    if kind == 6:
        return Match(0, 4, value=1, name=NB, parent=Match(0, 9, value=choose_grand))
    return Match(0, 4, value=1, name=NA, parent=Match(0, 9, value=choose_grand))


choose_grand = 1


def case_parent():
    """parents, none, empty and of several generations: equal ones are not the same object"""
    global choose_grand
    choose_grand = 1
    i = choose(0, 1, 2, 3, 4, 5, 6)
    j = choose(0, 1, 2, 3, 4, 5, 6)
    p = parent(i)
    choose_grand = choose(1, 2)
    q = parent(j)
    a = Match(1, 2, value=1, parent=p)
    b = Match(1, 2, value=1, parent=q)
    laws(a, b, i == j and (i < 5 or choose_grand == 1), ("parents", i, j))


def case_all():
    """everything at once: the four fields and nothing else"""
    (s, e), (s2, e2) = spans()
    names = choose((NA, NA), (NA, NB), (None, NA))
    parents = choose((0, 0), (1, 1), (0, 1), (3, 0))
    values = choose((1, 1), (1, 2))
    a = M(s, e, value=values[0], name=names[0], parent=parent(parents[0]), tags=[TX], private=True, marker=False,
              input_string=S, conflict_solver=lambda a, b: None)
    b = M(s2, e2, value=values[1], name=names[1], parent=parent(parents[1]), tags=[TY, TX], private=False, marker=True,
              input_string=S2, formatter=lambda raw: 3)
    b.raw_start = 3
    b.match_index = 4
    b.children.append(Match(0, 1))
    laws(a, b, equal_spans(a, b) and values[0] == values[1] and names[0] is names[1] and parents[0] == parents[1], "all")


class Sub(Match):
    pass


def case_subclass():
    s, e = span("a")
    a = Match(s, e, value=1)
    b = Sub(s, e, value=choose(1, 2))
    laws(a, b, b.value == 1, "subclass")
    check(not (a < b) and not (a > b) and a <= b and a >= b, "order", "subclass")


def case_hash_kept():
    """a match is found again in a set after its value, name, tags or flags are changed"""
    s, e = span("a")
    parent_ = choose(None, 1)
    m = Match(s, e, value=choose(None, 1), name=choose(None, NA), tags=[TX], input_string=S,
              parent=Match(0, 9) if parent_ else None)
    h = hash(m)
    held = {m}
    table = {m: 1}
    which = choose(0, 1, 2, 3, 4, 5, 6, 7, 8)
    if which == 0:
        m.value = 7
    elif which == 1:
        m.value = [7]
    elif which == 2:
        m.name = NB
    elif which == 3:
        m.tags.append(TY)
    elif which == 4:
        m.private = True
    elif which == 5:
        m.tags = []
    elif which == 6:
        m.formatter = lambda raw: 8
    elif which == 7:
        m.children.append(Match(0, 1))
    else:
        m.marker = True
        m.raw_end = 3
    check(hash(m) == h, "hash-kept", which)
    check(m in held and m in table, "hash-kept", (which, "found again"))


def case_order():
    (s, e), (s2, e2) = spans()
    a = M(s, e, value=choose(1, 2), name=choose(NA, NB), parent=choose(None, M(0, 9)))
    b = M(s2, e2, value=1, name=NA)
    dressed(a, b)
    less = s < s2 or (s == s2 and e < e2)
    more = s > s2 or (s == s2 and e > e2)
    check((a < b) == less, "order", "<")
    check((a > b) == more, "order", ">")
    check((a <= b) == (not more), "order", "<=")
    check((a >= b) == (not less), "order", ">=")
    check((b > a) == less and (b < a) == more, "order", "reflected")
    check(not (a < a) and not (a > a) and a <= a and a >= a, "order", "reflexive")


class Answers:
    """the other operand decides"""

    def __init__(self, answer):
        self.answer = answer

    def __eq__(self, other):
        return self.answer

    def __ne__(self, other):
        return self.answer

    def __lt__(self, other):
        return self.answer

    def __gt__(self, other):
        return self.answer

    def __le__(self, other):
        return self.answer

    def __ge__(self, other):
        return self.answer

    __hash__ = None


class Like:
    """looks like a match, is none"""

    def __init__(self, m):
        self.start = m.start
        self.end = m.end
        self.span = m.span
        self.value = m.value
        self.name = m.name
        self.parent = m.parent


def refused(fn):
    try:
        fn()
    except TypeError:
        return True
    return False


def case_other():
    s, e = span("a")
    m = dressed(Match(s, e, value=1, name=NA))
    answer = choose("yes", "no", None)
    o = Answers(answer)
    check((m == o) is answer and (m != o) is answer, "other-operand", "equality")
    check((m < o) is answer and (m > o) is answer and (m <= o) is answer and (m >= o) is answer, "other-operand", "order")
    for x in (None, 1, "text", (s, e), [m], Like(m)):
        check(not (m == x) and m != x, "other-operand", ("equality", "something else"))
        check(refused(lambda: m < x), "other-operand", "<")
        check(refused(lambda: m > x), "other-operand", ">")
        check(refused(lambda: m <= x), "other-operand", "<=")
        check(refused(lambda: m >= x), "other-operand", ">=")


def case_sorted():
    """sorting matches is sorting spans, those of equal spans keep their order"""
    a, b, c = span("a"), span("b"), span("c")
    ms = [M(a[0], a[1], value=3), M(b[0], b[1], value=2), M(c[0], c[1], value=1)]
    got = sorted(ms)
    for i in range(2):
        x, y = got[i], got[i + 1]
        check(x.start < y.start or (x.start == y.start and x.end <= y.end), "order", "sorted")
        if x.start == y.start and x.end == y.end:
            check(ms.index(x) < ms.index(y), "order", "stable")
