# C27: predicate and index of every query.
from rebulk.loose import filter_index
from rebulk.match import Match, Matches, Markers
from common import M, NA, NB, NC, NO, TX, TY, TO

CONFIG = {"*": {"max_paths": 12000, "seconds": 150}}

O = unknown("offset", "int")
le(1, O)
TEXT = unknown("text", "str")


class Verdicts:
    """a predicate with an unknown result for each match it sees; equal spans and names get equal results"""

    def __init__(self, results):
        self.results = results
        self.known = []
        self.seen = []

    def of(self, m):
        for i in range(len(self.known)):
            if self.known[i] == (m.start, m.end, m.name):
                return self.results[i % len(self.results)]
        self.known.append((m.start, m.end, m.name))
        return self.results[(len(self.known) - 1) % len(self.results)]

    def __call__(self, m):
        self.seen.append(m)
        check(isinstance(m, Match), "predicate", "the predicate is given something else than a match")
        return self.of(m)


def alike(a, b, same):
    if same:
        return a is b
    return a.start == b.start and a.end == b.end and a.name == b.name


def is_list(got, want, same, rule, label):
    check(isinstance(got, list), rule, (label, "is not a list"))
    if not isinstance(got, list):
        return
    check(len(got) == len(want), rule, (label, "number of matches", len(got), "expected", len(want)))
    if len(got) == len(want):
        for i in range(len(want)):
            check(alike(got[i], want[i], same), rule, (label, "match", i))


def at(items, i):
    n = len(items)
    if 0 <= i < n:
        return items[i]
    if i < 0 and 0 <= i + n:
        return items[i + n]
    return None


def is_item(got, want, i, same, rule, label):
    w = at(want, i)
    if w is None:
        check(got is None, rule, (label, "no match at", i))
    else:
        check(got is not None, rule, (label, "a match at", i))
        if got is not None:
            check(isinstance(got, Match), rule, (label, "the match at", i))
            check(alike(got, w, same), rule, (label, "the match at", i))


INDEXES = [0, 1, 2, -1, -2, -3, 3, -4]


def an_index():
    if thorough():
        return INDEXES[choose(len(INDEXES))]
    return choose(0, 1, -1, 6)


def contract(label, query, positional=True, same=True, want=None, any_of=False):
    """query(*args, **kwargs) passes what is given on to the query, after its own arguments"""
    rule = "query"
    base = query()
    check(isinstance(base, list), rule, (label, "without predicate nor index"))
    base = list(base)
    if want is not None:
        is_list(base, want, same, rule, (label, "without predicate nor index"))
    form = choose("none", "predicate", "index", "both")
    results = RESULTS[choose(len(RESULTS)) if thorough() else 0] if form in ("predicate", "both") else [True]
    p = Verdicts(results)
    if form == "none":
        is_list(query(predicate=None), base, same, rule, (label, "predicate None"))
        is_list(query(index=None), base, same, rule, (label, "index None"))
        is_list(query(predicate=None, index=None), base, same, rule, (label, "predicate and index None"))
        if positional:
            is_list(query(None), base, same, rule, (label, "positional None"))
            is_list(query(None, None), base, same, rule, (label, "positional None"))
    elif form == "predicate":
        how = choose(0, 1, 2) if positional else 0
        if how == 0:
            got = query(predicate=p)
        elif how == 1:
            got = query(p)
        else:
            got = query(p, None)
        is_list(got, [m for m in base if p.of(m)], same, rule, (label, "predicate"))
    elif form == "index":
        i = an_index()
        how = choose(0, 1, 2, 3, 4) if positional else choose(0, 1)
        if how == 0:
            got = query(index=i)
        elif how == 1:
            got = query(predicate=None, index=i)
        elif how == 2:
            got = query(i)
        elif how == 3:
            got = query(None, i)
        else:
            got = query(None, index=i)
        is_item(got, base, i, same, rule, (label, "index", "how", how))
        if positional:
            is_item(query(predicate=i), base, i, same, rule, (label, "integer as predicate"))
    else:
        i = an_index()
        how = choose(0, 1, 2) if positional else 0
        if how == 0:
            got = query(predicate=p, index=i)
        elif how == 1:
            got = query(p, i)
        else:
            got = query(p, index=i)
        is_item(got, [m for m in base if p.of(m)], i, same, rule, (label, "predicate and index"))
    return base


U1, U2, U3, U4 = unknown("verdict 1"), unknown("verdict 2"), unknown("verdict 3"), unknown("verdict 4")
RESULTS = [[U1, "", [0], U2, U3], [None, U4, 1]]


def matches():
    """overlapping, adjacent, distant and equal matches in any order"""
    a = M(O, O + 2, name=NA, tags=[TX], value="a")
    b = M(O, O + 2, name=NB, tags=[TX, TY], value="b")
    c = M(O + 1, O + 2, name=NA, tags=[TX], value="c")
    d = M(O + 4, O + 7, name=NA, tags=[TY], value="d")
    e = M(O + 4, O + 5, name=NB, value="e")
    f = M(O + 6, O + 7, name=NC, tags=[TX], value="f")
    ms = Matches([[a, b, c, d, e, f], [f, e, d, c, b, a], [c, a, d, b, f, e]][choose(3) if thorough() else 2 * choose(2)])
    return ms, a, b, c, d, e, f


def case_named():
    ms, a, b, c, d, e, f = matches()
    seq = list(ms)
    names = choose((NA,), (NO,), (NC,), (NA, NB), (NB, NO, NA), (NA, NA), (NC, NB, NC, NA))
    want = []
    for n in uniq_names(names):
        want = want + [m for m in seq if m.name == n]
    contract("named", lambda *args, **kw: ms.named(*(names + args), **kw), want=want)


def uniq_names(names):
    out = []
    for n in names:
        if n not in out:
            out.append(n)
    return out


def case_tagged():
    ms, a, b, c, d, e, f = matches()
    t = choose(TX, TY, TO)
    contract("tagged", lambda *args, **kw: ms.tagged(t, *args, **kw), want=[m for m in ms if t in m.tags])


def case_starting():
    ms, a, b, c, d, e, f = matches()
    s = O + choose(0, 1, 4, 2)
    contract("starting", lambda *args, **kw: ms.starting(s, *args, **kw), want=[m for m in ms if m.start == s])


def case_ending():
    ms, a, b, c, d, e, f = matches()
    s = O + choose(2, 5, 7, 1)
    contract("ending", lambda *args, **kw: ms.ending(s, *args, **kw), want=[m for m in ms if m.end == s])


def case_at_index():
    ms, a, b, c, d, e, f = matches()
    s = O + choose(0, 1, 4, 6, 3)
    contract("at_index", lambda *args, **kw: ms.at_index(s, *args, **kw),
             want=[m for m in ms if m.start <= s and s < m.end])


def case_at_span():
    ms, a, b, c, d, e, f = matches()
    s, t = choose((0, 2), (1, 5), (0, 7), (3, 4), (2, 3))
    span = (O + s, O + t)
    contract("at_span", lambda *args, **kw: ms.at_span(span, *args, **kw))


def case_at_match():
    ms, a, b, c, d, e, f = matches()
    s, t = choose((0, 2), (1, 5), (0, 7), (2, 3))
    other = choose(a, d, M(O + s, O + t, value="other"))
    span = other.span
    contract("at_match", lambda *args, **kw: ms.at_match(other, *args, **kw), want=ms.at_span(span))


def case_conflicting():
    ms, a, b, c, d, e, f = matches()
    s, t = choose((0, 2), (1, 5), (2, 4), (0, 7))
    other = choose(a, d, M(O + s, O + t, value="other"))
    contract("conflicting", lambda *args, **kw: ms.conflicting(other, *args, **kw))


def near():
    """concrete positions: these queries look at every position"""
    a = M(1, 3, name=NA, value="a")
    b = M(1, 3, name=NB, value="b")
    c = M(4, 5, name=NC, value="c")
    d = M(6, 9, name=NA, value="d")
    e = M(6, 8, name=NB, value="e")
    g = M(7, 9, name=NB, value="g")
    return a, b, c, d, e, g


def case_previous():
    a, b, c, d, e, g = near()
    ms = Matches([a, c, d, b, e, g])
    who, want = choose((c, [a, b]), (d, [c]), (a, []), (M(9, 10, value="z"), [d, g]),
                       (M(30, 31, value="z"), [d, g]), (g, [c]))
    contract("previous", lambda *args, **kw: ms.previous(who, *args, **kw), want=want)


def case_next():
    a, b, c, d, e, g = near()
    ms = Matches([a, c, e, d, b, g])
    who, want = choose((a, [c]), (c, [e, d]), (d, [g]), (g, []), (M(0, 1, value="z"), [a, b]))
    contract("next", lambda *args, **kw: ms.next(who, *args, **kw), want=want)


def case_nearest_few():
    """one or two matches, empty ones too"""
    a = M(2, 4, name=NA, value="a")
    z = M(4, 4, name=NB, value="z")
    before, after = M(0, 1, value="o"), M(6, 8, value="o")
    ms, who, back, on = choose((Matches([a]), a, [], []), (Matches([a]), before, [], [a]), (Matches([a]), after, [a], []),
                               (Matches([a, z]), a, [], [z]), (Matches([z, a]), before, [], [a]), (Matches([z, a]), after, [z, a], []),
                               (Matches([z]), before, [], [z]), (Matches([a, z]), M(3, 4, value="o"), [], [z]))
    if choose("previous", "next") == "previous":
        contract("previous", lambda *args, **kw: ms.previous(who, *args, **kw), want=back)
    else:
        contract("next", lambda *args, **kw: ms.next(who, *args, **kw), want=on)


def case_range():
    a, b, c, d, e, g = near()
    ms = Matches([d, c, b, a, g, e])
    args, want = choose(((), [b, a, c, e, d, g]), ((2,), [b, a, c, e, d, g]), ((3, 7), [c, e, d]), ((9, 12), []), ((0, 4), [b, a]))
    if len(args) == 2:
        contract("range", lambda *more, **kw: ms.range(*(args + more), **kw))
    elif len(args) == 1:
        contract("range", lambda **kw: ms.range(args[0], **kw), positional=False)
    else:
        contract("range", lambda **kw: ms.range(**kw), positional=False)


def case_holes():
    a, b, c, d, e, g = near()
    ms = Matches([d, c, b, a, g, e])
    args = choose((), (0,), (2,), (0, 20), (4, 6), (7, 8), (0, 4))
    wide = Matches([a, c, M(10, 12, value="y")])
    ms = choose(ms, wide)
    positional = len(args) == 2
    if positional:
        contract("holes", lambda *more, **kw: ms.holes(*(args + (None, None, None) * len(more[:1]) + more), **kw), same=False)
    else:
        contract("holes", lambda **kw: ms.holes(*args, **kw), positional=False, same=False)


def case_holes_text():
    text = "ab-cd.ef-gh"
    ms = Matches([Match(3, 4, input_string=text, name=NA), Match(9, 11, input_string=text, name=NB)], input_string=text)
    more = choose({}, {"seps": "-."}, {"ignore": lambda m: m.name == NB}, {"seps": ".", "ignore": lambda m: m.name == NA})
    contract("holes", lambda **kw: ms.holes(**dict(more, **kw)), positional=False, same=False)


def case_chain():
    """the predicate of these two decides about what is walked"""
    text = "ab-cd-ef.gh"
    a = Match(0, 2, input_string=text, name=NA)
    b = Match(3, 5, input_string=text, name=NB)
    b2 = Match(3, 4, input_string=text, name=NC)
    c = Match(6, 8, input_string=text, name=NA)
    c2 = Match(6, 7, input_string=text, name=NB)
    d = Match(9, 11, input_string=text, name=NA)
    members = [a, b, b2, c, c2, d]
    kept = choose(members, [a, b, c], [a, c, d], [b, b2, d], [b2, c2], [])
    seen = []

    def only(m):
        seen.append(m)
        for k in kept:
            if k is m:
                return "yes"
        return choose("", None, 0) if not seen[1:] else False

    fewer = Matches([m for m in kept], input_string=text)
    every = Matches(members, input_string=text)
    seps = choose("-", "-.")
    which = choose("before", "after")
    position = choose(b, d, 3, 5, 8) if which == "before" else choose(b, a, 5, 3, 9)
    i = an_index()
    if which == "before":
        plain = fewer.chain_before(position, seps)
        query = every.chain_before
    else:
        plain = fewer.chain_after(position, seps)
        query = every.chain_after
    is_list(query(position, seps, predicate=only), plain, True, "query", ("chain", which, "predicate"))
    is_item(query(position, seps, predicate=only, index=i), plain, i, True, "query", ("chain", which, "both"))
    bound = None if which == "after" else 0
    is_list(query(position, seps, bound, only), plain, True, "query", ("chain", which, "predicate"))
    is_item(query(position, seps, bound, only, i), plain, i, True, "query", ("chain", which, "both"))
    whole = query(position, seps)
    is_item(query(position, seps, index=i), whole, i, True, "query", ("chain", which, "index"))
    is_item(query(position, seps, bound, None, i), whole, i, True, "query", ("chain", which, "index"))
    is_list(query(position, seps, predicate=None, index=None), whole, True, "query", ("chain", which, "none"))


def case_crop():
    m = Match(2, 12, name=NA, value="m")
    crops = choose((4, 6), [(4, 6), (8, 9)], [], (0, 20), [(2, 5)], [(10, 30)], [Match(5, 7, value="x"), (9, 10), (3, 4)])
    contract("crop", lambda *args, **kw: m.crop(crops, *args, **kw), same=False)


def case_split():
    m = Match(1, 10, name=NA, input_string=choose("_ab-cd.ef-g", "_---------", "_abcdefghi"))
    seps = choose("-", "-.", "")
    contract("split", lambda *args, **kw: m.split(seps, *args, **kw), same=False)


def case_empty():
    """nothing to choose from"""
    ms = choose(Matches(), Markers(), Matches().markers)
    m = Match(2, 4, value="m")
    q = choose("named", "tagged", "starting", "ending", "at_index", "at_span", "at_match", "conflicting", "previous",
               "next", "range", "holes")
    own = {"named": (NA,), "tagged": (TX,), "starting": (2,), "ending": (4,), "at_index": (3,), "at_span": ((2, 4),),
           "at_match": (m,), "conflicting": (m,), "previous": (m,), "next": (m,), "range": (0, 3), "holes": (0, 0)}[q]
    query = getattr(ms, q)
    contract(q, lambda **kw: query(*own, **kw), positional=False, want=[])


def case_markers():
    """the markers of a sequence are queried like it"""
    a = Match(O, O + 2, name=NA, tags=[TX], marker=True, value="a")
    b = Match(O, O + 3, name=NA, tags=[TX], marker=True, value="b")
    ms = Matches()
    ms.markers.append(a)
    ms.markers.append(b)
    q = choose("named", "tagged", "starting", "at_index", "conflicting", "at_match")
    own = {"named": NA, "tagged": TX, "starting": O, "at_index": O + 1, "conflicting": Match(O, O + 1, value="z"),
           "at_match": Match(O, O + 1, value="z")}[q]
    query = getattr(ms.markers, q)
    contract(q, lambda *args, **kw: query(own, *args, **kw), want=[a, b])


def case_filter_index():
    """the shared helper: any list, any index"""
    items = choose([], [VA], [VA, VB], [VA, VB, VC])
    i = unknown("index", "int")
    form = choose(0, 1, 2)
    if form == 0:
        got = filter_index(items, None, i)
    elif form == 1:
        got = filter_index(items, i)
    else:
        got = filter_index(items, lambda x: True, i)
    n = len(items)
    want = None
    for k in range(n):
        if i == k or i == k - n:
            want = items[k]
    check(got is want, "query", ("filter_index", form))


VA, VB, VC = distinct("atom", "va", "vb", "vc")
