# C04: queries change nothing and return independent lists.
from rebulk.match import Match, Matches, Markers
from rebulk.key import Key
from common import agree, warm, same_items, NA, NB, NC, NO, TX, TY, TZ, TO

VC, VD, VK, VP, VQ = distinct("str", "value c", "value d", "value k", "value p", "value q")

CONFIG = {"*": {"max_paths": 1500, "seconds": 100}}


def snap(m):
    return (m.start, m.end, m.name, list(m.tags), m.raw_start, m.raw_end, m.private, m.marker, m.parent,
            m.input_string, m.formatter, m.pattern, list(m.value) if isinstance(m.value, list) else m.value,
            list(m.children), m.conflict_solver)


def build(text="0123456789"):
    lst = [VP, VQ]
    a = Match(0, 2, name=NA, tags=[TX], input_string=text)
    b = Match(2, 4, name=NB, value=lst, tags=[TX, TY], input_string=text)
    c = Match(2, 7, name=NA, value=VC, input_string=text, private=True)
    d = Match(8, 9, value=VD, tags=[TY], input_string=text)
    if choose(False, True):
        kid = Match(2, 3, name=NC, value=VK, parent=c, input_string=text)
        c.children.append(kid)
    ms = Matches([b, a, d, c] if choose(False, True) else [a, b, c, d], input_string=text)
    return ms


def frozen_parts(ms):
    for m in ms:
        freeze(m.tags, "the tags of a match")
        if isinstance(m.value, list):
            freeze(m.value, "the list value of a match")


def yes(m):
    return True


QUERIES = [
    lambda ms, m: ms.named(NA),
    lambda ms, m: ms.named(NO),
    lambda ms, m: ms.named(NA, NB, predicate=yes),
    lambda ms, m: ms.tagged(TX),
    lambda ms, m: ms.tagged(TO),
    lambda ms, m: ms.starting(2),
    lambda ms, m: ms.starting(6),
    lambda ms, m: ms.ending(2),
    lambda ms, m: ms.ending(6),
    lambda ms, m: ms.previous(m),
    lambda ms, m: ms.next(m),
    lambda ms, m: ms.range(1, 5),
    lambda ms, m: ms.range(),
    lambda ms, m: ms.holes(),
    lambda ms, m: ms.holes(3, 9, seps="3", formatter=yes, ignore=lambda x: x.name == NA),
    lambda ms, m: ms.conflicting(m),
    lambda ms, m: ms.chain_before(5, "01"),
    lambda ms, m: ms.chain_after(m, "01"),
    lambda ms, m: ms.at_match(m),
    lambda ms, m: ms.at_span((2, 4)),
    lambda ms, m: ms.at_span((11, 13)),
    lambda ms, m: ms.at_index(3),
    lambda ms, m: ms.at_index(7),
    lambda ms, m: ms.all(Key(NA, str)),
    lambda ms, m: ms.all(Key(NO, str)),
    lambda ms, m: ms.all(Key(NB, list)) if False else [v for v in ms.all(Key(NO, str))],
    lambda ms, m: ms.to(list[str]),
    lambda ms, m: ms[0:2],
    lambda ms, m: m.crop((1, 3)),
    lambda ms, m: m.crop([(0, 1), (3, 4)]),
    lambda ms, m: m.split("1"),
    lambda ms, m: [n for n in m.names],
    lambda ms, m: [m.tagged(TX), m.named(NA), m.named(NO)],
    lambda ms, m: [repr(m), repr(ms)],
    lambda ms, m: [ms[Key(NA, str)], ms[Key(NO, str)]],
    lambda ms, m: [m.initiator, m.raw, m.value, m.span, len(m), hash(m), m.has_literal_value],
    lambda ms, m: [n for n in ms.names],
    lambda ms, m: [n for n in ms.tags],
    lambda ms, m: [ms.max_end, len(ms), m in ms, ms.index(m), ms.count(m)],
    lambda ms, m: [x for x in reversed(ms)],
]


def equal_lists(a, b):
    if len(a) != len(b):
        return False
    for i in range(len(a)):
        if a[i] is not b[i] and a[i] != b[i]:
            return False
    return True


def run(query):
    ms = build()
    if choose(False, True):
        agree(ms, "before", "before", False)
    seq = list(ms)
    snaps = [snap(m) for m in seq]
    names = list(ms.names)
    tags = list(ms.tags)
    frozen_parts(ms)
    m = seq[choose(0, 2)]
    r = query(ms, m)
    check(same_items(ms, seq), "sequence-unchanged", "the query changed the sequence")
    for i in range(len(seq)):
        check(snap(seq[i]) == snaps[i], "match-unchanged", ("the query changed", seq[i]))
    agree(ms, "later-query", "after the query", False)
    check(list(ms.names) == names, "later-query", "names after the query")
    check(list(ms.tags) == tags, "later-query", "tags after the query")
    if isinstance(r, (list, Matches)):
        before = list(r)
        if len(r):
            del r[0]
        for x in list(r):
            r.remove(x)
        if isinstance(r, list):
            r.append(unknown("intruder"))
        check(same_items(ms, seq), "independent-result", "changing the result changed the sequence")
        for i in range(len(seq)):
            check(snap(seq[i]) == snaps[i], "independent-result", ("changing the result changed", seq[i]))
        agree(ms, "independent-result", "after changing the result", False)
        check(list(ms.names) == names, "independent-result", "names after changing the result")
        check(list(ms.tags) == tags, "independent-result", "tags after changing the result")
        again = query(ms, m)
        check(equal_lists(list(again), before), "independent-result", "the same query later")


def case_lookup_queries():
    run(QUERIES[choose(10)])


def case_range_queries():
    run(QUERIES[10 + choose(9)])


def case_position_queries():
    run(QUERIES[19 + choose(10)])


def case_other_queries():
    run(QUERIES[29 + choose(len(QUERIES) - 29)])


def case_to_dict():
    """to_dict: values, per match lists and details stay those of the matches"""
    ms = build()
    ms.append(Match(0, 1, name=NB, value=choose(VC, VP), input_string="0123456789"))
    ms.append(Match(5, 6, name=NB, value=VD, input_string="0123456789"))
    seq = list(ms)
    snaps = [snap(m) for m in seq]
    frozen_parts(ms)
    args = {"details": choose(False, True), "first_value": choose(False, True), "enforce_list": choose(False, True)}
    d = ms.to_dict(**args)
    for i in range(len(seq)):
        check(snap(seq[i]) == snaps[i], "match-unchanged", ("to_dict changed", seq[i]))
    check(same_items(ms, seq), "sequence-unchanged", "to_dict")
    first = [(k, list(v) if isinstance(v, list) else v) for k, v in d.items()]
    for k in list(d):
        v = d[k]
        if isinstance(v, list):
            v.append("intruder")
        for l in (d.matches[k], d.values_list[k]):
            l.append("intruder")
    for i in range(len(seq)):
        check(snap(seq[i]) == snaps[i], "independent-result", ("changing the dict changed", seq[i]))
    check(same_items(ms, seq), "independent-result", "changing the dict changed the sequence")
    d2 = ms.to_dict(**args)
    check([(k, v) for k, v in d2.items()] == first, "independent-result", "to_dict later")


def case_markers():
    """the same for a markers sequence"""
    text = "0123456789"
    a = Match(0, 2, name=NA, tags=[TX], input_string=text, marker=True)
    b = Match(1, 4, name=NB, tags=[TY], input_string=text, marker=True)
    ms = Markers([a, b], input_string=text)
    seq = list(ms)
    which = choose(0, 1, 2, 3, 4)
    for i in range(2):
        if which == 0:
            r = ms.at_index(1)
        elif which == 1:
            r = ms.at_match(a)
        elif which == 2:
            r = ms.named(NA)
        elif which == 3:
            r = ms.tagged(TY)
        else:
            r = ms.range(0, 9)
        r.append(b)
        r.clear()
        check(same_items(ms, seq), "independent-result", "markers")
        agree(ms, "independent-result", "markers", False)


def case_to_model():
    """a list value handed out through key access or to() is that of the match: only reading"""
    ms = build()
    frozen_parts(ms)
    snaps = [snap(m) for m in ms]
    seq = list(ms)
    ms[Key(NB, str)]
    l = ms.all(Key(NB, str))
    l.append("intruder")
    l2 = ms.to(list[str])
    l2.append("intruder")
    l3 = ms.to(list[str])
    check(len(l3) == len(seq), "independent-result", "to(list)")
    for i in range(len(seq)):
        check(snap(seq[i]) == snaps[i], "match-unchanged", "typed access")
    agree(ms, "later-query", "after typed access", False)


def case_pieces():
    """the pieces returned by crop() and split() are independent matches"""
    text = "01-34-6789"
    kid = Match(1, 2, name=NB, tags=[TY], input_string=text)
    m = Match(0, 8, name=NA, tags=[TX], input_string=text, value=choose(None, ["v"]))
    m.children.append(kid)
    before = (m.start, m.end, m.name, list(m.tags), m.private, m.marker, m._value, list(m.children))
    which = choose(0, 1, 2, 3, 4)
    if which == 0:
        pieces = m.crop((9, 10))
    elif which == 1:
        pieces = m.crop((2, 3))
    elif which == 2:
        pieces = m.crop([(0, 1), (4, 5)])
    elif which == 3:
        pieces = m.split("-")
    else:
        pieces = m.split("+")
    check(len(pieces) > 0, "independent-result", "pieces")
    value = m._value
    snap_ = snapshot(m)
    for p in pieces:
        check(p is not m, "independent-result", "a piece is the match itself")
        p.tags.append(TZ)
        p.name = NB
        p.start = p.start + 1
        p.private = True
        for c in list(p.children):
            c.name = NA
            c.tags.append(TZ)
        p.children.clear()
        if p._value is not None:
            p._value.append("w")
    check(changed(snap_) is None, "independent-result", ("changing a piece changed the match", changed(snap_)))
    after = (m.start, m.end, m.name, list(m.tags), m.private, m.marker, m._value, list(m.children))
    check(after == before, "independent-result", "changing a piece changed the match")
    for p in pieces:
        for q in pieces:
            if p is not q:
                check(p.tags is not q.tags and p.children is not q.children, "independent-result",
                      "two pieces share their tags or children")
