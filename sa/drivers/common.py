# Helpers of the abstract entry points.  This file is analysed, never executed.
# unknown/choose/check/assume/event/events/freeze/... are intrinsics of the analyser.
from rebulk.match import Match, Matches, Markers
from rebulk.key import Key


# names, tags and values are unknown: only their identity matters
NA, NB, NC, NO = distinct("str", "name a", "name b", "name c", "absent name")
TX, TY, TZ, TO = distinct("str", "tag x", "tag y", "tag z", "absent tag")


# the raw span of a match is nobody's business but that of its raw text
RS, RE = unknown("raw start", "int"), unknown("raw end", "int")


def M(*args, **kwargs):
    """a match with a raw span of its own"""
    m = Match(*args, **kwargs)
    m.raw_start, m.raw_end = RS, RE
    return m


def dressed(*matches):
    """the attributes a question does not depend on: all of them, or none"""
    if choose(False, True):
        for m in matches:
            m.private = True
            m.tags = [TX, TY]
            m.formatter = lambda raw: raw
            m.conflict_solver = lambda a, b: None
            m.raw_start, m.raw_end = RS, RE
            if m.name is None:
                m.name = NO
            m.children.extend([Match(m.start, m.end, value=0, parent=m), Match(m.start, m.end, value=1, parent=m)])
    return matches[0]


def same_items(a, b):
    """same objects in the same order"""
    a = list(a)
    b = list(b)
    if len(a) != len(b):
        return False
    for i in range(len(a)):
        if a[i] is not b[i]:
            return False
    return True


def has(items, x):
    for i in items:
        if i is x:
            return True
    return False


def without(items, x):
    return [i for i in items if i is not x]


def same_set(a, b):
    a = list(a)
    b = list(b)
    for x in a:
        if x not in b:
            return False
    for x in b:
        if x not in a:
            return False
    return len(a) == len(b)


def raises(exc, fn, *args, **kwargs):
    """the exception of this class raised by the call, or None"""
    try:
        fn(*args, **kwargs)
    except exc as e:
        return e
    return None


def uniq(items):
    out = []
    for i in items:
        if i not in out:
            out.append(i)
    return out


def agree(ms, rule, label, keys=True, o=0):
    """every lookup of the sequence against the sequence itself"""
    seq = list(ms)
    for name in (NA, NB, NC, NO):
        check(same_items(ms.named(name), [m for m in seq if m.name == name]), rule, (label, "named", name))
        if keys:
            vals = [m.value for m in seq if m.name == name]
            check(ms.all(Key(name, str)) == vals, rule, (label, "all(key)", name))
            first = ms[Key(name, str)]
            check(first == (vals[0] if vals else None), rule, (label, "matches[key]", name))
    for tag in (TX, TY, TZ, TO):
        check(same_items(ms.tagged(tag), [m for m in seq if tag in m.tags]), rule, (label, "tagged", tag))
    for i in [o + j for j in range(8)]:
        check(same_items(ms.starting(i), [m for m in seq if m.start == i]), rule, (label, "starting"))
        check(same_items(ms.ending(i), [m for m in seq if m.end == i]), rule, (label, "ending"))
        check(same_items(ms.at_index(i), [m for m in seq if m.start <= i and i < m.end]), rule, (label, "at_index"))
    check(same_set(ms.names, uniq([m.name for m in seq if m.name])), rule, (label, "names"))
    tags = []
    for m in seq:
        for t in m.tags:
            if t not in tags:
                tags.append(t)
    check(same_set(ms.tags, tags), rule, (label, "tags"))
    for span in ((o, o + 2), (o + 1, o + 4), (o + 2, o + 3), (o + 4, o + 7)):
        expected = [m for m in seq if m.start <= span[0] and span[0] < m.end]
        for m in seq:
            if m.start <= span[1] - 1 and span[1] - 1 < m.end and not has(expected, m):
                expected.append(m)
        check(same_items(ms.at_span(span), expected), rule, (label, "at_span"))
    end = 0
    for m in seq:
        if m.end > end:
            end = m.end
    if not ms.input_string:
        check(ms.max_end == end, rule, (label, "max_end"))
    check(len(ms) == len(seq), rule, (label, "len"))


def warm(ms, o=0):
    """use lookups beforehand: none, all, or a single one"""
    which = choose(0, 1, 2, 3, 4, 5, 6)
    if which in (1, 2):
        ms.named(NA)
        ms.names
    if which in (1, 3):
        ms.tagged(TX)
    if which in (1, 4):
        ms.starting(o)
    if which in (1, 5):
        ms.ending(o + 2)
    if which in (1, 6):
        ms.at_index(o + 1)
    return which
