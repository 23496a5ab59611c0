# C03: lookups agree with the sequence after every list operation, whether used before or not.
from rebulk.match import Match, Matches, Markers
from common import M, agree as agree_at, warm as warm_at, same_items, raises, NA, NB, NC, TX, TY, TZ

CONFIG = {"*": {"max_paths": 900, "seconds": 100}}


O = unknown("offset", "int")
assume(O >= 0)
VALUES = {}


def new(start, end, name, tags, marker=False):
    if (start, end) not in VALUES:
        VALUES[(start, end)] = distinct("str", "value")[0]
    return M(O + start, O + end, value=VALUES[(start, end)], name=name, tags=tags, marker=marker)


def agree(ms, rule, label, keys=True):
    agree_at(ms, rule, label, keys, O)


def warm(ms):
    return warm_at(ms, O)


def initial():
    n = choose(3, 0, 1)
    marker = choose(False, True)
    cls = Markers if marker else Matches
    pool = [new(2, 4, NB, [TX, TY], marker), new(0, 2, NA, [TX], marker), new(2, 7, NA, [], marker)]
    return cls(pool[:n]), pool, marker


def more(marker):
    return [new(0, 3, NA, [TY], marker), new(4, 5, None, [TZ], marker), new(1, 2, NC, [TX], marker)]


def case_append():
    ms, pool, k = initial()
    warm(ms)
    new_ = more(k)
    seq = list(ms)
    for x in new_[:choose(1, 2)]:
        ms.append(x)
        seq.append(x)
        check(same_items(ms, seq), "sequence", "append")
    agree(ms, "lookup", "append")


def case_insert():
    ms, pool, k = initial()
    warm(ms)
    seq = list(ms)
    x = more(k)[choose(0, 1, 2)]
    at = choose(0, 1, -1, 9)
    ms.insert(at, x)
    seq.insert(at, x)
    check(same_items(ms, seq), "sequence", "insert")
    agree(ms, "lookup", "insert")


def case_extend():
    ms, pool, k = initial()
    warm(ms)
    seq = list(ms)
    xs = more(k)
    how = choose(0, 1, 2)
    if how == 0:
        ms.extend(xs)
    elif how == 1:
        ms.extend(x for x in xs)
    else:
        ms += xs
    seq.extend(xs)
    check(same_items(ms, seq), "sequence", "extend")
    agree(ms, "lookup", "extend")


def case_setitem():
    ms, pool, k = initial()
    assume(len(ms) > 0)
    warm(ms)
    seq = list(ms)
    x = more(k)[choose(0, 1, 2)]
    at = choose(0, -1)
    ms[at] = x
    seq[at] = x
    check(same_items(ms, seq), "sequence", "item assignment")
    agree(ms, "lookup", "item assignment")


def case_setslice():
    ms, pool, k = initial()
    warm(ms)
    seq = list(ms)
    xs = more(k)[:choose(2, 0, 3)]
    s = choose(slice(0, 2), slice(1, None), slice(None), slice(1, 1))
    if choose(False, True):
        ms[s] = (x for x in xs)
    else:
        ms[s] = xs
    seq[s] = xs
    check(same_items(ms, seq), "sequence", "slice assignment")
    agree(ms, "lookup", "slice assignment")


def case_delitem():
    ms, pool, k = initial()
    assume(len(ms) == 3)
    warm(ms)
    seq = list(ms)
    at = choose(0, 1, 2, -1)
    del ms[at]
    del seq[at]
    check(same_items(ms, seq), "sequence", "deletion")
    agree(ms, "lookup", "deletion")


def case_delslice():
    ms, pool, k = initial()
    warm(ms)
    seq = list(ms)
    s = choose(slice(0, 2), slice(1, None), slice(None), slice(0, 3, 2))
    del ms[s]
    del seq[s]
    check(same_items(ms, seq), "sequence", "slice deletion")
    agree(ms, "lookup", "slice deletion")


def case_remove():
    ms, pool, k = initial()
    assume(len(ms) == 3)
    warm(ms)
    seq = list(ms)
    x = pool[choose(0, 1, 2)]
    ms.remove(x)
    seq.remove(x)
    check(same_items(ms, seq), "sequence", "remove")
    agree(ms, "lookup", "remove")
    check(raises(ValueError, ms.remove, x) is not None, "sequence", "removing an absent match raises ValueError")
    agree(ms, "lookup", "refused remove")


def case_pop():
    ms, pool, k = initial()
    assume(len(ms) == 3)
    warm(ms)
    seq = list(ms)
    at = choose(-1, 0, 1)
    x = ms.pop(at)
    check(x is seq.pop(at), "sequence", "pop returns the removed match")
    check(same_items(ms, seq), "sequence", "pop")
    agree(ms, "lookup", "pop")


def case_clear():
    ms, pool, k = initial()
    warm(ms)
    ms.clear()
    check(len(ms) == 0, "sequence", "clear")
    agree(ms, "lookup", "clear")
    ms.append(pool[0])
    agree(ms, "lookup", "clear then append")


def case_reverse():
    ms, pool, k = initial()
    warm(ms)
    seq = list(ms)
    ms.reverse()
    seq.reverse()
    check(same_items(ms, seq), "sequence", "reverse")
    agree(ms, "lookup", "reverse")


def case_two_operations():
    """a second operation after lookups were refreshed in between (or not)"""
    ms, pool, k = initial()
    assume(len(ms) == 3)
    xs = more(k)
    seq = list(ms)
    first = choose(0, 1, 2, 3)
    for step in (first, choose(0, 1, 2, 3)):
        warm(ms) if choose(False, True) else None
        if step == 0:
            x = xs.pop()
            ms.append(x)
            seq.append(x)
        elif step == 1:
            del ms[0]
            del seq[0]
        elif step == 2:
            x = xs.pop()
            ms[0] = x
            seq[0] = x
        else:
            x = xs.pop()
            ms.insert(1, x)
            seq.insert(1, x)
    check(same_items(ms, seq), "sequence", "two operations")
    agree(ms, "lookup", "two operations")


def case_constructed():
    """a sequence built from matches, and one built from another sequence"""
    ms, pool, k = initial()
    agree(ms, "lookup", "construction")
    other = (Markers if k else Matches)(ms)
    check(same_items(other, ms), "sequence", "construction from a sequence")
    other.append(more(k)[0])
    agree(ms, "lookup", "source of a copy")
    agree(other, "lookup", "copy")


def case_same_match_values():
    """equal matches are different objects: operations on one keep the other"""
    k = choose(False, True)
    cls = Markers if k else Matches
    a, b = new(0, 2, NA, [TX], k), new(0, 2, NA, [TY], k)
    c = new(2, 4, NA, [TX], k)
    ms = cls([a, c, b])
    warm(ms)
    op = choose(0, 1, 2)
    if op == 0:
        del ms[2]
        expected = [a, c]
    elif op == 1:
        del ms[0]
        expected = [c, b]
    else:
        ms.remove(b)
        expected = [c, b]
    check(same_items(ms, expected), "sequence", "equal matches")
    agree(ms, "lookup", "equal matches", False)


def case_repeated_tag():
    """a tag given twice, or added twice: the match is tagged once"""
    a, b = new(0, 2, NA, [TX, TX, TY]), new(2, 4, NB, [TY, TX])
    ms = Matches([b])
    warm(ms)
    if choose(0, 1):
        ms.append(a)
        seq = [b, a]
    else:
        ms.insert(0, a)
        seq = [a, b]
    agree(ms, "lookup", "repeated tag")
    del ms[choose(0, 1)]
    agree(ms, "lookup", "repeated tag, deletion")


def case_refused():
    """an operation refused with an exception leaves everything in step"""
    ms, pool, k = initial()
    warm(ms)
    seq = list(ms)
    bad = more(not k)
    op = choose(0, 1, 2, 3)
    if op == 0:
        e = raises(AssertionError, ms.append, bad[0])
    elif op == 1:
        e = raises(AssertionError, ms.insert, 0, bad[0])
    elif op == 2:
        e = raises(AssertionError, ms.__setitem__, slice(0, 1), [more(k)[0], bad[0]])
    else:
        assume(len(ms) > 0)
        e = raises(AssertionError, ms.__setitem__, 0, bad[0])
    check(e is not None, "refusal", "a match of the other kind is refused")
    check(same_items(ms, seq), "refusal", "sequence unchanged")
    agree(ms, "lookup", "refused operation")
