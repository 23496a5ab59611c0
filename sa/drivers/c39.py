# C39: what a match says about itself follows its fields and its family.
from rebulk import Rebulk
from rebulk.match import Match, Matches
from rebulk.pattern import RePattern
from common import NA, NB, NC, NO, TX, TY, TZ, TO, dressed, same_set

CONFIG = {"*": {"max_paths": 12000, "seconds": 150, "regex_total": 1}}

S = unknown("text", "str")


def span(label):
    s = unknown("start " + label, "int")
    e = unknown("end " + label, "int")
    le(0, s)
    le(s, e)
    return s, e


def truth(x):
    return True if x else False


def case_span():
    """span, length and truth, at first and after a change"""
    s, e = span("a")
    m = dressed(Match(s, e, value=choose(None, 1), name=choose(None, NA), parent=choose(None, Match(0, 9)), input_string=choose(None, S)))
    for again in range(2):
        check(m.start == s and m.end == e, "span", "start and end")
        check(m.span == (s, e), "span", "span")
        check(len(m) == e - s, "span", "length")
        check(truth(m) == (e > s), "span", "truth")
        which = choose("both", "start", "end") if again == 0 else "both"
        s2, e2 = span("b")
        if which == "both":
            m.start, m.end = s, e = s2, e2
        elif which == "start" and s2 <= e:
            m.start = s = s2
        elif which == "end" and s <= e2:
            m.end = e = e2


def case_tagged():
    """at least one of the given tags"""
    tags = choose(None, [], [TX], [TX, TY], [TY, TX, TZ], TX, (TX, TY), "")
    m = Match(0, 2, tags=tags, name=choose(None, TX), value=choose(None, 1), input_string=S)
    dressed(m)
    now = list(m.tags)
    asked = choose((), (TX,), (TY,), (TO,), (TX, TO), (TO, TX), (TY, TZ), (TO, TO), (TO, TZ, TO, TY))
    for again in range(2):
        want = False
        for t in asked:
            if t in now:
                want = True
        check(truth(m.tagged(*asked)) == want, "tagged", ("asked", len(asked), "has", len(now)))
        how = choose("add", "clear", "replace") if again == 0 else ""
        if how == "add":
            m.tags.append(TO)
            now = now + [TO]
        elif how == "clear":
            m.tags = []
            now = []
        elif how == "replace":
            m.tags = [TZ]
            now = [TZ]


def case_tags_given():
    """tags given in every form, the match has its own list"""
    given, want = choose((None, []), ([], []), ([TX], [TX]), ([TX, TY], [TX, TY]), ((TX, TY), [TX, TY]), (TX, [TX]), ([TX, TX], [TX, TX]))
    m = Match(0, 1, tags=given)
    check(m.tags == want, "tagged", "tags")
    check(m.tags is not given, "tagged", "a list of its own")


def leaf(name):
    return Match(1, 2, name=name, value=choose(None, 1))


def family():
    """a match with descendants, and the names it must say"""
    kind = choose(0, 1, 2, 3, 4, 5, 6, 7)
    m = Match(0, 9, name=choose(NC, None))
    if kind == 0:
        want = [m.name]
    elif kind == 1:
        m.children.append(leaf(NA))
        want = [NA]
    elif kind == 2:
        m.children.extend([leaf(NA), leaf(NB), leaf(NA)])
        want = [NA, NB]
    elif kind == 3:
        m.children.extend([leaf(None), leaf(NB)])
        want = [None, NB]
    else:
        # grandchildren stand for their parent
        child = Match(1, 6, name=NB)
        child.children.extend([leaf(NA), leaf(NO)])
        if kind == 4:
            m.children.append(child)
            want = [NA, NO]
        elif kind == 5:
            m.children.extend([leaf(NC), child])
            want = [NC, NA, NO]
        elif kind == 6:
            m.children.extend([child, leaf(NA), Match(7, 8, name=NB, parent=m)])
            want = [NA, NO, NB]
        else:
            deep = Match(2, 4, name=NC)
            deep.children.extend([leaf(None), leaf(NB)])
            child.children.append(deep)
            m.children.append(child)
            want = [NA, NO, None, NB]
    return m, want


def case_names():
    """the names of the leaves"""
    m, want = family()
    everyone = [m] + list(m.children)
    for c in list(m.children):
        everyone = everyone + list(c.children)
    dressed_family(everyone)
    for again in range(2):
        got = m.names
        check(same_set(got, want), "names", ("names", len(want)))
        for name in (NA, NB, NC, NO):
            check(truth(m.named(name)) == (name in want), "names", "named")
        check(not m.named(), "names", "named()")
        check(truth(m.named(NC, NB)) == (NC in want or NB in want), "names", "named, either of two")
        check(truth(m.named(NO, NA, NO)) == (NO in want or NA in want), "names", "named, one of three")
        if again == 0:
            got.add("something")
            how = choose("child", "name", "none", "removed")
            if how == "child":
                m.children.append(leaf(NB))
                if len(m.children) == 1:
                    want = [NB]
                elif NB not in want:
                    want = want + [NB]
            elif how == "name" and len(m.children) == 0:
                m.name = NA
                want = [NA]
            elif how == "removed":
                while len(m.children):
                    m.children.pop()
                want = [m.name]


def dressed_family(matches):
    """attributes that have nothing to do with names"""
    if choose(False, True):
        for m in matches:
            m.tags = [TX]
            m.private = True
            m.marker = True
            m.raw_start, m.raw_end = 0, 3
            m.input_string = S
            m.formatter = lambda raw: 5
            for c in m.children:
                c.parent = m


def case_initiator():
    """the topmost ancestor"""
    depth = choose(0, 1, 2, 3, 4)
    top = Match(0, 9, name=choose(None, NA), value=choose(None, 1), input_string=choose(None, S))
    line = [top]
    for i in range(depth):
        kid = Match(choose(0, 2) if i == 0 else 0, 9 - i, name=choose(NA, NB) if i == 0 else None, parent=line[-1])
        if i == 0 and choose(False, True):
            line[-1].children.append(kid)
        line.append(kid)
    dressed_family(line) if depth else dressed(top)
    for m in line:
        check(m.initiator is top, "initiator", ("depth", depth))
    # moved to another family
    other = Match(3, 4, parent=choose(None, Match(3, 6)))
    line[-1].parent = other
    for m in line[:-1]:
        check(m.initiator is top, "initiator", "the others")
    check(line[-1].initiator is (other.parent if other.parent is not None else other), "initiator", "after a move")


def case_patterns():
    """of matches that patterns emit"""
    r = Rebulk()
    kind = choose("children", "every", "groups named", "chain")
    if kind == "children":
        r.regex("(?P<one>a)(?P<two>b)", name="whole", children=True, tags=["t"])
    elif kind == "every":
        r.regex("(?P<one>a)(?P<two>b)", name="whole", every=True, tags=["t"])
    elif kind == "groups named":
        r.regex("(?P<one>a)(?P<two>b)", name="whole", tags=["t"])
    else:
        r.chain(name="whole", tags=["t"], every=True).regex("(?P<one>a)").regex("(?P<two>b)")
    for m in r.matches("xx ab yy"):
        top = m
        while top.parent is not None:
            top = top.parent
        check(m.initiator is top, "initiator", ("of a pattern", kind))
        check(truth(m.tagged("t")) == ("t" in m.tags), "tagged", ("of a pattern", kind))
        leaves = [m]
        for i in range(3):
            down = []
            for x in leaves:
                if len(x.children):
                    down.extend(list(x.children))
                else:
                    down.append(x)
            leaves = down
        want = []
        for x in leaves:
            if x.name not in want:
                want.append(x.name)
        check(same_set(m.names, want), "names", ("of a pattern", kind))
        for name in ("one", "two", "whole"):
            check(truth(m.named(name)) == (name in want), "names", ("of a pattern", kind))


def case_nothing_changes():
    """asking changes nothing"""
    m, want = family()
    top = Match(0, 12, name=NA)
    m.parent = top
    m.tags = [TX, TY]
    for c in m.children:
        len(c.children)
        for g in c.children:
            len(g.children)
            for h in g.children:
                len(h.children)
    len(m.children)
    before = snapshot(m)
    m.names
    m.named(NA, NO)
    m.named()
    m.tagged(TX)
    m.tagged(TO, TY)
    m.initiator
    m.span
    len(m)
    truth(m)
    m.has_literal_value
    check(changed(before) is None, "unchanged", changed(before))
