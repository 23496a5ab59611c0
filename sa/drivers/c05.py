# C05: markers and regular matches never mix.
from rebulk import Rebulk
from rebulk.match import Match, Matches, Markers
from common import agree, warm, same_items, has, NA, NB, NC, TX, TY, TZ

CONFIG = {"*": {"max_paths": 1500, "seconds": 100, "regex_total": 1}}

S = unknown("text", "str")
le(12, len(S))
VA, VB, VC, VD = distinct("str", "va", "vb", "vc", "vd")


def refused(fn, *args):
    try:
        fn(*args)
    except AssertionError:
        return True
    except (TypeError, ValueError):
        return True
    return False


def case_refused():
    kind = choose(False, True)
    cls = Markers if kind else Matches
    a = Match(0, 2, value=VA, name=NA, tags=[TX], marker=kind)
    b = Match(2, 4, value=VB, name=NB, tags=[TX, TY], marker=kind)
    good = Match(2, 7, value=VC, name=NA, tags=[TY], marker=kind)
    bad = Match(1, 3, value=VD, name=NB, tags=[TX, TZ], marker=not kind)
    ms = cls([a, b])
    warm(ms)
    op = choose(0, 1, 2, 3, 4, 5, 6, 7, 8)
    if op == 0:
        r = refused(ms.append, bad)
    elif op == 1:
        r = refused(ms.insert, 1, bad)
    elif op == 2:
        r = refused(ms.insert, 2, bad)
    elif op == 3:
        r = refused(ms.extend, [bad])
    elif op == 4:
        r = refused(ms.__setitem__, 0, bad)
    elif op == 5:
        r = refused(ms.__setitem__, -1, bad)
    elif op == 6:
        r = refused(ms.__setitem__, slice(0, 1), [good, bad])
    elif op == 7:
        r = refused(ms.__setitem__, slice(None), (x for x in [bad]))
    else:
        r = refused(ms.__iadd__, [bad])
    check(r, "refusal", "a match of the other kind is refused")
    check(same_items(ms, [a, b]), "refusal", "the sequence is unchanged")
    agree(ms, "refusal", "after a refused operation")


def case_construction():
    kind = choose(False, True)
    cls = Markers if kind else Matches
    a = Match(0, 2, value=VA, marker=kind)
    bad = Match(1, 3, value=VB, marker=not kind)
    check(refused(cls, [a, bad]), "refusal", "construction with a match of the other kind")
    ms = cls([a], S) if choose(False, True) else cls(matches=[a], input_string=S)
    check(same_items(ms, [a]), "construction", "own kind accepted")
    if not kind:
        check(isinstance(ms.markers, Markers), "construction", "a sequence of matches has markers")
        check(len(ms.markers) == 0, "construction", "no marker yet")
        ms.markers.append(Match(1, 3, value=VB, marker=True))
        check(same_items(ms, [a]), "routing", "storing a marker leaves matches alone")


def case_none_flag():
    """marker=None is a regular match"""
    a = Match(0, 2, value=VA)
    ms = Matches([a])
    ms.append(Match(3, 4, value=VB, marker=None))
    check(len(ms) == 2, "refusal", "unflagged matches are regular")
    check(refused(Markers().append, Match(3, 4, value=VB)), "refusal", "unflagged match refused as marker")


def case_slices():
    kind = choose(False, True)
    cls = Markers if kind else Matches
    a = Match(0, 2, value=VA, name=NA, tags=[TX], marker=kind)
    b = Match(2, 4, value=VB, name=NB, tags=[TX, TY], marker=kind)
    c = Match(2, 7, value=VC, name=NA, marker=kind)
    ms = cls([a, b, c])
    s = choose(slice(0, 2), slice(None), slice(1, 1), slice(None, None, -1))
    part = ms[s]
    check(type(part) is cls, "slice-kind", "a slice keeps the kind of its sequence")
    check(same_items(part, [a, b, c][s]), "slice-kind", "items of a slice")
    bad = Match(1, 3, value=VD, marker=not kind)
    check(refused(part.append, bad), "slice-kind", "a slice refuses the other kind")
    part.append(Match(1, 3, value=VD, marker=kind))
    check(same_items(ms, [a, b, c]), "slice-kind", "a slice is independent")
    agree(part, "slice-kind", "slice")


def routed(ms, expected):
    for m in ms:
        check(not m.marker, "routing", "no marker among matches")
    for m in ms.markers:
        check(m.marker, "routing", "only markers among markers")
    n = len([x for x in expected if x])
    check(len(ms.markers) == n, "routing", ("markers stored", len(ms.markers), "expected", n))
    check(len(ms) == len(expected) - n, "routing", ("matches stored", len(ms), "expected", len(expected) - n))


def case_functional_routing():
    one, two = choose(None, True, False), choose(None, True, False)
    own = choose(False, True)
    pattern_flag = choose(None, True, False)

    def find(text):
        if own:
            # each result gives its own flag
            return [(0, 2, {"marker": True}), {"start": 3, "end": 5, "marker": False}]
        return [(0, 2), {"start": 3, "end": 5}]

    r = Rebulk(default_rules=choose(True, False))
    kw = {}
    if pattern_flag is not None:
        kw["marker"] = pattern_flag
    r.functional(find, **kw)
    ms = r.matches(S)
    routed(ms, [True, False] if own else [bool(pattern_flag), bool(pattern_flag)])
    for m in list(ms) + list(ms.markers):
        check(m.span in ((0, 2), (3, 5)), "routing", "spans kept")


def case_regex_routing():
    flag = choose(True, False)
    mode = choose(0, 1, 2, 3)
    r = Rebulk(default_rules=False)
    kw = {}
    if mode == 1:
        kw["children"] = True
    if mode == 2:
        kw["every"] = True
    if mode == 3:
        kw["private_children"] = True
    r.regex("(?P<one>a)(b)", marker=flag, **kw)
    ms = r.matches(S)
    for m in ms:
        check(not m.marker, "routing", "no marker among matches")
    for m in ms.markers:
        check(m.marker, "routing", "only markers among markers")
    check(len(ms.markers if not flag else ms) == 0, "routing", "regex results routed by their flag")


def case_string_routing():
    flag = choose(True, False)
    r = Rebulk(default_rules=False).string("ab", marker=flag).string("cd")
    ms = r.matches(S)
    for m in ms:
        check(not m.marker, "routing", "no marker among matches")
        check(m.pattern.marker is False or not flag, "routing", "matches come from unflagged patterns")
    for m in ms.markers:
        check(m.marker, "routing", "only markers among markers")


def case_default_flag():
    """marker given through defaults"""
    r = Rebulk(default_rules=False).defaults(marker=True) if choose(True, False) else \
        Rebulk(default_rules=False).functional_defaults(marker=True)
    ms = r.functional(lambda text: (1, 3)).matches(S)
    routed(ms, [True])


def case_post_processor():
    """matches produced by processors are routed by their own flag"""

    def post(matches, pattern):
        extra = Match(7, 9, value=VA, marker=True)
        return matches + [extra]

    r = Rebulk(default_rules=False).functional(lambda text: (1, 3), post_processor=post)
    ms = r.matches(S)
    routed(ms, [False, True])


def case_nested_and_chain():
    flag = choose(True, False)
    inner = Rebulk(default_rules=False).functional(lambda text: (1, 3), marker=flag)
    r = Rebulk(default_rules=choose(True, False)).rebulk(inner).functional(lambda text: (4, 6))
    ms = r.matches(S)
    routed(ms, [False, flag])


def case_chain_routing():
    flag = choose(True, False)
    r = Rebulk(default_rules=False)
    r.chain(marker=flag, children=choose(True, False)).functional(lambda text: (0, 2), marker=choose(True, False)).close()
    ms = r.matches(S)
    for m in ms:
        check(not m.marker, "routing", "no marker among matches")
    for m in ms.markers:
        check(m.marker, "routing", "only markers among markers")


def case_rules_routing():
    """markers are stored apart and regular matches by a rule stay regular"""
    from rebulk.rules import Rule, AppendMatch

    class Add(Rule):
        consequence = AppendMatch

        def when(self, matches, context):
            return Match(5, 7, value=VA, marker=bad)

    bad = choose(True, False)
    r = Rebulk().functional(lambda text: (0, 2)).functional(lambda text: (3, 4), marker=True).rules(Add)
    try:
        ms = r.matches(S)
    except AssertionError:
        check(bad, "refusal", "refused although regular")
        return
    check(not bad, "refusal", "a marker appended among matches")
    routed(ms, [False, False, True])
