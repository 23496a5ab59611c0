# C10: the built-in consequences over every shape of response, present and absent matches.
from rebulk import Rule, RemoveMatch, AppendMatch, RenameMatch, AppendTags, RemoveTags
from rebulk.match import Match, Matches, Markers
from rebulk.rules import Rules
from rebulk.utils import IdentitySet
from common import M, agree as agree_at, same_items, has, without, NA, NB, NC, NO, TX, TY, TZ

CONFIG = {"*": {"max_paths": 4000, "seconds": 200}}

O = unknown("offset", "int")
assume(O >= 0)
VA, VB, VC, VD = distinct("str", "va", "vb", "vc", "vd")


def new(start, end, name, tags, value, marker=False):
    return M(O + start, O + end, value=value, name=name, tags=tags, marker=marker)


def agree(ms, label):
    agree_at(ms, "lookup", label, False, O)


def warm(ms):
    """the tables of the lookups built before, or not"""
    if choose(False, True):
        ms.named(NA)
        ms.tagged(TX)
        ms.starting(O)
        ms.ending(O + 2)
        ms.at_index(O + 1)


def shaped(items, ms=None):
    """the ways to return several matches"""
    shape = choose(0, 1, 2, 3, 4, 5)
    if shape == 0:
        return list(items), "list"
    if shape == 1:
        return tuple(items), "tuple"
    if shape == 2:
        return (i for i in items), "generator"
    if shape == 3:
        if items and items[0].marker:
            return Markers(items), "matches"
        return Matches(items), "matches"
    if shape == 4:
        return IdentitySet(items), "identity set"
    if len(items) == 1:
        return items[0], "single"
    return filter(None, items), "filter"


def world():
    a = new(0, 2, NA, [TX, TY], VA)
    b = new(2, 4, NB, [TX], VB)
    c = new(2, 7, NA, [], VC)
    out = new(4, 6, NB, [TY], VD)
    ms = Matches([a, b, c])
    return ms, a, b, c, out


def given(a, b, c, out):
    """which matches the condition returned"""
    return choose([a], [c], [a, b], [c, a], [out], [a, out], [out, b], [a, b, c], [])


def describe(m):
    return (m.start, m.end, m.name, list(m.tags), m.value, m.private, m.marker, m.raw_start, m.raw_end)


def described(items):
    return [(m, describe(m)) for m in items]


def unchanged(before, but, rule, label):
    for m, d in before:
        if not has(but, m):
            check(describe(m) == d, rule, (label, "a match that was not given was changed"))


def no_duplicates(ms, label):
    seq = list(ms)
    for i in range(len(seq)):
        for j in range(i):
            check(seq[i] is not seq[j], "no-duplicate", (label,))


def case_remove():
    ms, a, b, c, out = world()
    warm(ms)
    items = given(a, b, c, out)
    before = described([a, b, c, out])
    response, label = shaped(items)
    expected = [m for m in ms if not has(items, m)]
    ret = RemoveMatch().then(ms, response, {})
    check(same_items(ms, expected), "removed-exactly", ("remove", label))
    unchanged(before, [], "removed-exactly", label)
    if label == "single":
        check(ret is (items[0] if items[0] is not out else None), "reports-removed", (label,))
    else:
        check(same_items(ret, [m for m in items if m is not out]), "reports-removed", (label,))
    agree(ms, "remove")


def case_remove_equal():
    """the given match goes, an equal one stays"""
    a1, a2, b = new(0, 2, NA, [TX], VA), new(0, 2, NA, [TY], VA), new(2, 4, NB, [], VB)
    ms = Matches([a1, b, a2])
    warm(ms)
    x = choose(a1, a2)
    response, label = shaped([x])
    RemoveMatch().then(ms, response, {})
    check(same_items(ms, without([a1, b, a2], x)), "removed-exactly", ("equal match", label))
    agree(ms, "remove equal")


def case_remove_all():
    """the sequence itself, or a query of it"""
    ms, a, b, c, out = world()
    warm(ms)
    how = choose(0, 1, 2, 3, 4)
    if how == 0:
        response, gone = ms, [a, b, c]
    elif how == 1:
        response, gone = ms.named(NA), [a, c]
    elif how == 2:
        response, gone = iter(ms), [a, b, c]
    elif how == 3:
        response, gone = ms.tagged(TX), [a, b]
    else:
        response, gone = (m for m in ms if m.name == NA), [a, c]
    RemoveMatch().then(ms, response, {})
    check(same_items(ms, [m for m in (a, b, c) if not has(gone, m)]), "removed-exactly", "the sequence as response")
    agree(ms, "remove all")


def case_append():
    ms, a, b, c, out = world()
    warm(ms)
    items = given(a, b, c, out)
    name = choose(None, NC)
    before = described([a, b, c, out])
    response, label = shaped(items)
    n = len(items)
    ret = AppendMatch(name).then(ms, response, {})
    added = [m for m in items if m is out]
    check(same_items(ms, [a, b, c] + added), "appended-exactly", ("append", label))
    if name is None:
        unchanged(before, [], "appended-exactly", label)
    else:
        unchanged(before, added, "appended-exactly", label)
        for m in added:
            check(m.name == NC, "named", (label, "the appended match has another name"))
            check(list(m.tags) == [TY], "named", (label, "the appended match has other tags"))
    if label == "single":
        check(ret is (out if added else None), "reports-appended", (label,))
    else:
        check(same_items(ret, added), "reports-appended", (label,))
    agree(ms, "append")


def case_append_equal():
    """a match that equals one that is there is there already, whatever its tags"""
    a, b = new(0, 2, NA, [TX], VA), new(2, 4, NB, [], VB)
    ms = Matches([a, b])
    warm(ms)
    twin = new(0, 2, choose(NA, NC), choose([TX], [TY]), VA)
    other = new(1, 4, NB, [], VB)
    present = twin.name is NA
    items = choose([twin], [twin, other], [other, twin])
    name = choose(None, NO)
    response, label = shaped(items)
    ret = AppendMatch(name).then(ms, response, {})
    added = [m for m in items if m is other or not present]
    check(same_items(ms, [a, b] + added), "appended-exactly", ("an equal match", label))
    if present:
        check(twin.name is NA, "appended-exactly", ("named although an equal one is there", label))
    if label == "single":
        check(ret is (added[0] if added else None), "reports-appended", (label, "an equal match"))
    agree(ms, "append an equal match")


def case_append_several():
    """several absent matches, one given twice, in a sequence that was empty or not"""
    x, y, z = new(0, 2, NA, [TX], VA), new(2, 4, NB, [], VB), new(1, 3, None, [TY], VC)
    ms = Matches(choose([], [y]))
    warm(ms)
    seq = list(ms)
    items = choose([x, z], [x, x, z], [z, y, x], [y, y])
    name = choose(None, NC)
    before = described(seq)
    for m in items:
        if not has(seq, m):
            seq.append(m)
    response, label = shaped(items)
    AppendMatch(name).then(ms, response, {})
    check(same_items(ms, seq), "appended-exactly", ("several", label))
    unchanged(before, [], "appended-exactly", label)
    if name is not None:
        for m in ms:
            if not has([d[0] for d in before], m):
                check(m.name == NC, "named", (label,))
    agree(ms, "append several")


def case_append_marker():
    x, y = new(0, 2, NA, [TX], VA, True), new(2, 4, NB, [], VB, True)
    ms = Markers([x])
    warm(ms)
    response, label = shaped(choose([y], [x, y]))
    AppendMatch(choose(None, NC)).then(ms, response, {})
    check(same_items(ms, [x, y]), "appended-exactly", ("markers", label))
    agree(ms, "append marker")


def members(ms, expected, label):
    check(len(ms) == len(expected), "same-members", (label, "number of matches"))
    for m in expected:
        check(has(ms, m), "same-members", (label, "a match disappeared"))
    no_duplicates(ms, label)


def case_rename():
    ms, a, b, c, out = world()
    warm(ms)
    items = given(a, b, c, out)
    name = choose(NC, NB, NA)
    before = described([a, b, c, out])
    tags = [(m, list(m.tags)) for m in (a, b, c, out)]
    response, label = shaped(items)
    RenameMatch(name).then(ms, response, {})
    members(ms, [a, b, c], ("rename", label))
    done = [m for m in items if m is not out]
    unchanged(before, done, "changed-exactly", label)
    for m in done:
        check(m.name == name, "renamed", (label,))
    for m, t in tags:
        check(list(m.tags) == t, "changed-exactly", (label, "tags changed by a renaming"))
    agree(ms, "rename")


def case_append_tags():
    ms, a, b, c, out = world()
    warm(ms)
    items = given(a, b, c, out)
    tags = choose([TZ], [TX, TZ], [], [TZ, TX, TZ])
    kept = list(tags)
    before = described([a, b, c, out])
    old = [(m, list(m.tags)) for m in (a, b, c)]
    response, label = shaped(items)
    AppendTags(tags).then(ms, response, {})
    members(ms, [a, b, c], ("append tags", label))
    check(tags == kept, "given-list", "the list of tags of the consequence changed")
    done = [m for m in items if m is not out]
    unchanged(before, done, "changed-exactly", label)
    for m, t in old:
        if has(done, m):
            want = list(t)
            for x in tags:
                if x not in want:
                    want.append(x)
            check(m.tags == want, "tagged", (label, "tags after AppendTags"))
            check(m.tags is not tags, "given-list", "the match shares the list of the consequence")
    agree(ms, "append tags")


def case_remove_tags():
    ms, a, b, c, out = world()
    a.tags.append(TX)
    ms = Matches([a, b, c])
    warm(ms)
    items = given(a, b, c, out)
    tags = choose([TX], [TX, TY], [], [TZ, TX])
    kept = list(tags)
    before = described([a, b, c, out])
    old = [(m, list(m.tags)) for m in (a, b, c)]
    response, label = shaped(items)
    RemoveTags(tags).then(ms, response, {})
    members(ms, [a, b, c], ("remove tags", label))
    check(tags == kept, "given-list", "the list of tags of the consequence changed")
    done = [m for m in items if m is not out]
    unchanged(before, done, "changed-exactly", label)
    for m, t in old:
        if has(done, m):
            check(m.tags == [x for x in t if x not in tags], "untagged", (label, "tags after RemoveTags"))
    agree(ms, "remove tags")


def case_whole_sequence():
    """renaming or tagging the sequence itself or a query of it, with the lookups used before"""
    ms, a, b, c, out = world()
    warm(ms)
    how = choose(0, 1, 2)
    if how == 0:
        response, done = ms, [a, b, c]
    elif how == 1:
        response, done = ms.named(NA), [a, c]
    else:
        response, done = (m for m in ms if m.name == NA), [a, c]
    what = choose(0, 1, 2)
    if what == 0:
        RenameMatch(NC).then(ms, response, {})
        for m in done:
            check(m.name == NC, "renamed", "the sequence as response")
    elif what == 1:
        AppendTags([TZ]).then(ms, response, {})
        for m in done:
            check(TZ in m.tags, "tagged", "the sequence as response")
    else:
        RemoveTags([TX]).then(ms, response, {})
        for m in done:
            check(TX not in m.tags, "untagged", "the sequence as response")
    members(ms, [a, b, c], "the sequence as response")
    agree(ms, "whole sequence")


def case_reused():
    """a consequence instance used for two sequences keeps no state"""
    x, y, z, w = (new(0, 2, NA, [TX], VA), new(2, 4, NB, [], VB), new(1, 3, NA, [TX, TY], VC), new(4, 5, NB, [TX], VD))
    one, two = Matches([x, y]), Matches([z, w])
    what = choose(0, 1, 2, 3, 4)
    if what == 0:
        cons = RenameMatch(NC)
    elif what == 1:
        cons = AppendTags([TZ])
    elif what == 2:
        cons = RemoveTags([TX])
    elif what == 3:
        cons = RemoveMatch()
    else:
        cons = AppendMatch(NC)
    snap = snapshot(cons)
    warm(one)
    r1 = choose([x], x)
    cons.then(one, r1, {})
    cons.then(two, choose([w], w), {})
    check(changed(snap) is None, "given-list", "the consequence changed")
    if what == 3:
        check(same_items(one, [y]) and same_items(two, [z]), "removed-exactly", "reused")
    else:
        check(len(one) == 2 and len(two) == 2, "same-members", "reused")
    check(y.name == NB and y.tags == [] and z.name == NA and z.tags == [TX, TY], "changed-exactly", "reused")
    agree(one, "reused, first")
    agree(two, "reused, second")


def case_in_rule():
    """the same through a rule, with several consequences over one response each"""
    ms, a, b, c, out = world()
    warm(ms)

    class R(Rule):
        consequence = [RemoveMatch, AppendMatch(NC), RenameMatch(NB), AppendTags([TZ]), RemoveTags([TX])]

        def when(self, matches, context):
            return [c], out, a, [a, out], (b, a)

    Rules(R).execute_all_rules(ms, {})
    members(ms, [a, b, out], "rule")
    check(out.name == NC and a.name == NB and b.name == NB, "renamed", "rule")
    check(TZ in a.tags and TZ in out.tags and TZ not in b.tags, "tagged", "rule")
    check(TX not in a.tags and TX not in b.tags, "untagged", "rule")
    agree(ms, "rule")


def case_refused():
    """a marker is not appended to regular matches; the sequence is as before"""
    ms, a, b, c, out = world()
    warm(ms)
    bad = new(1, 2, NA, [TX], VA, True)
    refused = False
    try:
        AppendMatch().then(ms, choose(bad, [bad]), {})
    except AssertionError:
        refused = True
    check(refused, "refusal", "a marker was appended to regular matches")
    check(same_items(ms, [a, b, c]), "refusal", "sequence unchanged")
    agree(ms, "refused append")
