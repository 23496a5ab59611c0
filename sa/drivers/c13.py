# C13: which of the parent and the children a pattern emits, in which order and with which flags.
from rebulk import Rebulk
from rebulk.match import Match
from common import NA, NB, NC, NO, TX, TY, same_items, has

CONFIG = {"*": {"max_paths": 8000, "seconds": 200, "regex_total": 1}}

S = unknown("text", "str")
le(20, len(S))
VA, VB = distinct("str", "va", "vb")


def truthy(x):
    return True if x else False


def emitted(r):
    ms = r.matches(S)
    for m in ms.markers:
        check(truthy(m.marker), "marker-flag", "a regular match among markers")
    return list(ms) + list(ms.markers)


def emission_options():
    """(options, parent emitted, children emitted)"""
    kw = {}
    children, every = choose(False, True), choose(False, True)
    pp, pc = choose(False, True), choose(False, True)
    if children:
        kw["children"] = True
    if every:
        kw["every"] = True
    if pp:
        kw["private_parent"] = True
    if pc:
        kw["private_children"] = True
    return kw, (not children or every or pp), (children or every or pc)


def expected_of(originals, parent_out, children_out, ignored=()):
    out = []
    for m in originals:
        if parent_out and m.name not in ignored:
            out.append(m)
        if children_out:
            out.extend(c for c in m.children if c.name not in ignored)
    return out


def collect(originals):
    def keep(match):
        originals.append(match)

    return keep


def case_regex_emission():
    kw, parent_out, children_out = emission_options()
    ignored = choose([], ["one"], [NA], ["one", NA, NO]) if thorough() else choose([], ["one"], [NA])
    if ignored:
        kw["ignore_names"] = ignored
    name = choose(NA, None) if thorough() else NA
    originals = []
    r = Rebulk(default_rules=False)
    r.regex("(?P<one>a)(b)", name=name, pre_match_processor=collect(originals), **kw)
    out = emitted(r)
    want = expected_of(originals, parent_out, children_out, ignored)
    check(same_items(out, want), "emitted-exactly", ("options", kw, "emitted", len(out), "expected", len(want)))


def case_ignored_none():
    """names that are not ignored"""
    kw = choose({}, {"every": True}, {"children": True})
    originals = []
    r = Rebulk(default_rules=False)
    name = choose(None, NA)
    r.regex("(a)", name=name, ignore_names=choose([None], [NO], ["one"], [NA, None]), pre_match_processor=collect(originals), **kw)
    ignored = r._patterns[0].ignore_names
    out = emitted(r)
    want = expected_of(originals, not kw.get("children"), bool(kw), ignored)
    check(same_items(out, want), "emitted-exactly", ("options", kw, "emitted", len(out), "expected", len(want)))


def case_regex_flags():
    kw, parent_out, children_out = emission_options()
    if thorough():
        private, marker, tags = choose(False, True), choose(None, False, True), choose([TX, TY], [])
    else:
        private, marker, tags = choose((False, None, [TX, TY]), (True, True, []), (False, True, []))
    if private:
        kw["private"] = True
    if marker is not None:
        kw["marker"] = marker
    kw["tags"] = tags
    name = NA
    originals = []
    r = Rebulk(default_rules=False)
    r.regex("(?P<one>a)(b)", name=name, pre_match_processor=collect(originals), **kw)
    out = emitted(r)
    parents = []
    for m in out:
        child = m.parent is not None
        want = private or kw.get("private_children" if child else "private_parent", False)
        check(truthy(m.private) == want, "private-flag", ("child" if child else "parent", kw))
        check(truthy(m.marker) == truthy(marker), "marker-flag", ("child" if child else "parent", kw))
        check(list(m.tags) == kw["tags"], "tags", ("child" if child else "parent", kw))
        if not child:
            check(m.name is NA, "name", "parent")
    for m in originals:
        named = [c for c in m.children if c.name == "one"]
        others = [c for c in m.children if c.name == NA]
        check(len(named) <= 1 and len(others) <= 1 and len(named) + len(others) == len(m.children), "name", "children")
        if named and others:
            check(m.children[0] is named[0], "children-order", "groups")


def case_private_names():
    """private_names flags those matches only, also an empty or unnamed one"""
    names = choose(["one"], [NA], [NO], ["one", NA], []) if thorough() else choose(["one"], [NA], [NO])
    kw = choose({"every": True}, {"children": True}, {}, {"children": True, "private_parent": True})
    name = choose(NA, None)
    r = Rebulk(default_rules=False)
    r.regex("(?P<one>a)(b)", name=name, private_names=names, **kw)
    for m in emitted(r):
        want = m.name in names or (m.parent is None and truthy(kw.get("private_parent")))
        check(truthy(m.private) == want, "private-flag", ("private_names, named", m.name, names))


def case_simple_patterns():
    """string and functional patterns have no children"""
    kw, parent_out, children_out = emission_options()
    if thorough():
        private, marker, tags, ignored = choose(False, True), choose(False, True), choose([TX], TX, None), choose([], [NA])
    else:
        private, marker, tags, ignored = choose((False, True, [TX], []), (True, False, TX, []), (False, False, None, [NA]))
    r = Rebulk(default_rules=False)
    originals = []
    opts = {"name": NA, "private": private, "marker": marker, "tags": tags, "ignore_names": ignored,
            "pre_match_processor": collect(originals)}
    opts.update(kw)
    if choose(True, False):
        r.functional(lambda text: [(0, 2), (3, 5)], **opts)
        check_n = 2
    else:
        r.string("ab", **opts)
        check_n = None
    out = emitted(r)
    if check_n is not None:
        check(len(originals) == check_n, "emitted-exactly", "functional results")
    want = expected_of(originals, parent_out, children_out, ignored)
    check(same_items(out, want), "emitted-exactly", ("options", kw, "emitted", len(out), "expected", len(want)))
    for m in out:
        check(truthy(m.private) == (private or kw.get("private_parent", False)), "private-flag", (kw,))
        check(truthy(m.marker) == marker, "marker-flag", (kw,))
        check(list(m.tags) == ([TX] if tags else []), "tags", (kw,))
        check(m.name is NA, "name", (kw,))


def case_functional_own():
    """what a functional pattern gives itself wins over the options of the pattern"""
    r = Rebulk(default_rules=False)
    own = {"name": NB, "tags": [TY], "private": True, "marker": True, "value": VB}
    form = choose(0, 1)
    if form == 0:
        fn = lambda text: [(0, 2, own), (3, 5)]
    else:
        fn = lambda text: [dict(own, start=0, end=2), {"start": 3, "end": 5}]
    r.functional(fn, name=NA, tags=[TX], private=choose(False, True), marker=False)
    flag = r._patterns[0].private
    out = emitted(r)
    check(len(out) == 2, "emitted-exactly", "functional results")
    for m in out:
        if m.start == 0:
            check(m.name is NB and list(m.tags) == [TY] and m.private is True and m.marker is True, "own-options", (form,))
        else:
            check(m.name is NA and list(m.tags) == [TX] and truthy(m.private) == flag and not m.marker, "own-options", (form,))


def case_chain_emission():
    """the options of a chain decide about the chain match and the matches of its parts"""
    kw, parent_out, children_out = emission_options()
    ignored = choose([], [NA], [NC])
    private, names = choose((False, []), (True, []), (False, [NB, NC]))
    originals = []
    used = []

    def first(text, context):
        if used:
            return []
        used.append(1)
        return [(0, 2)]

    r = Rebulk(default_rules=False)
    r.chain(name=NC, ignore_names=ignored, private=private, private_names=names, tags=[TX],
            pre_match_processor=collect(originals), **kw)\
        .functional(first, name=NA, tags=[TY]).functional(lambda text: [(0, 2)], name=NB).close()
    out = emitted(r)
    check(len(originals) == 1, "emitted-exactly", "one chain")
    want = expected_of(originals, parent_out, children_out, ignored)
    check(same_items(out, want), "emitted-exactly", ("chain options", kw, "emitted", len(out), "expected", len(want)))
    chain = originals[0]
    check([c.name for c in chain.children] == [NA, NB], "children-order", "parts of a chain")
    for m in out:
        if m is chain:
            check(truthy(m.private) == (private or NC in names or kw.get("private_parent", False)), "private-flag", ("chain", kw))
            check(list(m.tags) == [TX], "tags", "chain")
        else:
            check(truthy(m.private) == (m.name in names or kw.get("private_children", False)), "private-flag", ("chain child", kw))


def case_several():
    """several results keep their order: each parent, then its children"""
    kw, parent_out, children_out = choose(({}, True, False), ({"every": True}, True, True), ({"children": True}, False, True),
                                          ({"private_children": True}, True, True))
    setting("regex_total", 2)
    originals = []
    r = Rebulk(default_rules=False)
    r.regex("(?P<one>a)", choose("b", "(?P<two>c)"), pre_match_processor=collect(originals), **kw)
    out = emitted(r)
    want = expected_of(originals, parent_out, children_out)
    check(same_items(out, want), "emitted-exactly", ("several results, options", kw))


def case_children_made_by_processor():
    """children added by a processor are emitted in order"""
    kw, parent_out, children_out = emission_options()

    def pre(match):
        for i in range(3):
            match.children.append(Match(i, i + 1, name=[NA, NB, NA][i], parent=match, input_string=S))

    ignored = choose([], [NB])
    originals = []
    r = Rebulk(default_rules=False)
    r.functional(lambda text: [(0, 5)], name=NC, pre_match_processor=pre, post_match_processor=collect(originals),
                 ignore_names=ignored, **kw)
    out = emitted(r)
    check(len(originals) == 1, "emitted-exactly", "one match")
    want = expected_of(originals, parent_out, children_out, ignored)
    check(same_items(out, want), "emitted-exactly", ("children of a processor, options", kw))


def case_unnamed_children():
    """groups without a name of a pattern without a name: private as the options of children say"""
    kw, parent_out, children_out = emission_options()
    originals = []
    r = Rebulk(default_rules=False)
    r.regex("(a)(b)", pre_match_processor=collect(originals), **kw)
    out = emitted(r)
    want = expected_of(originals, parent_out, children_out)
    check(same_items(out, want), "emitted-exactly", ("without names, options", kw, "emitted", len(out), "expected", len(want)))
    for m in out:
        child = m.parent is not None
        check(truthy(m.private) == kw.get("private_children" if child else "private_parent", False), "private-flag",
              ("without a name", "child" if child else "parent", kw))
        check(m.name is None, "name", ("without a name", kw))
