# C01: matching, introspection and the accessors leave the configured engine untouched.
from rebulk import Rebulk, Rule, CustomRule, RemoveMatch, AppendMatch, RenameMatch, AppendTags, RemoveTags
from rebulk.match import Match
from rebulk.key import Key
from rebulk.introspector import introspect
from rebulk import debug
from common import NA, NB, NC, TX, TY, TZ, same_items

CONFIG = {"*": {"max_paths": 1200, "seconds": 100, "regex_total": 1}}

S = unknown("text", "str")
S2 = unknown("another text", "str")
le(12, len(S))
le(12, len(S2))
VA, VB, VC, VD = distinct("str", "va", "vb", "vc", "vd")


def fmt(raw):
    return VA


def yes(m):
    return True


def guard(r, context):
    freeze(r, "the configured Rebulk")
    freeze(context, "the context of the caller")
    freeze_modules("module state")


def touch(ms):
    """what a caller or a rule does with the matches it received"""
    for m in list(ms) + list(ms.markers):
        m.tags.append(TZ)
        m.name = NC
        m.value = VD
        m.private = True
        m.children.clear()
        m.start = m.start
        m.formatter = fmt
    ms.clear()
    ms.declared_keys.clear()


def go(r, context, again=True):
    guard(r, context)
    before = snapshot(r)
    given = snapshot(context)
    ms = r.matches(S, context) if context is not None else r.matches(S)
    if again:
        touch(ms)
    unchanged(before, given, "after the call" + (" and changing its matches" if again else ""))


def unchanged(engine, context, label):
    diff = changed(engine)
    check(diff is None, "engine-unchanged", (label, "differs:", diff))
    diff = changed(context)
    check(diff is None, "context-unchanged", (label, "differs:", diff))


def options(value=None):
    return {"name": NA, "tags": [TX, TY], "formatter": {NA: fmt, None: fmt}, "value": value,
            "validator": {None: yes}, "private_names": [NB], "ignore_names": [NC], "properties": {NA: [VA, VB]}}


def case_string():
    go(Rebulk().string("ab", "cd", **options(choose(None, {NA: VA}, [VA, VB]))), {"opt": [1, 2]})


def case_regex():
    mode = choose(0, 1, 2)
    r = Rebulk(default_rules=mode == 0)
    r.regex("(?P<one>a)(b)", every=mode == 1, children=mode == 2, flags=0,
            abbreviations=[["-", "x"]], **options({"one": VA}))
    go(r, choose(None, {"opt": [1, 2]}))


def case_functional():
    spec = choose(0, 1, 2, 3)
    own = {"start": 1, "end": 3, "tags": [TX], "name": NB}
    results = [(0, 2), (3, 5, {"tags": [TY], "name": NB})]
    single = (0, 4)

    def find(text, context):
        if spec == 0:
            return own
        if spec == 1:
            return results
        if spec == 2:
            return single
        return [own, dict(own)]

    go(Rebulk().functional(find, marker=choose(True, False), **options(choose(None, {NA: VA}, [VA, VB]))), {"opt": [1, 2]})


def case_functional_option_dicts():
    """objects a function hands out at each call are not modified: they may be part of its state"""
    own = {"start": 1, "end": 3, "tags": [TX], "name": NB, "input_string": VA, "pattern": None}
    tuple_options = {"tags": [TY], "input_string": VA}
    results = [(0, 2), (3, 5, tuple_options), own]
    r = Rebulk().functional(lambda text: results, tags=[TZ])
    go(r, {})


def case_chain():
    r = Rebulk(default_rules=False)
    c = r.chain(children=choose(True, False), chain_breaker=choose(None, lambda ms: False), **options())
    n = choose(0, 1)
    c.functional(lambda text: [(0, 2), (2, 3)], name=NA, tags=[TY], value={NA: VB}).repeater("+") \
     .functional(lambda text: (0, 1) if n == 0 else None, name=NB, tags=[TX]).repeater("?").close()
    go(r, {"opt": 1})


def case_chain_regex():
    r = Rebulk()
    r.chain(tags=[TX]).regex("a(?P<n>b)", tags=[TY], children=choose(True, False)).repeater("+").close()
    go(r, {"opt": 1})


def case_nested():
    # rules depending on context, in the parent and in the nested rebulk, several rules at several priorities
    class Late(Rule):
        priority = -5
        consequence = [RenameMatch(NC), AppendTags([TZ])]

        def when(self, matches, context):
            l = list(matches)
            return [l[0], l[0]] if l else []

    class Early(Rule):
        priority = 5
        consequence = AppendMatch(NB)
        properties = {NA: [VA]}

        def when(self, matches, context):
            return Match(7, 9, value=VC)

    class Middle(Rule):
        dependency = [Early]
        consequence = RemoveMatch

        def when(self, matches, context):
            return matches.named(NA)

    child = Rebulk(disabled=choose(False, True), default_rules=False).functional(lambda text: (2, 4), name=NB, tags=[TX])
    child.rules(Late).declare_keys(Key(NB, str))
    r = Rebulk().functional(lambda text: (0, 2), name=NA, tags=[TY]).rules(Middle, Early).rebulk(child)
    r.declare_keys(Key(NA, str, formatter=fmt))
    go(r, {"opt": [1]})


def case_rules_state():
    """consequences keep their own tag lists"""
    kind = choose(0, 1, 2)
    cons = [AppendTags([TZ]), RemoveTags([TY]), RenameMatch(NC)][kind]

    class Go(Rule):
        consequence = cons

        def when(self, matches, context):
            l = list(matches)
            return choose(l, l[0]) if l else None

    r = Rebulk().functional(lambda text: [(0, 2), (3, 4)], name=NA, tags=[TY, TX]).rules(Go)
    go(r, {})


def case_conflicts():
    solver = choose(None, lambda match, other: other, lambda match, other: "__default__")
    r = Rebulk().functional(lambda text: [(0, 2), (1, 4)], name=NA, tags=[TX], conflict_solver=solver) \
        .functional(lambda text: (1, 2), private=True)
    go(r, {})


def case_introspection():
    r = Rebulk()
    r.string("ab", "cd", name=NA).regex("(?P<one>a)", name=NB, private_names=[NB]).functional(fmt, name=NC)
    r.string("ab", name=NC, properties={NA: [VA, [VB]]}).regex("a", value={NA: VA, None: [VB]}, name=NB)
    r.functional(fmt, properties={NB: [VB]})

    class Show(CustomRule):
        properties = {NA: [VC], NB: [None]}

        def when(self, matches, context):
            return None

        def then(self, matches, when_response, context):
            pass

    child = Rebulk(default_rules=False).string("ef", name=NB, properties={NC: [VC]})
    r.rules(Show).rebulk(child).declare_keys(Key(NA, str))
    context = {"opt": [1]}
    guard(r, context)
    before, given = snapshot(r), snapshot(context)
    i = introspect(r, context)
    p = i.properties
    for name in list(p):
        p[name].append(VD)
    p.clear()
    for d in list(i.patterns) + list(i.rules):
        for name in list(d.properties):
            d.properties[name].append(VD)
        d.properties.clear()
    i.patterns.clear()
    i.rules.clear()
    unchanged(before, given, "introspection")


def case_accessors():
    child = Rebulk(disabled=choose(False, True)).string("ef", name=NB)
    child.declare_keys(Key(NB, str))
    chained = Rebulk().chain(name=NC).string("x").close()
    r = Rebulk().string("ab", name=NA).regex("(?P<one>a)").rebulk(child, chained).declare_keys(Key(NA, str), Key(NC, str))
    context = {"opt": [1]}
    guard(r, context)
    before, given = snapshot(r), snapshot(context)
    a, b, c = r.effective_patterns(context), r.effective_rules(context), r.effective_keys(context)
    a.clear()
    b.clear()
    c.clear()
    allowed = choose((), [NA], {NA: 1})
    freeze(allowed, "the caller's allowed names")
    d = r.check_keys(allowed_unused=allowed)
    d.append(NA)
    r.effective_patterns()
    r.effective_rules()
    r.effective_keys()
    unchanged(before, given, "accessors")


def case_declared_check():
    r = Rebulk(default_rules=False).functional(lambda text: [(0, 2), (3, 4)], name=NA).declare_keys(Key(NA, str, formatter=fmt))
    r.chain().functional(lambda text: (0, 1), name=NA).close()
    debug.CHECK_DECLARED_KEYS = choose(True, False)
    go(r, {})


def case_shared_children():
    """a pattern object registered in two engines"""
    r1 = Rebulk(default_rules=False).functional(lambda text: [(0, 2)], name=NA, tags=[TX])
    r2 = Rebulk(default_rules=False).pattern(*r1._patterns)
    freeze(r1, "another Rebulk")
    go(r2, None)


def same_match(a, b):
    return (a.span == b.span and a.name == b.name and a.tags == b.tags and a.value == b.value and a.private == b.private
            and a.marker == b.marker and a.match_index == b.match_index and a.raw_start == b.raw_start
            and a.raw_end == b.raw_end and len(a.children) == len(b.children))


def case_history():
    """the result of a call does not depend on the calls before it"""
    which = choose(0, 1, 2)

    def build():
        seen = Rebulk()
        if which == 0:
            seen.functional(lambda text: [(0, 2), (1, 4)], name=NA, tags=[TX])

            class Mark(Rule):
                consequence = AppendTags([TY])

                def when(self, matches, context):
                    return list(matches)

            seen.rules(Mark)
        elif which == 1:
            seen.chain(tags=[TX]).functional(lambda text: [(0, 2), (2, 3)], name=NA, tags=[TX]).repeater("+").close()
        else:
            seen.functional(lambda text: {"start": 1, "end": 3}, value=VA, name=NA, tags=[TY]) \
                .rebulk(Rebulk().functional(lambda text: (4, 6), name=NB).declare_keys(Key(NB, str, formatter=fmt)))
        return seen

    r = build()
    touch(r.matches(S2, {"a": 1}))
    introspect(r)
    ms = r.matches(S)
    fresh = build().matches(S)
    check(len(ms) == len(fresh), "history", "same number of matches")
    for i in range(len(ms)):
        check(same_match(ms[i], fresh[i]), "history", ("match", i))
