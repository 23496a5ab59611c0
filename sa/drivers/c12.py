# C12: nothing is emitted from a match that a validator or a processor refused, and which entry applies to which match.
from rebulk import Rebulk
from rebulk.match import Match
from rebulk.validators import validators
from common import NA, NB, NC, NO, same_items, has

CONFIG = {"*": {"max_paths": 6000, "seconds": 150, "regex_total": 1}}

S = unknown("text", "str")
le(20, len(S))
VA, VB, VC, VD = distinct("str", "va", "vb", "vc", "vd")


def truthy(x):
    return True if x else False


def emitted(r):
    ms = r.matches(S)
    return list(ms) + list(ms.markers)


def is_child(m):
    return m.parent is not None


def judge(label):
    """a validator with an unknown verdict on each match"""

    def validator(match):
        verdict = unknown("verdict")
        event("judged", match, label, verdict)
        return verdict

    return validator


def modes():
    """(options, parents included, children included, parent emitted, children emitted)"""
    i = choose(7)
    kw = [{}, {"children": True}, {"every": True}, {"children": True, "every": True}, {"private_parent": True},
          {"children": True, "private_parent": True}, {"private_children": True}][i]
    children, every = kw.get("children", False), kw.get("every", False)
    parent_in, children_in = not children or every, children or every
    return kw, parent_in, children_in, parent_in or kw.get("private_parent", False), \
        children_in or kw.get("private_children", False)


def case_regex_validators():
    """parent and children of a regex pattern in every mode, each with its own unknown verdict"""
    kw, pin, cin, pout, cout = modes()
    every = choose(False, True)
    if every:
        kw["validate_all"] = True
    r = Rebulk(default_rules=False).regex("(?P<one>a)(?P<two>b)", name=NA, validator=judge("any"), **kw)
    out = emitted(r)
    judged = events("judged")
    found = events("regex")
    for m, label, verdict in judged:
        if not truthy(verdict):
            check(len(out) == 0, "rejected-not-emitted", ("mode", kw, "child" if is_child(m) else "parent"))
            return
    judged_matches = [j[0] for j in judged]
    for m in out:
        if is_child(m):
            if cin or every:
                check(has(judged_matches, m), "validated-when-emitted", ("a child was not validated, mode", kw))
            parent = m.parent
        else:
            if pin or every:
                check(has(judged_matches, m), "validated-when-emitted", ("a parent was not validated, mode", kw))
            parent = m
        if every:
            check(has(judged_matches, parent), "validate-all", ("the parent was not validated, mode", kw))
            for c in parent.children:
                check(has(judged_matches, c), "validate-all", ("a child was not validated, mode", kw))
    for m in judged_matches:
        if is_child(m):
            check(every or cout, "validated-when-emitted", ("a child that is not emitted was validated, mode", kw))
        else:
            check(every or pout, "validated-when-emitted", ("a parent that is not emitted was validated, mode", kw))
    if found and found[0][2] < found[0][3]:
        if pout:
            check(len([m for m in out if not is_child(m)]) == 1, "accepted-emitted", ("mode", kw))


def case_simple_validators():
    """string and functional patterns"""
    v = choose(judge("one"), {None: judge("one")}, {NA: judge("one")}, {"__parent__": judge("one")},
               {NB: judge("other"), "__parent__": judge("one")}, {"__children__": judge("other"), None: judge("one")})
    r = Rebulk(default_rules=False)
    if choose(True, False):
        r.functional(lambda text: [(0, 2), (3, 6), (7, 9)], name=NA, validator=v)
        n = 3
    else:
        r.string("ab", name=NA, validator=v)
        n = None
    out = emitted(r)
    judged = events("judged")
    kept = [m for m, label, verdict in judged if truthy(verdict)]
    check(same_items(out, kept), "rejected-not-emitted", (len(out), "of", len(judged)))
    for m, label, verdict in judged:
        check(label == "one", "entry-lookup", (label, "was applied"))
    if n is not None:
        check(len(judged) == n, "validated-when-emitted", (len(judged), "validated"))


def table(make, empty=None):
    """every subset of entries of an option dict, one of them possibly empty: an empty entry is an entry"""
    entries = {}
    blank = choose("no", "one", "__children__", "__parent__", None)
    nothing = empty.get(blank) if empty else None
    for key in ("one", "__children__", "__parent__", None):
        if key == blank:
            entries[key] = nothing
        elif choose(True, False):
            entries[key] = make(str(key))
    return entries


def expected(entries, match):
    keys = [match.name] if match.name else []
    keys.append("__children__" if is_child(match) else "__parent__")
    keys.append(None)
    for k in keys:
        if k in entries:
            return str(k) if entries[k] else None
    return None


def named_parent():
    # the parent may have the same name as a group
    return choose("one", NA, None)


def case_validator_lookup():
    def make(label):
        def validator(match):
            event("judged", match, label)
            return True

        return validator

    entries = table(make)
    r = Rebulk(default_rules=False).regex("(?P<one>a)(b)", name=named_parent(), every=True, validator=entries)
    out = emitted(r)
    for m in out:
        label = expected(entries, m)
        got = [e[1] for e in events("judged") if e[0] is m]
        check(got == ([] if label is None else [label]), "entry-lookup", ("validator of", "child" if is_child(m) else "parent", got, label))


def case_formatter_lookup():
    def make(label):
        def formatter(raw):
            return (label, raw)

        return formatter

    entries = table(make)
    name = named_parent()
    every = choose(True, False)
    kw = {"every": True} if every else {"children": True, "private_parent": True, "format_all": True}
    r = Rebulk(default_rules=False).regex("(?P<one>a)(b)", name=name, formatter=entries, **kw)
    for m in emitted(r):
        label = expected(entries, m)
        raw = S[m.start:m.end]
        if label is None:
            check(m.value == raw, "entry-lookup", ("default formatter of", "child" if is_child(m) else "parent"))
        else:
            check(m.value == (label, raw), "entry-lookup", ("formatter of", "child" if is_child(m) else "parent", label))


def case_value_lookup():
    def make(label):
        return [label]

    entries = table(make, {"one": None, "__children__": 0, "__parent__": "", None: []})
    r = Rebulk(default_rules=False).regex("(?P<one>a)(b)", name=named_parent(), every=True, value=entries)
    for m in emitted(r):
        label = expected(entries, m)
        if label is None:
            check(m.value == S[m.start:m.end], "entry-lookup", ("no value for", "child" if is_child(m) else "parent"))
        else:
            check(m.value == [label], "entry-lookup", ("value of", "child" if is_child(m) else "parent", label))


def case_formatters_apply():
    """formatters apply to what is emitted, or to everything with format_all"""
    kw, pin, cin, pout, cout = modes()
    every = choose(False, True)
    if every:
        kw["format_all"] = True

    def formatter(raw):
        return ("formatted", raw)

    kept = []

    def keep(match):
        kept.append(match)
        return match

    r = Rebulk(default_rules=False).regex("(?P<one>a)", name=NA, formatter=formatter, post_match_processor=keep, **kw)
    emitted(r)
    for parent in kept:
        raw = S[parent.start:parent.end]
        if pin or every:
            check(parent.value == ("formatted", raw), "formatted-when-emitted", ("parent, mode", kw))
        elif not pout:
            check(parent.value == raw, "formatted-when-emitted", ("a parent that is not emitted, mode", kw))
        for c in parent.children:
            raw = S[c.start:c.end]
            if cin or every:
                check(c.value == ("formatted", raw), "formatted-when-emitted", ("child, mode", kw))
            elif not cout:
                check(c.value == raw, "formatted-when-emitted", ("a child that is not emitted, mode", kw))


def case_validator_sees():
    """validators see the value, the formatter and the private flag already set"""

    def see(match):
        child = is_child(match)
        event("seen", child, match.value, match.private, match.formatter is fmt, match._value)
        return True

    def fmt(raw):
        return ("formatted", raw)

    private = choose(0, 1, 2, 3, 4)
    literal = choose(False, True)
    kw = [{}, {"private": True}, {"private_parent": True}, {"private_children": True}, {"private_names": ["one", NA]}][private]
    if literal:
        kw["value"] = {"one": VA, NA: VB}
    r = Rebulk(default_rules=False)
    r.regex("(?P<one>a)", name=NA, every=True, formatter=fmt, validator=see, **kw)
    emitted(r)
    for child, value, flag, formatter, direct in events("seen"):
        want = truthy(private == 1 or private == 4 or private == (3 if child else 2))
        check(truthy(flag) == want, "validator-sees", ("private flag, child" if child else "private flag, parent", private))
        check(formatter, "validator-sees", "formatter")
        if literal:
            check(value is (VA if child else VB), "validator-sees", "literal value")
        else:
            check(value[0] == "formatted", "validator-sees", "formatted value")


def case_processors():
    """pre and post match processors: keep, replace, refuse"""
    other = Match(5, 8, name=NB, input_string=S)
    verdict = unknown("answer")

    def make(i, label):
        def processor(match):
            event("processed", label, match)
            if i == 0:
                return None
            if i == 1:
                return match
            if i == 2:
                return other
            if i == 3:
                return Match(4, 4, input_string=S)
            if i == 4:
                return False
            return []

        return processor

    pre, post = choose(6), choose(6)
    which = choose(0, 1, 2)
    verdicts = []

    def validator(match):
        event("judged", match)
        v = unknown("verdict")
        verdicts.append(v)
        return v

    kw = {"name": NA, "validator": validator}
    kw["pre_match_processor"] = make(pre, "pre") if which != 1 else None
    kw["post_match_processor"] = make(post, "post") if which != 0 else None
    r = Rebulk(default_rules=False).functional(lambda text: (0, 2), **kw)
    out = emitted(r)
    assume(which != 0 or post == 0)
    assume(which != 1 or pre == 0)
    pre_ok = which == 1 or pre in (0, 1, 2)
    post_ok = which == 0 or post in (0, 1, 2)
    judged = events("judged")
    processed = events("processed")
    if not pre_ok:
        check(len(out) == 0, "refused-not-emitted", ("pre_match_processor answer", pre))
        return
    check(len(judged) == 1, "validated-when-emitted", "after the processor")
    if which != 1 and pre == 2:
        check(judged[0][0] is other, "replaced", "the validator received another match")
    if not truthy(verdicts[0]):
        check(len(out) == 0, "rejected-not-emitted", "with processors")
        return
    if not post_ok:
        check(len(out) == 0, "refused-not-emitted", ("post_match_processor answer", post))
        return
    check(len(out) == 1, "accepted-emitted", "with processors")
    replaced = (which != 1 and pre == 2) or (which != 0 and post == 2)
    if replaced:
        check(out[0] is other, "replaced", "the returned match is not emitted")
    else:
        check(out[0] is judged[0][0], "replaced", "another match is emitted")
    if which == 2 and processed:
        check(processed[-1][0] == "post" and (processed[-1][1] is (other if pre == 2 else judged[0][0])), "replaced",
              "post_match_processor received another match")


def case_processor_children():
    """the children of a match returned by the first processor are validated and emitted"""
    verdict = unknown("verdict of the child")

    def pre(match):
        m = Match(5, 9, name=NB, input_string=S)
        m.children.append(Match(6, 7, name=NC, parent=m, input_string=S))
        return m

    def validator(match):
        if match.name == NC:
            return verdict
        return True

    mode = choose(0, 1, 2)
    kw = [{"children": True}, {"every": True}, {"validate_all": True}][mode]
    r = Rebulk(default_rules=False).string("ab", name=NA, validator=validator, pre_match_processor=pre, **kw)
    out = emitted(r)
    names = [m.name for m in out]
    if not truthy(verdict):
        check(len(out) == 0, "rejected-not-emitted", "child of a replaced match")
    else:
        if mode == 0:
            check(NB not in names and NA not in names, "accepted-emitted", "children of a replaced match")
        for m in out:
            check(m.name in (NB, NC), "replaced", "children of a replaced match")


def case_post_processor():
    """the list processor decides last, and receives what was accepted"""
    verdict = unknown("verdict")
    extra = Match(7, 9, name=NB, input_string=S)
    kind = choose(0, 1, 2)

    def post(matches, pattern):
        event("post", len(matches), pattern)
        return [[], matches, [extra]][kind]

    r = Rebulk(default_rules=False)
    r.functional(lambda text: (0, 2), name=NA, validator=lambda m: verdict, post_processor=post)
    out = emitted(r)
    n = 1 if truthy(verdict) else 0
    seen = events("post")
    check(len(seen) == 1 and seen[0][0] == n, "rejected-not-emitted", "post_processor received a refused match")
    check(seen[0][1] is r._patterns[0], "replaced", "post_processor received another pattern")
    if kind == 0:
        check(len(out) == 0, "refused-not-emitted", "post_processor")
    elif kind == 1:
        check(len(out) == n, "rejected-not-emitted", "post_processor")
    else:
        check(same_items(out, [extra]), "replaced", "post_processor")


def case_chain():
    """parts and the chain itself: refused parts and refused chains are not emitted"""
    where = choose(0, 1, 2)
    verdict = unknown("verdict")

    def validator(match):
        event("judged", match)
        return verdict

    kw = [{}, {}, {}]
    kw[where]["validator"] = validator
    r = Rebulk(default_rules=False)
    mode = choose({}, {"children": True}, {"every": True})
    used = []

    def first(text, context):
        if used:
            return []
        used.append(1)
        return [(0, 2)]

    r.chain(name=NC, **mode, **kw[0]).functional(first, name=NA, **kw[1]).functional(lambda text: [(0, 2)], name=NB, **kw[2]).close()
    out = emitted(r)
    judged = [e[0] for e in events("judged")]
    if not truthy(verdict):
        for m in judged:
            check(not has(out, m), "rejected-not-emitted", ("chain, validator of", where))
        if where == 0 and not mode.get("children"):
            check(len(out) == 0, "rejected-not-emitted", "a refused chain")
        if where > 0:
            for m in out:
                check(m.name != (NA if where == 1 else NB), "rejected-not-emitted", "a refused part")


def case_chain_children():
    """validators of the chain for its children, per name"""
    verdict = unknown("verdict")
    key = choose(NA, "__children__", NB)
    used = []

    def first(text, context):
        if used:
            return []
        used.append(1)
        return [(0, 2)]

    mode = choose({"children": True}, {"every": True}, {"validate_all": True}, {"children": True, "validate_all": True})
    r = Rebulk(default_rules=False)
    r.chain(name=NC, validator={key: lambda m: verdict}, **mode).functional(first, name=NA)\
        .functional(lambda text: [(0, 2)], name=NB).close()
    out = emitted(r)
    if truthy(verdict):
        check(len(out) > 0, "accepted-emitted", "a chain with accepted children")
    else:
        check(len(out) == 0, "rejected-not-emitted", ("a child refused by the chain, entry", key))


def case_children_then_post():
    """a refused child refuses the match, whatever the last processor would return"""
    other = Match(5, 8, name=NB, input_string=S)
    verdict = unknown("verdict")

    def validator(match):
        if is_child(match):
            event("judged", match)
            return verdict
        return True

    kw = choose({"children": True}, {"every": True}, {"validate_all": True}, {"validate_all": True, "private_parent": True})
    r = Rebulk(default_rules=False)
    originals = []
    r.regex("(?P<one>a)", name=NA, validator=validator, pre_match_processor=originals.append,
            post_match_processor=lambda m: other, **kw)
    out = emitted(r)
    judged = [e[0] for e in events("judged")]
    for m in originals:
        for c in m.children:
            check(len(out) == 0 or has(judged, c), "validated-when-emitted", "a child was never validated")
    if events("judged") and not truthy(verdict):
        check(len(out) == 0, "rejected-not-emitted", "a refused child, and a processor that replaces its parent")


def case_simple_lookup_unnamed():
    """patterns without a name: several matches, and unnamed groups, each by the entry of its kind"""
    def make(label):
        def validator(match):
            event("judged", match, label)
            return True

        return validator

    setting("regex_total", 2)
    entries = {}
    for key in ("__children__", "__parent__", None):
        if choose(True, False):
            entries[key] = make(str(key))
    kw = choose({"every": True}, {"children": True, "private_parent": True, "validate_all": True})
    name = choose(None, NA)
    r = Rebulk(default_rules=False).regex("(a)", name=name, validator=entries, **kw)
    out = emitted(r)
    for m in out:
        label = expected(entries, m)
        got = [e[1] for e in events("judged") if e[0] is m]
        check(got == ([] if label is None else [label]), "entry-lookup",
              ("validator of an unnamed", "child" if is_child(m) else "parent", got, label))
