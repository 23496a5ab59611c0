# C19: explicit options beat kind defaults, which beat general defaults, on every builder.
from rebulk import Rebulk, Key
from rebulk.introspector import introspect
from common import NA, NB, NC, NO, TX, TY, TZ, same_items, has

CONFIG = {"*": {"max_paths": 8000, "seconds": 150, "regex_total": 1}}

TEXT = "ab"
VA, VB, VC = distinct("str", "value a", "value b", "value c")
assume(VA and VB and VC)


def fg(raw):
    return ("general", raw)


def fk(raw):
    return ("kind", raw)


def fe(raw):
    return ("explicit", raw)


def once(text):
    return (0, 2)


# what a chain or a part around the observed pattern is declared with
NEUTRAL = {"name": None, "formatter": None, "value": None, "validator": None, "post_processor": None}

# kinds
STRING, REGEX, FUNCTIONAL, CHAIN = 0, 1, 2, 3


def add(b, kind, **options):
    if kind == STRING:
        return b.string("ab", **options)
    if kind == REGEX:
        return b.regex("ab", **options)
    if kind == FUNCTIONAL:
        return b.functional(once, **options)
    c = b.chain(**options)
    c.functional(once, overrides=["tags"], tags=[], **NEUTRAL)
    return c


def kind_defaults(b, kind, **options):
    if kind == STRING:
        b.string_defaults(**options)
    elif kind == REGEX:
        b.regex_defaults(**options)
    elif kind == FUNCTIONAL:
        b.functional_defaults(**options)
    else:
        b.chain_defaults(**options)


def other_kinds_defaults(b, kind, **options):
    for k in (STRING, REGEX, FUNCTIONAL, CHAIN):
        if k != kind:
            kind_defaults(b, k, **options)


DIRECT, PART, NESTED, AFTER_PART = 0, 1, 2, 3


def opened(r, where):
    """the builder patterns are added to: the rebulk, a chain of it, a chain in a chain, a chain opened from a part"""
    if where == DIRECT:
        return r
    c = r.chain(**NEUTRAL)
    if where == PART:
        return c
    if where == NESTED:
        return c.chain(**NEUTRAL)
    return c.functional(lambda text: (0, 1), name=NO).chain()


def the_match(r, where, kind):
    """the match of the pattern that was added, or None"""
    ms = r.matches("xab" if where == AFTER_PART else TEXT)
    out = list(ms) + list(ms.markers)
    if not out:
        return None
    top = out[-1]
    if where == DIRECT:
        return top
    children = list(top.children)
    if where == AFTER_PART:
        children = children[1:]
    if kind == CHAIN:
        wanted = [m for m in children if m.children and m.parent is top] if where == PART else \
            [m for m in children if m.children and not [x for x in m.children if x.children]]
        return wanted[0] if wanted else None
    for m in children:
        if not m.children:
            return m
    return None


def levels():
    """which of the general, kind and explicit levels give the option"""
    return choose(True, False), choose(True, False), choose(True, False)


def declare(make, where, kind, wrong=None, **fixed):
    """one pattern with the option at the chosen levels, set on the builder itself or inherited when opened"""
    r = Rebulk(default_rules=False)
    g, k, e = levels()
    inherited = where == DIRECT or choose(True, False)
    b = opened(r, where) if not inherited else r
    if wrong is not None:
        other_kinds_defaults(b, kind, **wrong)
    first = choose(0, 1) if g and k and (not e or thorough()) else 0
    if k and first == 1:
        kind_defaults(b, kind, **make(1))
    if g:
        b.defaults(**make(0))
    if k and first == 0:
        kind_defaults(b, kind, **make(1))
    if inherited:
        b = opened(r, where)
    explicit = make(2) if e else {}
    explicit.update(fixed)
    add(b, kind, **explicit)
    return r, g, k, e


def best(g, k, e, values, default):
    if e:
        return values[2]
    if k:
        return values[1]
    if g:
        return values[0]
    return default


def place(deep=False):
    where = choose(DIRECT, PART, NESTED) if deep or thorough() else choose(DIRECT, PART)
    kind = choose(STRING, REGEX, FUNCTIONAL, CHAIN)
    return where, kind


# ---------------------------------------------------------------- values
def case_name():
    where, kind = place()
    values = choose((NA, NB, NC), (NA, NB, None), (NA, None, NC))
    r, g, k, e = declare(lambda i: {"name": values[i]}, where, kind, {"name": NO})
    m = the_match(r, where, kind)
    if m is not None:
        check(m.name is best(g, k, e, values, None), "precedence", ("name", where, kind))
    else:
        check(kind == REGEX, "precedence", ("no match", where, kind))


def case_value():
    where, kind = place()
    values = choose((VA, VB, VC), (VA, VB, None), (VA, None, VC))
    r, g, k, e = declare(lambda i: {"value": values[i]}, where, kind, {"value": "wrong"})
    m = the_match(r, where, kind)
    want = best(g, k, e, values, None)
    if m is not None:
        check(m.value == (m.raw if want is None else want), "precedence", ("value", where, kind))
    else:
        check(kind == REGEX, "precedence", ("no match", where, kind))


def case_formatter():
    where, kind = place()
    values = choose((fg, fk, fe), (fg, fk, None), (fg, {None: fk}, fe))
    r, g, k, e = declare(lambda i: {"formatter": values[i]}, where, kind, {"formatter": lambda raw: "wrong"})
    m = the_match(r, where, kind)
    want = best(g, k, e, values, None)
    if isinstance(want, dict):
        want = want[None]
    if m is not None:
        check(m.value == (want(m.raw) if want else m.raw), "precedence", ("formatter", where, kind))


def case_flags():
    """booleans: an explicit False wins over a default True"""
    where, kind = place()
    option = choose("private", "marker")
    values = choose((True, False, True), (False, True, False), (True, True, False))
    r, g, k, e = declare(lambda i: {option: values[i]}, where, kind, {option: True})
    m = the_match(r, where, kind)
    want = best(g, k, e, values, False)
    if m is not None:
        got = m.private if option == "private" else m.marker
        check((True if got else False) == want, "precedence", (option, where, kind))


def case_direct_options():
    """options observed on patterns that are not part of a chain"""
    kind = choose(STRING, REGEX, FUNCTIONAL, CHAIN)
    option = choose("disabled", "validator", "conflict_solver", "log_level", "post_processor")
    if option == "disabled":
        values = choose((True, False, True), (True, True, False), (False, True, lambda context: False))
    elif option == "validator":
        values = choose((lambda m: False, lambda m: True, lambda m: False), (lambda m: False, lambda m: False, None),
                        (lambda m: True, lambda m: False, lambda m: True))
    elif option == "conflict_solver":
        values = (fg, fk, fe)
    elif option == "log_level":
        values = (1, 2, 0)
    else:
        values = (lambda ms, p: ["general"], lambda ms, p: ["kind"], None)
    r, g, k, e = declare(lambda i: {option: values[i]}, DIRECT, kind)
    want = best(g, k, e, values, None)
    pattern = r.effective_patterns()[0]
    if option == "disabled":
        off = want(None) if callable(want) else want
        check((True if pattern.disabled(None) else False) == (True if off else False), "precedence", (option, kind))
    elif option == "log_level":
        if want is not None:
            check(pattern.log_level == want, "precedence", (option, kind))
    elif option == "post_processor":
        check(pattern.matches(TEXT) == want(None, None) if want else pattern.matches(TEXT) not in (["general"], ["kind"]),
              "precedence", (option, kind))
    else:
        m = the_match(r, DIRECT, kind)
        if option == "validator":
            if want is not None and not want(None):
                check(m is None, "precedence", (option, kind))
            else:
                check(m is not None or kind == REGEX, "precedence", (option, kind))
        elif m is not None:
            check(m.conflict_solver is want, "precedence", (option, kind))


def case_string_options():
    """options of one kind only"""
    values = choose((True, False, True), (False, True, False), (True, True, False))
    r = Rebulk(default_rules=False)
    g, k, e = levels()
    if g:
        r.defaults(ignore_case=values[0])
    if k:
        r.string_defaults(ignore_case=values[1])
    r.string("AB", **({"ignore_case": values[2]} if e else {}))
    check(len(r.matches("ab")) == (1 if best(g, k, e, values, False) else 0), "precedence", "ignore_case")


# ---------------------------------------------------------------- lists and dicts
def case_lists():
    where, kind = place(True)
    values = choose(([TX], [TY], [TZ]), ([TX, TY], [TX], [TZ, TX]), ([TX], [], [TZ]), ([], [TY], []))
    r, g, k, e = declare(lambda i: {"tags": list(values[i])}, where, kind, {"tags": ["wrong"]})
    m = the_match(r, where, kind)
    want = (values[0] if g else []) + (values[1] if k else []) + (values[2] if e else [])
    if m is not None:
        check(m.tags == want, "list-concatenation", ("tags", where, kind))


def case_list_and_scalar():
    """a list and a value that is no list: nothing to concatenate, precedence"""
    kind = choose(STRING, REGEX, FUNCTIONAL, CHAIN)
    values = choose(([TX], TY, [TZ]), (TX, [TY], TZ), ([TX], [TY], TZ), ((TX,), (TY,), (TZ,)))
    r, g, k, e = declare(lambda i: {"tags": values[i]}, DIRECT, kind)
    m = the_match(r, DIRECT, kind)
    if m is None:
        return
    want = []
    given = False
    for level, value in ((e, values[2]), (k, values[1]), (g, values[0])):
        if level:
            if not given:
                want = value
            elif isinstance(value, list) and isinstance(want, list):
                want = value + want
            given = True
    if not isinstance(want, (list, tuple)):
        want = [want]
    check(m.tags == list(want), "precedence", ("tags that are not all lists", kind))


def entries(i):
    if thorough():
        return choose({}, {"one": i}, {None: i}, {"one": i, None: i + 10})
    return choose({"one": i}, {None: i}, {"one": i, None: i + 10})


def case_dicts():
    """per name entries: merged, the nearer level first"""
    where = choose(DIRECT, PART)
    kind = choose(STRING, REGEX, FUNCTIONAL, CHAIN)
    option = choose("formatter", "value", "validator") if where == DIRECT and kind != REGEX else choose("formatter", "value")
    if kind == CHAIN and where == PART and not thorough():
        return
    tables = [None, None, None]

    def make(i):
        if tables[i] is None:
            tables[i] = entries(i + 1) if where == DIRECT else choose({"one": i + 1}, {None: i + 1})
        if option == "formatter":
            return {"formatter": {n: constant(v) for n, v in tables[i].items()}}
        if option == "value":
            return {"value": {n: v for n, v in tables[i].items()}}
        return {"validator": {n: verdict(v) for n, v in tables[i].items()}}

    r, g, k, e = declare(make, where, kind, None, name="one")
    merged = {}
    for given, table in ((g, tables[0]), (k, tables[1]), (e, tables[2])):
        if given:
            merged.update(table)
    want = merged["one"] if "one" in merged else merged.get(None)
    m = the_match(r, where, kind)
    if option == "validator":
        judged = [x[0] for x in events("judged")]
        check(has([[], [want]], None) or judged in ([], [want]), "dict-merge", (option, kind))
        check(want is None or kind == REGEX or judged == [want], "dict-merge", (option, kind))
    elif m is not None:
        check(m.value == (m.raw if want is None else want), "dict-merge", (option, where, kind))


def constant(v):
    return lambda raw: v


def verdict(v):
    def judge(match):
        event("judged", v)
        return True

    return judge


def case_dict_names():
    """entries are names: none of them is an instruction"""
    kind = choose(STRING, REGEX, FUNCTIONAL, CHAIN)
    name = choose("clear", "overrides", "name")
    other = choose("clear", "zz")
    r, g, k, e = declare(lambda i: {"formatter": choose({name: constant(i + 1)}, {other: constant(0), name: constant(i + 1)})},
                         DIRECT, kind, None, name=name)
    m = the_match(r, DIRECT, kind)
    want = best(g, k, e, (1, 2, 3), None)
    if m is not None:
        if name != other:
            check(m.value == (m.raw if want is None else want), "dict-merge", ("entries named like options", kind))
        else:
            check(m.value == want or not (g or k or e), "dict-merge", ("entries named like options", kind))


def case_properties():
    kind = choose(STRING, REGEX, FUNCTIONAL, CHAIN)
    tables = ({NA: [1], NB: [2]}, {NB: [3], NC: [4]}, {NC: [5]})
    r, g, k, e = declare(lambda i: {"properties": tables[i]}, DIRECT, kind)
    got = r.effective_patterns()[0].properties
    want = {}
    for given, table in ((g, tables[0]), (k, tables[1]), (e, tables[2])):
        if given:
            for n in table:
                want[n] = want.get(n, []) + table[n]
    check(got == want, "dict-merge", ("lists in properties", kind))


# ---------------------------------------------------------------- overrides and clear
def case_overrides():
    where, kind = place()
    names = choose(["tags"], ["formatter"], ["tags", "name", "formatter"], ("tags",))
    tags = choose([TZ], [], None)
    r = Rebulk(default_rules=False)
    b = opened(r, where) if choose(True, False) else r
    g, k = choose(True, False), choose(True, False)
    if g:
        b.defaults(tags=[TX], formatter={"one": fg})
    if k:
        kind_defaults(b, kind, tags=[TY], formatter={"one": fk})
    if b is r:
        b = opened(r, where)
    add(b, kind, name="one", tags=tags, formatter={None: fe}, overrides=names)
    m = the_match(r, where, kind)
    if m is None:
        check(kind == REGEX, "overrides", "no match")
        return
    if "tags" in names or tags is None:
        check(m.tags == (tags or []), "overrides", ("tags", where, kind))
    else:
        check(m.tags == ([TX] if g else []) + ([TY] if k else []) + tags, "list-concatenation", ("tags", where, kind))
    if "formatter" in names or not (g or k):
        check(m.value == ("explicit", m.raw), "overrides", ("formatter", where, kind))
    else:
        check(m.value == ("kind" if k else "general", m.raw), "dict-merge", ("formatter", where, kind))


def case_overrides_once():
    """the overrides of one pattern do not concern the next one"""
    kind = choose(STRING, FUNCTIONAL, CHAIN)
    r = Rebulk(default_rules=False).defaults(tags=[TX])
    add(r, kind, tags=[TY], overrides=["tags"])
    add(r, kind, tags=[TZ])
    ms = r.matches(TEXT)
    check(ms[0].tags == [TY], "overrides", kind)
    check(ms[1].tags == [TX, TZ], "overrides", (kind, "the next pattern"))


def case_clear():
    """clear discards what was set before at that level, and only that"""
    where, kind = place()
    r = Rebulk(default_rules=False)
    early = choose(True, False)
    b = r if early else opened(r, where)
    b.defaults(tags=[TX], name=NA)
    kind_defaults(b, kind, tags=[TY], value=VA)
    which = choose("general", "kind", "both", "other kind")
    if not choose(True, False):
        again = {"tags": [TZ]}
    else:
        again = {}
    if which in ("general", "both"):
        b.defaults(clear=True, **again)
    if which in ("kind", "both"):
        kind_defaults(b, kind, clear=True, **again)
    if which == "other kind":
        other_kinds_defaults(b, kind, clear=True)
    if early:
        b = opened(r, where)
    add(b, kind)
    m = the_match(r, where, kind)
    if m is None:
        check(kind == REGEX, "clear", "no match")
        return
    cg, ck = which in ("general", "both"), which in ("kind", "both")
    want = (again.get("tags", []) if cg else [TX]) + (again.get("tags", []) if ck else [TY])
    check(m.tags == want, "clear", ("tags", where, kind, which))
    check(m.name is (None if cg else NA), "clear", ("name", where, kind, which))
    check(m.value == (m.raw if ck else VA), "clear", ("value", where, kind, which))


def case_again():
    """a later call gives the value, and leaves the other options alone"""
    where, kind = place()
    r = Rebulk(default_rules=False)
    early = choose(True, False)
    b = r if early else opened(r, where)
    level = choose("general", "kind")
    for options in choose(({"name": NA, "value": VA}, {"name": NB}), ({"name": NA}, {"name": NB, "value": VA}),
                          ({"value": VA}, {"name": NB}), ({"name": NA, "value": VB}, {"value": VA}, {"name": NB})):
        if level == "general":
            b.defaults(**options)
        else:
            kind_defaults(b, kind, **options)
    if early:
        b = opened(r, where)
    add(b, kind)
    m = the_match(r, where, kind)
    if m is not None:
        check(m.name is NB and m.value == VA, "precedence", ("repeated defaults", where, kind, level))


# ---------------------------------------------------------------- chains inherit
def case_chain_inherits():
    """a chain builder starts with every kind of defaults and the declared keys, and may change them"""
    r = Rebulk(default_rules=False)
    r.declare_keys(Key("one", tuple, fg))
    r.string_defaults(tags=["string"]).regex_defaults(tags=["regex"]).functional_defaults(tags=["functional"])
    r.chain_defaults(tags=["chain"])
    r.defaults(tags=["general"])
    how = choose(PART, NESTED, AFTER_PART)
    c = opened(r, how)
    if choose(True, False):
        c.functional_defaults(name="one")
        named = {}
    else:
        named = {"name": "one"}
    kind = choose(STRING, REGEX, FUNCTIONAL, CHAIN)
    if kind in (STRING, REGEX, CHAIN):
        named = {"name": "one"}
    add(c, kind, **named)
    m = the_match(r, how, kind)
    if m is not None:
        label = ["string", "regex", "functional", "chain"][kind]
        check(m.tags == ["general", label], "chain-inherits", (how, label))
        check(m.value == ("general", m.raw), "chain-inherits", (how, label, "declared keys"))


def case_after_close():
    """what a chain builder sets does not come back"""
    kind = choose(STRING, REGEX, FUNCTIONAL, CHAIN)
    r = Rebulk(default_rules=False).defaults(tags=[TX])
    c = r.chain()
    c.defaults(tags=[TY], name=NB)
    kind_defaults(c, kind, value=VA)
    part = c.functional(lambda text: None)
    back = choose(c, part).close()
    check(back is r, "chain-inherits", "close")
    add(back, kind)
    m = the_match(r, DIRECT, kind)
    if m is not None:
        check(m.tags == [TX] and m.name is None and m.value == m.raw, "chain-inherits", "after close")


def case_nested_inherits():
    """a nested chain starts with what was set on the chain it comes from, whichever way it is opened"""
    kind = choose(STRING, REGEX, FUNCTIONAL, CHAIN)
    r = Rebulk(default_rules=False).defaults(tags=[TX])
    c = r.chain(**NEUTRAL)
    c.defaults(tags=[TY], name=NB)
    kind_defaults(c, kind, tags=[TZ])
    c.declare_keys(Key(NB, tuple, fg))
    if choose(True, False):
        where = NESTED
        n = c.chain(overrides=["tags"], tags=[], **NEUTRAL)
    else:
        where = AFTER_PART
        n = c.functional(lambda text: (0, 1), **NEUTRAL).chain()
    add(n, kind)
    m = the_match(r, where, kind)
    if m is not None:
        check(m.tags == [TY, TZ], "chain-inherits", ("tags", where, kind))
        check(m.name is NB, "chain-inherits", ("name", where, kind))
        check(m.value == ("general", m.raw), "chain-inherits", ("declared keys", where, kind))
