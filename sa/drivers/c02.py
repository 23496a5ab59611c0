# C02: declaring patterns never modifies the caller's objects or shared defaults.
from rebulk import Rebulk
from rebulk.key import Key
from common import NA, NB, NC, NO, TX, TY, TZ, same_items

CONFIG = {"*": {"max_paths": 1500, "seconds": 100}}

VA, VB, VC, VD = distinct("str", "va", "vb", "vc", "vd")


def f1(x):
    return VA


def f2(x):
    return VB


def yes(m):
    return True


def no(m):
    return False


def find(text):
    return None


KINDS = 8


def build(r, kind, *patterns, **options):
    """one declaration of the given kind; the pattern object it created"""
    if kind == 0:
        r.string(*(patterns or ("ab",)), **options)
    elif kind == 1:
        r.regex(*(patterns or ("(?P<g>a)b",)), **options)
    elif kind == 2:
        r.functional(*(patterns or (find,)), **options)
    elif kind == 3:
        options.pop("key", None)
        r.chain(**options).close()
    elif kind in (4, 5, 6):
        c = r.chain()
        if kind == 4:
            c.string("x").string("ab", **options).close()
        elif kind == 5:
            c.regex("(?P<g>a)b", **options).close()
        else:
            c.functional(find).functional(find, **options).close()
        return r._patterns[-1].parts[-1].pattern
    else:
        options.pop("key", None)
        c = r.chain()
        c.string("x")
        c.chain(**options).close()
        return r._patterns[-1].parts[-1].pattern
    return r._patterns[-1]


def observe(p):
    """what a pattern was configured with"""
    return [p.name, list(p.tags), dict(p.formatters), dict(p.values), dict(p.validators), list(p.private_names),
            list(p.ignore_names), dict(p.properties), p.children, p.every, p.private, p.marker, p.format_all,
            p.validate_all, p.private_parent, p.private_children]


def option(i):
    """one list or dict option at a time, and values later calls merge with it"""
    if i == 0:
        return {"tags": [TX]}, {"tags": [TY]}
    if i == 1:
        return {"formatter": {NA: f1}}, {"formatter": {NB: f2}}
    if i == 2:
        return {"value": {NA: VA}}, {"value": {NA: VB, NB: VC}}
    if i == 3:
        return {"validator": {NA: yes}}, {"validator": {None: no, NB: yes}}
    if i == 4:
        return {"private_names": [NA]}, {"private_names": [NB, NC]}
    if i == 5:
        return {"ignore_names": [NA]}, {"ignore_names": [NB]}
    return {"properties": {NA: [VA]}}, {"properties": {NA: [VB], NB: [VC]}}


def set_kind_defaults(r, kind, options):
    if kind in (0, 4):
        r.string_defaults(**options)
    elif kind in (1, 5):
        r.regex_defaults(**options)
    elif kind in (2, 6):
        r.functional_defaults(**options)
    else:
        r.chain_defaults(**options)


def untouched(snap, label):
    diff = changed(snap)
    check(diff is None, "caller-objects", (label, "modified", diff))


def case_direct():
    """objects given directly"""
    kind = choose(KINDS)
    given, more = option(choose(7))
    s = snapshot(given)
    r = Rebulk()
    with_keys = choose(0, 1, 2, 3)
    if with_keys == 1:
        r.declare_keys(Key(NA, str, formatter=f1), Key(NC, str))
    if with_keys == 2:
        keys = [Key(NC, str, formatter=f1), Key(NA, int)]
        sk = snapshot(keys)
        build(r, kind, key=keys, **given)
        untouched(sk, "sequence of keys")
    elif with_keys == 3:
        build(r, kind, key=Key(NC, str), **given)
    else:
        build(r, kind, **given)
    untouched(s, "options")
    build(r, kind, **more)
    build(r, kind, **given)
    untouched(s, "options of an earlier call")


def case_patterns():
    """patterns given as dict, tuple or list"""
    how = choose(0, 1, 2)
    p = [{"pattern": "a-b", "flags": 0}, ["a-b", 0], "a-b"][how]
    abbreviations = choose([["-", "x"]], [("-", "x"), ("a", "b")])
    given = [p, abbreviations]
    s = snapshot(given)
    r = Rebulk()
    if choose(True, False):
        r.regex_defaults(abbreviations=abbreviations)
        build(r, choose(1, 5), p)
    else:
        build(r, choose(1, 5), p, abbreviations=abbreviations)
    build(r, 1, p, abbreviations=[["z", "y"]])
    untouched(s, "a pattern or its abbreviations")


def case_stored_defaults():
    """objects stored as defaults, then merged with explicit ones, with declared keys and further defaults"""
    kind = choose(KINDS)
    i = choose(7)
    given, explicit = option(i)
    level = choose(0, 1, 2)
    s = snapshot(given)
    se = snapshot(explicit)
    r = Rebulk()
    lower = None
    if level == 0:
        r.defaults(**given)
    elif level == 1:
        set_kind_defaults(r, kind, given)
    else:
        lower = option(i)[1]
        sl = snapshot(lower)
        r.defaults(**lower)
        set_kind_defaults(r, kind, given)
    if choose(True, False):
        r.declare_keys(Key(NA, str, formatter=f1), Key(NC, str))
    plain = observe(build(r, kind))
    build(r, kind, **explicit)
    untouched(s, "stored defaults")
    untouched(se, "explicit options")
    if lower is not None:
        untouched(sl, "stored general defaults")
    check(observe(build(r, kind)) == plain, "defaults-stable", ("defaults after building a pattern", i))


def case_overridden_defaults():
    """defaults given again"""
    i = choose(7)
    given, later = option(i)
    kind = choose(KINDS)
    general = choose(True, False)
    s, sl = snapshot(given), snapshot(later)
    r = Rebulk()
    if general:
        r.defaults(**given)
        build(r, kind)
        r.defaults(**later)
    else:
        set_kind_defaults(r, kind, given)
        build(r, kind)
        set_kind_defaults(r, kind, later)
    build(r, kind)
    untouched(s, "earlier defaults")
    untouched(sl, "later defaults")


def case_other_builder():
    """the same objects used as defaults of two builders"""
    given, more = option(choose(7))
    kind = choose(KINDS)
    r1, r2 = Rebulk().defaults(**given), Rebulk().defaults(**given)
    r1.declare_keys(Key(NA, str, formatter=f1), Key(NC, str))
    plain = observe(build(r2, kind))
    build(r1, kind, **more)
    r1.defaults(**more)
    check(observe(build(r2, kind)) == plain, "defaults-stable", "defaults of another builder")


def case_chain_isolation():
    """defaults and keys of a chain builder and of the builder it came from"""
    given, later = option(choose(7))
    kind = choose(0, 1, 2)
    general = choose(True, False)
    down = choose(True, False)
    r = Rebulk()
    r.defaults(**given)
    c = r.chain()
    if choose(True, False):
        outer, c = c, c.chain()
    else:
        outer = r
    base = observe(part(r, kind)) if down else observe(part(c, kind))
    src, dst = (c, outer) if down else (outer, c)
    base = observe(part(dst, kind))
    if general:
        src.defaults(**later)
    else:
        set_kind_defaults(src, kind, later)
    src.declare_keys(Key(NO, str, formatter=f2))
    part(src, kind)
    got = observe(part(dst, kind))
    check(got == base, "chain-isolation", ("defaults set on", "the chain builder" if down else "the outer builder"))


def part(b, kind):
    if isinstance(b, Rebulk):
        return build(b, kind)
    if kind == 0:
        return b.string("ab").pattern
    if kind == 1:
        return b.regex("(?P<g>a)b").pattern
    return b.functional(find).pattern


def case_part_declared():
    """objects given through a chain part"""
    given, more = option(choose(7))
    s = snapshot(given)
    kind = choose(0, 1, 2)
    p = Rebulk().declare_keys(Key(NA, str, formatter=f1)).chain().string("x")
    if kind == 0:
        p = p.string("ab", **given)
        p.string("ab", **more)
    elif kind == 1:
        p = p.regex("ab", **given)
        p.regex("ab", **more)
    else:
        p = p.functional(find, **given)
        p.functional(find, **more)
    p.repeater("+").hidden().chain().string("y", **given).close()
    untouched(s, "options of a chain part")


def case_overrides():
    """overrides and clear"""
    names = ["tags"]
    tags = [TX]
    formatter = {NA: f1}
    s = snapshot([names, tags, formatter])
    r = Rebulk().defaults(tags=[TY], formatter={NB: f2})
    kind = choose(KINDS)
    r.string_defaults(clear=choose(True, False), tags=[TZ])
    build(r, kind, overrides=names, tags=tags, formatter=formatter)
    untouched(s, "overrides")
    plain = observe(build(r, kind))
    build(r, kind, overrides=["tags"], tags=[TX, TZ])
    check(observe(build(r, kind)) == plain, "defaults-stable", "defaults after overrides")


def case_functions():
    """functions keep their attributes"""
    r = Rebulk()
    freeze([f1, f2, yes, no, find], "a function of the caller")
    r.defaults(formatter=f1, validator=yes, post_processor=f2).functional(find, formatter=f2).string("ab", validator=no)
    r.chain().functional(find, validator={NA: yes}).close()
    r.declare_keys(Key(NA, str, formatter=f1))
    freeze_modules("module state")
    r.regex("a(?P<b>c)")
