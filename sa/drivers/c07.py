# C07: conflict resolution.
from rebulk import Rebulk, Rule
from rebulk.match import Match, Matches
from rebulk.processors import ConflictSolver, DEFAULT
from common import M, NA, NB, NC, TX, same_items, has, without

CONFIG = {"*": {"max_paths": 3000, "seconds": 200}}

S = unknown("text", "str")
VA, VB, VC, VD = distinct("str", "va", "vb", "vc", "vd")
o = unknown("offset", "int")
le(0, o)
le(o + 20, len(S))


def at(span, **options):
    def find(text):
        return {"start": o + span[0], "end": o + span[1], **options}

    return find


def overlap(a, b):
    return a.start < b.end and b.start < a.end


def longer(a, b):
    return len(b.initiator) < len(a.initiator)


def run(specs, nested=False):
    """specs: (span, name, options); the matches produced, and those left"""
    produced = []

    class Collect(Rule):
        priority = 4096

        def when(self, matches, context):
            produced.extend(list(matches))

    r = Rebulk().rules(Collect)
    for span, name, options in specs:
        if nested:
            r.rebulk(Rebulk(default_rules=False).functional(at(span), name=name, **options))
        else:
            r.functional(at(span), name=name, **options)
    left = list(r.matches(S))
    return [[m for m in produced if m.name == s[1]][0] for s in specs], left


PAIRS = [((0, 2), (1, 5)), ((0, 5), (1, 3)), ((0, 3), (2, 5)), ((0, 4), (0, 4)), ((0, 2), (2, 5)), ((3, 5), (0, 2)),
         ((0, 6), (5, 6)), ((2, 3), (0, 6)), ((0, 5), (0, 4)), ((1, 5), (0, 5))]


def case_default_pair():
    sa, sb = PAIRS[choose(len(PAIRS))]
    options = choose({}, {"conflict_solver": lambda m, other: DEFAULT})
    if choose(True, False):
        sa, sb = sb, sa
    (a, b), left = run([(sa, NA, options), (sb, NB, {})])
    gone_a = overlap(a, b) and longer(b, a)
    gone_b = overlap(a, b) and longer(a, b)
    check(has(left, a) == (not gone_a), "shorter-loses", ("first match", sa, sb))
    check(has(left, b) == (not gone_b), "shorter-loses", ("second match", sa, sb))


TRIPLES = [((0, 2), (1, 5), (4, 10)), ((0, 6), (1, 3), (5, 7)), ((0, 3), (2, 5), (4, 7)), ((0, 10), (1, 4), (3, 9)),
           ((0, 4), (2, 9), (8, 10)), ((0, 2), (2, 4), (1, 3)), ((0, 2), (2, 4), (1, 4)), ((0, 3), (3, 6), (0, 6))]


def case_default_triple():
    """a match goes exactly when some longer match overlaps it"""
    spans = list(TRIPLES[choose(len(TRIPLES))])
    order = choose([0, 1, 2], [2, 1, 0], [1, 2, 0])
    names = [NA, NB, NC]
    ms, left = run([(spans[i], names[i], {}) for i in order], nested=choose(True, False))
    for m in ms:
        lost = False
        for x in ms:
            if x is not m and overlap(x, m) and longer(x, m):
                lost = True
        check(has(left, m) == (not lost), "shorter-loses", ("expected lost", lost, "span", m.start, m.end))


def asked(tag, what):
    """a solver that records how it is called"""

    def solver(mine, other):
        event("asked", tag, mine, other)
        if what == 0:
            return mine
        if what == 1:
            return other
        if what == 2:
            return None
        if what == 3:
            return False
        return DEFAULT

    return solver


def expected(sa, sb, ka, kb):
    """the pair is decided twice: first for the shorter (earlier when equal), then for the other"""
    if sb[1] - sb[0] < sa[1] - sa[0]:
        visits = [("b", "a"), ("a", "b")]
    else:
        visits = [("a", "b"), ("b", "a")]
    kinds = {"a": ka, "b": kb}
    default = None
    if sa[1] - sa[0] < sb[1] - sb[0]:
        default = "a"
    elif sb[1] - sb[0] < sa[1] - sa[0]:
        default = "b"
    removed = []
    for match, other in visits:
        decision = default
        for who, against in ((other, match), (match, other)):
            k = kinds[who]
            if k is None or k == 4:
                continue
            decision = who if k == 0 else against if k == 1 else None
            break
        if decision and decision not in removed:
            keep = "b" if decision == "a" else "a"
            if keep not in removed:
                removed.append(decision)
    return removed


def case_solvers():
    sa, sb = choose(((0, 2), (1, 5)), ((0, 5), (1, 3)), ((0, 3), (2, 5)))
    ka, kb = choose(None, 0, 1, 2, 3, 4), choose(None, 0, 1, 2, 3, 4)
    oa = {} if ka is None else {"conflict_solver": asked("a", ka)}
    ob = {} if kb is None else {"conflict_solver": asked("b", kb)}
    (a, b), left = run([(sa, NA, oa), (sb, NB, ob)])
    calls = events("asked")
    for tag, mine, other in calls:
        check(mine is (a if tag == "a" else b), "solver-arguments", "its own match comes first")
        check(other is (b if tag == "a" else a), "solver-arguments", "the other match comes second")
    if calls:
        # the conflicting match of the shortest one is asked first
        first = "a" if sb[1] - sb[0] < sa[1] - sa[0] else "b"
        if (ka if first == "a" else kb) is not None:
            check(calls[0][0] == first, "asked-first", ("first asked", calls[0][0], "expected", first))
    if ka is not None or kb is not None:
        check(len(calls) > 0, "solver-decides", "a solver was not asked")
    gone = expected(sa, sb, ka, kb)
    check(has(left, a) == ("a" not in gone), "solver-decides", ("match a, solvers", ka, kb))
    check(has(left, b) == ("b" not in gone), "solver-decides", ("match b, solvers", ka, kb))


def case_not_in_favour_of_removed():
    """b loses against a by the solver of a; c only overlaps b and stays although the solver of b removes it"""
    order = choose([0, 1, 2], [2, 1, 0], [1, 2, 0])
    spans = [(0, 2), (1, 5), (4, 10)]
    def solver_b(mine, other):
        return DEFAULT if other.start == o else other

    opts = [{"conflict_solver": lambda mine, other: other}, {"conflict_solver": solver_b}, {}]
    if choose(True, False):
        # the solver of b always removes the other one, whoever is removed first wins
        opts = [{}, {"conflict_solver": lambda mine, other: other}, {}]
        spans = [(0, 2), (1, 5), (4, 10)]
        ms, left = run([(spans[i], [NA, NB, NC][i], opts[i]) for i in order])
        check([has(left, m) for m in sorted(ms)] == [False, True, False], "solver-decides", "b removes both")
        return
    ms, left = run([(spans[i], [NA, NB, NC][i], opts[i]) for i in order])
    a, b, c = sorted(ms)
    check(has(left, a), "solver-decides", "a stays")
    check(not has(left, b), "solver-decides", "b is removed by the solver of a")
    check(has(left, c), "not-in-favour-of-removed", "c may not be removed in favour of the removed b")


def case_removed_match_does_not_win():
    """a chain of solvers in which a removed match would win again later"""
    # visited by length: a (2), b (3), c (4); a removes b; b would remove c; c would remove a
    spans = [(2, 4), (1, 4), (2, 6)]
    loop = choose(0, 1)

    def win(winner_over):
        def solver(mine, other):
            if other.name == winner_over:
                return other
            return DEFAULT if loop else None

        return solver

    opts = [{"conflict_solver": win(NB)}, {"conflict_solver": win(NC)}, {"conflict_solver": win(NA)}]
    ms, left = run([(spans[i], [NA, NB, NC][i], opts[i]) for i in range(3)])
    # decided by length: (a, b), (a, c), (b, a), (b, c), (c, a), (c, b), the second of each pair first
    winner = NC if loop else NB
    check([m.name for m in left] == [winner], "not-in-favour-of-removed", ("left", [m.name for m in left]))


def direct(spans, parents=None, solvers=None):
    ms = [M(o + s[0], o + s[1], name=n, value=n, input_string=S) for s, n in zip(spans, [NA, NB, NC])]
    for i, p in (parents or {}).items():
        ms[i].parent = Match(o + p[0], o + p[1], value=VD, input_string=S)
    return ms


def case_initiator():
    """lengths are those of the initiators"""
    child, parent, other = choose(((2, 4), (0, 8), (3, 6)), ((2, 4), (2, 4), (3, 6)), ((2, 6), (0, 8), (5, 7)),
                                  ((2, 4), (1, 5), (3, 7)), ((0, 4), (0, 9), (2, 10)))
    deep = choose(True, False)
    k, x = direct([child, other], {0: parent})
    if deep:
        top = Match(o + parent[0], o + parent[1] + 3, value=VC, input_string=S)
        k.parent.parent = top
        parent = (parent[0], parent[1] + 3)
    ms = Matches([k, x] if choose(True, False) else [x, k], input_string=S)
    removed = list(ConflictSolver().when(ms, None))
    lk, lx = parent[1] - parent[0], other[1] - other[0]
    check(has(removed, k) == (lk < lx), "initiator-length", "the child")
    check(has(removed, x) == (lx < lk), "initiator-length", "the other match")
    check(len(removed) == (0 if lk == lx else 1), "initiator-length", "one of the two at most")


def case_private():
    """private matches take no part: they neither remove nor are removed, and their solvers are not asked"""
    sa, sb = choose(((0, 2), (1, 5)), ((0, 5), (1, 3)), ((0, 3), (2, 5)), ((0, 4), (0, 4)))
    kind = choose(0, 1, 4, None)
    a, b, c = direct([sa, sb, (4, 9)])
    which = choose("a", "b", "both")
    a.private, b.private = which != "b", which != "a"
    for tag, m in (("a", a), ("b", b)):
        if kind is not None and choose(True, False):
            m.conflict_solver = asked(tag, kind)
    items = [a, b, c]
    order = choose([0, 1, 2], [2, 1, 0])
    removed = list(ConflictSolver().when(Matches([items[i] for i in order], input_string=S), None))
    check(not has(removed, a) or not a.private, "private", "a private match is removed")
    check(not has(removed, b) or not b.private, "private", "a private match is removed")
    public = [m for m in items if not m.private]
    for m in public:
        if len([x for x in public if x is not m and overlap(x, m)]) == 0:
            check(not has(removed, m), "private", ("removed for a private match", which, kind))
    for tag, mine, other in events("asked"):
        check(not mine.private and not other.private, "private", "a solver was asked about a private match")


def case_condition_is_pure():
    """finding conflicts removes nothing by itself; the consequence removes exactly those"""
    a, b, c = direct([(0, 3), (2, 6), (8, 9)])
    ms = Matches([a, b, c], input_string=S)
    removed = list(ConflictSolver().when(ms, None))
    check(same_items(ms, [a, b, c]), "condition-only", "the condition removed matches")
    check(same_items(removed, [a]), "shorter-loses", "the shorter one")
    ConflictSolver().then(ms, removed, None)
    check(same_items(ms, [b, c]), "removes-exactly", "the consequence")


def case_regex_and_defaults():
    """a solver given as an option or a default of any kind of pattern reaches its matches"""
    how = choose(0, 1, 2, 3, 4)
    solver = asked("s", 0)
    produced = []

    class Collect(Rule):
        priority = 4096

        def when(self, matches, context):
            produced.extend(list(matches))

    r = Rebulk().rules(Collect)
    if how == 0:
        r.string("abcd", conflict_solver=solver, name=NA)
    elif how == 1:
        r.regex("abcd", conflict_solver=solver, name=NA)
    elif how == 2:
        r.defaults(conflict_solver=solver).functional(at((0, 4)), name=NA)
    elif how == 3:
        r.regex("(?P<g>abcd)", conflict_solver=solver, children=True)
    else:
        r.chain(conflict_solver=solver, name=NA).functional(lambda text: (0, 4)).close()
    r.matches(S)
    for m in produced:
        check(m.conflict_solver is solver, "solver-option", "the solver of the pattern is that of its matches")


def case_before_rules():
    """conflicts are resolved before ordinary rules run"""

    class See(Rule):
        priority = choose(0, 100, 2047, -100)

        def when(self, matches, context):
            event("seen", len(matches))

    Rebulk().rules(See).functional(at((0, 2))).functional(at((1, 5))).matches(S)
    check(events("seen") == [(1,)], "before-rules", "conflicts were not resolved yet")
