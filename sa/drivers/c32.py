# C32: previous/next find the nearest matches, chain_before/chain_after what separators connect to a position.
from rebulk.match import Match, Matches, Markers
from common import M, NA, NB, same_items, has

CONFIG = {"*": {"max_paths": 6000, "seconds": 200}}

N = 5 if thorough() else 4
S = unknown("text", "str")
le(len(S), N)
le(N, len(S))
SEPS = unknown("separators", "str")


def span(first=0, last=N):
    s = first + choose(last - first)
    return s, s + 1 + choose(last - s)


def sequence(matches, text, kind=Matches):
    ms = kind(input_string=text)
    how = choose(0, 1) if thorough() else 1
    if how == 0:
        ms.extend(matches)
    else:
        gone = M(1, 2, value=9, marker=kind is Markers)
        ms.append(gone)
        ms.extend(matches[:-1])
        ms.starting(0)
        ms.ending(0)
        ms.at_index(0)
        ms.extend(matches[-1:])
        ms.remove(gone)
    return ms


def nearest_previous(matches, m):
    """those with the greatest end that is not behind the start"""
    ends = [x.end for x in matches if x.end <= m.start]
    return [x for x in matches if ends and x.end == max(ends)]


def nearest_next(matches, m):
    """those with the smallest start behind the start"""
    starts = [x.start for x in matches if x.start > m.start]
    return [x for x in matches if starts and x.start == min(starts)]


def neighbours(ms, matches, label):
    for m in matches:
        check(same_items(ms.previous(m), nearest_previous(matches, m)), "previous", (label, m.span))
        check(same_items(ms.next(m), nearest_next(matches, m)), "next", (label, m.span))


def case_three():
    """three matches of every relative position"""
    matches = [M(*span(), value=1), M(*span(0, 3), value=2), M(*span(1, 3), value=3)]
    neighbours(sequence(matches, choose(None, S) if thorough() else None), matches, "three")


def case_equal():
    """equal matches are all found"""
    s, e = span()
    a, b = span()
    matches = [M(s, e, value=1), M(a, b, value=2), M(s, e, value=1)]
    neighbours(sequence(matches, None), matches, "equal")


def case_foreign():
    """a match that is not in the sequence, far from it"""
    matches = [M(*span(), value=1), M(*span(), value=2)]
    ms = sequence(matches, S)
    for s, e in ((0, 1), (1, 3), (2, 3), (N, N + 1), (N + 2, N + 4)):
        m = M(s, e, value=3)
        check(same_items(ms.previous(m), nearest_previous(matches, m)), "previous", ("foreign", s))
        check(same_items(ms.next(m), nearest_next(matches, m)), "next", ("foreign", s))


def case_empty():
    """empty matches have an end and a start too"""
    i = choose(0, 1, 2, 3, 4)
    matches = [M(0, 2, value=1), M(i, i, value=2), M(*span(), value=3), M(3, 3, value=4)]
    neighbours(sequence(matches, None), matches, "empty")


def case_many():
    """more than one at the nearest place, and others further away"""
    spans = choose([(0, 2), (1, 2), (0, 1), (2, 3), (3, 4), (2, 4)], [(2, 3), (0, 1), (5, 6), (5, 7), (3, 5), (0, 2)],
                   [(6, 7), (4, 5), (2, 3), (0, 1), (0, 7)])
    matches = [M(s, e, value=i) for i, (s, e) in enumerate(spans)]
    neighbours(sequence(matches, None), matches, "many")


def case_markers():
    matches = [M(*span(), marker=True, value=1), M(*span(), marker=True, value=2)]
    neighbours(sequence(matches, S, Markers), matches, "markers")


def walk(matches, positions, accept):
    """matches met on the way, until a position that is in no accepted match and no separator"""
    out = []
    for i in positions:
        here = [m for m in matches if m.start <= i and i < m.end and accept(m)]
        if here:
            for m in here:
                if m not in out:
                    out.append(m)
        elif S[i] not in SEPS:
            break
    return out


def end_of(matches):
    return max([N] + [m.end for m in matches])


def chains(ms, matches, label, accept=None):
    every = accept or (lambda m: True)
    kw = {"predicate": accept} if accept else {}
    last = end_of(matches)
    for p in range(last + 2):
        check(same_items(ms.chain_before(p, SEPS, **kw), walk(matches, list(reversed(range(min(p, last)))), every)),
              "chain-before", (label, p))
        check(same_items(ms.chain_after(p, SEPS, **kw), walk(matches, list(range(p, last)), every)), "chain-after", (label, p))
    for m in matches:
        check(same_items(ms.chain_before(m, SEPS, **kw), walk(matches, list(reversed(range(m.start))), every)),
              "chain-before", (label, "match", m.span))
        check(same_items(ms.chain_after(m, SEPS, **kw), walk(matches, list(range(m.end, last)), every)),
              "chain-after", (label, "match", m.span))


def case_chain_one():
    m = M(*span(), input_string=S)
    chains(sequence([m], S), [m], "one")


def case_chain_two():
    matches = [M(*span(), value=1), M(*span(), value=2)] if thorough() else \
        [M(*span(0, 3), value=1), M(*span(1, 4), value=2)]
    chains(sequence(matches, S), matches, "two")


def case_chain_bounds():
    """only down to start, only up to end"""
    matches = [M(*span(0, 2), value=1), M(*span(1, 4), value=2)]
    ms = sequence(matches, S)
    for bound in range(N + 2):
        check(same_items(ms.chain_before(N, SEPS, bound), walk(matches, list(reversed(range(bound, N))), lambda m: True)),
              "chain-before", ("from", bound))
        check(same_items(ms.chain_after(0, SEPS, bound), walk(matches, list(range(min(bound, N))), lambda m: True)),
              "chain-after", ("to", bound))
        check(same_items(ms.chain_before(2, SEPS, start=bound), walk(matches, list(reversed(range(bound, 2))), lambda m: True)),
              "chain-before", ("from", bound, "to 2"))
        check(same_items(ms.chain_after(1, SEPS, end=bound), walk(matches, list(range(1, min(bound, N))), lambda m: True)),
              "chain-after", ("from 1 to", bound))


def case_chain_predicate():
    """refused matches do not connect"""
    matches = [M(*span(0, 2), value=1, name=NA), M(*span(1, 4), value=2, name=NB)]
    refused = choose(NA, NB)
    chains(sequence(matches, S), matches, "predicate", lambda m: "yes" if m.name != refused else "")


def case_chain_behind():
    """matches that end behind the text"""
    matches = [M(2, N + 2, value=1), M(*span(0, 2), value=2)]
    chains(sequence(matches, S), matches, "behind the text")


def case_chain_markers():
    matches = [M(*span(0, 2), marker=True, value=1), M(2, 3, marker=True, value=2)]
    chains(sequence(matches, S, Markers), matches, "markers")


def case_chain_many():
    """several in the same place, in an order of their own, in sequences and markers"""
    kind = choose(Matches, Markers)
    spans = choose([(1, 3), (0, 2), (2, 3)], [(2, 4), (0, 1), (2, 3), (1, 2)], [(0, 1), (3, 4), (2, 4)], [(1, 2), (1, 2), (0, 3), (1, 2)])
    marker = kind is Markers
    matches = [M(s, e, marker=marker, value=10 + i, name=NA) for i, (s, e) in enumerate(spans)]
    chains(sequence(matches, S, kind), matches, "many")
