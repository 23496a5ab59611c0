"""Path facts: a zone (difference bound) domain for integers, equality classes for the other
unknown values and remembered truth values.  No solver: closure and lookup only."""
from __future__ import annotations

from .values import Infeasible, Sym

ZERO = "0"


class Facts:
    def __init__(self, choose, intern):
        self.choose = choose
        self.intern = intern
        self.ub = {}  # (x, y) -> c : x - y <= c
        self.atoms = {ZERO}
        self.memo = {}
        self.slices = []  # slices of unknown texts seen so far
        self.parent = {}
        self.const_of = {}
        self.dis = set()
        self.opaque = set()  # unknown values assumed different from every constant and from each other

    # ------------------------------------------------------------------ linear forms
    @staticmethod
    def lin(v):
        """(terms dict, const) of an int value or None"""
        if isinstance(v, bool):
            return {}, int(v)
        if isinstance(v, int):
            return {}, v
        if isinstance(v, Sym) and v.hint == "int":
            if v.op == "lin":
                return dict(v.args[0]), v.args[1]
            return {v: 1}, 0
        return None

    def mk(self, terms, const):
        terms = {t: c for t, c in terms.items() if c}
        if not terms:
            return const
        if const == 0 and len(terms) == 1:
            ((t, c),) = terms.items()
            if c == 1:
                return t
        key = tuple(sorted(terms.items(), key=lambda kv: kv[0].uid))
        return self.intern("lin", (key, const), "int")

    def add(self, a, b, sign=1):
        ta, ca = self.lin(a)
        tb, cb = self.lin(b)
        t = dict(ta)
        for k, c in tb.items():
            t[k] = t.get(k, 0) + sign * c
        return self.mk(t, ca + sign * cb)

    def scale(self, a, k):
        ta, ca = self.lin(a)
        return self.mk({t: c * k for t, c in ta.items()}, ca * k)

    # ------------------------------------------------------------------ zones
    def _atom(self, x):
        if x not in self.atoms:
            self.atoms.add(x)
            if x is not ZERO and x.op == "len":
                self._assert_le(ZERO, x, 0)

    def _get(self, x, y):
        if x is y:
            return 0
        return self.ub.get((x, y))

    def _assert_le(self, x, y, c):
        """x - y <= c"""
        if x is y:
            if c < 0:
                raise Infeasible("zone")
            return
        old = self.ub.get((x, y))
        if old is not None and old <= c:
            return
        back = self.ub.get((y, x))
        if back is not None and back + c < 0:
            raise Infeasible("zone")
        self.ub[(x, y)] = c
        for i in self.atoms:
            ix = self._get(i, x)
            if ix is None:
                continue
            for j in self.atoms:
                yj = self._get(y, j)
                if yj is None:
                    continue
                n = ix + c + yj
                if i is j:
                    if n < 0:
                        raise Infeasible("zone")
                    continue
                o = self.ub.get((i, j))
                if o is None or n < o:
                    self.ub[(i, j)] = n

    def _norm(self, a, b):
        """a - b as ('const', k) | ('zone', x, y, k) meaning x - y + k | ('cplx', key, k, sign)"""
        d = self.add(a, b, -1)
        t, k = self.lin(d)
        if not t:
            return ("const", k)
        items = sorted(t.items(), key=lambda kv: kv[0].uid)
        if len(items) == 1 and abs(items[0][1]) == 1:
            x, c = items[0]
            self._atom(x)
            return ("zone", x, ZERO, k) if c == 1 else ("zone", ZERO, x, k)
        if len(items) == 2 and sorted(c for _, c in items) == [-1, 1]:
            x = next(s for s, c in items if c == 1)
            y = next(s for s, c in items if c == -1)
            self._atom(x)
            self._atom(y)
            return ("zone", x, y, k)
        sign = 1
        if items[0][1] < 0:
            sign = -1
            items = [(s, -c) for s, c in items]
            k = -k
        return ("cplx", (tuple(items), k), sign)

    def _bounds(self, a, b):
        """(lo, hi) known bounds of a - b"""
        ta, ca = self.lin(self.add(a, b, -1))
        if not ta:
            return ca, ca
        items = list(ta.items())
        # greedy pairing of +1/-1 atoms for a bound estimate (sound, maybe imprecise)
        pos = [s for s, c in items for _ in range(c) if c > 0]
        neg = [s for s, c in items for _ in range(-c) if c < 0]
        for s in pos + neg:
            self._atom(s)

        def best(ps, ns):
            # upper bound of sum(ps) - sum(ns)
            if len(ps) > 4 or len(ns) > 4:
                return None
            n = max(len(ps), len(ns))
            ps = ps + [ZERO] * (n - len(ps))
            ns = ns + [ZERO] * (n - len(ns))
            if not ps:
                return 0
            import itertools

            res = None
            for perm in itertools.permutations(ns):
                tot = 0
                for p, q in zip(ps, perm):
                    u = self._get(p, q)
                    if u is None:
                        tot = None
                        break
                    tot += u
                if tot is not None and (res is None or tot < res):
                    res = tot
            return res

        hi = best(pos, neg)
        lo = best(neg, pos)
        return (None if lo is None else ca - lo), (None if hi is None else ca + hi)

    def known_lt(self, a, b):
        lo, hi = self._bounds(a, b)
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        return None

    def known_eq(self, a, b):
        lo, hi = self._bounds(a, b)
        if lo is not None and lo == hi:
            return lo == 0
        if (hi is not None and hi < 0) or (lo is not None and lo > 0):
            return False
        return None

    def _sign(self, a, b, why, need):
        """Decide the sign of a - b as far as `need` ('lt': <0 or >=0, 'eq': =0, <0, >0)."""
        n = self._norm(a, b)
        lo, hi = self._bounds(a, b)
        if hi is not None and hi < 0:
            return "<"
        if lo is not None and lo > 0:
            return ">"
        if lo is not None and lo == 0 and hi == 0:
            return "="
        if need == "lt" and lo is not None and lo >= 0:
            return ">="
        if n[0] == "zone":
            _, x, y, k = n
            if need == "lt":
                opts = ["<", ">="]
            else:
                opts = ["=", "<", ">"]
                if lo is not None and lo >= 0:
                    opts.remove("<")
                if hi is not None and hi <= 0:
                    opts.remove(">")
            c = opts[self.choose(len(opts), why)]
            if c == "<":
                self._assert_le(x, y, -k - 1)
            elif c == ">=":
                self._assert_le(y, x, k)
            elif c == ">":
                self._assert_le(y, x, k - 1)
            else:
                self._assert_le(x, y, -k)
                self._assert_le(y, x, k)
            return c
        _, key, sign = n
        m = self.memo.get(("sign", key))
        if m is None:
            opts = ["=", "<", ">"]
            c = opts[self.choose(3, why)]
            self.memo[("sign", key)] = c
            m = c
            terms, k = dict(key[0]), key[1]
            if c in ("<", "="):
                self._project(terms, k, -1 if c == "<" else 0)
            if c in (">", "="):
                self._project({s: -v for s, v in terms.items()}, -k, -1 if c == ">" else 0)
        if sign < 0:
            m = {"<": ">", ">": "<", "=": "="}[m]
        return m

    def lt(self, a, b, why=""):
        s = self._sign(a, b, why, "lt")
        return s == "<"

    def eq_int(self, a, b, why=""):
        return self._sign(a, b, why, "eq") == "="

    def assume_le(self, a, b, c=0):
        """assume a - b <= c without a branch"""
        n = self._norm(a, b)
        if n[0] == "const":
            if n[1] > c:
                raise Infeasible("assume")
        elif n[0] == "zone":
            _, x, y, k = n
            self._assert_le(x, y, c - k)
        else:
            self._project(*self.lin(self.add(a, b, -1)), c)

    def _low(self, terms):
        """a known lower bound of a sum of unknowns, or None"""
        if not terms:
            return 0
        return self._bounds(self.mk(terms, 0), 0)[0]

    def _project(self, terms, k, c):
        """what sum(terms) + k <= c says about two of the unknowns, from what is known about the others"""
        if len(terms) > 5 or any(abs(x) != 1 for x in terms.values()):
            return
        pos = [s for s, x in terms.items() if x > 0]
        neg = [s for s, x in terms.items() if x < 0]
        for x in pos + neg:
            self._atom(x)
        for x in pos + [ZERO]:
            for y in neg + [ZERO]:
                if x is y:
                    continue
                low = self._low({s: v for s, v in terms.items() if s is not x and s is not y})
                if low is not None:
                    self._assert_le(x, y, c - k - low)

    # ------------------------------------------------------------------ equalities
    def find(self, x):
        while x in self.parent:
            x = self.parent[x]
        return x

    def known_same(self, a, b):
        """True/False/None: are unknown (non int) a and b equal (a Sym, b Sym or constant)"""
        ra = self.find(a)
        if ra in self.opaque:
            if not isinstance(b, Sym):
                return False
            rb = self.find(b)
            if rb in self.opaque:
                return ra is rb
        ca = self.const_of.get(ra, _NO)
        if isinstance(b, Sym):
            rb = self.find(b)
            if ra is rb:
                return True
            cb = self.const_of.get(rb, _NO)
            if ca is not _NO and cb is not _NO:
                return ca == cb and type(ca) is type(cb)
            if (ra, rb) in self.dis or (rb, ra) in self.dis:
                return False
            if ca is not _NO and (rb, ("c", ca)) in self.dis:
                return False
            if cb is not _NO and (ra, ("c", cb)) in self.dis:
                return False
            return None
        if ca is not _NO:
            return ca == b
        if (ra, ("c", b)) in self.dis:
            return False
        return None

    def same(self, a, b, why=""):
        k = self.known_same(a, b)
        if k is not None:
            return k
        ra = self.find(a)
        c = self.choose(2, why)
        if c == 0:  # equal
            if isinstance(b, Sym):
                rb = self.find(b)
                self._union(ra, rb)
            else:
                self._bind(ra, b)
            return True
        if isinstance(b, Sym):
            self.dis.add((ra, self.find(b)))
        else:
            self.dis.add((ra, ("c", b)))
        return False

    def _redis(self, old, new):
        nd = set()
        for x, y in self.dis:
            x2 = new if x is old else x
            y2 = new if y is old else y
            if x2 is y2:
                raise Infeasible("equality")
            nd.add((x2, y2))
        self.dis = nd

    def _union(self, ra, rb):
        self.parent[ra] = rb
        if ra in self.const_of:
            self.const_of[rb] = self.const_of.pop(ra)
        self._redis(ra, rb)
        if rb in self.const_of:
            self._bind(rb, self.const_of[rb])
        ta, tb = self.memo.get(("truth", ra)), self.memo.get(("truth", rb))
        if ta is not None and tb is None:
            self.memo[("truth", rb)] = ta
        elif ta is not None and ta != tb:
            raise Infeasible("equality")

    def _bind(self, r, c):
        self.const_of[r] = c
        if (r, ("c", c)) in self.dis:
            raise Infeasible("equality")
        for o, oc in list(self.const_of.items()):
            if o is not r and oc == c and type(oc) is type(c) and ((o, r) in self.dis or (r, o) in self.dis):
                raise Infeasible("equality")
        t = self.memo.get(("truth", r))
        if t is not None and t != bool(c):
            raise Infeasible("equality")

    # ------------------------------------------------------------------ remembered atoms
    def decide(self, key, why=""):
        m = self.memo.get(key)
        if m is None:
            m = self.choose(2, why) == 0
            self.memo[key] = m
        return m

    def truth(self, v, why=""):
        r = self.find(v)
        if r in self.const_of:
            return bool(self.const_of[r])
        return self.decide(("truth", r), why)


class _No:
    pass


_NO = _No()
