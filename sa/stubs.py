"""Sources of library classes written in Python, analysed together with the package (never run)."""

SOURCE = '''
class Sized:
    pass

class Iterable:
    pass

class Container:
    pass

class Callable:
    pass

class Hashable:
    pass

class Iterator(Iterable):
    def __iter__(self):
        return self

class Generator(Iterator):
    pass

class Reversible(Iterable):
    pass

class Collection(Sized, Iterable, Container):
    pass

class KeysView:
    pass

class ValuesView:
    pass

class ItemsView:
    pass

class Sequence(Reversible, Collection):
    def __iter__(self):
        i = 0
        try:
            while True:
                v = self[i]
                yield v
                i += 1
        except IndexError:
            return

    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        for i in reversed(range(len(self))):
            yield self[i]

    def index(self, value, start=0, stop=None):
        if start is not None and start < 0:
            start = max(len(self) + start, 0)
        if stop is not None and stop < 0:
            stop += len(self)
        i = start
        while stop is None or i < stop:
            try:
                v = self[i]
            except IndexError:
                break
            if v is value or v == value:
                return i
            i += 1
        raise ValueError

    def count(self, value):
        return sum(1 for v in self if v is value or v == value)


class MutableSequence(Sequence):
    def append(self, value):
        self.insert(len(self), value)

    def clear(self):
        try:
            while True:
                self.pop()
        except IndexError:
            pass

    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]

    def extend(self, values):
        if values is self:
            values = list(values)
        for v in values:
            self.append(v)

    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v

    def remove(self, value):
        del self[self.index(value)]

    def __iadd__(self, values):
        self.extend(values)
        return self


class Set(Collection):
    def __le__(self, other):
        if len(self) > len(other):
            return False
        for elem in self:
            if elem not in other:
                return False
        return True

    def __eq__(self, other):
        if not hasattr(other, "__iter__"):
            return NotImplemented
        return len(self) == len(other) and self.__le__(other)

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def __and__(self, other):
        return self._from_iterable(value for value in other if value in self)

    def __or__(self, other):
        chain = [e for s in (self, other) for e in s]
        return self._from_iterable(chain)

    def __sub__(self, other):
        return self._from_iterable(value for value in self if value not in other)

    def isdisjoint(self, other):
        for value in other:
            if value in self:
                return False
        return True


class MutableSet(Set):
    def remove(self, value):
        if value not in self:
            raise KeyError(value)
        self.discard(value)

    def pop(self):
        it = iter(self)
        try:
            value = next(it)
        except StopIteration:
            raise KeyError from None
        self.discard(value)
        return value

    def clear(self):
        try:
            while True:
                self.pop()
        except KeyError:
            pass

    def __ior__(self, it):
        for value in it:
            self.add(value)
        return self

    def __isub__(self, it):
        for value in it:
            self.discard(value)
        return self


class Mapping(Collection):
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True


class MutableMapping(Mapping):
    pass


class _GeneratorContextManager:
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield") from None

    def __exit__(self, typ, value, tb):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        return __gen_throw__(self.gen, value)


class suppress:
    def __init__(self, *exceptions):
        self._exceptions = exceptions

    def __enter__(self):
        pass

    def __exit__(self, typ, value, tb):
        return typ is not None and issubclass(typ, self._exceptions)


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *exc):
        return False


def groupby(iterable, key=None):
    iterator = iter(iterable)
    keyfunc = (lambda x: x) if key is None else key
    items = list(iterator)
    i = 0
    while i < len(items):
        k = keyfunc(items[i])
        group = [items[i]]
        i += 1
        while i < len(items):
            k2 = keyfunc(items[i])
            if not (k2 == k):
                break
            group.append(items[i])
            i += 1
        yield k, iter(group)


def chain(*iterables):
    for it in iterables:
        for element in it:
            yield element


def chain_from_iterable(iterables):
    for it in iterables:
        for element in it:
            yield element


def takewhile(predicate, iterable):
    for x in iterable:
        if predicate(x):
            yield x
        else:
            break


def dropwhile(predicate, iterable):
    it = iter(iterable)
    for x in it:
        if not predicate(x):
            yield x
            break
    for x in it:
        yield x


def filterfalse(predicate, iterable):
    for x in iterable:
        if not (x if predicate is None else predicate(x)):
            yield x


def pairwise(iterable):
    it = iter(iterable)
    try:
        a = next(it)
    except StopIteration:
        return
    for b in it:
        yield a, b
        a = b


def islice(iterable, *args):
    s = slice(*args)
    start, stop, step = s.start or 0, s.stop, s.step or 1
    i = 0
    nexti = start
    for element in iterable:
        if stop is not None and i >= stop:
            return
        if i == nexti:
            yield element
            nexti += step
        i += 1


def count(start=0, step=1):
    n = start
    while True:
        yield n
        n += step


def repeat(obj, times=None):
    i = 0
    while times is None or i < times:
        yield obj
        i += 1


def zip_longest(*its, fillvalue=None):
    lists = [list(i) for i in its]
    n = max(len(l) for l in lists) if lists else 0
    for i in range(n):
        yield tuple(l[i] if i < len(l) else fillvalue for l in lists)


def starmap(function, iterable):
    for args in iterable:
        yield function(*args)


def product(*its):
    pools = [list(i) for i in its]
    result = [[]]
    for pool in pools:
        result = [x + [y] for x in result for y in pool]
    for prod in result:
        yield tuple(prod)


def combinations(iterable, r):
    pool = list(iterable)
    if r == 2:
        for i in range(len(pool)):
            for j in range(i + 1, len(pool)):
                yield pool[i], pool[j]
    else:
        raise NotImplementedError


def tee(iterable, n=2):
    items = list(iterable)
    return tuple(iter(list(items)) for _ in range(n))


def accumulate(iterable, func=None):
    it = iter(iterable)
    try:
        total = next(it)
    except StopIteration:
        return
    yield total
    for x in it:
        total = total + x if func is None else func(total, x)
        yield total


_no_initial = object()

def reduce(function, sequence, initial=_no_initial):
    it = iter(sequence)
    if initial is _no_initial:
        try:
            value = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value") from None
    else:
        value = initial
    for element in it:
        value = function(value, element)
    return value


class _Cached:
    def __init__(self, fn):
        self.fn = fn
        self.cache = {}

    def __call__(self, *args, **kwargs):
        key = (args, tuple(kwargs.items()))
        if key not in self.cache:
            self.cache[key] = self.fn(*args, **kwargs)
        return self.cache[key]


class attrgetter:
    def __init__(self, attr, *attrs):
        self.attrs = (attr,) + attrs

    def _one(self, obj, path):
        for name in path.split("."):
            obj = getattr(obj, name)
        return obj

    def __call__(self, obj):
        if len(self.attrs) == 1:
            return self._one(obj, self.attrs[0])
        return tuple(self._one(obj, a) for a in self.attrs)


class itemgetter:
    def __init__(self, item, *items):
        self.items = (item,) + items

    def __call__(self, obj):
        if len(self.items) == 1:
            return obj[self.items[0]]
        return tuple(obj[i] for i in self.items)


class methodcaller:
    def __init__(self, name, *args, **kwargs):
        self.name = name
        self.args = args
        self.kwargs = kwargs

    def __call__(self, obj):
        return getattr(obj, self.name)(*self.args, **self.kwargs)


class Counter(dict):
    def __init__(self, iterable=()):
        super().__init__()
        for x in iterable:
            self[x] = self.get(x, 0) + 1


class deque(list):
    def __init__(self, iterable=(), maxlen=None):
        super().__init__()
        self.extend(iterable)

    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)

    def extendleft(self, xs):
        for x in xs:
            self.insert(0, x)


def bisect_left(a, x, lo=0, hi=None, key=None):
    i = lo
    n = len(a) if hi is None else hi
    while i < n and (a[i] if key is None else key(a[i])) < x:
        i += 1
    return i


def bisect_right(a, x, lo=0, hi=None, key=None):
    i = lo
    n = len(a) if hi is None else hi
    while i < n and not (x < (a[i] if key is None else key(a[i]))):
        i += 1
    return i


def insort(a, x, lo=0, hi=None, key=None):
    a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)


class _Field:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class _FieldInfo:
    def __init__(self, name, init):
        self.name = name
        self.init = init


class ArgSpec:
    def __init__(self, args, varargs, varkw, defaults, kwonlyargs, kwonlydefaults, annotations):
        self.args = args
        self.varargs = varargs
        self.varkw = varkw
        self.defaults = defaults
        self.kwonlyargs = kwonlyargs
        self.kwonlydefaults = kwonlydefaults
        self.annotations = annotations


class RegexMatch:
    """One occurrence found by an unknown regular expression in an unknown text."""

    def __init__(self, re, string, start, end, spans):
        self.re = re
        self.string = string
        self._start = start
        self._end = end
        self._spans = spans
        self.pos = 0

    def span(self, group=0):
        if group == 0:
            return (self._start, self._end)
        group = self._group(group)
        s = self._spans[group - 1]
        return s[-1] if s else (-1, -1)

    def spans(self, group=0):
        if group == 0:
            return [(self._start, self._end)]
        return list(self._spans[self._group(group) - 1])

    def _group(self, group):
        if isinstance(group, str):
            return self.re.groupindex[group]
        if group > self.re.groups:
            raise IndexError("no such group")
        return group

    def start(self, group=0):
        return self.span(group)[0]

    def end(self, group=0):
        return self.span(group)[1]

    def group(self, group=0):
        s, e = self.span(group)
        if s == -1:
            return None
        return self.string[s:e]

    def groups(self, default=None):
        return tuple(self.group(i + 1) if self.span(i + 1)[0] != -1 else default for i in range(self.re.groups))

    def groupdict(self, default=None):
        return {n: (self.group(i) if self.span(i)[0] != -1 else default) for n, i in self.re.groupindex.items()}

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self.re.groups + 1))


class RegexPattern:
    """An unknown regular expression: only its groups are known."""

    def __init__(self, pattern, groups, groupindex, flags=0, repeated=False):
        self.pattern = pattern
        self.groups = groups
        self.groupindex = groupindex
        self.flags = flags
        self.repeated = repeated

    def __eq__(self, other):
        if isinstance(other, RegexPattern):
            return self is other or self.pattern == other.pattern and self.flags == other.flags
        return NotImplemented

    def __hash__(self):
        return hash((self.pattern, self.flags))

    def _spans(self, string, start, end):
        out = []
        for i in range(self.groups):
            n = __regex_group_count__(self.repeated)
            spans = []
            prev = start
            for j in range(n):
                s, e = __regex_span__(prev, end)
                spans.append((s, e))
                prev = e
            out.append(spans)
        return out

    def finditer(self, string, pos=0, endpos=None):
        memo = __regex_memo__(self.pattern, self.flags, string, pos)
        if memo is not None:
            if not memo[0]:
                memo[1].extend(list(self._search(string, pos)))
            for start, end, spans in memo[1]:
                __regex_event__(self, string, start, end, spans)
                yield RegexMatch(self, string, start, end, spans)
            __regex_end__(self, string)
            return
        for start, end, spans in self._search(string, pos):
            __regex_event__(self, string, start, end, spans)
            yield RegexMatch(self, string, start, end, spans)
        __regex_end__(self, string)

    def _search(self, string, at):
        n = __regex_max__()
        i = 0
        while i < n and __regex_found__():
            start, end = __regex_span__(at, len(string))
            yield (start, end, self._spans(string, start, end))
            at = end
            i += 1

    def findall(self, string):
        return [m.group() for m in self.finditer(string)]

    def search(self, string, pos=0, endpos=None):
        if not __regex_found__():
            __regex_end__(self, string)
            return None
        start, end = __regex_span__(pos, len(string))
        m = RegexMatch(self, string, start, end, self._spans(string, start, end))
        __regex_event__(self, string, start, end, m._spans)
        return m

    def match(self, string, pos=0, endpos=None):
        if not __regex_found__():
            return None
        start, end = __regex_span__(pos, len(string))
        __assume__(start == pos)
        m = RegexMatch(self, string, start, end, self._spans(string, start, end))
        __regex_event__(self, string, start, end, m._spans)
        return m
'''
