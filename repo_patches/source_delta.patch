From 0539eed44a16dada98c9d59db61d72ceed5a0708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 01/30] fix: give each match its own tags list

The list configured on the pattern was shared by all of its matches, so a rule
adding tags to one match changed the pattern and every later match.
---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 1558dfe..3511937 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1033,7 +1033,8 @@ class Match:
         self.end = end
         self.name = name
         self._value = value
-        self.tags: list[str] = ensure_list(tags)
+        # copy: tags are changed in place by rules, and the given list belongs to the pattern configuration.
+        self.tags: list[str] = list(ensure_list(tags))
         self.marker = marker
         self.parent = parent
         self.input_string = input_string
-- 
2.43.0


From 785e1687d8cef27c50513b87e494ebb42343c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 02/30] fix: do not append to list values of matches in to_dict

A list value was used as the accumulator of its name, so converting matches to
a dict changed the value of the match and of the pattern it comes from.
---
 rebulk/match.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 3511937..79c247f 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -811,7 +811,10 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                             continue
                     ret[match.name].append(value)
             else:
-                if enforce_list and not isinstance(value, list):
+                if isinstance(value, list):
+                    # copy: further values of the same name are appended to this list.
+                    ret[match.name] = list(value)
+                elif enforce_list:
                     ret[match.name] = [value]
                 else:
                     ret[match.name] = value
-- 
2.43.0


From c6d060b659672947ad33db0b81de6f32bede7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 03/30] fix: do not rename nor duplicate a match already
 appended

AppendMatch renamed a single match before looking for it, so a match already in
the sequence was no longer found there and was appended again. This aligns the
single match branch with the iterable one.
---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 484af10..643c644 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -170,9 +170,9 @@ class AppendMatch(Consequence):
                     matches.append(match)
                     ret.append(match)
             return ret
-        if self.match_name:
-            when_response.name = self.match_name
         if when_response not in matches:
+            if self.match_name:
+                when_response.name = self.match_name
             matches.append(when_response)
             return when_response
         return None
-- 
2.43.0


From 2f2304fe0608400f930adfce75e4b5beb0d677f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 04/30] fix: honour the log_level given to a rule

It was dropped, and the rule failed with AttributeError when executed.
---
 rebulk/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 643c644..2f3c388 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -77,7 +77,9 @@ class CustomRule(Condition, Consequence, metaclass=ABCMeta):
     def __init__(self, log_level: int | None = None) -> None:
         self.defined_at = debug.defined_at()
         self.log_level: int
-        if log_level is None and not hasattr(self, "log_level"):
+        if log_level is not None:
+            self.log_level = log_level
+        elif not hasattr(self, "log_level"):
             self.log_level = debug.LOG_LEVEL
 
     def enabled(self, context: dict[str, Any] | None) -> bool:
-- 
2.43.0


From 19d11015743d75063f85501a6b3167f56c4c723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 05/30] fix: load only classes from a rules module

The predicate returned the inspect.isclass function instead of calling it, so
functions of the module were called and registered as rules.
---
 rebulk/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 2f3c388..45fb255 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -287,7 +287,7 @@ class Rules(list[CustomRule]):
         """
 
         def predicate(member: Any) -> Any:
-            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass
+            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass(member)
 
         for _name, obj in inspect.getmembers(module, predicate):
             self.load_class(obj)
-- 
2.43.0


From df1986cff8dde79132d2210110fdaf72f2dff009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 06/30] fix: leave toposort input sets unmodified

Only the dict was copied: self dependencies were discarded from the given sets.
---
 rebulk/toposort.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rebulk/toposort.py b/rebulk/toposort.py
index ae68583..1d7c6ab 100644
--- a/rebulk/toposort.py
+++ b/rebulk/toposort.py
@@ -41,12 +41,8 @@ def toposort(data: dict[_T, set[_T]]) -> Iterator[set[_T]]:
     if len(data) == 0:
         return
 
-    # Copy the input so as to leave it unmodified.
-    data = data.copy()
-
-    # Ignore self dependencies.
-    for k, v in data.items():
-        v.discard(k)
+    # Copy the input so as to leave it unmodified, and ignore self dependencies.
+    data = {k: v - {k} for k, v in data.items()}
     # Find all items that don't depend on anything.
     extra_items_in_deps = reduce(set.union, data.values()) - set(data.keys())
     # Add empty dependences where needed.
-- 
2.43.0


From b321ea84df267d6f899406d29df2d227814f0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 07/30] fix: keep chain input in step with its offset after a
 failed chain

After a partial chain, offset went back to the end of the first match, but the
searched string did not, so the following matches got shifted positions.
---
 rebulk/chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 18be788..c21e4df 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -82,6 +82,7 @@ class Chain(Pattern):
                     valid_chain = False
                     if current_chain_matches:
                         offset = current_chain_matches[0].raw_end
+                        chain_input_string = input_string[offset:]
                     break
             if not chain_found:
                 break
-- 
2.43.0


From 2b2bb3c79b1769352e0377ff73871c4f0a85ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 08/30] fix: keep positions of ignore_case string matches in
 the input string

Lower casing can change the length of the string, which shifted indices.
---
 rebulk/utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index 935abdb..febfe9f 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -12,6 +12,16 @@ from typing import Any, TypeVar
 _T = TypeVar("_T")
 
 
+def _lower(string: str) -> str:
+    """
+    Lower case string, keeping characters whose lower case has another length, so that indices are unchanged.
+    """
+    lowered = string.lower()
+    if len(lowered) == len(string):
+        return lowered
+    return "".join(char.lower() if len(char.lower()) == 1 else char for char in string)
+
+
 def find_all(
     string: str,
     sub: str,
@@ -53,8 +63,8 @@ def find_all(
     :rtype: __generator[str]
     """
     if ignore_case:
-        sub = sub.lower()
-        string = string.lower()
+        sub = _lower(sub)
+        string = _lower(string)
     while True:
         start = string.find(sub, start, end)
         if start == -1:
-- 
2.43.0


From bb1e42e7a487ef644c8868a6cf1a7c9e70441767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 09/30] fix: terminate when searching an empty string

find_all yielded the same index forever.
---
 rebulk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index febfe9f..4cc4e95 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -70,7 +70,7 @@ def find_all(
         if start == -1:
             return
         yield start
-        start += len(sub)
+        start += len(sub) or 1
 
 
 def get_first_defined(
-- 
2.43.0


From 93518e94a7a8949a5f943c790ddb5e46edaa084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 10/30] fix: do not modify option dicts when merging defaults

Merging a dict option (formatter, validator, ...) with defaults wrote into the
dict given by the caller, or into the defaults of another kind of pattern.
---
 rebulk/loose.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 5330e34..12e55f5 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -179,13 +179,17 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
     :return:
     :rtype:
     """
-    if "clear" in defaults and defaults.pop("clear"):
+    if defaults.get("clear"):
         kwargs.clear()
     for key, value in defaults.items():
+        if key == "clear":
+            continue
         if key in kwargs:
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
+                # copy: this dict may belong to the caller, or to other defaults.
+                kwargs[key] = dict(kwargs[key])
                 set_defaults(value, kwargs[key])
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From dc38d4746c97d6fca2dea06d80db1adaf07cc150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 11/30] fix: do not apply abbreviations to the regex dict of
 the caller

The given dict was modified, so using it again applied them twice.
---
 rebulk/pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 58c352f..40e87ad 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -480,6 +480,7 @@ class RePattern(Pattern):
                 pattern = call(re.compile, pattern, **self._kwargs)
             elif isinstance(pattern, dict):
                 if self.abbreviations and "pattern" in pattern:
+                    pattern = dict(pattern)  # copy: never modify the dict of the caller.
                     for key, replacement in self.abbreviations:
                         pattern["pattern"] = pattern["pattern"].replace(key, replacement)
                 pattern = re.compile(**pattern)
-- 
2.43.0


From 1f666f56e553a333a7a0a0a60236e7757618932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 12/30] fix: leave the results of functional patterns
 unmodified

Keys were removed from the dict returned by the function. Options given as last
item of a tuple now ignore the same keys, instead of failing with TypeError.
---
 rebulk/pattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 40e87ad..38b84c3 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -565,12 +565,10 @@ class FunctionalPattern(Pattern):
                 args_iterable = ret
             for args in args_iterable:
                 if isinstance(args, dict):
-                    options = args
+                    options = dict(self._match_kwargs)
+                    options.update(args)
                     options.pop("input_string", None)
                     options.pop("pattern", None)
-                    if self._match_kwargs:
-                        options = self._match_kwargs.copy()
-                        options.update(args)
                     match = Match(pattern=self, input_string=input_string, **options)
                     if match:
                         yield match
@@ -579,6 +577,8 @@ class FunctionalPattern(Pattern):
                     if isinstance(args[-1], dict):
                         kwargs = dict(kwargs)
                         kwargs.update(args[-1])
+                        kwargs.pop("input_string", None)
+                        kwargs.pop("pattern", None)
                         args = args[:-1]
                     match = Match(*args, pattern=self, input_string=input_string, **kwargs)  # type: ignore[misc]
                     if match:
-- 
2.43.0


From bee6b3afcc0e4b1c6897affc32579d0ab46bbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 13/30] fix: support conflicting() for a match that is empty or
 not in the sequence

It raised ValueError.
---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 79c247f..177393d 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -691,7 +691,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 if at_match not in ret:
                     ret.append(at_match)
 
-        ret.remove(match)
+        if match in ret:
+            ret.remove(match)
 
         return filter_index(ret, predicate, index)
 
-- 
2.43.0


From d32ae61f43c09d1b0036b54d0660f29ca8e69d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 14/30] fix: keep lookups in step with the matches sequence

Replacing items (also with reverse()) left the old match in named(), starting()
and other lookups, inserting before the end gave them another order than the
sequence, max_end was not lowered when the last match was removed, and a match
refused by Matches or Markers was stored nevertheless.
---
 rebulk/match.py | 69 +++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 177393d..6f9ed81 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -164,9 +164,16 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
         return self.__index_dict
 
+    def _check_match(self, match: Match) -> None:
+        """
+        Check that a match can be stored in this sequence, before it is modified
+        :param match:
+        :type match: Match
+        """
+
     def _add_match(self, match: Match) -> None:
         """
-        Add a match
+        Add a match at the end of lookup structures
         :param match:
         :type match: Match
         """
@@ -184,26 +191,16 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 _BaseMatches._base_add(self._index_dict[index], match)
         self._max_end = max(self._max_end, match.end)
 
-    def _remove_match(self, match: Match) -> None:
+    def _reset_lookups(self) -> None:
         """
-        Remove a match
-        :param match:
-        :type match: Match
+        Forget lookup structures, they are rebuilt from the sequence when needed.
         """
-        if self.__name_dict is not None and match.name:
-            _BaseMatches._base_remove(self._name_dict[match.name], match)
-        if self.__tag_dict is not None:
-            for tag in match.tags:
-                _BaseMatches._base_remove(self._tag_dict[tag], match)
-        if self.__start_dict is not None:
-            _BaseMatches._base_remove(self._start_dict[match.start], match)
-        if self.__end_dict is not None:
-            _BaseMatches._base_remove(self._end_dict[match.end], match)
-        if self.__index_dict is not None:
-            for index in range(*match.span):
-                _BaseMatches._base_remove(self._index_dict[index], match)
-        if match.end >= self._max_end and not self._end_dict[match.end]:
-            self._max_end = max(self._end_dict.keys())
+        self.__name_dict = None
+        self.__tag_dict = None
+        self.__start_dict = None
+        self.__end_dict = None
+        self.__index_dict = None
+        self._max_end = max((match.end for match in self._delegate), default=0)
 
     @overload
     def previous(self, match: Match, predicate: int) -> Match | None: ...
@@ -960,29 +957,31 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __setitem__(self, index: slice, match: Iterable[Match]) -> None: ...
 
     def __setitem__(self, index: int | slice, match: Match | Iterable[Match]) -> None:
-        self._delegate[index] = match  # type: ignore[index,assignment]
         if isinstance(index, slice):
-            for match_item in match:  # type: ignore[union-attr]
-                self._add_match(match_item)
-            return
-        self._add_match(match)  # type: ignore[arg-type]
+            matches = list(match)  # type: ignore[arg-type]
+            for match_item in matches:
+                self._check_match(match_item)
+            self._delegate[index] = matches
+        else:
+            self._check_match(match)  # type: ignore[arg-type]
+            self._delegate[index] = match  # type: ignore[assignment]
+        self._reset_lookups()
 
     def __delitem__(self, index: int | slice) -> None:
-        match = self._delegate[index]
         del self._delegate[index]
-        if isinstance(match, list):
-            # if index is a slice, we has a match list
-            for match_item in match:
-                self._remove_match(match_item)
-        else:
-            self._remove_match(match)
+        self._reset_lookups()
 
     def __repr__(self) -> str:
         return self._delegate.__repr__()
 
     def insert(self, index: int, value: Match) -> None:
+        self._check_match(value)
+        last = index >= len(self._delegate)
         self._delegate.insert(index, value)
-        self._add_match(value)
+        if last:
+            self._add_match(value)
+        else:
+            self._reset_lookups()
 
 
 class Matches(_BaseMatches):
@@ -994,9 +993,8 @@ class Matches(_BaseMatches):
         self.markers = Markers(input_string=input_string)
         super().__init__(matches=matches, input_string=input_string)
 
-    def _add_match(self, match: Match) -> None:
+    def _check_match(self, match: Match) -> None:
         assert not match.marker, "A marker match should not be added to <Matches> object"
-        super()._add_match(match)
 
 
 class Markers(_BaseMatches):
@@ -1007,9 +1005,8 @@ class Markers(_BaseMatches):
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
         super().__init__(matches=None, input_string=input_string)
 
-    def _add_match(self, match: Match) -> None:
+    def _check_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-        super()._add_match(match)
 
 
 class Match:
-- 
2.43.0


From dc8b706dda428caeea584265177936ec02b8f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 15/30] fix: do not change a matches sequence when querying it

Looking for an unknown name, tag or position added it to names and tags, and
at_index returned the internal list.
---
 rebulk/match.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 6f9ed81..3282557 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -305,7 +305,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             index = extras[1]
         collection: list[Match] = []
         for name in dict.fromkeys(name_list):
-            collection.extend(self._name_dict[name])
+            collection.extend(self._name_dict.get(name, []))
         return filter_index(collection, predicate, index)
 
     @overload
@@ -328,7 +328,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._tag_dict[tag]), predicate, index)
+        return filter_index(_BaseMatches._base(self._tag_dict.get(tag, [])), predicate, index)
 
     @overload
     def starting(self, start: int, predicate: int) -> Match | None: ...
@@ -352,7 +352,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._start_dict[start]), predicate, index)
+        return filter_index(_BaseMatches._base(self._start_dict.get(start, [])), predicate, index)
 
     @overload
     def ending(self, end: int, predicate: int) -> Match | None: ...
@@ -372,7 +372,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._end_dict[end]), predicate, index)
+        return filter_index(_BaseMatches._base(self._end_dict.get(end, [])), predicate, index)
 
     @overload
     def range(self, start: int, end: int | None, predicate: int) -> Match | None: ...
@@ -730,8 +730,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given (start, end) tuple.
         """
-        starting = self._index_dict[span[0]]
-        ending = self._index_dict[span[1] - 1]
+        starting = self._index_dict.get(span[0], [])
+        ending = self._index_dict.get(span[1] - 1, [])
 
         merged = list(starting)
         for marker in ending:
@@ -754,7 +754,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given position
         """
-        return filter_index(self._index_dict[pos], predicate, index)
+        return filter_index(_BaseMatches._base(self._index_dict.get(pos, [])), predicate, index)
 
     @property
     def names(self) -> KeysView[str | None]:
@@ -832,7 +832,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
     def __getitem__(self, index: int | slice | Key[Any]) -> Any:
         if isinstance(index, Key):
-            named = self._name_dict[index.name]
+            named = self._name_dict.get(index.name)
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
@@ -843,7 +843,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieve all values for the given typed key, in match order.
         """
-        return [match.value for match in self._name_dict[key.name]]
+        return [match.value for match in self._name_dict.get(key.name, [])]
 
     def to(self, model: type[M]) -> M:
         """
@@ -904,7 +904,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     f"{model.__name__} field {name!r} typed {hint!r} contradicts "
                     f"declared key {name!r} of value_type {declared.value_type!r}"
                 )
-            values = [match.value for match in self._name_dict[name]]
+            values = [match.value for match in self._name_dict.get(name, [])]
             if get_origin(hint) is list:
                 kwargs[name] = values
             elif values:
-- 
2.43.0


From 56e7f29003370540f29b4dc9fa6889ae60b1989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 16/30] fix: support slices of markers

They were built as Matches, which refuses markers, and Markers ignored the
matches given to its constructor.
---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 3282557..2033962 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -836,7 +836,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return Matches(ret)
+            return self.__class__(ret)
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
@@ -1003,7 +1003,7 @@ class Markers(_BaseMatches):
     """
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
-        super().__init__(matches=None, input_string=input_string)
+        super().__init__(matches=matches, input_string=input_string)
 
     def _check_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-- 
2.43.0


From 1f9b52f56f762262123eab8962e01a60f026b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 17/30] fix: support groups in regex markers

The children of a marker are markers, which Matches refused.
---
 rebulk/chain.py |  2 +-
 rebulk/match.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index c21e4df..30786dc 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -144,7 +144,7 @@ class Chain(Pattern):
             )
 
             if last_pattern_groups:
-                original_children = Matches(match.children)
+                original_children = match.children[:]
                 original_end = match.end
 
                 for index in reversed(list(last_pattern_groups)):
diff --git a/rebulk/match.py b/rebulk/match.py
index 2033962..86ac68f 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1009,6 +1009,15 @@ class Markers(_BaseMatches):
         assert match.marker, "A non-marker match should not be added to <Markers> object"
 
 
+class _Children(Matches):
+    """
+    Children of a match, those of a marker can be markers too.
+    """
+
+    def _check_match(self, match: Match) -> None:
+        pass
+
+
 class Match:
     """
     Object storing values related to a single match
@@ -1063,7 +1072,7 @@ class Match:
         Children matches.
         """
         if self._children is None:
-            self._children = Matches(None, self.input_string)
+            self._children = _Children(None, self.input_string)
         return self._children
 
     @children.setter
-- 
2.43.0


From 87c15a67bab9fd2303e71b972d2c7d04350ac859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 18/30] fix: RemoveMatch removes the given match itself rather
 than an equal one

A private match equal to a public one made PrivateRemover remove the public
match and leave the private one in the result.
---
 rebulk/rules.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 45fb255..60badb0 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -143,15 +143,27 @@ class RemoveMatch(Consequence):
             ret = []
             when_response = list(when_response)
             for match in when_response:
-                if match in matches:
-                    matches.remove(match)
+                if self._remove(matches, match):
                     ret.append(match)
             return ret
-        if when_response in matches:
-            matches.remove(when_response)
+        if self._remove(matches, when_response):
             return when_response
         return None
 
+    @staticmethod
+    def _remove(matches: Matches, match: Any) -> bool:
+        """
+        Remove the given match itself when it is there, else an equal one.
+        """
+        for index, item in enumerate(matches):
+            if item is match:
+                del matches[index]
+                return True
+        if match in matches:
+            matches.remove(match)
+            return True
+        return False
+
 
 class AppendMatch(Consequence):
     """
-- 
2.43.0


From 3464bf5e37695efdff631543559e11c2f5d145af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 19/30] fix: a rule dependency given as an instance is looked
 up among the rules of its priority

An instance that is not registered at that priority made execute_all_rules
raise ValueError, or ran a rule of another priority a second time.
---
 rebulk/rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 60badb0..03598ba 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -392,8 +392,9 @@ def toposort_rules(rules: list[CustomRule]) -> Iterator[set[CustomRule]]:
         dependencies: set[CustomRule] = set()
         if rule_dependencies:
             for dependency in rule_dependencies:
-                if inspect.isclass(dependency):
-                    dependency = class_dict.get(dependency)
+                if not inspect.isclass(dependency):
+                    dependency = dependency.__class__
+                dependency = class_dict.get(dependency)
                 if dependency:
                     dependencies.add(dependency)
         graph[rule] = dependencies
-- 
2.43.0


From c48f2748ab0c10171fe10526728036495abe17f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 20/30] fix: rules of one priority keep their registration
 order when a class is registered at several priorities

The position was that of the first equal rule, and rules are equal by class.
---
 rebulk/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 03598ba..2b23493 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -328,10 +328,12 @@ class Rules(list[CustomRule]):
         :rtype:
         """
         ret: list[tuple[CustomRule, Any]] = []
+        positions = {id(rule): position for position, rule in enumerate(self)}
         for priority, priority_rules in groupby(sorted(self), lambda rule: rule.priority):
             sorted_rules = toposort_rules(list(priority_rules))  # Group by dependency graph toposort
             for rules_group in sorted_rules:
-                sorted_group = sorted(rules_group, key=self.index)  # Sort rules group based on initial ordering.
+                # Sort rules group based on initial ordering.
+                sorted_group = sorted(rules_group, key=lambda rule: positions[id(rule)])
                 group_log_level: int | None = None
                 for rule in sorted_group:
                     if group_log_level is None or group_log_level < rule.log_level:
-- 
2.43.0


From 0cdc2f86edd84e46743226a36126abb818c20bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 21/30] fix: tagged() reports a match once when a tag is
 repeated in its tags

Default and explicit tags are concatenated, so a match may hold a tag twice.
---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 86ac68f..c7356e7 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -149,7 +149,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__tag_dict is None:
             self.__tag_dict = defaultdict(_BaseMatches._base)
             for match in self._delegate:
-                for tag in match.tags:
+                for tag in dict.fromkeys(match.tags):
                     _BaseMatches._base_add(self.__tag_dict[tag], match)
 
         return self.__tag_dict
@@ -180,7 +180,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__name_dict is not None and match.name:
             _BaseMatches._base_add(self._name_dict[match.name], (match))
         if self.__tag_dict is not None:
-            for tag in match.tags:
+            for tag in dict.fromkeys(match.tags):
                 _BaseMatches._base_add(self._tag_dict[tag], match)
         if self.__start_dict is not None:
             _BaseMatches._base_add(self._start_dict[match.start], match)
-- 
2.43.0


From 7f8588b13098bf94d77cf40df07ebb7e970a96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 22/30] fix: AppendTags does not repeat a tag and RemoveTags
 removes all its occurrences

---
 rebulk/rules.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 2b23493..c7d8a5a 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -229,9 +229,9 @@ class AppendTags(Consequence):
         if is_iterable(removed):
             removed = list(removed)
             for match in removed:
-                match.tags.extend(self.tags)
+                match.tags.extend(tag for tag in self.tags if tag not in match.tags)
         elif removed:
-            removed.tags.extend(self.tags)
+            removed.tags.extend(tag for tag in self.tags if tag not in removed.tags)
         if removed:
             self.append.then(matches, removed, context)
 
@@ -252,11 +252,11 @@ class RemoveTags(Consequence):
             removed = list(removed)
             for match in removed:
                 for tag in self.tags:
-                    if tag in match.tags:
+                    while tag in match.tags:
                         match.tags.remove(tag)
         elif removed:
             for tag in self.tags:
-                if tag in removed.tags:
+                while tag in removed.tags:
                     removed.tags.remove(tag)
         if removed:
             self.append.then(matches, removed, context)
-- 
2.43.0


From e77bff7efc41d480fe89093918fd422975610315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 23/30] fix: keep the raw bounds of matches of later chain
 parts relative to the input string

---
 rebulk/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 30786dc..6e38466 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -189,6 +189,10 @@ class Chain(Pattern):
                 chain_part_match.input_string = input_string
                 chain_part_match.end += offset
                 chain_part_match.start += offset
+                if chain_part_match._raw_start is not None:
+                    chain_part_match._raw_start += offset
+                if chain_part_match._raw_end is not None:
+                    chain_part_match._raw_end += offset
             if chain_part_match.children:
                 Chain._fix_matches_offset(chain_part_match.children, input_string, offset)
 
-- 
2.43.0


From 92709ba37df539c236bafcb7515c99fe31026335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 24/30] fix: chains always move forward when a processor
 emptied the match of a part

---
 rebulk/chain.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 6e38466..cac0b0b 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -59,6 +59,7 @@ class Chain(Pattern):
         chain_input_string = input_string
         offset = 0
         while offset < len(input_string):
+            chain_start = offset
             chain_found = False
             current_chain_matches: list[Match] = []
             valid_chain = True
@@ -89,6 +90,10 @@ class Chain(Pattern):
             if current_chain_matches and valid_chain:
                 match = self._build_chain_match(current_chain_matches, input_string)
                 chain_matches.append(match)
+            if offset <= chain_start:
+                # a processor can empty the match of a part: always move forward.
+                offset = chain_start + 1
+                chain_input_string = input_string[offset:]
 
         return chain_matches  # type: ignore[return-value]
 
-- 
2.43.0


From f80671e3758ed68402e492a2a6448ebd838e27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 25/30] fix: a match named clear in a dict option discarded the
 explicit entries

---
 rebulk/loose.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 12e55f5..63d1ad2 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -181,15 +181,29 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
     """
     if defaults.get("clear"):
         kwargs.clear()
+    _merge_defaults({key: value for key, value in defaults.items() if key != "clear"}, kwargs, override)
+
+
+def _merge_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: bool = False) -> None:
+    """
+    Merge defaults into kwargs. Nested dicts are keyed by match names, none of them is an instruction.
+
+    :param defaults:
+    :type defaults:
+    :param kwargs:
+    :type kwargs:
+    :param override:
+    :type override:
+    :return:
+    :rtype:
+    """
     for key, value in defaults.items():
-        if key == "clear":
-            continue
         if key in kwargs:
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
                 # copy: this dict may belong to the caller, or to other defaults.
                 kwargs[key] = dict(kwargs[key])
-                set_defaults(value, kwargs[key])
+                _merge_defaults(value, kwargs[key])
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From 1aa5daa0a89159addcdc58dc9491b636957a3b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 26/30] fix: a predicate raising StopIteration silently
 truncated query results

---
 rebulk/loose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 63d1ad2..93efe3c 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -157,7 +157,7 @@ def filter_index(collection: Any, predicate: Any = None, index: int | None = Non
         index = predicate
         predicate = None
     if predicate:
-        collection = collection.__class__(filter(predicate, collection))
+        collection = collection.__class__([item for item in collection if predicate(item)])
     if index is not None:
         try:
             collection = collection[index]
-- 
2.43.0


From ea2779ee20592ba5bbd87e20478f7e63ad9ae1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:35 +0000
Subject: [PATCH 27/30] fix: call bound methods and callable objects with the
 arguments they accept

---
 rebulk/loose.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 93efe3c..552c7a1 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -5,7 +5,7 @@ Various utilities functions
 
 from __future__ import annotations
 
-from inspect import getfullargspec, isclass
+from inspect import getfullargspec, isclass, ismethod
 from typing import TYPE_CHECKING, Any, cast
 
 from .utils import is_iterable
@@ -59,7 +59,9 @@ def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :rtype: tuple
     """
     argspec = getfullargspec(callable_)
-    return argspec_args(argspec, False, *args, **kwargs)
+    # the specification of a bound method, or of an object with a __call__ method, includes its first argument.
+    bound = ismethod(callable_) or ismethod(callable_.__call__)
+    return argspec_args(argspec, bound, *args, **kwargs)
 
 
 def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
@@ -85,7 +87,7 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
 
     :param argspec: argspec to use
     :type argspec: argspec
-    :param constructor: is it a constructor ?
+    :param constructor: is it a constructor (or a bound method) ? The first argument is then given by the call itself.
     :type constructor: bool
     :param args:
     :type args:
-- 
2.43.0


From e346c798c3bdb86fce5dbf29cb2a3515d42c2f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:35 +0000
Subject: [PATCH 28/30] fix: give keyword-only parameters the options of their
 name

---
 rebulk/loose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 552c7a1..015f3c3 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -96,7 +96,8 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in argspec.args}
+    names = (*argspec.args, *argspec.kwonlyargs)
+    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in names}
     call_args = args if argspec.varargs else args[: len(argspec.args) - (1 if constructor else 0)]
     return call_args, call_kwarg
 
-- 
2.43.0


From 1f48983327045739ad8587485a095d23db015972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 29/30] fix: holes outside of the range, of no or negative
 length

A hole opened before the start of the range, because the search begins at
the match before it, can also be closed before or at the start: holes(1, 1)
returned an empty match, and holes(start, seps=...) one that ends before it
starts, whose len() raises.
---
 rebulk/match.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index c7356e7..8fee7c9 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -655,6 +655,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if ret and hole:
             # go the the next starting element ...
             ret[-1].end = min(self._hole_end(rindex, ignore), end)
+        # a hole opened before the range can be closed before it too: nothing is left of it.
+        ret = _BaseMatches._base(current_hole for current_hole in ret if current_hole.start < current_hole.end)
         return filter_index(ret, predicate, index)
 
     @overload
-- 
2.43.0


From 560dbfb25baa4ca23dc5365725c45058b53dac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:07 +0000
Subject: [PATCH 30/30] fix: Matches.to() gave the constructor of a dataclass
 fields it does not take (init=False)

---
 rebulk/match.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 8fee7c9..4136d5f 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -887,7 +887,10 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return cast("M", [match.value for match in self])
         if dataclasses.is_dataclass(model):
             hints = get_type_hints(model)
-            field_names: Iterable[str] = [data_field.name for data_field in dataclasses.fields(model)]
+            # fields that are not given to the constructor are left to their default.
+            field_names: Iterable[str] = [
+                data_field.name for data_field in dataclasses.fields(model) if data_field.init
+            ]
         elif is_typeddict(model):
             hints = get_type_hints(model)
             field_names = hints
-- 
2.43.0

