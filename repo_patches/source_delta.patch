From cd29fa24003e8fb16bb04610a983c08dfafe0632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 1/4] fix: refresh location even if token index equals last
 location offset

Ctx.update_loc() compared a stream index with Loc.pos. For lexer streams
Loc.pos is an offset in the source text, so layout combinators used a stale
column, e.g. aligned() accepted an indented first token.
---
 src/reparsec/core/types.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/reparsec/core/types.py b/src/reparsec/core/types.py
index 9644324..f42c3a7 100644
--- a/src/reparsec/core/types.py
+++ b/src/reparsec/core/types.py
@@ -26,8 +26,6 @@ class Ctx(Generic[S_contra]):
         return self._get_loc(self.loc, stream, pos)
 
     def update_loc(self, stream: S_contra, pos: int) -> "Ctx[S_contra]":
-        if pos == self.loc.pos:
-            return self
         return Ctx(
             self.mark, self._get_loc(self.loc, stream, pos), self._get_loc
         )
-- 
2.43.0


From e4b9561ceaf1c776acc48f9715874e55549f0146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 2/4] fix: keep expected items in recover_with and
 recover_with_fn

Expected items were dropped from the result when the wrapped parser had no
repairs of its own, so errors were reported as 'unexpected input' when the
rest of the input could not be repaired or when recoveries were nested.
---
 src/reparsec/core/combinators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index 6b40856..cce3daa 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -484,7 +484,7 @@ def _recover_with(
             loc = ctx.get_loc(stream, pos)
             rep = make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
@@ -527,7 +527,7 @@ def _recover_with_fn(
                 r.expected
             )
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
-- 
2.43.0


From da0684b5ba87d25526c2beb560b4a09ad0b05506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 3/4] fix: raise LexError instead of looping on empty lexer
 match

---
 src/reparsec/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reparsec/lexer.py b/src/reparsec/lexer.py
index 0d2de7f..21daaa9 100644
--- a/src/reparsec/lexer.py
+++ b/src/reparsec/lexer.py
@@ -57,7 +57,7 @@ def iter_tokens(src: str, spec: Pattern[str]) -> Iterator[Token]:
     src_len = len(src)
     while pos < src_len:
         match = spec.match(src, pos=pos)
-        if match is None:
+        if match is None or match.end() == pos:
             raise LexError(loc)
 
         end = match.end()
-- 
2.43.0


From 7c6e6c6653ed2d9624cb84cbed1a584f718d74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 4/4] fix: many keeps what could have continued its last
 element

---
 src/reparsec/core/combinators.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index cce3daa..880350c 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -327,6 +327,7 @@ def _many_fast(parse_fns: ParseFns[S, A]) -> ParseFastFn[S, List[A]]:
     def many(stream: S, pos: int, ctx: Ctx[S]) -> SimpleResult[List[A], S]:
         consumed = False
         value: List[A] = []
+        expected: Iterable[str] = ()
         r = parse_fn(stream, pos, ctx)
         while type(r) is Ok:
             if not r.consumed:
@@ -335,10 +336,13 @@ def _many_fast(parse_fns: ParseFns[S, A]) -> ParseFastFn[S, List[A]]:
             value.append(r.value)
             pos = r.pos
             ctx = r.ctx
+            expected = r.expected
             r = parse_fn(stream, pos, ctx)
         if r.consumed:
             return r
-        return Ok(value, pos, ctx, r.expected, consumed)
+        return Ok(
+            value, pos, ctx, Append(expected, r.expected), consumed
+        )
 
     return many
 
@@ -351,6 +355,7 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             rem: Optional[int]) -> Result[List[A], S]:
         consumed = False
         value: List[A] = []
+        expected: Iterable[str] = ()
         r = parse_fn(stream, pos, ctx, ins, None)
         while type(r) is Ok:
             if not r.consumed:
@@ -359,6 +364,7 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             value.append(r.value)
             pos = r.pos
             ctx = r.ctx
+            expected = r.expected
             r = parse_fn(stream, pos, ctx, ins, None)
         if type(r) is Recovered:
             return continue_parse(
@@ -367,7 +373,9 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             )
         if r.consumed:
             return r
-        return Ok(value, pos, ctx, r.expected, consumed)
+        return Ok(
+            value, pos, ctx, Append(expected, r.expected), consumed
+        )
 
     return many
 
-- 
2.43.0

