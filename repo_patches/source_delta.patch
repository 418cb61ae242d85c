From 5c384d6229aed8fdbbcb66d2a403201fd19d598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 01/24] fix: token bits past the 32nd variant of a lexicon were
 computed in i32

---
 packages/macros/src/lexicon.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 8e27db6..f8e1f66 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -57,6 +57,12 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
         65..=128 => quote!(u128),
         _ => syn_error!(input, "derive_lexicon can have at most 128 variants"),
     };
+    // an unsuffixed `1` is an i32, which cannot hold the bits past the 32nd variant
+    let bit_one = match enum_data.variants.len() {
+        33..=64 => quote!(1u64),
+        65..=128 => quote!(1u128),
+        _ => quote!(1),
+    };
 
     let enum_ident = &input.ident;
     let enum_vis = &input.vis;
@@ -304,7 +310,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
 
                 fn id(&self) -> usize { *self as usize }
                 fn from_id_unchecked(id: usize) -> Self { unsafe { std::mem::transmute(id) } }
-                fn to_bit(&self) -> Self::Bit { (1 << self.id()) as Self::Bit }
+                fn to_bit(&self) -> Self::Bit { (#bit_one << self.id()) as Self::Bit }
                 fn first() -> Self { Self::#enum_first_variant }
 
                 fn next(&self) -> ::core::option::Option<Self> {
-- 
2.43.0


From 59cc2568bb757c254161bffedc6ce800e040efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 02/24] fix: clearing a terminal set kept the token types that
 match any literal

---
 packages/teleparse/src/syntax/lit_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/syntax/lit_set.rs b/packages/teleparse/src/syntax/lit_set.rs
index 299dbda..d1a482b 100644
--- a/packages/teleparse/src/syntax/lit_set.rs
+++ b/packages/teleparse/src/syntax/lit_set.rs
@@ -49,7 +49,7 @@ impl LitSet {
     pub fn clear(&mut self) {
         match self {
             Self::Match(set) => set.clear(),
-            Self::Any => {}
+            Self::Any => *self = Self::new(),
         }
     }
 
-- 
2.43.0


From d8f25791bc96fbfc14a6f755183cddee0cb1a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 03/24] fix: an alternative that can be empty was not chosen
 before a token that starts none of them

---
 packages/teleparse/src/syntax/jump.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/teleparse/src/syntax/jump.rs b/packages/teleparse/src/syntax/jump.rs
index 1005ace..417fbd9 100644
--- a/packages/teleparse/src/syntax/jump.rs
+++ b/packages/teleparse/src/syntax/jump.rs
@@ -121,7 +121,8 @@ impl<L: Lexicon> JumpTable<L> {
 
         match entry.1.get(token.src).copied() {
             Some(value) => Some(value),
-            None => entry.0,
+            // a token that starts no alternative selects the one that can be empty, if any
+            None => entry.0.or(self.epsilon),
         }
     }
 
-- 
2.43.0


From 0f1dfa6b3c86b5e48890533ffd4a3695f2c73738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 04/24] fix: FOLLOW sets missed what comes after a nullable
 sibling

---
 packages/teleparse/src/syntax/follow/builder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/teleparse/src/syntax/follow/builder.rs b/packages/teleparse/src/syntax/follow/builder.rs
index 3325f38..03e189b 100644
--- a/packages/teleparse/src/syntax/follow/builder.rs
+++ b/packages/teleparse/src/syntax/follow/builder.rs
@@ -65,10 +65,18 @@ impl<'a, L: Lexicon> FollowBuilder<'a, L> {
             ));
             set.insert(*yi);
         }
-        for yi in sequence.windows(2).rev() {
-            // for X -> Y1 Y2 ... Yi Yi+1 ... Yn
-            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yi+1) - { epsilon })
-            self.add(FollowRel::union_first_minus_epsilon(yi[0], yi[1]));
+        for (i, yi) in sequence.iter().enumerate() {
+            // for X -> Y1 Y2 ... Yi ... Yj ... Yn
+            // if Yi+1 ... Yj-1 can all produce epsilon,
+            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yj) - { epsilon })
+            let mut between = BTreeSet::new();
+            for yj in &sequence[i + 1..] {
+                self.add(FollowRel::if_epsilon_in_all_first_iter(
+                    between.iter(),
+                    FollowRel::union_first_minus_epsilon(*yi, *yj),
+                ));
+                between.insert(*yj);
+            }
         }
     }
 
-- 
2.43.0


From 7aed7f12794362974aa2a5f4f902ebce2e786d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:22 +0000
Subject: [PATCH 05/24] fix: a literal inserted at the end of input was placed
 after trailing ignored text

---
 packages/teleparse/src/parser/parser_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/parser/parser_impl.rs b/packages/teleparse/src/parser/parser_impl.rs
index d136e45..b9757e1 100644
--- a/packages/teleparse/src/parser/parser_impl.rs
+++ b/packages/teleparse/src/parser/parser_impl.rs
@@ -138,7 +138,7 @@ impl<'s, L: Lexicon> Parser<'s, L> {
             None => {
                 if follow.contains_eof() {
                     let expecting = FirstSet::one(ty, Some(match_lit));
-                    let token = Token::new(self.current_span(), ty);
+                    let token = Token::new(self.empty_span(), ty);
                     return SynResult::Recovered(token, vec![self.expecting(expecting)]);
                 }
                 return SynResult::Panic(vec![self.unexpected_eof()]);
-- 
2.43.0


From cfd6f73fcea9f72df60bf3bf5bab5cd4a920da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 06/24] fix: Split stopped at an empty punctuation

---
 packages/teleparse/src/tp_impl/split.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/teleparse/src/tp_impl/split.rs b/packages/teleparse/src/tp_impl/split.rs
index 90f543a..d625ac1 100644
--- a/packages/teleparse/src/tp_impl/split.rs
+++ b/packages/teleparse/src/tp_impl/split.rs
@@ -98,7 +98,10 @@ where
             if token.is_none() {
                 break;
             }
-            if !punct_first.contains(token) {
+            // P can be empty, in which case (P T) starts with T
+            if !punct_first.contains(token)
+                && !(punct_first.contains_epsilon() && elem_first.contains(token))
+            {
                 break;
             }
             // expecting P
-- 
2.43.0


From ab99f59fd88807eb6a5c14a27bf97bf5680b4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 07/24] fix: a FIRST/FOLLOW conflict in a sequence was reported
 against a symbol not involved in it

---
 packages/teleparse/src/syntax/metadata.rs | 28 +++++++++--------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index d81bf19..df9f9be 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -237,24 +237,19 @@ fn check_conflicts<L: Lexicon>(
             }
         }
         Some(ProductionEntry::Sequence(types)) => {
-            let mut iter = types.iter();
-            let mut cur = match iter.next() {
-                Some(inner) => inner,
-                None => return Ok(()),
-            };
-            let cur_first = first.get(cur);
-            let mut cur_check = if cur_first.contains_epsilon() {
-                cur_first.clone()
-            } else {
-                FirstSet::new()
-            };
-            for inner in iter {
+            // the consecutive symbols right before `inner` that can all be empty
+            let mut nullable: Vec<&TypeId> = Vec::new();
+            for inner in types.iter() {
                 let next_first = first.get(inner);
-                if cur_check.intersects_minus_epsilon(next_first) {
+                for cur in &nullable {
+                    let cur_first = first.get(cur);
+                    if !cur_first.intersects_minus_epsilon(next_first) {
+                        continue;
+                    }
                     let cur_name = names.get(cur).cloned().unwrap_or_default();
                     let next_name = names.get(inner).cloned().unwrap_or_default();
                     let self_name = names.get(&t).cloned().unwrap_or_default();
-                    let terminals = cur_check
+                    let terminals = cur_first
                         .intersection_repr_minus_epsilon(next_first)
                         .into_iter()
                         .join(", ");
@@ -263,10 +258,9 @@ fn check_conflicts<L: Lexicon>(
                     ));
                 }
                 if next_first.contains_epsilon() {
-                    cur_check.union_minus_epsilon(next_first);
+                    nullable.push(inner);
                 } else {
-                    cur_check.clear();
-                    cur = inner;
+                    nullable.clear();
                 }
             }
             check_self_first_follow_conflict(names, t, first, follow)?;
-- 
2.43.0


From bd189ded61a75542e3a4ac8ee77960e274985b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 08/24] fix: left recursion without a conflict was accepted

---
 packages/teleparse/src/syntax/metadata.rs | 112 +++++++---------------
 1 file changed, 34 insertions(+), 78 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index df9f9be..eea0d02 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -56,12 +56,6 @@ impl<L: Lexicon> MetadataBuilder<L> {
         let names = self.names;
         let prods = self.productions;
         let first = self.first_builder.build();
-        let mut seen = BTreeSet::new();
-        let mut set = BTreeSet::new();
-        let mut stack = Vec::new();
-        check_left_recursive(
-            &names, &prods, root, &mut seen, &mut set, &mut stack, &first,
-        )?;
         let mut follow_builder = FollowBuilder::new(&first);
         for (t, prod) in &prods {
             match prod {
@@ -75,8 +69,24 @@ impl<L: Lexicon> MetadataBuilder<L> {
             }
         }
         let follow = follow_builder.build(root);
-        seen.clear();
+        let mut seen = BTreeSet::new();
         check_conflicts(&names, &prods, root, &mut seen, &first, &follow)?;
+        // left recursion usually also causes a conflict, which is more helpful to report
+        seen.clear();
+        let mut stack = Vec::new();
+        // productions to check from, each with an empty stack
+        let mut pending = vec![root];
+        while let Some(t) = pending.pop() {
+            check_left_recursive(
+                &names,
+                &prods,
+                t,
+                &mut seen,
+                &mut stack,
+                &mut pending,
+                &first,
+            )?;
+        }
         let mut jump = Jump::new();
         seen.clear();
         build_jump(&prods, root, &mut seen, &first, &mut jump);
@@ -93,14 +103,12 @@ fn check_left_recursive<L: Lexicon>(
     prods: &BTreeMap<TypeId, ProductionEntry>,
     t: TypeId,
     seen: &mut BTreeSet<TypeId>,
-    set: &mut BTreeSet<TypeId>,
     stack: &mut Vec<TypeId>,
+    pending: &mut Vec<TypeId>,
     first: &First<L>,
 ) -> Result<(), GrammarError> {
-    if !seen.insert(t) {
-        return Ok(());
-    }
-    if !set.insert(t) {
+    // this must be checked before `seen`, since everything on the stack is already seen
+    if stack.contains(&t) {
         let stack = stack
             .iter()
             .map(|t| names.get(t).map(|x| x.as_str()).unwrap_or_default())
@@ -108,83 +116,31 @@ fn check_left_recursive<L: Lexicon>(
         let current = names.get(&t).map(|x| x.as_str()).unwrap_or_default();
         return Err(GrammarError::left_recursion(&stack, current));
     }
+    if !seen.insert(t) {
+        return Ok(());
+    }
+    stack.push(t);
     match prods.get(&t) {
-        None => {
-            set.remove(&t);
-        }
-        Some(ProductionEntry::Terminal) => {
-            set.remove(&t);
-        }
+        None => {}
+        Some(ProductionEntry::Terminal) => {}
         Some(ProductionEntry::Union(types)) => {
-            stack.push(t);
             for inner in types.iter() {
-                let result = check_left_recursive(names, prods, *inner, seen, set, stack, first);
-                if let Err(e) = result {
-                    stack.pop();
-                    set.remove(&t);
-                    return Err(e);
-                }
+                check_left_recursive(names, prods, *inner, seen, stack, pending, first)?;
             }
-            stack.pop();
-            set.remove(&t);
         }
         Some(ProductionEntry::Sequence(types)) => {
-            stack.push(t);
-            let mut iter = types.iter();
-            let inner_first = match iter.next() {
-                Some(inner) => inner,
-                None => {
-                    stack.pop();
-                    set.remove(&t);
-                    return Ok(());
-                }
-            };
-            let result = check_left_recursive(names, prods, *inner_first, seen, set, stack, first);
-            if let Err(e) = result {
-                stack.pop();
-                set.remove(&t);
-                return Err(e);
-            }
-            let mut temp_stack = Vec::new();
-            let mut temp_set = BTreeSet::new();
-
-            let (mut cur_stack, mut cur_set, mut need_pop) =
-                if first.get(inner_first).contains_epsilon() {
-                    (stack, set, true)
+            let mut is_leftmost = true;
+            for inner in types.iter() {
+                if is_leftmost {
+                    check_left_recursive(names, prods, *inner, seen, stack, pending, first)?;
+                    is_leftmost = first.get(inner).contains_epsilon();
                 } else {
-                    stack.pop();
-                    set.remove(&t);
-                    (&mut temp_stack, &mut temp_set, false)
-                };
-
-            for inner in iter {
-                let result =
-                    check_left_recursive(names, prods, *inner, seen, cur_set, cur_stack, first);
-                if let Err(e) = result {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    return Err(e);
+                    pending.push(*inner);
                 }
-                if !first.get(inner).contains_epsilon() {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    temp_stack.clear();
-                    temp_set.clear();
-                    cur_stack = &mut temp_stack;
-                    cur_set = &mut temp_set;
-                    need_pop = false;
-                };
-            }
-            if need_pop {
-                cur_stack.pop();
-                cur_set.remove(&t);
             }
         }
     }
+    stack.pop();
 
     Ok(())
 }
-- 
2.43.0


From d67656ff037a24b2d01ab7d804f397a05ab444ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 09/24] fix: Split and Punct recovery skipped a token that
 starts the next item

---
 packages/teleparse/src/tp_impl/punct.rs | 4 +++-
 packages/teleparse/src/tp_impl/split.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/teleparse/src/tp_impl/punct.rs b/packages/teleparse/src/tp_impl/punct.rs
index 613493d..f499307 100644
--- a/packages/teleparse/src/tp_impl/punct.rs
+++ b/packages/teleparse/src/tp_impl/punct.rs
@@ -207,7 +207,9 @@ where
                     }
                     break 'outer;
                 }
-                parser.consume_token();
+                if !elem_first.contains(token) {
+                    parser.consume_token();
+                }
             }
         }
         let hi_1 = elems.last().map_or_else(|| lo, |t| t.hi());
diff --git a/packages/teleparse/src/tp_impl/split.rs b/packages/teleparse/src/tp_impl/split.rs
index d625ac1..34aed81 100644
--- a/packages/teleparse/src/tp_impl/split.rs
+++ b/packages/teleparse/src/tp_impl/split.rs
@@ -169,7 +169,9 @@ where
                     }
                     break 'outer;
                 }
-                parser.consume_token();
+                if !elem_first.contains(token) {
+                    parser.consume_token();
+                }
             }
         }
         let hi = elems.last().map_or_else(|| lo, |t| t.hi());
-- 
2.43.0


From 6353f39953b2308bf9b0af85c27cd1b7bf1a7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 10/24] fix: Recover skipped a token that starts its tail after
 a failed tail

---
 packages/teleparse/src/tp_impl/recover.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index 850fac1..00f47ca 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -92,6 +92,12 @@ where
                                 panic = Some(e);
                             }
                         }
+                        // the token where R stopped might be the start of another R
+                        if tail_first.contains(parser.peek_token_src())
+                            || tail_first.contains_epsilon()
+                        {
+                            continue;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 1b0ae61e2d9ae25432c36798d1eae3b5431333ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 11/24] fix: duplicate literals were accepted next to a
 terminal without a literal

---
 packages/macros/src/lexicon.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index f8e1f66..a0c8432 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -172,15 +172,15 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                         if match_lit.is_empty() {
                             syn_error!(value, "Cannot use empty string for matching");
                         }
+                        if infer_literal_set.contains(&match_lit) {
+                            syn_error!(
+                                value,
+                                "Duplicate literal pattern `{}` for variant `{}`.",
+                                match_lit,
+                                variant_ident
+                            );
+                        }
                         if let Some(infer_literals) = &mut infer_literals {
-                            if infer_literal_set.contains(&match_lit) {
-                                syn_error!(
-                                    value,
-                                    "Duplicate literal pattern `{}` for variant `{}`.",
-                                    match_lit,
-                                    variant_ident
-                                );
-                            }
                             infer_literals.push(match_lit.clone());
                         }
                         infer_literal_set.insert(match_lit);
-- 
2.43.0


From 862d155e1935ef01db82c2fec1c9d91355286d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 12/24] fix: an empty span overlapped the token around it

---
 packages/teleparse/src/lex/vec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/teleparse/src/lex/vec.rs b/packages/teleparse/src/lex/vec.rs
index ebff39a..6542db2 100644
--- a/packages/teleparse/src/lex/vec.rs
+++ b/packages/teleparse/src/lex/vec.rs
@@ -168,6 +168,10 @@ impl<L: Lexicon> TokenSlice<L> {
     /// `Some` is returned
     pub fn overlap_bounds<S: Into<Span>>(&self, span: S) -> Option<(usize, usize)> {
         let span = span.into();
+        // an empty span has no intersection with any token, even if it is in the middle of one
+        if span.hi <= span.lo {
+            return None;
+        }
         let lo = match self.search_lo(span.lo) {
             Ok(i) => i, // i must be overlapping/included
             Err(i) => {
-- 
2.43.0


From 781ab1149e3ac5bf875f560ac5bb1b7e328a8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 13/24] fix: text after an incomplete pattern was skipped as
 invalid instead of tried again

---
 packages/teleparse/src/lex/lexer.rs | 39 +++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/packages/teleparse/src/lex/lexer.rs b/packages/teleparse/src/lex/lexer.rs
index 9186e54..c586ede 100644
--- a/packages/teleparse/src/lex/lexer.rs
+++ b/packages/teleparse/src/lex/lexer.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use logos::{Lexer as LogosLexer, Logos};
+use logos::{Lexer as LogosLexer, Logos, Source};
 
 use super::{Lexicon, Span, Token};
 
@@ -28,7 +28,10 @@ pub struct LogosLexerWrapper<'s, L: Lexicon, T: Logos<'s>> {
     _marker: PhantomData<L>,
 }
 
-impl<'s, T: Logos<'s>, L: Lexicon + From<T>> Lexer<'s> for LogosLexerWrapper<'s, L, T> {
+impl<'s, T: Logos<'s>, L: Lexicon + From<T>> Lexer<'s> for LogosLexerWrapper<'s, L, T>
+where
+    T::Extras: Clone,
+{
     type L = L;
 
     fn next(&mut self) -> (Option<Span>, Option<Token<Self::L>>) {
@@ -37,25 +40,24 @@ impl<'s, T: Logos<'s>, L: Lexicon + From<T>> Lexer<'s> for LogosLexerWrapper<'s,
         let mut invalid_end = invalid_start;
         let mut token = None;
         loop {
-            match self.next_internal() {
+            let invalid_span = match self.next_internal() {
                 None => break,
                 Some(Ok(next)) => {
                     token = Some(next);
                     break;
                 }
-                _ => {}
-            }
-            let invalid_span = self.inner.span();
+                Some(Err(span)) => span,
+            };
             // if no invalid detected so far, check if there were
             // ignored input, since we don't want those to be considered
             // invalid
             if !has_invalid {
                 // logos lexer would have already skipped one character
                 // when it's invalid, so we need use start instead of end
-                invalid_start = invalid_span.start;
+                invalid_start = invalid_span.lo;
             }
             has_invalid = true;
-            invalid_end = invalid_span.end;
+            invalid_end = invalid_span.hi;
         }
         let invalid_span = if has_invalid {
             Some(Span::new(invalid_start, invalid_end))
@@ -67,21 +69,36 @@ impl<'s, T: Logos<'s>, L: Lexicon + From<T>> Lexer<'s> for LogosLexerWrapper<'s,
     }
 }
 
-impl<'s, T: Logos<'s>, L: Lexicon + From<T>> LogosLexerWrapper<'s, L, T> {
+impl<'s, T: Logos<'s>, L: Lexicon + From<T>> LogosLexerWrapper<'s, L, T>
+where
+    T::Extras: Clone,
+{
     pub fn new(inner: LogosLexer<'s, T>) -> Self {
         Self {
             inner,
             _marker: PhantomData,
         }
     }
-    fn next_internal(&mut self) -> Option<Result<Token<L>, ()>> {
+    fn next_internal(&mut self) -> Option<Result<Token<L>, Span>> {
         match self.inner.next() {
             Some(Ok(token)) => {
                 let ty = L::from(token);
                 let span = self.inner.span();
                 Some(Ok(Token::new(span, ty)))
             }
-            Some(Err(_)) => Some(Err(())),
+            Some(Err(_)) => {
+                let source = self.inner.source();
+                let span = self.inner.span();
+                // logos skips everything it has seen when a pattern cannot be completed,
+                // only one character should be skipped, and the rest should be tried again
+                let end = source.find_boundary(span.start + 1);
+                if end < span.end {
+                    let extras = self.inner.extras.clone();
+                    self.inner = LogosLexer::with_extras(source, extras);
+                    self.inner.bump(end);
+                }
+                Some(Err(Span::new(span.start, end)))
+            }
             None => None,
         }
     }
-- 
2.43.0


From 2537dfae2f00e27c29c33292360885b6f881779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 14/24] fix: a token type without rules shifted the rules of
 the types after it

---
 packages/macros/src/lexicon.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index a0c8432..34cabbe 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -264,7 +264,8 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                 });
             }
             lex_variant_derived_attrs.push(regex_attr);
-        } else if let Some(infer_literals) = infer_literals {
+        } else if let Some(infer_literals) = infer_literals.filter(|x| !x.is_empty()) {
+            // (semantic only tokens must not be added, since they are not in lex_variant_idents)
             let mut token_attr = TokenStream2::new();
             for lit in infer_literals {
                 token_attr.extend(quote! {
-- 
2.43.0


From d37609ce310229bcc04cdaec476d42f87718f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 15/24] fix: lexicons with more than 32 variants did not
 compile

---
 packages/teleparse/src/lex/lexicon.rs |  4 ++--
 packages/teleparse/src/lex/map.rs     | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/packages/teleparse/src/lex/lexicon.rs b/packages/teleparse/src/lex/lexicon.rs
index b94ca87..5c8a72d 100644
--- a/packages/teleparse/src/lex/lexicon.rs
+++ b/packages/teleparse/src/lex/lexicon.rs
@@ -7,7 +7,7 @@ use num::{Integer, Unsigned};
 
 use crate::GrammarError;
 
-use super::Lexer;
+use super::{Lexer, MapStorage};
 
 /// Trait for defining the token types of a grammar
 ///
@@ -28,7 +28,7 @@ pub trait Lexicon: Debug + Clone + Copy + PartialEq + Eq + Hash + 'static {
     type Lexer<'s>: Lexer<'s, L = Self>;
 
     /// Map type used for storing token type mappings in tables for syntax analysis
-    type Map<T: Default + Clone>: Default + Clone + Borrow<[T]> + BorrowMut<[T]>;
+    type Map<T: Default + Clone>: MapStorage<T> + Clone + Borrow<[T]> + BorrowMut<[T]>;
 
     /// Get the id of this token type (ordinal)
     fn id(&self) -> usize;
diff --git a/packages/teleparse/src/lex/map.rs b/packages/teleparse/src/lex/map.rs
index 78a8f08..1a757d3 100644
--- a/packages/teleparse/src/lex/map.rs
+++ b/packages/teleparse/src/lex/map.rs
@@ -10,7 +10,24 @@ use super::Lexicon;
 /// wraps it in a map-like API for easy access.
 #[derive(Derivative, Clone)]
 #[derivative(Default(new = "true", bound = ""))]
-pub struct Map<L: Lexicon, T: Default + Clone>(L::Map<T>);
+pub struct Map<L: Lexicon, T: Default + Clone>(
+    #[derivative(Default(value = "MapStorage::with_defaults()"))] L::Map<T>,
+);
+
+/// Storage for [`Map`] that can be filled with default items
+///
+/// Arrays only implement [`Default`] up to length 32, while there can be up to 128 token types
+pub trait MapStorage<T> {
+    /// Create the storage with the default item for each token type
+    fn with_defaults() -> Self;
+}
+
+impl<T: Default, const N: usize> MapStorage<T> for [T; N] {
+    #[inline]
+    fn with_defaults() -> Self {
+        std::array::from_fn(|_| T::default())
+    }
+}
 
 #[cfg(feature = "serde")]
 impl<L: Lexicon, T: Default + Clone + serde::Serialize> serde::Serialize for Map<L, T> {
-- 
2.43.0


From 50ee4268b773624c7ae392cc86519462e4283353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 16/24] fix: Recover failed without an error when its tail was
 missing at the end of input

---
 packages/teleparse/src/tp_impl/recover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index 00f47ca..244c97b 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -75,6 +75,10 @@ where
                         }
                     };
                 }
+                // nothing was skipped, but the tail is missing
+                if panic.is_none() {
+                    panic = Some(parser.expecting(tail_first.clone()));
+                }
                 break None;
             }
             if tail_first.contains(token) || tail_first.contains_epsilon() {
-- 
2.43.0


From a95c374b0e834dee8ad7cebd38b8c759b4236a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 17/24] fix: unknown attributes on a lexicon variant were
 ignored

---
 packages/macros/src/lexicon.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 34cabbe..2789c6f 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -112,6 +112,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                     )?);
                     continue;
                 }
+                syn_error!(meta, "Unknown {} attribute", CRATE);
             }
         }
 
-- 
2.43.0


From 4f446111a97d12679c7cb4c158ec357c065e42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 18/24] fix: unknown attributes on a syntax field were ignored

---
 packages/macros/src/syntax.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/macros/src/syntax.rs b/packages/macros/src/syntax.rs
index 7f63046..2f13b2d 100644
--- a/packages/macros/src/syntax.rs
+++ b/packages/macros/src/syntax.rs
@@ -438,6 +438,7 @@ fn parse_field_attributes<T: ToTokens>(
                     hook = Some(meta.parse_args::<syn::Ident>()?);
                     continue;
                 }
+                syn_error!(meta, "Unknown attribute");
             }
             _ => syn_error!(meta, "Invalid attribute format. Expected <attr>(<args>)"),
         }
-- 
2.43.0


From 7ca7e007f41ea910f418ef427bd7507606f3c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 19/24] fix: a regex whose first alternative matches a prefix
 of a literal was rejected although it matches all of it

---
 packages/macros/src/lexicon.rs | 5 +++++
 packages/macros/src/prelude.rs | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 2789c6f..e4f82b9 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -233,7 +233,12 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
             let mut regex_attr = TokenStream2::new();
             for regex in regexes {
                 let regex_obj = checked_regex_rule(&regex)?;
+                // the lexer takes the longest match, while `find` takes the first alternative
+                let regex_whole = Regex::new(&format!(r"\A(?:{})\z", regex.value())).ok();
                 for match_lit in &infer_literal_set {
+                    if regex_whole.as_ref().is_some_and(|r| r.is_match(match_lit)) {
+                        continue;
+                    }
                     // if we are able to match, we must be able to match the entire string
                     // For example, if the regex matches `key` and the literal is `keyboard`.
                     // If we were to match `keyboard`, `key` should be matched instead
diff --git a/packages/macros/src/prelude.rs b/packages/macros/src/prelude.rs
index 0460e77..1f8bcd1 100644
--- a/packages/macros/src/prelude.rs
+++ b/packages/macros/src/prelude.rs
@@ -1,4 +1,4 @@
-use regex::Regex;
+pub(crate) use regex::Regex;
 
 pub(crate) use proc_macro::TokenStream;
 pub(crate) use proc_macro2::Span;
-- 
2.43.0


From e7dbeef3f8cbe9e8b265501971aab435fe461496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 20/24] fix: invalid text at the very end was not reported when
 it was too short to be any token

---
 packages/teleparse/src/lex/lexer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/teleparse/src/lex/lexer.rs b/packages/teleparse/src/lex/lexer.rs
index c586ede..b955205 100644
--- a/packages/teleparse/src/lex/lexer.rs
+++ b/packages/teleparse/src/lex/lexer.rs
@@ -99,7 +99,18 @@ where
                 }
                 Some(Err(Span::new(span.start, end)))
             }
-            None => None,
+            None => {
+                // logos also stops early if the rest is too short to be any token,
+                // that must be reported like other invalid input
+                let source = self.inner.source();
+                let start = self.inner.span().end;
+                if start >= source.len() {
+                    return None;
+                }
+                let end = source.find_boundary(start + 1);
+                self.inner.bump(end - start);
+                Some(Err(Span::new(start, end)))
+            }
         }
     }
 }
-- 
2.43.0


From a639a4199f5a752e2fd46ec1cb92144b78297ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 21/24] fix: the test of a root type named Root did not compile

---
 packages/macros/src/root.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/macros/src/root.rs b/packages/macros/src/root.rs
index 0196131..3439f83 100644
--- a/packages/macros/src/root.rs
+++ b/packages/macros/src/root.rs
@@ -43,8 +43,7 @@ pub fn expand_test(pt_ty: &syn::Ident) -> TokenStream2 {
 
             #[test]
             fn is_ll1() {
-                use #teleparse::Root;
-                #pt_ty::assert_ll1()
+                <#pt_ty as #teleparse::Root>::assert_ll1()
             }
         }
     }
-- 
2.43.0


From 0f1bdd6e9b44aa9ef4131df166239501a8b7bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 22/24] fix: a token could end inside a character when a
 multi-byte pattern is repeated

---
 packages/teleparse/src/lex/lexer.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/packages/teleparse/src/lex/lexer.rs b/packages/teleparse/src/lex/lexer.rs
index b955205..ca36027 100644
--- a/packages/teleparse/src/lex/lexer.rs
+++ b/packages/teleparse/src/lex/lexer.rs
@@ -83,12 +83,23 @@ where
         match self.inner.next() {
             Some(Ok(token)) => {
                 let ty = L::from(token);
-                let span = self.inner.span();
+                let source = self.inner.source();
+                let mut span = self.inner.span();
+                // logos can take the first bytes of a character that does not continue the pattern,
+                // that character should not be part of the token
+                let end = floor_boundary(source, span.end);
+                if end < span.end {
+                    let extras = self.inner.extras.clone();
+                    self.inner = LogosLexer::with_extras(source, extras);
+                    self.inner.bump(end);
+                    span.end = end;
+                }
                 Some(Ok(Token::new(span, ty)))
             }
             Some(Err(_)) => {
                 let source = self.inner.source();
                 let span = self.inner.span();
+                let start = floor_boundary(source, span.start);
                 // logos skips everything it has seen when a pattern cannot be completed,
                 // only one character should be skipped, and the rest should be tried again
                 let end = source.find_boundary(span.start + 1);
@@ -97,7 +108,7 @@ where
                     self.inner = LogosLexer::with_extras(source, extras);
                     self.inner.bump(end);
                 }
-                Some(Err(Span::new(span.start, end)))
+                Some(Err(Span::new(start, end)))
             }
             None => {
                 // logos also stops early if the rest is too short to be any token,
@@ -109,8 +120,16 @@ where
                 }
                 let end = source.find_boundary(start + 1);
                 self.inner.bump(end - start);
-                Some(Err(Span::new(start, end)))
+                Some(Err(Span::new(floor_boundary(source, start), end)))
             }
         }
     }
 }
+
+/// The closest character boundary that is not after the index
+fn floor_boundary<S: Source + ?Sized>(source: &S, index: usize) -> usize {
+    (0..=index)
+        .rev()
+        .find(|i| source.is_boundary(*i))
+        .unwrap_or(0)
+}
-- 
2.43.0


From a98ca0ed45e7987f24ad11761fbc5468e20c6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 23/24] fix: deriving Node for a struct with named fields
 generated code that does not parse

---
 packages/macros/src/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/node.rs b/packages/macros/src/node.rs
index 360139d..80b69f9 100644
--- a/packages/macros/src/node.rs
+++ b/packages/macros/src/node.rs
@@ -29,7 +29,10 @@ pub fn expand(input: &syn::DeriveInput) -> syn::Result<TokenStream2> {
                 }
             };
             let ty = parse_node_type(ty)?;
-            from_body = quote! { Self { #ident, ::core::default::Default::default() } };
+            let rest = fields.named.iter().skip(1).map(|f| &f.ident);
+            from_body = quote! {
+                Self { #ident: node, #(#rest: ::core::default::Default::default(),)* }
+            };
             field_expr = quote! { self.#ident };
             target_ty = quote! { #ty };
         }
-- 
2.43.0


From 833b5bae67a6a3de562e02ef6881637fecc192f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 24/24] fix: an optional sequence that begins with ( and ends
 with )+ was named as a repetition

---
 packages/teleparse/src/syntax/ast.rs     | 10 ++++++++++
 packages/teleparse/src/tp_impl/iter.rs   |  4 ++++
 packages/teleparse/src/tp_impl/option.rs | 11 +----------
 packages/teleparse/src/tp_impl/punct.rs  |  4 ++++
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/packages/teleparse/src/syntax/ast.rs b/packages/teleparse/src/syntax/ast.rs
index 86df1eb..a84818a 100644
--- a/packages/teleparse/src/syntax/ast.rs
+++ b/packages/teleparse/src/syntax/ast.rs
@@ -40,6 +40,12 @@ pub trait Production: 'static {
         Cow::Borrowed(std::any::type_name::<Self>())
     }
 
+    /// What [`debug`](Self::debug) is for the production that is this one or empty
+    #[doc(hidden)]
+    fn debug_optional() -> Cow<'static, str> {
+        Cow::Owned(format!("({})?", Self::debug()))
+    }
+
     fn register(meta: &mut MetadataBuilder<Self::L>);
 }
 
@@ -57,6 +63,10 @@ macro_rules! production_passthrough {
             <$P>::debug()
         }
         #[inline]
+        fn debug_optional() -> ::std::borrow::Cow<'static, str> {
+            <$P>::debug_optional()
+        }
+        #[inline]
         fn register(meta: &mut $crate::syntax::MetadataBuilder<Self::L>) {
             <$P>::register(meta)
         }
diff --git a/packages/teleparse/src/tp_impl/iter.rs b/packages/teleparse/src/tp_impl/iter.rs
index df309f6..b0835a4 100644
--- a/packages/teleparse/src/tp_impl/iter.rs
+++ b/packages/teleparse/src/tp_impl/iter.rs
@@ -17,6 +17,10 @@ impl<T: Production> Production for OneOrMore<T> {
         Cow::Owned(format!("( {} )+", T::debug()))
     }
 
+    fn debug_optional() -> Cow<'static, str> {
+        Cow::Owned(format!("( {} )*", T::debug()))
+    }
+
     fn register(meta: &mut MetadataBuilder<Self::L>) {
         crate::register_sequence!(meta, T, OptionProd<OneOrMore<T>>)
     }
diff --git a/packages/teleparse/src/tp_impl/option.rs b/packages/teleparse/src/tp_impl/option.rs
index 06bdc77..3333cc7 100644
--- a/packages/teleparse/src/tp_impl/option.rs
+++ b/packages/teleparse/src/tp_impl/option.rs
@@ -15,16 +15,7 @@ impl<T: Production> Production for OptionProd<T> {
     type L = T::L;
     #[inline]
     fn debug() -> Cow<'static, str> {
-        let inner = T::debug();
-        if let Some(rest) = inner.strip_prefix('(') {
-            if let Some(inner) = rest.strip_suffix(")+") {
-                return Cow::Owned(format!("({inner})*"));
-            }
-            if let Some(inner) = rest.strip_suffix("]+") {
-                return Cow::Owned(format!("({inner}]*"));
-            }
-        }
-        Cow::Owned(format!("({})?", T::debug()))
+        T::debug_optional()
     }
 
     fn register(meta: &mut MetadataBuilder<Self::L>) {
diff --git a/packages/teleparse/src/tp_impl/punct.rs b/packages/teleparse/src/tp_impl/punct.rs
index f499307..738519f 100644
--- a/packages/teleparse/src/tp_impl/punct.rs
+++ b/packages/teleparse/src/tp_impl/punct.rs
@@ -17,6 +17,10 @@ impl<T: Production, P: Production<L = T::L>> Production for PunctProd<T, P> {
         Cow::Owned(format!("( {} )[{}]+", T::debug(), P::debug()))
     }
 
+    fn debug_optional() -> Cow<'static, str> {
+        Cow::Owned(format!("( {} )[{}]*", T::debug(), P::debug()))
+    }
+
     fn register(meta: &mut MetadataBuilder<Self::L>) {
         crate::register_sequence!(meta, T, OptionProd<(P, OptionProd<Self>)>)
     }
-- 
2.43.0

