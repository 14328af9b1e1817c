From 96407a95c5b6a319a3f2a1f239da610f32637a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:58 +0000
Subject: [PATCH 1/8] fix: do not panic on a digit followed by non-ASCII
 characters

"5\u{e9}", "2\u{e8}me", "3\u{301}" or a keycap emoji are one unicode word starting with an
ASCII digit; creating a line from them hit an assertion.
---
 src/create_tokens.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 3bcf5ed..b62de8a 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -103,13 +103,6 @@ where
             // http://www.unicode.org/reports/tr29/#Word_Boundaries
             // if \d+[,\.a-zA-Z]\d+ or more repeats (3 is minimum)
             if unicode_word.chars().next().unwrap().is_ascii_digit() {
-                // make assumtions about the length of every char being 1
-                assert!(
-                    unicode_word.is_ascii(),
-                    "Unexpected non-ascii digit word boundary: {}",
-                    unicode_word
-                );
-
                 let mut collected_digits = String::new();
                 let mut collected_letters = String::new();
 
@@ -151,7 +144,12 @@ where
                         insert_collected_digits!();
                         let text = String::from(ch);
                         let size = get_text_size(&text);
-                        ltokens.push((LToken::Text(text, TextTag::PUNC), size));
+                        let tag = if ch.is_ascii() {
+                            TextTag::PUNC
+                        } else {
+                            get_word_tag::get_unicode_word_tag(&text)
+                        };
+                        ltokens.push((LToken::Text(text, tag), size));
                     }
                 }
 
-- 
2.43.0


From 721427886aab4cfd8c69de3e1ad4211546ef38b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:58 +0000
Subject: [PATCH 2/8] fix: LLSelection::after is None exactly when nothing
 follows the selection

The start of the selection was compared, so a selection ending the line got a
successor past the end of the line, and others lost theirs.
---
 src/ll_line/ll_selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 251fb73..628da42 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -257,7 +257,7 @@ impl LLSelection {
     pub fn after(&self) -> Option<LLSelection> {
         let ll_line_end = self.ll_line.ll_tokens.len() - 1;
 
-        if self.start_idx + 1 == ll_line_end {
+        if self.end_idx == ll_line_end {
             None
         } else {
             Some(LLSelection {
-- 
2.43.0


From 28713a2bc999458bd88b86a54965eb42b6effa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:58 +0000
Subject: [PATCH 3/8] fix: trimming a match which reaches the first token
 leaves nothing

trim_end and trim returned a selection which still contained the trimmed token.
---
 src/ll_line/ll_selection.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 628da42..cfd5a80 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -339,10 +339,8 @@ impl LLSelection {
                 )
                 .first()
             {
-                new_end = (first_match.1)
-                    .0
-                    .checked_sub(1)
-                    .unwrap_or((first_match.1).0);
+                // nothing is left of a match reaching the first token
+                new_end = (first_match.1).0.checked_sub(1)?;
             }
         }
 
-- 
2.43.0


From 07866a0960a7f778ac50e6e389ff21bc8adc3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:58 +0000
Subject: [PATCH 4/8] fix: token_has_any does not panic at a token without
 attributes

A custom token which no attribute was assigned to has no entry.
---
 src/ll_line/x.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 1bd4048..e5be061 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -143,8 +143,7 @@ impl<'l> XDirection<'l> for XForwards {
             .attrs
             .values
             .get(&(self.from_idx, self.from_idx))
-            .expect("Huh... match_forwards was at the end")
-            .get::<T>()
+            .map_or(&[][..], |bucket| bucket.get::<T>())
             .iter()
             .filter_map(|value| {
                 if set.contains(value) {
-- 
2.43.0


From 60511d20195378a12e5dadcf6aadb1586daead24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:58 +0000
Subject: [PATCH 5/8] fix: token_has_any looks at one token in both directions

Backwards it also matched attributes of longer ranges ending at the token.
---
 src/ll_line/x.rs | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index e5be061..b7ee8c6 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -246,30 +246,19 @@ impl<'l> XDirection<'l> for XBackwards {
         ll_line: &'l LLLine,
     ) -> Vec<(&'l T, ToIdx)> {
         //        [ ... ] - Current Selection
-        // [ ... ] - Trying to match Attr
-        //   [...] - Trying to match Attr
+        //     [.] - Trying to match Attr
         ll_line
             .attrs
-            .ends_at
-            .get(self.from_idx)
-            .expect("Huh... Backwards::next_attr was at the start")
-            .get::<T>()
+            .values
+            .get(&(self.from_idx, self.from_idx))
+            .map_or(&[][..], |bucket| bucket.get::<T>())
             .iter()
-            .flat_map(|range| {
-                ll_line
-                    .attrs
-                    .values
-                    .get(range)
-                    .unwrap()
-                    .get::<T>()
-                    .iter()
-                    .filter_map(move |val| {
-                        if set.contains(val) {
-                            Some((val, ToIdx(range.0)))
-                        } else {
-                            None
-                        }
-                    })
+            .filter_map(|value| {
+                if set.contains(value) {
+                    Some((value, ToIdx(self.from_idx)))
+                } else {
+                    None
+                }
             })
             .collect()
     }
-- 
2.43.0


From 962e907b264dfed7805e3e0877fcbe058904c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:58 +0000
Subject: [PATCH 6/8] fix: case insensitive lookup does not depend on hash
 order

Of keys which differ only in case one was kept, which one was up to the
randomised iteration order of the map.
---
 src/resolvers/text_match.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index 2fbc603..b73ecfc 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -20,12 +20,19 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
         }
     }
     pub fn new_case_insensitive(lookup: HashMap<String, Vec<T>>) -> Self {
+        // keys which differ only in case share an entry, in an order that does not depend
+        // on the iteration order of the map
+        let mut entries: Vec<(String, Vec<T>)> = lookup.into_iter().collect();
+        entries.sort_by(|(a, _), (b, _)| a.cmp(b));
+
+        let mut lookup: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, val) in entries {
+            lookup.entry(key.to_lowercase()).or_default().extend(val);
+        }
+
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .into_iter()
-                .map(|(key, val)| (key.to_lowercase(), val))
-                .collect(),
+            lookup,
         }
     }
     pub fn new_case_insensitive_str_arr<const N: usize>(lookup: [(&'static str, T); N]) -> Self {
-- 
2.43.0


From 912bffc43e40dda29f54d2e80f2594a279f19a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:58 +0000
Subject: [PATCH 7/8] fix: AmountResolver does not panic on numbers a Decimal
 cannot hold

---
 layered-amount/src/amounts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 49e835b..63189e5 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -109,11 +109,14 @@ impl Resolver for AmountResolver {
                 }
             }
 
-            attrs.push(
-                last_valid_selection
-                    .unwrap_or_else(|| selection.clone())
-                    .finish_with_attr(Amount(number_string.parse::<Decimal>().unwrap())),
-            );
+            // numbers with more digits than a Decimal can hold are not assigned
+            if let Ok(decimal) = number_string.parse::<Decimal>() {
+                attrs.push(
+                    last_valid_selection
+                        .unwrap_or_else(|| selection.clone())
+                        .finish_with_attr(Amount(decimal)),
+                );
+            }
 
             if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {
                 search_range_sel = right_sel;
-- 
2.43.0


From 47f9f0b9c896ee6e3b591e50857c73edd5335edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:09 +0000
Subject: [PATCH 8/8] fix: AmountResolver::french has a comma as decimal point,
 as documented

---
 layered-amount/src/amounts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 63189e5..9ffffcc 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -51,7 +51,7 @@ impl AmountResolver {
     pub fn french() -> Self {
         Self {
             delimiters: vec![' ', '.', '\''],
-            decimal: '.',
+            decimal: ',',
         }
     }
 }
-- 
2.43.0

