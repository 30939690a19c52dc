From b3bd56fd59ce8670cde6f249e41a18e6222c1a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 1/3] fix: Evaluator::default() builds the lookup tables

The derived Default left both tables empty, so evaluating any valid hand
with a default evaluator panicked on a missing key.
---
 src/evaluate/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate/mod.rs b/src/evaluate/mod.rs
index cffc1bd..ba7027e 100644
--- a/src/evaluate/mod.rs
+++ b/src/evaluate/mod.rs
@@ -73,9 +73,13 @@ use crate::{card::Card, error::EvalError, evaluate::lookup_table::LookupTable};
 ///     "Full house, jacks over fours"
 /// );
 /// ```
-#[derive(Clone, Debug, PartialEq, Eq, Default)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 pub struct Evaluator(LookupTable);
 
+impl Default for Evaluator {
+    fn default() -> Self { Self::new() }
+}
+
 impl Evaluator {
     /// Create a new [`Evaluator`]. Try to call this method only once and share
     /// the instance as much as possible.
-- 
2.43.0


From 5d7d05470905841375dc6064918871288f2ea580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 2/3] fix: report the length of unparsable input in characters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Card strings must be two characters long, but InvalidLength displayed the
length in bytes: 'é' was reported as having length 2, expected 2.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4d8f05c..de5e236 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -104,7 +104,7 @@ impl fmt::Display for ParseCardError {
                 f,
                 "Error parsing input '{}' as a Card: Found input of length {}, expected 2",
                 original_input,
-                original_input.len()
+                original_input.chars().count()
             ),
             Self::InvalidRank {
                 ref original_input,
-- 
2.43.0


From eff98a588f1970cb61ce76b3d7e8437508c7460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 3/3] fix: list duplicated cards in a fixed order

The duplicates named by CardsNotUnique were printed in the iteration order
of a randomly seeded hash map, so the same error had different messages.
---
 src/error.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index de5e236..160398a 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -190,15 +190,8 @@ impl fmt::Display for EvalError {
             Self::CardsNotUnique(ref cards) => {
                 let dups: String = cards
                     .iter()
-                    .counts()
-                    .into_iter()
-                    .filter_map(|(card, count)| {
-                        if count > 1 {
-                            Some(card.rank_suit_string())
-                        } else {
-                            None
-                        }
-                    })
+                    .duplicates()
+                    .map(|card| card.rank_suit_string())
                     .collect::<Vec<_>>()
                     .join(" ");
                 write!(
-- 
2.43.0

