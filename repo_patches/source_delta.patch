From e496d023962d85d090c3495f4350cb7d5dfe535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH] fix: match each reported seal with the cell it is reported
 for

Reported seal definitions were compared with operation outputs as sets of
auth tokens, so a definition of one output could be reported for another
output of the same operation, and the owner of the first one could spend
the second one. Compare the token for each position instead.
---
 src/verify.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index 350954c..db01ef0 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -181,9 +181,18 @@ pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {
                 .values()
                 .map(|seal| seal.auth_token())
                 .collect::<BTreeSet<_>>();
-            // It is a subset and not an equal set since some seals might be unknown to us:
+            // Not all cells have to be reported since some seals might be unknown to us:
             // we know their commitment auth token but do not know the definition.
-            if !reported.is_subset(&defined) {
+            // But each reported seal must match the very cell it is reported for; otherwise a seal of one
+            // cell may be used to spend another cell of the same operation.
+            let is_matching = block.defined_seals.iter().all(|(pos, seal)| {
+                block
+                    .operation
+                    .destructible_out
+                    .get(*pos as usize)
+                    .is_some_and(|cell| cell.auth == seal.auth_token())
+            });
+            if !is_matching {
                 let sources = block
                     .defined_seals
                     .iter()
-- 
2.43.0

