From f727e0360c35bf3c4ac5f4104342da8e28507c51 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH] fix: Newton::solve no longer loops forever after a
 recoverable failure

A recoverable convergence failure with a current Jacobian fell through the
match and restarted the attempt without end; so did a recoverable failure of
the residual at the initial guess. Retry at most once, and only when the
Jacobian data is not current; otherwise return the failure.
---
 crates/nonlinear/src/newton.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 7cf5eef..07a319f 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -144,12 +144,15 @@ where
                 // If there is a recoverable convergence failure and the Jacobian-related data appears not to be
                 // current, increment the convergence failure count and loop again with a call to lsetup in which jbad = true.
                 Err(Error::ConvergenceRecover {}) => {
-                    if !self.jcur {
+                    if !self.jcur && !jbad {
                         self.nconvfails += 1;
                         call_lsetup = true;
                         jbad = true;
                         continue 'outer;
                     }
+
+                    // The Jacobian is current or the retry failed as well, so trying again cannot help.
+                    break 'outer retval;
                 }
 
                 // Otherwise break out and return.
-- 
2.43.0

