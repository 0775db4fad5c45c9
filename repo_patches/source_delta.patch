From eb530abe7967dab251b3f54459e0f06a25ac5825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 1/8] fix: keep earlier errors when try_map succeeds on a
 recovered result

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0fffbf0..921b5ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,7 +90,7 @@ impl<O, E> Result<O, E> {
         match self {
             Result::Success(o) => map(o),
             Result::Recovered(o, mut es) => match map(o) {
-                Result::Success(x) => Result::Success(x),
+                Result::Success(x) => Result::Recovered(x, es),
                 Result::Recovered(x, es2) => {
                     es.extend(es2);
                     Result::Recovered(x, es)
-- 
2.43.0


From f080f7583cf939dcf450e57f03d365be80775af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 2/8] fix: restore the stream when try_map fails because
 recovery is disabled

---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index d267a32..d3c2e11 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -290,6 +290,7 @@ where
                     if enable_recovery {
                         parser::Result::Recovered(o, es)
                     } else {
+                        stream.restore(&initial);
                         parser::Result::Failed(stream.index_at(&initial), es)
                     }
                 }
-- 
2.43.0


From 0f9febb756e3c0cdc89220ff24e6200b4048d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 3/8] fix: report recovered errors when a repetition ends early

---
 src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index dbefab8..7ebf4ab 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -217,7 +217,7 @@ where
                         // fail.
                     } else if output.len() >= minimum {
                         // We've already matched enough, we're done.
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
@@ -261,7 +261,7 @@ where
                                 stream.restore(&state);
                             }
                         }
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
-- 
2.43.0


From 7a79d0ae1b9a41ffa6c9240b5d522886129caf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 4/8] fix: report the furthest alternative when its errors are
 not mergeable

---
 src/algorithm.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 7ebf4ab..2f50c34 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -360,7 +360,6 @@ macro_rules! alternate {
             }
             parser::Result::Failed(last_token_matched, vec![e])
         } else {
-            let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
             parser::Result::Failed(last_token_matched, es)
         }
     }};
@@ -435,7 +434,6 @@ where
         }
         parser::Result::Failed(last_token_matched, vec![e])
     } else {
-        let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
         parser::Result::Failed(last_token_matched, es)
     }
 }
-- 
2.43.0


From 1848f71ab8944e533c082ac89da7065dc4c0afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 5/8] fix: do not lose the current position when saving a
 future one

---
 src/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f423e90..94380cc 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -105,10 +105,12 @@ where
     /// Saves the location at the given current or future token index. Panics if
     /// the given token index lies before the current one.
     pub fn save_at(&mut self, index: usize) -> SavedState {
-        let restore = (self.index, self.index_in_buffer);
+        // Save the current position properly: advancing may remove tokens from
+        // the front of the buffer.
+        let current = self.save();
         self.advance_to(index);
         let state = self.save();
-        (self.index, self.index_in_buffer) = restore;
+        self.restore(&current);
         state
     }
 
-- 
2.43.0


From d8f21c134e97d1d0aafbe76ea2646a71a9d2ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 6/8] fix: do not advance past the end of the input in
 advance_to

---
 src/stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 94380cc..eb6cb35 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -345,8 +345,13 @@ where
         let mut amount = index - self.index;
 
         // Determine how many tokens we can advance by without refilling the
-        // buffer, and do that.
-        let already_buffered = usize::min(self.buffer.len() - self.index_in_buffer, amount);
+        // buffer, and do that. The EOF sentinel is not a token we can advance
+        // past.
+        let mut available = self.buffer.len() - self.index_in_buffer;
+        if self.source_at_eof {
+            available -= 1;
+        }
+        let already_buffered = usize::min(available, amount);
         self.index += already_buffered;
         self.index_in_buffer += already_buffered;
         amount -= already_buffered;
-- 
2.43.0


From 3d5ecaef0bb6848c512c842ee532179db7ebd339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 7/8] fix: accept a leading separator that is not followed by
 any items

---
 src/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 2f50c34..1071cf0 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -256,8 +256,10 @@ where
                         // We've already matched enough, we're done. We may
                         // however need to restore the state to before the
                         // separator, which already matched if there was one.
+                        // A leading separator is allowed even if there are no
+                        // items.
                         if let Some(state) = before_separator {
-                            if !allow_trailing {
+                            if !allow_trailing && !output.is_empty() {
                                 stream.restore(&state);
                             }
                         }
-- 
2.43.0


From c5aed18c994a716d11c1b85ba9220647786f27ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 8/8] fix: read token and location at a held position whose
 token is not buffered yet

---
 src/stream.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index eb6cb35..6f13ba3 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -240,8 +240,17 @@ where
             return self.token();
         }
 
-        // Return the requested token from the buffer.
+        // If the saved state refers to the first token that has not been read
+        // from the source yet, that token must be buffered first.
         assert!(*saved_state.index >= self.start_of_buffer());
+        if *saved_state.index - self.start_of_buffer() >= self.buffer.len() {
+            let current = self.save();
+            self.restore(saved_state);
+            self.make_next_available();
+            self.restore(&current);
+        }
+
+        // Return the requested token from the buffer.
         self.buffer[*saved_state.index - self.start_of_buffer()]
             .0
             .as_ref()
@@ -274,9 +283,13 @@ where
             return self.location_tracker();
         }
 
-        // Return the requested token from the buffer.
+        // Return the requested location from the buffer, or the current source
+        // location if the corresponding token has not been read yet.
         assert!(*saved_state.index >= self.start_of_buffer());
-        &self.buffer[*saved_state.index - self.start_of_buffer()].1
+        self.buffer
+            .get(*saved_state.index - self.start_of_buffer())
+            .map(|(_, x)| x)
+            .unwrap_or(&self.source_location)
     }
 
     /// Returns the current location.
-- 
2.43.0

