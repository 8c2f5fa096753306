From 40224722acd97e381e84f48e77d324ea74e84a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 1/8] fix: send one empty reply line when the reply text is
 empty

byte_chunks yields no chunk for an empty text, so send_reply sent nothing
at all and the client waited for its reply forever.
---
 smtp-server/src/sendreply.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smtp-server/src/sendreply.rs b/smtp-server/src/sendreply.rs
index 6d8ac5c..651db3b 100644
--- a/smtp-server/src/sendreply.rs
+++ b/smtp-server/src/sendreply.rs
@@ -15,8 +15,15 @@ pub async fn send_reply<W>(
 where
     W: Sink<ReplyLine>,
 {
+    // An empty text has no chunks, but is still sent as one (empty) line
+    let empty_line = if text.byte_len() == 0 {
+        Some(text.clone())
+    } else {
+        None
+    };
     let replies = text
         .byte_chunks(ReplyLine::MAX_LEN)
+        .chain(empty_line)
         .with_position()
         .map(move |t| {
             use itertools::Position::*;
-- 
2.43.0


From f1bca2410190c8b80a7d97de055efe1be7f87f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 2/8] fix: do not poll a stream again after it has ended

---
 smtp-message/src/streamext/prependable.rs | 11 ++++++++++-
 smtp-server/src/crlflines.rs              |  2 --
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/smtp-message/src/streamext/prependable.rs b/smtp-message/src/streamext/prependable.rs
index f652e3a..8b30728 100644
--- a/smtp-message/src/streamext/prependable.rs
+++ b/smtp-message/src/streamext/prependable.rs
@@ -5,6 +5,8 @@ use futures::{prelude::*, task::Poll};
 pub struct Prependable<S: Stream> {
     stream: S,
     prepended: Option<S::Item>,
+    // Set once `stream` has returned `None`, after which it must not be polled again
+    ended: bool,
 }
 
 impl<S: Stream> Prependable<S> {
@@ -12,6 +14,7 @@ impl<S: Stream> Prependable<S> {
         Prependable {
             stream: s,
             prepended: None,
+            ended: false,
         }
     }
 
@@ -37,13 +40,19 @@ impl<S: Stream> Stream for Prependable<S> {
         let try_take = unsafe { self.as_mut().get_unchecked_mut().prepended.take() };
         if let Some(item) = try_take {
             Poll::Ready(Some(item))
+        } else if self.ended {
+            Poll::Ready(None)
         } else {
             // See the documentation of the `std::pin` module for why this is safe.
-            unsafe {
+            let next = unsafe {
                 self.as_mut()
                     .map_unchecked_mut(|s| &mut s.stream)
                     .poll_next(lw)
+            };
+            if let Poll::Ready(None) = next {
+                unsafe { self.as_mut().get_unchecked_mut().ended = true };
             }
+            next
         }
     }
 }
diff --git a/smtp-server/src/crlflines.rs b/smtp-server/src/crlflines.rs
index 8f65089..a292d57 100644
--- a/smtp-server/src/crlflines.rs
+++ b/smtp-server/src/crlflines.rs
@@ -29,8 +29,6 @@ where
     // Failed to find a crlf before end-of-stream
     // This unwrap is free of risk, as `s.next()` has just been called above
     s.prepend(buf).unwrap();
-    // TODO: (A) here s will already have returned none, need to make sure we're not
-    // polling it again for the next none!!
     None
 }
 
-- 
2.43.0


From ae51084ec3ae1ea6f84de9c22b43ecb0cf847223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 3/8] fix: only accept digits as the code of a parsed reply
 line

---
 smtp-message/src/reply.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smtp-message/src/reply.rs b/smtp-message/src/reply.rs
index 4e2d71a..3e7fe81 100644
--- a/smtp-message/src/reply.rs
+++ b/smtp-message/src/reply.rs
@@ -130,7 +130,11 @@ named!(pub reply(ByteSlice) -> ReplyLine, do_parse!(
     code: map!(
         verify!(
             map_res!(
-                map_res!(take!(3), ByteSlice::into_utf8),
+                map_res!(
+                    // `u16::from_str` alone would also accept a leading `+`
+                    verify!(take!(3), |b: ByteSlice| b.iter().all(u8::is_ascii_digit)),
+                    ByteSlice::into_utf8
+                ),
                 |utf8| u16::from_str(utf8)
             ),
             |x: u16| x < 1000
-- 
2.43.0


From 1ae8dde1788b5f5cbbc04ac14bdd702af713b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 4/8] fix: split a string into chunks without overflowing

---
 smtp-message/src/smtpstring.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smtp-message/src/smtpstring.rs b/smtp-message/src/smtpstring.rs
index c70a836..72c15a9 100644
--- a/smtp-message/src/smtpstring.rs
+++ b/smtp-message/src/smtpstring.rs
@@ -62,8 +62,12 @@ impl SmtpString {
 
     pub fn byte_chunks(&self, bytes: usize) -> impl Iterator<Item = SmtpString> {
         let copy = self.0.clone();
-        (0..(self.byte_len() + bytes - 1) / bytes)
-            .map(move |i| SmtpString(copy.slice(i * bytes, min(copy.len(), (i + 1) * bytes))))
+        // Neither the number of chunks nor their ends may overflow, however big `bytes` is
+        let (full, rem) = (copy.len() / bytes, copy.len() % bytes);
+        (0..full + min(rem, 1)).map(move |i| {
+            let start = i * bytes;
+            SmtpString(copy.slice(start, start + min(copy.len() - start, bytes)))
+        })
     }
 }
 
-- 
2.43.0


From b14e73625a618a83e04358c4c586ae182c0f0f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 5/8] fix: leave what follows the CRLF of an EHLO or HELO line
 alone

---
 smtp-message/src/ehlo/mod.rs | 8 ++++----
 smtp-message/src/helo/mod.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/smtp-message/src/ehlo/mod.rs b/smtp-message/src/ehlo/mod.rs
index 1231a6b..f5afafe 100644
--- a/smtp-message/src/ehlo/mod.rs
+++ b/smtp-message/src/ehlo/mod.rs
@@ -30,14 +30,14 @@ impl EhloCommand {
 }
 
 named!(pub command_ehlo_args(ByteSlice) -> EhloCommand,
-    sep!(eat_spaces, do_parse!(
-        tag_no_case!("EHLO") >>
-        domain: hostname >>
+    do_parse!(
+        eat_spaces >> tag_no_case!("EHLO") >> eat_spaces >>
+        domain: hostname >> eat_spaces >>
         tag!("\r\n") >>
         (EhloCommand {
             domain: domain.into(),
         })
-    ))
+    )
 );
 
 #[cfg(test)]
diff --git a/smtp-message/src/helo/mod.rs b/smtp-message/src/helo/mod.rs
index 4cc2af5..e1e614f 100644
--- a/smtp-message/src/helo/mod.rs
+++ b/smtp-message/src/helo/mod.rs
@@ -30,14 +30,14 @@ impl HeloCommand {
 }
 
 named!(pub command_helo_args(ByteSlice) -> HeloCommand,
-    sep!(eat_spaces, do_parse!(
-        tag_no_case!("HELO") >>
-        domain: hostname >>
+    do_parse!(
+        eat_spaces >> tag_no_case!("HELO") >> eat_spaces >>
+        domain: hostname >> eat_spaces >>
         tag!("\r\n") >>
         (HeloCommand {
             domain: domain.into(),
         })
-    ))
+    )
 );
 
 #[cfg(test)]
-- 
2.43.0


From 1d95bb441582261aca8c6b8af9ed4a365e61252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 6/8] fix: extend small buffers instead of unsplitting them

---
 smtp-message/src/data/stream.rs | 5 ++++-
 smtp-server/src/crlflines.rs    | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/smtp-message/src/data/stream.rs b/smtp-message/src/data/stream.rs
index c495436..15e79e6 100644
--- a/smtp-message/src/data/stream.rs
+++ b/smtp-message/src/data/stream.rs
@@ -216,7 +216,10 @@ where
                     self.state = DataStreamState::EarlyFin;
                     return Ready(None);
                 }
-                Ready(Some(b)) => self.buf.unsplit(b), // TODO: (B) optimize with `self.buf = b`?
+                // Not `unsplit`, which computes with the contents of small buffers as if they were
+                // pointers
+                Ready(Some(b)) if self.buf.is_empty() => self.buf = b,
+                Ready(Some(b)) => self.buf.extend_from_slice(&b),
             }
         }
     }
diff --git a/smtp-server/src/crlflines.rs b/smtp-server/src/crlflines.rs
index a292d57..e62b463 100644
--- a/smtp-server/src/crlflines.rs
+++ b/smtp-server/src/crlflines.rs
@@ -9,7 +9,13 @@ where
 {
     let mut buf = BytesMut::new();
     while let Some(pkt) = s.next().await {
-        buf.unsplit(pkt);
+        // Not `unsplit`, which computes with the contents of small buffers as if they were
+        // pointers
+        if buf.is_empty() {
+            buf = pkt;
+        } else {
+            buf.extend_from_slice(&pkt);
+        }
 
         // TODO: (B) implement line length limits id:line-length-limit
 
-- 
2.43.0


From 4f610cbabed99bdfd78203fc6e1399e500702069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 7/8] Hook for verification: export FoundInflightMail under
 cfg(yuubind_verif)

---
 smtp-queue/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smtp-queue/src/lib.rs b/smtp-queue/src/lib.rs
index 1641032..463ebef 100644
--- a/smtp-queue/src/lib.rs
+++ b/smtp-queue/src/lib.rs
@@ -13,6 +13,10 @@ pub use run::run;
 pub use storage::Storage;
 pub use transport::Transport;
 
+// A hook for verification: without this trait no storage can be written outside
+#[cfg(yuubind_verif)]
+pub use mail::FoundInflightMail;
+
 // TODO: (B) make this not do bad things with multiple instances
 // Use cases to take into account:
 //  * By mistake, multiple instances have been started with the same queue
-- 
2.43.0


From d50a1dad3b06796cca18672f4b4bfc57b1a409be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 8/8] fix: keep a data stream ended once it has reported its
 end

---
 smtp-message/src/data/stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smtp-message/src/data/stream.rs b/smtp-message/src/data/stream.rs
index 15e79e6..2edbf1b 100644
--- a/smtp-message/src/data/stream.rs
+++ b/smtp-message/src/data/stream.rs
@@ -95,8 +95,9 @@ where
         use self::DataStreamState::*;
         use Poll::*;
         // First, handle the case when we're done
-        if self.state == Finished {
-            return Ready(None);
+        match self.state {
+            Finished | EarlyFin | Completed => return Ready(None),
+            Running | CrPassed | CrLfPassed => (),
         }
         loop {
             // Figure out what to send from the current buf
-- 
2.43.0

