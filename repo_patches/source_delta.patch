From ef64b1740d157a67bdc6a9934438f995ddc9790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 01/29] sim: guarded preemption hooks for deterministic
 simulation (cfg hyper_sim)

---
 src/body/incoming.rs     |   1 +
 src/client/dispatch.rs   |   7 ++
 src/common/watch.rs      |   8 +-
 src/lib.rs               |   3 +
 src/proto/h1/dispatch.rs |   2 +
 src/proto/h2/client.rs   |   2 +
 src/proto/h2/mod.rs      |   1 +
 src/proto/h2/server.rs   |   1 +
 src/proto/h2/upgrade.rs  |   4 +-
 src/sim.rs               | 159 +++++++++++++++++++++++++++++++++++++++
 10 files changed, 181 insertions(+), 7 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 93c99a0..e6f1df7 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -215,6 +215,7 @@ impl Body for Incoming {
                 trailers_rx,
             } => {
                 want_tx.send(WANT_READY);
+                sim_point!("body::poll_frame");
 
                 if !data_rx.is_terminated() {
                     if let Some(chunk) = ready!(Pin::new(data_rx).poll_next(cx)?) {
diff --git a/src/client/dispatch.rs b/src/client/dispatch.rs
index 69c9b8c..751cbd5 100644
--- a/src/client/dispatch.rs
+++ b/src/client/dispatch.rs
@@ -109,6 +109,7 @@ impl<T, U> Sender<T, U> {
             return Err(val);
         }
         let (tx, rx) = oneshot::channel();
+        sim_point!("client::dispatch::send");
         self.inner
             .send(Envelope(Some((val, Callback::Retry(Some(tx))))))
             .map(move |_| rx)
@@ -121,6 +122,7 @@ impl<T, U> Sender<T, U> {
             return Err(val);
         }
         let (tx, rx) = oneshot::channel();
+        sim_point!("client::dispatch::send");
         self.inner
             .send(Envelope(Some((val, Callback::NoRetry(Some(tx))))))
             .map(move |_| rx)
@@ -148,6 +150,7 @@ impl<T, U> UnboundedSender<T, U> {
 
     pub(crate) fn try_send(&mut self, val: T) -> Result<RetryPromise<T, U>, T> {
         let (tx, rx) = oneshot::channel();
+        sim_point!("client::dispatch::send");
         self.inner
             .send(Envelope(Some((val, Callback::Retry(Some(tx))))))
             .map(move |_| rx)
@@ -156,6 +159,7 @@ impl<T, U> UnboundedSender<T, U> {
 
     pub(crate) fn send(&mut self, val: T) -> Result<Promise<U>, T> {
         let (tx, rx) = oneshot::channel();
+        sim_point!("client::dispatch::send");
         self.inner
             .send(Envelope(Some((val, Callback::NoRetry(Some(tx))))))
             .map(move |_| rx)
@@ -185,6 +189,7 @@ impl<T, U> Receiver<T, U> {
                 Poll::Ready(item.map(|mut env| env.0.take().expect("envelope not dropped")))
             }
             Poll::Pending => {
+                sim_point!("client::dispatch::poll_recv");
                 self.taker.want();
                 Poll::Pending
             }
@@ -194,6 +199,7 @@ impl<T, U> Receiver<T, U> {
     #[cfg(feature = "http1")]
     pub(crate) fn close(&mut self) {
         self.taker.cancel();
+        sim_point!("client::dispatch::close");
         self.inner.close();
     }
 
@@ -211,6 +217,7 @@ impl<T, U> Drop for Receiver<T, U> {
         // Notify the giver about the closure first, before dropping
         // the mpsc::Receiver.
         self.taker.cancel();
+        sim_point!("client::dispatch::drop");
     }
 }
 
diff --git a/src/common/watch.rs b/src/common/watch.rs
index 81acd5d..78fcd91 100644
--- a/src/common/watch.rs
+++ b/src/common/watch.rs
@@ -4,13 +4,11 @@
 //! - The consumer is only notified if the value is different.
 //! - The value `0` is reserved for closed.
 
-use atomic_waker::AtomicWaker;
-use std::sync::{
-    atomic::{AtomicUsize, Ordering},
-    Arc,
-};
+use std::sync::{atomic::Ordering, Arc};
 use std::task;
 
+use crate::sim::{AtomicUsize, AtomicWaker};
+
 type Value = usize;
 
 pub(crate) const CLOSED: usize = 0;
diff --git a/src/lib.rs b/src/lib.rs
index 8d6e2d2..c5e9c1e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -128,6 +128,9 @@ mod cfg;
 #[macro_use]
 mod trace;
 
+#[macro_use]
+mod sim;
+
 pub mod body;
 mod common;
 mod error;
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index f250f55..cfac159 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -171,7 +171,9 @@ where
         // benchmarks often use. Perhaps it should be a config option instead.
         for _ in 0..16 {
             let _ = self.poll_read(cx)?;
+            sim_point!("h1::dispatch::poll_loop");
             let write_ready = self.poll_write(cx)?.is_ready();
+            sim_point!("h1::dispatch::poll_loop");
             let flush_ready = self.poll_flush(cx)?.is_ready();
 
             // If we can write more body and the connection is ready, we should
diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index eb768ba..1930184 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -483,6 +483,7 @@ where
         // Check if the client cancelled the request (e.g. dropped the
         // response future due to a timeout). If so, reset the h2 stream
         // so that a RST_STREAM is sent and flow-control capacity is freed.
+        sim_point!("h2::client::pipe");
         let cancel_result = this.cancel_rx.as_mut().map(|rx| Pin::new(rx).poll(cx));
         match cancel_result {
             Some(Poll::Ready(Ok(()))) => {
@@ -677,6 +678,7 @@ where
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         loop {
+            sim_point!("h2::client::poll");
             match ready!(self.h2_tx.poll_ready(cx)) {
                 Ok(()) => (),
                 Err(err) => {
diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index f0db9b6..86eeac6 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -142,6 +142,7 @@ where
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut me = self.project();
         loop {
+            sim_point!("h2::pipe");
             // Register for RST_STREAM notification while we wait for the next
             // body chunk or for send capacity, so the task wakes up if the
             // peer resets the stream.
diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 9202627..402b866 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -259,6 +259,7 @@ where
         if self.closing.is_none() {
             loop {
                 self.poll_ping(cx);
+                sim_point!("h2::server::accept");
 
                 match ready!(self.conn.poll_accept(cx)) {
                     Some(Ok((req, mut respond))) => {
diff --git a/src/proto/h2/upgrade.rs b/src/proto/h2/upgrade.rs
index 217aa27..22f484a 100644
--- a/src/proto/h2/upgrade.rs
+++ b/src/proto/h2/upgrade.rs
@@ -1,11 +1,10 @@
 use std::future::Future;
 use std::io::Cursor;
 use std::pin::Pin;
-use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::atomic::Ordering;
 use std::sync::Arc;
 use std::task::{Context, Poll};
 
-use atomic_waker::AtomicWaker;
 use bytes::{Buf, Bytes};
 use futures_channel::{mpsc, oneshot};
 use futures_core::{ready, Stream};
@@ -15,6 +14,7 @@ use pin_project_lite::pin_project;
 use super::ping::Recorder;
 use super::SendBuf;
 use crate::rt::{Read, ReadBufCursor, Write};
+use crate::sim::{AtomicBool, AtomicWaker};
 
 pub(super) fn pair<B>(
     send_stream: SendStream<SendBuf<B>>,
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..2b7a195
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,159 @@
+//! Hooks for deterministic simulation.
+//!
+//! Everything here is inert unless the crate is compiled with
+//! `--cfg hyper_sim`. Without it, the re-exported types are the very types
+//! used before and `sim_point!` expands to nothing.
+//!
+//! With it, the embedding program must define
+//! `#[no_mangle] fn __hyper_sim_point(name: &'static str)`. It is called at
+//! places where another thread could run in between two steps of an
+//! operation, so that a simulator can decide to run another task there. No
+//! lock is held at any of these places.
+#![allow(unexpected_cfgs)]
+
+#[cfg(hyper_sim)]
+macro_rules! sim_point {
+    ($name:literal) => {
+        $crate::sim::point($name)
+    };
+}
+
+#[cfg(not(hyper_sim))]
+#[allow(unused_macros)]
+macro_rules! sim_point {
+    ($name:literal) => {};
+}
+
+#[cfg(hyper_sim)]
+#[allow(dead_code, unused_imports)]
+mod imp {
+    use std::sync::atomic::Ordering;
+    use std::task::Waker;
+
+    extern "Rust" {
+        fn __hyper_sim_point(name: &'static str);
+    }
+
+    pub(crate) fn point(name: &'static str) {
+        unsafe { __hyper_sim_point(name) }
+    }
+
+    pub(crate) struct AtomicUsize(std::sync::atomic::AtomicUsize);
+
+    impl AtomicUsize {
+        pub(crate) fn new(val: usize) -> Self {
+            Self(std::sync::atomic::AtomicUsize::new(val))
+        }
+
+        pub(crate) fn load(&self, order: Ordering) -> usize {
+            point("AtomicUsize::load");
+            self.0.load(order)
+        }
+
+        pub(crate) fn store(&self, val: usize, order: Ordering) {
+            point("AtomicUsize::store");
+            self.0.store(val, order)
+        }
+
+        pub(crate) fn swap(&self, val: usize, order: Ordering) -> usize {
+            point("AtomicUsize::swap");
+            self.0.swap(val, order)
+        }
+
+        pub(crate) fn compare_exchange(
+            &self,
+            current: usize,
+            new: usize,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<usize, usize> {
+            point("AtomicUsize::compare_exchange");
+            self.0.compare_exchange(current, new, success, failure)
+        }
+
+        pub(crate) fn fetch_add(&self, val: usize, order: Ordering) -> usize {
+            point("AtomicUsize::fetch_add");
+            self.0.fetch_add(val, order)
+        }
+
+        pub(crate) fn fetch_sub(&self, val: usize, order: Ordering) -> usize {
+            point("AtomicUsize::fetch_sub");
+            self.0.fetch_sub(val, order)
+        }
+
+        pub(crate) fn fetch_or(&self, val: usize, order: Ordering) -> usize {
+            point("AtomicUsize::fetch_or");
+            self.0.fetch_or(val, order)
+        }
+    }
+
+    pub(crate) struct AtomicBool(std::sync::atomic::AtomicBool);
+
+    impl AtomicBool {
+        pub(crate) fn new(val: bool) -> Self {
+            Self(std::sync::atomic::AtomicBool::new(val))
+        }
+
+        pub(crate) fn load(&self, order: Ordering) -> bool {
+            point("AtomicBool::load");
+            self.0.load(order)
+        }
+
+        pub(crate) fn store(&self, val: bool, order: Ordering) {
+            point("AtomicBool::store");
+            self.0.store(val, order)
+        }
+
+        pub(crate) fn swap(&self, val: bool, order: Ordering) -> bool {
+            point("AtomicBool::swap");
+            self.0.swap(val, order)
+        }
+
+        pub(crate) fn compare_exchange(
+            &self,
+            current: bool,
+            new: bool,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<bool, bool> {
+            point("AtomicBool::compare_exchange");
+            self.0.compare_exchange(current, new, success, failure)
+        }
+    }
+
+    #[cfg(any(feature = "http1", feature = "http2"))]
+    pub(crate) struct AtomicWaker(atomic_waker::AtomicWaker);
+
+    #[cfg(any(feature = "http1", feature = "http2"))]
+    impl AtomicWaker {
+        pub(crate) fn new() -> Self {
+            Self(atomic_waker::AtomicWaker::new())
+        }
+
+        pub(crate) fn register(&self, waker: &Waker) {
+            point("AtomicWaker::register");
+            self.0.register(waker)
+        }
+
+        pub(crate) fn wake(&self) {
+            point("AtomicWaker::wake");
+            self.0.wake()
+        }
+
+        pub(crate) fn take(&self) -> Option<Waker> {
+            point("AtomicWaker::take");
+            self.0.take()
+        }
+    }
+}
+
+#[cfg(not(hyper_sim))]
+#[allow(unused_imports)]
+mod imp {
+    #[cfg(any(feature = "http1", feature = "http2"))]
+    pub(crate) use atomic_waker::AtomicWaker;
+    pub(crate) use std::sync::atomic::{AtomicBool, AtomicUsize};
+}
+
+#[allow(unused_imports)]
+pub(crate) use imp::*;
-- 
2.43.0


From a6554619c1c24fd7da178bcf1acb8380a58c8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 02/29] fix: h1 Connection: close wins over a later keep-alive
 line

A message whose Connection header spans several lines kept the connection
alive when a keep-alive line followed the close line.
---
 src/proto/h1/role.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 29bcd44..688babe 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -352,6 +352,11 @@ impl Http1Transaction for Server {
             keep_alive = false;
         }
 
+        // A close option wins over keep-alive, whatever header line it is in
+        if keep_alive && headers::connection_any_close(&headers) {
+            keep_alive = false;
+        }
+
         let mut extensions = http::Extensions::default();
 
         if let Some(header_case_map) = header_case_map {
@@ -1145,6 +1150,11 @@ impl Http1Transaction for Client {
                 headers.append(name, value);
             }
 
+            // A close option wins over keep-alive, whatever header line it is in
+            if keep_alive && headers::connection_any_close(&headers) {
+                keep_alive = false;
+            }
+
             let mut extensions = http::Extensions::default();
 
             if let Some(header_case_map) = header_case_map {
-- 
2.43.0


From 29513c949147f2bbf57d5da8af8818a9a8315039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 03/29] fix: h1 end a request body that completes after its
 response

When the response was already written, the read of the last body bytes put
the connection back to waiting for a head while the body sender was kept, so
the reader of the body saw no end until another request arrived, or an error
when the connection ended.
---
 src/proto/h1/dispatch.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index cfac159..ef9e71c 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -252,7 +252,11 @@ where
                                 let chunk = frame.into_data().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_data(chunk) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // Once the message is complete the sender has to go,
+                                        // as the next thing to read may be another head.
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
@@ -266,7 +270,11 @@ where
                                     frame.into_trailers().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_trailers(trailers) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // Once the message is complete the sender has to go,
+                                        // as the next thing to read may be another head.
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
-- 
2.43.0


From c1cde39a290049ca59ebd589556aaf7ccb68f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 04/29] fix: h1 poll for the next message once queued bytes are
 flushed

With vectored writes, the next response (or request) is not polled for while
an older body is still queued. When that queue was flushed in the same poll,
nothing polled for the message again, and the connection stalled.
---
 src/proto/h1/conn.rs     | 6 ++++++
 src/proto/h1/dispatch.rs | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 19c1283..ac4a2e8 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -577,6 +577,12 @@ where
         }
     }
 
+    /// Whether a head could be written were it not for queued bytes of an
+    /// older message that are still to be flushed.
+    pub(crate) fn is_head_write_blocked(&self) -> bool {
+        matches!(self.state.writing, Writing::Init) && !self.io.can_headers_buf()
+    }
+
     pub(crate) fn can_write_body(&self) -> bool {
         match self.state.writing {
             Writing::Body(..) => true,
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index ef9e71c..5592f6f 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -173,8 +173,11 @@ where
             let _ = self.poll_read(cx)?;
             sim_point!("h1::dispatch::poll_loop");
             let write_ready = self.poll_write(cx)?.is_ready();
+            // A head may be waiting only for older queued bytes to be flushed.
+            let head_blocked = self.conn.is_head_write_blocked();
             sim_point!("h1::dispatch::poll_loop");
             let flush_ready = self.poll_flush(cx)?.is_ready();
+            let head_unblocked = head_blocked && flush_ready && self.dispatch.should_poll();
 
             // If we can write more body and the connection is ready, we should
             // write again. If we return `Ready(Ok(())` here, we will yield
@@ -194,7 +197,7 @@ where
 
             // If we cannot write or read again, we yield and rely on the
             // wake-up from the connection futures.
-            if !(wants_write_again || wants_read_again) {
+            if !(wants_write_again || wants_read_again || head_unblocked) {
                 return Poll::Ready(Ok(()));
             }
 
@@ -202,7 +205,7 @@ where
             // write poll can make progress. `poll_flush` can be ready even when there is no
             // buffered data and the request body is still pending, so relying on the previous
             // readiness can hot-loop.
-            if !wants_read_again && wants_write_again {
+            if !wants_read_again && !head_unblocked && wants_write_again {
                 // Write was previously pending, but may have become ready since polling flush, so
                 // we need to check it again. If it is still pending, it is safe to yield and rely
                 // on wake-up from the connection futures.
-- 
2.43.0


From f13d41b773655cc8bc2d8ba704b2e3c9aae29b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 05/29] fix: h1 server keep error and interim responses behind
 queued bytes

With vectored writes and a blocked transport, a 400 for a pipelined malformed
request (or a 100 Continue) was put in front of the queued body of the
response before it, or panicked a debug assertion.
---
 src/proto/h1/conn.rs |  4 ++++
 src/proto/h1/io.rs   | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index ac4a2e8..4b8f5a5 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -407,6 +407,8 @@ where
                 if let Writing::Init = self.state.writing {
                     trace!("automatically sending 100 Continue");
                     let cont = b"HTTP/1.1 100 Continue\r\n\r\n";
+                    // An older response may still be queued, and has to go first.
+                    self.io.flatten_queue();
                     self.io.headers_buf().extend_from_slice(cont);
                 }
 
@@ -831,6 +833,8 @@ where
                 // Drop the cached headers so as to not trigger a debug
                 // assert in `write_head`...
                 self.state.cached_headers.take();
+                // An older response may still be queued, and has to go first.
+                self.io.flatten_queue();
                 self.write_head(msg, None);
                 self.state.error = Some(err);
                 return Ok(());
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 6b3f10f..d04ab1e 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -136,6 +136,11 @@ where
         !self.write_buf.queue.has_remaining()
     }
 
+    /// Makes room for a head that cannot wait for older bytes to be flushed.
+    pub(crate) fn flatten_queue(&mut self) {
+        self.write_buf.flatten_queue();
+    }
+
     pub(crate) fn headers_buf(&mut self) -> &mut Vec<u8> {
         let buf = self.write_buf.headers_mut();
         &mut buf.bytes
@@ -590,6 +595,19 @@ where
         }
     }
 
+    /// Moves queued buffers behind the buffered head, so that another head can
+    /// be buffered after them.
+    fn flatten_queue(&mut self) {
+        while self.queue.has_remaining() {
+            let n = {
+                let slice = self.queue.chunk();
+                self.headers.bytes.extend_from_slice(slice);
+                slice.len()
+            };
+            self.queue.advance(n);
+        }
+    }
+
     fn headers_mut(&mut self) -> &mut Cursor<Vec<u8>> {
         debug_assert!(!self.queue.has_remaining());
         &mut self.headers
-- 
2.43.0


From 727b7eb479e8af613d24003e73aba85945938928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 06/29] fix: h1 server keep an explicit close in responses to
 HTTP/1.0

A response with Connection: close to an HTTP/1.0 request that asked for
keep-alive was sent with Connection: keep-alive, and the connection kept.
---
 src/proto/h1/conn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 4b8f5a5..97c65a4 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -685,7 +685,9 @@ where
                 // If response is version 1.1 and keep-alive is wanted, add
                 // Connection: keep-alive header when not present
                 Version::HTTP_11 => {
-                    if self.state.wants_keep_alive() {
+                    if self.state.wants_keep_alive()
+                        && !headers::connection_any_close(&head.headers)
+                    {
                         head.headers
                             .insert(CONNECTION, HeaderValue::from_static("keep-alive"));
                     }
-- 
2.43.0


From ab079a8ca325ff7b5d00bba642f71d236bf72ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 07/29] fix: h1 report a body that ends short with its last
 chunk

A body that reported its end together with its last chunk, before the declared
length was reached, closed the connection without an error to anyone.
---
 src/proto/h1/conn.rs     | 10 +++++++++-
 src/proto/h1/dispatch.rs |  2 +-
 src/proto/h1/encode.rs   |  5 +++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 97c65a4..11cfe2e 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -771,11 +771,18 @@ where
         }
     }
 
-    pub(crate) fn write_body_and_end(&mut self, chunk: B) {
+    pub(crate) fn write_body_and_end(&mut self, chunk: B) -> crate::Result<()> {
         debug_assert!(self.can_write_body() && self.can_buffer_body());
         // empty chunks should be discarded at Dispatcher level
         debug_assert!(chunk.remaining() != 0);
 
+        if let Writing::Body(encoder) = &self.state.writing {
+            if encoder.ends_short(chunk.remaining() as u64) {
+                self.write_body(chunk);
+                return self.end_body();
+            }
+        }
+
         let state = match &mut self.state.writing {
             Writing::Body(encoder) => {
                 let can_keep_alive = encoder.encode_and_end(chunk, self.io.write_buf());
@@ -789,6 +796,7 @@ where
         };
 
         self.state.writing = state;
+        Ok(())
     }
 
     pub(crate) fn end_body(&mut self) -> crate::Result<()> {
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index 5592f6f..212de41 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -427,7 +427,7 @@ where
                                     trace!("discarding empty chunk");
                                     self.conn.end_body()?;
                                 } else {
-                                    self.conn.write_body_and_end(chunk);
+                                    self.conn.write_body_and_end(chunk)?;
                                 }
                             } else {
                                 if chunk.remaining() == 0 {
diff --git a/src/proto/h1/encode.rs b/src/proto/h1/encode.rs
index a1eebaf..7ceb10b 100644
--- a/src/proto/h1/encode.rs
+++ b/src/proto/h1/encode.rs
@@ -101,6 +101,11 @@ impl Encoder {
         self.is_last
     }
 
+    /// Whether ending after `len` more bytes leaves the declared length unmet.
+    pub(crate) fn ends_short(&self, len: u64) -> bool {
+        matches!(self.kind, Kind::Length(remaining) if len < remaining)
+    }
+
     pub(crate) fn is_close_delimited(&self) -> bool {
         match self.kind {
             #[cfg(feature = "server")]
-- 
2.43.0


From 69df6cf6d813af3fe691e940ee30e7d9b72fb2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 08/29] fix: h1 flush before handing over or shutting down the
 transport

An upgrade handed the transport over while the 101 response was still partly
buffered, and pipeline_flush skipped the flush before the shutdown when more
request bytes were buffered; both lost the end of the response.
---
 src/proto/h1/conn.rs     | 8 ++++++++
 src/proto/h1/dispatch.rs | 1 +
 src/proto/h1/io.rs       | 8 +++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 11cfe2e..583a0f5 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -160,6 +160,14 @@ where
         self.io.into_inner()
     }
 
+    /// Flushes what is left to write before the transport is handed over.
+    pub(crate) fn poll_flush_upgrade(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        if self.state.upgrade.is_none() {
+            return Poll::Ready(Ok(()));
+        }
+        self.io.poll_flush_all(cx)
+    }
+
     pub(crate) fn pending_upgrade(&mut self) -> Option<crate::upgrade::Pending> {
         self.state.upgrade.take()
     }
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index 212de41..ca0902a 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -150,6 +150,7 @@ where
         ready!(self.poll_loop(cx))?;
 
         if self.is_done() {
+            ready!(self.conn.poll_flush_upgrade(cx)).map_err(crate::Error::new_body_write)?;
             if let Some(pending) = self.conn.pending_upgrade() {
                 self.conn.take_error()?;
                 return Poll::Ready(Ok(Dispatched::Upgrade(pending)));
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index d04ab1e..0d16bc8 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -332,8 +332,14 @@ where
         Pin::new(&mut self.io).poll_flush(cx)
     }
 
+    /// Flushes everything, also when flushes are otherwise aggregated.
+    pub(crate) fn poll_flush_all(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        self.flush_pipeline = false;
+        self.poll_flush(cx)
+    }
+
     pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        ready!(self.poll_flush(cx))?;
+        ready!(self.poll_flush_all(cx))?;
         Pin::new(&mut self.io).poll_shutdown(cx)
     }
 
-- 
2.43.0


From a284273a883bc5777d120744d315b9349ce71bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 09/29] fix: h1 server drops a pending upgrade that the
 response refuses

An Upgrade (or CONNECT) request answered with another status left the pending
upgrade in place: when the connection then closed, the waiter got the transport
although nothing was agreed, and the transport was not shut down.
---
 src/proto/h1/conn.rs | 5 +++++
 src/proto/h1/mod.rs  | 5 +++++
 src/proto/h1/role.rs | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 583a0f5..ee489ae 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -641,6 +641,11 @@ where
             }
         }
 
+        if T::refuses_upgrade(&head.subject, self.state.method.as_ref()) {
+            // dropping it tells the other half
+            self.state.upgrade = None;
+        }
+
         self.enforce_version(&mut head);
 
         let buf = self.io.headers_buf();
diff --git a/src/proto/h1/mod.rs b/src/proto/h1/mod.rs
index 0a442c4..ebe6ba5 100644
--- a/src/proto/h1/mod.rs
+++ b/src/proto/h1/mod.rs
@@ -53,6 +53,11 @@ pub(crate) trait Http1Transaction {
         Self::is_server()
     }
 
+    /// Whether sending this head refuses an upgrade that was asked for.
+    fn refuses_upgrade(_subject: &Self::Outgoing, _req_method: Option<&Method>) -> bool {
+        false
+    }
+
     fn update_date() {}
 }
 
diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 688babe..edb034e 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -510,6 +510,11 @@ impl Http1Transaction for Server {
         true
     }
 
+    fn refuses_upgrade(status: &StatusCode, req_method: Option<&Method>) -> bool {
+        *status != StatusCode::SWITCHING_PROTOCOLS
+            && !(req_method == Some(&Method::CONNECT) && status.is_success())
+    }
+
     fn update_date() {
         date::update();
     }
-- 
2.43.0


From eba036e66d6951a50732322cb4b2fb6445f6eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:54 +0000
Subject: [PATCH 10/29] fix: h1 client never reuse a connection after a
 close-delimited response

---
 src/proto/h1/conn.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index ee489ae..8284fa1 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -299,7 +299,8 @@ where
         }
 
         self.state.busy();
-        self.state.keep_alive &= msg.keep_alive;
+        // A body that ends with the connection leaves nothing to keep alive.
+        self.state.keep_alive &= msg.keep_alive && msg.decode != DecodedLength::CLOSE_DELIMITED;
         self.state.version = msg.head.version;
 
         let mut wants = if msg.wants_upgrade {
-- 
2.43.0


From 0b9fde427adad934cb035b7b8159b8bed4809ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:54 +0000
Subject: [PATCH 11/29] fix: h1 client stop writing once the shutdown has begun

---
 src/proto/h1/dispatch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index ca0902a..da184a0 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -155,6 +155,9 @@ where
                 self.conn.take_error()?;
                 return Poll::Ready(Ok(Dispatched::Upgrade(pending)));
             } else if should_shutdown {
+                // A client stops here when it cannot read any more, and must
+                // not go on writing its request if the shutdown takes a while.
+                self.close();
                 ready!(self.conn.poll_shutdown(cx)).map_err(crate::Error::new_shutdown)?;
             }
             self.conn.take_error()?;
-- 
2.43.0


From 693cb1e879e6db98fd19fc597be99591f8a5ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:55 +0000
Subject: [PATCH 12/29] fix: h2 strip the headers named by every Connection
 line

---
 src/proto/h2/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index 86eeac6..9102738 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -59,8 +59,9 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
     #[cfg(feature = "client")]
     if matches!(kind, MessageKind::Request) {
         if headers
-            .get(http::header::TE)
-            .map_or(false, |te_header| te_header != "trailers")
+            .get_all(http::header::TE)
+            .iter()
+            .any(|te_header| te_header != "trailers")
         {
             warn!("TE headers not set to \"trailers\" are illegal in HTTP/2 requests");
             headers.remove(http::header::TE);
@@ -69,11 +70,15 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
         warn!("TE headers illegal in HTTP/2 responses");
     }
 
-    if let Some(header) = headers.remove(CONNECTION) {
+    // There may be more than one `Connection` line, each with names of its own.
+    let connection: Vec<_> = headers.get_all(CONNECTION).iter().cloned().collect();
+    if headers.remove(CONNECTION).is_some() {
         warn!(
             "Connection header illegal in HTTP/2: {}",
             CONNECTION.as_str()
         );
+    }
+    for header in connection {
         // A `Connection` header may have a comma-separated list of names of other headers that
         // are meant for only this specific connection.
         //
-- 
2.43.0


From b84e3a75fbb870a01e5be519b3d5c6c01b1d5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:12 +0000
Subject: [PATCH 13/29] fix: h2 a body that has already ended is empty whatever
 its content-length

---
 src/body/incoming.rs |  7 ++++---
 src/body/length.rs   | 10 ----------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index e6f1df7..d4666aa 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -156,9 +156,10 @@ impl Incoming {
         mut content_length: DecodedLength,
         ping: ping::Recorder,
     ) -> Self {
-        // If the stream is already EOS, then the "unknown length" is clearly
-        // actually ZERO.
-        if !content_length.is_exact() && recv.is_end_stream() {
+        // If the stream is already EOS, then the length is clearly actually
+        // ZERO, whatever a `content-length` header (such as in the response
+        // to a HEAD request) says.
+        if recv.is_end_stream() {
             content_length = DecodedLength::ZERO;
         }
 
diff --git a/src/body/length.rs b/src/body/length.rs
index 1ed5e0d..39141eb 100644
--- a/src/body/length.rs
+++ b/src/body/length.rs
@@ -74,16 +74,6 @@ impl DecodedLength {
             }
         }
     }
-
-    /// Returns whether this represents an exact length.
-    ///
-    /// This includes 0, which of course is an exact known length.
-    ///
-    /// It would return false if "chunked" or otherwise size-unknown.
-    #[cfg(all(any(feature = "client", feature = "server"), feature = "http2"))]
-    pub(crate) fn is_exact(&self) -> bool {
-        self.0 <= MAX_LEN
-    }
 }
 
 impl fmt::Debug for DecodedLength {
-- 
2.43.0


From 2bb02ce13a9dacc39f19fc27a94062605a941995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 14/29] fix: h2 client do not take a HEAD response's
 content-length for its body's

---
 src/proto/h2/client.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 1930184..31970ad 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -413,6 +413,7 @@ where
     B: Body,
 {
     is_connect: bool,
+    is_head: bool,
     eos: bool,
     fut: ResponseFuture,
     body_tx: SendStream<SendBuf<B::Data>>,
@@ -568,6 +569,7 @@ where
             send_when: SendWhen {
                 when: ResponseFutMap {
                     fut: f.fut,
+                    is_head: f.is_head,
                     ping: Some(ping),
                     send_stream: Some(send_stream),
                     exec: self.executor.clone(),
@@ -587,6 +589,7 @@ pin_project! {
     {
         #[pin]
         fut: ResponseFuture,
+        is_head: bool,
         ping: Option<Recorder>,
         #[pin]
         send_stream: Option<Option<SendStream<SendBuf<<B as Body>::Data>>>>,
@@ -624,7 +627,9 @@ where
                 // record that we got the response headers
                 ping.record_non_data();
 
-                let content_length = headers::content_length_parse_all(res.headers());
+                // the response to a HEAD request has no body to measure
+                let content_length =
+                    headers::content_length_parse_all(res.headers()).filter(|_| !*this.is_head);
                 if let (Some(mut send_stream), StatusCode::OK) = (send_stream, res.status()) {
                     if content_length.map_or(false, |len| len != 0) {
                         warn!("h2 connect response with non-zero body not supported");
@@ -716,6 +721,7 @@ where
                     }
 
                     let is_connect = req.method() == Method::CONNECT;
+                    let is_head = req.method() == Method::HEAD;
                     let eos = body.is_end_stream();
 
                     if is_connect
@@ -748,6 +754,7 @@ where
 
                     let f = FutCtx {
                         is_connect,
+                        is_head,
                         eos,
                         fut,
                         body_tx,
-- 
2.43.0


From 321f99a81922a82908f856e42b1b7da9c0755c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 15/29] fix: h2 a body reset before its declared length has not
 ended cleanly

---
 src/body/incoming.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index d4666aa..db71142 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -247,10 +247,11 @@ impl Body for Incoming {
                             return Poll::Ready(Some(Ok(Frame::data(bytes))));
                         }
                         Some(Err(e)) => {
-                            if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                            let incomplete = len.into_opt().map_or(false, |n| n != 0);
+                            if e.reason() == Some(h2::Reason::NO_ERROR) && !incomplete {
                                 // As mentioned in RFC 7540 Section 8.1, a RST_STREAM with NO_ERROR
                                 // indicates an early response, and should cause the body reading
-                                // to stop, but not fail it:
+                                // to stop, but not fail it, unless it was declared to be longer:
                                 return Poll::Ready(None);
                             } else {
                                 return Poll::Ready(Some(Err(crate::Error::new_body(e))));
-- 
2.43.0


From 05d7d8bcb59e16c11f83317411acc4ffd74e6288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:34 +0000
Subject: [PATCH 16/29] fix: h2 client keep a request that waits for its stream
 when the server goes away

---
 src/proto/h2/client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 31970ad..0aa0074 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -687,6 +687,12 @@ where
             match ready!(self.h2_tx.poll_ready(cx)) {
                 Ok(()) => (),
                 Err(err) => {
+                    // A request that waits for its stream to open has been
+                    // accepted and can still complete (GOAWAY only refuses
+                    // newer ones); otherwise it reports the error itself.
+                    if let Some(f) = self.fut_ctx.take() {
+                        self.poll_pipe(f, cx);
+                    }
                     self.ping.ensure_not_timed_out()?;
                     return if err.reason() == Some(::h2::Reason::NO_ERROR) {
                         trace!("connection gracefully shutdown");
-- 
2.43.0


From 18741a2ddd91969ba7c71103cde5eb7a6831cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:06 +0000
Subject: [PATCH 17/29] fix: do not give up an HTTP/1 upgrade whose written
 handshake is not flushed yet on EOF

---
 src/proto/h1/conn.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 8284fa1..6387f39 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -503,6 +503,14 @@ where
             return Poll::Pending;
         }
 
+        // The handshake of an upgrade only waits to be flushed: an EOF now
+        // already belongs to the upgraded protocol.
+        if self.state.upgrade.is_some()
+            && matches!(self.state.writing, Writing::KeepAlive | Writing::Closed)
+        {
+            return Poll::Pending;
+        }
+
         let num_read = ready!(self.force_io_read(cx)).map_err(crate::Error::new_io)?;
 
         if num_read == 0 {
-- 
2.43.0


From 9ceb334f3e30c1262da4bb5e883bff4559f246fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:06 +0000
Subject: [PATCH 18/29] fix: treat a 204 response to an HTTP/1 CONNECT as a
 tunnel

---
 src/proto/h1/role.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index edb034e..06e2a89 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1295,6 +1295,8 @@ impl Client {
                 trace!("ignoring informational response: {}", inc.subject.as_u16());
                 return Ok(None);
             }
+            // (a 204 to a CONNECT opens a tunnel, see below)
+            204 if *method == Some(Method::CONNECT) => (),
             204 | 304 => return Ok(Some((DecodedLength::ZERO, false))),
             _ => (),
         }
-- 
2.43.0


From e4ee41afa0bd54db4d94d797e775e23e70c2173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:55 +0000
Subject: [PATCH 19/29] fix: h2 upgrade could lose the last write accepted
 right before its close

---
 src/proto/h2/upgrade.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/upgrade.rs b/src/proto/h2/upgrade.rs
index 22f484a..45faf0e 100644
--- a/src/proto/h2/upgrade.rs
+++ b/src/proto/h2/upgrade.rs
@@ -174,7 +174,10 @@ where
             if !h2_has_capacity {
                 // `size_hint` reads the queued message count without popping,
                 // so an accepted write stays queued until h2 capacity returns.
-                if me.rx.size_hint().0 == 0 && me.close_notify.poll_closed(cx).is_ready() {
+                //
+                // The order matters: a write accepted just before the close
+                // is only sure to be counted once the close was seen.
+                if me.close_notify.poll_closed(cx).is_ready() && me.rx.size_hint().0 == 0 {
                     me.h2_tx
                         .send_data(SendBuf::None, true)
                         .map_err(crate::Error::new_body_write)?;
-- 
2.43.0


From e1104924381b3be2d42af490a89621d5e882b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:55 +0000
Subject: [PATCH 20/29] fix: h2 client treat any 2xx answer to CONNECT as a
 tunnel

---
 src/proto/h2/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 0aa0074..4fc9785 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -14,7 +14,7 @@ use futures_channel::{mpsc, oneshot};
 use futures_core::{ready, FusedFuture, FusedStream, Stream};
 use h2::client::{Builder, Connection, SendRequest};
 use h2::SendStream;
-use http::{Method, StatusCode};
+use http::Method;
 use pin_project_lite::pin_project;
 
 use super::ping::{Ponger, Recorder};
@@ -630,7 +630,7 @@ where
                 // the response to a HEAD request has no body to measure
                 let content_length =
                     headers::content_length_parse_all(res.headers()).filter(|_| !*this.is_head);
-                if let (Some(mut send_stream), StatusCode::OK) = (send_stream, res.status()) {
+                if let (Some(mut send_stream), true) = (send_stream, res.status().is_success()) {
                     if content_length.map_or(false, |len| len != 0) {
                         warn!("h2 connect response with non-zero body not supported");
 
-- 
2.43.0


From 77893e917c423c2f66ff9cf6fbe79289f6a173f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:00 +0000
Subject: [PATCH 21/29] fix: http1 header read timeout does not run while a
 response is still being flushed

---
 src/proto/h1/conn.rs | 20 ++++++++++++++++++++
 src/proto/h1/io.rs   |  6 ++++++
 2 files changed, 26 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 6387f39..da62585 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -65,6 +65,8 @@ where
                 #[cfg(feature = "server")]
                 h1_header_read_timeout_running: false,
                 #[cfg(feature = "server")]
+                h1_header_read_timeout_deferred: false,
+                #[cfg(feature = "server")]
                 date_header: true,
                 #[cfg(feature = "server")]
                 timer: Time::Empty,
@@ -223,8 +225,17 @@ where
         debug_assert!(self.can_read_head());
         trace!("Conn::read_head");
 
+        // Time the peer takes to read the previous response doesn't count.
         #[cfg(feature = "server")]
         if !self.state.h1_header_read_timeout_running {
+            self.state.h1_header_read_timeout_deferred =
+                self.state.h1_header_read_timeout.is_some() && self.io.has_unflushed_write();
+        }
+
+        #[cfg(feature = "server")]
+        if !self.state.h1_header_read_timeout_running
+            && !self.state.h1_header_read_timeout_deferred
+        {
             if let Some(h1_header_read_timeout) = self.state.h1_header_read_timeout {
                 let deadline = self.state.timer.now() + h1_header_read_timeout;
                 self.state.h1_header_read_timeout_running = true;
@@ -880,6 +891,12 @@ where
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
         ready!(Pin::new(&mut self.io).poll_flush(cx))?;
         self.try_keep_alive(cx);
+        #[cfg(feature = "server")]
+        if self.state.h1_header_read_timeout_deferred {
+            // Next read will start the header read timeout.
+            self.state.h1_header_read_timeout_deferred = false;
+            self.state.notify_read = true;
+        }
         trace!("flushed({}): {:?}", T::LOG, self.state);
         Poll::Ready(Ok(()))
     }
@@ -983,6 +1000,9 @@ struct State {
     h1_header_read_timeout_fut: Option<Pin<Box<dyn Sleep>>>,
     #[cfg(feature = "server")]
     h1_header_read_timeout_running: bool,
+    /// Set while the timeout is not started because a response is being flushed.
+    #[cfg(feature = "server")]
+    h1_header_read_timeout_deferred: bool,
     #[cfg(feature = "server")]
     date_header: bool,
     #[cfg(feature = "server")]
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 0d16bc8..86d9526 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -159,6 +159,12 @@ where
         self.write_buf.remaining() > 0
     }
 
+    /// Whether buffered bytes are on their way to the transport.
+    #[cfg(feature = "server")]
+    pub(crate) fn has_unflushed_write(&self) -> bool {
+        !self.flush_pipeline && self.has_buffered_write()
+    }
+
     pub(crate) fn can_buffer(&self) -> bool {
         self.flush_pipeline || self.write_buf.can_buffer()
     }
-- 
2.43.0


From 686222ea293db3c45fae59ff1fffd3ac8df3eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 22/29] fix: date header follows the system clock when it is
 set back

---
 src/common/date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/date.rs b/src/common/date.rs
index d348ff7..a9147d0 100644
--- a/src/common/date.rs
+++ b/src/common/date.rs
@@ -62,7 +62,8 @@ impl CachedDate {
 
     fn check(&mut self) {
         let now = SystemTime::now();
-        if now > self.next_update {
+        // The clock may also have been set back since the last update.
+        if now > self.next_update || now + Duration::new(1, 0) < self.next_update {
             self.update(now);
         }
     }
-- 
2.43.0


From b81bf881b7c1bf30a5aa8f2cfa6e7e938c1ffc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 23/29] fix: http2 server keep-alive timeout ends the
 connection even if the peer takes no more bytes

---
 src/proto/h2/server.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 402b866..50532cd 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -261,7 +261,18 @@ where
                 self.poll_ping(cx);
                 sim_point!("h2::server::accept");
 
-                match ready!(self.conn.poll_accept(cx)) {
+                let accepted = match self.conn.poll_accept(cx) {
+                    Poll::Ready(accepted) => accepted,
+                    Poll::Pending => {
+                        // A peer that is not answering may not be reading
+                        // either, so don't wait for it to take the GOAWAY.
+                        if let Some((ping, _)) = &self.ping {
+                            ping.ensure_not_timed_out()?;
+                        }
+                        return Poll::Pending;
+                    }
+                };
+                match accepted {
                     Some(Ok((req, mut respond))) => {
                         trace!("incoming request");
                         let content_length = headers::content_length_parse_all(req.headers());
-- 
2.43.0


From c6a935958578a67a37b226a075318a6820a41f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 24/29] fix: http2 body cut off by an abrupt shutdown of the
 connection is not reported as complete

---
 src/body/incoming.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index db71142..e98b071 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -248,7 +248,10 @@ impl Body for Incoming {
                         }
                         Some(Err(e)) => {
                             let incomplete = len.into_opt().map_or(false, |n| n != 0);
-                            if e.reason() == Some(h2::Reason::NO_ERROR) && !incomplete {
+                            if e.is_reset()
+                                && e.reason() == Some(h2::Reason::NO_ERROR)
+                                && !incomplete
+                            {
                                 // As mentioned in RFC 7540 Section 8.1, a RST_STREAM with NO_ERROR
                                 // indicates an early response, and should cause the body reading
                                 // to stop, but not fail it, unless it was declared to be longer:
@@ -271,7 +274,7 @@ impl Body for Incoming {
                         Poll::Ready(Ok(t.map(Frame::trailers)).transpose())
                     }
                     Err(e) => {
-                        if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                        if e.is_reset() && e.reason() == Some(h2::Reason::NO_ERROR) {
                             // Same as above, a RST_STREAM with NO_ERROR indicates an early
                             // response, and should cause reading the trailers to stop, but
                             // not fail it:
-- 
2.43.0


From 288564125f1eaa6b2260daefc904977916de1b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:49 +0000
Subject: [PATCH 25/29] fix: refuse an HTTP/2 CONNECT with a body without
 ending the connection

---
 src/proto/h2/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 50532cd..fd82a8d 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -299,7 +299,7 @@ where
                             if content_length.map_or(false, |len| len != 0) {
                                 warn!("h2 connect request with non-zero body not supported");
                                 respond.send_reset(h2::Reason::INTERNAL_ERROR);
-                                return Poll::Ready(Ok(()));
+                                continue;
                             }
                             let (pending, upgrade) = crate::upgrade::pending();
                             debug_assert!(parts.extensions.get::<OnUpgrade>().is_none());
-- 
2.43.0


From e2f294aa22360dad4b1d80aa44bfefcee9164c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:30 +0000
Subject: [PATCH 26/29] fix: "chunked" appended to the fields after a
 transfer-encoding that lacked it

When a response carried a transfer-encoding not ending in chunked, the
flag asking for ", chunked" stayed set and was applied to every joined
field that followed: "connection: close, chunked", "trailer: x, chunked".
---
 src/proto/h1/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 06e2a89..8bd7380 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -696,7 +696,7 @@ impl Server {
                         "previous header wrote newline but set is_name_written"
                     );
 
-                    if must_write_chunked {
+                    if std::mem::take(&mut must_write_chunked) {
                         extend(dst, b", chunked\r\n");
                     } else {
                         extend(dst, b"\r\n");
-- 
2.43.0


From 80bbf432153316e14d9c7c2db0b5895b95bd399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 27/29] fix: keep the HTTP/2 client connection when a window
 update finds the last one unacknowledged

---
 src/proto/h2/client.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 4fc9785..372c678 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -239,7 +239,11 @@ where
         match this.ponger.poll(cx) {
             Poll::Ready(ping::Ponged::SizeUpdate(wnd)) => {
                 this.conn.set_target_window_size(wnd);
-                this.conn.set_initial_window_size(wnd)?;
+                // Only fails while a previous change waits to be acknowledged,
+                // which is no reason to close the connection.
+                if let Err(_e) = this.conn.set_initial_window_size(wnd) {
+                    debug!("initial window size not updated: {}", _e);
+                }
             }
             Poll::Ready(ping::Ponged::KeepAliveTimedOut) => {
                 debug!("connection keep-alive timed out");
-- 
2.43.0


From 517eeac66982c718b2951b481c03d517523dd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:28 +0000
Subject: [PATCH 28/29] fix: do not declare a length for an HTTP/1 request that
 has no body

---
 src/proto/h1/role.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 8bd7380..46c55f5 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1344,6 +1344,14 @@ impl Client {
             body
         } else {
             head.headers.remove(header::TRANSFER_ENCODING);
+            // With no body to send, a declared length would have the server
+            // take the next request for the body.
+            if head.headers.contains_key(header::CONTENT_LENGTH)
+                && headers::content_length_parse_all(&head.headers) != Some(0)
+            {
+                warn!("content-length value found, but empty body provided");
+                head.headers.remove(header::CONTENT_LENGTH);
+            }
             return Encoder::length(0);
         };
 
-- 
2.43.0


From 3814f5667e0ac020bb77e476e665fcb7b653c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:22 +0000
Subject: [PATCH 29/29] fix: recognise an HTTP/0.9 response that arrives in
 small pieces

Once a partial head had been seen, parsing was skipped until a blank line
showed up. An HTTP/0.9 response has no head, so one whose first bytes
arrived in several reads was never recognised and failed as incomplete.
---
 src/proto/h1/role.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 46c55f5..0d6c50c 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -86,7 +86,8 @@ where
     let _entered = trace_span!("parse_headers");
 
     if let Some(prev_len) = prev_len {
-        if !is_complete_fast(bytes, prev_len) {
+        // An HTTP/0.9 response has no head, and so no blank line to scan for.
+        if !ctx.h09_responses && !is_complete_fast(bytes, prev_len) {
             return Ok(None);
         }
     }
-- 
2.43.0

