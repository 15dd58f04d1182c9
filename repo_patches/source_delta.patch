From b5228d9fc23a3975cbb54ea275499b3acdcc7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:25 +0000
Subject: [PATCH 01/41] fix: reject unsigned varints longer than ten bytes
 instead of overflowing the shift

---
 src/binary/read_ex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index cb47f22..7a94787 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -90,6 +90,10 @@ where
                 return Ok(x | (u64::from(b) << s));
             }
 
+            if i >= 9 {
+                return Err(Error::Driver(DriverError::Overflow));
+            }
+
             x |= u64::from(b & 0x7f) << s;
             s += 7;
 
-- 
2.43.0


From aaf699e81d048fbc6ce6243b727c381c9b3551cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:46 +0000
Subject: [PATCH 02/41] fix: deliver packets that are already buffered when the
 server closes the connection

---
 src/io/transport.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 75f8f0e..d2a853b 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -286,7 +286,7 @@ impl Stream for ClickhouseTransport {
             }
         }
 
-        if *this.done {
+        if *this.done && this.rd.is_empty() {
             return Poll::Ready(None);
         }
 
@@ -295,6 +295,11 @@ impl Stream for ClickhouseTransport {
 
         *this.buf_is_incomplete = matches!(ret, Poll::Pending);
 
+        if *this.done && ret.is_pending() {
+            // The connection is closed in the middle of a packet
+            return Poll::Ready(Some(Err(io::ErrorKind::UnexpectedEof.into())));
+        }
+
         ret
     }
 }
-- 
2.43.0


From 7c17366be57425a901a222219ebbb6981d14abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:47 +0000
Subject: [PATCH 03/41] fix: report a connection closed by the server as an
 error instead of panicking

---
 src/io/transport.rs | 7 ++++---
 src/lib.rs          | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index d2a853b..74aa07b 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -18,7 +18,7 @@ use pin_project::pin_project;
 
 use crate::{
     binary::Parser,
-    errors::{DriverError, Error, Result},
+    errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
     pool::{Inner, Pool},
     types::{Block, Cmd, Packet},
@@ -119,7 +119,7 @@ impl ClickhouseTransport {
             }
         }
 
-        let mut transport = h.unwrap();
+        let mut transport = h.ok_or(Error::Connection(ConnectionError::Broken))?;
         transport.inconsistent = false;
         Ok(transport)
     }
@@ -321,7 +321,8 @@ impl PacketStream {
             }
         }
 
-        Ok((h.unwrap(), b))
+        let transport = h.ok_or(Error::Connection(ConnectionError::Broken))?;
+        Ok((transport, b))
     }
 
     pub(crate) fn take_transport(&mut self) -> Option<ClickhouseTransport> {
diff --git a/src/lib.rs b/src/lib.rs
index c475868..4c276a8 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -324,7 +324,7 @@ impl ClientHandle {
         }
 
         self.inner = h;
-        self.context.server_info = info.unwrap();
+        self.context.server_info = info.ok_or(Error::Connection(ConnectionError::Broken))?;
         Ok(())
     }
 
@@ -422,7 +422,7 @@ impl ClientHandle {
                             }
                         }
 
-                        Ok(h.unwrap())
+                        h.ok_or(Error::Connection(ConnectionError::Broken))
                     }
                 })
                 .await
@@ -498,7 +498,7 @@ impl ClientHandle {
     ) -> Result<(ClickhouseTransport, Block)> {
         let stream = transport.call(Cmd::SendQuery(query, context));
         let (transport, b) = stream.read_block().await?;
-        let dst_block = b.unwrap();
+        let dst_block = b.ok_or(Error::Driver(DriverError::UnexpectedPacket))?;
         Ok((transport, dst_block))
     }
 
-- 
2.43.0


From c2004a2aef2c3af5d2501cc0ca53e727ccd1e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:26 +0000
Subject: [PATCH 04/41] fix: make attaching and detaching a handle idempotent
 so that it can be reused after an error

---
 src/pool/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 5d94fa0..e8548c2 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -84,14 +84,14 @@ impl PoolBinding {
     pub(crate) fn attach(&mut self) {
         match self.take() {
             PoolBinding::Detached(pool) => *self = PoolBinding::Attached(pool),
-            _ => unreachable!(),
+            other => *self = other,
         }
     }
 
     pub(crate) fn detach(&mut self) {
         match self.take() {
             PoolBinding::Attached(pool) => *self = PoolBinding::Detached(pool),
-            _ => unreachable!(),
+            other => *self = other,
         }
     }
 }
-- 
2.43.0


From 454167fdbab7dd7efc19b985506321d569287ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:27 +0000
Subject: [PATCH 05/41] fix: count successful reconnects as attempts so that
 retrying is bounded

---
 src/retry_guard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 6d68962..68c553d 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -29,7 +29,7 @@ pub(crate) async fn retry_guard(
         }
 
         match reconnect(handle, source, pool.clone()).await {
-            Ok(()) => continue,
+            Ok(()) => {}
             Err(err) => {
                 skip_check = true;
                 if attempt >= max_attempt {
-- 
2.43.0


From 602f763fb84a5d479cab3385e139403ed28012c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:28 +0000
Subject: [PATCH 06/41] fix: don't send a second terminating block when
 inserting a block without rows

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4c276a8..9754d76 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -507,10 +507,10 @@ impl ClientHandle {
         context: Context,
         block: Block,
     ) -> Result<ClickhouseTransport> {
-        let send_cmd = Cmd::Union(
-            Box::new(Cmd::SendData(block, context.clone())),
-            Box::new(Cmd::SendData(Block::default(), context)),
-        );
+        let mut send_cmd = Cmd::SendData(Block::default(), context.clone());
+        if !block.is_empty() {
+            send_cmd = Cmd::Union(Box::new(Cmd::SendData(block, context)), Box::new(send_cmd));
+        }
         let (transport, _) = transport.call(send_cmd).read_block().await?;
         Ok(transport)
     }
-- 
2.43.0


From ea428e0bc259e02dd3c9a5ee170bb2222120c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:29 +0000
Subject: [PATCH 07/41] fix: don't return a connection to the handle after a
 malformed or unexpected packet

---
 src/types/query_result/stream_blocks.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 83f6103..4e800b0 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -86,7 +86,10 @@ impl<'a> Stream for BlockStream<'a> {
             };
 
             let packet = match self.inner.poll_next_unpin(cx) {
-                Poll::Ready(Some(Err(err))) => return Poll::Ready(Some(Err(err.into()))),
+                Poll::Ready(Some(Err(err))) => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(err.into())));
+                }
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(None) => {
                     self.state = BlockStreamState::Error;
@@ -116,7 +119,10 @@ impl<'a> Stream for BlockStream<'a> {
                         return Poll::Ready(Some(Ok(block)));
                     }
                 }
-                _ => return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket)))),
+                _ => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket))));
+                }
             }
         }
     }
-- 
2.43.0


From 3369f8f5a72f4a97ead4760b363a04c776f2d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:31 +0000
Subject: [PATCH 08/41] fix: skip the rest of an abandoned result before the
 next query when ping_before_query is off

---
 src/lib.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9754d76..d5dda50 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -550,25 +550,30 @@ impl ClientHandle {
             Err(err) => return Box::pin(stream::once(future::err(err))),
         };
 
-        if ping_before_query {
-            let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
-                let inner: BoxStream<'a, Result<Block>> = match self.check_connection().await {
-                    Ok(_) => match f(self) {
-                        Ok(s) => Box::pin(s),
-                        Err(err) => Box::pin(stream::once(future::err(err))),
-                    },
+        let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
+            let ready = if ping_before_query {
+                self.check_connection().await
+            } else {
+                self.clear_inner().await
+            };
+            let inner: BoxStream<'a, Result<Block>> = match ready {
+                Ok(_) => match f(self) {
+                    Ok(s) => Box::pin(s),
                     Err(err) => Box::pin(stream::once(future::err(err))),
-                };
-                inner
-            });
-
-            Box::pin(fut.flatten_stream())
-        } else {
-            match f(self) {
-                Ok(s) => Box::pin(s),
+                },
                 Err(err) => Box::pin(stream::once(future::err(err))),
-            }
-        }
+            };
+            inner
+        });
+
+        Box::pin(fut.flatten_stream())
+    }
+
+    /// Skip what is left of the result of an abandoned query.
+    async fn clear_inner(&mut self) -> Result<()> {
+        let transport = self.get_inner()?.clear().await?;
+        self.inner = Some(transport);
+        Ok(())
     }
 
     /// Check connection and try to reconnect if necessary.
-- 
2.43.0


From 2f78a3d6a60aa6a3100b6129fe14138e4f0cb86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:58 +0000
Subject: [PATCH 09/41] fix: wake the other waiters when a pending pool
 connection completes, fails or loses its driver

---
 src/pool/futures/get_handle.rs | 20 +++++++++++++++++---
 src/pool/mod.rs                |  8 +++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/pool/futures/get_handle.rs b/src/pool/futures/get_handle.rs
index df584e8..d647708 100644
--- a/src/pool/futures/get_handle.rs
+++ b/src/pool/futures/get_handle.rs
@@ -4,12 +4,12 @@ use std::{
     task::{Context, Poll},
 };
 
-use pin_project::pin_project;
+use pin_project::{pin_project, pinned_drop};
 
 use crate::{errors::Result, pool::Pool, ClientHandle};
 
 /// Future that resolves to a `ClientHandle`.
-#[pin_project]
+#[pin_project(PinnedDrop)]
 pub struct GetHandle {
     #[pin]
     pool: Pool,
@@ -21,10 +21,24 @@ impl GetHandle {
     }
 }
 
+#[pinned_drop]
+impl PinnedDrop for GetHandle {
+    fn drop(self: Pin<&mut Self>) {
+        // This future may have been the one that drives the pending connection.
+        self.pool.inner.wake_tasks();
+    }
+}
+
 impl Future for GetHandle {
     type Output = Result<ClientHandle>;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        self.project().pool.poll(cx)
+        let mut this = self.project();
+        let result = this.pool.as_mut().poll(cx);
+        if result.is_ready() {
+            // The pending connection may have completed or failed, let the others try.
+            this.pool.inner.wake_tasks();
+        }
+        result
     }
 }
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index e8548c2..b6253db 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -33,6 +33,10 @@ pub(crate) struct Inner {
 impl Inner {
     pub(crate) fn release_conn(&self) {
         self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        self.wake_tasks();
+    }
+
+    pub(crate) fn wake_tasks(&self) {
         while let Some(task) = self.tasks.pop() {
             task.wake()
         }
@@ -264,9 +268,7 @@ impl Pool {
         }
         self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
 
-        while let Some(task) = self.inner.tasks.pop() {
-            task.wake()
-        }
+        self.inner.wake_tasks();
     }
 
     pub(crate) fn get_addr(&self) -> &Url {
-- 
2.43.0


From f69aa1d4c884b8e6bbf3a5576374357e5f834b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:03 +0000
Subject: [PATCH 10/41] fix: serialize pool accounting so that concurrent tasks
 can't exceed pool_max or miss a wake-up

---
 src/pool/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index b6253db..1d0077c 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -2,7 +2,7 @@ use std::{
     fmt, mem,
     pin::Pin,
     sync::atomic::{self, Ordering},
-    sync::Arc,
+    sync::{Arc, Mutex, MutexGuard, PoisonError},
     task::{Context, Poll, Waker},
 };
 
@@ -28,14 +28,23 @@ pub(crate) struct Inner {
     ongoing: atomic::AtomicUsize,
     hosts: Vec<Url>,
     connections_num: atomic::AtomicUsize,
+    // Held while a connection is created, taken or returned, so that `conn_count`
+    // doesn't miss one on its way and a waiter doesn't miss its wake-up.
+    guard: Mutex<()>,
 }
 
 impl Inner {
     pub(crate) fn release_conn(&self) {
+        let guard = self.lock();
         self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        drop(guard);
         self.wake_tasks();
     }
 
+    fn lock(&self) -> MutexGuard<'_, ()> {
+        self.guard.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
     pub(crate) fn wake_tasks(&self) {
         while let Some(task) = self.tasks.pop() {
             task.wake()
@@ -169,6 +178,7 @@ impl Pool {
             ongoing: atomic::AtomicUsize::new(0),
             connections_num: atomic::AtomicUsize::new(0),
             hosts,
+            guard: Mutex::new(()),
         });
 
         Self {
@@ -194,6 +204,9 @@ impl Pool {
     }
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
+        let inner = self.inner.clone();
+        let guard = inner.lock();
+
         self.handle_futures(cx)?;
 
         match self.take_conn() {
@@ -210,6 +223,7 @@ impl Pool {
                     }
                 };
                 if new_conn_created {
+                    drop(guard);
                     self.poll(cx)
                 } else {
                     Poll::Pending
@@ -263,10 +277,12 @@ impl Pool {
         client.pool = PoolBinding::None;
         client.set_inside(true);
 
+        let guard = self.inner.lock();
         if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
             let _ = self.inner.idle.push(client);
         }
         self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
+        drop(guard);
 
         self.inner.wake_tasks();
     }
-- 
2.43.0


From fe78045cf6c3c860921b3eeab7e2f5caf5625398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:36 +0000
Subject: [PATCH 11/41] fix: write array and map offsets relative to the saved
 range

---
 src/types/column/array.rs | 11 ++++++++---
 src/types/column/map.rs   | 13 +++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index b083012..8cad276 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -49,14 +49,19 @@ impl ColumnData for ArrayColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let first = if start > 0 {
+            self.offsets.at(start - 1)
+        } else {
+            0_u64
+        };
+        let mut offset = first;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - first);
         }
 
-        self.inner.save(encoder, 0, offset as usize);
+        self.inner.save(encoder, first as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 73e014a..491c146 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -54,15 +54,20 @@ impl ColumnData for MapColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let first = if start > 0 {
+            self.offsets.at(start - 1)
+        } else {
+            0_u64
+        };
+        let mut offset = first;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - first);
         }
 
-        self.keys.save(encoder, 0, offset as usize);
-        self.values.save(encoder, 0, offset as usize);
+        self.keys.save(encoder, first as usize, offset as usize);
+        self.values.save(encoder, first as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 5f5472c28d46ad97071ef45b55807b07a55532b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:37 +0000
Subject: [PATCH 12/41] fix: reject compressed frames whose sizes are
 inconsistent

---
 src/types/block/compressed.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index d2c43a8..845d647 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -83,6 +83,10 @@ where
         return Err(raise_error("compressed data too big".to_string()));
     }
 
+    if compressed < 9 {
+        return Err(raise_error("compressed data too small".to_string()));
+    }
+
     buffer.resize(compressed as usize, 0_u8);
     {
         let mut cursor = io::Cursor::new(&mut buffer);
@@ -106,7 +110,7 @@ where
         )
     };
 
-    if status < 0 {
+    if status < 0 || status as u32 != original {
         return Err(raise_error("can't decompress data".to_string()));
     }
 
-- 
2.43.0


From d20dc1620d264ec3904a41014e424c99eea92acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:38 +0000
Subject: [PATCH 13/41] fix: copy nested columns when a shared column is cloned
 for writing

---
 src/types/column/array.rs           | 2 +-
 src/types/column/low_cardinality.rs | 2 +-
 src/types/column/map.rs             | 4 ++--
 src/types/column/nullable.rs        | 2 +-
 src/types/column/simple_agg_func.rs | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 8cad276..746249a 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -106,7 +106,7 @@ impl ColumnData for ArrayColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: self.inner.clone_instance().into(),
             offsets: self.offsets.clone(),
         })
     }
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index a69eac9..ddcef45 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -335,7 +335,7 @@ impl ColumnData for LowCardinalityColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: self.inner.clone_instance().into(),
             index: self.index.clone(),
             value_map: None,
         })
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 491c146..7f5be78 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -117,8 +117,8 @@ impl ColumnData for MapColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            keys: self.keys.clone(),
-            values: self.values.clone(),
+            keys: self.keys.clone_instance().into(),
+            values: self.values.clone_instance().into(),
             offsets: self.offsets.clone(),
             size: self.size,
         })
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index d9b2b6e..43d99e2 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -85,7 +85,7 @@ impl ColumnData for NullableColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: self.inner.clone_instance().into(),
             nulls: self.nulls.clone(),
         })
     }
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index dfe24c3..c25e89a 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -57,7 +57,7 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: self.inner.clone_instance().into(),
             func: self.func,
         })
     }
-- 
2.43.0


From 57af8b4dafd575b20c25d5f0042ed23f03219644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:40 +0000
Subject: [PATCH 14/41] fix: implement writing of DateTime64 columns

---
 src/types/column/datetime64.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 7aa80d4..a70b2ca 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -56,8 +56,10 @@ impl ColumnData for DateTime64ColumnData {
         SqlType::DateTime(DateTimeType::DateTime64(precision, tz))
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        for i in start..end {
+            encoder.write(self.data.at(i));
+        }
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 17d0ac45f6791a3b0a33cd766e8ba1dfc2971fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:33 +0000
Subject: [PATCH 15/41] fix: convert DateTime64 values before the epoch and
 outside the nanosecond range

---
 src/types/column/datetime64.rs | 47 +++++++++++++++++++---------------
 src/types/from_sql.rs          |  6 +++--
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index a70b2ca..94548d3 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -120,8 +120,11 @@ impl ColumnData for DateTime64ColumnData {
 
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
     let base10: i64 = 10;
-    let timestamp = time.timestamp_nanos_opt().unwrap();
-    timestamp / base10.pow(9 - precision)
+    let subsec = i64::from(time.timestamp_subsec_nanos()) / base10.pow(9 - precision);
+    time.timestamp()
+        .checked_mul(base10.pow(precision))
+        .and_then(|value| value.checked_add(subsec))
+        .expect("time should be representable as DateTime64")
 }
 
 #[inline(always)]
@@ -129,36 +132,38 @@ pub(crate) fn to_datetime(value: i64, precision: u32, tz: Tz) -> DateTime<Tz> {
     to_datetime_opt(value, precision, tz).unwrap()
 }
 
+/// Splits ticks of the given precision into seconds and nanoseconds.
 #[inline(always)]
-pub(crate) fn to_datetime_opt(value: i64, precision: u32, tz: Tz) -> LocalResult<DateTime<Tz>> {
+pub(crate) fn to_timestamp(value: i64, precision: u32) -> (i64, u32) {
     let base10: i64 = 10;
 
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
+    if precision >= 19 {
+        return (0, 0);
+    }
+
+    let ticks = base10.pow(precision);
+    let sec = value.div_euclid(ticks);
+    let subsec = value.rem_euclid(ticks);
+
+    let nsec = if precision <= 9 {
+        subsec * base10.pow(9 - precision)
     } else {
-        0_i64
+        subsec / base10.pow(precision - 9)
     };
 
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
+    (sec, nsec as u32)
+}
 
-    tz.timestamp_opt(sec, nsec as u32)
+#[inline(always)]
+pub(crate) fn to_datetime_opt(value: i64, precision: u32, tz: Tz) -> LocalResult<DateTime<Tz>> {
+    let (sec, nsec) = to_timestamp(value, precision);
+    tz.timestamp_opt(sec, nsec)
 }
 
 #[inline(always)]
 pub(crate) fn to_native_datetime_opt(value: i64, precision: u32) -> Option<NaiveDateTime> {
-    let base10: i64 = 10;
-
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
-
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    NaiveDateTime::from_timestamp_opt(sec, nsec as u32)
+    let (sec, nsec) = to_timestamp(value, precision);
+    NaiveDateTime::from_timestamp_opt(sec, nsec)
 }
 
 #[cfg(test)]
diff --git a/src/types/from_sql.rs b/src/types/from_sql.rs
index a5e580d..bab8961 100644
--- a/src/types/from_sql.rs
+++ b/src/types/from_sql.rs
@@ -10,7 +10,7 @@ use std::{
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::to_datetime,
+        column::datetime64::to_datetime_opt,
         value::{decode_ipv4, decode_ipv6},
         Decimal, Enum16, Enum8, SqlType, ValueRef,
     },
@@ -323,7 +323,9 @@ impl<'a> FromSql<'a> for DateTime<Tz> {
             }
             ValueRef::DateTime64(v, params) => {
                 let (precision, tz) = *params;
-                Ok(to_datetime(v, precision, tz))
+                to_datetime_opt(v, precision, tz)
+                    .single()
+                    .ok_or(Error::FromSql(FromSqlError::OutOfRange))
             }
             _ => {
                 let from = SqlType::from(value).to_string();
-- 
2.43.0


From 8d188adcd3652e1edb871237273eb903f0063c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:34 +0000
Subject: [PATCH 16/41] fix: compare and hash decimals of different scales
 consistently and without overflow

---
 src/types/decimal.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 800ca1b..ea249e4 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -62,10 +62,14 @@ impl Default for Decimal {
 
 impl Hash for Decimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.underlying.hash(state);
-        self.nobits.hash(state);
-        self.precision.hash(state);
-        self.scale.hash(state);
+        // equal numbers should have equal hashes regardless of their scales
+        let (mut underlying, mut scale) = (self.underlying, self.scale);
+        while scale > 0 && underlying % 10 == 0 {
+            underlying /= 10;
+            scale -= 1;
+        }
+        underlying.hash(state);
+        scale.hash(state);
     }
 }
 
@@ -125,14 +129,12 @@ impl PartialEq for Decimal {
         match self.scale.cmp(&other.scale) {
             Ordering::Less => {
                 let delta = other.scale() - self.scale();
-                let underlying = self.underlying * FACTORS10[delta];
-                other.underlying == underlying
+                self.underlying.checked_mul(FACTORS10[delta]) == Some(other.underlying)
             }
             Ordering::Equal => self.underlying == other.underlying,
             Ordering::Greater => {
                 let delta = self.scale() - other.scale();
-                let underlying = other.underlying * FACTORS10[delta];
-                self.underlying == underlying
+                other.underlying.checked_mul(FACTORS10[delta]) == Some(self.underlying)
             }
         }
     }
-- 
2.43.0


From d72e27621c17b9e45bcb798d05665cadb8638f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:35 +0000
Subject: [PATCH 17/41] fix: print negative and integral decimals correctly

---
 src/types/decimal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index ea249e4..708344a 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -141,15 +141,20 @@ impl PartialEq for Decimal {
 }
 
 fn decimal2str(decimal: &Decimal) -> String {
-    let mut r = format!("{}", decimal.underlying);
+    let mut r = format!("{}", decimal.underlying.unsigned_abs());
     while r.len() < decimal.scale() {
         r.insert(0, '0');
     }
     let pos = r.len() - decimal.scale();
-    r.insert(pos, '.');
+    if decimal.scale() > 0 {
+        r.insert(pos, '.');
+    }
     if r.starts_with('.') {
         r.insert(0, '0');
     }
+    if decimal.underlying < 0 {
+        r.insert(0, '-');
+    }
     r
 }
 
-- 
2.43.0


From 4c4bdfa88be9b6cf338c38566be096021b0556ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:36 +0000
Subject: [PATCH 18/41] fix: scale small integers in i64 when they are
 converted to decimals

---
 src/types/decimal.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 708344a..4b96504 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -78,7 +78,7 @@ macro_rules! base_for {
         $(
             impl Base for $t {
                 fn scale(self, scale: i64) -> i64 {
-                    $cast(self * (scale as $t)) as i64
+                    ($cast)(self, scale)
                 }
             }
         )*
@@ -86,16 +86,16 @@ macro_rules! base_for {
 }
 
 base_for! {
-    f32: std::convert::identity,
-    f64: std::convert::identity,
-    i8: i64::from,
-    i16: i64::from,
-    i32: i64::from,
-    i64: std::convert::identity,
-    u8: i64::from,
-    u16: i64::from,
-    u32: i64::from,
-    u64 : std::convert::identity
+    f32: |value: f32, scale| (value * scale as f32) as i64,
+    f64: |value: f64, scale| (value * scale as f64) as i64,
+    i8: |value, scale| i64::from(value) * scale,
+    i16: |value, scale| i64::from(value) * scale,
+    i32: |value, scale| i64::from(value) * scale,
+    i64: |value, scale| value * scale,
+    u8: |value, scale| i64::from(value) * scale,
+    u16: |value, scale| i64::from(value) * scale,
+    u32: |value, scale| i64::from(value) * scale,
+    u64: |value: u64, scale| (value * scale as u64) as i64
 }
 
 impl InternalResult for i32 {
-- 
2.43.0


From 32b45552be93788eb393e35eba9a5ca04b85f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:37 +0000
Subject: [PATCH 19/41] fix: rescale decimals that are pushed into a column of
 a different scale

---
 src/types/column/decimal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/column/decimal.rs b/src/types/column/decimal.rs
index cab49c8..51aaa4e 100644
--- a/src/types/column/decimal.rs
+++ b/src/types/column/decimal.rs
@@ -152,6 +152,7 @@ impl ColumnData for DecimalColumnData {
 
     fn push(&mut self, value: Value) {
         if let Value::Decimal(decimal) = value {
+            let decimal = decimal.set_scale(self.scale);
             match self.nobits {
                 NoBits::N32 => {
                     let internal: i32 = decimal.internal();
-- 
2.43.0


From 8e1dc2ecf63ece5ed1fba5ade75696d90473d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:33 +0000
Subject: [PATCH 20/41] fix: make equality and hashing of values total and
 consistent

---
 src/types/value.rs     | 43 +++++++++++++++++++-----------------------
 src/types/value_ref.rs | 32 +++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/src/types/value.rs b/src/types/value.rs
index 9b38b41..ffff7ae 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -75,7 +75,21 @@ impl Hash for Value {
             Self::Date(d) => d.hash(state),
             Self::DateTime(t, _) => t.hash(state),
             Self::DateTime64(t, (prec_a, _)) => (*t, *prec_a).hash(state),
-            _ => unimplemented!(),
+            Self::Bool(b) => b.hash(state),
+            // zeros of both signs are equal
+            Self::Float32(f) => (*f + 0.0).to_bits().hash(state),
+            Self::Float64(f) => (*f + 0.0).to_bits().hash(state),
+            Self::ChronoDateTime(t) => t.hash(state),
+            Self::Ipv4(ip) => ip.hash(state),
+            Self::Ipv6(ip) => ip.hash(state),
+            Self::Uuid(id) => id.hash(state),
+            Self::Nullable(Either::Left(_)) => state.write_u8(0),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            Self::Decimal(d) => d.hash(state),
+            Self::Enum8(_, e) => e.hash(state),
+            Self::Enum16(_, e) => e.hash(state),
+            Self::Map(_, _, vs) => vs.len().hash(state),
         }
     }
 }
@@ -118,30 +132,11 @@ impl PartialEq for Value {
             (Value::Ipv4(a), Value::Ipv4(b)) => *a == *b,
             (Value::Ipv6(a), Value::Ipv6(b)) => *a == *b,
             (Value::Uuid(a), Value::Uuid(b)) => *a == *b,
-            (Value::DateTime64(a, (prec_a, tz_a)), Value::DateTime64(b, (prec_b, tz_b))) => {
-                // chrono has no "variable-precision" offset method. As a
-                // fallback, we always use `timestamp_nanos` and multiply by
-                // the correct value.
-                #[rustfmt::skip]
-                const MULTIPLIERS: [i64; 10] = [
-                    1_000_000_000, // 1 s  is 10^9 nanos
-                      100_000_000,
-                       10_000_000,
-                        1_000_000, // 1 ms is 10^6 nanos
-                          100_000,
-                           10_000,
-                            1_000, // 1 µs is 10^3 nanos
-                              100,
-                               10,
-                                1, // 1 ns is 1 nanos!
-                ];
-
-                // The precision must be in the [0 - 9] range. As such, the
-                // following indexing can not fail.
-                prec_a == prec_b
-                    && tz_a.timestamp_nanos(a * MULTIPLIERS[*prec_a as usize])
-                        == tz_b.timestamp_nanos(b * MULTIPLIERS[*prec_b as usize])
+            (Value::DateTime64(a, (prec_a, _)), Value::DateTime64(b, (prec_b, _))) => {
+                // values of the same precision are equal when they have the same number of ticks
+                prec_a == prec_b && a == b
             }
+            (Value::Map(ka, va, a), Value::Map(kb, vb, b)) => *ka == *kb && *va == *vb && *a == *b,
 
             _ => false,
         }
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index 081c0b2..93e75b0 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -14,7 +14,7 @@ use uuid::Uuid;
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::to_datetime,
+        column::datetime64::{to_datetime, to_timestamp},
         decimal::Decimal,
         value::{decode_ipv4, decode_ipv6, AppDate, AppDateTime},
         DateTimeType, Enum16, Enum8, SqlType, Value,
@@ -69,7 +69,23 @@ impl<'a> Hash for ValueRef<'a> {
             Self::UInt32(i) => i.hash(state),
             Self::UInt64(i) => i.hash(state),
             Self::UInt128(i) => i.hash(state),
-            _ => unimplemented!(),
+            Self::Bool(b) => b.hash(state),
+            // zeros of both signs are equal
+            Self::Float32(f) => (*f + 0.0).to_bits().hash(state),
+            Self::Float64(f) => (*f + 0.0).to_bits().hash(state),
+            Self::Date(d) => d.hash(state),
+            Self::DateTime(t, _) => t.hash(state),
+            Self::DateTime64(t, (precision, _)) => to_timestamp(*t, *precision).hash(state),
+            Self::Ipv4(ip) => ip.hash(state),
+            Self::Ipv6(ip) => ip.hash(state),
+            Self::Uuid(id) => id.hash(state),
+            Self::Nullable(Either::Left(_)) => state.write_u8(0),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            Self::Decimal(d) => d.hash(state),
+            Self::Enum8(_, e) => e.hash(state),
+            Self::Enum16(_, e) => e.hash(state),
+            Self::Map(_, _, vs) => vs.len().hash(state),
         }
     }
 }
@@ -79,6 +95,7 @@ impl<'a> Eq for ValueRef<'a> {}
 impl<'a> PartialEq for ValueRef<'a> {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
+            (ValueRef::Bool(a), ValueRef::Bool(b)) => *a == *b,
             (ValueRef::UInt8(a), ValueRef::UInt8(b)) => *a == *b,
             (ValueRef::UInt16(a), ValueRef::UInt16(b)) => *a == *b,
             (ValueRef::UInt32(a), ValueRef::UInt32(b)) => *a == *b,
@@ -103,12 +120,15 @@ impl<'a> PartialEq for ValueRef<'a> {
             (ValueRef::Decimal(a), ValueRef::Decimal(b)) => *a == *b,
             (ValueRef::Enum8(a0, a1), ValueRef::Enum8(b0, b1)) => *a1 == *b1 && *a0 == *b0,
             (ValueRef::Enum16(a0, a1), ValueRef::Enum16(b0, b1)) => *a1 == *b1 && *a0 == *b0,
+            (ValueRef::Ipv4(a), ValueRef::Ipv4(b)) => *a == *b,
+            (ValueRef::Ipv6(a), ValueRef::Ipv6(b)) => *a == *b,
+            (ValueRef::Uuid(a), ValueRef::Uuid(b)) => *a == *b,
             (ValueRef::DateTime64(this, this_params), ValueRef::DateTime64(that, that_params)) => {
-                let (this_precision, this_tz) = **this_params;
-                let (that_precision2, that_tz) = **that_params;
+                let (this_precision, _) = **this_params;
+                let (that_precision2, _) = **that_params;
 
-                let this_time = to_datetime(*this, this_precision, this_tz);
-                let that_time = to_datetime(*that, that_precision2, that_tz);
+                let this_time = to_timestamp(*this, this_precision);
+                let that_time = to_timestamp(*that, that_precision2);
 
                 this_time == that_time
             }
-- 
2.43.0


From 067028511681f9d95de57356165f7fd5e1c864ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:34 +0000
Subject: [PATCH 21/41] fix: choose the LowCardinality index width by the
 dictionary position and reject inconsistent indexes

---
 src/types/column/low_cardinality.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index ddcef45..e266cc1 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -143,7 +143,7 @@ impl LowCardinalityIndex {
     }
 
     fn push(&mut self, value: usize) {
-        if self.len() + 1 > self.max_len() {
+        while value > self.max_len() {
             *self = self.inc_max_len();
         }
         match self {
@@ -256,7 +256,11 @@ fn read_inner<R: ReadEx>(
 
     let keys_rows: u64 = reader.read_scalar()?;
     let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
-    assert_eq!(flags, keys.get_flags());
+    if flags != keys.get_flags() || keys_rows != size as u64 {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Invalid low cardinality index",
+        ))));
+    }
 
     Ok((inner, keys))
 }
-- 
2.43.0


From 664ca7c70984212454cc7147714e3e96ac94fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:02 +0000
Subject: [PATCH 22/41] fix: parse nested type names by their matching
 parentheses

---
 src/types/column/factory.rs | 94 +++++++++++++++----------------------
 1 file changed, 37 insertions(+), 57 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 274eca3..b495964 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -242,24 +242,45 @@ impl dyn ColumnData {
     }
 }
 
-fn parse_fixed_string(source: &str) -> Option<usize> {
-    if !source.starts_with("FixedString") {
-        return None;
+/// Returns what stands between the parentheses of `name(...)`.
+fn parse_args<'a>(source: &'a str, name: &str) -> Option<&'a str> {
+    source
+        .strip_prefix(name)?
+        .strip_prefix('(')?
+        .strip_suffix(')')
+}
+
+/// Splits arguments at the first comma that isn't nested in parentheses or in a quoted string.
+fn split_args(args: &str) -> Option<(&str, &str)> {
+    let mut depth = 0_usize;
+    let mut quoted = false;
+    let mut escaped = false;
+
+    for (pos, c) in args.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '\'' => quoted = !quoted,
+            _ if quoted => {}
+            '(' => depth += 1,
+            ')' => depth = depth.checked_sub(1)?,
+            ',' if depth == 0 => return Some((args[..pos].trim(), args[pos + 1..].trim())),
+            _ => {}
+        }
     }
 
-    let inner_size = &source[12..source.len() - 1];
-    match inner_size.parse::<usize>() {
-        Err(_) => None,
+    None
+}
+
+fn parse_fixed_string(source: &str) -> Option<usize> {
+    match parse_args(source, "FixedString")?.parse::<usize>() {
+        Err(_) | Ok(0) => None,
         Ok(value) => Some(value),
     }
 }
 
 fn parse_nullable_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Nullable") {
-        return None;
-    }
-
-    let inner_type = &source[9..source.len() - 1];
+    let inner_type = parse_args(source, "Nullable")?;
 
     if inner_type.starts_with("Nullable") {
         return None;
@@ -269,38 +290,15 @@ fn parse_nullable_type(source: &str) -> Option<&str> {
 }
 
 fn parse_array_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Array") {
-        return None;
-    }
-
-    let inner_type = &source[6..source.len() - 1];
-    Some(inner_type)
+    parse_args(source, "Array")
 }
 
 fn parse_map_type(source: &str) -> Option<(&str, &str)> {
-    if !source.starts_with("Map") {
-        return None;
-    }
-
-    let body = &source[4..source.len() - 1];
-    let comma_pos = body.chars().position(|c| c == ',')?;
-
-    let key = body[0..comma_pos].trim();
-    let value = body[comma_pos + 1..].trim();
-
-    Some((key, value))
+    split_args(parse_args(source, "Map")?)
 }
 
 fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
-    if !source.starts_with("SimpleAggregateFunction(") || !source.ends_with(')') {
-        return None;
-    }
-
-    let args = source[23..].trim_matches(|c| c == '(' || c == ')');
-    let sep_index = args.find(',')?;
-
-    let agg_func = args[..sep_index].trim();
-    let agg_type = args[sep_index + 1..].trim();
+    let (agg_func, agg_type) = split_args(parse_args(source, "SimpleAggregateFunction")?)?;
 
     let func: SimpleAggFunc = match agg_func.parse() {
         Ok(func) => func,
@@ -517,26 +515,8 @@ fn parse_date_time64(source: &str) -> Option<(u32, Option<String>)> {
 }
 
 fn parse_low_cardinality(source: &str) -> Option<&str> {
-    if !source.starts_with("LowCardinality") {
-        return None;
-    }
-
-    let mut lo = 14;
-    let mut hi = source.len() - 1;
-
-    while lo < source.len() && &source[lo..lo + 1] != "(" {
-        lo += 1;
-    }
-
-    while hi > lo && &source[hi..hi + 1] != ")" {
-        hi -= 1;
-    }
-
-    if lo >= hi {
-        return None;
-    }
-
-    Some(source[lo + 1..hi].trim())
+    let args = source.strip_prefix("LowCardinality")?.trim();
+    Some(args.strip_prefix('(')?.strip_suffix(')')?.trim())
 }
 
 fn get_timezone(timezone: &Option<String>, tz: Tz) -> Result<Tz> {
-- 
2.43.0


From 2dc5886c23cdfde5a8ffef34760afcb2719356a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:08 +0000
Subject: [PATCH 23/41] fix: escape quotes and backslashes in enum type names

---
 src/types/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 83ff796..0480d0f 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -338,6 +338,10 @@ pub enum SqlType {
     Map(&'static SqlType, &'static SqlType),
 }
 
+fn escape(name: &str) -> String {
+    name.replace('\\', "\\\\").replace('\'', "\\'")
+}
+
 lazy_static! {
     static ref TYPES_CACHE: Mutex<HashMap<SqlType, Pin<Box<SqlType>>>> = Mutex::new(HashMap::new());
 }
@@ -429,14 +433,14 @@ impl SqlType {
             SqlType::Enum8(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape(name)))
                     .collect();
                 format!("Enum8({})", a.join(",")).into()
             }
             SqlType::Enum16(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape(name)))
                     .collect();
                 format!("Enum16({})", a.join(",")).into()
             }
-- 
2.43.0


From 85b8b85aaf94f87eb184106ea909bbddda1f665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:47 +0000
Subject: [PATCH 24/41] fix: don't shift dates by the time zone when a column
 is iterated

---
 src/types/column/iter/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index f34956f..41188cb 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -186,7 +186,6 @@ pub struct DateIterator<'a> {
     ptr: *const u16,
     index: usize,
     len: usize,
-    tz: Tz,
     _marker: marker::PhantomData<&'a ()>,
 }
 
@@ -455,8 +454,8 @@ impl<'a> DateIterator<'a> {
         let current_value = *self.ptr.add(index);
         self.index += 1;
 
-        let time = self
-            .tz
+        // a date has no time zone, its value is the number of days since 1970-01-01
+        let time = Utc
             .timestamp_opt(i64::from(current_value) * 24 * 3600, 0)
             .unwrap();
         time.date_naive()
@@ -1182,7 +1181,6 @@ impl<'a> Iterable<'a, Simple> for NaiveDate {
             index: 0,
             ptr: dt_inter.begin as *const u16,
             len,
-            tz: dt_inter.tz,
             _marker: marker::PhantomData,
         })
     }
-- 
2.43.0


From 6c0fffbaac4c27a3eb48cd959bde0de3b6dea046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:10 +0000
Subject: [PATCH 25/41] fix: report a wrong item type when iterating a
 concatenated column instead of panicking later

---
 src/types/column/iter/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 41188cb..fe3022f 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1412,6 +1412,18 @@ where
             &*data
         };
 
+        // report a wrong type here and not in the middle of the iteration
+        if let Some(first) = data.first() {
+            let column: Column<Simple> = Column {
+                name: String::new(),
+                data: first.clone(),
+                _marker: marker::PhantomData,
+            };
+            let _ = unsafe {
+                <T as Iterable<'a, Simple>>::iter(mem::transmute(&column), column_type.clone())?
+            };
+        }
+
         Ok(ComplexIterator {
             column_type,
             data,
-- 
2.43.0


From aabaa12beaf63f801ec4803db80beab31f03ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:24 +0000
Subject: [PATCH 26/41] fix: return an empty block when a query has no result
 instead of panicking

---
 src/types/block/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4ab5446..80251fa 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -276,7 +276,9 @@ impl<K: ColumnType> Block<K> {
 
 impl Block<Simple> {
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
-        let first = blocks.first().expect("blocks should not be empty.");
+        let Some(first) = blocks.first() else {
+            return Block::default();
+        };
 
         for block in blocks {
             assert_eq!(
-- 
2.43.0


From 12a8e9c792a6da6197de2450a825a0ef4e1cc416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 27/41] fix: read and write the dictionary of
 LowCardinality(Nullable(T)) without a null map

---
 src/types/column/column_data.rs     |  4 +++
 src/types/column/factory.rs         |  2 +-
 src/types/column/low_cardinality.rs | 41 ++++++++++++++++++++++-------
 src/types/column/nullable.rs        |  4 +++
 4 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index 9712ae8..5d7aa0b 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -20,6 +20,10 @@ pub trait LowCardinalityAccessor {
 pub trait ColumnData {
     fn sql_type(&self) -> SqlType;
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize);
+    /// Writes the column as the dictionary of a LowCardinality column.
+    fn save_keys(&self, encoder: &mut Encoder) {
+        self.save(encoder, 0, self.len());
+    }
     fn len(&self) -> usize;
     fn push(&mut self, value: Value);
     fn at(&self, index: usize) -> ValueRef;
diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index b495964..843f960 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -279,7 +279,7 @@ fn parse_fixed_string(source: &str) -> Option<usize> {
     }
 }
 
-fn parse_nullable_type(source: &str) -> Option<&str> {
+pub(crate) fn parse_nullable_type(source: &str) -> Option<&str> {
     let inner_type = parse_args(source, "Nullable")?;
 
     if inner_type.starts_with("Nullable") {
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index e266cc1..f8f5c27 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -1,4 +1,5 @@
 use chrono_tz::Tz;
+use either::Either;
 use std::{borrow::Cow, collections::HashMap, mem, ptr, sync::Arc};
 
 use crate::{
@@ -7,6 +8,8 @@ use crate::{
     types::{
         column::{
             column_data::{ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            factory::parse_nullable_type,
+            nullable::NullableColumnData,
             ArcColumnWrapper, ColumnData, VectorColumnData,
         },
         SqlType, Value, ValueRef,
@@ -205,18 +208,26 @@ impl LowCardinalityColumnData {
         timezone: Tz,
         capacity: usize,
     ) -> Result<LowCardinalityColumnData> {
+        let mut dictionary =
+            <dyn ColumnData>::from_type::<ArcColumnWrapper>(inner.clone(), timezone, capacity)?;
+        push_null_key(&mut dictionary);
         Ok(LowCardinalityColumnData {
-            inner: <dyn ColumnData>::from_type::<ArcColumnWrapper>(
-                inner.clone(),
-                timezone,
-                capacity,
-            )?,
+            inner: dictionary,
             index: LowCardinalityIndex::UInt8(VectorColumnData::<u8>::with_capacity(capacity)),
             value_map: None,
         })
     }
 }
 
+/// The first key of a nullable dictionary stands for NULL.
+fn push_null_key(dictionary: &mut ArcColumnData) {
+    if let SqlType::Nullable(nested) = dictionary.sql_type() {
+        Arc::get_mut(dictionary)
+            .expect("Column shouldn't be shared")
+            .push(Value::Nullable(Either::Left(nested)));
+    }
+}
+
 fn read_inner<R: ReadEx>(
     reader: &mut R,
     inner_type: &str,
@@ -224,8 +235,9 @@ fn read_inner<R: ReadEx>(
     tz: Tz,
 ) -> Result<(ArcColumnData, LowCardinalityIndex)> {
     if size == 0 {
-        let inner =
+        let mut inner =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, inner_type, size, tz)?;
+        push_null_key(&mut inner);
         let keys = LowCardinalityIndex::load(reader, size, IndexType::UInt8)?;
         return Ok((inner, keys));
     }
@@ -247,12 +259,18 @@ fn read_inner<R: ReadEx>(
     }
 
     let new_index_column: u64 = reader.read_scalar()?;
-    let inner = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(
+    // the keys are written without a null map, the first of them stands for NULL
+    let nested_type = parse_nullable_type(inner_type);
+    let mut inner = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(
         reader,
-        inner_type,
+        nested_type.unwrap_or(inner_type),
         new_index_column as usize,
         tz,
     )?;
+    if nested_type.is_some() {
+        let nulls = (0..inner.len()).map(|key| u8::from(key == 0)).collect();
+        inner = Arc::new(NullableColumnData { inner, nulls });
+    }
 
     let keys_rows: u64 = reader.read_scalar()?;
     let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
@@ -301,7 +319,7 @@ impl ColumnData for LowCardinalityColumnData {
         encoder.write(self.index.get_flags());
 
         encoder.write(self.inner.len() as u64);
-        self.inner.save(encoder, 0, self.inner.len());
+        self.inner.save_keys(encoder);
 
         encoder.write((end - start) as u64);
         self.index.save(encoder, start, end)
@@ -312,6 +330,11 @@ impl ColumnData for LowCardinalityColumnData {
     }
 
     fn push(&mut self, value: Value) {
+        if let Value::Nullable(Either::Left(_)) = value {
+            self.index.push(0);
+            return;
+        }
+
         let value_map = loop {
             match self.value_map {
                 None => self.value_map = Some(self.get_value_map()),
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 43d99e2..1900989 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -47,6 +47,10 @@ impl ColumnData for NullableColumnData {
         self.inner.save(encoder, start, end);
     }
 
+    fn save_keys(&self, encoder: &mut Encoder) {
+        self.inner.save_keys(encoder);
+    }
+
     fn len(&self) -> usize {
         assert_eq!(self.nulls.len(), self.inner.len());
         self.inner.len()
-- 
2.43.0


From 079b83686107d90fa8552b465b7677cf29102ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:18 +0000
Subject: [PATCH 28/41] fix: don't build a null trait object pointer when a
 LowCardinality column is iterated

---
 src/types/column/iter/mod.rs        | 5 ++++-
 src/types/column/low_cardinality.rs | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index fe3022f..b00812c 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -901,7 +901,10 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                 unsafe {
                     column.get_internals(&mut internals, 1, 0)?;
                     size = (*internals.index).len();
-                    StringInnerIterator::LowCardinality(internals.index, internals.accessor)
+                    let accessor = internals
+                        .accessor
+                        .ok_or(Error::FromSql(FromSqlError::UnsupportedOperation))?;
+                    StringInnerIterator::LowCardinality(internals.index, accessor)
                 }
             }
             SqlType::String => {
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index f8f5c27..5622503 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -170,14 +170,14 @@ impl LowCardinalityIndex {
 #[derive(Debug)]
 pub(crate) struct LowCardinalityInternals {
     pub(crate) index: *const LowCardinalityIndex,
-    pub(crate) accessor: *const dyn LowCardinalityAccessor,
+    pub(crate) accessor: Option<*const dyn LowCardinalityAccessor>,
 }
 
 impl Default for LowCardinalityInternals {
     fn default() -> Self {
         LowCardinalityInternals {
             index: ptr::null_mut(),
-            accessor: unsafe { mem::transmute([ptr::null_mut::<()>(), ptr::null_mut()]) },
+            accessor: None,
         }
     }
 }
@@ -382,7 +382,10 @@ impl ColumnData for LowCardinalityColumnData {
         unsafe {
             let data_ref = &mut *(data_ptr as *mut LowCardinalityInternals);
             data_ref.index = &self.index as *const LowCardinalityIndex;
-            data_ref.accessor = mem::transmute(accessor);
+            data_ref.accessor = Some(mem::transmute::<
+                &dyn LowCardinalityAccessor,
+                *const dyn LowCardinalityAccessor,
+            >(accessor));
             Ok(())
         }
     }
-- 
2.43.0


From 04eeb82fbfb9772e7945651756f2ea0a5e69e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:25 +0000
Subject: [PATCH 29/41] fix: reject array and map offsets that decrease

---
 src/types/column/array.rs |  2 ++
 src/types/column/map.rs   |  2 ++
 src/types/column/util.rs  | 20 +++++++++++++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 746249a..3f281fa 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -9,6 +9,7 @@ use crate::{
         column::{
             column_data::{ArcColumnData, BoxColumnData},
             list::List,
+            util::check_offsets,
             ArcColumnWrapper, ColumnData,
         },
         SqlType, Value, ValueRef,
@@ -30,6 +31,7 @@ impl ArrayColumnData {
         let mut offsets = List::with_capacity(rows);
         offsets.resize(rows, 0_u64);
         reader.read_bytes(offsets.as_mut())?;
+        check_offsets(&offsets)?;
 
         let size = match rows {
             0 => 0,
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 7f5be78..8df78a9 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -5,6 +5,7 @@ use crate::{
         column::{
             column_data::{ArcColumnData, BoxColumnData},
             list::List,
+            util::check_offsets,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
         },
         HasSqlType, Marshal, SqlType, StatBuffer, Unmarshal, Value, ValueRef,
@@ -30,6 +31,7 @@ impl MapColumnData {
         let mut offsets = List::with_capacity(rows);
         offsets.resize(rows, 0_u64);
         reader.read_bytes(offsets.as_mut())?;
+        check_offsets(&offsets)?;
 
         let size = match rows {
             0 => 0,
diff --git a/src/types/column/util.rs b/src/types/column/util.rs
index 7feae39..5a56557 100644
--- a/src/types/column/util.rs
+++ b/src/types/column/util.rs
@@ -1,8 +1,26 @@
+use std::borrow::Cow;
+
 use crate::{
-    types::{column::ColumnData, FromSql},
+    errors::{DriverError, Error},
+    types::{
+        column::{list::List, ColumnData},
+        FromSql,
+    },
     Result,
 };
 
+/// The offsets of an array or a map must not decrease.
+pub(crate) fn check_offsets(offsets: &List<u64>) -> Result<()> {
+    for i in 1..offsets.len() {
+        if offsets.at(i) < offsets.at(i - 1) {
+            return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+                "Invalid offsets",
+            ))));
+        }
+    }
+    Ok(())
+}
+
 pub(crate) fn extract_nulls_and_values<'a, T, C>(
     column_data: &'a C,
     start: usize,
-- 
2.43.0


From 4b24335886e36a52266f77ca06fb760d4717f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:31 +0000
Subject: [PATCH 30/41] fix: reject LowCardinality indexes outside of the
 dictionary

---
 src/types/column/low_cardinality.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index 5622503..b00a92c 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -274,7 +274,8 @@ fn read_inner<R: ReadEx>(
 
     let keys_rows: u64 = reader.read_scalar()?;
     let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
-    if flags != keys.get_flags() || keys_rows != size as u64 {
+    let valid = (0..keys.len()).all(|i| keys.get_by_index(i) < inner.len());
+    if flags != keys.get_flags() || keys_rows != size as u64 || !valid {
         return Err(Error::Driver(DriverError::Deserialize(Cow::from(
             "Invalid low cardinality index",
         ))));
-- 
2.43.0


From 3349c100d72bc5243a940f15566e13269f307ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:16 +0000
Subject: [PATCH 31/41] fix: report rows and columns that don't exist instead
 of panicking

---
 src/types/block/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 80251fa..401cdaa 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -114,7 +114,10 @@ impl<K: ColumnType> AsRef<Block<K>> for Block<K> {
 
 impl ColumnIdx for usize {
     #[inline(always)]
-    fn get_index<K: ColumnType>(&self, _: &[Column<K>]) -> Result<usize> {
+    fn get_index<K: ColumnType>(&self, columns: &[Column<K>]) -> Result<usize> {
+        if *self >= columns.len() {
+            return Err(Error::FromSql(FromSqlError::OutOfRange));
+        }
         Ok(*self)
     }
 }
@@ -221,7 +224,11 @@ impl<K: ColumnType> Block<K> {
         I: ColumnIdx + Copy,
     {
         let column_index = col.get_index(self.columns())?;
-        T::from_sql(self.columns[column_index].at(row))
+        let column = &self.columns[column_index];
+        if row >= column.len() {
+            return Err(Error::FromSql(FromSqlError::OutOfRange));
+        }
+        T::from_sql(column.at(row))
     }
 
     /// Add new column into this block
-- 
2.43.0


From 263dbf840d05698a997fde39dfa81ab01c42ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:57 +0000
Subject: [PATCH 32/41] fix: a Bool cell is true for every byte but zero

---
 src/types/column/factory.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 843f960..3bcf61f 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -62,7 +62,11 @@ impl dyn ColumnData {
         tz: Tz,
     ) -> Result<W::Wrapper> {
         Ok(match_str!(type_name, {
-            "Bool" => W::wrap(VectorColumnData::<bool>::load(reader, size)?),
+            "Bool" => {
+                // Only 0 and 1 are valid representations of a bool
+                let bytes = VectorColumnData::<u8>::load(reader, size)?;
+                W::wrap(VectorColumnData { data: bytes.data.map(|byte| byte != 0) })
+            },
             "UInt8" => W::wrap(VectorColumnData::<u8>::load(reader, size)?),
             "UInt16" => W::wrap(VectorColumnData::<u16>::load(reader, size)?),
             "UInt32" => W::wrap(VectorColumnData::<u32>::load(reader, size)?),
-- 
2.43.0


From 7757ca962124e63e64b6f4ce682df10f9d59cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:15 +0000
Subject: [PATCH 33/41] fix: an empty compressed frame does not end the stream
 of frames

---
 src/types/block/compressed.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index 845d647..aebd29b 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -53,7 +53,8 @@ where
     R: Read + ReadEx,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        if self.is_empty() {
+        // A frame may hold no data at all
+        while self.is_empty() {
             self.fill()?;
         }
 
-- 
2.43.0


From 5b9d894814c2cff0724eb631a2815fd6ce47038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:16 +0000
Subject: [PATCH 34/41] fix: a concatenated column can be inserted again

---
 src/types/column/concat.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index a547a61..d36a023 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -44,8 +44,16 @@ impl ColumnData for ConcatColumnData {
         self.data[0].sql_type()
     }
 
-    fn save(&self, _: &mut Encoder, _: usize, _: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        let first = find_chunk(&self.index, start);
+        let offset = self.index[first];
+
+        let mut data = self.data[first].clone_instance();
+        for index in self.index[first + 1]..end {
+            data.push(self.at(index).into());
+        }
+
+        data.save(encoder, start - offset, end - offset);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 2763594e2c01c001423b28f3226078ccde3945c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 35/41] fix: reading an Array(DateTime64) with an instant
 chrono cannot represent is an error, not a panic

---
 src/types/from_sql.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/from_sql.rs b/src/types/from_sql.rs
index bab8961..f411701 100644
--- a/src/types/from_sql.rs
+++ b/src/types/from_sql.rs
@@ -210,7 +210,7 @@ from_sql_vec_impl! {
     &'a [u8]: SqlType::String => |r| r.as_bytes(),
     Vec<u8>: SqlType::String => |r| r.as_bytes().map(<[u8]>::to_vec),
     NaiveDate: SqlType::Date => |r| Ok(r.into()),
-    DateTime<Tz>: SqlType::DateTime(_) => |r| Ok(r.into()),
+    DateTime<Tz>: SqlType::DateTime(_) => |r| DateTime::from_sql(r),
     Enum8: SqlType::Enum8(_) => |r| Ok(r.into()),
     Enum16: SqlType::Enum16(_) => |r| Ok(r.into())
 }
-- 
2.43.0


From 2fb0a578166d2e8bd4d4630336ad69e12f7ad491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 36/41] fix: do not take a pong for the end of an abandoned
 answer

---
 src/io/transport.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 74aa07b..5b7386a 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -109,9 +109,6 @@ impl ClickhouseTransport {
 
         while let Some(packet) = stream.next().await {
             match packet {
-                Ok(Packet::Pong(inner)) => {
-                    h = Some(inner);
-                }
                 Ok(Packet::Eof(inner)) => h = Some(inner),
                 Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
                 Err(e) => return Err(Error::Io(e)),
-- 
2.43.0


From 49306902118d28674ad50ca5851b918f374bc63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 37/41] fix: do not report an insert as done when the server
 answers its data with a block

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d5dda50..a3a4603 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -511,8 +511,10 @@ impl ClientHandle {
         if !block.is_empty() {
             send_cmd = Cmd::Union(Box::new(Cmd::SendData(block, context)), Box::new(send_cmd));
         }
-        let (transport, _) = transport.call(send_cmd).read_block().await?;
-        Ok(transport)
+        match transport.call(send_cmd).read_block().await? {
+            (transport, None) => Ok(transport),
+            _ => Err(Error::Driver(DriverError::UnexpectedPacket)),
+        }
     }
 
     fn make_query<Q>(table: Q, block: &Block) -> Result<Query>
-- 
2.43.0


From f275561245a85b08e8dd4e0d890cf63a1a8faf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 38/41] fix: count the maps above a map, not its levels, to
 find the keys of nested maps

---
 src/types/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 0480d0f..2c0858a 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -460,9 +460,9 @@ impl SqlType {
 
     pub(crate) fn map_level(&self) -> u8 {
         match self {
-            SqlType::Nullable(inner) => inner.level(),
-            SqlType::Array(inner) => inner.level(),
-            SqlType::Map(_, value) => 1 + value.level(),
+            SqlType::Nullable(inner) => inner.map_level(),
+            SqlType::Array(inner) => inner.map_level(),
+            SqlType::Map(_, value) => 1 + value.map_level(),
             _ => 0,
         }
     }
-- 
2.43.0


From c45b13d336101de2756b4540436d4baea6b71efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 39/41] fix: iterating a column as addresses or UUIDs that it
 does not hold is an error

---
 src/types/column/iter/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index b00812c..1f4163d 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -815,9 +815,16 @@ impl<'a> Iterable<'a, Simple> for Ipv4Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv4) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv4.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -840,9 +847,16 @@ impl<'a> Iterable<'a, Simple> for Ipv6Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv6) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv6.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -865,9 +879,16 @@ impl<'a> Iterable<'a, Simple> for uuid::Uuid {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Uuid) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Uuid.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
-- 
2.43.0


From 47cd03c3880e0ac07b95886752777e5990003a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 40/41] fix: look for the buffers of a map's keys in the keys

---
 src/types/column/array.rs    | 2 +-
 src/types/column/iter/mod.rs | 6 +++---
 src/types/column/map.rs      | 2 +-
 src/types/column/nullable.rs | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 3f281fa..185951f 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -119,7 +119,7 @@ impl ColumnData for ArrayColumnData {
         level: u8,
         props: u32,
     ) -> Result<()> {
-        if level == self.sql_type().level() {
+        if props == 0 && level == self.sql_type().level() {
             *pointers[0] = self.offsets.as_ptr() as *const u8;
             *(pointers[1] as *mut usize) = self.offsets.len();
             Ok(())
diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 1f4163d..8f44d35 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -946,7 +946,7 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                     column.get_internal(
                         &[&mut buffer, &mut size as *mut usize as *mut *const u8],
                         0,
-                        0,
+                        props,
                     )?;
                     assert_ne!(buffer, ptr::null());
                     buffer
@@ -1229,7 +1229,7 @@ where
         props: u32,
     ) -> Result<Self::Iter> {
         let inner = if let SqlType::Nullable(inner_type) = column_type {
-            T::iter(column, inner_type.clone())?
+            T::iter_with_props(column, inner_type.clone(), props)?
         } else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
                 src: column_type.to_string(),
@@ -1285,7 +1285,7 @@ where
             column.get_internal(
                 &[&mut ptr, &mut size as *mut usize as *mut *const u8],
                 column_type.level(),
-                0,
+                props,
             )?;
             assert_ne!(ptr, ptr::null());
             slice::from_raw_parts(ptr as *const u64, size)
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 8df78a9..a8bf74b 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -134,7 +134,7 @@ impl ColumnData for MapColumnData {
     ) -> Result<()> {
         if props == 1 {
             self.keys.get_internal(pointers, level, 0)
-        } else if level == self.sql_type().level() {
+        } else if props == 0 && level == self.sql_type().level() {
             *pointers[0] = self.offsets.as_ptr() as *const u8;
             *(pointers[1] as *mut usize) = self.offsets.len();
             Ok(())
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 1900989..da8c985 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -100,7 +100,7 @@ impl ColumnData for NullableColumnData {
         level: u8,
         props: u32,
     ) -> Result<()> {
-        if level == self.sql_type().level() {
+        if props == 0 && level == self.sql_type().level() {
             *pointers[0] = self.nulls.as_ptr();
             *(pointers[1] as *mut usize) = self.len();
             Ok(())
-- 
2.43.0


From d7b73b2db2313c69783edcd4f36628cfd9c85c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:13 +0000
Subject: [PATCH 41/41] fix: decode the escapes of unprintable characters in
 enum names

---
 src/types/column/factory.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 3bcf61f..a7e4dd3 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -412,6 +412,19 @@ fn parse_enum16(input: &str) -> Option<Vec<(String, i16)>> {
     parse_enum(EnumSize::Enum16, input)
 }
 
+/// The character that stands behind a backslash in a quoted name.
+fn unescape(c: char) -> char {
+    match c {
+        'b' => '\u{8}',
+        'f' => '\u{c}',
+        'n' => '\n',
+        'r' => '\r',
+        't' => '\t',
+        '0' => '\0',
+        _ => c,
+    }
+}
+
 fn parse_enum(size: EnumSize, input: &str) -> Option<Vec<(String, i16)>> {
     let size = match size {
         EnumSize::Enum8 => "Enum8",
@@ -429,7 +442,7 @@ fn parse_enum(size: EnumSize, input: &str) -> Option<Vec<(String, i16)>> {
                 .map_err(|_| StringStreamError::UnexpectedParse)
         });
 
-    let word_syms = token('\\').with(any()).or(none_of("'".chars()));
+    let word_syms = token('\\').with(any()).map(unescape).or(none_of("'".chars()));
     let word = token('\'').with(many(word_syms)).skip(token('\''));
 
     let pair = spaces()
-- 
2.43.0

