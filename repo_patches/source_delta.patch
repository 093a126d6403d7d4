From a68418151c50dc547ff3fae2caf376259c3b284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 01/20] fix: do not drop an own reply listener when handling a
 peer's event with the same id

---
 src/ipc/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index b663a64..39b4ca5 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -62,7 +62,6 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
 /// Handles a single event in a different tokio context
 fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
     ctx.set_ref_id(Some(event.id()));
-    let event_id = event.id();
 
     tokio::spawn(async move {
         match handler.handle_event(&ctx, event).await {
@@ -75,7 +74,6 @@ fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
                 {
                     tracing::error!("Error occurred when sending error response: {:?}", e);
                 }
-                ctx.reply_listeners.remove(&event_id);
             }
             Err(e) => {
                 // emit an error event
-- 
2.43.0


From 30d7658a88640728b6d67ecafcf98f912ba9feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 02/20] fix: do not panic when a reply stream is polled again
 after a timeout

---
 .../stream_emitter/emit_metadata_with_response_stream.rs   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index d90d40b..8116697 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -146,7 +146,12 @@ impl Stream for ResponseStream {
                         Poll::Ready(None)
                     }
                 }
-                Err(e) => Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    // the context and receiver are gone, so the stream ends with the next poll
+                    self.fut = None;
+
+                    Poll::Ready(Some(Err(e)))
+                }
             },
             Poll::Pending => Poll::Pending,
         }
-- 
2.43.0


From aa943f4e908219a7ee9fe8afc3aa64fba00b2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 03/20] fix: end a reply stream after an error event

---
 .../stream_emitter/emit_metadata_with_response_stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 8116697..55afe3f 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -94,6 +94,11 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
     }
 }
 
+/// Returns if no further replies follow after the given event
+fn concludes_handling(event: &Event) -> bool {
+    matches!(event.event_type(), EventType::End | EventType::Error)
+}
+
 impl Unpin for ResponseStream {}
 
 impl Stream for ResponseStream {
@@ -122,7 +127,7 @@ impl Stream for ResponseStream {
                     }
                 }?;
 
-                if event.is_none() || event.as_ref().unwrap().event_type() == EventType::End {
+                if event.as_ref().map_or(true, concludes_handling) {
                     remove_reply_listener(&ctx, event_id).await;
                 }
 
@@ -136,7 +141,7 @@ impl Stream for ResponseStream {
                     self.fut = None;
 
                     if let Some(event) = event {
-                        if event.event_type() != EventType::End {
+                        if !concludes_handling(&event) {
                             self.ctx = Some(ctx);
                             self.receiver = Some(tx);
                         }
-- 
2.43.0


From e9e4b57815ee9f59f88cc0e1fe5b0d21db2ca97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 04/20] fix: do not pass events of unknown namespaces to global
 handlers

---
 src/ipc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 39b4ca5..77b263f 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -47,9 +47,13 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             continue;
         }
 
-        if let Some(namespace) = event.namespace().clone().and_then(|n| namespaces.get(&n)) {
+        if let Some(namespace) = event.namespace() {
             tracing::trace!("Passing event to namespace listener");
-            let handler = Arc::clone(&namespace.handler);
+            // nothing is registered on an unknown namespace
+            let handler = namespaces
+                .get(namespace)
+                .map(|n| Arc::clone(&n.handler))
+                .unwrap_or_default();
             handle_event(Context::clone(&ctx), handler, event);
         } else {
             tracing::trace!("Passing event to global listener");
-- 
2.43.0


From a83e5c0d7b1f357dc8af71718957c8c5ba568b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 05/20] fix: handle replies nobody waits for anymore like
 regular events

---
 src/ipc/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 77b263f..9edc0a7 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -21,7 +21,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
     mut read_half: S::OwnedSplitReadHalf,
     ctx: Context,
 ) {
-    while let Ok(event) = Event::from_async_read(&mut read_half).await {
+    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {
         tracing::trace!(
             "event.name = {:?}, event.namespace = {:?}, event.reference_id = {:?}",
             event.name(),
@@ -34,10 +34,11 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                if let Err(event) = sender.send(event).await {
-                    handle_event(Context::clone(&ctx), Arc::clone(&handler), event.0);
+                match sender.send(event).await {
+                    Ok(()) => continue,
+                    // nobody is waiting for replies anymore
+                    Err(e) => event = e.0,
                 }
-                continue;
             }
             tracing::trace!("No response listener found for event. Passing to regular listener.");
         }
-- 
2.43.0


From 18d2120b44779994f64e26f6ef1dba381c23ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 06/20] fix: refuse events with a header that exceeds its
 length field

---
 src/events/event.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 2ad6a44..8009a6c 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -160,7 +160,9 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(self))]
     pub fn into_bytes(self) -> Result<Bytes> {
         let header_bytes = self.header.into_bytes();
-        let header_length = header_bytes.len() as u16;
+        // the lengths of the namespace and name are covered by the length of the header
+        let header_length = u16::try_from(header_bytes.len())
+            .map_err(|_| Error::from("the event header exceeds the maximum length"))?;
         let data_length = self.data.len();
         let total_length = header_length as u64 + data_length as u64;
         tracing::trace!(total_length, header_length, data_length);
-- 
2.43.0


From 8eca5c388027bbf491caa2296db21a1bd86b44c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 07/20] fix: unregister the reply listener of every request
 that is over

---
 src/ipc/context.rs                            | 37 ++++++++++++---
 .../emit_metadata_with_response.rs            |  7 ---
 .../emit_metadata_with_response_stream.rs     | 47 ++++++-------------
 3 files changed, 45 insertions(+), 46 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index 12f1c56..472e647 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -4,7 +4,6 @@ use std::ops::{Deref, DerefMut};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
-use tokio::sync::mpsc::Receiver;
 use tokio::sync::{mpsc, oneshot, Mutex, RwLock};
 use tokio::time::Duration;
 use trait_bound_typemap::SendSyncTypeMap;
@@ -20,6 +19,28 @@ use crate::prelude::Response;
 
 pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::Sender<Event>>>;
 
+/// The receiving end for the replies to a single event.
+/// The listener is unregistered when it is dropped.
+pub(crate) struct ReplyListener {
+    event_id: u64,
+    reply_listeners: ReplyListeners,
+    receiver: mpsc::Receiver<Event>,
+}
+
+impl ReplyListener {
+    /// Receives the next reply
+    #[inline]
+    pub(crate) async fn recv(&mut self) -> Option<Event> {
+        self.receiver.recv().await
+    }
+}
+
+impl Drop for ReplyListener {
+    fn drop(&mut self) {
+        self.reply_listeners.remove(&self.event_id);
+    }
+}
+
 /// An object provided to each callback function.
 /// Currently it only holds the event emitter to emit response events in event callbacks.
 /// ```rust
@@ -124,11 +145,15 @@ impl Context {
     /// Registers a reply listener for a given event
     #[inline]
     #[tracing::instrument(level = "debug", skip(self))]
-    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<Receiver<Event>> {
-        let (rx, tx) = mpsc::channel(8);
-        self.reply_listeners.insert(event_id, rx);
-
-        Ok(tx)
+    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<ReplyListener> {
+        let (sender, receiver) = mpsc::channel(8);
+        self.reply_listeners.insert(event_id, sender);
+
+        Ok(ReplyListener {
+            event_id,
+            reply_listeners: Arc::clone(&self.reply_listeners),
+            receiver,
+        })
     }
 
     /// Stops the listener and closes the connection
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index acd3b04..50e3764 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -1,4 +1,3 @@
-use crate::context::Context;
 use crate::error::Error;
 use crate::error_event::ErrorEventData;
 use crate::event::{Event, EventType};
@@ -65,8 +64,6 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
                     }
                 }?;
 
-                remove_reply_listener(&ctx, event_id).await;
-
                 if reply.event_type() == EventType::Error {
                     Err(reply.payload::<ErrorEventData>()?.into())
                 } else {
@@ -77,7 +74,3 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
         self.fut.as_mut().unwrap().as_mut().poll(cx)
     }
 }
-
-pub(crate) async fn remove_reply_listener(ctx: &Context, event_id: u64) {
-    ctx.reply_listeners.remove(&event_id);
-}
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 55afe3f..17a4b83 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -1,8 +1,7 @@
-use crate::context::Context;
+use crate::context::ReplyListener;
 use crate::error::{Error, Result};
 use crate::event::{Event, EventType};
 use crate::ipc::stream_emitter::emit_metadata::EmitMetadata;
-use crate::ipc::stream_emitter::emit_metadata_with_response::remove_reply_listener;
 use crate::payload::IntoPayload;
 use crate::poll_unwrap;
 use futures_core::Stream;
@@ -11,7 +10,6 @@ use std::pin::Pin;
 use std::task::Poll;
 use std::time::Duration;
 use futures_core::future::BoxFuture;
-use tokio::sync::mpsc::Receiver;
 
 /// A metadata object returned after waiting for a reply to an event
 /// This object needs to be awaited for to get the actual reply
@@ -21,28 +19,19 @@ pub struct EmitMetadataWithResponseStream<P: IntoPayload> {
     pub(crate) emit_metadata: Option<EmitMetadata<P>>,
 }
 
-type StreamFutureResult = Result<(Option<Event>, Context, Receiver<Event>)>;
+type StreamFutureResult = Result<(Option<Event>, ReplyListener)>;
 
 /// An asynchronous stream one can read all responses to a specific event from.
 pub struct ResponseStream {
-    event_id: u64,
-    ctx: Option<Context>,
-    receiver: Option<Receiver<Event>>,
+    listener: Option<ReplyListener>,
     timeout: Duration,
     fut: Option<BoxFuture<'static, StreamFutureResult>>,
 }
 
 impl ResponseStream {
-    pub(crate) fn new(
-        event_id: u64,
-        timeout: Duration,
-        ctx: Context,
-        receiver: Receiver<Event>,
-    ) -> Self {
+    pub(crate) fn new(timeout: Duration, listener: ReplyListener) -> Self {
         Self {
-            event_id,
-            ctx: Some(ctx),
-            receiver: Some(receiver),
+            listener: Some(listener),
             timeout,
             fut: None,
         }
@@ -84,10 +73,10 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
             };
 
             self.fut = Some(Box::pin(async move {
-                let tx = ctx.register_reply_listener(event_id).await?;
+                let listener = ctx.register_reply_listener(event_id).await?;
                 emit_metadata.await?;
 
-                Ok(ResponseStream::new(event_id, timeout, ctx, tx))
+                Ok(ResponseStream::new(timeout, listener))
             }))
         }
         self.fut.as_mut().unwrap().as_mut().poll(cx)
@@ -109,17 +98,14 @@ impl Stream for ResponseStream {
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Option<Self::Item>> {
         if self.fut.is_none() {
-            if self.ctx.is_none() || self.receiver.is_none() {
+            let Some(mut listener) = self.listener.take() else {
                 return Poll::Ready(None);
-            }
-            let ctx = self.ctx.take().unwrap();
-            let mut receiver = self.receiver.take().unwrap();
+            };
             let timeout = self.timeout;
-            let event_id = self.event_id;
 
             self.fut = Some(Box::pin(async move {
                 let event: Option<Event> = tokio::select! {
-                    tx_result = receiver.recv() => {
+                    tx_result = listener.recv() => {
                         Ok(tx_result)
                     }
                     _ = tokio::time::sleep(timeout) => {
@@ -127,23 +113,18 @@ impl Stream for ResponseStream {
                     }
                 }?;
 
-                if event.as_ref().map_or(true, concludes_handling) {
-                    remove_reply_listener(&ctx, event_id).await;
-                }
-
-                Ok((event, ctx, receiver))
+                Ok((event, listener))
             }));
         }
 
         match self.fut.as_mut().unwrap().as_mut().poll(cx) {
             Poll::Ready(r) => match r {
-                Ok((event, ctx, tx)) => {
+                Ok((event, listener)) => {
                     self.fut = None;
 
                     if let Some(event) = event {
                         if !concludes_handling(&event) {
-                            self.ctx = Some(ctx);
-                            self.receiver = Some(tx);
+                            self.listener = Some(listener);
                         }
 
                         Poll::Ready(Some(Ok(event)))
@@ -152,7 +133,7 @@ impl Stream for ResponseStream {
                     }
                 }
                 Err(e) => {
-                    // the context and receiver are gone, so the stream ends with the next poll
+                    // the listener is gone, so the stream ends with the next poll
                     self.fut = None;
 
                     Poll::Ready(Some(Err(e)))
-- 
2.43.0


From d09f12fb2a1ece5325134cabb7227465ef681ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 08/20] fix: keep the bytes of a connection framed when an
 emission is dropped halfway

---
 src/ipc/stream_emitter/emit_metadata.rs |  9 +++-----
 src/ipc/stream_emitter/mod.rs           | 28 ++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata.rs b/src/ipc/stream_emitter/emit_metadata.rs
index b5a3e85..9df738d 100644
--- a/src/ipc/stream_emitter/emit_metadata.rs
+++ b/src/ipc/stream_emitter/emit_metadata.rs
@@ -8,10 +8,8 @@ use crate::ipc::stream_emitter::SendStream;
 use crate::payload::IntoPayload;
 use crate::{error, poll_unwrap};
 use std::future::Future;
-use std::ops::DerefMut;
 use std::pin::Pin;
 use std::task::Poll;
-use tokio::io::AsyncWriteExt;
 
 /// A metadata object returned after emitting an event.
 /// To send the event this object needs to be awaited
@@ -89,10 +87,9 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadata<P> {
             self.fut = Some(Box::pin(async move {
                 let event_id = event.id();
                 let event_bytes = event.into_bytes()?;
-                let mut stream = stream.lock().await;
-                stream.deref_mut().write_all(&event_bytes[..]).await?;
-                stream.deref_mut().flush().await?;
-                tracing::trace!(bytes_len = event_bytes.len());
+                let bytes_len = event_bytes.len();
+                stream.lock().await.send(event_bytes).await?;
+                tracing::trace!(bytes_len);
 
                 Ok(event_id)
             }));
diff --git a/src/ipc/stream_emitter/mod.rs b/src/ipc/stream_emitter/mod.rs
index bc0f129..75915e1 100644
--- a/src/ipc/stream_emitter/mod.rs
+++ b/src/ipc/stream_emitter/mod.rs
@@ -5,7 +5,8 @@ mod event_metadata;
 
 use std::sync::Arc;
 
-use tokio::io::AsyncWrite;
+use bytes::Bytes;
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 use tokio::sync::Mutex;
 use tracing;
 
@@ -29,7 +30,25 @@ macro_rules! poll_unwrap {
     };
 }
 
-type SendStream = Arc<Mutex<dyn AsyncWrite + Send + Sync + Unpin + 'static>>;
+type SendStream = Arc<Mutex<EventWriter<dyn AsyncWrite + Send + Sync + Unpin + 'static>>>;
+
+/// Writes whole events to a stream. When the emission of an event is dropped halfway
+/// the remainder of the event is written before the next one.
+pub(crate) struct EventWriter<W: ?Sized> {
+    pending: Bytes,
+    stream: W,
+}
+
+impl<W: AsyncWrite + Unpin + ?Sized> EventWriter<W> {
+    /// Writes the bytes of an event and flushes them
+    pub(crate) async fn send(&mut self, event_bytes: Bytes) -> std::io::Result<()> {
+        let mut stream = &mut self.stream;
+        (&mut stream).write_all_buf(&mut self.pending).await?;
+        self.pending = event_bytes;
+        (&mut stream).write_all_buf(&mut self.pending).await?;
+        stream.flush().await
+    }
+}
 
 /// An abstraction over any type that implements the AsyncProtocolStream trait
 /// to emit events and share a connection across multiple
@@ -42,7 +61,10 @@ pub struct StreamEmitter {
 impl StreamEmitter {
     pub fn new<P: AsyncProtocolStream + 'static>(stream: P::OwnedSplitWriteHalf) -> Self {
         Self {
-            stream: Arc::new(Mutex::new(stream)),
+            stream: Arc::new(Mutex::new(EventWriter {
+                pending: Bytes::new(),
+                stream,
+            })),
         }
     }
 
-- 
2.43.0


From 81d8a3cdce8b714fc8eea4b6939398b1b94c24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 09/20] fix: do not let a key exchange block or end the
 encrypted listener

---
 src/protocol/encrypted/mod.rs           | 18 +++++++++++++--
 src/protocol/encrypted/protocol_impl.rs | 30 +++++++++++++++++++++----
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 62133f0..2724565 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -10,10 +10,12 @@ use std::future::Future;
 use std::io;
 use std::pin::Pin;
 use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite};
+use tokio::sync::Mutex;
+use tokio::task::JoinSet;
 use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};
 
 use crate::prelude::encrypted::crypt_handling::CipherBox;
-use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener};
+use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener, IPCResult};
 
 pub type OptionalFuture<T> = Option<Pin<Box<dyn Future<Output = T> + Send + Sync>>>;
 
@@ -47,14 +49,26 @@ impl<T: Clone + Default> Default for EncryptionOptions<T> {
     }
 }
 
+type KeyExchanges<T> = JoinSet<
+    IPCResult<(
+        EncryptedStream<<T as AsyncStreamProtocolListener>::Stream>,
+        <T as AsyncStreamProtocolListener>::RemoteAddressType,
+    )>,
+>;
+
 pub struct EncryptedListener<T: AsyncStreamProtocolListener> {
     inner: T,
     keys: Keys,
+    key_exchanges: Mutex<KeyExchanges<T>>,
 }
 
 impl<T: AsyncStreamProtocolListener> EncryptedListener<T> {
     pub fn new(inner: T, keys: Keys) -> Self {
-        Self { inner, keys }
+        Self {
+            inner,
+            keys,
+            key_exchanges: Mutex::new(JoinSet::new()),
+        }
     }
 }
 
diff --git a/src/protocol/encrypted/protocol_impl.rs b/src/protocol/encrypted/protocol_impl.rs
index 4c90c98..da3049e 100644
--- a/src/protocol/encrypted/protocol_impl.rs
+++ b/src/protocol/encrypted/protocol_impl.rs
@@ -6,7 +6,10 @@ use crate::protocol::{AsyncProtocolStream, AsyncStreamProtocolListener};
 use async_trait::async_trait;
 
 #[async_trait]
-impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedListener<T> {
+impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedListener<T>
+where
+    T::RemoteAddressType: 'static,
+{
     type AddressType = T::AddressType;
     type RemoteAddressType = T::RemoteAddressType;
     type Stream = EncryptedStream<T::Stream>;
@@ -22,10 +25,29 @@ impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedLi
     }
 
     async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
-        let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
-        let stream = Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await?;
+        let mut key_exchanges = self.key_exchanges.lock().await;
 
-        Ok((stream, remote_addr))
+        loop {
+            tokio::select! {
+                accepted = self.inner.protocol_accept() => {
+                    let (inner_stream, remote_addr) = accepted?;
+                    let keys = self.keys.clone();
+
+                    // a peer must neither block nor end the listener with its key exchange
+                    key_exchanges.spawn(async move {
+                        let stream =
+                            EncryptedStream::from_server_key_exchange(inner_stream, &keys).await?;
+
+                        Ok((stream, remote_addr))
+                    });
+                }
+                Some(result) = key_exchanges.join_next() => match result {
+                    Ok(Ok(connection)) => return Ok(connection),
+                    Ok(Err(e)) => tracing::warn!("Key exchange failed: {:?}", e),
+                    Err(e) => tracing::error!("Key exchange failed: {:?}", e),
+                },
+            }
+        }
     }
 }
 
-- 
2.43.0


From 27726cf93c3fbac81189f644d580e5f9f1cd81d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 10/20] fix: keep the server running when accepting a
 connection fails

---
 src/ipc/server.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/ipc/server.rs b/src/ipc/server.rs
index ec88fa9..ff862ca 100644
--- a/src/ipc/server.rs
+++ b/src/ipc/server.rs
@@ -1,5 +1,5 @@
 use super::handle_connection;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::events::event_handler::EventHandler;
 use crate::ipc::context::{Context, ReplyListeners};
 use crate::ipc::stream_emitter::StreamEmitter;
@@ -10,11 +10,14 @@ use crate::payload::DynamicSerializer;
 
 use crate::protocol::{AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
 use std::collections::HashMap;
+use std::io;
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::RwLock;
 use trait_bound_typemap::SendSyncTypeMap;
 
+const ACCEPT_RETRY_INTERVAL: Duration = Duration::from_millis(100);
+
 /// The IPC Server listening for connections.
 /// Use the [IPCBuilder](crate::builder::IPCBuilder) to create a server.
 /// Usually one does not need to use the IPCServer object directly.
@@ -43,7 +46,19 @@ impl IPCServer {
         let data = Arc::new(RwLock::new(self.data));
         tracing::info!("address = {:?}", address);
 
-        while let Ok((stream, remote_address)) = listener.protocol_accept().await {
+        loop {
+            let (stream, remote_address) = match listener.protocol_accept().await {
+                Ok(connection) => connection,
+                Err(Error::IoError(e)) => {
+                    tracing::warn!("Failed to accept a connection: {:?}", e);
+                    if !concerns_single_connection(&e) {
+                        // the listener might recover, for example when it ran out of resources
+                        tokio::time::sleep(ACCEPT_RETRY_INTERVAL).await;
+                    }
+                    continue;
+                }
+                Err(_) => break,
+            };
             tracing::debug!("remote_address = {:?}", remote_address);
             let handler = Arc::clone(&handler);
             let namespaces = Arc::clone(&namespaces);
@@ -78,3 +93,14 @@ impl IPCServer {
         Ok(())
     }
 }
+
+/// Returns if accepting failed because of the connection and not because of the listener
+fn concerns_single_connection(error: &io::Error) -> bool {
+    matches!(
+        error.kind(),
+        io::ErrorKind::ConnectionAborted
+            | io::ErrorKind::ConnectionReset
+            | io::ErrorKind::ConnectionRefused
+            | io::ErrorKind::Interrupted
+    )
+}
-- 
2.43.0


From 75fd7e77d8d2a1367f130b56a9baa79386a3e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 11/20] fix: create events of type end with the end constructor

---
 src/events/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 8009a6c..980ee54 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -65,7 +65,7 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(data))]
     #[inline]
     pub fn end(namespace: Option<String>, name: String, data: Bytes, ref_id: u64) -> Self {
-        Self::new(namespace, name, data, Some(ref_id), EventType::Response)
+        Self::new(namespace, name, data, Some(ref_id), EventType::End)
     }
 
     /// Creates a new event
-- 
2.43.0


From c7a68c20453b06e3271f045f925af4e65ab724d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 12/20] fix: refuse invalid event lengths and do not reserve
 memory based on them

---
 src/events/event.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 980ee54..e9f4443 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -11,6 +11,8 @@ use tokio::io::{AsyncRead, AsyncReadExt};
 
 pub const FORMAT_VERSION: [u8; 3] = [0, 9, 0];
 
+const MAX_INITIAL_CAPACITY: u64 = 1 << 16;
+
 /// A container representing an event and underlying binary data.
 /// The data can be decoded into an object representation or read
 /// as raw binary data.
@@ -138,7 +140,9 @@ impl Event {
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> Result<Self> {
         let total_length = reader.read_u64().await?;
         let header_length = reader.read_u16().await?;
-        let data_length = total_length - header_length as u64;
+        let data_length = total_length
+            .checked_sub(header_length as u64)
+            .ok_or(Error::CorruptedEvent)?;
         tracing::trace!(total_length, header_length, data_length);
 
         let mut header_bytes = vec![0u8; header_length as usize];
@@ -146,8 +150,12 @@ impl Event {
         // additional header fields can be added a the end because when reading they will just be ignored
         let header: EventHeader = EventHeader::from_read(&mut Cursor::new(header_bytes))?;
 
-        let mut buf = vec![0u8; data_length as usize];
-        reader.read_exact(&mut buf).await?;
+        // the length is not trusted, so the buffer only grows with the data that is received
+        let mut buf = Vec::with_capacity(data_length.min(MAX_INITIAL_CAPACITY) as usize);
+        reader.take(data_length).read_to_end(&mut buf).await?;
+        if buf.len() as u64 != data_length {
+            return Err(Error::CorruptedEvent);
+        }
         let event = Event {
             header,
             data: Bytes::from(buf),
-- 
2.43.0


From ae011fc73af89958ace0e9fe9f176daa4d75128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 13/20] fix: do not reserve memory based on lengths stored in
 payloads

---
 src/events/error_event.rs |  5 ++---
 src/events/payload.rs     | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 90c78e3..897aedb 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -1,6 +1,6 @@
 use crate::context::Context;
 use crate::error::Result;
-use crate::payload::{FromPayload, IntoPayload};
+use crate::payload::{read_bytes, FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
@@ -44,8 +44,7 @@ impl FromPayload for ErrorEventData {
     fn from_payload<R: Read>(mut reader: R) -> Result<Self> {
         let code = reader.read_u16::<BigEndian>()?;
         let message_len = reader.read_u32::<BigEndian>()?;
-        let mut message_buf = vec![0u8; message_len as usize];
-        reader.read_exact(&mut message_buf)?;
+        let message_buf = read_bytes(&mut reader, message_len as u64)?;
         let message = String::from_utf8(message_buf).map_err(|_| IPCError::CorruptedEvent)?;
 
         Ok(ErrorEventData { code, message })
diff --git a/src/events/payload.rs b/src/events/payload.rs
index 0d70d7f..d555bc0 100644
--- a/src/events/payload.rs
+++ b/src/events/payload.rs
@@ -1,4 +1,4 @@
-use crate::prelude::IPCResult;
+use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use std::io::Read;
@@ -23,6 +23,18 @@ pub trait FromPayload: Sized {
     fn from_payload<R: Read>(reader: R) -> IPCResult<Self>;
 }
 
+/// Reads the given number of bytes without trusting the length to allocate memory
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, length: u64) -> IPCResult<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(length).read_to_end(&mut buf)?;
+
+    if buf.len() as u64 == length {
+        Ok(buf)
+    } else {
+        Err(IPCError::CorruptedEvent)
+    }
+}
+
 /// A payload wrapper type for sending bytes directly without
 /// serializing them
 #[derive(Clone)]
@@ -115,12 +127,10 @@ impl<P1: IntoPayload, P2: IntoPayload> IntoPayload for TandemPayload<P1, P2> {
 impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     fn from_payload<R: Read>(mut reader: R) -> IPCResult<Self> {
         let p1_length = reader.read_u64::<BigEndian>()?;
-        let mut load1_bytes = vec![0u8; p1_length as usize];
-        reader.read_exact(&mut load1_bytes)?;
+        let load1_bytes = read_bytes(&mut reader, p1_length)?;
 
         let p2_length = reader.read_u64::<BigEndian>()?;
-        let mut load2_bytes = vec![0u8; p2_length as usize];
-        reader.read_exact(&mut load2_bytes)?;
+        let load2_bytes = read_bytes(&mut reader, p2_length)?;
 
         Ok(Self {
             load1: P1::from_payload(load1_bytes.as_slice())?,
-- 
2.43.0


From 0ccf0e7d9f2716d067aa76ae03c8ebc4462d97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 14/20] fix: do not reserve memory based on lengths in bincode
 payloads

---
 src/events/payload_serializer/serialize_bincode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/events/payload_serializer/serialize_bincode.rs b/src/events/payload_serializer/serialize_bincode.rs
index afbc75b..3b84eda 100644
--- a/src/events/payload_serializer/serialize_bincode.rs
+++ b/src/events/payload_serializer/serialize_bincode.rs
@@ -12,7 +12,11 @@ pub fn serialize<T: Serialize>(data: T) -> SerializationResult<Bytes> {
 }
 
 #[inline]
-pub fn deserialize<R: Read, T: DeserializeOwned>(reader: R) -> SerializationResult<T> {
-    let type_data = bincode::deserialize_from(reader)?;
+pub fn deserialize<R: Read, T: DeserializeOwned>(mut reader: R) -> SerializationResult<T> {
+    let mut buf = Vec::new();
+    // lengths are only checked against the available data when deserializing from a slice
+    reader.read_to_end(&mut buf)?;
+    let type_data = bincode::deserialize(&buf)?;
+
     Ok(type_data)
 }
-- 
2.43.0


From eaf136e0257f2ae58c9cecd2afbf00c23c06e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 15/20] fix: do not reserve memory based on the length of
 encrypted packages

---
 src/protocol/encrypted/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 2724565..2b1ada2 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -17,6 +17,8 @@ use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};
 use crate::prelude::encrypted::crypt_handling::CipherBox;
 use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener, IPCResult};
 
+const MAX_INITIAL_CAPACITY: u64 = 1 << 16;
+
 pub type OptionalFuture<T> = Option<Pin<Box<dyn Future<Output = T> + Send + Sync>>>;
 
 #[derive(Clone)]
@@ -162,9 +164,13 @@ impl EncryptedPackage {
     }
 
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
-        let length = reader.read_u32().await?;
-        let mut bytes_buf = vec![0u8; length as usize];
-        reader.read_exact(&mut bytes_buf).await?;
+        let length = reader.read_u32().await? as u64;
+        // the length is not trusted, so the buffer only grows with the data that is received
+        let mut bytes_buf = Vec::with_capacity(length.min(MAX_INITIAL_CAPACITY) as usize);
+        reader.take(length).read_to_end(&mut bytes_buf).await?;
+        if bytes_buf.len() as u64 != length {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
 
         Ok(Self {
             bytes: Bytes::from(bytes_buf),
-- 
2.43.0


From e1b4d14545089a3325b3a685f9a0d9621785d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 16/20] fix: keep event ids unique independent of the system
 clock

---
 src/events/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/events/mod.rs b/src/events/mod.rs
index 2e039d5..ca2f806 100644
--- a/src/events/mod.rs
+++ b/src/events/mod.rs
@@ -1,5 +1,4 @@
 use std::sync::atomic::{AtomicU64, Ordering};
-use std::sync::Arc;
 use std::time::{SystemTime, UNIX_EPOCH};
 
 pub mod error_event;
@@ -10,14 +9,22 @@ pub mod payload;
 #[cfg(feature = "serialize")]
 pub mod payload_serializer;
 
-/// Generates a new event id
+/// The id to start counting from, which differs between processes started at different times
+fn initial_event_id() -> u64 {
+    let epoch_elapsed = SystemTime::now()
+        .duration_since(UNIX_EPOCH)
+        .unwrap_or_default();
+
+    (epoch_elapsed.as_secs() % u16::MAX as u64) << 48
+        | (epoch_elapsed.subsec_millis() as u64) << 32
+}
+
+/// Generates a new event id.
+/// The clock is only read once, because ids would repeat if it changed the counted value.
 pub(crate) fn generate_event_id() -> u64 {
     lazy_static::lazy_static! {
-        static ref COUNTER: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
+        static ref COUNTER: AtomicU64 = AtomicU64::new(initial_event_id());
     }
-    let epoch_elapsed = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
 
-    (epoch_elapsed.as_secs() % u16::MAX as u64) << 48
-        | (epoch_elapsed.subsec_millis() as u64) << 32
-        | COUNTER.fetch_add(1, Ordering::SeqCst)
+    COUNTER.fetch_add(1, Ordering::SeqCst)
 }
-- 
2.43.0


From 0e5e35366e6ecf28523076370a920924a2105d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 17/20] fix: deliver what was read from an encrypted stream and
 stop after a failure

---
 src/protocol/encrypted/io_impl.rs | 57 +++++++++++++------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 9182e21..05c555e 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -6,7 +6,7 @@ use crate::protocol::encrypted::crypt_handling::CipherBox;
 use bytes::{Buf, BufMut, Bytes};
 use std::cmp::min;
 use std::io;
-use std::io::Error;
+use std::io::{Error, ErrorKind};
 use std::pin::Pin;
 use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
@@ -51,47 +51,36 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
         cx: &mut Context<'_>,
         buf: &mut ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
-        if self.fut.is_none() {
-            if self.remaining.len() > 0 {
+        loop {
+            if !self.remaining.is_empty() || buf.remaining() == 0 {
                 let max_copy = min(buf.remaining(), self.remaining.len());
-                let bytes = self.remaining.copy_to_bytes(max_copy);
-                buf.put_slice(&bytes);
-                tracing::trace!("{} bytes read from buffer", bytes.len());
+                buf.put_slice(&self.remaining.split_to(max_copy));
+                tracing::trace!("{} bytes read from buffer", max_copy);
+
+                return Poll::Ready(Ok(()));
             }
 
-            if buf.remaining() > 0 {
-                tracing::trace!("{} bytes remaining to read", buf.remaining());
-                let reader = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
+            if self.fut.is_none() {
+                let (reader, cipher) = match (self.inner.take(), self.cipher.take()) {
+                    (Some(reader), Some(cipher)) => (reader, cipher),
+                    // reading already failed
+                    _ => return Poll::Ready(Err(Error::from(ErrorKind::BrokenPipe))),
+                };
 
                 self.fut = Some(Box::pin(async move { read_bytes(reader, cipher).await }));
-            } else {
-                return Poll::Ready(Ok(()));
             }
-        }
-        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, reader, cipher)) => {
-                self.inner = Some(reader);
-                self.cipher = Some(cipher);
-                match result {
-                    Ok(bytes) => {
-                        self.fut = None;
-                        self.remaining.put(bytes);
-                        let max_copy = min(self.remaining.len(), buf.remaining());
-                        let bytes = self.remaining.copy_to_bytes(max_copy);
-                        buf.put_slice(&bytes);
-                        tracing::trace!("{} bytes read from buffer", bytes.len());
-
-                        if buf.remaining() == 0 {
-                            Poll::Ready(Ok(()))
-                        } else {
-                            Poll::Pending
-                        }
-                    }
-                    Err(e) => Poll::Ready(Err(e)),
+
+            match self.fut.as_mut().unwrap().as_mut().poll(cx) {
+                Poll::Ready((result, reader, cipher)) => {
+                    self.fut = None;
+                    // nothing that follows after a failure must be read
+                    let bytes = result?;
+                    self.inner = Some(reader);
+                    self.cipher = Some(cipher);
+                    self.remaining.put(bytes);
                 }
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From 81bcaccaaecca3e9ed6d6283636e9496525d3d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 18/20] fix: do not lose or duplicate data in pending
 operations of encrypted streams

---
 src/protocol/encrypted/io_impl.rs | 138 +++++++++++++-----------------
 src/protocol/encrypted/mod.rs     |   4 -
 2 files changed, 59 insertions(+), 83 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 05c555e..894573a 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -3,7 +3,7 @@ use crate::prelude::encrypted::{
 };
 use crate::prelude::AsyncProtocolStream;
 use crate::protocol::encrypted::crypt_handling::CipherBox;
-use bytes::{Buf, BufMut, Bytes};
+use bytes::{BufMut, Bytes};
 use std::cmp::min;
 use std::io;
 use std::io::{Error, ErrorKind};
@@ -12,6 +12,8 @@ use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 
 const WRITE_BUF_SIZE: usize = 1024;
+// the length of a package, which includes the tag of the cipher, is stored in 32 bits
+const MAX_PACKAGE_SIZE: usize = u32::MAX as usize - 16;
 
 impl<T: AsyncProtocolStream> Unpin for EncryptedStream<T> {}
 
@@ -93,96 +95,74 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
         cx: &mut Context<'_>,
         buf: &[u8],
     ) -> Poll<Result<usize, Error>> {
-        let written_length = buf.len();
-
-        if self.fut_write.is_none() {
-            self.buffer.put(Bytes::from(buf.to_vec()));
-
-            if self.buffer.len() >= WRITE_BUF_SIZE {
-                tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
-                let buffer_len = self.buffer.len();
-                let max_copy = min(u32::MAX as usize, buffer_len);
-                let plaintext = self.buffer.copy_to_bytes(max_copy);
-                let writer = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
-
-                self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)))
-            } else {
-                return Poll::Ready(Ok(written_length));
-            }
+        // a package that was not sent completely needs to be sent before accepting more data
+        if self.as_mut().poll_package(cx)?.is_pending() {
+            return Poll::Pending;
         }
-
-        match self.fut_write.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_write = None;
-
-                Poll::Ready(result.map(|_| written_length))
-            }
-            Poll::Pending => Poll::Pending,
+        let written_length = min(buf.len(), MAX_PACKAGE_SIZE - self.buffer.len());
+        self.buffer.put_slice(&buf[..written_length]);
+
+        if self.buffer.len() >= WRITE_BUF_SIZE {
+            tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
+            self.start_package();
+            // the data is accepted either way and sending continues with the next operation
+            let _ = self.as_mut().poll_package(cx)?;
         }
+
+        Poll::Ready(Ok(written_length))
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        let buffer_len = self.buffer.len();
-
-        if self.fut_flush.is_none() {
-            let max_copy = min(u32::MAX as usize, buffer_len);
-            let plaintext = self.buffer.copy_to_bytes(max_copy);
-            let writer = self.inner.take().unwrap();
-            let cipher = self.cipher.take().unwrap();
-
-            self.fut_flush = Some(Box::pin(async move {
-                let (mut writer, cipher) = if plaintext.len() > 0 {
-                    let (result, writer, cipher) = write_bytes(plaintext, writer, cipher).await;
-                    if result.is_err() {
-                        return (result, writer, cipher);
-                    }
-                    (writer, cipher)
-                } else {
-                    (writer, cipher)
-                };
-                if let Err(e) = writer.flush().await {
-                    (Err(e), writer, cipher)
-                } else {
-                    (Ok(()), writer, cipher)
-                }
-            }))
+        if self.as_mut().poll_package(cx)?.is_pending() {
+            return Poll::Pending;
         }
-        match self.fut_flush.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_flush = None;
-
-                Poll::Ready(result)
+        if !self.buffer.is_empty() {
+            self.start_package();
+            if self.as_mut().poll_package(cx)?.is_pending() {
+                return Poll::Pending;
             }
-            Poll::Pending => Poll::Pending,
         }
+
+        Pin::new(self.inner.as_mut().unwrap()).poll_flush(cx)
     }
 
     fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        if self.fut_shutdown.is_none() {
-            match self.as_mut().poll_flush(cx) {
-                Poll::Ready(result) => match result {
-                    Ok(_) => {
-                        let mut writer = self.inner.take().unwrap();
-                        self.fut_shutdown = Some(Box::pin(async move { writer.shutdown().await }));
-                        Poll::Pending
-                    }
-                    Err(e) => Poll::Ready(Err(e)),
-                },
-                Poll::Pending => Poll::Pending,
-            }
+        if self.as_mut().poll_flush(cx)?.is_pending() {
+            return Poll::Pending;
+        }
+
+        Pin::new(self.inner.as_mut().unwrap()).poll_shutdown(cx)
+    }
+}
+
+impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
+    /// Starts sending the buffered data as a single package
+    fn start_package(&mut self) {
+        let plaintext = self.buffer.split().freeze();
+        let writer = self.inner.take().unwrap();
+        let cipher = self.cipher.take().unwrap();
+
+        self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)));
+    }
+
+    /// Continues sending the current package.
+    /// Once sending failed no operation on the stream will succeed.
+    fn poll_package(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        if let Some(fut) = self.fut_write.as_mut() {
+            let (result, writer, cipher) = match fut.as_mut().poll(cx) {
+                Poll::Ready(r) => r,
+                Poll::Pending => return Poll::Pending,
+            };
+            self.fut_write = None;
+            result?;
+            self.inner = Some(writer);
+            self.cipher = Some(cipher);
+        }
+
+        if self.inner.is_some() {
+            Poll::Ready(Ok(()))
         } else {
-            match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
-                Poll::Ready(result) => {
-                    self.fut_shutdown = None;
-                    Poll::Ready(result)
-                }
-                Poll::Pending => Poll::Pending,
-            }
+            Poll::Ready(Err(Error::from(ErrorKind::BrokenPipe)))
         }
     }
 }
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 2b1ada2..d981b6e 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -129,8 +129,6 @@ pub struct EncryptedWriteStream<T: 'static + AsyncWrite + Unpin + Send + Sync> {
     cipher: Option<CipherBox>,
     buffer: BytesMut,
     fut_write: OptionalFuture<(io::Result<()>, T, CipherBox)>,
-    fut_flush: OptionalFuture<(io::Result<()>, T, CipherBox)>,
-    fut_shutdown: OptionalFuture<io::Result<()>>,
 }
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
@@ -140,8 +138,6 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
             cipher: Some(cipher),
             buffer: BytesMut::with_capacity(1024),
             fut_write: None,
-            fut_flush: None,
-            fut_shutdown: None,
         }
     }
 }
-- 
2.43.0


From c7e0a4f6a222bf219db1a47492b4689cddeefe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 19/20] fix: do not block a connection with unread replies

---
 src/ipc/context.rs | 9 +++++----
 src/ipc/mod.rs     | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index 472e647..5db61c1 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -17,14 +17,14 @@ use crate::payload::IntoPayload;
 use crate::payload::{DynamicSerializer, SerdePayload};
 use crate::prelude::Response;
 
-pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::Sender<Event>>>;
+pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::UnboundedSender<Event>>>;
 
 /// The receiving end for the replies to a single event.
 /// The listener is unregistered when it is dropped.
 pub(crate) struct ReplyListener {
     event_id: u64,
     reply_listeners: ReplyListeners,
-    receiver: mpsc::Receiver<Event>,
+    receiver: mpsc::UnboundedReceiver<Event>,
 }
 
 impl ReplyListener {
@@ -146,7 +146,8 @@ impl Context {
     #[inline]
     #[tracing::instrument(level = "debug", skip(self))]
     pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<ReplyListener> {
-        let (sender, receiver) = mpsc::channel(8);
+        // a listener that isn't read from must not block the handling of other events
+        let (sender, receiver) = mpsc::unbounded_channel();
         self.reply_listeners.insert(event_id, sender);
 
         Ok(ReplyListener {
@@ -175,7 +176,7 @@ impl Context {
 
     /// Returns the channel for a reply to the given message id
     #[inline]
-    pub(crate) async fn get_reply_sender(&self, ref_id: u64) -> Option<mpsc::Sender<Event>> {
+    pub(crate) async fn get_reply_sender(&self, ref_id: u64) -> Option<mpsc::UnboundedSender<Event>> {
         self.reply_listeners.get(&ref_id).map(|e| e.value().clone())
     }
 
diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 9edc0a7..5c4de00 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -34,7 +34,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                match sender.send(event).await {
+                match sender.send(event) {
                     Ok(()) => continue,
                     // nobody is waiting for replies anymore
                     Err(e) => event = e.0,
-- 
2.43.0


From f9c1b57b41d72a99d34507628548835a5ec72abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:55 +0000
Subject: [PATCH 20/20] fix: prefer a reply that already arrived over the
 timeout

---
 src/ipc/stream_emitter/emit_metadata_with_response.rs        | 2 ++
 src/ipc/stream_emitter/emit_metadata_with_response_stream.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index 50e3764..d6a6f8a 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -56,6 +56,8 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
                 emit_metadata.await?;
 
                 let reply = tokio::select! {
+                    // a reply that already arrived wins over the timeout
+                    biased;
                     tx_result = tx.recv() => {
                         tx_result.ok_or(Error::SendError)
                     }
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 17a4b83..b53726e 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -105,6 +105,8 @@ impl Stream for ResponseStream {
 
             self.fut = Some(Box::pin(async move {
                 let event: Option<Event> = tokio::select! {
+                    // a reply that already arrived wins over the timeout
+                    biased;
                     tx_result = listener.recv() => {
                         Ok(tx_result)
                     }
-- 
2.43.0

