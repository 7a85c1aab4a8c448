From 4a05931c7bbc492174540b2cd232d1d1b0795bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:11 +0000
Subject: [PATCH 01/43] fix: apply the yamux frame size limit to data frames
 only

The length field of ping, window update and go away frames is an id, a
delta or a code. Comparing it with the maximum frame size ended sessions
on legal frames, for example on a ping with a large id.
---
 yamux/src/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index 25686df..a9befb2 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -293,7 +293,8 @@ impl Decoder for FrameCodec {
                 let flags = Flags(header_data.get_u16());
                 let stream_id = header_data.get_u32();
                 let length = header_data.get_u32();
-                if length > self.max_frame_size {
+                // only the length of a data frame is the size of a body
+                if ty == Type::Data && length > self.max_frame_size {
                     let err = io::Error::new(
                         io::ErrorKind::InvalidData,
                         format!("yamux.length={}", length),
-- 
2.43.0


From e99e44ffc0563825e914b731d86fbd48902d0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:11 +0000
Subject: [PATCH 02/43] fix: release a writer waiting for send window when the
 session is gone

A task writing to a stream while another task reads it waited for ever
once the session ended, because only window updates woke it.
---
 yamux/src/stream.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/yamux/src/stream.rs b/yamux/src/stream.rs
index 0c27408..a021f67 100644
--- a/yamux/src/stream.rs
+++ b/yamux/src/stream.rs
@@ -244,10 +244,14 @@ impl StreamHandle {
             .checked_add(frame.length())
             .ok_or(Error::InvalidMsgType)?;
         // wake writer continue
+        self.wake_writer();
+        Ok(())
+    }
+
+    fn wake_writer(&mut self) {
         if let Some(waker) = self.writeable_wake.take() {
             waker.wake()
         }
-        Ok(())
     }
 
     fn handle_data(&mut self, frame: Frame) -> Result<(), Error> {
@@ -293,6 +297,7 @@ impl StreamHandle {
 
             if self.frame_receiver.is_terminated() {
                 self.state = StreamState::RemoteClosing;
+                self.wake_writer();
                 return Err(Error::SessionShutdown);
             }
 
@@ -300,6 +305,7 @@ impl StreamHandle {
                 Poll::Ready(Some(frame)) => self.handle_frame(frame)?,
                 Poll::Ready(None) => {
                     self.state = StreamState::RemoteClosing;
+                    self.wake_writer();
                     return Err(Error::SessionShutdown);
                 }
                 Poll::Pending => break,
@@ -408,6 +414,10 @@ impl AsyncWrite for StreamHandle {
         }
 
         if self.send_window == 0 {
+            // no window update can come from a session that is gone
+            if self.unbound_event_sender.is_closed() {
+                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
+            }
             // register writer context waker
             // when write buf become empty, it can wake the upper layer to write the message again
             self.writeable_wake = Some(cx.waker().clone());
-- 
2.43.0


From 323d281de98ed3c9a6bfc1adfd261b819fccb9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:13 +0000
Subject: [PATCH 03/43] fix: end a yamux session whose remote overruns the
 window of an unread stream

Data for a stream that is not read was queued without limit.
---
 yamux/src/session.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index ecf7ea0..7e1d077 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -483,8 +483,26 @@ where
 
     // Send message to stream (Data/WindowUpdate)
     fn handle_stream_message(&mut self, cx: &mut Context, frame: Frame) -> Result<(), io::Error> {
+        let stream_id = frame.stream_id();
         self.read_pending_frames.push_back(frame);
         self.distribute_to_substream(cx)?;
+
+        // frames stay here while the stream is not read, a remote that respects the window
+        // can't have more than one window of data waiting
+        let pending: usize = self
+            .read_pending_frames
+            .iter()
+            .filter(|frame| frame.stream_id() == stream_id && frame.ty() == Type::Data)
+            .map(|frame| frame.length() as usize)
+            .sum();
+        if pending > self.config.max_stream_window_size as usize {
+            debug!("substream({}) receive window exceeded", stream_id);
+            self.read_pending_frames
+                .retain(|frame| frame.stream_id() != stream_id);
+            if !self.local_go_away {
+                self.send_go_away_with_code(cx, GoAwayCode::ProtocolError)?;
+            }
+        }
         Ok(())
     }
 
-- 
2.43.0


From c68120f8258a025682283b8910fa8e699819f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:39 +0000
Subject: [PATCH 04/43] fix: keep the yamux keepalive timer armed when the
 remote stays silent

After a tick the interval was not polled again, so with no other event on
the session the next tick never woke it: pings stopped and a dead remote
was never detected.
---
 yamux/src/session.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index 7e1d077..50a681b 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -655,6 +655,8 @@ where
                     } else {
                         self.keep_alive(cx, Instant::now())?;
                     }
+                    // the interval must be polled again to be woken by its next tick
+                    cx.waker().wake_by_ref();
                 }
                 Poll::Ready(None) => {
                     debug!("yamux::Session poll keepalive interval finished");
-- 
2.43.0


From 306923abc54eb74873a6d044f541819cc8c594e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:21 +0000
Subject: [PATCH 05/43] hook: expose the secio key agreement names and the ring
 ciphers to verification builds

---
 secio/src/crypto/mod.rs |  4 ++--
 secio/src/lib.rs        | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/secio/src/crypto/mod.rs b/secio/src/crypto/mod.rs
index 418ab9f..41fc046 100644
--- a/secio/src/crypto/mod.rs
+++ b/secio/src/crypto/mod.rs
@@ -6,8 +6,8 @@ pub mod cipher;
 #[cfg(unix)]
 mod openssl_impl;
 #[cfg(not(target_arch = "wasm32"))]
-#[cfg(any(not(ossl110), test, not(unix)))]
-mod ring_impl;
+#[cfg(any(not(ossl110), test, not(unix), p2p_verif))]
+pub(crate) mod ring_impl;
 #[cfg(any(target_arch = "wasm32", test))]
 mod wasm_compat;
 
diff --git a/secio/src/lib.rs b/secio/src/lib.rs
index e9fef86..565dd65 100644
--- a/secio/src/lib.rs
+++ b/secio/src/lib.rs
@@ -22,6 +22,20 @@ mod sha256_compat;
 /// Supported algorithms
 mod support;
 
+/// Private items used by external verification tools
+#[cfg(p2p_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::dh_compat::KeyAgreement;
+
+    use crate::crypto::{cipher::CipherType, ring_impl::RingAeadCipher, BoxStreamCipher, CryptoMode};
+
+    /// The ring implementation of a cipher
+    pub fn ring_cipher(t: CipherType, key: &[u8], mode: CryptoMode) -> BoxStreamCipher {
+        Box::new(RingAeadCipher::new(t, key, mode))
+    }
+}
+
 /// Public key generated temporarily during the handshake
 pub type EphemeralPublicKey = Vec<u8>;
 
-- 
2.43.0


From 2ecc9ed7a6a0477da13738e700dcbaa523b099fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:33 +0000
Subject: [PATCH 06/43] hook: expose the priority channel and protocol
 selection to verification builds

---
 tentacle/src/lib.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/tentacle/src/lib.rs b/tentacle/src/lib.rs
index 76ad14e..575c47e 100644
--- a/tentacle/src/lib.rs
+++ b/tentacle/src/lib.rs
@@ -127,6 +127,37 @@ mod channel;
 #[doc(hidden)]
 pub mod runtime;
 
+/// Private items used by external verification tools
+#[cfg(p2p_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::channel::{mpsc::*, QuickSinkExt};
+
+    use crate::protocol_select::{ProtocolInfo, SelectFn};
+    use std::{collections::HashMap, io};
+    use tokio::prelude::{AsyncRead, AsyncWrite};
+    use tokio_util::codec::{length_delimited::LengthDelimitedCodec, Framed};
+
+    /// Result of a protocol selection
+    pub type Selected<T> = (Framed<T, LengthDelimitedCodec>, String, Option<String>);
+
+    /// Protocol selection of the opening side
+    pub async fn client_select<T: AsyncWrite + AsyncRead + Send + Unpin>(
+        handle: T,
+        proto_info: ProtocolInfo,
+    ) -> Result<Selected<T>, io::Error> {
+        crate::protocol_select::client_select(handle, proto_info).await
+    }
+
+    /// Protocol selection of the accepting side
+    pub async fn server_select<T: AsyncWrite + AsyncRead + Send + Unpin>(
+        handle: T,
+        proto_infos: HashMap<String, (ProtocolInfo, Option<SelectFn<String>>)>,
+    ) -> Result<Selected<T>, io::Error> {
+        crate::protocol_select::server_select(handle, proto_infos).await
+    }
+}
+
 #[cfg(all(not(target_arch = "wasm32"), feature = "upnp"))]
 pub(crate) mod upnp;
 
-- 
2.43.0


From bdc9bc83461b648b6b43f2f92667edce605fc8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:29 +0000
Subject: [PATCH 07/43] fix: keep buffered secio data when a read has no room

---
 secio/src/codec/secure_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index fe8df5a..8c3c3dc 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -163,9 +163,9 @@ where
         cx: &mut Context<'_>,
         buf: &mut [u8],
     ) -> Poll<io::Result<usize>> {
-        // when there is something in recv_buffer
+        // when there is something in recv_buffer, or no room to put anything
         let copied = self.drain(buf);
-        if copied > 0 {
+        if copied > 0 || buf.is_empty() {
             return Poll::Ready(Ok(copied));
         }
 
-- 
2.43.0


From a7bd8e020a36b20d5cfe0f11b636fa680732b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:29 +0000
Subject: [PATCH 08/43] fix: require the whole nonce to be echoed in the secio
 handshake

---
 secio/src/codec/secure_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index 8c3c3dc..e90ece2 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -112,7 +112,7 @@ where
     pub(crate) async fn verify_nonce(&mut self) -> Result<(), SecioError> {
         if !self.nonce.is_empty() {
             let mut nonce = self.nonce.clone();
-            self.read(&mut nonce).await?;
+            self.read_exact(&mut nonce).await?;
 
             trace!(
                 "received nonce={}, my_nonce={}",
-- 
2.43.0


From 869cb7b45b197c9cad31d64947e764491d111b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:03 +0000
Subject: [PATCH 09/43] fix: refuse separators inside the names of binary
 addresses

---
 multiaddr/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/multiaddr/src/lib.rs b/multiaddr/src/lib.rs
index 9f35e64..900e24d 100644
--- a/multiaddr/src/lib.rs
+++ b/multiaddr/src/lib.rs
@@ -281,7 +281,16 @@ impl TryFrom<Bytes> for Multiaddr {
         // Check if the argument is a valid `Multiaddr` by reading its protocols.
         let mut slice = &v[..];
         while !slice.is_empty() {
-            let (_, s) = Protocol::from_bytes(slice)?;
+            let (p, s) = Protocol::from_bytes(slice)?;
+            // A separator inside a name would be read as other components in the text form.
+            match &p {
+                Protocol::DNS4(name) | Protocol::DNS6(name) | Protocol::TLS(name)
+                    if name.contains('/') =>
+                {
+                    return Err(Error::InvalidMultiaddr)
+                }
+                _ => (),
+            }
             slice = s
         }
         Ok(Multiaddr { bytes: v })
-- 
2.43.0


From 36a1e4202ec8004f3e534929d15402646c67ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:03 +0000
Subject: [PATCH 10/43] fix: accept only one binary form of an address

---
 multiaddr/src/lib.rs      | 7 +++++++
 multiaddr/src/protocol.rs | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/multiaddr/src/lib.rs b/multiaddr/src/lib.rs
index 900e24d..43bcf89 100644
--- a/multiaddr/src/lib.rs
+++ b/multiaddr/src/lib.rs
@@ -291,6 +291,13 @@ impl TryFrom<Bytes> for Multiaddr {
                 }
                 _ => (),
             }
+            // Numbers must have their shortest form, otherwise the same address would have
+            // several binary forms.
+            let mut canonical = Vec::with_capacity(slice.len() - s.len());
+            p.write_to_bytes(&mut canonical);
+            if canonical[..] != slice[..slice.len() - s.len()] {
+                return Err(Error::InvalidMultiaddr);
+            }
             slice = s
         }
         Ok(Multiaddr { bytes: v })
diff --git a/multiaddr/src/protocol.rs b/multiaddr/src/protocol.rs
index 9a4ed59..1f4fd5a 100644
--- a/multiaddr/src/protocol.rs
+++ b/multiaddr/src/protocol.rs
@@ -257,6 +257,11 @@ impl<'a> From<Ipv6Addr> for Protocol<'a> {
 }
 
 fn check_p2p(data: &[u8]) -> Result<(), Error> {
+    // the code takes a single byte in its shortest form
+    if data.len() != SHA256_SIZE as usize + 2 {
+        return Err(Error::UnknownHash);
+    }
+
     let (code, bytes) = unsigned_varint::decode::u16(&data)?;
 
     if code != SHA256_CODE {
-- 
2.43.0


From acfe3ecf665a99c983fdc59155ed6f1321143dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:20 +0000
Subject: [PATCH 11/43] fix: release a waiting writer when reading finds the
 session gone

---
 yamux/src/stream.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamux/src/stream.rs b/yamux/src/stream.rs
index a021f67..9d3d839 100644
--- a/yamux/src/stream.rs
+++ b/yamux/src/stream.rs
@@ -346,6 +346,8 @@ impl AsyncRead for StreamHandle {
         self.check_self_state()?;
 
         if let Err(e) = self.recv_frames(cx) {
+            // no window update will come, whatever the error is
+            self.wake_writer();
             match e {
                 // read flag error or read data error
                 Error::UnexpectedFlag | Error::RecvWindowExceeded | Error::InvalidMsgType => {
@@ -376,11 +378,13 @@ impl AsyncRead for StreamHandle {
             StreamState::RemoteClosing | StreamState::Closed | StreamState::Reset => (),
             StreamState::LocalClosing => {
                 if self.close().is_err() {
+                    self.wake_writer();
                     return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
                 }
             }
             _ => {
                 if self.send_window_update().is_err() {
+                    self.wake_writer();
                     return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
                 }
             }
-- 
2.43.0


From a153e5f4c442dfa250748f43bd09a626b7c2057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:53 +0000
Subject: [PATCH 12/43] fix: do not panic when two threads share a control and
 the queue fills up

A bounded sender asserted in debug builds that there is room, after it had
already found room. Another thread sending through the same reference can take
that room in between, so ServiceControl methods could panic.
---
 tentacle/src/channel/bound.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tentacle/src/channel/bound.rs b/tentacle/src/channel/bound.rs
index 39211f9..ee0030a 100644
--- a/tentacle/src/channel/bound.rs
+++ b/tentacle/src/channel/bound.rs
@@ -161,11 +161,9 @@ impl<T> BoundedSenderInner<T> {
 
     // Do the send without failing.
     // Can be called only by bounded sender.
-    #[allow(clippy::debug_assert_with_mut_call)]
     fn do_send_b(&self, msg: T, priority: Priority) -> Result<(), TrySendError<T>> {
-        // Anyone callig do_send *should* make sure there is room first,
-        // but assert here for tests as a sanity check.
-        debug_assert!(self.poll_unparked(None).is_ready());
+        // Anyone callig do_send *should* make sure there is room first. It can't be asserted:
+        // another thread that uses the same sender may have taken the room since.
 
         // First, increment the number of messages contained by the channel.
         // This operation will also atomically determine if the sender task
-- 
2.43.0


From d0b5dc95fcc84b8e802d4e1ecacaf76057de0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:50 +0000
Subject: [PATCH 13/43] fix: report open protocols as closed to the service
 handle when the session ends

When the remote or the network ended a session, the protocols handled through
events never got their Disconnected event, only the session was reported closed.
---
 tentacle/src/session.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index f6db4fc..1b416ca 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -159,6 +159,8 @@ pub(crate) struct Session {
     keep_buffer: bool,
 
     state: SessionState,
+    /// the end of the session is reported only once
+    close_reported: bool,
 
     context: Arc<SessionContext>,
     service_control: ServiceControl,
@@ -242,6 +244,7 @@ impl Session {
             service_proto_senders: meta.service_proto_senders,
             session_proto_senders: meta.session_proto_senders,
             state: SessionState::Normal,
+            close_reported: false,
             event: meta.event,
             future_task_sender,
             wait_handle: meta.session_proto_handles,
@@ -722,7 +725,20 @@ impl Session {
     fn close_session(&mut self) {
         self.context.closed.store(true, Ordering::SeqCst);
 
+        if ::std::mem::replace(&mut self.close_reported, true) {
+            return;
+        }
+
         let (mut sender, mut events) = self.service_sender.take();
+        // the protocols still open close before the session does, whoever closed it
+        for (proto_id, _) in ::std::mem::take(&mut self.proto_streams) {
+            if self.event.contains(&proto_id) {
+                events.push_back(SessionEvent::ProtocolClose {
+                    id: self.context.id,
+                    proto_id,
+                });
+            }
+        }
         events.push_back(SessionEvent::SessionClose {
             id: self.context.id,
         });
-- 
2.43.0


From b55b074bd35d989c0a9add5edf16b909e9914443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:50 +0000
Subject: [PATCH 14/43] fix: don't open a protocol on a session that is already
 closed

Handlers got a Connected event that was never followed by Disconnected.
---
 tentacle/src/session.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 1b416ca..cb67fb3 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -417,6 +417,10 @@ impl Session {
         };
 
         let proto_id = proto.id;
+        // the session is closing, nothing would ever close this protocol again
+        if self.context.closed.load(Ordering::SeqCst) {
+            return;
+        }
         // open twice at the same protocol, ignore it
         if self.proto_streams.contains_key(&proto_id) {
             return;
-- 
2.43.0


From fc675a9b55639492e3f546ef4d6dd1daa4819c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:50 +0000
Subject: [PATCH 15/43] fix: report the end of a protocol stream exactly once
 after an error

A failed transform or codec reported it twice, a failed flush not at all.
---
 tentacle/src/substream.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index a97bb55..74e7350 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -81,6 +81,8 @@ pub(crate) struct Substream<U> {
     // The buffer which will send to underlying network
     write_buf: VecDeque<bytes::Bytes>,
     dead: bool,
+    /// the end of the stream is reported only once
+    close_told: bool,
     keep_buffer: bool,
 
     /// Send event to session
@@ -190,6 +192,10 @@ where
             log::trace!("sub stream poll shutdown err {}", e)
         }
 
+        if ::std::mem::replace(&mut self.close_told, true) {
+            return;
+        }
+
         if !self.keep_buffer {
             self.event_sender.clear()
         }
@@ -482,6 +488,7 @@ where
                 self.id, err
             );
             self.error_close(cx, err);
+            self.close_proto_stream(cx);
             return Poll::Ready(None);
         }
 
@@ -600,6 +607,7 @@ impl SubstreamBuilder {
 
             write_buf: VecDeque::new(),
             dead: false,
+            close_told: false,
             keep_buffer: self.keep_buffer,
 
             event_sender: Buffer::new(self.event_sender),
@@ -620,6 +628,8 @@ pub(crate) struct SubstreamWritePart<U> {
     proto_id: ProtocolId,
 
     dead: bool,
+    /// the end of the stream is reported only once
+    close_told: bool,
     config: SessionConfig,
 
     /// The buffer will be prioritized for send to underlying network
@@ -808,6 +818,9 @@ where
         if let Poll::Ready(Err(e)) = Pin::new(self.substream.get_mut()).poll_shutdown(cx) {
             log::trace!("sub stream poll shutdown err {}", e)
         }
+        if ::std::mem::replace(&mut self.close_told, true) {
+            return;
+        }
         if !self.context.closed.load(Ordering::SeqCst) {
             let (mut sender, mut events) = self.event_sender.take();
             events.push_back(ProtocolEvent::Close {
@@ -864,6 +877,7 @@ where
                 self.id, err
             );
             self.error_close(cx, err);
+            self.close_proto_stream(cx);
             return Poll::Ready(None);
         }
 
@@ -1004,6 +1018,7 @@ impl SubstreamWritePartBuilder {
 
             write_buf: VecDeque::new(),
             dead: false,
+            close_told: false,
 
             event_sender: Buffer::new(self.event_sender),
             event_receiver: self.event_receiver,
-- 
2.43.0


From c8a5a40bae21716864c2e60f396db55dce1db7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:50 +0000
Subject: [PATCH 16/43] fix: keep the protocol error when the buffer of a
 failed stream is dropped

Without keep_buffer the error event was cleared before anyone could see it.
---
 tentacle/src/substream.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index 74e7350..3fa6796 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -255,6 +255,11 @@ where
             | ErrorKind::UnexpectedEof => return,
             _ => (),
         }
+        // what is buffered goes away with the stream, but not this error
+        if !self.keep_buffer {
+            self.event_sender.clear();
+            self.keep_buffer = true;
+        }
         self.event_sender.push(ProtocolEvent::Error {
             id: self.id,
             proto_id: self.proto_id,
-- 
2.43.0


From fafa13747ab58c90cc3bed9ec1d7f1d958ff270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:12 +0000
Subject: [PATCH 17/43] fix: tell the protocol handles about a closed stream
 before the session

On close followed by open a handler could see the new Connected before the old
Disconnected, because both were delivered by unordered tasks.
---
 tentacle/src/substream.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index 3fa6796..6ee2cbb 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -200,6 +200,11 @@ where
             self.event_sender.clear()
         }
 
+        // The session may open the protocol again as soon as it gets the close event, so the
+        // handles have to be told first, or they see the new opening before the end of this one
+        let (service_told, service_seen) = futures::channel::oneshot::channel::<()>();
+        let (session_told, session_seen) = futures::channel::oneshot::channel::<()>();
+
         if let Some(ref mut service_proto_sender) = self.service_proto_sender {
             let (mut sender, mut events) = service_proto_sender.take();
             events.push_back(ServiceProtocolEvent::Disconnected {
@@ -210,6 +215,7 @@ where
                 if let Err(e) = sender.send_all(&mut iter).await {
                     debug!("stream close event send to proto handle error: {:?}", e)
                 }
+                drop(service_told);
             });
         }
 
@@ -224,6 +230,7 @@ where
                 if let Err(e) = sender.send_all(&mut iter).await {
                     debug!("stream close event send to proto handle error: {:?}", e)
                 }
+                drop(session_told);
             });
         }
 
@@ -234,6 +241,7 @@ where
                 proto_id: self.proto_id,
             });
             crate::runtime::spawn(async move {
+                let _ignore = future::join(service_seen, session_seen).await;
                 let mut iter = iter(events).map(Ok);
                 if let Err(e) = sender.send_all(&mut iter).await {
                     debug!("stream close event send to session error: {:?}", e)
-- 
2.43.0


From 06c99e4f3a41d6b35520450f82f335b276ecf1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:12 +0000
Subject: [PATCH 18/43] fix: don't lose the shutdown of a spawned protocol
 stream

The write half gave up when the read half was in use at that moment, the stream
stayed open and the reader never ended.
---
 tentacle/src/substream.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index 6ee2cbb..d8ccc31 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -828,6 +828,14 @@ where
 
     fn close_proto_stream(&mut self, cx: &mut Context) {
         self.event_receiver.close();
+        // The read half may hold the stream right now, on another thread. Nothing polls this half
+        // again, so giving up would leave the stream open until the reader drops it.
+        while Pin::new(self.substream.get_mut())
+            .poll_shutdown(cx)
+            .is_pending()
+        {
+            std::thread::yield_now();
+        }
         if let Poll::Ready(Err(e)) = Pin::new(self.substream.get_mut()).poll_shutdown(cx) {
             log::trace!("sub stream poll shutdown err {}", e)
         }
-- 
2.43.0


From 64edd5aa1d3666b7c953dc98cd7f899b6d184f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:12 +0000
Subject: [PATCH 19/43] fix: forget a dial whose address the transport does not
 support

The next dial of the same address was silently ignored.
---
 tentacle/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 98c3f23..69ecaca 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -315,8 +315,8 @@ where
     /// Use by inner
     #[inline(always)]
     fn dial_inner(&mut self, address: Multiaddr, target: TargetProtocol) -> Result<()> {
-        self.dial_protocols.insert(address.clone(), target);
         let dial_future = self.multi_transport.dial(address.clone())?;
+        self.dial_protocols.insert(address.clone(), target);
 
         let key_pair = self.service_context.key_pair().cloned();
         let timeout = self.config.timeout;
-- 
2.43.0


From 73ebaa7b1e6080d3510119a50ecce25ec319b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:12 +0000
Subject: [PATCH 20/43] fix: don't open one session more than the connection
 limit

---
 tentacle/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 69ecaca..c74eaf6 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -625,7 +625,7 @@ where
         self.sessions
             .len()
             .checked_add(self.state.into_inner().unwrap_or_default())
-            .map(|count| self.config.max_connection_number < count)
+            .map(|count| self.config.max_connection_number <= count)
             .unwrap_or_default()
     }
 
-- 
2.43.0


From bdf246c41a2eee41435773107a83a0584e1d7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:12 +0000
Subject: [PATCH 21/43] fix: report a dial refused because of the connection
 limit

It was dropped without any report, and later dials of the address were ignored.
---
 tentacle/src/service.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index c74eaf6..1e0eed1 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -1029,6 +1029,18 @@ where
                 }
                 if !self.reached_max_connection_limit() {
                     self.session_open(cx, handle, public_key, address, ty, listen_address);
+                } else if ty.is_outbound() {
+                    self.dial_protocols.remove(&address);
+                    self.handle.handle_error(
+                        &mut self.service_context,
+                        ServiceError::DialerError {
+                            address,
+                            error: DialerErrorKind::IoError(std::io::Error::new(
+                                std::io::ErrorKind::Other,
+                                "reached max connection limit",
+                            )),
+                        },
+                    )
                 }
             }
             SessionEvent::HandshakeError { ty, error, address } => {
-- 
2.43.0


From e6a45464b948ad704b487a0df8d5b073ef44e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:12 +0000
Subject: [PATCH 22/43] fix: keep listeners accepting after a failed accept or
 a stalled upgrade

A connection reset before it was accepted made the listener return Pending with
no wakeup registered, as did every accepted WebSocket client until its upgrade
was through. The listener was deaf from then on.
---
 tentacle/src/transports/mod.rs | 2 ++
 tentacle/src/transports/ws.rs  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/tentacle/src/transports/mod.rs b/tentacle/src/transports/mod.rs
index 4c57241..5b0b03d 100644
--- a/tentacle/src/transports/mod.rs
+++ b/tentacle/src/transports/mod.rs
@@ -300,6 +300,8 @@ mod os {
                         )))),
                         Err(err) => {
                             debug!("stream get peer address error: {:?}", err);
+                            // nothing else will poll the listener again
+                            cx.waker().wake_by_ref();
                             Poll::Pending
                         }
                     },
diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 8621a68..3f1dff3 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -247,10 +247,14 @@ impl Stream for WebsocketListener {
                             },
                         }
                     });
+                    // more connections may be waiting, don't let them wait for this upgrade
+                    cx.waker().wake_by_ref();
                     self.poll_pending(cx)
                 }
                 Err(err) => {
                     debug!("stream get peer address error: {:?}", err);
+                    // nothing else will poll the listener again
+                    cx.waker().wake_by_ref();
                     Poll::Pending
                 }
             },
-- 
2.43.0


From 4138371d992597a0788bf0156d6192efcee9b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:27:32 +0000
Subject: [PATCH 23/43] fix: take in no connection or listener while the
 service is closing

---
 tentacle/src/service.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 1e0eed1..1bbf51c 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -1015,6 +1015,16 @@ where
 
     /// Handling various events uploaded by the session
     fn handle_session_event(&mut self, cx: &mut Context, event: SessionEvent) {
+        // While closing, a connection or listener that has just become ready must not be taken in,
+        // nothing would close it again and the service would never end
+        if let State::PreShutdown = self.state {
+            match event {
+                SessionEvent::HandshakeSuccess { .. } => return,
+                #[cfg(not(target_arch = "wasm32"))]
+                SessionEvent::ListenStart { .. } => return,
+                _ => (),
+            }
+        }
         match event {
             SessionEvent::SessionClose { id } => self.session_close(cx, id, Source::Internal),
             SessionEvent::HandshakeSuccess {
-- 
2.43.0


From 4cb5b1b43ed3facb8ada112c6e59bc4e989b6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:32 +0000
Subject: [PATCH 24/43] fix: report a handler panicking in poll or in
 disconnected of a closed session

---
 tentacle/src/protocol_handle_stream.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 3926f42..2bb3de7 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -156,6 +156,7 @@ where
             .collect::<Vec<_>>();
         for session_id in closed_sessions {
             if let Some(session) = self.sessions.remove(&session_id) {
+                self.current_task.run_with_id(session_id);
                 self.handle
                     .disconnected(self.handle_context.as_mut(&session));
             }
@@ -320,7 +321,9 @@ where
         }
 
         if self.need_poll {
+            self.current_task.run();
             is_pending &= self.handle_poll(cx);
+            self.current_task.idle();
         }
 
         if self.shutdown.load(Ordering::SeqCst) {
@@ -560,7 +563,9 @@ where
         }
 
         if self.need_poll {
+            self.current_task = true;
             is_pending &= self.handle_poll(cx);
+            self.current_task = false;
         }
 
         if is_pending {
-- 
2.43.0


From 8e1cdc0da4979f4c717025b8058519f2b085ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:14 +0000
Subject: [PATCH 25/43] fix: close the sessions when the service is shut down
 quickly

---
 tentacle/src/service.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 1bbf51c..45340fd 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -1323,6 +1323,20 @@ where
                     self.service_proto_handles.clear();
                     self.session_proto_handles.clear();
 
+                    // but the sessions must be told, nobody will be left to close them
+                    for control in self.sessions.values() {
+                        let mut buffer = control.buffer.clone();
+                        buffer.push_high(SessionEvent::SessionClose {
+                            id: control.inner.id,
+                        });
+                        crate::runtime::spawn(future::poll_fn(move |cx| {
+                            match buffer.try_send(cx) {
+                                SendResult::Pending => Poll::Pending,
+                                _ => Poll::Ready(()),
+                            }
+                        }));
+                    }
+
                     // don't care about any session action
                     sessions
                         .into_iter()
-- 
2.43.0


From c22011177732167eb41dc60ea113cb1c710d6cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:14 +0000
Subject: [PATCH 26/43] fix: let disconnected of a closed session block like
 the other callbacks

---
 tentacle/src/protocol_handle_stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 2bb3de7..1a68655 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -157,8 +157,10 @@ where
         for session_id in closed_sessions {
             if let Some(session) = self.sessions.remove(&session_id) {
                 self.current_task.run_with_id(session_id);
-                self.handle
-                    .disconnected(self.handle_context.as_mut(&session));
+                block_in_place(self.flag.disconnected(), || {
+                    self.handle
+                        .disconnected(self.handle_context.as_mut(&session))
+                });
             }
         }
 
-- 
2.43.0


From 6acce8ac4783f33566642c205a735a0cb47c6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:31 +0000
Subject: [PATCH 27/43] fix: let session timers work after a protocol was
 closed and opened again

---
 tentacle/src/service.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 45340fd..e6e9242 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -935,7 +935,6 @@ where
                 )
             }
         }
-        self.session_proto_handles.remove(&(session_id, proto_id));
     }
 
     fn send_pending_task(&mut self, cx: &mut Context) {
-- 
2.43.0


From 6986055cbc7e9729d22f2d17925d2b4d92df6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:31 +0000
Subject: [PATCH 28/43] fix: one timer per token, none after its removal

---
 tentacle/src/protocol_handle_stream.rs | 52 ++++++++++++++++++++------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 1a68655..8a8253a 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -93,8 +93,11 @@ pub struct ServiceProtocolStream<T> {
     sessions: HashMap<SessionId, Arc<SessionContext>>,
     receiver: mpsc::Receiver<ServiceProtocolEvent>,
     notify: HashMap<u64, Duration>,
-    notify_sender: mpsc::Sender<u64>,
-    notify_receiver: mpsc::Receiver<u64>,
+    /// the running delay of each token; any other delay is out of date
+    timers: HashMap<u64, u64>,
+    next_timer: u64,
+    notify_sender: mpsc::Sender<(u64, u64)>,
+    notify_receiver: mpsc::Receiver<(u64, u64)>,
     panic_report: mpsc::Sender<SessionEvent>,
     current_task: CurrentTask,
     shutdown: Arc<AtomicBool>,
@@ -124,6 +127,8 @@ where
             notify_sender,
             notify_receiver,
             notify: HashMap::new(),
+            timers: HashMap::new(),
+            next_timer: 0,
             current_task: CurrentTask::Idle,
             shutdown,
             panic_report,
@@ -209,11 +214,14 @@ where
             SetNotify { interval, token } => {
                 self.current_task.run();
                 self.notify.entry(token).or_insert(interval);
-                self.set_notify(token);
+                if !self.timers.contains_key(&token) {
+                    self.set_notify(token);
+                }
             }
             RemoveNotify { token } => {
                 self.current_task.run();
                 self.notify.remove(&token);
+                self.timers.remove(&token);
             }
             Update { listen_addrs } => {
                 self.current_task.run();
@@ -236,12 +244,15 @@ where
 
     fn set_notify(&mut self, token: u64) {
         if let Some(&interval) = self.notify.get(&token) {
+            self.next_timer = self.next_timer.wrapping_add(1);
+            let timer = self.next_timer;
+            self.timers.insert(token, timer);
             let mut sender = self.notify_sender.clone();
             // NOTE: A Interval/Delay will block tokio runtime from gracefully shutdown.
             //       So we spawn it in FutureTaskManager
             let task = async move {
                 crate::runtime::delay_for(interval).await;
-                if sender.send(token).await.is_err() {
+                if sender.send((token, timer)).await.is_err() {
                     trace!("service notify token {} send err", token)
                 }
             };
@@ -314,8 +325,11 @@ where
         };
 
         match Pin::new(&mut self.notify_receiver).as_mut().poll_next(cx) {
-            Poll::Ready(Some(token)) => {
-                self.handle_event(ServiceProtocolEvent::Notify { token });
+            Poll::Ready(Some((token, timer))) => {
+                if self.timers.get(&token) == Some(&timer) {
+                    self.timers.remove(&token);
+                    self.handle_event(ServiceProtocolEvent::Notify { token });
+                }
                 is_pending &= false
             }
             Poll::Ready(None) => unreachable!(),
@@ -381,8 +395,11 @@ pub struct SessionProtocolStream<T> {
     context: Arc<SessionContext>,
     receiver: mpsc::Receiver<SessionProtocolEvent>,
     notify: HashMap<u64, Duration>,
-    notify_sender: mpsc::Sender<u64>,
-    notify_receiver: mpsc::Receiver<u64>,
+    /// the running delay of each token; any other delay is out of date
+    timers: HashMap<u64, u64>,
+    next_timer: u64,
+    notify_sender: mpsc::Sender<(u64, u64)>,
+    notify_receiver: mpsc::Receiver<(u64, u64)>,
     current_task: bool,
     panic_report: mpsc::Sender<SessionEvent>,
     shutdown: Arc<AtomicBool>,
@@ -412,6 +429,8 @@ where
             notify_sender,
             notify_receiver,
             notify: HashMap::new(),
+            timers: HashMap::new(),
+            next_timer: 0,
             context,
             panic_report,
             current_task: false,
@@ -469,10 +488,13 @@ where
             }
             SetNotify { token, interval } => {
                 self.notify.entry(token).or_insert(interval);
-                self.set_notify(token);
+                if !self.timers.contains_key(&token) {
+                    self.set_notify(token);
+                }
             }
             RemoveNotify { token } => {
                 self.notify.remove(&token);
+                self.timers.remove(&token);
             }
             Update { listen_addrs } => {
                 self.handle_context.update_listens(listen_addrs);
@@ -494,12 +516,15 @@ where
 
     fn set_notify(&mut self, token: u64) {
         if let Some(&interval) = self.notify.get(&token) {
+            self.next_timer = self.next_timer.wrapping_add(1);
+            let timer = self.next_timer;
+            self.timers.insert(token, timer);
             let mut sender = self.notify_sender.clone();
             // NOTE: A Interval/Delay will block tokio runtime from gracefully shutdown.
             //       So we spawn it in FutureTaskManager
             let task = async move {
                 crate::runtime::delay_for(interval).await;
-                if sender.send(token).await.is_err() {
+                if sender.send((token, timer)).await.is_err() {
                     trace!("session notify token {} send err", token)
                 }
             };
@@ -556,8 +581,11 @@ where
         };
 
         match Pin::new(&mut self.notify_receiver).as_mut().poll_next(cx) {
-            Poll::Ready(Some(token)) => {
-                self.handle_event(SessionProtocolEvent::Notify { token });
+            Poll::Ready(Some((token, timer))) => {
+                if self.timers.get(&token) == Some(&timer) {
+                    self.timers.remove(&token);
+                    self.handle_event(SessionProtocolEvent::Notify { token });
+                }
                 is_pending &= false
             }
             Poll::Ready(None) => unreachable!(),
-- 
2.43.0


From c20c6ba3917b718acdf3194d1010365cfd5f0281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:31 +0000
Subject: [PATCH 29/43] fix: a protocol that takes nothing does not hold up the
 others of its session

---
 tentacle/src/session.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index cb67fb3..e68cc97 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -370,7 +370,6 @@ impl Session {
                     );
                     buffer.clear();
                 }
-                break;
             }
         }
     }
-- 
2.43.0


From 7707d472bb29da8a1b8ae6309cfb87160fd8f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:31 +0000
Subject: [PATCH 30/43] fix: what a session does not send is no longer counted
 as unsent

---
 tentacle/src/session.rs   | 21 ++++++++++++++++++++-
 tentacle/src/substream.rs | 27 ++++++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index e68cc97..d0c3fb1 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -4,7 +4,10 @@ use std::collections::{HashMap, HashSet};
 use std::{
     io::{self, ErrorKind},
     pin::Pin,
-    sync::{atomic::Ordering, Arc},
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
     task::{Context, Poll},
     time::Duration,
 };
@@ -169,6 +172,8 @@ pub(crate) struct Session {
 
     /// Sub streams maps a stream id to a sender of sub stream
     substreams: HashMap<StreamId, PriorityBuffer<ProtocolEvent>>,
+    /// What each sub stream was given and has not sent yet, in bytes
+    unsent: HashMap<StreamId, Arc<AtomicUsize>>,
     proto_streams: HashMap<ProtocolId, StreamId>,
 
     /// Clone to new sub stream
@@ -236,6 +241,7 @@ impl Session {
             keep_buffer: meta.keep_buffer,
             next_stream: 0,
             substreams: HashMap::default(),
+            unsent: HashMap::default(),
             proto_streams: HashMap::default(),
             proto_event_sender,
             proto_event_receiver,
@@ -429,6 +435,8 @@ impl Session {
         let (session_to_proto_sender, session_to_proto_receiver) =
             priority_mpsc::channel(SEND_SIZE);
 
+        let unsent = Arc::new(AtomicUsize::new(0));
+        self.unsent.insert(self.next_stream, unsent.clone());
         self.substreams.insert(
             self.next_stream,
             PriorityBuffer::new(session_to_proto_sender.clone()),
@@ -463,6 +471,7 @@ impl Session {
                 .proto_id(proto_id)
                 .stream_id(self.next_stream)
                 .config(self.config)
+                .unsent(unsent.clone())
                 .build(FramedWrite::new(write, (proto.codec)()));
 
                 crate::runtime::spawn(write_part.for_each(|_| future::ready(())));
@@ -483,6 +492,7 @@ impl Session {
                 .proto_id(proto_id)
                 .stream_id(self.next_stream)
                 .config(self.config)
+                .unsent(unsent.clone())
                 .service_proto_sender(self.service_proto_senders.get(&proto_id).cloned())
                 .session_proto_sender(self.session_proto_senders.get(&proto_id).cloned())
                 .keep_buffer(self.keep_buffer)
@@ -523,6 +533,11 @@ impl Session {
             }
             ProtocolEvent::Close { id, proto_id } => {
                 debug!("session [{}] proto [{}] closed", self.context.id, proto_id);
+                // what the sub stream did not send is never sent
+                if let Some(unsent) = self.unsent.remove(&id) {
+                    self.context
+                        .decr_pending_data_size(unsent.swap(0, Ordering::SeqCst));
+                }
                 if self.substreams.remove(&id).is_some() {
                     self.proto_streams.remove(&proto_id);
                     if self.event.contains(&proto_id) {
@@ -590,6 +605,9 @@ impl Session {
             SessionEvent::ProtocolMessage { proto_id, data, .. } => {
                 if let Some(stream_id) = self.proto_streams.get(&proto_id) {
                     if let Some(buffer) = self.substreams.get_mut(stream_id) {
+                        if let Some(unsent) = self.unsent.get(stream_id) {
+                            unsent.fetch_add(data.len(), Ordering::SeqCst);
+                        }
                         let event = ProtocolEvent::Message {
                             id: *stream_id,
                             proto_id,
@@ -604,6 +622,7 @@ impl Session {
                     }
                 } else {
                     trace!("protocol {} not ready", proto_id);
+                    self.context.decr_pending_data_size(data.len());
                 }
             }
             SessionEvent::SessionClose { .. } => {
diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index d8ccc31..e7b65c7 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -4,7 +4,10 @@ use std::{
     collections::VecDeque,
     io::{self, ErrorKind},
     pin::Pin,
-    sync::{atomic::Ordering, Arc},
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
     task::{Context, Poll},
 };
 use tokio::prelude::{AsyncRead, AsyncWrite};
@@ -93,6 +96,8 @@ pub(crate) struct Substream<U> {
     service_proto_sender: Option<Buffer<ServiceProtocolEvent>>,
     session_proto_sender: Option<Buffer<SessionProtocolEvent>>,
     before_receive: Option<BeforeReceive>,
+    /// Bytes the session gave and that are not sent yet
+    unsent: Arc<AtomicUsize>,
 }
 
 impl<U> Substream<U>
@@ -144,6 +149,7 @@ where
             Poll::Ready(()) => {
                 sink.as_mut().start_send(frame)?;
                 self.context.decr_pending_data_size(data_size);
+                self.unsent.fetch_sub(data_size, Ordering::SeqCst);
                 Ok(false)
             }
             Poll::Pending => {
@@ -541,6 +547,7 @@ pub(crate) struct SubstreamBuilder {
     event_sender: mpsc::Sender<ProtocolEvent>,
     /// Receive events from session
     event_receiver: priority_mpsc::Receiver<ProtocolEvent>,
+    unsent: Arc<AtomicUsize>,
 }
 
 impl SubstreamBuilder {
@@ -560,6 +567,7 @@ impl SubstreamBuilder {
             proto_id: 0.into(),
             keep_buffer: false,
             config: SessionConfig::default(),
+            unsent: Arc::default(),
             event: false,
         }
     }
@@ -579,6 +587,11 @@ impl SubstreamBuilder {
         self
     }
 
+    pub fn unsent(mut self, unsent: Arc<AtomicUsize>) -> Self {
+        self.unsent = unsent;
+        self
+    }
+
     pub fn keep_buffer(mut self, keep: bool) -> Self {
         self.keep_buffer = keep;
         self
@@ -629,6 +642,7 @@ impl SubstreamBuilder {
             service_proto_sender: self.service_proto_sender,
             session_proto_sender: self.session_proto_sender,
             before_receive: self.before_receive,
+            unsent: self.unsent,
         }
     }
 }
@@ -656,6 +670,8 @@ pub(crate) struct SubstreamWritePart<U> {
     event_receiver: priority_mpsc::Receiver<ProtocolEvent>,
 
     context: Arc<SessionContext>,
+    /// Bytes the session gave and that are not sent yet
+    unsent: Arc<AtomicUsize>,
 }
 
 impl<U> SubstreamWritePart<U>
@@ -694,6 +710,7 @@ where
             Poll::Ready(()) => {
                 sink.as_mut().start_send(frame)?;
                 self.context.decr_pending_data_size(data_size);
+                self.unsent.fetch_sub(data_size, Ordering::SeqCst);
                 Ok(false)
             }
             Poll::Pending => {
@@ -988,6 +1005,7 @@ pub(crate) struct SubstreamWritePartBuilder {
     event_sender: mpsc::Sender<ProtocolEvent>,
     /// Receive events from session
     event_receiver: priority_mpsc::Receiver<ProtocolEvent>,
+    unsent: Arc<AtomicUsize>,
 }
 
 impl SubstreamWritePartBuilder {
@@ -1003,6 +1021,7 @@ impl SubstreamWritePartBuilder {
             id: 0,
             proto_id: 0.into(),
             config: SessionConfig::default(),
+            unsent: Arc::default(),
         }
     }
 
@@ -1021,6 +1040,11 @@ impl SubstreamWritePartBuilder {
         self
     }
 
+    pub fn unsent(mut self, unsent: Arc<AtomicUsize>) -> Self {
+        self.unsent = unsent;
+        self
+    }
+
     pub fn build<U>(
         self,
         substream: FramedWrite<crate::runtime::WriteHalf<StreamHandle>, U>,
@@ -1043,6 +1067,7 @@ impl SubstreamWritePartBuilder {
 
             event_sender: Buffer::new(self.event_sender),
             event_receiver: self.event_receiver,
+            unsent: self.unsent,
         }
     }
 }
-- 
2.43.0


From c6f1c0731f8c18ef9fcf9b822b88c7ebba2e8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:31 +0000
Subject: [PATCH 31/43] fix: read on after WebSocket messages without data

---
 tentacle/src/transports/ws.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 3f1dff3..476863a 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -360,6 +360,8 @@ impl AsyncRead for WsStream {
                 };
 
                 if data.is_empty() {
+                    // more may have been received together with it, nothing else polls again
+                    cx.waker().wake_by_ref();
                     return Poll::Pending;
                 }
                 // when input buffer is big enough
-- 
2.43.0


From 9e5331d68bba3c2584fdccf9e4719e0cc62a9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:24 +0000
Subject: [PATCH 32/43] fix: a failed listen request no longer ends the
 listener already on that address

---
 tentacle/src/service.rs | 17 +++++++++++++----
 tentacle/src/session.rs |  7 +++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index e6e9242..098c02e 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -284,7 +284,7 @@ where
                         listen_address: addr,
                         incoming,
                     },
-                    Err(error) => SessionEvent::ListenError { address, error },
+                    Err(error) => SessionEvent::ListenStartError { address, error },
                 };
                 if let Err(err) = sender.send(event).await {
                     error!("Listen address result send back error: {:?}", err);
@@ -1111,6 +1111,18 @@ where
                     },
                 )
             }
+            // an existing listener on the same address has nothing to do with it
+            #[cfg(not(target_arch = "wasm32"))]
+            SessionEvent::ListenStartError { address, error } => {
+                self.handle.handle_error(
+                    &mut self.service_context,
+                    ServiceError::ListenError {
+                        address,
+                        error: ListenErrorKind::TransportError(error),
+                    },
+                );
+                self.state.decrease();
+            }
             #[cfg(not(target_arch = "wasm32"))]
             SessionEvent::ListenError { address, error } => {
                 self.handle.handle_error(
@@ -1130,9 +1142,6 @@ where
                         &mut self.service_context,
                         ServiceEvent::ListenClose { address },
                     )
-                } else {
-                    // try start listen error
-                    self.state.decrease();
                 }
             }
             SessionEvent::SessionTimeout { id } => {
diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index d0c3fb1..a6f05dd 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -76,6 +76,13 @@ pub(crate) enum SessionEvent {
         /// error
         error: TransportErrorKind,
     },
+    /// The listener could not be started
+    ListenStartError {
+        /// listen address
+        address: Multiaddr,
+        /// error
+        error: TransportErrorKind,
+    },
     ListenError {
         /// listen address
         address: Multiaddr,
-- 
2.43.0


From 2416444cd26e85a724736c858b5cc11a5a2929b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:24 +0000
Subject: [PATCH 33/43] fix: a handle ended with its session is not taken for a
 panic

---
 tentacle/src/service.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 098c02e..0d79df3 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -461,6 +461,15 @@ where
                     );
                 }
                 SendResult::Ok => (),
+                // the handle of a closed session ends by itself, before the service hears of it
+                SendResult::Disconnect
+                    if self
+                        .sessions
+                        .get(session_id)
+                        .map_or(true, |control| control.inner.closed()) =>
+                {
+                    buffer.clear()
+                }
                 SendResult::Disconnect => {
                     error = true;
                     self.handle.handle_error(
-- 
2.43.0


From 5241911d0490c6f7da78dc9ca146d52733441d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:24:07 +0000
Subject: [PATCH 34/43] fix: limit the urgent messages waiting in a protocol
 stream

A protocol stream stopped taking messages once its normal write buffer
was full, but the buffer of urgent messages had no bound.  Urgent data
given to a stalled peer was moved there without limit, so the session
that should have been ended for too much unsent data never was.
---
 tentacle/src/substream.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index e7b65c7..6f3bc9f 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -360,6 +360,10 @@ where
             return Poll::Pending;
         }
 
+        if self.high_write_buf.len() > self.config.send_event_size() {
+            return Poll::Pending;
+        }
+
         match Pin::new(&mut self.event_receiver).as_mut().poll_next(cx) {
             Poll::Ready(Some((priority, event))) => {
                 self.handle_proto_event(cx, event, priority);
@@ -807,6 +811,10 @@ where
             return Poll::Pending;
         }
 
+        if self.high_write_buf.len() > self.config.send_event_size() {
+            return Poll::Pending;
+        }
+
         match Pin::new(&mut self.event_receiver).as_mut().poll_next(cx) {
             Poll::Ready(Some((priority, event))) => {
                 self.handle_proto_event(cx, event, priority);
-- 
2.43.0


From 2ba8fcd95ffba20cf7f3e23176c2a7d9a30669a4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:59:18 +0000
Subject: [PATCH 35/43] fix: read the nonce of a ping without assuming its
 alignment

---
 protocols/ping/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocols/ping/src/lib.rs b/protocols/ping/src/lib.rs
index 115b04b..4cba9bf 100644
--- a/protocols/ping/src/lib.rs
+++ b/protocols/ping/src/lib.rs
@@ -360,12 +360,12 @@ impl PingMessage {
         let reader = protocol_mol::PingMessageReader::from_compatible_slice(data).ok()?;
         match reader.payload().to_enum() {
             protocol_mol::PingPayloadUnionReader::Ping(reader) => {
-                let le = reader.nonce().raw_data().as_ptr() as *const u32;
-                Some(PingPayload::Ping(u32::from_le(unsafe { *le })))
+                let le = reader.nonce().raw_data().as_ptr() as *const [u8; 4];
+                Some(PingPayload::Ping(u32::from_le_bytes(unsafe { *le })))
             }
             protocol_mol::PingPayloadUnionReader::Pong(reader) => {
-                let le = reader.nonce().raw_data().as_ptr() as *const u32;
-                Some(PingPayload::Pong(u32::from_le(unsafe { *le })))
+                let le = reader.nonce().raw_data().as_ptr() as *const [u8; 4];
+                Some(PingPayload::Pong(u32::from_le_bytes(unsafe { *le })))
             }
         }
     }
-- 
2.43.0


From 69d73ccc4475559434830f6dbf0bd25429587a75 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:59:18 +0000
Subject: [PATCH 36/43] fix: remember that a ping is waiting for its pong

---
 protocols/ping/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocols/ping/src/lib.rs b/protocols/ping/src/lib.rs
index 4cba9bf..d739046 100644
--- a/protocols/ping/src/lib.rs
+++ b/protocols/ping/src/lib.rs
@@ -228,6 +228,7 @@ where
                                     }
                                 }
                             }
+                            ps.processing = true;
                             ps.nonce = send_nonce;
                             Some(*session_id)
                         }
-- 
2.43.0


From 64709b9d113839db996d87879f78b40bba673748 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:02:04 +0000
Subject: [PATCH 37/43] fix: report the peers that never identified themselves,
 not those that did

---
 protocols/identify/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/identify/src/lib.rs b/protocols/identify/src/lib.rs
index 5e47b6e..9681634 100644
--- a/protocols/identify/src/lib.rs
+++ b/protocols/identify/src/lib.rs
@@ -341,7 +341,7 @@ impl<T: Callback> ServiceProtocol for IdentifyProtocol<T> {
         }
 
         for (session_id, info) in &self.remote_infos {
-            if info.has_received && (info.connected_at + info.timeout) <= Instant::now() {
+            if !info.has_received && (info.connected_at + info.timeout) <= Instant::now() {
                 debug!("{:?} receive identify message timeout", info.peer_id);
                 if self
                     .callback
-- 
2.43.0


From 4b5d6384c714fcdef6aeac6ac32044d3d73d0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:04:56 +0000
Subject: [PATCH 38/43] fix: answer with no more addresses than asked for and
 allowed in one message

---
 protocols/discovery/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/discovery/src/lib.rs b/protocols/discovery/src/lib.rs
index 20afb51..420296f 100644
--- a/protocols/discovery/src/lib.rs
+++ b/protocols/discovery/src/lib.rs
@@ -140,7 +140,7 @@ impl<M: AddressManager> ServiceProtocol for DiscoveryProtocol<M> {
                                 }
                             }
 
-                            let max = ::std::cmp::max(MAX_ADDR_TO_SEND, count as usize);
+                            let max = ::std::cmp::min(MAX_ADDR_TO_SEND, count as usize);
                             if items.len() > max {
                                 items = items
                                     .choose_multiple(&mut rand::thread_rng(), max)
-- 
2.43.0


From 2fd42e25ba0803ccc85f1a78752395101e9ed4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:25 +0000
Subject: [PATCH 39/43] fix: dial WebSocket addresses over IPv6

The request address was built without brackets around an IPv6 address, so that every such dial failed.
---
 tentacle/src/transports/ws.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 476863a..eb98021 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -56,7 +56,8 @@ async fn connect(
     let addr = address.await?;
     match multiaddr_to_socketaddr(&addr) {
         Some(socket_address) => {
-            let url = format!("ws://{}:{}", socket_address.ip(), socket_address.port());
+            // an IPv6 address has to be in brackets
+            let url = format!("ws://{}", socket_address);
             let tcp = tcp_dial(socket_address, bind_addr, timeout).await?;
 
             match crate::runtime::timeout(timeout, client_async_with_config(url, tcp, None)).await {
-- 
2.43.0


From cec06c8fb68337b95043f98f303f6280e9650c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:25 +0000
Subject: [PATCH 40/43] fix: do not write encrypted frames longer than the
 limit

A write longer than max_frame_length, minus the tag, ended the connection. With max_frame_length equal to the yamux window, which the builder allows, a large message was enough. Such a write is now taken in part.
---
 secio/src/codec/secure_stream.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index e90ece2..c6aee69 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -16,6 +16,9 @@ use std::{
 
 use crate::{crypto::BoxStreamCipher, error::SecioError};
 
+/// Encryption makes a frame longer by at most this
+const MAX_TAG_SIZE: usize = 16;
+
 enum RecvBuf {
     Vec(Vec<u8>),
     Byte(BytesMut),
@@ -215,6 +218,10 @@ where
     ) -> Poll<io::Result<usize>> {
         match self.socket.poll_ready_unpin(cx) {
             Poll::Ready(Ok(_)) => {
+                // a longer frame would be refused
+                let max = self.socket.codec().max_frame_length();
+                let len = min(buf.len(), max.saturating_sub(MAX_TAG_SIZE).max(1));
+                let buf = &buf[..len];
                 trace!("poll_write buf.len={}", buf.len());
                 let frame = self.encode_buffer(buf);
                 self.socket.start_send_unpin(frame)?;
-- 
2.43.0


From e7f8324374f1fe0d5434152da32682fbf09afa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:25 +0000
Subject: [PATCH 41/43] hook: use ring ciphers in some streams under
 cfg(p2p_verif)

---
 secio/src/crypto/mod.rs |  6 ++++++
 secio/src/lib.rs        | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/secio/src/crypto/mod.rs b/secio/src/crypto/mod.rs
index 41fc046..61801ed 100644
--- a/secio/src/crypto/mod.rs
+++ b/secio/src/crypto/mod.rs
@@ -49,6 +49,12 @@ pub enum CryptoMode {
 #[doc(hidden)]
 #[cfg(all(ossl110, unix))]
 pub fn new_stream(t: cipher::CipherType, key: &[u8], _mode: CryptoMode) -> BoxStreamCipher {
+    #[cfg(p2p_verif)]
+    {
+        if crate::verif_hooks::take_ring() {
+            return crate::verif_hooks::ring_cipher(t, key, _mode);
+        }
+    }
     Box::new(openssl_impl::OpenSSLCrypt::new(t, key))
 }
 
diff --git a/secio/src/lib.rs b/secio/src/lib.rs
index 565dd65..84db191 100644
--- a/secio/src/lib.rs
+++ b/secio/src/lib.rs
@@ -34,6 +34,24 @@ pub mod verif_hooks {
     pub fn ring_cipher(t: CipherType, key: &[u8], mode: CryptoMode) -> BoxStreamCipher {
         Box::new(RingAeadCipher::new(t, key, mode))
     }
+
+    thread_local! {
+        static RING: std::cell::Cell<u32> = std::cell::Cell::new(0);
+    }
+
+    /// Which of the streams set up by this thread from now on use ring: a set bit does, the
+    /// lowest first, over and over
+    pub fn set_ring(pattern: u32) {
+        RING.with(|r| r.set(pattern))
+    }
+
+    pub(crate) fn take_ring() -> bool {
+        RING.with(|r| {
+            let pattern = r.get();
+            r.set(pattern.rotate_right(1));
+            pattern & 1 == 1
+        })
+    }
 }
 
 /// Public key generated temporarily during the handshake
-- 
2.43.0


From 1ff4dfae0f713ed4de2adea12153a7b2ab3a9cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:33:42 +0000
Subject: [PATCH 42/43] fix: end the accept task of an async-std listener with
 its listener

When accepting fails and nobody listens any more, the task went round
for ever without yielding and kept a worker thread busy.
---
 tentacle/src/runtime/async_runtime.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tentacle/src/runtime/async_runtime.rs b/tentacle/src/runtime/async_runtime.rs
index 8d2b272..30fef7f 100644
--- a/tentacle/src/runtime/async_runtime.rs
+++ b/tentacle/src/runtime/async_runtime.rs
@@ -55,7 +55,10 @@ mod os {
             let task = async move {
                 loop {
                     let res = listener.accept().await;
-                    let _ignore = tx.send(res).await;
+                    // nobody accepts any more; a dead listener would go on failing for ever
+                    if tx.send(res).await.is_err() {
+                        break;
+                    }
                 }
             }
             .boxed();
-- 
2.43.0


From 8bb8ae0c06b23d53ff84a1bb5cd5522e4b99014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:33:42 +0000
Subject: [PATCH 43/43] fix: survive a panicked handler on the async-std
 runtime

Waiting for the handle of a task that panicked panics on async-std, so
the service died on its way out instead of ending.
---
 tentacle/src/service.rs | 8 +++++---
 tentacle/src/session.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 0d79df3..fad00b8 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -7,6 +7,7 @@ use log::{debug, error, log_enabled, trace, warn};
 use std::{
     borrow::Cow,
     collections::{HashMap, HashSet},
+    panic::{catch_unwind, AssertUnwindSafe},
     pin::Pin,
     sync::{
         atomic::{AtomicBool, AtomicUsize, Ordering},
@@ -1417,11 +1418,12 @@ where
                 // don't care about it
                 let _ignore = sender.send(());
             }
-            match handle.poll_unpin(cx) {
-                Poll::Pending => {
+            // on async-std, the handle of a task that panicked panics as well
+            match catch_unwind(AssertUnwindSafe(|| handle.poll_unpin(cx))) {
+                Ok(Poll::Pending) => {
                     self.wait_handle.push((None, handle));
                 }
-                Poll::Ready(_) => (),
+                Ok(Poll::Ready(_)) | Err(_) => (),
             }
         }
 
diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index a6f05dd..dff10a5 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -3,6 +3,7 @@ use log::{debug, error, log_enabled, trace, warn};
 use std::collections::{HashMap, HashSet};
 use std::{
     io::{self, ErrorKind},
+    panic::{catch_unwind, AssertUnwindSafe},
     pin::Pin,
     sync::{
         atomic::{AtomicUsize, Ordering},
@@ -788,11 +789,12 @@ impl Session {
                 // don't care about it
                 let _ignore = sender.send(());
             }
-            match handle.poll_unpin(cx) {
-                Poll::Pending => {
+            // on async-std, the handle of a task that panicked panics as well
+            match catch_unwind(AssertUnwindSafe(|| handle.poll_unpin(cx))) {
+                Ok(Poll::Pending) => {
                     self.wait_handle.push((None, handle));
                 }
-                Poll::Ready(_) => (),
+                Ok(Poll::Ready(_)) | Err(_) => (),
             }
         }
         if self.wait_handle.is_empty() {
-- 
2.43.0

