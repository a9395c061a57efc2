From c0e3d4d5ed2ce7bb3952ffeac9cc468056402383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:53 +0000
Subject: [PATCH 01/15] fix: TPM2B marshaling into a too-small buffer returns
 an error instead of panicking

The size was compared against the larger of the type's capacity and the
remaining destination, so a destination that can hold the size field but not
the contents passed the check and the copy panicked.
---
 marshalable-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index acde6f9..938048a 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -278,7 +278,7 @@ fn derive_tpm2b_simple(
                 let used = self.size.try_marshal(buffer)?;
                 let (_, rest) = buffer.split_at_mut(used);
                 let buffer_marsh = self.get_size() as usize;
-                if buffer_marsh > (core::cmp::max(Self::MAX_BUFFER_SIZE, rest.len())) {
+                if buffer_marsh > (core::cmp::min(Self::MAX_BUFFER_SIZE, rest.len())) {
                     return Err(tpm2_rs_marshalable::Error::UnexpectedEndOfBuffer);
                 }
                 rest[..buffer_marsh].copy_from_slice(&self.#field_name[..buffer_marsh]);
-- 
2.43.0


From e464bc3837dc2ab5e1f5694b0c495d965a942391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:53 +0000
Subject: [PATCH 02/15] fix: marshaling a list whose count exceeds its capacity
 returns an error instead of panicking

Unmarshaling already rejects such a count with ArrayLengthExceeded; marshaling
indexed past the end of the array.
---
 marshalable-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index 938048a..0a2cb96 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -412,6 +412,9 @@ fn get_named_field_marshal<'a>(
         let length_prim =
             get_primitive(&length, basic_field_types.get(length.get_ident().unwrap()))?;
         Ok(quote_spanned! {span =>
+            if self.#length_prim as usize > self.#name.len() {
+                return Err(tpm2_rs_marshalable::Error::ArrayLengthExceeded);
+            }
             for i in 0..self.#length_prim as usize {
                 written += self.#name[i].try_marshal(&mut buffer[written..])?;
             }
-- 
2.43.0


From 0f299a9e04cbe682c9013ff8bde394d294db225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:54 +0000
Subject: [PATCH 03/15] fix: decode handle and session positions of format-one
 response codes

Handle errors were reported as session errors, and the session bit was decoded
as part of the position.
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 552e827..4de153f 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -151,7 +151,7 @@ impl ErrorType {
         }
         if val & Self::PARAMETER_MASK != 0 {
             Some(Self::Parameter)
-        } else if Self::SESSION_MASK != 0 {
+        } else if val & Self::SESSION_MASK != 0 {
             Some(Self::Session)
         } else {
             Some(Self::Handle)
@@ -203,7 +203,14 @@ impl ErrorPosition {
         if val & 0x80 == 0 {
             return None;
         }
-        match val & 0xF00 {
+        // Only parameter errors have a four bit position. Otherwise, the highest bit tells session
+        // errors from handle errors.
+        let mask = if val & ErrorType::PARAMETER_MASK != 0 {
+            0xF00
+        } else {
+            0x700
+        };
+        match val & mask {
             0x100 => Some(Self::Pos1),
             0x200 => Some(Self::Pos2),
             0x300 => Some(Self::Pos3),
-- 
2.43.0


From ee1124a67a2460d28f85e0bc6ebfaaaf999eef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:54 +0000
Subject: [PATCH 04/15] fix: TPM_RC_SEQUENCE is 0x103

---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 4de153f..7fc0b18 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -61,7 +61,7 @@ impl TpmRcError {
     /// Commands not being accepted because of a TPM failure (`TPM_RC_FAILURE`).
     pub const Failure: Self = Self::new(0x101);
     /// Improper use of a sequence handle (`TPM_RC_SEQUENCE`).
-    pub const Sequence: Self = Self::new(0x102);
+    pub const Sequence: Self = Self::new(0x103);
 
     /// Command commandSize value is inconsistent with contents of the command buffer; either the
     /// size is not the same as the octets loaded by the hardware interface layer or the value is
-- 
2.43.0


From ed72074c344f2705e30a2d69399d8ae6ee9ad6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:29 +0000
Subject: [PATCH 05/15] fix: check the response size field against the bytes
 the connection returned

A size below the header size panicked, and a size above the number of bytes
received decoded bytes that were never received.
---
 crates/tpm2-client/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 6ed70a5..0f7cb74 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -173,14 +173,17 @@ pub fn run_command_with_handles<
         .map_err(TssError::from)?;
 
     let mut resp_buffer = [0u8; RESP_BUFFER_SIZE];
-    tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
+    let resp_bytes = tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
 
-    let (resp_header, read) = read_response_header(&resp_buffer)?;
+    let (resp_header, read) = read_response_header(resp_bytes)?;
     let resp_size = resp_header.size as usize;
-    if resp_size > resp_buffer.len() {
+    if resp_size > RESP_BUFFER_SIZE {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
     }
-    let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..resp_size]);
+    if resp_size != resp_bytes.len() {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    }
+    let mut unmarsh = UnmarshalBuf::new(&resp_bytes[read..]);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
     if resp_header.tag == TpmSt::Sessions {
         let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-- 
2.43.0


From c0c9934185898bcec93b85da8934c16cbfe296c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:29 +0000
Subject: [PATCH 06/15] fix: no panic when the authorization area size does not
 fit the command buffer

---
 crates/tpm2-client/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 0f7cb74..1dcc1d8 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -82,7 +82,8 @@ pub fn write_command_sessions<
     if sessions.is_empty() {
         return Ok(0);
     }
-    let mut auth_offset = size_of::<u32>();
+    // Reserve the space for the size, which is filled in last.
+    let mut auth_offset = 0u32.try_marshal(buffer)?;
     let (s1, s2, s3) = sessions.decompose_ref();
     let Some(s1) = s1 else {
         return marshal_auth_size(auth_offset, buffer);
-- 
2.43.0


From 53438b130bbe6f3452c95f6b09a1a38e38ee36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:29 +0000
Subject: [PATCH 07/15] fix: error responses carry a complete response header

Only the response code was written, leaving whatever was in the buffer as the
tag and size of the response.
---
 crates/tpm2-impl/src/tpmctx.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/tpm2-impl/src/tpmctx.rs b/crates/tpm2-impl/src/tpmctx.rs
index 539915c..d8b9a1c 100644
--- a/crates/tpm2-impl/src/tpmctx.rs
+++ b/crates/tpm2-impl/src/tpmctx.rs
@@ -48,11 +48,16 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
     }
 
     fn fill_error(&mut self, response: &mut Deps::Response, error: TpmRcError) -> usize {
-        // TODO fill out more of the TPM header for an error
-        if response.write(6, &error.get().to_be_bytes()).is_err() {
+        const ERROR_TAG: u16 = 0x8001;
+        const ERROR_SIZE: usize = 10;
+        let mut header = [0u8; ERROR_SIZE];
+        header[..2].copy_from_slice(&ERROR_TAG.to_be_bytes());
+        header[2..6].copy_from_slice(&(ERROR_SIZE as u32).to_be_bytes());
+        header[6..].copy_from_slice(&error.get().to_be_bytes());
+        if response.write(0, &header).is_err() {
             return 0;
         }
-        10
+        ERROR_SIZE
     }
 
     fn execute_command(&mut self, buffers: impl TpmBuffers) -> Result<usize, TpmRcError> {
-- 
2.43.0


From 67b847f68999fee07fdd17a2445a44f49d299410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:29 +0000
Subject: [PATCH 08/15] fix: GetRandom answers TPM_RC_FAILURE when the DRBG
 fails instead of panicking

---
 crates/tpm2-impl/src/handler/random.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/handler/random.rs b/crates/tpm2-impl/src/handler/random.rs
index 02428e6..8156a8f 100644
--- a/crates/tpm2-impl/src/handler/random.rs
+++ b/crates/tpm2-impl/src/handler/random.rs
@@ -20,11 +20,6 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         self.crypto.drbg.fill_bytes(&[], buffer).map_err(Into::into)
     }
 
-    fn get_random_or_faiure_mode(&mut self, buffer: &mut [u8]) {
-        if self.try_get_random(buffer).is_err() {
-            todo!() // goto failure mode
-        }
-    }
     /// Handles the [TpmCc::GetRandom] (`0x17B`) command.
     pub fn get_random(
         &mut self,
@@ -34,11 +29,13 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         let requested_bytes = request.read_be_u16().ok_or(TpmRcError::CommandSize)? as usize;
 
         let mut response = request.into_response();
+        let mut result = Ok(());
         response
             .write_callback(requested_bytes, |buffer| {
-                self.get_random_or_faiure_mode(buffer)
+                result = self.try_get_random(buffer);
             })
             .map_err(|_| TpmRcError::Memory)?;
-        Ok(())
+        // TODO: goto failure mode
+        result.map_err(|_| TpmRcError::Failure)
     }
 }
-- 
2.43.0


From 9e1f81970b6c26c1fc28357d808a7af330a17ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:29 +0000
Subject: [PATCH 09/15] fix: TPM buffer accesses with an offset near usize::MAX
 are out of bounds, not an overflow

---
 crates/tpm2-impl/src/platform/buffer.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/tpm2-impl/src/platform/buffer.rs b/crates/tpm2-impl/src/platform/buffer.rs
index 5f57ed7..94c8435 100644
--- a/crates/tpm2-impl/src/platform/buffer.rs
+++ b/crates/tpm2-impl/src/platform/buffer.rs
@@ -62,9 +62,8 @@ impl TpmReadBuffer for [u8] {
         self.len()
     }
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
-        let read_from = self
-            .get(offset..offset + out.len())
-            .ok_or(ReadOutOfBounds)?;
+        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
+        let read_from = self.get(offset..end).ok_or(ReadOutOfBounds)?;
         out.copy_from_slice(read_from);
         Ok(())
     }
@@ -72,9 +71,10 @@ impl TpmReadBuffer for [u8] {
 
 impl TpmWriteBuffer for [u8] {
     fn write(&mut self, write_offset: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
-        let write_to = self
-            .get_mut(write_offset..write_offset + data.len())
+        let end = write_offset
+            .checked_add(data.len())
             .ok_or(WriteOutOfBounds)?;
+        let write_to = self.get_mut(write_offset..end).ok_or(WriteOutOfBounds)?;
         write_to.copy_from_slice(data);
 
         Ok(())
@@ -85,9 +85,8 @@ impl TpmWriteBuffer for [u8] {
         size: usize,
         callback: impl FnOnce(&mut [u8]),
     ) -> Result<(), WriteOutOfBounds> {
-        let Some(buffer) = self.get_mut(write_offset..write_offset + size) else {
-            return Err(WriteOutOfBounds);
-        };
+        let end = write_offset.checked_add(size).ok_or(WriteOutOfBounds)?;
+        let buffer = self.get_mut(write_offset..end).ok_or(WriteOutOfBounds)?;
         callback(buffer);
         Ok(())
     }
-- 
2.43.0


From 58914271a823965cb953f1624850717f795d38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 10/15] fix: discard a response that is larger than the
 caller's buffer

The unread bytes stayed in the stream, and every later command on the
connection was answered with leftovers of an earlier response.
---
 crates/tpm2-client/src/connection/tcp.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 7a7f9b7..53d5c97 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -418,6 +418,12 @@ impl Connection for TcpConnection {
         let mut resp_hdr: SendCommandResponseHeader = SendCommandResponseHeader::default();
         self.tpm_tcp.read_exact(resp_hdr.as_mut_bytes())?;
         if resp_hdr.length.get() as usize > response.len() {
+            // Discard the response, so that the next command does not read it as its own.
+            let length = u64::from(resp_hdr.length.get());
+            if std::io::copy(&mut (&self.tpm_tcp).take(length), &mut std::io::sink())? != length {
+                return Err(ErrorKind::UnexpectedEof.into());
+            }
+            Self::check_response_end(&mut self.tpm_tcp)?;
             return Err(Error::new(
                 ErrorKind::InvalidInput,
                 "response buffer too small",
-- 
2.43.0


From f6ff9c0ddf103b19a897c5fab99fe5d4559e5346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 11/15] fix: stop the simulator process when connecting to it
 fails

---
 crates/tpm2-client/src/connection/tcp.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 53d5c97..5d49d61 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -647,7 +647,7 @@ impl TcpSimulator {
             command.args(args);
         }
 
-        let child = command
+        let mut child = command
             // TODO: Capture stdout/stderr to display when requested.
             .stdout(Stdio::null())
             .stderr(Stdio::null())
@@ -663,16 +663,26 @@ impl TcpSimulator {
                 )
             })?;
 
+        match Self::connect_to_child(cwd.as_ref(), ip) {
+            Ok(conn) => Ok(TcpSimulator { child, conn }),
+            Err(err) => {
+                // Do not leave a simulator behind that nothing will ever stop.
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(err)
+            }
+        }
+    }
+
+    /// Connects to the simulator that was started in `cwd`.
+    fn connect_to_child(cwd: &Path, ip: &str) -> Result<TcpConnection> {
         // The TCG TPM simulator writes the ports it uses to two files:
         //   - TPM port: "command.port"
         //   - Platform port: "platform.port"
-        let tpm_port = Self::read_port_from_file_with_retries(&cwd.as_ref().join("command.port"))?;
-        let plat_port =
-            Self::read_port_from_file_with_retries(&cwd.as_ref().join("platform.port"))?;
-
-        let conn = TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))?;
+        let tpm_port = Self::read_port_from_file_with_retries(&cwd.join("command.port"))?;
+        let plat_port = Self::read_port_from_file_with_retries(&cwd.join("platform.port"))?;
 
-        Ok(TcpSimulator { child, conn })
+        TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))
     }
 
     /// Reads a port from a file with retires.
-- 
2.43.0


From 43450ee8f4ce1fd41f1dd6aa7694fa48e35238ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 12/15] fix: retry while the simulator's port file is still
 empty

---
 crates/tpm2-client/src/connection/tcp.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 5d49d61..a9ee343 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -690,14 +690,15 @@ impl TcpSimulator {
         let mut attempts = 0;
         loop {
             attempts += 1;
-            match std::fs::read_to_string(path) {
-                Ok(port_str) => {
-                    let port = port_str
-                        .trim()
-                        .parse::<u16>()
-                        .map_err(|e| Error::new(ErrorKind::InvalidData, e))?;
-                    return Ok(port);
-                }
+            // The simulator may have created the file without having written the port yet.
+            let port = std::fs::read_to_string(path).and_then(|port_str| {
+                port_str
+                    .trim()
+                    .parse::<u16>()
+                    .map_err(|e| Error::new(ErrorKind::InvalidData, e))
+            });
+            match port {
+                Ok(port) => return Ok(port),
                 Err(err) => {
                     if attempts > 3 {
                         return Err(err);
-- 
2.43.0


From ea05ab7eb84c088fe9d0aacb699e32bd11f5da61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:15 +0000
Subject: [PATCH 13/15] fix: refuse to wrap a structure whose encoding exceeds
 a 16-bit size

---
 marshalable-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index 0a2cb96..1e968b7 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -94,7 +94,9 @@ fn derive_tpm2b_struct(
 
             fn from_struct(val: &Self::StructType) -> tpm2_rs_marshalable::Result<Self> {
                 let mut x = Self::default();
-                x.size = val.try_marshal(&mut x.#field_name)? as u16;
+                let size = val.try_marshal(&mut x.#field_name)?;
+                x.size = <u16 as core::convert::TryFrom<usize>>::try_from(size)
+                    .map_err(|_| tpm2_rs_marshalable::Error::ArrayLengthExceeded)?;
                 Ok(x)
             }
 
-- 
2.43.0


From 8cc6eb54ee53974166686e9cc8cb01fbd6b1e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:54 +0000
Subject: [PATCH 14/15] fix: report a length attribute that is not a plain name
 instead of panicking

---
 marshalable-derive/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index 1e968b7..1066e3d 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -565,6 +565,12 @@ fn get_marshal_attribute(attrs: &[Attribute], key: &str) -> Result<Option<Path>>
             "Explicit Self types are not allowed here",
         ));
     };
+    if expr_path.path.get_ident().is_none() {
+        return Err(Error::new(
+            expr_path.path.span(),
+            "Unknown expression: Expected identifier",
+        ));
+    };
     Ok(Some(expr_path.path))
 }
 
-- 
2.43.0


From ffebd21e35683d92ff2b830902a962a73bf0845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:17 +0000
Subject: [PATCH 15/15] fix: compile the client without the TCP connection

---
 crates/tpm2-client/src/connection/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tpm2-client/src/connection/mod.rs b/crates/tpm2-client/src/connection/mod.rs
index 5839d2a..8e5e214 100644
--- a/crates/tpm2-client/src/connection/mod.rs
+++ b/crates/tpm2-client/src/connection/mod.rs
@@ -5,6 +5,7 @@
 use core::error::Error;
 
 mod tcp;
+#[cfg(feature = "connection-tcp")]
 pub use tcp::*;
 
 /// Trait for communicating with a TPM.
-- 
2.43.0

