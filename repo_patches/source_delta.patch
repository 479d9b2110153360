From 59571db53ef2bc270c5c4b627475695013878957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 01/42] fix: skip the header byte when reading the packet that
 ends a result set

read_eof took the 0xFE marker for a length-encoded integer, so status and
warnings of the summary came from the wrong bytes.
---
 src/connection/packets/ok.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 087b086..2263f14 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -83,6 +83,8 @@ impl OkPacket {
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        // packet header
+        buf.checked_eat_u8()?;
         // We need to skip affected_rows and insert_id here
         // because valid content of EOF packet includes
         // packet marker, server status and warning count only.
-- 
2.43.0


From f2b33de07a947703a6f587733fccfd770fdb75be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 02/42] fix: read the EOF packets servers without DEPRECATE_EOF
 send

The packet after column and parameter definitions was taken for the first row
(or for the answer to the next command), and the final one was parsed by the
layout of an OK packet.
---
 src/connection/packets/ok.rs         |  6 ++++++
 src/connection/prepared_statement.rs |  7 +++++--
 src/connection/query.rs              | 23 +++++++++++++++++++++++
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 2263f14..98e3d2b 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -82,6 +82,10 @@ impl OkPacket {
         packet: PoolItem<'_, Vec<u8>>,
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
+        if !capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            return Self::read_old_eof(packet, capabilities);
+        }
+
         let mut buf = ParseBuf(&packet);
         // packet header
         buf.checked_eat_u8()?;
@@ -122,6 +126,8 @@ impl OkPacket {
         _capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        // packet header
+        buf.checked_eat_u8()?;
         // We assume that CLIENT_PROTOCOL_41 was set
         let warnings = buf.checked_eat_u16()?;
         let status = StatusFlags::from_bits_truncate(buf.checked_eat_u16()?);
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index ef018c7..de91fcc 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -55,8 +55,11 @@ impl Connection {
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
 
-        for _ in 0..(stmt.params_len as usize + stmt.columns_len as usize) {
-            self.read_packet().await?;
+        for count in [stmt.params_len as usize, stmt.columns_len as usize] {
+            for _ in 0..count {
+                self.read_packet().await?;
+            }
+            self.read_definitions_end(count).await?;
         }
 
         Ok(PreparedStatement {
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 92fb477..e3c4470 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -4,6 +4,8 @@ use {
         Command, Connection, ParseBuf, ResultSet, BUFFER_POOL,
     },
     crate::{
+        bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::FromQueryResult,
         packets::{ColumnDef, OkPacket},
         types::Value,
@@ -45,9 +47,30 @@ impl Connection {
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
             columns.push(def.try_into()?);
         }
+        self.read_definitions_end(count).await?;
         Ok(columns)
     }
 
+    /// Without `DEPRECATE_EOF`, definitions of columns and parameters are followed by an EOF packet.
+    pub(super) async fn read_definitions_end(&mut self, count: usize) -> Result<(), Error> {
+        if count != 0
+            && !self
+                .data
+                .capabilities
+                .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            let packet = self.read_packet().await?;
+            if packet.first() != Some(&0xFE) {
+                return Err(ProtocolError::unexpected_packet(
+                    Vec::clone(&packet),
+                    Some("EOF Packet"),
+                )
+                .into());
+            }
+        }
+        Ok(())
+    }
+
     pub(super) async fn read_settings(&mut self) -> Result<(), Error> {
         if self.options.max_allowed_packet().is_none() {
             let mut res = self
-- 
2.43.0


From c826d1df86ad6e781eb25f94dd29d3f6ca5f4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:30 +0000
Subject: [PATCH 03/42] fix: report an error packet in the middle of rows

It was decoded as a row, or skipped while waiting for an end that never comes,
and an empty packet in its place made the client panic.
---
 src/connection/io.rs         |  2 +-
 src/connection/query.rs      |  2 +-
 src/connection/result_set.rs | 74 +++++++++++++++++++++++-------------
 3 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 986ab5b..4c9f95b 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -145,7 +145,7 @@ impl Connection {
     }
 
     pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
-        self.cleanup().await?;
+        self.skip_pending_result().await?;
         self.seq_id = 0;
         self.write_struct(cmd).await
     }
diff --git a/src/connection/query.rs b/src/connection/query.rs
index e3c4470..1b2ff79 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -35,7 +35,7 @@ impl Connection {
         let body: &mut Vec<u8> = buf.as_mut();
         body.push(cmd as u8);
         body.extend_from_slice(data.as_ref());
-        self.cleanup().await?;
+        self.skip_pending_result().await?;
         self.seq_id = 0;
         self.write_packet(&buf).await
     }
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 76951a4..0c1f3e3 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -5,6 +5,7 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
         Deserialize, Error, ParseBuf,
@@ -64,23 +65,20 @@ where
     }
 
     pub async fn next(&mut self) -> Result<Option<R>, Error> {
-        if self.ok_packet.is_some() {
+        if self.ok_packet.is_some() || !self.conn.pending_result {
             return Ok(None);
         }
         let packet = self.conn.read_packet().await?;
-        let is_last_result_set_packet = if self
-            .conn
-            .data
-            .capabilities
-            .contains(CapabilityFlags::DEPRECATE_EOF)
-        {
-            packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-        } else {
-            packet[0] == 0xFE && packet.len() < 8
-        };
-        if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
+        let is_last_result_set_packet = self.conn.is_last_result_set_packet(&packet);
+        if packet.first() == Some(&0xFF) {
+            // An error ends the result set.
+            self.conn.pending_result = false;
+            Err(
+                ErrPacket::deserialize(&mut ParseBuf(&packet), self.conn.data.capabilities)?.into(),
+            )
+        } else if is_last_result_set_packet {
             self.conn.pending_result = false;
+            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
             Ok(None)
         } else {
             let mut row = P::read_result_set_row(&packet, &self.columns)?;
@@ -127,8 +125,8 @@ where
             Some(x) => Ok(x),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next()` only returns `None` if ok packet was read
-                Ok(self.ok_packet.unwrap())
+                // There is no ok packet if the result set was ended by an error.
+                self.ok_packet.ok_or_else(|| ProtocolError::eof().into())
             }
         }
     }
@@ -138,28 +136,41 @@ where
             Some(x) => Ok((x, self.columns, self.mapping)),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next() only returns `None` if ok packet was read
-                Ok((self.ok_packet.unwrap(), self.columns, self.mapping))
+                // There is no ok packet if the result set was ended by an error.
+                let ok_packet = self.ok_packet.ok_or_else(ProtocolError::eof)?;
+                Ok((ok_packet, self.columns, self.mapping))
             }
         }
     }
 }
 
 impl Connection {
+    fn is_last_result_set_packet(&self, packet: &[u8]) -> bool {
+        let max_len = if self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            MAX_PAYLOAD_LEN
+        } else {
+            8
+        };
+        packet.first() == Some(&0xFE) && packet.len() < max_len
+    }
+
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
         if self.pending_result {
             loop {
                 let packet = self.read_packet().await?;
-                let is_last_result_set_packet = if self
-                    .data
-                    .capabilities
-                    .contains(CapabilityFlags::DEPRECATE_EOF)
-                {
-                    packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-                } else {
-                    packet[0] == 0xFE && packet.len() < 8
-                };
-                if is_last_result_set_packet {
+                if packet.first() == Some(&0xFF) {
+                    self.pending_result = false;
+                    return Err(ErrPacket::deserialize(
+                        &mut ParseBuf(&packet),
+                        self.data.capabilities,
+                    )?
+                    .into());
+                }
+                if self.is_last_result_set_packet(&packet) {
                     self.pending_result = false;
                     return Ok(Some(OkPacket::read_eof(packet, self.data.capabilities)?));
                 }
@@ -168,4 +179,13 @@ impl Connection {
             Ok(None)
         }
     }
+
+    /// Skips what is left of the response to an earlier command.
+    pub(super) async fn skip_pending_result(&mut self) -> Result<(), Error> {
+        match self.cleanup().await {
+            // The error does not belong to the command that is about to be sent.
+            Ok(_) | Err(Error::Server(_)) => Ok(()),
+            Err(err) => Err(err),
+        }
+    }
 }
-- 
2.43.0


From 6f8bd33a11782617dd939dd63d454e0e8d56a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 04/42] fix: keep track of everything the server still sends
 for a command

Rows of a statement run with execute_query or execute, result sets after the
first one, and results whose column definitions failed to parse were taken for
the response to the next command.
---
 src/connection/init.rs               |   4 +-
 src/connection/io.rs                 |   2 +-
 src/connection/mod.rs                |  13 +++-
 src/connection/prepared_statement.rs |   2 +-
 src/connection/query.rs              |  25 +++++-
 src/connection/result_set.rs         | 111 ++++++++++++++++++++-------
 6 files changed, 122 insertions(+), 35 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a023413..99afa0f 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -1,7 +1,7 @@
 use {
     super::{
         types::AuthPlugin, Command, Connection, ConnectionData, ConnectionOptions, ParseBuf,
-        Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
+        PendingResult, Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
         packets::{HandshakePacket, HandshakeResponse},
@@ -21,7 +21,7 @@ impl Connection {
             seq_id,
             data,
             options,
-            pending_result: false,
+            pending_result: PendingResult::Nothing,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index 4c9f95b..4ac99ff 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -171,7 +171,7 @@ impl Connection {
     }
 
     pub(crate) async fn read_response(&mut self) -> Result<Result<OkPacket, ErrPacket>, Error> {
-        let packet = self.read_packet().await?;
+        let packet = self.read_result_header().await?;
         self.decode_response(&packet).await
     }
 }
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 318a9ee..f6e60cb 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -47,12 +47,23 @@ pub use {
     timeout::{Timeout, TimeoutFuture},
 };
 
+/// What the server still has to send for the last command.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+enum PendingResult {
+    Nothing,
+    /// The first packet of another result
+    Header,
+    /// This many packets (at least one), and then the rows
+    Definitions(usize),
+    Rows,
+}
+
 pub struct Connection {
     stream: Box<dyn StreamRequirements>,
     seq_id: u8,
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
-    pending_result: bool,
+    pending_result: PendingResult,
 }
 
 impl Connection {
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index de91fcc..f5f5199 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -57,7 +57,7 @@ impl Connection {
 
         for count in [stmt.params_len as usize, stmt.columns_len as usize] {
             for _ in 0..count {
-                self.read_packet().await?;
+                self.read_definition().await?;
             }
             self.read_definitions_end(count).await?;
         }
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 1b2ff79..2f13ffa 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -1,13 +1,14 @@
 use {
     super::{
         types::{Column, TextProtocol},
-        Command, Connection, ParseBuf, ResultSet, BUFFER_POOL,
+        Command, Connection, ParseBuf, PendingResult, ResultSet, BUFFER_POOL,
     },
     crate::{
         bitflags::CapabilityFlags,
         error::ProtocolError,
         model::FromQueryResult,
-        packets::{ColumnDef, OkPacket},
+        packets::{ColumnDef, ErrPacket, OkPacket},
+        pool::PoolItem,
         types::Value,
         Deserialize, Error,
     },
@@ -43,7 +44,7 @@ impl Connection {
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
         let mut columns: Vec<Column> = Vec::with_capacity(count);
         for _ in 0..count {
-            let packet = self.read_packet().await?;
+            let packet = self.read_definition().await?;
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
             columns.push(def.try_into()?);
         }
@@ -59,7 +60,7 @@ impl Connection {
                 .capabilities
                 .contains(CapabilityFlags::DEPRECATE_EOF)
         {
-            let packet = self.read_packet().await?;
+            let packet = self.read_definition().await?;
             if packet.first() != Some(&0xFE) {
                 return Err(ProtocolError::unexpected_packet(
                     Vec::clone(&packet),
@@ -71,6 +72,22 @@ impl Connection {
         Ok(())
     }
 
+    pub(super) async fn read_definition<'b>(&mut self) -> Result<PoolItem<'b, Vec<u8>>, Error> {
+        let packet = self.read_packet().await?;
+        self.pending_result = match self.pending_result {
+            PendingResult::Definitions(1) => PendingResult::Rows,
+            PendingResult::Definitions(count) => PendingResult::Definitions(count - 1),
+            other => other,
+        };
+        if packet.first() == Some(&0xFF) {
+            self.pending_result = PendingResult::Nothing;
+            return Err(
+                ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into(),
+            );
+        }
+        Ok(packet)
+    }
+
     pub(super) async fn read_settings(&mut self) -> Result<(), Error> {
         if self.options.max_allowed_packet().is_none() {
             let mut res = self
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 0c1f3e3..de0bae5 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -1,13 +1,14 @@
 use {
     super::{
         types::{Column, Protocol},
-        Connection, MAX_PAYLOAD_LEN,
+        Connection, PendingResult, MAX_PAYLOAD_LEN,
     },
     crate::{
-        bitflags::CapabilityFlags,
+        bitflags::{CapabilityFlags, StatusFlags},
         error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
+        pool::PoolItem,
         Deserialize, Error, ParseBuf,
     },
     std::marker::PhantomData,
@@ -31,7 +32,7 @@ where
     R: FromQueryResult,
 {
     pub(super) async fn read(conn: &'a mut Connection) -> Result<Self, Error> {
-        let packet = conn.read_packet().await?;
+        let packet = conn.read_result_header().await?;
         match packet.first() {
             Some(0x00) => {
                 let mut res = ResultSet::new(Vec::new(), conn);
@@ -45,7 +46,6 @@ where
             )?
             .into()),
             _ => {
-                conn.pending_result = true;
                 let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
                 let columns = conn.read_column_defs(columns_len as usize).await?;
                 Ok(ResultSet::new(columns, conn))
@@ -65,20 +65,17 @@ where
     }
 
     pub async fn next(&mut self) -> Result<Option<R>, Error> {
-        if self.ok_packet.is_some() || !self.conn.pending_result {
+        if self.ok_packet.is_some() || self.conn.pending_result != PendingResult::Rows {
             return Ok(None);
         }
         let packet = self.conn.read_packet().await?;
         let is_last_result_set_packet = self.conn.is_last_result_set_packet(&packet);
         if packet.first() == Some(&0xFF) {
             // An error ends the result set.
-            self.conn.pending_result = false;
-            Err(
-                ErrPacket::deserialize(&mut ParseBuf(&packet), self.conn.data.capabilities)?.into(),
-            )
+            self.conn.pending_result = PendingResult::Nothing;
+            Err(ErrPacket::deserialize(&mut ParseBuf(&packet), self.conn.data.capabilities)?.into())
         } else if is_last_result_set_packet {
-            self.conn.pending_result = false;
-            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
+            self.ok_packet = Some(self.conn.end_result_set(packet)?);
             Ok(None)
         } else {
             let mut row = P::read_result_set_row(&packet, &self.columns)?;
@@ -158,25 +155,87 @@ impl Connection {
         packet.first() == Some(&0xFE) && packet.len() < max_len
     }
 
+    fn end_result_set(&mut self, packet: PoolItem<'_, Vec<u8>>) -> Result<OkPacket, ProtocolError> {
+        self.pending_result = PendingResult::Nothing;
+        let ok_packet = OkPacket::read_eof(packet, self.data.capabilities)?;
+        if ok_packet
+            .status()
+            .contains(StatusFlags::MORE_RESULTS_EXISTS)
+        {
+            self.pending_result = PendingResult::Header;
+        }
+        Ok(ok_packet)
+    }
+
+    /// Reads the first packet of a result.
+    pub(super) async fn read_result_header<'b>(&mut self) -> Result<PoolItem<'b, Vec<u8>>, Error> {
+        let packet = self.read_packet().await?;
+        self.pending_result = PendingResult::Nothing;
+        match packet.first() {
+            Some(0x00) => {
+                let ok_packet = OkPacket::read_ok(&packet, self.data.capabilities)?;
+                if ok_packet
+                    .status()
+                    .contains(StatusFlags::MORE_RESULTS_EXISTS)
+                {
+                    self.pending_result = PendingResult::Header;
+                }
+            }
+            None | Some(0xFB) | Some(0xFF) => {}
+            _ => {
+                let mut count = ParseBuf(&packet).checked_eat_lenenc_int()? as usize;
+                if !self
+                    .data
+                    .capabilities
+                    .contains(CapabilityFlags::DEPRECATE_EOF)
+                {
+                    count = count.saturating_add(1);
+                }
+                self.pending_result = match count {
+                    0 => PendingResult::Rows,
+                    count => PendingResult::Definitions(count),
+                };
+            }
+        }
+        Ok(packet)
+    }
+
+    /// Skips what is left of the last result (and the results after it).
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
-        if self.pending_result {
-            loop {
-                let packet = self.read_packet().await?;
-                if packet.first() == Some(&0xFF) {
-                    self.pending_result = false;
-                    return Err(ErrPacket::deserialize(
-                        &mut ParseBuf(&packet),
-                        self.data.capabilities,
-                    )?
-                    .into());
+        let mut ok_packet = None;
+        loop {
+            match self.pending_result {
+                PendingResult::Nothing => return Ok(ok_packet),
+                PendingResult::Header => {
+                    let packet = self.read_result_header().await?;
+                    match packet.first() {
+                        Some(0x00) => {
+                            ok_packet = Some(OkPacket::read_ok(&packet, self.data.capabilities)?)
+                        }
+                        None | Some(0xFB) | Some(0xFF) => {
+                            self.decode_response(&packet).await??;
+                        }
+                        _ => {}
+                    }
+                }
+                PendingResult::Definitions(_) => {
+                    self.read_definition().await?;
                 }
-                if self.is_last_result_set_packet(&packet) {
-                    self.pending_result = false;
-                    return Ok(Some(OkPacket::read_eof(packet, self.data.capabilities)?));
+                PendingResult::Rows => {
+                    let packet = self.read_packet().await?;
+                    if packet.first() == Some(&0xFF) {
+                        self.pending_result = PendingResult::Nothing;
+                        return Err(ErrPacket::deserialize(
+                            &mut ParseBuf(&packet),
+                            self.data.capabilities,
+                        )?
+                        .into());
+                    }
+                    if self.is_last_result_set_packet(&packet) {
+                        ok_packet = Some(self.end_result_set(packet)?);
+                    }
                 }
             }
-        } else {
-            Ok(None)
         }
     }
 
-- 
2.43.0


From 71a1ab76272e1b4db476009070c5b0377b3557e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:31 +0000
Subject: [PATCH 05/42] fix: flush the stream after writing a packet

A stream that buffers its output never sent the command.
---
 src/connection/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 4ac99ff..bf0dc6c 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -135,6 +135,8 @@ impl Connection {
             .await??;
             self.seq_id = self.seq_id.wrapping_add(1);
         }
+
+        Timeout::new(self.stream.flush(), self.data.sleep, self.options.timeout()).await??;
         Ok(())
     }
 
-- 
2.43.0


From a5bc1f577faa9cb0b87d8852467f48982247bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 06/42] fix: refuse to use a connection after an interrupted
 transfer

After a timeout, an I/O error or a dropped future the rest of the interrupted
packet, or the whole response, was taken for the response to the next command.
---
 src/connection/init.rs |  1 +
 src/connection/io.rs   | 14 ++++++++++++++
 src/connection/mod.rs  |  2 ++
 3 files changed, 17 insertions(+)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 99afa0f..e728248 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -22,6 +22,7 @@ impl Connection {
             data,
             options,
             pending_result: PendingResult::Nothing,
+            interrupted: false,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index bf0dc6c..29b939c 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -92,6 +92,7 @@ impl Connection {
     }
 
     pub(super) async fn read_packet<'b>(&mut self) -> Result<PoolItem<'b, Vec<u8>>, Error> {
+        self.start_transfer()?;
         let mut decode_buf = BUFFER_POOL.get();
         Self::read_packet_to_buf(
             &mut self.stream,
@@ -101,10 +102,22 @@ impl Connection {
             self.options.timeout(),
         )
         .await?;
+        self.interrupted = false;
         Ok(decode_buf)
     }
 
+    /// Once reading or writing a packet did not finish (because of an error, or because the future
+    /// was dropped), it's unknown what the next bytes on the stream belong to.
+    fn start_transfer(&mut self) -> Result<(), Error> {
+        if self.interrupted {
+            return Err(ProtocolError::OutOfSync.into());
+        }
+        self.interrupted = true;
+        Ok(())
+    }
+
     pub(super) async fn write_packet(&mut self, mut bytes: &[u8]) -> Result<(), Error> {
+        self.start_transfer()?;
         let extra_packet = bytes.remaining() % MAX_PAYLOAD_LEN == 0;
 
         while bytes.has_remaining() {
@@ -137,6 +150,7 @@ impl Connection {
         }
 
         Timeout::new(self.stream.flush(), self.data.sleep, self.options.timeout()).await??;
+        self.interrupted = false;
         Ok(())
     }
 
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index f6e60cb..0d6864f 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -64,6 +64,8 @@ pub struct Connection {
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
     pending_result: PendingResult,
+    /// A packet has been read or written only in part.
+    interrupted: bool,
 }
 
 impl Connection {
-- 
2.43.0


From 7ab204176a27aa17fa235691307e36bc42d0a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 07/42] fix: return an error instead of panicking on column
 types and responses that are not supported

Also decode long blobs in the text protocol.
---
 src/connection/result_set.rs | 7 ++++++-
 src/types/value/bin.rs       | 4 ++--
 src/types/value/text.rs      | 5 +++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index de0bae5..891bf0b 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -39,7 +39,12 @@ where
                 res.ok_packet = Some(res.conn.decode_response(&packet).await??);
                 Ok(res)
             }
-            Some(0xFB) => unimplemented!("local infile"),
+            // "local infile" is not supported (and never requested).
+            None | Some(0xFB) => Err(ProtocolError::unexpected_packet(
+                Vec::clone(&packet),
+                Some("Result Set"),
+            )
+            .into()),
             Some(0xFF) => Err(ErrPacket::deserialize(
                 &mut ParseBuf(&packet),
                 conn.data().capabilities(),
diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index 89d8461..e9a483c 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::ProtocolError,
+        error::{InvalidFlags, ProtocolError},
         utils::{lenenc_slice_len, BufMutExt},
         ParseBuf, Serialize,
     },
@@ -249,7 +249,7 @@ impl Value {
             ColumnType::Timestamp | ColumnType::Datetime => Self::deserialize_datetime(buf),
             ColumnType::Time => Self::deserialize_time(buf),
             ColumnType::Null => Ok(Self::Null),
-            x => unimplemented!("Unsupported column type {:?}", x),
+            x => Err(InvalidFlags::ColumnType(x as u8).into()),
         }
     }
 }
diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7b52306..06c4680 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::{ParseError, ProtocolError},
+        error::{InvalidFlags, ParseError, ProtocolError},
         ParseBuf,
     },
     std::{
@@ -367,6 +367,7 @@ impl Value {
                     | ColumnType::Blob
                     | ColumnType::TinyBlob
                     | ColumnType::MediumBlob
+                    | ColumnType::LongBlob
                     | ColumnType::Set
                     | ColumnType::Enum
                     | ColumnType::Decimal
@@ -379,7 +380,7 @@ impl Value {
                     }
                     ColumnType::Date => Self::deserialize_date_text(bytes),
                     ColumnType::Time => Self::deserialize_time_text(bytes),
-                    x => unimplemented!("Unsupported column type {:?}", x),
+                    x => Err(InvalidFlags::ColumnType(x as u8).into()),
                 }
             }
         }
-- 
2.43.0


From c4fbedf8cbacb852773956ca14b3f2bf993db502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 08/42] fix: accept long names and unknown flags in column
 definitions

---
 src/connection/packets/column_def.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/connection/packets/column_def.rs b/src/connection/packets/column_def.rs
index 26846b5..0952e56 100644
--- a/src/connection/packets/column_def.rs
+++ b/src/connection/packets/column_def.rs
@@ -23,17 +23,17 @@ impl<'de> Deserialize<'de> for ColumnDef<'de> {
     type Ctx = ();
 
     fn deserialize(buf: &mut ParseBuf<'de>, _ctx: Self::Ctx) -> Result<Self, ProtocolError> {
-        if buf.checked_eat_u8_slice()? != b"def" {
+        if buf.checked_eat_lenenc_slice()? != b"def" {
             return Err(ProtocolError::unexpected_packet(
                 buf.0.to_vec(),
                 Some("Column Definition"),
             ));
         }
-        let db = buf.checked_eat_u8_str()?;
-        let table = buf.checked_eat_u8_str()?;
-        let org_table = buf.checked_eat_u8_str()?;
-        let name = buf.checked_eat_u8_str()?;
-        let org_name = buf.checked_eat_u8_str()?;
+        let db = buf.checked_eat_lenenc_str()?;
+        let table = buf.checked_eat_lenenc_str()?;
+        let org_table = buf.checked_eat_lenenc_str()?;
+        let name = buf.checked_eat_lenenc_str()?;
+        let org_name = buf.checked_eat_lenenc_str()?;
         buf.check_len(13)?;
         if buf.eat_u8() != 12 {
             return Err(ProtocolError::eof());
@@ -47,7 +47,7 @@ impl<'de> Deserialize<'de> for ColumnDef<'de> {
             charset: buf.eat_u16(),
             length: buf.eat_u32(),
             r#type: ColumnType::try_from(buf.eat_u8())?,
-            flags: ColumnFlags::try_from(buf.eat_u16())?,
+            flags: ColumnFlags::from_bits_truncate(buf.eat_u16()),
             decimals: buf.eat_u8(),
         });
         buf.skip(2);
-- 
2.43.0


From 2947202a379cb5c2c7d07fee3a4df25e39208be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 09/42] fix: consume binary dates and times completely

Dates sent in a longer encoding left bytes behind, which were decoded as the next column.
---
 src/types/value/bin.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index e9a483c..4f340ec 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -1,9 +1,9 @@
 use {
-    super::Value,
+    super::{Value, ValueType},
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::{InvalidFlags, ProtocolError},
+        error::{InvalidFlags, ParseError, ProtocolError},
         utils::{lenenc_slice_len, BufMutExt},
         ParseBuf, Serialize,
     },
@@ -124,25 +124,29 @@ impl Value {
     deserialize_num!(i64, u64, long);
 
     fn deserialize_date(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
-        let len = buf.checked_eat_u8()?;
-        buf.check_len(len as usize)?;
-
-        let mut year = 0u16;
-        let mut month = 0u8;
-        let mut day = 0u8;
-
-        if len >= 4 {
-            year = buf.eat_u16();
-            month = buf.eat_u8();
-            day = buf.eat_u8();
+        // A date may be sent in the longer encodings of a datetime.
+        match Self::deserialize_datetime(buf)? {
+            Self::Datetime(year, month, day, ..) => Ok(Self::Date(year, month, day)),
+            x => Ok(x),
         }
-
-        Ok(Self::Date(year, month, day))
     }
 
-    fn deserialize_datetime(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
+    /// Eats the length of a date or time, and checks that all of it is there.
+    fn deserialize_temporal_len(
+        buf: &mut ParseBuf<'_>,
+        lens: &[u8],
+        value_type: ValueType,
+    ) -> Result<u8, ProtocolError> {
         let len = buf.checked_eat_u8()?;
+        if !lens.contains(&len) {
+            return Err(ParseError::InvalidValue(value_type, vec![len]).into());
+        }
         buf.check_len(len as usize)?;
+        Ok(len)
+    }
+
+    fn deserialize_datetime(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
+        let len = Self::deserialize_temporal_len(buf, &[0, 4, 7, 11], ValueType::Datetime)?;
 
         let mut year = 0u16;
         let mut month = 0u8;
@@ -178,8 +182,7 @@ impl Value {
     }
 
     fn deserialize_time(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
-        let len = buf.checked_eat_u8()?;
-        buf.check_len(len as usize)?;
+        let len = Self::deserialize_temporal_len(buf, &[0, 8, 12], ValueType::Time)?;
 
         let mut is_negative = false;
         let mut days = 0u32;
-- 
2.43.0


From 3988d4f587bcb8bf5e3ea330f7dfe43efa1bbbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 10/42] fix: reject malformed times and datetimes in text rows

More than six fractional digits caused a panic. A stray character after the seconds, any separator
between date and time, and hours above 23 in a datetime were accepted and dropped.
---
 src/types/value/text.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 06c4680..e0b5a56 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -215,11 +215,11 @@ impl Value {
         let seconds: u8 =
             btoi::btou(&value[first_colon + 4..first_colon + 6]).map_err(|_| invalid_value())?;
         let mut microseconds: u32 = 0;
-        if value.len() > first_colon + 6 + 1 {
-            if value[first_colon + 6] != b'.' {
+        if value.len() > first_colon + 6 {
+            let buf = &value[first_colon + 6 + 1..];
+            if value[first_colon + 6] != b'.' || buf.is_empty() || buf.len() > 6 {
                 return Err(invalid_value().into());
             }
-            let buf = &value[first_colon + 6 + 1..];
             microseconds = btoi::btou(buf).map_err(|_| invalid_value())?;
             microseconds *= 10u32.pow(6 - buf.len() as u32);
         }
@@ -273,12 +273,17 @@ impl Value {
         // possible range for datetime: 1000-01-01 00:00:00 to 9999-12-31 23:59:59
         // possible range for timestamp: 1970-01-01 00:00:01 to 2038-01-19 03:14:07
 
-        if value.len() < 19 {
-            return Err(ParseError::InvalidValue(ValueType::Date, value.to_vec()).into());
+        let invalid_value = || ParseError::InvalidValue(ValueType::Datetime, value.to_vec());
+
+        if value.len() < 19 || value[10] != b' ' {
+            return Err(invalid_value().into());
         }
         let (year, month, day) = Self::deserialize_date_text_inner(&value[0..10])?;
-        let (_, hour, minute, second, microsecond) =
+        let (days, hour, minute, second, microsecond) =
             Self::deserialize_time_text_inner(&value[11..])?;
+        if days != 0 {
+            return Err(invalid_value().into());
+        }
         Ok(Self::Datetime(
             year,
             month,
-- 
2.43.0


From b800d1fc0beba424a7a1548aad96a59b08c29ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 11/42] fix: reject malformed length-encoded integers instead
 of reading them as 0

---
 src/connection/parse_buf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connection/parse_buf.rs b/src/connection/parse_buf.rs
index 3e89816..fe1c82a 100644
--- a/src/connection/parse_buf.rs
+++ b/src/connection/parse_buf.rs
@@ -161,7 +161,11 @@ impl<'a> ParseBuf<'a> {
             0xfc => self.checked_eat_u16().map(|x| x as u64),
             0xfd => self.checked_eat_u24().map(|x| x as u64),
             0xfe => self.checked_eat_u64(),
-            0xfb | 0xff => Ok(0),
+            x @ (0xfb | 0xff) => Err(ProtocolError::invalid_packet(
+                vec![x],
+                "Length-encoded integer",
+                "invalid first byte",
+            )),
         }
     }
 
-- 
2.43.0


From 28f2220a9f8d0fe302393cbc3419d082a88f37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 12/42] fix: don't panic on errors and unusual data in the
 first packet of the server

---
 src/connection/init.rs              | 15 ++++++++++++---
 src/connection/packets/handshake.rs | 16 +++++++++-------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index e728248..12438a3 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -4,8 +4,9 @@ use {
         PendingResult, Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
-        packets::{HandshakePacket, HandshakeResponse},
-        ConnectionOptionsTrait, Error, Serialize, StreamRequirements,
+        bitflags::CapabilityFlags,
+        packets::{ErrPacket, HandshakePacket, HandshakeResponse},
+        ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
     std::sync::Arc,
 };
@@ -54,7 +55,15 @@ impl Connection {
         let mut packet = BUFFER_POOL.get();
         Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
             .await?;
-        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(()).unwrap();
+        if packet.first() == Some(&0xFF) {
+            // Before anything is negotiated, servers may leave out the SQL state.
+            let capabilities = match packet.get(3) {
+                Some(b'#') => CapabilityFlags::PROTOCOL_41,
+                _ => CapabilityFlags::empty(),
+            };
+            return Err(ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?.into());
+        }
+        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
         let (version, is_mariadb) = handshake
             .parse_server_version()
diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index ec8253c..7fe2eb6 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -36,15 +36,16 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         buf.skip(1);
         let capabilities_bits_1 = <u32 as HalfInteger>::deserialize_lower(buf)?;
         let default_collation = buf.parse_unchecked(())?;
-        let status_flags = buf.parse_unchecked(())?;
+        let status_flags = StatusFlags::from_bits_truncate(buf.parse_unchecked(())?);
         let capabilities_bits_2 = <u32 as HalfInteger>::deserialize_upper(buf)?;
         let auth_plugin_data_len: u8 = buf.parse_unchecked(())?;
         buf.skip(10);
 
-        let capabilities = CapabilityFlags::try_from(capabilities_bits_1 | capabilities_bits_2)?;
+        let capabilities =
+            CapabilityFlags::from_bits_truncate(capabilities_bits_1 | capabilities_bits_2);
 
         if capabilities.contains(CapabilityFlags::SECURE_CONNECTION) {
-            let len = i8::max(13, auth_plugin_data_len as i8 - 8) as usize;
+            let len = u8::max(13, auth_plugin_data_len.saturating_sub(8)) as usize;
             nonce.extend_from_slice(buf.checked_eat(len)?);
         }
 
@@ -53,7 +54,8 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         nonce.resize(20, 0);
 
         let auth_plugin = if capabilities.contains(CapabilityFlags::PLUGIN_AUTH) {
-            Some(AuthPlugin::from_bytes(buf.eat_all())?)
+            // The plugin named here is only the default of the server, the one for the user may differ.
+            AuthPlugin::from_bytes(buf.eat_all()).ok()
         } else {
             None
         };
@@ -85,10 +87,10 @@ impl<'a> HandshakePacket<'a> {
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
         let mut server_version = self.server_version;
         fn eat_int(string: &mut &str) -> Option<u16> {
-            match string.chars().position(|x| !x.is_alphanumeric()) {
-                Some(pos) => {
+            match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
+                Some((pos, separator)) => {
                     let value = u16::from_str(&string[..pos]).ok();
-                    *string = &string[pos + 1..];
+                    *string = &string[pos + separator.len_utf8()..];
                     value
                 }
                 None => {
-- 
2.43.0


From b7535f84da728b51ba48dc75c341ef60f1e8dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 13/42] fix: recognise MariaDB behind its compatibility prefix

---
 src/connection/packets/handshake.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 7fe2eb6..53ee5b2 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -86,6 +86,12 @@ impl<'a> HandshakePacket<'a> {
 
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
         let mut server_version = self.server_version;
+        // MariaDB prepends this for clients that expect a version of MySQL.
+        if let Some(version) = server_version.strip_prefix("5.5.5-") {
+            if version.contains("MariaDB") {
+                server_version = version;
+            }
+        }
         fn eat_int(string: &mut &str) -> Option<u16> {
             match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
                 Some((pos, separator)) => {
-- 
2.43.0


From b7225622e19e40989eefa0c427ec6775ef36d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 14/42] fix: check the result of the login after a fast
 caching_sha2_password authentication

---
 src/connection/auth.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 3ee6c11..1a6dd82 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -60,8 +60,7 @@ impl Connection {
             Some(0x01) => match packet.get(1) {
                 Some(0x03) => {
                     // auth ok
-                    self.read_packet().await?;
-                    Ok(())
+                    self.read_auth_result().await
                 }
                 Some(0x04) => {
                     let mut pass = super::BUFFER_POOL.get();
@@ -111,18 +110,7 @@ impl Connection {
                             .map_err(SerializeError::from)?;
                         self.write_packet(&encrypted_pass).await?;
                     }
-                    let res = self.read_packet().await?;
-                    match res.first() {
-                        Some(0x00) => Ok(()),
-                        Some(0xFF) => Err(Error::Server(ErrPacket::deserialize(
-                            &mut ParseBuf(&res),
-                            self.data.capabilities,
-                        )?)),
-                        _ => Err(Error::Protocol(ProtocolError::unexpected_packet(
-                            res.to_vec(),
-                            None,
-                        ))),
-                    }
+                    self.read_auth_result().await
                 }
                 _ => Err(ProtocolError::unexpected_packet(packet.to_vec(), None).into()),
             },
@@ -142,6 +130,23 @@ impl Connection {
         }
     }
 
+    #[cfg(feature = "caching-sha2-password")]
+    #[cfg_attr(doc, doc(cfg(feature = "caching-sha2-password")))]
+    async fn read_auth_result(&mut self) -> Result<(), Error> {
+        let res = self.read_packet().await?;
+        match res.first() {
+            Some(0x00) => Ok(()),
+            Some(0xFF) => Err(Error::Server(ErrPacket::deserialize(
+                &mut ParseBuf(&res),
+                self.data.capabilities,
+            )?)),
+            _ => Err(Error::Protocol(ProtocolError::unexpected_packet(
+                res.to_vec(),
+                None,
+            ))),
+        }
+    }
+
     async fn perform_auth_switch<T: Stream>(
         &mut self,
         auth_switch_request: AuthSwitchRequest,
-- 
2.43.0


From f98a73ffcc7fec6b80da8784678641fc4aaeb76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 15/42] fix: don't divide by zero when the server sent an empty
 nonce

---
 src/connection/auth.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 1a6dd82..37a0412 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -101,6 +101,14 @@ impl Connection {
                                 }
                             }
                         };
+                        if self.data.nonce.is_empty() {
+                            return Err(ProtocolError::invalid_packet(
+                                Vec::new(),
+                                "Auth switch request",
+                                "missing nonce",
+                            )
+                            .into());
+                        }
                         for (i, byte) in pass.iter_mut().enumerate() {
                             *byte ^= self.data.nonce[i % self.data.nonce.len()];
                         }
-- 
2.43.0


From e563ad8159d760fa02a74e5441e97c5be44547ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 16/42] fix: return an error instead of panicking on malformed
 public keys

---
 src/utils/crypt.rs | 70 ++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 37 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 4c86d67..1146504 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -17,56 +17,51 @@ mod der {
         num::BigUint,
     };
 
+    fn eat<'a>(der: &mut &'a [u8], len: usize) -> Result<&'a [u8], Error> {
+        if der.len() < len {
+            return Err(Error::InvalidPem);
+        }
+        let (eaten, left) = der.split_at(len);
+        *der = left;
+        Ok(eaten)
+    }
+
     fn eat_len(der: &mut &[u8]) -> Result<usize, Error> {
-        if der[0] & 0x80 == 0x80 {
+        let first = eat(der, 1)?[0];
+        if first & 0x80 == 0x80 {
             const BITS: usize = (usize::BITS / 8) as usize;
-            let len = (der[0] & (!0x80)) as usize;
+            let len = (first & (!0x80)) as usize;
             if len > BITS {
                 return Err(Error::InvalidPem);
             }
             let mut bytes = [0u8; BITS];
-            bytes[BITS - len..].copy_from_slice(&der[1..=len]);
-            *der = &der[len + 1..];
+            bytes[BITS - len..].copy_from_slice(eat(der, len)?);
             Ok(usize::from_be_bytes(bytes))
         } else {
-            let len = der[0] as usize;
-            *der = &der[1..];
-            Ok(len)
+            Ok(first as usize)
         }
     }
 
-    fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
-        if der[0] != 0x02 {
+    fn eat_value<'a>(der: &mut &'a [u8], tag: u8) -> Result<&'a [u8], Error> {
+        if eat(der, 1)?[0] != tag {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let uint = BigUint::from_bytes_be(&der[..len]);
-        *der = &der[len..];
-        Ok(uint)
+        eat(der, len)
+    }
+
+    fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
+        Ok(BigUint::from_bytes_be(eat_value(der, 0x02)?))
     }
 
     fn eat_sequence<'a>(der: &mut &'a [u8]) -> Result<&'a [u8], Error> {
-        if der[0] != 0x30 {
-            return Err(Error::InvalidPem);
-        }
-        *der = &der[1..];
-        let len = eat_len(der)?;
-        let sequence = &der[..len];
-        *der = &der[len..];
-        Ok(sequence)
+        eat_value(der, 0x30)
     }
 
     fn eat_bit_string<'a>(der: &mut &'a [u8]) -> Result<(u8, &'a [u8]), Error> {
-        if der[0] != 0x03 {
-            return Err(Error::InvalidPem);
-        }
-        *der = &der[1..];
-        let len = eat_len(der)?;
-        let unused_bits = der[0];
-        let bit_string = &der[1..len];
-        *der = &der[len..];
-        Ok((unused_bits, bit_string))
+        let mut value = eat_value(der, 0x03)?;
+        let unused_bits = eat(&mut value, 1)?[0];
+        Ok((unused_bits, value))
     }
 
     impl PublicKey {
@@ -98,13 +93,14 @@ mod der {
                 .cloned()
                 .collect();
 
-            let (body, is_pkcs_1) = if pem.starts_with(PKCS1.0) && pem.ends_with(PKCS1.1) {
-                (&pem[PKCS1.0.len()..pem.len() - PKCS1.1.len()], true)
-            } else if pem.starts_with(PKCS8.0) && pem.ends_with(PKCS8.1) {
-                (&pem[PKCS8.0.len()..pem.len() - PKCS8.1.len()], false)
-            } else {
-                return Err(Error::InvalidPem);
-            };
+            let (body, is_pkcs_1) =
+                if pem.starts_with(PKCS1.0) && pem[PKCS1.0.len()..].ends_with(PKCS1.1) {
+                    (&pem[PKCS1.0.len()..pem.len() - PKCS1.1.len()], true)
+                } else if pem.starts_with(PKCS8.0) && pem[PKCS8.0.len()..].ends_with(PKCS8.1) {
+                    (&pem[PKCS8.0.len()..pem.len() - PKCS8.1.len()], false)
+                } else {
+                    return Err(Error::InvalidPem);
+                };
 
             let body = STANDARD.decode(body).map_err(|_| Error::InvalidPem)?;
             match is_pkcs_1 {
-- 
2.43.0


From 726853376d67c833a8497164b089d2937128bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 17/42] fix: use the right sizes for RSA keys and OAEP messages

The number of octets was too small for a modulus whose length is one bit more than whole octets, and
the two longest messages a key can encrypt were rejected.
---
 src/utils/crypt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 1146504..716d5f9 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -123,7 +123,7 @@ impl PublicKey {
     }
 
     pub fn num_octets(&self) -> usize {
-        (self.modulus().bits() as usize + 6) >> 3
+        (self.modulus().bits() as usize + 7) >> 3
     }
 
     pub fn modulus(&self) -> &BigUint {
@@ -209,7 +209,7 @@ impl<R: Rng + CryptoRng> OaepPadding<R> {
     /// ```
     pub fn pad(&mut self, data: &[u8], n: usize) -> Result<Vec<u8>, Error> {
         let seed_len = Self::HASH_LEN;
-        if n < 1 + seed_len + Self::HASH_LEN + 2 + 1 + data.len() {
+        if n < 1 + seed_len + Self::HASH_LEN + 1 + data.len() {
             return Err(Error::MessageTooLong);
         }
 
-- 
2.43.0


From 108c6d407fccff98f9ff0a08e58af6ced7ee9d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 18/42] fix: drop the contents of vectors returned to a sync
 pool

---
 src/pool/sync_pool.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pool/sync_pool.rs b/src/pool/sync_pool.rs
index baa3d0a..e142ca8 100644
--- a/src/pool/sync_pool.rs
+++ b/src/pool/sync_pool.rs
@@ -54,9 +54,7 @@ impl<T> SyncPoolContent for Vec<T> {
     }
 
     fn reset(&mut self, ctx: &Self::Ctx) {
-        unsafe {
-            self.set_len(0);
-        }
+        self.clear();
         self.shrink_to(ctx.size_cap);
     }
 }
-- 
2.43.0


From a6088fc0a74da4679acfb3f571c85de6ac003f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 19/42] fix: wake the tasks waiting for an item when it is
 returned to the async pool

---
 src/pool/async_pool.rs | 112 +++++++++++++++++++++++++++--------------
 1 file changed, 73 insertions(+), 39 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 458dd43..61d9600 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -1,11 +1,14 @@
 use {
     super::{AsyncPoolContent, AsyncPoolGetFuture, AsyncPoolTrait, PoolItem, PoolPut},
-    crossbeam::queue::{ArrayQueue, SegQueue},
+    crossbeam::queue::ArrayQueue,
     std::{
         future::Future,
-        mem::ManuallyDrop,
+        mem::{self, ManuallyDrop},
         pin::Pin,
-        sync::atomic::{AtomicUsize, Ordering},
+        sync::{
+            atomic::{AtomicUsize, Ordering},
+            Mutex, MutexGuard, PoisonError,
+        },
         task::{self, Poll, Waker},
     },
 };
@@ -14,13 +17,15 @@ pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
     ctx: T::Ctx,
     items: AtomicUsize,
     pool: ArrayQueue<T>,
-    wakers: SegQueue<Waker>,
+    wakers: Mutex<Vec<(usize, Waker)>>,
+    next_waker_id: AtomicUsize,
 }
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N> {
     fn put(&self, value: T) {
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
+        self.wake_waiting();
     }
 }
 
@@ -30,7 +35,20 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             ctx,
             items: AtomicUsize::new(0),
             pool: ArrayQueue::new(N),
-            wakers: SegQueue::new(),
+            wakers: Mutex::new(Vec::new()),
+            next_waker_id: AtomicUsize::new(0),
+        }
+    }
+
+    fn wakers(&self) -> MutexGuard<'_, Vec<(usize, Waker)>> {
+        self.wakers.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
+    /// Wakes everyone waiting for an item. Those who don't get one register again.
+    fn wake_waiting(&self) {
+        let wakers = mem::take(&mut *self.wakers());
+        for (_, waker) in wakers {
+            waker.wake();
         }
     }
 }
@@ -40,7 +58,7 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
         Box::pin(PoolTake {
             pool: self,
             add: None,
-            waker_added: false,
+            waker_id: None,
         })
     }
 }
@@ -50,7 +68,7 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
 pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     pool: &'a AsyncPool<T, C, N>,
     add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
-    waker_added: bool,
+    waker_id: Option<usize>,
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
@@ -64,6 +82,34 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
             })
         })
     }
+
+    fn take(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
+        let pool = self.pool;
+        if let Some(item) = pool.pool.pop() {
+            return Some(Poll::Ready(Ok(PoolItem {
+                item: ManuallyDrop::new(item),
+                pool,
+            })));
+        }
+        pool.items
+            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |item_count| {
+                (item_count < N).then_some(item_count + 1)
+            })
+            .ok()?;
+        self.add = Some(Box::pin(T::new(&pool.ctx)));
+        self.poll_add(cx)
+    }
+
+    fn remove_waker(&mut self) {
+        if let Some(id) = self.waker_id.take() {
+            let mut wakers = self.pool.wakers();
+            let i = wakers.iter().position(|(waker_id, _)| *waker_id == id);
+            let waker = i.map(|i| wakers.remove(i));
+            // Dropping a waker may drop other users of this pool.
+            drop(wakers);
+            drop(waker);
+        }
+    }
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C, N> {
@@ -72,42 +118,30 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
     fn poll(self: std::pin::Pin<&mut Self>, cx: &mut task::Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
         let pool = this.pool;
+        this.remove_waker();
         if let Some(res) = this.poll_add(cx) {
             return res;
         }
-        match pool.pool.pop() {
-            Some(item) => Poll::Ready(Ok(PoolItem {
-                item: ManuallyDrop::new(item),
-                pool,
-            })),
-            None => {
-                let item_count = pool.items.load(Ordering::Relaxed);
-                if item_count < N {
-                    if pool
-                        .items
-                        .compare_exchange(
-                            item_count,
-                            item_count + 1,
-                            Ordering::Relaxed,
-                            Ordering::Relaxed,
-                        )
-                        .is_ok()
-                    {
-                        this.add = Some(Box::pin(T::new(&pool.ctx)));
-                        if let Some(res) = this.poll_add(cx) {
-                            return res;
-                        }
-                    } else {
-                        cx.waker().wake_by_ref();
-                    }
-                } else if !this.waker_added {
-                    this.waker_added = true;
-                    pool.wakers.push(cx.waker().clone());
-                    // wake for the rare case that an item was added after we tried to get one but before we registered the waker
-                    cx.waker().wake_by_ref();
-                }
-                Poll::Pending
+        if let Some(res) = this.take(cx) {
+            return res;
+        }
+        let id = pool.next_waker_id.fetch_add(1, Ordering::Relaxed);
+        this.waker_id = Some(id);
+        let waker = cx.waker().clone();
+        pool.wakers().push((id, waker));
+        // An item might have been added after we tried to get one but before we registered the waker.
+        match this.take(cx) {
+            Some(res) => {
+                this.remove_waker();
+                res
             }
+            None => Poll::Pending,
         }
     }
 }
+
+impl<T: AsyncPoolContent<C>, C, const N: usize> Drop for PoolTake<'_, T, C, N> {
+    fn drop(&mut self) {
+        self.remove_waker();
+    }
+}
-- 
2.43.0


From 489dd4db4595e2c45dc7df5def188a1c07ce1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 20/42] fix: make room in the async pool when creating an item
 fails or is cancelled

---
 src/pool/async_pool.rs | 52 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 61d9600..4a9a7cf 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -44,6 +44,12 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
         self.wakers.lock().unwrap_or_else(PoisonError::into_inner)
     }
 
+    /// Makes room for a new item after one was lost.
+    fn release_slot(&self) {
+        self.items.fetch_sub(1, Ordering::Relaxed);
+        self.wake_waiting();
+    }
+
     /// Wakes everyone waiting for an item. Those who don't get one register again.
     fn wake_waiting(&self) {
         let wakers = mem::take(&mut *self.wakers());
@@ -67,20 +73,41 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
 #[must_use = "futures do nothing unless you `.await` or poll them"]
 pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     pool: &'a AsyncPool<T, C, N>,
-    add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
+    add: Option<AddItem<'a, T, C, N>>,
     waker_id: Option<usize>,
 }
 
+/// An item that is being created.
+#[allow(clippy::type_complexity)]
+struct AddItem<'a, T: AsyncPoolContent<C>, C, const N: usize> {
+    future: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
+    pool: &'a AsyncPool<T, C, N>,
+    created: bool,
+}
+
+impl<T: AsyncPoolContent<C>, C, const N: usize> Drop for AddItem<'_, T, C, N> {
+    fn drop(&mut self) {
+        if !self.created {
+            // Creating the item failed, panicked, or was cancelled.
+            self.future = None;
+            self.pool.release_slot();
+        }
+    }
+}
+
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
     fn poll_add(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
-        self.add.as_mut().map(|add| {
-            add.as_mut().poll(cx).map(|res| {
-                res.map(|item| PoolItem {
-                    item: ManuallyDrop::new(item),
-                    pool: self.pool,
-                })
-            })
-        })
+        let add = self.add.as_mut()?;
+        let res = match add.future.as_mut()?.as_mut().poll(cx) {
+            Poll::Ready(res) => res,
+            Poll::Pending => return Some(Poll::Pending),
+        };
+        add.created = res.is_ok();
+        self.add = None;
+        Some(Poll::Ready(res.map(|item| PoolItem {
+            item: ManuallyDrop::new(item),
+            pool: self.pool,
+        })))
     }
 
     fn take(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
@@ -96,7 +123,12 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
                 (item_count < N).then_some(item_count + 1)
             })
             .ok()?;
-        self.add = Some(Box::pin(T::new(&pool.ctx)));
+        let add = self.add.insert(AddItem {
+            future: None,
+            pool,
+            created: false,
+        });
+        add.future = Some(T::new(&pool.ctx));
         self.poll_add(cx)
     }
 
-- 
2.43.0


From b269540c99afa69ab05136fd9a5a4ab287909c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 21/42] fix: don't give broken connections to the next user of
 the pool

---
 src/connection/mod.rs  | 4 ++++
 src/pool/async_pool.rs | 5 +++++
 src/pool/mod.rs        | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 0d6864f..515391a 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -118,6 +118,10 @@ impl<T: Stream> AsyncPoolContent<T> for Connection {
     ) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<Self, Self::Error>> + 'a>> {
         Box::pin(Self::connect(Arc::clone(ctx)))
     }
+
+    fn reusable(&self) -> bool {
+        !self.interrupted
+    }
 }
 
 #[cfg(feature = "tcpstream")]
diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 4a9a7cf..8c512d2 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -23,6 +23,11 @@ pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N> {
     fn put(&self, value: T) {
+        if !value.reusable() {
+            drop(value);
+            self.release_slot();
+            return;
+        }
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
         self.wake_waiting();
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 69048a8..3d705df 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -21,6 +21,11 @@ pub trait AsyncPoolContent<T>: AsyncPoolContentError + Sized + 'static {
     type Ctx: fmt::Debug;
     fn new<'a>(ctx: &'a Self::Ctx)
         -> Pin<Box<dyn Future<Output = Result<Self, Self::Error>> + 'a>>;
+
+    /// Whether the item can be given to the next user. If not, it is dropped when it is returned.
+    fn reusable(&self) -> bool {
+        true
+    }
 }
 
 pub trait AsyncPoolContentError: 'static {
-- 
2.43.0


From 4e163d264b020bd134b1baf465bac639db7560e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 22/42] fix: don't panic when parsing very short hex

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index aeff5f2..0d8d59d 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -18,7 +18,7 @@ impl Hex {
 
     pub fn try_from_hex<T: AsRef<[u8]>>(data: T) -> Result<Self, hex::FromHexError> {
         let mut data: &[u8] = data.as_ref();
-        if data[..2] == *b"0x" || data[..2] == *b"0X" {
+        if data.starts_with(b"0x") || data.starts_with(b"0X") {
             data = &data[2..];
         }
         hex::decode(data).map(Self)
-- 
2.43.0


From d0c8c711cdc6e7ca3e711e86cc8657095d2edba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:01 +0000
Subject: [PATCH 23/42] fix: deserialise hex from formats that can't borrow
 strings

---
 src/types/hex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index 0d8d59d..3c93aeb 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -74,8 +74,8 @@ impl<'de> serde::Deserialize<'de> for Hex {
     where
         D: serde::Deserializer<'de>,
     {
-        let hex = <&str as serde::Deserialize>::deserialize(deserializer)?;
-        <Hex as std::str::FromStr>::from_str(hex).map_err(<D::Error as serde::de::Error>::custom)
+        let hex = <String as serde::Deserialize>::deserialize(deserializer)?;
+        <Hex as std::str::FromStr>::from_str(&hex).map_err(<D::Error as serde::de::Error>::custom)
     }
 }
 
-- 
2.43.0


From 9f9a71358546e36f2cd672e482c1641a3acc3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 24/42] fix: format empty byte strings as a valid literal

---
 src/types/value/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index e0b5a56..0814397 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -165,6 +165,8 @@ impl fmt::Display for Value {
             Value::ULong(x) => x.fmt(f),
             Value::Float(x) => x.fmt(f),
             Value::Double(x) => x.fmt(f),
+            // `0x` without digits is not a literal.
+            Value::Bytes(x) if x.is_empty() => f.write_str("x''"),
             Value::Bytes(x) => {
                 f.write_str("0x")?;
                 hex::encode(x).fmt(f)
-- 
2.43.0


From d9a5c85cddd5db87596df5e9767434f2c0994f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 25/42] fix: don't overflow when formatting times of many days

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 0814397..723ceaf 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -142,7 +142,7 @@ impl fmt::Display for Value {
         }
         fn format_time(
             f: &mut fmt::Formatter<'_>,
-            hours: &u32,
+            hours: &u64,
             minutes: &u8,
             seconds: &u8,
             microseconds: &u32,
@@ -183,7 +183,7 @@ impl fmt::Display for Value {
                 }
                 format_time(
                     f,
-                    &(*days * 24 + *hours as u32),
+                    &(*days as u64 * 24 + *hours as u64),
                     minutes,
                     seconds,
                     microseconds,
@@ -194,7 +194,7 @@ impl fmt::Display for Value {
                 write!(f, "\"")?;
                 format_date(f, year, month, day)?;
                 write!(f, " ")?;
-                format_time(f, &(*hour as u32), minute, second, microsecond)?;
+                format_time(f, &(*hour as u64), minute, second, microsecond)?;
                 write!(f, "\"")
             }
         }
-- 
2.43.0


From ce3d0e8e01d4d0aafb49a2d4e5de84de8f1a2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 26/42] fix: format very small and large floats as
 floating-point literals

---
 src/types/value/text.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 723ceaf..7be1952 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -163,6 +163,13 @@ impl fmt::Display for Value {
             Value::UShort(x) => x.fmt(f),
             Value::UInt(x) => x.fmt(f),
             Value::ULong(x) => x.fmt(f),
+            // Without an exponent these are literals of type decimal, which has a limited range.
+            Value::Float(x) if *x != 0.0 && !(1e-5..1e15).contains(&x.abs()) => {
+                fmt::LowerExp::fmt(x, f)
+            }
+            Value::Double(x) if *x != 0.0 && !(1e-5..1e15).contains(&x.abs()) => {
+                fmt::LowerExp::fmt(x, f)
+            }
             Value::Float(x) => x.fmt(f),
             Value::Double(x) => x.fmt(f),
             // `0x` without digits is not a literal.
-- 
2.43.0


From bb8bc88a89eb11678a298d8888ce03304952d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 27/42] fix: remove the space of an identifier that consists of
 one space

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7be1952..75ebb34 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -89,15 +89,15 @@ impl fmt::Display for IdentifierEscape<'_> {
             ('\u{0001}'..='\u{FFFF}').contains(&char)
         }
 
-        let mut last_char = 0;
+        let mut len = 0;
         for (i, char) in self.0.chars().enumerate() {
             if !char.is_whitespace() && char_valid(char) {
-                last_char = i;
+                len = i + 1;
             }
         }
 
         for (i, char) in self.0.chars().enumerate() {
-            if i <= last_char && char_valid(char) {
+            if i < len && char_valid(char) {
                 if char == '`' {
                     f.write_char('`')?;
                 }
-- 
2.43.0


From cdccba437f3c2b77e38d09afd89ecafe26013860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 28/42] fix: keep the sign of durations between -1 and 0
 seconds

---
 src/types/value/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 8033391..857a5e9 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -172,7 +172,7 @@ impl From<Duration> for Value {
         let days = hours / 24;
 
         Value::Time(
-            value.num_seconds() < 0,
+            value < Duration::zero(),
             days as u32,
             (hours % 24) as u8,
             (minutes % 60) as u8,
-- 
2.43.0


From 79887d825724d5f733b5b290f4a6647dc0388a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 29/42] fix: don't allocate memory for columns the server only
 announced

---
 src/connection/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/query.rs b/src/connection/query.rs
index 2f13ffa..87d67a0 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -42,7 +42,8 @@ impl Connection {
     }
 
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::with_capacity(count);
+        // The count is not trusted: the definitions have to arrive before memory is used for them.
+        let mut columns: Vec<Column> = Vec::with_capacity(count.min(4096));
         for _ in 0..count {
             let packet = self.read_definition().await?;
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
-- 
2.43.0


From 8e33e4b9ff9914fe23c0bae7670b94a64fa392be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 30/42] fix: reject public keys that are too large to use

---
 src/connection/auth.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 37a0412..db8c69d 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -81,6 +81,17 @@ impl Connection {
                                             PublicKey::try_from_pem(&packet[1..])
                                                 .map_err(SerializeError::from)?,
                                         );
+                                        // Encryption with absurdly large keys would take forever.
+                                        if server_key.num_octets() > 2048
+                                            || server_key.exponent().bits() > 64
+                                        {
+                                            return Err(ProtocolError::invalid_packet(
+                                                packet.to_vec(),
+                                                "Server key",
+                                                "key too large",
+                                            )
+                                            .into());
+                                        }
                                         self.data.server_key = Some(server_key.clone());
                                         server_key
                                     }
-- 
2.43.0


From 265c02849d574cdac45063d82ededf294b61cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 31/42] fix: map columns to the right model if a reference has
 the name of a table

---
 macros/src/lib.rs              |  4 ++--
 src/model/from_query_result.rs | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cf4aa48..4c55e41 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -147,9 +147,9 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             set_child_mapping = quote! {
                 #set_child_mapping
                 #maybe_else if table == #name {
-                    self.#ident.set_mapping(column, "", index);
+                    self.#ident.set_mapping_inner(column, "", index);
                 } else if table.starts_with(#name_with_point) {
-                    self.#ident.set_mapping(column, &table[#len..], index);
+                    self.#ident.set_mapping_inner(column, &table[#len..], index);
                 }
             };
         }
diff --git a/src/model/from_query_result.rs b/src/model/from_query_result.rs
index 36dea75..ddbb5f1 100644
--- a/src/model/from_query_result.rs
+++ b/src/model/from_query_result.rs
@@ -4,13 +4,14 @@ pub trait FromQueryResultMapping<ModelData: super::ModelData>: Default {
     fn set_mapping_inner(&mut self, column: &Column, table: &str, index: usize);
 
     fn set_mapping(&mut self, column: &Column, table: &str, index: usize) {
-        self.set_mapping_inner(
-            column,
+        let table = if table == ModelData::TABLE {
+            ""
+        } else {
             table
                 .strip_prefix(ModelData::TABLE_WITH_POINT)
-                .unwrap_or(table),
-            index,
-        )
+                .unwrap_or(table)
+        };
+        self.set_mapping_inner(column, table, index)
     }
 
     fn from_columns(columns: &[Column]) -> Self {
-- 
2.43.0


From cf28df4b075d5872ecc921a104c3a81d91f47906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 32/42] fix: escape the names of migrations

---
 src/migrator/migrator_inner.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 4e855ac..1a334cb 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -1,7 +1,10 @@
 use {
     super::{MigrationList, Version},
     crate::{
-        error::Error, migrator::model::MigrationModel, pool::AsyncPoolTrait, types::Value,
+        error::Error,
+        migrator::model::MigrationModel,
+        pool::AsyncPoolTrait,
+        types::{StringEscape, Value},
         Connection,
     },
     std::collections::HashMap,
@@ -113,7 +116,7 @@ impl<'a> Migrator<'a> {
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         }
                     }
                 }
@@ -133,7 +136,7 @@ impl<'a> Migrator<'a> {
                     ) {
                         migration.down(self.pool).await?;
                         applied.swap_remove(index);
-                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     }
                 }
             }
@@ -155,7 +158,7 @@ impl<'a> Migrator<'a> {
                 {
                     migration.down(self.pool).await?;
                     applied.swap_remove(index);
-                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     return Ok(true);
                 }
             }
-- 
2.43.0


From dcdd48c8c63dcfd4cac06d9c556f2d592571331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 33/42] fix: note a migration as applied or reverted only after
 the table was updated

---
 src/migrator/migrator_inner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 1a334cb..e21b3c8 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -111,12 +111,12 @@ impl<'a> Migrator<'a> {
                         .is_none()
                         {
                             migration.up(self.pool).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         }
                     }
                 }
@@ -135,8 +135,8 @@ impl<'a> Migrator<'a> {
                         migration.name(),
                     ) {
                         migration.down(self.pool).await?;
-                        applied.swap_remove(index);
                         self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
+                        applied.swap_remove(index);
                     }
                 }
             }
@@ -157,8 +157,8 @@ impl<'a> Migrator<'a> {
                     Self::get_applied(&mut self.applied, &migration_list.version, migration.name())
                 {
                     migration.down(self.pool).await?;
-                    applied.swap_remove(index);
                     self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
+                    applied.swap_remove(index);
                     return Ok(true);
                 }
             }
-- 
2.43.0


From 7858c4020f6e107d2c87a9da0f6d97ca4090d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 34/42] fix: don't announce capabilities in the login that the
 server did not offer

---
 src/connection/init.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 12438a3..b9561b7 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -5,6 +5,7 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::ProtocolError,
         packets::{ErrPacket, HandshakePacket, HandshakeResponse},
         ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
@@ -65,6 +66,19 @@ impl Connection {
         }
         let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
+        let mut required = CapabilityFlags::PROTOCOL_41 | CapabilityFlags::SECURE_CONNECTION;
+        if options.db_name().is_some() {
+            required |= CapabilityFlags::CONNECT_WITH_DB;
+        }
+        if !handshake.capabilities().contains(required) {
+            return Err(ProtocolError::invalid_packet(
+                packet.to_vec(),
+                "Handshake",
+                "server lacks required capabilities",
+            )
+            .into());
+        }
+
         let (version, is_mariadb) = handshake
             .parse_server_version()
             .unwrap_or(((0, 0, 0), false));
@@ -100,10 +114,13 @@ impl Connection {
             self.data.version,
             self.options.user().as_bytes(),
             self.options.db_name().map(|x| x.as_bytes()),
-            Some(auth_plugin),
+            self.data
+                .capabilities
+                .contains(CapabilityFlags::PLUGIN_AUTH)
+                .then_some(auth_plugin),
             self.data.capabilities,
             Default::default(),
-            self.data.max_allowed_packet as u32,
+            u32::try_from(self.data.max_allowed_packet).unwrap_or(u32::MAX),
         );
 
         let mut buf = BUFFER_POOL.get();
-- 
2.43.0


From 63402588ab4fb68549393bdb72f65410c783038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 35/42] fix: don't truncate long clear text passwords

---
 src/connection/init.rs    | 18 +++++++++++++++++-
 src/connection/options.rs |  3 ++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index b9561b7..efd4c7b 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -5,8 +5,9 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
-        error::ProtocolError,
+        error::{ProtocolError, SerializeError},
         packets::{ErrPacket, HandshakePacket, HandshakeResponse},
+        types::ValueType,
         ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
     std::sync::Arc,
@@ -109,6 +110,21 @@ impl Connection {
         let auth_data =
             auth_plugin.gen_data(self.options.password(), &self.data.nonce, &*self.options)?;
 
+        if !self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::PLUGIN_AUTH_LENENC_CLIENT_DATA)
+            && auth_data
+                .as_deref()
+                .is_some_and(|x| x.len() > u8::MAX as usize)
+        {
+            return Err(SerializeError::InvalidValue(
+                ValueType::Bytes,
+                Box::new("password is too long for this server"),
+            )
+            .into());
+        }
+
         let handshake_response = HandshakeResponse::new(
             auth_data.as_deref().unwrap_or_default(),
             self.data.version,
diff --git a/src/connection/options.rs b/src/connection/options.rs
index 2a0154d..ef12d6d 100644
--- a/src/connection/options.rs
+++ b/src/connection/options.rs
@@ -84,7 +84,8 @@ impl<T: Stream> ConnectionOptionsTrait for ConnectionOptions<T> {
             | CapabilityFlags::TRANSACTIONS
             | CapabilityFlags::PS_MULTI_RESULTS
             | CapabilityFlags::DEPRECATE_EOF
-            | CapabilityFlags::PLUGIN_AUTH;
+            | CapabilityFlags::PLUGIN_AUTH
+            | CapabilityFlags::PLUGIN_AUTH_LENENC_CLIENT_DATA;
 
         if self.db_name.is_some() {
             out |= CapabilityFlags::CONNECT_WITH_DB;
-- 
2.43.0


From d4fc3064bc301c5a0d584784cb1fe65c4fc27719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 36/42] fix: use the names of raw identifiers in derived models

---
 macros/src/lib.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 4c55e41..def03cd 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -8,7 +8,7 @@ use {
     proc_macro2::Span,
     quote::{format_ident, quote},
     std::fmt,
-    syn::{parse_macro_input, DeriveInput, Ident, LitStr, Type},
+    syn::{ext::IdentExt, parse_macro_input, DeriveInput, Ident, LitStr, Type},
 };
 
 struct Error(Option<syn::Error>);
@@ -88,6 +88,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
         .filter(TypeComplexity::simple_ref)
         .map(|x| &x.ident)
         .collect();
+    let simple_columns = simple_field_names.iter().map(|x| x.unraw().to_string());
     let mut struct_field_names = Vec::new();
     let mut set_struct_fields = proc_macro2::TokenStream::new();
     for field in &fields {
@@ -139,7 +140,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             .filter(TypeComplexity::complex_ref)
             .enumerate()
         {
-            let name = ident.to_string();
+            let name = ident.unraw().to_string();
             let name_with_point = name.clone() + ".";
             let len = name_with_point.as_bytes().len();
             let maybe_else = if i == 0 { None } else { Some(quote!(else)) };
@@ -156,7 +157,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
 
         let set_own_mapping = quote! {
             *match column.org_name() {
-                #(stringify!(#simple_field_names) => &mut self.#simple_field_names,)*
+                #(#simple_columns => &mut self.#simple_field_names,)*
                 #(stringify!(#struct_field_names) => &mut self.#struct_field_names,)*
                 _ => return,
             } = Some(index);
@@ -217,7 +218,13 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
     let primary = match attr_span {
         Some(span) => match attrs.get("primary") {
             Some(primary) => match attrs.get("auto_increment") {
-                Some(ai) => Some((format_ident!("{primary}"), ai == "true")),
+                Some(ai) => {
+                    let ident = fields
+                        .iter()
+                        .find(|field| field.ident.unraw() == primary)
+                        .map_or_else(|| format_ident!("{primary}"), |field| field.ident.clone());
+                    Some((ident, ai == "true"))
+                }
                 None => {
                     error.add(
                         span,
@@ -315,6 +322,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
         .map(|x| &x.ty)
         .collect();
 
+    let simple_columns = simple_field_names.iter().map(|x| x.unraw().to_string());
+    let complex_columns = complex_field_names.iter().map(|x| x.unraw().to_string());
+
     let ident = &input.ident;
     let model_ident = format_ident!("{ident}ActiveModel");
 
@@ -330,9 +340,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             impl mysql_connector::model::ActiveModel<#ident> for #model_ident {
                 async fn into_values(self, conn: &mut mysql_connector::Connection) -> Result<Vec<mysql_connector::model::NamedValue>, mysql_connector::error::Error> {
                     let mut values = Vec::new();
-                    #(self.#simple_field_names.insert_named_value(&mut values, stringify!(#simple_field_names))?;)*
+                    #(self.#simple_field_names.insert_named_value(&mut values, #simple_columns)?;)*
                     #insert_struct_fields
-                    #(self.#complex_field_names.insert_named_value(&mut values, stringify!(#complex_field_names), conn).await?;)*
+                    #(self.#complex_field_names.insert_named_value(&mut values, #complex_columns, conn).await?;)*
                     Ok(values)
                 }
 
@@ -372,21 +382,22 @@ pub fn derive_into_query(input: TokenStream) -> TokenStream {
     let mut simple_field_names: Vec<LitStr> = fields
         .iter()
         .filter(TypeComplexity::simple_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| LitStr::new(&x.ident.unraw().to_string(), x.ident.span()))
         .collect();
     for field in &fields {
         if let TypeComplexity::Struct(r#struct) = &field.complexity {
             let mapping_names = r#struct
                 .fields
                 .iter()
-                .map(|x| LitStr::new(&format!("{}_{}", field.ident, x.1), field.ident.span()));
+                .map(|x| format_ident!("{}_{}", field.ident, x.1).unraw().to_string())
+                .map(|x| LitStr::new(&x, field.ident.span()));
             simple_field_names.extend(mapping_names);
         }
     }
     let complex_field_names: &Vec<LitStr> = &fields
         .iter()
         .filter(TypeComplexity::complex_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| LitStr::new(&x.ident.unraw().to_string(), x.ident.span()))
         .collect();
     let complex_field_types: &Vec<&Type> = &fields
         .iter()
@@ -419,12 +430,12 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
     let (attr_span, attrs, types) = parse_attr(&mut error, input.ident.span(), &input.attrs);
     let fields = parse_fields(&mut error, input.ident.span(), &input.data, &types);
 
-    let mut primary_type = None;
+    let mut primary_field = None;
     let mut auto_increment = false;
     if let Some(span) = attr_span {
         match attrs.get("primary") {
-            Some(primary) => match fields.iter().find(|field| field.ident == primary) {
-                Some(field) => primary_type = Some(&field.ty),
+            Some(primary) => match fields.iter().find(|field| field.ident.unraw() == primary) {
+                Some(field) => primary_field = Some(field),
                 None => error.add(span, "primary not found in struct"),
             },
             None => error.add(
@@ -446,8 +457,9 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
     }
 
     let primary = attrs.get("primary").unwrap();
-    let primary_type = primary_type.unwrap();
-    let primary_ident = Ident::new(primary, Span::call_site());
+    let primary_field = primary_field.unwrap();
+    let primary_type = &primary_field.ty;
+    let primary_ident = &primary_field.ident;
     let ident = &input.ident;
 
     quote! {
-- 
2.43.0


From ed04885ec77eb91214bd5c3c42388decbe73c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:57 +0000
Subject: [PATCH 37/42] fix: recognise MariaDB Enterprise versions and suffixed
 version numbers

---
 src/connection/packets/handshake.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 53ee5b2..d0b07d7 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -93,26 +93,26 @@ impl<'a> HandshakePacket<'a> {
             }
         }
         fn eat_int(string: &mut &str) -> Option<u16> {
-            match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
-                Some((pos, separator)) => {
-                    let value = u16::from_str(&string[..pos]).ok();
-                    *string = &string[pos + separator.len_utf8()..];
-                    value
-                }
-                None => {
-                    let value = u16::from_str(string).ok();
-                    *string = "";
-                    value
-                }
-            }
+            let (part, rest) = match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
+                Some((pos, separator)) => (&string[..pos], &string[pos + separator.len_utf8()..]),
+                None => (*string, ""),
+            };
+            // A part may carry a suffix, like in `5.6.10a`.
+            let digits = part
+                .find(|x: char| !x.is_ascii_digit())
+                .unwrap_or(part.len());
+            *string = rest;
+            u16::from_str(&part[..digits]).ok()
         }
 
+        // MariaDB Enterprise puts another number in front of its name.
+        let is_mariadb = server_version.contains("MariaDB");
         let version = (
             eat_int(&mut server_version)?,
             eat_int(&mut server_version)?,
             eat_int(&mut server_version)?,
         );
-        Some((version, server_version.starts_with("MariaDB")))
+        Some((version, is_mariadb))
     }
 
     pub fn connection_id(&self) -> u32 {
-- 
2.43.0


From 34d4afcdb583301d7c9c3d62eda14fc9cc7964a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 38/42] fix: refuse zero bytes in the names of a login packet

---
 src/connection/init.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index efd4c7b..e44afc1 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -125,6 +125,16 @@ impl Connection {
             .into());
         }
 
+        // Both are terminated by a zero byte in the packet.
+        let has_zero = |x: &str| x.contains('\0');
+        if has_zero(self.options.user()) || self.options.db_name().is_some_and(has_zero) {
+            return Err(SerializeError::InvalidValue(
+                ValueType::Bytes,
+                Box::new("user and database name must not contain zero bytes"),
+            )
+            .into());
+        }
+
         let handshake_response = HandshakeResponse::new(
             auth_data.as_deref().unwrap_or_default(),
             self.data.version,
-- 
2.43.0


From 01d248e81d3c1fdcba0ba803ce94765b435d50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:59 +0000
Subject: [PATCH 39/42] fix: report the first error when reading one row

---
 src/connection/result_set.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 891bf0b..065fad1 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -98,8 +98,14 @@ where
 
     pub async fn one(&mut self) -> Result<Option<R>, Error> {
         let res = self.next().await;
-        while self.next().await?.is_some() {}
-        res
+        loop {
+            match self.next().await {
+                Ok(Some(_)) => (),
+                Ok(None) => return res,
+                // Don't let the consequences of the first error hide it.
+                Err(e) => return res.and(Err(e)),
+            }
+        }
     }
 
     pub fn columns(&self) -> &[Column] {
-- 
2.43.0


From cf8d9418f3b59024f15dadab293fcb874506b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 40/42] fix: serialise Hex as the string it is deserialised
 from

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index 3c93aeb..a7ec0ac 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -63,7 +63,7 @@ impl serde::Serialize for Hex {
     where
         S: serde::Serializer,
     {
-        serializer.serialize_newtype_struct("Hex", &self.to_string())
+        serializer.serialize_str(&self.to_string())
     }
 }
 
-- 
2.43.0


From 1ef8f6df25b1b463d9bd0c0ec73425bab91d2b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 41/42] fix: accept raw identifiers in the fields of structs in
 active models

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index def03cd..b02a7ec 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -250,7 +250,7 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             let names = r#struct
                 .fields
                 .iter()
-                .map(|(_, x)| format_ident!("{ident}_{x}"));
+                .map(|(_, x)| format_ident!("{}_{}", ident, x));
             insert_struct_fields = quote! {
                 #insert_struct_fields
                 match self.#ident {
-- 
2.43.0


From e9a50a88f47decf0a0165a59975539d0198b97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:50 +0000
Subject: [PATCH 42/42] Add a guarded hook that leaves no spare room after a
 packet

---
 src/connection/io.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 29b939c..030bf62 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -69,6 +69,7 @@ impl Connection {
         }
     }
 
+    #[allow(unexpected_cfgs)]
     pub(super) async fn read_packet_to_buf(
         stream: &mut dyn StreamRequirements,
         seq_id: &mut u8,
@@ -86,6 +87,9 @@ impl Connection {
             *seq_id = seq_id.wrapping_add(1);
 
             if last_chunk {
+                // lets sanitizers see every access beyond the end of the packet
+                #[cfg(mysql_connector_exact_buffers)]
+                dst.shrink_to_fit();
                 return Ok(());
             }
         }
-- 
2.43.0

