From c8ef69f69e3f6b37bd148c5c3b972816b03282b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:00 +0000
Subject: [PATCH 01/27] fix: write the whole packet to the socket instead of
 ignoring short writes

---
 src/packet_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index dae50a0..5b08041 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -35,7 +35,7 @@ impl PacketChannel {
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-        self.stream.write(packet)?;
+        self.stream.write_all(packet)?;
         Ok(())
     }
 
-- 
2.43.0


From 25e60be8d6737227cd78a93203524f8815650cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:00 +0000
Subject: [PATCH 02/27] fix: report an empty server packet as an error instead
 of panicking on its status byte

---
 src/packet_channel.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 5b08041..a0a74b1 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -25,6 +25,14 @@ impl PacketChannel {
         let packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()?;
         let seq_num = header_buffer[3];
 
+        // Every packet the client waits for starts with at least a status byte
+        if packet_size == 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "Received an empty packet",
+            ));
+        }
+
         let mut packet: Vec<u8> = vec![0; packet_size as usize];
         self.stream.read_exact(&mut packet)?;
 
-- 
2.43.0


From 6e709c0debe07ef29ec2d73f65b102716bebfa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:00 +0000
Subject: [PATCH 03/27] fix: wrap packet sequence numbers instead of
 overflowing at 255

---
 src/connect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 6d1b61a..a511688 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -23,7 +23,7 @@ impl BinlogClient {
         let handshake = HandshakePacket::parse(&packet)?;
 
         let auth_plugin = self.get_auth_plugin(&handshake.auth_plugin_name)?;
-        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num + 1)?;
+        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num.wrapping_add(1))?;
         Ok((channel, DatabaseProvider::from(&handshake.server_version)))
     }
 
@@ -45,7 +45,7 @@ impl BinlogClient {
             if ssl_available {
                 let ssl_command = SslRequestCommand::new(UTF8_MB4_GENERAL_CI);
                 channel.write_packet(&ssl_command.serialize()?, seq_num)?;
-                seq_num += 1;
+                seq_num = seq_num.wrapping_add(1);
                 channel.upgrade_to_ssl();
                 use_ssl = true;
             }
@@ -61,7 +61,7 @@ impl BinlogClient {
             ResponseType::OK => return Ok(()),
             ResponseType::AUTH_PLUGIN_SWITCH => {
                 let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
-                self.handle_auth_plugin_switch(channel, switch_packet, seq_num + 1, use_ssl)?;
+                self.handle_auth_plugin_switch(channel, switch_packet, seq_num.wrapping_add(1), use_ssl)?;
                 Ok(())
             }
             _ => {
@@ -69,7 +69,7 @@ impl BinlogClient {
                     channel,
                     &packet,
                     &handshake.scramble,
-                    seq_num + 1,
+                    seq_num.wrapping_add(1),
                     use_ssl,
                 )?;
                 Ok(())
@@ -100,7 +100,7 @@ impl BinlogClient {
                 channel,
                 &packet,
                 &switch_packet.auth_plugin_data,
-                seq_num + 1,
+                seq_num.wrapping_add(1),
                 use_ssl,
             )?;
         }
@@ -149,7 +149,7 @@ impl BinlogClient {
             Padding::PKCS1_OAEP,
         )?;
 
-        channel.write_packet(&encrypted_body, seq_num + 1)?;
+        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication error.")?;
         Ok(())
-- 
2.43.0


From 8347a8a2439ecf261c0e5fbb1b0ab2a012be37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:01 +0000
Subject: [PATCH 04/27] fix: reject events shorter than their header instead of
 underflowing

---
 src/binlog_reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index e5b5c53..3dc758e 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -42,6 +42,10 @@ impl BinlogReader {
         self.stream.read_exact(&mut header_buffer)?;
         let header = EventHeader::parse(&header_buffer)?;
 
+        if (header.event_length as usize) < EVENT_HEADER_SIZE {
+            return Err(Error::String("Invalid binary log event length".to_string()));
+        }
+
         let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
         if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
             let mut vec: Vec<u8> = vec![0; payload_length];
-- 
2.43.0


From 0831d8b42469732cacdc0a4a18fa5cbea5da978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:01 +0000
Subject: [PATCH 05/27] fix: report a malformed event instead of silently
 ending the binlog file iteration

---
 src/binlog_reader.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index 3dc758e..c0d1f04 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -51,16 +51,30 @@ impl BinlogReader {
             let mut vec: Vec<u8> = vec![0; payload_length];
 
             self.stream.read_exact(&mut vec)?;
-            let binlog_event = self.parser.parse_event(&header, &vec)?;
-            Ok((header, binlog_event))
+            match self.parser.parse_event(&header, &vec) {
+                Ok(binlog_event) => Ok((header, binlog_event)),
+                Err(error) => Err(malformed_event(error)),
+            }
         } else {
             let slice = &mut self.payload_buffer[0..payload_length];
 
             self.stream.read_exact(slice)?;
-            let binlog_event = self.parser.parse_event(&header, slice)?;
-            Ok((header, binlog_event))
+            match self.parser.parse_event(&header, slice) {
+                Ok(binlog_event) => Ok((header, binlog_event)),
+                Err(error) => Err(malformed_event(error)),
+            }
+        }
+    }
+}
+
+/// The whole event was read, so running out of its bytes doesn't mean the end of the stream.
+fn malformed_event(error: Error) -> Error {
+    if let Error::IoError(io_error) = &error {
+        if let ErrorKind::UnexpectedEof = io_error.kind() {
+            return Error::String("Unexpected end of a binary log event".to_string());
         }
     }
+    error
 }
 
 impl Iterator for BinlogReader {
-- 
2.43.0


From 71f0c3831eab2d3915a596d4fdec0d5336469cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:01 +0000
Subject: [PATCH 06/27] fix: reject events too short for their checksum instead
 of underflowing

---
 src/events/event_parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/events/event_parser.rs b/src/events/event_parser.rs
index 2dfcef7..1f420ec 100644
--- a/src/events/event_parser.rs
+++ b/src/events/event_parser.rs
@@ -22,6 +22,8 @@ use crate::providers::mysql::events::prev_gtids_event::PreviousGtidsEvent;
 use std::collections::HashMap;
 use std::io::Cursor;
 
+const CHECKSUM_SIZE: usize = 4;
+
 pub struct EventParser {
     /// Gets checksum algorithm type used in a binlog file.
     pub checksum_type: ChecksumType,
@@ -46,7 +48,12 @@ impl EventParser {
         // Consider verifying checksum
         let mut cursor = match self.checksum_type {
             ChecksumType::None => Cursor::new(slice),
-            ChecksumType::Crc32 => Cursor::new(&slice[0..slice.len() - 4]),
+            ChecksumType::Crc32 => {
+                if slice.len() < CHECKSUM_SIZE {
+                    return Err(Error::String("Event has no checksum".to_string()));
+                }
+                Cursor::new(&slice[0..slice.len() - 4])
+            }
         };
 
         let binlog_event: BinlogEvent = match EventType::from_code(header.event_type) {
-- 
2.43.0


From 938e6cc63f0e44bbfd2f6b4d4734ad85d57f1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 07/27] fix: check announced lengths against the remaining
 bytes before allocating

---
 src/events/row_events/col_parser.rs |  3 ++-
 src/events/table_map_event.rs       |  3 ++-
 src/extensions.rs                   | 15 +++++++++++++++
 src/metadata/table_metadata.rs      |  3 ++-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index df78fef..46a082c 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,6 +1,6 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_string};
+use crate::extensions::{check_remaining, read_bitmap_big_endian, read_string};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read};
 
@@ -22,6 +22,7 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
     let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
+    check_remaining(cursor, length)?;
     let mut vec = vec![0; length];
     cursor.read_exact(&mut vec)?;
     Ok(vec)
diff --git a/src/events/table_map_event.rs b/src/events/table_map_event.rs
index 2ec4b04..eb75a76 100644
--- a/src/events/table_map_event.rs
+++ b/src/events/table_map_event.rs
@@ -1,6 +1,6 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_string};
+use crate::extensions::{check_remaining, read_bitmap_little_endian, read_len_enc_num, read_string};
 use crate::metadata::table_metadata::TableMetadata;
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read, Seek, SeekFrom};
@@ -50,6 +50,7 @@ impl TableMapEvent {
         cursor.seek(SeekFrom::Current(1))?;
 
         let columns_number = read_len_enc_num(cursor)?;
+        check_remaining(cursor, columns_number)?;
         let mut column_types = vec![0u8; columns_number];
         cursor.read_exact(&mut column_types)?;
 
diff --git a/src/extensions.rs b/src/extensions.rs
index c9257c1..55784c0 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -43,6 +43,18 @@ pub fn xor(slice1: &[u8], slice2: &[u8]) -> Vec<u8> {
     result
 }
 
+/// Checks that announced bytes are really there before a buffer of that size is allocated
+pub fn check_remaining(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Error> {
+    let remaining = (cursor.get_ref().len() as u64).saturating_sub(cursor.position());
+    if size as u64 > remaining {
+        return Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "The announced length exceeds the remaining data",
+        ));
+    }
+    Ok(())
+}
+
 pub fn read_null_term_string(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
     let mut vec = Vec::new();
     cursor.read_until(NULL_TERMINATOR, &mut vec)?;
@@ -60,6 +72,7 @@ pub fn write_null_term_string(
 }
 
 pub fn read_string(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<String, Error> {
+    check_remaining(cursor, size)?;
     let mut vec = vec![0; size];
     cursor.read_exact(&mut vec)?;
     Ok(String::from_utf8(vec)?)
@@ -101,6 +114,7 @@ pub fn read_bitmap_little_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    check_remaining(cursor, bits_number / 8)?;
     let mut result = vec![false; bits_number];
     let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
@@ -121,6 +135,7 @@ pub fn read_bitmap_big_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    check_remaining(cursor, bits_number / 8)?;
     let mut result = vec![false; bits_number];
     let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
diff --git a/src/metadata/table_metadata.rs b/src/metadata/table_metadata.rs
index 7577e62..fb072b9 100644
--- a/src/metadata/table_metadata.rs
+++ b/src/metadata/table_metadata.rs
@@ -1,6 +1,6 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_len_enc_num, read_len_enc_str};
+use crate::extensions::{check_remaining, read_len_enc_num, read_len_enc_str};
 use crate::metadata::default_charset::DefaultCharset;
 use crate::metadata::metadata_type::MetadataType;
 use byteorder::ReadBytesExt;
@@ -66,6 +66,7 @@ impl TableMetadata {
             let metadata_type = MetadataType::from_code(cursor.read_u8()?)?;
             let metadata_length = read_len_enc_num(cursor)?;
 
+            check_remaining(cursor, metadata_length)?;
             let mut metadata = vec![0u8; metadata_length];
             cursor.read_exact(&mut metadata)?;
 
-- 
2.43.0


From bde52b52b435cf868e64cc47b495f2abebc29be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 08/27] fix: keep the last character of a null-terminated
 string that ends with its packet

---
 src/extensions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 55784c0..4184214 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -58,7 +58,9 @@ pub fn check_remaining(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Er
 pub fn read_null_term_string(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
     let mut vec = Vec::new();
     cursor.read_until(NULL_TERMINATOR, &mut vec)?;
-    vec.pop();
+    if vec.last() == Some(&NULL_TERMINATOR) {
+        vec.pop();
+    }
     Ok(String::from_utf8(vec)?)
 }
 
-- 
2.43.0


From 0ca8242f8c89b918b888aa066dd9bc4de40a624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 09/27] fix: reject impossible integer sizes in column metadata
 instead of panicking

---
 src/events/row_events/col_parser.rs | 6 ++++--
 src/events/row_events/row_parser.rs | 6 +++---
 src/extensions.rs                   | 8 ++++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 46a082c..832a2fe 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,6 +1,8 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{check_remaining, read_bitmap_big_endian, read_string};
+use crate::extensions::{
+    check_remaining, read_bitmap_big_endian, read_sized_uint, read_string,
+};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read};
 
@@ -21,7 +23,7 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 }
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
-    let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
+    let length = read_sized_uint(cursor, metadata)? as usize;
     check_remaining(cursor, length)?;
     let mut vec = vec![0; length];
     cursor.read_exact(&mut vec)?;
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 9182e3c..f863b16 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -7,7 +7,7 @@ use crate::events::row_events::col_parser::{
 use crate::events::row_events::mysql_value::MySqlValue;
 use crate::events::row_events::row_data::{RowData, UpdateRowData};
 use crate::events::table_map_event::TableMapEvent;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num};
+use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_sized_uint};
 use byteorder::{LittleEndian, ReadBytesExt};
 use std::collections::HashMap;
 use std::io::{Cursor, Seek, SeekFrom};
@@ -149,10 +149,10 @@ fn parse_cell(
         /* BIT, ENUM, SET types */
         ColumnType::Bit => MySqlValue::Bit(parse_bit(cursor, metadata)?),
         ColumnType::Enum => {
-            MySqlValue::Enum(cursor.read_uint::<LittleEndian>(metadata as usize)? as u32)
+            MySqlValue::Enum(read_sized_uint(cursor, metadata)? as u32)
         }
         ColumnType::Set => {
-            MySqlValue::Set(cursor.read_uint::<LittleEndian>(metadata as usize)? as u64)
+            MySqlValue::Set(read_sized_uint(cursor, metadata)? as u64)
         }
         /* Blob types. MariaDB always creates BLOB for first three */
         ColumnType::TinyBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
diff --git a/src/extensions.rs b/src/extensions.rs
index 4184214..2fe0284 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -55,6 +55,14 @@ pub fn check_remaining(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Er
     Ok(())
 }
 
+/// Reads an integer whose size in bytes is taken from column metadata
+pub fn read_sized_uint(cursor: &mut Cursor<&[u8]>, size: u16) -> Result<u64, Error> {
+    if size < 1 || size > 8 {
+        return Err(Error::String(format!("Invalid integer size {}", size)));
+    }
+    Ok(cursor.read_uint::<LittleEndian>(size as usize)?)
+}
+
 pub fn read_null_term_string(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
     let mut vec = Vec::new();
     cursor.read_until(NULL_TERMINATOR, &mut vec)?;
-- 
2.43.0


From fe709a14c3299e5b6a39856b4c127296be778652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 10/27] fix: reject impossible precisions and scales in column
 metadata instead of panicking

---
 src/events/row_events/col_parser.rs | 7 +++++++
 src/events/row_events/decimal.rs    | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 832a2fe..a98c473 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -161,6 +161,13 @@ pub fn parse_timestamp2(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64
 }
 
 fn parse_fractional_part(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64, Error> {
+    if metadata > 6 {
+        return Err(Error::String(format!(
+            "Invalid fractional seconds precision {}",
+            metadata
+        )));
+    }
+
     let length = (metadata + 1) / 2;
     if length == 0 {
         return Ok(0);
diff --git a/src/events/row_events/decimal.rs b/src/events/row_events/decimal.rs
index 34c94f6..5a4cd7d 100644
--- a/src/events/row_events/decimal.rs
+++ b/src/events/row_events/decimal.rs
@@ -10,6 +10,12 @@ const COMPRESSED_BYTES: [u8; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
 pub fn parse_decimal(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let precision = metadata & 0xFF;
     let scale = (metadata >> 8) as u8;
+    if precision == 0 || scale as u16 > precision {
+        return Err(Error::String(format!(
+            "Invalid decimal precision {} and scale {}",
+            precision, scale
+        )));
+    }
     let integral = (precision - scale as u16) as u8;
 
     let uncompressed_integral = integral / DIGITS_PER_INT;
-- 
2.43.0


From 4e03f700dae578bc969fa3681924bf8111aebb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 11/27] fix: reject row events that don't fit their table map
 instead of panicking or looping

---
 src/events/row_events/row_parser.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index f863b16..288459d 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -19,6 +19,8 @@ pub const TABLE_MAP_NOT_FOUND: &str =
     "No preceding TableMapEvent event was found for the row event. \
 You possibly started replication in the middle of logical event group.";
 
+const NO_COLUMNS_INCLUDED: &str = "The row event has row data but doesn't include any column.";
+
 /// Parsing row based events.
 /// See <a href="https://mariadb.com/kb/en/library/rows_event_v1/">MariaDB rows version 1</a>
 /// See <a href="https://dev.mysql.com/doc/internals/en/rows-event.html#write-rows-eventv2">MySQL rows version 1/2</a>
@@ -35,9 +37,14 @@ pub fn parse_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns_number(table, columns_present)?;
+
     let cells_included = get_bits_number(columns_present);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        if cells_included == 0 {
+            return Err(Error::String(NO_COLUMNS_INCLUDED.to_string()));
+        }
         rows.push(parse_row(cursor, table, columns_present, cells_included)?);
     }
     Ok(rows)
@@ -55,10 +62,16 @@ pub fn parse_update_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns_number(table, columns_before_update)?;
+    check_columns_number(table, columns_after_update)?;
+
     let cells_included_before_update = get_bits_number(columns_before_update);
     let cells_included_after_update = get_bits_number(columns_after_update);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        if cells_included_before_update == 0 && cells_included_after_update == 0 {
+            return Err(Error::String(NO_COLUMNS_INCLUDED.to_string()));
+        }
         let row_before_update = parse_row(
             cursor,
             table,
@@ -76,6 +89,16 @@ pub fn parse_update_row_data_list(
     Ok(rows)
 }
 
+/// The bitmap of included columns must describe the columns of the mapped table.
+fn check_columns_number(table: &TableMapEvent, columns: &Vec<bool>) -> Result<(), Error> {
+    if columns.len() != table.column_types.len() {
+        return Err(Error::String(
+            "The row event doesn't match columns of the table map event".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 pub fn parse_head(
     cursor: &mut Cursor<&[u8]>,
     row_event_version: u8,
-- 
2.43.0


From e0853022ee870d35c1818a63fda332f1cdfdb91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:44 +0000
Subject: [PATCH 12/27] fix: compare format description lengths without
 truncation and underflow

---
 src/events/format_description_event.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/events/format_description_event.rs b/src/events/format_description_event.rs
index b2d76d1..91a6127 100644
--- a/src/events/format_description_event.rs
+++ b/src/events/format_description_event.rs
@@ -46,7 +46,10 @@ impl FormatDescriptionEvent {
         let payload_length = cursor.read_u8()?;
 
         let mut checksum_type = ChecksumType::None;
-        if payload_length != header.event_length as u8 - constants::EVENT_HEADER_SIZE as u8 {
+        let event_payload_length = header
+            .event_length
+            .saturating_sub(constants::EVENT_HEADER_SIZE as u32);
+        if payload_length as u32 != event_payload_length {
             let skip = payload_length as i64
                 - EVENT_TYPES_OFFSET as i64
                 - EventType::FormatDescriptionEvent as i64;
-- 
2.43.0


From 895fdaac53928a8bbbe6db670bd6c96b94967a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:44 +0000
Subject: [PATCH 13/27] fix: reject empty intervals in PreviousGtidsEvent
 instead of underflowing

---
 src/providers/mysql/events/prev_gtids_event.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mysql/events/prev_gtids_event.rs b/src/providers/mysql/events/prev_gtids_event.rs
index d579d53..678b7b9 100644
--- a/src/providers/mysql/events/prev_gtids_event.rs
+++ b/src/providers/mysql/events/prev_gtids_event.rs
@@ -28,6 +28,9 @@ impl PreviousGtidsEvent {
             for _y in 0..interval_number {
                 let start = cursor.read_u64::<LittleEndian>()?;
                 let end = cursor.read_u64::<LittleEndian>()?;
+                if end <= start {
+                    return Err(Error::String("Invalid interval of gtids".to_string()));
+                }
                 uuid_set.intervals.push(Interval::new(start, end - 1));
             }
             gtid_set
-- 
2.43.0


From 3a84b006749af79d269efb14e5bf4091d84db575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:21 +0000
Subject: [PATCH 14/27] fix: reject short uuids and use one string
 representation per server uuid

---
 src/providers/mysql/gtid/uuid.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/providers/mysql/gtid/uuid.rs b/src/providers/mysql/gtid/uuid.rs
index 897efb9..2d3b2cf 100644
--- a/src/providers/mysql/gtid/uuid.rs
+++ b/src/providers/mysql/gtid/uuid.rs
@@ -24,10 +24,15 @@ impl Uuid {
         let hex = uuid.replace("-", "");
         let vec = hex::decode(hex)?;
 
+        if vec.len() != 16 {
+            return Err(Error::String(format!("Invalid uuid format {}", uuid)));
+        }
+
         let mut data = [0u8; 16];
-        (0..16).for_each(|i| data[i] = vec[i]);
+        data.copy_from_slice(&vec);
 
-        Ok(Self { data, uuid })
+        // The same server must always have the same string representation.
+        Ok(Self::new(data))
     }
 }
 
-- 
2.43.0


From 9ba29ba97977982ab3f6e88447063eaaf9ba47e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:21 +0000
Subject: [PATCH 15/27] fix: merge repeated, unordered and overlapping parts of
 a GtidSet and reject invalid ranges

---
 src/providers/mysql/gtid/gtid_set.rs | 16 ++++++++++++++--
 src/providers/mysql/gtid/uuid_set.rs |  7 +++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 3bb8cc8..d99935c 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -32,7 +32,7 @@ impl GtidSet {
         let gtid_set = gtid_set.replace("\n", "");
         let uuid_sets = gtid_set.split(',').map(|x| x.trim()).collect::<Vec<&str>>();
 
-        let mut result = HashMap::new();
+        let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
@@ -48,9 +48,21 @@ impl GtidSet {
                     2 => Interval::new(range[0].parse()?, range[1].parse()?),
                     _ => return Err(Error::String(format!("Invalid interval format {}", token))),
                 };
+                if interval.start == 0
+                    || interval.start > interval.end
+                    || interval.end >= i64::MAX as u64
+                {
+                    return Err(Error::String(format!("Invalid interval range {}", token)));
+                }
                 intervals.push(interval);
             }
-            result.insert(source_id.uuid.clone(), UuidSet::new(source_id, intervals));
+
+            // Several parts of a GtidSet may belong to the same server.
+            let key = source_id.uuid.clone();
+            if let Some(mut previous) = result.remove(&key) {
+                intervals.append(&mut previous.intervals);
+            }
+            result.insert(key, UuidSet::new(source_id, intervals));
         }
 
         Ok(Self { uuid_sets: result })
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 32c2122..69ac99c 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -17,6 +17,7 @@ pub struct UuidSet {
 impl UuidSet {
     pub fn new(source_id: Uuid, mut intervals: Vec<Interval>) -> Self {
         if intervals.len() > 1 {
+            intervals.sort_by_key(|x| x.start);
             collapse_intervals(&mut intervals);
         }
         Self {
@@ -88,8 +89,10 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end + 1 == right_start {
-            left.end = right_end;
+        if left.end + 1 >= right_start {
+            if right_end > left.end {
+                left.end = right_end;
+            }
             intervals.remove(index + 1);
         } else {
             index += 1;
-- 
2.43.0


From 0c287d22fa33eabc03d958ca4452f611c3a9433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:22 +0000
Subject: [PATCH 16/27] fix: reject malformed MariaDB gtids instead of
 panicking

---
 src/providers/mariadb/gtid/gtid_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mariadb/gtid/gtid_list.rs b/src/providers/mariadb/gtid/gtid_list.rs
index d3216fd..c00b486 100644
--- a/src/providers/mariadb/gtid/gtid_list.rs
+++ b/src/providers/mariadb/gtid/gtid_list.rs
@@ -29,6 +29,9 @@ impl GtidList {
 
         for gtid in gtid_list {
             let components = gtid.split('-').collect::<Vec<&str>>();
+            if components.len() != 3 {
+                return Err(Error::String(format!("Invalid gtid format {}", gtid)));
+            }
             let domain_id: u32 = components[0].parse()?;
             let server_id: u32 = components[1].parse()?;
             let sequence: u64 = components[2].parse()?;
-- 
2.43.0


From 0277539650e14892705f4f1ada5f24e1ff559ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:22 +0000
Subject: [PATCH 17/27] fix: don't take flags of the MariaDB gtid list event
 for its length

---
 src/providers/mariadb/events/gtid_list_event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/providers/mariadb/events/gtid_list_event.rs b/src/providers/mariadb/events/gtid_list_event.rs
index 18443e6..a8d9568 100644
--- a/src/providers/mariadb/events/gtid_list_event.rs
+++ b/src/providers/mariadb/events/gtid_list_event.rs
@@ -14,7 +14,8 @@ pub struct GtidListEvent {
 impl GtidListEvent {
     /// Parses events in MariaDB.
     pub fn parse(cursor: &mut Cursor<&[u8]>) -> Result<Self, Error> {
-        let gtid_list_len = cursor.read_u32::<LittleEndian>()?;
+        // Upper 4 bits are flags
+        let gtid_list_len = cursor.read_u32::<LittleEndian>()? & 0x0FFFFFFF;
 
         let mut gtid_list = GtidList::new();
         for _i in 0..gtid_list_len {
-- 
2.43.0


From 60aea19041b6da47eaabdac1b54df2f78fbb6df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 18/27] fix: scramble caching_sha2_password the way servers
 verify it (digest before scramble)

---
 src/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 2fe0284..fed2ec1 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -17,7 +17,7 @@ pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &Auth
         }
         AuthPlugin::CachingSha2Password => {
             let password_hash = sha256(password.as_bytes());
-            let concat_hash = [scramble.as_bytes().to_vec(), sha256(&password_hash)].concat();
+            let concat_hash = [sha256(&password_hash), scramble.as_bytes().to_vec()].concat();
             xor(&password_hash, &sha256(&concat_hash))
         }
     }
-- 
2.43.0


From fc092a04b5117a2e42a733d04a608054728131e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 19/27] fix: send an empty authentication response for an empty
 password

---
 src/extensions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index fed2ec1..317c832 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -9,6 +9,11 @@ use sha2::{Digest, Sha256};
 use std::io::{self, BufRead, Cursor, Read, Write};
 
 pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &AuthPlugin) -> Vec<u8> {
+    // An empty password is never scrambled
+    if password.is_empty() {
+        return Vec::new();
+    }
+
     match auth_plugin {
         AuthPlugin::MySqlNativePassword => {
             let password_hash = sha1(password.as_bytes());
-- 
2.43.0


From 08cf5f458f739cbbf531208ad2955cf4c4ca6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 20/27] fix: finish caching_sha2_password authentication with
 the OK packet of the server

---
 src/connect.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index a511688..42dcaff 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -117,7 +117,14 @@ impl BinlogClient {
     ) -> Result<(), Error> {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
         // Success authentication.
-        if packet[0] == 0x01 && packet[1] == 0x03 {
+        if packet[0] == ResponseType::OK {
+            return Ok(());
+        }
+
+        // Success fast authentication is followed by the OK packet.
+        if packet[0] == 0x01 && packet.len() > 1 && packet[1] == 0x03 {
+            let (packet, _seq_num) = channel.read_packet()?;
+            check_error_packet(&packet, "Authentication error.")?;
             return Ok(());
         }
 
-- 
2.43.0


From 71e49e792886cdeb8c38c0c8bb8c326a1cc8f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:09 +0000
Subject: [PATCH 21/27] fix: report a missing scramble instead of panicking

---
 src/connect.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 42dcaff..d4701a4 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -139,6 +139,12 @@ impl BinlogClient {
             return Ok(());
         }
 
+        if scramble.is_empty() {
+            return Err(Error::String(
+                "The server didn't send data to scramble the password".to_string(),
+            ));
+        }
+
         // Request public key.
         channel.write_packet(&[0x02], seq_num)?;
         let (packet, seq_num) = channel.read_packet()?;
-- 
2.43.0


From a90e99179ae29b46f4454d52433aeded1d8fb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:09 +0000
Subject: [PATCH 22/27] fix: report incomplete result sets instead of panicking

---
 src/configure.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/configure.rs b/src/configure.rs
index 453616e..ca3fb71 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -23,7 +23,7 @@ impl BinlogClient {
         channel.write_packet(&command.serialize()?, 0)?;
 
         let result_set = self.read_result_set(channel)?;
-        if result_set.len() != 1 {
+        if result_set.len() != 1 || result_set[0].cells.len() < 2 {
             return Err(Error::String(
                 "Could not read master binlog position.".to_string(),
             ));
@@ -58,6 +58,11 @@ impl BinlogClient {
         let command = QueryCommand::new("SELECT @master_binlog_checksum".to_string());
         channel.write_packet(&command.serialize()?, 0)?;
         let result_set = self.read_result_set(channel)?;
+        if result_set.is_empty() || result_set[0].cells.is_empty() {
+            return Err(Error::String(
+                "Could not read master binlog checksum.".to_string(),
+            ));
+        }
 
         // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
         // In order to deserialize the event we have to obtain checksum type length in advance.
-- 
2.43.0


From 56e43d57d0dfaa3fabebb134932cc0fe8ddbc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:09 +0000
Subject: [PATCH 23/27] fix: surface server errors sent in place of result set
 metadata

---
 src/configure.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configure.rs b/src/configure.rs
index ca3fb71..e652853 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -79,6 +79,7 @@ impl BinlogClient {
         loop {
             // Skip through metadata
             let (packet, _) = channel.read_packet()?;
+            check_error_packet(&packet, "Reading result set metadata error.")?;
             if packet[0] == ResponseType::END_OF_FILE {
                 break;
             }
-- 
2.43.0


From 7649b681bba4c785bef003a9284a41b5b3c0f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:10 +0000
Subject: [PATCH 24/27] fix: don't commit a MariaDB gtid before the end of its
 event group

---
 src/binlog_client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index cf7b19a..1ed7e74 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -11,6 +11,9 @@ use crate::replica_options::ReplicaOptions;
 use crate::ssl_mode::SslMode;
 use crate::starting_strategy::StartingStrategy;
 
+/// Flag of MariaDB gtid event set for event groups without terminating COMMIT or XID.
+const MARIADB_FL_STANDALONE: u8 = 1;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -74,6 +77,8 @@ impl BinlogClient {
         match event {
             BinlogEvent::MariaDbGtidEvent(x) => {
                 self.maria_gtid = Some(x.gtid.clone());
+                // MariaDB doesn't write BEGIN, groups that aren't standalone last until COMMIT or XID.
+                self.transaction = (x.flags & MARIADB_FL_STANDALONE) == 0;
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
-- 
2.43.0


From 5f411f22ead0515494fd34c1fc89035fe32365b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:50 +0000
Subject: [PATCH 25/27] fix: decode YEAR 0000 as 0 instead of 1900

---
 src/events/row_events/col_parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index a98c473..7124552 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -31,7 +31,11 @@ pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>,
 }
 
 pub fn parse_year(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<u16, Error> {
-    Ok(1900 + cursor.read_u8()? as u16)
+    // Zero stands for the year 0000
+    match cursor.read_u8()? as u16 {
+        0 => Ok(0),
+        value => Ok(1900 + value),
+    }
 }
 
 pub fn parse_date(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<Date, Error> {
-- 
2.43.0


From 7a57d4d5580c43a5237d3622a5d1d57bf4fa3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 26/27] Guarded access to protocol parts for verification (cfg
 mysql_cdc_verif)

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 30e2b13..aa7e363 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,10 +109,27 @@ pub mod replica_options;
 pub mod ssl_mode;
 pub mod starting_strategy;
 
+#[cfg(not(mysql_cdc_verif))]
 mod commands;
 mod configure;
 mod connect;
+#[cfg(not(mysql_cdc_verif))]
 mod constants;
+#[cfg(not(mysql_cdc_verif))]
 mod extensions;
+#[cfg(not(mysql_cdc_verif))]
 mod packet_channel;
+#[cfg(not(mysql_cdc_verif))]
 mod responses;
+
+// Access to the protocol parts for verification, built with --cfg mysql_cdc_verif only
+#[cfg(mysql_cdc_verif)]
+pub mod commands;
+#[cfg(mysql_cdc_verif)]
+pub mod constants;
+#[cfg(mysql_cdc_verif)]
+pub mod extensions;
+#[cfg(mysql_cdc_verif)]
+pub mod packet_channel;
+#[cfg(mysql_cdc_verif)]
+pub mod responses;
-- 
2.43.0


From 013f39b87c0ada5110285e9f37f38ce7bd680fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 27/27] fix: report packets that are too large for the packet
 header instead of panicking

---
 src/packet_channel.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index a0a74b1..1bcaa57 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -2,7 +2,7 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io::{self, Read, Write};
 use std::net::TcpStream;
 
-use crate::constants::{PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
+use crate::constants::{MAX_BODY_LENGTH, PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
 use crate::replica_options::ReplicaOptions;
 
 pub struct PacketChannel {
@@ -40,6 +40,14 @@ impl PacketChannel {
     }
 
     pub fn write_packet(&mut self, packet: &[u8], seq_num: u8) -> Result<(), io::Error> {
+        // The length has to fit into the packet header
+        if packet.len() > MAX_BODY_LENGTH {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "The packet is too large",
+            ));
+        }
+
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-- 
2.43.0

