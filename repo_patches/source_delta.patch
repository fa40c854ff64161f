From 9b2d5e3029043ddb3fc5038fd5fe156c078eb965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:56 +0000
Subject: [PATCH 01/33] fix: keep searching for a packet behind a signature
 without a valid header

A signature that isn't followed by a header with a valid CRC made read_header
fail without consuming anything: every further read() reported the same
CrcDismatch and the packets behind it were never delivered.
---
 brec/src/packet/reader.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 07a98db..b7515eb 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -114,20 +114,32 @@ impl<
     /// This function attempts to locate the `brec` packet signature in the given byte slice.
     /// If a signature is found but there is insufficient data to parse the full header,
     /// it returns `PacketHeaderState::NotEnoughData`. If the header is successfully parsed,
-    /// it returns `PacketHeaderState::Found`.
+    /// it returns `PacketHeaderState::Found`. A signature that isn't followed by a valid header
+    /// doesn't belong to a packet, in this case the search continues behind it.
     fn read_header(buffer: &[u8]) -> Result<PacketHeaderState, Error> {
-        let Some(offset) = PacketHeader::get_pos(buffer) else {
-            // Signature of PacketDef isn't found
-            return Ok(PacketHeaderState::NotFound);
-        };
-        if let Some(needed) = PacketHeader::is_not_enought(&buffer[offset..]) {
-            // Header is detected, but not enough data to load it
-            return Ok(PacketHeaderState::NotEnoughData(offset, needed));
+        let mut from = 0;
+        while let Some(pos) = PacketHeader::get_pos(&buffer[from..]) {
+            let offset = from + pos;
+            if let Some(needed) = PacketHeader::is_not_enought(&buffer[offset..]) {
+                // Header is detected, but not enough data to load it
+                return Ok(PacketHeaderState::NotEnoughData(offset, needed));
+            }
+            match PacketHeader::read_from_slice(&buffer[offset..], false) {
+                Ok(header) => {
+                    return Ok(PacketHeaderState::Found(
+                        header,
+                        std::ops::RangeInclusive::new(
+                            offset,
+                            offset + PacketHeader::ssize() as usize,
+                        ),
+                    ));
+                }
+                Err(Error::CrcDismatch) => from = offset + 1,
+                Err(err) => return Err(err),
+            }
         }
-        Ok(PacketHeaderState::Found(
-            PacketHeader::read_from_slice(&buffer[offset..], false)?,
-            std::ops::RangeInclusive::new(offset, offset + PacketHeader::ssize() as usize),
-        ))
+        // Signature of PacketDef isn't found
+        Ok(PacketHeaderState::NotFound)
     }
 
     /// Clears the internal buffer and consumes a specified number of bytes from the reader.
-- 
2.43.0


From f081757a07762f44c7bb20a6afb98d821e24b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:05 +0000
Subject: [PATCH 02/33] fix: never wait for more bytes than a packet header
 needs

After a segment without a packet the reader kept the last 29 bytes and asked for
29 more, although a header starting in the kept bytes is complete earlier. An
empty packet at the end of the stream was reported as foreign data, and on small
portions of data a complete header inside of the kept bytes led to an underflow
(sgmt.end() - buffered). Keep only the length of the signature.
---
 brec/src/packet/reader.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index b7515eb..58f41b1 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -230,7 +230,7 @@ impl<
         }
         // Second, if buffer has litter, header might be in next bytes. Trying all available bytes
         buffer.extend_from_slice(&extracted[needed..]);
-        let header_len = PacketHeader::ssize() as usize;
+        let sig_len = PACKET_SIG.len();
         match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
             PacketHeaderState::Found(header, sgmt) => {
                 if sgmt.start() > &0 {
@@ -251,13 +251,15 @@ impl<
                 Ok(NextPacket::NotEnoughData(needed))
             }
             PacketHeaderState::NotFound => {
-                if buffer.len() > header_len {
-                    self.rules.ignore(&buffer[..buffer.len() - header_len])?;
+                if buffer.len() > sig_len {
+                    self.rules.ignore(&buffer[..buffer.len() - sig_len])?;
                     // We can drain most bytes in buffer and left only length of header signature
-                    buffer.drain(..(buffer.len() - header_len));
+                    buffer.drain(..(buffer.len() - sig_len));
                 }
                 self.inner.consume(extracted_len);
-                self.recent = HeaderReadState::Refill(Some((buffer, header_len)));
+                // Never wait for more than the header, which might start in the left bytes, needs
+                let needed = PacketHeader::ssize() as usize - buffer.len();
+                self.recent = HeaderReadState::Refill(Some((buffer, needed)));
                 Ok(NextPacket::NotFound)
             }
         }
@@ -317,17 +319,13 @@ impl<
                 }
                 match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer)? {
                     PacketHeaderState::NotFound => {
-                        let header_len = PacketHeader::ssize() as usize;
-                        if available > header_len {
-                            self.rules.ignore(&buffer[..available - header_len])?;
-                            self.recent = HeaderReadState::Refill(Some((
-                                buffer[available - header_len..].to_vec(),
-                                header_len,
-                            )));
-                        } else {
-                            self.recent =
-                                HeaderReadState::Refill(Some((buffer.to_vec(), header_len)));
-                        }
+                        // Left only length of header signature: header might start there
+                        let sig_len = PACKET_SIG.len();
+                        self.rules.ignore(&buffer[..available - sig_len])?;
+                        self.recent = HeaderReadState::Refill(Some((
+                            buffer[available - sig_len..].to_vec(),
+                            PacketHeader::ssize() as usize - sig_len,
+                        )));
                         self.inner.consume(available);
                         return Ok(NextPacket::NotFound);
                     }
-- 
2.43.0


From 9d47301652e0371e58a61b73f314410594a6cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:09 +0000
Subject: [PATCH 03/33] fix: skip a packet with invalid payload or too many
 blocks

Both errors were returned without consuming the packet: the reader reported the
same error again and again and never reached the packets behind it.
---
 brec/src/packet/reader.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 58f41b1..b6562ca 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -377,8 +377,7 @@ impl<
         if !blocks_buffer.is_empty() {
             loop {
                 if count == MAX_BLOCKS_COUNT {
-                    self.buffered.clear();
-                    return Err(Error::MaxBlocksCount);
+                    return self.drop_and_consume(consume, Err(Error::MaxBlocksCount));
                 }
                 let blk = match BR::read_from_slice(&blocks_buffer[processed..], false) {
                     Ok(blk) => blk,
@@ -414,12 +413,12 @@ impl<
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
                         &header,
-                    )? {
-                        ReadStatus::Success(payload) => PacketDef::new(
+                    ) {
+                        Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
                             Some(payload),
                         ),
-                        ReadStatus::NotEnoughData(needed) => {
+                        Ok(ReadStatus::NotEnoughData(needed)) => {
                             // This is error, but not NextPacket::NotEnoughData because length of payload
                             // already has been check. If we are here - some data is invalid and
                             // it's an error
@@ -428,6 +427,9 @@ impl<
                                 Err(Error::NotEnoughData(needed as usize)),
                             );
                         }
+                        Err(err) => {
+                            return self.drop_and_consume(consume, Err(err));
+                        }
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-- 
2.43.0


From bfd649a9664b024a1df159ecac943a8b802a3126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:14 +0000
Subject: [PATCH 04/33] fix: report NoData if the source ends in the middle of
 a packet

With a truncated packet at the end of the source read() returned NotEnoughData
forever: a loop reading until NoData never ended.
---
 brec/src/packet/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index b6562ca..8f7f4ee 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -177,6 +177,10 @@ impl<
             self.buffered.extend_from_slice(buffer);
             self.inner.consume(consumed);
             self.recent = HeaderReadState::Ready(Some(header));
+            if consumed == 0 {
+                // Source is exhausted in the middle of packet
+                return Ok(ResolveHeaderReady::Next(NextPacket::NoData));
+            }
             return Ok(ResolveHeaderReady::Next(NextPacket::NotEnoughData(
                 packet_size - available,
             )));
-- 
2.43.0


From 60c023cd46035302669c92b789bb1fd7e42274f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 05/33] fix: keep the reader state on an error of the source

An error of the source (for example WouldBlock or Interrupted) in the middle of a
packet dropped the already consumed header or a part of it: the packet was lost
and its content was searched for another packet.
---
 brec/src/packet/reader.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 8f7f4ee..c2411b5 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -167,7 +167,14 @@ impl<
         &mut self,
         header: PacketHeader,
     ) -> Result<ResolveHeaderReady<B, P, Inner>, Error> {
-        let buffer = self.inner.fill_buf()?;
+        let buffer = match self.inner.fill_buf() {
+            Ok(buffer) => buffer,
+            Err(err) => {
+                // Do not lose already read part of packet
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Err(err.into());
+            }
+        };
         // Check do we have enough data to load packet
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
@@ -204,7 +211,14 @@ impl<
         mut buffer: Vec<u8>,
         needed: usize,
     ) -> Result<NextPacket<B, P, Inner>, Error> {
-        let extracted = self.inner.fill_buf()?;
+        let extracted = match self.inner.fill_buf() {
+            Ok(extracted) => extracted,
+            Err(err) => {
+                // Do not lose already read part of header
+                self.recent = HeaderReadState::Refill(Some((buffer, needed)));
+                return Err(err.into());
+            }
+        };
         if extracted.is_empty() {
             self.rules.ignore(&buffer)?;
             return Ok(NextPacket::NoData);
-- 
2.43.0


From 211100ca654310347dd68f372655cdfd86eb7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 06/33] fix: do not panic on a packet header with inconsistent
 sizes

A header with a valid CRC but with blocks_len greater than size (or with a size
near to u64::MAX) led to a panic instead of an error.
---
 brec/src/packet/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index c2411b5..cc3aee4 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -364,7 +364,7 @@ impl<
                             self.rules.ignore(&buffer[..*sgmt.start()])?;
                         }
                         let packet_size = header.size as usize;
-                        let needs = packet_size + *sgmt.end();
+                        let needs = packet_size.saturating_add(*sgmt.end());
                         if needs > available {
                             // Not enough data to load packet
                             self.buffered.extend_from_slice(&buffer[*sgmt.end()..]);
@@ -388,6 +388,9 @@ impl<
             }
         };
         let blocks_len = header.blocks_len as usize;
+        if blocks_len > packet_buffer.len() {
+            return self.drop_and_consume(consume, Err(Error::UnexpectedSliceLength));
+        }
         let blocks_buffer = &packet_buffer[..blocks_len];
         let mut blocks = Vec::new();
         let mut processed = 0;
-- 
2.43.0


From 0bb3f000bcbb211e0a2fd9882f076e4571c53d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:33 +0000
Subject: [PATCH 07/33] fix: retry an interrupted write in write_vectored_all

Like std's write_all does: Interrupted isn't a failure, but the entity was left
half written.
---
 brec/src/traits/write/slices.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brec/src/traits/write/slices.rs b/brec/src/traits/write/slices.rs
index ea1770c..e1401ce 100644
--- a/brec/src/traits/write/slices.rs
+++ b/brec/src/traits/write/slices.rs
@@ -100,7 +100,11 @@ impl<'a> IoSlices<'a> {
                 break;
             }
 
-            let just_written = buf.write_vectored(&in_work)?;
+            let just_written = match buf.write_vectored(&in_work) {
+                Ok(just_written) => just_written,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(err),
+            };
             written += just_written;
 
             if just_written == 0 {
-- 
2.43.0


From 1846a8d9d989f5ecd8b65763da2f9c2d1d4fe180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:08 +0000
Subject: [PATCH 08/33] fix: read any block of the generated Block from a plain
 stream

Each variant consumed the signature from the stream, so <Block as ReadFrom>::read
was able to read blocks of the first declared type only.
---
 brec_macros/src/collector/blocks/read.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 8a46740..2d3526c 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -9,7 +9,10 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, false) {
+            match <#fullpath as brec::ReadBlockFrom>::read(
+                &mut std::io::Read::chain(sig.as_slice(), &mut *buf),
+                false,
+            ) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -25,6 +28,9 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // Signature is consumed only once, it's checked by each variant
+                let mut sig = [0u8; #BLOCK_SIG_LEN];
+                buf.read_exact(&mut sig)?;
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
@@ -54,6 +60,9 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                if !skip_sig {
+                    return <Block as brec::ReadFrom>::read(buf);
+                }
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
-- 
2.43.0


From 90d87d3fae56c31d3936c3f2787324eff9fad2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:35 +0000
Subject: [PATCH 09/33] fix: respect the header and the position in try_read

- PacketDef::try_read compared available bytes with the size of the body only: a
  packet missing up to 29 bytes was treated as complete (and the header was
  already consumed in the buffered version).
- On NotEnoughData or an error of a header the seekable versions left the position
  in the middle of the packet or block.
- TryReadFromBuffered for PacketHeader consumed the header twice.
- A position behind the end of the source led to an underflow.
---
 brec/src/packet/header/read.rs        |  8 +++---
 brec/src/packet/read.rs               | 35 ++++++++++++++++++---------
 brec/src/payload/header/sreader.rs    |  2 +-
 brec/src/storage/slot/header.rs       |  4 ++-
 brec/src/storage/slot/read.rs         |  4 ++-
 brec/src/traits/read/mod.rs           |  4 ++-
 brec_macros/src/codegen/read/block.rs |  3 ++-
 7 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 3ddd873..010c3e6 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -113,7 +113,9 @@ impl TryReadFrom for PacketHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         if len < PacketHeader::ssize() {
@@ -145,8 +147,6 @@ impl TryReadFromBuffered for PacketHeader {
             ));
         }
 
-        let header = ReadStatus::Success(PacketHeader::read(reader)?);
-        reader.consume(PacketHeader::ssize() as usize);
-        Ok(header)
+        Ok(ReadStatus::Success(PacketHeader::read(reader)?))
     }
 }
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3e68fd6..eda26f3 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -82,14 +82,22 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let available = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let available = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
-        let header = match <PacketHeader as TryReadFrom>::try_read(buf)? {
-            ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
-            ReadStatus::Success(header) => header,
+        let header = match <PacketHeader as TryReadFrom>::try_read(buf) {
+            Ok(ReadStatus::NotEnoughData(needed)) => return Ok(ReadStatus::NotEnoughData(needed)),
+            Ok(ReadStatus::Success(header)) => header,
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                return Err(err);
+            }
         };
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let needed = header.size.saturating_add(PacketHeader::ssize());
+        if needed > available {
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+            return Ok(ReadStatus::NotEnoughData(needed - available));
         }
         let mut pkg = PacketDef::default();
         let mut read = 0;
@@ -121,8 +129,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFrom>::try_read(buf)? {
-                ReadStatus::Success(header) => {
+            match <PayloadHeader as TryReadFrom>::try_read(buf) {
+                Ok(ReadStatus::Success(header)) => {
                     match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
@@ -137,10 +145,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                         }
                     }
                 }
-                ReadStatus::NotEnoughData(needed) => {
+                Ok(ReadStatus::NotEnoughData(needed)) => {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::NotEnoughData(needed as usize));
                 }
+                Err(err) => {
+                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                    return Err(err);
+                }
             }
         }
         Ok(ReadStatus::Success(pkg))
@@ -177,8 +189,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - available));
         }
         let header = PacketHeader::read_from_slice(bytes, false)?;
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let needed = header.size.saturating_add(PacketHeader::ssize());
+        if needed > available {
+            return Ok(ReadStatus::NotEnoughData(needed - available));
         }
         reader.consume(PacketHeader::ssize() as usize);
         let mut pkg = PacketDef::default();
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index efa8ef0..3062391 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -53,7 +53,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
     /// An initialized reader wrapper ready for safe, incremental reads.
     pub fn new(buf: &'a mut T) -> Result<Self, Error> {
         let spos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - spos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(spos);
         buf.seek(std::io::SeekFrom::Start(spos))?;
         Ok(Self {
             spos,
diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index f1d8114..045982f 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -61,7 +61,9 @@ impl TryReadFrom for SlotHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < SlotHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize()));
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 09da083..e7aabbe 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -60,7 +60,9 @@ impl TryReadFrom for Slot {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         let header = match SlotHeader::try_read(buf)? {
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index b5e9ec1..dd0f81d 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -113,7 +113,9 @@ pub trait TryReadPayloadFrom<
         header: &PayloadHeader,
     ) -> Result<ReadStatus<T>, Error> {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < header.payload_len() as u64 {
             return Ok(ReadStatus::NotEnoughData(header.payload_len() as u64 - len));
diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 504afd7..a3de60f 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -143,7 +143,7 @@ impl TryRead for Block {
                     use brec::prelude::*;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
-                    let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+                    let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
 
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     if len < #sig_len {
@@ -155,6 +155,7 @@ impl TryRead for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
                     if len < #block_name::ssize() {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
                     Ok(brec::ReadStatus::Success(#block_name::read(buf, true)?))
-- 
2.43.0


From 2d513a05391af672b90ecbaab83ecc090fc29f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:21 +0000
Subject: [PATCH 10/33] fix: do not lose preloaded bytes in BufferedReader

refill() replaced bytes preloaded before, read() dropped them on an error of the
inner reader, and consume() across both buffers didn't count them.
---
 brec/src/traits/read/reader.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index b084427..42e141e 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -143,8 +143,11 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
     /// buffered_reader.refill()?;
     /// ```
     pub fn refill(&mut self) -> std::io::Result<()> {
-        self.buffer = self.inner.fill_buf()?.to_vec();
-        self.inner.consume(self.buffer.len());
+        let inner = self.inner.fill_buf()?;
+        let len = inner.len();
+        // Keep already preloaded bytes
+        self.buffer.extend_from_slice(inner);
+        self.inner.consume(len);
         Ok(())
     }
 
@@ -174,8 +177,12 @@ impl<R: std::io::BufRead> std::io::Read for BufferedReader<'_, R> {
             total_read += to_copy;
         }
         if total_read < buf.len() {
-            let from_inner = self.inner.read(&mut buf[total_read..])?;
-            total_read += from_inner;
+            match self.inner.read(&mut buf[total_read..]) {
+                Ok(from_inner) => total_read += from_inner,
+                // Already taken preloaded bytes have to be delivered
+                Err(_) if total_read > 0 => {}
+                Err(err) => return Err(err),
+            }
         }
         self.consumed += total_read;
         Ok(total_read)
@@ -225,6 +232,7 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
         }
 
         amt -= buf_len;
+        self.consumed += buf_len;
         self.buffer.clear();
 
         if amt <= self.inner_len {
-- 
2.43.0


From d65004d05fa0dec2eb290f8980f4ef200a10c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:22 +0000
Subject: [PATCH 11/33] fix: reject a payload that doesn't fill its packet

---
 brec/src/packet/header/mod.rs | 13 +++++++++++++
 brec/src/packet/mod.rs        |  7 ++++---
 brec/src/packet/read.rs       | 23 ++++++++++++++++-------
 brec/src/packet/reader.rs     |  9 ++++++---
 4 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/brec/src/packet/header/mod.rs b/brec/src/packet/header/mod.rs
index fef7f9a..7d67b34 100644
--- a/brec/src/packet/header/mod.rs
+++ b/brec/src/packet/header/mod.rs
@@ -99,6 +99,19 @@ impl PacketHeader {
         Ok(payload_body_len + payload_header_len)
     }
 
+    /// Checks that the payload takes exactly the rest of the packet behind its blocks.
+    ///
+    /// The payload header isn't protected by a CRC of its own: a zeroed one would be accepted
+    /// as a header of an empty payload.
+    pub(crate) fn check_payload(&self, payload: &PayloadHeader) -> Result<(), Error> {
+        let payload_len = payload.size() as u64 + payload.payload_len() as u64;
+        if self.blocks_len.checked_add(payload_len) == Some(self.size) {
+            Ok(())
+        } else {
+            Err(Error::UnexpectedSliceLength)
+        }
+    }
+
     /// Finds the offset of a packet header in the provided buffer by scanning for the signature.
     ///
     /// # Arguments
diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 34b1f5a..6741f03 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -147,15 +147,16 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let pkg = if header.payload {
             let mut payload_buffer = &packet_buffer[blocks_len..];
             match <PayloadHeader as TryReadFromBuffered>::try_read(&mut payload_buffer)? {
-                ReadStatus::Success(header) => {
-                    let mut payload_buffer = &packet_buffer[blocks_len + header.size()..];
+                ReadStatus::Success(payload_header) => {
+                    header.check_payload(&payload_header)?;
+                    let mut payload_buffer = &packet_buffer[blocks_len + payload_header.size()..];
                     if !rules.filter_by_payload(payload_buffer) {
                         // PacketDef marked as ignored
                         return Ok(LookInStatus::Denied(packet_size));
                     }
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
-                        &header,
+                        &payload_header,
                     ) {
                         Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index eda26f3..5945169 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -49,8 +49,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
             }
         }
         if header.payload {
-            let header = <PayloadHeader as ReadFrom>::read(&mut reader)?;
-            let payload = <P as ExtractPayloadFrom<Inner>>::read(&mut reader, &header)?;
+            let payload_header = <PayloadHeader as ReadFrom>::read(&mut reader)?;
+            header.check_payload(&payload_header)?;
+            let payload = <P as ExtractPayloadFrom<Inner>>::read(&mut reader, &payload_header)?;
             pkg.payload = Some(payload);
         }
         Ok(pkg)
@@ -130,8 +131,12 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         }
         if header.payload {
             match <PayloadHeader as TryReadFrom>::try_read(buf) {
-                Ok(ReadStatus::Success(header)) => {
-                    match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
+                Ok(ReadStatus::Success(payload_header)) => {
+                    if let Err(err) = header.check_payload(&payload_header) {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                        return Err(err);
+                    }
+                    match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &payload_header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
                         }
@@ -219,9 +224,13 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
         }
         if header.payload {
             match <PayloadHeader as TryReadFromBuffered>::try_read(reader)? {
-                ReadStatus::Success(header) => {
-                    reader.consume(header.size());
-                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(reader, &header)? {
+                ReadStatus::Success(payload_header) => {
+                    header.check_payload(&payload_header)?;
+                    reader.consume(payload_header.size());
+                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
+                        reader,
+                        &payload_header,
+                    )? {
                         ReadStatus::Success(payload) => {
                             pkg.payload = Some(payload);
                         }
diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index cc3aee4..bedc036 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -425,15 +425,18 @@ impl<
         let pkg = if header.payload {
             let mut payload_buffer = &packet_buffer[blocks_len..];
             match <PayloadHeader as TryReadFromBuffered>::try_read(&mut payload_buffer) {
-                Ok(ReadStatus::Success(header)) => {
-                    let mut payload_buffer = &packet_buffer[blocks_len + header.size()..];
+                Ok(ReadStatus::Success(payload_header)) => {
+                    if let Err(err) = header.check_payload(&payload_header) {
+                        return self.drop_and_consume(consume, Err(err));
+                    }
+                    let mut payload_buffer = &packet_buffer[blocks_len + payload_header.size()..];
                     if !self.rules.filter_by_payload(payload_buffer) {
                         // PacketDef marked as ignored
                         return self.drop_and_consume(consume, Ok(NextPacket::Skipped));
                     }
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
-                        &header,
+                        &payload_header,
                     ) {
                         Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
-- 
2.43.0


From 6787d6add238537f2cdb14366289cc075dcceb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:48 +0000
Subject: [PATCH 12/33] fix: read the packets of the next slots behind a seek

---
 brec/src/storage/reader/iters.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 3b14d35..8c4ef56 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -47,10 +47,12 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
-            return Ok(RangeInclusive::new(
+            let location = RangeInclusive::new(
                 self.offset + slot.size() + packet_offset,
                 self.offset + slot.size() + slot.width(),
-            ));
+            );
+            self.offset += slot.size() + slot.width();
+            return Ok(location);
         }
         if count == 0 {
             Err(Error::EmptySource)
-- 
2.43.0


From 3e8a9ba9f040bf919ce2d702148e22239c5d6270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 13/33] fix: check the capacity of a slot and do not panic on
 an incomplete one

---
 brec/src/storage/reader/mod.rs  |  6 ++++++
 brec/src/storage/slot/header.rs | 27 +++++++++++++++++++++++++--
 brec/src/storage/slot/read.rs   |  2 +-
 brec/src/storage/writer/mod.rs  |  3 +++
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 15dfb84..37646cc 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -68,6 +68,9 @@ impl<
                 Err(Error::SignatureDismatch) => {
                     return Err(Error::DamagedSlot(Box::new(Error::SignatureDismatch)));
                 }
+                Err(err @ Error::InvalidCapacity(..)) => {
+                    return Err(Error::DamagedSlot(Box::new(err)));
+                }
                 Err(err) => return Err(err),
             }
         }
@@ -148,6 +151,9 @@ impl<
                 Err(Error::SignatureDismatch) => {
                     return Err(Error::DamagedSlot(Box::new(Error::SignatureDismatch)));
                 }
+                Err(err @ Error::InvalidCapacity(..)) => {
+                    return Err(Error::DamagedSlot(Box::new(err)));
+                }
                 Err(err) => return Err(err),
             }
         }
diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index 045982f..fe0e33d 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -10,6 +10,21 @@ pub struct SlotHeader {
     pub capacity: u64,
 }
 
+impl SlotHeader {
+    /// Number of bytes taken by the slot is calculated from its capacity, therefore the capacity
+    /// should be checked before CRC of the slot can be.
+    fn checked(self) -> Result<Self, Error> {
+        if self.capacity == DEFAULT_SLOT_CAPACITY as u64 {
+            Ok(self)
+        } else {
+            Err(Error::InvalidCapacity(
+                self.capacity as usize,
+                DEFAULT_SLOT_CAPACITY.to_string(),
+            ))
+        }
+    }
+}
+
 impl StaticSize for SlotHeader {
     /// Returns the static size of the slot header in bytes.
     ///
@@ -28,6 +43,7 @@ impl ReadFrom for SlotHeader {
     ///
     /// # Errors
     /// - `Error::SignatureDismatch` if the signature is incorrect.
+    /// - `Error::InvalidCapacity` if the capacity is unexpected.
     /// - I/O errors if reading fails.
     fn read<T: std::io::Read>(buf: &mut T) -> Result<Self, Error>
     where
@@ -43,7 +59,7 @@ impl ReadFrom for SlotHeader {
         buf.read_exact(&mut capacity)?;
         let capacity = u64::from_le_bytes(capacity);
 
-        Ok(SlotHeader { capacity })
+        SlotHeader { capacity }.checked()
     }
 }
 
@@ -55,6 +71,7 @@ impl TryReadFrom for SlotHeader {
     ///
     /// # Errors
     /// - `Error::SignatureDismatch` if the signature is invalid.
+    /// - `Error::InvalidCapacity` if the capacity is unexpected.
     /// - I/O errors during reading or seeking.
     fn try_read<T: std::io::Read + std::io::Seek>(buf: &mut T) -> Result<ReadStatus<Self>, Error>
     where
@@ -80,6 +97,12 @@ impl TryReadFrom for SlotHeader {
         buf.read_exact(&mut capacity)?;
         let capacity = u64::from_le_bytes(capacity);
 
-        Ok(ReadStatus::Success(SlotHeader { capacity }))
+        match (SlotHeader { capacity }).checked() {
+            Ok(header) => Ok(ReadStatus::Success(header)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index e7aabbe..c0baad4 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -75,7 +75,7 @@ impl TryReadFrom for Slot {
             + std::mem::size_of::<u32>() as u64;
         if len < needed {
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-            return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - needed));
+            return Ok(ReadStatus::NotEnoughData(needed - len));
         }
 
         let mut lenghts = Vec::with_capacity(header.capacity as usize);
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index e7dce73..0fd7ad2 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -65,6 +65,9 @@ impl<
                 Err(Error::SignatureDismatch) => {
                     return Err(Error::DamagedSlot(Box::new(Error::SignatureDismatch)))
                 }
+                Err(err @ Error::InvalidCapacity(..)) => {
+                    return Err(Error::DamagedSlot(Box::new(err)))
+                }
                 Err(err) => return Err(err),
             }
         }
-- 
2.43.0


From 982969e39d8bc3a360c18da67a5145e25e6ae42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:43 +0000
Subject: [PATCH 14/33] fix: iterate over undamaged packets of a damaged or
 truncated storage

---
 brec/src/storage/reader/iters.rs | 128 +++++++++++++++++++------------
 1 file changed, 78 insertions(+), 50 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 8c4ef56..84711bb 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -1,13 +1,16 @@
-use std::{
-    io::{BufRead, Cursor},
-    ops::RangeInclusive,
-};
+use std::io::{Cursor, Read};
 
 use crate::*;
 
-/// Iterator over a sequence of `Slot`s, yielding the byte ranges that contain actual packet data.
+/// Location of packets of one slot: offset of the first packet and lengths of all of them.
+pub struct PacketsLocation<'a> {
+    pub offset: u64,
+    pub lenghts: &'a [u64],
+}
+
+/// Iterator over a sequence of `Slot`s, yielding the locations that contain actual packet data.
 ///
-/// Each iteration returns a `RangeInclusive<u64>` representing the location of the used data region
+/// Each iteration returns a `PacketsLocation` representing the location of the used data region
 /// within the slot. The offset includes the size of the slot header and accounts for cumulative offset.
 ///
 /// The iterator skips over empty slots and automatically adjusts for the internal layout.
@@ -25,7 +28,7 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
     }
 
     /// Seeks to the specified packet index across the slots.
-    pub fn from(&mut self, packet: usize) -> Result<RangeInclusive<u64>, Error> {
+    pub fn from(&mut self, packet: usize) -> Result<PacketsLocation<'a>, Error> {
         let mut count = 0;
         let mut target = packet;
         for (idx, slot) in self.slots.by_ref().enumerate() {
@@ -47,10 +50,10 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
-            let location = RangeInclusive::new(
-                self.offset + slot.size() + packet_offset,
-                self.offset + slot.size() + slot.width(),
-            );
+            let location = PacketsLocation {
+                offset: self.offset + slot.size() + packet_offset,
+                lenghts: &slot.lenghts[target..slot.count()],
+            };
             self.offset += slot.size() + slot.width();
             return Ok(location);
         }
@@ -63,7 +66,7 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
 }
 
 impl<'a, I: Iterator<Item = &'a Slot>> Iterator for PacketsLocatorIterator<'a, I> {
-    type Item = RangeInclusive<u64>;
+    type Item = PacketsLocation<'a>;
 
     /// Returns the next occupied range of packet data, or `None` if finished.
     fn next(&mut self) -> Option<Self::Item> {
@@ -72,20 +75,61 @@ impl<'a, I: Iterator<Item = &'a Slot>> Iterator for PacketsLocatorIterator<'a, I
         if slot_width == 0 {
             return None;
         }
-        let location = RangeInclusive::new(
-            self.offset + slot.size(),
-            self.offset + slot_width + slot.size(),
-        );
+        let location = PacketsLocation {
+            offset: self.offset + slot.size(),
+            lenghts: &slot.lenghts[..slot.count()],
+        };
         self.offset += slot_width + slot.size();
         Some(location)
     }
 }
 
+/// Data of not yet read packets of one slot.
+///
+/// Packets are separated by the lengths stored in the slot; a damaged packet doesn't affect
+/// reading of the packets behind it.
+#[derive(Default)]
+struct PacketsData<'a> {
+    buffer: Vec<u8>,
+    position: usize,
+    lenghts: &'a [u64],
+}
+
+impl<'a> PacketsData<'a> {
+    /// Loads packets from the source. If the source ends before the last packet, only available
+    /// part will be loaded.
+    fn load<S: std::io::Read + std::io::Seek>(
+        source: &mut S,
+        location: PacketsLocation<'a>,
+    ) -> Result<Self, Error> {
+        source.seek(std::io::SeekFrom::Start(location.offset))?;
+        let mut buffer = Vec::new();
+        source
+            .take(location.lenghts.iter().sum())
+            .read_to_end(&mut buffer)?;
+        Ok(Self {
+            buffer,
+            position: 0,
+            lenghts: location.lenghts,
+        })
+    }
+
+    /// Returns bytes of the next packet, or `None` if there are no more packets.
+    fn next(&mut self) -> Option<Cursor<&[u8]>> {
+        let (lenght, rest) = self.lenghts.split_first()?;
+        let from = self.position.min(self.buffer.len());
+        let to = (from + *lenght as usize).min(self.buffer.len());
+        self.lenghts = rest;
+        self.position = to;
+        Some(Cursor::new(&self.buffer[from..to]))
+    }
+}
+
 /// An iterator over stored packets distributed across multiple slots.
 ///
 /// `ReaderIterator` reads packets from a `Read + Seek` source (e.g. file or memory stream)
 /// using a list of `Slot`s and their recorded layout. It internally tracks the position and
-/// reuses an internal buffer (`Cursor<Vec<u8>>`) to efficiently read packet data.
+/// uses an internal buffer to efficiently read packet data.
 ///
 /// It yields deserialized `PacketDef<B, P, Inner>` values or parsing errors.
 ///
@@ -104,7 +148,7 @@ pub struct ReaderIterator<
 > {
     locator: PacketsLocatorIterator<'a, I>,
     source: &'a mut S,
-    buffer: Cursor<Vec<u8>>,
+    data: PacketsData<'a>,
     _block: std::marker::PhantomData<B>,
     _payload: std::marker::PhantomData<P>,
     _payload_inner: std::marker::PhantomData<Inner>,
@@ -124,7 +168,7 @@ impl<
         Self {
             locator: PacketsLocatorIterator::new(slots),
             source,
-            buffer: Cursor::new(Vec::new()),
+            data: PacketsData::default(),
             _block: std::marker::PhantomData,
             _payload: std::marker::PhantomData,
             _payload_inner: std::marker::PhantomData,
@@ -133,12 +177,7 @@ impl<
     /// Seeks to the specified packet index across the slots.
     pub fn seek(mut self, packet: usize) -> Result<Self, Error> {
         let location = self.locator.from(packet)?;
-        self.source
-            .seek(std::io::SeekFrom::Start(*location.start()))?;
-        let size = (location.end() - location.start()) as usize;
-        let mut inner = vec![0u8; size];
-        self.source.read_exact(&mut inner).unwrap();
-        self.buffer = Cursor::new(inner);
+        self.data = PacketsData::load(self.source, location)?;
         Ok(self)
     }
 }
@@ -159,21 +198,15 @@ impl<
     /// Loads the slot's region into an internal buffer and calls `PacketDef::read`.
     /// Returns `None` if all slots are exhausted.
     fn next(&mut self) -> Option<Self::Item> {
-        // TODO: remove unwraps and handle errors properly
-        if self.buffer.fill_buf().unwrap().is_empty() {
+        if self.data.lenghts.is_empty() {
             let location = self.locator.next()?;
-            if let Err(err) = self
-                .source
-                .seek(std::io::SeekFrom::Start(*location.start()))
-            {
-                return Some(Err(err.into()));
+            match PacketsData::load(self.source, location) {
+                Ok(data) => self.data = data,
+                Err(err) => return Some(Err(err)),
             }
-            let size = (location.end() - location.start()) as usize;
-            let mut inner = vec![0u8; size];
-            self.source.read_exact(&mut inner).unwrap();
-            self.buffer = Cursor::new(inner);
         }
-        match <PacketDef<B, P, Inner> as ReadFrom>::read(&mut self.buffer) {
+        let mut buffer = self.data.next()?;
+        match <PacketDef<B, P, Inner> as ReadFrom>::read(&mut buffer) {
             Err(err) => Some(Err(err)),
             Ok(pkg) => Some(Ok(pkg)),
         }
@@ -207,7 +240,7 @@ pub struct ReaderFilteredIterator<
     locator: PacketsLocatorIterator<'a, I>,
     source: &'a mut S,
     rules: &'a RulesDef<B, BR, P, Inner>,
-    buffer: Cursor<Vec<u8>>,
+    data: PacketsData<'a>,
 }
 
 impl<
@@ -226,7 +259,7 @@ impl<
             locator: PacketsLocatorIterator::new(slots),
             source,
             rules,
-            buffer: Cursor::new(Vec::new()),
+            data: PacketsData::default(),
         }
     }
 }
@@ -253,20 +286,15 @@ impl<
     /// Returns `Some(Ok(...))` if accepted, skips if denied, and `Err(...)` on error.
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if self.buffer.fill_buf().unwrap().is_empty() {
+            if self.data.lenghts.is_empty() {
                 let location = self.locator.next()?;
-                if let Err(err) = self
-                    .source
-                    .seek(std::io::SeekFrom::Start(*location.start()))
-                {
-                    return Some(Err(err.into()));
+                match PacketsData::load(self.source, location) {
+                    Ok(data) => self.data = data,
+                    Err(err) => return Some(Err(err)),
                 }
-                let size = (location.end() - location.start()) as usize;
-                let mut inner = vec![0u8; size];
-                self.source.read_exact(&mut inner).unwrap();
-                self.buffer = Cursor::new(inner);
             }
-            match PacketDef::filtered(&mut self.buffer, self.rules) {
+            let mut buffer = self.data.next()?;
+            match PacketDef::filtered(&mut buffer, self.rules) {
                 Ok(LookInStatus::Accepted(_, packet)) => return Some(Ok(packet)),
                 Ok(LookInStatus::Denied(_)) => {
                     continue;
-- 
2.43.0


From 48bd60473300e5a178e1498c277895b526c6dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:00 +0000
Subject: [PATCH 15/33] fix: load slots up to the first not full one and count
 packets in reload

---
 brec/src/storage/locator.rs    |   1 +
 brec/src/storage/reader/mod.rs | 117 ++++++++++-----------------------
 brec/src/storage/writer/mod.rs |   6 ++
 3 files changed, 43 insertions(+), 81 deletions(-)

diff --git a/brec/src/storage/locator.rs b/brec/src/storage/locator.rs
index 6eb3e82..279d562 100644
--- a/brec/src/storage/locator.rs
+++ b/brec/src/storage/locator.rs
@@ -62,6 +62,7 @@ impl FreeSlotLocator {
 
     pub fn setup<'a, I: Iterator<Item = &'a Slot>>(&mut self, slots: I) {
         self.next = 0;
+        self.slot_offset = 0;
         for slot in slots {
             if slot.get_free_slot_offset().is_some() {
                 break;
diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 37646cc..2741f66 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -57,7 +57,13 @@ impl<
                 Ok(ReadStatus::Success(slot)) => {
                     let position = offset;
                     offset += slot.size() + slot.width();
+                    let full = slot.is_full();
                     self.slots.push(AnchoredSlot::new(slot, position));
+                    if !full {
+                        // Data behind the last packet isn't a slot: it can be a packet, which is
+                        // still (or has never been completely) written
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
@@ -79,71 +85,43 @@ impl<
         Ok(self)
     }
 
+    /// Reads slots, which have been updated or added since the last (re)loading.
+    ///
+    /// # Returns
+    /// * `Ok(usize)` - Number of new packets.
+    /// * `Err(Error)` - Failure while reading slots; already loaded slots stay as they are.
     pub fn reload(&mut self) -> Result<usize, Error> {
-        let mut source_pos;
-
-        let last = match self.slots.last().map(|v| (v, v.inner.expand())) {
-            Some((last, (Some(offset), Some(index), crc))) => {
-                source_pos = last.offset;
-                Some((offset, index, crc))
-            }
-            Some((last, (None, None, _))) => {
-                // Slot is full, because no free offset or/and index
-                source_pos = last.offset + last.inner.width() + last.inner.size();
-                None
-            }
-            _ => {
-                // No slots
-                source_pos = 0;
-                None
-            }
+        let before = self.count();
+        // Only the last slot can be changed and only if it isn't full
+        let (keep, mut source_pos) = match self.slots.last() {
+            Some(last) if last.inner.is_full() => (
+                self.slots.len(),
+                last.offset + last.inner.width() + last.inner.size(),
+            ),
+            Some(last) => (self.slots.len() - 1, last.offset),
+            None => (0, 0),
         };
-        let count = self.slots.len();
+        let mut fresh = Vec::new();
         loop {
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
-                    if let Some((_, _, crc)) = last
-                        && self.slots.len() == count
-                    {
-                        if crc == slot.crc {
-                            return Ok(0);
-                        }
-                        if let Some(lst) = self.slots.get_mut(count.saturating_sub(1)) {
-                            lst.inner = slot;
-                            if lst.inner.get_free_slot_index().is_none() {
-                                // Slot is full, move source position to the end of this slot
-                                source_pos += lst.inner.size() + lst.inner.width();
-                            } else {
-                                // Slot has free space, so we can stop here
-                                break;
-                            }
-                        } else {
-                            return Err(Error::AccessSlot(count.saturating_sub(1)));
-                        }
-                    } else {
-                        let position = source_pos;
-                        source_pos += slot.size() + slot.width();
-                        self.slots.push(AnchoredSlot::new(slot, position));
+                    let position = source_pos;
+                    source_pos += slot.size() + slot.width();
+                    let full = slot.is_full();
+                    fresh.push(AnchoredSlot::new(slot, position));
+                    if !full {
+                        break;
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-                    match (last.is_none(), self.slots.len() == count) {
-                        (true, true) => {
-                            return Ok(0);
-                        }
-                        (false, true) => {
-                            if needed == SlotHeader::ssize() {
-                                // No space in last slot, no slot after
-                                break;
-                            }
-                            // Cannot read again last slot
-                            return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
-                                needed as usize,
-                            ))));
-                        }
-                        (false, false) | (true, false) => break,
+                    if fresh.is_empty() && keep < self.slots.len() {
+                        // Cannot read again last slot
+                        return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
+                            needed as usize,
+                        ))));
                     }
+                    break;
                 }
                 Err(Error::CrcDismatch) => {
                     return Err(Error::DamagedSlot(Box::new(Error::CrcDismatch)));
@@ -157,34 +135,11 @@ impl<
                 Err(err) => return Err(err),
             }
         }
-
-        let read = match (last, self.slots.len() == count, self.slots.last()) {
-            (Some((_, index, _)), true, Some(last)) => {
-                // Last slot has been update, no new slot has been added
-                if let Some(idx) = last.inner.get_free_slot_index() {
-                    idx.saturating_sub(index)
-                } else {
-                    DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                }
-            }
-            (Some((_, index, _)), false, Some(last)) => {
-                // Last slot has been updated, but no new slot has been added
-                DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                    + last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count) * DEFAULT_SLOT_CAPACITY
-            }
-            (None, false, Some(last)) => {
-                // In cases:
-                // - No last slot, but new slots have been added
-                // - Last slot is full, but new slots have been added
-                last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
-            }
-            _ => 0,
-        };
+        self.slots.truncate(keep);
+        self.slots.append(&mut fresh);
         self.locator
             .setup(self.slots.iter().map(|anchored| &anchored.inner));
-        Ok(read)
+        Ok(self.count().saturating_sub(before))
     }
 
     /// Adds a packet filter or processing rule.
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index 0fd7ad2..25e2449 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -54,7 +54,13 @@ impl<
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     offset += slot.size() + slot.width();
+                    let full = slot.is_full();
                     self.slots.push(slot);
+                    if !full {
+                        // Data behind the last packet isn't a slot: it can be a packet, which
+                        // has never been completely written
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
-- 
2.43.0


From 9fc1db4c2ef6e5a3eca34e1e19edffa6c3f5abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:58 +0000
Subject: [PATCH 16/33] fix: write a packet before the slot referring to it and
 roll back a failed insert

---
 brec/src/storage/writer/mod.rs | 65 ++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index 25e2449..9d1ba99 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -14,6 +14,8 @@ pub struct WriterDef<
     pub slots: Vec<Slot>,
     inner: S,
     locator: FreeSlotLocator,
+    /// The last writing of the current slot failed
+    dirty: bool,
     _phantom: std::marker::PhantomData<(B, P, Inner)>,
 }
 
@@ -37,6 +39,7 @@ impl<
             slots: Vec::new(),
             inner,
             locator: FreeSlotLocator::default(),
+            dirty: false,
             _phantom: std::marker::PhantomData,
         }
         .load()
@@ -83,42 +86,76 @@ impl<
 
     /// Inserts a new packet into storage at the next available slot.
     ///
+    /// The packet is written before the slot which refers to it. If insertion is interrupted,
+    /// the slot never refers to a packet which isn't completely written.
+    ///
     /// # Arguments
     /// * `packet` — The `PacketDef` to be written
     ///
     /// # Returns
     /// * `Ok(())` — Packet successfully written
-    /// * `Err(Error)` — If no space is found or write fails
+    /// * `Err(Error)` — If no space is found or write fails; the packet isn't inserted
     pub fn insert(&mut self, mut packet: PacketDef<B, P, Inner>) -> Result<(), Error> {
+        // Convert the packet into bytes
+        let mut buffer: Vec<u8> = Vec::new();
+        packet.write_all(&mut buffer)?;
         let offset = match self.locator.next(&self.slots) {
             Some(offset) => offset,
             None => {
-                self.slots.push(Slot::default());
+                let slot = Slot::default();
+                let (_, slot_offset) = self.locator.current();
+                Self::write_slot(&mut self.inner, &slot, slot_offset)?;
+                self.slots.push(slot);
                 self.locator
                     .next(&self.slots)
                     .ok_or(Error::CannotFindFreeSlot)?
             }
         };
-        // Convert the packet into bytes
-        let mut buffer: Vec<u8> = Vec::new();
-        packet.write_all(&mut buffer)?;
-        // Insert length of packet
-        self.locator.insert(&mut self.slots, buffer.len() as u64)?;
-        // Get updated slot data
         let (slot_index, slot_offset) = self.locator.current();
-        self.inner.flush()?;
-        self.inner.seek(std::io::SeekFrom::Start(slot_offset))?;
         let slot = self
             .slots
             .get(slot_index)
             .ok_or(Error::CannotFindFreeSlot)?;
-        // Write/Rewrite slot
-        slot.write_all(&mut self.inner)?;
-        self.inner.seek(std::io::SeekFrom::Start(offset))?;
-        self.inner.flush()?;
+        if self.dirty {
+            // Stored slot might refer to the packet which is going to be overwritten
+            Self::write_slot(&mut self.inner, slot, slot_offset)?;
+            self.dirty = false;
+        }
+        let index = slot
+            .get_free_slot_index()
+            .ok_or(Error::CannotFindFreePlaceInSlot)?;
+        let is_last = index + 1 == slot.lenghts.len();
         self.inner.seek(std::io::SeekFrom::Start(offset))?;
         self.inner.write_all(&buffer)?;
+        if is_last {
+            // Make sure, nothing else will be considered as a slot behind the full one
+            Slot::default().write_all(&mut self.inner)?;
+        }
         self.inner.flush()?;
+        // Insert length of packet
+        self.locator.insert(&mut self.slots, buffer.len() as u64)?;
+        // Write/Rewrite slot
+        let result = match self.slots.get(slot_index) {
+            Some(slot) => Self::write_slot(&mut self.inner, slot, slot_offset),
+            None => Err(Error::CannotFindFreeSlot),
+        };
+        if let Some(slot) = self.slots.get_mut(slot_index)
+            && result.is_err()
+        {
+            slot.lenghts[index] = 0;
+            slot.overwrite_crc();
+            self.dirty = true;
+        } else if is_last {
+            self.slots.push(Slot::default());
+        }
+        result
+    }
+
+    /// Writes slot to the given position
+    fn write_slot(inner: &mut S, slot: &Slot, offset: u64) -> Result<(), Error> {
+        inner.seek(std::io::SeekFrom::Start(offset))?;
+        slot.write_all(inner)?;
+        inner.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 36493c9ce14124babb3373d62d25c23c9e27f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:37 +0000
Subject: [PATCH 17/33] fix: do not allocate memory by the size declared in a
 packet header

---
 brec/src/packet/header/mod.rs | 14 ++++++++++++++
 brec/src/packet/mod.rs        |  3 +--
 brec/src/packet/read.rs       |  3 +--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/brec/src/packet/header/mod.rs b/brec/src/packet/header/mod.rs
index 7d67b34..d1a1a77 100644
--- a/brec/src/packet/header/mod.rs
+++ b/brec/src/packet/header/mod.rs
@@ -2,6 +2,7 @@ mod read;
 mod write;
 
 use crate::*;
+use std::io::Read;
 
 /// Packet signature marker.
 ///
@@ -112,6 +113,19 @@ impl PacketHeader {
         }
     }
 
+    /// Reads the body of the packet (blocks and payload).
+    ///
+    /// Memory is taken as data comes, because the declared size might be wrong.
+    pub(crate) fn read_body<R: std::io::Read>(&self, reader: &mut R) -> Result<Vec<u8>, Error> {
+        let mut body = Vec::new();
+        reader.take(self.size).read_to_end(&mut body)?;
+        if body.len() as u64 == self.size {
+            Ok(body)
+        } else {
+            Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into())
+        }
+    }
+
     /// Finds the offset of a packet header in the provided buffer by scanning for the signature.
     ///
     /// # Arguments
diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 6741f03..e25f0e9 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -126,8 +126,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let header = <PacketHeader as ReadFrom>::read(reader)?;
         let mut read = 0;
         let mut blocks = Vec::new();
-        let mut packet_buffer = vec![0; header.size as usize];
-        reader.read_exact(&mut packet_buffer)?;
+        let packet_buffer = header.read_body(reader)?;
         let blocks_len = header.blocks_len as usize;
         if blocks_len > 0 {
             loop {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 5945169..0b19199 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -24,8 +24,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
         let header = PacketHeader::read(buf)?;
         let mut pkg = PacketDef::default();
         let mut read = 0;
-        let mut inner = vec![0u8; header.size as usize];
-        buf.read_exact(&mut inner)?;
+        let mut inner = header.read_body(buf)?;
         let mut reader = std::io::Cursor::new(&mut inner);
         if header.blocks_len > 0 {
             let mut iterations = 0;
-- 
2.43.0


From e32ec693d4a14ba6c20deb8636496d56df3ac26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 18/33] hook: simulation seams of the storage sensor (cfg
 brec_sim)

---
 brec/src/lib.rs                         |   4 +
 brec/src/sim.rs                         | 193 ++++++++++++++++++++++++
 brec/src/storage/mod.rs                 |   3 +
 brec/src/storage/observer/mod.rs        |   6 +-
 brec/src/storage/observer/sensor/mod.rs |  18 ++-
 5 files changed, 217 insertions(+), 7 deletions(-)
 create mode 100644 brec/src/sim.rs

diff --git a/brec/src/lib.rs b/brec/src/lib.rs
index 26cd0d0..8174dce 100644
--- a/brec/src/lib.rs
+++ b/brec/src/lib.rs
@@ -1,4 +1,5 @@
 #![deny(unused_crate_dependencies)]
+#![allow(unexpected_cfgs)] // brec_sim: see sim.rs
 #![doc = include_str!("../README.md")]
 
 #[cfg(feature = "build")]
@@ -18,6 +19,9 @@ pub mod error;
 pub mod packet;
 pub mod payload;
 pub mod prelude;
+#[cfg(brec_sim)]
+#[doc(hidden)]
+pub mod sim;
 pub mod storage;
 pub mod traits;
 
diff --git a/brec/src/sim.rs b/brec/src/sim.rs
new file mode 100644
index 0000000..370d90a
--- /dev/null
+++ b/brec/src/sim.rs
@@ -0,0 +1,193 @@
+//! Seams for deterministic simulation. Compiled with `--cfg brec_sim` only.
+
+use notify::{Event, RecursiveMode, Result};
+use std::{
+    cell::{Cell, RefCell},
+    path::{Path, PathBuf},
+    sync::atomic::Ordering,
+};
+
+type Handler = Box<dyn FnMut(Result<Event>)>;
+
+struct Entry {
+    id: u64,
+    paths: Vec<PathBuf>,
+    handler: Option<Handler>,
+}
+
+thread_local! {
+    static POINT: Cell<Option<fn()>> = const { Cell::new(None) };
+    static WATCHERS: RefCell<Vec<Entry>> = const { RefCell::new(Vec::new()) };
+    static NEXT: Cell<u64> = const { Cell::new(1) };
+    static FAIL_WATCH: Cell<bool> = const { Cell::new(false) };
+}
+
+/// Sets a function called in front of every instrumented atomic operation.
+pub fn set_point(f: Option<fn()>) {
+    POINT.with(|p| p.set(f));
+}
+
+fn point() {
+    if let Some(f) = POINT.with(|p| p.get()) {
+        f()
+    }
+}
+
+/// Makes the next `watch` fail.
+pub fn fail_watch(fail: bool) {
+    FAIL_WATCH.with(|f| f.set(fail));
+}
+
+/// Forgets all watchers.
+pub fn reset() {
+    let old = WATCHERS.with(|w| std::mem::take(&mut *w.borrow_mut()));
+    drop(old);
+    fail_watch(false);
+    set_point(None);
+}
+
+/// Calls the handlers of all watchers of `path`, one by one; returns how many were called.
+pub fn deliver(path: &Path, event: impl Fn() -> Result<Event>) -> usize {
+    let ids: Vec<u64> = WATCHERS.with(|w| {
+        w.borrow()
+            .iter()
+            .filter(|e| e.paths.iter().any(|p| p == path))
+            .map(|e| e.id)
+            .collect()
+    });
+    let mut called = 0;
+    for id in ids {
+        let handler = WATCHERS.with(|w| {
+            w.borrow_mut()
+                .iter_mut()
+                .find(|e| e.id == id)
+                .and_then(|e| e.handler.take())
+        });
+        if let Some(mut handler) = handler {
+            handler(event());
+            called += 1;
+            WATCHERS.with(|w| {
+                if let Some(e) = w.borrow_mut().iter_mut().find(|e| e.id == id) {
+                    e.handler = Some(handler);
+                }
+            });
+        }
+    }
+    called
+}
+
+/// Stand-in for `notify::RecommendedWatcher`: events are given by [`deliver`].
+pub struct RecommendedWatcher(u64);
+
+pub fn recommended_watcher<F>(handler: F) -> Result<RecommendedWatcher>
+where
+    F: FnMut(Result<Event>) + Send + 'static,
+{
+    let id = NEXT.with(|n| n.replace(n.get() + 1));
+    WATCHERS.with(|w| {
+        w.borrow_mut().push(Entry {
+            id,
+            paths: Vec::new(),
+            handler: Some(Box::new(handler)),
+        })
+    });
+    Ok(RecommendedWatcher(id))
+}
+
+/// Stand-in for `notify::Watcher`.
+pub trait Watcher {
+    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()>;
+    fn unwatch(&mut self, path: &Path) -> Result<()>;
+}
+
+impl Watcher for RecommendedWatcher {
+    fn watch(&mut self, path: &Path, _: RecursiveMode) -> Result<()> {
+        if FAIL_WATCH.with(|f| f.replace(false)) {
+            return Err(notify::Error::generic("watch failed"));
+        }
+        WATCHERS.with(|w| {
+            if let Some(e) = w.borrow_mut().iter_mut().find(|e| e.id == self.0) {
+                e.paths.push(path.to_path_buf());
+            }
+        });
+        Ok(())
+    }
+    fn unwatch(&mut self, path: &Path) -> Result<()> {
+        WATCHERS.with(|w| {
+            if let Some(e) = w.borrow_mut().iter_mut().find(|e| e.id == self.0) {
+                e.paths.retain(|p| p != path);
+            }
+        });
+        Ok(())
+    }
+}
+
+impl Drop for RecommendedWatcher {
+    fn drop(&mut self) {
+        let old = WATCHERS.with(|w| {
+            w.try_borrow_mut().ok().and_then(|mut w| {
+                w.iter()
+                    .position(|e| e.id == self.0)
+                    .map(|i| w.remove(i))
+            })
+        });
+        drop(old);
+    }
+}
+
+macro_rules! atomic {
+    ($name:ident, $val:ty) => {
+        /// The atomic of the same name with a scheduling point in front of its operations.
+        #[derive(Debug, Default)]
+        pub struct $name(std::sync::atomic::$name);
+
+        impl $name {
+            pub const fn new(v: $val) -> Self {
+                Self(std::sync::atomic::$name::new(v))
+            }
+            pub fn load(&self, o: Ordering) -> $val {
+                point();
+                self.0.load(o)
+            }
+            pub fn store(&self, v: $val, o: Ordering) {
+                point();
+                self.0.store(v, o)
+            }
+            pub fn swap(&self, v: $val, o: Ordering) -> $val {
+                point();
+                self.0.swap(v, o)
+            }
+            pub fn compare_exchange(
+                &self,
+                current: $val,
+                new: $val,
+                success: Ordering,
+                failure: Ordering,
+            ) -> std::result::Result<$val, $val> {
+                point();
+                self.0.compare_exchange(current, new, success, failure)
+            }
+            pub fn compare_exchange_weak(
+                &self,
+                current: $val,
+                new: $val,
+                success: Ordering,
+                failure: Ordering,
+            ) -> std::result::Result<$val, $val> {
+                point();
+                self.0.compare_exchange_weak(current, new, success, failure)
+            }
+        }
+
+        impl std::ops::Deref for $name {
+            type Target = std::sync::atomic::$name;
+            fn deref(&self) -> &Self::Target {
+                point();
+                &self.0
+            }
+        }
+    };
+}
+
+atomic!(AtomicBool, bool);
+atomic!(AtomicU64, u64);
diff --git a/brec/src/storage/mod.rs b/brec/src/storage/mod.rs
index 87769a3..146f8e1 100644
--- a/brec/src/storage/mod.rs
+++ b/brec/src/storage/mod.rs
@@ -4,6 +4,9 @@ mod reader;
 mod slot;
 mod writer;
 
+#[cfg(brec_sim)]
+#[doc(hidden)]
+pub use observer::{Sensor, SensorError, Wake};
 pub use reader::*;
 pub use writer::*;
 
diff --git a/brec/src/storage/observer/mod.rs b/brec/src/storage/observer/mod.rs
index 1a52685..061d66f 100644
--- a/brec/src/storage/observer/mod.rs
+++ b/brec/src/storage/observer/mod.rs
@@ -1,7 +1,11 @@
 mod sensor;
 
-use crate::*;
+#[cfg(not(brec_sim))]
 use sensor::*;
+#[cfg(brec_sim)]
+pub use sensor::*;
+
+use crate::*;
 
 pub struct ObserverDef<
     S: std::io::Read + std::io::Seek,
diff --git a/brec/src/storage/observer/sensor/mod.rs b/brec/src/storage/observer/sensor/mod.rs
index 121a9bd..153a935 100644
--- a/brec/src/storage/observer/sensor/mod.rs
+++ b/brec/src/storage/observer/sensor/mod.rs
@@ -1,15 +1,21 @@
 mod error;
 
 use crossbeam::channel::{Receiver, Sender};
-use notify::{recommended_watcher, Event, RecursiveMode, Result as NotifyResult, Watcher};
+use notify::{Event, RecursiveMode, Result as NotifyResult};
 use std::{
     fs,
     path::{Path, PathBuf},
-    sync::{
-        atomic::{AtomicBool, AtomicU64, Ordering},
-        Arc,
-    },
+    sync::{atomic::Ordering, Arc},
 };
+#[cfg(not(brec_sim))]
+use {
+    notify::{recommended_watcher, RecommendedWatcher, Watcher},
+    std::sync::atomic::{AtomicBool, AtomicU64},
+};
+
+#[cfg(brec_sim)]
+use crate::sim::{recommended_watcher, AtomicBool, AtomicU64, RecommendedWatcher, Watcher};
+
 use tracing::error;
 
 pub use error::SensorError;
@@ -30,7 +36,7 @@ pub struct Sensor {
     locked: Arc<AtomicBool>,
     processed_len: Arc<AtomicU64>,
     tx: Sender<Wake>,
-    _watcher: notify::RecommendedWatcher,
+    _watcher: RecommendedWatcher,
 }
 
 impl Sensor {
-- 
2.43.0


From 8dfe20a1e62f2e6361289964885c3b2ca97a701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 19/33] fix: do not consume a part of a block from a buffered
 reader

---
 brec_macros/src/codegen/read/block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index a3de60f..1d853b8 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -193,6 +193,11 @@ impl TryReadBuffered for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
 
+                    let len = bytes.len() as u64;
+                    if len < #block_name::ssize() {
+                        return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
+                    }
+
                     reader.consume(#sig_len);
                     let blk = #block_name::read(reader, true);
                     Ok(brec::ReadStatus::Success(blk?))
-- 
2.43.0


From 5a966c8717b317ac4fd861086125bf111b9df576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:19 +0000
Subject: [PATCH 20/33] fix: do not reserve 4 GiB of memory for each stream
 reader

---
 brec/src/packet/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index bedc036..546c892 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -289,7 +289,7 @@ impl<
             inner: std::io::BufReader::new(inner),
             rules: RulesDef::default(),
             recent: HeaderReadState::Empty,
-            buffered: Vec::with_capacity(u32::MAX as usize),
+            buffered: Vec::new(),
         }
     }
 
-- 
2.43.0


From aaf6a2478a0d518594fe5e43cca9b03389e67b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:16 +0000
Subject: [PATCH 21/33] fix: do not allocate memory by the payload size of a
 header before its bytes arrive

---
 brec/src/traits/read/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index dd0f81d..dd94e94 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -72,8 +72,13 @@ pub trait ReadPayloadFrom<
         if header.sig != T::ssig() {
             return Err(Error::SignatureDismatch);
         }
-        let mut bytes = vec![0u8; header.payload_len()];
-        buf.read_exact(&mut bytes)?;
+        // The length comes from the source, memory is taken only for bytes that really arrive
+        let mut bytes = Vec::new();
+        let mut source = std::io::Read::take(buf, header.payload_len() as u64);
+        std::io::Read::read_to_end(&mut source, &mut bytes)?;
+        if bytes.len() < header.payload_len() {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let value = T::decode(&bytes)?;
         let crc = value.crc()?;
         if header.crc != crc {
-- 
2.43.0


From 0d3e545c513598421b2760eda74f5570e7809f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:16 +0000
Subject: [PATCH 22/33] fix: read a block from a slice without a signature

---
 brec_macros/src/codegen/read/block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 1d853b8..c5e30be 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -68,7 +68,15 @@ impl ReadFromSlice for Block {
                     } else {
                         <&[u8; #BLOCK_SIG_LEN]>::try_from(&#src[0usize..#BLOCK_SIG_LEN])?
                     };
+                    // Following fields are counted from the end of the signature
+                    let #src = if skip_sig {
+                        #src
+                    } else {
+                        &#src[#BLOCK_SIG_LEN..]
+                    };
                 });
+                fnames.push(name);
+                continue;
             } else if field.name == FIELD_CRC {
                 let name = format_ident!("{}", FIELD_CRC);
                 fields.push(quote! {
-- 
2.43.0


From b6337e418dfc1a7e560f17838cc1c505fb5f2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:41 +0000
Subject: [PATCH 23/33] fix: count the real size of a payload's CRC in the
 packet header

---
 brec/src/payload/header/mod.rs              | 2 +-
 brec/src/traits/props/mod.rs                | 6 ++++++
 brec_macros/src/collector/payloads/props.rs | 9 +++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/brec/src/payload/header/mod.rs b/brec/src/payload/header/mod.rs
index d9f37a5..9e48205 100644
--- a/brec/src/payload/header/mod.rs
+++ b/brec/src/payload/header/mod.rs
@@ -84,7 +84,7 @@ impl PayloadHeader {
     pub fn ssize<T: PayloadSignature + PayloadSize + PayloadCrc>(
         src: &T,
     ) -> std::io::Result<usize> {
-        Ok(1 + src.sig().size() + 1 + T::crc_size() + std::mem::size_of::<u32>())
+        Ok(1 + src.sig().size() + 1 + src.crc_len() + std::mem::size_of::<u32>())
     }
 
     /// Serializes the header into a binary vector.
diff --git a/brec/src/traits/props/mod.rs b/brec/src/traits/props/mod.rs
index 0aee2a4..3414c61 100644
--- a/brec/src/traits/props/mod.rs
+++ b/brec/src/traits/props/mod.rs
@@ -50,6 +50,12 @@ where
     fn crc_size() -> usize {
         4
     }
+    /// Returns the size of the CRC of this payload in bytes.
+    ///
+    /// A type that combines several payloads can have CRCs of different sizes.
+    fn crc_len(&self) -> usize {
+        Self::crc_size()
+    }
 }
 
 /// Trait for types that can return a payload signature dynamically.
diff --git a/brec_macros/src/collector/payloads/props.rs b/brec_macros/src/collector/payloads/props.rs
index 3ef9a83..9a38043 100644
--- a/brec_macros/src/collector/payloads/props.rs
+++ b/brec_macros/src/collector/payloads/props.rs
@@ -62,9 +62,11 @@ pub fn sig(payloads: &[&Payload]) -> Result<TokenStream, E> {
 
 pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
+    let mut lens = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.crc()});
+        lens.push(quote! {Payload::#fullname(pl) => pl.crc_len()});
     }
     Ok(quote! {
         impl brec::PayloadCrc for Payload {
@@ -75,6 +77,13 @@ pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
                     Payload::String(pl) => pl.crc(),
                 }
             }
+            fn crc_len(&self) -> usize {
+                match self {
+                    #(#lens,)*
+                    Payload::Bytes(pl) => pl.crc_len(),
+                    Payload::String(pl) => pl.crc_len(),
+                }
+            }
         }
     })
 }
-- 
2.43.0


From b36d88f9d2ce06091ed06ff6779eb2af0059dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:56 +0000
Subject: [PATCH 24/33] fix: keep the position of a source when a block is
 damaged

---
 brec_macros/src/codegen/read/block.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index c5e30be..c36d808 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -166,7 +166,13 @@ impl TryRead for Block {
                         buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
-                    Ok(brec::ReadStatus::Success(#block_name::read(buf, true)?))
+                    match #block_name::read(buf, true) {
+                        Ok(blk) => Ok(brec::ReadStatus::Success(blk)),
+                        Err(err) => {
+                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                            Err(err)
+                        }
+                    }
                 }
             }
         })
@@ -206,9 +212,9 @@ impl TryReadBuffered for Block {
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
 
-                    reader.consume(#sig_len);
-                    let blk = #block_name::read(reader, true);
-                    Ok(brec::ReadStatus::Success(blk?))
+                    let blk = #block_name::read(&mut &bytes[#sig_len..], true)?;
+                    reader.consume(#block_name::ssize() as usize);
+                    Ok(brec::ReadStatus::Success(blk))
                 }
             }
         })
-- 
2.43.0


From 836b4b6a872e39ceff0ee218f800d2c595af05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:09 +0000
Subject: [PATCH 25/33] fix: consume a buffered packet only when it's read

---
 brec/src/packet/read.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 0b19199..cd1b643 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -197,13 +197,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
         if needed > available {
             return Ok(ReadStatus::NotEnoughData(needed - available));
         }
-        reader.consume(PacketHeader::ssize() as usize);
+        // The whole packet is buffered, it's consumed only when it's read
+        let mut body = &bytes[PacketHeader::ssize() as usize..];
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
             let mut iterations = 0;
             loop {
-                match <B as TryReadFromBuffered>::try_read(reader)? {
+                match <B as TryReadFromBuffered>::try_read(&mut body)? {
                     ReadStatus::Success(blk) => {
                         read += blk.size();
                         pkg.blocks.push(blk);
@@ -222,12 +223,12 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFromBuffered>::try_read(reader)? {
+            match <PayloadHeader as TryReadFromBuffered>::try_read(&mut body)? {
                 ReadStatus::Success(payload_header) => {
                     header.check_payload(&payload_header)?;
-                    reader.consume(payload_header.size());
+                    std::io::BufRead::consume(&mut body, payload_header.size());
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
-                        reader,
+                        &mut body,
                         &payload_header,
                     )? {
                         ReadStatus::Success(payload) => {
@@ -243,6 +244,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                 }
             }
         }
+        let taken = bytes.len() - body.len();
+        reader.consume(taken);
         Ok(ReadStatus::Success(pkg))
     }
 }
-- 
2.43.0


From 794db91ab40e0fb27e4a590aea59fa6dd12eb275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:09 +0000
Subject: [PATCH 26/33] fix: keep the position of a source when a payload
 header is invalid

---
 brec/src/payload/header/read.rs    | 10 ++++++++--
 brec/src/payload/header/sreader.rs |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/brec/src/payload/header/read.rs b/brec/src/payload/header/read.rs
index 2414c15..f8c55c6 100644
--- a/brec/src/payload/header/read.rs
+++ b/brec/src/payload/header/read.rs
@@ -64,7 +64,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(sig_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(sig_len) {
+            reader.restore()?;
+            return Err(err);
+        }
         let sig = match reader.next_bytes(sig_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
@@ -75,7 +78,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(crc_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(crc_len) {
+            reader.restore()?;
+            return Err(err);
+        }
         let crc = match reader.next_bytes(crc_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index 3062391..f0dfd42 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -63,6 +63,13 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
         })
     }
 
+    /// Resets the stream to the position it had before reading.
+    pub fn restore(&mut self) -> Result<(), Error> {
+        self.buf.seek(std::io::SeekFrom::Start(self.spos))?;
+        self.read = 0;
+        Ok(())
+    }
+
     /// Attempts to read a single `u8` from the stream.
     ///
     /// If insufficient data is available, resets the stream and returns
-- 
2.43.0


From cd5b2ff59fc47cbd0aff66ecc7308a6e8b1e27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:40 +0000
Subject: [PATCH 27/33] fix: keep the position of a source when a packet header
 is invalid

---
 brec/src/packet/header/read.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 010c3e6..c85f8b0 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -107,7 +107,7 @@ impl TryReadFrom for PacketHeader {
     /// the number of missing bytes.
     ///
     /// # Errors
-    /// Propagates I/O and header validation errors.
+    /// Propagates I/O and header validation errors; the position of the stream is restored.
     fn try_read<T: std::io::Read + std::io::Seek>(buf: &mut T) -> Result<ReadStatus<Self>, Error>
     where
         Self: Sized,
@@ -122,7 +122,13 @@ impl TryReadFrom for PacketHeader {
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - len));
         }
 
-        Ok(ReadStatus::Success(PacketHeader::read(buf)?))
+        match PacketHeader::read(buf) {
+            Ok(header) => Ok(ReadStatus::Success(header)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
@@ -147,6 +153,8 @@ impl TryReadFromBuffered for PacketHeader {
             ));
         }
 
-        Ok(ReadStatus::Success(PacketHeader::read(reader)?))
+        let header = PacketHeader::read_from_slice(bytes, false)?;
+        reader.consume(PacketHeader::ssize() as usize);
+        Ok(ReadStatus::Success(header))
     }
 }
-- 
2.43.0


From d99c4a90849aa60d68ac5193a8d0eabffaf48c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:42 +0000
Subject: [PATCH 28/33] fix: reject a slot whose packets cannot be located

---
 brec/src/storage/slot/mod.rs  | 13 +++++++++++++
 brec/src/storage/slot/read.rs |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/brec/src/storage/slot/mod.rs b/brec/src/storage/slot/mod.rs
index 30f7390..7abf45b 100644
--- a/brec/src/storage/slot/mod.rs
+++ b/brec/src/storage/slot/mod.rs
@@ -68,6 +68,19 @@ impl Slot {
         self.lenghts[..free_pos].iter().sum()
     }
 
+    /// Checks that the packets of the slot can be located.
+    ///
+    /// # Returns
+    /// * `Err(Error::DamagedSlot)` - The total length of packets isn't a valid position in a source
+    pub(crate) fn check_width(&self) -> Result<(), Error> {
+        self.lenghts
+            .iter()
+            .try_fold(0u64, |width, ln| width.checked_add(*ln))
+            .filter(|width| *width <= i64::MAX as u64)
+            .map(|_| ())
+            .ok_or_else(|| Error::DamagedSlot(Box::new(Error::UnexpectedSliceLength)))
+    }
+
     /// Returns an iterator over active ranges in the slot.
     pub fn iter(&self) -> SlotIterator<'_> {
         SlotIterator::new(self)
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index c0baad4..b043de0 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -33,6 +33,7 @@ impl ReadFrom for Slot {
 
         let slot = Slot::new(lenghts, header.capacity, crc);
         if slot.crc == slot.crc() {
+            slot.check_width()?;
             Ok(slot)
         } else {
             Err(Error::CrcDismatch)
@@ -90,6 +91,7 @@ impl TryReadFrom for Slot {
 
         let slot = Slot::new(lenghts, header.capacity, crc);
         if slot.crc == slot.crc() {
+            slot.check_width()?;
             Ok(ReadStatus::Success(slot))
         } else {
             Err(Error::CrcDismatch)
-- 
2.43.0


From 1dd78654caf3cdf1e1d9026d9eb905c0d47ee830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:36 +0000
Subject: [PATCH 29/33] fix: do not overflow behind the last position of a
 range

---
 brec/src/storage/reader/iters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 84711bb..5bce524 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -375,7 +375,7 @@ impl<
             return None;
         }
         let item = self.storage.nth(self.from);
-        self.from += 1;
+        self.from = self.from.saturating_add(1);
         self.len -= 1;
         match item {
             Ok(None) => None,
@@ -445,7 +445,7 @@ impl<
                 return None;
             }
             let item = self.storage.nth_filtered(self.from);
-            self.from += 1;
+            self.from = self.from.saturating_add(1);
             match item {
                 Ok(None) => return None,
                 Ok(Some(LookInStatus::Accepted(_, packet))) => {
-- 
2.43.0


From 0e57003d55b969c73090ce5734b05cf8039dd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:28 +0000
Subject: [PATCH 30/33] fix: refuse to write a packet with more blocks than can
 be read

---
 brec/src/packet/header/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brec/src/packet/header/mod.rs b/brec/src/packet/header/mod.rs
index d1a1a77..75b31e8 100644
--- a/brec/src/packet/header/mod.rs
+++ b/brec/src/packet/header/mod.rs
@@ -63,11 +63,16 @@ impl PacketHeader {
     /// A new `PacketHeader` with computed `size`, `blocks_len`, `payload` flag, and CRC.
     ///
     /// # Errors
-    /// Returns an `std::io::Error` if computing the payload size fails.
+    /// Returns an `std::io::Error` if computing the payload size fails or if there are more than
+    /// `MAX_BLOCKS_COUNT` blocks.
     pub fn new<B: BlockDef, Inner: PayloadInnerDef>(
         blocks: &[B],
         payload: Option<&Inner>,
     ) -> std::io::Result<Self> {
+        if blocks.len() > MAX_BLOCKS_COUNT as usize {
+            // Such packet cannot be read
+            return Err(Error::MaxBlocksCount.into());
+        }
         let blocks_len: u64 = blocks.iter().map(|blk| blk.size()).sum();
         let payload_len: u64 = payload
             .as_ref()
-- 
2.43.0


From 6b3ff239bfdb3c2d3f639f7634c2443013744172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:28 +0000
Subject: [PATCH 31/33] fix: do not read more blocks than a packet may have

---
 brec/src/packet/mod.rs  | 3 +++
 brec/src/packet/read.rs | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index e25f0e9..39ba811 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -130,6 +130,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let blocks_len = header.blocks_len as usize;
         if blocks_len > 0 {
             loop {
+                if blocks.len() == MAX_BLOCKS_COUNT as usize {
+                    return Err(Error::MaxBlocksCount);
+                }
                 let blk =
                     <BR as ReadBlockFromSlice>::read_from_slice(&packet_buffer[read..], false)?;
                 read += blk.size() as usize;
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index cd1b643..1aa36a9 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -42,7 +42,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
@@ -122,7 +122,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::MaxBlocksCount);
                 }
@@ -217,7 +217,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
-- 
2.43.0


From e355c99df2a55b5c784e8e6610a2130da94483c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:17 +0000
Subject: [PATCH 32/33] fix: a packet that is buffered completely does not wait
 for further data

---
 brec/src/packet/reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 546c892..cbc11c9 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -167,6 +167,11 @@ impl<
         &mut self,
         header: PacketHeader,
     ) -> Result<ResolveHeaderReady<B, P, Inner>, Error> {
+        if header.size as usize == self.buffered.len() {
+            // Packet is here already (for example it has neither blocks nor payload); asking for
+            // more data would hold it back until something comes after it
+            return Ok(ResolveHeaderReady::Resolved(header));
+        }
         let buffer = match self.inner.fill_buf() {
             Ok(buffer) => buffer,
             Err(err) => {
-- 
2.43.0


From dd452f14e558ae239b4f61ec5cccacfa11764e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 33/33] fix: a reader reloads the slot of the last packet,
 which a failed insert might have left behind

---
 brec/src/storage/reader/mod.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 2741f66..1883590 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -92,15 +92,18 @@ impl<
     /// * `Err(Error)` - Failure while reading slots; already loaded slots stay as they are.
     pub fn reload(&mut self) -> Result<usize, Error> {
         let before = self.count();
-        // Only the last slot can be changed and only if it isn't full
-        let (keep, mut source_pos) = match self.slots.last() {
-            Some(last) if last.inner.is_full() => (
-                self.slots.len(),
-                last.offset + last.inner.width() + last.inner.size(),
-            ),
-            Some(last) => (self.slots.len() - 1, last.offset),
-            None => (0, 0),
-        };
+        // Only the last packet might be replaced (if its insertion has failed after the slot had been
+        // written). It's enough to read again all from the slot, which holds this packet.
+        let keep = self
+            .slots
+            .iter()
+            .rposition(|anchored| anchored.inner.get_free_slot_index() != Some(0))
+            .unwrap_or(0);
+        let mut source_pos = self
+            .slots
+            .get(keep)
+            .map(|anchored| anchored.offset)
+            .unwrap_or(0);
         let mut fresh = Vec::new();
         loop {
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
-- 
2.43.0

