From a19c82c0d0017ae717acb4ad7230479a876db9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:14 +0000
Subject: [PATCH 01/14] fix: lzw expand panicked when the first code of a chunk
 was not a literal

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 05168c8..b87b378 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -549,7 +549,6 @@ where R: Read + Seek, W: Write + Seek {
             };
             match lzw.dictionary.contains_key(&Link::root(code).hash()) {
                 false => {
-                    prev_str.push(prev_str[0]);
                     if next_code.is_none() {
                         log::error!("new code was needed but none were available");
                         return Err(Box::new(crate::Error::FileFormatMismatch));
@@ -558,6 +557,7 @@ where R: Read + Seek, W: Write + Seek {
                         log::error!("Bad LZW code, expected {}, got {}",next_code.unwrap(),code);
                         return Err(Box::new(crate::Error::FileFormatMismatch));
                     }
+                    prev_str.push(prev_str[0]);
                 },
                 true => {
                     prev_str = lzw.get_string(code);
-- 
2.43.0


From 1826706c07db9910a7dc448508d718622c48ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 02/14] fix: compressing empty input underflowed in lzss_huff
 and lzhuf

---
 src/direct_ports/lzhuf.rs | 7 ++-----
 src/lzss_huff.rs          | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 1c8139f..7a53271 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -635,8 +635,8 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         lzss.insert_node(r-i);
     }
     lzss.insert_node(r);
-    // start compressing
-    loop {
+    // start compressing (nothing to encode if the input is empty)
+    while len > 0 {
         if lzss.match_length > len {
             lzss.match_length = len;
         }
@@ -677,9 +677,6 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
             }
             i += 1;
         }
-        if len <= 0 {
-            break;
-        }
     }
     writer.seek(SeekFrom::End(0))?; // coder could be rewound
     writer.flush()?;
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 27a8bc7..8a38214 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -271,8 +271,8 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     lzss.insert_node()?;
-    // main compression loop
-    loop {
+    // main compression loop (nothing to encode if the input is empty)
+    while len > 0 {
         if lzss.match_length > len {
             lzss.match_length = len;
         }
@@ -306,9 +306,6 @@ where R: Read + Seek, W: Write + Seek {
             }
             i += 1;
         }
-        if len <= 0 {
-            break;
-        }
     }
     writer.seek(SeekFrom::End(0))?; // coder could be rewound
     writer.flush()?;
-- 
2.43.0


From 9d391ff1031d472ee3e8142954785a5e119926b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 03/14] fix: lzss_huff compress rejected a file exactly as
 large as max_file_size

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 8a38214..4f4c7e8 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -230,7 +230,7 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length >= opt.max_file_size {
+    if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From 6e5b73f2ff15b9e7b458ce9cebec8071aa1e8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 04/14] fix: lzss_huff expand counted out_offset as expanded
 data

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 4f4c7e8..fe84d02 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -344,7 +344,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? < max_expanded_size as u64 {
+	while writer.stream_position()? - opt.out_offset < max_expanded_size as u64 {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0


From 98d7a3e9f51436a94ecad7d468b3a365e7de82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 05/14] fix: lzhuf decode left the header out of the compressed
 size

---
 src/direct_ports/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 7a53271..a834cb5 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -723,7 +723,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 		}
 	}
     writer.flush()?;
-    Ok((huff.count as u64,writer.stream_position()?))
+    Ok((header.len() as u64 + huff.count as u64,writer.stream_position()?))
 }
 
 /// Convenience function, calls `decode` with a slice returning a Vec
-- 
2.43.0


From ed76842a1c9a9cc7e616bf6c280ed063b6c8cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 06/14] fix: short writes to the output stream were ignored

---
 src/direct_ports/lzhuf.rs  | 8 ++++----
 src/lzss_huff.rs           | 6 +++---
 src/lzw.rs                 | 4 ++--
 src/tools/adaptive_huff.rs | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index a834cb5..cf2a0c7 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -528,7 +528,7 @@ impl AdaptiveHuffman {
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice()).expect("write err");
         if self.bits.len() % 8 > 0 {
             writer.seek(SeekFrom::Current(-1)).expect("seek err");
             self.ptr = 8 * (self.bits.len() / 8);
@@ -602,7 +602,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     let header = u32::to_le_bytes(expanded_length as u32);
-    writer.write(&header)?;
+    writer.write_all(&header)?;
     reader.seek(SeekFrom::Start(0))?;
     // init
     let mut bytes = reader.bytes();
@@ -706,7 +706,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 	while writer.stream_position()? < textsize as u64 {
 		let c = huff.decode_char(&mut bytes);
 		if c < 256 {
-            writer.write(&[c as u8])?;
+            writer.write_all(&[c as u8])?;
 			lzss.dictionary[r] = c as u8;
             r += 1;
 			r &= WIN_SIZE - 1;
@@ -715,7 +715,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 			let strlen = c as usize + THRESHOLD - 255;
 			for k in 0..strlen {
 				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
-                writer.write(&[c8])?;
+                writer.write_all(&[c8])?;
 				lzss.dictionary[r] = c8;
                 r += 1;
 				r &= WIN_SIZE - 1;
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index fe84d02..5aa16c4 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -238,7 +238,7 @@ where R: Read + Seek, W: Write + Seek {
     // write the 32-bit header with length of expanded data
     if opt.header {
         let header = u32::to_le_bytes(expanded_length as u32);
-        writer.write(&header)?;
+        writer.write_all(&header)?;
     }
     // init
     let mut bytes = reader.bytes();
@@ -351,7 +351,7 @@ where R: Read + Seek, W: Write + Seek {
             Err(e) => return Err(Box::new(e))
         };
 		if c < 256 {
-            writer.write(&[c as u8])?;
+            writer.write_all(&[c as u8])?;
 			lzss.dictionary.set(0,c as u8);
             lzss.dictionary.advance();
 		} else {
@@ -363,7 +363,7 @@ where R: Read + Seek, W: Write + Seek {
 			let strlen = c as i64 + opt.threshold as i64 - 255;
 			for _k in 0..strlen {
 				let c8 = lzss.dictionary.get(offset);
-                writer.write(&[c8])?;
+                writer.write_all(&[c8])?;
                 lzss.dictionary.set(0,c8 as u8);
                 lzss.dictionary.advance();
             }
diff --git a/src/lzw.rs b/src/lzw.rs
index b87b378..102114d 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -149,7 +149,7 @@ impl LZWCoder {
                 bits_to_bytes_lsb0(&self.bits)
             }
         };
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice()).expect("write err");
         if self.bits.len() % 8 > 0 {
             writer.seek(SeekFrom::Current(-1)).expect("seek err");
             self.ptr = 8 * (self.bits.len() / 8);
@@ -567,7 +567,7 @@ where R: Read + Seek, W: Write + Seek {
                 lzw.dictionary.insert(Link::root(next_code).hash(),Link::create(prev_code,prev_str[0] as usize));
                 log::trace!("add {} linking to {}.{}",next_code,prev_code,prev_str[0]);
             }
-            writer.write(&prev_str)?;
+            writer.write_all(&prev_str)?;
             log::trace!("  write {} as {:?}",code,prev_str);
             prev_code = Some(code);
         }
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 2c73207..fd72b8c 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -317,7 +317,7 @@ impl AdaptiveHuffmanCoder {
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice()).expect("write err");
         if self.bits.len() % 8 > 0 {
             writer.seek(SeekFrom::Current(-1)).expect("seek err");
             self.ptr = 8 * (self.bits.len() / 8);
-- 
2.43.0


From f372aaec985982cabe22d5a0f740ac688dd5a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:12 +0000
Subject: [PATCH 07/14] fix: write errors while emitting codes panicked instead
 of being returned

---
 src/direct_ports/lzhuf.rs  | 24 +++++++++++++-----------
 src/lzss_huff.rs           |  6 +++---
 src/lzw.rs                 | 21 +++++++++++----------
 src/tools/adaptive_huff.rs | 18 ++++++++++--------
 4 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index cf2a0c7..7dc6b01 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -521,24 +521,25 @@ impl AdaptiveHuffman {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write_all(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut i: u16 = 0;
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
@@ -555,15 +556,16 @@ impl AdaptiveHuffman {
                 break;
             }
         }
-        self.put_code(j,i,writer);
+        self.put_code(j,i,writer)?;
         self.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c & 0x3f) << 10,writer)
     }
     fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
         let mut c: usize = self.son[ROOT];
@@ -642,10 +644,10 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         }
         if lzss.match_length <= THRESHOLD {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary[r] as u16,&mut writer);
+            huff.encode_char(lzss.dictionary[r] as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_position as u16,&mut writer);
+            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_position as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 5aa16c4..66b2a58 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -278,10 +278,10 @@ where R: Read + Seek, W: Write + Seek {
         }
         if lzss.match_length <= opt.threshold {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer);
+            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_offset as u16,&mut writer);
+            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
diff --git a/src/lzw.rs b/src/lzw.rs
index 102114d..260d470 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -128,7 +128,7 @@ impl LZWCoder {
     /// output `num_bits` of `code` in given bit-order, the bits are always
     /// written to the output stream (sometimes backing up and rewriting) such that
     /// the start of the bit vector stays aligned.
-    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) {
+    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let bytes = match self.ord {
             BitOrder::Msb0 => {
                 code <<= usize::BITS as usize - num_bits;
@@ -149,9 +149,9 @@ impl LZWCoder {
                 bits_to_bytes_lsb0(&self.bits)
             }
         };
-        writer.write_all(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
@@ -159,6 +159,7 @@ impl LZWCoder {
             self.ptr = 0;
         }
         self.count += 1;
+        Ok(())
     }
 }
 
@@ -404,7 +405,7 @@ where R: Read + Seek, W: Write + Seek {
         writer.seek(SeekFrom::Start(write_offset_header))?;
         //placeholder for header 
         if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer);
+            coder.put_code(opt.header_bits,0,&mut writer)?;
         }
         coder.count = 0;
         //let mut lookahead = 0;
@@ -433,14 +434,14 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer);
+                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer);
+                            coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::End(0))?; // coder could be rewound
@@ -453,19 +454,19 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer);
+            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
             if coder.count >= opt.chunk_size {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer);
+                    coder.put_code(opt.max_code_width,code,&mut writer)?;
                 }
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index fd72b8c..7dbc536 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,24 +310,25 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write_all(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut code: u16 = 0;
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
@@ -343,15 +344,16 @@ impl AdaptiveHuffmanCoder {
                 break;
             }
         }
-        self.put_code(num_bits,code,writer);
+        self.put_code(num_bits,code,writer)?;
         self.tree.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c & 0x3f) << 10,writer)
     }
 }
 
-- 
2.43.0


From 10132c72ead1f5aa3a85364d1d1e5fc5a6a393d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 08/14] fix: lzhuf decode panicked on a read error instead of
 returning it

---
 src/direct_ports/lzhuf.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 7dc6b01..12f209a 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -486,11 +486,11 @@ impl AdaptiveHuffman {
     /// Get the next bit reading from the `bytes` iterator as needed.
     /// When EOF is reached 0 is returned, consistent with original C code.
     /// Byte iterator should not be advanced outside this function.
-    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         match self.bits.get(self.ptr) {
             Some(bit) => {
                 self.ptr += 1;
-                bit as u8
+                Ok(bit as u8)
             },
             None => {
                 match bytes.next() {
@@ -502,22 +502,20 @@ impl AdaptiveHuffman {
                         self.count += 1;
                         self.get_bit(bytes)
                     }
-                    Some(Err(e)) => {
-                        panic!("error reading file {}",e)
-                    },
-                    None => 0
+                    Some(Err(e)) => Err(e),
+                    None => Ok(0)
                 }
             }
         }
     }
     /// get the next 8 bits into a u8, used exlusively to decode the position
-    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         let mut ans: u8 = 0;
         for _i in 0..8 {
             ans <<= 1;
-            ans |= self.get_bit(bytes);
+            ans |= self.get_bit(bytes)?;
         }
-        ans
+        Ok(ans)
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
@@ -567,30 +565,30 @@ impl AdaptiveHuffman {
         // lower 6 bits verbatim
         self.put_code(6,(c & 0x3f) << 10,writer)
     }
-    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
+    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<i16,std::io::Error> {
         let mut c: usize = self.son[ROOT];
         // travel from root to leaf, choosing the smaller child node (son[])
         // if the read bit is 0, the bigger (son[]+1) if read bit is 1
         while c < TAB_SIZE {
-            c += self.get_bit(bytes) as usize;
+            c += self.get_bit(bytes)? as usize;
             c = self.son[c];
         }
         c -= TAB_SIZE;
         self.update(c as i16); // TODO: why is input to update signed
-        c as i16
+        Ok(c as i16)
     }
-    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u16 {
+    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u16,std::io::Error> {
         // get upper 6 bits from table
-        let mut first8 = self.get_byte(bytes) as u16;
+        let mut first8 = self.get_byte(bytes)? as u16;
         let upper6 = (D_CODE[first8 as usize] as u16) << 6;
         let coded_bits = D_LEN[first8 as usize] as u16;
         // read lower 6 bits verbatim
         // we already got 8 bits, we need another 6 - (8-coded_bits) = coded_bits - 2
         for _i in 0..coded_bits-2 {
             first8 <<= 1;
-            first8 += self.get_bit(bytes) as u16;
+            first8 += self.get_bit(bytes)? as u16;
         }
-        upper6 | (first8 & 0x3f)
+        Ok(upper6 | (first8 & 0x3f))
     }
 }
 
@@ -706,14 +704,14 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
 	while writer.stream_position()? < textsize as u64 {
-		let c = huff.decode_char(&mut bytes);
+		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write_all(&[c as u8])?;
 			lzss.dictionary[r] = c as u8;
             r += 1;
 			r &= WIN_SIZE - 1;
 		} else {
-			let strpos = ((r as i32 - huff.decode_position(&mut bytes) as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
+			let strpos = ((r as i32 - huff.decode_position(&mut bytes)? as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
 			let strlen = c as usize + THRESHOLD - 255;
 			for k in 0..strlen {
 				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
-- 
2.43.0


From a05f612184f42c355979623e4fc2b9ef43767be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 09/14] fix: compress reported the old length of a longer
 destination as its own output size

---
 src/direct_ports/lzhuf.rs  | 2 +-
 src/lzss_huff.rs           | 2 +-
 src/lzw.rs                 | 4 +++-
 src/tools/adaptive_huff.rs | 4 ++++
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 12f209a..729043e 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -678,7 +678,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
             i += 1;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    writer.seek(SeekFrom::Current(!huff.bits.is_empty() as i64))?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()?))
 }
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 66b2a58..82f5291 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -307,7 +307,7 @@ where R: Read + Seek, W: Write + Seek {
             i += 1;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    writer.seek(SeekFrom::Current(huff.pending_bytes()))?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()? - opt.out_offset))
 }
diff --git a/src/lzw.rs b/src/lzw.rs
index 260d470..d8a3123 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -439,12 +439,14 @@ where R: Read + Seek, W: Write + Seek {
                         if let Some(code) = opt.stop_code {
                             coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
+                        // coder could be rewound, in which case the last byte is ahead of us
+                        let end_offset = writer.stream_position()? + !coder.bits.is_empty() as u64;
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
                             old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
-                        writer.seek(SeekFrom::End(0))?; // coder could be rewound
+                        writer.seek(SeekFrom::Start(end_offset))?;
                         writer.flush()?;
                         return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
                     },
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 7dbc536..ef7e0c9 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -328,6 +328,10 @@ impl AdaptiveHuffmanCoder {
         }
         Ok(())
     }
+    /// number of bytes by which the output stream is currently rewound
+    pub fn pending_bytes(&self) -> i64 {
+        !self.bits.is_empty() as i64
+    }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut code: u16 = 0;
         let mut num_bits: u16 = 0;
-- 
2.43.0


From 13da29bf3893bf7ac6cc4db54719474af9c210cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 10/14] fix: an existing but unreadable output file was
 overwritten without asking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f44b9d7..b790d1a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,7 +5,7 @@ type STDRESULT = Result<(),Box<dyn std::error::Error>>;
 const RCH: &str = "unreachable was reached";
 
 fn ok_to_overwrite(path_out: &str) -> bool {
-    if let Ok(_f) = std::fs::File::open(path_out) {
+    if std::path::Path::new(path_out).exists() {
         let mut ans = String::new();
         eprint!("{} exists, overwrite? (y/n) ",path_out);
         std::io::stdin().read_line(&mut ans).expect("could not read stdin");
-- 
2.43.0


From 6d9db9af1170c98d1f5e849bada49c170ac09f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 11/14] fix: expand opened the output file before rejecting an
 unknown method

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b790d1a..6f44176 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -41,7 +41,8 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
         .about("compress a file"));
 
         main_cmd = main_cmd.subcommand(Command::new("expand")
-        .arg(arg!(-m --method <METHOD> "compression algorithm").required(true))
+        .arg(arg!(-m --method <METHOD> "compression algorithm").value_parser(methods)
+            .required(true))
         .arg(arg!(-i --input <PATH> "input path").required(true))
         .arg(arg!(-o --output <PATH> "output path").required(true))
         .about("expand a file"));
-- 
2.43.0


From 724a0d9f6bb51360bdebf9cbe4f249535f8cd56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 12/14] fix: lzw chunk headers no longer overwrite codes they
 share a byte with

With a chunk header that ends within a byte (for example 16 bit headers and an
odd number of 12 bit codes per chunk) writing the final header put zeros over
the first bits of the chunk's codes, so that the data could not be expanded.
---
 src/lzw.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index d8a3123..a5e5f3a 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -161,6 +161,18 @@ impl LZWCoder {
         self.count += 1;
         Ok(())
     }
+    /// output the header of a chunk in front of its `codes`, which have been written already,
+    /// those that share a byte with the header or with each other have to be written again
+    fn put_header<W: Write + Seek>(&mut self,opt: &Options,header: usize,codes: &[usize],writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        self.put_code(opt.header_bits,header,writer)?;
+        for code in codes {
+            if self.bits.is_empty() {
+                break;
+            }
+            self.put_code(opt.max_code_width,*code,writer)?;
+        }
+        Ok(())
+    }
 }
 
 impl LZWDecoder {
@@ -408,6 +420,7 @@ where R: Read + Seek, W: Write + Seek {
             coder.put_code(opt.header_bits,0,&mut writer)?;
         }
         coder.count = 0;
+        let mut codes: Vec<usize> = Vec::new();
         //let mut lookahead = 0;
         log::debug!("entering loop over matches");
         loop {
@@ -435,15 +448,17 @@ where R: Read + Seek, W: Write + Seek {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
                             coder.put_code(opt.max_code_width,val.code,&mut writer)?;
+                            codes.push(val.code);
                         }
                         if let Some(code) = opt.stop_code {
                             coder.put_code(opt.max_code_width,code,&mut writer)?;
+                            codes.push(code);
                         }
                         // coder could be rewound, in which case the last byte is ahead of us
                         let end_offset = writer.stream_position()? + !coder.bits.is_empty() as u64;
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                            old_coder_state.put_header(opt,coder.count*opt.max_code_width/opt.header_divisor,&codes,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::Start(end_offset))?;
@@ -457,6 +472,7 @@ where R: Read + Seek, W: Write + Seek {
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
             coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
+            codes.push(curr.code);
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
@@ -464,11 +480,12 @@ where R: Read + Seek, W: Write + Seek {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
                     coder.put_code(opt.max_code_width,code,&mut writer)?;
+                    codes.push(code);
                 }
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                    old_coder_state.put_header(opt,coder.count*opt.max_code_width/opt.header_divisor,&codes,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
-- 
2.43.0


From 064aceff11bfea61eab354cb91262ba77c8f2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 13/14] fix: write all bits of symbol codes longer than 16 bits

A symbol that is rare against skewed frequencies can have a code of 17 or 18
bits. The code was gathered in 16 bits, so its last bits were written as zeros
and the stream expanded to other data.
---
 src/direct_ports/lzhuf.rs  | 11 +++++++++--
 src/tools/adaptive_huff.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 729043e..14f7bd2 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -538,7 +538,7 @@ impl AdaptiveHuffman {
         Ok(())
     }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
-        let mut i: u16 = 0;
+        let mut i: u32 = 0;
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
         // travel from leaf to root
@@ -546,7 +546,7 @@ impl AdaptiveHuffman {
             i >>= 1;
             // if node's address is odd-numbered, choose bigger brother node
             if k & 1 > 0 {
-                i += 0x8000;
+                i += 0x8000_0000;
             }
             j += 1;
             k = self.prnt[k];
@@ -554,6 +554,13 @@ impl AdaptiveHuffman {
                 break;
             }
         }
+        // a rare symbol can have more bits than `put_code` takes at a time
+        if j > 16 {
+            self.put_code(16,(i >> 16) as u16,writer)?;
+            i <<= 16;
+            j -= 16;
+        }
+        let i = (i >> 16) as u16;
         self.put_code(j,i,writer)?;
         self.update(c as i16); // TODO: why is input to update signed
         Ok(())
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index ef7e0c9..a7fa563 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -333,7 +333,7 @@ impl AdaptiveHuffmanCoder {
         !self.bits.is_empty() as i64
     }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
-        let mut code: u16 = 0;
+        let mut code: u32 = 0;
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
         // This is the Huffman scheme: going from leaf to root, add a 0 bit if we
@@ -341,13 +341,20 @@ impl AdaptiveHuffmanCoder {
         loop {
             code >>= 1;
             // if node's address is odd-numbered, we are coming from the right
-            code += (curr_node as u16 & 1) << 15;
+            code += (curr_node as u32 & 1) << 31;
             num_bits += 1;
             curr_node = self.tree.parent[curr_node];
             if curr_node==self.tree.root {
                 break;
             }
         }
+        // a rare symbol can have more bits than `put_code` takes at a time
+        if num_bits > 16 {
+            self.put_code(16,(code >> 16) as u16,writer)?;
+            code <<= 16;
+            num_bits -= 16;
+        }
+        let code = (code >> 16) as u16;
         self.put_code(num_bits,code,writer)?;
         self.tree.update(c as i16); // TODO: why is input to update signed
         Ok(())
-- 
2.43.0


From aba387129c217e927ca2c597fc8aa054eaea7afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:28 +0000
Subject: [PATCH 14/14] fix: converting a file onto itself read back what had
 just been written

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6f44176..ff07be8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -57,7 +57,8 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
             eprintln!("abort operation");
             return Ok(());
         }
-        let mut in_file = std::fs::File::open(path_in)?;
+        // read it all before anything is written, the output may go to the same file
+        let mut in_file = std::io::Cursor::new(std::fs::read(path_in)?);
         let mut out_file = std::fs::OpenOptions::new().write(true).truncate(false).create(true).open(path_out)?;
         let (in_size,out_size) = match method.as_str() {
             "lzw" => lzw::compress(&mut in_file,&mut out_file,&lzw::STD_OPTIONS)?,
@@ -81,7 +82,8 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
             eprintln!("abort operation");
             return Ok(());
         }
-        let mut in_file = std::fs::File::open(path_in)?;
+        // read it all before anything is written, the output may go to the same file
+        let mut in_file = std::io::Cursor::new(std::fs::read(path_in)?);
         let mut out_file = std::fs::OpenOptions::new().write(true).truncate(false).create(true).open(path_out)?;
         let (in_size,out_size) = match method.as_str() {
             "lzw" => lzw::expand(&mut in_file,&mut out_file,&lzw::STD_OPTIONS)?,
-- 
2.43.0

