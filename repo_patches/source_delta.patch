From d0d86f2443a239aa7572ca0098293c3a89f9d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 01/24] fix: overwrite stale bits when a bitstream write spills
 into the next chunk

---
 src/collections/bitstream.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index f07f9d8..c35c4ef 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -129,10 +129,8 @@ impl BitStream {
 
         let remaining_bits = CHUNK_SIZE_IN_BITS - chunk_bit_idx;
         if remaining_bits < bits_to_be_written {
-            //clear
-            self.binary[nxt_chunk_idx] &= (1 << (bits_to_be_written - remaining_bits)) - 1;
-            //write
-            self.binary[nxt_chunk_idx] |= bits >> remaining_bits;
+            //whatever the next chunk still holds is stale, so overwrite all of it
+            self.binary[nxt_chunk_idx] = bits >> remaining_bits;
         }
 
         self.offset_bit_cursor(bits_to_be_written as i128);
-- 
2.43.0


From ea89ca6f56ba1616fe443ad5237e250354984a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 02/24] fix: code residuals outside the i16 range without
 losing samples

---
 src/codec/adhoc/frame.rs     | 24 +++++++++---------------
 src/collections/bitstream.rs | 22 ++++++++++++++--------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1eb2011..cf62e65 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -240,9 +240,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps, so that the decoder can always recover 'current' exactly
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -277,9 +276,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps, so that the decoder can always recover 'current' exactly
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -326,10 +324,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the wrapping subtraction of the encoder
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -353,10 +349,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the wrapping subtraction of the encoder
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -386,7 +380,7 @@ impl FrameCodec {
             ];
             parabola.compute_coefs();
             let predicted = truncate_sample(parabola.eval(3.0));
-            let entropy = (current as i32 - predicted as i32).abs() as u32;
+            let entropy = current.wrapping_sub(predicted).unsigned_abs() as u32;
             for k in 1..16 {
                 let quotient_bits = (entropy >> k) + 1;
                 let remainder_bits = k as u32;
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index c35c4ef..65c3c13 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -280,8 +280,10 @@ impl BitStream {
 
     pub fn write_compressed(&mut self, exponent: i16, entropy: i16) {
         let sign_bit = (entropy >> 15) & 1;
-        let mut quotient = entropy.abs() >> exponent;
-        let remainder = entropy.abs() & ((1 << exponent) - 1);
+        //the magnitude of i16::MIN only fits in an unsigned integer
+        let magnitude = entropy.unsigned_abs();
+        let mut quotient = magnitude >> exponent;
+        let remainder = magnitude & ((1 << exponent) - 1);
         let remainder_size_in_bits = exponent as usize;
 
         //write sign bit
@@ -317,9 +319,8 @@ impl BitStream {
 
     pub fn read_compressed(&mut self, exponent: i16) -> i16 {
         //write sign bit
-        let sign_bit = self.read_bit() as i16;
+        let sign_bit = self.read_bit() as i32;
         let remainder_size_in_bits = exponent as u32;
-        let divisor = 1 << exponent;
 
         //read zero(expected)
         let mut quotient = 0;
@@ -343,12 +344,17 @@ impl BitStream {
             bit_chunk >>= 1;
         }
         self.offset_bit_cursor(zero_bit_pos + 1);
-        quotient += zero_bit_pos.max(0) as i16;
+        quotient += zero_bit_pos.max(0) as i32;
 
         // read
-        let remainder = self.read_bits(remainder_size_in_bits as usize) as i16;
-        let unsigned_val = divisor * quotient + remainder;
-        unsigned_val * (-sign_bit) + unsigned_val * (1 - sign_bit)
+        let remainder = self.read_bits(remainder_size_in_bits as usize) as i32;
+        let unsigned_val = (quotient << exponent) | remainder;
+        let signed_val = if sign_bit == 1 {
+            unsigned_val.wrapping_neg()
+        } else {
+            unsigned_val
+        };
+        signed_val as i16
     }
 
     fn chunk_index(&self) -> usize {
-- 
2.43.0


From cfdbb659d44b4247b60cf583c391614e29722b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 03/24] fix: split input that is too long for one frame header,
 write no empty frames

---
 src/codec/adhoc.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4806b20..da90a0a 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -214,6 +214,21 @@ impl AdhocCodec {
     }
 
     fn encode(&mut self, interleaved_pcm: &[f32]) {
+        let num_channels = self.stream.info().expect("info not set").channels as usize;
+        let valid_len = (interleaved_pcm.len() / num_channels) * num_channels;
+
+        //a frame header stores its sample count in 16 bits, so longer input spans many frames
+        let max_block_len = u16::MAX as usize * num_channels;
+        let mut remaining = &interleaved_pcm[..valid_len];
+        while remaining.is_empty() == false {
+            let (block, rest) = remaining.split_at(remaining.len().min(max_block_len));
+            self.encode_block(block);
+            remaining = rest;
+        }
+    }
+
+    /// encodes one frame per channel
+    fn encode_block(&mut self, interleaved_pcm: &[f32]) {
         let num_channels = self.stream.info().expect("info not set").channels as usize;
         let num_chunks = interleaved_pcm.len() / num_channels;
         let inv_scale = self.inv_scale;
-- 
2.43.0


From f45c2dfcbe5717f09461f1beb51029f251ab8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 04/24] fix: encode a first frame of less than three samples
 instead of panicking

---
 src/codec/adhoc.rs       | 11 +++++++----
 src/codec/adhoc/frame.rs | 19 ++++++++++++-------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index da90a0a..826ff9d 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -411,10 +411,13 @@ impl Streamable for AdhocCodec {
 
                     //make sure stack history from the header is transferred to state
                     // 0..3 because sample history is supposed to have 3 samples
-                    for k in 0..3 {
-                        channel_state_list[offset]
-                            .sample_history_mut()
-                            .push(header.stack_history[k]);
+                    // (an 'init' frame starts without any history)
+                    if header.is_init == false {
+                        for k in 0..3 {
+                            channel_state_list[offset]
+                                .sample_history_mut()
+                                .push(header.stack_history[k]);
+                        }
                     }
 
                     //make sure buffers are clear
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index cf62e65..f515cc5 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -186,6 +186,7 @@ impl FrameCodec {
 
     pub fn init(&mut self) {
         self.state = CodecState::Init;
+        self.sample_history = CircularStack::new();
         self.buffered_channel.clear();
     }
 
@@ -205,16 +206,20 @@ impl FrameCodec {
                 // save bit cursor before modifying stream
                 let bit_cursor = stream.bit_cursor();
 
-                // write first three samples into the stream
-                // and also record then in the history queue
-                for k in 0..3 {
+                // write first three samples (or less, if there aren't that many)
+                // into the stream and also record then in the history queue
+                let num_samples_pre_written = pcm.len().min(3);
+                for k in 0..num_samples_pre_written {
                     let samp = pcm[k];
                     let truncated = truncate_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
 
-                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[3..]);
+                let divisor_exp = Self::compute_optimal_divisor_exponent(
+                    sample_history,
+                    &pcm[num_samples_pre_written..],
+                );
 
                 frame_headers.push(FrameHeader {
                     exponent: divisor_exp as u8,
@@ -229,7 +234,7 @@ impl FrameCodec {
                 });
 
                 //entropy encode
-                for &sample in pcm[3..].iter() {
+                for &sample in pcm[num_samples_pre_written..].iter() {
                     let current = truncate_sample(sample);
 
                     parabola.f = [
@@ -301,7 +306,7 @@ impl FrameCodec {
         frame_info.next().map(|FrameHeader { exponent, size, .. }| {
             match self.state {
                 CodecState::Init => {
-                    let num_samples_pre_read = 3;
+                    let num_samples_pre_read = size.min(3);
                     //write starting samples into the stream
                     for _ in 0..num_samples_pre_read {
                         let samp = stream.read::<u16>() as i16;
@@ -314,7 +319,7 @@ impl FrameCodec {
                     }
                     let mut samples_read = num_samples_pre_read as usize;
                     //entropy decode
-                    for _ in 3..size {
+                    for _ in num_samples_pre_read..size {
                         let entropy = stream.read_compressed(exponent as i16);
                         parabola.f = [
                             normalize_sample(sample_history.prev(3)),
-- 
2.43.0


From e9f14a37d696da8f93a326dae5655902beee8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 05/24] fix: AdhocCodec::encode reports only the samples it
 encoded

---
 src/codec/adhoc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 826ff9d..e892bca 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -336,7 +336,8 @@ impl Streamable for AdhocCodec {
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
         self.encode(samples);
 
-        Some(samples.len())
+        //a trailing partial set of channels isn't encoded
+        Some(samples.len() - samples.len() % self.info().channels())
     }
 
     fn decode(&mut self, samples: &mut [f32]) -> Option<usize> {
-- 
2.43.0


From 48d5961dc2d46c32a66fae4b9e4767e6d44ddbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 06/24] fix: AdhocCodec::decode leaves the buffer after the
 decoded samples alone

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index e892bca..164edc5 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -315,7 +315,7 @@ impl AdhocCodec {
         }
 
         //scale up signal
-        for s in pcm_out {
+        for s in &mut pcm_out[..pcm_out_cursor] {
             *s *= self.scale
         }
 
-- 
2.43.0


From ee2345ea4f6e07cc34ae6ab898565a8640df10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 07/24] fix: drop stale frame headers when audio is encoded
 over older audio

---
 src/codec/adhoc/frame.rs       | 26 ++++++++++++++------------
 src/collections/bitvec.rs      |  8 ++++++++
 src/collections/nibble_list.rs | 13 +++++++++++++
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index f515cc5..0138f39 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -95,20 +95,22 @@ impl FrameHeaders {
         let header_cursor = self.header_cursor as usize;
         let is_init = is_init as u64;
 
-        if header_cursor >= self.divisor_exp_list.len() {
-            self.divisor_exp_list.push(exponent);
-            self.frame_size_list.push(num_samples);
-            self.bit_cursor_list.push(bit_cursor as u64);
-            self.is_init_frame_list.push(is_init);
-            self.stack_history_list.push(stack_history);
-        } else {
-            self.divisor_exp_list.set(header_cursor, exponent);
-            self.is_init_frame_list.set(header_cursor, is_init);
-            self.frame_size_list[header_cursor] = num_samples;
-            self.bit_cursor_list[header_cursor] = bit_cursor as u64;
-            self.stack_history_list[header_cursor] = stack_history;
+        // the frame being pushed overwrites the stream from here on,
+        // so headers of older frames past this point are stale
+        if header_cursor < self.divisor_exp_list.len() {
+            self.divisor_exp_list.truncate(header_cursor);
+            self.is_init_frame_list.truncate(header_cursor);
+            self.frame_size_list.truncate(header_cursor);
+            self.bit_cursor_list.truncate(header_cursor);
+            self.stack_history_list.truncate(header_cursor);
         }
 
+        self.divisor_exp_list.push(exponent);
+        self.frame_size_list.push(num_samples);
+        self.bit_cursor_list.push(bit_cursor as u64);
+        self.is_init_frame_list.push(is_init);
+        self.stack_history_list.push(stack_history);
+
         self.header_cursor += 1;
     }
 
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index e7a858f..a752590 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -21,6 +21,14 @@ impl BitVec {
         self.bit_cursor = 0;
     }
 
+    /// # Description
+    /// keeps the first `len` bits, does nothing when there aren't more than that
+    pub fn truncate(&mut self, len: usize) {
+        if len < self.len() {
+            self.bit_cursor = len as u128;
+        }
+    }
+
     /// # Description
     /// return number of bits written to vector
     pub fn len(&self) -> usize {
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 6fbb91e..2c551dc 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -58,6 +58,19 @@ impl NibbleList {
         self.data[block_idx] |= val << 4 * (nibble_idx);
     }
 
+    /// # Description
+    /// keeps the first `len` nibbles, does nothing when there aren't more than that
+    pub fn truncate(&mut self, len: usize) {
+        if len < self.len() {
+            self.data.truncate((len + 1) / 2);
+            if len % 2 == 1 {
+                // `push` expects the next nibble to be zero
+                self.data[len / 2] &= 0x0f;
+            }
+            self.nibble_count = len as u32;
+        }
+    }
+
     pub fn clear(&mut self) {
         self.nibble_count = 0;
     }
-- 
2.43.0


From b2d8373973469089c84fa7cf83955a130475121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 08/24] fix: AdhocCodec::seek past the end of the stream no
 longer panics

---
 src/codec/adhoc.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 164edc5..a25d711 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -393,9 +393,14 @@ impl Streamable for AdhocCodec {
 
                 //pinned down start header
                 let start_header_index = header_block_index * channels as usize;
-                let start_header = frame_header_list
-                    .get(start_header_index)
-                    .expect("start frame failed to fetch");
+                let start_header = match frame_header_list.get(start_header_index) {
+                    Some(header) => header,
+                    None => {
+                        //seeked past the last frame, so there's nothing left to decode
+                        frame_header_list.set_cursor(start_header_index as u32);
+                        return;
+                    }
+                };
 
                 //make sure cursor in bitstream is set properly
                 stream.set_bit_cursor(start_header.bit_cursor as u128);
-- 
2.43.0


From 4e31cf1acdab67bb19d15945282626ceddd11dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 09/24] fix: AdhocCodec::filesize_upperbound counts the length
 prefixes, so it is an upper bound

---
 src/codec/adhoc.rs       | 8 ++++----
 src/codec/adhoc/frame.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index a25d711..8af6655 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -104,12 +104,12 @@ impl AdhocCodec {
                 compression_level_bits 
         */
         let audio_stream_header =         
-            //number of bits AudioStream need to store info 
-            mem::size_of::<StreamInfo>() as u64 * 8; 
+            //number of bits AudioStream need to store info (it's optional, so there's a tag byte)
+            8 + mem::size_of::<StreamInfo>() as u64 * 8; 
 
         let bitstream = self.stream.capacity_upperbound() as u64+ 
-          //streams internal cursor + capacity 
-          128*2 ;
+          //length of the stream + streams internal cursor + capacity 
+          64 + 128*2 ;
 
 
         let audio_stream_bits = audio_stream_header + bitstream;
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 0138f39..a2efd3a 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -44,8 +44,8 @@ impl FrameHeaders {
         let len = self.len() as u64;
 
         //serde bincode needs to put length of vec before the elements get
-        //written out, this is my guess at the size(in bits) of the length value
-        let vector_header_size = 8;
+        //written out, the length is a 64 bit integer
+        let vector_header_size = 64;
 
         let divisor_weight_in_bits = self.divisor_exp_list.capacity() as u64 + vector_header_size;
 
-- 
2.43.0


From 56a0999aa5ef22032c78f5b7658b6238b0028ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 10/24] fix: WavCodec::save_to writes the whole header even if
 the writer takes it in pieces

---
 src/codec/wav.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5855b70..1ea14d2 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -124,7 +124,7 @@ impl WavCodec {
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-        dst.write(header.as_bytes())
+        dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
             .map_err(|_| "failed to write pcm data")
-- 
2.43.0


From 3e1c8ce0314c293d4af4444223bf5bc9fbf79bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 11/24] fix: WavCodec::load accepts files of less than 256
 bytes

---
 src/codec/wav.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 1ea14d2..e8b3987 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -135,12 +135,19 @@ impl WavCodec {
     where
         Resource: Read + Seek,
     {
-        let mut header_binary = [0u8; 256];
+        //a file can be smaller than the region that is searched for headers
+        let mut header_binary = Vec::with_capacity(256);
 
         wav_res
-            .read_exact(&mut header_binary)
+            .by_ref()
+            .take(256)
+            .read_to_end(&mut header_binary)
             .map_err(|_| "failed to read header bytes")?;
 
+        if header_binary.len() < mem::size_of::<RawWavHeader>() {
+            return Err("failed to read header bytes");
+        }
+
         let mut header_slice = &header_binary[..];
         let mut header = RawWavHeader::default();
 
-- 
2.43.0


From 102d5e9db0503b8f1984a0dddd607c290847737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 12/24] fix: WavCodec::load rejects a cut off data header
 instead of panicking

---
 src/codec/wav.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index e8b3987..bc75649 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -176,6 +176,9 @@ impl WavCodec {
             });
 
         header_slice = &header_slice[data_start + 4..];
+        if header_slice.len() < 4 {
+            return Err("data region is cut off");
+        }
         header.file_size_data = u32::from_le_bytes([
             header_slice[0],
             header_slice[1],
-- 
2.43.0


From 22904ae6e756c225d430c45a3cf218a4a0f63922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 13/24] fix: WavCodec::load rejects headers without channels,
 which made decode divide by zero

---
 src/codec/wav.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index bc75649..d45e982 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -192,6 +192,9 @@ impl WavCodec {
         if header.audio_format != 1 {
             return Err("formats other than PCM liner isn't supported");
         }
+        if header.num_channels < 1 {
+            return Err("invalid number of channels");
+        }
 
         // println!("parsed header: {}",header);
         // println!("pcm data = {} byles", wav_binary.len());
-- 
2.43.0


From a87dd846ea82187f9855505bf9cad848b9759e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 14/24] fix: WavCodec::load reads whole blocks of the data
 region only, not the chunks that follow it

---
 src/codec/wav.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index d45e982..009d5db 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -205,6 +205,7 @@ impl WavCodec {
 
         let mut pcm = Vec::<u8>::new();
         wav_res
+            .take(header.file_size_data as u64)
             .read_to_end(&mut pcm)
             .map_err(|_| "failed to read to end")?;
 
@@ -222,6 +223,10 @@ impl WavCodec {
             }
         }
 
+        //a trailing partial set of channels can't be played
+        let block_size = 2 * header.num_channels as usize;
+        pcm.truncate(pcm.len() / block_size * block_size);
+
         // println!("header:\n{}\n", header);
 
         Ok(Self {
-- 
2.43.0


From 9a14559debfb9f463180d442606f849c64b0b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 15/24] fix: WavCodec::decode no longer makes an unaligned
 slice, which aborted on an empty stream

---
 src/codec/wav.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 009d5db..ff7d2cc 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -243,8 +243,9 @@ impl WavCodec {
         self.pcm.len() / 2
     }
 
-    fn get_pcm(pcm: &Vec<u8>) -> &[i16] {
-        unsafe { slice::from_raw_parts(pcm.as_ptr() as *const i16, pcm.len() / 2) }
+    /// the buffer is only aligned for bytes, so it can't be viewed as a slice of i16
+    fn get_sample(pcm: &Vec<u8>, idx: usize) -> i16 {
+        i16::from_le_bytes([pcm[2 * idx], pcm[2 * idx + 1]])
     }
 
     #[allow(dead_code)]
@@ -297,13 +298,12 @@ impl Streamable for WavCodec {
         let num_channels = self.info().channels();
         let stream_length = self.num_samples() as u64;
         let cursor = &mut self.short_cursor;
-        let samples_list = Self::get_pcm(&self.pcm);
 
         //makes sure we can't write partial PCM 'blocks'
         let valid_length = (out.len() / num_channels) * num_channels;
 
         while *cursor < stream_length && out_cursor < valid_length {
-            let sample_i16 = samples_list[*cursor as usize];
+            let sample_i16 = Self::get_sample(&self.pcm, *cursor as usize);
             let normalized_sample = normalize_sample(sample_i16);
             out[out_cursor] = normalized_sample;
             *cursor += 1;
-- 
2.43.0


From d1be13e08c8653eff6fa6ac0ded2fc4798eb114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 16/24] fix: WavCodec::seek stays on a channel boundary within
 the stream, and SeekFrom::End counts from the end

---
 src/codec/wav.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index ff7d2cc..c07fc71 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -317,6 +317,8 @@ impl Streamable for WavCodec {
         let sample_rate = self.info.sample_rate as f32;
         let num_channels = self.info.channels() as i64;
         let num_samples = self.num_samples() as i64;
+        //one past the last whole set of channels
+        let end = (num_samples / num_channels) * num_channels;
 
         let sample_rate_in_milliseconds = sample_rate / 1000.0;
 
@@ -324,18 +326,19 @@ impl Streamable for WavCodec {
             SeekFrom::Current(dt) => {
                 let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
                 let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                self.short_cursor = block_index
+                    .saturating_add(sample_offset.saturating_mul(num_channels))
+                    .clamp(0, end) as u64;
             }
             SeekFrom::Start(dt) => {
                 let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                self.short_cursor = (sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                self.short_cursor = sample_offset.saturating_mul(num_channels).clamp(0, end) as u64;
             }
             SeekFrom::End(dt) => {
                 let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = num_samples - num_samples;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                self.short_cursor = end
+                    .saturating_add(sample_offset.saturating_mul(num_channels))
+                    .clamp(0, end) as u64;
             }
         }
     }
-- 
2.43.0


From 8d1479eedce9bcede5875325b3e587d27ef9be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 17/24] fix: AdhocCodec::seek to a far away time no longer
 overflows

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 8af6655..86c58c0 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -367,7 +367,7 @@ impl Streamable for AdhocCodec {
         match dt {
             SeekFrom::Start(dt) => {
                 let offset = (frequency_in_millis * (dt as f32)) as u64;
-                let offset_in_blocks = offset * channels;
+                let offset_in_blocks = offset.saturating_mul(channels);
 
                 let mut samples_skipped = 0;
                 let mut header_block_index = 0;
-- 
2.43.0


From c6a0eec0f5a3bd93b2f2f49d4f9d213fef0ed4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 18/24] fix: AdhocCodec::load rejects damaged files that would
 panic later on

---
 src/codec/adhoc.rs       | 13 ++++++++++++-
 src/codec/adhoc/frame.rs | 14 ++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 86c58c0..2eb7bff 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -194,8 +194,19 @@ impl AdhocCodec {
         bincode::deserialize_from::<_, SlimAdhocCodec>(res)
             .ok()
             .and_then(|slim| {
-                let scale = (1 << slim.compression_level) as f32;
                 let info = slim.stream.info()?;
+                let stream_len = slim.stream.capacity_upperbound() as u64;
+
+                //a damaged file must not make it past this point
+                if slim.compression_level > 10
+                    || info.channels < 1
+                    || info.channels > u16::MAX as u32
+                    || slim.frame_header_list.is_valid(info.channels(), stream_len) == false
+                {
+                    return None;
+                }
+
+                let scale = (1 << slim.compression_level) as f32;
                 let mut adhoc_codec = Self {
                     compression_level: slim.compression_level,
                     channel_state_list: (0..info.channels)
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index a2efd3a..8987f0e 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -131,6 +131,20 @@ impl FrameHeaders {
         })
     }
 
+    /// # Description
+    /// checks headers that came out of a file: every list has to have an entry for every frame,
+    /// every channel needs the same number of frames and frames can't start past the stream
+    pub fn is_valid(&self, num_channels: usize, stream_len_in_bits: u64) -> bool {
+        self.frame_size_list.len() == self.len()
+            && self.bit_cursor_list.len() == self.len()
+            && self.stack_history_list.len() == self.len()
+            && self.len() % num_channels == 0
+            && self
+                .bit_cursor_list
+                .iter()
+                .all(|&bit_cursor| bit_cursor <= stream_len_in_bits)
+    }
+
     pub fn set_cursor(&mut self, idx: u32) {
         self.header_cursor = idx;
     }
-- 
2.43.0


From 3186ad0c048617c4d6e729f2a3bcf445d8b4906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 19/24] fix: do not overflow on the quotient of a damaged
 stream

---
 src/collections/bitstream.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 65c3c13..d835720 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -323,7 +323,7 @@ impl BitStream {
         let remainder_size_in_bits = exponent as u32;
 
         //read zero(expected)
-        let mut quotient = 0;
+        let mut quotient = 0i32;
 
         #[allow(unused_assignments)]
         let mut bit_chunk = 0;
@@ -333,7 +333,8 @@ impl BitStream {
             bit_chunk.count_zeros() == 0
         } {
             self.offset_bit_cursor(128);
-            quotient += 128;
+            //only a damaged stream has runs this long: the value is arbitrary then
+            quotient = quotient.wrapping_add(128);
         }
 
         // 128-bit chunk that was peeked cointains zero so count
@@ -344,7 +345,7 @@ impl BitStream {
             bit_chunk >>= 1;
         }
         self.offset_bit_cursor(zero_bit_pos + 1);
-        quotient += zero_bit_pos.max(0) as i32;
+        quotient = quotient.wrapping_add(zero_bit_pos.max(0) as i32);
 
         // read
         let remainder = self.read_bits(remainder_size_in_bits as usize) as i32;
-- 
2.43.0


From f00e0d8c5d8bc10ab63a41fae625f889ee06d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 20/24] fix: do not overflow on the WAV header's byte rate and
 block size

---
 src/codec/wav.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index c07fc71..0ebb37d 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -119,8 +119,9 @@ impl WavCodec {
         header.audio_format = 1;
         header.num_channels = self.info.channels as i16;
         header.cksize = 16;
-        header.bytes_per_sec = (header.frequncy * header.num_channels as i32 * 16) / 8;
-        header.block_align = (header.num_channels * 16) / 8;
+        let block_align = self.info.channels * 2;
+        header.bytes_per_sec = (self.info.sample_rate * block_align) as i32;
+        header.block_align = block_align as i16;
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-- 
2.43.0


From 769276acd57a0e7a378dced0ef98c3cca40a3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 21/24] fix: the command line tool no longer drops the audio of
 files with more than 1024 channels

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 794666c..7193c09 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -112,7 +112,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
         .with_compression_level(compression_level)
         .with_info(parsed_wav.info());
 
-    let mut buffer = [0.0; 1024];
+    // at least one sample of every channel has to fit
+    let mut buffer = vec![0.0; parsed_wav.info().channels().max(1024)];
     while let Some(samples_read) = parsed_wav.decode(&mut buffer[..]) {
         compressed_wav.encode(&buffer[0..samples_read]);
     }
@@ -138,7 +139,8 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
 
-    let mut buffer = [0.0; 1024];
+    // at least one sample of every channel has to fit
+    let mut buffer = vec![0.0; src_adhoc.info().channels().max(1024)];
 
     while let Some(samples_read) = src_adhoc.decode(&mut buffer[..]) {
         dst_wav.encode(&buffer[0..samples_read]);
-- 
2.43.0


From 327bdbb219a230723e1f54276649d409dec8aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 22/24] fix: the command line tool keeps the whole file name
 when it replaces the extension

---
 src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7193c09..9819b03 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -121,10 +121,10 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
     let mut file_dest = PathBuf::from(output_dir);
     // println!("dest = {:?}",file_dest);
 
+    // `set_extension(..)` would replace what follows a dot in the file name
+    let mut file_name = file_name.to_os_string();
+    file_name.push(".adhoc");
     file_dest.push(file_name);
-
-    // println!("dest = {:?}",file_dest);
-    file_dest.set_extension("adhoc");
     
     // println!("final dest = {:?}",file_dest);
 
@@ -147,8 +147,10 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     }
 
     let mut file_dest = PathBuf::from(output_dir);
+    // `set_extension(..)` would replace what follows a dot in the file name
+    let mut file_name = file_name.to_os_string();
+    file_name.push(".wav");
     file_dest.push(file_name);
-    file_dest.set_extension("wav");
 
     dst_wav.save_to(File::create(file_dest).ok()?).ok()?;
 
-- 
2.43.0


From 871b53cdfc565694a59af78663fbcb27108b806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:12 +0000
Subject: [PATCH 23/24] fix: the sample history says it is empty when it holds
 nothing, not when it is full

---
 src/collections/stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/stack.rs b/src/collections/stack.rs
index f53592a..edf6a99 100755
--- a/src/collections/stack.rs
+++ b/src/collections/stack.rs
@@ -28,7 +28,7 @@ where
     }
 
     pub fn is_empty(&self) -> bool {
-        self.len >= self.data.len() as u32
+        self.len == 0
     }
 
     pub fn push(&mut self, item: T) {
-- 
2.43.0


From da39200065c4c2c683c9d61c890a4ce1331b48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:12 +0000
Subject: [PATCH 24/24] fix: clearing a nibble list drops the nibbles, so that
 the next ones are not mixed with them

---
 src/collections/nibble_list.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 2c551dc..dece2f5 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -72,6 +72,8 @@ impl NibbleList {
     }
 
     pub fn clear(&mut self) {
+        // `push` expects the nibbles it adds to be zero
+        self.data.clear();
         self.nibble_count = 0;
     }
 
-- 
2.43.0

