From 7cd41e5baa8c0598a1e23ad05fd5aeae208f7458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:38 +0000
Subject: [PATCH 01/31] fix: PRIORITY frames carry their length and exclusive
 bit

---
 src/http/http2/frame/priority.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index aa3f3e4..096b234 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -70,7 +70,8 @@ impl Priority {
     }
 
     pub fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        let head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        let mut head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        head.length = 5;
         let mut size = 0;
         size += head.encode(dst)?;
         size += self.dependency.encode(dst)?;
@@ -115,7 +116,8 @@ impl StreamDependency {
     }
 
     fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        self.dependency_id.encode(dst)?;
+        let exclusive = if self.is_exclusive { !MASK_U31 } else { 0 };
+        StreamIdentifier(self.dependency_id.0 | exclusive).encode(dst)?;
         dst.put_u8(self.weight);
         Ok(5)
     }
-- 
2.43.0


From 04d196d164301e1c5f06fa321d3405667ba46a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 02/31] fix: parsing a scheme with from_str recognises the
 registered schemes

---
 src/url/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/scheme.rs b/src/url/scheme.rs
index eb8554f..97e4e97 100644
--- a/src/url/scheme.rs
+++ b/src/url/scheme.rs
@@ -153,6 +153,6 @@ impl TryFrom<&str> for Scheme {
 impl FromStr for Scheme {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Scheme::try_from(&*s.to_uppercase())
+        Scheme::try_from(&*s.to_lowercase())
     }
 }
\ No newline at end of file
-- 
2.43.0


From fbea6c54bef42577935697aef93e23943d62e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 03/31] fix: header values end at LF, refuse NUL and are not
 treated as unchecked UTF-8

---
 src/helper.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 16ea461..323a7e3 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -191,7 +191,7 @@ impl Helper {
     }
 
     const HEADER_VALUE_MAP: [bool; 256] = byte_map![
-        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1,
+        0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -243,7 +243,7 @@ impl Helper {
 
     
     #[inline]
-    pub(crate) fn parse_token_by_func_empty<'a, B: Bt>(buffer: &'a mut B, func: fn(u8)->bool, err: WebError, empty: bool) -> WebResult<&'a str> {
+    pub(crate) fn parse_bytes_by_func_empty<'a, B: Bt>(buffer: &'a mut B, func: fn(u8)->bool, err: WebError, empty: bool) -> WebResult<&'a [u8]> {
         let position = {
             let mut postion = 0;
             let mut cur = BinaryRef::from(buffer.chunk());
@@ -258,22 +258,18 @@ impl Helper {
         };
         if position == 0 {
             if empty {
-                next!(buffer)?;
-                return Ok("");
+                return Ok(b"");
             }
             return Err(err);
-        } else {
-            let val = unsafe {
-                std::str::from_utf8_unchecked(&buffer.advance_chunk(position))
-            };
-            return Ok(val);
         }
-
+        Ok(buffer.advance_chunk(position))
     }
 
     #[inline]
     pub(crate) fn parse_token_by_func<'a, B: Bt>(buffer: &'a mut B, func: fn(u8)->bool, err: WebError) -> WebResult<&'a str> {
-        Self::parse_token_by_func_empty(buffer, func, err, false)
+        let val = Self::parse_bytes_by_func_empty(buffer, func, err, false)?;
+        // every func used here accepts ASCII only
+        Ok(unsafe { std::str::from_utf8_unchecked(val) })
     }
 
     #[inline]
@@ -302,8 +298,8 @@ impl Helper {
 
     #[inline]
     pub(crate) fn parse_header_value<'a, B:Bt>(buffer: &'a mut B) -> WebResult<HeaderValue> {
-        let token = Self::parse_token_by_func_empty(buffer, Self::is_header_value_token, WebError::from(HttpError::HeaderValue), true)?;
-        Ok(HeaderValue::Value(token.as_bytes().to_vec()))
+        let value = Self::parse_bytes_by_func_empty(buffer, Self::is_header_value_token, WebError::from(HttpError::HeaderValue), true)?;
+        Ok(HeaderValue::Value(value.to_vec()))
     }
 
     #[inline]
-- 
2.43.0


From 775d534e902f6807a5615de626abba3d7d6f948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:19 +0000
Subject: [PATCH 04/31] fix: a request or header line must end in a line break

---
 src/helper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 323a7e3..4fd02f6 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -316,9 +316,7 @@ impl Helper {
             },
             b'\n' => {
             },
-            b' ' => {
-            },
-            _ => return Err(WebError::from(HttpError::Partial))
+            _ => return Err(WebError::from(HttpError::NewLine))
         };
         Ok(())
     }
-- 
2.43.0


From 568c4d9ad6fda5119741808caa50acea4d7e9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 05/31] fix: HPACK static table entry 15 is accept-charset

---
 src/http/http2/hpack/header_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index 09d9188..e093707 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -184,7 +184,7 @@ static STATIC_TABLE_RAW: &'static [(&'static str, &'static str)] = &[
     (":status", "400"),
     (":status", "404"),
     (":status", "500"),
-    ("accept-", ""),
+    ("accept-charset", ""),
     ("accept-encoding", "gzip, deflate"),
     ("accept-language", ""),
     ("accept-ranges", ""),
-- 
2.43.0


From 00afc1689ca8e2544bfae77281faac60a87fd9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 06/31] fix: HPACK indexed fields with an index of 127 or more
 are decoded

---
 src/http/http2/hpack/decoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 3b89c6f..c80689d 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -121,7 +121,7 @@ impl Decoder {
             let buffer_leftover = buf.chunk();
             let consumed = match FieldRepresentation::new(initial_octet) {
                 FieldRepresentation::Indexed => {
-                    let consumed = (self.decode_indexed(initial_octet, |name, value| {
+                    let consumed = (self.decode_indexed(buffer_leftover, |name, value| {
                         cb(Cow::Borrowed(name), Cow::Borrowed(value));
                     }))?;
                     consumed
@@ -296,17 +296,17 @@ impl Decoder {
         Ok(((name, HeaderValue::from_bytes(&value)), consumed))
     }
 
-    fn decode_indexed<F>(&self, index: u8, call: F) -> WebResult<usize>
+    fn decode_indexed<F>(&self, buf: &[u8], call: F) -> WebResult<usize>
     where
         F: FnOnce(&HeaderName, &HeaderValue),
     {
-        let index = index & 0x7f;
+        let (index, consumed) = Self::decode_integer(buf, 7)?;
         let header = self.index.read().unwrap();
         let (name, value) = header
-            .get_from_index(index as usize)
+            .get_from_index(index)
             .ok_or(Http2Error::into(DecoderError::HeaderIndexOutOfBounds))?;
         call(name, value);
-        Ok(1)
+        Ok(consumed)
     }
 
     fn get_from_table<F>(&self, index: usize, call: F) -> WebResult<()>
-- 
2.43.0


From e35b532a1235c031afe1a0c4925e4e86f4845423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:18 +0000
Subject: [PATCH 07/31] fix: HPACK dynamic table size updates are consumed and
 applied

---
 src/http/http2/hpack/decoder.rs      |  7 +++++--
 src/http/http2/hpack/header_index.rs | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index c80689d..a8a8608 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -164,8 +164,11 @@ impl Decoder {
                 }
                 FieldRepresentation::SizeUpdate => {
                     // Handle the dynamic table size update...
-                    // self.update_max_dynamic_size(buffer_leftover)
-                    0
+                    let (size, consumed) = Self::decode_integer(buffer_leftover, 5)?;
+                    if !self.index.write().unwrap().update_table_size(size) {
+                        return Err(Http2Error::into(DecoderError::InvalidMaxDynamicSize));
+                    }
+                    consumed
                 }
             };
 
diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index e093707..5b76701 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -19,6 +19,8 @@ pub struct HeaderIndex {
     table: VecDeque<(HeaderName, HeaderValue)>,
     size: usize,
     max_size: usize,
+    /// Largest size a dynamic table size update may ask for.
+    limit: usize,
 }
 
 /// An `Iterator` through elements of the `DynamicTable`.
@@ -94,6 +96,7 @@ impl HeaderIndex {
             table: VecDeque::new(),
             size: 0,
             max_size,
+            limit: max_size,
         }
     }
 
@@ -111,10 +114,22 @@ impl HeaderIndex {
 
     pub fn set_max_table_size(&mut self, new_max_size: usize) {
         self.max_size = new_max_size;
+        self.limit = new_max_size;
         // Make the table size fit within the new constraints.
         self.consolidate_table();
     }
 
+    /// Applies a dynamic table size update received from the peer; false when
+    /// it exceeds the agreed maximum.
+    pub fn update_table_size(&mut self, new_size: usize) -> bool {
+        if new_size > self.limit {
+            return false;
+        }
+        self.max_size = new_size;
+        self.consolidate_table();
+        true
+    }
+
     /// Returns the maximum size of the table in octets.
     pub fn get_max_table_size(&self) -> usize {
         self.max_size
-- 
2.43.0


From 34570ca8c349b1f3f61df2b0f6482c774e86cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 08/31] fix: the Huffman end-of-string symbol inside a string
 is an error

---
 src/http/http2/hpack/huffman.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http/http2/hpack/huffman.rs b/src/http/http2/hpack/huffman.rs
index bee3f9d..a463653 100644
--- a/src/http/http2/hpack/huffman.rs
+++ b/src/http/http2/hpack/huffman.rs
@@ -61,6 +61,9 @@ impl HuffmanDecoder {
             }
 
             let key = (current, current_len);
+            if key == (EOS_VALUE, EOS_LEN) {
+                return Err(Http2Error::into(HuffmanDecoderError::EOSInString));
+            }
             if HUFFMAN_CODE_MAP.contains_key(&key) {
                 let val = HUFFMAN_CODE_MAP.get(&key).unwrap();
                 result.push(*val);
-- 
2.43.0


From 4efd380dadaa05b72ad04f978633f34619f798c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 09/31] fix: padding must leave room for its length octet and
 belongs to DATA, HEADERS and PUSH_PROMISE only

---
 src/http/http2/frame/frame.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index d2125ba..80008ff 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -49,9 +49,16 @@ pub enum Frame<T = Binary> {
 impl Frame<Binary> {
     #[inline]
     pub fn trim_padding<B: Bt>(header: &FrameHeader, buf: &mut B) -> WebResult<()> {
-        if header.flag.is_padded() && buf.has_remaining() {
-            let pad_length = buf.peek().unwrap();
-            if pad_length as u32 > header.length {
+        let paddable = match header.kind() {
+            Kind::Data | Kind::Headers | Kind::PushPromise => true,
+            _ => false,
+        };
+        if paddable && header.flag.is_padded() {
+            let pad_length = match buf.peek() {
+                Some(v) => v,
+                None => return Err(Http2Error::into(Http2Error::TooMuchPadding(0))),
+            };
+            if pad_length as u32 >= header.length {
                 return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
             } else {
                 buf.advance(1);
-- 
2.43.0


From 20daa2a863b55a15855e19b34ee6bdca9f21bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:19 +0000
Subject: [PATCH 10/31] fix: frames on a stream they do not belong to are
 errors instead of a panic or a value

---
 src/http/http2/frame/frame.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 80008ff..e067298 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -165,6 +165,15 @@ impl<T: Bt> Frame<T> {
         decoder: &mut Decoder,
         max_header_list_size: usize,
     ) -> WebResult<Frame<T>> {
+        match header.kind() {
+            Kind::Data | Kind::Headers | Kind::PushPromise if header.stream_id().is_zero() => {
+                return Err(Http2Error::into(Http2Error::InvalidStreamId));
+            }
+            Kind::GoAway if !header.stream_id().is_zero() => {
+                return Err(Http2Error::into(Http2Error::InvalidStreamId));
+            }
+            _ => {}
+        }
         Frame::trim_padding(&header, &mut buf)?;
         match header.kind() {
             Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
-- 
2.43.0


From c22a759dbe24c8fe1a35530cad593c8d9f55a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:25 +0000
Subject: [PATCH 11/31] fix: a request whose target is rejected stays partial

---
 src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 942534b..aa7ef21 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -560,7 +560,6 @@ where
         self.parts.version = Helper::parse_version(buffer)?;
         Helper::skip_new_line(buffer)?;
         Helper::parse_header(buffer, &mut self.parts.header)?;
-        self.partial = false;
         self.parts.url = match self.parts.method {
             // Connect 协议, Path则为连接地址,
             Method::Connect => {
@@ -594,6 +593,7 @@ where
                 url
             }
         };
+        self.partial = false;
         Ok(len - buffer.remaining())
     }
 
-- 
2.43.0


From 3a5b86b6131367612915753a62dbd09401334c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 12/31] fix: a status line with an empty reason phrase is
 accepted

---
 src/helper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 4fd02f6..8e47a6e 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -283,8 +283,9 @@ impl Helper {
     }
 
     #[inline]
-    pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
-        Self::parse_token_by_func(buffer, Self::is_status_token, WebError::from(HttpError::Token))
+    pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a [u8]> {
+        // the reason phrase may be empty
+        Self::parse_bytes_by_func_empty(buffer, Self::is_status_token, WebError::from(HttpError::Token), true)
     }
 
     #[inline]
-- 
2.43.0


From 4efde5bf3c874101b4a5442a1fd511bdd9076675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:55 +0000
Subject: [PATCH 13/31] fix: a chunk size that does not fit is an error and
 chunk data must end in CRLF

---
 src/helper.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 8e47a6e..a5fc67c 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -388,11 +388,14 @@ impl Helper {
         let len = buffer.remaining();
         let mut val = BinaryRef::from(buffer.chunk());
         let num = Helper::parse_hex(&mut val)?;
-        let num = usize::from_str_radix(num, 16).unwrap();
+        let num = usize::from_str_radix(num, 16).map_err(WebError::from)?;
         Helper::skip_new_line(&mut val)?;
-        if num + 2 > val.remaining() {
+        if num >= val.remaining() || num + 2 > val.remaining() {
             return Err(WebError::Http(HttpError::Partial));
         }
+        if &val.chunk()[num..num + 2] != b"\r\n" {
+            return Err(WebError::from(HttpError::NewLine));
+        }
         return Ok((len - val.remaining(), num));
 
         // let ret = buffer.chunk()[..num].to_vec();
-- 
2.43.0


From 5ea65ecbb6f019d1744efef9db2b6a2c9375cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 14/31] fix: comparing bytes without case folds letters only

---
 src/helper.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index a5fc67c..e14ac79 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -440,16 +440,7 @@ impl Helper {
         if a.len() != b.len() {
             return false;
         }
-        for i in 0..a.len() {
-            if a[i] == b[i] {
-                continue;
-            }
-            let wrap = a[i].wrapping_sub(b[i]);
-            if wrap != 32 && wrap != 224 {
-                return false;
-            }
-        }
-        true
+        a.eq_ignore_ascii_case(b)
     }
     
     pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
-- 
2.43.0


From 02c51ef4539672ed4eb70fd1c8ff453221fa6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 15/31] fix: header values that are not a number in range do
 not convert to one

---
 src/http/value.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 087f1ae..8273a6f 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -112,16 +112,17 @@ impl TryInto<usize> for &HeaderValue {
             HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
             HeaderValue::Value(v) => {
                 let mut result = 0usize;
+                if v.is_empty() {
+                    return Err(WebError::IntoError);
+                }
                 for b in v {
                     if !Helper::is_digit(*b) {
                         return Err(WebError::IntoError);
                     }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as usize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
-                    }
+                    result = result
+                        .checked_mul(10)
+                        .and_then(|u| u.checked_add((b - Helper::DIGIT_0) as usize))
+                        .ok_or(WebError::IntoError)?;
                 }
                 Ok(result)
             }
@@ -137,21 +138,21 @@ impl TryInto<isize> for &HeaderValue {
             HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
             HeaderValue::Value(v) => {
                 let mut result = 0isize;
-                let mut is_neg = false;
-                for b in v {
+                let (is_neg, digits) = match v.first() {
+                    Some(b'-') => (true, &v[1..]),
+                    _ => (false, &v[..]),
+                };
+                if digits.is_empty() {
+                    return Err(WebError::IntoError);
+                }
+                for b in digits {
                     if !Helper::is_digit(*b) {
-                        if b == &b'-' && result == 0 {
-                            is_neg = true;
-                            continue;
-                        }
                         return Err(WebError::IntoError);
                     }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as isize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
-                    }
+                    result = result
+                        .checked_mul(10)
+                        .and_then(|u| u.checked_add((b - Helper::DIGIT_0) as isize))
+                        .ok_or(WebError::IntoError)?;
                 }
                 if is_neg {
                     Ok(-result)
-- 
2.43.0


From 717c71a1cb12f5cba5aba097fb3e47f16dec832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 16/31] fix: the host of an :authority leaves the port out

---
 src/http/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 485a460..48fa524 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -185,7 +185,7 @@ impl HeaderMap {
             let value = TryInto::<String>::try_into(value).ok().unwrap();
             // host 信息只取前缀
             if value.contains(":") {
-                let v: Vec<&str> = value.splitn(1, ':').collect();
+                let v: Vec<&str> = value.splitn(2, ':').collect();
                 return Some(v[0].to_string());
             } else {
                 return Some(value);
-- 
2.43.0


From df63ccb6bebda9a23cf2e416a22a1d7247a2f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 17/31] fix: writing a data frame reports the bytes written

---
 src/ws/dataframe.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ws/dataframe.rs b/src/ws/dataframe.rs
index 9e92d5b..b5484d1 100644
--- a/src/ws/dataframe.rs
+++ b/src/ws/dataframe.rs
@@ -185,8 +185,7 @@ pub trait DataFrameable {
             }
             None => self.write_payload(&mut data)?,
         };
-        writer.put_slice(data.as_slice());
-        Ok(0)
+        Ok(writer.put_slice(data.as_slice()))
     }
 }
 
-- 
2.43.0


From 5c40fe434b7e32f342de20f7de960234f5bbe85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 18/31] fix: an at sign after the authority of a URL does not
 replace the host

---
 src/url/url.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 3dccc0d..a9e4346 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -172,9 +172,9 @@ impl Url {
                 } else {
                     val.push(b);
                 }
-            } else if b == b'@' {
+            } else if b == b'@' && !is_first_slash {
                 //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
-                if domain.is_none() {
+                if domain.is_none() || username.is_some() {
                     return Err(WebError::from(UrlError::UrlInvalid));
                 }
                 username = domain;
-- 
2.43.0


From 3f0ebaec72c36c300d4c1d3c8d0490d915a2451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 19/31] fix: a URL query may follow the authority directly

---
 src/url/url.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index a9e4346..c1ed73b 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -194,9 +194,13 @@ impl Url {
                 val.push(b);
             } else if b == b'?' {
                 if !is_first_slash {
-                    if domain.is_none() && has_domain {
+                    if domain.is_none() {
                         domain = Some(build_binary(&mut val));
+                    } else {
+                        port = Some(build_binary(&mut val));
                     }
+                    path = Some(Binary::from(Self::DEFAULT_PATH.as_bytes().to_vec()));
+                    is_first_slash = true;
                 // 多个'?'忽略当作query
                 } else if path.is_none() {
                     path = Some(build_binary(&mut val));
-- 
2.43.0


From 3251e8ec74fd0c6b8963327110b78b5ed3699b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 20/31] fix: the request target is written percent-encoded and
 with its query

---
 src/http/request.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index aa7ef21..7772f41 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -637,11 +637,30 @@ where
         &mut self.body
     }
 
+    /// 请求行中不允许出现的字符需要转码
+    fn encode_target<B: Bt + BtMut>(buffer: &mut B, val: &str) -> usize {
+        let mut size = 0;
+        for b in val.as_bytes() {
+            if Helper::is_uri_token(*b) && *b != b'%' {
+                size += buffer.put_u8(*b);
+            } else {
+                size += buffer.put_u8(b'%');
+                size += buffer.put_u8(Helper::to_hex(b / 16));
+                size += buffer.put_u8(Helper::to_hex(b % 16));
+            }
+        }
+        size
+    }
+
     pub fn encode_header<B: Bt + BtMut>(&mut self, buffer: &mut B) -> WebResult<usize> {
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += self.parts.url.path.serialize(buffer)?;
+        size += Self::encode_target(buffer, &self.parts.url.path);
+        if let Some(query) = &self.parts.url.query {
+            size += buffer.put_u8(b'?');
+            size += Self::encode_target(buffer, query);
+        }
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
         size += buffer.put_slice("\r\n".as_bytes());
-- 
2.43.0


From b94c4cb855bf2436e8e1ea924404236fc0930392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 21/31] fix: a broken URL in a complete request line is an
 error, not an incomplete message

---
 src/http/request.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 7772f41..392850b 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -18,7 +18,7 @@ use std::{
 use super::{http2::HeaderIndex, HeaderMap, Method, Version};
 use crate::{
     http2::frame::Settings, Extensions, HeaderName, HeaderValue, Helper, Scheme, Serialize, Url,
-    WebError, WebResult,
+    UrlError, WebError, WebResult,
 };
 use algorithm::buf::{BinaryMut, Bt, BtMut};
 
@@ -568,7 +568,11 @@ where
                 url
             }
             _ => {
-                let mut url = Url::try_from(path)?;
+                // 请求行已完整, 不完整的url为错误
+                let mut url = Url::try_from(path).map_err(|e| match e.is_partial() {
+                    true => WebError::from(UrlError::UrlInvalid),
+                    false => e,
+                })?;
                 if url.domain.is_none() {
                     match self.parts.header.get_host() {
                         Some(h) => {
-- 
2.43.0


From a06406e5cbe4b7e1e7cf6c34e7d00efba2e7d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 22/31] fix: a question mark in the path of a request is
 written percent-encoded

---
 src/http/request.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 392850b..cd57fe6 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -642,10 +642,10 @@ where
     }
 
     /// 请求行中不允许出现的字符需要转码
-    fn encode_target<B: Bt + BtMut>(buffer: &mut B, val: &str) -> usize {
+    fn encode_target<B: Bt + BtMut>(buffer: &mut B, val: &str, is_path: bool) -> usize {
         let mut size = 0;
         for b in val.as_bytes() {
-            if Helper::is_uri_token(*b) && *b != b'%' {
+            if Helper::is_uri_token(*b) && *b != b'%' && !(is_path && *b == b'?') {
                 size += buffer.put_u8(*b);
             } else {
                 size += buffer.put_u8(b'%');
@@ -660,10 +660,10 @@ where
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += Self::encode_target(buffer, &self.parts.url.path);
+        size += Self::encode_target(buffer, &self.parts.url.path, true);
         if let Some(query) = &self.parts.url.query {
             size += buffer.put_u8(b'?');
-            size += Self::encode_target(buffer, query);
+            size += Self::encode_target(buffer, query, false);
         }
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
-- 
2.43.0


From f3fe5a4070f97394e3f9171c1742cc1b7872ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 23/31] fix: a CONNECT request is written with the address it
 connects to

---
 src/http/request.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index cd57fe6..35373a3 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -660,10 +660,18 @@ where
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += Self::encode_target(buffer, &self.parts.url.path, true);
-        if let Some(query) = &self.parts.url.query {
-            size += buffer.put_u8(b'?');
-            size += Self::encode_target(buffer, query, false);
+        // Connect 协议, 目标为连接地址
+        match self.parts.url.get_connect_url() {
+            Some(connect) if self.parts.method == Method::Connect => {
+                size += buffer.put_slice(connect.as_bytes());
+            }
+            _ => {
+                size += Self::encode_target(buffer, &self.parts.url.path, true);
+                if let Some(query) = &self.parts.url.query {
+                    size += buffer.put_u8(b'?');
+                    size += Self::encode_target(buffer, query, false);
+                }
+            }
         }
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
-- 
2.43.0


From 713d4d362fb10f86de5b03eb5ec1df87776f8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 24/31] fix: a URL is written so that its parts cannot be
 mistaken for each other

---
 src/url/url.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index c1ed73b..04c28f7 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -260,10 +260,15 @@ impl Url {
     }
 
     pub fn url_encode(val: &str) -> String {
+        Self::url_encode_part(val, b"")
+    }
+
+    /// 编码url的某一部分, 其中的分隔符也需要转码
+    fn url_encode_part(val: &str, delims: &[u8]) -> String {
         let bytes = val.as_bytes();
         let mut vec = Vec::with_capacity((1.2 * (bytes.len() as f32)) as usize);
         for b in bytes {
-            if Helper::is_not_uritrans(*b) {
+            if Helper::is_not_uritrans(*b) && !delims.contains(b) {
                 vec.push(*b);
             } else {
                 vec.push(b'%');
@@ -350,12 +355,15 @@ impl Display for Url {
         if self.username.is_some() || self.password.is_some() {
             f.write_fmt(format_args!(
                 "{}:{}@",
-                Self::url_encode(self.username.as_ref().unwrap_or(&String::new())),
-                Self::url_encode(self.password.as_ref().unwrap_or(&String::new()))
+                Self::url_encode_part(self.username.as_ref().unwrap_or(&String::new()), b":/?@"),
+                Self::url_encode_part(self.password.as_ref().unwrap_or(&String::new()), b":/?@")
             ))?;
         }
         if self.domain.is_some() {
-            f.write_fmt(format_args!("{}", self.domain.as_ref().unwrap()))?;
+            f.write_fmt(format_args!(
+                "{}",
+                Self::url_encode_part(self.domain.as_ref().unwrap(), b":/?@")
+            ))?;
         }
         if self.scheme != Scheme::None && self.port.is_some() {
             match (&self.scheme, self.port) {
@@ -364,7 +372,7 @@ impl Display for Url {
                 _ => f.write_fmt(format_args!(":{}", self.port.as_ref().unwrap()))?,
             };
         }
-        f.write_fmt(format_args!("{}", Self::url_encode(&self.path)))?;
+        f.write_fmt(format_args!("{}", Self::url_encode_part(&self.path, b"?")))?;
         if self.query.is_some() {
             f.write_fmt(format_args!(
                 "?{}",
-- 
2.43.0


From 44e6738488482fdd4e45fe774447924b71e28c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 25/31] fix: a PUSH_PROMISE carries the header block it was
 received with

The block has to go through the decoder: its table changes otherwise
never reach the following blocks.
---
 src/http/http2/frame/headers.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 48c4077..732d1f0 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -444,13 +444,17 @@ impl PushPromise {
     pub fn parse<B: Bt>(
         head: FrameHeader,
         mut src: B,
-        _decoder: &mut Decoder,
-        _max_header_list_size: usize,
+        decoder: &mut Decoder,
+        max_header_list_size: usize,
     ) -> WebResult<Self> {
+        if src.remaining() < 4 {
+            return Err(Http2Error::PayloadLengthTooShort.into());
+        }
         let promised_id = StreamIdentifier::parse(&mut src);
-        let push = PushPromise::new(head, promised_id, HeaderMap::new());
-        // push.header_block
-        //     .parse(&mut src, max_header_list_size, decoder)?;
+        let mut block = Headers::empty();
+        block.parse(src, decoder, max_header_list_size)?;
+        let mut push = PushPromise::new(head, promised_id, HeaderMap::new());
+        push.header_block = block.header_block;
         Ok(push)
     }
 
-- 
2.43.0


From 34c451a38073e3f324ad5c1cf337df982401a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 26/31] fix: the padding of a header block is not handed to the
 decoder

---
 src/http/http2/frame/frame.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index e067298..794484f 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -174,12 +174,19 @@ impl<T: Bt> Frame<T> {
             }
             _ => {}
         }
+        let pad_length = match buf.peek() {
+            Some(v) if header.flag.is_padded() => v as usize,
+            _ => 0,
+        };
         Frame::trim_padding(&header, &mut buf)?;
+        // 头块之后的填充字节不能交给头部解码
+        let block_length = buf.remaining().saturating_sub(pad_length);
         match header.kind() {
             Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
             Kind::Headers => {
                 let mut header = Headers::new(header, HeaderMap::new());
-                header.parse(buf, decoder, max_header_list_size)?;
+                let block = Binary::from(buf.chunk()[..block_length].to_vec());
+                header.parse(block, decoder, max_header_list_size)?;
                 Ok(Frame::Headers(header))
             }
             Kind::Priority => Ok(Frame::Priority(Priority::parse(header, &mut buf)?)),
@@ -187,7 +194,7 @@ impl<T: Bt> Frame<T> {
             Kind::Settings => Ok(Frame::Settings(Settings::parse(header, &mut buf)?)),
             Kind::PushPromise => Ok(Frame::PushPromise(PushPromise::parse(
                 header,
-                buf,
+                Binary::from(buf.chunk()[..block_length].to_vec()),
                 decoder,
                 max_header_list_size,
             )?)),
-- 
2.43.0


From 3668da0e9c8700e3a07ea7ebbf26113919bb1c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 27/31] fix: an error code is read from its four octets

---
 src/http/http2/frame/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index d439911..589e3bd 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -173,8 +173,7 @@ pub struct ErrorCode(pub u32);
 
 impl ErrorCode {
     pub fn parse<T: Bt>(buf: &mut T) -> ErrorCode {
-        buf.advance(4);
-        ErrorCode(0)
+        ErrorCode(buf.get_u32())
     }
 }
 
-- 
2.43.0


From 2efc379472c6fcb963055082726f3f3c7c5ade7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 28/31] fix: PRIORITY and RST_STREAM are refused on stream 0

---
 src/http/http2/frame/frame.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 794484f..1b89540 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -166,7 +166,9 @@ impl<T: Bt> Frame<T> {
         max_header_list_size: usize,
     ) -> WebResult<Frame<T>> {
         match header.kind() {
-            Kind::Data | Kind::Headers | Kind::PushPromise if header.stream_id().is_zero() => {
+            Kind::Data | Kind::Headers | Kind::PushPromise | Kind::Priority | Kind::Reset
+                if header.stream_id().is_zero() =>
+            {
                 return Err(Http2Error::into(Http2Error::InvalidStreamId));
             }
             Kind::GoAway if !header.stream_id().is_zero() => {
-- 
2.43.0


From 94e8c6d3cad47162596a8786851fdd849dba1664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 29/31] fix: a header block is split at the frame size and
 starts with its pseudo-header fields

The frames were cut by the length before compression, END_STREAM was put on
the last CONTINUATION, flags of fields that are not written were kept, and
method, path and the like were left out.
---
 src/http/http2/frame/headers.rs | 58 ++++++++++++++-------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 732d1f0..7e33373 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -608,46 +608,38 @@ impl HeaderBlock {
         &mut self,
         encoder: &mut Encoder,
         dst: &mut B,
-        mut flags: Flag,
+        flags: Flag,
         stream_id: StreamIdentifier,
     ) -> WebResult<usize> {
-        let mut result = vec![];
+        // 伪头必须在普通头之前
+        self.parts.encode_header(&mut self.fields);
         let mut binary = BinaryMut::new();
-
-        for value in self.fields.iter() {
-            if value.0.bytes_len() + value.1.bytes_len() + binary.remaining()
-                > encoder.max_frame_size as usize
-            {
-                result.push(binary);
-                binary = BinaryMut::new();
-            }
-            let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
+        for value in self.fields.iter().filter(|v| v.0.is_spec()) {
+            encoder.encode_header_into((&value.0, &value.1), &mut binary)?;
+        }
+        for value in self.fields.iter().filter(|v| !v.0.is_spec()) {
+            encoder.encode_header_into((&value.0, &value.1), &mut binary)?;
         }
 
-        result.push(binary);
+        let max_frame_size = std::cmp::max(encoder.max_frame_size, 1);
+        let mut head = FrameHeader::new(Kind::Headers, Flag::zero(), stream_id);
+        if flags.is_end_stream() {
+            head.flag.set_end_stream();
+        }
         let mut size = 0;
-        if result.len() == 1 {
-            flags.set_end_headers();
-            let mut head = FrameHeader::new(Kind::Headers, flags, stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-        } else {
-            let mut head = FrameHeader::new(Kind::Headers, Flag::zero(), stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-
-            for idx in 1..result.len() {
-                let mut head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
-                if idx == result.len() - 1 {
-                    flags.set_end_headers();
-                    head.flag = flags;
-                }
-                head.length = result[idx].remaining() as u32;
-                size += head.encode(dst).unwrap();
-                size += result[idx].serialize(dst).unwrap();
+        loop {
+            let now_len = std::cmp::min(binary.remaining(), max_frame_size);
+            if now_len == binary.remaining() {
+                head.flag.set_end_headers();
+            }
+            head.length = now_len as u32;
+            size += head.encode(dst)?;
+            size += dst.put_slice(&binary.chunk()[..now_len]);
+            binary.advance(now_len);
+            if binary.remaining() == 0 {
+                break;
             }
+            head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
         }
         Ok(size)
     }
-- 
2.43.0


From 760f82e17f182830d3880992af41422910cc0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 30/31] fix: frames written without padding are not marked as
 padded

---
 src/http/http2/frame/data.rs    | 4 +++-
 src/http/http2/frame/headers.rs | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/data.rs b/src/http/http2/frame/data.rs
index e239661..417bdc2 100644
--- a/src/http/http2/frame/data.rs
+++ b/src/http/http2/frame/data.rs
@@ -94,9 +94,11 @@ impl Data<Binary> {
         encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
         let mut size = 0;
         loop {
-            let now_len = std::cmp::min(self.data.remaining(), encoder.max_frame_size); 
+            let now_len = std::cmp::min(self.data.remaining(), std::cmp::max(encoder.max_frame_size, 1));
             let mut head = FrameHeader::new(Kind::Data, self.flags.into(), self.stream_id);
             head.length = now_len as u32;
+            // 写出的数据不带填充
+            head.flags_mut().unset_padded();
             if now_len < self.data.remaining() {
                 head.flags_mut().unset_end_stream();
                 size += head.encode(dst)?;
diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 7e33373..baacc3d 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -488,6 +488,7 @@ impl PushPromise {
         let mut size = 0;
         let mut head = FrameHeader::new(Kind::PushPromise, self.flags.into(), self.stream_id);
         head.flag.set_end_headers();
+        head.flag.unset_padded();
         head.length = binary.remaining() as u32 + 4;
         size += head.encode(dst).unwrap();
         size += self.promised_id.encode(dst).unwrap();
-- 
2.43.0


From fc006d227762fadd57f18a1b3c070c710f1fe65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:34 +0000
Subject: [PATCH 31/31] fix: the stream of a PRIORITY frame is the one it was
 received on

---
 src/http/http2/frame/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 1b89540..a2e0598 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -86,7 +86,7 @@ impl Frame<Binary> {
         match self {
             Frame::Data(f) => f.stream_id(),
             Frame::Headers(f) => f.stream_id(),
-            Frame::Priority(_f) => StreamIdentifier::zero(),
+            Frame::Priority(f) => f.stream_id(),
             Frame::PushPromise(f) => f.stream_id(),
             Frame::Settings(_f) => StreamIdentifier::zero(),
             Frame::Ping(_f) => StreamIdentifier::zero(),
-- 
2.43.0

