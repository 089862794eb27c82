From 4deb5d0dcfaf28dec44361a92c6e6ae68f0062df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 01/19] fix: implement \u escape sequences in JSON strings

Reading one used to panic.
---
 json/src/deserialize/text.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index a38d233..09f8c36 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1656,12 +1656,46 @@ trait TextReaderExt: TextReader {
             Some('n') => '\n',
             Some('r') => '\r',
             Some('t') => '\t',
-            Some('u') => todo!(),
+            Some('u') => {
+                let high = self.read_escape_code_unit()?;
+                let code = if (0xD800..0xDC00).contains(&high) {
+                    // This should be the first half of a surrogate pair
+                    if self.next() != Some('\\') || self.next() != Some('u') {
+                        return Err(DeserializeError::new(pos, UnrecognizedEscape));
+                    }
+                    let low = self.read_escape_code_unit()?;
+                    if !(0xDC00..0xE000).contains(&low) {
+                        return Err(DeserializeError::new(pos, UnrecognizedEscape));
+                    }
+                    0x10000 + ((high - 0xD800) << 10) + (low - 0xDC00)
+                } else {
+                    high
+                };
+                char::from_u32(code)
+                    .ok_or_else(|| DeserializeError::new(pos, UnrecognizedEscape))?
+            }
             Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
             None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
         })
     }
 
+    /// Reads the four hexadecimal digits of a `\u` escape sequence, returning the UTF-16 code unit
+    /// they describe.
+    fn read_escape_code_unit(&mut self) -> Result<u32, DeserializeError<Self::Position>> {
+        let mut code = 0;
+        for _ in 0..4 {
+            let pos = self.position();
+            match self.next() {
+                Some(ch) => match ch.to_digit(16) {
+                    Some(digit) => code = (code << 4) | digit,
+                    None => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
+                },
+                None => return Err(DeserializeError::new(pos, UnexpectedEof)),
+            }
+        }
+        Ok(code)
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
-- 
2.43.0


From ada55a81df94a28bdd1c1bfcc39c1a3b87ef875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 02/19] fix: tag errors about a string value to that string

The position used for errors about the most recently popped value was never
updated by strings, so an invalid name was blamed on an earlier value.
---
 json/src/deserialize/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 09f8c36..a961709 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -413,6 +413,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 let pos = self.reader.position();
                 match self.reader.next() {
                     Some('"') => {
+                        self.error_pos = pos;
                         self.state = DeserializerState::StreamingString { is_key: false };
                         Ok(())
                     }
@@ -429,6 +430,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
             } => {
                 let (pos, value, data) = self.outline.take_value(index);
                 if let LookbackValue::String = value {
+                    self.error_pos = pos.clone();
                     let data = data.as_ptr_range();
                     let base_ptr = self.outline.lookback_data.as_ptr();
                     self.state = DeserializerState::LookbackString {
-- 
2.43.0


From d62ee5dec8977190015fd596875b59b388e47146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 03/19] fix: implement get_char for the JSON deserializer

It used to panic, so a char could be written but never read back.
---
 json/src/deserialize/text.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index a961709..22241be 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -680,7 +680,17 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn get_char(&mut self) -> Result<char, Self::Error> {
-        todo!()
+        self.open_str()?;
+        let pos = self.error_pos.clone();
+        if let Some(ch) = self.next_char()? {
+            if self.next_char()?.is_none() {
+                return Ok(ch);
+            }
+        }
+        Err(DeserializeError::new(
+            pos,
+            Custom("expected a string with exactly one character".into()),
+        ))
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
-- 
2.43.0


From a2f37cd97f02379ce092a26c44492d5514da0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 04/19] fix: implement close_str for the JSON deserializer

It used to panic.
---
 json/src/deserialize/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 22241be..5fb59c5 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -455,7 +455,11 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
     }
 
     fn close_str(&mut self) -> Result<(), Self::Error> {
-        todo!()
+        if self.next_char()?.is_some() {
+            self.skip_str()?;
+            return Err(self.error("string has more characters than expected".into()));
+        }
+        Ok(())
     }
 
     fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), Self::Error> {
-- 
2.43.0


From 0645dd5129acba7fac09c12f2a02cf68e14099ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 05/19] fix: escape all control characters in serialized JSON
 strings

JSON does not allow U+0000 to U+001F to appear unescaped in a string.
---
 json/src/serialize/text.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json/src/serialize/text.rs b/json/src/serialize/text.rs
index c4d4b71..fc9d5c4 100644
--- a/json/src/serialize/text.rs
+++ b/json/src/serialize/text.rs
@@ -229,6 +229,13 @@ impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
             '\n' => self.writer.write_str("\\n"),
             '\r' => self.writer.write_str("\\r"),
             '\t' => self.writer.write_str("\\t"),
+            '\0'..='\x1F' => {
+                const DIGITS: &[u8; 16] = b"0123456789abcdef";
+                let code = value as usize;
+                self.writer.write_str("\\u00")?;
+                self.writer.write_char(DIGITS[code >> 4].into())?;
+                self.writer.write_char(DIGITS[code & 0xF].into())
+            }
             value => self.writer.write_char(value),
         }
     }
-- 
2.43.0


From 13096a1989f7b3eefd6ed72c534970cea7b6a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 06/19] fix: accept comments before values which are read out
 of order

They were only accepted there when the value was read directly.
---
 json/src/deserialize/text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 5fb59c5..dfa8209 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1840,6 +1840,12 @@ trait TextReaderExt: TextReader {
                     self.next();
                     continue;
                 }
+                Some('/') if config.allow_comments => {
+                    // Skip leading comment
+                    self.next();
+                    self.skip_comment()?;
+                    continue;
+                }
                 Some('"') => {
                     let pos = self.position();
                     self.next();
-- 
2.43.0


From cb98ecb74b91db0d82129824c0f1ff6fe9aa6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 07/19] fix: report where a malformed value is when it is read
 out of order

The error was tagged to the start of the outermost buffered value rather than
to the offending character.
---
 json/src/deserialize/text.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index dfa8209..887d448 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1826,7 +1826,6 @@ trait TextReaderExt: TextReader {
         mut key_len_active: u32,
         outline: &mut Outline<Self::Position>,
     ) -> Result<usize, DeserializeError<Self::Position>> {
-        let pos = self.position();
         let mut depth = outline.top_depth().unwrap();
         let mut last_child_index = usize::MAX;
         let mut collection_type = CollectionType::Object; // Default value prior to being set.
@@ -2012,13 +2011,13 @@ trait TextReaderExt: TextReader {
                 }
                 Some(_) => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedChar,
                     ))
                 }
                 None => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedEof,
                     ))
                 }
-- 
2.43.0


From 27b31ef5c470ffd5fd9adc8e937169b1fa69a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 08/19] fix: keep the whole exponent of numbers which are read
 out of order

Exponents which do not fit in 16 bits were rejected, although the same number
is accepted when it is read directly.
---
 json/src/deserialize/text.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 887d448..102b8e0 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -109,7 +109,7 @@ enum LookbackValue {
         negate: bool,
 
         /// The base-10 exponent for this number.
-        exp: i16,
+        exp: i32,
     },
 
     /// A JSON object. The entry data comes from the following items in `lookback_items`.
@@ -290,7 +290,6 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                             ));
                         }
                     }
-                    let exp = i32::from(exp);
                     T::from_builder(builder, negate, exp)
                         .ok_or_else(|| DeserializeError::new(pos.clone(), NumberOverflow))
                 } else {
@@ -1866,12 +1865,6 @@ trait TextReaderExt: TextReader {
                         };
                         self.read_number_into_builder(&mut builder)?
                     };
-                    let Ok(exp) = exp.try_into() else {
-                        return Err(DeserializeError::new(
-                            pos,
-                            DeserializeErrorMessage::NumberOverflow,
-                        ));
-                    };
                     outline.push_item(
                         &mut last_child_index,
                         pos,
-- 
2.43.0


From b2626478d382a4f76272feffc73b3c05047ccaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 09/19] fix: do not overflow the stack when skipping a deeply
 nested value

---
 json/src/deserialize/mod.rs | 63 +++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index a2a3b86..266e206 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -30,30 +30,53 @@ pub trait JsonDeserializer: JsonOutliner + Deserializer {
 
     /// Assuming that the top item on the stack is a value, pops it without deserialization.
     fn skip_value(&mut self) -> Result<(), Self::Error> {
-        match self.peek_value_type() {
-            ValueType::String => {
-                self.open_str()?;
-                self.skip_str()?;
-            }
-            ValueType::Number => {
-                self.get_f32()?;
-            }
-            ValueType::Object => {
-                self.open_object()?;
-                self.skip_object()?;
-            }
-            ValueType::Array => {
-                self.open_list()?;
-                while self.next_item()? {
-                    self.skip_value()?;
+        // The number of collections which have been opened, and need to be closed. This is used
+        // instead of recursion since the input decides how deep it is.
+        let mut depth: usize = 0;
+        loop {
+            match self.peek_value_type() {
+                ValueType::String => {
+                    self.open_str()?;
+                    self.skip_str()?;
+                }
+                ValueType::Number => {
+                    self.get_f32()?;
+                }
+                ValueType::Object => {
+                    self.open_object()?;
+                    depth += 1;
+                }
+                ValueType::Array => {
+                    self.open_list()?;
+                    depth += 1;
                 }
+                ValueType::Bool => {
+                    self.get_bool()?;
+                }
+                ValueType::Null => self.pop_null()?,
             }
-            ValueType::Bool => {
-                self.get_bool()?;
+
+            // Find the next value to skip
+            loop {
+                if depth == 0 {
+                    return Ok(());
+                }
+                let has_value = match self.peek_collection_type() {
+                    CollectionType::Object => {
+                        let has_entry = self.next_entry()?;
+                        if has_entry {
+                            self.skip_str()?;
+                        }
+                        has_entry
+                    }
+                    CollectionType::Array => self.next_item()?,
+                };
+                if has_value {
+                    break;
+                }
+                depth -= 1;
             }
-            ValueType::Null => self.pop_null()?,
         }
-        Ok(())
     }
 
     /// Pushes a "virtual" `null` literal as a value onto the stack, assuming that the current top
-- 
2.43.0


From e71dfb209c15991a85828a91aa1f56ac0bcb3eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 10/19] fix: keep track of the remaining length of a list in
 List::next

Only `push` updated it, so `rem_len` was wrong after `next`.
---
 core/src/helper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 4dee6dd..3370775 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -582,6 +582,9 @@ impl<'a, D: Deserializer + ?Sized> List<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         self.ready_flag = false;
         Ok(if self.source.next_item()? {
+            if self.is_len_known {
+                self.rem_len = self.rem_len.saturating_sub(1);
+            }
             Some(Value::new(self.source, &mut self.ready_flag))
         } else {
             *self.done_flag = true;
-- 
2.43.0


From 7f77c489c6297a19a78e91cc5cfc4a75fc55a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 11/19] fix: accept every way of writing zero as an integer

Zero was rejected when the power of ten for its exponent or fraction does not
fit in the integer type.
---
 json/src/deserialize/number.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/number.rs b/json/src/deserialize/number.rs
index c7bcd7b..2d74be5 100644
--- a/json/src/deserialize/number.rs
+++ b/json/src/deserialize/number.rs
@@ -21,7 +21,10 @@ macro_rules! impl_unsigned {
         impl Num for $ty {
             type Builder = Self;
             fn from_builder(value: Self, negate: bool, exp_10: i32) -> Option<Self> {
-                if negate && value != 0 {
+                if value == 0 {
+                    return Some(0);
+                }
+                if negate {
                     return None;
                 }
                 let ten: Self = 10;
@@ -64,6 +67,9 @@ macro_rules! impl_signed {
         impl Num for $ty {
             type Builder = $unsigned_ty;
             fn from_builder(mut value: Self::Builder, negate: bool, exp_10: i32) -> Option<Self> {
+                if value == 0 {
+                    return Some(0);
+                }
                 let ten: Self::Builder = 10;
                 if let Ok(exp_10) = u32::try_from(exp_10) {
                     let pow = ten.checked_pow(exp_10)?;
-- 
2.43.0


From cee2b267b2dd266149db6879222fbc3adde427b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 12/19] fix: retry interrupted reads at the start of a
 character in read_utf8

Interrupted reads were already retried for the rest of the character.
---
 core/src/text_reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2a67561..2d364a2 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -190,8 +190,13 @@ impl std::fmt::Display for LineColumnPosition {
 /// has no data remaining and returns an error if an invalid or partial character is encountered.
 pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Option<char>> {
     let mut x = 0;
-    if r.read(std::slice::from_mut(&mut x))? == 0 {
-        return Ok(None);
+    loop {
+        match r.read(std::slice::from_mut(&mut x)) {
+            Ok(0) => return Ok(None),
+            Ok(_) => break,
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err),
+        }
     }
     if x < 0b10000000 {
         return Ok(Some(x.into()));
-- 
2.43.0


From 699f621c2f7af4664895fc2a857a21e14eb0b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 13/19] fix: reject invalid UTF-8 in read_utf8

It used to panic, or to return an unrelated character, for data which is not
valid UTF-8.
---
 core/src/text_reader.rs | 46 ++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2d364a2..81aadbc 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -201,38 +201,28 @@ pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Optio
     if x < 0b10000000 {
         return Ok(Some(x.into()));
     } 
-    let ch = if x < 0b11100000 {
-        let mut buf = [0u8; 1];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00011111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else if x < 0b11110000 {
-        let mut buf = [0u8; 2];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00001111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else if x < 0b11111000 {
-        let mut buf = [0u8; 3];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00000111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[2] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else {
-        None
+    let len = match x {
+        0b11000000..=0b11011111 => 2,
+        0b11100000..=0b11101111 => 3,
+        0b11110000..=0b11110111 => 4,
+        _ => return Err(invalid_utf8()),
     };
-    if let Some(ch) = ch {
-        Ok(Some(ch))
-    } else {
-        // Error
-        todo!();
+    let mut buf = [x, 0, 0, 0];
+    r.read_exact(&mut buf[1..len])?;
+    match std::str::from_utf8(&buf[..len]) {
+        Ok(str) => Ok(str.chars().next()),
+        Err(_) => Err(invalid_utf8()),
     }
 }
 
+/// Constructs an error which says that a stream does not have valid UTF-8 data.
+fn invalid_utf8() -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidData,
+        "stream did not contain valid UTF-8",
+    )
+}
+
 #[test]
 fn test_read_utf8() {
     let str = "ab\u{0014}\u{0162}\u{0651}\u{1485}\u{0482}\u{95832}";
-- 
2.43.0


From 6077df7989868072e8b1955844e4a7d4807aaf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 14/19] fix: reject every use of a value which was already
 consumed

check_null consumes the value it finds to be null, and a Value may be made over a flag
which is already set. Most methods of Value panic with INVALID_STATE_ERROR when it is used
again, but get_tag, into_null, into_object, into_list_streaming, skip and into_collection
went on to the underlying format.
---
 core/src/helper.rs | 1 +
 json/src/helper.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 3370775..b61708e 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -341,6 +341,7 @@ impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
         max_index: usize,
         names: &'static NameMap<usize>,
     ) -> Result<usize, D::Error> {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         let res = self.source.get_tag(max_index, names)?;
         *self.done_flag = true;
         Ok(res)
diff --git a/json/src/helper.rs b/json/src/helper.rs
index 40ea3b8..b857fa1 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -16,6 +16,7 @@ pub trait ValueExt<'a, O: JsonOutliner + ?Sized> {
 impl<'a, O: JsonOutliner + ?Sized> ValueExt<'a, O> for Value<'a, O> {
     fn into_null(self) -> Result<(), O::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.pop_null()?;
         *done_flag = true;
         Ok(())
@@ -23,6 +24,7 @@ impl<'a, O: JsonOutliner + ?Sized> ValueExt<'a, O> for Value<'a, O> {
 
     fn into_object(self) -> Result<Object<'a, O>, O::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.open_object()?;
         Ok(Object::new(source, done_flag))
     }
@@ -37,6 +39,7 @@ pub trait ValueSerialierExt<'a, S: JsonSerializer + ?Sized> {
 impl<'a, S: JsonSerializer + ?Sized> ValueSerialierExt<'a, S> for Value<'a, S> {
     fn into_list_streaming(self) -> Result<List<'a, S>, S::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.open_list_streaming()?;
         Ok(List::new(source, done_flag, None))
     }
@@ -61,6 +64,7 @@ impl<'a, D: JsonDeserializer + ?Sized> ValueDeserializerExt<'a, D> for Value<'a,
 
     fn skip(self) -> Result<(), D::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.skip_value()?;
         *done_flag = true;
         Ok(())
@@ -68,6 +72,7 @@ impl<'a, D: JsonDeserializer + ?Sized> ValueDeserializerExt<'a, D> for Value<'a,
 
     fn into_collection(self) -> Result<Collection<'a, D>, D::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         if source.peek_value_type() == ValueType::Object {
             source.open_object()?;
             Ok(Object::new(source, done_flag).into())
-- 
2.43.0


From 1b5409102bdced78147cec0b5c1b1ab9a4071a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 15/19] fix: allow fields named st and ctx in derived Serialize

---
 derive/src/serialize.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 9b3afe8..3e89e75 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -230,8 +230,10 @@ fn serialize_fields(
             for field in &fields.named {
                 let field_ident = field.ident.as_ref().unwrap();
                 let field_repr = FieldRepr::get(field)?;
-                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #field_ident });
-                cons.extend(quote! { #field_ident, });
+                // Keeps fields from shadowing the names used by the generated code
+                let value = quote::format_ident!("__{}", field_ident);
+                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #value });
+                cons.extend(quote! { #field_ident: #value, });
                 body.extend(serialize);
             }
             (quote! { { #cons } }, body)
-- 
2.43.0


From cf1f6835c03c39614b230e4ceda82f44be7c7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 16/19] fix: allow generic parameters named S, D and Ctx in
 derived code

---
 derive/src/deserialize.rs | 4 ++--
 derive/src/serialize.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/derive/src/deserialize.rs b/derive/src/deserialize.rs
index 78ec71f..86c79ed 100644
--- a/derive/src/deserialize.rs
+++ b/derive/src/deserialize.rs
@@ -135,8 +135,8 @@ struct DeserializeImplContext<'a> {
 impl<'a> DeserializeImplContext<'a> {
     /// Creates a new [`DeserializeImplContext`] for the given input.
     pub fn new(input: &'a syn::DeriveInput, ser: &'a TokenStream) -> Self {
-        let d_ty = syn::Ident::new("D", Span::call_site());
-        let ctx_ty = syn::Ident::new("Ctx", Span::call_site());
+        let d_ty = syn::Ident::new("__D", Span::call_site());
+        let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
         let mut impl_generics_params = input.generics.params.clone();
         impl_generics_params
diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 3e89e75..cd207c5 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -120,8 +120,8 @@ struct SerializeImplContext<'a> {
 impl<'a> SerializeImplContext<'a> {
     /// Creates a new [`SerializeImplContext`] for the given input.
     pub fn new(input: &'a syn::DeriveInput, ser: &'a TokenStream) -> Self {
-        let s_ty = syn::Ident::new("S", Span::call_site());
-        let ctx_ty = syn::Ident::new("Ctx", Span::call_site());
+        let s_ty = syn::Ident::new("__S", Span::call_site());
+        let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
         let mut impl_generics_params = input.generics.params.clone();
         impl_generics_params
-- 
2.43.0


From ccf80d787b5fa74b171952b954bf30e94d665233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 17/19] fix: allow defaults for generic parameters in derived
 code

---
 derive/src/deserialize.rs |  2 +-
 derive/src/lib.rs         | 21 +++++++++++++++++++++
 derive/src/serialize.rs   |  2 +-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/derive/src/deserialize.rs b/derive/src/deserialize.rs
index 86c79ed..682e218 100644
--- a/derive/src/deserialize.rs
+++ b/derive/src/deserialize.rs
@@ -138,7 +138,7 @@ impl<'a> DeserializeImplContext<'a> {
         let d_ty = syn::Ident::new("__D", Span::call_site());
         let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
-        let mut impl_generics_params = input.generics.params.clone();
+        let mut impl_generics_params = generics_without_defaults(&input.generics);
         impl_generics_params
             .push(syn::parse2(quote! { #d_ty: #ser::Deserializer + ?Sized }).unwrap());
         impl_generics_params.push(syn::parse2(quote! { #ctx_ty: ?Sized }).unwrap());
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index fe5a54b..fd2ee94 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -22,6 +22,27 @@ pub fn derive_deserialize(input: proc_macro::TokenStream) -> proc_macro::TokenSt
         .into()
 }
 
+/// Gets the given generic parameters in the form used by an `impl`, where they can't have defaults.
+fn generics_without_defaults(
+    generics: &syn::Generics,
+) -> syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> {
+    let mut params = generics.params.clone();
+    for param in params.iter_mut() {
+        match param {
+            syn::GenericParam::Type(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+            syn::GenericParam::Const(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+            syn::GenericParam::Lifetime(_) => (),
+        }
+    }
+    params
+}
+
 /// The default name for the field which contains the tag for an enum.
 const DEFAULT_TAG: &str = "type";
 
diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index cd207c5..e743485 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -123,7 +123,7 @@ impl<'a> SerializeImplContext<'a> {
         let s_ty = syn::Ident::new("__S", Span::call_site());
         let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
-        let mut impl_generics_params = input.generics.params.clone();
+        let mut impl_generics_params = generics_without_defaults(&input.generics);
         impl_generics_params
             .push(syn::parse2(quote! { #s_ty: #ser::Serializer + ?Sized }).unwrap());
         impl_generics_params.push(syn::parse2(quote! { #ctx_ty: ?Sized }).unwrap());
-- 
2.43.0


From d8499d711779a291afcbc521ae0bc3119b637db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 18/19] fix: saturate number exponents instead of rejecting
 those beyond 32 bits

A document with such an exponent was rejected when the number was buffered,
but accepted when it was skipped, and zero or a float with such an exponent
was rejected although it can be represented.
---
 json/src/deserialize/text.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 102b8e0..94fb1bf 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1643,17 +1643,15 @@ trait TextReaderExt: TextReader {
                 Some(ch @ '0'..='9') => {
                     self.next();
                     if !exp_builder.push_digit((ch as u8) - b'0') {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
+                        exp_builder = u32::MAX;
                     }
                 }
                 _ => {
-                    let Some(exp) = i32::from_builder(exp_builder, negate_exp, 0) else {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
-                    };
-                    let Some(exp) = exp.checked_add(decimal_exp) else {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
-                    };
-                    return Ok((negate, exp));
+                    // Exponents out of range are saturated, which is still far beyond what any
+                    // number type can represent.
+                    let exp = i32::from_builder(exp_builder, negate_exp, 0)
+                        .unwrap_or(if negate_exp { i32::MIN } else { i32::MAX });
+                    return Ok((negate, exp.saturating_add(decimal_exp)));
                 }
             }
         }
-- 
2.43.0


From 340b8d03c14c901a006e407accf8ebfe7b24a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 19/19] fix: do not visit read entries again for each next
 entry

---
 json/src/deserialize/text.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 94fb1bf..9f27455 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1246,14 +1246,13 @@ fn first_unread_child<Position>(
     lookback_items: &[LookbackItem<Position>],
     first_child_index: &mut usize,
 ) -> Option<usize> {
-    let mut child_index = *first_child_index;
     loop {
-        let child_item = lookback_items.get(child_index)?;
+        let child_item = lookback_items.get(*first_child_index)?;
         if child_item.value.is_some() {
-            *first_child_index = child_index;
-            return Some(child_index);
+            return Some(*first_child_index);
         } else {
-            child_index = child_item.next_sibling_index;
+            // Never visit a read item again
+            *first_child_index = child_item.next_sibling_index;
         }
     }
 }
-- 
2.43.0

