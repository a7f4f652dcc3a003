From 0023f4800e4dc3ea6ee6eeebb7c9914308801356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 1/5] fix: deserialization treats the sequence length as a hint
 and reports errors

A length announced by the (possibly corrupted) input was trusted: a wrong
length made deserialization panic, a huge one tried to allocate that much
memory, and a number that is too large panicked. Use the hint only to
preallocate, and report a number that is too large as an error.
---
 src/serde.rs | 64 ++++++++++++++++++++--------------------------------
 1 file changed, 25 insertions(+), 39 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 5c65e0a..cc8b1c4 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -1,8 +1,7 @@
 use crate::{arch::word::Word, buffer::Buffer, ibig::IBig, primitive::WORD_BITS_USIZE, ubig::UBig};
-use alloc::vec::Vec;
 use core::fmt::{self, Formatter};
 use serde::{
-    de::{Deserialize, Deserializer, SeqAccess, Visitor},
+    de::{Deserialize, Deserializer, Error, SeqAccess, Visitor},
     ser::{Serialize, SerializeSeq, Serializer},
 };
 use static_assertions::const_assert;
@@ -10,6 +9,12 @@ use static_assertions::const_assert;
 const_assert!(64 % WORD_BITS_USIZE == 0);
 const WORDS_PER_U64: usize = 64 / WORD_BITS_USIZE;
 
+/// Maximum number of 64-bit words to preallocate space for before reading any of them.
+const MAX_PREALLOCATED_WORDS_64: usize = 256;
+// Make sure we always have enough space for leading zero Words.
+const_assert!(Buffer::MAX_CAPACITY - UBig::MAX_LEN >= WORDS_PER_U64 - 1);
+const_assert!(Buffer::MAX_CAPACITY >= MAX_PREALLOCATED_WORDS_64 * WORDS_PER_U64);
+
 impl Serialize for UBig {
     #[allow(clippy::useless_conversion)]
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
@@ -42,37 +47,21 @@ impl<'de> Visitor<'de> for UBigVisitor {
     }
 
     fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<UBig, A::Error> {
-        match seq.size_hint() {
-            Some(0) => {
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from_word(0))
-            }
-            Some(1) => {
-                let word_64: u64 = seq.next_element()?.unwrap();
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from(word_64))
-            }
-            Some(num_words_64) => {
-                let mut buffer = Buffer::allocate(len_64_to_max_len(num_words_64));
-                for _ in 0..num_words_64 {
-                    let word_64: u64 = seq.next_element()?.unwrap();
-                    push_word_64(&mut buffer, word_64);
-                }
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(buffer.into())
-            }
-            None => {
-                let mut words_64 = Vec::new();
-                while let Some(word_64) = seq.next_element()? {
-                    words_64.push(word_64);
-                }
-                let mut buffer = Buffer::allocate(len_64_to_max_len(words_64.len()));
-                for word_64 in words_64 {
-                    push_word_64(&mut buffer, word_64);
-                }
-                Ok(buffer.into())
+        // The size hint may come from corrupted input: use it only to preallocate.
+        let num_words_64 = seq.size_hint().unwrap_or(0).min(MAX_PREALLOCATED_WORDS_64);
+        let mut buffer = Buffer::allocate(num_words_64 * WORDS_PER_U64);
+        while let Some(word_64) = seq.next_element()? {
+            if buffer.len() > Buffer::MAX_CAPACITY - WORDS_PER_U64 {
+                return Err(error_number_too_large());
             }
+            buffer.ensure_capacity(buffer.len() + WORDS_PER_U64);
+            push_word_64(&mut buffer, word_64);
+        }
+        buffer.pop_leading_zeros();
+        if buffer.len() > UBig::MAX_LEN {
+            return Err(error_number_too_large());
         }
+        Ok(buffer.into())
     }
 }
 
@@ -82,14 +71,11 @@ fn push_word_64(buffer: &mut Buffer, word_64: u64) {
     }
 }
 
-#[allow(clippy::absurd_extreme_comparisons)]
-fn len_64_to_max_len(len_64: usize) -> usize {
-    // Make sure we always have enough space for leading zero Words.
-    const_assert!(Buffer::MAX_CAPACITY - UBig::MAX_LEN >= WORDS_PER_U64 - 1);
-    #[allow(clippy::redundant_closure)]
-    len_64
-        .checked_mul(WORDS_PER_U64)
-        .unwrap_or_else(|| UBig::panic_number_too_large())
+fn error_number_too_large<E: Error>() -> E {
+    E::custom(format_args!(
+        "number too large, maximum is {} bits",
+        UBig::MAX_BIT_LEN
+    ))
 }
 
 impl Serialize for IBig {
-- 
2.43.0


From d1718bd1d8b0a08679aafd363f78873df47a3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 2/5] fix: clear_bit beyond the word of a small number keeps
 the number

Clearing a bit at or above the word size of a one-word UBig set it to zero.
---
 src/bits.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bits.rs b/src/bits.rs
index defa629..13fdb11 100644
--- a/src/bits.rs
+++ b/src/bits.rs
@@ -100,9 +100,8 @@ impl UBig {
     pub fn clear_bit(&mut self, n: usize) {
         match mem::take(self).into_repr() {
             Small(word) => {
-                if n < WORD_BITS_USIZE {
-                    *self = UBig::from_word(word & !(1 << n))
-                }
+                let mask = if n < WORD_BITS_USIZE { 1 << n } else { 0 };
+                *self = UBig::from_word(word & !mask)
             }
             Large(buffer) => *self = UBig::without_bit_large(buffer, n),
         }
-- 
2.43.0


From 9a5b89ad1cc1dd80b86951b60bb0adbb0f56a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 3/5] fix: Modulo::clone_from leaves the target intact when out
 of memory

The ring was replaced before the value was cloned: when the allocation
panicked, the target was left with the new ring and the old value.
---
 src/modular/modulo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modular/modulo.rs b/src/modular/modulo.rs
index b9184df..cd7d89b 100644
--- a/src/modular/modulo.rs
+++ b/src/modular/modulo.rs
@@ -209,7 +209,6 @@ impl Clone for ModuloLarge<'_> {
     }
 
     fn clone_from(&mut self, source: &Self) {
-        self.ring = source.ring;
         if self.normalized_value.len() == source.normalized_value.len() {
             self.normalized_value
                 .copy_from_slice(&source.normalized_value)
@@ -217,5 +216,7 @@ impl Clone for ModuloLarge<'_> {
             // We don't want to have spare capacity, so do not clone_from.
             self.normalized_value = source.normalized_value.clone();
         }
+        // Only now: cloning may panic if out of memory.
+        self.ring = source.ring;
     }
 }
-- 
2.43.0


From 46a4f00d83d96f4653747099bb6b29f0b3391d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 4/5] fix: leading zeros of byte strings and digits do not
 count towards the maximum size

---
 src/convert.rs         |  9 +++++++++
 src/parse/power_two.rs | 10 +++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 41c986b..01bf903 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -48,6 +48,12 @@ impl UBig {
 
     fn from_le_bytes_large(bytes: &[u8]) -> UBig {
         debug_assert!(bytes.len() > WORD_BYTES);
+        // Leading zeros must not count towards the maximum size.
+        let num_bytes = bytes
+            .iter()
+            .rposition(|&byte| byte != 0)
+            .map_or(0, |i| i + 1);
+        let bytes = &bytes[..num_bytes.max(1)];
         let mut buffer = Buffer::allocate((bytes.len() - 1) / WORD_BYTES + 1);
         let mut chunks = bytes.chunks_exact(WORD_BYTES);
         for chunk in &mut chunks {
@@ -79,6 +85,9 @@ impl UBig {
 
     fn from_be_bytes_large(bytes: &[u8]) -> UBig {
         debug_assert!(bytes.len() > WORD_BYTES);
+        // Leading zeros must not count towards the maximum size.
+        let zeros = bytes.iter().take_while(|&&byte| byte == 0).count();
+        let bytes = &bytes[zeros.min(bytes.len() - 1)..];
         let mut buffer = Buffer::allocate((bytes.len() - 1) / WORD_BYTES + 1);
         let mut chunks = bytes.rchunks_exact(WORD_BYTES);
         for chunk in &mut chunks {
diff --git a/src/parse/power_two.rs b/src/parse/power_two.rs
index 1b3b9f1..56d3f04 100644
--- a/src/parse/power_two.rs
+++ b/src/parse/power_two.rs
@@ -4,6 +4,7 @@ use crate::{
     arch::word::Word,
     buffer::Buffer,
     error::ParseError,
+    math,
     primitive::{WORD_BITS, WORD_BITS_USIZE},
     radix::{self, Digit},
     ubig::UBig,
@@ -47,10 +48,13 @@ fn parse_large(src: &str, radix: Digit) -> Result<UBig, ParseError> {
     debug_assert!(radix::is_radix_valid(radix) && radix.is_power_of_two());
 
     let log_radix = radix.trailing_zeros();
+    let first_digit =
+        radix::digit_from_utf8_byte(src.as_bytes()[0], radix).ok_or(ParseError::InvalidDigit)?;
+    // The bits of the first digit count only from its highest set bit.
     #[allow(clippy::redundant_closure)]
-    let num_bits = src
-        .len()
+    let num_bits = (src.len() - 1)
         .checked_mul(log_radix as usize)
+        .and_then(|bits| bits.checked_add(math::bit_len(first_digit) as usize))
         .unwrap_or_else(|| UBig::panic_number_too_large());
     let mut buffer = Buffer::allocate((num_bits - 1) / WORD_BITS_USIZE + 1);
     let mut bits = 0;
@@ -67,7 +71,7 @@ fn parse_large(src: &str, radix: Digit) -> Result<UBig, ParseError> {
             bits = new_bits;
         }
     }
-    if bits > 0 {
+    if word > 0 {
         buffer.push(word);
     }
     Ok(buffer.into())
-- 
2.43.0


From c5a8c1c5daba19bc34c00359ff1e5d155d932a40 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:43:13 +0000
Subject: [PATCH 5/5] fix: Signed::abs_sub gives the positive difference

num_traits documents zero when self is not greater than other; the absolute
value of the difference was returned.
---
 src/num_traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_traits.rs b/src/num_traits.rs
index cec7076..2e40374 100644
--- a/src/num_traits.rs
+++ b/src/num_traits.rs
@@ -88,7 +88,11 @@ impl num_traits::Signed for IBig {
 
     #[inline]
     fn abs_sub(&self, other: &Self) -> Self {
-        Abs::abs(self - other)
+        if self > other {
+            self - other
+        } else {
+            IBig::from(0u8)
+        }
     }
 
     #[inline]
-- 
2.43.0

