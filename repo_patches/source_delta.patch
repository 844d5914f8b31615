From 35559a6e69394b16cbd3b7f509a32b3269f1e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 01/14] fix: write the zero for skipped groups in Chinese
 numerals
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

100001000 was formatted as 一亿一千 instead of 一亿零一千: the zero was only
written by the group being formatted, and a group whose thousands digit is
not zero never wrote one for the all-zero group that was skipped before it.
---
 src/chinese.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/chinese.rs b/src/chinese.rs
index bb07b80..5fc46b2 100644
--- a/src/chinese.rs
+++ b/src/chinese.rs
@@ -363,6 +363,13 @@ impl ChineseScale {
         if remaining.is_zero() {
             Ok(formatted)
         } else {
+            if !formatted.is_empty() && remaining < scale / T::from(10) {
+                // The digit after this rank's character is zero. It can belong
+                // to a group that is skipped because all of its digits are
+                // zero.
+                formatted.try_push(characters[0])?;
+                *last_char_is_zero = true;
+            }
             let remaining = Self::format_next_scaled_rank::<T, FORMAL, N>(
                 rank,
                 scales,
-- 
2.43.0


From cae973b27c4c183116afd9cd3f605cf4d22ee8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 02/14] fix: honor one-based counting when a digit collection
 is larger than T

A one-based collection of 256 or more digits returned the wrong digit for
every u8, and a digit instead of NoZeroSymbol for 0.
---
 src/digital.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 38cba9c..a701808 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -560,7 +560,13 @@ where
 {
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         let Ok(mut count) = T::try_from(self.len()) else {
-            return Ok(NominalString::from(self.digit(nominal.as_usize())));
+            // All values of `T` are less than the number of digits, so each can be
+            // represented by a single digit.
+            let mut index = nominal.as_usize();
+            if !self.has_zero_digit() && !self.zero_based() {
+                index = index.checked_sub(1).ok_or(Error::NoZeroSymbol)?;
+            }
+            return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
             && (if self.zero_based() {
-- 
2.43.0


From 459b517d79674f6cc06728ed7eba9b5723c157f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 03/14] fix: forward fixed() through OneBased and Restrict

Wrapping a fixed digit collection made it positional, so
CjkHeavenlyStem.one_based() formatted 11 with two stems instead of using the
fallback.
---
 src/digital.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/digital.rs b/src/digital.rs
index a701808..0287381 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -75,6 +75,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -486,6 +490,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
-- 
2.43.0


From ed9f30144210a977ad4c55f5379cf1199a22eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 04/14] fix: ignore zero_based() of fixed digit collections
 with a zero digit

zero_based() has no meaning if has_zero_digit() is true, but a fixed
collection with a zero digit that was one-based formatted its own length
with two digits instead of using the fallback.
---
 src/digital.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 0287381..6a7971e 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -577,7 +577,7 @@ where
             return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
-            && (if self.zero_based() {
+            && (if self.has_zero_digit() || self.zero_based() {
                 nominal >= count
             } else {
                 nominal > count
-- 
2.43.0


From e3cebd64ab7807c68221b279a62b2418fa882a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 05/14] fix: return OutOfBounds for digit collections without
 usable digits

An empty collection divided by zero, and a collection consisting only of a
zero digit never finished formatting a nominal other than 0.
---
 src/digital.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/digital.rs b/src/digital.rs
index 6a7971e..09a859e 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -592,6 +592,12 @@ where
         }
 
         let one = T::from(1_u8);
+        if count.is_zero() || (count == one && self.has_zero_digit() && !nominal.is_zero()) {
+            // Without any digits, or with only a digit for zero, there is no
+            // positional representation.
+            return Err(Error::OutOfBounds(nominal));
+        }
+
         let mut formatted = NominalString::new_reverse();
 
         let mut remaining = nominal;
-- 
2.43.0


From 1128d929b7f67962ad6c640682589ee2bf3e52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 06/14] fix: limit the length of Restrict to the restricted
 collection

Restricting a collection to more digits than it has made formatting panic.
---
 src/digital.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 09a859e..b5acf95 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -503,7 +503,7 @@ where
     }
 
     fn len(&self) -> usize {
-        self.1
+        self.1.min(self.0.len())
     }
 
     fn digit(&self, index: usize) -> char {
-- 
2.43.0


From c9b800f44679db140c1064e226b98b4a67bf000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 07/14] fix: return OutOfBounds from AdditiveSet when a
 remainder is left

A set without a symbol for 1 silently dropped the part of the nominal that
its symbols cannot represent.
---
 src/additive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/additive.rs b/src/additive.rs
index 175f076..36b47ba 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -61,7 +61,11 @@ where
             }
         }
 
-        Ok(formatted)
+        if remaining.is_zero() {
+            Ok(formatted)
+        } else {
+            Err(Error::OutOfBounds(nominal))
+        }
     }
 }
 
-- 
2.43.0


From 74deeb7a46274140dd1e3677cac3815d20bfef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 08/14] fix: return OutOfMemory for symbols that do not fit
 without alloc

An enumerated symbol or an additive zero symbol longer than 62 bytes
panicked instead of returning OutOfMemory when alloc is disabled.
---
 src/additive.rs   | 3 ++-
 src/enumerated.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/additive.rs b/src/additive.rs
index 36b47ba..571464c 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -41,7 +41,8 @@ where
         let mut remaining = nominal;
         if remaining.is_zero() {
             return if let Some(zero) = self.zero {
-                Ok(NominalString::from(zero))
+                formatted.try_push_str(zero).with_nominal(nominal)?;
+                Ok(formatted)
             } else {
                 Err(Error::NoZeroSymbol)
             };
diff --git a/src/enumerated.rs b/src/enumerated.rs
index c638bb3..2c11fd5 100644
--- a/src/enumerated.rs
+++ b/src/enumerated.rs
@@ -1,4 +1,4 @@
-use crate::{Error, Nominal, NominalString, NominalSystem};
+use crate::{Error, Nominal, NominalString, NominalSystem, WithNominal};
 
 /// A set of enumerated symbols that form a [`NominalSystem`].
 pub struct EnumeratedSet<const N: usize, const HAS_ZERO: bool> {
@@ -35,7 +35,9 @@ where
         if !HAS_ZERO && nominal.is_zero() {
             Err(Error::NoZeroSymbol)
         } else if let Some(&symbol) = self.symbols.get(n - usize::from(!HAS_ZERO)) {
-            Ok(symbol.into())
+            let mut formatted = NominalString::new();
+            formatted.try_push_str(symbol).with_nominal(nominal)?;
+            Ok(formatted)
         } else {
             Err(Error::OutOfBounds(nominal))
         }
-- 
2.43.0


From cdf8fda90c3d552663c2226f12828ae1c1ea2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 09/14] fix: do not reference uninitialized bytes in
 InlineString::push_front

A `&mut [u8]` that covered bytes that were not initialized yet was created
when pushing a character to the front of an empty or short string.
---
 src/nominalstring.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nominalstring.rs b/src/nominalstring.rs
index 0324111..1c12a5d 100644
--- a/src/nominalstring.rs
+++ b/src/nominalstring.rs
@@ -391,10 +391,9 @@ impl InlineString {
     }
 
     fn push_front(&mut self, ch: char, char_len: u8, inline_len: u8, new_length: u8) {
+        let mut utf8_bytes = [0; 4];
+        ch.encode_utf8(&mut utf8_bytes);
         if self.is_reverse() {
-            let mut utf8_bytes = [0; 4];
-            ch.encode_utf8(&mut utf8_bytes);
-
             let start = MaybeInline::INLINE_CAPACITY - new_length;
             let end = MaybeInline::INLINE_CAPACITY - inline_len;
             for (dest, src) in self.bytes[usize::from(start)..usize::from(end)]
@@ -403,14 +402,19 @@ impl InlineString {
             {
                 dest.write(*src);
             }
-            self.set_length(new_length);
         } else {
             self.bytes
                 .copy_within(0..usize::from(inline_len), usize::from(char_len));
-            self.set_length(new_length);
 
-            ch.encode_utf8(self.as_bytes_mut());
+            for (dest, src) in self
+                .bytes
+                .iter_mut()
+                .zip(&utf8_bytes[0..usize::from(char_len)])
+            {
+                dest.write(*src);
+            }
         }
+        self.set_length(new_length);
     }
 }
 
-- 
2.43.0


From 76c92f8df83891cb28cb9adb94c165ab9cd2cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 10/14] fix: forward format_nominal through Box, Rc and Arc

A system that overrides format_nominal formatted differently when boxed.
---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bd5f15d..dc41af7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,10 @@ impl<T> NominalSystem<T> for alloc::boxed::Box<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -70,6 +74,10 @@ impl<T> NominalSystem<T> for alloc::rc::Rc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -80,6 +88,10 @@ impl<T> NominalSystem<T> for alloc::sync::Arc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
-- 
2.43.0


From 37c375a2bb7983d23ec5640121703f4a71a4236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 11/14] fix: remove the trailing space from the Armenian
 numeral for one

ArmenianUpper wrote a space after the letter for 1; ArmenianLower and the CSS
armenian counter style do not.
---
 README.md             | 2 +-
 src/.crate-docs.md    | 2 +-
 src/additive.rs       | 2 +-
 src/previews/index.md | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 3a2726a..9ac1a05 100644
--- a/README.md
+++ b/README.md
@@ -60,7 +60,7 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`CircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.CircledNumber.html): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.DoubleCircledNumber.html): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianLower.html): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianUpper.html): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianUpper.html): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`](https://khonsulabs.github.io/nominals/main/nominals/struct.Bengali.html): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`](https://khonsulabs.github.io/nominals/main/nominals/struct.Cambodian.html): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`](https://khonsulabs.github.io/nominals/main/nominals/struct.SimplifiedChineseInformal.html): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
diff --git a/src/.crate-docs.md b/src/.crate-docs.md
index 11b184b..a39cec7 100644
--- a/src/.crate-docs.md
+++ b/src/.crate-docs.md
@@ -58,7 +58,7 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`CircledNumber`](CircledNumber): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](DoubleCircledNumber): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](ArmenianLower): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`](ArmenianUpper): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`](ArmenianUpper): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`](Bengali): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`](Cambodian): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`](SimplifiedChineseInformal): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
diff --git a/src/additive.rs b/src/additive.rs
index 571464c..0fc994d 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -247,7 +247,7 @@ where
             ("Դ", 4),
             ("Գ", 3),
             ("Բ", 2),
-            ("Ա ", 1),
+            ("Ա", 1),
         ])
         .try_format_nominal(nominal)
     }
diff --git a/src/previews/index.md b/src/previews/index.md
index ba2d42e..90a565c 100644
--- a/src/previews/index.md
+++ b/src/previews/index.md
@@ -6,7 +6,7 @@
 - [`CircledNumber`]($NominalSystemDocPrefix$CircledNumber$NominalSystemDocSuffix$): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`]($NominalSystemDocPrefix$DoubleCircledNumber$NominalSystemDocSuffix$): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`]($NominalSystemDocPrefix$ArmenianLower$NominalSystemDocSuffix$): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`]($NominalSystemDocPrefix$ArmenianUpper$NominalSystemDocSuffix$): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`]($NominalSystemDocPrefix$ArmenianUpper$NominalSystemDocSuffix$): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`]($NominalSystemDocPrefix$Bengali$NominalSystemDocSuffix$): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`]($NominalSystemDocPrefix$Cambodian$NominalSystemDocSuffix$): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`]($NominalSystemDocPrefix$SimplifiedChineseInformal$NominalSystemDocSuffix$): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
-- 
2.43.0


From 8808fbb0150b1db6cfe42372ecbe7c75df49c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 12/14] fix: use the subtractive pairs of 90 and 900 for 90,000
 and 900,000 in Roman numerals

---
 src/additive.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/additive.rs b/src/additive.rs
index 0fc994d..c82875e 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -92,11 +92,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("m̅", 1_000_000),
-            ("d̅m̅", 900_000),
+            ("c̅m̅", 900_000),
             ("d̅", 500_000),
             ("c̅d̅", 400_000),
             ("c̅", 100_000),
-            ("l̅c̅", 90_000),
+            ("x̅c̅", 90_000),
             ("l̅", 50_000),
             ("x̅l̅", 40_000),
             ("x̅", 10_000),
@@ -144,11 +144,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("M̅", 1_000_000),
-            ("D̅M̅", 900_000),
+            ("C̅M̅", 900_000),
             ("D̅", 500_000),
             ("C̅D̅", 400_000),
             ("C̅", 100_000),
-            ("L̅C̅", 90_000),
+            ("X̅C̅", 90_000),
             ("L̅", 50_000),
             ("X̅L̅", 40_000),
             ("X̅", 10_000),
-- 
2.43.0


From d94a7b26dde4974b393eafc9d99c2a4c443f79f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:48 +0000
Subject: [PATCH 13/14] fix: C28 show the Roman numeral that the code writes
 for 999999

---
 README.md                  | 4 ++--
 src/.crate-docs.md         | 4 ++--
 src/previews/RomanLower.md | 2 +-
 src/previews/RomanUpper.md | 2 +-
 src/previews/index.md      | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/README.md b/README.md
index 9ac1a05..1e1eaad 100644
--- a/README.md
+++ b/README.md
@@ -55,8 +55,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](https://khonsulabs.github.io/nominals/main/nominals/struct.Decimal.html): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterLower.html): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterUpper.html): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.CircledNumber.html): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.DoubleCircledNumber.html): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianLower.html): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/.crate-docs.md b/src/.crate-docs.md
index a39cec7..1380073 100644
--- a/src/.crate-docs.md
+++ b/src/.crate-docs.md
@@ -53,8 +53,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](Decimal): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](LetterLower): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](LetterUpper): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](CircledNumber): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](DoubleCircledNumber): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](ArmenianLower): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/previews/RomanLower.md b/src/previews/RomanLower.md
index 5a2d439..a933ab8 100644
--- a/src/previews/RomanLower.md
+++ b/src/previews/RomanLower.md
@@ -17,6 +17,6 @@
 | 4000    | i̅v̅           |
 | 4001    | i̅v̅i          |
 | …       | …            |
-| 999999  | d̅m̅l̅c̅i̅x̅cmxcix |
+| 999999  | c̅m̅x̅c̅i̅x̅cmxcix |
 | 1000000 | m̅            |
 | 1000001 | m̅i           |
diff --git a/src/previews/RomanUpper.md b/src/previews/RomanUpper.md
index 78f1f66..70be120 100644
--- a/src/previews/RomanUpper.md
+++ b/src/previews/RomanUpper.md
@@ -17,6 +17,6 @@
 | 4000    | I̅V̅           |
 | 4001    | I̅V̅I          |
 | …       | …            |
-| 999999  | D̅M̅L̅C̅I̅X̅CMXCIX |
+| 999999  | C̅M̅X̅C̅I̅X̅CMXCIX |
 | 1000000 | M̅            |
 | 1000001 | M̅I           |
diff --git a/src/previews/index.md b/src/previews/index.md
index 90a565c..c2104a7 100644
--- a/src/previews/index.md
+++ b/src/previews/index.md
@@ -1,8 +1,8 @@
 - [`Decimal`]($NominalSystemDocPrefix$Decimal$NominalSystemDocSuffix$): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`]($NominalSystemDocPrefix$LetterLower$NominalSystemDocSuffix$): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`]($NominalSystemDocPrefix$LetterUpper$NominalSystemDocSuffix$): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`]($NominalSystemDocPrefix$CircledNumber$NominalSystemDocSuffix$): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`]($NominalSystemDocPrefix$DoubleCircledNumber$NominalSystemDocSuffix$): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`]($NominalSystemDocPrefix$ArmenianLower$NominalSystemDocSuffix$): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- 
2.43.0


From dd06e11b033c676c5c0d6d80b37844ea2ae92fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:34 +0000
Subject: [PATCH 14/14] fix: C28 show the samples of TraditionalChineseInformal
 in its documentation

---
 src/chinese.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chinese.rs b/src/chinese.rs
index 5fc46b2..6ddbc23 100644
--- a/src/chinese.rs
+++ b/src/chinese.rs
@@ -516,6 +516,7 @@ where
 ///
 /// This type performs the "informal" rules as defined by the CSS standard. This
 /// allows the tens digit to be omitted in some situations.
+#[doc = include_str!("./previews/TraditionalChineseInformal.md")]
 #[derive(Debug, Default, Clone, Copy, Eq, PartialEq)]
 pub struct TraditionalChineseInformal(ChineseOptions);
 
-- 
2.43.0

