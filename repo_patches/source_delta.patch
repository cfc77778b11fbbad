From efad34456f99aa898df006fef4a1d541f64d96db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 01/10] fix: ArmenianUpper writes 1 without a trailing space

---
 README.md             | 2 +-
 src/.crate-docs.md    | 2 +-
 src/additive.rs       | 2 +-
 src/previews/index.md | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 3a2726a..9ac1a05 100644
--- a/README.md
+++ b/README.md
@@ -60,7 +60,7 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`CircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.CircledNumber.html): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.DoubleCircledNumber.html): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianLower.html): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianUpper.html): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianUpper.html): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`](https://khonsulabs.github.io/nominals/main/nominals/struct.Bengali.html): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`](https://khonsulabs.github.io/nominals/main/nominals/struct.Cambodian.html): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`](https://khonsulabs.github.io/nominals/main/nominals/struct.SimplifiedChineseInformal.html): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
diff --git a/src/.crate-docs.md b/src/.crate-docs.md
index 11b184b..a39cec7 100644
--- a/src/.crate-docs.md
+++ b/src/.crate-docs.md
@@ -58,7 +58,7 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`CircledNumber`](CircledNumber): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](DoubleCircledNumber): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](ArmenianLower): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`](ArmenianUpper): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`](ArmenianUpper): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`](Bengali): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`](Cambodian): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`](SimplifiedChineseInformal): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
diff --git a/src/additive.rs b/src/additive.rs
index 175f076..1bbb0cb 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -242,7 +242,7 @@ where
             ("Դ", 4),
             ("Գ", 3),
             ("Բ", 2),
-            ("Ա ", 1),
+            ("Ա", 1),
         ])
         .try_format_nominal(nominal)
     }
diff --git a/src/previews/index.md b/src/previews/index.md
index ba2d42e..90a565c 100644
--- a/src/previews/index.md
+++ b/src/previews/index.md
@@ -6,7 +6,7 @@
 - [`CircledNumber`]($NominalSystemDocPrefix$CircledNumber$NominalSystemDocSuffix$): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`]($NominalSystemDocPrefix$DoubleCircledNumber$NominalSystemDocSuffix$): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`]($NominalSystemDocPrefix$ArmenianLower$NominalSystemDocSuffix$): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`]($NominalSystemDocPrefix$ArmenianUpper$NominalSystemDocSuffix$): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`]($NominalSystemDocPrefix$ArmenianUpper$NominalSystemDocSuffix$): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`]($NominalSystemDocPrefix$Bengali$NominalSystemDocSuffix$): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`]($NominalSystemDocPrefix$Cambodian$NominalSystemDocSuffix$): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`]($NominalSystemDocPrefix$SimplifiedChineseInformal$NominalSystemDocSuffix$): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
-- 
2.43.0


From eae8a077f2bd8493a3418d456ecbb4ca171d0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 02/10] fix: Roman numerals write 90,000 and 900,000 as
 overlined XC and CM

---
 README.md                  | 4 ++--
 src/.crate-docs.md         | 4 ++--
 src/additive.rs            | 8 ++++----
 src/previews/RomanLower.md | 2 +-
 src/previews/RomanUpper.md | 2 +-
 src/previews/index.md      | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/README.md b/README.md
index 9ac1a05..1e1eaad 100644
--- a/README.md
+++ b/README.md
@@ -55,8 +55,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](https://khonsulabs.github.io/nominals/main/nominals/struct.Decimal.html): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterLower.html): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterUpper.html): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.CircledNumber.html): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.DoubleCircledNumber.html): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianLower.html): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/.crate-docs.md b/src/.crate-docs.md
index a39cec7..1380073 100644
--- a/src/.crate-docs.md
+++ b/src/.crate-docs.md
@@ -53,8 +53,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](Decimal): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](LetterLower): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](LetterUpper): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](CircledNumber): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](DoubleCircledNumber): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](ArmenianLower): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/additive.rs b/src/additive.rs
index 1bbb0cb..50533f7 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -87,11 +87,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("m̅", 1_000_000),
-            ("d̅m̅", 900_000),
+            ("c̅m̅", 900_000),
             ("d̅", 500_000),
             ("c̅d̅", 400_000),
             ("c̅", 100_000),
-            ("l̅c̅", 90_000),
+            ("x̅c̅", 90_000),
             ("l̅", 50_000),
             ("x̅l̅", 40_000),
             ("x̅", 10_000),
@@ -139,11 +139,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("M̅", 1_000_000),
-            ("D̅M̅", 900_000),
+            ("C̅M̅", 900_000),
             ("D̅", 500_000),
             ("C̅D̅", 400_000),
             ("C̅", 100_000),
-            ("L̅C̅", 90_000),
+            ("X̅C̅", 90_000),
             ("L̅", 50_000),
             ("X̅L̅", 40_000),
             ("X̅", 10_000),
diff --git a/src/previews/RomanLower.md b/src/previews/RomanLower.md
index 5a2d439..a933ab8 100644
--- a/src/previews/RomanLower.md
+++ b/src/previews/RomanLower.md
@@ -17,6 +17,6 @@
 | 4000    | i̅v̅           |
 | 4001    | i̅v̅i          |
 | …       | …            |
-| 999999  | d̅m̅l̅c̅i̅x̅cmxcix |
+| 999999  | c̅m̅x̅c̅i̅x̅cmxcix |
 | 1000000 | m̅            |
 | 1000001 | m̅i           |
diff --git a/src/previews/RomanUpper.md b/src/previews/RomanUpper.md
index 78f1f66..70be120 100644
--- a/src/previews/RomanUpper.md
+++ b/src/previews/RomanUpper.md
@@ -17,6 +17,6 @@
 | 4000    | I̅V̅           |
 | 4001    | I̅V̅I          |
 | …       | …            |
-| 999999  | D̅M̅L̅C̅I̅X̅CMXCIX |
+| 999999  | C̅M̅X̅C̅I̅X̅CMXCIX |
 | 1000000 | M̅            |
 | 1000001 | M̅I           |
diff --git a/src/previews/index.md b/src/previews/index.md
index 90a565c..c2104a7 100644
--- a/src/previews/index.md
+++ b/src/previews/index.md
@@ -1,8 +1,8 @@
 - [`Decimal`]($NominalSystemDocPrefix$Decimal$NominalSystemDocSuffix$): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`]($NominalSystemDocPrefix$LetterLower$NominalSystemDocSuffix$): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`]($NominalSystemDocPrefix$LetterUpper$NominalSystemDocSuffix$): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`]($NominalSystemDocPrefix$CircledNumber$NominalSystemDocSuffix$): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`]($NominalSystemDocPrefix$DoubleCircledNumber$NominalSystemDocSuffix$): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`]($NominalSystemDocPrefix$ArmenianLower$NominalSystemDocSuffix$): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- 
2.43.0


From c7807cf8b60e644c0261d6111eab7844048c6026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 03/10] fix: additive sets report numbers their symbols cannot
 add up to as out of bounds

---
 src/additive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/additive.rs b/src/additive.rs
index 50533f7..75d9b54 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -61,7 +61,11 @@ where
             }
         }
 
-        Ok(formatted)
+        if remaining.is_zero() {
+            Ok(formatted)
+        } else {
+            Err(Error::OutOfBounds(nominal))
+        }
     }
 }
 
-- 
2.43.0


From eb1b01ffd01962594b8072bb5a97ffc2c34bdc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 04/10] fix: report oversized symbols as out of memory without
 the alloc feature

---
 src/additive.rs   | 3 ++-
 src/enumerated.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/additive.rs b/src/additive.rs
index 75d9b54..c82875e 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -41,7 +41,8 @@ where
         let mut remaining = nominal;
         if remaining.is_zero() {
             return if let Some(zero) = self.zero {
-                Ok(NominalString::from(zero))
+                formatted.try_push_str(zero).with_nominal(nominal)?;
+                Ok(formatted)
             } else {
                 Err(Error::NoZeroSymbol)
             };
diff --git a/src/enumerated.rs b/src/enumerated.rs
index c638bb3..2c11fd5 100644
--- a/src/enumerated.rs
+++ b/src/enumerated.rs
@@ -1,4 +1,4 @@
-use crate::{Error, Nominal, NominalString, NominalSystem};
+use crate::{Error, Nominal, NominalString, NominalSystem, WithNominal};
 
 /// A set of enumerated symbols that form a [`NominalSystem`].
 pub struct EnumeratedSet<const N: usize, const HAS_ZERO: bool> {
@@ -35,7 +35,9 @@ where
         if !HAS_ZERO && nominal.is_zero() {
             Err(Error::NoZeroSymbol)
         } else if let Some(&symbol) = self.symbols.get(n - usize::from(!HAS_ZERO)) {
-            Ok(symbol.into())
+            let mut formatted = NominalString::new();
+            formatted.try_push_str(symbol).with_nominal(nominal)?;
+            Ok(formatted)
         } else {
             Err(Error::OutOfBounds(nominal))
         }
-- 
2.43.0


From 5b6f48ff1fc399a3ca3d96b3bc82c0e69fefaf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 05/10] fix: boxed and reference-counted systems forward
 format_nominal

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bd5f15d..dc41af7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,10 @@ impl<T> NominalSystem<T> for alloc::boxed::Box<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -70,6 +74,10 @@ impl<T> NominalSystem<T> for alloc::rc::Rc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -80,6 +88,10 @@ impl<T> NominalSystem<T> for alloc::sync::Arc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
-- 
2.43.0


From 229d826feb620a4fc8236a63271e32f88b9d0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 06/10] fix: Chinese numerals write one zero for skipped groups

---
 src/chinese.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chinese.rs b/src/chinese.rs
index bb07b80..937e191 100644
--- a/src/chinese.rs
+++ b/src/chinese.rs
@@ -363,6 +363,10 @@ impl ChineseScale {
         if remaining.is_zero() {
             Ok(formatted)
         } else {
+            if !formatted.is_empty() && remaining < scale / T::from(10) {
+                formatted.try_push(characters[0])?;
+                *last_char_is_zero = true;
+            }
             let remaining = Self::format_next_scaled_rank::<T, FORMAL, N>(
                 rank,
                 scales,
-- 
2.43.0


From dc7856af70e1e9d622b56b6686cc30511a04ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 07/10] fix: one-based digit collections larger than the
 integer type count from 1

---
 src/digital.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 38cba9c..09eff9e 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -560,7 +560,12 @@ where
 {
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         let Ok(mut count) = T::try_from(self.len()) else {
-            return Ok(NominalString::from(self.digit(nominal.as_usize())));
+            // Every value of `T` is less than the number of digits.
+            let mut index = nominal.as_usize();
+            if !self.has_zero_digit() && !self.zero_based() {
+                index = index.checked_sub(1).ok_or(Error::NoZeroSymbol)?;
+            }
+            return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
             && (if self.zero_based() {
-- 
2.43.0


From abfe3f29a380b65abd13c6633e6deed31d5bf52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 08/10] fix: adapters keep fixed digit collections fixed

---
 src/digital.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 09eff9e..fe318e7 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -75,6 +75,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -486,6 +490,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -568,7 +576,7 @@ where
             return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
-            && (if self.zero_based() {
+            && (if self.has_zero_digit() || self.zero_based() {
                 nominal >= count
             } else {
                 nominal > count
-- 
2.43.0


From 122d0e6a6b9bb8357abc574d89bcee17f406ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 09/10] fix: digit collections without enough digits report out
 of bounds

---
 src/digital.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/digital.rs b/src/digital.rs
index fe318e7..3731364 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -591,6 +591,10 @@ where
         }
 
         let one = T::from(1_u8);
+        if count.is_zero() || (self.has_zero_digit() && count == one && !nominal.is_zero()) {
+            return Err(Error::OutOfBounds(nominal));
+        }
+
         let mut formatted = NominalString::new_reverse();
 
         let mut remaining = nominal;
-- 
2.43.0


From 41b3509e43f04b6f892aca49e4585eab78724f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 10/10] fix: Restrict never reports more digits than its
 collection has

---
 src/digital.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 3731364..7753e6d 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -503,7 +503,7 @@ where
     }
 
     fn len(&self) -> usize {
-        self.1
+        self.1.min(self.0.len())
     }
 
     fn digit(&self, index: usize) -> char {
-- 
2.43.0

