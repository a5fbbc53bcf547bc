From 094de2e5013de587f75048401e56f73e05d957f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 1/6] fix: is_already_nfc accepted strings that are not in NFC

Code points with a multi-code-point canonical decomposition were taken to
be NFC as they are, so normalize() left composition exclusions (U+0958),
composites followed by a mark that takes part in the recomposition
(U+00E9 U+0327) and an LV syllable followed by a trailing consonant
(U+AC00 U+11A8) unchanged.
---
 include/ada/idna/normalization.h |  2 +-
 src/normalization.cpp            | 33 ++++++++++++++++++++++++--------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/ada/idna/normalization.h b/include/ada/idna/normalization.h
index b8f4a68..2513b98 100644
--- a/include/ada/idna/normalization.h
+++ b/include/ada/idna/normalization.h
@@ -9,7 +9,7 @@ namespace ada::idna {
 // Returns true if `input` is already in Unicode Normalization Form C.
 // Requires that internal tables have been loaded (call ensure via normalize
 // or map first, or this returns false if tables are unavailable).
-[[nodiscard]] bool is_already_nfc(std::u32string_view input) noexcept;
+[[nodiscard]] bool is_already_nfc(std::u32string_view input);
 
 // Normalize the characters according to IDNA (Unicode Normalization Form C).
 // Returns false if the internal Unicode tables could not be loaded; in that
diff --git a/src/normalization.cpp b/src/normalization.cpp
index 63406d7..23882df 100644
--- a/src/normalization.cpp
+++ b/src/normalization.cpp
@@ -21,8 +21,9 @@ constexpr char32_t hangul_scount =
 
 // Canonical decomposition length (0 if none / compatibility-only / Hangul
 // syllable). Length 1 means a singleton mapping (character is not NFC form).
-// Length >= 2 means a primary composite that is already the NFC form of its
-// decomposition (e.g. U+00E9 LATIN SMALL LETTER E WITH ACUTE).
+// Length >= 2 usually means a primary composite that is already the NFC form of
+// its decomposition (e.g. U+00E9 LATIN SMALL LETTER E WITH ACUTE), but not when
+// it is excluded from composition (e.g. U+0958 DEVANAGARI LETTER QA).
 static size_t canonical_decomp_length(char32_t current_character) noexcept {
   if (current_character >= hangul_sbase &&
       current_character < hangul_sbase + hangul_scount) {
@@ -168,7 +169,7 @@ static bool would_compose(std::u32string_view input) noexcept {
       continue;
     }
     if (current >= hangul_sbase && current < hangul_sbase + hangul_scount) {
-      if ((current - hangul_sbase) % hangul_tcount &&
+      if ((current - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
@@ -219,7 +220,9 @@ static bool would_compose(std::u32string_view input) noexcept {
   return false;
 }
 
-bool is_already_nfc(std::u32string_view input) noexcept {
+void compose(std::u32string& input);
+
+bool is_already_nfc(std::u32string_view input) {
   if (input.empty()) {
     return true;
   }
@@ -227,11 +230,13 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     return false;
   }
   // 1) Singleton decompositions are never NFC (e.g. U+212B ANGSTROM SIGN).
-  //    Multi-code-point decomps are primary composites that are NFC as-is.
+  bool has_composite{false};
   for (char32_t c : input) {
-    if (canonical_decomp_length(c) == 1) {
+    const size_t decomposition_length = canonical_decomp_length(c);
+    if (decomposition_length == 1) {
       return false;
     }
+    has_composite |= decomposition_length > 1;
   }
   // 2) Combining marks already in canonical order.
   uint8_t prev_ccc = 0;
@@ -243,7 +248,19 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     prev_ccc = ccc;
   }
   // 3) No pairwise composition would apply (including Hangul L+V / LV+T).
-  return !would_compose(input);
+  if (would_compose(input)) {
+    return false;
+  }
+  // 4) Multi-code-point decompositions are NFC only if recomposing restores
+  //    them: not when they are excluded from composition (e.g. U+0958) or when
+  //    a following mark takes part (e.g. U+00E9 U+0327).
+  if (has_composite) {
+    std::u32string recomposed(input);
+    decompose_nfc(recomposed);
+    compose(recomposed);
+    return recomposed == input;
+  }
+  return true;
 }
 
 void compose(std::u32string& input) {
@@ -274,7 +291,7 @@ void compose(std::u32string& input) {
       }
     } else if (input[input_count] >= hangul_sbase &&
                input[input_count] < hangul_sbase + hangul_scount) {
-      if ((input[input_count] - hangul_sbase) % hangul_tcount &&
+      if ((input[input_count] - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
-- 
2.43.0


From 2cc3e50c8a211971b0d0d7e6b649783b2811349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 2/6] fix: Punycode decoder accepted a delimiter with no ASCII
 content before it

RFC 3492 6.2 consumes the delimiter only if at least one basic code point
precedes it, and the encoder never writes one without: "-fsa" decoded like
"fsa", so two different A-labels (xn--fsa and xn---fsa) named one label.
---
 src/punycode.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/punycode.cpp b/src/punycode.cpp
index 60e6e25..143f4bc 100644
--- a/src/punycode.cpp
+++ b/src/punycode.cpp
@@ -45,6 +45,10 @@ bool punycode_to_utf32(std::string_view input, std::u32string &out) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
+  if (end_of_ascii == 0) {
+    // The encoder emits no delimiter when there is no ASCII content.
+    return false;
+  }
   if (end_of_ascii != std::string_view::npos) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
@@ -114,6 +118,10 @@ bool verify_punycode(std::string_view input) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
+  if (end_of_ascii == 0) {
+    // The encoder emits no delimiter when there is no ASCII content.
+    return false;
+  }
   if (end_of_ascii != std::string_view::npos) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
-- 
2.43.0


From bafea66fe33171015e5ed115dca0bfb37d91b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 3/6] fix: a joiner in a label made the remaining validity
 checks be skipped

is_label_valid returned as soon as it had met one ZERO WIDTH (NON-)JOINER
in an allowed context, so later joiners and the Bidi rule were never
checked. The ZWNJ context also accepted joining characters anywhere in the
label instead of only across transparent characters (RFC 5892 A.1).
---
 src/validity.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 52ebd0c..20f3a42 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -189,13 +189,24 @@ bool is_label_valid(const std::u32string_view label) {
     if (c == 0x200c) {
       if (i > 0) {
         if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
+          continue;
         }
       }
       if ((i == 0) || (i + 1 >= label.size())) {
         return false;
       }
-      // we go backward looking for L or D
+      // (L|D) T* ZWNJ T* (R|D): skip the transparent characters around the
+      // joiner. Nonspacing marks are the transparent ones.
+      size_t before = i;
+      while (before > 0 &&
+             find_direction(label[before - 1]) == direction::NSM) {
+        before--;
+      }
+      size_t after = i + 1;
+      while (after < label.size() &&
+             find_direction(label[after]) == direction::NSM) {
+        after++;
+      }
       auto is_l_or_d = [](uint32_t code) {
         return std::ranges::binary_search(L, code) ||
                std::ranges::binary_search(D, code);
@@ -204,16 +215,14 @@ bool is_label_valid(const std::u32string_view label) {
         return std::ranges::binary_search(R, code) ||
                std::ranges::binary_search(D, code);
       };
-      std::u32string_view before = label.substr(0, i);
-      std::u32string_view after = label.substr(i + 1);
-      return (std::find_if(before.begin(), before.end(), is_l_or_d) !=
-              before.end()) &&
-             (std::find_if(after.begin(), after.end(), is_r_or_d) !=
-              after.end());
+      if (before == 0 || after == label.size() ||
+          !is_l_or_d(label[before - 1]) || !is_r_or_d(label[after])) {
+        return false;
+      }
     } else if (c == 0x200d) {
       if (i > 0) {
         if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
+          continue;
         }
       }
       return false;
-- 
2.43.0


From 62eeed0200ae13ed8752ab1b2d179df085784a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 4/6] fix: ContextJ did not know the viramas added since
 Unicode 13

U+1715, U+11070, U+113CE..113D0, U+11F41, U+11F42 and U+1612F have canonical
combining class 9, so a joiner after them is allowed (RFC 5892 A.1, A.2).
---
 src/validity.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 20f3a42..0613e90 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -129,12 +129,13 @@ bool is_label_valid(const std::u32string_view label) {
   constexpr static uint32_t virama[] = {
       0x094D,  0x09CD,  0x0A4D,  0x0ACD,  0x0B4D,  0x0BCD,  0x0C4D,  0x0CCD,
       0x0D3B,  0x0D3C,  0x0D4D,  0x0DCA,  0x0E3A,  0x0EBA,  0x0F84,  0x1039,
-      0x103A,  0x1714,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,  0x1BAB,
-      0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,  0xA9C0,
-      0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x1107F, 0x110B9, 0x11133, 0x11134,
-      0x111C0, 0x11235, 0x112EA, 0x1134D, 0x11442, 0x114C2, 0x115BF, 0x1163F,
-      0x116B6, 0x1172B, 0x11839, 0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47,
-      0x11A99, 0x11C3F, 0x11D44, 0x11D45, 0x11D97};
+      0x103A,  0x1714,  0x1715,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,
+      0x1BAB,  0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,
+      0xA9C0,  0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x11070, 0x1107F, 0x110B9,
+      0x11133, 0x11134, 0x111C0, 0x11235, 0x112EA, 0x1134D, 0x113CE, 0x113CF,
+      0x113D0, 0x11442, 0x114C2, 0x115BF, 0x1163F, 0x116B6, 0x1172B, 0x11839,
+      0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47, 0x11A99, 0x11C3F, 0x11D44,
+      0x11D45, 0x11D97, 0x11F41, 0x11F42, 0x1612F};
   constexpr static uint32_t R[] = {
       0x622, 0x623, 0x624, 0x625, 0x627, 0x629, 0x62f, 0x630, 0x631,
       0x632, 0x648, 0x671, 0x672, 0x673, 0x675, 0x676, 0x677, 0x688,
-- 
2.43.0


From 8b34b719e596db924ebaed668adc8cd12303eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 5/6] fix: inflater wrote past the code length table

A repeat code in a dynamic block's code length sequence could run past the
declared number of lengths, and past the end of the array. RFC 1951 makes
such a stream invalid; refuse it.
---
 src/raw_inflate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raw_inflate.hpp b/src/raw_inflate.hpp
index dd0435c..f7b38bb 100644
--- a/src/raw_inflate.hpp
+++ b/src/raw_inflate.hpp
@@ -210,18 +210,20 @@ inline size_t inflate_raw(const uint8_t* src, size_t src_len, uint8_t* dst,
             uint32_t rep = br.get(2);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
-            if (i == 0) return 0;
+            if (i == 0 || rep > n - i) return 0;
             uint8_t v = lens[i - 1];
             while (rep--) lens[i++] = v;
           } else if (sym == 17) {
             uint32_t rep = br.get(3);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else if (sym == 18) {
             uint32_t rep = br.get(7);
             if (rep == UINT32_MAX) return 0;
             rep += 11;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else
             return 0;
-- 
2.43.0


From b1dc95bbfe6a6ce137b16f384c4a9f6d2d374c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 6/6] fix: table generator wrote wrong tables when a stage2
 offset reached the bool flag

---
 scripts/idna_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/idna_table.py b/scripts/idna_table.py
index ed302f2..3178c0d 100644
--- a/scripts/idna_table.py
+++ b/scripts/idna_table.py
@@ -279,6 +279,10 @@ def generate_idna():
         f"UTF-8 table too large: {len(utf8_table)} bytes, max 0xFFFD"
     assert len(stage1) <= 0x8000, \
         f"stage1 too large: {len(stage1)} entries"
+    # A stage1 entry holds either a bool-block index with BOOL_FLAG set or a
+    # mixed-block offset with BOOL_FLAG clear, so offsets must stay below it.
+    assert len(mixed_data) <= BOOL_FLAG, \
+        f"stage2 too large: {len(mixed_data)} entries, max {BOOL_FLAG}"
 
     return {
         "version": version,
-- 
2.43.0

