From 318f5363404812ce97990b6d4dcbd1a3719e2c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 1/4] fix: do not panic when a tag ends before the requested
 subtag

NormalLangTag::script, region, variants, extensions and private_use sliced
one byte past the end of the tag when nothing followed the preceding
subtags (e.g. "fr".script() or "fr-FR".variants()).
---
 src/normal/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 6b310f3..5e3b5a3 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -196,8 +196,12 @@ fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str)
 		i += 1
 	}
 
-	let subtag = &string[offset..];
-	if f(offset, subtag) { string.len() } else { end }
+	// `offset` is past the end of `string` when there is nothing after the
+	// subtags preceding the list.
+	match string.get(offset..) {
+		Some(subtag) if f(offset, subtag) => string.len(),
+		_ => end,
+	}
 }
 
 fn find_segment_end(string: &str, offset: usize) -> usize {
-- 
2.43.0


From 9603bd17a383ff06a059b46d61f8fababb289ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 2/4] fix: start the private use subtags after the extensions

NormalLangTag::private_use returned the extensions along with the private
use subtags, an invalid PrivateUse (e.g. "a-foo-x-bar" for
"fr-a-foo-x-bar", or "a-foo" for "fr-a-foo").
---
 src/normal/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 5e3b5a3..c4cf88c 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -127,10 +127,10 @@ impl NormalLangTag {
 	}
 
 	fn private_use_offset(&self) -> Option<usize> {
-		let variants_end = self.variants_range().end;
+		let extensions_end = self.extensions_range().end;
 
-		if variants_end < self.0.len() {
-			Some(variants_end + 1)
+		if extensions_end < self.0.len() {
+			Some(extensions_end + 1)
 		} else {
 			None
 		}
-- 
2.43.0


From 84eccb08af0f44ed35fd637509f0a0c1fe09af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 3/4] fix: compare extension singletons case-insensitively

Like any other subtag, singletons are case-insensitive: "fr-A-foo" equals
"fr-a-foo", yet Extensions::get('a') only found the extension in the
latter, and the singletons of equal extensions were not equal.
---
 src/normal/extension.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 4c52dd1..e61048e 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -1,4 +1,4 @@
-use core::{fmt, hash::Hash};
+use core::{cmp::Ordering, fmt, hash::Hash};
 
 use crate::utils;
 
@@ -7,7 +7,7 @@ use crate::utils;
 pub struct InvalidSingleton<T>(pub T);
 
 /// Extension identifier.
-#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Copy, Clone)]
 pub struct Singleton(u8);
 
 impl Singleton {
@@ -71,15 +71,41 @@ impl TryFrom<char> for Singleton {
 	}
 }
 
+impl PartialEq for Singleton {
+	fn eq(&self, other: &Self) -> bool {
+		self.0.eq_ignore_ascii_case(&other.0)
+	}
+}
+
+impl Eq for Singleton {}
+
+impl PartialOrd for Singleton {
+	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+		Some(self.cmp(other))
+	}
+}
+
+impl Ord for Singleton {
+	fn cmp(&self, other: &Self) -> Ordering {
+		utils::case_insensitive_cmp(&[self.0], &[other.0])
+	}
+}
+
+impl Hash for Singleton {
+	fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+		utils::case_insensitive_hash(&[self.0], state)
+	}
+}
+
 impl PartialEq<u8> for Singleton {
 	fn eq(&self, b: &u8) -> bool {
-		self.0 == *b
+		self.0.eq_ignore_ascii_case(b)
 	}
 }
 
 impl PartialEq<char> for Singleton {
 	fn eq(&self, b: &char) -> bool {
-		self.0 as u32 == *b as u32
+		(self.0 as char).eq_ignore_ascii_case(b)
 	}
 }
 
@@ -217,7 +243,7 @@ impl Extensions {
 		let mut starting = true;
 		while i + 1 < self.0.len() {
 			if starting {
-				if bytes[i] == singleton.0 && bytes[i + 1] == b'-' {
+				if singleton == bytes[i] && bytes[i + 1] == b'-' {
 					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
 
 					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
-- 
2.43.0


From 89fcb9cf726eb19b8bce8419a2f990f1b312ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 4/4] fix: accept any first language subtag as PrimaryLanguage

Language::primary returns the first subtag, which may have up to 8 letters
(4ALPHA / 5*8ALPHA), but PrimaryLanguage only accepted 2 or 3. As a result
"abcd" was returned as an invalid PrimaryLanguage, not even equal to the
string "abcd".
---
 src/grammar.abnf |  4 ++--
 src/grammar.rs   | 25 ++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/grammar.abnf b/src/grammar.abnf
index 0a8c609..193de89 100644
--- a/src/grammar.abnf
+++ b/src/grammar.abnf
@@ -9,13 +9,13 @@ langtag       = language
                *("-" extension)
                ["-" privateuse]
 
-language      = primary             ; shortest ISO 639 code
+language      = 2*3ALPHA            ; shortest ISO 639 code
                ["-" extlang]        ; sometimes followed by
                                     ; extended language subtags
               / 4ALPHA              ; or reserved for future use
               / 5*8ALPHA            ; or registered language subtag
 
-primary       = 2*3ALPHA
+primary       = 2*8ALPHA            ; first subtag of a language
 
 extlang       = extlang-tag         ; selected ISO 639 codes
                 *2("-" extlang-tag) ; permanently reserved
diff --git a/src/grammar.rs b/src/grammar.rs
index d828ecd..ab771a7 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -1822,12 +1822,35 @@ impl Primary {
 				'A'..='Z' | 'a'..='z' => 3u32,
 				_ => return false,
 			},
+			3u32 => match token {
+				'A'..='Z' | 'a'..='z' => 4u32,
+				_ => return false,
+			},
+			4u32 => match token {
+				'A'..='Z' | 'a'..='z' => 5u32,
+				_ => return false,
+			},
+			5u32 => match token {
+				'A'..='Z' | 'a'..='z' => 6u32,
+				_ => return false,
+			},
+			6u32 => match token {
+				'A'..='Z' | 'a'..='z' => 7u32,
+				_ => return false,
+			},
+			7u32 => match token {
+				'A'..='Z' | 'a'..='z' => 8u32,
+				_ => return false,
+			},
 			_ => return false,
 		};
 		true
 	}
 	pub const fn is_accepting(&self) -> bool {
-		matches!(self.state, 2u32 | 3u32)
+		matches!(
+			self.state,
+			2u32 | 3u32 | 4u32 | 5u32 | 6u32 | 7u32 | 8u32
+		)
 	}
 	pub const fn validate_str(s: &str) -> bool {
 		Self::validate_bytes(s.as_bytes())
-- 
2.43.0

