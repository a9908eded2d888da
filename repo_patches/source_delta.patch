From 5d5ec57184a826f0cf548c23592097f2f2af598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:27 +0000
Subject: [PATCH 001/101] fix: compare version numbers of any length by value

Numeric components above u64::MAX failed to parse as integers and were
ordered as text, i.e. below every small number.
---
 crates/rez-next-version/src/version.rs | 32 ++++++++++++++++++--------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index dd7095f..1e80a3c 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -332,8 +332,8 @@ impl Version {
     ///    apply rules 1–3 per segment pair.
     fn compare_single_token(t1: &str, t2: &str) -> Ordering {
         // Fast path: both purely numeric
-        if let (Ok(n1), Ok(n2)) = (t1.parse::<i64>(), t2.parse::<i64>()) {
-            return n1.cmp(&n2);
+        if Self::is_numeric(t1) && Self::is_numeric(t2) {
+            return Self::compare_numeric(t1, t2);
         }
         // Fast path: equal strings
         if t1 == t2 {
@@ -362,14 +362,8 @@ impl Version {
         let seg2 = Self::split_token_segments(t2);
 
         for (s1, s2) in seg1.iter().zip(seg2.iter()) {
-            let s1_is_num = s1.parse::<u64>().is_ok();
-            let s2_is_num = s2.parse::<u64>().is_ok();
-            let cmp = match (s1_is_num, s2_is_num) {
-                (true, true) => {
-                    let n1: u64 = s1.parse().unwrap();
-                    let n2: u64 = s2.parse().unwrap();
-                    n1.cmp(&n2)
-                }
+            let cmp = match (Self::is_numeric(s1), Self::is_numeric(s2)) {
+                (true, true) => Self::compare_numeric(s1, s2),
                 (false, false) => s1.as_str().cmp(s2.as_str()),
                 (false, true) => Ordering::Less, // alpha segment < numeric segment
                 (true, false) => Ordering::Greater, // numeric segment > alpha segment
@@ -381,6 +375,24 @@ impl Version {
         seg1.len().cmp(&seg2.len())
     }
 
+    fn is_numeric(s: &str) -> bool {
+        !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
+    }
+
+    fn strip_leading_zeros(s: &str) -> &str {
+        if Self::is_numeric(s) {
+            s.trim_start_matches('0')
+        } else {
+            s
+        }
+    }
+
+    /// Compare two digit strings by value, whatever their length.
+    fn compare_numeric(n1: &str, n2: &str) -> Ordering {
+        let (n1, n2) = (Self::strip_leading_zeros(n1), Self::strip_leading_zeros(n2));
+        n1.len().cmp(&n2.len()).then_with(|| n1.cmp(n2))
+    }
+
     /// Split a token into alternating alpha/numeric segments.
     /// E.g. "alpha10" → ["alpha", "10"], "rc2" → ["rc", "2"]
     fn split_token_segments(s: &str) -> Vec<String> {
-- 
2.43.0


From d79a6fe3d84e45a953150c8c9f385bf9cdae6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:27 +0000
Subject: [PATCH 002/101] fix: make Version hashing consistent with equality

1.0, 1.0.0, 1-0 and 01.0 compare equal but hashed by their text, so hash
sets and maps keyed by version treated equal versions as different.
---
 crates/rez-next-version/src/version.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index 1e80a3c..f1772c7 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -507,7 +507,23 @@ impl PartialOrd for Version {
 
 impl Hash for Version {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.string_repr.hash(state);
+        // Must agree with `Eq`, which ignores separators, leading zeros of numbers and
+        // trailing zero tokens.
+        self.is_inf().hash(state);
+        let is_zero = |t: &String| t.bytes().all(|b| b == b'0');
+        let significant = self.tokens.len()
+            - self
+                .tokens
+                .iter()
+                .rev()
+                .take_while(|t| is_zero(t))
+                .count();
+        for token in &self.tokens[..significant] {
+            for segment in Self::split_token_segments(token) {
+                Self::strip_leading_zeros(&segment).hash(state);
+            }
+            0u8.hash(state);
+        }
     }
 }
 
-- 
2.43.0


From 091d33f9fb99e323f01f7f829043808131f22ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:58 +0000
Subject: [PATCH 003/101] fix: a range with versions subtracted from it is not
 the "any" range

is_any() ignored subtracted ranges, so intersecting "everything but 1.0"
with another range gave back the other range, 1.0 included.
---
 crates/rez-next-version/src/range/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 3e7c139..9dbd147 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -209,6 +209,9 @@ impl VersionRange {
         if s.is_empty() || s == "*" {
             return true;
         }
+        if !self.subtract_from.is_empty() {
+            return false;
+        }
         // Check if all bound sets are Any
         self.bound_sets
             .iter()
-- 
2.43.0


From addbbb4ba61582c4a96e14a1cb3e8dee3274fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:58 +0000
Subject: [PATCH 004/101] fix: union of version ranges keeps what was
 subtracted from them

union() dropped the subtracted ranges of both operands, so versions that
neither operand contains reappeared.
---
 crates/rez-next-version/src/range/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 9dbd147..26510df 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -167,11 +167,20 @@ impl VersionRange {
         let new_str = format!("{}|{}", self.range_str, other.range_str);
         let mut sets = self.bound_sets.clone();
         sets.extend(other.bound_sets.clone());
+        // A version is excluded from the union only if neither side contains it
+        let subtract_from = if self.subtract_from.is_empty() && other.subtract_from.is_empty() {
+            Vec::new()
+        } else {
+            let mut neither = VersionRange::any();
+            neither.range_str = format!("!({new_str})");
+            neither.subtract_from = vec![self.clone(), other.clone()];
+            vec![neither]
+        };
         VersionRange {
             range_str: new_str,
             bound_sets: sets,
             is_parsed: true,
-            subtract_from: Vec::new(),
+            subtract_from,
         }
     }
 
-- 
2.43.0


From 72006679db388ab0688a8f24244c373bf992242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:58 +0000
Subject: [PATCH 005/101] fix: range inclusion and difference look beyond every
 bound

is_subset_of() and subtract() decide by probing versions, but never probed
above the highest bound when it exceeds 999 (">2023" was reported to be a
subset of ">2023,<=2024"), nor at the bounds of subtracted ranges.
---
 crates/rez-next-version/src/range/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 26510df..07ad432 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -256,7 +256,9 @@ impl VersionRange {
     /// Collect probe versions from both self and other's bounds, plus "beyond" versions
     fn collect_probe_versions_with_other(&self, other: &VersionRange) -> Vec<Version> {
         let mut versions = Vec::new();
-        for range in [self as &VersionRange, other] {
+        let mut ranges = vec![self, other];
+        while let Some(range) = ranges.pop() {
+            ranges.extend(&range.subtract_from);
             for bs in &range.bound_sets {
                 for bound in &bs.bounds {
                     match bound {
@@ -282,6 +284,7 @@ impl VersionRange {
                 versions.push(v);
             }
         }
+        versions.push(Version::inf());
         versions
     }
 
-- 
2.43.0


From 34dade40c4d07a677bf3232250e0698ebcf19c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:58 +0000
Subject: [PATCH 006/101] fix: a deserialized version range keeps its bounds

Only the text was serialized and the bounds were left empty on reading, so
any range that had been saved and loaded contained every version.
---
 crates/rez-next-version/src/range/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 07ad432..46c6ee8 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -19,6 +19,7 @@ use types::Bound;
 
 /// `VersionRange` representation - a disjunction of `BoundSet`s (union of intersections)
 #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "SerializedRange")]
 pub struct VersionRange {
     /// Cached string representation
     pub range_str: String,
@@ -33,6 +34,20 @@ pub struct VersionRange {
     subtract_from: Vec<VersionRange>,
 }
 
+/// Serialized form of a [`VersionRange`]; the bounds are parsed again when it is read.
+#[derive(Deserialize)]
+struct SerializedRange {
+    range_str: String,
+}
+
+impl TryFrom<SerializedRange> for VersionRange {
+    type Error = RezCoreError;
+
+    fn try_from(raw: SerializedRange) -> Result<Self, Self::Error> {
+        Self::parse(&raw.range_str)
+    }
+}
+
 impl VersionRange {
     /// Create a new version range from a string
     #[allow(clippy::missing_errors_doc)]
-- 
2.43.0


From e1973eca913d5db92941d868cd83ab7fd163b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:58 +0000
Subject: [PATCH 007/101] fix: an inclusive bound does not relax an exclusive
 one at the same version

"<1.0" with "==1.0" (and ">1.0" with ">=1.0,<=1.0") was reported to have an
intersection although no version is in both.
---
 .../src/range/satisfiability.rs               | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/rez-next-version/src/range/satisfiability.rs b/crates/rez-next-version/src/range/satisfiability.rs
index df6dceb..12d3a50 100644
--- a/crates/rez-next-version/src/range/satisfiability.rs
+++ b/crates/rez-next-version/src/range/satisfiability.rs
@@ -19,8 +19,8 @@ pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
             Bound::None => return false,
             Bound::Ge(v) => match lower {
                 None => lower = Some((v, true)),
-                Some((lv, linc)) => {
-                    if v > lv || (v == lv && !linc) {
+                Some((lv, _)) => {
+                    if v > lv {
                         lower = Some((v, true));
                     }
                 }
@@ -35,8 +35,8 @@ pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
             },
             Bound::Le(v) => match upper {
                 None => upper = Some((v, true)),
-                Some((uv, uinc)) => {
-                    if v < uv || (v == uv && !uinc) {
+                Some((uv, _)) => {
+                    if v < uv {
                         upper = Some((v, true));
                     }
                 }
@@ -53,8 +53,8 @@ pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
                 // Equality constraint acts as both lower and upper bound
                 match lower {
                     None => lower = Some((v, true)),
-                    Some((lv, linc)) => {
-                        if v > lv || (v == lv && !linc) {
+                    Some((lv, _)) => {
+                        if v > lv {
                             lower = Some((v, true));
                         } else if v < lv {
                             // v must be >= lv but eq requires v exactly — contradiction
@@ -64,8 +64,8 @@ pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
                 }
                 match upper {
                     None => upper = Some((v, true)),
-                    Some((uv, uinc)) => {
-                        if v < uv || (v == uv && !uinc) {
+                    Some((uv, _)) => {
+                        if v < uv {
                             upper = Some((v, true));
                         } else if v > uv {
                             return false;
@@ -141,8 +141,8 @@ pub(super) fn bound_sets_intersect(a: &BoundSet, b: &BoundSet) -> bool {
         match bound {
             Bound::Ge(v) => match lower {
                 None => lower = Some((v, true)),
-                Some((lv, linc)) => {
-                    if v > lv || (v == lv && !linc) {
+                Some((lv, _)) => {
+                    if v > lv {
                         lower = Some((v, true));
                     }
                 }
@@ -157,8 +157,8 @@ pub(super) fn bound_sets_intersect(a: &BoundSet, b: &BoundSet) -> bool {
             },
             Bound::Le(v) => match upper {
                 None => upper = Some((v, true)),
-                Some((uv, uinc)) => {
-                    if v < uv || (v == uv && !uinc) {
+                Some((uv, _)) => {
+                    if v < uv {
                         upper = Some((v, true));
                     }
                 }
-- 
2.43.0


From ec28bba23899da09ba81eac2718ad54b5cdf53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:58 +0000
Subject: [PATCH 008/101] fix: "a..b" intervals are recognised in each
 alternative of a range

The interval was expanded before splitting at "|", so "3|1..2" was read as
">=3|1,<2".
---
 crates/rez-next-version/src/range/parser.rs | 37 ++++++++-------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/crates/rez-next-version/src/range/parser.rs b/crates/rez-next-version/src/range/parser.rs
index 419e334..e3c7d7c 100644
--- a/crates/rez-next-version/src/range/parser.rs
+++ b/crates/rez-next-version/src/range/parser.rs
@@ -13,41 +13,30 @@ pub(super) fn parse_range_str(s: &str) -> Result<Vec<BoundSet>, RezCoreError> {
         return Ok(vec![BoundSet::none()]);
     }
 
-    // Handle rez ".." interval syntax: "1.0..2.0" = ">=1.0,<2.0"
-    // Note: must check before splitting on |
-    if s.contains("..") && !s.starts_with('.') {
-        // Only handle if it's a simple "a..b" form (no | or other operators in the whole string)
-        if let Some(dot_pos) = s.find("..") {
-            let left = &s[..dot_pos];
-            let right = &s[dot_pos + 2..];
-            // Both sides must look like version strings (not empty operators)
-            if !left.is_empty()
-                && !right.is_empty()
-                && !left.starts_with('>')
-                && !left.starts_with('<')
-                && !left.starts_with('=')
-                && !left.starts_with('!')
-                && !left.starts_with('~')
-            {
-                // "left..right" -> ">=left,<right"
-                let new_s = format!(">={},<{}", left.trim(), right.trim());
-                return parse_range_str(&new_s);
-            }
-        }
-    }
-
     // Split on | for OR (union)
     let or_parts: Vec<&str> = s.split('|').collect();
     let mut result = Vec::new();
 
     for or_part in or_parts {
-        let bound_set = parse_conjunction(or_part.trim())?;
+        let bound_set = parse_conjunction(&expand_interval(or_part.trim()))?;
         result.push(bound_set);
     }
 
     Ok(result)
 }
 
+/// Rewrite rez ".." interval syntax: "1.0..2.0" = ">=1.0,<2.0"
+fn expand_interval(s: &str) -> String {
+    if let Some((left, right)) = s.split_once("..")
+        && !left.is_empty()
+        && !right.is_empty()
+        && !left.starts_with(['.', '>', '<', '=', '!', '~'])
+    {
+        return format!(">={},<{}", left.trim(), right.trim());
+    }
+    s.to_string()
+}
+
 /// Parse a conjunction of constraints (AND semantics)
 /// Supports: `>=1.0,<2.0` (comma) or `>=1.0 <2.0` (space) or `1.0+<2.0` (rez syntax)
 pub(super) fn parse_conjunction(s: &str) -> Result<BoundSet, RezCoreError> {
-- 
2.43.0


From 657d862162ac4e8d405c183db9743b4321437eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:58 +0000
Subject: [PATCH 009/101] fix: range inclusion and difference probe the upper
 bound of "~="

">2.1.0,~=2.1.0" was reported to be a subset of every range that excludes
2.1.0, because no version between 2.1.0 and 2.2.0 was ever tried.
---
 crates/rez-next-version/src/range/mod.rs   |  9 ++++-
 crates/rez-next-version/src/range/types.rs | 40 ++++++++--------------
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 46c6ee8..2c525c7 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -15,7 +15,7 @@ use types::BoundSet;
 
 use parser::parse_range_str;
 use satisfiability::{bound_sets_intersect, is_bound_set_satisfiable};
-use types::Bound;
+use types::{Bound, compatible_upper};
 
 /// `VersionRange` representation - a disjunction of `BoundSet`s (union of intersections)
 #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
@@ -276,6 +276,13 @@ impl VersionRange {
             ranges.extend(&range.subtract_from);
             for bs in &range.bound_sets {
                 for bound in &bs.bounds {
+                    if let Bound::Compatible(v) = bound
+                        && let Some(upper) = compatible_upper(v)
+                    {
+                        let below = Version::parse(&format!("{}.999999", upper.as_str()));
+                        versions.extend(below);
+                        versions.push(upper);
+                    }
                     match bound {
                         Bound::Ge(v)
                         | Bound::Gt(v)
diff --git a/crates/rez-next-version/src/range/types.rs b/crates/rez-next-version/src/range/types.rs
index 4423ba0..214c7ec 100644
--- a/crates/rez-next-version/src/range/types.rs
+++ b/crates/rez-next-version/src/range/types.rs
@@ -71,32 +71,20 @@ pub(super) fn bound_matches(bound: &Bound, version: &Version) -> bool {
             if version < v {
                 return false; // Must be >= v (lower bound)
             }
-            let parts: Vec<&str> = v.as_str().split('.').collect();
-            if parts.len() < 2 {
-                return version >= v;
-            }
-            // Calculate upper bound
-            let upper_str = if parts.len() == 2 {
-                // X.Y -> (X+1).0
-                if let Ok(x) = parts[0].parse::<u64>() {
-                    format!("{}.0", x + 1)
-                } else {
-                    return true;
-                }
-            } else {
-                // X.Y.Z... -> X.(Y+1).0
-                if let Ok(y) = parts[1].parse::<u64>() {
-                    format!("{}.{}.0", parts[0], y + 1)
-                } else {
-                    return true;
-                }
-            };
-            if let Ok(upper) = Version::parse(&upper_str) {
-                version < &upper
-            } else {
-                // Fallback: just check >= v
-                version >= v
-            }
+            compatible_upper(v).is_none_or(|upper| version < &upper)
         }
     }
 }
+
+/// Exclusive upper bound of `~=v`, if it has one
+pub(super) fn compatible_upper(v: &Version) -> Option<Version> {
+    let parts: Vec<&str> = v.as_str().split('.').collect();
+    let upper_str = match parts.as_slice() {
+        [] | [_] => return None,
+        // X.Y -> (X+1).0
+        [x, _] => format!("{}.0", x.parse::<u64>().ok()? + 1),
+        // X.Y.Z... -> X.(Y+1).0
+        [x, y, ..] => format!("{}.{}.0", x, y.parse::<u64>().ok()? + 1),
+    };
+    Version::parse(&upper_str).ok()
+}
-- 
2.43.0


From 7581465589928f19bf7ac8bc82b7a2b18cfc8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:07 +0000
Subject: [PATCH 010/101] fix: requirements compare versions by the version
 order

Comparison at the depth of the constraint compared non-numeric tokens as
plain text and ignored missing tokens: 1.0.alpha satisfied >=1.0.0, 1.0.rc10
did not satisfy >=1.0.rc9, and version 1 satisfied ==1.5.
---
 .../rez-next-package/src/requirement/types.rs | 27 +------------------
 crates/rez-next-version/src/version.rs        |  9 +++++++
 2 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/types.rs b/crates/rez-next-package/src/requirement/types.rs
index 90c1d2f..3f4f87f 100644
--- a/crates/rez-next-package/src/requirement/types.rs
+++ b/crates/rez-next-package/src/requirement/types.rs
@@ -326,32 +326,7 @@ impl VersionConstraint {
     /// Rez semantics: constraints with fewer tokens are compared only at the token depth
     /// of the constraint.
     pub fn cmp_at_depth(version: &Version, constraint_ver: &Version) -> std::cmp::Ordering {
-        let ver_str = version.as_str();
-        let con_str = constraint_ver.as_str();
-
-        let ver_parts: Vec<&str> = ver_str.split('.').collect();
-        let con_parts: Vec<&str> = con_str.split('.').collect();
-
-        let depth = con_parts.len();
-
-        for (v_tok, c_tok) in ver_parts.iter().zip(con_parts.iter()).take(depth) {
-            let v_tok = *v_tok;
-            let c_tok = *c_tok;
-
-            if let (Ok(vn), Ok(cn)) = (v_tok.parse::<u64>(), c_tok.parse::<u64>()) {
-                match vn.cmp(&cn) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            } else {
-                match v_tok.cmp(c_tok) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            }
-        }
-
-        std::cmp::Ordering::Equal
+        version.cmp_at_depth(constraint_ver)
     }
 
     /// Combine two constraints with AND logic
diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index f1772c7..2b65dd8 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -70,6 +70,15 @@ impl Version {
                     Self::compare_single_token(token, prefix_token) == Ordering::Equal
                 })
     }
+
+    /// Compare this version with `other`, looking only at as many tokens as `other` has.
+    pub fn cmp_at_depth(&self, other: &Version) -> Ordering {
+        if self.tokens.len() > other.tokens.len() && !other.tokens.is_empty() {
+            Self::compare_token_strings(&self.tokens[..other.tokens.len()], &other.tokens)
+        } else {
+            self.compare_rez(other)
+        }
+    }
 }
 
 impl Version {
-- 
2.43.0


From 45a73325949052c21db27a053a420ad1a977ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:07 +0000
Subject: [PATCH 011/101] fix: a package requirement accepts the versions the
 solver accepts for it

"python-3.9" and "python-3.9+" were satisfied by exactly 3.9 and by no
3.9.x, so a context resolved from a request did not satisfy that request.
---
 crates/rez-next-package/src/package/requirement.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index cdb92cd..f3743c2 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -148,6 +148,12 @@ impl PackageRequirement {
         } else if let Some(rest) = spec.strip_prefix('<') {
             ("<", rest)
         } else {
+            // rez syntax ("3.9", "3.9+", "3.9+<4"), read as the solver reads it
+            if let Ok(parsed) = format!("_-{spec}").parse::<ParsedRequirement>()
+                && let Some(constraint) = parsed.version_constraint
+            {
+                return constraint.is_satisfied_by(version);
+            }
             if let Ok(range) = VersionRange::parse(spec) {
                 return range.contains(version);
             }
-- 
2.43.0


From e94e7ddf63c163179eb07909b8219b583a957dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:07 +0000
Subject: [PATCH 012/101] fix: parse "!=" in requirements

"python!=3.8" was read as a package named "python!=3.8", and a requirement
that excludes versions could not be read back from its own text.
---
 crates/rez-next-package/src/requirement/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index c32b5e0..8f8e536 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -201,6 +201,7 @@ impl RequirementParser {
 
             let constraint = match op {
                 "==" => VersionConstraint::Exact(version),
+                "!=" => VersionConstraint::Exclude(vec![version]),
                 ">" => VersionConstraint::GreaterThan(version),
                 ">=" => VersionConstraint::GreaterThanOrEqual(version),
                 "<" => VersionConstraint::LessThan(version),
@@ -307,7 +308,7 @@ impl RequirementParser {
     /// Parse a single version constraint
     fn parse_single_constraint(&self, constraint_str: &str) -> Result<VersionConstraint, String> {
         let constraint_str = constraint_str.trim();
-        let version_pattern = Regex::new(r"^(==|>=|<=|>|<|~=)(.+)$").unwrap();
+        let version_pattern = Regex::new(r"^(==|!=|>=|<=|>|<|~=)(.+)$").unwrap();
 
         if let Some(captures) = version_pattern.captures(constraint_str) {
             let op = captures.get(1).unwrap().as_str();
@@ -317,6 +318,7 @@ impl RequirementParser {
 
             match op {
                 "==" => Ok(VersionConstraint::Exact(version)),
+                "!=" => Ok(VersionConstraint::Exclude(vec![version])),
                 ">" => Ok(VersionConstraint::GreaterThan(version)),
                 ">=" => Ok(VersionConstraint::GreaterThanOrEqual(version)),
                 "<" => Ok(VersionConstraint::LessThan(version)),
@@ -333,7 +335,7 @@ impl RequirementParser {
 impl RequirementPatterns {
     fn new() -> Self {
         Self {
-            basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|>=|<=|>|<|~=)(.+)$").unwrap(),
+            basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|!=|>=|<=|>|<|~=)(.+)$").unwrap(),
             namespace: Regex::new(r"^([a-zA-Z0-9_\-\.]+)::([a-zA-Z0-9_\-\.]+.*)$").unwrap(),
             wildcard: Regex::new(r"^([a-zA-Z0-9_\-\.]+)==(.+\*.*)$").unwrap(),
         }
-- 
2.43.0


From 824b0909ee9ce7d8f3488e09050bacfc6cca9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:07 +0000
Subject: [PATCH 013/101] fix: parse the architecture of a platform condition

The last quote of the condition was taken for the start of the value, so
[platform=='linux' and arch=='x86_64'] held on every architecture.
---
 .../src/requirement/parser.rs                 | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index 8f8e536..a9a575b 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -106,21 +106,11 @@ impl RequirementParser {
             let platform =
                 condition[platform_start + 1..platform_start + 1 + platform_end].to_string();
 
-            let arch = if condition.contains("arch") {
-                if let Some(arch_start) = condition.rfind('\'') {
-                    if arch_start > platform_start + 1 + platform_end {
-                        condition[arch_start + 1..].find('\'').map(|arch_end| {
-                            condition[arch_start + 1..arch_start + 1 + arch_end].to_string()
-                        })
-                    } else {
-                        None
-                    }
-                } else {
-                    None
-                }
-            } else {
-                None
-            };
+            // The quoted value that follows "arch", e.g. platform=='linux' and arch=='x86_64'
+            let arch = condition[platform_start + platform_end + 2..]
+                .split_once("arch")
+                .and_then(|(_, rest)| rest.split('\'').nth(1))
+                .map(ToString::to_string);
 
             return Ok(PlatformCondition {
                 platform,
-- 
2.43.0


From 3151d4a18cf0fbc421ecaa549ba5500068f09baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:07 +0000
Subject: [PATCH 014/101] fix: print the negation of an environment-variable
 condition

A condition that a variable is not set was printed, and so read back, as the
condition that it is set.
---
 crates/rez-next-package/src/requirement/display.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rez-next-package/src/requirement/display.rs b/crates/rez-next-package/src/requirement/display.rs
index 9b41d13..d4931b7 100644
--- a/crates/rez-next-package/src/requirement/display.rs
+++ b/crates/rez-next-package/src/requirement/display.rs
@@ -48,6 +48,7 @@ impl fmt::Display for EnvCondition {
         let op = if self.negate { "!=" } else { "==" };
         match &self.expected_value {
             Some(value) => write!(f, "env.{}{}'{}'", self.var_name, op, value),
+            None if self.negate => write!(f, "env.{}!=None", self.var_name),
             None => write!(f, "env.{}", self.var_name),
         }
     }
-- 
2.43.0


From 23b14e4ccc13adb7344019fe329052bfb8bb52e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 015/101] fix: package requirements honour version wildcards

"python==3.8.*" was accepted as a package requirement but compared as text,
so no version ever satisfied it.
---
 crates/rez-next-package/src/package/requirement.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index f3743c2..fa62afd 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -131,6 +131,7 @@ impl PackageRequirement {
 
     /// Check a single version constraint like ">=1.0" or "2.1.0"
     fn check_single_constraint(version: &Version, spec: &str) -> bool {
+        use crate::requirement::VersionConstraint;
         use rez_next_version::VersionRange;
 
         let (op, ver_str) = if let Some(rest) = spec.strip_prefix(">=") {
@@ -162,7 +163,6 @@ impl PackageRequirement {
 
         let ver_str = ver_str.trim();
         if let Ok(constraint_ver) = Version::parse(ver_str) {
-            use crate::requirement::VersionConstraint;
             let constraint = match op {
                 ">=" => VersionConstraint::GreaterThanOrEqual(constraint_ver),
                 "<=" => VersionConstraint::LessThanOrEqual(constraint_ver),
@@ -173,6 +173,8 @@ impl PackageRequirement {
                 _ => VersionConstraint::Exact(constraint_ver),
             };
             constraint.is_satisfied_by(version)
+        } else if op == "==" && ver_str.contains('*') {
+            VersionConstraint::Wildcard(ver_str.to_string()).is_satisfied_by(version)
         } else {
             version.as_str() == ver_str
         }
-- 
2.43.0


From 2beb046168db7b1edad7e25220958629c8f3f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 016/101] fix: print package requirements so that they read
 back

---
 crates/rez-next-package/src/package/requirement.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index fa62afd..62a143a 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -22,7 +22,13 @@ pub struct PackageRequirement {
 impl std::fmt::Display for PackageRequirement {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let base = if let Some(ref version) = self.version_spec {
-            format!("{}-{}", self.name, version)
+            // An operator separates the name by itself ("name>=1.0"); "name-" only
+            // introduces a version.
+            if version.starts_with(['<', '>', '=', '!', '~']) {
+                format!("{}{}", self.name, version)
+            } else {
+                format!("{}-{}", self.name, version)
+            }
         } else {
             self.name.clone()
         };
-- 
2.43.0


From 6a1409a76ce9b0af012359ea7bed70025a2ba78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:15 +0000
Subject: [PATCH 017/101] fix: a resolve whose selections keep invalidating
 each other terminates

---
 crates/rez-next-solver/src/dependency_resolver.rs | 8 ++++++++
 crates/rez-next-solver/src/resolution_state.rs    | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 9bb4007..391e233 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -189,6 +189,14 @@ impl DependencyResolver {
     ) -> Result<Vec<ResolvedPackageInfo>, RezCoreError> {
         // Get next requirement to resolve
         while let Some(requirement) = state.get_next_requirement() {
+            // Selections that keep invalidating each other would be revised forever.
+            if state.revisions > self.config.max_attempts {
+                return Err(RezCoreError::Solver(format!(
+                    "No stable selection found after {} revisions (last requirement: {})",
+                    state.revisions, requirement
+                )));
+            }
+
             // Check if we already have a package that satisfies this requirement
             if let Some(existing) = state.find_satisfying_package(&requirement) {
                 // Mark this requirement as satisfied
diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index 638fda0..911c8bc 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -51,6 +51,9 @@ pub(crate) struct ResolutionState {
     pub(crate) packages_considered: usize,
     pub(crate) variants_evaluated: usize,
     pub(crate) backtrack_steps: usize,
+
+    /// Number of times a selected package was replaced by another version.
+    pub(crate) revisions: usize,
 }
 
 impl ResolutionState {
@@ -78,6 +81,7 @@ impl ResolutionState {
             packages_considered: 0,
             variants_evaluated: 0,
             backtrack_steps: 0,
+            revisions: 0,
         };
         state.rebuild_constraints();
         state
@@ -365,6 +369,7 @@ impl ResolutionState {
             .find(|existing| existing.package.name == package.package.name)
         {
             *existing = package;
+            self.revisions += 1;
         } else {
             self.resolved_packages.push(package);
         }
-- 
2.43.0


From d98ebfc051e783a0ed21b0708b610c77b5d11197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:15 +0000
Subject: [PATCH 018/101] fix: a conflict requirement applies to packages
 selected before it was known

---
 crates/rez-next-solver/src/resolution_state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index 911c8bc..5e0af29 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -314,6 +314,8 @@ impl ResolutionState {
                     .version
                     .as_ref()
                     .is_none_or(|v| requirement.is_satisfied_by(v))
+                // A conflict requirement may have been contributed after the package was selected.
+                && self.check_explicit_conflicts(&pkg.package).is_none()
         })
     }
 
-- 
2.43.0


From a67a1a1aa4ef34910a38301a47a4c51d9b989841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:43 +0000
Subject: [PATCH 019/101] fix: a strict resolve tries other versions when a
 dependency has no candidate

---
 crates/rez-next-solver/src/dependency_resolver.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 391e233..0ce4d76 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -224,6 +224,14 @@ impl DependencyResolver {
                 .any(|resolved| resolved.package.name == requirement.name);
 
             if candidates.is_empty() {
+                // The package that asked for it may have a version that does not.
+                if self.config.strict_mode
+                    && self
+                        .backtrack_dependency_source(state, &requirement)
+                        .await?
+                {
+                    continue;
+                }
                 state.failed_requirements.push(requirement.clone());
                 continue;
             }
-- 
2.43.0


From 96ef7a936ffc154c9f235c35f041d3ade740ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:28 +0000
Subject: [PATCH 020/101] fix: the solver front end applies constraints and
 exclusions

---
 crates/rez-next-solver/src/solver.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-solver/src/solver.rs b/crates/rez-next-solver/src/solver.rs
index 020c9d2..ca5f48b 100644
--- a/crates/rez-next-solver/src/solver.rs
+++ b/crates/rez-next-solver/src/solver.rs
@@ -207,17 +207,30 @@ impl DependencySolver {
             let rt = tokio::runtime::Runtime::new()
                 .map_err(|e| RezCoreError::Solver(format!("Failed to create runtime: {}", e)))?;
 
+            // Constraints restrict packages without requesting them; excluded
+            // packages must not be selected at all.
+            let constraints = request.constraints.into_iter().map(|mut constraint| {
+                constraint.weak = !constraint.conflict;
+                constraint
+            });
+            let excludes = request.excludes.into_iter().map(|name| {
+                let mut exclude = PackageRequirement::new(name);
+                exclude.conflict = true;
+                exclude
+            });
+
             // Convert PackageRequirement -> Requirement via string parsing
             let requirements: Vec<Requirement> = request
                 .requirements
                 .into_iter()
+                .chain(constraints)
+                .chain(excludes)
                 .map(|pr| {
-                    let req_str = pr.to_string();
-                    req_str
+                    pr.to_string()
                         .parse::<Requirement>()
-                        .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+                        .map_err(RezCoreError::RequirementParse)
                 })
-                .collect();
+                .collect::<Result<_, _>>()?;
 
             let mut resolver =
                 DependencyResolver::new(Arc::clone(repo_manager), self.config.clone());
-- 
2.43.0


From dd730ed8d9d87b36b257726f961302b21754f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:37 +0000
Subject: [PATCH 021/101] fix: ignored package versions are not offered to the
 solver

---
 crates/rez-next-repository/src/simple_repository.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index 348fcfe..355a23d 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -87,6 +87,12 @@ impl SimpleRepository {
                 let path = entry.path();
 
                 if path.is_dir() {
+                    // Rez hides a version when a sibling `.ignore{version}` marker exists.
+                    let marker = format!(".ignore{}", entry.file_name().to_string_lossy());
+                    if dir_path.join(marker).is_file() {
+                        continue;
+                    }
+
                     // Check if this directory contains any supported package descriptor.
                     // Priority follows the canonical `REZ_PACKAGE_FILENAMES` order.
                     let pkg_file = REZ_PACKAGE_FILENAMES
-- 
2.43.0


From bb77572c5dad60b535371595fe1fbfe72243c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:37 +0000
Subject: [PATCH 022/101] fix: a dry run counts only ignored packages that
 would be removed

---
 .../src/package_repository/filesystem.rs                   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-repository/src/package_repository/filesystem.rs b/crates/rez-next-repository/src/package_repository/filesystem.rs
index 7553fef..62acdc3 100644
--- a/crates/rez-next-repository/src/package_repository/filesystem.rs
+++ b/crates/rez-next-repository/src/package_repository/filesystem.rs
@@ -528,7 +528,12 @@ impl PackageRepository for FilesystemPackageRepository {
                     "removing ignored package"
                 );
             }
-            if dry_run || self.remove_package(&name, Some(&version))? {
+            let remove = if dry_run {
+                self.version_path(&name, &version)?.is_dir()
+            } else {
+                self.remove_package(&name, Some(&version))?
+            };
+            if remove {
                 removed += 1;
             }
         }
-- 
2.43.0


From 5e684e88276ad0e7445296916eac3bd5c3b60a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:34 +0000
Subject: [PATCH 023/101] fix: a weak requirement on a package no longer
 selected is not reported as failed

---
 crates/rez-next-solver/src/dependency_resolver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 0ce4d76..7ff8b47 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -158,7 +158,13 @@ impl DependencyResolver {
         let failed: Vec<_> = failed_requirements
             .into_iter()
             .filter(|requirement| {
-                resolution_state.is_requirement_active(requirement)
+                // A weak requirement does not apply once its package is no longer selected.
+                let applies = !requirement.weak
+                    || result
+                        .iter()
+                        .any(|resolved| resolved.package.name == requirement.name);
+                applies
+                    && resolution_state.is_requirement_active(requirement)
                     && resolution_state
                         .find_satisfying_package(requirement)
                         .is_none()
-- 
2.43.0


From 63b73d90299f7bb927155124f766c47e61f27986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:45 +0000
Subject: [PATCH 024/101] fix: package names and versions given to copy and
 remove name one directory

---
 crates/rez-next-package/src/package_copy.rs   | 12 ++++++++++++
 crates/rez-next-package/src/package_remove.rs |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index e678e7e..45fb7f6 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -93,6 +93,9 @@ pub fn copy_package(
     dest_base: &Path,
     config: &PackageCopyConfig,
 ) -> Result<PackageCopyResult, PackageCopyError> {
+    check_component(name).map_err(PackageCopyError::Other)?;
+    check_component(version).map_err(PackageCopyError::Other)?;
+
     // Find the source directory
     let src = find_package_dir(name, version, &config.packages_path)?;
 
@@ -151,6 +154,15 @@ pub fn find_package_dir(
     })
 }
 
+/// Check that a package name or version names exactly one directory entry.
+pub(crate) fn check_component(component: &str) -> Result<(), String> {
+    let mut parts = Path::new(component).components();
+    match (parts.next(), parts.next()) {
+        (Some(std::path::Component::Normal(part)), None) if part == component => Ok(()),
+        _ => Err(format!("Invalid package name or version '{component}'")),
+    }
+}
+
 /// Normalize a path to avoid UNC path issues on Windows.
 ///
 /// Addresses Rez issue #1438: "Environment resolution uses UNC paths with Python 3.10"
diff --git a/crates/rez-next-package/src/package_remove.rs b/crates/rez-next-package/src/package_remove.rs
index 51c79bb..f985673 100644
--- a/crates/rez-next-package/src/package_remove.rs
+++ b/crates/rez-next-package/src/package_remove.rs
@@ -13,6 +13,8 @@ use std::path::PathBuf;
 
 use thiserror::Error;
 
+use crate::package_copy::check_component;
+
 /// Errors that can occur during package remove operations.
 #[derive(Debug, Error)]
 pub enum PackageRemoveError {
@@ -81,6 +83,9 @@ pub fn remove_package_version(
     version: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    check_component(name).map_err(PackageRemoveError::Other)?;
+    check_component(version).map_err(PackageRemoveError::Other)?;
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
@@ -132,6 +137,8 @@ pub fn remove_package_family(
     name: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    check_component(name).map_err(PackageRemoveError::Other)?;
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
-- 
2.43.0


From ceeb608e6433cfe432ee89739cc08a4e685a6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:45 +0000
Subject: [PATCH 025/101] fix: copying a package onto itself with force does
 not delete it

---
 crates/rez-next-package/src/package_copy.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index 45fb7f6..d19813b 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -104,6 +104,13 @@ pub fn copy_package(
     // Check destination
     if dest.exists() {
         if config.force {
+            // Overwriting a package with itself would delete it
+            if normalize_path(&dest) == src {
+                return Err(PackageCopyError::Other(format!(
+                    "Source and destination are the same: {}",
+                    src.display()
+                )));
+            }
             fs::remove_dir_all(&dest)?;
         } else {
             return Err(PackageCopyError::DestinationExists {
-- 
2.43.0


From a612af5b6c17a0070733a4f8a69dab046474d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 026/101] fix: moving a package removes only the directory it
 was copied from

---
 crates/rez-next-package/src/package_copy.rs | 23 +++++++++++++-----
 crates/rez-next-package/src/package_move.rs | 26 ++++++++++-----------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index d19813b..91a24ae 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -141,6 +141,20 @@ pub fn find_package_dir(
     version: &str,
     search_paths: &[PathBuf],
 ) -> Result<PathBuf, PackageCopyError> {
+    locate_package_dir(name, version, search_paths)
+        .map(|path| normalize_path(&path))
+        .ok_or_else(|| PackageCopyError::VersionNotFound {
+            name: name.to_string(),
+            version: version.to_string(),
+        })
+}
+
+/// The directory of a package as it is entered in the first search path that has it.
+pub(crate) fn locate_package_dir(
+    name: &str,
+    version: &str,
+    search_paths: &[PathBuf],
+) -> Option<PathBuf> {
     for base in search_paths {
         // Check both version and version subdir patterns
         let candidates = [
@@ -148,17 +162,14 @@ pub fn find_package_dir(
             base.join(name).join(format!("{}-{}", name, version)),
         ];
 
-        for candidate in &candidates {
+        for candidate in candidates {
             if candidate.exists() && candidate.is_dir() {
-                return Ok(normalize_path(candidate));
+                return Some(candidate);
             }
         }
     }
 
-    Err(PackageCopyError::VersionNotFound {
-        name: name.to_string(),
-        version: version.to_string(),
-    })
+    None
 }
 
 /// Check that a package name or version names exactly one directory entry.
diff --git a/crates/rez-next-package/src/package_move.rs b/crates/rez-next-package/src/package_move.rs
index 130f8f5..a5154a2 100644
--- a/crates/rez-next-package/src/package_move.rs
+++ b/crates/rez-next-package/src/package_move.rs
@@ -13,7 +13,7 @@ use std::path::{Path, PathBuf};
 use thiserror::Error;
 
 use crate::package_copy::{self, PackageCopyConfig, PackageCopyError};
-use crate::package_remove::{self, PackageRemoveConfig, PackageRemoveError};
+use crate::package_remove::PackageRemoveError;
 
 /// Errors that can occur during package move operations.
 #[derive(Debug, Error)]
@@ -84,22 +84,12 @@ impl PackageMoveConfig {
             normalize_paths: self.normalize_paths,
         }
     }
-
-    /// Create a PackageRemoveConfig from this move config.
-    fn to_remove_config(&self) -> PackageRemoveConfig {
-        PackageRemoveConfig {
-            packages_path: self.packages_path.clone(),
-            force: true, // We always force remove during move
-            prune_empty_families: true,
-        }
-    }
 }
 
 /// Move a package from one location to another.
 ///
 /// This is the domain-level implementation, aligned with rez's `move_package()`.
-/// It delegates to `copy_package` and `remove_package_version` — following
-/// the Single Responsibility Principle: each operation does one thing.
+/// It delegates to `copy_package` and then removes the directory it copied from.
 ///
 /// # Safety
 /// - Copy first, verify copy success, then remove source (atomic-like behavior).
@@ -135,13 +125,23 @@ pub fn move_package(
         });
     }
 
+    let source_dir = package_copy::locate_package_dir(name, version, &config.packages_path);
+
     // Phase 1: Copy
     let copy_result =
         package_copy::copy_package(name, version, dest_base, &config.to_copy_config())?;
 
     // Phase 2: Remove source (unless keep_source)
+    // Only the copied directory goes: other search paths, the destination included, keep theirs.
     let source_removed = if !config.keep_source {
-        package_remove::remove_package_version(name, version, &config.to_remove_config())?;
+        if let Some(source_dir) = source_dir {
+            std::fs::remove_dir_all(&source_dir)?;
+            if let Some(family_dir) = source_dir.parent()
+                && std::fs::read_dir(family_dir)?.next().is_none()
+            {
+                std::fs::remove_dir(family_dir)?;
+            }
+        }
         true
     } else {
         false
-- 
2.43.0


From 4bc73f585e8732fc90dabae464f8155ddfd1910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 027/101] fix: cp and mv without a version take the newest one

---
 src/cli/commands/cp.rs | 2 +-
 src/cli/commands/mv.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/commands/cp.rs b/src/cli/commands/cp.rs
index 5b54749..136ac95 100644
--- a/src/cli/commands/cp.rs
+++ b/src/cli/commands/cp.rs
@@ -224,7 +224,7 @@ async fn find_source_package_with_path(
         sorted.sort_by(|a, b| {
             b.version
                 .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
+                .and_then(|bv| a.version.as_ref().map(|av| bv.cmp(av)))
                 .unwrap_or(std::cmp::Ordering::Equal)
         });
         sorted.into_iter().next().unwrap()
diff --git a/src/cli/commands/mv.rs b/src/cli/commands/mv.rs
index dd78a5d..c36ca00 100644
--- a/src/cli/commands/mv.rs
+++ b/src/cli/commands/mv.rs
@@ -247,7 +247,7 @@ async fn find_source_package_with_path(
         sorted.sort_by(|a, b| {
             b.version
                 .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
+                .and_then(|bv| a.version.as_ref().map(|av| bv.cmp(av)))
                 .unwrap_or(std::cmp::Ordering::Equal)
         });
         sorted.into_iter().next().unwrap()
-- 
2.43.0


From 2acc960e9de2392a0b7ca1ebbc8e2e0ed3153055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:17 +0000
Subject: [PATCH 028/101] fix: cp and mv with --force onto the package itself
 do not delete it

---
 src/cli/commands/cp.rs | 9 +++++++++
 src/cli/commands/mv.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/cli/commands/cp.rs b/src/cli/commands/cp.rs
index 136ac95..db29779 100644
--- a/src/cli/commands/cp.rs
+++ b/src/cli/commands/cp.rs
@@ -146,6 +146,15 @@ async fn execute_copy_async(args: &CpArgs) -> RezCoreResult<()> {
         ));
     }
 
+    // Overwriting a package with itself would delete it
+    if let (Ok(source), Ok(dest)) = (source_root.canonicalize(), dest_pkg_dir.canonicalize())
+        && source == dest
+    {
+        return Err(RezCoreError::RequirementParse(
+            "Source and destination are the same package directory.".to_string(),
+        ));
+    }
+
     if args.dry_run {
         println!("DRY RUN - Would copy:");
         println!("  Package: {}", source_package.name);
diff --git a/src/cli/commands/mv.rs b/src/cli/commands/mv.rs
index c36ca00..be88b8a 100644
--- a/src/cli/commands/mv.rs
+++ b/src/cli/commands/mv.rs
@@ -159,6 +159,15 @@ async fn execute_move_async(args: &MvArgs) -> RezCoreResult<()> {
         ));
     }
 
+    // Overwriting a package with itself would delete it
+    if let (Ok(source), Ok(dest)) = (source_path.canonicalize(), dest_pkg_dir.canonicalize())
+        && source == dest
+    {
+        return Err(RezCoreError::RequirementParse(
+            "Source and destination are the same package directory.".to_string(),
+        ));
+    }
+
     if args.dry_run {
         println!("DRY RUN - Would move:");
         println!("  Package: {}", source_package.name);
-- 
2.43.0


From 7f7dff4077b59e616dd2442b8f15183b1162ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:19 +0000
Subject: [PATCH 029/101] fix: rm --ignored-since removes the ignored packages
 and no others

---
 src/cli/commands/rm.rs | 99 +++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 59 deletions(-)

diff --git a/src/cli/commands/rm.rs b/src/cli/commands/rm.rs
index bb177c0..76905f1 100644
--- a/src/cli/commands/rm.rs
+++ b/src/cli/commands/rm.rs
@@ -6,6 +6,9 @@ use crate::cli::utils::{expand_home_path, parse_time_spec};
 use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
+use rez_next_repository::package_repository::{
+    PackageRepository, filesystem::FilesystemPackageRepository,
+};
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use std::path::PathBuf;
 
@@ -279,42 +282,27 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
     // Parse time specification (absolute ISO datetime or relative like 1d/2w/1m/1y)
     let cutoff_timestamp = parse_time_spec(time_spec)?;
 
-    let repo_manager = setup_repositories(args).await?;
-
-    // Get all package family names, then fetch their versions
-    let package_names = repo_manager.list_packages().await?;
-    let mut removal_candidates: Vec<Package> = Vec::new();
-
-    for name in &package_names {
-        let packages = repo_manager.find_packages(name).await?;
-        for pkg_arc in packages {
-            let pkg = (*pkg_arc).clone();
-            // Retrieve install dir by walking the configured repo paths
-            let pkg_path = {
-                let ver_str = pkg
-                    .version
-                    .as_ref()
-                    .map(|v| v.as_str())
-                    .unwrap_or("unknown");
-                // Construct candidate paths: <repo>/<name>/<version>/package.py
-                let mut found_path = std::path::PathBuf::new();
-                for path in &args.paths {
-                    let candidate = path.join(&pkg.name).join(ver_str).join("package.py");
-                    if candidate.exists() {
-                        found_path = candidate;
-                        break;
-                    }
-                }
-                found_path
-            };
-
-            if !pkg_path.as_os_str().is_empty()
-                && let Ok(metadata) = std::fs::metadata(&pkg_path)
-                && let Ok(modified) = metadata.modified()
-                && let Ok(dur) = modified.duration_since(std::time::UNIX_EPOCH)
-                && dur.as_secs() < cutoff_timestamp
+    // A package is ignored by a ".ignore<version>" marker in its family directory; the
+    // marker's age says since when.
+    let mut removal_candidates: Vec<(String, String, PathBuf)> = Vec::new();
+    for base in repository_paths(args) {
+        for family in std::fs::read_dir(&base).into_iter().flatten().flatten() {
+            let name = family.file_name().to_string_lossy().to_string();
+            for entry in std::fs::read_dir(family.path())
+                .into_iter()
+                .flatten()
+                .flatten()
             {
-                removal_candidates.push(pkg);
+                let file_name = entry.file_name().to_string_lossy().to_string();
+                if let Some(version) = file_name.strip_prefix(".ignore")
+                    && !version.is_empty()
+                    && family.path().join(version).is_dir()
+                    && let Ok(modified) = entry.metadata().and_then(|m| m.modified())
+                    && let Ok(dur) = modified.duration_since(std::time::UNIX_EPOCH)
+                    && dur.as_secs() < cutoff_timestamp
+                {
+                    removal_candidates.push((name.clone(), version.to_string(), base.clone()));
+                }
             }
         }
     }
@@ -329,13 +317,8 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
 
     if args.verbose || args.dry_run {
         println!("Packages to remove ({}):", removal_candidates.len());
-        for pkg in &removal_candidates {
-            let ver = pkg
-                .version
-                .as_ref()
-                .map(|v| v.as_str())
-                .unwrap_or("unknown");
-            println!("  {}-{}", pkg.name, ver);
+        for (name, version, _) in &removal_candidates {
+            println!("  {}-{}", name, version);
         }
     }
 
@@ -347,24 +330,17 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
         return Ok(());
     }
 
-    // Perform actual removal via the existing single-package remove path
     let mut removed = 0usize;
-    for pkg in &removal_candidates {
-        match remove_single_package(pkg, args).await {
+    for (name, version, base) in &removal_candidates {
+        // Removes the payload first and the marker last, so that an interrupted removal stays hidden
+        match FilesystemPackageRepository::new(base).remove_package(name, Some(version)) {
             Ok(_) => {
                 removed += 1;
                 if args.verbose {
-                    println!(
-                        "  Removed {}-{}",
-                        pkg.name,
-                        pkg.version
-                            .as_ref()
-                            .map(|v| v.as_str())
-                            .unwrap_or("unknown")
-                    );
+                    println!("  Removed {}-{}", name, version);
                 }
             }
-            Err(e) => eprintln!("  Warning: failed to remove {}: {}", pkg.name, e),
+            Err(e) => eprintln!("  Warning: failed to remove {}: {}", name, e),
         }
     }
 
@@ -375,12 +351,11 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
     Ok(())
 }
 
-/// Setup repository manager
-async fn setup_repositories(args: &RmArgs) -> RezCoreResult<RepositoryManager> {
+/// Repository paths to work on: the given ones, or those configured
+fn repository_paths(args: &RmArgs) -> Vec<PathBuf> {
     use rez_next_common::config::RezCoreConfig;
 
-    let mut repo_manager = RepositoryManager::new();
-    let paths: Vec<PathBuf> = if !args.paths.is_empty() {
+    if !args.paths.is_empty() {
         args.paths.clone()
     } else {
         let config = RezCoreConfig::load();
@@ -390,7 +365,13 @@ async fn setup_repositories(args: &RmArgs) -> RezCoreResult<RepositoryManager> {
             .map(|p| expand_home_path(p))
             .filter(|p| p.exists())
             .collect()
-    };
+    }
+}
+
+/// Setup repository manager
+async fn setup_repositories(args: &RmArgs) -> RezCoreResult<RepositoryManager> {
+    let mut repo_manager = RepositoryManager::new();
+    let paths = repository_paths(args);
 
     for (i, path) in paths.iter().enumerate() {
         let repo_name = format!("repo_{}", i);
-- 
2.43.0


From c14998e007caecb77e3017ae9ca748730d1e62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:21 +0000
Subject: [PATCH 030/101] fix: rm fails when a package could not be removed

---
 src/cli/commands/rm.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/cli/commands/rm.rs b/src/cli/commands/rm.rs
index 76905f1..b06167d 100644
--- a/src/cli/commands/rm.rs
+++ b/src/cli/commands/rm.rs
@@ -157,6 +157,7 @@ async fn remove_package(package_spec: &str, args: &RmArgs) -> RezCoreResult<()>
 
     // Remove packages
     let mut removed_count = 0;
+    let mut failed_count = 0;
     for package in packages {
         if args.interactive && !confirm_removal(&package)? {
             continue;
@@ -174,6 +175,7 @@ async fn remove_package(package_spec: &str, args: &RmArgs) -> RezCoreResult<()>
                         }
                     }
                 } else {
+                    failed_count += 1;
                     eprintln!(
                         "❌ Failed to remove {}: {}",
                         package.name,
@@ -182,13 +184,14 @@ async fn remove_package(package_spec: &str, args: &RmArgs) -> RezCoreResult<()>
                 }
             }
             Err(e) => {
+                failed_count += 1;
                 eprintln!("❌ Error removing {}: {}", package.name, e);
             }
         }
     }
 
     println!("Removed {} package(s)", removed_count);
-    Ok(())
+    removal_outcome(failed_count)
 }
 
 /// Remove an entire package family
@@ -240,6 +243,7 @@ async fn remove_package_family(package_name: &str, args: &RmArgs) -> RezCoreResu
 
     // Remove all packages in family
     let mut removed_count = 0;
+    let mut failed_count = 0;
     for package in packages {
         match remove_single_package(&package, args).await {
             Ok(result) => {
@@ -256,9 +260,12 @@ async fn remove_package_family(package_name: &str, args: &RmArgs) -> RezCoreResu
                                 .unwrap_or("unknown")
                         );
                     }
+                } else {
+                    failed_count += 1;
                 }
             }
             Err(e) => {
+                failed_count += 1;
                 eprintln!("❌ Error removing {}: {}", package.name, e);
             }
         }
@@ -268,7 +275,7 @@ async fn remove_package_family(package_name: &str, args: &RmArgs) -> RezCoreResu
         "✅ Removed package family '{}' ({} packages)",
         package_name, removed_count
     );
-    Ok(())
+    removal_outcome(failed_count)
 }
 
 /// Remove packages ignored since a specific time
@@ -331,6 +338,7 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
     }
 
     let mut removed = 0usize;
+    let mut failed_count = 0;
     for (name, version, base) in &removal_candidates {
         // Removes the payload first and the marker last, so that an interrupted removal stays hidden
         match FilesystemPackageRepository::new(base).remove_package(name, Some(version)) {
@@ -340,7 +348,10 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
                     println!("  Removed {}-{}", name, version);
                 }
             }
-            Err(e) => eprintln!("  Warning: failed to remove {}: {}", name, e),
+            Err(e) => {
+                failed_count += 1;
+                eprintln!("  Warning: failed to remove {}: {}", name, e);
+            }
         }
     }
 
@@ -348,6 +359,16 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
         "✅ Removed {} package(s) ignored since {}",
         removed, time_spec
     );
+    removal_outcome(failed_count)
+}
+
+/// The command fails when a package it was asked to remove could not be removed
+fn removal_outcome(failed_count: usize) -> RezCoreResult<()> {
+    if failed_count > 0 {
+        return Err(RezCoreError::Repository(format!(
+            "{failed_count} package(s) could not be removed"
+        )));
+    }
     Ok(())
 }
 
-- 
2.43.0


From e7b0df61eba3968ab63885dbcc41f4120c749fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 031/101] fix: resetenv restores the original value at its
 place in the commands

---
 crates/rez-next-context/src/environment.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index a7719b2..900073d 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -35,6 +35,8 @@ pub enum EnvOperation {
     Unset,
     /// Set a variable only when it is not already defined
     SetIfEmpty(String),
+    /// Restore the value a variable had before the context was applied
+    Reset,
 }
 
 /// Environment variable definition
@@ -254,6 +256,7 @@ impl EnvironmentManager {
                 RexActionType::SetenvIfEmpty { name, value } => {
                     Some((name.clone(), EnvOperation::SetIfEmpty(value.clone())))
                 }
+                RexActionType::Resetenv { name } => Some((name.clone(), EnvOperation::Reset)),
                 _ => None,
             };
             let Some((name, operation)) = definition else {
@@ -331,6 +334,14 @@ impl EnvironmentManager {
             EnvOperation::SetIfEmpty(value) => {
                 env_vars.entry(name).or_insert_with(|| value.clone());
             }
+            EnvOperation::Reset => match self.base_env.get(&name) {
+                Some(value) => {
+                    env_vars.insert(name, value.clone());
+                }
+                None => {
+                    env_vars.remove(&name);
+                }
+            },
         }
 
         Ok(())
-- 
2.43.0


From fbcdbe272b6888a12806903033ae19d81be04210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 032/101] fix: context shell scripts escape the escape
 character itself

---
 crates/rez-next-context/src/environment.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index 900073d..7cbf3ca 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -472,6 +472,7 @@ impl EnvironmentManager {
     /// Escape a value for bash/zsh
     fn escape_bash_value(&self, value: &str) -> String {
         value
+            .replace('\\', "\\\\")
             .replace("\"", "\\\"")
             .replace("$", "\\$")
             .replace("`", "\\`")
@@ -479,12 +480,18 @@ impl EnvironmentManager {
 
     /// Escape a value for PowerShell
     fn escape_powershell_value(&self, value: &str) -> String {
-        value.replace("\"", "`\"").replace("$", "`$")
+        value
+            .replace('`', "``")
+            .replace("\"", "`\"")
+            .replace("$", "`$")
     }
 
     /// Escape a value for fish shell
     fn escape_fish_value(&self, value: &str) -> String {
-        value.replace("\"", "\\\"").replace("$", "\\$")
+        value
+            .replace('\\', "\\\\")
+            .replace("\"", "\\\"")
+            .replace("$", "\\$")
     }
 
     /// Get environment variable differences from base environment
-- 
2.43.0


From 821fd08870ede4a0bd1e4bc230c9cee73ed1263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 033/101] fix: rex variables expand in a fixed order, longest
 names first

---
 crates/rez-next-rex/src/executor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-rex/src/executor.rs b/crates/rez-next-rex/src/executor.rs
index 37db3bf..7c0c530 100644
--- a/crates/rez-next-rex/src/executor.rs
+++ b/crates/rez-next-rex/src/executor.rs
@@ -90,7 +90,10 @@ impl RexExecutor {
     fn expand_action_vars(&self, action: RexAction) -> RexAction {
         let expand = |s: &str| -> String {
             let mut result = s.to_string();
-            for (key, value) in &self.context_vars {
+            // Longest names first: `$ROOT_DIR` is not `$ROOT` followed by `_DIR`
+            let mut vars: Vec<_> = self.context_vars.iter().collect();
+            vars.sort_by_key(|(key, _)| (std::cmp::Reverse(key.len()), key.as_str()));
+            for (key, value) in vars {
                 result = result.replace(&format!("{{{}}}", key), value);
                 // Also support $NAME style
                 result = result.replace(&format!("${}", key.to_uppercase()), value);
-- 
2.43.0


From cc8d3dc82dcc08c7fa1a96ce96e35138ae4a586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 034/101] fix: scripts run in a context do not see the parent
 environment unless asked

---
 crates/rez-next-context/src/shell.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rez-next-context/src/shell.rs b/crates/rez-next-context/src/shell.rs
index 79366ed..014e01d 100644
--- a/crates/rez-next-context/src/shell.rs
+++ b/crates/rez-next-context/src/shell.rs
@@ -347,6 +347,9 @@ impl ShellExecutor {
         }
 
         // Set environment variables
+        if !self.inherit_parent_env {
+            cmd.env_clear();
+        }
         for (key, value) in &self.environment {
             cmd.env(key, value);
         }
-- 
2.43.0


From 21aa3fc107c658e3f071f977ac2b1decd9e99c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 035/101] fix: activation scripts do not expand or execute what
 variable values contain

---
 crates/rez-next-rex/src/shell.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 97321a1..1fa8ae4 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -46,6 +46,19 @@ pub fn generate_shell_script(env: &RexEnvironment, shell: &ShellType) -> String
     }
 }
 
+/// Escape a literal value for a double-quoted bash/zsh string
+pub fn escape_bash(value: &str) -> String {
+    escape_fish(value).replace('`', "\\`")
+}
+
+/// Escape a literal value for a double-quoted fish string
+fn escape_fish(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('$', "\\$")
+}
+
 /// Generate bash/zsh activation script
 fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut lines = Vec::new();
@@ -56,9 +69,7 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        // Escape double quotes in value
-        let escaped = value.replace('\\', "\\\\").replace('"', "\\\"");
-        lines.push(format!("export {}=\"{}\"", key, escaped));
+        lines.push(format!("export {}=\"{}\"", key, escape_bash(value)));
     }
 
     if !env.vars.is_empty() && !env.aliases.is_empty() {
@@ -114,8 +125,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        let escaped = value.replace('\\', "\\\\").replace('"', "\\\"");
-        lines.push(format!("set -gx {} \"{}\"", key, escaped));
+        lines.push(format!("set -gx {} \"{}\"", key, escape_fish(value)));
     }
 
     if !env.vars.is_empty() && !env.aliases.is_empty() {
@@ -125,7 +135,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("alias {} \"{}\"", name, cmd));
+        lines.push(format!("alias {} \"{}\"", name, escape_fish(cmd)));
     }
 
     if !env.startup_commands.is_empty() {
-- 
2.43.0


From 2e42581eeab3a73f87c0a3129639cfb3112361b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 036/101] fix: env --print-env prints values a shell reads back
 unchanged

---
 src/cli/commands/env.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index 2256567..94b94ac 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -446,7 +446,11 @@ fn print_environment(context: &ResolvedContext, args: &EnvArgs) -> RezCoreResult
         _ => {
             // Shell format (default)
             for (key, value) in env_vars.iter() {
-                println!("export {}=\"{}\"", key, value);
+                println!(
+                    "export {}=\"{}\"",
+                    key,
+                    rez_next_rex::shell::escape_bash(value)
+                );
             }
         }
     }
-- 
2.43.0


From 974fee1599574103f34d638d489aa74b48a9b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:50 +0000
Subject: [PATCH 037/101] fix: variables unset by packages are not inherited by
 the environment

---
 src/cli/commands/env.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index 94b94ac..ef9cab7 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -572,6 +572,8 @@ fn execute_shell_command_in_environment(
         create_activation_script(&mut environment, &shell_type, Some(command))?;
 
     let mut cmd = Command::new(shell);
+    // The environment is complete: what the packages unset is not inherited
+    cmd.env_clear();
     match shell_type {
         RexShellType::Cmd => {
             cmd.args(["/D", "/S", "/C"]).arg(&activation_script);
@@ -679,6 +681,8 @@ fn spawn_shell_in_context(
 
     // Create shell command
     let mut cmd = Command::new(shell_exe);
+    // The environment is complete: what the packages unset is not inherited
+    cmd.env_clear();
 
     match shell_type {
         RexShellType::Cmd => {
-- 
2.43.0


From ba73f73ea61914d7ee017d1b13b541ca61cedfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:21 +0000
Subject: [PATCH 038/101] fix: chained comparisons in package.py compare
 neighbours

---
 crates/rez-next-package/src/python_ast_parser/eval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 297fe1e..ae465a1 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -132,7 +132,7 @@ impl PythonAstParser {
         &self,
         compare: &rustpython_ast::ExprCompare,
     ) -> Result<PythonValue, RezCoreError> {
-        let left = self.evaluate_expression(&compare.left)?;
+        let mut left = self.evaluate_expression(&compare.left)?;
 
         if compare.ops.len() != compare.comparators.len() {
             return Err(RezCoreError::PackageParse(
@@ -160,6 +160,7 @@ impl PythonAstParser {
             if !result {
                 return Ok(PythonValue::Boolean(false));
             }
+            left = right;
         }
 
         Ok(PythonValue::Boolean(true))
-- 
2.43.0


From 7543ddd5f5a4c333d5819d41e8d92f8973b54fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:21 +0000
Subject: [PATCH 039/101] fix: and/or in package.py give the operand that
 decides them

---
 .../src/python_ast_parser/eval.rs             | 41 +++++++++++--------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index ae465a1..cb88b47 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -171,26 +171,31 @@ impl PythonAstParser {
         &self,
         boolop: &rustpython_ast::ExprBoolOp,
     ) -> Result<PythonValue, RezCoreError> {
-        match &boolop.op {
-            BoolOp::And => {
-                for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(false) = result {
-                        return Ok(PythonValue::Boolean(false));
-                    }
-                }
-                Ok(PythonValue::Boolean(true))
-            }
-            BoolOp::Or => {
-                for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(true) = result {
-                        return Ok(PythonValue::Boolean(true));
-                    }
-                }
-                Ok(PythonValue::Boolean(false))
+        // The value of `and`/`or` is the operand that decided it
+        let deciding = match &boolop.op {
+            BoolOp::And => false,
+            BoolOp::Or => true,
+        };
+        let mut result = PythonValue::Boolean(!deciding);
+        for value in &boolop.values {
+            result = self.evaluate_expression(value)?;
+            if Self::is_truthy(&result) == deciding {
+                break;
             }
         }
+        Ok(result)
+    }
+
+    fn is_truthy(value: &PythonValue) -> bool {
+        match value {
+            PythonValue::Boolean(b) => *b,
+            PythonValue::None => false,
+            PythonValue::String(s) => !s.is_empty(),
+            PythonValue::Integer(i) => *i != 0,
+            PythonValue::Float(f) => *f != 0.0,
+            PythonValue::List(list) => !list.is_empty(),
+            PythonValue::Dict(dict) => !dict.is_empty(),
+        }
     }
 
     /// Evaluate list expressions
-- 
2.43.0


From 37f99549735a0516d2ff8733ecdaa38bc3adf024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:21 +0000
Subject: [PATCH 040/101] fix: package.py arithmetic that overflows is refused
 instead of panicking

---
 .../src/python_ast_parser/eval.rs             | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index cb88b47..d260ea6 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -81,7 +81,7 @@ impl PythonAstParser {
                 Ok(PythonValue::String(format!("{}{}", l, r)))
             }
             (PythonValue::Integer(l), Operator::Add, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l + r))
+                Self::checked_integer(l.checked_add(*r))
             }
             (PythonValue::Float(l), Operator::Add, PythonValue::Float(r)) => {
                 Ok(PythonValue::Float(l + r))
@@ -92,13 +92,20 @@ impl PythonAstParser {
                 Ok(PythonValue::List(result))
             }
             (PythonValue::Integer(l), Operator::Sub, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l - r))
+                Self::checked_integer(l.checked_sub(*r))
             }
             (PythonValue::Integer(l), Operator::Mult, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l * r))
+                Self::checked_integer(l.checked_mul(*r))
             }
             (PythonValue::String(l), Operator::Mult, PythonValue::Integer(r)) => {
-                Ok(PythonValue::String(l.repeat(*r as usize)))
+                const MAX_REPEATED_LEN: usize = 1 << 20;
+                let count = usize::try_from(*r).unwrap_or(0);
+                match l.len().checked_mul(count) {
+                    Some(len) if len <= MAX_REPEATED_LEN => Ok(PythonValue::String(l.repeat(count))),
+                    _ => Err(RezCoreError::PackageParse(
+                        "Repeated string too large".to_string(),
+                    )),
+                }
             }
             _ => Err(RezCoreError::PackageParse(format!(
                 "Unsupported binary operation: {left:?} {:?} {right:?}",
@@ -107,6 +114,12 @@ impl PythonAstParser {
         }
     }
 
+    fn checked_integer(value: Option<i64>) -> Result<PythonValue, RezCoreError> {
+        value
+            .map(PythonValue::Integer)
+            .ok_or_else(|| RezCoreError::PackageParse("Integer too large".to_string()))
+    }
+
     /// Evaluate unary operations
     fn evaluate_unary_operation(
         &self,
-- 
2.43.0


From 659a1d14d96eb56cef8b51ffb0fd2b0859a0f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:21 +0000
Subject: [PATCH 041/101] fix: format() in package.py numbers "{}" fields and
 does not replace twice

---
 .../src/python_ast_parser/eval.rs             | 53 +++++++++++++++----
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index d260ea6..a2c87d1 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -297,26 +297,57 @@ impl PythonAstParser {
         value: String,
         arguments: &[Expr],
     ) -> Result<PythonValue, RezCoreError> {
-        const OPEN_BRACE: &str = "\u{e000}";
-        const CLOSE_BRACE: &str = "\u{e001}";
-        let mut formatted = value.replace("{{", OPEN_BRACE).replace("}}", CLOSE_BRACE);
-        for (index, argument) in arguments.iter().enumerate() {
-            let value = match self.evaluate_expression(argument)? {
+        let mut values = Vec::new();
+        for argument in arguments {
+            values.push(match self.evaluate_expression(argument)? {
                 PythonValue::String(value) => value,
                 PythonValue::Integer(value) => value.to_string(),
-                PythonValue::Float(value) => value.to_string(),
-                PythonValue::Boolean(value) => value.to_string(),
+                PythonValue::Float(value) => format!("{value:?}"),
+                PythonValue::Boolean(true) => "True".to_string(),
+                PythonValue::Boolean(false) => "False".to_string(),
                 value => {
                     return Err(RezCoreError::PackageParse(format!(
                         "Unsupported format argument: {value:?}"
                     )));
                 }
+            });
+        }
+
+        // One pass, so that braces in the arguments are not replaced again.
+        let mut formatted = String::new();
+        let mut rest = value.as_str();
+        let mut next_index = 0;
+        while let Some(position) = rest.find(['{', '}']) {
+            formatted.push_str(&rest[..position]);
+            let brace = &rest[position..=position];
+            rest = &rest[position + 1..];
+            if let Some(after) = rest.strip_prefix(brace) {
+                formatted.push_str(brace);
+                rest = after;
+                continue;
+            }
+            let field = rest
+                .find('}')
+                .map(|end| &rest[..end])
+                .filter(|field| brace == "{" && field.bytes().all(|byte| byte.is_ascii_digit()));
+            // Named fields such as `{root}` are left for Rex
+            let Some(field) = field else {
+                formatted.push_str(brace);
+                continue;
+            };
+            let index = if field.is_empty() {
+                next_index += 1;
+                Some(next_index - 1)
+            } else {
+                field.parse::<usize>().ok()
             };
-            formatted = formatted.replace(&format!("{{{index}}}"), &value);
+            formatted.push_str(index.and_then(|index| values.get(index)).ok_or_else(|| {
+                RezCoreError::PackageParse(format!("Missing format argument {{{field}}}"))
+            })?);
+            rest = &rest[field.len() + 1..];
         }
-        Ok(PythonValue::String(
-            formatted.replace(OPEN_BRACE, "{").replace(CLOSE_BRACE, "}"),
-        ))
+        formatted.push_str(rest);
+        Ok(PythonValue::String(formatted))
     }
 
     /// Evaluate package command context attributes used by Rez package.py files.
-- 
2.43.0


From 8202e4f8a0c9e851b7030d03252f5e61e3c08b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:21 +0000
Subject: [PATCH 042/101] fix: assignments in package commands that cannot be
 evaluated are refused, not dropped

---
 crates/rez-next-package/src/python_ast_parser/commands.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/commands.rs b/crates/rez-next-package/src/python_ast_parser/commands.rs
index 70dbe3e..360540d 100644
--- a/crates/rez-next-package/src/python_ast_parser/commands.rs
+++ b/crates/rez-next-package/src/python_ast_parser/commands.rs
@@ -111,10 +111,12 @@ impl PythonAstParser {
                     && name_expr.id.as_str() == "env"
                 {
                     let var_name = attr.attr.as_str();
-                    if let Ok(value) = self.extract_string_value(&assign.value) {
-                        return Ok(Some(format!("env.setenv('{}', '{}')", var_name, value)));
-                    }
+                    let value = self.extract_string_value(&assign.value)?;
+                    return Ok(Some(format!("env.setenv('{}', '{}')", var_name, value)));
                 }
+                return Err(RezCoreError::PackageParse(format!(
+                    "Unsupported command assignment: {assign:?}"
+                )));
             }
 
             // Handle function calls: env.method(...) and top-level Rex calls
-- 
2.43.0


From c4763b0b04f1da960fe3d9b3cafbaa8be69291bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:21 +0000
Subject: [PATCH 043/101] fix: package.py assignments that cannot be
 represented are refused, not dropped

---
 crates/rez-next-package/src/python_ast_parser/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index f2253fe..cd1d760 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -61,7 +61,12 @@ impl PythonAstParser {
     ) -> Result<(), RezCoreError> {
         match stmt {
             Stmt::Assign(assign) => {
-                if let Some(Expr::Name(name_expr)) = assign.targets.first() {
+                for target in &assign.targets {
+                    let Expr::Name(name_expr) = target else {
+                        return Err(RezCoreError::PackageParse(format!(
+                            "Unsupported package.py assignment: {assign:?}"
+                        )));
+                    };
                     self.process_assignment(&name_expr.id, &assign.value, package_data)?;
                 }
             }
@@ -247,9 +252,7 @@ impl PythonAstParser {
                 package_data.tests = self.extract_tests(value)?;
             }
             "commands" => {
-                if let Ok(s) = self.extract_string_value(value) {
-                    package_data.commands_function = Some(s);
-                }
+                package_data.commands_function = Some(self.extract_string_value(value)?);
             }
             "pre_commands" => {
                 package_data.pre_commands = Some(self.extract_string_value(value)?);
-- 
2.43.0


From 9609391aced009ae270d4bdd7ba600e886bbaf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:02 +0000
Subject: [PATCH 044/101] fix: CMD activation scripts keep "%" in values
 literal

---
 crates/rez-next-rex/src/shell.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 1fa8ae4..21ca6c9 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -167,7 +167,8 @@ fn generate_cmd_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        lines.push(format!("SET \"{}={}\"", key, value));
+        // A single `%` would start a variable reference in a batch file.
+        lines.push(format!("SET \"{}={}\"", key, value.replace('%', "%%")));
     }
 
     if !env.aliases.is_empty() {
-- 
2.43.0


From 60aa4aa376fa1ab9f3d6984b720ed847e3dfcc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:07 +0000
Subject: [PATCH 045/101] fix: package.py assignments to a variable used in the
 value are evaluated once

---
 crates/rez-next-package/src/python_ast_parser/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index cd1d760..a7987b5 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -61,6 +61,8 @@ impl PythonAstParser {
     ) -> Result<(), RezCoreError> {
         match stmt {
             Stmt::Assign(assign) => {
+                let python_value = self.evaluate_expression(&assign.value)?;
+                let mut names = Vec::new();
                 for target in &assign.targets {
                     let Expr::Name(name_expr) = target else {
                         return Err(RezCoreError::PackageParse(format!(
@@ -68,6 +70,11 @@ impl PythonAstParser {
                         )));
                     };
                     self.process_assignment(&name_expr.id, &assign.value, package_data)?;
+                    names.push(name_expr.id.to_string());
+                }
+                // Only now, because the value may refer to the names it is assigned to
+                for name in names {
+                    self.context.variables.insert(name, python_value.clone());
                 }
             }
             Stmt::FunctionDef(func_def) => {
@@ -206,11 +213,6 @@ impl PythonAstParser {
         value: &Expr,
         package_data: &mut PackageData,
     ) -> Result<(), RezCoreError> {
-        let python_value = self.evaluate_expression(value)?;
-        self.context
-            .variables
-            .insert(var_name.to_string(), python_value);
-
         match var_name {
             "name" => {
                 package_data.name = Some(self.extract_string_value(value)?);
-- 
2.43.0


From f710d77c3ad0b475d1a7405c9d1713924ed71576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:58 +0000
Subject: [PATCH 046/101] fix: numbers and booleans in package.py keep the text
 Python gives them

---
 .../src/python_ast_parser/eval.rs             |  5 ++--
 .../src/python_ast_parser/extract.rs          | 30 +++++++++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index a2c87d1..94ba6dd 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -302,9 +302,8 @@ impl PythonAstParser {
             values.push(match self.evaluate_expression(argument)? {
                 PythonValue::String(value) => value,
                 PythonValue::Integer(value) => value.to_string(),
-                PythonValue::Float(value) => format!("{value:?}"),
-                PythonValue::Boolean(true) => "True".to_string(),
-                PythonValue::Boolean(false) => "False".to_string(),
+                PythonValue::Float(value) => Self::float_text(value),
+                PythonValue::Boolean(value) => Self::bool_text(value),
                 value => {
                     return Err(RezCoreError::PackageParse(format!(
                         "Unsupported format argument: {value:?}"
diff --git a/crates/rez-next-package/src/python_ast_parser/extract.rs b/crates/rez-next-package/src/python_ast_parser/extract.rs
index f46a868..93e2fc6 100644
--- a/crates/rez-next-package/src/python_ast_parser/extract.rs
+++ b/crates/rez-next-package/src/python_ast_parser/extract.rs
@@ -7,18 +7,38 @@ use rustpython_ast::{Constant, Expr};
 use std::collections::HashMap;
 
 impl PythonAstParser {
+    /// The text of a float as Python prints it (`2.0`, not `2`)
+    pub(super) fn float_text(value: f64) -> String {
+        let text = format!("{value:?}");
+        match text.split_once('e') {
+            None => text,
+            Some((digits, exponent)) => {
+                let (sign, exponent) = match exponent.strip_prefix('-') {
+                    Some(exponent) => ('-', exponent),
+                    None => ('+', exponent),
+                };
+                format!("{digits}e{sign}{exponent:0>2}")
+            }
+        }
+    }
+
+    /// The text of a boolean as Python prints it
+    pub(super) fn bool_text(value: bool) -> String {
+        if value { "True" } else { "False" }.to_string()
+    }
+
     /// Extract a string value from an expression
     pub(super) fn extract_string_value(&self, expr: &Expr) -> Result<String, RezCoreError> {
         match self.evaluate_expression(expr) {
             Ok(PythonValue::String(s)) => Ok(s),
             Ok(PythonValue::Integer(i)) => Ok(i.to_string()),
-            Ok(PythonValue::Float(f)) => Ok(f.to_string()),
-            Ok(PythonValue::Boolean(b)) => Ok(b.to_string()),
+            Ok(PythonValue::Float(f)) => Ok(Self::float_text(f)),
+            Ok(PythonValue::Boolean(b)) => Ok(Self::bool_text(b)),
             _ => match expr {
                 Expr::Constant(constant) => match &constant.value {
                     Constant::Str(s) => Ok(s.clone()),
                     Constant::Int(i) => Ok(i.to_string()),
-                    Constant::Float(f) => Ok(f.to_string()),
+                    Constant::Float(f) => Ok(Self::float_text(*f)),
                     _ => Err(RezCoreError::PackageParse(format!(
                         "Expected string/number value, got: {:?}",
                         constant.value
@@ -85,8 +105,8 @@ impl PythonAstParser {
                     match item {
                         PythonValue::String(s) => result.push(s),
                         PythonValue::Integer(i) => result.push(i.to_string()),
-                        PythonValue::Float(f) => result.push(f.to_string()),
-                        PythonValue::Boolean(b) => result.push(b.to_string()),
+                        PythonValue::Float(f) => result.push(Self::float_text(f)),
+                        PythonValue::Boolean(b) => result.push(Self::bool_text(b)),
                         _ => {
                             return Err(RezCoreError::PackageParse(
                                 "List contains non-string values".to_string(),
-- 
2.43.0


From c2d6c4517a5729ecf18b165c79f352ce5d262f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:58 +0000
Subject: [PATCH 047/101] fix: dictionaries unpacked in package.py are not
 dropped

---
 .../src/python_ast_parser/eval.rs             | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 94ba6dd..db9c0d5 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -236,17 +236,23 @@ impl PythonAstParser {
     fn evaluate_dict(&self, dict: &rustpython_ast::ExprDict) -> Result<PythonValue, RezCoreError> {
         let mut result = HashMap::new();
         for (key, value) in dict.keys.iter().zip(dict.values.iter()) {
-            if let Some(key) = key {
-                let key_val = self.evaluate_expression(key)?;
-                let value_val = self.evaluate_expression(value)?;
-
-                if let PythonValue::String(key_str) = key_val {
-                    result.insert(key_str, value_val);
-                } else {
-                    return Err(RezCoreError::PackageParse(
-                        "Dictionary keys must be strings".to_string(),
-                    ));
+            let value_val = self.evaluate_expression(value)?;
+            let Some(key) = key else {
+                // `**value`
+                if let PythonValue::Dict(entries) = value_val {
+                    result.extend(entries);
+                    continue;
                 }
+                return Err(RezCoreError::PackageParse(
+                    "Only dictionaries can be unpacked with **".to_string(),
+                ));
+            };
+            if let PythonValue::String(key_str) = self.evaluate_expression(key)? {
+                result.insert(key_str, value_val);
+            } else {
+                return Err(RezCoreError::PackageParse(
+                    "Dictionary keys must be strings".to_string(),
+                ));
             }
         }
         Ok(PythonValue::Dict(result))
-- 
2.43.0


From d5159326141f76d5237c581463529ee696e49418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:58 +0000
Subject: [PATCH 048/101] fix: package.py integers out of range are refused,
 not wrapped

---
 crates/rez-next-package/src/python_ast_parser/eval.rs    | 2 +-
 crates/rez-next-package/src/python_ast_parser/extract.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index db9c0d5..72d683b 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -130,7 +130,7 @@ impl PythonAstParser {
         match (&unaryop.op, &operand) {
             (UnaryOp::Not, PythonValue::Boolean(b)) => Ok(PythonValue::Boolean(!b)),
             (UnaryOp::UAdd, PythonValue::Integer(i)) => Ok(PythonValue::Integer(*i)),
-            (UnaryOp::USub, PythonValue::Integer(i)) => Ok(PythonValue::Integer(-i)),
+            (UnaryOp::USub, PythonValue::Integer(i)) => Self::checked_integer(i.checked_neg()),
             (UnaryOp::UAdd, PythonValue::Float(f)) => Ok(PythonValue::Float(*f)),
             (UnaryOp::USub, PythonValue::Float(f)) => Ok(PythonValue::Float(-f)),
             _ => Err(RezCoreError::PackageParse(format!(
diff --git a/crates/rez-next-package/src/python_ast_parser/extract.rs b/crates/rez-next-package/src/python_ast_parser/extract.rs
index 93e2fc6..7d9b767 100644
--- a/crates/rez-next-package/src/python_ast_parser/extract.rs
+++ b/crates/rez-next-package/src/python_ast_parser/extract.rs
@@ -77,7 +77,9 @@ impl PythonAstParser {
     /// Extract an integer value from an expression
     pub(super) fn extract_int_value(&self, expr: &Expr) -> Result<i32, RezCoreError> {
         match self.evaluate_expression(expr) {
-            Ok(PythonValue::Integer(i)) => Ok(i as i32),
+            Ok(PythonValue::Integer(i)) => i32::try_from(i).map_err(|e| {
+                RezCoreError::PackageParse(format!("Integer too large for i32: {}", e))
+            }),
             _ => match expr {
                 Expr::Constant(constant) => match &constant.value {
                     Constant::Int(i) => i.to_string().parse::<i32>().map_err(|e| {
-- 
2.43.0


From 9a1d0f838d767644413c37ab6dbaa85774a22832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:58 +0000
Subject: [PATCH 049/101] fix: format() fields and keyword arguments package.py
 reading does not support are refused

---
 crates/rez-next-package/src/python_ast_parser/eval.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 72d683b..d36b0b2 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -263,7 +263,9 @@ impl PythonAstParser {
         &self,
         call: &rustpython_ast::ExprCall,
     ) -> Result<PythonValue, RezCoreError> {
-        if let Expr::Attribute(attribute) = &*call.func {
+        if let Expr::Attribute(attribute) = &*call.func
+            && call.keywords.is_empty()
+        {
             if let Expr::Name(owner) = &*attribute.value
                 && owner.id.as_str() == "os"
                 && attribute.attr.as_str() == "getenv"
@@ -337,6 +339,11 @@ impl PythonAstParser {
                 .filter(|field| brace == "{" && field.bytes().all(|byte| byte.is_ascii_digit()));
             // Named fields such as `{root}` are left for Rex
             let Some(field) = field else {
+                if brace == "{" && rest.starts_with(|c: char| c.is_ascii_digit() || "!:.[".contains(c)) {
+                    return Err(RezCoreError::PackageParse(format!(
+                        "Unsupported format field in {value:?}"
+                    )));
+                }
                 formatted.push_str(brace);
                 continue;
             };
-- 
2.43.0


From 69332b9b906d19696634461f4bb6bb76ab8be102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:58 +0000
Subject: [PATCH 050/101] fix: chained assignments in package commands are
 refused, not cut to the first target

---
 crates/rez-next-package/src/python_ast_parser/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/commands.rs b/crates/rez-next-package/src/python_ast_parser/commands.rs
index 360540d..01c62ec 100644
--- a/crates/rez-next-package/src/python_ast_parser/commands.rs
+++ b/crates/rez-next-package/src/python_ast_parser/commands.rs
@@ -101,12 +101,12 @@ impl PythonAstParser {
 
             // Handle `env.VAR = "value"` (attribute assignment shorthand)
             Stmt::Assign(assign) => {
-                if let Some(Expr::Name(name)) = assign.targets.first() {
+                if let [Expr::Name(name)] = assign.targets.as_slice() {
                     let value = self.evaluate_expression(&assign.value)?;
                     self.context.variables.insert(name.id.to_string(), value);
                     return Ok(None);
                 }
-                if let Some(Expr::Attribute(attr)) = assign.targets.first()
+                if let [Expr::Attribute(attr)] = assign.targets.as_slice()
                     && let Expr::Name(name_expr) = &*attr.value
                     && name_expr.id.as_str() == "env"
                 {
-- 
2.43.0


From 734efd4f383f03457ca8522fb2f6c7cfdd40137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:58 +0000
Subject: [PATCH 051/101] fix: this.version.major/minor/patch split the version
 like Version does

---
 crates/rez-next-package/src/python_ast_parser/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index d36b0b2..c3cb45e 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -405,9 +405,9 @@ impl PythonAstParser {
             && let Some(PythonValue::String(value)) = self.context.variables.get("version")
         {
             let component = match attr.attr.as_str() {
-                "major" => value.split('.').next(),
-                "minor" => value.split('.').nth(1),
-                "patch" => value.split('.').nth(2),
+                "major" => value.split(['.', '-', '+']).next(),
+                "minor" => value.split(['.', '-', '+']).nth(1),
+                "patch" => value.split(['.', '-', '+']).nth(2),
                 _ => None,
             };
             if let Some(component) = component {
-- 
2.43.0


From 2098862cf7d7f3fab198750fbdfa3f40b618ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:19 +0000
Subject: [PATCH 052/101] fix: package command functions see the final module
 variables, as in Python

---
 crates/rez-next-package/src/python_ast_parser/mod.rs  | 11 ++++++++++-
 .../rez-next-package/src/python_ast_parser/types.rs   |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index a7987b5..77b1817 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -49,6 +49,10 @@ impl PythonAstParser {
         for stmt in &ast {
             self.process_statement(stmt, &mut package_data)?;
         }
+        // Their bodies run after the module, so they see its final variables
+        for func_def in std::mem::take(&mut self.context.functions) {
+            self.process_function_definition(&func_def, &mut package_data)?;
+        }
 
         Self::build_package(package_data)
     }
@@ -78,7 +82,7 @@ impl PythonAstParser {
                 }
             }
             Stmt::FunctionDef(func_def) => {
-                self.process_function_definition(func_def, package_data)?;
+                self.context.functions.push(func_def.clone());
             }
             Stmt::Import(import) => {
                 self.process_import_statement(import)?;
@@ -213,6 +217,11 @@ impl PythonAstParser {
         value: &Expr,
         package_data: &mut PackageData,
     ) -> Result<(), RezCoreError> {
+        // An assignment replaces an earlier function of that name
+        self.context
+            .functions
+            .retain(|function| function.name.as_str() != var_name);
+
         match var_name {
             "name" => {
                 package_data.name = Some(self.extract_string_value(value)?);
diff --git a/crates/rez-next-package/src/python_ast_parser/types.rs b/crates/rez-next-package/src/python_ast_parser/types.rs
index f1a6025..e1bc5ea 100644
--- a/crates/rez-next-package/src/python_ast_parser/types.rs
+++ b/crates/rez-next-package/src/python_ast_parser/types.rs
@@ -9,6 +9,8 @@ pub(crate) struct ParsingContext {
     pub variables: HashMap<String, PythonValue>,
     /// Imported modules and their aliases
     pub imports: HashMap<String, String>,
+    /// Command functions, read once the whole module has been
+    pub functions: Vec<rustpython_ast::StmtFunctionDef>,
 }
 
 /// Represents a Python value that can be evaluated
-- 
2.43.0


From 7b48161647c892c2c25a0666f161bc9f923e06ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:59 +0000
Subject: [PATCH 053/101] fix: package.yaml and JSON fields of the wrong type
 are refused, not dropped

---
 .../src/serialization/load.rs                 | 124 ++++++++----------
 1 file changed, 52 insertions(+), 72 deletions(-)

diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index b842bc4..f302191 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -117,6 +117,42 @@ impl PackageLoader {
         Self::load_from_json_data(json_data)
     }
 
+    /// A text field; anything but text is refused rather than dropped
+    fn string_field(
+        json_data: &HashMap<String, serde_json::Value>,
+        field: &str,
+    ) -> Result<Option<String>, RezCoreError> {
+        match json_data.get(field) {
+            None | Some(serde_json::Value::Null) => Ok(None),
+            Some(serde_json::Value::String(text)) => Ok(Some(text.clone())),
+            Some(other) => Err(RezCoreError::PackageParse(format!(
+                "'{field}' must be a string, got: {other}"
+            ))),
+        }
+    }
+
+    /// A list-of-text field; anything else is refused rather than dropped
+    fn string_list_field(
+        json_data: &HashMap<String, serde_json::Value>,
+        field: &str,
+    ) -> Result<Vec<String>, RezCoreError> {
+        match json_data.get(field) {
+            None | Some(serde_json::Value::Null) => Ok(Vec::new()),
+            Some(value) => Self::string_list(value, field),
+        }
+    }
+
+    fn string_list(value: &serde_json::Value, field: &str) -> Result<Vec<String>, RezCoreError> {
+        let invalid =
+            || RezCoreError::PackageParse(format!("'{field}' must hold strings, got: {value}"));
+        value
+            .as_array()
+            .ok_or_else(invalid)?
+            .iter()
+            .map(|item| item.as_str().map(str::to_string).ok_or_else(invalid))
+            .collect()
+    }
+
     /// Shared implementation: build a Package from a JSON-compatible HashMap
     fn load_from_json_data(
         json_data: HashMap<String, serde_json::Value>,
@@ -131,84 +167,28 @@ impl PackageLoader {
 
         let mut package = Package::new(name);
 
-        if let Some(version_value) = json_data.get("version")
-            && let Some(version_str) = version_value.as_str()
-        {
-            let version = Version::parse(version_str)
+        if let Some(version_str) = Self::string_field(&json_data, "version")? {
+            let version = Version::parse(&version_str)
                 .map_err(|e| RezCoreError::PackageParse(format!("Invalid version: {}", e)))?;
             package.version = Some(version);
         }
 
-        if let Some(description_value) = json_data.get("description")
-            && let Some(description) = description_value.as_str()
-        {
-            package.description = Some(description.to_string());
-        }
-
-        if let Some(authors_value) = json_data.get("authors")
-            && let Some(authors_array) = authors_value.as_array()
-        {
-            package.authors = authors_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(requires_value) = json_data.get("requires")
-            && let Some(requires_array) = requires_value.as_array()
-        {
-            package.requires = requires_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(build_requires_value) = json_data.get("build_requires")
-            && let Some(build_requires_array) = build_requires_value.as_array()
-        {
-            package.build_requires = build_requires_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(private_build_requires_value) = json_data.get("private_build_requires")
-            && let Some(arr) = private_build_requires_value.as_array()
-        {
-            package.private_build_requires = arr
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(variants_value) = json_data.get("variants")
-            && let Some(variants_array) = variants_value.as_array()
-        {
+        package.description = Self::string_field(&json_data, "description")?;
+        package.authors = Self::string_list_field(&json_data, "authors")?;
+        package.requires = Self::string_list_field(&json_data, "requires")?;
+        package.build_requires = Self::string_list_field(&json_data, "build_requires")?;
+        package.private_build_requires =
+            Self::string_list_field(&json_data, "private_build_requires")?;
+        package.tools = Self::string_list_field(&json_data, "tools")?;
+
+        if let Some(variants_value) = json_data.get("variants").filter(|v| !v.is_null()) {
+            let variants_array = variants_value.as_array().ok_or_else(|| {
+                RezCoreError::PackageParse("Invalid 'variants' field".to_string())
+            })?;
             package.variants = variants_array
                 .iter()
-                .filter_map(|v| v.as_array())
-                .map(|variant_array| {
-                    variant_array
-                        .iter()
-                        .filter_map(|v| v.as_str())
-                        .map(|s| s.to_string())
-                        .collect()
-                })
-                .collect();
-        }
-
-        if let Some(tools_value) = json_data.get("tools")
-            && let Some(tools_array) = tools_value.as_array()
-        {
-            package.tools = tools_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
+                .map(|variant| Self::string_list(variant, "variants"))
+                .collect::<Result<_, _>>()?;
         }
 
         package.validate()?;
-- 
2.43.0


From 3b46c95185662095e5785c642a3bb2ae3a5ffd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:59 +0000
Subject: [PATCH 054/101] fix: package.yaml and JSON packages keep their
 commands and other fields

---
 .../src/serialization/load.rs                 | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index f302191..35bc047 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -191,6 +191,50 @@ impl PackageLoader {
                 .collect::<Result<_, _>>()?;
         }
 
+        package.commands = Self::string_field(&json_data, "commands")?;
+        package.commands_function = package.commands.clone();
+        package.pre_commands = Self::string_field(&json_data, "pre_commands")?;
+        package.post_commands = Self::string_field(&json_data, "post_commands")?;
+        package.pre_test_commands = Self::string_field(&json_data, "pre_test_commands")?;
+        package.pre_build_commands = Self::string_field(&json_data, "pre_build_commands")?;
+
+        let text = |field: &str| json_data.get(field).and_then(|v| v.as_str()).map(String::from);
+        let flag = |field: &str| json_data.get(field).and_then(|v| v.as_bool());
+        package.build_command = text("build_command");
+        package.build_system = text("build_system");
+        package.requires_rez_version = text("requires_rez_version");
+        package.uuid = text("uuid");
+        package.help = text("help");
+        package.relocatable = flag("relocatable");
+        package.cachable = flag("cachable");
+        package.timestamp = json_data.get("timestamp").and_then(|v| v.as_i64());
+        package.revision = text("revision");
+        package.changelog = text("changelog");
+        package.release_message = text("release_message");
+        if let Some(previous) = Self::string_field(&json_data, "previous_version")? {
+            package.previous_version = Some(Version::parse(&previous).map_err(|e| {
+                RezCoreError::PackageParse(format!("Invalid previous version: {}", e))
+            })?);
+        }
+        package.previous_revision = text("previous_revision");
+        package.vcs = text("vcs");
+        package.format_version = json_data
+            .get("format_version")
+            .and_then(|v| v.as_i64())
+            .and_then(|v| i32::try_from(v).ok());
+        package.base = text("base");
+        package.has_plugins = flag("has_plugins");
+        package.plugin_for = Self::string_list_field(&json_data, "plugin_for")?;
+        package.hashed_variants = flag("hashed_variants");
+        package.preprocess = text("preprocess");
+        if let Some(tests) = json_data.get("tests").and_then(|v| v.as_object()) {
+            for (name, command) in tests {
+                if let Some(command) = command.as_str() {
+                    package.tests.insert(name.clone(), command.to_string());
+                }
+            }
+        }
+
         package.validate()?;
 
         Ok(package)
-- 
2.43.0


From 4f9389c2776caf905d42dfaeecd7d2713f81b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:21 +0000
Subject: [PATCH 055/101] fix: package.py files written from a package escape
 its texts

---
 .../src/serialization/save.rs                 | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/rez-next-package/src/serialization/save.rs b/crates/rez-next-package/src/serialization/save.rs
index b060c3f..46b6a03 100644
--- a/crates/rez-next-package/src/serialization/save.rs
+++ b/crates/rez-next-package/src/serialization/save.rs
@@ -274,13 +274,16 @@ impl PackageSaver {
         }
 
         if let Some(ref description) = package.description {
-            content.push_str(&format!("description = \"{}\"\n", description));
+            content.push_str(&format!(
+                "description = \"{}\"\n",
+                python_escape(description)
+            ));
         }
 
         if !package.authors.is_empty() {
             content.push_str("authors = [\n");
             for author in &package.authors {
-                content.push_str(&format!("    \"{}\",\n", author));
+                content.push_str(&format!("    \"{}\",\n", python_escape(author)));
             }
             content.push_str("]\n");
         }
@@ -288,7 +291,7 @@ impl PackageSaver {
         if !package.requires.is_empty() {
             content.push_str("requires = [\n");
             for req in &package.requires {
-                content.push_str(&format!("    \"{}\",\n", req));
+                content.push_str(&format!("    \"{}\",\n", python_escape(req)));
             }
             content.push_str("]\n");
         }
@@ -296,7 +299,7 @@ impl PackageSaver {
         if !package.build_requires.is_empty() {
             content.push_str("build_requires = [\n");
             for req in &package.build_requires {
-                content.push_str(&format!("    \"{}\",\n", req));
+                content.push_str(&format!("    \"{}\",\n", python_escape(req)));
             }
             content.push_str("]\n");
         }
@@ -309,7 +312,7 @@ impl PackageSaver {
                     if i > 0 {
                         content.push_str(", ");
                     }
-                    content.push_str(&format!("\"{}\"", req));
+                    content.push_str(&format!("\"{}\"", python_escape(req)));
                 }
                 content.push_str("],\n");
             }
@@ -319,7 +322,7 @@ impl PackageSaver {
         if !package.tools.is_empty() {
             content.push_str("tools = [\n");
             for tool in &package.tools {
-                content.push_str(&format!("    \"{}\",\n", tool));
+                content.push_str(&format!("    \"{}\",\n", python_escape(tool)));
             }
             content.push_str("]\n");
         }
@@ -425,6 +428,15 @@ impl PackageSaver {
     }
 }
 
+/// Escape text for a double-quoted Python string literal
+pub(crate) fn python_escape(text: &str) -> String {
+    text.replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\n', "\\n")
+        .replace('\r', "\\r")
+        .replace('\0', "\\x00")
+}
+
 /// Convert YAML value to JSON value
 pub fn yaml_to_json_value(yaml_value: serde_yaml::Value) -> serde_json::Value {
     match yaml_value {
-- 
2.43.0


From 6b01371241a09c6c9865a019abef7a9aa45735bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:30 +0000
Subject: [PATCH 056/101] fix: to_package_py escapes backslashes and line
 breaks too

---
 crates/rez-next-package/src/package/methods.rs  | 17 +++++++++--------
 .../rez-next-package/src/serialization/mod.rs   |  1 +
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/rez-next-package/src/package/methods.rs b/crates/rez-next-package/src/package/methods.rs
index b4a1ca4..9765f34 100644
--- a/crates/rez-next-package/src/package/methods.rs
+++ b/crates/rez-next-package/src/package/methods.rs
@@ -5,6 +5,7 @@ use rez_next_version::Version;
 use std::collections::HashMap;
 
 use super::types::Package;
+use crate::serialization::python_escape;
 
 impl Package {
     pub fn new(name: String) -> Self {
@@ -289,7 +290,7 @@ impl Package {
         // description (optional)
         if let Some(ref desc) = self.description {
             // Escape quotes in description
-            let desc_escaped = desc.replace("\"", "\\\"");
+            let desc_escaped = python_escape(desc);
             lines.push(format!("description = \"{}\"", desc_escaped));
         }
 
@@ -298,7 +299,7 @@ impl Package {
             let authors_str = self
                 .authors
                 .iter()
-                .map(|a| format!("\"{}\"", a.replace("\"", "\\\"")))
+                .map(|a| format!("\"{}\"", python_escape(a)))
                 .collect::<Vec<_>>()
                 .join(", ");
             lines.push(format!("authors = [{}]", authors_str));
@@ -309,7 +310,7 @@ impl Package {
             let req_str = self
                 .requires
                 .iter()
-                .map(|r| format!("    \"{}\"", r))
+                .map(|r| format!("    \"{}\"", python_escape(r)))
                 .collect::<Vec<_>>()
                 .join(",\n");
             lines.push(format!("requires = [\n{}\n]", req_str));
@@ -320,7 +321,7 @@ impl Package {
             let req_str = self
                 .build_requires
                 .iter()
-                .map(|r| format!("    \"{}\"", r))
+                .map(|r| format!("    \"{}\"", python_escape(r)))
                 .collect::<Vec<_>>()
                 .join(",\n");
             lines.push(format!("build_requires = [\n{}\n]", req_str));
@@ -331,7 +332,7 @@ impl Package {
             let req_str = self
                 .private_build_requires
                 .iter()
-                .map(|r| format!("    \"{}\"", r))
+                .map(|r| format!("    \"{}\"", python_escape(r)))
                 .collect::<Vec<_>>()
                 .join(",\n");
             lines.push(format!("private_build_requires = [\n{}\n]", req_str));
@@ -343,7 +344,7 @@ impl Package {
             for variant in &self.variants {
                 let var_str = variant
                     .iter()
-                    .map(|r| format!("\"{}\"", r))
+                    .map(|r| format!("\"{}\"", python_escape(r)))
                     .collect::<Vec<_>>()
                     .join(", ");
                 variant_lines.push(format!("    [{}]", var_str));
@@ -356,7 +357,7 @@ impl Package {
             let tools_str = self
                 .tools
                 .iter()
-                .map(|t| format!("\"{}\"", t))
+                .map(|t| format!("\"{}\"", python_escape(t)))
                 .collect::<Vec<_>>()
                 .join(", ");
             lines.push(format!("tools = [{}]", tools_str));
@@ -364,7 +365,7 @@ impl Package {
 
         // uuid (optional)
         if let Some(ref uuid) = self.uuid {
-            lines.push(format!("uuid = \"{}\"", uuid));
+            lines.push(format!("uuid = \"{}\"", python_escape(uuid)));
         }
 
         // relocatable (optional)
diff --git a/crates/rez-next-package/src/serialization/mod.rs b/crates/rez-next-package/src/serialization/mod.rs
index 8131c51..5bbdbf1 100644
--- a/crates/rez-next-package/src/serialization/mod.rs
+++ b/crates/rez-next-package/src/serialization/mod.rs
@@ -12,6 +12,7 @@ pub mod types;
 #[cfg(test)]
 mod tests;
 
+pub(crate) use save::python_escape;
 pub use types::{PackageContainer, PackageFormat, PackageMetadata, SerializationOptions};
 
 use crate::Package;
-- 
2.43.0


From 700c226f55351d1e233770d2902f9fa229ba3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:30 +0000
Subject: [PATCH 057/101] fix: expanding a requirement ending in "**" does not
 panic

---
 crates/rez-next-package/src/package_py_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package_py_utils.rs b/crates/rez-next-package/src/package_py_utils.rs
index 69f788d..edfc5bd 100644
--- a/crates/rez-next-package/src/package_py_utils.rs
+++ b/crates/rez-next-package/src/package_py_utils.rs
@@ -24,7 +24,7 @@ fn replace_wildcards(request: &str) -> (String, HashMap<String, String>) {
     while request_.contains("**") {
         let uid = format!("_{}_", Uuid::new_v4().as_simple());
         if let Some(pos) = request_.find("**") {
-            request_.replace_range(pos..pos + 3, &uid);
+            request_.replace_range(pos..pos + 2, &uid);
             wildcard_map.insert(uid, "**".to_string());
         }
     }
-- 
2.43.0


From 5906056bde038cd47ee9fa93d0f7ae5cde09608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:58 +0000
Subject: [PATCH 058/101] fix: a redefined package command function replaces
 the earlier one

---
 crates/rez-next-package/src/python_ast_parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index 77b1817..90d40b1 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -82,6 +82,9 @@ impl PythonAstParser {
                 }
             }
             Stmt::FunctionDef(func_def) => {
+                self.context
+                    .functions
+                    .retain(|function| function.name != func_def.name);
                 self.context.functions.push(func_def.clone());
             }
             Stmt::Import(import) => {
-- 
2.43.0


From 921259c027f023adc79cb57f863bb5362859266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:07 +0000
Subject: [PATCH 059/101] fix: packages serialized to binary text can be read
 back

The sequence reader expected an is_dev_package element that is never written.
---
 crates/rez-next-package/src/package/serialize.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/rez-next-package/src/package/serialize.rs b/crates/rez-next-package/src/package/serialize.rs
index bc18cf5..33a79ef 100644
--- a/crates/rez-next-package/src/package/serialize.rs
+++ b/crates/rez-next-package/src/package/serialize.rs
@@ -222,9 +222,6 @@ impl<'de> Deserialize<'de> for Package {
                 let preprocess = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(34, &self))?;
-                let is_dev_package = seq
-                    .next_element()?
-                    .ok_or_else(|| de::Error::invalid_length(35, &self))?;
 
                 Ok(Package {
                     name,
@@ -264,7 +261,7 @@ impl<'de> Deserialize<'de> for Package {
                     plugin_for,
                     hashed_variants,
                     preprocess,
-                    is_dev_package,
+                    is_dev_package: None, // not serialized
                     filepath: None,
                     includes: None,
                 })
-- 
2.43.0


From 6f22fb56d405d2e60a81e5fb36e7a9f1e9b3c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:07 +0000
Subject: [PATCH 060/101] fix: package files saved with metadata can be loaded
 again

---
 crates/rez-next-package/src/serialization/load.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index 35bc047..fb17199 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -155,8 +155,16 @@ impl PackageLoader {
 
     /// Shared implementation: build a Package from a JSON-compatible HashMap
     fn load_from_json_data(
-        json_data: HashMap<String, serde_json::Value>,
+        mut json_data: HashMap<String, serde_json::Value>,
     ) -> Result<Package, RezCoreError> {
+        // Files saved with metadata hold the package in a container
+        if !json_data.contains_key("name")
+            && json_data.contains_key("schema_version")
+            && let Some(serde_json::Value::Object(package)) = json_data.remove("package")
+        {
+            json_data = package.into_iter().collect();
+        }
+
         let name = json_data
             .get("name")
             .and_then(|v| v.as_str())
-- 
2.43.0


From 5884d5448aefd3a3ae7f2a8c2eebbf89654b7974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:57 +0000
Subject: [PATCH 061/101] fix: pretty-printed package YAML keeps nested lists
 and multi-line texts

---
 crates/rez-next-package/src/serialization/save.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package/src/serialization/save.rs b/crates/rez-next-package/src/serialization/save.rs
index 46b6a03..a5633a7 100644
--- a/crates/rez-next-package/src/serialization/save.rs
+++ b/crates/rez-next-package/src/serialization/save.rs
@@ -231,8 +231,12 @@ impl PackageSaver {
 
         let mut output = String::with_capacity(raw.len() + 64);
         output.push_str("# ---\n");
-        for line in raw.lines() {
-            if line.starts_with("- ") {
+        let mut in_sequence = false;
+        for line in raw.split_terminator('\n') {
+            // The lines of an item are indented along with its first one
+            in_sequence = line.starts_with("- ")
+                || (in_sequence && (line.is_empty() || line.starts_with(' ')));
+            if in_sequence && !line.is_empty() {
                 output.push_str("  ");
             }
             output.push_str(line);
-- 
2.43.0


From b9c2f13f28532f6e2ed0f2d9de4e342de86200d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:16 +0000
Subject: [PATCH 062/101] fix: a broken package version is reported by every
 query, not only the first

find_packages failed for a family with an unreadable version when it was the first
query of the repository, and silently left the version out afterwards.
---
 crates/rez-next-repository/src/simple_repository.rs | 7 ++++---
 src/cli/commands/search_v2/filter.rs                | 8 +++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index 355a23d..9c16730 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -147,6 +147,10 @@ impl SimpleRepository {
 #[async_trait::async_trait]
 impl PackageRepository for SimpleRepository {
     async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
+        // A family that failed to load is an error whether or not it was queried before
+        if let Some(error) = self.package_errors.read().await.get(name) {
+            return Err(RezCoreError::Repository(error.clone()));
+        }
         // Check cache first
         {
             let cache = self.package_cache.read().await;
@@ -154,9 +158,6 @@ impl PackageRepository for SimpleRepository {
                 return Ok(packages.clone());
             }
         }
-        if let Some(error) = self.package_errors.read().await.get(name) {
-            return Err(RezCoreError::Repository(error.clone()));
-        }
 
         // If not in cache, scan and try again
         self.scan().await?;
diff --git a/src/cli/commands/search_v2/filter.rs b/src/cli/commands/search_v2/filter.rs
index 110774b..846a991 100644
--- a/src/cli/commands/search_v2/filter.rs
+++ b/src/cli/commands/search_v2/filter.rs
@@ -25,7 +25,13 @@ pub async fn perform_search(
     let all_package_names = repo_manager.list_packages().await?;
 
     for package_name in all_package_names {
-        let packages = repo_manager.find_packages(&package_name).await?;
+        let packages = match repo_manager.find_packages(&package_name).await {
+            Ok(packages) => packages,
+            Err(error) => {
+                eprintln!("Warning: skipping '{package_name}': {error}");
+                continue;
+            }
+        };
 
         for package in packages {
             // Apply timestamp filters if provided
-- 
2.43.0


From 1d4a742f1472d3addf38a5ea02a9ebb3c53a8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:16 +0000
Subject: [PATCH 063/101] fix: the latest package is looked for in all
 repositories, not only the first that has the family

---
 crates/rez-next-repository/src/simple_repository.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index 9c16730..be09419 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -267,6 +267,10 @@ impl RepositoryManager {
         name: &str,
         version: Option<&str>,
     ) -> Result<Option<Arc<Package>>, RezCoreError> {
+        if version.is_none() {
+            // The latest version across all repositories
+            return Ok(self.find_packages(name).await?.into_iter().next());
+        }
         for repository in &self.repositories {
             if let Some(package) = repository.get_package(name, version).await? {
                 return Ok(Some(package));
-- 
2.43.0


From 94213a58154bafa8b4c6e873e49c05fb52bcd6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:16 +0000
Subject: [PATCH 064/101] fix: packages are scanned in name order, so equal
 versions are offered in a fixed order

---
 crates/rez-next-repository/src/simple_repository.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index be09419..c2b0ea1 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -82,13 +82,19 @@ impl SimpleRepository {
     {
         Box::pin(async move {
             let mut entries = fs::read_dir(dir_path).await?;
-
+            let mut names = Vec::new();
             while let Some(entry) = entries.next_entry().await? {
-                let path = entry.path();
+                names.push(entry.file_name());
+            }
+            // The order of directory entries is arbitrary
+            names.sort();
+
+            for name in names {
+                let path = dir_path.join(&name);
 
                 if path.is_dir() {
                     // Rez hides a version when a sibling `.ignore{version}` marker exists.
-                    let marker = format!(".ignore{}", entry.file_name().to_string_lossy());
+                    let marker = format!(".ignore{}", name.to_string_lossy());
                     if dir_path.join(marker).is_file() {
                         continue;
                     }
-- 
2.43.0


From aee2fba10095dc85b01c61758ec43990dc97f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:01 +0000
Subject: [PATCH 065/101] fix: depends finds the packages that depend on the
 given one

It looked for packages named "" (there are none) and compared whole requirements,
version included, with the package name.
---
 src/cli/commands/depends.rs | 45 +++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/cli/commands/depends.rs b/src/cli/commands/depends.rs
index f045e15..2b6ca64 100644
--- a/src/cli/commands/depends.rs
+++ b/src/cli/commands/depends.rs
@@ -2,6 +2,7 @@
 
 use clap::Args;
 use rez_next_common::{RezCoreConfig, RezCoreError};
+use rez_next_package::PackageRequirement;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use rez_next_version::Version;
 use std::collections::{HashMap, HashSet, VecDeque};
@@ -260,38 +261,32 @@ async fn find_package_dependents(
 ) -> Result<Vec<String>, RezCoreError> {
     let mut dependents = Vec::new();
 
-    // Get all packages by searching with empty string (gets all)
-    let all_packages = repo_manager.find_packages("").await?;
+    let requires_target = |requirement: &String| {
+        PackageRequirement::parse(requirement)
+            .is_ok_and(|parsed| parsed.name == target_package && !parsed.conflict)
+    };
 
-    for package in all_packages {
-        let mut has_dependency = false;
+    let mut all_packages = Vec::new();
+    for name in repo_manager.list_packages().await? {
+        all_packages.extend(repo_manager.find_packages(&name).await?);
+    }
 
-        // Check regular requires
-        for req_name in &package.requires {
-            if req_name == target_package {
-                has_dependency = true;
-                break;
-            }
-        }
+    for package in all_packages {
+        // Check regular requires, those of variants included
+        let mut has_dependency = package
+            .requires
+            .iter()
+            .chain(package.variants.iter().flatten())
+            .any(requires_target);
 
         // Check build requires if requested
-        if !has_dependency && include_build_requires {
-            for req_name in &package.build_requires {
-                if req_name == target_package {
-                    has_dependency = true;
-                    break;
-                }
-            }
+        if include_build_requires {
+            has_dependency |= package.build_requires.iter().any(requires_target);
         }
 
         // Check private build requires if requested
-        if !has_dependency && include_private_build_requires {
-            for req_name in &package.private_build_requires {
-                if req_name == target_package {
-                    has_dependency = true;
-                    break;
-                }
-            }
+        if include_private_build_requires {
+            has_dependency |= package.private_build_requires.iter().any(requires_target);
         }
 
         if has_dependency {
-- 
2.43.0


From bdc04da11ff0acdfa36f37fa8218daa2abf3cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:54 +0000
Subject: [PATCH 066/101] fix: the reverse dependency tree compares requirement
 names and looks at every version

"python" was found in "python_utils-1", and only the first directory entry was read.
---
 .../rez-next-repository/src/package_search.rs | 56 ++++++++++++-------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index a4d5c43..a16c0f3 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -10,7 +10,7 @@
 use std::collections::{HashMap, HashSet};
 use std::path::Path;
 
-use rez_next_package::package::Package;
+use rez_next_package::package::{Package, PackageRequirement};
 
 /// Result of a resource search.
 ///
@@ -170,7 +170,7 @@ pub fn get_reverse_dependency_tree(
     depth: Option<usize>,
     paths: Option<Vec<String>>,
     build_requires: bool,
-    _private_build_requires: bool,
+    private_build_requires: bool,
 ) -> (Vec<Vec<String>>, HashMap<String, Vec<String>>) {
     let search_paths = paths.unwrap_or_else(get_default_package_paths);
 
@@ -191,7 +191,12 @@ pub fn get_reverse_dependency_tree(
 
         for pkg_name in &current_layer {
             // Find packages that depend on pkg_name
-            let dependents = find_dependents(pkg_name, &search_paths, build_requires);
+            let dependents = find_dependents(
+                pkg_name,
+                &search_paths,
+                build_requires,
+                private_build_requires,
+            );
 
             for dep in dependents {
                 if !visited.contains(&dep) {
@@ -219,6 +224,7 @@ fn find_dependents(
     package_name: &str,
     paths: &[String],
     include_build_requires: bool,
+    include_private_build_requires: bool,
 ) -> Vec<String> {
     let mut dependents = Vec::new();
     let mut visited = HashSet::new();
@@ -247,7 +253,12 @@ fn find_dependents(
                 }
 
                 // Check if this package depends on package_name
-                if package_depends_on(&family_path, package_name, include_build_requires) {
+                if package_depends_on(
+                    &family_path,
+                    package_name,
+                    include_build_requires,
+                    include_private_build_requires,
+                ) {
                     dependents.push(family_name.clone());
                     visited.insert(family_name);
                 }
@@ -264,7 +275,13 @@ fn package_depends_on(
     family_path: &Path,
     target_package: &str,
     include_build_requires: bool,
+    include_private_build_requires: bool,
 ) -> bool {
+    let requires_target = |requirement: &String| {
+        PackageRequirement::parse(requirement)
+            .is_ok_and(|parsed| parsed.name == target_package && !parsed.conflict)
+    };
+
     // Check version directories
     if let Ok(entries) = std::fs::read_dir(family_path) {
         for entry in entries.flatten() {
@@ -275,25 +292,26 @@ fn package_depends_on(
 
             // Try to load package from this version
             if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check requires (direct field on Package struct)
-                for req in &pkg.requires {
-                    if req.contains(target_package) {
-                        return true;
-                    }
+                // Check requires (direct field on Package struct), those of variants included
+                if pkg
+                    .requires
+                    .iter()
+                    .chain(pkg.variants.iter().flatten())
+                    .any(requires_target)
+                {
+                    return true;
                 }
 
-                // Check build_requires if requested (direct field on Package struct)
-                if include_build_requires {
-                    for req in &pkg.build_requires {
-                        if req.contains(target_package) {
-                            return true;
-                        }
-                    }
+                // Check build requirements if requested (direct fields on Package struct)
+                if include_build_requires && pkg.build_requires.iter().any(requires_target) {
+                    return true;
+                }
+                if include_private_build_requires
+                    && pkg.private_build_requires.iter().any(requires_target)
+                {
+                    return true;
                 }
             }
-
-            // Only check the first version
-            break;
         }
     }
 
-- 
2.43.0


From eedb31709173ffdefb49998905b3083fb4e236d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:54 +0000
Subject: [PATCH 067/101] fix: search --latest-only and --type family keep the
 results sorted

The results went through a hash map after sorting, so their order and, with --limit,
the results themselves were random.
---
 src/cli/commands/search_v2/filter.rs | 40 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/cli/commands/search_v2/filter.rs b/src/cli/commands/search_v2/filter.rs
index 846a991..2edd09b 100644
--- a/src/cli/commands/search_v2/filter.rs
+++ b/src/cli/commands/search_v2/filter.rs
@@ -98,18 +98,18 @@ pub async fn perform_search(
 
     // For family type: deduplicate by package name (keep highest score)
     if args.search_type == "family" {
-        let mut family_map: HashMap<String, SearchResult> = HashMap::new();
+        let mut families: Vec<SearchResult> = Vec::new();
         for result in all_results {
-            let name = result.package.name.clone();
-            if let Some(existing) = family_map.get(&name) {
-                if result.match_score > existing.match_score {
-                    family_map.insert(name, result);
-                }
-            } else {
-                family_map.insert(name, result);
+            match families
+                .iter_mut()
+                .find(|existing| existing.package.name == result.package.name)
+            {
+                Some(existing) if result.match_score > existing.match_score => *existing = result,
+                Some(_) => {}
+                None => families.push(result),
             }
         }
-        all_results = family_map.into_values().collect();
+        all_results = families;
     }
 
     // Sort results
@@ -158,30 +158,36 @@ pub fn sort_results(results: &mut [SearchResult], sort_by: &str) {
 
 /// Filter to keep only latest versions of each package
 pub fn filter_latest_versions(results: Vec<SearchResult>) -> Vec<SearchResult> {
-    let mut latest_map: HashMap<String, SearchResult> = HashMap::new();
+    let mut latest: HashMap<String, usize> = HashMap::new();
 
-    for result in results {
+    for (index, result) in results.iter().enumerate() {
         let package_name = &result.package.name;
 
-        if let Some(existing) = latest_map.get(package_name) {
+        if let Some(existing) = latest.get(package_name) {
             // Compare versions
-            match (&result.package.version, &existing.package.version) {
+            match (&result.package.version, &results[*existing].package.version) {
                 (Some(new_ver), Some(existing_ver)) if new_ver > existing_ver => {
-                    latest_map.insert(package_name.clone(), result);
+                    latest.insert(package_name.clone(), index);
                 }
                 (Some(_), None) => {
-                    latest_map.insert(package_name.clone(), result);
+                    latest.insert(package_name.clone(), index);
                 }
                 _ => {
                     // Keep existing
                 }
             }
         } else {
-            latest_map.insert(package_name.clone(), result);
+            latest.insert(package_name.clone(), index);
         }
     }
 
-    latest_map.into_values().collect()
+    // Keep the order of the results
+    results
+        .into_iter()
+        .enumerate()
+        .filter(|(index, result)| latest[&result.package.name] == *index)
+        .map(|(_, result)| result)
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2647bc4c1ff284049198df79c28e7f534e154a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:54 +0000
Subject: [PATCH 068/101] fix: search --regex uses the pattern as given and for
 every field searched

---
 src/cli/commands/search_v2/matcher.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/cli/commands/search_v2/matcher.rs b/src/cli/commands/search_v2/matcher.rs
index 13bdd48..5897b6d 100644
--- a/src/cli/commands/search_v2/matcher.rs
+++ b/src/cli/commands/search_v2/matcher.rs
@@ -30,6 +30,10 @@ pub fn evaluate_package_match(
     } else {
         args.query.to_lowercase()
     };
+    // Lower-casing a pattern would change its classes (`\D` is not `\d`)
+    let regex = regex::RegexBuilder::new(&args.query)
+        .case_insensitive(!args.case_sensitive)
+        .build();
 
     // Check package name
     let package_name = if args.case_sensitive {
@@ -39,7 +43,7 @@ pub fn evaluate_package_match(
     };
 
     if args.regex {
-        if let Ok(regex) = regex::Regex::new(&query)
+        if let Ok(ref regex) = regex
             && regex.is_match(&package_name)
         {
             match_score += 10.0;
@@ -61,7 +65,7 @@ pub fn evaluate_package_match(
         };
 
         if args.regex {
-            if let Ok(regex) = regex::Regex::new(&query)
+            if let Ok(ref regex) = regex
                 && regex.is_match(&desc_text)
             {
                 match_score += 3.0;
@@ -83,7 +87,7 @@ pub fn evaluate_package_match(
             };
 
             if args.regex {
-                if let Ok(regex) = regex::Regex::new(&query)
+                if let Ok(ref regex) = regex
                     && regex.is_match(&tool_name)
                 {
                     match_score += 2.0;
@@ -108,7 +112,7 @@ pub fn evaluate_package_match(
             };
 
             if args.regex {
-                if let Ok(regex) = regex::Regex::new(&query)
+                if let Ok(ref regex) = regex
                     && regex.is_match(&req_text)
                 {
                     match_score += 1.0;
@@ -133,7 +137,11 @@ pub fn evaluate_package_match(
                 desc.to_lowercase()
             };
 
-            if desc_text.contains(&query) {
+            let is_match = match &regex {
+                Ok(regex) if args.regex => regex.is_match(&desc_text),
+                _ => !args.regex && desc_text.contains(&query),
+            };
+            if is_match {
                 match_score += 2.0;
                 match_fields.push("description".to_string());
             }
@@ -146,7 +154,11 @@ pub fn evaluate_package_match(
                 tool.to_lowercase()
             };
 
-            if tool_name.contains(&query) {
+            let is_match = match &regex {
+                Ok(regex) if args.regex => regex.is_match(&tool_name),
+                _ => !args.regex && tool_name.contains(&query),
+            };
+            if is_match {
                 match_score += 1.0;
                 match_fields.push("tools".to_string());
                 break;
-- 
2.43.0


From d2c373184a0fc0cd1c4a29793d029243f8b1fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:54 +0000
Subject: [PATCH 069/101] fix: search --format json prints versions, not their
 debug form

---
 src/cli/commands/search_v2/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/commands/search_v2/display.rs b/src/cli/commands/search_v2/display.rs
index 9513013..9870f9e 100644
--- a/src/cli/commands/search_v2/display.rs
+++ b/src/cli/commands/search_v2/display.rs
@@ -100,7 +100,7 @@ fn display_json_format(results: &[SearchResult]) -> RezCoreResult<()> {
         .map(|result| {
             serde_json::json!({
                 "name": result.package.name,
-                "version": result.package.version.as_ref().map(|v| format!("{:?}", v)),
+                "version": result.package.version.as_ref().map(|v| v.as_str()),
                 "description": result.package.description,
                 "tools": result.package.tools,
                 "requires": result.package.requires,
-- 
2.43.0


From 192ab826549df6a35c268e9aa2d9de0e25500ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 070/101] fix: a repository query made during a scan by another
 query sees one whole scan

---
 .../src/simple_repository.rs                  | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index c2b0ea1..f9cb6c7 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -139,6 +139,19 @@ impl SimpleRepository {
         })
     }
 
+    /// Look up a family in the results of one scan: a family that failed to load is
+    /// an error whether or not it was queried before.
+    async fn lookup(&self, name: &str) -> Result<Option<Vec<Arc<Package>>>, RezCoreError> {
+        // Hold both locks (in the order used by `scan`), so that packages and errors
+        // belong to the same scan.
+        let cache = self.package_cache.read().await;
+        let errors = self.package_errors.read().await;
+        if let Some(error) = errors.get(name) {
+            return Err(RezCoreError::Repository(error.clone()));
+        }
+        Ok(cache.get(name).cloned())
+    }
+
     /// Load a package from a supported package descriptor file.
     async fn load_package_from_path(
         &self,
@@ -153,27 +166,15 @@ impl SimpleRepository {
 #[async_trait::async_trait]
 impl PackageRepository for SimpleRepository {
     async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
-        // A family that failed to load is an error whether or not it was queried before
-        if let Some(error) = self.package_errors.read().await.get(name) {
-            return Err(RezCoreError::Repository(error.clone()));
-        }
         // Check cache first
-        {
-            let cache = self.package_cache.read().await;
-            if let Some(packages) = cache.get(name) {
-                return Ok(packages.clone());
-            }
+        if let Some(packages) = self.lookup(name).await? {
+            return Ok(packages);
         }
 
         // If not in cache, scan and try again
         self.scan().await?;
 
-        if let Some(error) = self.package_errors.read().await.get(name) {
-            return Err(RezCoreError::Repository(error.clone()));
-        }
-
-        let cache = self.package_cache.read().await;
-        Ok(cache.get(name).cloned().unwrap_or_default())
+        Ok(self.lookup(name).await?.unwrap_or_default())
     }
 
     async fn get_package(
-- 
2.43.0


From 91562cf35e03c7012250fb4fe70b60b18a97861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 071/101] fix: FileSystemRepository does not list versions
 hidden by an .ignore marker

---
 crates/rez-next-repository/src/filesystem.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rez-next-repository/src/filesystem.rs b/crates/rez-next-repository/src/filesystem.rs
index 5e6d6ff..6f87deb 100644
--- a/crates/rez-next-repository/src/filesystem.rs
+++ b/crates/rez-next-repository/src/filesystem.rs
@@ -344,6 +344,12 @@ impl FileSystemRepository {
             if let Ok(mut version_entries) = fs::read_dir(&family_path).await {
                 while let Ok(Some(version_entry)) = version_entries.next_entry().await {
                     let version_path = version_entry.path();
+                    // A sibling `.ignore{version}` marker hides a version.
+                    let marker =
+                        format!(".ignore{}", version_entry.file_name().to_string_lossy());
+                    if family_path.join(marker).is_file() {
+                        continue;
+                    }
                     if version_path.is_dir()
                         && let Ok(scan_result) = self
                             .scan_package_directory(
-- 
2.43.0


From 0e66e38e303b548ba8d8b926707e23c71fe86e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 072/101] fix: FileSystemRepository::find_packages answers in a
 fixed order, also under a limit

---
 crates/rez-next-repository/src/filesystem.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-repository/src/filesystem.rs b/crates/rez-next-repository/src/filesystem.rs
index 6f87deb..f7364fd 100644
--- a/crates/rez-next-repository/src/filesystem.rs
+++ b/crates/rez-next-repository/src/filesystem.rs
@@ -144,7 +144,11 @@ impl Repository for FileSystemRepository {
         let package_cache = self.package_cache.read().await;
         let mut results = Vec::new();
 
-        for (package_name, versions) in package_cache.iter() {
+        // By name, then newest version first: a limit keeps a prefix of this order
+        let mut families: Vec<_> = package_cache.iter().collect();
+        families.sort_by_key(|(name, _)| *name);
+
+        for (package_name, versions) in families {
             // Check name pattern
             if let Some(ref pattern) = criteria.name_pattern
                 && !self.matches_pattern(package_name, pattern)
@@ -152,7 +156,9 @@ impl Repository for FileSystemRepository {
                 continue;
             }
 
-            for (_version_str, package) in versions.iter() {
+            let mut packages: Vec<_> = versions.values().collect();
+            packages.sort_by(|a, b| b.version.cmp(&a.version));
+            for package in packages {
                 // Check version range
                 if let Some(ref requirement) = criteria.version_requirement
                     && let Some(ref version) = package.version
-- 
2.43.0


From 571a0fc32a34d765cb4730ce2c53e7ab3e64736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:51 +0000
Subject: [PATCH 073/101] fix: the reverse dependency tree leaves out hidden
 packages and sees packages without a version

---
 .../rez-next-repository/src/package_search.rs | 118 +++++++++---------
 1 file changed, 58 insertions(+), 60 deletions(-)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index a16c0f3..44d7b27 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -8,7 +8,7 @@
 //! This aligns with Rez's `package_search.py` interface.
 
 use std::collections::{HashMap, HashSet};
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 use rez_next_package::package::{Package, PackageRequirement};
 
@@ -132,6 +132,33 @@ fn is_plugin_for(family_path: &Path, target_package: &str) -> bool {
     false
 }
 
+/// Directories in `dir` that are not hidden by a sibling `.ignore{name}` marker.
+fn visible_dirs(dir: &Path) -> Vec<PathBuf> {
+    let Ok(entries) = std::fs::read_dir(dir) else {
+        return Vec::new();
+    };
+    entries
+        .flatten()
+        .filter(|entry| {
+            let marker = format!(".ignore{}", entry.file_name().to_string_lossy());
+            !dir.join(marker).is_file()
+        })
+        .map(|entry| entry.path())
+        .filter(|path| path.is_dir())
+        .collect()
+}
+
+/// The packages of a family directory: its versions, or one package without a version.
+fn packages_in_family(family_path: &Path) -> Vec<Package> {
+    match load_package_from_dir(family_path) {
+        Some(package) => vec![package],
+        None => visible_dirs(family_path)
+            .iter()
+            .filter_map(|version_path| load_package_from_dir(version_path))
+            .collect(),
+    }
+}
+
 /// Load a package from a version directory.
 fn load_package_from_dir(dir: &Path) -> Option<Package> {
     let package_py = dir.join("package.py");
@@ -235,33 +262,26 @@ fn find_dependents(
             continue;
         }
 
-        if let Ok(entries) = std::fs::read_dir(path) {
-            for entry in entries.flatten() {
-                let family_path = entry.path();
-                if !family_path.is_dir() {
-                    continue;
-                }
-
-                let family_name = family_path
-                    .file_name()
-                    .and_then(|n| n.to_str())
-                    .unwrap_or("")
-                    .to_string();
+        for family_path in visible_dirs(path) {
+            let family_name = family_path
+                .file_name()
+                .and_then(|n| n.to_str())
+                .unwrap_or("")
+                .to_string();
 
-                if visited.contains(&family_name) {
-                    continue;
-                }
+            if visited.contains(&family_name) {
+                continue;
+            }
 
-                // Check if this package depends on package_name
-                if package_depends_on(
-                    &family_path,
-                    package_name,
-                    include_build_requires,
-                    include_private_build_requires,
-                ) {
-                    dependents.push(family_name.clone());
-                    visited.insert(family_name);
-                }
+            // Check if this package depends on package_name
+            if package_depends_on(
+                &family_path,
+                package_name,
+                include_build_requires,
+                include_private_build_requires,
+            ) {
+                dependents.push(family_name.clone());
+                visited.insert(family_name);
             }
         }
     }
@@ -282,40 +302,18 @@ fn package_depends_on(
             .is_ok_and(|parsed| parsed.name == target_package && !parsed.conflict)
     };
 
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
-
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check requires (direct field on Package struct), those of variants included
-                if pkg
-                    .requires
-                    .iter()
-                    .chain(pkg.variants.iter().flatten())
-                    .any(requires_target)
-                {
-                    return true;
-                }
-
-                // Check build requirements if requested (direct fields on Package struct)
-                if include_build_requires && pkg.build_requires.iter().any(requires_target) {
-                    return true;
-                }
-                if include_private_build_requires
-                    && pkg.private_build_requires.iter().any(requires_target)
-                {
-                    return true;
-                }
-            }
-        }
-    }
-
-    false
+    // Check every version
+    packages_in_family(family_path).iter().any(|pkg| {
+        // Requires (direct field on Package struct), those of variants included, and
+        // build requirements if requested
+        pkg.requires
+            .iter()
+            .chain(pkg.variants.iter().flatten())
+            .any(requires_target)
+            || (include_build_requires && pkg.build_requires.iter().any(requires_target))
+            || (include_private_build_requires
+                && pkg.private_build_requires.iter().any(requires_target))
+    })
 }
 
 /// Get default package paths from environment or common locations.
-- 
2.43.0


From feb2b824c5805c4c76d89a14b4ea26ab76ee0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:51 +0000
Subject: [PATCH 074/101] fix: get_plugins looks at the latest version of a
 family, not at an arbitrary one

---
 .../rez-next-repository/src/package_search.rs | 72 +++++--------------
 1 file changed, 16 insertions(+), 56 deletions(-)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index 44d7b27..59980cc 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -65,73 +65,33 @@ impl ResourceSearchResult {
 pub fn get_plugins(package_name: &str, paths: Option<Vec<String>>) -> Vec<String> {
     let search_paths = paths.unwrap_or_else(get_default_package_paths);
 
-    let mut plugins = Vec::new();
-    let mut visited = HashSet::new();
+    // The latest package of every family, across all paths
+    let mut latest: HashMap<String, Package> = HashMap::new();
 
     for path in search_paths {
-        let path = Path::new(&path);
-        if !path.exists() {
-            continue;
-        }
-
-        // Scan for packages that have plugin_for == package_name
-        if let Ok(entries) = std::fs::read_dir(path) {
-            for entry in entries.flatten() {
-                let family_path = entry.path();
-                if !family_path.is_dir() {
-                    continue;
-                }
-
-                let family_name = family_path
-                    .file_name()
-                    .and_then(|n| n.to_str())
-                    .unwrap_or("");
-
-                if visited.contains(family_name) {
-                    continue;
-                }
-
-                // Check if this package is a plugin for package_name
-                if is_plugin_for(&family_path, package_name) {
-                    plugins.push(family_name.to_string());
-                    visited.insert(family_name.to_string());
+        for family_path in visible_dirs(Path::new(&path)) {
+            for pkg in packages_in_family(&family_path) {
+                match latest.get(&pkg.name) {
+                    Some(existing) if existing.version >= pkg.version => {}
+                    _ => {
+                        latest.insert(pkg.name.clone(), pkg);
+                    }
                 }
             }
         }
     }
 
+    // A plugin is a family whose latest package has plugin_for == package_name
+    let mut plugins: Vec<String> = latest
+        .into_values()
+        .filter(|pkg| pkg.plugin_for.iter().any(|target| target == package_name))
+        .map(|pkg| pkg.name)
+        .collect();
+
     plugins.sort();
     plugins
 }
 
-/// Check if a package family is a plugin for the given package.
-fn is_plugin_for(family_path: &Path, target_package: &str) -> bool {
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
-
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check plugin_for field (direct field on Package struct)
-                for plugin in &pkg.plugin_for {
-                    if plugin == target_package {
-                        return true;
-                    }
-                }
-            }
-
-            // Only check the first version
-            break;
-        }
-    }
-
-    false
-}
-
 /// Directories in `dir` that are not hidden by a sibling `.ignore{name}` marker.
 fn visible_dirs(dir: &Path) -> Vec<PathBuf> {
     let Ok(entries) = std::fs::read_dir(dir) else {
-- 
2.43.0


From a70581ea9743981dbcc00972fbb75e0989647361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:01 +0000
Subject: [PATCH 075/101] fix: search does not panic on a long description that
 is not ASCII

---
 src/cli/commands/search_v2/display.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/commands/search_v2/display.rs b/src/cli/commands/search_v2/display.rs
index 9870f9e..e356206 100644
--- a/src/cli/commands/search_v2/display.rs
+++ b/src/cli/commands/search_v2/display.rs
@@ -75,8 +75,8 @@ fn display_table_format(results: &[SearchResult], args: &SearchArgs) -> RezCoreR
                 .description
                 .as_ref()
                 .map(|d| {
-                    if d.len() > 37 {
-                        format!("{}...", &d[..37])
+                    if d.chars().count() > 37 {
+                        format!("{}...", d.chars().take(37).collect::<String>())
                     } else {
                         d.clone()
                     }
-- 
2.43.0


From b9b2b0022ad16dd22afcf7f2da9069392311f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:01 +0000
Subject: [PATCH 076/101] fix: a time specification that is too large or not
 ASCII is refused, not a panic

---
 src/cli/utils.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cli/utils.rs b/src/cli/utils.rs
index 836316c..69808e0 100644
--- a/src/cli/utils.rs
+++ b/src/cli/utils.rs
@@ -175,17 +175,17 @@ pub fn parse_relative_time(s: &str) -> Option<i64> {
     if s.is_empty() {
         return None;
     }
-    let (digits, unit) = s.split_at(s.len() - 1);
+    let (digits, unit) = s.split_at_checked(s.len() - 1)?;
     let n: i64 = digits.parse().ok()?;
-    let seconds_ago: i64 = match unit {
-        "d" | "D" => n * 86_400,
-        "w" | "W" => n * 7 * 86_400,
-        "m" | "M" => n * 30 * 86_400,
-        "y" | "Y" => n * 365 * 86_400,
+    let seconds_per_unit: i64 = match unit {
+        "d" | "D" => 86_400,
+        "w" | "W" => 7 * 86_400,
+        "m" | "M" => 30 * 86_400,
+        "y" | "Y" => 365 * 86_400,
         _ => return None,
     };
     let now = chrono::Utc::now().timestamp();
-    Some(now - seconds_ago)
+    now.checked_sub(n.checked_mul(seconds_per_unit)?)
 }
 
 /// Parse a time specification into a Unix timestamp (`u64`, seconds since
-- 
2.43.0


From 02da1b553e00ef1760db41af13482ad2ba105ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:01 +0000
Subject: [PATCH 077/101] fix: search refuses a pattern or date it cannot parse
 instead of ignoring it

---
 src/cli/commands/search_v2/filter.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cli/commands/search_v2/filter.rs b/src/cli/commands/search_v2/filter.rs
index 2edd09b..5ad7146 100644
--- a/src/cli/commands/search_v2/filter.rs
+++ b/src/cli/commands/search_v2/filter.rs
@@ -6,7 +6,7 @@
 use super::matcher::{evaluate_package_match, get_package_timestamp};
 use super::types::{SearchArgs, SearchResult};
 use crate::cli::utils::parse_timestamp;
-use rez_next_common::error::RezCoreResult;
+use rez_next_common::error::{RezCoreError, RezCoreResult};
 use rez_next_repository::simple_repository::RepositoryManager;
 use std::collections::HashMap;
 
@@ -18,8 +18,13 @@ pub async fn perform_search(
     let mut all_results = Vec::new();
 
     // Parse timestamp filters
-    let newer_than = args.newer_than.as_deref().and_then(parse_timestamp);
-    let older_than = args.older_than.as_deref().and_then(parse_timestamp);
+    let newer_than = args.newer_than.as_deref().map(parse_date).transpose()?;
+    let older_than = args.older_than.as_deref().map(parse_date).transpose()?;
+
+    if args.regex {
+        regex::Regex::new(&args.query)
+            .map_err(|e| RezCoreError::CliError(format!("Invalid pattern: {e}")))?;
+    }
 
     // Get all available packages
     let all_package_names = repo_manager.list_packages().await?;
@@ -127,6 +132,11 @@ pub async fn perform_search(
 }
 
 /// Sort search results
+fn parse_date(date: &str) -> RezCoreResult<i64> {
+    parse_timestamp(date)
+        .ok_or_else(|| RezCoreError::CliError(format!("Cannot parse date '{date}'")))
+}
+
 pub fn sort_results(results: &mut [SearchResult], sort_by: &str) {
     match sort_by {
         "name" => {
-- 
2.43.0


From a3ad356341a4ca4b807d5aa125b4488fc8d84946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:01 +0000
Subject: [PATCH 078/101] fix: search --sort date sorts by date

---
 src/cli/commands/search_v2/filter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/commands/search_v2/filter.rs b/src/cli/commands/search_v2/filter.rs
index 5ad7146..fdaa1bb 100644
--- a/src/cli/commands/search_v2/filter.rs
+++ b/src/cli/commands/search_v2/filter.rs
@@ -152,6 +152,10 @@ pub fn sort_results(results: &mut [SearchResult], sort_by: &str) {
                 }
             });
         }
+        "date" => {
+            // Newest first
+            results.sort_by_key(|r| std::cmp::Reverse(get_package_timestamp(&r.package)));
+        }
         "score" => {
             results.sort_by(|a, b| {
                 b.match_score
-- 
2.43.0


From 966edbda8bc726a8593b4bc2b1737e51a41d8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:44 +0000
Subject: [PATCH 079/101] fix: the timestamp of a package.py is read, so that
 date filters can work

---
 crates/rez-next-package/src/python_ast_parser/mod.rs   | 7 +++++++
 crates/rez-next-package/src/python_ast_parser/types.rs | 1 +
 2 files changed, 8 insertions(+)

diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index 90d40b1..5c592e5 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -307,6 +307,12 @@ impl PythonAstParser {
             "format_version" => {
                 package_data.format_version = Some(self.extract_int_value(value)?);
             }
+            "timestamp" => {
+                // Read by date filters; None (not released) is valid as well
+                if let Ok(types::PythonValue::Integer(timestamp)) = self.evaluate_expression(value) {
+                    package_data.timestamp = Some(timestamp);
+                }
+            }
             "preprocess" => {
                 package_data.preprocess = Some(self.extract_string_value(value)?);
             }
@@ -418,6 +424,7 @@ impl PythonAstParser {
         package.has_plugins = data.has_plugins;
         package.plugin_for = data.plugin_for;
         package.format_version = data.format_version;
+        package.timestamp = data.timestamp;
         package.preprocess = data.preprocess;
 
         package.validate()?;
diff --git a/crates/rez-next-package/src/python_ast_parser/types.rs b/crates/rez-next-package/src/python_ast_parser/types.rs
index e1bc5ea..eb8f656 100644
--- a/crates/rez-next-package/src/python_ast_parser/types.rs
+++ b/crates/rez-next-package/src/python_ast_parser/types.rs
@@ -57,6 +57,7 @@ pub(crate) struct PackageData {
     pub has_plugins: Option<bool>,
     pub plugin_for: Vec<String>,
     pub format_version: Option<i32>,
+    pub timestamp: Option<i64>,
     pub preprocess: Option<String>,
 }
 
-- 
2.43.0


From 460bda654c4d32e1738ceac66393d60b95bde4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:57 +0000
Subject: [PATCH 080/101] fix: REZ_CONFIG_FILE is a list of files, not a path
 cut at every slash

---
 crates/rez-next-common/src/config.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/rez-next-common/src/config.rs b/crates/rez-next-common/src/config.rs
index b08dff6..78db6be 100644
--- a/crates/rez-next-common/src/config.rs
+++ b/crates/rez-next-common/src/config.rs
@@ -151,9 +151,7 @@ impl RezCoreConfig {
 
         // 2. Environment variable REZ_CONFIG_FILE
         if let Ok(config_file) = env::var("REZ_CONFIG_FILE") {
-            for path in config_file.split(std::path::MAIN_SEPARATOR) {
-                paths.push(PathBuf::from(path));
-            }
+            paths.extend(split_env_paths(&config_file).into_iter().map(PathBuf::from));
         }
 
         // 3. System-wide config
-- 
2.43.0


From 1dd6b7da39e8fdc1d3de31ee52c12f04221cf451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:57 +0000
Subject: [PATCH 081/101] fix: a configuration file that leaves out fields is
 used, with defaults for them

---
 crates/rez-next-common/src/config.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rez-next-common/src/config.rs b/crates/rez-next-common/src/config.rs
index 78db6be..c0d9425 100644
--- a/crates/rez-next-common/src/config.rs
+++ b/crates/rez-next-common/src/config.rs
@@ -6,6 +6,7 @@ use std::path::PathBuf;
 
 /// Configuration for rez-core components
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(default)]
 #[allow(clippy::struct_excessive_bools)]
 pub struct RezCoreConfig {
     /// Enable Rust version system
@@ -68,6 +69,7 @@ pub struct RezCoreConfig {
 
 /// Cache configuration
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(default)]
 pub struct CacheConfig {
     /// Enable memory cache
     pub enable_memory_cache: bool,
-- 
2.43.0


From 409168e60b8851b3b884b143f7823643ec3bb23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:58 +0000
Subject: [PATCH 082/101] fix: environment overrides are applied in name order
 and skip values that are not Unicode

---
 crates/rez-next-config/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-config/src/lib.rs b/crates/rez-next-config/src/lib.rs
index 9d08151..9fda010 100644
--- a/crates/rez-next-config/src/lib.rs
+++ b/crates/rez-next-config/src/lib.rs
@@ -266,7 +266,13 @@ impl Config {
     /// plain strings are stored as strings.
     fn apply_env_overrides(&mut self) -> Result<(), ConfigError> {
         let mut count = 0usize;
-        for (key, value) in env::vars() {
+        // In name order, so that REZ_FOO and REZ_FOO_BAR give the same result every time.
+        // A variable that is not Unicode cannot be a configuration value.
+        let mut vars: Vec<(String, String)> = env::vars_os()
+            .filter_map(|(key, value)| Some((key.into_string().ok()?, value.into_string().ok()?)))
+            .collect();
+        vars.sort();
+        for (key, value) in vars {
             if let Some(config_key) = key.strip_prefix("REZ_") {
                 let dotted = config_key.to_lowercase().replace('_', ".");
                 let parsed: JsonValue = serde_json::from_str(&value)
-- 
2.43.0


From c1ef3bb86f9d7494428555aa684be25175f2cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:58 +0000
Subject: [PATCH 083/101] fix: an environment override below a plain
 configuration value is not lost

---
 crates/rez-next-config/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rez-next-config/src/lib.rs b/crates/rez-next-config/src/lib.rs
index 9fda010..84c29d5 100644
--- a/crates/rez-next-config/src/lib.rs
+++ b/crates/rez-next-config/src/lib.rs
@@ -379,6 +379,9 @@ fn get_or_create_nested<'v>(root: &'v mut JsonValue, segments: &[&str]) -> &'v m
             .entry(seg.to_string())
             .or_insert(JsonValue::Object(serde_json::Map::new()));
     }
+    if !current.is_object() {
+        *current = JsonValue::Object(serde_json::Map::new());
+    }
     current
 }
 
-- 
2.43.0


From 08158487c194a4729c17d903981fa03597cd3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:43 +0000
Subject: [PATCH 084/101] fix: a configured path that starts with ~ is the home
 directory in every command

---
 src/cli/commands/depends.rs       | 10 +++++++---
 src/cli/commands/gui.rs           |  4 ++--
 src/cli/commands/pkg_cache/ops.rs |  2 +-
 src/cli/commands/plugins.rs       | 10 ++++++++--
 src/cli/commands/release.rs       |  2 +-
 5 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/cli/commands/depends.rs b/src/cli/commands/depends.rs
index 2b6ca64..743f8a2 100644
--- a/src/cli/commands/depends.rs
+++ b/src/cli/commands/depends.rs
@@ -8,7 +8,7 @@ use rez_next_version::Version;
 use std::collections::{HashMap, HashSet, VecDeque};
 use std::path::PathBuf;
 
-use crate::cli::utils::split_package_paths;
+use crate::cli::utils::{expand_home_path, split_package_paths};
 
 /// Arguments for the depends command
 #[derive(Args, Clone, Debug)]
@@ -135,9 +135,13 @@ pub async fn execute_depends(args: DependsArgs) -> Result<(), RezCoreError> {
         split_package_paths(paths)
     } else {
         let config = RezCoreConfig::load();
-        let mut paths: Vec<PathBuf> = config.packages_path.iter().map(PathBuf::from).collect();
+        let mut paths: Vec<PathBuf> = config
+            .packages_path
+            .iter()
+            .map(|path| expand_home_path(path))
+            .collect();
         // Also include local packages path
-        let local = PathBuf::from(&config.local_packages_path);
+        let local = expand_home_path(&config.local_packages_path);
         if !paths.contains(&local) {
             paths.push(local);
         }
diff --git a/src/cli/commands/gui.rs b/src/cli/commands/gui.rs
index e8884fb..35d53fa 100644
--- a/src/cli/commands/gui.rs
+++ b/src/cli/commands/gui.rs
@@ -41,12 +41,12 @@ pub async fn execute(args: &GuiArgs) -> Result<(), Box<dyn std::error::Error>> {
     all_paths.push(config.local_packages_path.clone());
 
     for repo_path in &all_paths {
-        let path = std::path::Path::new(repo_path);
+        let path = crate::cli::utils::expand_home_path(repo_path);
         if !path.exists() {
             continue;
         }
         // Scan directory: <repo>/<name>/<version>/
-        if let Ok(families) = std::fs::read_dir(path) {
+        if let Ok(families) = std::fs::read_dir(&path) {
             for family_entry in families.flatten() {
                 let family_name = family_entry.file_name().to_string_lossy().to_string();
 
diff --git a/src/cli/commands/pkg_cache/ops.rs b/src/cli/commands/pkg_cache/ops.rs
index 766d04d..7b01fa6 100644
--- a/src/cli/commands/pkg_cache/ops.rs
+++ b/src/cli/commands/pkg_cache/ops.rs
@@ -178,7 +178,7 @@ pub async fn add_variants(
         // Find package in repos
         let mut repo_manager = RepositoryManager::new();
         for (i, path_str) in config.packages_path.iter().enumerate() {
-            let path = std::path::PathBuf::from(path_str);
+            let path = expand_home_path(path_str);
             if path.exists() {
                 repo_manager
                     .add_repository(Box::new(SimpleRepository::new(path, format!("repo_{}", i))));
diff --git a/src/cli/commands/plugins.rs b/src/cli/commands/plugins.rs
index 3ff9cda..acb041c 100644
--- a/src/cli/commands/plugins.rs
+++ b/src/cli/commands/plugins.rs
@@ -9,6 +9,8 @@ use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository
 use std::collections::HashMap;
 use std::path::PathBuf;
 
+use crate::cli::utils::expand_home_path;
+
 /// Arguments for the plugins command
 #[derive(Args, Clone, Debug)]
 pub struct PluginsArgs {
@@ -103,8 +105,12 @@ async fn setup_repositories(args: &PluginsArgs) -> RezCoreResult<RepositoryManag
     let paths: Vec<PathBuf> = if args.paths.is_empty() {
         // Use real config paths
         let config = RezCoreConfig::load();
-        let mut p: Vec<PathBuf> = config.packages_path.iter().map(PathBuf::from).collect();
-        let local = PathBuf::from(&config.local_packages_path);
+        let mut p: Vec<PathBuf> = config
+            .packages_path
+            .iter()
+            .map(|path| expand_home_path(path))
+            .collect();
+        let local = expand_home_path(&config.local_packages_path);
         if !p.contains(&local) {
             p.push(local);
         }
diff --git a/src/cli/commands/release.rs b/src/cli/commands/release.rs
index 3b00ba4..dd0d996 100644
--- a/src/cli/commands/release.rs
+++ b/src/cli/commands/release.rs
@@ -367,7 +367,7 @@ fn read_message_file(path: Option<&PathBuf>) -> Option<String> {
 
 /// Get release packages path from config
 fn get_release_path() -> String {
-    RezCoreConfig::load().release_packages_path
+    crate::cli::utils::expand_home_str(&RezCoreConfig::load().release_packages_path)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e9153a9bdf5b960adc4e71ff43b18cd6eedf7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:43 +0000
Subject: [PATCH 085/101] fix: the default search of package families splits
 REZ_PACKAGES_PATH like the rest of rez

---
 crates/rez-next-repository/src/package_search.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index 59980cc..83d88fd 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -280,9 +280,8 @@ fn package_depends_on(
 fn get_default_package_paths() -> Vec<String> {
     // Check REZ_PACKAGES_PATH environment variable
     if let Ok(paths_str) = std::env::var("REZ_PACKAGES_PATH") {
-        return paths_str
-            .split(';')
-            .map(|s| s.trim().to_string())
+        return std::env::split_paths(&paths_str)
+            .map(|p| p.to_string_lossy().trim().to_string())
             .filter(|s| !s.is_empty())
             .collect();
     }
-- 
2.43.0


From 492313c127f2260e675ccad25f3ba2198efc963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:54 +0000
Subject: [PATCH 086/101] fix: depends and plugins pass over configured paths
 that do not exist

---
 src/cli/commands/depends.rs | 1 +
 src/cli/commands/plugins.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cli/commands/depends.rs b/src/cli/commands/depends.rs
index 743f8a2..f8ab5d9 100644
--- a/src/cli/commands/depends.rs
+++ b/src/cli/commands/depends.rs
@@ -145,6 +145,7 @@ pub async fn execute_depends(args: DependsArgs) -> Result<(), RezCoreError> {
         if !paths.contains(&local) {
             paths.push(local);
         }
+        paths.retain(|path| path.exists());
         paths
     };
 
diff --git a/src/cli/commands/plugins.rs b/src/cli/commands/plugins.rs
index acb041c..8fd1a23 100644
--- a/src/cli/commands/plugins.rs
+++ b/src/cli/commands/plugins.rs
@@ -114,6 +114,7 @@ async fn setup_repositories(args: &PluginsArgs) -> RezCoreResult<RepositoryManag
         if !p.contains(&local) {
             p.push(local);
         }
+        p.retain(|path| path.exists());
         p
     } else {
         args.paths.clone()
-- 
2.43.0


From 63695f33f7e8436efab3bc3a82192486f96ae280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:56 +0000
Subject: [PATCH 087/101] fix: a package that is larger than the free space is
 not cached

---
 crates/rez-next-package/src/package_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 1086bf4..d34ce08 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -778,7 +778,7 @@ impl PackageCache {
     /// Check if there's enough disk space.
     fn check_disk_space(&self, needed: u64) -> Result<bool, PackageCacheError> {
         let available = fs2::available_space(&self.root)?;
-        Ok(available - needed > self.config.min_free_space_bytes)
+        Ok(available.saturating_sub(needed) > self.config.min_free_space_bytes)
     }
 
     /// Check if the cache disk is near full.
@@ -811,7 +811,7 @@ impl PackageCache {
         let variant_size = Self::directory_size(variant_root).unwrap_or(0);
 
         // Check: available - variant_size > min_free_space
-        available > variant_size + self.config.min_free_space_bytes
+        available.saturating_sub(variant_size) > self.config.min_free_space_bytes
     }
 
     /// Remove empty parent directories.
-- 
2.43.0


From e23db8be0cc29bdb22011b996388aa08ca17dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:56 +0000
Subject: [PATCH 088/101] fix: cleaning the package cache keeps entries with a
 later access time and counts deleted bytes

---
 crates/rez-next-package/src/package_cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index d34ce08..45e5dbe 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -603,8 +603,9 @@ impl PackageCache {
                     break;
                 }
                 let path = entry.path();
+                let size = Self::directory_size(&path).unwrap_or(0);
                 if path.is_dir() && fs::remove_dir_all(&path).is_ok() {
-                    stats.deleted_bytes += Self::directory_size(&path).unwrap_or(0);
+                    stats.deleted_bytes += size;
                     stats.entries_deleted += 1;
                 }
             }
@@ -630,7 +631,7 @@ impl PackageCache {
                 let json_path = path.with_extension("json");
                 if let Ok(metadata) = Self::read_metadata(&json_path)
                     && let Some(accessed) = metadata.last_accessed
-                    && now - accessed > max_age
+                    && now.saturating_sub(accessed) > max_age
                 {
                     let _ = self.remove_variant(&handle);
                     stats.entries_deleted += 1;
-- 
2.43.0


From 36d03f380773d7075195c143454bb1acd8f0f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:56 +0000
Subject: [PATCH 089/101] fix: variants whose attributes look like a version or
 index are not mistaken for each other

---
 crates/rez-next-package/src/package_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 45e5dbe..b4cc426 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -125,7 +125,7 @@ pub enum PackageCacheError {
 /// Serializable representation of a variant handle.
 ///
 /// This is used to match cached payloads to their corresponding variants.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct VariantHandle {
     /// Package name
     pub name: String,
@@ -365,7 +365,7 @@ impl PackageCache {
                     Err(_) => continue, // Skip corrupted entries
                 };
 
-                if metadata.handle.hashable_repr() == handle.hashable_repr() {
+                if metadata.handle == *handle {
                     // Check for .copying file (still copying)
                     let copying_flag = json_path.with_file_name(format!(
                         ".copying-{}",
-- 
2.43.0


From b0eca4cd66205dce0fd15e22bca0d797db5402ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:56 +0000
Subject: [PATCH 090/101] fix: entries of the package cache appear and
 disappear whole, whatever else runs or crashes

---
 crates/rez-next-package/src/package_cache.rs | 100 ++++++++++++++-----
 1 file changed, 74 insertions(+), 26 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index b4cc426..329a4b2 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -27,7 +27,7 @@
 //! handles hash collisions.
 
 use std::fs::{self, File};
-use std::io::{self, Read, Write};
+use std::io::{self, Read};
 use std::path::{Path, PathBuf};
 use std::time::{SystemTime, UNIX_EPOCH};
 
@@ -339,6 +339,21 @@ impl PackageCache {
     ///
     /// `(CacheStatus, Option<PathBuf>)` - status and path if found.
     pub fn get_cached_root(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
+        let (status, path) = self.find_cached(handle);
+
+        // Update last accessed time
+        if status == CacheStatus::Found
+            && let Some(ref path) = path
+            && let Ok(_lock) = self.lock()
+        {
+            let _ = self.update_access_time(&path.with_extension("json"));
+        }
+
+        (status, path)
+    }
+
+    /// Find a variant without recording the access.
+    fn find_cached(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
         let hash_path = self.hash_path(handle);
 
         if !hash_path.is_dir() {
@@ -380,8 +395,10 @@ impl PackageCache {
                         return (CacheStatus::Copying, Some(payload_path));
                     }
 
-                    // Update last accessed time
-                    let _ = Self::update_access_time(&json_path);
+                    // An entry without a payload is the remains of a removed one
+                    if !payload_path.is_dir() {
+                        continue;
+                    }
 
                     return (CacheStatus::Found, Some(payload_path));
                 }
@@ -441,6 +458,12 @@ impl PackageCache {
             }
         }
 
+        // Reserve the entry; another process may have done so in the meantime
+        let lock = self.lock()?;
+        if let (status, Some(path)) = self.find_cached(handle) {
+            return Ok((status, path));
+        }
+
         // Create hash path
         let hash_path = self.hash_path(handle);
         fs::create_dir_all(&hash_path)?;
@@ -452,8 +475,9 @@ impl PackageCache {
         let json_path = hash_path.join(format!("{}.json", increment));
         let copying_flag = hash_path.join(format!(".copying-{}", increment));
 
-        // Create copying flag
-        File::create(&copying_flag)?;
+        // Create copying flag; it stays locked for as long as this process is copying
+        let copying = File::create(&copying_flag)?;
+        copying.lock()?;
 
         // Create metadata
         let now = SystemTime::now()
@@ -469,8 +493,8 @@ impl PackageCache {
         };
 
         // Write metadata
-        let json_str = serde_json::to_string_pretty(&metadata)?;
-        File::create(&json_path)?.write_all(json_str.as_bytes())?;
+        self.write_metadata(&json_path, &metadata)?;
+        drop(lock);
 
         // Copy payload
         Self::copy_dir_recursive(source_root, &payload_path)?;
@@ -486,7 +510,11 @@ impl PackageCache {
     /// Moves the payload to the to_delete directory; actual deletion
     /// happens during `clean()`.
     pub fn remove_variant(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
-        let (status, cached_path) = self.get_cached_root(handle);
+        let lock = self.lock();
+        let (status, cached_path) = self.find_cached(handle);
+        if lock.is_err() {
+            return (status, cached_path);
+        }
 
         match status {
             CacheStatus::NotFound => (CacheStatus::NotFound, None),
@@ -496,6 +524,11 @@ impl PackageCache {
             }
             CacheStatus::Found => {
                 if let Some(ref path) = cached_path {
+                    // Remove .json file first, so that the entry is never found incomplete
+                    if fs::remove_file(path.with_extension("json")).is_err() {
+                        return (status, cached_path);
+                    }
+
                     let dest = self.to_delete_dir().join(format!(
                         "{}-{}",
                         handle.name,
@@ -509,10 +542,6 @@ impl PackageCache {
                         let _ = fs::remove_dir_all(path);
                     }
 
-                    // Remove .json file
-                    let json_path = path.with_extension("json");
-                    let _ = fs::remove_file(json_path);
-
                     // Clean up empty parent directories
                     Self::cleanup_empty_dirs(path);
                 }
@@ -653,8 +682,28 @@ impl PackageCache {
         Ok(serde_json::from_str(&contents)?)
     }
 
-    /// Update the last-accessed time in the metadata.
-    fn update_access_time(json_path: &Path) -> Result<(), PackageCacheError> {
+    /// Take the lock that every change of the index is made under.
+    fn lock(&self) -> Result<File, PackageCacheError> {
+        let file = File::create(self.sys_dir().join("lock"))?;
+        file.lock()?;
+        Ok(file)
+    }
+
+    /// Write metadata in one step; the lock must be held.
+    fn write_metadata(
+        &self,
+        json_path: &Path,
+        metadata: &CachedVariantInfo,
+    ) -> Result<(), PackageCacheError> {
+        let json_str = serde_json::to_string_pretty(metadata)?;
+        let tmp_path = self.sys_dir().join("metadata.tmp");
+        fs::write(&tmp_path, json_str)?;
+        fs::rename(&tmp_path, json_path)?;
+        Ok(())
+    }
+
+    /// Update the last-accessed time in the metadata; the lock must be held.
+    fn update_access_time(&self, json_path: &Path) -> Result<(), PackageCacheError> {
         let mut metadata: CachedVariantInfo = Self::read_metadata(json_path)?;
         metadata.last_accessed = Some(
             SystemTime::now()
@@ -662,10 +711,7 @@ impl PackageCache {
                 .unwrap()
                 .as_secs(),
         );
-        let json_str = serde_json::to_string_pretty(&metadata)?;
-        let mut file = File::create(json_path)?;
-        file.write_all(json_str.as_bytes())?;
-        Ok(())
+        self.write_metadata(json_path, &metadata)
     }
 
     /// Check if a file appears stalled (no mtime update for too long).
@@ -685,15 +731,17 @@ impl PackageCache {
 
         if let Ok(entries) = fs::read_dir(hash_path) {
             for entry in entries.flatten() {
+                // Metadata, payloads and copying flags all take up their increment
                 let name = entry.file_name().to_string_lossy().to_string();
-                if name.ends_with(".json") {
-                    let inc = name.trim_end_matches(".json");
-                    match &max_inc {
-                        None => max_inc = Some(inc.to_string()),
-                        Some(current) => {
-                            if inc > current.as_str() {
-                                max_inc = Some(inc.to_string());
-                            }
+                let inc = name.trim_end_matches(".json").trim_start_matches(".copying-");
+                if inc.is_empty() || !inc.bytes().all(|b| b.is_ascii_lowercase()) {
+                    continue;
+                }
+                match &max_inc {
+                    None => max_inc = Some(inc.to_string()),
+                    Some(current) => {
+                        if (inc.len(), inc) > (current.len(), current.as_str()) {
+                            max_inc = Some(inc.to_string());
                         }
                     }
                 }
-- 
2.43.0


From 4ef5747a024e8d4a2e5acfe19786ea6a022778e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:56 +0000
Subject: [PATCH 091/101] fix: list_cached does not show a payload that is
 still being copied as found

---
 crates/rez-next-package/src/package_cache.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 329a4b2..2b4fa6a 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -593,7 +593,17 @@ impl PackageCache {
                                             && let Ok(metadata) = Self::read_metadata(&meta_path)
                                         {
                                             let payload_path = meta_path.with_extension("");
-                                            let status = if payload_path.is_dir() {
+                                            let copying_flag = hash_path.join(format!(
+                                                ".copying-{}",
+                                                payload_path.file_name().unwrap().to_string_lossy()
+                                            ));
+                                            let status = if copying_flag.is_file() {
+                                                if Self::is_file_stalled(&copying_flag) {
+                                                    CacheStatus::CopyStalled
+                                                } else {
+                                                    CacheStatus::Copying
+                                                }
+                                            } else if payload_path.is_dir() {
                                                 CacheStatus::Found
                                             } else {
                                                 CacheStatus::Pending
-- 
2.43.0


From b289bf7442a0929fc2ff7e7a8458e069baef63ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 092/101] fix: cleaning the package cache removes stalled
 copies, as documented

---
 crates/rez-next-package/src/package_cache.rs | 33 ++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 2b4fa6a..b5c109e 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -650,6 +650,9 @@ impl PackageCache {
             }
         }
 
+        // Clean stalled copies
+        self.clean_stalled(&mut stats);
+
         // Clean old entries
         if let Some(max_age) = self.config.max_age_secs {
             let now = SystemTime::now()
@@ -684,6 +687,36 @@ impl PackageCache {
 
     // ── Helper methods ──────────────────────────────────────────────────────
 
+    /// Remove stalled copies whose process is gone.
+    fn clean_stalled(&self, stats: &mut CleanStats) {
+        for (_, path, status) in self.list_cached() {
+            let (Some(hash_path), Some(increment)) = (path.parent(), path.file_name()) else {
+                continue;
+            };
+            if status != CacheStatus::CopyStalled {
+                continue;
+            }
+            let flag = hash_path.join(format!(".copying-{}", increment.to_string_lossy()));
+
+            // A process that is still copying keeps its flag locked
+            let Ok(_lock) = self.lock() else { return };
+            if !Self::is_file_stalled(&flag)
+                || !File::open(&flag).is_ok_and(|file| file.try_lock().is_ok())
+            {
+                continue;
+            }
+            let size = Self::directory_size(&path).unwrap_or(0);
+            if fs::remove_file(path.with_extension("json")).is_err() {
+                continue;
+            }
+            let _ = fs::remove_dir_all(&path);
+            let _ = fs::remove_file(&flag);
+            Self::cleanup_empty_dirs(&path);
+            stats.entries_deleted += 1;
+            stats.deleted_bytes += size;
+        }
+    }
+
     /// Read metadata from a JSON file.
     fn read_metadata(path: &Path) -> Result<CachedVariantInfo, PackageCacheError> {
         let mut file = File::open(path)?;
-- 
2.43.0


From 9d96f8b6ce116abf6808e1d5d69e4917572c10f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 093/101] fix: cleaning the package cache counts only entries
 it did remove

---
 crates/rez-next-package/src/package_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index b5c109e..1b2ce0e 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -675,7 +675,9 @@ impl PackageCache {
                     && let Some(accessed) = metadata.last_accessed
                     && now.saturating_sub(accessed) > max_age
                 {
-                    let _ = self.remove_variant(&handle);
+                    let (CacheStatus::Removed, _) = self.remove_variant(&handle) else {
+                        continue;
+                    };
                     stats.entries_deleted += 1;
                     stats.deleted_bytes += metadata.payload_size.unwrap_or(0);
                 }
-- 
2.43.0


From 7e47689669d85b2c9276db57022bc4d77b3d5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 094/101] fix: the size limit of the package cache is kept

---
 crates/rez-next-package/src/package_cache.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 1b2ce0e..028343b 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -464,6 +464,22 @@ impl PackageCache {
             return Ok((status, path));
         }
 
+        // Check cache size
+        if !force && let Some(limit) = self.config.max_size_bytes {
+            let cached: u64 = self
+                .list_cached()
+                .iter()
+                .filter_map(|(_, path, _)| {
+                    Self::read_metadata(&path.with_extension("json"))
+                        .ok()?
+                        .payload_size
+                })
+                .sum();
+            if cached.saturating_add(Self::directory_size(source_root)?) > limit {
+                return Ok((CacheStatus::Skipped, self.hash_path(handle)));
+            }
+        }
+
         // Create hash path
         let hash_path = self.hash_path(handle);
         fs::create_dir_all(&hash_path)?;
-- 
2.43.0


From a812128bc84ab97da08e014f82da89d2e4b2edd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:59 +0000
Subject: [PATCH 095/101] fix: cleaning the package cache does not remove an
 entry that is used meanwhile

---
 crates/rez-next-package/src/package_cache.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 028343b..a434177 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -339,12 +339,13 @@ impl PackageCache {
     ///
     /// `(CacheStatus, Option<PathBuf>)` - status and path if found.
     pub fn get_cached_root(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
+        let lock = self.lock();
         let (status, path) = self.find_cached(handle);
 
         // Update last accessed time
         if status == CacheStatus::Found
             && let Some(ref path) = path
-            && let Ok(_lock) = self.lock()
+            && lock.is_ok()
         {
             let _ = self.update_access_time(&path.with_extension("json"));
         }
@@ -526,11 +527,15 @@ impl PackageCache {
     /// Moves the payload to the to_delete directory; actual deletion
     /// happens during `clean()`.
     pub fn remove_variant(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
-        let lock = self.lock();
-        let (status, cached_path) = self.find_cached(handle);
-        if lock.is_err() {
-            return (status, cached_path);
+        match self.lock() {
+            Ok(_lock) => self.remove_locked(handle),
+            Err(_) => self.find_cached(handle),
         }
+    }
+
+    /// Remove a variant; the lock must be held.
+    fn remove_locked(&self, handle: &VariantHandle) -> (CacheStatus, Option<PathBuf>) {
+        let (status, cached_path) = self.find_cached(handle);
 
         match status {
             CacheStatus::NotFound => (CacheStatus::NotFound, None),
@@ -685,13 +690,14 @@ impl PackageCache {
                     continue;
                 }
 
-                // Check age via metadata file
+                // Check age via metadata file, under the lock: it may be used meanwhile
+                let Ok(_lock) = self.lock() else { break };
                 let json_path = path.with_extension("json");
                 if let Ok(metadata) = Self::read_metadata(&json_path)
                     && let Some(accessed) = metadata.last_accessed
                     && now.saturating_sub(accessed) > max_age
                 {
-                    let (CacheStatus::Removed, _) = self.remove_variant(&handle) else {
+                    let (CacheStatus::Removed, _) = self.remove_locked(&handle) else {
                         continue;
                     };
                     stats.entries_deleted += 1;
-- 
2.43.0


From 4212060fe1ab7bd0054827a5dc869b2342d45030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:17 +0000
Subject: [PATCH 096/101] fix: saving a suite replaces its file in one step

---
 crates/rez-next-suites/src/suite.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-suites/src/suite.rs b/crates/rez-next-suites/src/suite.rs
index 67887cb..e32d580 100644
--- a/crates/rez-next-suites/src/suite.rs
+++ b/crates/rez-next-suites/src/suite.rs
@@ -247,8 +247,15 @@ impl Suite {
         let yaml = serde_yaml::to_string(&suite_file)
             .map_err(|e| SuiteError::Serialization(e.to_string()))?;
 
+        // Replace the file in one step, so that it is never seen half-written
         let suite_yaml_path = path.join("suite.yaml");
-        std::fs::write(&suite_yaml_path, yaml)?;
+        let tmp_path = path.join(format!(".suite.yaml.{}.tmp", std::process::id()));
+        if let Err(e) = std::fs::write(&tmp_path, yaml)
+            .and_then(|_| std::fs::rename(&tmp_path, &suite_yaml_path))
+        {
+            let _ = std::fs::remove_file(&tmp_path);
+            return Err(e.into());
+        }
 
         // Create bin directory with tool scripts
         let bin_dir = path.join("bin");
-- 
2.43.0


From 6a8722b4f630a33e0d46fcc26fba7799d6696d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:17 +0000
Subject: [PATCH 097/101] fix: suite tools honour context prefixes and
 priorities and never replace each other silently

---
 crates/rez-next-suites/src/suite.rs | 89 +++++++++++++++--------------
 1 file changed, 46 insertions(+), 43 deletions(-)

diff --git a/crates/rez-next-suites/src/suite.rs b/crates/rez-next-suites/src/suite.rs
index e32d580..34e04d7 100644
--- a/crates/rez-next-suites/src/suite.rs
+++ b/crates/rez-next-suites/src/suite.rs
@@ -165,13 +165,14 @@ impl Suite {
     /// Returns a map of tool_name -> SuiteTool
     pub fn get_tools(&self) -> Result<HashMap<String, SuiteTool>, SuiteError> {
         let mut tools: HashMap<String, SuiteTool> = HashMap::new();
-        let mut conflicts: HashMap<String, Vec<String>> = HashMap::new();
+        let mut renamed: Vec<SuiteTool> = Vec::new();
 
-        for ctx in &self.contexts {
-            if ctx.disabled {
-                continue;
-            }
+        // Higher priority first; contexts of equal priority keep their order
+        let mut contexts: Vec<&SuiteContext> =
+            self.contexts.iter().filter(|c| !c.disabled).collect();
+        contexts.sort_by_key(|c| std::cmp::Reverse(c.priority));
 
+        for ctx in contexts {
             // Generate tool entries for this context
             // Since we don't have actual resolved contexts here (that would require async),
             // we use the alias map and any known tools
@@ -180,54 +181,56 @@ impl Suite {
                     continue;
                 }
 
-                let tool = SuiteTool::new(
-                    alias.clone(),
+                let mut tool = SuiteTool::new(
+                    ctx.get_prefixed_tool_name(alias),
                     original.clone(),
                     ctx.name.clone(),
                     ctx.requests.first().cloned().unwrap_or_default(),
                 );
 
-                if let Some(existing) = tools.get(&tool.name) {
-                    conflicts
-                        .entry(tool.name.clone())
-                        .or_default()
-                        .push(existing.context_name.clone());
-                    conflicts
-                        .entry(tool.name.clone())
-                        .or_default()
-                        .push(ctx.name.clone());
-
-                    match self.conflict_mode {
-                        ToolConflictMode::Error => {
-                            return Err(SuiteError::ToolConflict {
-                                tool: tool.name.clone(),
-                                contexts: conflicts[&tool.name].join(", "),
-                            });
-                        }
-                        ToolConflictMode::First => {
-                            // Keep existing, skip this one
-                        }
-                        ToolConflictMode::Last => {
-                            tools.insert(tool.name.clone(), tool);
-                        }
-                        ToolConflictMode::Prefix => {
-                            // Rename with context prefix
-                            let prefixed_name = format!("{}_{}", ctx.name, alias);
-                            let prefixed_tool = SuiteTool::new(
-                                prefixed_name.clone(),
-                                original.clone(),
-                                ctx.name.clone(),
-                                ctx.requests.first().cloned().unwrap_or_default(),
-                            );
-                            tools.insert(prefixed_name, prefixed_tool);
-                        }
-                    }
-                } else {
+                let Some(existing) = tools.get(&tool.name) else {
                     tools.insert(tool.name.clone(), tool);
+                    continue;
+                };
+
+                // A context of higher priority wins; the conflict mode decides between equals
+                let outranked = self
+                    .get_context(&existing.context_name)
+                    .is_some_and(|c| c.priority > ctx.priority);
+
+                match self.conflict_mode {
+                    ToolConflictMode::Error if !outranked => {
+                        return Err(SuiteError::ToolConflict {
+                            tool: tool.name.clone(),
+                            contexts: format!("{}, {}", existing.context_name, ctx.name),
+                        });
+                    }
+                    ToolConflictMode::Last if !outranked => {
+                        tools.insert(tool.name.clone(), tool);
+                    }
+                    ToolConflictMode::Prefix => {
+                        // Rename with context prefix
+                        tool.name = format!("{}_{}", ctx.name, tool.name);
+                        tool.is_alias = tool.name != tool.original_name;
+                        renamed.push(tool);
+                    }
+                    // Keep existing, skip this one
+                    _ => {}
                 }
             }
         }
 
+        // A name made up to avoid a conflict must not take that of another tool
+        for tool in renamed {
+            if let Some(existing) = tools.get(&tool.name) {
+                return Err(SuiteError::ToolConflict {
+                    tool: tool.name.clone(),
+                    contexts: format!("{}, {}", existing.context_name, tool.context_name),
+                });
+            }
+            tools.insert(tool.name.clone(), tool);
+        }
+
         Ok(tools)
     }
 
-- 
2.43.0


From 3ebf6ad049f8e5ef19baf84ea783dff6b36e982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:17 +0000
Subject: [PATCH 098/101] fix: suites create does not replace an existing suite

---
 src/cli/commands/suites.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cli/commands/suites.rs b/src/cli/commands/suites.rs
index a0a9daa..0f91249 100644
--- a/src/cli/commands/suites.rs
+++ b/src/cli/commands/suites.rs
@@ -198,6 +198,13 @@ fn cmd_create(args: CreateSuiteArgs) -> RezCoreResult<()> {
         .parse()
         .map_err(|e: String| RezCoreError::RequirementParse(e))?;
 
+    if Suite::is_suite(&args.path) {
+        return Err(RezCoreError::ExecutionError(format!(
+            "Suite already exists: {}",
+            args.path.display()
+        )));
+    }
+
     let mut suite = Suite::new().with_conflict_mode(conflict_mode);
     if let Some(desc) = args.description {
         suite = suite.with_description(desc);
-- 
2.43.0


From 63ff0b713f82c64bed6af3606913a78f72b8916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:17 +0000
Subject: [PATCH 099/101] fix: suites add-context records the priority it is
 given

---
 src/cli/commands/suites.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cli/commands/suites.rs b/src/cli/commands/suites.rs
index 0f91249..038134f 100644
--- a/src/cli/commands/suites.rs
+++ b/src/cli/commands/suites.rs
@@ -263,10 +263,9 @@ fn cmd_add_context(args: AddContextArgs) -> RezCoreResult<()> {
         .add_context(args.context_name.clone(), args.requests.clone())
         .map_err(|e| RezCoreError::ExecutionError(e.to_string()))?;
 
-    if let Some(prefix) = args.prefix
-        && let Some(ctx) = suite.get_context_mut(&args.context_name)
-    {
-        ctx.prefix = Some(prefix);
+    if let Some(ctx) = suite.get_context_mut(&args.context_name) {
+        ctx.prefix = args.prefix;
+        ctx.priority = args.priority;
     }
 
     suite
-- 
2.43.0


From af30d19de76443d8fb20f340b38f60c4ccf60684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:46 +0000
Subject: [PATCH 100/101] fix: a requirement like foo-1.0-b2+ is read with its
 name and not with part of its version

---
 crates/rez-next-package/src/requirement/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index a9a575b..6d2ec83 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -205,7 +205,7 @@ impl RequirementParser {
 
         // Handle "package-1.0+" syntax
         if let Some(without_plus) = s.strip_suffix('+')
-            && let Some(dash_pos) = without_plus.rfind('-')
+            && let Some(dash_pos) = without_plus.find('-')
         {
             let name = without_plus[..dash_pos].to_string();
             let version_str = &without_plus[dash_pos + 1..];
-- 
2.43.0


From 832fad98d205ea145c8023412b64f981209c1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:45 +0000
Subject: [PATCH 101/101] fix: CMD scripts of a context do not interpret what
 variable values contain

---
 crates/rez-next-context/src/environment.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index 7cbf3ca..f68d5fb 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -426,7 +426,12 @@ impl EnvironmentManager {
                 script.push_str("REM Generated by rez-core\n\n");
 
                 for (name, value) in env_vars {
-                    script.push_str(&format!("set {}={}\n", name, value));
+                    // A single `%` would start a variable reference in a batch file.
+                    script.push_str(&format!(
+                        "SET \"{}={}\"\n",
+                        name,
+                        value.replace('%', "%%")
+                    ));
                 }
             }
             ShellType::PowerShell => {
-- 
2.43.0

