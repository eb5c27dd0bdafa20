From a041489074086c1dc9c45979f3576cb39e36dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:14 +0000
Subject: [PATCH 01/26] fix: compare arbitrarily long numeric version tokens by
 value and hash versions consistently with equality

---
 crates/rez-next-version/src/version.rs | 53 +++++++++++++++++++-------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index dd7095f..8170fb5 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -332,8 +332,8 @@ impl Version {
     ///    apply rules 1–3 per segment pair.
     fn compare_single_token(t1: &str, t2: &str) -> Ordering {
         // Fast path: both purely numeric
-        if let (Ok(n1), Ok(n2)) = (t1.parse::<i64>(), t2.parse::<i64>()) {
-            return n1.cmp(&n2);
+        if Self::is_numeric(t1) && Self::is_numeric(t2) {
+            return Self::compare_numeric(t1, t2);
         }
         // Fast path: equal strings
         if t1 == t2 {
@@ -362,14 +362,8 @@ impl Version {
         let seg2 = Self::split_token_segments(t2);
 
         for (s1, s2) in seg1.iter().zip(seg2.iter()) {
-            let s1_is_num = s1.parse::<u64>().is_ok();
-            let s2_is_num = s2.parse::<u64>().is_ok();
-            let cmp = match (s1_is_num, s2_is_num) {
-                (true, true) => {
-                    let n1: u64 = s1.parse().unwrap();
-                    let n2: u64 = s2.parse().unwrap();
-                    n1.cmp(&n2)
-                }
+            let cmp = match (Self::is_numeric(s1), Self::is_numeric(s2)) {
+                (true, true) => Self::compare_numeric(s1, s2),
                 (false, false) => s1.as_str().cmp(s2.as_str()),
                 (false, true) => Ordering::Less, // alpha segment < numeric segment
                 (true, false) => Ordering::Greater, // numeric segment > alpha segment
@@ -381,6 +375,20 @@ impl Version {
         seg1.len().cmp(&seg2.len())
     }
 
+    fn is_numeric(s: &str) -> bool {
+        !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
+    }
+
+    fn is_zero(s: &str) -> bool {
+        !s.is_empty() && s.bytes().all(|b| b == b'0')
+    }
+
+    /// Compare two digit strings by numeric value, whatever their length.
+    fn compare_numeric(s1: &str, s2: &str) -> Ordering {
+        let (n1, n2) = (s1.trim_start_matches('0'), s2.trim_start_matches('0'));
+        n1.len().cmp(&n2.len()).then_with(|| n1.cmp(n2))
+    }
+
     /// Split a token into alternating alpha/numeric segments.
     /// E.g. "alpha10" → ["alpha", "10"], "rc2" → ["rc", "2"]
     fn split_token_segments(s: &str) -> Vec<String> {
@@ -430,7 +438,7 @@ impl Version {
         if tokens1.len() < tokens2.len() {
             // tokens1 is shorter, tokens2 has extra tokens
             let extra_tokens = &tokens2[tokens1.len()..];
-            if extra_tokens.iter().all(|t| t == "0") {
+            if extra_tokens.iter().all(|t| Self::is_zero(t)) {
                 // Trailing zeros implicit → equal
                 Ordering::Equal
             } else {
@@ -449,7 +457,7 @@ impl Version {
         } else if tokens2.len() < tokens1.len() {
             // tokens2 is shorter, tokens1 has extra tokens
             let extra_tokens = &tokens1[tokens2.len()..];
-            if extra_tokens.iter().all(|t| t == "0") {
+            if extra_tokens.iter().all(|t| Self::is_zero(t)) {
                 // Trailing zeros implicit → equal
                 Ordering::Equal
             } else {
@@ -495,7 +503,26 @@ impl PartialOrd for Version {
 
 impl Hash for Version {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.string_repr.hash(state);
+        // Must agree with `Eq`: separators, trailing zero tokens and leading zeros of
+        // numeric segments do not take part in equality.
+        if self.is_inf() {
+            return self.string_repr.hash(state);
+        }
+        let significant = self
+            .tokens
+            .iter()
+            .rposition(|t| !Self::is_zero(t))
+            .map_or(0, |last| last + 1);
+        for token in &self.tokens[..significant] {
+            for segment in Self::split_token_segments(token) {
+                if Self::is_numeric(&segment) {
+                    segment.trim_start_matches('0').hash(state);
+                } else {
+                    segment.hash(state);
+                }
+            }
+            state.write_u8(b'.');
+        }
     }
 }
 
-- 
2.43.0


From 10394513e689265a80d159914c7c23dbc9e451f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:20 +0000
Subject: [PATCH 02/26] fix: make version-range set operations agree with
 membership (interval inside alternatives, set difference, overlap tests,
 deserialised ranges)

---
 crates/rez-next-version/src/range/mod.rs      | 215 +++++++----------
 crates/rez-next-version/src/range/parser.rs   |  38 ++-
 .../src/range/satisfiability.rs               | 221 ++++--------------
 crates/rez-next-version/src/range/types.rs    |  92 +++++---
 4 files changed, 202 insertions(+), 364 deletions(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 3e7c139..0e10a22 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -14,11 +14,11 @@ use serde::{Deserialize, Serialize};
 use types::BoundSet;
 
 use parser::parse_range_str;
-use satisfiability::{bound_sets_intersect, is_bound_set_satisfiable};
-use types::Bound;
+use satisfiability::is_bound_set_satisfiable;
+use types::{Bound, complement};
 
 /// `VersionRange` representation - a disjunction of `BoundSet`s (union of intersections)
-#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(Clone, Debug, PartialEq, Eq, Serialize)]
 pub struct VersionRange {
     /// Cached string representation
     pub range_str: String,
@@ -28,9 +28,21 @@ pub struct VersionRange {
     /// Whether the range was successfully parsed
     #[serde(skip)]
     is_parsed: bool,
-    /// Ranges to subtract (for set difference operations)
-    #[serde(skip)]
-    subtract_from: Vec<VersionRange>,
+}
+
+impl<'de> Deserialize<'de> for VersionRange {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        // The bounds are not serialised: rebuild them from the text
+        #[derive(Deserialize)]
+        struct Text {
+            range_str: String,
+        }
+        let text = Text::deserialize(deserializer)?;
+        Self::parse(&text.range_str).map_err(serde::de::Error::custom)
+    }
 }
 
 impl VersionRange {
@@ -46,7 +58,6 @@ impl VersionRange {
             range_str: String::new(),
             bound_sets: vec![BoundSet::any()],
             is_parsed: true,
-            subtract_from: Vec::new(),
         }
     }
 
@@ -56,7 +67,6 @@ impl VersionRange {
             range_str: "!*".to_string(),
             bound_sets: vec![BoundSet::none()],
             is_parsed: true,
-            subtract_from: Vec::new(),
         }
     }
 
@@ -78,7 +88,6 @@ impl VersionRange {
             range_str: range_str.to_string(),
             bound_sets,
             is_parsed: true,
-            subtract_from: Vec::new(),
         })
     }
 
@@ -88,17 +97,7 @@ impl VersionRange {
             return true;
         }
         // Disjunction: any bound_set matching means the version is included
-        let in_self = self.bound_sets.iter().any(|bs| bs.contains(version));
-        if !in_self {
-            return false;
-        }
-        // Subtract: if version is in any subtract range, exclude it
-        for sub_range in &self.subtract_from {
-            if sub_range.contains(version) {
-                return false;
-            }
-        }
-        true
+        self.bound_sets.iter().any(|bs| bs.contains(version))
     }
 
     /// Get the string representation
@@ -108,21 +107,37 @@ impl VersionRange {
 
     /// Check if this range intersects with another range
     pub fn intersects(&self, other: &VersionRange) -> bool {
-        // Conservative: if either is "any", they intersect
-        if self.is_any() || other.is_any() {
-            return true;
-        }
-        // Check if the ranges have any overlap by checking bounds interaction
-        // For exact versions, check containment
-        for bs_self in &self.bound_sets {
-            for bs_other in &other.bound_sets {
-                // Check if these two bound sets can co-exist
-                if bound_sets_intersect(bs_self, bs_other) {
-                    return true;
-                }
-            }
+        self.intersected_sets(other).next().is_some()
+    }
+
+    /// Pairwise conjunctions of both ranges' bound sets that some version satisfies
+    fn intersected_sets<'a>(
+        &'a self,
+        other: &'a VersionRange,
+    ) -> impl Iterator<Item = BoundSet> + 'a {
+        self.bound_sets
+            .iter()
+            .flat_map(move |bs_self| {
+                other.bound_sets.iter().map(move |bs_other| {
+                    let mut bounds = bs_self.bounds.clone();
+                    bounds.extend(bs_other.bounds.iter().cloned());
+                    BoundSet { bounds }
+                })
+            })
+            .filter(is_bound_set_satisfiable)
+    }
+
+    /// Range made of the given bound sets, or `None` if there are none
+    fn from_bound_sets(bound_sets: Vec<BoundSet>) -> Option<VersionRange> {
+        if bound_sets.is_empty() {
+            return None;
         }
-        false
+        let texts: Vec<String> = bound_sets.iter().map(ToString::to_string).collect();
+        Some(VersionRange {
+            range_str: texts.join("|"),
+            bound_sets,
+            is_parsed: true,
+        })
     }
 
     /// Compute the intersection of two ranges
@@ -135,31 +150,7 @@ impl VersionRange {
         }
         // Merge all bound sets with AND semantics
         // Only include merged sets that are satisfiable (not trivially empty)
-        let mut result_sets = Vec::new();
-        for bs_self in &self.bound_sets {
-            for bs_other in &other.bound_sets {
-                let mut merged = bs_self.bounds.clone();
-                merged.extend(bs_other.bounds.clone());
-                let merged_set = BoundSet { bounds: merged };
-                // Only include if this merged set is satisfiable
-                if is_bound_set_satisfiable(&merged_set) {
-                    result_sets.push(merged_set);
-                }
-            }
-        }
-
-        if result_sets.is_empty() {
-            return None;
-        }
-        let new_str = format!("({})&({})", self.range_str, other.range_str);
-        let mut combined_subtracts = self.subtract_from.clone();
-        combined_subtracts.extend(other.subtract_from.clone());
-        Some(VersionRange {
-            range_str: new_str,
-            bound_sets: result_sets,
-            is_parsed: true,
-            subtract_from: combined_subtracts,
-        })
+        Self::from_bound_sets(self.intersected_sets(other).collect())
     }
 
     /// Compute the union of two ranges (pipe-separated)
@@ -171,7 +162,6 @@ impl VersionRange {
             range_str: new_str,
             bound_sets: sets,
             is_parsed: true,
-            subtract_from: Vec::new(),
         }
     }
 
@@ -181,26 +171,34 @@ impl VersionRange {
         if other.is_any() {
             return None; // self - any = empty
         }
-        if other.is_empty() {
-            return Some(self.clone());
-        }
         if self.is_empty() {
             return None;
         }
-        // Use subtract_from field: self with other excluded via contains() check
-        let new_str = format!("({})-({})", self.range_str, other.range_str);
-        let mut subtracts = self.subtract_from.clone();
-        subtracts.push(other.clone());
-        let range = VersionRange {
-            range_str: new_str,
-            bound_sets: self.bound_sets.clone(),
-            is_parsed: true,
-            subtract_from: subtracts,
-        };
-        // Quick sanity: at least one probe version must be in the result
-        let probes = self.collect_probe_versions_with_other(other);
-        let has_any = probes.iter().any(|v| range.contains(v));
-        if has_any { Some(range) } else { None }
+        if other.is_empty() {
+            return Some(self.clone());
+        }
+        // Remove the other range's alternatives one after the other: what is left of a
+        // conjunction without another one violates at least one bound of the latter
+        let mut sets = self.bound_sets.clone();
+        for removed in &other.bound_sets {
+            let outside = VersionRange {
+                range_str: String::new(),
+                bound_sets: removed
+                    .bounds
+                    .iter()
+                    .flat_map(complement)
+                    .map(|b| BoundSet { bounds: vec![b] })
+                    .collect(),
+                is_parsed: true,
+            };
+            let rest = VersionRange {
+                range_str: String::new(),
+                bound_sets: sets,
+                is_parsed: true,
+            };
+            sets = rest.intersected_sets(&outside).collect();
+        }
+        Self::from_bound_sets(sets)
     }
 
     /// Check if this range is the "any" range (matches all versions)
@@ -209,31 +207,16 @@ impl VersionRange {
         if s.is_empty() || s == "*" {
             return true;
         }
-        // Check if all bound sets are Any
+        // Check if some bound set is Any
         self.bound_sets
             .iter()
-            .all(|bs| bs.bounds.is_empty() || bs.bounds.iter().all(|b| matches!(b, Bound::Any)))
+            .any(|bs| bs.bounds.is_empty() || bs.bounds.iter().all(|b| matches!(b, Bound::Any)))
     }
 
     /// Check if this range is a subset of another range
     /// (every version in self is also in other)
     pub fn is_subset_of(&self, other: &VersionRange) -> bool {
-        if other.is_any() {
-            return true;
-        }
-        if self.is_any() {
-            return other.is_any();
-        }
-        if self.is_empty() {
-            return true;
-        }
-        let probe_versions = self.collect_probe_versions_with_other(other);
-        for v in &probe_versions {
-            if self.contains(v) && !other.contains(v) {
-                return false;
-            }
-        }
-        true
+        self.subtract(other).is_none()
     }
 
     /// Check if this range is a superset of another range
@@ -241,50 +224,14 @@ impl VersionRange {
         other.is_subset_of(self)
     }
 
-    /// Collect probe versions from both self and other's bounds, plus "beyond" versions
-    fn collect_probe_versions_with_other(&self, other: &VersionRange) -> Vec<Version> {
-        let mut versions = Vec::new();
-        for range in [self as &VersionRange, other] {
-            for bs in &range.bound_sets {
-                for bound in &bs.bounds {
-                    match bound {
-                        Bound::Ge(v)
-                        | Bound::Gt(v)
-                        | Bound::Le(v)
-                        | Bound::Lt(v)
-                        | Bound::Eq(v)
-                        | Bound::Ne(v)
-                        | Bound::Compatible(v) => {
-                            versions.push(v.clone());
-                            if let Ok(bumped) = Version::parse(&format!("{}.999999", v.as_str())) {
-                                versions.push(bumped);
-                            }
-                        }
-                        _ => {}
-                    }
-                }
-            }
-        }
-        for s in &["0.0.1", "999.999.999"] {
-            if let Ok(v) = Version::parse(s) {
-                versions.push(v);
-            }
-        }
-        versions
-    }
-
     /// Check if this range is empty (no versions match)
     pub fn is_empty(&self) -> bool {
         let s = self.range_str.trim();
         if s == "empty" || s == "!*" {
             return true;
         }
-        if self.is_parsed && !self.bound_sets.is_empty() {
-            return self
-                .bound_sets
-                .iter()
-                .all(|bs| bs.bounds.iter().any(|b| matches!(b, Bound::None)));
-        }
-        false
+        self.is_parsed
+            && !self.bound_sets.is_empty()
+            && !self.bound_sets.iter().any(is_bound_set_satisfiable)
     }
 }
diff --git a/crates/rez-next-version/src/range/parser.rs b/crates/rez-next-version/src/range/parser.rs
index 419e334..141a825 100644
--- a/crates/rez-next-version/src/range/parser.rs
+++ b/crates/rez-next-version/src/range/parser.rs
@@ -13,29 +13,6 @@ pub(super) fn parse_range_str(s: &str) -> Result<Vec<BoundSet>, RezCoreError> {
         return Ok(vec![BoundSet::none()]);
     }
 
-    // Handle rez ".." interval syntax: "1.0..2.0" = ">=1.0,<2.0"
-    // Note: must check before splitting on |
-    if s.contains("..") && !s.starts_with('.') {
-        // Only handle if it's a simple "a..b" form (no | or other operators in the whole string)
-        if let Some(dot_pos) = s.find("..") {
-            let left = &s[..dot_pos];
-            let right = &s[dot_pos + 2..];
-            // Both sides must look like version strings (not empty operators)
-            if !left.is_empty()
-                && !right.is_empty()
-                && !left.starts_with('>')
-                && !left.starts_with('<')
-                && !left.starts_with('=')
-                && !left.starts_with('!')
-                && !left.starts_with('~')
-            {
-                // "left..right" -> ">=left,<right"
-                let new_s = format!(">={},<{}", left.trim(), right.trim());
-                return parse_range_str(&new_s);
-            }
-        }
-    }
-
     // Split on | for OR (union)
     let or_parts: Vec<&str> = s.split('|').collect();
     let mut result = Vec::new();
@@ -54,6 +31,18 @@ pub(super) fn parse_conjunction(s: &str) -> Result<BoundSet, RezCoreError> {
     if s.is_empty() || s == "*" {
         return Ok(BoundSet::any());
     }
+    if s == "empty" || s == "!*" {
+        return Ok(BoundSet::none());
+    }
+
+    // Handle rez ".." interval syntax: "1.0..2.0" = ">=1.0,<2.0"
+    if let Some((left, right)) = s.split_once("..")
+        && !left.is_empty()
+        && !right.is_empty()
+        && !left.starts_with(['>', '<', '=', '!', '~'])
+    {
+        return parse_conjunction(&format!(">={},<{}", left.trim(), right.trim()));
+    }
 
     // Handle rez shorthand: "1.0+" = ">=1.0"
     // Handle rez shorthand: "1.0+<2.0" = ">=1.0,<2.0"
@@ -178,6 +167,9 @@ pub(super) fn parse_single_constraint(s: &str) -> Result<Bound, RezCoreError> {
     if s.is_empty() || s == "*" {
         return Ok(Bound::Any);
     }
+    if s == "!*" {
+        return Ok(Bound::None);
+    }
 
     // Try two-char operators first
     if let Some(rest) = s.strip_prefix(">=") {
diff --git a/crates/rez-next-version/src/range/satisfiability.rs b/crates/rez-next-version/src/range/satisfiability.rs
index df6dceb..8827fe3 100644
--- a/crates/rez-next-version/src/range/satisfiability.rs
+++ b/crates/rez-next-version/src/range/satisfiability.rs
@@ -1,193 +1,64 @@
 //! Satisfiability checking for version range `BoundSet`s.
 
 use super::super::Version;
-use super::types::{Bound, BoundSet};
+use super::types::{Bound, BoundSet, compatible_upper};
 
-/// Check if a single `BoundSet` is satisfiable (not trivially empty due to conflicting bounds)
+/// Check if a single `BoundSet` is satisfiable (some version matches all of its bounds)
 pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
-    // Check for None bounds
-    if bs.bounds.iter().any(|b| matches!(b, Bound::None)) {
-        return false;
+    // An exact bound leaves a single candidate
+    if let Some(v) = bs.bounds.iter().find_map(|b| match b {
+        Bound::Eq(v) => Some(v),
+        _ => None,
+    }) {
+        return bs.contains(v);
     }
-    // Extract lower and upper bounds to check for contradiction
-    let mut lower: Option<(&Version, bool)> = None; // (version, inclusive)
-    let mut upper: Option<(&Version, bool)> = None; // (version, inclusive)
+
+    // Most restrictive lower and upper bound: (version, inclusive)
+    let mut lower: Option<(Version, bool)> = None;
+    let mut upper: Option<(Version, bool)> = None;
+    let raise = |lower: &mut Option<(Version, bool)>, v: &Version, inclusive: bool| {
+        if lower
+            .as_ref()
+            .is_none_or(|(lv, linc)| v > lv || (v == lv && *linc))
+        {
+            *lower = Some((v.clone(), inclusive));
+        }
+    };
+    let reduce = |upper: &mut Option<(Version, bool)>, v: &Version, inclusive: bool| {
+        if upper
+            .as_ref()
+            .is_none_or(|(uv, uinc)| v < uv || (v == uv && *uinc))
+        {
+            *upper = Some((v.clone(), inclusive));
+        }
+    };
 
     for bound in &bs.bounds {
         match bound {
-            Bound::Any | Bound::Ne(_) | Bound::Compatible(_) => {}
+            Bound::Any | Bound::Ne(_) | Bound::Eq(_) => {}
             Bound::None => return false,
-            Bound::Ge(v) => match lower {
-                None => lower = Some((v, true)),
-                Some((lv, linc)) => {
-                    if v > lv || (v == lv && !linc) {
-                        lower = Some((v, true));
-                    }
-                }
-            },
-            Bound::Gt(v) => match lower {
-                None => lower = Some((v, false)),
-                Some((lv, _)) => {
-                    if v >= lv {
-                        lower = Some((v, false));
-                    }
-                }
-            },
-            Bound::Le(v) => match upper {
-                None => upper = Some((v, true)),
-                Some((uv, uinc)) => {
-                    if v < uv || (v == uv && !uinc) {
-                        upper = Some((v, true));
-                    }
-                }
-            },
-            Bound::Lt(v) => match upper {
-                None => upper = Some((v, false)),
-                Some((uv, _)) => {
-                    if v <= uv {
-                        upper = Some((v, false));
-                    }
-                }
-            },
-            Bound::Eq(v) => {
-                // Equality constraint acts as both lower and upper bound
-                match lower {
-                    None => lower = Some((v, true)),
-                    Some((lv, linc)) => {
-                        if v > lv || (v == lv && !linc) {
-                            lower = Some((v, true));
-                        } else if v < lv {
-                            // v must be >= lv but eq requires v exactly — contradiction
-                            return false;
-                        }
-                    }
-                }
-                match upper {
-                    None => upper = Some((v, true)),
-                    Some((uv, uinc)) => {
-                        if v < uv || (v == uv && !uinc) {
-                            upper = Some((v, true));
-                        } else if v > uv {
-                            return false;
-                        }
-                    }
+            Bound::Ge(v) => raise(&mut lower, v, true),
+            Bound::Gt(v) => raise(&mut lower, v, false),
+            Bound::Le(v) => reduce(&mut upper, v, true),
+            Bound::Lt(v) => reduce(&mut upper, v, false),
+            Bound::Compatible(v) => {
+                raise(&mut lower, v, true);
+                if let Some(u) = compatible_upper(v) {
+                    reduce(&mut upper, &u, false);
                 }
             }
         }
     }
 
     // Check if lower and upper bounds are compatible
-    if let (Some((lv, linc)), Some((uv, uinc))) = (lower, upper) {
-        match lv.cmp(uv) {
-            std::cmp::Ordering::Greater => return false,
-            std::cmp::Ordering::Equal => {
-                if !linc || !uinc {
-                    return false;
-                }
-            }
-            std::cmp::Ordering::Less => {}
-        }
-    }
-
-    true
-}
-
-/// Check if two `BoundSet`s can simultaneously be satisfied (have intersection)
-pub(super) fn bound_sets_intersect(a: &BoundSet, b: &BoundSet) -> bool {
-    // Quick check: if either is Any, they intersect
-    let a_any = a.bounds.iter().all(|bnd| matches!(bnd, Bound::Any));
-    let b_any = b.bounds.iter().all(|bnd| matches!(bnd, Bound::Any));
-    if a_any || b_any {
-        return true;
-    }
-
-    // Combine all bounds and check for structural impossibilities
-    let combined_bounds: Vec<&Bound> = a.bounds.iter().chain(b.bounds.iter()).collect();
-
-    // Check for obvious impossibilities: Eq(v) and Eq(w) where v != w
-    let eq_versions: Vec<&Version> = combined_bounds
-        .iter()
-        .filter_map(|b| if let Bound::Eq(v) = b { Some(v) } else { None })
-        .collect();
-    if eq_versions.len() > 1 {
-        let first = eq_versions[0];
-        if eq_versions.iter().any(|v| *v != first) {
-            return false;
-        }
+    match (lower, upper) {
+        (Some((lv, _)), Some((uv, _))) => match lv.cmp(&uv) {
+            std::cmp::Ordering::Greater => false,
+            // A single candidate is left: it must match every bound
+            std::cmp::Ordering::Equal => bs.contains(&lv),
+            // Between two different versions there is always another one
+            std::cmp::Ordering::Less => true,
+        },
+        _ => true,
     }
-
-    // Check Eq(v) against inequality bounds: Eq(v) ∩ Ge(w) = ∅ when v < w,
-    // Eq(v) ∩ Gt(w) = ∅ when v <= w, Eq(v) ∩ Le(w) = ∅ when v > w,
-    // Eq(v) ∩ Lt(w) = ∅ when v >= w.
-    for eq_v in &eq_versions {
-        for bound in &combined_bounds {
-            match bound {
-                Bound::Ge(w) if *eq_v < w => return false,
-                Bound::Gt(w) if *eq_v <= w => return false,
-                Bound::Le(w) if *eq_v > w => return false,
-                Bound::Lt(w) if *eq_v >= w => return false,
-                _ => {}
-            }
-        }
-    }
-
-    // Compute effective lower and upper bounds from combined set
-    // Lower bound: maximum of all lower bounds (most restrictive)
-    // Upper bound: minimum of all upper bounds (most restrictive)
-    let mut lower: Option<(&Version, bool)> = None; // (version, inclusive)
-    let mut upper: Option<(&Version, bool)> = None; // (version, inclusive)
-
-    for bound in &combined_bounds {
-        match bound {
-            Bound::Ge(v) => match lower {
-                None => lower = Some((v, true)),
-                Some((lv, linc)) => {
-                    if v > lv || (v == lv && !linc) {
-                        lower = Some((v, true));
-                    }
-                }
-            },
-            Bound::Gt(v) => match lower {
-                None => lower = Some((v, false)),
-                Some((lv, _linc)) => {
-                    if v >= lv {
-                        lower = Some((v, false));
-                    }
-                }
-            },
-            Bound::Le(v) => match upper {
-                None => upper = Some((v, true)),
-                Some((uv, uinc)) => {
-                    if v < uv || (v == uv && !uinc) {
-                        upper = Some((v, true));
-                    }
-                }
-            },
-            Bound::Lt(v) => match upper {
-                None => upper = Some((v, false)),
-                Some((uv, _uinc)) => {
-                    if v <= uv {
-                        upper = Some((v, false));
-                    }
-                }
-            },
-            _ => {}
-        }
-    }
-
-    // Check if lower bound and upper bound are compatible
-    if let (Some((lv, linc)), Some((uv, uinc))) = (lower, upper) {
-        match lv.cmp(uv) {
-            std::cmp::Ordering::Greater => return false,
-            std::cmp::Ordering::Equal => {
-                // Equal bounds only feasible if both inclusive
-                if !linc || !uinc {
-                    return false;
-                }
-            }
-            std::cmp::Ordering::Less => {} // feasible
-        }
-    }
-
-    true
 }
diff --git a/crates/rez-next-version/src/range/types.rs b/crates/rez-next-version/src/range/types.rs
index 4423ba0..d60b1a6 100644
--- a/crates/rez-next-version/src/range/types.rs
+++ b/crates/rez-next-version/src/range/types.rs
@@ -64,39 +64,67 @@ pub(super) fn bound_matches(bound: &Bound, version: &Version) -> bool {
         Bound::Lt(v) => version < v,
         Bound::Eq(v) => version == v,
         Bound::Ne(v) => version != v,
-        Bound::Compatible(v) => {
-            // ~=v means >=v AND <upper_bound(v) (PEP 440 / rez semantics)
-            // For 2 segments: ~=X.Y -> >=X.Y,<(X+1).0
-            // For 3+ segments: ~=X.Y.Z -> >=X.Y.Z,<X.(Y+1).0
-            if version < v {
-                return false; // Must be >= v (lower bound)
-            }
-            let parts: Vec<&str> = v.as_str().split('.').collect();
-            if parts.len() < 2 {
-                return version >= v;
-            }
-            // Calculate upper bound
-            let upper_str = if parts.len() == 2 {
-                // X.Y -> (X+1).0
-                if let Ok(x) = parts[0].parse::<u64>() {
-                    format!("{}.0", x + 1)
-                } else {
-                    return true;
-                }
-            } else {
-                // X.Y.Z... -> X.(Y+1).0
-                if let Ok(y) = parts[1].parse::<u64>() {
-                    format!("{}.{}.0", parts[0], y + 1)
-                } else {
-                    return true;
-                }
-            };
-            if let Ok(upper) = Version::parse(&upper_str) {
-                version < &upper
-            } else {
-                // Fallback: just check >= v
-                version >= v
+        Bound::Compatible(v) => version >= v && compatible_upper(v).is_none_or(|u| version < &u),
+    }
+}
+
+/// Exclusive upper bound of `~=v` (PEP 440 / rez semantics), if it has one:
+/// for 2 segments `~=X.Y` -> `>=X.Y,<(X+1).0`, for 3+ segments `~=X.Y.Z` -> `>=X.Y.Z,<X.(Y+1).0`.
+pub(super) fn compatible_upper(v: &Version) -> Option<Version> {
+    let parts: Vec<&str> = v.as_str().split('.').collect();
+    let upper = match parts.len() {
+        0 | 1 => return None,
+        2 => format!("{}.0", parts[0].parse::<u64>().ok()?.checked_add(1)?),
+        _ => format!(
+            "{}.{}.0",
+            parts[0],
+            parts[1].parse::<u64>().ok()?.checked_add(1)?
+        ),
+    };
+    Version::parse(&upper).ok()
+}
+
+/// Bounds whose disjunction matches exactly the versions `bound` does not match.
+pub(super) fn complement(bound: &Bound) -> Vec<Bound> {
+    match bound {
+        Bound::Any => vec![Bound::None],
+        Bound::None => vec![Bound::Any],
+        Bound::Ge(v) => vec![Bound::Lt(v.clone())],
+        Bound::Gt(v) => vec![Bound::Le(v.clone())],
+        Bound::Le(v) => vec![Bound::Gt(v.clone())],
+        Bound::Lt(v) => vec![Bound::Ge(v.clone())],
+        Bound::Eq(v) => vec![Bound::Ne(v.clone())],
+        Bound::Ne(v) => vec![Bound::Eq(v.clone())],
+        Bound::Compatible(v) => std::iter::once(Bound::Lt(v.clone()))
+            .chain(compatible_upper(v).map(Bound::Ge))
+            .collect(),
+    }
+}
+
+impl std::fmt::Display for Bound {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Bound::Ge(v) => write!(f, ">={v}"),
+            Bound::Gt(v) => write!(f, ">{v}"),
+            Bound::Le(v) => write!(f, "<={v}"),
+            Bound::Lt(v) => write!(f, "<{v}"),
+            Bound::Eq(v) => write!(f, "=={v}"),
+            Bound::Ne(v) => write!(f, "!={v}"),
+            Bound::Compatible(v) => write!(f, "~={v}"),
+            Bound::Any => write!(f, "*"),
+            Bound::None => write!(f, "!*"),
+        }
+    }
+}
+
+impl std::fmt::Display for BoundSet {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        for (i, bound) in self.bounds.iter().enumerate() {
+            if i > 0 {
+                write!(f, ",")?;
             }
+            write!(f, "{bound}")?;
         }
+        Ok(())
     }
 }
-- 
2.43.0


From fab5e73f68016888f1d2229c97ccbda35f0b133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:02 +0000
Subject: [PATCH 03/26] fix: keep version constraints through requirement
 parsing, printing and matching (!=, operators after a name, rez shorthands,
 arch conditions, token order)

---
 .../src/package/requirement.rs                | 19 ++++++++++--
 .../src/requirement/display.rs                |  1 +
 .../src/requirement/parser.rs                 | 31 +++++++++----------
 .../rez-next-package/src/requirement/types.rs | 27 +---------------
 crates/rez-next-solver/src/solver.rs          |  7 ++---
 crates/rez-next-version/src/version.rs        | 11 +++++++
 6 files changed, 47 insertions(+), 49 deletions(-)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index cdb92cd..d1ee85b 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -22,7 +22,13 @@ pub struct PackageRequirement {
 impl std::fmt::Display for PackageRequirement {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let base = if let Some(ref version) = self.version_spec {
-            format!("{}-{}", self.name, version)
+            // An operator follows the name directly, a plain version is separated by a dash
+            let separator = if version.trim_start().starts_with(['=', '!', '<', '>', '~']) {
+                ""
+            } else {
+                "-"
+            };
+            format!("{}{}{}", self.name, separator, version)
         } else {
             self.name.clone()
         };
@@ -83,8 +89,9 @@ impl PackageRequirement {
             (s, false)
         };
 
+        let s = s.trim();
         let parsed: ParsedRequirement = s.parse().map_err(RezCoreError::RequirementParse)?;
-        let remainder = &s[parsed.name.len()..];
+        let remainder = &s[parsed.qualified_name().len()..];
         let version_spec = remainder.strip_prefix('-').unwrap_or(remainder);
         let mut req = if version_spec.is_empty() {
             Self::new(parsed.name)
@@ -148,6 +155,14 @@ impl PackageRequirement {
         } else if let Some(rest) = spec.strip_prefix('<') {
             ("<", rest)
         } else {
+            // Same meaning as in a requirement string: "3", "3.7+", "3.7+<4", "3.7..4"
+            if let Ok(ParsedRequirement {
+                version_constraint: Some(constraint),
+                ..
+            }) = format!("package-{spec}").parse()
+            {
+                return constraint.is_satisfied_by(version);
+            }
             if let Ok(range) = VersionRange::parse(spec) {
                 return range.contains(version);
             }
diff --git a/crates/rez-next-package/src/requirement/display.rs b/crates/rez-next-package/src/requirement/display.rs
index 9b41d13..d4931b7 100644
--- a/crates/rez-next-package/src/requirement/display.rs
+++ b/crates/rez-next-package/src/requirement/display.rs
@@ -48,6 +48,7 @@ impl fmt::Display for EnvCondition {
         let op = if self.negate { "!=" } else { "==" };
         match &self.expected_value {
             Some(value) => write!(f, "env.{}{}'{}'", self.var_name, op, value),
+            None if self.negate => write!(f, "env.{}!=None", self.var_name),
             None => write!(f, "env.{}", self.var_name),
         }
     }
diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index c32b5e0..4d16613 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -106,21 +106,10 @@ impl RequirementParser {
             let platform =
                 condition[platform_start + 1..platform_start + 1 + platform_end].to_string();
 
-            let arch = if condition.contains("arch") {
-                if let Some(arch_start) = condition.rfind('\'') {
-                    if arch_start > platform_start + 1 + platform_end {
-                        condition[arch_start + 1..].find('\'').map(|arch_end| {
-                            condition[arch_start + 1..arch_start + 1 + arch_end].to_string()
-                        })
-                    } else {
-                        None
-                    }
-                } else {
-                    None
-                }
-            } else {
-                None
-            };
+            let arch = condition[platform_start + 1 + platform_end..]
+                .split_once("arch")
+                .and_then(|(_, rest)| rest.split('\'').nth(1))
+                .map(ToString::to_string);
 
             return Ok(PlatformCondition {
                 platform,
@@ -201,6 +190,7 @@ impl RequirementParser {
 
             let constraint = match op {
                 "==" => VersionConstraint::Exact(version),
+                "!=" => VersionConstraint::Exclude(vec![version]),
                 ">" => VersionConstraint::GreaterThan(version),
                 ">=" => VersionConstraint::GreaterThanOrEqual(version),
                 "<" => VersionConstraint::LessThan(version),
@@ -237,6 +227,12 @@ impl RequirementParser {
             }
         }
 
+        // What is left is a bare package name: an operator here is a constraint nothing above
+        // understood, and must not be dropped by treating it as part of the name
+        if s.contains(['=', '<', '>', '|', '!', ',']) {
+            return Err(format!("Invalid requirement: {}", s));
+        }
+
         Ok((s.to_string(), None))
     }
 
@@ -307,7 +303,7 @@ impl RequirementParser {
     /// Parse a single version constraint
     fn parse_single_constraint(&self, constraint_str: &str) -> Result<VersionConstraint, String> {
         let constraint_str = constraint_str.trim();
-        let version_pattern = Regex::new(r"^(==|>=|<=|>|<|~=)(.+)$").unwrap();
+        let version_pattern = Regex::new(r"^(==|!=|>=|<=|>|<|~=)(.+)$").unwrap();
 
         if let Some(captures) = version_pattern.captures(constraint_str) {
             let op = captures.get(1).unwrap().as_str();
@@ -317,6 +313,7 @@ impl RequirementParser {
 
             match op {
                 "==" => Ok(VersionConstraint::Exact(version)),
+                "!=" => Ok(VersionConstraint::Exclude(vec![version])),
                 ">" => Ok(VersionConstraint::GreaterThan(version)),
                 ">=" => Ok(VersionConstraint::GreaterThanOrEqual(version)),
                 "<" => Ok(VersionConstraint::LessThan(version)),
@@ -333,7 +330,7 @@ impl RequirementParser {
 impl RequirementPatterns {
     fn new() -> Self {
         Self {
-            basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|>=|<=|>|<|~=)(.+)$").unwrap(),
+            basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|!=|>=|<=|>|<|~=)(.+)$").unwrap(),
             namespace: Regex::new(r"^([a-zA-Z0-9_\-\.]+)::([a-zA-Z0-9_\-\.]+.*)$").unwrap(),
             wildcard: Regex::new(r"^([a-zA-Z0-9_\-\.]+)==(.+\*.*)$").unwrap(),
         }
diff --git a/crates/rez-next-package/src/requirement/types.rs b/crates/rez-next-package/src/requirement/types.rs
index 90c1d2f..d527764 100644
--- a/crates/rez-next-package/src/requirement/types.rs
+++ b/crates/rez-next-package/src/requirement/types.rs
@@ -326,32 +326,7 @@ impl VersionConstraint {
     /// Rez semantics: constraints with fewer tokens are compared only at the token depth
     /// of the constraint.
     pub fn cmp_at_depth(version: &Version, constraint_ver: &Version) -> std::cmp::Ordering {
-        let ver_str = version.as_str();
-        let con_str = constraint_ver.as_str();
-
-        let ver_parts: Vec<&str> = ver_str.split('.').collect();
-        let con_parts: Vec<&str> = con_str.split('.').collect();
-
-        let depth = con_parts.len();
-
-        for (v_tok, c_tok) in ver_parts.iter().zip(con_parts.iter()).take(depth) {
-            let v_tok = *v_tok;
-            let c_tok = *c_tok;
-
-            if let (Ok(vn), Ok(cn)) = (v_tok.parse::<u64>(), c_tok.parse::<u64>()) {
-                match vn.cmp(&cn) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            } else {
-                match v_tok.cmp(c_tok) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            }
-        }
-
-        std::cmp::Ordering::Equal
+        version.cmp_common_tokens(constraint_ver)
     }
 
     /// Combine two constraints with AND logic
diff --git a/crates/rez-next-solver/src/solver.rs b/crates/rez-next-solver/src/solver.rs
index 020c9d2..cc4cf6a 100644
--- a/crates/rez-next-solver/src/solver.rs
+++ b/crates/rez-next-solver/src/solver.rs
@@ -212,12 +212,11 @@ impl DependencySolver {
                 .requirements
                 .into_iter()
                 .map(|pr| {
-                    let req_str = pr.to_string();
-                    req_str
+                    pr.to_string()
                         .parse::<Requirement>()
-                        .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+                        .map_err(RezCoreError::RequirementParse)
                 })
-                .collect();
+                .collect::<Result<_, _>>()?;
 
             let mut resolver =
                 DependencyResolver::new(Arc::clone(repo_manager), self.config.clone());
diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index 8170fb5..30fe28d 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -59,6 +59,17 @@ impl Version {
         &self.string_repr
     }
 
+    /// Compare only the leading tokens both versions have (`3.11.0` and `3` compare equal).
+    #[must_use]
+    pub fn cmp_common_tokens(&self, other: &Version) -> Ordering {
+        self.tokens
+            .iter()
+            .zip(&other.tokens)
+            .map(|(t1, t2)| Self::compare_single_token(t1, t2))
+            .find(|o| *o != Ordering::Equal)
+            .unwrap_or(Ordering::Equal)
+    }
+
     /// Return whether this version begins with every token in `prefix`.
     pub fn has_prefix(&self, prefix: &Version) -> bool {
         self.tokens.len() >= prefix.tokens.len()
-- 
2.43.0


From 8f3ba65169f5bf7794581725171cb91c982379ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:56 +0000
Subject: [PATCH 04/26] fix: give a version spec one meaning in package
 requirements and requirement strings, refuse empty versions and operators
 inside names

---
 .../src/package/requirement.rs                | 19 +++++----
 .../src/requirement/parser.rs                 | 42 +++++++++++++------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index d1ee85b..b9e049d 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -125,6 +125,17 @@ impl PackageRequirement {
             if spec.is_empty() {
                 return true;
             }
+            // A spec means the same as in a requirement string
+            let text = Self::with_version("package".to_string(), spec.to_string()).to_string();
+            if let Ok(ParsedRequirement {
+                name,
+                version_constraint: Some(constraint),
+                ..
+            }) = text.parse()
+                && name == "package"
+            {
+                return constraint.is_satisfied_by(version);
+            }
             if spec.contains(',') {
                 return spec
                     .split(',')
@@ -155,14 +166,6 @@ impl PackageRequirement {
         } else if let Some(rest) = spec.strip_prefix('<') {
             ("<", rest)
         } else {
-            // Same meaning as in a requirement string: "3", "3.7+", "3.7+<4", "3.7..4"
-            if let Ok(ParsedRequirement {
-                version_constraint: Some(constraint),
-                ..
-            }) = format!("package-{spec}").parse()
-            {
-                return constraint.is_satisfied_by(version);
-            }
             if let Ok(range) = VersionRange::parse(spec) {
                 return range.contains(version);
             }
diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index 4d16613..2e4c122 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -1,5 +1,7 @@
 //! Requirement string parser.
 
+use std::sync::LazyLock;
+
 use regex::Regex;
 use rez_next_version::Version;
 
@@ -7,21 +9,25 @@ use super::types::{EnvCondition, PlatformCondition, Requirement, VersionConstrai
 
 /// Advanced requirement parser
 pub struct RequirementParser {
-    patterns: RequirementPatterns,
+    patterns: &'static RequirementPatterns,
 }
 
+/// Patterns are compiled once and shared by every parser
+static PATTERNS: LazyLock<RequirementPatterns> = LazyLock::new(RequirementPatterns::new);
+
 /// Compiled regex patterns for requirement parsing
 struct RequirementPatterns {
     basic_version: Regex,
     namespace: Regex,
     wildcard: Regex,
+    single: Regex,
 }
 
 impl RequirementParser {
     /// Create a new requirement parser
     pub fn new() -> Self {
         Self {
-            patterns: RequirementPatterns::new(),
+            patterns: &PATTERNS,
         }
     }
 
@@ -52,6 +58,12 @@ impl RequirementParser {
         let (remaining_str, platform_conditions, env_conditions) = self.parse_conditions(s)?;
         let (name, version_constraint) = self.parse_name_and_version(&remaining_str)?;
 
+        // An operator in the name is a constraint that was not understood, and must not be
+        // dropped by treating it as part of the name
+        if name.contains(['=', '<', '>', '|', '!', ',', '~']) {
+            return Err(format!("Invalid requirement: {}", s));
+        }
+
         Ok(Requirement {
             name,
             version_constraint,
@@ -208,7 +220,7 @@ impl RequirementParser {
         {
             let name = without_plus[..dash_pos].to_string();
             let version_str = &without_plus[dash_pos + 1..];
-            if Version::parse(version_str).is_ok() {
+            if !version_str.is_empty() && Version::parse(version_str).is_ok() {
                 let version = Version::parse(version_str)
                     .map_err(|e| format!("Invalid version {}: {}", version_str, e))?;
                 return Ok((name, Some(VersionConstraint::GreaterThanOrEqual(version))));
@@ -227,12 +239,6 @@ impl RequirementParser {
             }
         }
 
-        // What is left is a bare package name: an operator here is a constraint nothing above
-        // understood, and must not be dropped by treating it as part of the name
-        if s.contains(['=', '<', '>', '|', '!', ',']) {
-            return Err(format!("Invalid requirement: {}", s));
-        }
-
         Ok((s.to_string(), None))
     }
 
@@ -259,7 +265,10 @@ impl RequirementParser {
         if let Some(dot_pos) = spec.find("..") {
             let min_str = &spec[..dot_pos];
             let max_str = &spec[dot_pos + 2..];
-            if let (Ok(min), Ok(max)) = (Version::parse(min_str), Version::parse(max_str)) {
+            if !min_str.is_empty()
+                && !max_str.is_empty()
+                && let (Ok(min), Ok(max)) = (Version::parse(min_str), Version::parse(max_str))
+            {
                 return Some(VersionConstraint::Multiple(vec![
                     VersionConstraint::GreaterThanOrEqual(min),
                     VersionConstraint::LessThan(max),
@@ -275,6 +284,9 @@ impl RequirementParser {
             (spec.trim_end_matches('+'), None)
         };
 
+        if base_spec.is_empty() && upper_spec.is_none() {
+            return None;
+        }
         let min_ver = Version::parse(base_spec).ok()?;
 
         if let Some(upper) = upper_spec {
@@ -283,12 +295,18 @@ impl RequirementParser {
             } else {
                 ("<", upper[1..].trim())
             };
+            if ver_str.is_empty() {
+                return None;
+            }
             let max_ver = Version::parse(ver_str).ok()?;
             let max_constraint = if op == "<=" {
                 VersionConstraint::LessThanOrEqual(max_ver)
             } else {
                 VersionConstraint::LessThan(max_ver)
             };
+            if base_spec.is_empty() {
+                return Some(max_constraint);
+            }
             Some(VersionConstraint::Multiple(vec![
                 VersionConstraint::GreaterThanOrEqual(min_ver),
                 max_constraint,
@@ -303,9 +321,8 @@ impl RequirementParser {
     /// Parse a single version constraint
     fn parse_single_constraint(&self, constraint_str: &str) -> Result<VersionConstraint, String> {
         let constraint_str = constraint_str.trim();
-        let version_pattern = Regex::new(r"^(==|!=|>=|<=|>|<|~=)(.+)$").unwrap();
 
-        if let Some(captures) = version_pattern.captures(constraint_str) {
+        if let Some(captures) = self.patterns.single.captures(constraint_str) {
             let op = captures.get(1).unwrap().as_str();
             let version_str = captures.get(2).unwrap().as_str();
             let version = Version::parse(version_str)
@@ -333,6 +350,7 @@ impl RequirementPatterns {
             basic_version: Regex::new(r"^([a-zA-Z0-9_\-\.]+)(==|!=|>=|<=|>|<|~=)(.+)$").unwrap(),
             namespace: Regex::new(r"^([a-zA-Z0-9_\-\.]+)::([a-zA-Z0-9_\-\.]+.*)$").unwrap(),
             wildcard: Regex::new(r"^([a-zA-Z0-9_\-\.]+)==(.+\*.*)$").unwrap(),
+            single: Regex::new(r"^(==|!=|>=|<=|>|<|~=)(.+)$").unwrap(),
         }
     }
 }
-- 
2.43.0


From 84654679ce2fdd394c2659f7c335db81acd6c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:26 +0000
Subject: [PATCH 05/26] fix: strict resolves never return packages that violate
 a learnt conflict, find a solution when one exists, and terminate

---
 .../src/dependency_resolver.rs                | 246 +++++++++++++-----
 .../rez-next-solver/src/resolution_state.rs   |  32 ++-
 2 files changed, 207 insertions(+), 71 deletions(-)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 9bb4007..a2d5431 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -7,7 +7,9 @@ use rez_next_package::{Package, Requirement, VersionConstraint};
 use rez_next_repository::simple_repository::RepositoryManager;
 use rez_next_version::Version;
 use std::collections::HashMap;
+use std::future::Future;
 use std::path::PathBuf;
+use std::pin::Pin;
 use std::sync::Arc;
 
 /// A dependency resolver that finds compatible package combinations
@@ -134,7 +136,19 @@ impl DependencyResolver {
         let mut resolution_state = ResolutionState::new(requirements.clone());
 
         // Perform resolution
-        let result = self.resolve_recursive(&mut resolution_state).await?;
+        self.resolve_recursive(&mut resolution_state).await?;
+
+        // The pass above commits to one candidate at a time and cannot revisit every choice:
+        // where it ends without a solution, look for one systematically.
+        if self.config.strict_mode && !resolution_state.is_solved() {
+            let mut attempts = self.config.max_attempts;
+            if let Some(solved) = self
+                .search(ResolutionState::new(requirements), &mut attempts)
+                .await?
+            {
+                resolution_state = solved;
+            }
+        }
 
         // Check for cyclic dependencies after full resolution
         if let Some(cycle) = resolution_state.detect_cycle() {
@@ -155,7 +169,7 @@ impl DependencyResolver {
         };
 
         let failed_requirements = std::mem::take(&mut resolution_state.failed_requirements);
-        let failed: Vec<_> = failed_requirements
+        let mut failed: Vec<_> = failed_requirements
             .into_iter()
             .filter(|requirement| {
                 resolution_state.is_requirement_active(requirement)
@@ -164,6 +178,8 @@ impl DependencyResolver {
                         .is_none()
             })
             .collect();
+        // A conflict learnt after the package it names had been chosen
+        failed.extend(resolution_state.violated_conflicts());
 
         // Strict mode: any unsatisfied requirement is a hard error
         if self.config.strict_mode && !failed.is_empty() {
@@ -175,7 +191,7 @@ impl DependencyResolver {
         }
 
         Ok(DetailedResolutionResult {
-            resolved_packages: result,
+            resolved_packages: resolution_state.resolved_packages,
             failed_requirements: failed,
             conflicts: resolution_state.conflicts,
             stats,
@@ -183,10 +199,9 @@ impl DependencyResolver {
     }
 
     /// Recursive resolution implementation
-    async fn resolve_recursive(
-        &mut self,
-        state: &mut ResolutionState,
-    ) -> Result<Vec<ResolvedPackageInfo>, RezCoreError> {
+    async fn resolve_recursive(&mut self, state: &mut ResolutionState) -> Result<(), RezCoreError> {
+        let mut replacements = 0;
+
         // Get next requirement to resolve
         while let Some(requirement) = state.get_next_requirement() {
             // Check if we already have a package that satisfies this requirement
@@ -215,6 +230,12 @@ impl DependencyResolver {
                 .iter()
                 .any(|resolved| resolved.package.name == requirement.name);
 
+            // Packages whose choices exclude each other would replace one another forever
+            if has_resolved_package && replacements >= self.config.max_attempts {
+                state.failed_requirements.push(requirement);
+                continue;
+            }
+
             if candidates.is_empty() {
                 state.failed_requirements.push(requirement.clone());
                 continue;
@@ -251,6 +272,10 @@ impl DependencyResolver {
                 }
             }
 
+            if resolved && has_resolved_package {
+                replacements += 1;
+            }
+
             if !resolved
                 && !self.config.strict_mode
                 && !has_resolved_package
@@ -279,7 +304,76 @@ impl DependencyResolver {
             }
         }
 
-        Ok(state.resolved_packages.clone())
+        Ok(())
+    }
+
+    /// Search candidates and variants depth first, in order of preference, for a complete
+    /// solution. Gives up after the configured number of attempts.
+    fn search<'a>(
+        &'a mut self,
+        mut state: ResolutionState,
+        attempts: &'a mut usize,
+    ) -> Pin<Box<dyn Future<Output = Result<Option<ResolutionState>, RezCoreError>> + Send + 'a>>
+    {
+        Box::pin(async move {
+            while let Some(requirement) = state.get_next_requirement() {
+                if state.find_satisfying_package(&requirement).is_some() {
+                    continue;
+                }
+                if state
+                    .resolved_packages
+                    .iter()
+                    .any(|resolved| resolved.package.name == requirement.name)
+                {
+                    return Ok(None);
+                }
+                if requirement.weak {
+                    continue;
+                }
+
+                for candidate in self.find_candidate_packages(&requirement).await? {
+                    state.packages_considered += 1;
+                    if state.check_conflicts(&candidate, &requirement).is_some() {
+                        continue;
+                    }
+                    let variants = if candidate.variants.is_empty() {
+                        vec![None]
+                    } else {
+                        let ranked = self.rank_variants(&candidate, &state);
+                        ranked.into_iter().map(Some).collect()
+                    };
+                    for variant_index in variants {
+                        if *attempts == 0 {
+                            return Ok(None);
+                        }
+                        *attempts -= 1;
+                        state.variants_evaluated += 1;
+                        let Ok((resolved_info, dependencies, conflicts)) =
+                            self.resolve_candidate(&state, &candidate, variant_index, &requirement)
+                        else {
+                            continue;
+                        };
+                        let mut next = state.clone();
+                        next.add_resolved_package(resolved_info);
+                        next.set_package_requirements(
+                            candidate.name.clone(),
+                            dependencies,
+                            conflicts,
+                        );
+                        if !next.violated_conflicts().is_empty() {
+                            continue;
+                        }
+                        if let Some(solved) = self.search(next, attempts).await? {
+                            return Ok(Some(solved));
+                        }
+                        state.backtrack_steps += 1;
+                    }
+                }
+                return Ok(None);
+            }
+
+            Ok((state.is_solved() && state.detect_cycle().is_none()).then_some(state))
+        })
     }
 
     async fn backtrack_dependency_source(
@@ -468,6 +562,18 @@ impl DependencyResolver {
             )));
         }
 
+        self.resolve_candidate(state, candidate, variant_index, requirement)
+    }
+
+    /// Describe a candidate with a given variant as a resolved package, with the requirements
+    /// and conflicts it brings into the solve
+    fn resolve_candidate(
+        &self,
+        state: &ResolutionState,
+        candidate: &Arc<Package>,
+        variant_index: Option<usize>,
+        requirement: &Requirement,
+    ) -> Result<(ResolvedPackageInfo, Vec<Requirement>, Vec<Requirement>), RezCoreError> {
         // Get the effective requires list (base + variant-specific)
         let effective_requires = self.get_effective_requires(candidate, variant_index);
 
@@ -502,71 +608,71 @@ impl DependencyResolver {
 
     /// Select the best variant for a package given current resolution state
     fn select_variant(&self, package: &Package, state: &ResolutionState) -> Option<usize> {
-        if package.variants.is_empty() {
-            return None;
-        }
+        self.rank_variants(package, state).into_iter().next()
+    }
 
-        package
-            .variants
-            .iter()
-            .enumerate()
-            .filter(|(_, requirements)| self.variant_is_compatible(requirements, state))
-            .max_by_key(|(index, requirements)| {
-                let positive: Vec<_> = requirements
-                    .iter()
-                    .filter_map(|raw| Self::parse_variant_requirement(raw).ok())
-                    .filter(|(conflict, _)| !conflict)
-                    .map(|(_, requirement)| requirement)
-                    .collect();
-                let resolved_matches = positive
-                    .iter()
-                    .filter(|requirement| {
-                        state.resolved_packages.iter().any(|resolved| {
-                            resolved.package.name == requirement.name
-                                && resolved
-                                    .package
-                                    .version
-                                    .as_ref()
-                                    .is_some_and(|version| requirement.is_satisfied_by(version))
-                        })
-                    })
-                    .count();
-                let shared = positive
-                    .iter()
-                    .filter(|requirement| {
-                        state
-                            .original_requirements
-                            .iter()
-                            .any(|original| original.name == requirement.name)
-                    })
-                    .count();
-                let resolved_version_priority: Vec<_> = positive
-                    .iter()
-                    .filter(|requirement| {
-                        state
-                            .resolved_packages
-                            .iter()
-                            .any(|resolved| resolved.package.name == requirement.name)
-                    })
-                    .map(|requirement| {
-                        (
-                            requirement
-                                .version_constraint
+    /// Compatible variants of a package, best first
+    fn rank_variants(&self, package: &Package, state: &ResolutionState) -> Vec<usize> {
+        let mut compatible: Vec<usize> = (0..package.variants.len())
+            .filter(|index| self.variant_is_compatible(&package.variants[*index], state))
+            .collect();
+        compatible.sort_by_cached_key(|index| {
+            let requirements = &package.variants[*index];
+            let positive: Vec<_> = requirements
+                .iter()
+                .filter_map(|raw| Self::parse_variant_requirement(raw).ok())
+                .filter(|(conflict, _)| !conflict)
+                .map(|(_, requirement)| requirement)
+                .collect();
+            let resolved_matches = positive
+                .iter()
+                .filter(|requirement| {
+                    state.resolved_packages.iter().any(|resolved| {
+                        resolved.package.name == requirement.name
+                            && resolved
+                                .package
+                                .version
                                 .as_ref()
-                                .and_then(Self::constraint_version_floor),
-                            requirement.name.clone(),
-                        )
+                                .is_some_and(|version| requirement.is_satisfied_by(version))
                     })
-                    .collect();
-                (
-                    resolved_matches,
-                    shared,
-                    std::cmp::Reverse(positive.len()),
-                    resolved_version_priority,
-                    std::cmp::Reverse(*index),
-                )
-            })
-            .map(|(index, _)| index)
+                })
+                .count();
+            let shared = positive
+                .iter()
+                .filter(|requirement| {
+                    state
+                        .original_requirements
+                        .iter()
+                        .any(|original| original.name == requirement.name)
+                })
+                .count();
+            let resolved_version_priority: Vec<_> = positive
+                .iter()
+                .filter(|requirement| {
+                    state
+                        .resolved_packages
+                        .iter()
+                        .any(|resolved| resolved.package.name == requirement.name)
+                })
+                .map(|requirement| {
+                    (
+                        requirement
+                            .version_constraint
+                            .as_ref()
+                            .and_then(Self::constraint_version_floor),
+                        requirement.name.clone(),
+                    )
+                })
+                .collect();
+            std::cmp::Reverse((
+                resolved_matches,
+                shared,
+                std::cmp::Reverse(positive.len()),
+                resolved_version_priority,
+                std::cmp::Reverse(*index),
+            ))
+        });
+        compatible
     }
 
     fn constraint_version_floor(constraint: &VersionConstraint) -> Option<Version> {
diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index 638fda0..589b14f 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -9,7 +9,7 @@ use rez_next_version::Version;
 use std::sync::Arc;
 
 /// Internal state for the resolution process
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub(crate) struct ResolutionState {
     /// Original requirements to resolve
     pub(crate) original_requirements: Vec<Requirement>,
@@ -358,6 +358,36 @@ impl ResolutionState {
             })
     }
 
+    /// Conflict requirements that a chosen package runs into
+    pub(crate) fn violated_conflicts(&self) -> Vec<Requirement> {
+        self.conflict_requirements
+            .iter()
+            .filter(|conflict| self.find_satisfying_package(conflict).is_some())
+            .cloned()
+            .map(|mut conflict| {
+                conflict.conflict = true;
+                conflict
+            })
+            .collect()
+    }
+
+    /// Whether the chosen packages satisfy every active requirement and conflict
+    pub(crate) fn is_solved(&self) -> bool {
+        self.violated_conflicts().is_empty()
+            && self
+                .active_requirements
+                .values()
+                .flatten()
+                .all(|requirement| {
+                    self.find_satisfying_package(requirement).is_some()
+                        || (requirement.weak
+                            && !self
+                                .resolved_packages
+                                .iter()
+                                .any(|resolved| resolved.package.name == requirement.name))
+                })
+    }
+
     pub(crate) fn add_resolved_package(&mut self, package: ResolvedPackageInfo) {
         if let Some(existing) = self
             .resolved_packages
-- 
2.43.0


From d395f5c5b6a1ecff556e3ac0185096d2095a6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:26 +0000
Subject: [PATCH 06/26] fix: honour constraints and excludes of a solver
 request

---
 crates/rez-next-solver/src/solver.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/rez-next-solver/src/solver.rs b/crates/rez-next-solver/src/solver.rs
index cc4cf6a..950f3e3 100644
--- a/crates/rez-next-solver/src/solver.rs
+++ b/crates/rez-next-solver/src/solver.rs
@@ -208,9 +208,21 @@ impl DependencySolver {
                 .map_err(|e| RezCoreError::Solver(format!("Failed to create runtime: {}", e)))?;
 
             // Convert PackageRequirement -> Requirement via string parsing
+            // Constraints restrict a package without bringing it in; excluded packages conflict
+            let constraints = request.constraints.into_iter().map(|mut constraint| {
+                constraint.weak = !constraint.conflict;
+                constraint
+            });
+            let excludes = request.excludes.into_iter().map(|name| {
+                let mut exclude = PackageRequirement::new(name);
+                exclude.conflict = true;
+                exclude
+            });
             let requirements: Vec<Requirement> = request
                 .requirements
                 .into_iter()
+                .chain(constraints)
+                .chain(excludes)
                 .map(|pr| {
                     pr.to_string()
                         .parse::<Requirement>()
-- 
2.43.0


From 8dfa040ba2bffc04cfa7538d4763888f950ec9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:39 +0000
Subject: [PATCH 07/26] fix: repository lookups no longer depend on earlier
 lookups (broken families, rescans, same-mtime edits) and pick the latest
 version over all repositories

---
 crates/rez-next-repository/src/filesystem.rs  | 16 ++++++-----
 .../src/high_performance_scanner.rs           | 27 ++++++++++++-------
 .../src/simple_repository.rs                  | 23 +++++++++++-----
 3 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/crates/rez-next-repository/src/filesystem.rs b/crates/rez-next-repository/src/filesystem.rs
index 5e6d6ff..951f20c 100644
--- a/crates/rez-next-repository/src/filesystem.rs
+++ b/crates/rez-next-repository/src/filesystem.rs
@@ -187,15 +187,15 @@ impl Repository for FileSystemRepository {
                     results.push(package.clone());
                 }
 
-                // Check limit
-                if let Some(limit) = criteria.limit
-                    && results.len() >= limit
-                {
-                    return Ok(results);
-                }
             }
         }
 
+        // By name, latest version first; the limit applies to that order
+        results.sort_by(|a, b| a.name.cmp(&b.name).then_with(|| b.version.cmp(&a.version)));
+        if let Some(limit) = criteria.limit {
+            results.truncate(limit);
+        }
+
         Ok(results)
     }
 
@@ -460,7 +460,9 @@ impl FileSystemRepository {
         }
 
         // Simple wildcard matching (supports * and ?)
-        let regex_pattern = pattern.replace("*", ".*").replace("?", ".");
+        let regex_pattern = regex::escape(pattern)
+            .replace(r"\*", ".*")
+            .replace(r"\?", ".");
 
         if let Ok(regex) = regex::Regex::new(&format!("^{}$", regex_pattern)) {
             regex.is_match(text)
diff --git a/crates/rez-next-repository/src/high_performance_scanner.rs b/crates/rez-next-repository/src/high_performance_scanner.rs
index bea18d0..f047e13 100644
--- a/crates/rez-next-repository/src/high_performance_scanner.rs
+++ b/crates/rez-next-repository/src/high_performance_scanner.rs
@@ -59,6 +59,7 @@ impl Default for HighPerformanceConfig {
 #[derive(Debug, Clone)]
 struct AdvancedCacheEntry {
     result: PackageScanResult,
+    mtime: Option<SystemTime>,
     access_count: u64,
     last_accessed: SystemTime,
 }
@@ -272,8 +273,19 @@ impl HighPerformanceScanner {
 
     /// Optimized file scanning with all performance features
     async fn scan_file_optimized(&self, path: &Path) -> Result<PackageScanResult, RezCoreError> {
-        // Check cache first
-        if let Some(cached) = self.get_cached_result(path) {
+        let io_start = Instant::now();
+        let metadata = fs::metadata(path).await.map_err(|e| {
+            self.scan_errors.fetch_add(1, Ordering::Relaxed);
+            RezCoreError::from(e)
+        })?;
+        let file_size = metadata.len();
+        let mtime = metadata.modified().ok();
+
+        // Check cache first: an entry is good only for the file it was read from
+        if let Some(cached) = self.get_cached_result(path)
+            && cached.mtime == mtime
+            && cached.result.file_size == file_size
+        {
             self.cache_hits.fetch_add(1, Ordering::Relaxed);
             return Ok(cached.result);
         }
@@ -281,12 +293,6 @@ impl HighPerformanceScanner {
         self.cache_misses.fetch_add(1, Ordering::Relaxed);
 
         // Phase 1: I/O
-        let io_start = Instant::now();
-        let metadata = fs::metadata(path).await.map_err(|e| {
-            self.scan_errors.fetch_add(1, Ordering::Relaxed);
-            RezCoreError::from(e)
-        })?;
-        let file_size = metadata.len();
 
         // Choose optimal reading strategy
         let content = if file_size > self.config.mmap_threshold {
@@ -324,7 +330,7 @@ impl HighPerformanceScanner {
         };
 
         // Cache the result
-        self.cache_result(path, &result);
+        self.cache_result(path, &result, mtime);
 
         Ok(result)
     }
@@ -378,10 +384,11 @@ impl HighPerformanceScanner {
     }
 
     /// Cache scan result
-    fn cache_result(&self, path: &Path, result: &PackageScanResult) {
+    fn cache_result(&self, path: &Path, result: &PackageScanResult, mtime: Option<SystemTime>) {
         let mut cache = self.cache.write();
         let entry = AdvancedCacheEntry {
             result: result.clone(),
+            mtime,
             access_count: 1,
             last_accessed: SystemTime::now(),
         };
diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index 348fcfe..3036162 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -61,14 +61,18 @@ impl SimpleRepository {
 
     /// Scan the repository for packages
     pub async fn scan(&self) -> Result<(), RezCoreError> {
-        let mut cache = self.package_cache.write().await;
-        let mut errors = self.package_errors.write().await;
-        cache.clear();
-        errors.clear();
+        let mut package_cache = self.package_cache.write().await;
+        let mut package_errors = self.package_errors.write().await;
 
+        // A scan that fails part way must not replace what is known with a partial picture
+        let mut cache = HashMap::new();
+        let mut errors = HashMap::new();
         self.scan_directory(&self.root_path, &mut cache, &mut errors)
             .await?;
 
+        *package_cache = cache;
+        *package_errors = errors;
+
         Ok(())
     }
 
@@ -142,15 +146,15 @@ impl SimpleRepository {
 impl PackageRepository for SimpleRepository {
     async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
         // Check cache first
+        if let Some(error) = self.package_errors.read().await.get(name) {
+            return Err(RezCoreError::Repository(error.clone()));
+        }
         {
             let cache = self.package_cache.read().await;
             if let Some(packages) = cache.get(name) {
                 return Ok(packages.clone());
             }
         }
-        if let Some(error) = self.package_errors.read().await.get(name) {
-            return Err(RezCoreError::Repository(error.clone()));
-        }
 
         // If not in cache, scan and try again
         self.scan().await?;
@@ -260,6 +264,11 @@ impl RepositoryManager {
         name: &str,
         version: Option<&str>,
     ) -> Result<Option<Arc<Package>>, RezCoreError> {
+        // The latest version may be in any repository
+        if version.is_none() {
+            return Ok(self.find_packages(name).await?.into_iter().next());
+        }
+
         for repository in &self.repositories {
             if let Some(package) = repository.get_package(name, version).await? {
                 return Ok(Some(package));
-- 
2.43.0


From f7e0a6c3f7afe3fd24b12ecdfc4691693696884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:23 +0000
Subject: [PATCH 08/26] fix: purge dry runs count what would be removed, odd
 markers do not abort a purge, lookups stay inside the repository and do not
 depend on listing order

---
 .../src/package_repository/filesystem.rs      | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-repository/src/package_repository/filesystem.rs b/crates/rez-next-repository/src/package_repository/filesystem.rs
index 7553fef..e2ec5d7 100644
--- a/crates/rez-next-repository/src/package_repository/filesystem.rs
+++ b/crates/rez-next-repository/src/package_repository/filesystem.rs
@@ -159,7 +159,11 @@ impl PackageRepository for FilesystemPackageRepository {
         &self,
         name: &str,
     ) -> Result<Option<PackageFamilyResource>, RezCoreError> {
-        // Check if directory <location>/<name> exists
+        // Check if directory <location>/<name> exists; a name that is not a single
+        // path component cannot be a family of this repository
+        if Self::validate_component(name, "package name").is_err() {
+            return Ok(None);
+        }
         let family_path = self.location.join(name);
 
         if !family_path.is_dir() {
@@ -219,6 +223,7 @@ impl PackageRepository for FilesystemPackageRepository {
             }
         }
 
+        families.sort_by(|a, b| a.name.cmp(&b.name));
         Ok(families)
     }
 
@@ -287,6 +292,8 @@ impl PackageRepository for FilesystemPackageRepository {
             }
         }
 
+        // Latest version first
+        packages.sort_by(|a, b| b.version().cmp(&a.version()));
         Ok(packages)
     }
 
@@ -494,7 +501,9 @@ impl PackageRepository for FilesystemPackageRepository {
                 let Some(version) = filename.strip_prefix(".ignore") else {
                     continue;
                 };
-                if version.is_empty() || !entry.path().is_file() {
+                if Self::validate_component(version, "package version").is_err()
+                    || !entry.path().is_file()
+                {
                     continue;
                 }
                 let metadata = entry.metadata().map_err(|e| {
@@ -528,7 +537,12 @@ impl PackageRepository for FilesystemPackageRepository {
                     "removing ignored package"
                 );
             }
-            if dry_run || self.remove_package(&name, Some(&version))? {
+            let would_remove = if dry_run {
+                self.version_path(&name, &version)?.is_dir()
+            } else {
+                self.remove_package(&name, Some(&version))?
+            };
+            if would_remove {
                 removed += 1;
             }
         }
-- 
2.43.0


From e9c014e22c8e6c74615eb76eb2e5face83d2be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:23 +0000
Subject: [PATCH 09/26] fix: plugin and reverse-dependency search look at the
 latest version and compare requirement names

---
 .../rez-next-repository/src/package_search.rs | 184 +++++-------------
 1 file changed, 52 insertions(+), 132 deletions(-)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index a4d5c43..d6ca898 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -7,9 +7,10 @@
 //!
 //! This aligns with Rez's `package_search.py` interface.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::path::Path;
 
+use rez_next_package::Requirement;
 use rez_next_package::package::Package;
 
 /// Result of a resource search.
@@ -65,71 +66,51 @@ impl ResourceSearchResult {
 pub fn get_plugins(package_name: &str, paths: Option<Vec<String>>) -> Vec<String> {
     let search_paths = paths.unwrap_or_else(get_default_package_paths);
 
-    let mut plugins = Vec::new();
-    let mut visited = HashSet::new();
-
-    for path in search_paths {
-        let path = Path::new(&path);
-        if !path.exists() {
-            continue;
-        }
-
-        // Scan for packages that have plugin_for == package_name
-        if let Ok(entries) = std::fs::read_dir(path) {
-            for entry in entries.flatten() {
-                let family_path = entry.path();
-                if !family_path.is_dir() {
-                    continue;
-                }
+    // Sorted by family name
+    latest_packages(&search_paths)
+        .into_iter()
+        .filter(|(_, pkg)| pkg.plugin_for.iter().any(|p| p == package_name))
+        .map(|(family, _)| family)
+        .collect()
+}
 
-                let family_name = family_path
-                    .file_name()
-                    .and_then(|n| n.to_str())
-                    .unwrap_or("");
+/// The latest loadable version of every family over all search paths
+/// (the earlier path wins when two paths hold the same version).
+fn latest_packages(paths: &[String]) -> BTreeMap<String, Package> {
+    let mut latest: BTreeMap<String, Package> = BTreeMap::new();
 
-                if visited.contains(family_name) {
+    for path in paths {
+        let Ok(families) = std::fs::read_dir(Path::new(path)) else {
+            continue;
+        };
+        for family_entry in families.flatten() {
+            let family_path = family_entry.path();
+            let (Some(family), true) = (
+                family_path.file_name().and_then(|n| n.to_str()),
+                family_path.is_dir(),
+            ) else {
+                continue;
+            };
+            let Ok(versions) = std::fs::read_dir(&family_path) else {
+                continue;
+            };
+            for version_entry in versions.flatten() {
+                let version_path = version_entry.path();
+                if !version_path.is_dir() {
                     continue;
                 }
-
-                // Check if this package is a plugin for package_name
-                if is_plugin_for(&family_path, package_name) {
-                    plugins.push(family_name.to_string());
-                    visited.insert(family_name.to_string());
+                if let Some(pkg) = load_package_from_dir(&version_path)
+                    && latest
+                        .get(family)
+                        .is_none_or(|known| pkg.version > known.version)
+                {
+                    latest.insert(family.to_string(), pkg);
                 }
             }
         }
     }
 
-    plugins.sort();
-    plugins
-}
-
-/// Check if a package family is a plugin for the given package.
-fn is_plugin_for(family_path: &Path, target_package: &str) -> bool {
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
-
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check plugin_for field (direct field on Package struct)
-                for plugin in &pkg.plugin_for {
-                    if plugin == target_package {
-                        return true;
-                    }
-                }
-            }
-
-            // Only check the first version
-            break;
-        }
-    }
-
-    false
+    latest
 }
 
 /// Load a package from a version directory.
@@ -220,84 +201,23 @@ fn find_dependents(
     paths: &[String],
     include_build_requires: bool,
 ) -> Vec<String> {
-    let mut dependents = Vec::new();
-    let mut visited = HashSet::new();
-
-    for path in paths {
-        let path = Path::new(path);
-        if !path.exists() {
-            continue;
-        }
-
-        if let Ok(entries) = std::fs::read_dir(path) {
-            for entry in entries.flatten() {
-                let family_path = entry.path();
-                if !family_path.is_dir() {
-                    continue;
-                }
-
-                let family_name = family_path
-                    .file_name()
-                    .and_then(|n| n.to_str())
-                    .unwrap_or("")
-                    .to_string();
-
-                if visited.contains(&family_name) {
-                    continue;
-                }
-
-                // Check if this package depends on package_name
-                if package_depends_on(&family_path, package_name, include_build_requires) {
-                    dependents.push(family_name.clone());
-                    visited.insert(family_name);
-                }
-            }
-        }
-    }
-
-    dependents.sort();
-    dependents
+    // Sorted by family name
+    latest_packages(paths)
+        .into_iter()
+        .filter(|(_, pkg)| package_depends_on(pkg, package_name, include_build_requires))
+        .map(|(family, _)| family)
+        .collect()
 }
 
 /// Check if a package depends on a given package.
-fn package_depends_on(
-    family_path: &Path,
-    target_package: &str,
-    include_build_requires: bool,
-) -> bool {
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
-
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check requires (direct field on Package struct)
-                for req in &pkg.requires {
-                    if req.contains(target_package) {
-                        return true;
-                    }
-                }
-
-                // Check build_requires if requested (direct field on Package struct)
-                if include_build_requires {
-                    for req in &pkg.build_requires {
-                        if req.contains(target_package) {
-                            return true;
-                        }
-                    }
-                }
-            }
-
-            // Only check the first version
-            break;
-        }
-    }
-
-    false
+fn package_depends_on(pkg: &Package, target_package: &str, include_build_requires: bool) -> bool {
+    let names_target = |req: &String| {
+        req.parse::<Requirement>()
+            .is_ok_and(|r| !r.conflict && r.name == target_package)
+    };
+
+    pkg.requires.iter().any(names_target)
+        || (include_build_requires && pkg.build_requires.iter().any(names_target))
 }
 
 /// Get default package paths from environment or common locations.
-- 
2.43.0


From 154dce085081f5a25c611396354160ee4231228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:23 +0000
Subject: [PATCH 10/26] fix: copying, moving and removing packages never
 destroys the only copy (overlapping paths, other search paths, path escapes,
 --ignored-since without markers, latest version)

---
 crates/rez-next-package/src/package_copy.rs   |  79 ++++++++++--
 crates/rez-next-package/src/package_move.rs   |  19 +--
 crates/rez-next-package/src/package_remove.rs |  27 ++++-
 src/cli/commands/cp.rs                        |  17 ++-
 src/cli/commands/mv.rs                        |  17 ++-
 src/cli/commands/rm.rs                        | 113 ++++++++----------
 6 files changed, 177 insertions(+), 95 deletions(-)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index e678e7e..fd8ebee 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -99,14 +99,24 @@ pub fn copy_package(
     let dest = dest_base.join(name).join(version);
 
     // Check destination
-    if dest.exists() {
-        if config.force {
-            fs::remove_dir_all(&dest)?;
-        } else {
-            return Err(PackageCopyError::DestinationExists {
-                path: dest.display().to_string(),
-            });
-        }
+    let replace = dest.exists();
+    if replace && !config.force {
+        return Err(PackageCopyError::DestinationExists {
+            path: dest.display().to_string(),
+        });
+    }
+
+    // Replacing the destination (or copying into the source) would destroy the source
+    if paths_overlap(&src, &dest) {
+        return Err(PackageCopyError::Other(format!(
+            "Source and destination overlap: {} and {}",
+            src.display(),
+            dest.display()
+        )));
+    }
+
+    if replace {
+        fs::remove_dir_all(&dest)?;
     }
 
     // Ensure parent directory exists
@@ -114,8 +124,10 @@ pub fn copy_package(
         fs::create_dir_all(parent)?;
     }
 
-    // Perform the copy
-    let stats = copy_dir_recursive(&src, &dest)?;
+    // Perform the copy; an incomplete copy must not be mistaken for a package
+    let stats = copy_dir_recursive(&src, &dest).inspect_err(|_| {
+        let _ = fs::remove_dir_all(&dest);
+    })?;
 
     Ok(PackageCopyResult {
         source: src,
@@ -131,6 +143,21 @@ pub fn find_package_dir(
     version: &str,
     search_paths: &[PathBuf],
 ) -> Result<PathBuf, PackageCopyError> {
+    locate_package_dir(name, version, search_paths).map(|dir| normalize_path(&dir))
+}
+
+/// Find a package directory as it is spelled under its search path (symlinks unresolved).
+pub(crate) fn locate_package_dir(
+    name: &str,
+    version: &str,
+    search_paths: &[PathBuf],
+) -> Result<PathBuf, PackageCopyError> {
+    if !is_path_component(name) || !is_path_component(version) {
+        return Err(PackageCopyError::Other(format!(
+            "Invalid package name or version: {name:?}, {version:?}"
+        )));
+    }
+
     for base in search_paths {
         // Check both version and version subdir patterns
         let candidates = [
@@ -140,7 +167,7 @@ pub fn find_package_dir(
 
         for candidate in &candidates {
             if candidate.exists() && candidate.is_dir() {
-                return Ok(normalize_path(candidate));
+                return Ok(candidate.clone());
             }
         }
     }
@@ -154,6 +181,36 @@ pub fn find_package_dir(
 /// Normalize a path to avoid UNC path issues on Windows.
 ///
 /// Addresses Rez issue #1438: "Environment resolution uses UNC paths with Python 3.10"
+/// True for a name that stays inside the directory it is joined to.
+pub(crate) fn is_path_component(value: &str) -> bool {
+    let mut components = Path::new(value).components();
+    matches!(components.next(), Some(std::path::Component::Normal(c)) if c == value)
+        && components.next().is_none()
+}
+
+/// True when one of the paths is, or lies inside, the other.
+pub fn paths_overlap(a: &Path, b: &Path) -> bool {
+    let (a, b) = (resolve_existing_prefix(a), resolve_existing_prefix(b));
+    a.starts_with(&b) || b.starts_with(&a)
+}
+
+/// Resolve symlinks in the part of `path` that exists.
+fn resolve_existing_prefix(path: &Path) -> PathBuf {
+    let absolute = std::path::absolute(path).unwrap_or_else(|_| path.to_path_buf());
+    for ancestor in absolute.ancestors() {
+        if let Ok(real) = dunce::canonicalize(ancestor)
+            && let Ok(rest) = absolute.strip_prefix(ancestor)
+        {
+            return if rest.as_os_str().is_empty() {
+                real
+            } else {
+                real.join(rest)
+            };
+        }
+    }
+    absolute
+}
+
 fn normalize_path(path: &Path) -> PathBuf {
     // Use dunce to strip UNC prefixes on Windows
     dunce::canonicalize(path).unwrap_or_else(|_| path.to_path_buf())
diff --git a/crates/rez-next-package/src/package_move.rs b/crates/rez-next-package/src/package_move.rs
index 130f8f5..1034816 100644
--- a/crates/rez-next-package/src/package_move.rs
+++ b/crates/rez-next-package/src/package_move.rs
@@ -13,7 +13,7 @@ use std::path::{Path, PathBuf};
 use thiserror::Error;
 
 use crate::package_copy::{self, PackageCopyConfig, PackageCopyError};
-use crate::package_remove::{self, PackageRemoveConfig, PackageRemoveError};
+use crate::package_remove::{self, PackageRemoveError};
 
 /// Errors that can occur during package move operations.
 #[derive(Debug, Error)]
@@ -84,21 +84,12 @@ impl PackageMoveConfig {
             normalize_paths: self.normalize_paths,
         }
     }
-
-    /// Create a PackageRemoveConfig from this move config.
-    fn to_remove_config(&self) -> PackageRemoveConfig {
-        PackageRemoveConfig {
-            packages_path: self.packages_path.clone(),
-            force: true, // We always force remove during move
-            prune_empty_families: true,
-        }
-    }
 }
 
 /// Move a package from one location to another.
 ///
 /// This is the domain-level implementation, aligned with rez's `move_package()`.
-/// It delegates to `copy_package` and `remove_package_version` — following
+/// It delegates to `copy_package` and the removal of the copied directory — following
 /// the Single Responsibility Principle: each operation does one thing.
 ///
 /// # Safety
@@ -123,7 +114,7 @@ pub fn move_package(
 ) -> Result<PackageMoveResult, PackageMoveError> {
     // Prevent moving to the same location
     let dest = dest_base.join(name).join(version);
-    let src = package_copy::find_package_dir(name, version, &config.packages_path)?;
+    let src = package_copy::locate_package_dir(name, version, &config.packages_path)?;
 
     // Normalize both paths
     let src_normalized = dunce::canonicalize(&src).unwrap_or_else(|_| src.clone());
@@ -141,7 +132,9 @@ pub fn move_package(
 
     // Phase 2: Remove source (unless keep_source)
     let source_removed = if !config.keep_source {
-        package_remove::remove_package_version(name, version, &config.to_remove_config())?;
+        // Only the directory that was copied: other search paths (the destination
+        // may be one of them) keep theirs
+        package_remove::remove_version_dir(&src)?;
         true
     } else {
         false
diff --git a/crates/rez-next-package/src/package_remove.rs b/crates/rez-next-package/src/package_remove.rs
index 51c79bb..5316c90 100644
--- a/crates/rez-next-package/src/package_remove.rs
+++ b/crates/rez-next-package/src/package_remove.rs
@@ -9,10 +9,12 @@
 //! - **Dry-run support**: Always provide a way to preview what will be removed.
 
 use std::fs;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 use thiserror::Error;
 
+use crate::package_copy::is_path_component;
+
 /// Errors that can occur during package remove operations.
 #[derive(Debug, Error)]
 pub enum PackageRemoveError {
@@ -81,6 +83,12 @@ pub fn remove_package_version(
     version: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    if !is_path_component(name) || !is_path_component(version) {
+        return Err(PackageRemoveError::Other(format!(
+            "Invalid package name or version: {name:?}, {version:?}"
+        )));
+    }
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
@@ -125,6 +133,17 @@ pub fn remove_package_version(
     })
 }
 
+/// Remove one version directory, and its family directory when that leaves it empty.
+pub(crate) fn remove_version_dir(version_dir: &Path) -> Result<(), PackageRemoveError> {
+    fs::remove_dir_all(version_dir)?;
+    if let Some(family_dir) = version_dir.parent()
+        && fs::read_dir(family_dir)?.next().is_none()
+    {
+        fs::remove_dir(family_dir)?;
+    }
+    Ok(())
+}
+
 /// Remove an entire package family (all versions).
 ///
 /// Safety: This removes ALL versions. Use with caution.
@@ -132,6 +151,12 @@ pub fn remove_package_family(
     name: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    if !is_path_component(name) {
+        return Err(PackageRemoveError::Other(format!(
+            "Invalid package name: {name:?}"
+        )));
+    }
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
diff --git a/src/cli/commands/cp.rs b/src/cli/commands/cp.rs
index 5b54749..8935012 100644
--- a/src/cli/commands/cp.rs
+++ b/src/cli/commands/cp.rs
@@ -6,6 +6,7 @@ use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
+use rez_next_package::package_copy::paths_overlap;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use std::path::PathBuf;
 
@@ -224,7 +225,7 @@ async fn find_source_package_with_path(
         sorted.sort_by(|a, b| {
             b.version
                 .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
+                .and_then(|bv| a.version.as_ref().map(|av| bv.cmp(av)))
                 .unwrap_or(std::cmp::Ordering::Equal)
         });
         sorted.into_iter().next().unwrap()
@@ -262,13 +263,25 @@ async fn copy_package_directory(
     source_package: &Package,
     args: &CpArgs,
 ) -> RezCoreResult<CopyResult> {
+    // Replacing the destination (or copying into the source) would destroy the source
+    if paths_overlap(source_root, dest_root) {
+        return Err(RezCoreError::RequirementParse(format!(
+            "Source and destination overlap: {} and {}",
+            source_root.display(),
+            dest_root.display()
+        )));
+    }
+
     // Remove existing destination if force
     if args.force && dest_root.exists() {
         std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
     }
 
     // Recursively copy directory
-    copy_dir_recursive(source_root, dest_root)?;
+    // An incomplete copy must not be mistaken for a package
+    copy_dir_recursive(source_root, dest_root).inspect_err(|_| {
+        let _ = std::fs::remove_dir_all(dest_root);
+    })?;
 
     let variants_copied = if args.all_variants {
         source_package.variants.len().max(1)
diff --git a/src/cli/commands/mv.rs b/src/cli/commands/mv.rs
index dd78a5d..1a1a8f3 100644
--- a/src/cli/commands/mv.rs
+++ b/src/cli/commands/mv.rs
@@ -6,6 +6,7 @@ use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
+use rez_next_package::package_copy::paths_overlap;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use std::path::PathBuf;
 
@@ -247,7 +248,7 @@ async fn find_source_package_with_path(
         sorted.sort_by(|a, b| {
             b.version
                 .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
+                .and_then(|bv| a.version.as_ref().map(|av| bv.cmp(av)))
                 .unwrap_or(std::cmp::Ordering::Equal)
         });
         sorted.into_iter().next().unwrap()
@@ -282,13 +283,25 @@ async fn move_package_directory(
     dest_root: &PathBuf,
     args: &MvArgs,
 ) -> RezCoreResult<MoveResult> {
+    // Replacing the destination (or copying into the source) would destroy the source
+    if paths_overlap(source_path, dest_root) {
+        return Err(RezCoreError::RequirementParse(format!(
+            "Source and destination overlap: {} and {}",
+            source_path.display(),
+            dest_root.display()
+        )));
+    }
+
     // Remove existing destination if force
     if args.force && dest_root.exists() {
         std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
     }
 
     // Copy source to destination
-    copy_dir_recursive(source_path, dest_root)?;
+    // An incomplete copy must not be mistaken for a package
+    copy_dir_recursive(source_path, dest_root).inspect_err(|_| {
+        let _ = std::fs::remove_dir_all(dest_root);
+    })?;
 
     // Remove source unless keeping it
     if !args.keep_source {
diff --git a/src/cli/commands/rm.rs b/src/cli/commands/rm.rs
index bb177c0..f733e18 100644
--- a/src/cli/commands/rm.rs
+++ b/src/cli/commands/rm.rs
@@ -7,6 +7,7 @@ use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
+use rez_next_repository::{FilesystemPackageRepository, PackageRepository};
 use std::path::PathBuf;
 
 /// Arguments for the rm command
@@ -279,45 +280,35 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
     // Parse time specification (absolute ISO datetime or relative like 1d/2w/1m/1y)
     let cutoff_timestamp = parse_time_spec(time_spec)?;
 
-    let repo_manager = setup_repositories(args).await?;
+    // A package is ignored while its family holds an `.ignore<version>` marker; how long it
+    // has been ignored is the age of that marker.
+    let mut removal_candidates: Vec<(PathBuf, String, String)> = Vec::new();
 
-    // Get all package family names, then fetch their versions
-    let package_names = repo_manager.list_packages().await?;
-    let mut removal_candidates: Vec<Package> = Vec::new();
-
-    for name in &package_names {
-        let packages = repo_manager.find_packages(name).await?;
-        for pkg_arc in packages {
-            let pkg = (*pkg_arc).clone();
-            // Retrieve install dir by walking the configured repo paths
-            let pkg_path = {
-                let ver_str = pkg
-                    .version
-                    .as_ref()
-                    .map(|v| v.as_str())
-                    .unwrap_or("unknown");
-                // Construct candidate paths: <repo>/<name>/<version>/package.py
-                let mut found_path = std::path::PathBuf::new();
-                for path in &args.paths {
-                    let candidate = path.join(&pkg.name).join(ver_str).join("package.py");
-                    if candidate.exists() {
-                        found_path = candidate;
-                        break;
-                    }
-                }
-                found_path
+    for repo in search_paths(args) {
+        let Ok(families) = std::fs::read_dir(&repo) else {
+            continue;
+        };
+        for family in families.flatten() {
+            let Ok(entries) = std::fs::read_dir(family.path()) else {
+                continue;
             };
-
-            if !pkg_path.as_os_str().is_empty()
-                && let Ok(metadata) = std::fs::metadata(&pkg_path)
-                && let Ok(modified) = metadata.modified()
-                && let Ok(dur) = modified.duration_since(std::time::UNIX_EPOCH)
-                && dur.as_secs() < cutoff_timestamp
-            {
-                removal_candidates.push(pkg);
+            let name = family.file_name().to_string_lossy().to_string();
+            for entry in entries.flatten() {
+                let file_name = entry.file_name().to_string_lossy().to_string();
+                if let Some(version) = file_name.strip_prefix(".ignore")
+                    && !version.is_empty()
+                    && family.path().join(version).is_dir()
+                    && let Ok(metadata) = entry.metadata()
+                    && let Ok(modified) = metadata.modified()
+                    && let Ok(dur) = modified.duration_since(std::time::UNIX_EPOCH)
+                    && dur.as_secs() <= cutoff_timestamp
+                {
+                    removal_candidates.push((repo.clone(), name.clone(), version.to_string()));
+                }
             }
         }
     }
+    removal_candidates.sort();
 
     if removal_candidates.is_empty() {
         println!(
@@ -329,13 +320,8 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
 
     if args.verbose || args.dry_run {
         println!("Packages to remove ({}):", removal_candidates.len());
-        for pkg in &removal_candidates {
-            let ver = pkg
-                .version
-                .as_ref()
-                .map(|v| v.as_str())
-                .unwrap_or("unknown");
-            println!("  {}-{}", pkg.name, ver);
+        for (_, name, version) in &removal_candidates {
+            println!("  {}-{}", name, version);
         }
     }
 
@@ -347,24 +333,16 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
         return Ok(());
     }
 
-    // Perform actual removal via the existing single-package remove path
     let mut removed = 0usize;
-    for pkg in &removal_candidates {
-        match remove_single_package(pkg, args).await {
+    for (repo, name, version) in &removal_candidates {
+        match FilesystemPackageRepository::new(repo).remove_package(name, Some(version)) {
             Ok(_) => {
                 removed += 1;
                 if args.verbose {
-                    println!(
-                        "  Removed {}-{}",
-                        pkg.name,
-                        pkg.version
-                            .as_ref()
-                            .map(|v| v.as_str())
-                            .unwrap_or("unknown")
-                    );
+                    println!("  Removed {}-{}", name, version);
                 }
             }
-            Err(e) => eprintln!("  Warning: failed to remove {}: {}", pkg.name, e),
+            Err(e) => eprintln!("  Warning: failed to remove {}-{}: {}", name, version, e),
         }
     }
 
@@ -375,22 +353,25 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
     Ok(())
 }
 
-/// Setup repository manager
-async fn setup_repositories(args: &RmArgs) -> RezCoreResult<RepositoryManager> {
+/// Repository paths given on the command line, or the configured ones
+fn search_paths(args: &RmArgs) -> Vec<PathBuf> {
     use rez_next_common::config::RezCoreConfig;
 
+    if !args.paths.is_empty() {
+        return args.paths.clone();
+    }
+    RezCoreConfig::load()
+        .packages_path
+        .iter()
+        .map(|p| expand_home_path(p))
+        .filter(|p| p.exists())
+        .collect()
+}
+
+/// Setup repository manager
+async fn setup_repositories(args: &RmArgs) -> RezCoreResult<RepositoryManager> {
     let mut repo_manager = RepositoryManager::new();
-    let paths: Vec<PathBuf> = if !args.paths.is_empty() {
-        args.paths.clone()
-    } else {
-        let config = RezCoreConfig::load();
-        config
-            .packages_path
-            .iter()
-            .map(|p| expand_home_path(p))
-            .filter(|p| p.exists())
-            .collect()
-    };
+    let paths = search_paths(args);
 
     for (i, path) in paths.iter().enumerate() {
         let repo_name = format!("repo_{}", i);
-- 
2.43.0


From 1a9ce541262ce35c21f24c82970c0e21ae4f360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 11/26] fix: the payload cache never mixes up or serves
 incomplete copies (slot names past z, interrupted and failed copies,
 removals, concurrent adds) and cleans stalled ones

---
 crates/rez-next-package/src/package_cache.rs | 244 ++++++++++++-------
 1 file changed, 158 insertions(+), 86 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 1086bf4..3c7e0c0 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -125,7 +125,7 @@ pub enum PackageCacheError {
 /// Serializable representation of a variant handle.
 ///
 /// This is used to match cached payloads to their corresponding variants.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct VariantHandle {
     /// Package name
     pub name: String,
@@ -351,6 +351,7 @@ impl PackageCache {
             Err(_) => return (CacheStatus::NotFound, None),
         };
 
+        let mut unfinished = None;
         for entry in entries.flatten() {
             let path = entry.path();
 
@@ -365,30 +366,22 @@ impl PackageCache {
                     Err(_) => continue, // Skip corrupted entries
                 };
 
-                if metadata.handle.hashable_repr() == handle.hashable_repr() {
-                    // Check for .copying file (still copying)
-                    let copying_flag = json_path.with_file_name(format!(
-                        ".copying-{}",
-                        payload_path.file_name().unwrap().to_string_lossy()
-                    ));
-
-                    if copying_flag.is_file() {
-                        // Check if stalled
-                        if Self::is_file_stalled(&copying_flag) {
-                            return (CacheStatus::CopyStalled, Some(payload_path));
+                if metadata.handle == *handle {
+                    match Self::entry_status(&payload_path) {
+                        CacheStatus::Found => {
+                            // Update last accessed time
+                            let _ = Self::update_access_time(&json_path);
+                            return (CacheStatus::Found, Some(payload_path));
                         }
-                        return (CacheStatus::Copying, Some(payload_path));
+                        // The payload is gone: nothing to use
+                        CacheStatus::Pending => continue,
+                        status => unfinished = Some((status, Some(payload_path))),
                     }
-
-                    // Update last accessed time
-                    let _ = Self::update_access_time(&json_path);
-
-                    return (CacheStatus::Found, Some(payload_path));
                 }
             }
         }
 
-        (CacheStatus::NotFound, None)
+        unfinished.unwrap_or((CacheStatus::NotFound, None))
     }
 
     /// Add a variant's payload to the cache.
@@ -445,15 +438,48 @@ impl PackageCache {
         let hash_path = self.hash_path(handle);
         fs::create_dir_all(&hash_path)?;
 
-        // Determine increment name (a, b, ..., aa, ab, ...)
-        let increment = Self::next_increment(&hash_path)?;
+        // Reserve an unused increment name (a, b, ..., aa, ab, ...); another process may
+        // be adding to the same directory
+        let (increment, payload_path) = loop {
+            let increment = Self::next_increment(&hash_path)?;
+            let payload_path = hash_path.join(&increment);
+            match fs::create_dir(&payload_path) {
+                Ok(()) => break (increment, payload_path),
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {}
+                Err(e) => return Err(e.into()),
+            }
+        };
 
-        let payload_path = hash_path.join(&increment);
         let json_path = hash_path.join(format!("{}.json", increment));
         let copying_flag = hash_path.join(format!(".copying-{}", increment));
 
+        if let Err(e) = Self::fill_entry(
+            handle,
+            source_root,
+            &payload_path,
+            &json_path,
+            &copying_flag,
+        ) {
+            // An incomplete copy must not block (or be mistaken for) a later one
+            let _ = fs::remove_file(&json_path);
+            let _ = fs::remove_dir_all(&payload_path);
+            let _ = fs::remove_file(&copying_flag);
+            return Err(e);
+        }
+
+        Ok((CacheStatus::Created, payload_path))
+    }
+
+    /// Write the metadata and copy the payload of a reserved entry.
+    fn fill_entry(
+        handle: &VariantHandle,
+        source_root: &Path,
+        payload_path: &Path,
+        json_path: &Path,
+        copying_flag: &Path,
+    ) -> Result<(), PackageCacheError> {
         // Create copying flag
-        File::create(&copying_flag)?;
+        File::create(copying_flag)?;
 
         // Create metadata
         let now = SystemTime::now()
@@ -470,15 +496,15 @@ impl PackageCache {
 
         // Write metadata
         let json_str = serde_json::to_string_pretty(&metadata)?;
-        File::create(&json_path)?.write_all(json_str.as_bytes())?;
+        File::create(json_path)?.write_all(json_str.as_bytes())?;
 
         // Copy payload
-        Self::copy_dir_recursive(source_root, &payload_path)?;
+        Self::copy_dir_recursive(source_root, payload_path)?;
 
         // Remove copying flag
-        let _ = fs::remove_file(copying_flag);
+        fs::remove_file(copying_flag)?;
 
-        Ok((CacheStatus::Created, payload_path))
+        Ok(())
     }
 
     /// Remove a variant from the cache.
@@ -495,26 +521,10 @@ impl PackageCache {
                 (status, cached_path)
             }
             CacheStatus::Found => {
-                if let Some(ref path) = cached_path {
-                    let dest = self.to_delete_dir().join(format!(
-                        "{}-{}",
-                        handle.name,
-                        uuid::Uuid::new_v4()
-                    ));
-
-                    // Move to to_delete
-                    if fs::rename(path, &dest).is_err() {
-                        // Try copy + delete
-                        let _ = Self::copy_dir_recursive(path, &dest);
-                        let _ = fs::remove_dir_all(path);
-                    }
-
-                    // Remove .json file
-                    let json_path = path.with_extension("json");
-                    let _ = fs::remove_file(json_path);
-
-                    // Clean up empty parent directories
-                    Self::cleanup_empty_dirs(path);
+                if let Some(ref path) = cached_path
+                    && !self.discard_entry(handle, path)
+                {
+                    return (status, cached_path);
                 }
                 (CacheStatus::Removed, cached_path)
             }
@@ -522,6 +532,30 @@ impl PackageCache {
         }
     }
 
+    /// Take an entry out of the cache. Its metadata goes first, so that a half-removed
+    /// payload is never found. Returns whether the entry is gone.
+    fn discard_entry(&self, handle: &VariantHandle, path: &Path) -> bool {
+        // Remove .json file
+        match fs::remove_file(path.with_extension("json")) {
+            Ok(()) => {}
+            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+            Err(_) => return false,
+        }
+
+        // Move to to_delete
+        let dest = self
+            .to_delete_dir()
+            .join(format!("{}-{}", handle.name, uuid::Uuid::new_v4()));
+        if fs::rename(path, &dest).is_err() {
+            let _ = fs::remove_dir_all(path);
+        }
+        let _ = fs::remove_file(Self::copying_flag(path));
+
+        // Clean up empty parent directories
+        Self::cleanup_empty_dirs(path);
+        true
+    }
+
     /// List all cached variants.
     ///
     /// Returns a list of (handle, path, status) tuples.
@@ -564,11 +598,7 @@ impl PackageCache {
                                             && let Ok(metadata) = Self::read_metadata(&meta_path)
                                         {
                                             let payload_path = meta_path.with_extension("");
-                                            let status = if payload_path.is_dir() {
-                                                CacheStatus::Found
-                                            } else {
-                                                CacheStatus::Pending
-                                            };
+                                            let status = Self::entry_status(&payload_path);
                                             results.push((metadata.handle, payload_path, status));
                                         }
                                     }
@@ -603,13 +633,28 @@ impl PackageCache {
                     break;
                 }
                 let path = entry.path();
+                let size = Self::directory_size(&path).unwrap_or(0);
                 if path.is_dir() && fs::remove_dir_all(&path).is_ok() {
-                    stats.deleted_bytes += Self::directory_size(&path).unwrap_or(0);
+                    stats.deleted_bytes += size;
                     stats.entries_deleted += 1;
                 }
             }
         }
 
+        // Clean stalled copies
+        for (handle, path, status) in self.list_cached() {
+            if Self::check_time_limit(start, time_limit_secs) {
+                break;
+            }
+            if status == CacheStatus::CopyStalled {
+                let size = Self::directory_size(&path).unwrap_or(0);
+                if self.discard_entry(&handle, &path) {
+                    stats.entries_deleted += 1;
+                    stats.deleted_bytes += size;
+                }
+            }
+        }
+
         // Clean old entries
         if let Some(max_age) = self.config.max_age_secs {
             let now = SystemTime::now()
@@ -629,10 +674,10 @@ impl PackageCache {
                 // Check age via metadata file
                 let json_path = path.with_extension("json");
                 if let Ok(metadata) = Self::read_metadata(&json_path)
-                    && let Some(accessed) = metadata.last_accessed
-                    && now - accessed > max_age
+                    && let Some(accessed) = Self::last_accessed(&json_path, &metadata)
+                    && now.saturating_sub(accessed) > max_age
+                    && self.discard_entry(&handle, &path)
                 {
-                    let _ = self.remove_variant(&handle);
                     stats.entries_deleted += 1;
                     stats.deleted_bytes += metadata.payload_size.unwrap_or(0);
                 }
@@ -654,19 +699,47 @@ impl PackageCache {
 
     /// Update the last-accessed time in the metadata.
     fn update_access_time(json_path: &Path) -> Result<(), PackageCacheError> {
-        let mut metadata: CachedVariantInfo = Self::read_metadata(json_path)?;
-        metadata.last_accessed = Some(
-            SystemTime::now()
-                .duration_since(UNIX_EPOCH)
-                .unwrap()
-                .as_secs(),
-        );
-        let json_str = serde_json::to_string_pretty(&metadata)?;
-        let mut file = File::create(json_path)?;
-        file.write_all(json_str.as_bytes())?;
+        // Touch the file; rewriting it could be seen half-written or hit a reused name
+        File::options()
+            .append(true)
+            .open(json_path)?
+            .set_modified(SystemTime::now())?;
         Ok(())
     }
 
+    fn last_accessed(json_path: &Path, metadata: &CachedVariantInfo) -> Option<u64> {
+        let touched = fs::metadata(json_path)
+            .and_then(|m| m.modified())
+            .ok()
+            .and_then(|t| t.duration_since(UNIX_EPOCH).ok())
+            .map(|age| age.as_secs());
+        touched.or(metadata.last_accessed)
+    }
+
+    /// Marker file that exists while the payload is being copied.
+    fn copying_flag(payload_path: &Path) -> PathBuf {
+        payload_path.with_file_name(format!(
+            ".copying-{}",
+            payload_path.file_name().unwrap().to_string_lossy()
+        ))
+    }
+
+    /// State of an entry that has metadata.
+    fn entry_status(payload_path: &Path) -> CacheStatus {
+        let flag = Self::copying_flag(payload_path);
+        if flag.is_file() {
+            if Self::is_file_stalled(&flag) {
+                CacheStatus::CopyStalled
+            } else {
+                CacheStatus::Copying
+            }
+        } else if payload_path.is_dir() {
+            CacheStatus::Found
+        } else {
+            CacheStatus::Pending
+        }
+    }
+
     /// Check if a file appears stalled (no mtime update for too long).
     fn is_file_stalled(path: &Path) -> bool {
         if let Ok(metadata) = fs::metadata(path)
@@ -680,22 +753,22 @@ impl PackageCache {
 
     /// Get the next increment name for a hash path.
     fn next_increment(hash_path: &Path) -> Result<String, PackageCacheError> {
-        let mut max_inc = None;
-
-        if let Ok(entries) = fs::read_dir(hash_path) {
-            for entry in entries.flatten() {
-                let name = entry.file_name().to_string_lossy().to_string();
-                if name.ends_with(".json") {
-                    let inc = name.trim_end_matches(".json");
-                    match &max_inc {
-                        None => max_inc = Some(inc.to_string()),
-                        Some(current) => {
-                            if inc > current.as_str() {
-                                max_inc = Some(inc.to_string());
-                            }
-                        }
-                    }
-                }
+        let mut max_inc: Option<String> = None;
+
+        // Names follow each other by length, then alphabetically (z, aa); a name is taken
+        // as long as anything of it is left
+        for entry in fs::read_dir(hash_path)? {
+            let name = entry?.file_name().to_string_lossy().to_string();
+            let inc = name.strip_prefix(".copying-").unwrap_or(&name);
+            let inc = inc.strip_suffix(".json").unwrap_or(inc);
+            if inc.is_empty() || !inc.chars().all(|c| c.is_ascii_lowercase()) {
+                continue;
+            }
+            if max_inc
+                .as_ref()
+                .is_none_or(|max| (inc.len(), inc) > (max.len(), max.as_str()))
+            {
+                max_inc = Some(inc.to_string());
             }
         }
 
@@ -709,14 +782,13 @@ impl PackageCache {
 
     /// Recursively copy a directory.
     fn copy_dir_recursive(src: &Path, dst: &Path) -> Result<(), io::Error> {
-        fs::create_dir_all(dst)?;
-
         for entry in fs::read_dir(src)? {
             let entry = entry?;
             let src_path = entry.path();
             let dst_path = dst.join(entry.file_name());
 
             if src_path.is_dir() {
+                fs::create_dir(&dst_path)?;
                 Self::copy_dir_recursive(&src_path, &dst_path)?;
             } else {
                 fs::copy(&src_path, &dst_path)?;
@@ -778,7 +850,7 @@ impl PackageCache {
     /// Check if there's enough disk space.
     fn check_disk_space(&self, needed: u64) -> Result<bool, PackageCacheError> {
         let available = fs2::available_space(&self.root)?;
-        Ok(available - needed > self.config.min_free_space_bytes)
+        Ok(available.saturating_sub(needed) > self.config.min_free_space_bytes)
     }
 
     /// Check if the cache disk is near full.
@@ -811,7 +883,7 @@ impl PackageCache {
         let variant_size = Self::directory_size(variant_root).unwrap_or(0);
 
         // Check: available - variant_size > min_free_space
-        available > variant_size + self.config.min_free_space_bytes
+        available > variant_size.saturating_add(self.config.min_free_space_bytes)
     }
 
     /// Remove empty parent directories.
-- 
2.43.0


From eb8968eb7ba2f4124c00726422a1dd2e17f2de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:52 +0000
Subject: [PATCH 12/26] fix: the two-level cache never returns superseded
 values: changes that span both levels are made under one lock, and a store
 replaces the lower-level copy

---
 .../rez-next-cache/src/intelligent_manager.rs | 123 ++++++++----------
 1 file changed, 54 insertions(+), 69 deletions(-)

diff --git a/crates/rez-next-cache/src/intelligent_manager.rs b/crates/rez-next-cache/src/intelligent_manager.rs
index 21d0b83..08b55c0 100644
--- a/crates/rez-next-cache/src/intelligent_manager.rs
+++ b/crates/rez-next-cache/src/intelligent_manager.rs
@@ -8,7 +8,6 @@ use crate::{
     UnifiedCacheConfig, UnifiedCacheStats,
 };
 use dashmap::DashMap;
-use tracing::warn;
 
 use async_trait::async_trait;
 use std::{
@@ -105,7 +104,9 @@ where
     config: UnifiedCacheConfig,
     /// L1 cache (memory) - high-speed concurrent access
     l1_cache: Arc<DashMap<K, MultiLevelCacheEntry<V>>>,
-    /// L2 cache (disk/persistent) - larger capacity
+    /// L2 cache (disk/persistent) - larger capacity.
+    /// Its write lock is held for every change that spans both levels, so that a
+    /// key never has two live entries and a slower operation cannot undo a newer one.
     l2_cache: Arc<AsyncRwLock<HashMap<K, MultiLevelCacheEntry<V>>>>,
     /// Predictive preheater
     preheater: Arc<PredictivePreheater<K>>,
@@ -182,14 +183,18 @@ where
     }
 
     /// Promote data from L2 to L1 cache
-    async fn promote_to_l1(
+    fn promote_to_l1(
         &self,
+        l2_cache: &mut HashMap<K, MultiLevelCacheEntry<V>>,
         key: K,
         mut entry: MultiLevelCacheEntry<V>,
-    ) -> Result<(), CacheError> {
+    ) {
+        // Remove from L2
+        l2_cache.remove(&key);
+
         // Check L1 capacity
         if self.l1_cache.len() >= self.config.l1_config.max_entries {
-            self.evict_l1_entries().await?;
+            self.evict_l1_entries(l2_cache);
         }
 
         // Update entry metadata for L1
@@ -197,59 +202,42 @@ where
         entry.mark_accessed();
 
         // Insert into L1
-        self.l1_cache.insert(key.clone(), entry);
-
-        // Remove from L2
-        let mut l2_cache = self.l2_cache.write().await;
-        l2_cache.remove(&key);
+        self.l1_cache.insert(key, entry);
 
         // Update statistics
         {
             let mut stats = self.stats.write().unwrap();
             stats.overall_stats.promotions += 1;
         }
-
-        Ok(())
     }
 
     /// Demote data from L1 to L2 cache
-    async fn demote_to_l2(
+    fn demote_to_l2(
         &self,
+        l2_cache: &mut HashMap<K, MultiLevelCacheEntry<V>>,
         key: K,
         mut entry: MultiLevelCacheEntry<V>,
-    ) -> Result<(), CacheError> {
+    ) {
         // Check L2 capacity
-        {
-            let l2_cache = self.l2_cache.read().await;
-            if l2_cache.len() >= self.config.l2_config.max_entries {
-                drop(l2_cache);
-                self.evict_l2_entries().await?;
-            }
+        if l2_cache.len() >= self.config.l2_config.max_entries {
+            self.evict_l2_entries(l2_cache);
         }
 
         // Update entry metadata for L2
         entry.level = 2;
 
         // Insert into L2
-        {
-            let mut l2_cache = self.l2_cache.write().await;
-            l2_cache.insert(key.clone(), entry);
-        }
-
-        // Remove from L1
-        self.l1_cache.remove(&key);
+        l2_cache.insert(key, entry);
 
         // Update statistics
         {
             let mut stats = self.stats.write().unwrap();
             stats.overall_stats.demotions += 1;
         }
-
-        Ok(())
     }
 
     /// Evict entries from L1 cache
-    async fn evict_l1_entries(&self) -> Result<(), CacheError> {
+    fn evict_l1_entries(&self, l2_cache: &mut HashMap<K, MultiLevelCacheEntry<V>>) {
         let eviction_count = (self.l1_cache.len() as f64 * 0.1).max(1.0) as usize;
 
         // Collect entries with their priorities
@@ -270,17 +258,14 @@ where
             if let Some((_, entry)) = self.l1_cache.remove(&key) {
                 // Try to demote to L2 if valuable enough
                 if entry.access_count > 1 {
-                    self.demote_to_l2(key, entry).await?;
+                    self.demote_to_l2(l2_cache, key, entry);
                 }
             }
         }
-
-        Ok(())
     }
 
     /// Evict entries from L2 cache
-    async fn evict_l2_entries(&self) -> Result<(), CacheError> {
-        let mut l2_cache = self.l2_cache.write().await;
+    fn evict_l2_entries(&self, l2_cache: &mut HashMap<K, MultiLevelCacheEntry<V>>) {
         let eviction_count = (l2_cache.len() as f64 * 0.1).max(1.0) as usize;
 
         // Collect entries with their priorities
@@ -299,12 +284,12 @@ where
         for (key, _) in entries.into_iter().take(eviction_count) {
             l2_cache.remove(&key);
         }
-
-        Ok(())
     }
 
     /// Update cache statistics
     async fn update_statistics(&self) {
+        let l2_cache = self.l2_cache.read().await;
+
         // Collect L1 statistics
         let l1_entries = self.l1_cache.len();
         let l1_usage_bytes = self
@@ -314,12 +299,8 @@ where
             .sum();
 
         // Collect L2 statistics
-        let (l2_entries, l2_usage_bytes) = {
-            let l2_cache = self.l2_cache.read().await;
-            let entries = l2_cache.len();
-            let usage_bytes = l2_cache.values().map(|entry| entry.size_bytes).sum();
-            (entries, usage_bytes)
-        };
+        let l2_entries = l2_cache.len();
+        let l2_usage_bytes = l2_cache.values().map(|entry| entry.size_bytes).sum();
 
         // Update statistics in a separate scope
         {
@@ -363,14 +344,17 @@ where
                     stats.l1_stats.hits += 1;
                 }
 
+                let value = entry.value.clone();
+                drop(entry);
+
                 // Record performance metrics
                 self.monitor.record_get_latency(start_time.elapsed()).await;
 
-                return Some(entry.value.clone());
+                return Some(value);
             } else {
                 // Remove expired entry
                 drop(entry);
-                self.l1_cache.remove(key);
+                self.l1_cache.remove_if(key, |_, entry| !entry.is_valid());
             }
         }
 
@@ -385,13 +369,9 @@ where
                     // Promote to L1 if frequently accessed
                     if entry.access_count >= self.config.l1_config.promotion_threshold {
                         let promoted_entry = entry.clone();
-                        l2_cache.remove(key);
-                        drop(l2_cache);
-
-                        if let Err(e) = self.promote_to_l1(key.clone(), promoted_entry).await {
-                            warn!("Failed to promote to L1: {:?}", e);
-                        }
+                        self.promote_to_l1(&mut l2_cache, key.clone(), promoted_entry);
                     }
+                    drop(l2_cache);
 
                     // Update statistics
                     {
@@ -439,13 +419,22 @@ where
         let entry =
             MultiLevelCacheEntry::new(value, self.config.l1_config.default_ttl, 1, size_bytes);
 
-        // Check L1 capacity and evict if necessary
-        if self.l1_cache.len() >= self.config.l1_config.max_entries {
-            self.evict_l1_entries().await?;
-        }
+        {
+            let mut l2_cache = self.l2_cache.write().await;
 
-        // Insert into L1 cache
-        self.l1_cache.insert(key.clone(), entry);
+            // The new value supersedes any copy in L2
+            l2_cache.remove(&key);
+
+            // Check L1 capacity and evict if necessary
+            if !self.l1_cache.contains_key(&key)
+                && self.l1_cache.len() >= self.config.l1_config.max_entries
+            {
+                self.evict_l1_entries(&mut l2_cache);
+            }
+
+            // Insert into L1 cache
+            self.l1_cache.insert(key, entry);
+        }
 
         // Update statistics
         self.update_statistics().await;
@@ -463,11 +452,12 @@ where
 
     /// Remove a value from the cache
     async fn remove(&self, key: &K) -> bool {
-        let l1_removed = self.l1_cache.remove(key).is_some();
-
-        let l2_removed = {
+        let (l1_removed, l2_removed) = {
             let mut l2_cache = self.l2_cache.write().await;
-            l2_cache.remove(key).is_some()
+            (
+                self.l1_cache.remove(key).is_some(),
+                l2_cache.remove(key).is_some(),
+            )
         };
 
         // Update statistics if removed
@@ -504,10 +494,9 @@ where
 
     /// Clear all cache entries
     async fn clear(&self) -> Result<(), CacheError> {
-        self.l1_cache.clear();
-
         {
             let mut l2_cache = self.l2_cache.write().await;
+            self.l1_cache.clear();
             l2_cache.clear();
         }
 
@@ -522,12 +511,8 @@ where
 
     /// Get cache size (total entries across all levels)
     async fn size(&self) -> usize {
-        let l1_size = self.l1_cache.len();
-        let l2_size = {
-            let l2_cache = self.l2_cache.read().await;
-            l2_cache.len()
-        };
-        l1_size + l2_size
+        let l2_cache = self.l2_cache.read().await;
+        self.l1_cache.len() + l2_cache.len()
     }
 
     /// Check if cache is empty
-- 
2.43.0


From c417de519ac001df967c7e669c06d6777dd8a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:13 +0000
Subject: [PATCH 13/26] fix: definition and repository caches treat damaged
 files as misses, notice every source change, keep all keys inside the cache
 and never deadlock

---
 crates/rez-next-package-cache/src/lib.rs | 26 ++++++----
 crates/rez-next-repository/src/cache.rs  | 66 ++++++++++++++----------
 2 files changed, 53 insertions(+), 39 deletions(-)

diff --git a/crates/rez-next-package-cache/src/lib.rs b/crates/rez-next-package-cache/src/lib.rs
index 3c44921..4a7cede 100644
--- a/crates/rez-next-package-cache/src/lib.rs
+++ b/crates/rez-next-package-cache/src/lib.rs
@@ -243,6 +243,14 @@ impl FileCache {
     }
 }
 
+/// Remove a cache file; it is fine if another process removed it first.
+fn remove_cache_file(cache_file: &Path) -> CacheResult<()> {
+    match std::fs::remove_file(cache_file) {
+        Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(e.into()),
+        _ => Ok(()),
+    }
+}
+
 impl CacheBackend for FileCache {
     fn get(&self, path: &Path) -> CacheResult<Option<CachedPackage>> {
         // Check in-memory cache first
@@ -252,10 +260,10 @@ impl CacheBackend for FileCache {
 
         // Check file cache
         let cache_file = self.cache_file_path(path);
-        if cache_file.exists() {
-            let content = std::fs::read_to_string(&cache_file)?;
-            let cached: CachedPackage = serde_json::from_str(&content)?;
-
+        // A cache file that is missing, unreadable or torn is a miss; the next put replaces it
+        if let Ok(content) = std::fs::read_to_string(&cache_file)
+            && let Ok(cached) = serde_json::from_str::<CachedPackage>(&content)
+        {
             // Check if entry is still valid
             if let Ok(metadata) = std::fs::metadata(path)
                 && let Ok(mtime) = metadata.modified()
@@ -267,7 +275,7 @@ impl CacheBackend for FileCache {
             }
 
             // Entry is invalid, remove it
-            std::fs::remove_file(&cache_file)?;
+            let _ = std::fs::remove_file(&cache_file);
         }
 
         Ok(None)
@@ -291,11 +299,7 @@ impl CacheBackend for FileCache {
 
         // Remove from file cache
         let cache_file = self.cache_file_path(path);
-        if cache_file.exists() {
-            std::fs::remove_file(&cache_file)?;
-        }
-
-        Ok(())
+        remove_cache_file(&cache_file)
     }
 
     fn clear(&self) -> CacheResult<()> {
@@ -307,7 +311,7 @@ impl CacheBackend for FileCache {
             let entry = entry?;
             let path = entry.path();
             if path.extension().is_some_and(|ext| ext == "json") {
-                std::fs::remove_file(&path)?;
+                remove_cache_file(&path)?;
             }
         }
 
diff --git a/crates/rez-next-repository/src/cache.rs b/crates/rez-next-repository/src/cache.rs
index 58f76e0..6642c24 100644
--- a/crates/rez-next-repository/src/cache.rs
+++ b/crates/rez-next-repository/src/cache.rs
@@ -21,7 +21,7 @@ pub struct CacheEntry {
     pub ttl: u64,
     /// Source file path
     pub source_path: PathBuf,
-    /// Source file modification time
+    /// Source file modification time (nanoseconds since the Unix epoch)
     pub source_mtime: u64,
 }
 
@@ -41,7 +41,7 @@ impl CacheEntry {
             .map_err(|e| {
                 RezCoreError::Cache(format!("Failed to convert modification time: {}", e))
             })?
-            .as_secs();
+            .as_nanos() as u64;
 
         Ok(Self {
             package,
@@ -60,19 +60,19 @@ impl CacheEntry {
             .unwrap_or(0);
 
         // Check TTL
-        if now > self.timestamp + self.ttl {
+        if now > self.timestamp.saturating_add(self.ttl) {
             return false;
         }
 
-        // Check if source file has been modified
+        // Check if source file has been modified or is gone
         if let Ok(metadata) = std::fs::metadata(&self.source_path)
             && let Ok(mtime) = metadata.modified()
-            && let Ok(mtime_secs) = mtime.duration_since(UNIX_EPOCH)
+            && let Ok(mtime) = mtime.duration_since(UNIX_EPOCH)
         {
-            return mtime_secs.as_secs() <= self.source_mtime;
+            return mtime.as_nanos() as u64 == self.source_mtime;
         }
 
-        true
+        false
     }
 
     /// Get the age of the cache entry in seconds
@@ -198,22 +198,19 @@ impl RepositoryCache {
     ) -> Result<(), RezCoreError> {
         let entry = CacheEntry::new(package, source_path, self.config.default_ttl)?;
 
-        // Write to disk
-        self.write_cache_file(key, &entry).await?;
-
-        // Update in-memory index
         {
+            // Locks are always taken in the order index, statistics
             let mut index = self.index.write().await;
+
+            // Write to disk
+            self.write_cache_file(key, &entry).await?;
+
+            // Update in-memory index
             index.insert(key.to_string(), entry);
-        }
 
-        // Update statistics
-        {
+            // Update statistics
             let mut stats = self.stats.write().await;
-            stats.entries = {
-                let index = self.index.read().await;
-                index.len()
-            };
+            stats.entries = index.len();
         }
 
         // Check if cleanup is needed
@@ -239,10 +236,8 @@ impl RepositoryCache {
 
     /// Clear all cache entries
     pub async fn clear(&self) -> Result<(), RezCoreError> {
-        {
-            let mut index = self.index.write().await;
-            index.clear();
-        }
+        let mut index = self.index.write().await;
+        index.clear();
 
         // Remove all cache files
         if self.config.cache_dir.exists() {
@@ -316,7 +311,7 @@ impl RepositoryCache {
             .unwrap_or(0);
 
         let should_cleanup = match stats.last_cleanup {
-            Some(last) => now > last + self.config.cleanup_interval,
+            Some(last) => now > last.saturating_add(self.config.cleanup_interval),
             None => true,
         };
 
@@ -334,12 +329,13 @@ impl RepositoryCache {
         let index_path = self.config.cache_dir.join("index.json");
 
         if index_path.exists() {
-            let content = fs::read_to_string(&index_path)
+            let content = fs::read(&index_path)
                 .await
                 .map_err(|e| RezCoreError::Cache(format!("Failed to read cache index: {}", e)))?;
 
-            let cache_index: HashMap<String, CacheEntry> = serde_json::from_str(&content)
-                .map_err(|e| RezCoreError::Cache(format!("Failed to parse cache index: {}", e)))?;
+            // A torn or foreign index is no reason to fail: start with an empty cache
+            let cache_index: HashMap<String, CacheEntry> =
+                serde_json::from_slice(&content).unwrap_or_default();
 
             let mut index = self.index.write().await;
             *index = cache_index;
@@ -348,9 +344,23 @@ impl RepositoryCache {
         Ok(())
     }
 
+    /// File of a cache entry; keys may hold any characters and never leave the cache directory
+    fn cache_file(&self, key: &str) -> PathBuf {
+        let mut name = String::new();
+        for b in key.bytes() {
+            match b {
+                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' => {
+                    name.push(b as char)
+                }
+                _ => name.push_str(&format!("%{b:02x}")),
+            }
+        }
+        self.config.cache_dir.join(format!("{name}.json"))
+    }
+
     /// Write a cache entry to disk
     async fn write_cache_file(&self, key: &str, entry: &CacheEntry) -> Result<(), RezCoreError> {
-        let cache_file = self.config.cache_dir.join(format!("{}.json", key));
+        let cache_file = self.cache_file(key);
 
         let content = serde_json::to_string_pretty(entry)
             .map_err(|e| RezCoreError::Cache(format!("Failed to serialize cache entry: {}", e)))?;
@@ -364,7 +374,7 @@ impl RepositoryCache {
 
     /// Remove a cache file from disk
     async fn remove_cache_file(&self, key: &str) -> Result<(), RezCoreError> {
-        let cache_file = self.config.cache_dir.join(format!("{}.json", key));
+        let cache_file = self.cache_file(key);
 
         if cache_file.exists() {
             fs::remove_file(&cache_file)
-- 
2.43.0


From a99b5bcdb1496cbcc56bf6f1fc26a3eef85f88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:07 +0000
Subject: [PATCH 14/26] fix: environment commands compose in sequence: one-pass
 expansion, per-package context, resetenv and stop take effect where they
 stand, PATH is exact on unix

---
 crates/rez-next-context/src/environment.rs    | 22 ++++-
 .../rez-next-context/src/resolved_context.rs  | 89 ++++++++++---------
 crates/rez-next-rex/src/executor.rs           | 81 +++++++++++------
 3 files changed, 123 insertions(+), 69 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index a7719b2..2be2531 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -124,12 +124,19 @@ impl EnvironmentManager {
             |package| package.commands.as_deref(),
             |package| package.post_commands.as_deref(),
         ];
-        for commands_for in command_phases {
+        'phases: for commands_for in command_phases {
             for package in packages {
                 if let Some(commands) = commands_for(package) {
                     let (definitions, actions) = self.rex_effects(package, commands, priority)?;
                     env_definitions.extend(definitions);
                     shell_actions.extend(actions);
+                    if let Some(action) = shell_actions.last()
+                        && matches!(action.action_type, RexActionType::Stop { .. })
+                    {
+                        // stop() ends all command execution
+                        priority += 1;
+                        break 'phases;
+                    }
                 }
                 priority += 1;
             }
@@ -229,6 +236,14 @@ impl EnvironmentManager {
                     Some((name.clone(), EnvOperation::Set(value.clone())))
                 }
                 RexActionType::Unsetenv { name } => Some((name.clone(), EnvOperation::Unset)),
+                // Back to the pre-context value, in sequence with the other commands
+                RexActionType::Resetenv { name } => Some((
+                    name.clone(),
+                    match self.base_env.get(&environment_key(name)) {
+                        Some(value) => EnvOperation::Set(value.clone()),
+                        None => EnvOperation::Unset,
+                    },
+                )),
                 RexActionType::PrependPath {
                     name,
                     value,
@@ -258,6 +273,9 @@ impl EnvironmentManager {
             };
             let Some((name, operation)) = definition else {
                 shell_actions.push(action.clone());
+                if matches!(action.action_type, RexActionType::Stop { .. }) {
+                    break;
+                }
                 continue;
             };
             definitions.push(EnvVarDefinition {
@@ -558,7 +576,7 @@ fn environment_key(name: &str) -> String {
 pub fn normalize_environment_paths(env_vars: &mut HashMap<String, String>) {
     let path_key = env_vars
         .keys()
-        .find(|name| name.eq_ignore_ascii_case("PATH"))
+        .find(|name| cfg!(windows) && name.eq_ignore_ascii_case("PATH"))
         .cloned()
         .unwrap_or_else(|| environment_key("PATH"));
     let Some(path) = env_vars.get_mut(&path_key) else {
diff --git a/crates/rez-next-context/src/resolved_context.rs b/crates/rez-next-context/src/resolved_context.rs
index 83ea4cd..a208ad2 100644
--- a/crates/rez-next-context/src/resolved_context.rs
+++ b/crates/rez-next-context/src/resolved_context.rs
@@ -196,26 +196,17 @@ impl RezResolvedContext {
             let var_name = var_name.trim();
             let value = value.trim_matches('"');
 
-            // Expand variables in the value
-            let expanded_value = self.expand_variables(value, resolved_pkg, environ);
-
-            // Handle path-like variables (containing ${VAR}:)
-            if value.contains(&format!("${{{}}}:", var_name)) {
-                // Append to existing value
-                let existing = environ.get(var_name).cloned().unwrap_or_default();
-                let new_value = expanded_value
-                    .replace(&format!("${{{}}}:", var_name), &format!("{}:", existing));
-                environ.insert(var_name.to_string(), new_value);
-            } else if value.contains(&format!(":${{{}}}", var_name)) {
-                // Prepend to existing value
-                let existing = environ.get(var_name).cloned().unwrap_or_default();
-                let new_value = expanded_value
-                    .replace(&format!(":${{{}}}", var_name), &format!(":{}", existing));
-                environ.insert(var_name.to_string(), new_value);
-            } else {
-                // Simple assignment
-                environ.insert(var_name.to_string(), expanded_value);
-            }
+            // Expand variables in the value; a self reference in a path list is
+            // empty when the variable is not set yet
+            let self_reference = format!("${{{}}}", var_name);
+            let is_path_list = value.contains(&format!("{self_reference}:"))
+                || value.contains(&format!(":{self_reference}"));
+            let expanded_value =
+                self.expand_variables(value, resolved_pkg, |name| match environ.get(name) {
+                    None if is_path_list && name == var_name => Some(String::new()),
+                    current => current.cloned(),
+                });
+            environ.insert(var_name.to_string(), expanded_value);
         }
         Ok(())
     }
@@ -225,29 +216,45 @@ impl RezResolvedContext {
         &self,
         value: &str,
         resolved_pkg: &ResolvedPackage,
-        environ: &HashMap<String, String>,
+        lookup: impl Fn(&str) -> Option<String>,
     ) -> String {
-        let mut result = value.to_string();
-
-        // Expand {root}
-        result = result.replace("{root}", &resolved_pkg.root.to_string_lossy());
-
-        // Expand {version}
-        if let Some(ref version) = resolved_pkg.package.version {
-            result = result.replace("{version}", version.as_str());
-        }
-
-        // Expand {variant_index}
-        if let Some(variant_index) = resolved_pkg.variant_index {
-            result = result.replace("{variant_index}", &variant_index.to_string());
-        }
-
-        // Expand environment variables ${VAR}
-        for (env_var, env_value) in environ {
-            let pattern = format!("${{{}}}", env_var);
-            result = result.replace(&pattern, env_value);
+        // One left-to-right pass: substituted text is never expanded again, so the
+        // result does not depend on the order in which variables are visited.
+        let package_value = |name: &str| match name {
+            "root" => Some(resolved_pkg.root.to_string_lossy().into_owned()),
+            "version" => Some(resolved_pkg.package.version.as_ref()?.as_str().to_string()),
+            "variant_index" => resolved_pkg.variant_index.map(|index| index.to_string()),
+            _ => None,
+        };
+        let mut result = String::with_capacity(value.len());
+        let mut rest = value;
+        while let Some(position) = rest.find('{') {
+            let (before, after) = rest.split_at(position);
+            let name = after[1..].find('}').map(|end| &after[1..end + 1]);
+            let (prefix, replacement) = match name {
+                Some(name) => match (package_value(name), before.strip_suffix('$')) {
+                    (Some(value), _) => (before, Some(value)),
+                    (None, Some(prefix)) => match lookup(name) {
+                        Some(value) => (prefix, Some(value)),
+                        None => (before, None),
+                    },
+                    (None, None) => (before, None),
+                },
+                None => (before, None),
+            };
+            result.push_str(prefix);
+            match (replacement, name) {
+                (Some(value), Some(name)) => {
+                    result.push_str(&value);
+                    rest = &after[name.len() + 2..];
+                }
+                _ => {
+                    result.push('{');
+                    rest = &after[1..];
+                }
+            }
         }
-
+        result.push_str(rest);
         result
     }
 
diff --git a/crates/rez-next-rex/src/executor.rs b/crates/rez-next-rex/src/executor.rs
index 37db3bf..5b27dc8 100644
--- a/crates/rez-next-rex/src/executor.rs
+++ b/crates/rez-next-rex/src/executor.rs
@@ -35,30 +35,24 @@ impl RexExecutor {
         root: Option<&str>,
         version: Option<&str>,
     ) -> Result<RexEnvironment, RezCoreError> {
-        // Set default context vars
+        // Context of this package only: nothing of it is visible to the next call.
+        let mut context = self.context_vars.clone();
         if let Some(root) = root {
-            self.context_vars
-                .insert("root".to_string(), root.to_string());
-            self.context_vars
-                .insert("this.root".to_string(), root.to_string());
+            context.insert("root".to_string(), root.to_string());
+            context.insert("this.root".to_string(), root.to_string());
         }
         if let Some(version) = version {
-            self.context_vars
-                .insert("version".to_string(), version.to_string());
-            self.context_vars
-                .insert("this.version".to_string(), version.to_string());
+            context.insert("version".to_string(), version.to_string());
+            context.insert("this.version".to_string(), version.to_string());
             let mut components = version.split('.');
             for component in ["major", "minor", "patch"] {
                 if let Some(value) = components.next() {
-                    self.context_vars
-                        .insert(format!("this.version.{component}"), value.to_string());
+                    context.insert(format!("this.version.{component}"), value.to_string());
                 }
             }
         }
-        self.context_vars
-            .insert("name".to_string(), package_name.to_string());
-        self.context_vars
-            .insert("this.name".to_string(), package_name.to_string());
+        context.insert("name".to_string(), package_name.to_string());
+        context.insert("this.name".to_string(), package_name.to_string());
 
         // Parse and execute commands (using cached parser for efficiency)
         let parser = crate::parser::get_cached_parser();
@@ -66,7 +60,7 @@ impl RexExecutor {
 
         // Expand variables in actions
         for mut action in raw_actions {
-            action = self.expand_action_vars(action);
+            action = Self::expand_action_vars(action, &context);
             action.source_package = Some(package_name.to_string());
             self.actions.push(action);
         }
@@ -87,16 +81,8 @@ impl RexExecutor {
     }
 
     /// Expand {variable} references in action values
-    fn expand_action_vars(&self, action: RexAction) -> RexAction {
-        let expand = |s: &str| -> String {
-            let mut result = s.to_string();
-            for (key, value) in &self.context_vars {
-                result = result.replace(&format!("{{{}}}", key), value);
-                // Also support $NAME style
-                result = result.replace(&format!("${}", key.to_uppercase()), value);
-            }
-            result
-        };
+    fn expand_action_vars(action: RexAction, context: &HashMap<String, String>) -> RexAction {
+        let expand = |s: &str| expand_references(s, context);
 
         let new_action_type = match action.action_type {
             RexActionType::Setenv { name, value } => RexActionType::Setenv {
@@ -152,6 +138,49 @@ impl RexExecutor {
     }
 }
 
+/// Replace every `{key}` and `$KEY` reference in one left-to-right pass.
+///
+/// Substituted text is never expanded again, and the longest reference wins, so
+/// the result does not depend on the order of the context map.
+fn expand_references(text: &str, context: &HashMap<String, String>) -> String {
+    let mut result = String::with_capacity(text.len());
+    let mut rest = text;
+    while let Some(position) = rest.find(['{', '$']) {
+        result.push_str(&rest[..position]);
+        rest = &rest[position..];
+        let reference = if let Some(inner) = rest.strip_prefix('{') {
+            inner
+                .find('}')
+                .and_then(|end| Some((context.get(&inner[..end])?, end + 2)))
+        } else {
+            context
+                .iter()
+                .filter(|(key, _)| {
+                    rest[1..]
+                        .strip_prefix(&key.to_uppercase())
+                        .is_some_and(|after| {
+                            !after.starts_with(|c: char| c.is_alphanumeric() || c == '_')
+                        })
+                })
+                .max_by(|(left, _), (right, _)| left.len().cmp(&right.len()).then(left.cmp(right)))
+                .map(|(key, value)| (value, 1 + key.to_uppercase().len()))
+        };
+        match reference {
+            Some((value, length)) => {
+                result.push_str(value);
+                rest = &rest[length..];
+            }
+            None => {
+                let (marker, after) = rest.split_at(1);
+                result.push_str(marker);
+                rest = after;
+            }
+        }
+    }
+    result.push_str(rest);
+    result
+}
+
 impl Default for RexExecutor {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From f45f9a4cab93ee1a6a32ca5eea4ef15612b8d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:07 +0000
Subject: [PATCH 15/26] fix: activation scripts quote every value and message
 literally and skip names a shell cannot assign

---
 crates/rez-next-context/src/environment.rs | 24 +++++++----
 crates/rez-next-rex/src/shell.rs           | 50 ++++++++++++++++++----
 src/cli/commands/context.rs                |  7 +--
 src/cli/commands/env.rs                    |  6 ++-
 4 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index 2be2531..606a179 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -414,13 +414,19 @@ impl EnvironmentManager {
         env_vars: &HashMap<String, String>,
     ) -> Result<String, RezCoreError> {
         let mut script = String::new();
+        // Names a POSIX-like shell cannot assign would end the whole script
+        let assignable = || {
+            env_vars
+                .iter()
+                .filter(|(name, _)| rez_next_rex::shell::is_shell_identifier(name))
+        };
 
         match self.config.shell_type {
             ShellType::Bash => {
                 script.push_str("#!/bin/bash\n");
                 script.push_str("# Generated by rez-core\n\n");
 
-                for (name, value) in env_vars {
+                for (name, value) in assignable() {
                     script.push_str(&format!(
                         "export {}=\"{}\"\n",
                         name,
@@ -451,7 +457,7 @@ impl EnvironmentManager {
                 script.push_str("#!/bin/zsh\n");
                 script.push_str("# Generated by rez-core\n\n");
 
-                for (name, value) in env_vars {
+                for (name, value) in assignable() {
                     script.push_str(&format!(
                         "export {}=\"{}\"\n",
                         name,
@@ -463,7 +469,7 @@ impl EnvironmentManager {
                 script.push_str("#!/usr/bin/env fish\n");
                 script.push_str("# Generated by rez-core\n\n");
 
-                for (name, value) in env_vars {
+                for (name, value) in assignable() {
                     script.push_str(&format!(
                         "set -x {} \"{}\"\n",
                         name,
@@ -478,20 +484,20 @@ impl EnvironmentManager {
 
     /// Escape a value for bash/zsh
     fn escape_bash_value(&self, value: &str) -> String {
-        value
-            .replace("\"", "\\\"")
-            .replace("$", "\\$")
-            .replace("`", "\\`")
+        rez_next_rex::shell::escape_bash_value(value)
     }
 
     /// Escape a value for PowerShell
     fn escape_powershell_value(&self, value: &str) -> String {
-        value.replace("\"", "`\"").replace("$", "`$")
+        value
+            .replace("`", "``")
+            .replace("\"", "`\"")
+            .replace("$", "`$")
     }
 
     /// Escape a value for fish shell
     fn escape_fish_value(&self, value: &str) -> String {
-        value.replace("\"", "\\\"").replace("$", "\\$")
+        rez_next_rex::shell::escape_fish_value(value)
     }
 
     /// Get environment variable differences from base environment
diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 97321a1..7395499 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -46,6 +46,33 @@ pub fn generate_shell_script(env: &RexEnvironment, shell: &ShellType) -> String
     }
 }
 
+/// Escape a literal value for a double-quoted bash or zsh string.
+pub fn escape_bash_value(value: &str) -> String {
+    escape_with_backslash(value, &['\\', '"', '$', '`'])
+}
+
+/// Escape a literal value for a double-quoted fish string.
+pub fn escape_fish_value(value: &str) -> String {
+    escape_with_backslash(value, &['\\', '"', '$'])
+}
+
+fn escape_with_backslash(value: &str, special: &[char]) -> String {
+    let mut escaped = String::with_capacity(value.len());
+    for character in value.chars() {
+        if special.contains(&character) {
+            escaped.push('\\');
+        }
+        escaped.push(character);
+    }
+    escaped
+}
+
+/// Whether a name can be assigned as a variable in bash, zsh and fish.
+pub fn is_shell_identifier(name: &str) -> bool {
+    name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+        && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+}
+
 /// Generate bash/zsh activation script
 fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut lines = Vec::new();
@@ -56,9 +83,10 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        // Escape double quotes in value
-        let escaped = value.replace('\\', "\\\\").replace('"', "\\\"");
-        lines.push(format!("export {}=\"{}\"", key, escaped));
+        if !is_shell_identifier(key) {
+            continue; // not expressible as a shell variable
+        }
+        lines.push(format!("export {}=\"{}\"", key, escape_bash_value(value)));
     }
 
     if !env.vars.is_empty() && !env.aliases.is_empty() {
@@ -97,7 +125,7 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Info messages".to_string());
         for msg in &env.info_messages {
-            let escaped = msg.replace('\'', "'\\''");
+            let escaped = msg.replace('\'', "'\\''").replace(['\n', '\r'], " ");
             lines.push(format!("# [info] {}", escaped));
         }
     }
@@ -114,8 +142,10 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        let escaped = value.replace('\\', "\\\\").replace('"', "\\\"");
-        lines.push(format!("set -gx {} \"{}\"", key, escaped));
+        if !is_shell_identifier(key) {
+            continue; // not expressible as a shell variable
+        }
+        lines.push(format!("set -gx {} \"{}\"", key, escape_fish_value(value)));
     }
 
     if !env.vars.is_empty() && !env.aliases.is_empty() {
@@ -125,7 +155,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("alias {} \"{}\"", name, cmd));
+        lines.push(format!("alias {} \"{}\"", name, escape_fish_value(cmd)));
     }
 
     if !env.startup_commands.is_empty() {
@@ -216,7 +246,11 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("Set-Alias -Name {} -Value \"{}\"", name, cmd));
+        let escaped = cmd
+            .replace('`', "``")
+            .replace('"', "`\"")
+            .replace('$', "`$");
+        lines.push(format!("Set-Alias -Name {} -Value \"{}\"", name, escaped));
     }
 
     if !env.startup_commands.is_empty() {
diff --git a/src/cli/commands/context.rs b/src/cli/commands/context.rs
index f93bb42..51beb2a 100644
--- a/src/cli/commands/context.rs
+++ b/src/cli/commands/context.rs
@@ -7,6 +7,7 @@ use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_context::{ContextStatus, ResolvedContext, ResolvedPackage, RezResolvedContext};
 use rez_next_package::Requirement;
+use rez_next_rex::shell::{escape_bash_value, escape_fish_value};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -329,14 +330,14 @@ fn interpret_context(context: &RezResolvedContext, args: &ContextArgs) -> RezCor
         OutputFormat::Bash | OutputFormat::Zsh => {
             for (key, value) in &environ {
                 if is_package_variable(key, context) {
-                    println!("export {}=\"{}\"", key, value);
+                    println!("export {}=\"{}\"", key, escape_bash_value(value));
                 }
             }
         }
         OutputFormat::Fish => {
             for (key, value) in &environ {
                 if is_package_variable(key, context) {
-                    println!("set -x {} \"{}\"", key, value);
+                    println!("set -x {} \"{}\"", key, escape_fish_value(value));
                 }
             }
         }
@@ -350,7 +351,7 @@ fn interpret_context(context: &RezResolvedContext, args: &ContextArgs) -> RezCor
         OutputFormat::PowerShell => {
             for (key, value) in &environ {
                 if is_package_variable(key, context) {
-                    println!("$env:{} = \"{}\"", key, value);
+                    println!("$env:{} = '{}'", key, value.replace('\'', "''"));
                 }
             }
         }
diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index 2256567..20d98f0 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -8,7 +8,9 @@ use rez_next_common::{RezCoreError, config::RezCoreConfig, error::RezCoreResult}
 use rez_next_context::{ContextConfig, EnvironmentManager, ResolvedContext, ShellType};
 use rez_next_package::{PackageRequirement, Requirement};
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
-use rez_next_rex::{RexEnvironment, ShellType as RexShellType, generate_shell_script};
+use rez_next_rex::{
+    RexEnvironment, ShellType as RexShellType, generate_shell_script, shell::escape_bash_value,
+};
 use rez_next_solver::{DependencyResolver, SolverConfig};
 use std::collections::HashMap;
 use std::path::PathBuf;
@@ -446,7 +448,7 @@ fn print_environment(context: &ResolvedContext, args: &EnvArgs) -> RezCoreResult
         _ => {
             // Shell format (default)
             for (key, value) in env_vars.iter() {
-                println!("export {}=\"{}\"", key, value);
+                println!("export {}=\"{}\"", key, escape_bash_value(value));
             }
         }
     }
-- 
2.43.0


From 8de657b9183e2b7300672bbd73e8ef29ad4c62e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:50 +0000
Subject: [PATCH 16/26] fix: a saved package definition or context keeps every
 field: containers, commands, metadata, multi-line lists, escapes in
 package.py and XML, binary form

---
 .../rez-next-package/src/package/methods.rs   | 221 +++++++++---------
 .../rez-next-package/src/package/serialize.rs |   3 +-
 .../src/python_ast_parser/mod.rs              |  42 +++-
 .../src/python_ast_parser/types.rs            |   9 +
 .../src/serialization/load.rs                 | 128 ++++++++--
 .../src/serialization/save.rs                 | 139 ++++++-----
 6 files changed, 350 insertions(+), 192 deletions(-)

diff --git a/crates/rez-next-package/src/package/methods.rs b/crates/rez-next-package/src/package/methods.rs
index b4a1ca4..00a3966 100644
--- a/crates/rez-next-package/src/package/methods.rs
+++ b/crates/rez-next-package/src/package/methods.rs
@@ -273,108 +273,111 @@ impl Package {
         })
     }
 
-    /// Serialize the package to package.py format string.
-    /// Compatible with rez package.py format.
-    pub fn to_package_py(&self) -> String {
-        let mut lines = Vec::new();
-
-        // name (required)
-        lines.push(format!("name = \"{}\"", self.name));
-
-        // version (optional)
-        if let Some(ref version) = self.version {
-            lines.push(format!("version = \"{}\"", version.as_str()));
+    /// Every field that is set, as a package.py attribute name and Python literal.
+    pub(crate) fn python_attributes(&self) -> Vec<(&'static str, String)> {
+        fn text(value: &Option<String>) -> Option<String> {
+            value.as_deref().map(python_string)
         }
-
-        // description (optional)
-        if let Some(ref desc) = self.description {
-            // Escape quotes in description
-            let desc_escaped = desc.replace("\"", "\\\"");
-            lines.push(format!("description = \"{}\"", desc_escaped));
+        fn flag(value: Option<bool>) -> Option<String> {
+            value.map(|v| if v { "True" } else { "False" }.to_string())
         }
-
-        // authors (optional)
-        if !self.authors.is_empty() {
-            let authors_str = self
-                .authors
+        fn list(values: &[String]) -> Option<String> {
+            let items: String = values
                 .iter()
-                .map(|a| format!("\"{}\"", a.replace("\"", "\\\"")))
-                .collect::<Vec<_>>()
-                .join(", ");
-            lines.push(format!("authors = [{}]", authors_str));
+                .map(|v| format!("    {},\n", python_string(v)))
+                .collect();
+            (!values.is_empty()).then(|| format!("[\n{items}]"))
         }
 
-        // requires (optional)
-        if !self.requires.is_empty() {
-            let req_str = self
-                .requires
-                .iter()
-                .map(|r| format!("    \"{}\"", r))
-                .collect::<Vec<_>>()
-                .join(",\n");
-            lines.push(format!("requires = [\n{}\n]", req_str));
-        }
-
-        // build_requires (optional)
-        if !self.build_requires.is_empty() {
-            let req_str = self
-                .build_requires
-                .iter()
-                .map(|r| format!("    \"{}\"", r))
-                .collect::<Vec<_>>()
-                .join(",\n");
-            lines.push(format!("build_requires = [\n{}\n]", req_str));
-        }
+        let variants: String = self
+            .variants
+            .iter()
+            .map(|variant| {
+                let items: Vec<_> = variant.iter().map(|r| python_string(r)).collect();
+                format!("    [{}],\n", items.join(", "))
+            })
+            .collect();
+        let mut tests: Vec<_> = self.tests.iter().collect();
+        tests.sort();
+        let tests: String = tests
+            .into_iter()
+            .map(|(name, command)| {
+                format!("    {}: {},\n", python_string(name), python_string(command))
+            })
+            .collect();
+
+        let attributes = [
+            ("name", Some(python_string(&self.name))),
+            (
+                "version",
+                self.version.as_ref().map(|v| python_string(v.as_str())),
+            ),
+            ("description", text(&self.description)),
+            ("authors", list(&self.authors)),
+            ("requires", list(&self.requires)),
+            ("build_requires", list(&self.build_requires)),
+            ("private_build_requires", list(&self.private_build_requires)),
+            (
+                "variants",
+                (!self.variants.is_empty()).then(|| format!("[\n{variants}]")),
+            ),
+            ("tools", list(&self.tools)),
+            ("uuid", text(&self.uuid)),
+            ("relocatable", flag(self.relocatable)),
+            ("cachable", flag(self.cachable)),
+            ("requires_rez_version", text(&self.requires_rez_version)),
+            ("help", text(&self.help)),
+            ("base", text(&self.base)),
+            ("has_plugins", flag(self.has_plugins)),
+            ("plugin_for", list(&self.plugin_for)),
+            ("hashed_variants", flag(self.hashed_variants)),
+            ("format_version", self.format_version.map(|v| v.to_string())),
+            ("preprocess", text(&self.preprocess)),
+            ("is_dev_package", flag(self.is_dev_package)),
+            ("build_system", text(&self.build_system)),
+            ("build_command", text(&self.build_command)),
+            ("pre_build_commands", text(&self.pre_build_commands)),
+            ("pre_test_commands", text(&self.pre_test_commands)),
+            ("pre_commands", text(&self.pre_commands)),
+            ("commands", text(&self.commands)),
+            ("post_commands", text(&self.post_commands)),
+            (
+                "tests",
+                (!self.tests.is_empty()).then(|| format!("{{\n{tests}}}")),
+            ),
+            ("timestamp", self.timestamp.map(|v| v.to_string())),
+            ("revision", text(&self.revision)),
+            ("changelog", text(&self.changelog)),
+            ("release_message", text(&self.release_message)),
+            (
+                "previous_version",
+                self.previous_version
+                    .as_ref()
+                    .map(|v| python_string(v.as_str())),
+            ),
+            ("previous_revision", text(&self.previous_revision)),
+            ("vcs", text(&self.vcs)),
+        ];
+        attributes
+            .into_iter()
+            .filter_map(|(key, value)| Some((key, value?)))
+            .collect()
+    }
 
-        // private_build_requires (optional)
-        if !self.private_build_requires.is_empty() {
-            let req_str = self
-                .private_build_requires
-                .iter()
-                .map(|r| format!("    \"{}\"", r))
-                .collect::<Vec<_>>()
-                .join(",\n");
-            lines.push(format!("private_build_requires = [\n{}\n]", req_str));
-        }
+    /// Serialize the package to package.py format string.
+    /// Compatible with rez package.py format.
+    pub fn to_package_py(&self) -> String {
+        let mut lines = Vec::new();
 
-        // variants (optional)
-        if !self.variants.is_empty() {
-            let mut variant_lines = Vec::new();
-            for variant in &self.variants {
-                let var_str = variant
-                    .iter()
-                    .map(|r| format!("\"{}\"", r))
-                    .collect::<Vec<_>>()
-                    .join(", ");
-                variant_lines.push(format!("    [{}]", var_str));
+        for (key, value) in self.python_attributes() {
+            match key {
+                // Written as functions below
+                "commands" | "pre_commands" | "post_commands" => {}
+                "relocatable" | "cachable" => {
+                    lines.push(format!("{key} = {}", value.to_lowercase()))
+                }
+                _ => lines.push(format!("{key} = {value}")),
             }
-            lines.push(format!("variants = [\n{}\n]", variant_lines.join(",\n")));
-        }
-
-        // tools (optional)
-        if !self.tools.is_empty() {
-            let tools_str = self
-                .tools
-                .iter()
-                .map(|t| format!("\"{}\"", t))
-                .collect::<Vec<_>>()
-                .join(", ");
-            lines.push(format!("tools = [{}]", tools_str));
-        }
-
-        // uuid (optional)
-        if let Some(ref uuid) = self.uuid {
-            lines.push(format!("uuid = \"{}\"", uuid));
-        }
-
-        // relocatable (optional)
-        if let Some(ref relocatable) = self.relocatable {
-            lines.push(format!("relocatable = {}", relocatable));
-        }
-
-        // cachable (optional)
-        if let Some(ref cachable) = self.cachable {
-            lines.push(format!("cachable = {}", cachable));
         }
 
         // commands function (optional)
@@ -414,20 +417,28 @@ impl Package {
             }
         }
 
-        // tests (optional) - simplified serialization
-        if !self.tests.is_empty() {
-            lines.push("\ntests = {".to_string());
-            for test_name in self.tests.keys() {
-                // Simplified: just add a comment, full serialization is complex
-                lines.push(format!("    \"{}\": {{", test_name));
-                lines.push("        # test definition".to_string());
-                lines.push("    },".to_string());
+        lines.join("\n")
+    }
+}
+
+/// A Python string literal for `text`.
+fn python_string(text: &str) -> String {
+    let mut literal = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => {
+                literal.push('\\');
+                literal.push(c);
             }
-            lines.push("}".to_string());
+            '\n' => literal.push_str("\\n"),
+            '\r' => literal.push_str("\\r"),
+            '\t' => literal.push_str("\\t"),
+            c if c.is_control() => literal.push_str(&format!("\\u{:04x}", c as u32)),
+            c => literal.push(c),
         }
-
-        lines.join("\n")
     }
+    literal.push('"');
+    literal
 }
 
 #[cfg(test)]
diff --git a/crates/rez-next-package/src/package/serialize.rs b/crates/rez-next-package/src/package/serialize.rs
index bc18cf5..99a2b55 100644
--- a/crates/rez-next-package/src/package/serialize.rs
+++ b/crates/rez-next-package/src/package/serialize.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use super::types::Package;
 
 /// Number of fields serialized in the Package struct (excludes `config` and `commands_function`).
-const PACKAGE_SERIALIZED_FIELD_COUNT: usize = 35;
+const PACKAGE_SERIALIZED_FIELD_COUNT: usize = 36;
 
 impl Serialize for Package {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -51,6 +51,7 @@ impl Serialize for Package {
         state.serialize_field("plugin_for", &self.plugin_for)?;
         state.serialize_field("hashed_variants", &self.hashed_variants)?;
         state.serialize_field("preprocess", &self.preprocess)?;
+        state.serialize_field("is_dev_package", &self.is_dev_package)?;
         state.end()
     }
 }
diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index f2253fe..1beba0c 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -204,7 +204,32 @@ impl PythonAstParser {
         let python_value = self.evaluate_expression(value)?;
         self.context
             .variables
-            .insert(var_name.to_string(), python_value);
+            .insert(var_name.to_string(), python_value.clone());
+
+        // Release metadata of other shapes (a revision may be a dictionary) stays an extra field
+        match (var_name, python_value) {
+            ("timestamp", types::PythonValue::Integer(i)) => {
+                package_data.timestamp = Some(i);
+                return Ok(());
+            }
+            (
+                "revision" | "changelog" | "release_message" | "previous_version"
+                | "previous_revision" | "vcs",
+                types::PythonValue::String(s),
+            ) => {
+                let field = match var_name {
+                    "revision" => &mut package_data.revision,
+                    "changelog" => &mut package_data.changelog,
+                    "release_message" => &mut package_data.release_message,
+                    "previous_version" => &mut package_data.previous_version,
+                    "previous_revision" => &mut package_data.previous_revision,
+                    _ => &mut package_data.vcs,
+                };
+                *field = Some(s);
+                return Ok(());
+            }
+            _ => {}
+        }
 
         match var_name {
             "name" => {
@@ -293,6 +318,9 @@ impl PythonAstParser {
             "preprocess" => {
                 package_data.preprocess = Some(self.extract_string_value(value)?);
             }
+            "is_dev_package" => {
+                package_data.is_dev_package = self.extract_bool_value(value)?;
+            }
             _ => {
                 package_data
                     .extra_fields
@@ -402,6 +430,18 @@ impl PythonAstParser {
         package.plugin_for = data.plugin_for;
         package.format_version = data.format_version;
         package.preprocess = data.preprocess;
+        package.is_dev_package = data.is_dev_package;
+        package.timestamp = data.timestamp;
+        package.revision = data.revision;
+        package.changelog = data.changelog;
+        package.release_message = data.release_message;
+        package.previous_version = data
+            .previous_version
+            .map(|v| Version::parse(&v))
+            .transpose()
+            .map_err(|e| RezCoreError::PackageParse(format!("Invalid previous_version: {}", e)))?;
+        package.previous_revision = data.previous_revision;
+        package.vcs = data.vcs;
 
         package.validate()?;
 
diff --git a/crates/rez-next-package/src/python_ast_parser/types.rs b/crates/rez-next-package/src/python_ast_parser/types.rs
index f1a6025..9f285dd 100644
--- a/crates/rez-next-package/src/python_ast_parser/types.rs
+++ b/crates/rez-next-package/src/python_ast_parser/types.rs
@@ -56,6 +56,15 @@ pub(crate) struct PackageData {
     pub plugin_for: Vec<String>,
     pub format_version: Option<i32>,
     pub preprocess: Option<String>,
+    pub is_dev_package: Option<bool>,
+    // Release metadata
+    pub timestamp: Option<i64>,
+    pub revision: Option<String>,
+    pub changelog: Option<String>,
+    pub release_message: Option<String>,
+    pub previous_version: Option<String>,
+    pub previous_revision: Option<String>,
+    pub vcs: Option<String>,
 }
 
 impl PackageData {
diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index b842bc4..9da88fe 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -119,8 +119,15 @@ impl PackageLoader {
 
     /// Shared implementation: build a Package from a JSON-compatible HashMap
     fn load_from_json_data(
-        json_data: HashMap<String, serde_json::Value>,
+        mut json_data: HashMap<String, serde_json::Value>,
     ) -> Result<Package, RezCoreError> {
+        // A definition saved with metadata is wrapped in a container
+        if !json_data.contains_key("name")
+            && let Some(serde_json::Value::Object(package)) = json_data.remove("package")
+        {
+            return Self::load_from_json_data(package.into_iter().collect());
+        }
+
         let name = json_data
             .get("name")
             .and_then(|v| v.as_str())
@@ -211,6 +218,57 @@ impl PackageLoader {
                 .collect();
         }
 
+        let text = |key: &str| {
+            json_data
+                .get(key)
+                .and_then(|v| v.as_str())
+                .map(str::to_string)
+        };
+        let flag = |key: &str| json_data.get(key).and_then(|v| v.as_bool());
+        let integer = |key: &str| json_data.get(key).and_then(|v| v.as_i64());
+
+        package.commands = text("commands");
+        package.build_command = text("build_command");
+        package.build_system = text("build_system");
+        package.pre_commands = text("pre_commands");
+        package.post_commands = text("post_commands");
+        package.pre_test_commands = text("pre_test_commands");
+        package.pre_build_commands = text("pre_build_commands");
+        package.requires_rez_version = text("requires_rez_version");
+        package.uuid = text("uuid");
+        package.help = text("help");
+        package.relocatable = flag("relocatable");
+        package.cachable = flag("cachable");
+        package.timestamp = integer("timestamp");
+        package.revision = text("revision");
+        package.changelog = text("changelog");
+        package.release_message = text("release_message");
+        package.previous_version = text("previous_version")
+            .map(|v| Version::parse(&v))
+            .transpose()
+            .map_err(|e| RezCoreError::PackageParse(format!("Invalid previous_version: {}", e)))?;
+        package.previous_revision = text("previous_revision");
+        package.vcs = text("vcs");
+        package.format_version = integer("format_version").and_then(|v| i32::try_from(v).ok());
+        package.base = text("base");
+        package.has_plugins = flag("has_plugins");
+        package.hashed_variants = flag("hashed_variants");
+        package.preprocess = text("preprocess");
+        package.is_dev_package = flag("is_dev_package");
+        if let Some(plugin_for) = json_data.get("plugin_for").and_then(|v| v.as_array()) {
+            package.plugin_for = plugin_for
+                .iter()
+                .filter_map(|v| v.as_str())
+                .map(str::to_string)
+                .collect();
+        }
+        if let Some(tests) = json_data.get("tests").and_then(|v| v.as_object()) {
+            package.tests = tests
+                .iter()
+                .filter_map(|(name, command)| Some((name.clone(), command.as_str()?.to_string())))
+                .collect();
+        }
+
         package.validate()?;
 
         Ok(package)
@@ -239,34 +297,50 @@ impl PackageLoader {
 
     /// Load a package from XML content (simplified)
     pub fn load_from_xml(content: &str) -> Result<Package, RezCoreError> {
-        let name_start = content
-            .find("<name>")
-            .ok_or_else(|| RezCoreError::PackageParse("Missing <name> tag in XML".to_string()))?;
-        let name_end = content
-            .find("</name>")
-            .ok_or_else(|| RezCoreError::PackageParse("Missing </name> tag in XML".to_string()))?;
+        let element = |tag: &str| -> Option<String> {
+            let (open, close) = (format!("<{tag}>"), format!("</{tag}>"));
+            let start = content.find(&open)? + open.len();
+            let end = start + content[start..].find(&close)?;
+            Some(content[start..end].to_string())
+        };
+        let items = |list: &str, tag: &str| -> Vec<String> {
+            let (open, close) = (format!("<{tag}>"), format!("</{tag}>"));
+            let body = element(list).unwrap_or_default();
+            body.split(open.as_str())
+                .skip(1)
+                .filter_map(|part| part.split(close.as_str()).next())
+                .map(xml_unescape)
+                .collect()
+        };
 
-        let name = content[name_start + 6..name_end].to_string();
-        let mut package = Package::new(name);
+        let name = element("name")
+            .ok_or_else(|| RezCoreError::PackageParse("Missing <name> tag in XML".to_string()))?;
 
-        if let (Some(version_start), Some(version_end)) =
-            (content.find("<version>"), content.find("</version>"))
-        {
-            let version_str = &content[version_start + 9..version_end];
-            if let Ok(version) = Version::parse(version_str) {
-                package.version = Some(version);
+        let mut fields = serde_json::Map::new();
+        // Everything without an element of its own shape is stored as JSON
+        for key in super::save::XML_JSON_FIELDS {
+            if let Some(value) = element(key) {
+                let value = serde_json::from_str(&xml_unescape(&value)).map_err(|e| {
+                    RezCoreError::PackageParse(format!("Invalid <{key}> in XML: {e}"))
+                })?;
+                fields.insert(key.to_string(), value);
             }
         }
-
-        if let (Some(desc_start), Some(desc_end)) = (
-            content.find("<description>"),
-            content.find("</description>"),
-        ) {
-            let description = content[desc_start + 13..desc_end].to_string();
-            package.description = Some(description);
+        fields.insert("name".to_string(), xml_unescape(&name).into());
+        if let Some(version) = element("version") {
+            fields.insert("version".to_string(), xml_unescape(&version).into());
         }
-
-        Ok(package)
+        if let Some(description) = element("description") {
+            fields.insert("description".to_string(), xml_unescape(&description).into());
+        }
+        fields.insert("authors".to_string(), items("authors", "author").into());
+        fields.insert(
+            "requires".to_string(),
+            items("requires", "requirement").into(),
+        );
+
+        serde_json::from_value(serde_json::Value::Object(fields))
+            .map_err(|e| RezCoreError::PackageParse(format!("Failed to parse XML: {}", e)))
     }
 
     /// Read compressed file
@@ -295,3 +369,9 @@ impl PackageLoader {
         Ok(content)
     }
 }
+
+fn xml_unescape(text: &str) -> String {
+    text.replace("&lt;", "<")
+        .replace("&gt;", ">")
+        .replace("&amp;", "&")
+}
diff --git a/crates/rez-next-package/src/serialization/save.rs b/crates/rez-next-package/src/serialization/save.rs
index b060c3f..e0645c2 100644
--- a/crates/rez-next-package/src/serialization/save.rs
+++ b/crates/rez-next-package/src/serialization/save.rs
@@ -231,8 +231,11 @@ impl PackageSaver {
 
         let mut output = String::with_capacity(raw.len() + 64);
         output.push_str("# ---\n");
+        let mut in_sequence = false;
         for line in raw.lines() {
-            if line.starts_with("- ") {
+            // Indent a whole sequence, continuation lines of its items included
+            in_sequence = line.starts_with("- ") || (in_sequence && line.starts_with(' '));
+            if in_sequence {
                 output.push_str("  ");
             }
             output.push_str(line);
@@ -267,61 +270,8 @@ impl PackageSaver {
             content.push_str("# Do not edit manually\n\n");
         }
 
-        content.push_str(&format!("name = \"{}\"\n", package.name));
-
-        if let Some(ref version) = package.version {
-            content.push_str(&format!("version = \"{}\"\n", version.as_str()));
-        }
-
-        if let Some(ref description) = package.description {
-            content.push_str(&format!("description = \"{}\"\n", description));
-        }
-
-        if !package.authors.is_empty() {
-            content.push_str("authors = [\n");
-            for author in &package.authors {
-                content.push_str(&format!("    \"{}\",\n", author));
-            }
-            content.push_str("]\n");
-        }
-
-        if !package.requires.is_empty() {
-            content.push_str("requires = [\n");
-            for req in &package.requires {
-                content.push_str(&format!("    \"{}\",\n", req));
-            }
-            content.push_str("]\n");
-        }
-
-        if !package.build_requires.is_empty() {
-            content.push_str("build_requires = [\n");
-            for req in &package.build_requires {
-                content.push_str(&format!("    \"{}\",\n", req));
-            }
-            content.push_str("]\n");
-        }
-
-        if !package.variants.is_empty() {
-            content.push_str("variants = [\n");
-            for variant in &package.variants {
-                content.push_str("    [");
-                for (i, req) in variant.iter().enumerate() {
-                    if i > 0 {
-                        content.push_str(", ");
-                    }
-                    content.push_str(&format!("\"{}\"", req));
-                }
-                content.push_str("],\n");
-            }
-            content.push_str("]\n");
-        }
-
-        if !package.tools.is_empty() {
-            content.push_str("tools = [\n");
-            for tool in &package.tools {
-                content.push_str(&format!("    \"{}\",\n", tool));
-            }
-            content.push_str("]\n");
+        for (key, value) in package.python_attributes() {
+            content.push_str(&format!("{key} = {value}\n"));
         }
 
         Ok(content)
@@ -358,20 +308,26 @@ impl PackageSaver {
         }
 
         content.push_str("<package>\n");
-        content.push_str(&format!("  <name>{}</name>\n", package.name));
+        content.push_str(&format!("  <name>{}</name>\n", xml_escape(&package.name)));
 
         if let Some(ref version) = package.version {
-            content.push_str(&format!("  <version>{}</version>\n", version.as_str()));
+            content.push_str(&format!(
+                "  <version>{}</version>\n",
+                xml_escape(version.as_str())
+            ));
         }
 
         if let Some(ref description) = package.description {
-            content.push_str(&format!("  <description>{}</description>\n", description));
+            content.push_str(&format!(
+                "  <description>{}</description>\n",
+                xml_escape(description)
+            ));
         }
 
         if !package.authors.is_empty() {
             content.push_str("  <authors>\n");
             for author in &package.authors {
-                content.push_str(&format!("    <author>{}</author>\n", author));
+                content.push_str(&format!("    <author>{}</author>\n", xml_escape(author)));
             }
             content.push_str("  </authors>\n");
         }
@@ -379,11 +335,31 @@ impl PackageSaver {
         if !package.requires.is_empty() {
             content.push_str("  <requires>\n");
             for req in &package.requires {
-                content.push_str(&format!("    <requirement>{}</requirement>\n", req));
+                content.push_str(&format!(
+                    "    <requirement>{}</requirement>\n",
+                    xml_escape(req)
+                ));
             }
             content.push_str("  </requires>\n");
         }
 
+        // Everything without an element of its own shape is stored as JSON
+        let fields = serde_json::to_value(package).map_err(|e| {
+            RezCoreError::PackageParse(format!("Failed to serialize to XML: {}", e))
+        })?;
+        for key in XML_JSON_FIELDS {
+            let value = &fields[*key];
+            let empty = value.is_null()
+                || value.as_array().is_some_and(|v| v.is_empty())
+                || value.as_object().is_some_and(|v| v.is_empty());
+            if !empty {
+                content.push_str(&format!(
+                    "  <{key}>{}</{key}>\n",
+                    xml_escape(&value.to_string())
+                ));
+            }
+        }
+
         content.push_str("</package>\n");
 
         Ok(content)
@@ -425,6 +401,47 @@ impl PackageSaver {
     }
 }
 
+/// Fields an XML definition stores as JSON text.
+pub(super) const XML_JSON_FIELDS: &[&str] = &[
+    "build_requires",
+    "private_build_requires",
+    "variants",
+    "tools",
+    "commands",
+    "build_command",
+    "build_system",
+    "pre_commands",
+    "post_commands",
+    "pre_test_commands",
+    "pre_build_commands",
+    "tests",
+    "requires_rez_version",
+    "uuid",
+    "help",
+    "relocatable",
+    "cachable",
+    "timestamp",
+    "revision",
+    "changelog",
+    "release_message",
+    "previous_version",
+    "previous_revision",
+    "vcs",
+    "format_version",
+    "base",
+    "has_plugins",
+    "plugin_for",
+    "hashed_variants",
+    "preprocess",
+    "is_dev_package",
+];
+
+fn xml_escape(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 /// Convert YAML value to JSON value
 pub fn yaml_to_json_value(yaml_value: serde_yaml::Value) -> serde_json::Value {
     match yaml_value {
-- 
2.43.0


From 8965b8d904963e3bd59453796aee8af130fbf658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:28 +0000
Subject: [PATCH 17/26] fix: suites honour tool prefixes and context priority,
 and are saved atomically

Prefix and priority were stored but ignored when tools were collected, and
contexts of equal priority were visited in hash order. Saving replaced the
suite file in place, so an interrupted save left a truncated suite.
---
 crates/rez-next-suites/src/suite.rs         | 107 +++++++++++---------
 crates/rez-next-suites/src/suite_manager.rs |   5 +-
 src/cli/commands/suites.rs                  |   7 +-
 3 files changed, 63 insertions(+), 56 deletions(-)

diff --git a/crates/rez-next-suites/src/suite.rs b/crates/rez-next-suites/src/suite.rs
index 67887cb..0a675b1 100644
--- a/crates/rez-next-suites/src/suite.rs
+++ b/crates/rez-next-suites/src/suite.rs
@@ -165,65 +165,66 @@ impl Suite {
     /// Returns a map of tool_name -> SuiteTool
     pub fn get_tools(&self) -> Result<HashMap<String, SuiteTool>, SuiteError> {
         let mut tools: HashMap<String, SuiteTool> = HashMap::new();
-        let mut conflicts: HashMap<String, Vec<String>> = HashMap::new();
 
-        for ctx in &self.contexts {
-            if ctx.disabled {
-                continue;
-            }
+        // The context with the higher priority wins a name, contexts of equal priority follow the
+        // conflict mode
+        let mut contexts: Vec<&SuiteContext> =
+            self.contexts.iter().filter(|c| !c.disabled).collect();
+        contexts.sort_by_key(|c| std::cmp::Reverse(c.priority));
 
+        for ctx in contexts {
             // Generate tool entries for this context
             // Since we don't have actual resolved contexts here (that would require async),
             // we use the alias map and any known tools
-            for (alias, original) in &ctx.tool_aliases {
-                if !ctx.is_tool_visible(original) {
-                    continue;
-                }
-
-                let tool = SuiteTool::new(
-                    alias.clone(),
+            let mut aliases: Vec<_> = ctx
+                .tool_aliases
+                .iter()
+                .filter(|(_, original)| ctx.is_tool_visible(original))
+                .collect();
+            aliases.sort();
+            let (free, taken): (Vec<_>, Vec<_>) = aliases
+                .into_iter()
+                .map(|(alias, original)| (ctx.get_prefixed_tool_name(alias), original))
+                .partition(|(name, _)| !tools.contains_key(name));
+
+            let tool = |name: String, original: &String| {
+                SuiteTool::new(
+                    name,
                     original.clone(),
                     ctx.name.clone(),
                     ctx.requests.first().cloned().unwrap_or_default(),
-                );
-
-                if let Some(existing) = tools.get(&tool.name) {
-                    conflicts
-                        .entry(tool.name.clone())
-                        .or_default()
-                        .push(existing.context_name.clone());
-                    conflicts
-                        .entry(tool.name.clone())
-                        .or_default()
-                        .push(ctx.name.clone());
-
-                    match self.conflict_mode {
-                        ToolConflictMode::Error => {
-                            return Err(SuiteError::ToolConflict {
-                                tool: tool.name.clone(),
-                                contexts: conflicts[&tool.name].join(", "),
-                            });
-                        }
-                        ToolConflictMode::First => {
-                            // Keep existing, skip this one
-                        }
-                        ToolConflictMode::Last => {
-                            tools.insert(tool.name.clone(), tool);
-                        }
-                        ToolConflictMode::Prefix => {
-                            // Rename with context prefix
-                            let prefixed_name = format!("{}_{}", ctx.name, alias);
-                            let prefixed_tool = SuiteTool::new(
-                                prefixed_name.clone(),
-                                original.clone(),
-                                ctx.name.clone(),
-                                ctx.requests.first().cloned().unwrap_or_default(),
-                            );
-                            tools.insert(prefixed_name, prefixed_tool);
+                )
+            };
+            for (name, original) in free {
+                tools.insert(name.clone(), tool(name, original));
+            }
+
+            for (name, original) in taken {
+                let owner = &tools[&name].context_name;
+                let conflict = SuiteError::ToolConflict {
+                    tool: name.clone(),
+                    contexts: format!("{}, {}", owner, ctx.name),
+                };
+                let outranked = self
+                    .get_context(owner)
+                    .is_some_and(|c| c.priority > ctx.priority);
+
+                match self.conflict_mode {
+                    ToolConflictMode::Prefix => {
+                        // Rename with context prefix
+                        let prefixed_name = format!("{}_{}", ctx.name, name);
+                        if tools.contains_key(&prefixed_name) {
+                            return Err(conflict);
                         }
+                        tools.insert(prefixed_name.clone(), tool(prefixed_name, original));
+                    }
+                    ToolConflictMode::Error if !outranked => return Err(conflict),
+                    ToolConflictMode::Last if !outranked => {
+                        tools.insert(name.clone(), tool(name, original));
+                    }
+                    _ => {
+                        // Keep existing, skip this one
                     }
-                } else {
-                    tools.insert(tool.name.clone(), tool);
                 }
             }
         }
@@ -248,7 +249,13 @@ impl Suite {
             .map_err(|e| SuiteError::Serialization(e.to_string()))?;
 
         let suite_yaml_path = path.join("suite.yaml");
-        std::fs::write(&suite_yaml_path, yaml)?;
+        // A truncated file could still be valid YAML, so never leave one behind
+        let unfinished = path.join(format!(".suite.yaml.{}", std::process::id()));
+        std::fs::write(&unfinished, yaml)
+            .and_then(|()| std::fs::rename(&unfinished, &suite_yaml_path))
+            .inspect_err(|_| {
+                let _ = std::fs::remove_file(&unfinished);
+            })?;
 
         // Create bin directory with tool scripts
         let bin_dir = path.join("bin");
diff --git a/crates/rez-next-suites/src/suite_manager.rs b/crates/rez-next-suites/src/suite_manager.rs
index 81a7ba9..a5936cd 100644
--- a/crates/rez-next-suites/src/suite_manager.rs
+++ b/crates/rez-next-suites/src/suite_manager.rs
@@ -38,8 +38,9 @@ impl SuiteManager {
             }
 
             if let Ok(entries) = std::fs::read_dir(base_path) {
-                for entry in entries.flatten() {
-                    let path = entry.path();
+                let mut paths: Vec<_> = entries.flatten().map(|entry| entry.path()).collect();
+                paths.sort();
+                for path in paths {
                     if path.is_dir() && Suite::is_suite(&path) {
                         suites.push(path);
                     }
diff --git a/src/cli/commands/suites.rs b/src/cli/commands/suites.rs
index a0a9daa..eaa31c6 100644
--- a/src/cli/commands/suites.rs
+++ b/src/cli/commands/suites.rs
@@ -256,10 +256,9 @@ fn cmd_add_context(args: AddContextArgs) -> RezCoreResult<()> {
         .add_context(args.context_name.clone(), args.requests.clone())
         .map_err(|e| RezCoreError::ExecutionError(e.to_string()))?;
 
-    if let Some(prefix) = args.prefix
-        && let Some(ctx) = suite.get_context_mut(&args.context_name)
-    {
-        ctx.prefix = Some(prefix);
+    if let Some(ctx) = suite.get_context_mut(&args.context_name) {
+        ctx.prefix = args.prefix;
+        ctx.priority = args.priority;
     }
 
     suite
-- 
2.43.0


From 938f55de29f6b59e91584d448cdcd47f9aac2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:03 +0000
Subject: [PATCH 18/26] fix: package filters: range rules match their family,
 version globs match, plain-data forms keep families and timestamp bounds

Range rules of the package filter ignored the package name, timestamp rules
were written in a form that reads back differently or not at all, and family
scopes were lost. In the filter crate, globs on the version field never
matched, a star did not cross newlines, backslashes were taken as regex
escapes, family scopes of rules were ignored, ranges with a dash in a version
were read as a family, and a filter with only one kind of rule could not be
deserialised.
---
 crates/rez-next-package-filter/src/filter.rs |   4 +-
 crates/rez-next-package-filter/src/rule.rs   |  24 +++--
 crates/rez-next-package/src/filter.rs        | 106 +++++++++----------
 3 files changed, 73 insertions(+), 61 deletions(-)

diff --git a/crates/rez-next-package-filter/src/filter.rs b/crates/rez-next-package-filter/src/filter.rs
index 8530f1c..9ef6fb2 100644
--- a/crates/rez-next-package-filter/src/filter.rs
+++ b/crates/rez-next-package-filter/src/filter.rs
@@ -18,12 +18,12 @@ use super::RuleMatch;
 #[derive(Debug, Clone, Default, Serialize, Deserialize)]
 pub struct PackageFilter {
     /// Exclusion rules - packages matching any of these are excluded
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub exclusions: Vec<RulePod>,
 
     /// Inclusion rules - packages matching any of these are included
     /// (overrides exclusion)
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub inclusions: Vec<RulePod>,
 
     /// Cache for computed SHA1 (lazily computed)
diff --git a/crates/rez-next-package-filter/src/rule.rs b/crates/rez-next-package-filter/src/rule.rs
index 3420a0b..8f0f675 100644
--- a/crates/rez-next-package-filter/src/rule.rs
+++ b/crates/rez-next-package-filter/src/rule.rs
@@ -141,13 +141,13 @@ impl GlobRule {
     fn matches_glob(pattern: &str, text: &str) -> bool {
         // Convert glob pattern to regex
         let mut regex_pattern = String::with_capacity(pattern.len() * 2);
-        regex_pattern.push('^');
+        regex_pattern.push_str("(?s)^");
 
         for c in pattern.chars() {
             match c {
                 '*' => regex_pattern.push_str(".*"),
                 '?' => regex_pattern.push('.'),
-                '.' | '(' | ')' | '[' | ']' | '{' | '}' | '|' | '^' | '$' | '+' => {
+                '.' | '(' | ')' | '[' | ']' | '{' | '}' | '|' | '^' | '$' | '+' | '\\' => {
                     regex_pattern.push('\\');
                     regex_pattern.push(c);
                 }
@@ -167,9 +167,12 @@ impl GlobRule {
 
 impl Rule for GlobRule {
     fn apply(&self, package: &Package) -> RuleMatch {
+        if self.family().is_some_and(|family| package.name != family) {
+            return RuleMatch::DoesNotMatch;
+        }
         let text = match self.field {
             GlobField::Name => &package.name,
-            GlobField::Version => return RuleMatch::DoesNotMatch, // Version is a struct
+            GlobField::Version => package.version.as_ref().map_or("", |v| v.as_str()),
             GlobField::Description => package.description.as_deref().unwrap_or(""),
         };
 
@@ -293,6 +296,9 @@ impl RegexRule {
 
 impl Rule for RegexRule {
     fn apply(&self, package: &Package) -> RuleMatch {
+        if self.family().is_some_and(|family| package.name != family) {
+            return RuleMatch::DoesNotMatch;
+        }
         let text = match self.field {
             RegexField::Name => &package.name,
             RegexField::Description => package.description.as_deref().unwrap_or(""),
@@ -386,8 +392,10 @@ impl RangeRule {
         // Try to auto-detect "family-version_range" format
         // e.g, "maya-2024" -> family="maya", range="2024"
         if let Some((family, range_str)) = inner.split_once('-') {
-            // Check if the second part looks like a version range
-            if let Ok(range) = VersionRange::parse(range_str) {
+            // Check if the first part looks like a package name and the second part
+            // like a version range ("1.0-beta" and ">=1.0-beta" have no family)
+            let is_name = family.starts_with(|c: char| c.is_alphabetic() || c == '_');
+            if is_name && let Ok(range) = VersionRange::parse(range_str) {
                 return Ok(Box::new(RangeRule {
                     range,
                     family: Some(family.to_string()),
@@ -443,7 +451,7 @@ impl Rule for RangeRule {
 
 impl fmt::Display for RangeRule {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "range({})", self.range.range_str)
+        write!(f, "range({})", self.to_pod().1)
     }
 }
 
@@ -516,6 +524,10 @@ impl TimestampRule {
 
 impl Rule for TimestampRule {
     fn apply(&self, package: &Package) -> RuleMatch {
+        if self.family().is_some_and(|family| package.name != family) {
+            return RuleMatch::DoesNotMatch;
+        }
+
         // Check package timestamp (package.timestamp is Option<i64>)
         if let Some(ts) = package.timestamp {
             if ts < 0 {
diff --git a/crates/rez-next-package/src/filter.rs b/crates/rez-next-package/src/filter.rs
index 30f61f5..9607ed4 100644
--- a/crates/rez-next-package/src/filter.rs
+++ b/crates/rez-next-package/src/filter.rs
@@ -145,14 +145,13 @@ impl RangeRule {
 
 impl Rule for RangeRule {
     fn matches(&self, package: &Package) -> bool {
-        if let Some(ref version) = package.version {
-            if let Some(ref vc) = self.requirement.version_constraint {
-                vc.is_satisfied_by(version)
-            } else {
-                false
-            }
-        } else {
-            false
+        if package.name != self.requirement.name {
+            return false;
+        }
+        match (&self.requirement.version_constraint, &package.version) {
+            (None, _) => true,
+            (Some(constraint), Some(version)) => constraint.is_satisfied_by(version),
+            (Some(_), None) => false,
         }
     }
 
@@ -251,8 +250,8 @@ impl Rule for TimestampRule {
 
     fn to_pod(&self) -> String {
         let prefix = if self.before { "before" } else { "after" };
-        let incl = if self.inclusive { ":" } else { "" };
-        format!("timestamp({}{}{})", prefix, incl, self.timestamp)
+        let incl = if self.inclusive { "at_or_" } else { "" };
+        format!("timestamp({}{}:{})", incl, prefix, self.timestamp)
     }
 
     fn clone_box(&self) -> Box<dyn Rule + Send + Sync> {
@@ -383,27 +382,24 @@ impl PackageFilter {
     }
 
     /// Convert the filter to POD format for serialization.
+    ///
+    /// Rules for all packages are listed under `excludes` and `includes`, rules for
+    /// one package family under `excludes:<family>` and `includes:<family>`.
     pub fn to_pod(&self) -> HashMap<String, Vec<String>> {
         let mut pod = HashMap::new();
 
-        let excludes: Vec<String> = self
-            .excludes
-            .values()
-            .flatten()
-            .map(|r| r.to_pod())
-            .collect();
-        if !excludes.is_empty() {
-            pod.insert("excludes".to_string(), excludes);
-        }
-
-        let includes: Vec<String> = self
-            .includes
-            .values()
-            .flatten()
-            .map(|r| r.to_pod())
-            .collect();
-        if !includes.is_empty() {
-            pod.insert("includes".to_string(), includes);
+        for (kind, rules_by_family) in [("excludes", &self.excludes), ("includes", &self.includes)]
+        {
+            for (family, rules) in rules_by_family {
+                if rules.is_empty() {
+                    continue;
+                }
+                let key = match family {
+                    Some(family) => format!("{}:{}", kind, family),
+                    None => kind.to_string(),
+                };
+                pod.insert(key, rules.iter().map(|r| r.to_pod()).collect());
+            }
         }
 
         pod
@@ -413,22 +409,26 @@ impl PackageFilter {
     pub fn from_pod(pod: &HashMap<String, Vec<String>>) -> Result<Self, String> {
         let mut filter = PackageFilter::new();
 
-        if let Some(excludes) = pod.get("excludes") {
-            for rule_str in excludes {
-                if let Some(rule) = parse_rule(rule_str) {
-                    filter.add_exclusion(None, rule);
-                } else {
-                    return Err(format!("Failed to parse exclusion rule: {}", rule_str));
-                }
-            }
-        }
-
-        if let Some(includes) = pod.get("includes") {
-            for rule_str in includes {
-                if let Some(rule) = parse_rule(rule_str) {
-                    filter.add_inclusion(None, rule);
-                } else {
-                    return Err(format!("Failed to parse inclusion rule: {}", rule_str));
+        for (key, rules) in pod {
+            let (kind, family) = match key.split_once(':') {
+                Some((kind, family)) => (kind, Some(family)),
+                None => (key.as_str(), None),
+            };
+            for rule_str in rules {
+                match kind {
+                    "excludes" => {
+                        let rule = parse_rule(rule_str).ok_or_else(|| {
+                            format!("Failed to parse exclusion rule: {}", rule_str)
+                        })?;
+                        filter.add_exclusion(family, rule);
+                    }
+                    "includes" => {
+                        let rule = parse_rule(rule_str).ok_or_else(|| {
+                            format!("Failed to parse inclusion rule: {}", rule_str)
+                        })?;
+                        filter.add_inclusion(family, rule);
+                    }
+                    _ => {}
                 }
             }
         }
@@ -506,6 +506,7 @@ impl fmt::Display for PackageFilterList {
 /// - `regex(pattern)` - Regex pattern
 /// - `range(req)` - Version range
 /// - `timestamp(before:ts)` or `timestamp(after:ts)` - Timestamp rule
+/// - `timestamp(at_or_before:ts)` or `timestamp(at_or_after:ts)` - Inclusive timestamp rule
 pub fn parse_rule(s: &str) -> Option<Box<dyn Rule + Send + Sync>> {
     let s = s.trim();
 
@@ -535,15 +536,14 @@ pub fn parse_rule(s: &str) -> Option<Box<dyn Rule + Send + Sync>> {
         let parts: Vec<&str> = inner.splitn(2, ':').collect();
         if parts.len() == 2 {
             let timestamp = parts[1].parse::<i64>().ok()?;
-            if parts[0] == "before" {
-                return Some(
-                    Box::new(TimestampRule::before(timestamp)) as Box<dyn Rule + Send + Sync>
-                );
-            } else if parts[0] == "after" {
-                return Some(
-                    Box::new(TimestampRule::after(timestamp)) as Box<dyn Rule + Send + Sync>
-                );
-            }
+            let rule = match parts[0] {
+                "before" => TimestampRule::before(timestamp),
+                "after" => TimestampRule::after(timestamp),
+                "at_or_before" => TimestampRule::at_or_before(timestamp),
+                "at_or_after" => TimestampRule::at_or_after(timestamp),
+                _ => return None,
+            };
+            return Some(Box::new(rule) as Box<dyn Rule + Send + Sync>);
         }
     }
 
-- 
2.43.0


From 3f957688c68386637967915ad92e73c61accdcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:19 +0000
Subject: [PATCH 19/26] fix: package orderers accept packages without a
 version, order families deterministically and read back per-family orders

---
 crates/rez-next-package/src/package_order.rs | 29 ++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/crates/rez-next-package/src/package_order.rs b/crates/rez-next-package/src/package_order.rs
index 68a33b8..7d7fa06 100644
--- a/crates/rez-next-package/src/package_order.rs
+++ b/crates/rez-next-package/src/package_order.rs
@@ -3,7 +3,7 @@
 //! This module provides version ordering strategies for packages,
 //! allowing users to customize how package versions are sorted.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::package::Package;
 use rez_next_version::Version;
@@ -200,8 +200,15 @@ impl PackageOrder for VersionSplitPackageOrder {
             }
         }
 
-        before.sort_by(|a, b| a.version.as_ref().unwrap().cmp(b.version.as_ref().unwrap()));
-        after.sort_by(|a, b| a.version.as_ref().unwrap().cmp(b.version.as_ref().unwrap()));
+        // Packages without a version come last, as in SortedOrder
+        let by_version = |a: &Package, b: &Package| match (&a.version, &b.version) {
+            (Some(av), Some(bv)) => av.cmp(bv),
+            (Some(_), None) => std::cmp::Ordering::Less,
+            (None, Some(_)) => std::cmp::Ordering::Greater,
+            (None, None) => std::cmp::Ordering::Equal,
+        };
+        before.sort_by(by_version);
+        after.sort_by(by_version);
 
         let mut result = before;
         result.extend(after);
@@ -251,8 +258,8 @@ impl PackageOrder for PerFamilyOrder {
     }
 
     fn reorder(&self, packages: &[Package]) -> Option<Vec<Package>> {
-        // Group by family
-        let mut grouped: HashMap<String, Vec<Package>> = HashMap::new();
+        // Group by family, sorted by name so that the result is deterministic
+        let mut grouped: BTreeMap<String, Vec<Package>> = BTreeMap::new();
         for pkg in packages {
             grouped
                 .entry(pkg.name.clone())
@@ -477,6 +484,18 @@ pub fn from_pod(data: &serde_json::Value) -> Option<Box<dyn PackageOrder>> {
                 timestamp, rank, packages,
             )))
         }
+        "per_family" => {
+            let mut order_dict = HashMap::new();
+            for (family, order) in data.get("order_dict")?.as_object()? {
+                order_dict.insert(family.clone(), from_pod(order)?);
+            }
+            let default_order = match data.get("default_order") {
+                None | Some(serde_json::Value::Null) => None,
+                Some(order) => Some(from_pod(order)?),
+            };
+
+            Some(Box::new(PerFamilyOrder::new(order_dict, default_order)))
+        }
         _ => None,
     }
 }
-- 
2.43.0


From 59bfa0c42cf4854f37d3c3192e4629acbac14823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:44 +0000
Subject: [PATCH 20/26] fix: configuration files are layered field by field,
 REZ_CONFIG_FILE is split at path separators, environment overrides always
 apply

A configuration file that did not set every field was ignored as a whole, and
one that did hid all others. REZ_CONFIG_FILE was split at directory
separators. In rez-next-config an override below a scalar was dropped and a
variable that is not valid UTF-8 made loading panic.
---
 crates/rez-next-common/src/config.rs | 49 ++++++++++++++++++----------
 crates/rez-next-config/src/lib.rs    | 10 +++++-
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/crates/rez-next-common/src/config.rs b/crates/rez-next-common/src/config.rs
index b08dff6..6f30494 100644
--- a/crates/rez-next-common/src/config.rs
+++ b/crates/rez-next-common/src/config.rs
@@ -151,9 +151,7 @@ impl RezCoreConfig {
 
         // 2. Environment variable REZ_CONFIG_FILE
         if let Ok(config_file) = env::var("REZ_CONFIG_FILE") {
-            for path in config_file.split(std::path::MAIN_SEPARATOR) {
-                paths.push(PathBuf::from(path));
-            }
+            paths.extend(split_env_paths(&config_file).into_iter().map(PathBuf::from));
         }
 
         // 3. System-wide config
@@ -204,21 +202,22 @@ impl RezCoreConfig {
     pub fn load() -> Self {
         let mut config = Self::default();
 
-        // Try to load from config files in priority order
-        for path in Self::get_search_paths() {
-            if path.exists()
-                && let Ok(content) = std::fs::read_to_string(&path)
-            {
-                // Try YAML format
-                if let Ok(loaded) = serde_yaml::from_str::<RezCoreConfig>(&content) {
-                    config = loaded;
-                    break;
-                }
-                // Try JSON format
-                if let Ok(loaded) = serde_json::from_str::<RezCoreConfig>(&content) {
-                    config = loaded;
-                    break;
-                }
+        // Apply config files from lowest to highest priority: a file overrides only
+        // the fields it sets, and a file that cannot be applied is skipped.
+        for path in Self::get_search_paths().into_iter().rev() {
+            let Ok(content) = std::fs::read_to_string(&path) else {
+                continue;
+            };
+            // Try YAML format, then JSON format
+            let layer = serde_yaml::from_str::<serde_json::Value>(&content)
+                .ok()
+                .or_else(|| serde_json::from_str(&content).ok());
+            let (Some(layer), Ok(mut merged)) = (layer, serde_json::to_value(&config)) else {
+                continue;
+            };
+            merge_layer(&mut merged, layer);
+            if let Ok(loaded) = serde_json::from_value(merged) {
+                config = loaded;
             }
         }
 
@@ -253,6 +252,20 @@ impl RezCoreConfig {
     }
 }
 
+/// Override the fields of `base` that `layer` sets.
+fn merge_layer(base: &mut serde_json::Value, layer: serde_json::Value) {
+    match (base, layer) {
+        (serde_json::Value::Object(base), serde_json::Value::Object(layer)) => {
+            for (key, value) in layer {
+                merge_layer(base.entry(key).or_insert(serde_json::Value::Null), value);
+            }
+        }
+        // A section without entries sets nothing
+        (serde_json::Value::Object(_), serde_json::Value::Null) => {}
+        (base, value) => *base = value,
+    }
+}
+
 fn split_env_paths(paths: &str) -> Vec<String> {
     let separator = if cfg!(windows) { ';' } else { ':' };
     paths
diff --git a/crates/rez-next-config/src/lib.rs b/crates/rez-next-config/src/lib.rs
index 9d08151..97b93ef 100644
--- a/crates/rez-next-config/src/lib.rs
+++ b/crates/rez-next-config/src/lib.rs
@@ -266,7 +266,12 @@ impl Config {
     /// plain strings are stored as strings.
     fn apply_env_overrides(&mut self) -> Result<(), ConfigError> {
         let mut count = 0usize;
-        for (key, value) in env::vars() {
+        // Sorted, so that the result does not depend on the order of the environment
+        let mut overrides: Vec<(String, String)> = env::vars_os()
+            .filter_map(|(key, value)| Some((key.into_string().ok()?, value.into_string().ok()?)))
+            .collect();
+        overrides.sort();
+        for (key, value) in overrides {
             if let Some(config_key) = key.strip_prefix("REZ_") {
                 let dotted = config_key.to_lowercase().replace('_', ".");
                 let parsed: JsonValue = serde_json::from_str(&value)
@@ -355,6 +360,9 @@ fn set_nested_value(root: &mut JsonValue, dotted_key: &str, value: JsonValue) {
         return;
     }
     let target = get_or_create_nested(root, &segments[..segments.len() - 1]);
+    if !target.is_object() {
+        *target = JsonValue::Object(serde_json::Map::new());
+    }
     if let Some(obj) = target.as_object_mut() {
         obj.insert(segments.last().unwrap().to_string(), value);
     }
-- 
2.43.0


From 8207096093934a8474b936414d362805f6002776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:56 +0000
Subject: [PATCH 21/26] fix: package search finds the packages it is asked for:
 families are listed, newest version by version order, limits apply after
 sorting, results are deterministic, descriptions truncate safely

---
 .../rez-next-repository/src/package_search.rs |   3 +-
 crates/rez-next-search/src/searcher.rs        |  48 +++---
 src/cli/commands/search_v2/display.rs         |  10 +-
 src/cli/commands/search_v2/filter.rs          |  16 +-
 src/cli/commands/search_v2/matcher.rs         | 149 +++++-------------
 5 files changed, 83 insertions(+), 143 deletions(-)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index d6ca898..24d82d9 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -224,8 +224,9 @@ fn package_depends_on(pkg: &Package, target_package: &str, include_build_require
 fn get_default_package_paths() -> Vec<String> {
     // Check REZ_PACKAGES_PATH environment variable
     if let Ok(paths_str) = std::env::var("REZ_PACKAGES_PATH") {
+        let separator = if cfg!(windows) { ';' } else { ':' };
         return paths_str
-            .split(';')
+            .split(separator)
             .map(|s| s.trim().to_string())
             .filter(|s| !s.is_empty())
             .collect();
diff --git a/crates/rez-next-search/src/searcher.rs b/crates/rez-next-search/src/searcher.rs
index 2192aec..66d3f4d 100644
--- a/crates/rez-next-search/src/searcher.rs
+++ b/crates/rez-next-search/src/searcher.rs
@@ -3,8 +3,10 @@
 use crate::filter::SearchFilter;
 use crate::result::{SearchResult, SearchResultSet};
 use rez_next_common::config::RezCoreConfig;
+use rez_next_package::Package;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use std::path::PathBuf;
+use std::sync::Arc;
 
 /// What to search for
 #[derive(Debug, Clone, PartialEq, Default)]
@@ -95,17 +97,19 @@ impl PackageSearcher {
                 format!("repo_{}", idx),
             )));
 
-            // Use empty string to get all packages from this repository
-            let all_packages = match repo_manager.find_packages("").await {
-                Ok(pkgs) => pkgs,
-                Err(_) => continue,
-            };
+            // A family that cannot be read does not hide the others
+            let mut all_packages = Vec::new();
+            for family in repo_manager.list_packages().await.unwrap_or_default() {
+                if let Ok(packages) = repo_manager.find_packages(&family).await {
+                    all_packages.extend(packages);
+                }
+            }
 
             result_set.total_scanned += all_packages.len();
 
             // Group by family, applying name filter
-            let mut family_map: std::collections::HashMap<String, Vec<String>> =
-                std::collections::HashMap::new();
+            let mut family_map: std::collections::BTreeMap<String, Vec<Arc<Package>>> =
+                std::collections::BTreeMap::new();
 
             for pkg in &all_packages {
                 if !self.options.filter.matches_name(&pkg.name) {
@@ -121,22 +125,24 @@ impl PackageSearcher {
                     continue;
                 }
 
-                let ver_str = pkg
-                    .version
-                    .as_ref()
-                    .map(|v| v.as_str())
-                    .unwrap_or("unknown")
-                    .to_string();
                 family_map
                     .entry(pkg.name.clone())
                     .or_default()
-                    .push(ver_str);
+                    .push(pkg.clone());
             }
 
             // Convert to SearchResult
             let repo_path_str = repo_path.to_string_lossy().to_string();
-            for (name, mut versions) in family_map {
-                versions.sort();
+            for (name, mut packages) in family_map {
+                // Ascending version order; packages without a version come first
+                packages.sort_by(|a, b| a.version.cmp(&b.version));
+                let mut versions: Vec<String> = packages
+                    .iter()
+                    .map(|pkg| match &pkg.version {
+                        Some(version) => version.as_str().to_string(),
+                        None => "unknown".to_string(),
+                    })
+                    .collect();
                 versions.dedup();
 
                 let result = match self.options.scope {
@@ -148,16 +154,16 @@ impl PackageSearcher {
                 };
 
                 result_set.add(result);
-
-                // Respect limit
-                if self.options.filter.limit > 0 && result_set.len() >= self.options.filter.limit {
-                    return result_set;
-                }
             }
         }
 
         // Sort by family name for deterministic output
         result_set.results.sort_by(|a, b| a.name.cmp(&b.name));
+
+        // Respect limit
+        if self.options.filter.limit > 0 {
+            result_set.results.truncate(self.options.filter.limit);
+        }
         result_set
     }
 }
diff --git a/src/cli/commands/search_v2/display.rs b/src/cli/commands/search_v2/display.rs
index 9513013..3ce5a03 100644
--- a/src/cli/commands/search_v2/display.rs
+++ b/src/cli/commands/search_v2/display.rs
@@ -57,7 +57,7 @@ fn display_table_format(results: &[SearchResult], args: &SearchArgs) -> RezCoreR
             .package
             .version
             .as_ref()
-            .map(|v| format!("{:?}", v))
+            .map(ToString::to_string)
             .unwrap_or_else(|| "unknown".to_string());
 
         if args.verbose {
@@ -75,8 +75,8 @@ fn display_table_format(results: &[SearchResult], args: &SearchArgs) -> RezCoreR
                 .description
                 .as_ref()
                 .map(|d| {
-                    if d.len() > 37 {
-                        format!("{}...", &d[..37])
+                    if d.chars().count() > 37 {
+                        format!("{}...", d.chars().take(37).collect::<String>())
                     } else {
                         d.clone()
                     }
@@ -100,7 +100,7 @@ fn display_json_format(results: &[SearchResult]) -> RezCoreResult<()> {
         .map(|result| {
             serde_json::json!({
                 "name": result.package.name,
-                "version": result.package.version.as_ref().map(|v| format!("{:?}", v)),
+                "version": result.package.version.as_ref().map(ToString::to_string),
                 "description": result.package.description,
                 "tools": result.package.tools,
                 "requires": result.package.requires,
@@ -128,7 +128,7 @@ fn display_detailed_format(results: &[SearchResult], _args: &SearchArgs) -> RezC
         println!("--- {} ---", result.package.name);
 
         if let Some(ref version) = result.package.version {
-            println!("Version: {:?}", version);
+            println!("Version: {}", version);
         }
 
         if let Some(ref desc) = result.package.description {
diff --git a/src/cli/commands/search_v2/filter.rs b/src/cli/commands/search_v2/filter.rs
index 110774b..c3968a7 100644
--- a/src/cli/commands/search_v2/filter.rs
+++ b/src/cli/commands/search_v2/filter.rs
@@ -8,7 +8,7 @@ use super::types::{SearchArgs, SearchResult};
 use crate::cli::utils::parse_timestamp;
 use rez_next_common::error::RezCoreResult;
 use rez_next_repository::simple_repository::RepositoryManager;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Perform the actual search against all repositories
 pub async fn perform_search(
@@ -92,7 +92,7 @@ pub async fn perform_search(
 
     // For family type: deduplicate by package name (keep highest score)
     if args.search_type == "family" {
-        let mut family_map: HashMap<String, SearchResult> = HashMap::new();
+        let mut family_map: BTreeMap<String, SearchResult> = BTreeMap::new();
         for result in all_results {
             let name = result.package.name.clone();
             if let Some(existing) = family_map.get(&name) {
@@ -106,14 +106,14 @@ pub async fn perform_search(
         all_results = family_map.into_values().collect();
     }
 
-    // Sort results
-    sort_results(&mut all_results, &args.sort);
-
     // Filter to latest only if requested
     if args.latest_only {
         all_results = filter_latest_versions(all_results);
     }
 
+    // Sort results
+    sort_results(&mut all_results, &args.sort);
+
     // Limit results
     all_results.truncate(args.limit);
 
@@ -136,6 +136,10 @@ pub fn sort_results(results: &mut [SearchResult], sort_by: &str) {
                 }
             });
         }
+        "date" => {
+            // Newest first
+            results.sort_by_key(|r| std::cmp::Reverse(get_package_timestamp(&r.package)));
+        }
         "score" => {
             results.sort_by(|a, b| {
                 b.match_score
@@ -152,7 +156,7 @@ pub fn sort_results(results: &mut [SearchResult], sort_by: &str) {
 
 /// Filter to keep only latest versions of each package
 pub fn filter_latest_versions(results: Vec<SearchResult>) -> Vec<SearchResult> {
-    let mut latest_map: HashMap<String, SearchResult> = HashMap::new();
+    let mut latest_map: BTreeMap<String, SearchResult> = BTreeMap::new();
 
     for result in results {
         let package_name = &result.package.name;
diff --git a/src/cli/commands/search_v2/matcher.rs b/src/cli/commands/search_v2/matcher.rs
index 13bdd48..a8eec6e 100644
--- a/src/cli/commands/search_v2/matcher.rs
+++ b/src/cli/commands/search_v2/matcher.rs
@@ -30,128 +30,57 @@ pub fn evaluate_package_match(
     } else {
         args.query.to_lowercase()
     };
-
-    // Check package name
-    let package_name = if args.case_sensitive {
-        package.name.clone()
+    let fold = |text: &str| {
+        if args.case_sensitive {
+            text.to_string()
+        } else {
+            text.to_lowercase()
+        }
+    };
+    // The pattern itself is not lowercased: that would change classes such as \S
+    let regex = if args.regex {
+        let compiled = regex::RegexBuilder::new(&args.query)
+            .case_insensitive(!args.case_sensitive)
+            .build()
+            .ok()?;
+        Some(compiled)
     } else {
-        package.name.to_lowercase()
+        None
+    };
+    let matches = |text: &str| match &regex {
+        Some(regex) => regex.is_match(text),
+        None => fold(text).contains(&query),
     };
 
-    if args.regex {
-        if let Ok(regex) = regex::Regex::new(&query)
-            && regex.is_match(&package_name)
-        {
-            match_score += 10.0;
-            match_fields.push("name".to_string());
-        }
-    } else if package_name.contains(&query) {
-        match_score += if package_name == query { 10.0 } else { 5.0 };
-        match_fields.push("name".to_string());
-    }
-
-    // Check description if requested
-    if args.description
-        && let Some(ref desc) = package.description
-    {
-        let desc_text = if args.case_sensitive {
-            desc.clone()
+    // Check package name
+    if matches(&package.name) {
+        match_score += if args.regex || fold(&package.name) == query {
+            10.0
         } else {
-            desc.to_lowercase()
+            5.0
         };
-
-        if args.regex {
-            if let Ok(regex) = regex::Regex::new(&query)
-                && regex.is_match(&desc_text)
-            {
-                match_score += 3.0;
-                match_fields.push("description".to_string());
-            }
-        } else if desc_text.contains(&query) {
-            match_score += 3.0;
-            match_fields.push("description".to_string());
-        }
+        match_fields.push("name".to_string());
     }
 
-    // Check tools if requested
-    if args.tools {
-        for tool in &package.tools {
-            let tool_name = if args.case_sensitive {
-                tool.clone()
-            } else {
-                tool.to_lowercase()
-            };
+    // If no specific fields requested, description and tools are searched by default
+    let by_default = !args.description && !args.tools && !args.requirements;
 
-            if args.regex {
-                if let Ok(regex) = regex::Regex::new(&query)
-                    && regex.is_match(&tool_name)
-                {
-                    match_score += 2.0;
-                    match_fields.push("tools".to_string());
-                    break;
-                }
-            } else if tool_name.contains(&query) {
-                match_score += 2.0;
-                match_fields.push("tools".to_string());
-                break;
-            }
-        }
+    if (args.description || by_default)
+        && let Some(ref desc) = package.description
+        && matches(desc)
+    {
+        match_score += if by_default { 2.0 } else { 3.0 };
+        match_fields.push("description".to_string());
     }
 
-    // Check requirements if requested
-    if args.requirements {
-        for req in &package.requires {
-            let req_text = if args.case_sensitive {
-                req.clone()
-            } else {
-                req.to_lowercase()
-            };
-
-            if args.regex {
-                if let Ok(regex) = regex::Regex::new(&query)
-                    && regex.is_match(&req_text)
-                {
-                    match_score += 1.0;
-                    match_fields.push("requirements".to_string());
-                    break;
-                }
-            } else if req_text.contains(&query) {
-                match_score += 1.0;
-                match_fields.push("requirements".to_string());
-                break;
-            }
-        }
+    if (args.tools || by_default) && package.tools.iter().any(|tool| matches(tool)) {
+        match_score += if by_default { 1.0 } else { 2.0 };
+        match_fields.push("tools".to_string());
     }
 
-    // If no specific fields requested, search all by default
-    if !args.description && !args.tools && !args.requirements {
-        // Already checked name above, check description and tools by default
-        if let Some(ref desc) = package.description {
-            let desc_text = if args.case_sensitive {
-                desc.clone()
-            } else {
-                desc.to_lowercase()
-            };
-
-            if desc_text.contains(&query) {
-                match_score += 2.0;
-                match_fields.push("description".to_string());
-            }
-        }
-
-        for tool in &package.tools {
-            let tool_name = if args.case_sensitive {
-                tool.clone()
-            } else {
-                tool.to_lowercase()
-            };
-
-            if tool_name.contains(&query) {
-                match_score += 1.0;
-                match_fields.push("tools".to_string());
-                break;
-            }
-        }
+    if args.requirements && package.requires.iter().any(|req| matches(req)) {
+        match_score += 1.0;
+        match_fields.push("requirements".to_string());
     }
 
     if match_score > 0.0 {
-- 
2.43.0


From 1c1f4b64beac76051b91f56a2704779701bba7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:18 +0000
Subject: [PATCH 22/26] fix: archive installs never mix in earlier archives,
 follow links or payload prefixes outside the archive, or write where a
 download's server says

---
 crates/rez-next-build/src/sources.rs          |  6 +-
 .../src/systems/binary_archive.rs             | 65 +++++++++++++++++--
 2 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/crates/rez-next-build/src/sources.rs b/crates/rez-next-build/src/sources.rs
index adfef00..a8bb36b 100644
--- a/crates/rez-next-build/src/sources.rs
+++ b/crates/rez-next-build/src/sources.rs
@@ -235,7 +235,11 @@ impl HttpFetcher {
         for part in header.split(';') {
             let part = part.trim();
             if let Some(filename) = part.strip_prefix("filename=") {
-                return Some(filename.trim_matches('"').to_string());
+                // The server names a file, not a place in the file system
+                let filename = filename.trim_matches('"');
+                return Path::new(filename)
+                    .file_name()
+                    .map(|name| name.to_string_lossy().into_owned());
             }
         }
         None
diff --git a/crates/rez-next-build/src/systems/binary_archive.rs b/crates/rez-next-build/src/systems/binary_archive.rs
index cfdf46c..a3d77b0 100644
--- a/crates/rez-next-build/src/systems/binary_archive.rs
+++ b/crates/rez-next-build/src/systems/binary_archive.rs
@@ -108,6 +108,14 @@ impl BinaryArchiveBuildSystem {
         tokio::fs::create_dir_all(&work_dir).await.map_err(|err| {
             RezCoreError::BuildError(format!("Failed to create archive work dir: {err}"))
         })?;
+        // Nothing of an earlier archive takes part in this install
+        if extract_dir.exists() {
+            tokio::fs::remove_dir_all(&extract_dir)
+                .await
+                .map_err(|err| {
+                    RezCoreError::BuildError(format!("Failed to clear archive extract dir: {err}"))
+                })?;
+        }
         tokio::fs::create_dir_all(&extract_dir)
             .await
             .map_err(|err| {
@@ -137,6 +145,18 @@ impl BinaryArchiveBuildSystem {
             )));
         }
 
+        // The prefix selects a part of the archive, never something outside it
+        let inside = match (payload.canonicalize(), extract_dir.canonicalize()) {
+            (Ok(payload), Ok(extract_dir)) => payload.starts_with(extract_dir),
+            _ => false,
+        };
+        if !inside {
+            return Err(RezCoreError::BuildError(format!(
+                "binary archive payload directory is outside the archive: {}",
+                payload.display()
+            )));
+        }
+
         copy_tree_contents(&payload, install_dir)?;
 
         Ok(format!(
@@ -316,12 +336,11 @@ fn copy_tree_contents(source: &Path, destination: &Path) -> Result<(), RezCoreEr
             .map_err(|err| RezCoreError::BuildError(format!("Failed to read entry: {err}")))?;
         let source_path = entry.path();
         let destination_path = destination.join(entry.file_name());
-        if source_path.is_dir() {
-            if destination_path.exists() {
-                fs::remove_dir_all(&destination_path).map_err(|err| {
-                    RezCoreError::BuildError(format!("Failed to remove directory: {err}"))
-                })?;
-            }
+        // Whatever was installed under this name before is replaced, not written through
+        remove_existing(&destination_path)?;
+        if is_symlink(&source_path) {
+            copy_symlink(&source_path, &destination_path)?;
+        } else if source_path.is_dir() {
             copy_dir_recursive(&source_path, &destination_path)?;
         } else {
             if let Some(parent) = destination_path.parent() {
@@ -345,7 +364,9 @@ fn copy_dir_recursive(source: &Path, destination: &Path) -> Result<(), RezCoreEr
             .map_err(|err| RezCoreError::BuildError(format!("Failed to read entry: {err}")))?;
         let source_path = entry.path();
         let destination_path = destination.join(entry.file_name());
-        if source_path.is_dir() {
+        if is_symlink(&source_path) {
+            copy_symlink(&source_path, &destination_path)?;
+        } else if source_path.is_dir() {
             copy_dir_recursive(&source_path, &destination_path)?;
         } else {
             copy_file_preserving_permissions(&source_path, &destination_path)?;
@@ -354,6 +375,36 @@ fn copy_dir_recursive(source: &Path, destination: &Path) -> Result<(), RezCoreEr
     Ok(())
 }
 
+fn is_symlink(path: &Path) -> bool {
+    cfg!(unix) && path.is_symlink()
+}
+
+/// Recreate a symbolic link instead of copying what it points at
+fn copy_symlink(source: &Path, destination: &Path) -> Result<(), RezCoreError> {
+    #[cfg(unix)]
+    let result = fs::read_link(source)
+        .and_then(|target| std::os::unix::fs::symlink(target, destination));
+    #[cfg(not(unix))]
+    let result = fs::copy(source, destination).map(|_| ());
+    result.map_err(|err| {
+        RezCoreError::BuildError(format!(
+            "Failed to copy archive link {}: {err}",
+            source.display()
+        ))
+    })
+}
+
+fn remove_existing(path: &Path) -> Result<(), RezCoreError> {
+    let result = match fs::symlink_metadata(path) {
+        Ok(metadata) if metadata.is_dir() => fs::remove_dir_all(path),
+        Ok(_) => fs::remove_file(path),
+        Err(_) => Ok(()),
+    };
+    result.map_err(|err| {
+        RezCoreError::BuildError(format!("Failed to replace {}: {err}", path.display()))
+    })
+}
+
 fn copy_file_preserving_permissions(source: &Path, destination: &Path) -> Result<(), RezCoreError> {
     fs::copy(source, destination).map_err(|err| {
         RezCoreError::BuildError(format!(
-- 
2.43.0


From dc0971b3bd8e2ca4b6f896f47507349cbd546f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:08 +0000
Subject: [PATCH 23/26] fix: self-update works in an empty temporary directory
 of its own and never installs leftovers or removes other directories

---
 src/cli/commands/self_update.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cli/commands/self_update.rs b/src/cli/commands/self_update.rs
index 43969e4..47654d7 100644
--- a/src/cli/commands/self_update.rs
+++ b/src/cli/commands/self_update.rs
@@ -355,8 +355,13 @@ pub fn execute(args: SelfUpdateArgs) -> RezCoreResult<()> {
     );
 
     // Create temp directory
-    let tmp_dir = env::temp_dir().join(format!("rez-next-update-{}", target_version));
-    fs::create_dir_all(&tmp_dir).map_err(RezCoreError::Io)?;
+    // The directory must be our own and empty: a binary left there by an earlier
+    // run (or by somebody else) has not been verified.
+    let tmp_dir = env::temp_dir().join(format!("rez-next-update-{}", std::process::id()));
+    if fs::symlink_metadata(&tmp_dir).is_ok() {
+        fs::remove_dir_all(&tmp_dir).map_err(RezCoreError::Io)?;
+    }
+    fs::create_dir(&tmp_dir).map_err(RezCoreError::Io)?;
     let archive_path = tmp_dir.join(&archive_name);
 
     info(&format!("Downloading {}...", download_url));
@@ -415,8 +420,11 @@ pub fn execute(args: SelfUpdateArgs) -> RezCoreResult<()> {
     })?;
 
     // Replace current binary
-    let current_exe = current_binary_path()?;
-    replace_binary(&new_binary, &current_exe)?;
+    current_binary_path()
+        .and_then(|current_exe| replace_binary(&new_binary, &current_exe))
+        .inspect_err(|_| {
+            let _ = fs::remove_dir_all(&tmp_dir);
+        })?;
 
     // Cleanup
     let _ = fs::remove_dir_all(&tmp_dir);
-- 
2.43.0


From e4d63a39eaf74e07d952fe871126b9dd5a477357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 24/26] fix: refuse a release when the source tree cannot be
 checked and never tag a failed release

The release command ignored a failing git status, failed with --ignore-existing-tag
when the tag existed, and did not expand the home directory in the release path. The
release library went on after validation errors, tagged after a failed build, and
tagged before the definition was installed.
---
 crates/rez-next-build/src/release.rs | 36 ++++++++++++++++++----------
 src/cli/commands/release.rs          | 13 ++++++++--
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/crates/rez-next-build/src/release.rs b/crates/rez-next-build/src/release.rs
index 5ae1d7c..1f856a6 100644
--- a/crates/rez-next-build/src/release.rs
+++ b/crates/rez-next-build/src/release.rs
@@ -77,10 +77,10 @@ impl ReleaseManager {
     /// 1. Load and validate package definition
     /// 2. Detect and validate VCS repository state
     /// 3. Build the package (including variants)
-    /// 4. Create VCS tag
-    /// 5. Generate changelog
-    /// 6. Write release metadata
-    /// 7. Install the package
+    /// 4. Write release metadata
+    /// 5. Install the package
+    /// 6. Create VCS tag
+    /// 7. Generate changelog
     pub fn release(
         &self,
         source_dir: &Path,
@@ -108,13 +108,18 @@ impl ReleaseManager {
         // For dry-run mode, add prefix and return early
         if self.mode == ReleaseMode::DryRun {
             result.install_path = format!("[dry-run] {}", result.install_path);
-            result.success = true;
+            result.success = result.errors.is_empty();
             if let Some(msg) = message {
                 result.warnings.push(format!("[dry-run] note: {}", msg));
             }
             return Ok(result);
         }
 
+        // A source tree that is not fit for release is refused before anything happens
+        if !result.errors.is_empty() {
+            return Ok(result);
+        }
+
         // Step 3: Build the package (if not skipped)
         if !self.skip_build {
             self.build_package(source_dir, &package, &install_path, &mut result)?;
@@ -129,22 +134,27 @@ impl ReleaseManager {
             self.run_tests(source_dir, &package, &install_path, &mut result)?;
         }
 
-        // Step 4: Create VCS tag (if VCS is available)
+        // A failed build or test is not released
+        if !result.errors.is_empty() {
+            return Ok(result);
+        }
+
+        // Step 4: Write release metadata
+        self.write_release_metadata(&package, &install_path, &vcs, &mut result)?;
+
+        // Step 5: Install package definition
+        self.install_package_definition(source_dir, &install_path, &package, &mut result)?;
+
+        // Step 6: Create VCS tag (if VCS is available), once everything else is in place
         if let Some(ref vcs_impl) = vcs {
             self.create_vcs_tag(vcs_impl, &package, message, &mut result)?;
         }
 
-        // Step 5: Generate changelog (if VCS is available)
+        // Step 7: Generate changelog (if VCS is available)
         if let Some(ref vcs_impl) = vcs {
             self.generate_changelog(vcs_impl, &package, &mut result)?;
         }
 
-        // Step 6: Write release metadata
-        self.write_release_metadata(&package, &install_path, &vcs, &mut result)?;
-
-        // Step 7: Install package definition
-        self.install_package_definition(source_dir, &install_path, &package, &mut result)?;
-
         result.success = result.errors.is_empty();
         Ok(result)
     }
diff --git a/src/cli/commands/release.rs b/src/cli/commands/release.rs
index 3b00ba4..28e9531 100644
--- a/src/cli/commands/release.rs
+++ b/src/cli/commands/release.rs
@@ -3,6 +3,7 @@
 //! Build a package from source and deploy it to the release repository.
 //! Implements VCS validation, build, tag creation, and deployment.
 
+use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_build::{BuildManager, BuildOptions, BuildRequest};
 use rez_next_common::{RezCoreError, config::RezCoreConfig, error::RezCoreResult};
@@ -119,7 +120,7 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
 
     // 5. Build package variants
     println!("Building package...");
-    let install_path = PathBuf::from(get_release_path());
+    let install_path = expand_home_path(&get_release_path());
     let build_options = BuildOptions {
         force_rebuild: false,
         skip_tests: false,
@@ -173,7 +174,8 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
         .or_else(|| read_message_file(args.message_file.as_ref()))
         .unwrap_or_else(|| format!("Release {}", tag));
 
-    if vcs_type == "git" {
+    // With --ignore-existing-tag the release keeps the tag that is already there
+    if vcs_type == "git" && !check_tag_exists(&working_dir, &tag) {
         create_git_tag(&working_dir, &tag, &message, args.verbose)?;
     }
 
@@ -272,6 +274,13 @@ fn validate_vcs_state(working_dir: &Path, vcs_type: &str, args: &ReleaseArgs) ->
             .output()
             .map_err(|e| RezCoreError::BuildError(format!("Failed to run git status: {}", e)))?;
 
+        if !output.status.success() {
+            return Err(RezCoreError::BuildError(format!(
+                "Cannot determine the state of the repository: {}",
+                String::from_utf8_lossy(&output.stderr).trim()
+            )));
+        }
+
         if !output.stdout.is_empty() {
             let dirty_files = String::from_utf8_lossy(&output.stdout);
             return Err(RezCoreError::BuildError(format!(
-- 
2.43.0


From 9d20172351ecb3a4025434aa28b8c51b276a56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 25/26] fix: PowerShell activation scripts quote variable names
 so that no name is executed

---
 crates/rez-next-context/src/environment.rs |  7 +++--
 crates/rez-next-rex/src/shell.rs           | 33 ++++++++++++++++------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index 606a179..54602d3 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -446,9 +446,12 @@ impl EnvironmentManager {
                 script.push_str("# Generated by rez-core\n\n");
 
                 for (name, value) in env_vars {
+                    let Some(variable) = rez_next_rex::shell::powershell_variable(name) else {
+                        continue;
+                    };
                     script.push_str(&format!(
-                        "$env:{} = \"{}\"\n",
-                        name,
+                        "{} = \"{}\"\n",
+                        variable,
                         self.escape_powershell_value(value)
                     ));
                 }
diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 7395499..a1cbf16 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -73,6 +73,27 @@ pub fn is_shell_identifier(name: &str) -> bool {
         && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
 }
 
+/// PowerShell reference to an environment variable, or none if the name is not expressible.
+pub fn powershell_variable(name: &str) -> Option<String> {
+    if name.is_empty() || name.contains(char::is_control) {
+        return None;
+    }
+    if name
+        .chars()
+        .all(|character| character.is_ascii_alphanumeric() || character == '_')
+    {
+        return Some(format!("$env:{name}"));
+    }
+    let mut escaped = String::with_capacity(name.len());
+    for character in name.chars() {
+        if matches!(character, '`' | '{' | '}') {
+            escaped.push('`');
+        }
+        escaped.push(character);
+    }
+    Some(format!("${{env:{escaped}}}"))
+}
+
 /// Generate bash/zsh activation script
 fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut lines = Vec::new();
@@ -228,15 +249,9 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
         let escaped = value.replace('\'', "''");
-        let variable = if key
-            .chars()
-            .all(|character| character.is_ascii_alphanumeric() || character == '_')
-        {
-            format!("$env:{key}")
-        } else {
-            format!("${{env:{key}}}")
-        };
-        lines.push(format!("{variable} = '{escaped}'"));
+        if let Some(variable) = powershell_variable(key) {
+            lines.push(format!("{variable} = '{escaped}'"));
+        }
     }
 
     if !env.vars.is_empty() && !env.aliases.is_empty() {
-- 
2.43.0


From c2cdf53ffa3a28abf943696674d9350895a65da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:43 +0000
Subject: [PATCH 26/26] fix: a release whose existing tags cannot be listed is
 refused before building

---
 src/cli/commands/release.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cli/commands/release.rs b/src/cli/commands/release.rs
index 28e9531..ecbc08d 100644
--- a/src/cli/commands/release.rs
+++ b/src/cli/commands/release.rs
@@ -103,7 +103,7 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
     // 4. Check for existing release tag
     if !args.ignore_existing_tag {
         let tag = format!("{}-{}", package.name, version_str);
-        if check_tag_exists(&working_dir, &tag) {
+        if check_tag_exists(&working_dir, &tag)? {
             return Err(RezCoreError::BuildError(format!(
                 "Release tag '{}' already exists. Use --ignore-existing-tag to override.",
                 tag
@@ -175,7 +175,7 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
         .unwrap_or_else(|| format!("Release {}", tag));
 
     // With --ignore-existing-tag the release keeps the tag that is already there
-    if vcs_type == "git" && !check_tag_exists(&working_dir, &tag) {
+    if vcs_type == "git" && !check_tag_exists(&working_dir, &tag)? {
         create_git_tag(&working_dir, &tag, &message, args.verbose)?;
     }
 
@@ -308,13 +308,20 @@ fn validate_vcs_state(working_dir: &Path, vcs_type: &str, args: &ReleaseArgs) ->
 }
 
 /// Check if a git tag already exists
-fn check_tag_exists(working_dir: &Path, tag: &str) -> bool {
-    Command::new("git")
+fn check_tag_exists(working_dir: &Path, tag: &str) -> RezCoreResult<bool> {
+    let output = Command::new("git")
         .args(["tag", "-l", tag])
         .current_dir(working_dir)
         .output()
-        .map(|o| !o.stdout.is_empty())
-        .unwrap_or(false)
+        .map_err(|e| RezCoreError::BuildError(format!("Failed to list git tags: {}", e)))?;
+
+    if !output.status.success() {
+        return Err(RezCoreError::BuildError(format!(
+            "Failed to list git tags: {}",
+            String::from_utf8_lossy(&output.stderr).trim()
+        )));
+    }
+    Ok(!output.stdout.is_empty())
 }
 
 /// Create a git tag at the current HEAD
-- 
2.43.0

