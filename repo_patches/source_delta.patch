From 963ca8c8619ba834a8041d76e7c6b6b12a85a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:29 +0000
Subject: [PATCH 01/32] fix: encode VLQ magnitudes of 2^30 and above without
 overflowing

---
 src/base64_vlq.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/base64_vlq.rs b/src/base64_vlq.rs
index e49ec52..1b20726 100644
--- a/src/base64_vlq.rs
+++ b/src/base64_vlq.rs
@@ -23,7 +23,10 @@ const VLQ_BASE_MASK: usize = VLQ_BASE - 1;
 // binary: 100000
 const VLQ_CONTINUATION_BIT: usize = VLQ_BASE;
 
-fn to_vlq_signed(value: i32) -> i32 {
+// Computed in 64 bits: the sign bit does not fit in an `i32` next to a large
+// magnitude.
+fn to_vlq_signed(value: i32) -> i64 {
+    let value = i64::from(value);
     if value < 0 {
         (-value << 1) + 1
     } else {
@@ -39,7 +42,7 @@ pub fn base64vlq_encode(value: i32) -> String {
 
     loop {
         digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
-        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i32;
+        vlq >>= VLQ_BASE_SHIFT;
 
         if vlq > 0 {
             // There are still more digits in this value, so we must make sure the
-- 
2.43.0


From 8addac40ca589d90742b48f275596827750d9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:30 +0000
Subject: [PATCH 02/32] fix: do not panic on URLs shorter than two characters

---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 81fa754..29f777d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -78,10 +78,10 @@ enum UrlType {
 
 fn get_url_type(input: &str) -> UrlType {
     let mut iter = input.chars();
-    let first = iter.next().unwrap();
-    let second = iter.next().unwrap();
-    if first == '/' {
-        if second == '/' {
+    let first = iter.next();
+    let second = iter.next();
+    if first == Some('/') {
+        if second == Some('/') {
             return SchemeRelative;
         }
         return PathAbsolute;
-- 
2.43.0


From 9e61e7ddacd4031c5e0ab6f69115cc8ecf6eea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:31 +0000
Subject: [PATCH 03/32] fix: keep the ? and # of relative source URLs

---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 29f777d..78951d0 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -157,10 +157,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .join("/");
 
     if let Some(query) = target_url.query() {
+        relative_path.push('?');
         relative_path.push_str(query);
     }
 
     if let Some(frag) = target_url.fragment() {
+        relative_path.push('#');
         relative_path.push_str(frag);
     }
     relative_path
-- 
2.43.0


From b6b1d029ffbd1c0447f9f0c7920b832c001afa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 04/32] fix: keep the directory separators of the source map
 URL

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 78951d0..51597e3 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -205,9 +205,10 @@ lazy_static! {
 
         if !path.last().unwrap().is_empty() {
             path.pop();
+            path.push("");
         }
 
-        url.set_path(&path.join(""));
+        url.set_path(&path.join("/"));
     }));
 
     static ref NORMALIZE: UtilityFn = create_safe_handler(Box::new(|_url|{}));
-- 
2.43.0


From 633a9a5c16ac1622f4f8587e017ffa1489cc790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 05/32] fix: relativize resolved URLs so that relative()
 accepts non-absolute roots

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 51597e3..9cf323f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -239,7 +239,7 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
         return None;
     }
 
-    Some(compute_relative_url(root, target))
+    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
 }
 
 pub fn relative(root: String, target: String) -> String {
-- 
2.43.0


From e7fa1038e8c3f5f38a1fc1446e06f02f241eb090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:34 +0000
Subject: [PATCH 06/32] fix: treat an empty sourceRoot or source map URL as
 absent

---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 9cf323f..7bb8c4d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -336,6 +336,10 @@ pub fn compute_source_url(
     // is present in order to make the sources entries behave as if they are relative to the
     // "sourceRoot", as they would have if the two strings were simply concated.
 
+    // An empty "sourceRoot" or source map URL is the same as none.
+    let source_root = source_root.filter(|it| !it.is_empty());
+    let source_map_url = source_map_url.filter(|it| !it.is_empty());
+
     let mut source_url = source_url;
     let after = source_url.replacen("/", "", 1);
 
-- 
2.43.0


From c93ed9d470f3eeea5d5b3ec308bcb6cbc944e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 07/32] fix: keep source URLs that do not parse instead of
 panicking

---
 src/util.rs | 63 ++++++++++++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 7bb8c4d..2be113c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -173,7 +173,11 @@ fn create_safe_handler(cb: Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -
         let t = get_url_type(input.as_str());
         let base = build_safe_base(input.as_str());
         let urlx = Url::parse(base.as_str()).unwrap();
-        let mut urlx = urlx.join(input.as_str()).unwrap();
+        let mut urlx = match urlx.join(input.as_str()) {
+            Ok(urlx) => urlx,
+            // Not a URL ("webpack://[name]/a.js"): keep it verbatim.
+            Err(_) => return input,
+        };
 
         cb(&mut urlx);
 
@@ -222,9 +226,9 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
 
     let base = build_safe_base(&format!("{}{}", root, target));
     let root_url = Url::parse(&base).unwrap();
-    let root_url = root_url.join(root).unwrap();
+    let root_url = root_url.join(root).ok()?;
     let target_url = Url::parse(&base).unwrap();
-    let target_url = target_url.join(target).unwrap();
+    let target_url = target_url.join(target).ok()?;
     match target_url.join("") {
         Ok(_) => {}
         Err(_) => return None,
@@ -249,19 +253,20 @@ pub fn relative(root: String, target: String) -> String {
     }
 }
 
-fn with_base(url: &str, base: Option<&str>) -> String {
-    match base {
-        Some(base) => Url::parse(base)
-            .unwrap()
-            .join(url)
-            .unwrap()
-            .as_str()
-            .to_string(),
-        None => url.to_string(),
-    }
+fn with_base(url: &str, base: Option<&str>) -> Option<String> {
+    let resolved = match base {
+        Some(base) => Url::parse(base).and_then(|base| base.join(url)),
+        None => Url::parse(url),
+    };
+    resolved.ok().map(|it| it.to_string())
 }
 
 pub fn join(root: &str, path: &str) -> String {
+    // What is not a URL can not be resolved: keep it verbatim.
+    try_join(root, path).unwrap_or_else(|| path.to_string())
+}
+
+fn try_join(root: &str, path: &str) -> Option<String> {
     let path_t = get_url_type(path);
     let root_t = get_url_type(root);
 
@@ -276,39 +281,29 @@ pub fn join(root: &str, path: &str) -> String {
     }
 
     if path_t == SchemeRelative {
-        return NORMALIZE(path.to_string());
+        return Some(NORMALIZE(path.to_string()));
     }
 
     if root_t == SchemeRelative {
-        return with_base(
-            path,
-            Some(with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str())).as_str()),
-        )
-        .chars()
-        .skip(PROTOCOL.len())
-        .collect();
+        let base = with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str()))?;
+        return with_base(path, Some(base.as_str()))
+            .map(|it| it.chars().skip(PROTOCOL.len()).collect());
     }
 
     if path_t == PathAbsolute {
-        return NORMALIZE(path.to_string());
+        return Some(NORMALIZE(path.to_string()));
     }
 
     if root_t == PathAbsolute {
-        return with_base(
-            path,
-            Some(with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str())).as_str()),
-        )
-        .chars()
-        .skip(PROTOCOL_AND_HOST.len())
-        .collect();
+        let base = with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str()))?;
+        return with_base(path, Some(base.as_str()))
+            .map(|it| it.chars().skip(PROTOCOL_AND_HOST.len()).collect());
     }
 
     let base = build_safe_base(format!("{}{}", path, root).as_str());
-    let new_path = with_base(
-        path,
-        Some(with_base(root.as_str(), Some(base.as_str())).as_str()),
-    );
-    compute_relative_url(base.as_str(), new_path.as_str())
+    let root = with_base(root.as_str(), Some(base.as_str()))?;
+    let new_path = with_base(path, Some(root.as_str()))?;
+    Some(compute_relative_url(base.as_str(), new_path.as_str()))
 }
 
 pub fn compute_source_url(
-- 
2.43.0


From de81c780f1a282fdcdf6403ed844a334e12cc5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 08/32] fix: do not mangle sources that are URLs without a
 leading slash

---
 src/util.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 2be113c..637c4ca 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -134,6 +134,11 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
     let root_url = Url::parse(root_url).unwrap();
     let target_url = Url::parse(target_url).unwrap();
 
+    // A URL of its own ("data:...", "C:\\a.js") has no path relative to the root.
+    if target_url.scheme() != root_url.scheme() || target_url.host() != root_url.host() {
+        return target_url.to_string();
+    }
+
     let mut target_parts = target_url.path().split('/').collect::<LinkedList<_>>();
     let mut root_parts = root_url.path().split('/').collect::<LinkedList<_>>();
 
@@ -261,6 +266,10 @@ fn with_base(url: &str, base: Option<&str>) -> Option<String> {
     resolved.ok().map(|it| it.to_string())
 }
 
+fn strip_prefix(url: &str, prefix: &str) -> String {
+    url.strip_prefix(prefix).unwrap_or(url).to_string()
+}
+
 pub fn join(root: &str, path: &str) -> String {
     // What is not a URL can not be resolved: keep it verbatim.
     try_join(root, path).unwrap_or_else(|| path.to_string())
@@ -286,8 +295,7 @@ fn try_join(root: &str, path: &str) -> Option<String> {
 
     if root_t == SchemeRelative {
         let base = with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str()))?;
-        return with_base(path, Some(base.as_str()))
-            .map(|it| it.chars().skip(PROTOCOL.len()).collect());
+        return with_base(path, Some(base.as_str())).map(|it| strip_prefix(&it, PROTOCOL));
     }
 
     if path_t == PathAbsolute {
@@ -297,7 +305,7 @@ fn try_join(root: &str, path: &str) -> Option<String> {
     if root_t == PathAbsolute {
         let base = with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str()))?;
         return with_base(path, Some(base.as_str()))
-            .map(|it| it.chars().skip(PROTOCOL_AND_HOST.len()).collect());
+            .map(|it| strip_prefix(&it, &PROTOCOL_AND_HOST));
     }
 
     let base = build_safe_base(format!("{}{}", path, root).as_str());
-- 
2.43.0


From 021f871c2c081931c842250abe1cda7deec67f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:32 +0000
Subject: [PATCH 09/32] fix: compare 0-based and 1-based lines properly in
 original_position_for

---
 src/consumer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7d52e1b..a1f37d2 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -318,7 +318,8 @@ impl BasicConsumer {
 
         match mapping {
             Some(mapping) => {
-                if mapping.generated_line as i32 == generated_line {
+                // `generated_line` is 1-based, the parsed mappings are 0-based.
+                if mapping.generated_line as i32 == generated_line - 1 {
                     mapping.original.clone().map(|original| Mapping {
                         name: original
                             .name
-- 
2.43.0


From b1119720729cbe1475e7e0981ba6447f46aee01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:33 +0000
Subject: [PATCH 10/32] fix: report the mapping's own name in
 generated_position_for

---
 src/consumer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index a1f37d2..aa156fb 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -434,9 +434,11 @@ impl BasicConsumer {
                             .as_ref()
                             .map(|it| self.absolute_sources.at(it.source as i32))
                             .flatten(),
-                        name: mapping.original.as_ref().map(|it| {
-                            self.source_map.names.as_ref().unwrap()[it.source as usize].clone()
-                        }),
+                        name: mapping
+                            .original
+                            .as_ref()
+                            .and_then(|it| it.name)
+                            .map(|it| self.source_map.names.as_ref().unwrap()[it as usize].clone()),
                         last_generated_column: last_column,
                     })
                 } else {
-- 
2.43.0


From 5b233384fc1e34e0a812fda67796da5ba8623bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 11/32] fix: report 1-based original lines in
 generated_position_for

---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index aa156fb..5dcd08e 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -426,7 +426,7 @@ impl BasicConsumer {
                             column: mapping.generated_column as i32,
                         },
                         original: mapping.original.as_ref().map(|it| Position {
-                            line: it.original_line as i32,
+                            line: (it.original_line + 1) as i32,
                             column: it.original_column as i32,
                         }),
                         source: mapping
-- 
2.43.0


From 3287657e953c5b13c21b88b5ab3b80dfe28e47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 12/32] fix: do not panic on mappings whose name is not in the
 names list

---
 src/consumer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 5dcd08e..ad77407 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -233,6 +233,14 @@ impl BasicConsumer {
         )
     }
 
+    fn name_at(&self, index: u32) -> Option<String> {
+        self.source_map
+            .names
+            .as_ref()
+            .and_then(|names| names.get(index as usize))
+            .cloned()
+    }
+
     pub fn all_generated_position_for(
         &mut self,
         source: &str,
@@ -321,9 +329,7 @@ impl BasicConsumer {
                 // `generated_line` is 1-based, the parsed mappings are 0-based.
                 if mapping.generated_line as i32 == generated_line - 1 {
                     mapping.original.clone().map(|original| Mapping {
-                        name: original
-                            .name
-                            .map(|it| self.source_map.names.as_ref().unwrap()[it as usize].clone()),
+                        name: original.name.and_then(|it| self.name_at(it)),
                         source: self.absolute_sources.at(original.source as i32),
                         original: Some(Position {
                             line: (original.original_line + 1) as i32,
@@ -438,7 +444,7 @@ impl BasicConsumer {
                             .original
                             .as_ref()
                             .and_then(|it| it.name)
-                            .map(|it| self.source_map.names.as_ref().unwrap()[it as usize].clone()),
+                            .and_then(|it| self.name_at(it)),
                         last_generated_column: last_column,
                     })
                 } else {
-- 
2.43.0


From 92d8f89d614e004d84063368a6c818430ebb2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 13/32] fix: search the requested line, and all its columns if
 none is given, in all_generated_position_for

---
 src/consumer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index ad77407..00ece39 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -247,7 +247,6 @@ impl BasicConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let original_column = if let Some(r) = original_column { r } else { 0 };
         let source = self.find_source_index(source);
         if source.is_none() {
             return vec![];
@@ -263,7 +262,7 @@ impl BasicConsumer {
             panic!("Line numbers must be >= 1");
         }
 
-        if original_column < 0 {
+        if original_column.map_or(false, |it| it < 0) {
             panic!("Column numbers must be >= 0");
         }
 
@@ -276,8 +275,8 @@ impl BasicConsumer {
         mappings
             .all_generated_locations_for(
                 source as u32,
-                original_line as u32,
-                Some(original_column as u32),
+                (original_line - 1) as u32,
+                original_column.map(|it| it as u32),
             )
             .cloned()
             .collect()
-- 
2.43.0


From 39ffb3936c9c733e561809cff9642f43f445a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:54 +0000
Subject: [PATCH 14/32] fix: resolve looked up sources against the source map
 URL in created consumers

---
 src/consumer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 00ece39..79d8b5f 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -152,7 +152,7 @@ impl BasicConsumer {
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
-            source_map_url: None,
+            source_map_url: source_map_url.map(|it| it.to_string()),
             absolute_sources: ArraySet::from_array(
                 source_map
                     .sources
@@ -187,6 +187,13 @@ impl BasicConsumer {
             return Some(index);
         }
 
+        // A name that `get_sources` reports is looked up as it is.
+        if let Some(index) = self.absolute_sources.index_of(source.to_string()) {
+            self.source_lookup_cache
+                .insert(source.to_string(), index as i32);
+            return Some(index as i32);
+        }
+
         // Treat the source as map-relative overall by default.
         let source_as_map_relative =
             util::compute_source_url(None, source, self.source_map_url.as_deref());
-- 
2.43.0


From 68ca7d9d809e997817da3223273a3853b524b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:56 +0000
Subject: [PATCH 15/32] fix: write and read null for sources without content,
 keeping contents aligned

---
 src/consumer.rs   |  7 +++++--
 src/generator.rs  | 10 +++-------
 src/source_map.rs |  2 +-
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 79d8b5f..8d4e3ad 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -357,7 +357,10 @@ impl BasicConsumer {
 
     pub fn has_contents_of_all_sources(&self) -> bool {
         match self.source_map.sources_content {
-            Some(ref s) => s.len() >= self.source_map.sources.as_ref().unwrap().len(),
+            Some(ref s) => {
+                s.len() >= self.source_map.sources.as_ref().unwrap().len()
+                    && s.iter().all(|it| it.is_some())
+            }
             None => false,
         }
     }
@@ -374,7 +377,7 @@ impl BasicConsumer {
 
         let index = self.find_source_index(source);
         return match index {
-            Some(i) => Some(sources_content[i as usize].clone()),
+            Some(i) => sources_content[i as usize].clone(),
             None => {
                 if panic_on_missing {
                     panic!(r#""{}" is not in the SourceMap."#, source);
diff --git a/src/generator.rs b/src/generator.rs
index fded665..061fcf4 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -183,14 +183,10 @@ impl SourceMapGenerator {
 
     pub(crate) fn as_json(&mut self) -> SourceMapJson {
         let sources_vec = self.sources.to_vec();
-        let mut sources_content: Option<Vec<String>> = None;
+        let mut sources_content: Option<Vec<Option<String>>> = None;
         if !self.source_contents.is_empty() {
-            sources_content = Some(
-                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone())
-                    .into_iter()
-                    .flatten()
-                    .collect(),
-            );
+            sources_content =
+                Some(self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()));
         }
         SourceMapJson {
             version: 3,
diff --git a/src/source_map.rs b/src/source_map.rs
index aff20ab..f38d0e7 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -15,7 +15,7 @@ pub struct SourceMapJson {
     pub source_root: Option<String>,
     #[serde(rename = "sourcesContent")]
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub sources_content: Option<Vec<String>>,
+    pub sources_content: Option<Vec<Option<String>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub sections: Option<Vec<Section>>,
 }
-- 
2.43.0


From ec1dbec7920af2a31a27333e2e86c80b9715507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 16/32] fix: do not panic on a sourcesContent list shorter than
 the sources

---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 8d4e3ad..98dd02e 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -377,7 +377,7 @@ impl BasicConsumer {
 
         let index = self.find_source_index(source);
         return match index {
-            Some(i) => sources_content[i as usize].clone(),
+            Some(i) => sources_content.get(i as usize).cloned().flatten(),
             None => {
                 if panic_on_missing {
                     panic!(r#""{}" is not in the SourceMap."#, source);
-- 
2.43.0


From b8648b99e6f552842e980b3bc294b0c21c8fedd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 17/32] fix: leave out the file field of a map without one

---
 src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source_map.rs b/src/source_map.rs
index f38d0e7..ddc5609 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -9,6 +9,7 @@ pub struct SourceMapJson {
     pub names: Option<Vec<String>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub mappings: Option<String>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub file: Option<String>,
     #[serde(rename = "sourceRoot")]
     #[serde(skip_serializing_if = "Option::is_none")]
-- 
2.43.0


From 27f5cb3f2247670dfd0bcecd539fb6150e15e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 18/32] fix: refuse invalid mappings unless validation is
 skipped

---
 src/generator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generator.rs b/src/generator.rs
index 061fcf4..eab3dbb 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -38,9 +38,10 @@ impl SourceMapGenerator {
     }
 
     pub fn add_mapping(&mut self, mapping: Mapping) {
-        // if (!this._skipValidation) {
-        // 	this._validateMapping(generated, original, source, name);
-        // }
+        if !self.skip_validation && Self::validate_mapping(&mapping).is_err() {
+            panic!("Invalid mapping: {:?}", mapping);
+        }
+
         let source: Option<String> = mapping.source.clone();
         let name: Option<String> = mapping.name.clone();
 
-- 
2.43.0


From f70bddcf3f836950dad0aa480c611777f2b39dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 19/32] fix: check the order of sections in document order, not
 in thread schedule order

---
 src/consumer.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 98dd02e..3fe43e8 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -9,7 +9,6 @@ use std::cell::RefCell;
 use std::collections::HashMap;
 use std::panic;
 use std::rc::Rc;
-use std::sync::{Arc, Mutex};
 
 ///
 /// You should always use this function to create consumer
@@ -519,10 +518,20 @@ impl IndexedConsumer {
             panic!("Unsupported version: {}", version);
         }
 
-        let last_offset = Arc::new(Mutex::new(Position {
+        // Checked in document order, before the sections are built in parallel.
+        let mut last_offset = Position {
             line: -1,
             column: 0,
-        }));
+        };
+        for section in source_map.sections.as_ref().unwrap() {
+            let offset = &section.offset;
+            if offset.line < last_offset.line
+                || (offset.line == last_offset.line && offset.column < last_offset.column)
+            {
+                panic!("Section offsets must be ordered and non-overlapping.")
+            }
+            last_offset = offset.clone();
+        }
 
         IndexedConsumer {
             source_map: source_map.clone(),
@@ -552,7 +561,6 @@ impl IndexedConsumer {
                     .unwrap()
                     .par_iter()
                     .map({
-                        let last_offset = last_offset;
                         move |section| {
                             if section.url.is_some() {
                                 panic!("Section with url is not supported.");
@@ -561,16 +569,6 @@ impl IndexedConsumer {
                             let line = section.offset.line;
                             let colum = section.offset.column;
 
-                            let mut last_offset = last_offset.lock().unwrap();
-
-                            if line < last_offset.line
-                                || (line == last_offset.line && colum < last_offset.column)
-                            {
-                                panic!("Section offsets must be ordered and non-overlapping.")
-                            }
-
-                            *last_offset = section.offset.clone();
-
                             Section {
                                 generated_offset: Position {
                                     // The offset fields are 0-based, but we use 1-based indices when
-- 
2.43.0


From 1f36f713729f370d25d061607f8d82f3f641afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 20/32] fix: return an error for unusable maps from
 create_consumer instead of panicking later

---
 src/consumer.rs | 71 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 3fe43e8..baf534b 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -2,8 +2,9 @@ use crate::array_set::ArraySet;
 use crate::generator::SourceMapGenerator;
 use crate::mapping::Mapping;
 use crate::source_map::{Position, SourceMapJson};
-use crate::{binary_search, util};
+use crate::{binary_search, source_map, util};
 use rayon::prelude::*;
+use serde::de::Error;
 use source_map_mappings::Bias;
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -18,11 +19,17 @@ pub fn create_consumer(
     source_map_url: Option<&str>,
 ) -> Result<Consumer, serde_json::Error> {
     let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw)?;
-    if source_map.sections.is_some() {
+    if let Some(ref sections) = source_map.sections {
+        check_sections(sections).map_err(Error::custom)?;
+        for section in sections {
+            check_source_map(&section.map)?;
+        }
+        check_version(&source_map)?;
         Ok(Consumer::IndexedConsumer(
             IndexedConsumer::from_source_map_json(source_map, source_map_url),
         ))
     } else {
+        check_source_map(&source_map)?;
         Ok(Consumer::BasicConsumer(
             BasicConsumer::from_source_map_json(source_map, source_map_url),
         ))
@@ -503,6 +510,48 @@ pub struct IndexedConsumer {
 
 const SUPPORTED_SOURCE_MAP_VERSION: i32 = 3;
 
+fn check_sections(sections: &[source_map::Section]) -> Result<(), &'static str> {
+    let valid = 0..i32::MAX;
+    let mut last_offset = Position::default();
+    for section in sections {
+        if section.url.is_some() {
+            return Err("Section with url is not supported.");
+        }
+
+        let offset = &section.offset;
+        if !valid.contains(&offset.line) || !valid.contains(&offset.column) {
+            return Err("Section offset is out of range.");
+        }
+        if offset.line < last_offset.line
+            || (offset.line == last_offset.line && offset.column < last_offset.column)
+        {
+            return Err("Section offsets must be ordered and non-overlapping.");
+        }
+        last_offset = offset.clone();
+    }
+    Ok(())
+}
+
+fn check_version(source_map: &SourceMapJson) -> Result<(), serde_json::Error> {
+    if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
+        let message = format!("Unsupported version: {}", source_map.version);
+        return Err(Error::custom(message));
+    }
+    Ok(())
+}
+
+/// Checks what `BasicConsumer` takes for granted.
+fn check_source_map(source_map: &SourceMapJson) -> Result<(), serde_json::Error> {
+    check_version(source_map)?;
+    if source_map.sources.is_none() {
+        return Err(Error::missing_field("sources"));
+    }
+    if source_map.mappings.is_none() {
+        return Err(Error::missing_field("mappings"));
+    }
+    Ok(())
+}
+
 impl IndexedConsumer {
     pub fn new(source_map_raw: &str, source_map_url: Option<&str>) -> Self {
         let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
@@ -519,18 +568,8 @@ impl IndexedConsumer {
         }
 
         // Checked in document order, before the sections are built in parallel.
-        let mut last_offset = Position {
-            line: -1,
-            column: 0,
-        };
-        for section in source_map.sections.as_ref().unwrap() {
-            let offset = &section.offset;
-            if offset.line < last_offset.line
-                || (offset.line == last_offset.line && offset.column < last_offset.column)
-            {
-                panic!("Section offsets must be ordered and non-overlapping.")
-            }
-            last_offset = offset.clone();
+        if let Err(message) = check_sections(source_map.sections.as_ref().unwrap()) {
+            panic!("{}", message);
         }
 
         IndexedConsumer {
@@ -562,10 +601,6 @@ impl IndexedConsumer {
                     .par_iter()
                     .map({
                         move |section| {
-                            if section.url.is_some() {
-                                panic!("Section with url is not supported.");
-                            }
-
                             let line = section.offset.line;
                             let colum = section.offset.column;
 
-- 
2.43.0


From 05c447b13da21a842038ed420e5541d4c20aca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 21/32] fix: report resolved sources from indexed consumers too

---
 src/consumer.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index baf534b..980a9aa 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -628,24 +628,7 @@ impl IndexedConsumer {
         let mut sources: Vec<String> = vec![];
 
         for i in 0..(*self.sections).borrow().len() {
-            for j in 0..(*self.sections).borrow()[i]
-                .consumer
-                .source_map
-                .sources
-                .as_ref()
-                .unwrap()
-                .len()
-            {
-                sources.push(
-                    (*self.sections).borrow()[i]
-                        .consumer
-                        .source_map
-                        .sources
-                        .as_ref()
-                        .unwrap()[j]
-                        .clone(),
-                );
-            }
+            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
         }
 
         sources
-- 
2.43.0


From 5522ad1ac4eb24760d20943da88d000da9a9cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 22/32] fix: look for source content in all sections before
 giving up

---
 src/consumer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 980a9aa..63fbae3 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -699,10 +699,7 @@ impl IndexedConsumer {
         panic_on_missing: Option<bool>,
     ) -> Option<String> {
         for section in (*self.sections).borrow_mut().iter_mut() {
-            if let Some(it) = section
-                .consumer
-                .source_content_for(source, panic_on_missing)
-            {
+            if let Some(it) = section.consumer.source_content_for(source, Some(false)) {
                 return Some(it);
             }
         }
-- 
2.43.0


From da710efbc2baf1b512370f0d84ef7b2658eefc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 23/32] fix: let a section's first column belong to that
 section

---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 63fbae3..7ac2a7a 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -648,7 +648,7 @@ impl IndexedConsumer {
                 if a.line - b.generated_offset.line != 0 {
                     a.line - b.generated_offset.line
                 } else {
-                    a.column - b.generated_offset.column
+                    a.column - (b.generated_offset.column - 1)
                 }
             },
             |a, b| {
-- 
2.43.0


From 989ab24a06531ac2a096d81799854dcf6ab9f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:45 +0000
Subject: [PATCH 24/32] fix: report whole-file generated positions from indexed
 original_position_for

---
 src/consumer.rs | 49 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7ac2a7a..31f62de 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -498,6 +498,21 @@ pub struct Section {
     consumer: BasicConsumer,
 }
 
+impl Section {
+    /// From a (1-based line) position within the section to the position in the
+    /// whole generated file.
+    fn shift(&self, position: &Position) -> Position {
+        Position {
+            line: position.line + self.generated_offset.line - 1,
+            column: if position.line == 1 {
+                position.column + self.generated_offset.column - 1
+            } else {
+                position.column
+            },
+        }
+    }
+}
+
 pub struct IndexedConsumer {
     pub source_map: SourceMapJson,
     // pub(crate) source_lookup_cache: HashMap<String, i32>,
@@ -665,18 +680,28 @@ impl IndexedConsumer {
             .borrow_mut()
             .get_mut(section_index as usize)
             .map(|it| {
-                it.consumer.original_position_for(
-                    Position {
-                        line: needle.line - (it.generated_offset.line - 1),
-                        column: needle.column
-                            - if it.generated_offset.line == needle.line {
-                                it.generated_offset.column - 1
-                            } else {
-                                0
-                            },
-                    },
-                    bias,
-                )
+                it.consumer
+                    .original_position_for(
+                        Position {
+                            line: needle.line - (it.generated_offset.line - 1),
+                            column: needle.column
+                                - if it.generated_offset.line == needle.line {
+                                    it.generated_offset.column - 1
+                                } else {
+                                    0
+                                },
+                        },
+                        bias,
+                    )
+                    .map(|mut mapping| {
+                        if mapping.generated.line == 1 {
+                            if let Some(last_column) = &mut mapping.last_generated_column {
+                                *last_column += it.generated_offset.column - 1;
+                            }
+                        }
+                        mapping.generated = it.shift(&mapping.generated);
+                        mapping
+                    })
             })
             .flatten()
     }
-- 
2.43.0


From 38f78d1d298577ba07b91214b5ea1ed88f887a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 25/32] fix: find the section of a source, and shift by its
 offset, in indexed generated_position_for

---
 src/consumer.rs | 69 ++++++++++++-------------------------------------
 1 file changed, 16 insertions(+), 53 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 31f62de..eda21ec 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -737,15 +737,12 @@ impl IndexedConsumer {
         }
     }
 
-    fn find_source_index(&mut self, source: &str) -> Option<i32> {
-        for i in 0..(*self.sections).borrow().len() {
-            let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
-            if let Some(index) = consumer.find_source_index(source) {
-                return Some(index);
-            }
-        }
-
-        None
+    /// The first section that has the source.
+    fn find_section_index(&mut self, source: &str) -> Option<usize> {
+        (*self.sections)
+            .borrow_mut()
+            .iter_mut()
+            .position(|it| it.consumer.find_source_index(source).is_some())
     }
 
     ///
@@ -760,50 +757,16 @@ impl IndexedConsumer {
         original_column: i32,
         bias: Option<Bias>,
     ) -> Option<Position> {
-        let index = self.find_source_index(source);
-        if let Some(index) = index {
-            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
-                let mut generated_position = section.consumer.generated_position_for(
-                    source,
-                    original_line,
-                    original_column,
-                    bias,
-                );
-                if let Some(ref mut generated_position) = generated_position {
-                    let line_shift = generated_position.generated.line - 1;
-                    let column_shift = generated_position.generated.column - 1;
-
-                    if generated_position.generated.line == 1 {
-                        generated_position.generated.column += column_shift;
-                        if let Some(g) = &mut generated_position.last_generated_column {
-                            *g += column_shift;
-                        }
-                    }
-
-                    if let (Some(last_column), Some(next_section)) = (
-                        generated_position.last_generated_column,
-                        (*self.sections).borrow().get(index as usize + 1),
-                    ) {
-                        if last_column == -1
-                            && generated_position.generated.line
-                                == next_section.generated_offset.line
-                        {
-                            generated_position
-                                .last_generated_column
-                                .replace(next_section.generated_offset.column - 2);
-                        }
-                        generated_position.generated.line += line_shift;
-
-                        return Some(Position {
-                            line: generated_position.generated.line,
-                            column: generated_position.generated.column,
-                        });
-                    }
-                }
-            }
-        }
+        let index = self.find_section_index(source)?;
+        let section = &mut (*self.sections).borrow_mut()[index];
+        let mapping = section.consumer.generated_position_for(
+            source,
+            original_line,
+            original_column,
+            bias,
+        )?;
 
-        None
+        Some(section.shift(&mapping.generated))
     }
 
     pub fn all_generated_position_for(
@@ -812,7 +775,7 @@ impl IndexedConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let index = self.find_source_index(source);
+        let index = self.find_section_index(source);
         if let Some(index) = index {
             if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
                 section
-- 
2.43.0


From fc69ff4256a1fc8ce1621a2181c51eec6e650372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:48 +0000
Subject: [PATCH 26/32] fix: place section mappings in the whole map when
 indexed consumers enumerate them

---
 src/consumer.rs | 175 ++++++++++++++++++++++--------------------------
 1 file changed, 80 insertions(+), 95 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index eda21ec..300fa86 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -513,6 +513,43 @@ impl Section {
     }
 }
 
+/// Where a section's (0-based) mappings are in the whole source map.
+struct Place {
+    line: u32,
+    column: u32,
+    /// The (0-based) start of the next section, if this one's column spans are
+    /// known and end there.
+    end: Option<(u32, u32)>,
+    /// Numbers of sources and names in the sections before.
+    sources: u32,
+    names: u32,
+}
+
+impl Place {
+    fn apply(&self, mapping: &source_map_mappings::Mapping) -> source_map_mappings::Mapping {
+        let mut mapping = mapping.clone();
+        if mapping.generated_line == 0 {
+            mapping.generated_column += self.column;
+            if let Some(last_column) = &mut mapping.last_generated_column {
+                *last_column += self.column;
+            }
+        }
+        mapping.generated_line += self.line;
+
+        if let (None, Some((line, column))) = (mapping.last_generated_column, self.end) {
+            if mapping.generated_line == line {
+                mapping.last_generated_column = Some(column);
+            }
+        }
+
+        if let Some(original) = &mut mapping.original {
+            original.source += self.sources;
+            original.name = original.name.map(|it| it + self.names);
+        }
+        mapping
+    }
+}
+
 pub struct IndexedConsumer {
     pub source_map: SourceMapJson,
     // pub(crate) source_lookup_cache: HashMap<String, i32>,
@@ -737,6 +774,31 @@ impl IndexedConsumer {
         }
     }
 
+    fn places(&self) -> Vec<Place> {
+        let sections = (*self.sections).borrow();
+        let (mut sources, mut names) = (0, 0);
+        sections
+            .iter()
+            .enumerate()
+            .map(|(index, section)| {
+                let next = sections.get(index + 1).map(|it| &it.generated_offset);
+                let place = Place {
+                    line: (section.generated_offset.line - 1) as u32,
+                    column: (section.generated_offset.column - 1) as u32,
+                    end: next
+                        .filter(|_| section.consumer.computed_column_spans)
+                        .map(|it| ((it.line - 1) as u32, (it.column - 1) as u32)),
+                    sources,
+                    names,
+                };
+                let source_map = &section.consumer.source_map;
+                sources += source_map.sources.as_ref().map_or(0, |it| it.len()) as u32;
+                names += source_map.names.as_ref().map_or(0, |it| it.len()) as u32;
+                place
+            })
+            .collect()
+    }
+
     /// The first section that has the source.
     fn find_section_index(&mut self, source: &str) -> Option<usize> {
         (*self.sections)
@@ -775,52 +837,18 @@ impl IndexedConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let index = self.find_section_index(source);
-        if let Some(index) = index {
-            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
-                section
-                    .consumer
-                    .all_generated_position_for(source, original_line, original_column)
-                    .iter()
-                    .map(|mapping| {
-                        let mut mapping = mapping.clone();
-                        let line_shift = mapping.generated_line - 1;
-                        let column_shift = mapping.generated_column - 1;
-
-                        if mapping.generated_line == 1 {
-                            mapping.generated_column += column_shift;
-                            if let Some(g) = &mut mapping.last_generated_column {
-                                *g += column_shift;
-                            } else {
-                            }
-                        }
-
-                        if mapping.last_generated_column.is_some() {
-                            // TODO(CGQAQ): is it OK to be u8?
-                            // if last_column == -1
-                            let sections_ref = (*self.sections).borrow();
-                            let next_section = sections_ref.get(index as usize + 1);
-                            if let Some(next_section) = next_section {
-                                if mapping.generated_line
-                                    == next_section.generated_offset.line as u32
-                                {
-                                    mapping
-                                        .last_generated_column
-                                        .replace((next_section.generated_offset.column - 2) as u32);
-                                }
-                            }
-                            mapping.generated_line += line_shift;
-                        }
+        let index = match self.find_section_index(source) {
+            Some(index) => index,
+            None => return vec![],
+        };
+        let places = self.places();
 
-                        mapping
-                    })
-                    .collect()
-            } else {
-                vec![]
-            }
-        } else {
-            vec![]
-        }
+        (*self.sections).borrow_mut()[index]
+            .consumer
+            .all_generated_position_for(source, original_line, original_column)
+            .iter()
+            .map(|mapping| places[index].apply(mapping))
+            .collect()
     }
 
     pub fn computed_column_spans(&mut self) {
@@ -837,55 +865,12 @@ impl ConsumerTrait for IndexedConsumer {
     }
 
     fn each_mapping(&mut self, f: impl Fn(&source_map_mappings::Mapping), ord: IterOrd) {
-        (*self.sections)
-            .borrow_mut()
-            .iter_mut()
-            .enumerate()
-            .for_each({
-                let sections = &self.sections;
-                let f = &f;
-
-                move |(index, section)| {
-                    //     const nextSection =
-                    //     index + 1 < this._sections.length ? this._sections[index + 1] : null;
-                    // const { generatedOffset } = section;
-
-                    // const lineShift = generatedOffset.generatedLine - 1;
-                    // const columnShift = generatedOffset.generatedColumn - 1;
-
-                    let generated_offset = &mut section.generated_offset;
-                    let line_shift = generated_offset.line - 1;
-                    let column_shift = generated_offset.column - 1;
-                    section.consumer.each_mapping(
-                        {
-                            let sections_ref = (**sections).borrow();
-                            move |mapping| {
-                                let next_section = sections_ref.get(index + 1);
-
-                                let mut mapping = mapping.clone();
-                                if mapping.generated_line == 1 {
-                                    mapping.generated_column += column_shift as u32;
-                                    if let Some(it) = &mut mapping.last_generated_column {
-                                        *it += column_shift as u32;
-                                    }
-                                }
-
-                                if let Some(next_section) = next_section {
-                                    if mapping.generated_line
-                                        == next_section.generated_offset.line as u32
-                                    {
-                                        mapping.last_generated_column.replace(
-                                            next_section.generated_offset.column as u32 - 2,
-                                        );
-                                    }
-                                }
-                                mapping.generated_line += line_shift as u32;
-                                f(&mapping);
-                            }
-                        },
-                        ord.clone(),
-                    )
-                }
-            })
+        let places = self.places();
+
+        for (section, place) in (*self.sections).borrow_mut().iter_mut().zip(places) {
+            section
+                .consumer
+                .each_mapping(|mapping| f(&place.apply(mapping)), ord.clone());
+        }
     }
 }
-- 
2.43.0


From 66d212f69d269c932652118ccc29617eafbe8846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:33 +0000
Subject: [PATCH 27/32] fix: refuse invalid positions in indexed consumers
 before they overflow

---
 src/consumer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/consumer.rs b/src/consumer.rs
index 300fa86..028352c 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -692,6 +692,13 @@ impl IndexedConsumer {
         bias: Option<Bias>,
     ) -> Option<Mapping> {
         let needle = input;
+        if needle.line < 1 {
+            panic!("Line numbers must be >= 1");
+        }
+
+        if needle.column < 0 {
+            panic!("Column numbers must be >= 0");
+        }
 
         let section_index = binary_search::search(
             needle.clone(),
-- 
2.43.0


From 74bcfa38eb472da8a184639b6d1ed41f0f315fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 28/32] fix: leave out the url field of a section without one

---
 src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source_map.rs b/src/source_map.rs
index ddc5609..c594373 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -27,6 +27,7 @@ pub struct Section {
     pub map: Box<SourceMapJson>,
 
     // ref: https://github.com/mozilla/source-map/issues/437
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub url: Option<String>,
 }
 
-- 
2.43.0


From e01b76924e2cb596187ec3dc60e9ed1196ac789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:19 +0000
Subject: [PATCH 29/32] fix: shift positions at the largest line and column
 without overflowing

---
 src/consumer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 028352c..4d5cc5f 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -503,9 +503,9 @@ impl Section {
     /// whole generated file.
     fn shift(&self, position: &Position) -> Position {
         Position {
-            line: position.line + self.generated_offset.line - 1,
+            line: position.line + (self.generated_offset.line - 1),
             column: if position.line == 1 {
-                position.column + self.generated_offset.column - 1
+                position.column + (self.generated_offset.column - 1)
             } else {
                 position.column
             },
-- 
2.43.0


From 1b31c62069d48c1eea70dc5149c7c0ec82d7832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:53 +0000
Subject: [PATCH 30/32] fix: answer a position from the last of the sections at
 one offset

Every section that another one at the same offset follows is empty, but the
search finds the first of them, so positions of the last one had no answer.
---
 src/consumer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 4d5cc5f..412d97f 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -700,7 +700,7 @@ impl IndexedConsumer {
             panic!("Column numbers must be >= 0");
         }
 
-        let section_index = binary_search::search(
+        let mut section_index = binary_search::search(
             needle.clone(),
             &(*self.sections).borrow(),
             |a, b| {
@@ -720,6 +720,20 @@ impl IndexedConsumer {
             None,
         );
 
+        // The search finds the first of the sections at one offset, but all of
+        // them except the last are empty.
+        if section_index >= 0 {
+            let sections = (*self.sections).borrow();
+            let offset = &sections[section_index as usize].generated_offset;
+            section_index += sections[section_index as usize + 1..]
+                .iter()
+                .take_while(|it| {
+                    it.generated_offset.line == offset.line
+                        && it.generated_offset.column == offset.column
+                })
+                .count() as i32;
+        }
+
         (&*self.sections)
             .borrow_mut()
             .get_mut(section_index as usize)
-- 
2.43.0


From a39b09f8e87e8eb73c10c46799bfc8af4a54d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:03 +0000
Subject: [PATCH 31/32] fix: keep relative references relative

A path left over after its root that begins with an empty segment read as an
absolute path, and one whose first segment has a colon as a URL.
---
 src/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 637c4ca..c905e01 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -161,6 +161,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .collect::<Vec<_>>()
         .join("/");
 
+    // What is left must not read as an absolute path ("a//b" relative to "a") or as
+    // a URL ("a/b:c" relative to "a").
+    if relative_path.starts_with('/') || relative_path.split('/').next().unwrap().contains(':') {
+        relative_path.insert_str(0, "./");
+    }
+
     if let Some(query) = target_url.query() {
         relative_path.push('?');
         relative_path.push_str(query);
-- 
2.43.0


From 3afa5bca4ecae5fda8c90ca00b6f921227455d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:04 +0000
Subject: [PATCH 32/32] fix: keep path-absolute references path-absolute

Once dot segments are gone, a path that begins with an empty segment read as
a reference to another host.
---
 src/util.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index c905e01..d956055 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -197,7 +197,7 @@ fn create_safe_handler(cb: Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -
         match t {
             Absolute => result,
             SchemeRelative => result.chars().skip(PROTOCOL.len()).collect(),
-            PathAbsolute => result.chars().skip(PROTOCOL_AND_HOST.len()).collect(),
+            PathAbsolute => strip_host(&result),
             _ => compute_relative_url(base.as_str(), result.as_str()),
         }
     })
@@ -276,6 +276,16 @@ fn strip_prefix(url: &str, prefix: &str) -> String {
     url.strip_prefix(prefix).unwrap_or(url).to_string()
 }
 
+fn strip_host(url: &str) -> String {
+    let path = strip_prefix(url, &PROTOCOL_AND_HOST);
+
+    // A path that begins with an empty segment must not read as a host.
+    if path.starts_with("//") {
+        return format!("/.{}", path);
+    }
+    path
+}
+
 pub fn join(root: &str, path: &str) -> String {
     // What is not a URL can not be resolved: keep it verbatim.
     try_join(root, path).unwrap_or_else(|| path.to_string())
@@ -310,8 +320,7 @@ fn try_join(root: &str, path: &str) -> Option<String> {
 
     if root_t == PathAbsolute {
         let base = with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str()))?;
-        return with_base(path, Some(base.as_str()))
-            .map(|it| strip_prefix(&it, &PROTOCOL_AND_HOST));
+        return with_base(path, Some(base.as_str())).map(|it| strip_host(&it));
     }
 
     let base = build_safe_base(format!("{}{}", path, root).as_str());
-- 
2.43.0

