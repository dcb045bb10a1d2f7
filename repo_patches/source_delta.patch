From 36bab3e7abaecb6b33c50b28b36d9b56010c8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 01/58] fix: release the content length of a removed baggage
 entry

---
 opentelemetry/src/baggage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry/src/baggage.rs b/opentelemetry/src/baggage.rs
index f38d817..645f87e 100644
--- a/opentelemetry/src/baggage.rs
+++ b/opentelemetry/src/baggage.rs
@@ -208,7 +208,10 @@ impl Baggage {
     /// Removes a name from the baggage, returning the value
     /// corresponding to the name if the pair was previously in the map.
     pub fn remove<K: AsRef<str>>(&mut self, key: K) -> Option<(StringValue, BaggageMetadata)> {
-        self.inner.remove(key.as_ref())
+        let key = key.as_ref();
+        let pair = self.inner.remove(key)?;
+        self.kv_content_len -= key_value_metadata_bytes_size(key, pair.0.as_str(), pair.1.as_str());
+        Some(pair)
     }
 
     /// Returns the number of attributes for this baggage
-- 
2.43.0


From 6a3d086d0a13aeef1f588f50ffbf3b354f8e01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 02/58] fix: make with_cleared_baggage actually clear the
 baggage

---
 opentelemetry/src/baggage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry/src/baggage.rs b/opentelemetry/src/baggage.rs
index 645f87e..a7cd2d5 100644
--- a/opentelemetry/src/baggage.rs
+++ b/opentelemetry/src/baggage.rs
@@ -415,7 +415,7 @@ impl BaggageExt for Context {
     }
 
     fn with_cleared_baggage(&self) -> Self {
-        self.with_value(Baggage::new())
+        self.with_value(BaggageContextValue(Baggage::new()))
     }
 
     fn baggage(&self) -> &Baggage {
-- 
2.43.0


From 9426e99a58ef0200bbb665d5725223de5250a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 03/58] fix: percent-encode '%' in propagated baggage

---
 opentelemetry-sdk/src/propagation/baggage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/propagation/baggage.rs b/opentelemetry-sdk/src/propagation/baggage.rs
index 78bb81a..2ef30a8 100644
--- a/opentelemetry-sdk/src/propagation/baggage.rs
+++ b/opentelemetry-sdk/src/propagation/baggage.rs
@@ -9,7 +9,13 @@ use std::iter;
 use std::sync::OnceLock;
 
 static BAGGAGE_HEADER: &str = "baggage";
-const FRAGMENT: &AsciiSet = &CONTROLS.add(b' ').add(b'"').add(b';').add(b',').add(b'=');
+const FRAGMENT: &AsciiSet = &CONTROLS
+    .add(b' ')
+    .add(b'"')
+    .add(b'%')
+    .add(b';')
+    .add(b',')
+    .add(b'=');
 
 // TODO Replace this with LazyLock once it is stable.
 static BAGGAGE_FIELDS: OnceLock<[String; 1]> = OnceLock::new();
-- 
2.43.0


From c6831f4800b206c559512c6a5b73370e8ef3f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 04/58] fix: keep '=' inside extracted baggage values

---
 opentelemetry-sdk/src/propagation/baggage.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/baggage.rs b/opentelemetry-sdk/src/propagation/baggage.rs
index 2ef30a8..bc938fd 100644
--- a/opentelemetry-sdk/src/propagation/baggage.rs
+++ b/opentelemetry-sdk/src/propagation/baggage.rs
@@ -113,8 +113,7 @@ impl TextMapPropagator for BaggagePropagator {
                     .collect::<Vec<&str>>()
                     .split_first()
                 {
-                    let mut iter = name_and_value.split('=');
-                    if let (Some(name), Some(value)) = (iter.next(), iter.next()) {
+                    if let Some((name, value)) = name_and_value.split_once('=') {
                         let decode_name = percent_decode_str(name).decode_utf8();
                         let decode_value = percent_decode_str(value).decode_utf8();
 
-- 
2.43.0


From 35980114800f4482b98116aa28c14ff236e3b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 05/58] fix: start a new trace under an invalid parent span
 context

---
 opentelemetry-sdk/src/trace/tracer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/tracer.rs b/opentelemetry-sdk/src/trace/tracer.rs
index 40e55fd..ecae7f2 100644
--- a/opentelemetry-sdk/src/trace/tracer.rs
+++ b/opentelemetry-sdk/src/trace/tracer.rs
@@ -213,7 +213,11 @@ impl opentelemetry::trace::Tracer for SdkTracer {
         };
 
         // Build context for sampling decision
-        if let Some(sc) = parent_span.as_ref().map(|parent| parent.span_context()) {
+        if let Some(sc) = parent_span
+            .as_ref()
+            .map(|parent| parent.span_context())
+            .filter(|sc| sc.is_valid())
+        {
             trace_id = sc.trace_id();
             psc = sc;
         } else {
-- 
2.43.0


From 949c78d19582b4807ed4f3700ec64d6157cbf4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 06/58] fix: percent-encode ',' and '%' in propagated baggage
 metadata

---
 opentelemetry-sdk/src/propagation/baggage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/propagation/baggage.rs b/opentelemetry-sdk/src/propagation/baggage.rs
index bc938fd..3be4a4f 100644
--- a/opentelemetry-sdk/src/propagation/baggage.rs
+++ b/opentelemetry-sdk/src/propagation/baggage.rs
@@ -17,6 +17,10 @@ const FRAGMENT: &AsciiSet = &CONTROLS
     .add(b',')
     .add(b'=');
 
+// Metadata keeps its `;` and `=` delimiters (and the optional white space around them). Only what would end the
+// list-member, be taken for an escape sequence, or not be allowed in a header has to be encoded.
+const METADATA_FRAGMENT: &AsciiSet = &CONTROLS.add(b'%').add(b',');
+
 // TODO Replace this with LazyLock once it is stable.
 static BAGGAGE_FIELDS: OnceLock<[String; 1]> = OnceLock::new();
 #[inline]
@@ -95,7 +99,7 @@ impl TextMapPropagator for BaggagePropagator {
                         .chain(iter::once("="))
                         .chain(utf8_percent_encode(value.as_str().trim(), FRAGMENT))
                         .chain(iter::once(metadata_prefix))
-                        .chain(iter::once(metadata_str))
+                        .chain(utf8_percent_encode(metadata_str, METADATA_FRAGMENT))
                         .collect()
                 })
                 .collect::<Vec<String>>()
-- 
2.43.0


From 5fc07cd5652c7413325c14a1a632404e60c8fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 07/58] fix: refuse empty tracestate keys and accept 14
 character system ids

---
 opentelemetry/src/trace/span_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index 95863cd..f732798 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -22,7 +22,7 @@ impl TraceState {
     ///
     /// [W3 Spec]: https://www.w3.org/TR/trace-context/#key
     fn valid_key(key: &str) -> bool {
-        if key.len() > 256 {
+        if key.is_empty() || key.len() > 256 {
             return false;
         }
 
@@ -36,7 +36,7 @@ impl TraceState {
             if i == 0 && (!b.is_ascii_lowercase() && !b.is_ascii_digit()) {
                 return false;
             } else if b == b'@' {
-                if vendor_start.is_some() || i + 14 < key.len() {
+                if vendor_start.is_some() || i + 15 < key.len() {
                     return false;
                 }
                 vendor_start = Some(i);
-- 
2.43.0


From 7708034dc026b9d39c14f3c483de55e6777732b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 08/58] fix: refuse tracestate values that cannot stand in a
 header

---
 opentelemetry/src/trace/span_context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index f732798..86caac6 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -58,7 +58,11 @@ impl TraceState {
             return false;
         }
 
-        !(value.contains(',') || value.contains('='))
+        // printable ASCII without separators, not ending in a space
+        value
+            .bytes()
+            .all(|b| (0x20..=0x7e).contains(&b) && b != b',' && b != b'=')
+            && !value.ends_with(' ')
     }
 
     /// Creates a new `TraceState` from the given key-value collection.
-- 
2.43.0


From 72e1de3a78b467903a9d940d5fa2f00249a09213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 09/58] fix: delete every tracestate entry of a key, not only
 the first

---
 opentelemetry/src/trace/span_context.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index 86caac6..d6567b1 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -166,9 +166,7 @@ impl TraceState {
     fn delete_from_deque(&self, key: &str) -> TraceState {
         let mut owned = self.clone();
         if let Some(kvs) = owned.0.as_mut() {
-            if let Some(index) = kvs.iter().position(|x| x.0 == key) {
-                kvs.remove(index);
-            }
+            kvs.retain(|x| x.0 != key);
         }
         owned
     }
-- 
2.43.0


From 13894cbb14092fe05e653a791ec927cad3d87042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 10/58] fix: read tracestate headers with white space or empty
 members, and no repeated equals signs

---
 opentelemetry/src/trace/span_context.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index d6567b1..0bb05b3 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -195,16 +195,18 @@ impl FromStr for TraceState {
     type Err = TraceStateError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let list_members: Vec<&str> = s.split_terminator(',').collect();
-        let mut key_value_pairs: Vec<(String, String)> = Vec::with_capacity(list_members.len());
+        let mut key_value_pairs: Vec<(String, String)> = Vec::new();
 
-        for list_member in list_members {
-            match list_member.find('=') {
+        for list_member in s.split(',') {
+            // white space around list members, and empty list members, are allowed
+            let list_member = list_member.trim_matches(|c| c == ' ' || c == '\t');
+            if list_member.is_empty() {
+                continue;
+            }
+            match list_member.split_once('=') {
                 None => return Err(TraceStateError::List(list_member.to_string())),
-                Some(separator_index) => {
-                    let (key, value) = list_member.split_at(separator_index);
-                    key_value_pairs
-                        .push((key.to_string(), value.trim_start_matches('=').to_string()));
+                Some((key, value)) => {
+                    key_value_pairs.push((key.to_string(), value.to_string()));
                 }
             }
         }
-- 
2.43.0


From 328ec75e7ac3105aa22a617f838efa7e6da9cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 11/58] fix: accept only full length lowercase hex in
 traceparent

---
 .../src/propagation/trace_context.rs          | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/trace_context.rs b/opentelemetry-sdk/src/propagation/trace_context.rs
index 2a6d53e..f98dd55 100644
--- a/opentelemetry-sdk/src/propagation/trace_context.rs
+++ b/opentelemetry-sdk/src/propagation/trace_context.rs
@@ -68,25 +68,24 @@ impl TraceContextPropagator {
             return Err(());
         }
 
-        // Ensure version is within range, for version 0 there must be 4 parts.
-        let version = u8::from_str_radix(parts[0], 16).map_err(|_| ())?;
-        if version > MAX_VERSION || version == 0 && parts.len() != 4 {
+        // Ensure every part is lowercase hex of its exact length
+        if !is_lower_hex(parts[0], 2)
+            || !is_lower_hex(parts[1], 32)
+            || !is_lower_hex(parts[2], 16)
+            || !is_lower_hex(parts[3], 2)
+        {
             return Err(());
         }
 
-        // Ensure trace id is lowercase
-        if parts[1].chars().any(|c| c.is_ascii_uppercase()) {
+        // Ensure version is within range, for version 0 there must be 4 parts.
+        let version = u8::from_str_radix(parts[0], 16).map_err(|_| ())?;
+        if version > MAX_VERSION || version == 0 && parts.len() != 4 {
             return Err(());
         }
 
         // Parse trace id section
         let trace_id = TraceId::from_hex(parts[1]).map_err(|_| ())?;
 
-        // Ensure span id is lowercase
-        if parts[2].chars().any(|c| c.is_ascii_uppercase()) {
-            return Err(());
-        }
-
         // Parse span id section
         let span_id = SpanId::from_hex(parts[2]).map_err(|_| ())?;
 
@@ -121,6 +120,13 @@ impl TraceContextPropagator {
     }
 }
 
+fn is_lower_hex(part: &str, len: usize) -> bool {
+    part.len() == len
+        && part
+            .bytes()
+            .all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f'))
+}
+
 impl TextMapPropagator for TraceContextPropagator {
     /// Properly encodes the values of the `SpanContext` and injects them
     /// into the `Injector`.
-- 
2.43.0


From f5cba8c86d4b87354d5739ea436f621bc6f2646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 12/58] fix: accept a traceparent with both the sampled and the
 random flag

---
 opentelemetry-sdk/src/propagation/trace_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/propagation/trace_context.rs b/opentelemetry-sdk/src/propagation/trace_context.rs
index f98dd55..8bc69a6 100644
--- a/opentelemetry-sdk/src/propagation/trace_context.rs
+++ b/opentelemetry-sdk/src/propagation/trace_context.rs
@@ -93,7 +93,7 @@ impl TraceContextPropagator {
         let opts = u8::from_str_radix(parts[3], 16).map_err(|_| ())?;
 
         // Ensure opts are valid for version 0
-        if version == 0 && opts > 2 {
+        if version == 0 && opts > 3 {
             return Err(());
         }
 
-- 
2.43.0


From 3fd8988d6a47edaf728cb945d6012e0b39dfd41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 13/58] fix: Jaeger propagator ignores zero and signed ids,
 lists the header it uses

---
 opentelemetry-jaeger-propagator/src/propagator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-jaeger-propagator/src/propagator.rs b/opentelemetry-jaeger-propagator/src/propagator.rs
index dfbbf3b..5af63a9 100644
--- a/opentelemetry-jaeger-propagator/src/propagator.rs
+++ b/opentelemetry-jaeger-propagator/src/propagator.rs
@@ -67,7 +67,7 @@ impl Propagator {
         Propagator {
             baggage_prefix: custom_baggage_prefix.trim(),
             header_name: custom_header_name.trim(),
-            fields: [custom_header_name.to_owned()],
+            fields: [custom_header_name.trim().to_owned()],
         }
     }
 
@@ -112,7 +112,7 @@ impl Propagator {
 
     /// Extract trace id from the header.
     fn extract_trace_id(&self, trace_id: &str) -> Result<TraceId, ()> {
-        if trace_id.len() > 32 {
+        if trace_id.len() > 32 || trace_id.starts_with('+') {
             return Err(());
         }
 
@@ -121,6 +121,10 @@ impl Propagator {
 
     /// Extract span id from the header.
     fn extract_span_id(&self, span_id: &str) -> Result<SpanId, ()> {
+        if span_id.starts_with('+') {
+            return Err(());
+        }
+
         match span_id.len() {
             // exact 16
             16 => SpanId::from_hex(span_id).map_err(|_| ()),
@@ -210,6 +214,7 @@ impl TextMapPropagator for Propagator {
 
     fn extract_with_context(&self, cx: &Context, extractor: &dyn Extractor) -> Context {
         self.extract_span_context(extractor)
+            .filter(|sc| sc.is_valid())
             .map(|sc| cx.with_remote_span_context(sc))
             .unwrap_or_else(|| cx.clone())
     }
-- 
2.43.0


From fcfb62582eeceecee4fbfa609e9454ef9013d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 14/58] fix: B3 propagator keeps the sampling decision next to
 other flags, refuses signed ids

---
 opentelemetry-zipkin/src/propagator/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-zipkin/src/propagator/mod.rs b/opentelemetry-zipkin/src/propagator/mod.rs
index c91d0cd..3de7ac6 100644
--- a/opentelemetry-zipkin/src/propagator/mod.rs
+++ b/opentelemetry-zipkin/src/propagator/mod.rs
@@ -107,7 +107,10 @@ impl Propagator {
     /// Extract trace id from hex encoded &str value.
     fn extract_trace_id(&self, trace_id: &str) -> Result<TraceId, ()> {
         // Only allow lower case hex string
-        if trace_id.to_lowercase() != trace_id || (trace_id.len() != 16 && trace_id.len() != 32) {
+        if trace_id.to_lowercase() != trace_id
+            || trace_id.starts_with('+')
+            || (trace_id.len() != 16 && trace_id.len() != 32)
+        {
             Err(())
         } else {
             TraceId::from_hex(trace_id).map_err(|_| ())
@@ -117,7 +120,7 @@ impl Propagator {
     /// Extract span id from hex encoded &str value.
     fn extract_span_id(&self, span_id: &str) -> Result<SpanId, ()> {
         // Only allow lower case hex string
-        if span_id.to_lowercase() != span_id || span_id.len() != 16 {
+        if span_id.to_lowercase() != span_id || span_id.starts_with('+') || span_id.len() != 16 {
             Err(())
         } else {
             SpanId::from_hex(span_id).map_err(|_| ())
@@ -196,7 +199,8 @@ impl Propagator {
         let debug = self.extract_debug_flag(extractor.get(B3_DEBUG_FLAG_HEADER).unwrap_or(""));
         let sampled_opt = extractor.get(B3_SAMPLED_HEADER);
 
-        let flag = if let Ok(debug_flag) = debug {
+        let debug = debug.ok().filter(|flag| flag.is_sampled()); // `0` is no decision
+        let flag = if let Some(debug_flag) = debug {
             // if debug is set, then X-B3-Sampled should not be sent. Will ignore
             debug_flag
         } else if let Some(sampled) = sampled_opt {
@@ -224,9 +228,10 @@ impl TextMapPropagator for Propagator {
         let span = context.span();
         let span_context = span.span_context();
         if span_context.is_valid() {
-            let is_deferred =
-                span_context.trace_flags() & TRACE_FLAG_DEFERRED == TRACE_FLAG_DEFERRED;
             let is_debug = span_context.trace_flags() & TRACE_FLAG_DEBUG == TRACE_FLAG_DEBUG;
+            let is_deferred = !is_debug
+                && !span_context.is_sampled()
+                && span_context.trace_flags() & TRACE_FLAG_DEFERRED == TRACE_FLAG_DEFERRED;
             if self.inject_encoding.support(&B3Encoding::SingleHeader) {
                 let mut value = format!("{}-{}", span_context.trace_id(), span_context.span_id());
                 if !is_deferred {
-- 
2.43.0


From bab9041734fa075aef6aa2b6b1af022bb7d50294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 15/58] fix: B3 single header encoding no longer sets the
 multiple headers as well

---
 opentelemetry-zipkin/src/propagator/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-zipkin/src/propagator/mod.rs b/opentelemetry-zipkin/src/propagator/mod.rs
index 3de7ac6..474a248 100644
--- a/opentelemetry-zipkin/src/propagator/mod.rs
+++ b/opentelemetry-zipkin/src/propagator/mod.rs
@@ -248,7 +248,7 @@ impl TextMapPropagator for Propagator {
                 injector.set(B3_SINGLE_HEADER, value);
             }
             if self.inject_encoding.support(&B3Encoding::MultipleHeader)
-                || self.inject_encoding.support(&B3Encoding::UnSpecified)
+                || matches!(self.inject_encoding, B3Encoding::UnSpecified)
             {
                 // if inject_encoding is Unspecified, default to use MultipleHeader
                 injector.set(B3_TRACE_ID_HEADER, span_context.trace_id().to_string());
@@ -267,7 +267,7 @@ impl TextMapPropagator for Propagator {
                 injector.set(B3_SINGLE_HEADER, flag.to_string())
             }
             if self.inject_encoding.support(&B3Encoding::MultipleHeader)
-                || self.inject_encoding.support(&B3Encoding::UnSpecified)
+                || matches!(self.inject_encoding, B3Encoding::UnSpecified)
             {
                 injector.set(B3_SAMPLED_HEADER, flag.to_string())
             }
-- 
2.43.0


From c3052e09423c462bbfdd6552a1121c34be919bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 16/58] fix: observable sums with delta temporality key the
 previous value by the attribute set, and treat a decrease of a monotonic sum
 as a reset

---
 .../src/metrics/internal/precomputed_sum.rs      | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
index fc372de..8967954 100644
--- a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
+++ b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
@@ -4,7 +4,7 @@ use crate::metrics::data::{self, AggregatedMetrics, MetricData, SumDataPoint};
 use crate::metrics::Temporality;
 
 use super::aggregate::{AggregateTimeInitiator, AttributeSetFilter};
-use super::{last_value::Assign, AtomicTracker, Number, ValueMap};
+use super::{last_value::Assign, sort_and_dedup, AtomicTracker, Number, ValueMap};
 use super::{ComputeAggregation, Measure};
 use std::{collections::HashMap, sync::Mutex};
 
@@ -71,8 +71,18 @@ impl<T: Number> PrecomputedSum<T> {
         self.value_map
             .collect_and_reset(&mut s_data.data_points, |attributes, aggr| {
                 let value = aggr.value.get_value();
-                new_reported.insert(attributes.clone(), value);
-                let delta = value - *reported.get(&attributes).unwrap_or(&T::default());
+                // The attributes of one series may be handed out in any of the
+                // orders they were recorded in, so look the series up by its
+                // sorted form.
+                let key = sort_and_dedup(&attributes);
+                let delta = match reported.get(&key) {
+                    // The observed total went backwards: it was reset, and the
+                    // whole value was accumulated since.
+                    Some(previous) if self.monotonic && value < *previous => value,
+                    Some(previous) => value - *previous,
+                    None => value,
+                };
+                new_reported.insert(key, value);
                 SumDataPoint {
                     attributes,
                     value: delta,
-- 
2.43.0


From 5a46a788039cbb7c3ed873f0fb3d2f68f21f73e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 17/58] fix: never report attributes with a repeated key on a
 metric data point

---
 opentelemetry-sdk/src/metrics/internal/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index 9ca9de2..430b2fd 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -141,8 +141,12 @@ where
             let new_tracker = Arc::new(A::create(&self.config));
             new_tracker.update(value);
 
-            // Insert tracker with the attributes in the provided and sorted orders
-            trackers.insert(attributes.to_vec(), new_tracker.clone());
+            // Insert tracker with the attributes in the provided and sorted orders.
+            // Attributes that repeat a key are not a valid set to report, so those
+            // are only kept in their sorted form.
+            if sorted_attrs.len() == attributes.len() {
+                trackers.insert(attributes.to_vec(), new_tracker.clone());
+            }
             trackers.insert(sorted_attrs, new_tracker);
 
             self.count.fetch_add(1, Ordering::SeqCst);
-- 
2.43.0


From ecb03afece7009a4b9b59839c378897940dc2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 18/58] fix: exponential histogram counts only recorded
 measurements and computes the bucket range without overflow

---
 .../metrics/internal/exponential_histogram.rs | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
index 1a280a8..19484ab 100644
--- a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
@@ -51,19 +51,10 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
     ///
     /// It will rescale the buckets if needed.
     fn record(&mut self, v: T) {
-        self.count += 1;
-
-        if v < self.min {
-            self.min = v;
-        }
-        if v > self.max {
-            self.max = v;
-        }
-        self.sum += v;
-
         let abs_v = v.into_float().abs();
 
         if abs_v == 0.0 {
+            self.summarize(v);
             self.zero_count += 1;
             return;
         }
@@ -114,6 +105,9 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
             bin = self.get_bin(abs_v);
         }
 
+        // Only once it is certain that the measurement is not dropped.
+        self.summarize(v);
+
         if v_is_negative {
             self.neg_buckets.record(bin)
         } else {
@@ -121,6 +115,19 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
         }
     }
 
+    /// Adds a measurement to everything but the buckets.
+    fn summarize(&mut self, v: T) {
+        self.count += 1;
+
+        if v < self.min {
+            self.min = v;
+        }
+        if v > self.max {
+            self.max = v;
+        }
+        self.sum += v;
+    }
+
     /// the bin `v` should be recorded into.
     fn get_bin(&self, v: f64) -> i32 {
         let (frac, exp) = frexp(v);
@@ -155,7 +162,7 @@ fn scale_change(max_size: i32, bin: i32, start_bin: i32, length: i32) -> u32 {
     }
 
     let mut count = 0u32;
-    while high - low >= max_size {
+    while i64::from(high) - i64::from(low) >= i64::from(max_size) {
         low >>= 1;
         high >>= 1;
         count += 1;
-- 
2.43.0


From a5544c08c96e87dc99324c8b85ad1ebaf53fb3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 19/58] fix: a view keeps the instrument's boundaries and
 cardinality limit unless it sets them, and streams differing only in case are
 one stream

---
 opentelemetry-sdk/src/metrics/pipeline.rs | 29 ++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 05d2861..8bee89a 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -267,13 +267,23 @@ where
         // The cache will return the same Aggregator instance. Use stream ids to de duplicate.
         let mut seen = HashSet::new();
         for v in &self.pipeline.views {
-            let stream = match v.match_inst(&inst) {
+            let mut stream = match v.match_inst(&inst) {
                 Some(stream) => stream,
                 None => continue,
             };
             matched = true;
 
-            let id = self.inst_id(kind, &stream);
+            // What the instrument asked for applies unless the view decides it.
+            if stream.cardinality_limit.is_none() {
+                stream.cardinality_limit = cardinality_limit;
+            }
+            if stream.aggregation.is_none() {
+                stream.aggregation = boundaries.map(explicit_boundaries);
+            }
+
+            // Compare streams the way the aggregator cache does.
+            let mut id = self.inst_id(kind, &stream);
+            id.normalize();
             if seen.contains(&id) {
                 continue; // This aggregator has already been added
             }
@@ -309,12 +319,7 @@ where
         };
 
         // Override default histogram boundaries if provided.
-        if let Some(boundaries) = boundaries {
-            stream.aggregation = Some(Aggregation::ExplicitBucketHistogram {
-                boundaries: boundaries.to_vec(),
-                record_min_max: true,
-            });
-        }
+        stream.aggregation = boundaries.map(explicit_boundaries);
 
         match self.cached_aggregator(&inst.scope, kind, stream) {
             Ok(agg) => {
@@ -462,6 +467,14 @@ where
     }
 }
 
+/// The aggregation of a histogram whose instrument provides its own boundaries.
+fn explicit_boundaries(boundaries: &[f64]) -> Aggregation {
+    Aggregation::ExplicitBucketHistogram {
+        boundaries: boundaries.to_vec(),
+        record_min_max: true,
+    }
+}
+
 /// The default aggregation and parameters for an instrument of [InstrumentKind].
 ///
 /// This aggregation selector uses the following selection mapping per [the spec]:
-- 
2.43.0


From ac77b1fd2879f7ed2871337f1b58b3eb7a3e672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 20/58] fix: min and max of a histogram whose only measurements
 are infinite

---
 opentelemetry-sdk/src/metrics/internal/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index 430b2fd..be73e01 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -311,11 +311,11 @@ impl Number for u64 {
 }
 impl Number for f64 {
     fn min() -> Self {
-        f64::MIN
+        f64::NEG_INFINITY
     }
 
     fn max() -> Self {
-        f64::MAX
+        f64::INFINITY
     }
 
     fn into_float(self) -> f64 {
-- 
2.43.0


From 2ae0c0034dbcaa69060530844a6581460ae67193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 21/58] fix: do not count dropped spans as waiting in
 BatchSpanProcessor

---
 opentelemetry-sdk/src/trace/span_processor.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 595099e..1256f88 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -522,20 +522,24 @@ impl SpanProcessor for BatchSpanProcessor {
             );
             return;
         }
+        // Count the span before sending it, so that the worker thread is never told about fewer
+        // spans than the data channel holds.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self.span_sender.try_send(span);
 
         if result.is_err() {
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
             // Increment dropped span count. The first time we have to drop a span,
             // emit a warning.
             if self.dropped_span_count.fetch_add(1, Ordering::Relaxed) == 0 {
                 otel_warn!(name: "BatchSpanProcessor.SpanDroppingStarted",
                     message = "BatchSpanProcessor dropped a Span due to queue full/internal errors. No further internal log will be emitted for further drops until Shutdown. During Shutdown time, a log will be emitted with exact count of total Spans dropped.");
             }
+            return;
         }
         // At this point, sending the span to the data channel was successful.
-        // Increment the current batch size and check if it has reached the max export batch size.
-        if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1 >= self.max_export_batch_size
-        {
+        // Check if the current batch size has reached the max export batch size.
+        if batch_size >= self.max_export_batch_size {
             // Check if the a control message for exporting spans is already sent to the worker thread.
             // If not, send a control message to export spans.
             // `export_span_message_sent` is set to false ONLY when the worker thread has processed the control message.
-- 
2.43.0


From cfb42b0542836bb43b75aeb749c0022ea13aaa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 22/58] fix: flush every batch in BatchSpanProcessor's
 force_flush and shutdown

---
 opentelemetry-sdk/src/trace/span_processor.rs | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 1256f88..233d478 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -445,8 +445,8 @@ impl BatchSpanProcessor {
         }
     }
 
-    // This method gets upto `max_export_batch_size` amount of spans from the channel and exports them.
-    // It returns the result of the export operation.
+    // This method exports all spans that were sent to the channel before it was called, in batches of
+    // up to `max_export_batch_size` spans. It returns the first error of the export operations, if any.
     // It expects the span vec to be empty when it's called.
     #[inline]
     fn get_spans_and_export<E>(
@@ -460,18 +460,32 @@ impl BatchSpanProcessor {
     where
         E: SpanExporter + Send + Sync + 'static,
     {
-        // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
-        while let Ok(span) = spans_receiver.try_recv() {
-            spans.push(span);
-            if spans.len() == config.max_export_batch_size {
+        let target = current_batch_size.load(Ordering::Relaxed); // `target` is used to determine the stopping criteria for exporting spans.
+        let mut result = OTelSdkResult::Ok(());
+        let mut total_exported_spans: usize = 0;
+        *last_export_time = Instant::now();
+
+        while total_exported_spans < target {
+            // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
+            while let Ok(span) = spans_receiver.try_recv() {
+                spans.push(span);
+                if spans.len() == config.max_export_batch_size {
+                    break;
+                }
+            }
+
+            let count_of_spans = spans.len(); // Count of spans that will be exported
+            if count_of_spans == 0 {
+                // `target` also counts spans which are just about to be sent.
                 break;
             }
-        }
+            total_exported_spans += count_of_spans;
 
-        let count_of_spans = spans.len(); // Count of spans that will be exported
-        let result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            let export_result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            result = result.and(export_result);
 
-        current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
+            current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
+        }
         result
     }
 
-- 
2.43.0


From d54cfab4f34058001d15fd248792dbf9a80c9f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 23/58] fix: shut the exporter down when BatchSpanProcessor
 shuts down

---
 opentelemetry-sdk/src/trace/span_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 233d478..520cb41 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -373,7 +373,7 @@ impl BatchSpanProcessor {
                                     &current_batch_size,
                                     &config,
                                 );
-                                let _ = sender.send(result);
+                                let _ = sender.send(result.and(exporter.shutdown()));
 
                                 otel_debug!(
                                     name: "BatchSpanProcessor.ThreadExiting",
-- 
2.43.0


From 319a61db3667b65aa01f1a2d09de1dc9d548659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 24/58] fix: never count fewer logs than BatchLogProcessor's
 channel holds

---
 .../src/logs/batch_log_processor.rs           | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 7f37914..6c27152 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -154,19 +154,24 @@ impl Debug for BatchLogProcessor {
 
 impl LogProcessor for BatchLogProcessor {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
+        // Count the record before sending it, so that the worker thread is never told about fewer
+        // records than the data channel holds.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self
             .logs_sender
             .try_send(Box::new((record.clone(), instrumentation.clone())));
 
+        if result.is_err() {
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
+        }
+
         // match for result and handle each separately
         match result {
             Ok(_) => {
                 // Successfully sent the log record to the data channel.
-                // Increment the current batch size and check if it has reached
-                // the max export batch size.
-                if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1
-                    >= self.max_export_batch_size
-                {
+                // Check if the current batch size has reached the max export
+                // batch size.
+                if batch_size >= self.max_export_batch_size {
                     // Check if the a control message for exporting logs is
                     // already sent to the worker thread. If not, send a control
                     // message to export logs. `export_log_message_sent` is set
@@ -382,6 +387,10 @@ impl BatchLogProcessor {
                         }
 
                         let count_of_logs = logs.len(); // Count of logs that will be exported
+                        if count_of_logs == 0 {
+                            // `target` also counts records which are just about to be sent.
+                            break;
+                        }
                         total_exported_logs += count_of_logs;
 
                         result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
-- 
2.43.0


From a35f5c300f08d0641569f277bc4461e0f296cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 25/58] fix: keep the first export error of a flush in
 BatchLogProcessor

---
 opentelemetry-sdk/src/logs/batch_log_processor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 6c27152..9d54aa1 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -393,7 +393,8 @@ impl BatchLogProcessor {
                         }
                         total_exported_logs += count_of_logs;
 
-                        result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
+                        let export_result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
+                        result = result.and(export_result);
 
                         current_batch_size.fetch_sub(count_of_logs, Ordering::Relaxed);
                     }
-- 
2.43.0


From ed0ab46375dca6b61cf511831818dff661036f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 26/58] fix: ignore an OTEL_METRIC_EXPORT_INTERVAL of zero

It made the periodic reader collect and export in a busy loop;
PeriodicReaderBuilder::with_interval ignores zero already.
---
 opentelemetry-sdk/src/metrics/periodic_reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/metrics/periodic_reader.rs b/opentelemetry-sdk/src/metrics/periodic_reader.rs
index 518a0cc..cb4acaa 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader.rs
@@ -40,6 +40,7 @@ where
         let interval = env::var(METRIC_EXPORT_INTERVAL_NAME)
             .ok()
             .and_then(|v| v.parse().map(Duration::from_millis).ok())
+            .filter(|interval: &Duration| !interval.is_zero())
             .unwrap_or(DEFAULT_INTERVAL);
 
         PeriodicReaderBuilder { interval, exporter }
-- 
2.43.0


From 71610ab3c2a7d7f8adff681b4d31271b3a65b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 27/58] fix: hash 0.0 and -0.0 attribute values alike

They compare equal, so a HashMap found one under the other or not by chance.
---
 opentelemetry/src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry/src/common.rs b/opentelemetry/src/common.rs
index 4fb32ef..6078047 100644
--- a/opentelemetry/src/common.rs
+++ b/opentelemetry/src/common.rs
@@ -425,7 +425,9 @@ impl Eq for F64Hashable {}
 
 impl Hash for F64Hashable {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.to_bits().hash(state);
+        // 0.0 and -0.0 are equal values, so they must hash alike.
+        let value = if self.0 == 0.0 { 0.0 } else { self.0 };
+        value.to_bits().hash(state);
     }
 }
 
-- 
2.43.0


From 88cf70bcdf506530b96a16fb0a06ba5529f99d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 28/58] fix: let OTEL_SERVICE_NAME win over
 OTEL_RESOURCE_ATTRIBUTES in Resource::builder

---
 opentelemetry-sdk/src/resource/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/resource/mod.rs b/opentelemetry-sdk/src/resource/mod.rs
index bf6f43d..c61175a 100644
--- a/opentelemetry-sdk/src/resource/mod.rs
+++ b/opentelemetry-sdk/src/resource/mod.rs
@@ -62,9 +62,10 @@ impl Resource {
     pub fn builder() -> ResourceBuilder {
         ResourceBuilder {
             resource: Self::from_detectors(&[
-                Box::new(SdkProvidedResourceDetector),
                 Box::new(TelemetryResourceDetector),
                 Box::new(EnvResourceDetector::new()),
+                // Last, as it prefers OTEL_SERVICE_NAME over OTEL_RESOURCE_ATTRIBUTES.
+                Box::new(SdkProvidedResourceDetector),
             ]),
         }
     }
-- 
2.43.0


From 164ad59cdeb0dc3554b1cdbdaa5cf9eba61e894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 29/58] fix: keep the schema URLs of detected resources

Resource::from_detectors copied the attributes only.
---
 opentelemetry-sdk/src/resource/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/resource/mod.rs b/opentelemetry-sdk/src/resource/mod.rs
index c61175a..5e32c25 100644
--- a/opentelemetry-sdk/src/resource/mod.rs
+++ b/opentelemetry-sdk/src/resource/mod.rs
@@ -142,14 +142,7 @@ impl Resource {
     fn from_detectors(detectors: &[Box<dyn ResourceDetector>]) -> Self {
         let mut resource = Resource::empty();
         for detector in detectors {
-            let detected_res = detector.detect();
-            // This call ensures that if the Arc is not uniquely owned,
-            // the data is cloned before modification, preserving safety.
-            // If the Arc is uniquely owned, it simply returns a mutable reference to the data.
-            let inner = Arc::make_mut(&mut resource.inner);
-            for (key, value) in detected_res.into_iter() {
-                inner.attrs.insert(Key::new(key.clone()), value.clone());
-            }
+            resource = resource.merge(&detector.detect());
         }
 
         resource
-- 
2.43.0


From 4c8bfa036462cd256edf8b39e38e2508d8adcc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 30/58] fix: emit no tracing event when the last tracer or
 logger provider reference is dropped

---
 opentelemetry-sdk/src/logs/logger_provider.rs | 12 +++---------
 opentelemetry-sdk/src/trace/provider.rs       |  8 +++-----
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/logger_provider.rs b/opentelemetry-sdk/src/logs/logger_provider.rs
index f70a4ed..15c470d 100644
--- a/opentelemetry-sdk/src/logs/logger_provider.rs
+++ b/opentelemetry-sdk/src/logs/logger_provider.rs
@@ -153,17 +153,11 @@ impl LoggerProviderInner {
 
 impl Drop for LoggerProviderInner {
     fn drop(&mut self) {
+        // Emit no tracing event here: the last reference may be held by a
+        // tracing subscriber, which tracing drops while holding the lock that
+        // an event may have to wait for.
         if !self.is_shutdown.load(Ordering::Relaxed) {
-            otel_info!(
-                name: "LoggerProvider.Drop",
-                message = "Last reference of LoggerProvider dropped, initiating shutdown."
-            );
             let _ = self.shutdown(); // errors are handled within shutdown
-        } else {
-            otel_debug!(
-                name: "LoggerProvider.Drop.AlreadyShutdown",
-                message = "LoggerProvider was already shut down; drop will not attempt shutdown again."
-            );
         }
     }
 }
diff --git a/opentelemetry-sdk/src/trace/provider.rs b/opentelemetry-sdk/src/trace/provider.rs
index 2773b87..f61ffd4 100644
--- a/opentelemetry-sdk/src/trace/provider.rs
+++ b/opentelemetry-sdk/src/trace/provider.rs
@@ -132,13 +132,11 @@ impl TracerProviderInner {
 
 impl Drop for TracerProviderInner {
     fn drop(&mut self) {
+        // Emit no tracing event here: the last reference may be held by a
+        // tracing subscriber, which tracing drops while holding the lock that
+        // an event may have to wait for.
         if !self.is_shutdown.load(Ordering::Relaxed) {
             let _ = self.shutdown(); // errors are handled within shutdown
-        } else {
-            otel_debug!(
-                name: "TracerProvider.Drop.AlreadyShutdown",
-                message = "TracerProvider was already shut down; drop will not attempt shutdown again."
-            );
         }
     }
 }
-- 
2.43.0


From b4c2cb9de1a3dd04e5d5a4223559a4bd1a410033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 31/58] fix: export each span group with its scope's schema URL

---
 opentelemetry-proto/src/transform/trace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/transform/trace.rs b/opentelemetry-proto/src/transform/trace.rs
index 636296f..a423ec6 100644
--- a/opentelemetry-proto/src/transform/trace.rs
+++ b/opentelemetry-proto/src/transform/trace.rs
@@ -169,7 +169,10 @@ pub mod tonic {
             .into_iter()
             .map(|(instrumentation, span_records)| ScopeSpans {
                 scope: Some((instrumentation, None).into()),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
                 spans: span_records
                     .into_iter()
                     .map(|span_data| span_data.clone().into())
-- 
2.43.0


From 554a442bd9c6d44bc5522984579c0110795ba35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 32/58] fix: export unsigned metric values above i64::MAX as
 i64::MAX instead of 0

---
 opentelemetry-proto/src/transform/metrics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-proto/src/transform/metrics.rs b/opentelemetry-proto/src/transform/metrics.rs
index c040898..7298304 100644
--- a/opentelemetry-proto/src/transform/metrics.rs
+++ b/opentelemetry-proto/src/transform/metrics.rs
@@ -40,7 +40,7 @@ pub mod tonic {
 
     impl From<u64> for exemplar::Value {
         fn from(value: u64) -> Self {
-            exemplar::Value::AsInt(i64::try_from(value).unwrap_or_default())
+            exemplar::Value::AsInt(i64::try_from(value).unwrap_or(i64::MAX))
         }
     }
 
@@ -58,7 +58,7 @@ pub mod tonic {
 
     impl From<u64> for number_data_point::Value {
         fn from(value: u64) -> Self {
-            number_data_point::Value::AsInt(i64::try_from(value).unwrap_or_default())
+            number_data_point::Value::AsInt(i64::try_from(value).unwrap_or(i64::MAX))
         }
     }
 
-- 
2.43.0


From 07a33cc20f378a36c64f70849d2725a03c107b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 33/58] fix: do not panic on a log record without observed
 timestamp in the OTLP transform

---
 opentelemetry-proto/src/transform/logs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/transform/logs.rs b/opentelemetry-proto/src/transform/logs.rs
index f1a992f..f6faa61 100644
--- a/opentelemetry-proto/src/transform/logs.rs
+++ b/opentelemetry-proto/src/transform/logs.rs
@@ -89,7 +89,10 @@ pub mod tonic {
 
             LogRecord {
                 time_unix_nano: log_record.timestamp().map(to_nanos).unwrap_or_default(),
-                observed_time_unix_nano: to_nanos(log_record.observed_timestamp().unwrap()),
+                observed_time_unix_nano: log_record
+                    .observed_timestamp()
+                    .map(to_nanos)
+                    .unwrap_or_default(),
                 attributes: {
                     log_record
                         .attributes_iter()
-- 
2.43.0


From 367c9a2c6c295f1d3cb7c2a715585eabd8cde56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 34/58] fix: group exported log records by target and whole
 scope, with the scope's schema URL

---
 opentelemetry-proto/src/transform/logs.rs | 40 +++++++++--------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/opentelemetry-proto/src/transform/logs.rs b/opentelemetry-proto/src/transform/logs.rs
index f6faa61..88c5f76 100644
--- a/opentelemetry-proto/src/transform/logs.rs
+++ b/opentelemetry-proto/src/transform/logs.rs
@@ -2,10 +2,7 @@
 pub mod tonic {
     use crate::{
         tonic::{
-            common::v1::{
-                any_value::Value, AnyValue, ArrayValue, InstrumentationScope, KeyValue,
-                KeyValueList,
-            },
+            common::v1::{any_value::Value, AnyValue, ArrayValue, KeyValue, KeyValueList},
             logs::v1::{LogRecord, ResourceLogs, ScopeLogs, SeverityNumber},
             resource::v1::Resource,
         },
@@ -171,41 +168,34 @@ pub mod tonic {
         logs: LogBatch<'_>,
         resource: &ResourceAttributesWithSchema,
     ) -> Vec<ResourceLogs> {
-        // Group logs by target or instrumentation name
+        // Group logs by target, if there is one, and instrumentation scope
         let scope_map = logs.iter().fold(
             HashMap::new(),
             |mut scope_map: HashMap<
-                Cow<'static, str>,
-                Vec<(
-                    &opentelemetry_sdk::logs::SdkLogRecord,
+                (
+                    Option<&Cow<'static, str>>,
                     &opentelemetry::InstrumentationScope,
-                )>,
+                ),
+                Vec<&opentelemetry_sdk::logs::SdkLogRecord>,
             >,
              (log_record, instrumentation)| {
-                let key = log_record
-                    .target()
-                    .cloned()
-                    .unwrap_or_else(|| Cow::Owned(instrumentation.name().to_owned()));
                 scope_map
-                    .entry(key)
+                    .entry((log_record.target(), instrumentation))
                     .or_default()
-                    .push((log_record, instrumentation));
+                    .push(log_record);
                 scope_map
             },
         );
 
         let scope_logs = scope_map
             .into_iter()
-            .map(|(key, log_data)| ScopeLogs {
-                scope: Some(InstrumentationScope::from((
-                    log_data.first().unwrap().1,
-                    Some(key.into_owned().into()),
-                ))),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
-                log_records: log_data
-                    .into_iter()
-                    .map(|(log_record, _)| log_record.into())
-                    .collect(),
+            .map(|((target, instrumentation), log_records)| ScopeLogs {
+                scope: Some((instrumentation, target.cloned()).into()),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
+                log_records: log_records.into_iter().map(Into::into).collect(),
             })
             .collect();
 
-- 
2.43.0


From 5d38074c642533b08afeb6af2cbe8bfc015d96e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 35/58] fix: ignore an export interval or timeout of zero in
 the async periodic reader

---
 .../src/metrics/periodic_reader_with_async_runtime.rs           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
index 03e0230..14d2d09 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
@@ -61,10 +61,12 @@ where
         let interval = env::var(METRIC_EXPORT_INTERVAL_NAME)
             .ok()
             .and_then(|v| v.parse().map(Duration::from_millis).ok())
+            .filter(|interval: &Duration| !interval.is_zero())
             .unwrap_or(DEFAULT_INTERVAL);
         let timeout = env::var(METRIC_EXPORT_TIMEOUT_NAME)
             .ok()
             .and_then(|v| v.parse().map(Duration::from_millis).ok())
+            .filter(|timeout: &Duration| !timeout.is_zero())
             .unwrap_or(DEFAULT_TIMEOUT);
 
         PeriodicReaderBuilder {
-- 
2.43.0


From 39d25d960da718069c3a2255e5f7a23340bdd125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 36/58] fix: shut down the transport client of the OTLP span
 exporter

---
 opentelemetry-otlp/src/span.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opentelemetry-otlp/src/span.rs b/opentelemetry-otlp/src/span.rs
index 81c2ced..56e62e4 100644
--- a/opentelemetry-otlp/src/span.rs
+++ b/opentelemetry-otlp/src/span.rs
@@ -151,6 +151,15 @@ impl opentelemetry_sdk::trace::SpanExporter for SpanExporter {
         }
     }
 
+    fn shutdown(&mut self) -> OTelSdkResult {
+        match &mut self.client {
+            #[cfg(feature = "grpc-tonic")]
+            SupportedTransportClient::Tonic(client) => client.shutdown(),
+            #[cfg(any(feature = "http-proto", feature = "http-json"))]
+            SupportedTransportClient::Http(client) => client.shutdown(),
+        }
+    }
+
     fn set_resource(&mut self, resource: &opentelemetry_sdk::Resource) {
         match &mut self.client {
             #[cfg(feature = "grpc-tonic")]
-- 
2.43.0


From 1ca1688f6f5c88a4c64b7458f26fdb9af2f7eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 37/58] fix: report an unsuccessful HTTP status of an OTLP
 metrics export

---
 opentelemetry-otlp/src/exporter/http/metrics.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-otlp/src/exporter/http/metrics.rs b/opentelemetry-otlp/src/exporter/http/metrics.rs
index 1503368..0571bfe 100644
--- a/opentelemetry-otlp/src/exporter/http/metrics.rs
+++ b/opentelemetry-otlp/src/exporter/http/metrics.rs
@@ -33,12 +33,23 @@ impl MetricsClient for OtlpHttpClient {
             request.headers_mut().insert(k.clone(), v.clone());
         }
 
+        let request_uri = request.uri().to_string();
         otel_debug!(name: "HttpMetricsClient.CallingExport");
-        client
+        let response = client
             .send_bytes(request)
             .await
             .map_err(|e| OTelSdkError::InternalFailure(format!("{e:?}")))?;
 
+        if !response.status().is_success() {
+            let error = format!(
+                "OpenTelemetry metrics export failed. Url: {}, Status Code: {}, Response: {:?}",
+                request_uri,
+                response.status().as_u16(),
+                response.body()
+            );
+            return Err(OTelSdkError::InternalFailure(error));
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From ceb7539b29c0b338846543cb89a1a50693e9826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 38/58] fix: decode only hexadecimal digits after % in OTLP
 header values

---
 opentelemetry-otlp/src/exporter/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/mod.rs b/opentelemetry-otlp/src/exporter/mod.rs
index 28676e4..decd2f6 100644
--- a/opentelemetry-otlp/src/exporter/mod.rs
+++ b/opentelemetry-otlp/src/exporter/mod.rs
@@ -313,10 +313,9 @@ fn url_decode(value: &str) -> Option<String> {
         let ch = all_chars.next();
 
         if ch.is_some() && ch.unwrap() == '%' {
-            chars_to_decode.push(
-                u8::from_str_radix(&format!("{}{}", all_chars.next()?, all_chars.next()?), 16)
-                    .ok()?,
-            );
+            let high = all_chars.next()?.to_digit(16)?;
+            let low = all_chars.next()?.to_digit(16)?;
+            chars_to_decode.push((high * 16 + low) as u8);
             continue;
         }
 
-- 
2.43.0


From ac55098fbd2c163e1149e48f612207ef4e869ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 39/58] fix: trim OTLP header values that are not
 percent-encoded

---
 opentelemetry-otlp/src/exporter/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/mod.rs b/opentelemetry-otlp/src/exporter/mod.rs
index decd2f6..0f78e99 100644
--- a/opentelemetry-otlp/src/exporter/mod.rs
+++ b/opentelemetry-otlp/src/exporter/mod.rs
@@ -337,10 +337,8 @@ fn parse_header_key_value_string(key_value_string: &str) -> Option<(&str, String
     key_value_string
         .split_once('=')
         .map(|(key, value)| {
-            (
-                key.trim(),
-                url_decode(value.trim()).unwrap_or(value.to_string()),
-            )
+            let value = value.trim();
+            (key.trim(), url_decode(value).unwrap_or(value.to_string()))
         })
         .filter(|(key, value)| !key.is_empty() && !value.is_empty())
 }
-- 
2.43.0


From d03dcbcc4579e6a6761a8118e719f13c6083caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 40/58] fix: replace non-ASCII letters in Prometheus metric
 names

Prometheus metric names are ASCII only; a non-ASCII letter was left in the
name, so that the metric could not be scraped.
---
 opentelemetry-prometheus/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-prometheus/src/utils.rs b/opentelemetry-prometheus/src/utils.rs
index a18c2bc..af780e1 100644
--- a/opentelemetry-prometheus/src/utils.rs
+++ b/opentelemetry-prometheus/src/utils.rs
@@ -110,7 +110,7 @@ pub(crate) fn sanitize_name(s: &Cow<'static, str>) -> Cow<'static, str> {
             true
         } else {
             // keep checking
-            !c.is_alphanumeric() && *c != '_' && *c != ':'
+            !c.is_ascii_alphanumeric() && *c != '_' && *c != ':'
         }
     }) {
         // up to `replace_idx` have been validated, convert the rest
-- 
2.43.0


From 76e90e9e33d8405e86d45cd9415069868a886ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 41/58] fix: keep resource labels on Prometheus metrics without
 scope info

with_resource_selector's labels were dropped together with the otel_scope
labels when the exporter was built without_scope_info.
---
 opentelemetry-prometheus/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-prometheus/src/lib.rs b/opentelemetry-prometheus/src/lib.rs
index 3ec3879..7158797 100644
--- a/opentelemetry-prometheus/src/lib.rs
+++ b/opentelemetry-prometheus/src/lib.rs
@@ -348,7 +348,8 @@ impl prometheus::core::Collector for Collector {
                 }
                 labels
             } else {
-                Vec::new()
+                // the resource labels do not depend on the scope labels
+                resource_labels.clone()
             };
 
             for metrics in scope_metrics.metrics {
-- 
2.43.0


From 0ad25ec178197a6886224c5a20478fd8e16f4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:32 +0000
Subject: [PATCH 42/58] fix: do not name a parent for root spans sent to Zipkin

---
 opentelemetry-zipkin/src/exporter/model/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-zipkin/src/exporter/model/mod.rs b/opentelemetry-zipkin/src/exporter/model/mod.rs
index 9f799e3..bb442ff 100644
--- a/opentelemetry-zipkin/src/exporter/model/mod.rs
+++ b/opentelemetry-zipkin/src/exporter/model/mod.rs
@@ -1,5 +1,5 @@
 use opentelemetry::{
-    trace::{SpanKind, Status},
+    trace::{SpanId, SpanKind, Status},
     Key, KeyValue,
 };
 use opentelemetry_sdk::trace::SpanData;
@@ -75,9 +75,9 @@ pub(crate) fn into_zipkin_span(local_endpoint: Endpoint, span_data: SpanData) ->
         }
     };
 
-    span::Span::builder()
+    let parent_span_id = span_data.parent_span_id;
+    let builder = span::Span::builder()
         .trace_id(span_data.span_context.trace_id().to_string())
-        .parent_id(span_data.parent_span_id.to_string())
         .id(span_data.span_context.span_id().to_string())
         .name(span_data.name.into_owned())
         .kind(if user_defined_span_kind {
@@ -101,8 +101,14 @@ pub(crate) fn into_zipkin_span(local_endpoint: Endpoint, span_data: SpanData) ->
         )
         .local_endpoint(local_endpoint)
         .annotations(span_data.events.into_iter().map(Into::into).collect())
-        .tags(tags)
-        .build()
+        .tags(tags);
+
+    // A root span has no parent to name.
+    if parent_span_id == SpanId::INVALID {
+        builder.build()
+    } else {
+        builder.parent_id(parent_span_id.to_string()).build()
+    }
 }
 
 fn map_from_kvs<T>(kvs: T) -> HashMap<String, String>
-- 
2.43.0


From 052548c99a000d6ec75ffc5f18e1e7c71b4e32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:32 +0000
Subject: [PATCH 43/58] fix: let the no-op propagator give back the given
 context

---
 opentelemetry/src/trace/noop.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/trace/noop.rs b/opentelemetry/src/trace/noop.rs
index ffb4717..3aa22d0 100644
--- a/opentelemetry/src/trace/noop.rs
+++ b/opentelemetry/src/trace/noop.rs
@@ -151,8 +151,8 @@ impl TextMapPropagator for NoopTextMapPropagator {
         // ignored
     }
 
-    fn extract_with_context(&self, _cx: &Context, _extractor: &dyn Extractor) -> Context {
-        Context::current()
+    fn extract_with_context(&self, cx: &Context, _extractor: &dyn Extractor) -> Context {
+        cx.clone()
     }
 
     fn fields(&self) -> FieldIter<'_> {
-- 
2.43.0


From 7f803277ecbe7e034b5cc0f8e5669dce390d5965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:27 +0000
Subject: [PATCH 44/58] fix: drop a detached context only when the context
 stack is no longer borrowed

---
 opentelemetry/src/context.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/opentelemetry/src/context.rs b/opentelemetry/src/context.rs
index ecad94d..8e2ab17 100644
--- a/opentelemetry/src/context.rs
+++ b/opentelemetry/src/context.rs
@@ -464,7 +464,10 @@ impl Drop for ContextGuard {
     fn drop(&mut self) {
         let id = self.cx_pos;
         if id > ContextStack::BASE_POS && id < ContextStack::MAX_POS {
-            CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+            // Dropping the detached context can run code that uses the current
+            // context, so that must wait until the stack is no longer borrowed.
+            let _detached =
+                CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
         }
     }
 }
@@ -543,7 +546,7 @@ impl ContextStack {
     }
 
     #[inline(always)]
-    fn pop_id(&mut self, pos: u16) {
+    fn pop_id(&mut self, pos: u16) -> Option<Context> {
         if pos == ContextStack::BASE_POS || pos == ContextStack::MAX_POS {
             // The empty context is always at the bottom of the [`ContextStack`]
             // and cannot be popped, and the overflow position is invalid, so do
@@ -557,7 +560,7 @@ impl ContextStack {
                     "Attempted to pop the overflow position which is not allowed"
                 }
             );
-            return;
+            return None;
         }
         let len: u16 = self.stack.len() as u16;
         // Are we at the top of the [`ContextStack`]?
@@ -570,8 +573,9 @@ impl ContextStack {
             // empty context is always at the bottom of the stack if the
             // [`ContextStack`] is not empty.
             if let Some(Some(next_cx)) = self.stack.pop() {
-                self.current_cx = next_cx;
+                return Some(std::mem::replace(&mut self.current_cx, next_cx));
             }
+            None
         } else {
             // This is an out of order pop.
             if pos >= len {
@@ -582,10 +586,10 @@ impl ContextStack {
                     stack_length = len,
                     message = "Attempted to pop beyond the end of the context stack"
                 );
-                return;
+                return None;
             }
             // Clear out the entry at the given id.
-            _ = self.stack[pos as usize].take();
+            self.stack[pos as usize].take()
         }
     }
 
-- 
2.43.0


From 64c93aaa0212c8fd41ef6481d6aece0b8438cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 45/58] fix: give every Prometheus label a valid name

---
 opentelemetry-prometheus/src/utils.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-prometheus/src/utils.rs b/opentelemetry-prometheus/src/utils.rs
index af780e1..caa3562 100644
--- a/opentelemetry-prometheus/src/utils.rs
+++ b/opentelemetry-prometheus/src/utils.rs
@@ -134,14 +134,22 @@ pub(crate) fn sanitize_name(s: &Cow<'static, str>) -> Cow<'static, str> {
 }
 
 pub(crate) fn sanitize_prom_kv(s: &str) -> String {
-    s.chars()
-        .map(|c| {
-            if c.is_ascii_alphanumeric() || c == ':' {
+    // A label name matches [a-zA-Z_][a-zA-Z0-9_]*; a single invalid one makes
+    // the whole scrape unreadable.
+    let prefix = if s.is_empty() || s.starts_with(|c: char| c.is_ascii_digit()) {
+        "_"
+    } else {
+        ""
+    };
+    prefix
+        .chars()
+        .chain(s.chars().map(|c| {
+            if c.is_ascii_alphanumeric() {
                 c
             } else {
                 '_'
             }
-        })
+        }))
         .collect()
 }
 
-- 
2.43.0


From e858e6093fc79856a6003fa288b6be01608d1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 46/58] fix: treat an empty OTLP environment variable as not
 set

---
 opentelemetry-otlp/src/exporter/http/mod.rs  | 17 ++++++-----------
 opentelemetry-otlp/src/exporter/mod.rs       |  6 ++++++
 opentelemetry-otlp/src/exporter/tonic/mod.rs | 17 +++++++++--------
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index ead431a..9f47e97 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -1,6 +1,6 @@
 use super::{
-    default_headers, default_protocol, parse_header_string, resolve_timeout, ExporterBuildError,
-    OTEL_EXPORTER_OTLP_HTTP_ENDPOINT_DEFAULT,
+    default_headers, default_protocol, env_var, parse_header_string, resolve_timeout,
+    ExporterBuildError, OTEL_EXPORTER_OTLP_HTTP_ENDPOINT_DEFAULT,
 };
 use crate::{ExportConfig, Protocol, OTEL_EXPORTER_OTLP_ENDPOINT, OTEL_EXPORTER_OTLP_HEADERS};
 use http::{HeaderName, HeaderValue, Uri};
@@ -18,7 +18,6 @@ use opentelemetry_sdk::logs::LogBatch;
 use opentelemetry_sdk::trace::SpanData;
 use prost::Message;
 use std::collections::HashMap;
-use std::env;
 use std::str::FromStr;
 use std::sync::{Arc, Mutex};
 use std::time::Duration;
@@ -181,8 +180,8 @@ impl HttpExporterBuilder {
             .collect();
 
         // read headers from env var - signal specific env var is preferred over general
-        if let Ok(input) =
-            env::var(signal_http_headers_var).or_else(|_| env::var(OTEL_EXPORTER_OTLP_HEADERS))
+        if let Some(input) =
+            env_var(signal_http_headers_var).or_else(|| env_var(OTEL_EXPORTER_OTLP_HEADERS))
         {
             add_header_from_string(&input, &mut headers);
         }
@@ -371,14 +370,10 @@ fn resolve_http_endpoint(
             .map_err(|er: http::uri::InvalidUri| {
                 ExporterBuildError::InvalidUri(provider_endpoint.to_string(), er.to_string())
             })
-    } else if let Some(endpoint) = env::var(signal_endpoint_var)
-        .ok()
-        .and_then(|s| s.parse().ok())
-    {
+    } else if let Some(endpoint) = env_var(signal_endpoint_var).and_then(|s| s.parse().ok()) {
         // per signal env var is not modified
         Ok(endpoint)
-    } else if let Some(endpoint) = env::var(OTEL_EXPORTER_OTLP_ENDPOINT)
-        .ok()
+    } else if let Some(endpoint) = env_var(OTEL_EXPORTER_OTLP_ENDPOINT)
         .and_then(|s| build_endpoint_uri(&s, signal_endpoint_path).ok())
     {
         // if signal env var is not set, then we check if the OTEL_EXPORTER_OTLP_ENDPOINT env var is set
diff --git a/opentelemetry-otlp/src/exporter/mod.rs b/opentelemetry-otlp/src/exporter/mod.rs
index 0f78e99..9630316 100644
--- a/opentelemetry-otlp/src/exporter/mod.rs
+++ b/opentelemetry-otlp/src/exporter/mod.rs
@@ -273,6 +273,12 @@ impl<B: HasExportConfig> WithExportConfig for B {
     }
 }
 
+/// Reads an environment variable. An empty value counts as unset.
+#[cfg(any(feature = "grpc-tonic", feature = "http-proto", feature = "http-json"))]
+fn env_var(name: &str) -> Option<String> {
+    std::env::var(name).ok().filter(|value| !value.is_empty())
+}
+
 #[cfg(any(feature = "grpc-tonic", feature = "http-proto", feature = "http-json"))]
 fn resolve_timeout(signal_timeout_var: &str, provided_timeout: Option<&Duration>) -> Duration {
     // programmatic configuration overrides any value set via environment variables
diff --git a/opentelemetry-otlp/src/exporter/tonic/mod.rs b/opentelemetry-otlp/src/exporter/tonic/mod.rs
index 948b605..cac202f 100644
--- a/opentelemetry-otlp/src/exporter/tonic/mod.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/mod.rs
@@ -1,4 +1,3 @@
-use std::env;
 use std::fmt::{Debug, Formatter};
 use std::str::FromStr;
 
@@ -11,7 +10,9 @@ use tonic::transport::Channel;
 #[cfg(feature = "tls")]
 use tonic::transport::ClientTlsConfig;
 
-use super::{default_headers, parse_header_string, OTEL_EXPORTER_OTLP_GRPC_ENDPOINT_DEFAULT};
+use super::{
+    default_headers, env_var, parse_header_string, OTEL_EXPORTER_OTLP_GRPC_ENDPOINT_DEFAULT,
+};
 use super::{resolve_timeout, ExporterBuildError};
 use crate::exporter::Compression;
 use crate::{
@@ -227,9 +228,9 @@ impl TonicExporterBuilder {
         // programmatic configuration overrides any value set via environment variables
         if let Some(endpoint) = provided_endpoint {
             endpoint
-        } else if let Ok(endpoint) = env::var(default_endpoint_var) {
+        } else if let Some(endpoint) = env_var(default_endpoint_var) {
             endpoint
-        } else if let Ok(endpoint) = env::var(OTEL_EXPORTER_OTLP_ENDPOINT) {
+        } else if let Some(endpoint) = env_var(OTEL_EXPORTER_OTLP_ENDPOINT) {
             endpoint
         } else {
             OTEL_EXPORTER_OTLP_GRPC_ENDPOINT_DEFAULT.to_string()
@@ -242,9 +243,9 @@ impl TonicExporterBuilder {
     ) -> Result<Option<CompressionEncoding>, ExporterBuildError> {
         if let Some(compression) = self.tonic_config.compression {
             Ok(Some(compression.try_into()?))
-        } else if let Ok(compression) = env::var(env_override) {
+        } else if let Some(compression) = env_var(env_override) {
             Ok(Some(compression.parse::<Compression>()?.try_into()?))
-        } else if let Ok(compression) = env::var(OTEL_EXPORTER_OTLP_COMPRESSION) {
+        } else if let Some(compression) = env_var(OTEL_EXPORTER_OTLP_COMPRESSION) {
             Ok(Some(compression.parse::<Compression>()?.try_into()?))
         } else {
             Ok(None)
@@ -331,8 +332,8 @@ fn parse_headers_from_env(signal_headers_var: &str) -> (HeaderMap, Vec<(String,
     let mut headers = Vec::new();
 
     (
-        env::var(signal_headers_var)
-            .or_else(|_| env::var(OTEL_EXPORTER_OTLP_HEADERS))
+        env_var(signal_headers_var)
+            .or_else(|| env_var(OTEL_EXPORTER_OTLP_HEADERS))
             .map(|input| {
                 parse_header_string(&input)
                     .filter_map(|(key, value)| {
-- 
2.43.0


From cd8622b60bc6be9936953e04b65c3676bb70afec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:16 +0000
Subject: [PATCH 47/58] fix: drop a replaced global meter provider only when
 its lock is released

---
 opentelemetry/src/global/metrics.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opentelemetry/src/global/metrics.rs b/opentelemetry/src/global/metrics.rs
index 450ba2d..37a3e04 100644
--- a/opentelemetry/src/global/metrics.rs
+++ b/opentelemetry/src/global/metrics.rs
@@ -1,5 +1,6 @@
 use crate::metrics::{self, Meter, MeterProvider};
 use crate::{otel_error, otel_info, InstrumentationScope};
+use std::mem;
 use std::sync::{Arc, OnceLock, RwLock};
 
 type GlobalMeterProvider = Arc<dyn MeterProvider + Send + Sync>;
@@ -23,9 +24,12 @@ where
     P: metrics::MeterProvider + Send + Sync + 'static,
 {
     // Try to set the global meter provider. If the RwLock is poisoned, we'll log an error.
-    let mut global_provider = global_meter_provider().write();
-    if let Ok(ref mut provider) = global_provider {
-        **provider = Arc::new(new_provider);
+    let replaced = match global_meter_provider().write() {
+        Ok(mut provider) => Some(mem::replace(&mut *provider, Arc::new(new_provider))),
+        Err(_) => None,
+    };
+    // The lock is released: logging, and dropping the replaced provider, may use the global meter provider.
+    if replaced.is_some() {
         otel_info!(name: "MeterProvider.GlobalSet", message = "Global meter provider is set. Meters can now be created using global::meter() or global::meter_with_scope().");
     } else {
         otel_error!(name: "MeterProvider.GlobalSetFailed", message = "Setting global meter provider failed. Meters created using global::meter() or global::meter_with_scope() will not function. Report this issue in OpenTelemetry repo.");
-- 
2.43.0


From bb888ccfcae2fb2cf8f4dd4800adce02daaaa002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:21 +0000
Subject: [PATCH 48/58] fix: drop a replaced global propagator only when its
 lock is released

---
 opentelemetry/src/global/propagation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/global/propagation.rs b/opentelemetry/src/global/propagation.rs
index 4a8a296..f323f63 100644
--- a/opentelemetry/src/global/propagation.rs
+++ b/opentelemetry/src/global/propagation.rs
@@ -1,5 +1,6 @@
 use crate::propagation::TextMapPropagator;
 use crate::trace::noop::NoopTextMapPropagator;
+use std::mem;
 use std::sync::{OnceLock, RwLock};
 
 /// The current global `TextMapPropagator` propagator.
@@ -23,9 +24,10 @@ fn default_text_map_propagator() -> &'static NoopTextMapPropagator {
 
 /// Sets the given [`TextMapPropagator`] propagator as the current global propagator.
 pub fn set_text_map_propagator<P: TextMapPropagator + Send + Sync + 'static>(propagator: P) {
-    let _lock = global_text_map_propagator()
+    // The replaced propagator goes away after the lock is released: dropping it may use the global propagator.
+    let _replaced = global_text_map_propagator()
         .write()
-        .map(|mut global_propagator| *global_propagator = Box::new(propagator));
+        .map(|mut global_propagator| mem::replace(&mut *global_propagator, Box::new(propagator)));
 }
 
 /// Executes a closure with a reference to the current global [`TextMapPropagator`] propagator.
-- 
2.43.0


From 51b6ec343c3c9095d7e524d6bf8bdaf4b26ff037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:33 +0000
Subject: [PATCH 49/58] fix: shut the span exporter down before answering a
 shutdown

---
 .../src/trace/span_processor_with_async_runtime.rs     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index cb4d2fc..3b00d27 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -286,8 +286,16 @@ impl<E: SpanExporter, R: RuntimeChannel> BatchSpanProcessorInternal<E, R> {
             }
             // Stream has terminated or processor is shutdown, return to finish execution.
             BatchMessage::Shutdown(ch) => {
-                self.flush(Some(ch)).await;
+                let export_result = self.export().await;
+                while self.export_tasks.next().await.is_some() {}
                 let _ = self.exporter.shutdown();
+                // Whoever waits for the shutdown goes on only after the exporter was shut down.
+                if let Err(result) = ch.send(export_result) {
+                    otel_debug!(
+                        name: "BatchSpanProcessor.Shutdown.SendResultError",
+                        reason = format!("{:?}", result)
+                    );
+                }
                 return false;
             }
             // propagate the resource
-- 
2.43.0


From 1cc8e2e51d0d70ceaedb80a2d6994a585efd3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 50/58] fix: export after the first interval, not the second,
 with an async runtime

---
 .../src/logs/log_processor_with_async_runtime.rs             | 1 -
 .../src/metrics/periodic_reader_with_async_runtime.rs        | 5 ++---
 .../src/trace/span_processor_with_async_runtime.rs           | 1 -
 3 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
index 961fa99..f919424 100644
--- a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
@@ -130,7 +130,6 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
-                .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
                 .map(|_| BatchMessage::Flush(None));
 
             let timeout_runtime = inner_runtime.clone();
diff --git a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
index 14d2d09..b9f8761 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
@@ -114,9 +114,8 @@ where
             let runtime = self.runtime.clone();
             let reader = reader.clone();
             self.runtime.spawn(async move {
-                let ticker = to_interval_stream(runtime.clone(), self.interval)
-                    .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
-                    .map(|_| Message::Export);
+                let ticker =
+                    to_interval_stream(runtime.clone(), self.interval).map(|_| Message::Export);
                 let messages = Box::pin(stream::select(message_receiver, ticker));
                 PeriodicReaderWorker {
                     reader,
diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index 3b00d27..1fc10db 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -365,7 +365,6 @@ impl<R: RuntimeChannel> BatchSpanProcessor<R> {
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
-                .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
                 .map(|_| BatchMessage::Flush(None));
             let timeout_runtime = inner_runtime.clone();
 
-- 
2.43.0


From 03d0bac5f9b6d5b7c6e16d6c2459a507877a5f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 51/58] fix: accept the rate limiting strategy a Jaeger remote
 sampling endpoint answers with

---
 opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs
index 4b28a69..f2e3c3d 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs
@@ -79,7 +79,7 @@ pub(crate) struct SamplingStrategyParameters {
 
 /// See description of the SamplingStrategyResponse.strategyType field.
 #[derive(serde::Serialize, serde::Deserialize, PartialOrd, PartialEq)]
-#[serde(rename_all = "UPPERCASE")]
+#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
 pub(crate) enum SamplingStrategyType {
     Probabilistic,
     RateLimiting,
-- 
2.43.0


From 050d7fecad93da93cba062836c783752dd087d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 52/58] fix: let the Jaeger rate limiter earn tokens for parts
 of a second too

---
 opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
index 3f11e5d..c7ebc74 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
@@ -42,7 +42,7 @@ impl LeakyBucket {
                 Ok(dur) => {
                     self.last_time = cur_time;
                     self.available = f64::min(
-                        dur.as_secs() as f64 * self.span_per_sec + self.available,
+                        dur.as_secs_f64() * self.span_per_sec + self.available,
                         self.bucket_size,
                     );
 
-- 
2.43.0


From b1921dfa01b1f988e423a0154120c497789344b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 53/58] fix: keep the Jaeger sampling strategy in use when the
 endpoint answers with none

---
 .../trace/sampler/jaeger_remote/sampling_strategy.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
index 0f1fd43..00f9117 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
@@ -92,11 +92,13 @@ impl Inner {
                                 rate_limiting_sampling,
                                 probabilistic_sampling,
                                 _,
-                            ) => self.init_strategy(
-                                operation_sampling,
-                                rate_limiting_sampling,
-                                probabilistic_sampling,
-                            ),
+                            ) => self
+                                .init_strategy(
+                                    operation_sampling,
+                                    rate_limiting_sampling,
+                                    probabilistic_sampling,
+                                )
+                                .or(Some(old_strategy)),
                         }
                     }
                     None => self.init_strategy(
-- 
2.43.0


From 8d317cad6cd55fe1c5952e1f67b99d729733eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:33 +0000
Subject: [PATCH 54/58] fix: end the Jaeger remote sampler's update task with
 the sampler

---
 .../src/trace/sampler/jaeger_remote/sampler.rs       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
index 7f6ce1d..570256d 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
@@ -9,7 +9,7 @@ use opentelemetry::trace::{Link, SamplingResult, SpanKind, TraceId};
 use opentelemetry::{otel_warn, Context, KeyValue};
 use opentelemetry_http::HttpClient;
 use std::str::FromStr;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::Duration;
 
 const DEFAULT_REMOTE_SAMPLER_ENDPOINT: &str = "http://localhost:5778/sampling";
@@ -168,7 +168,7 @@ impl JaegerRemoteSampler {
         };
         Self::run_update_task(
             runtime,
-            sampler.inner.clone(),
+            Arc::downgrade(&sampler.inner),
             update_timeout,
             client,
             shutdown_rx,
@@ -180,7 +180,7 @@ impl JaegerRemoteSampler {
     // start a updating thread/task
     fn run_update_task<C, R>(
         runtime: R,
-        strategy: Arc<Inner>,
+        strategy: Weak<Inner>,
         update_timeout: Duration,
         client: C,
         shutdown: futures_channel::mpsc::Receiver<()>,
@@ -204,7 +204,11 @@ impl JaegerRemoteSampler {
                     // poll next available configuration or shutdown
                     // send request
                     match Self::request_new_strategy(&client, endpoint.clone()).await {
-                        Ok(remote_strategy_resp) => strategy.update(remote_strategy_resp),
+                        Ok(remote_strategy_resp) => match strategy.upgrade() {
+                            Some(strategy) => strategy.update(remote_strategy_resp),
+                            // the sampler has been dropped
+                            None => break,
+                        },
                         Err(err_msg) => {
                             otel_warn!(
                                 name: "JaegerRemoteSampler.FailedToFetchStrategy",
-- 
2.43.0


From 988f4e8367fccc872d7d81e6d1eb90f75988db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:49 +0000
Subject: [PATCH 55/58] fix: let the hyper client's timeout cover the response
 body too

---
 opentelemetry-http/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-http/src/lib.rs b/opentelemetry-http/src/lib.rs
index 301979f..620c214 100644
--- a/opentelemetry-http/src/lib.rs
+++ b/opentelemetry-http/src/lib.rs
@@ -179,7 +179,16 @@ pub mod hyper {
                     .headers_mut()
                     .insert(http::header::AUTHORIZATION, authorization.clone());
             }
-            let mut response = time::timeout(self.timeout, self.inner.request(request)).await??;
+            let http_response = time::timeout(self.timeout, self.exchange(request)).await??;
+
+            Ok(http_response.error_for_status()?)
+        }
+    }
+
+    impl HyperClient {
+        /// Sends the request and reads the whole response, body included.
+        async fn exchange(&self, request: Request<Body>) -> Result<Response<Bytes>, HttpError> {
+            let mut response = self.inner.request(request).await?;
             let headers = std::mem::take(response.headers_mut());
 
             let mut http_response = Response::builder()
@@ -187,7 +196,7 @@ pub mod hyper {
                 .body(response.into_body().collect().await?.to_bytes())?;
             *http_response.headers_mut() = headers;
 
-            Ok(http_response.error_for_status()?)
+            Ok(http_response)
         }
     }
 
-- 
2.43.0


From cea5851a8670704e40b15f3c0e9d1ea87a7ac65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:03 +0000
Subject: [PATCH 56/58] fix: report a failure to write an int or bytes value as
 JSON

---
 opentelemetry-proto/src/proto.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-proto/src/proto.rs b/opentelemetry-proto/src/proto.rs
index 13a28ce..b2d9805 100644
--- a/opentelemetry-proto/src/proto.rs
+++ b/opentelemetry-proto/src/proto.rs
@@ -53,12 +53,12 @@ pub(crate) mod serializers {
             Some(Value::IntValue(i)) => {
                 // Attempt to serialize the intValue field
                 let mut map = serializer.serialize_map(Some(1))?;
-                map.serialize_entry("intValue", &i.to_string());
+                map.serialize_entry("intValue", &i.to_string())?;
                 map.end()
             }
             Some(Value::BytesValue(b)) => {
                 let mut map = serializer.serialize_map(Some(1))?;
-                map.serialize_entry("bytesValue", &base64::encode(b));
+                map.serialize_entry("bytesValue", &base64::encode(b))?;
                 map.end()
             }
             Some(value) => value.serialize(serializer),
-- 
2.43.0


From 4bb429b3f7810971772306d1f8dc83db5615188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 57/58] fix: read an AnyValue without a value, which is written
 as an empty object

---
 opentelemetry-proto/src/proto.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-proto/src/proto.rs b/opentelemetry-proto/src/proto.rs
index b2d9805..723c9f5 100644
--- a/opentelemetry-proto/src/proto.rs
+++ b/opentelemetry-proto/src/proto.rs
@@ -103,6 +103,7 @@ pub(crate) mod serializers {
                 V: de::MapAccess<'de>,
             {
                 let mut value: Option<any_value::Value> = None;
+                let mut unknown_key = false;
 
                 while let Some(key) = map.next_key::<String>()? {
                     let key_str = key.as_str();
@@ -139,17 +140,19 @@ pub(crate) mod serializers {
                         }
                         _ => {
                             //skip unknown keys, and handle error later.
+                            unknown_key = true;
                             continue;
                         }
                     }
                 }
 
-                if let Some(v) = value {
-                    Ok(Some(v))
-                } else {
+                if value.is_none() && unknown_key {
                     Err(de::Error::custom(
                         "Invalid data for Value, no known keys found",
                     ))
+                } else {
+                    // An object without any key is an empty value.
+                    Ok(value)
                 }
             }
         }
-- 
2.43.0


From da404194825079ebd662ea464341dbac896fbc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:28 +0000
Subject: [PATCH 58/58] fix: write double values JSON has no number for as
 strings, and read them

---
 opentelemetry-proto/src/proto.rs | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/proto.rs b/opentelemetry-proto/src/proto.rs
index 723c9f5..ea12f15 100644
--- a/opentelemetry-proto/src/proto.rs
+++ b/opentelemetry-proto/src/proto.rs
@@ -61,6 +61,19 @@ pub(crate) mod serializers {
                 map.serialize_entry("bytesValue", &base64::encode(b))?;
                 map.end()
             }
+            Some(Value::DoubleValue(d)) if !d.is_finite() => {
+                // JSON has no numbers for these, proto3 writes them as strings.
+                let text = if d.is_nan() {
+                    "NaN"
+                } else if *d > 0.0 {
+                    "Infinity"
+                } else {
+                    "-Infinity"
+                };
+                let mut map = serializer.serialize_map(Some(1))?;
+                map.serialize_entry("doubleValue", text)?;
+                map.end()
+            }
             Some(value) => value.serialize(serializer),
             None => serializer.serialize_none(),
         }
@@ -91,6 +104,25 @@ pub(crate) mod serializers {
             }
         }
 
+        #[derive(Deserialize)]
+        #[serde(untagged)]
+        enum StringOrDouble {
+            Double(f64),
+            String(String),
+        }
+
+        impl StringOrDouble {
+            fn get_double<'de, V>(&self) -> Result<f64, V::Error>
+            where
+                V: de::MapAccess<'de>,
+            {
+                match self {
+                    Self::Double(val) => Ok(*val),
+                    Self::String(val) => Ok(val.parse::<f64>().map_err(de::Error::custom)?),
+                }
+            }
+        }
+
         impl<'de> de::Visitor<'de> for ValueVisitor {
             type Value = Option<Value>;
 
@@ -121,7 +153,7 @@ pub(crate) mod serializers {
                             value = Some(any_value::Value::IntValue(int_value));
                         }
                         "doubleValue" => {
-                            let d = map.next_value()?;
+                            let d = map.next_value::<StringOrDouble>()?.get_double::<V>()?;
                             value = Some(any_value::Value::DoubleValue(d));
                         }
                         "arrayValue" => {
-- 
2.43.0

