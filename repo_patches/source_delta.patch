From 721cec0dcdc415ccf38c5aabea96e7bd339a99e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:55 +0000
Subject: [PATCH 01/16] fix: keep path segments apart in the route trie

A child that continues its parent's key (from splitting keys on a common
prefix) and a child that starts the next segment were not told apart: a
route '/ab/c' also answered '/abc' and the other way round, and '/user/:id'
could not be registered together with '/users'.
---
 src/router/route_trie.rs | 53 +++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index a028bca..21cb09b 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -105,7 +105,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -163,7 +163,7 @@ impl RouteTrie {
         let mut curr_node = &mut self.head;
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -258,7 +258,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         if next_node.value.is_some() || !next_node.child_nodes.is_empty() {
@@ -308,6 +308,9 @@ struct Node {
     key: String,
     value: Option<RouteValue>,
     child_nodes: Vec<Node>,
+    /// The key continues the parent's key within the same path segment,
+    /// instead of starting the next segment
+    is_continuation: bool,
 }
 
 impl Node {
@@ -316,20 +319,37 @@ impl Node {
             key,
             value,
             child_nodes: Vec::default(),
+            is_continuation: false,
+        }
+    }
+
+    fn new_continuation(key: String) -> Self {
+        Node {
+            is_continuation: true,
+            ..Self::new(key, None)
         }
     }
 
     fn is_param(&self) -> bool {
-        self.key.chars().next().unwrap_or(' ') == ':'
+        !self.is_continuation && self.key.starts_with(':')
     }
 
     /// Process the side effects of node insertion
-    fn process_insertion(&mut self, key: &str) -> Result<&mut Self, ObsidianError> {
-        let action = self.get_insertion_action(key);
+    /// `is_continuation` tells whether the key is the rest of a segment of which
+    /// the beginning is already consumed by the current node
+    fn process_insertion(
+        &mut self,
+        key: &str,
+        is_continuation: bool,
+    ) -> Result<&mut Self, ObsidianError> {
+        let action = self.get_insertion_action(key, is_continuation);
 
         match action.name {
             ActionName::CreateNewNode => {
-                let new_node = Self::new(key.to_string(), None);
+                let new_node = Node {
+                    is_continuation,
+                    ..Self::new(key.to_string(), None)
+                };
 
                 match key {
                     k if k == "*" => {
@@ -355,7 +375,7 @@ impl Node {
             }
             ActionName::SplitKey => {
                 if let Some(node) = self.child_nodes.get_mut(action.payload.node_index) {
-                    return node.process_insertion(&key[action.payload.match_count..]);
+                    return node.process_insertion(&key[action.payload.match_count..], true);
                 };
             }
             ActionName::SplitNode => {
@@ -365,7 +385,7 @@ impl Node {
                     let new_key = key[count..].to_string();
                     node.key = key[..count].to_string();
 
-                    let mut inter_node = Self::new(child_key, None);
+                    let mut inter_node = Self::new_continuation(child_key);
 
                     // Move out the previous child and transfer to intermediate node
                     inter_node.child_nodes = std::mem::take(&mut node.child_nodes);
@@ -378,7 +398,7 @@ impl Node {
                         return Ok(node);
                     }
 
-                    let new_node = Self::new(new_key, None);
+                    let new_node = Self::new_continuation(new_key);
 
                     node.child_nodes.insert(0, new_node);
                     if let Some(result_node) = node.child_nodes.first_mut() {
@@ -400,9 +420,14 @@ impl Node {
     }
 
     /// Determine the action required to be performed for the new route path
-    fn get_insertion_action(&self, key: &str) -> Action {
+    fn get_insertion_action(&self, key: &str, is_continuation: bool) -> Action {
         for (index, node) in self.child_nodes.iter().enumerate() {
-            let is_param = node.is_param() || key.chars().next().unwrap_or(' ') == ':';
+            // Segments only compete with segments, and continuations with continuations
+            if node.is_continuation != is_continuation {
+                continue;
+            }
+
+            let is_param = node.is_param() || (!is_continuation && key.starts_with(':'));
             if is_param {
                 // Only allow one param leaf in one children series
                 if key == node.key {
@@ -458,6 +483,10 @@ impl Node {
         let curr_key = key.remove(0);
 
         for node in self.child_nodes.iter() {
+            if node.is_continuation != is_break_parent {
+                continue;
+            }
+
             let mut break_key = false;
 
             if !is_break_parent {
-- 
2.43.0


From 275eca1b24eb9da6dee476f7f9c1b04033181b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:55 +0000
Subject: [PATCH 02/16] fix: allow mounting a router next to paths that share
 its prefix

Mounting at '/user' was refused as a conflict when '/users' was registered.
---
 src/router/route_trie.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 21cb09b..76f6a18 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -261,12 +261,15 @@ impl RouteTrie {
             match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
-                        if next_node.value.is_some() || !next_node.child_nodes.is_empty() {
+                        // Children continuing the last segment belong to other paths
+                        if next_node.value.is_some()
+                            || next_node.child_nodes.iter().any(|n| !n.is_continuation)
+                        {
                             panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
                         }
 
                         next_node.value = src.head.value;
-                        next_node.child_nodes = src.head.child_nodes;
+                        next_node.child_nodes.extend(src.head.child_nodes);
                         break;
                     }
                     curr_node = next_node;
-- 
2.43.0


From 050e6d76b0540685a1ea07b88e4f7614d32153fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:55 +0000
Subject: [PATCH 03/16] fix: do not apply a path's middleware to paths it is a
 prefix of

Middleware of '/ab' also ran for '/abc', which is not below '/ab'.
---
 src/router/route_trie.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 76f6a18..802d3d6 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -586,7 +586,8 @@ impl Node {
                 } else if let Some(final_val) =
                     node.get_next_node(key, params, middlewares, break_key)
                 {
-                    if let Some(curr_val) = &node.value {
+                    // The node is not on the path when only a part of the segment is matched
+                    if let (Some(curr_val), false) = (&node.value, break_key) {
                         middlewares.append(&mut curr_val.middlewares.clone());
                     }
 
-- 
2.43.0


From 26a05c3c310b2438cc2a45df1fe60974afde28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 04/16] fix: run the middlewares of nested paths from the
 outermost to the innermost

They ran as root, innermost, ..., outermost: '/admin/users' before '/admin'.
---
 src/router/route_trie.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 802d3d6..41563bc 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -201,13 +201,6 @@ impl RouteTrie {
         let mut params = HashMap::default();
         let mut middlewares = vec![];
 
-        match &curr_node.value {
-            Some(val) => {
-                middlewares.append(&mut val.middlewares.clone());
-            }
-            None => {}
-        }
-
         if !split_key.is_empty() {
             match curr_node.get_next_node(&mut split_key, &mut params, &mut middlewares, false) {
                 Some(handler_node) => {
@@ -220,6 +213,11 @@ impl RouteTrie {
             }
         }
 
+        // Root middlewares are the outermost
+        if let Some(val) = &self.head.value {
+            middlewares.splice(0..0, val.middlewares.iter().cloned());
+        }
+
         match &curr_node.value {
             Some(val) => {
                 let route_val = RouteValue::new(middlewares, val.route.clone());
@@ -476,6 +474,7 @@ impl Node {
     }
 
     // Helper function to consume the whole key and get the next available node
+    // Nodes are unwound from the innermost, so each one puts its middlewares in front
     fn get_next_node(
         &self,
         key: &mut Vec<&str>,
@@ -499,7 +498,7 @@ impl Node {
                         match &node.value {
                             Some(curr_val) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
-                                middlewares.append(&mut curr_val.middlewares.clone());
+                                middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
                                 return Some(node);
                             }
                             None => {
@@ -513,7 +512,7 @@ impl Node {
 
                                 match &node.value {
                                     Some(curr_val) => {
-                                        middlewares.append(&mut curr_val.middlewares.clone());
+                                        middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
                                     }
                                     None => {}
                                 }
@@ -531,7 +530,7 @@ impl Node {
                 if node.key == "*" {
                     match &node.value {
                         Some(curr_val) => {
-                            middlewares.append(&mut curr_val.middlewares.clone());
+                            middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
                         }
                         None => {}
                     }
@@ -567,14 +566,14 @@ impl Node {
                 if key.is_empty() {
                     match &node.value {
                         Some(curr_val) => {
-                            middlewares.append(&mut curr_val.middlewares.clone());
+                            middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
                             return Some(node);
                         }
                         None => {
                             for child in node.child_nodes.iter() {
                                 if child.key == "*" {
                                     if let Some(child_val) = &child.value {
-                                        middlewares.append(&mut child_val.middlewares.clone());
+                                        middlewares.splice(0..0, child_val.middlewares.iter().cloned());
                                         return Some(child);
                                     }
                                 }
@@ -588,7 +587,7 @@ impl Node {
                 {
                     // The node is not on the path when only a part of the segment is matched
                     if let (Some(curr_val), false) = (&node.value, break_key) {
-                        middlewares.append(&mut curr_val.middlewares.clone());
+                        middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
                     }
 
                     return Some(final_val);
-- 
2.43.0


From e81c244d4b1769f361cef0a0ff1811f1dd107b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:35 +0000
Subject: [PATCH 05/16] fix: register middleware applied to '/'

use_service_to("/", ..) dropped the middleware silently.
---
 src/router/route_trie.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 41563bc..c76d8eb 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -160,6 +160,12 @@ impl RouteTrie {
             }
         });
 
+        // if the path is "/"
+        if split_key.peek().is_none() {
+            self.insert_default_middleware(middleware);
+            return;
+        }
+
         let mut curr_node = &mut self.head;
 
         while let Some(k) = split_key.next() {
-- 
2.43.0


From 42eea0ba827062524b59eac6c1ee0a1c5e9c5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 06/16] fix: keep what is registered when a router is mounted
 at '/'

Mounting at '/' replaced the whole main router: routes and default
middlewares registered before, such as the logger of App::default(), were
dropped silently. Routes are now a conflict, as for any other path, and the
default middlewares are kept in front.
---
 src/router/resource.rs   |  4 ++++
 src/router/route_trie.rs | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/router/resource.rs b/src/router/resource.rs
index 808c93b..b99e7a8 100644
--- a/src/router/resource.rs
+++ b/src/router/resource.rs
@@ -23,6 +23,10 @@ impl Resource {
         self.route_map.insert(method, route)
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.route_map.is_empty()
+    }
+
     pub fn get_route(&self, method: &Method) -> Option<&Route> {
         self.route_map.get(&method)
     }
diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index c76d8eb..87511f2 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -254,13 +254,24 @@ impl RouteTrie {
             }
         });
 
-        let mut curr_node = &mut des.head;
-
+        // if the path is "/", the default middlewares are kept
         if split_key.peek().is_none() {
-            des.head = src.head;
+            let has_route = |val: &RouteValue| !val.route.is_empty();
+            if des.head.value.as_ref().map_or(false, has_route) || !des.head.child_nodes.is_empty()
+            {
+                panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
+            }
+
+            let default_value = std::mem::replace(&mut des.head, src.head).value;
+            if let Some(default_value) = default_value {
+                let value = des.head.value.get_or_insert_with(RouteValue::default);
+                value.middlewares.splice(0..0, default_value.middlewares);
+            }
             return;
         }
 
+        let mut curr_node = &mut des.head;
+
         while let Some(k) = split_key.next() {
             match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
-- 
2.43.0


From 762423eff719480aa3a97fa13f49870c8fd900c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:54 +0000
Subject: [PATCH 07/16] fix: decode the whole body in json() and form()

Only the first chunk of the body was decoded, so a body received in several
pieces was truncated.
---
 src/context.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1166c71..d5c1617 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use http::Extensions;
-use hyper::{body, body::Buf};
+use hyper::body;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use url::form_urlencoded;
@@ -176,14 +176,14 @@ impl Context {
     pub async fn form<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Self::parse_queries(buf.chunk())
+        Self::parse_queries(&buf)
     }
 
     /// Form value merge with Params
@@ -241,14 +241,14 @@ impl Context {
     pub async fn json<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Ok(serde_json::from_slice(buf.chunk())?)
+        Ok(serde_json::from_slice(&buf)?)
     }
 
     /// Json value merged with Params
-- 
2.43.0


From f36161d22853ce3c821fd0080fb25713445ce486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:54 +0000
Subject: [PATCH 08/16] fix: logger panicked when the handler leaves no
 response

---
 src/middleware/logger.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 5a7537d..ef55c5a 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -5,6 +5,7 @@ use crate::app::EndpointExecutor;
 use crate::context::Context;
 use crate::middleware::Middleware;
 use crate::router::ContextResult;
+use crate::StatusCode;
 
 use colored::*;
 
@@ -33,11 +34,12 @@ impl Middleware for Logger {
         match ep_executor.next(context).await {
             Ok(context_after) => {
                 let duration = start.elapsed();
-                println!(
-                    "[info] Sent {} in {:?}",
-                    context_after.response().as_ref().unwrap().status(),
-                    duration
-                );
+                // No response is sent as an empty 200
+                let status = match context_after.response() {
+                    Some(response) => response.status(),
+                    None => StatusCode::OK,
+                };
+                println!("[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-- 
2.43.0


From 672d1ea5c9431a7b56feb43c8fc4307b1dc7596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 09/16] fix: answer 500 when a response header value is invalid

HeaderValue::from_static panicked and the connection was dropped without a
response.
---
 src/app.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 2a8101a..fd15a15 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -240,10 +240,12 @@ impl AppServer {
                         if let Some(response) = ctx.take_response() {
                             if let Some(headers) = response.headers() {
                                 if let Some(response_headers) = res.headers_mut() {
-                                    headers.iter().for_each(move |(key, value)| {
-                                        response_headers
-                                            .insert(key, header::HeaderValue::from_static(value));
-                                    });
+                                    for (key, value) in headers {
+                                        match header::HeaderValue::from_str(value) {
+                                            Ok(value) => response_headers.insert(key, value),
+                                            Err(err) => return Ok(internal_server_error(err)),
+                                        };
+                                    }
                                 }
                             }
                             res.status(response.status()).body(response.body())
-- 
2.43.0


From d03111da5ac3422c1789d953a9c8de5506ad0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 10/16] fix: refuse a form value of several characters for a
 char

It was cut down to its first character silently.
---
 src/router/req_deserializer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index af23374..43507fa 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -242,10 +242,8 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        match self.input[0].chars().next() {
-            Some(val) => visitor.visit_char(val),
-            _ => Err(Error::NoneError),
-        }
+        // Only accepted by the visitor when it is a single character
+        self.deserialize_str(visitor)
     }
 
     fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Error>
-- 
2.43.0


From 0d58be7b997d85dd3993d6583107132154c41edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:56 +0000
Subject: [PATCH 11/16] fix: form decoder panicked on empty lists and lost
 entries after an empty one

from_cow_map indexed the first entry of an empty list, and skipping the empty
string of an absent option moved the list twice: Vec<Option<_>> lost an entry
or panicked.
---
 src/router/req_deserializer.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index 43507fa..9958b9d 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -188,7 +188,7 @@ macro_rules! from_string_forms_impl {
             fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
                 where V: de::Visitor<'de>
             {
-                match self.input[0].parse::<$t>() {
+                match self.first()?.parse::<$t>() {
                     Ok(result) => result.into_deserializer().$method(visitor),
                     Err(e) => Err(Error::Message(format!("{}", e))),
                 }
@@ -205,6 +205,10 @@ impl<'de> FormValueDeserializer<'de> {
     pub fn new(input: &'de [std::string::String]) -> Self {
         FormValueDeserializer { input }
     }
+
+    fn first(&self) -> Result<&'de String, Error> {
+        self.input.first().ok_or(Error::NoneError)
+    }
 }
 
 impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
@@ -228,14 +232,14 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_string(self.input[0].clone())
+        visitor.visit_string(self.first()?.clone())
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_str(&self.input[0])
+        visitor.visit_str(self.first()?)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Error>
@@ -250,11 +254,9 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
-            visitor.visit_none()
-        } else {
-            visitor.visit_some(self)
+        match self.input.first() {
+            Some(val) if !val.is_empty() => visitor.visit_some(self),
+            _ => visitor.visit_none(),
         }
     }
 
@@ -262,10 +264,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
-        }
-
         visitor.visit_unit()
     }
 
@@ -344,16 +342,16 @@ impl<'de, 'a> SeqAccess<'de> for FromSeq<'a, 'de> {
     where
         T: DeserializeSeed<'de>,
     {
-        if self.de.input.len() == 1 && !self.first {
-            return Ok(None);
-        }
-
         // Only start moving slices after processing
         if !self.first {
-            self.de.input = &self.de.input[1..];
+            self.de.input = self.de.input.get(1..).unwrap_or_default();
         }
         self.first = false;
 
+        if self.de.input.is_empty() {
+            return Ok(None);
+        }
+
         seed.deserialize(&mut *self.de).map(Some)
     }
 }
-- 
2.43.0


From cf757680fb2b707f8ff150cf3cd62c8b073f607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:57 +0000
Subject: [PATCH 12/16] fix: serve files that are not valid UTF-8

Images and other binary files were answered with 404.
---
 src/router/response.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 4c5ce92..9ed9278 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -130,8 +130,11 @@ impl Response {
     }
 
     pub async fn file(self, file_path: &str) -> Self {
-        match fs::read_to_string(file_path.to_string()).await {
-            Ok(content) => self.set_body(content),
+        match fs::read(file_path.to_string()).await {
+            Ok(content) => Response {
+                body: Body::from(content),
+                ..self
+            },
             Err(err) => {
                 dbg!(&err);
                 self.set_body(err.to_string())
-- 
2.43.0


From 7d5d7ac7aa5874a1824ee39d284f88cf68f7d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:17 +0000
Subject: [PATCH 13/16] fix: do not serve files outside of the static directory

A request path with '..' segments was joined to the directory as is, so any
file readable by the server could be fetched.
---
 src/router.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 8eff03d..a42e459 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,7 @@ mod route_trie;
 use self::route_trie::RouteTrie;
 use crate::context::Context;
 use crate::middleware::Middleware;
-use crate::Method;
+use crate::{Method, StatusCode};
 pub use hyper::header;
 
 pub use self::handler::{ContextResult, Handler};
@@ -125,8 +125,8 @@ impl Router {
             .count();
 
         move |ctx: Context| {
-            let mut dir_path = dir_path.clone();
-            let mut relative_path = ctx
+            let dir_path = dir_path.clone();
+            let relative_path = ctx
                 .uri()
                 .path()
                 .split('/')
@@ -135,10 +135,8 @@ impl Router {
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
-            dir_path.append(&mut relative_path);
-
             Box::pin(async move {
-                ctx.build(Response::ok().file(&dir_path.join("/")).await)
+                ctx.build(Self::static_file(&dir_path, &relative_path).await)
                     .ok()
             })
         }
@@ -153,8 +151,18 @@ impl Router {
             .map(|x| x.to_string())
             .collect::<Vec<String>>();
 
-        ctx.build(Response::ok().file(&relative_path.join("/")).await)
-            .ok()
+        ctx.build(Self::static_file(&[], &relative_path).await).ok()
+    }
+
+    /// Response of a served file, the path is not allowed to leave the served directory
+    async fn static_file(dir_path: &[String], relative_path: &[String]) -> Response {
+        if relative_path.iter().any(|key| key == "..") {
+            return "404 Not Found".with_status(StatusCode::NOT_FOUND);
+        }
+
+        Response::ok()
+            .file(&[dir_path, relative_path].concat().join("/"))
+            .await
     }
 }
 
-- 
2.43.0


From 17aa8e27c9b9befa6247000fe5d8501ff6b576cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:11 +0000
Subject: [PATCH 14/16] fix: serve the right file when a static mount is in a
 nested router

The file path was derived from the full request path, so a mount in a router
used under '/a' looked for 'a/...' below the directory (or outside of it).
---
 src/router.rs            | 35 ++++++-----------------------------
 src/router/route_trie.rs |  5 ++++-
 2 files changed, 10 insertions(+), 30 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index a42e459..7b42c14 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -83,18 +83,12 @@ impl Router {
         let mut path = String::from(virtual_path);
         path.push_str("/*");
 
-        self.get(
-            &path,
-            Self::static_virtual_file_handler(virtual_path, dir_path),
-        );
+        self.get(&path, Self::static_file_handler(dir_path));
     }
 
     /// Serve static files by the directory path as the route and server file path
     pub fn use_static(&mut self, dir_path: &str) {
-        let mut path = String::from(dir_path);
-        path.push_str("/*");
-
-        self.get(&path, Self::static_dir_file_handler);
+        self.use_static_to(dir_path, dir_path);
     }
 
     /// Apply route handler in current relative route
@@ -112,26 +106,21 @@ impl Router {
         self.routes.insert_route(path, route);
     }
 
-    fn static_virtual_file_handler(virtual_path: &str, dir_path: &str) -> impl Handler {
+    fn static_file_handler(dir_path: &str) -> impl Handler {
         let dir_path = dir_path
             .split('/')
             .filter(|key| !key.is_empty())
             .map(|x| x.to_string())
             .collect::<Vec<String>>();
 
-        let virtual_path_len = virtual_path
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .count();
-
         move |ctx: Context| {
             let dir_path = dir_path.clone();
+            // The path below the route, wherever the router is mounted
             let relative_path = ctx
-                .uri()
-                .path()
+                .param::<String>("*")
+                .unwrap_or_default()
                 .split('/')
                 .filter(|key| !key.is_empty())
-                .skip(virtual_path_len)
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
@@ -142,18 +131,6 @@ impl Router {
         }
     }
 
-    async fn static_dir_file_handler(ctx: Context) -> ContextResult {
-        let relative_path = ctx
-            .uri()
-            .path()
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .map(|x| x.to_string())
-            .collect::<Vec<String>>();
-
-        ctx.build(Self::static_file(&[], &relative_path).await).ok()
-    }
-
     /// Response of a served file, the path is not allowed to leave the served directory
     async fn static_file(dir_path: &[String], relative_path: &[String]) -> Response {
         if relative_path.iter().any(|key| key == "..") {
diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 87511f2..93590a3 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -507,6 +507,7 @@ impl Node {
             }
 
             let mut break_key = false;
+            let key = &mut key.clone();
 
             if !is_break_parent {
                 // Check param
@@ -543,8 +544,10 @@ impl Node {
                     }
                 }
 
-                // Check wildcard
+                // Check wildcard, the path it stands for is kept in params
                 if node.key == "*" {
+                    key.insert(0, curr_key);
+                    params.insert(node.key.clone(), key.join("/"));
                     match &node.value {
                         Some(curr_val) => {
                             middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
-- 
2.43.0


From 755baeff9a7087dd416f9b6399bb455b692f1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:13 +0000
Subject: [PATCH 15/16] fix: keep the registered handler when a duplicate is
 refused

The refused handler had already replaced it when the registration panicked.
---
 src/router/resource.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/router/resource.rs b/src/router/resource.rs
index b99e7a8..dedfcd8 100644
--- a/src/router/resource.rs
+++ b/src/router/resource.rs
@@ -1,5 +1,5 @@
 use hyper::Method;
-use std::collections::HashMap;
+use std::collections::{hash_map::Entry, HashMap};
 
 use super::Route;
 
@@ -19,8 +19,15 @@ impl Default for Resource {
 }
 
 impl Resource {
+    /// Returns the route back when there is already one for the method
     pub fn add_route(&mut self, method: Method, route: Route) -> Option<Route> {
-        self.route_map.insert(method, route)
+        match self.route_map.entry(method) {
+            Entry::Occupied(_) => Some(route),
+            Entry::Vacant(entry) => {
+                entry.insert(route);
+                None
+            }
+        }
     }
 
     pub fn is_empty(&self) -> bool {
-- 
2.43.0


From 65ca55c843d679b3d21ac8a69af3f2f078732296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:35 +0000
Subject: [PATCH 16/16] fix: do not send the body of a 404 page to HEAD
 requests over HTTP/2

---
 src/app.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index fd15a15..589b06b 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -4,7 +4,7 @@ use colored::*;
 use hyper::{
     header,
     service::{make_service_fn, service_fn},
-    Body, Request, Response, Server, StatusCode,
+    Body, Method, Request, Response, Server, StatusCode,
 };
 
 use crate::context::Context;
@@ -221,7 +221,7 @@ impl AppServer {
             Some(route_value) => {
                 let route = match route_value.get_route(req.method()) {
                     Some(r) => r,
-                    None => return Ok::<_, hyper::Error>(page_not_found()),
+                    None => return Ok::<_, hyper::Error>(page_not_found(req.method())),
                 };
                 let middlewares = route_value.get_middlewares();
                 let params = route_value.get_params();
@@ -268,13 +268,23 @@ impl AppServer {
                     ))
                 }))
             }
-            _ => Ok::<_, hyper::Error>(page_not_found()),
+            _ => Ok::<_, hyper::Error>(page_not_found(req.method())),
         }
     }
 }
 
-fn page_not_found() -> Response<Body> {
-    let mut server_response = Response::new(Body::from("404 Not Found"));
+fn page_not_found(method: &Method) -> Response<Body> {
+    let page = "404 Not Found";
+    let mut server_response = Response::new(Body::from(page));
+
+    // The body must not be sent to HEAD requests, and hyper would send it over HTTP/2
+    if method == Method::HEAD {
+        *server_response.body_mut() = Body::empty();
+        server_response
+            .headers_mut()
+            .insert(header::CONTENT_LENGTH, page.len().into());
+    }
+
     *server_response.status_mut() = StatusCode::NOT_FOUND;
 
     server_response
-- 
2.43.0

