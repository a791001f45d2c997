From e39abf2d248b335034694341d7e1b00e66ce7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 01/19] fix: keep path segments apart in the route trie

A node split for its key (ab -> abc) kept the split remainder in the same
list as the next path segments, so /ab/c answered for /abc (and the other
way round), /ab middlewares ran for /abc, and /ab/:id could not be
registered next to /abc.
---
 src/router/route_trie.rs | 58 +++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index a028bca..bc17ae7 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -261,12 +261,14 @@ impl RouteTrie {
             match curr_node.process_insertion(k) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
-                        if next_node.value.is_some() || !next_node.child_nodes.is_empty() {
+                        if next_node.value.is_some()
+                            || next_node.child_nodes.iter().any(|node| !node.is_suffix)
+                        {
                             panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
                         }
 
                         next_node.value = src.head.value;
-                        next_node.child_nodes = src.head.child_nodes;
+                        next_node.child_nodes.extend(src.head.child_nodes);
                         break;
                     }
                     curr_node = next_node;
@@ -308,6 +310,8 @@ struct Node {
     key: String,
     value: Option<RouteValue>,
     child_nodes: Vec<Node>,
+    // The key continues the path segment of the parent node instead of starting a new one
+    is_suffix: bool,
 }
 
 impl Node {
@@ -316,20 +320,37 @@ impl Node {
             key,
             value,
             child_nodes: Vec::default(),
+            is_suffix: false,
+        }
+    }
+
+    fn new_suffix(key: String) -> Self {
+        Node {
+            is_suffix: true,
+            ..Node::new(key, None)
         }
     }
 
     fn is_param(&self) -> bool {
-        self.key.chars().next().unwrap_or(' ') == ':'
+        !self.is_suffix && self.key.chars().next().unwrap_or(' ') == ':'
     }
 
     /// Process the side effects of node insertion
     fn process_insertion(&mut self, key: &str) -> Result<&mut Self, ObsidianError> {
-        let action = self.get_insertion_action(key);
+        self.process_key_insertion(key, false)
+    }
+
+    fn process_key_insertion(
+        &mut self,
+        key: &str,
+        is_suffix: bool,
+    ) -> Result<&mut Self, ObsidianError> {
+        let action = self.get_insertion_action(key, is_suffix);
 
         match action.name {
             ActionName::CreateNewNode => {
-                let new_node = Self::new(key.to_string(), None);
+                let mut new_node = Self::new(key.to_string(), None);
+                new_node.is_suffix = is_suffix;
 
                 match key {
                     k if k == "*" => {
@@ -355,7 +376,7 @@ impl Node {
             }
             ActionName::SplitKey => {
                 if let Some(node) = self.child_nodes.get_mut(action.payload.node_index) {
-                    return node.process_insertion(&key[action.payload.match_count..]);
+                    return node.process_key_insertion(&key[action.payload.match_count..], true);
                 };
             }
             ActionName::SplitNode => {
@@ -365,7 +386,7 @@ impl Node {
                     let new_key = key[count..].to_string();
                     node.key = key[..count].to_string();
 
-                    let mut inter_node = Self::new(child_key, None);
+                    let mut inter_node = Self::new_suffix(child_key);
 
                     // Move out the previous child and transfer to intermediate node
                     inter_node.child_nodes = std::mem::take(&mut node.child_nodes);
@@ -378,7 +399,7 @@ impl Node {
                         return Ok(node);
                     }
 
-                    let new_node = Self::new(new_key, None);
+                    let new_node = Self::new_suffix(new_key);
 
                     node.child_nodes.insert(0, new_node);
                     if let Some(result_node) = node.child_nodes.first_mut() {
@@ -400,9 +421,15 @@ impl Node {
     }
 
     /// Determine the action required to be performed for the new route path
-    fn get_insertion_action(&self, key: &str) -> Action {
+    fn get_insertion_action(&self, key: &str, is_suffix: bool) -> Action {
         for (index, node) in self.child_nodes.iter().enumerate() {
-            let is_param = node.is_param() || key.chars().next().unwrap_or(' ') == ':';
+            // A segment never shares nodes with the remainder of the parent segment
+            if node.is_suffix != is_suffix {
+                continue;
+            }
+
+            let is_param =
+                node.is_param() || (!is_suffix && key.chars().next().unwrap_or(' ') == ':');
             if is_param {
                 // Only allow one param leaf in one children series
                 if key == node.key {
@@ -458,6 +485,10 @@ impl Node {
         let curr_key = key.remove(0);
 
         for node in self.child_nodes.iter() {
+            if node.is_suffix != is_break_parent {
+                continue;
+            }
+
             let mut break_key = false;
 
             if !is_break_parent {
@@ -554,8 +585,11 @@ impl Node {
                 } else if let Some(final_val) =
                     node.get_next_node(key, params, middlewares, break_key)
                 {
-                    if let Some(curr_val) = &node.value {
-                        middlewares.append(&mut curr_val.middlewares.clone());
+                    // A broken key only shares its prefix with the node path
+                    if !break_key {
+                        if let Some(curr_val) = &node.value {
+                            middlewares.append(&mut curr_val.middlewares.clone());
+                        }
                     }
 
                     return Some(final_val);
-- 
2.43.0


From b48106ac1a00eafeef158e6c0ff67bd38a56d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:03 +0000
Subject: [PATCH 02/19] fix: run middlewares from the outermost path to the
 innermost

The search collected the root middlewares first and then the others while
unwinding, so with middlewares on /, /a and /a/b a request ran them in the
order /, /a/b, /a.
---
 src/router/route_trie.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index bc17ae7..b1197d3 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -25,6 +25,11 @@ impl RouteValue {
     pub fn new(middlewares: Vec<Arc<dyn Middleware>>, route: Resource) -> Self {
         RouteValue { middlewares, route }
     }
+
+    /// Put the middlewares in front of the ones found deeper in the search path
+    fn prepend_middlewares(&self, middlewares: &mut Vec<Arc<dyn Middleware>>) {
+        middlewares.splice(0..0, self.middlewares.iter().cloned());
+    }
 }
 
 pub struct RouteValueResult {
@@ -201,13 +206,6 @@ impl RouteTrie {
         let mut params = HashMap::default();
         let mut middlewares = vec![];
 
-        match &curr_node.value {
-            Some(val) => {
-                middlewares.append(&mut val.middlewares.clone());
-            }
-            None => {}
-        }
-
         if !split_key.is_empty() {
             match curr_node.get_next_node(&mut split_key, &mut params, &mut middlewares, false) {
                 Some(handler_node) => {
@@ -220,6 +218,10 @@ impl RouteTrie {
             }
         }
 
+        if let Some(val) = &self.head.value {
+            val.prepend_middlewares(&mut middlewares);
+        }
+
         match &curr_node.value {
             Some(val) => {
                 let route_val = RouteValue::new(middlewares, val.route.clone());
@@ -498,7 +500,7 @@ impl Node {
                         match &node.value {
                             Some(curr_val) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
-                                middlewares.append(&mut curr_val.middlewares.clone());
+                                curr_val.prepend_middlewares(middlewares);
                                 return Some(node);
                             }
                             None => {
@@ -512,7 +514,7 @@ impl Node {
 
                                 match &node.value {
                                     Some(curr_val) => {
-                                        middlewares.append(&mut curr_val.middlewares.clone());
+                                        curr_val.prepend_middlewares(middlewares);
                                     }
                                     None => {}
                                 }
@@ -530,7 +532,7 @@ impl Node {
                 if node.key == "*" {
                     match &node.value {
                         Some(curr_val) => {
-                            middlewares.append(&mut curr_val.middlewares.clone());
+                            curr_val.prepend_middlewares(middlewares);
                         }
                         None => {}
                     }
@@ -566,14 +568,14 @@ impl Node {
                 if key.is_empty() {
                     match &node.value {
                         Some(curr_val) => {
-                            middlewares.append(&mut curr_val.middlewares.clone());
+                            curr_val.prepend_middlewares(middlewares);
                             return Some(node);
                         }
                         None => {
                             for child in node.child_nodes.iter() {
                                 if child.key == "*" {
                                     if let Some(child_val) = &child.value {
-                                        middlewares.append(&mut child_val.middlewares.clone());
+                                        child_val.prepend_middlewares(middlewares);
                                         return Some(child);
                                     }
                                 }
@@ -588,7 +590,7 @@ impl Node {
                     // A broken key only shares its prefix with the node path
                     if !break_key {
                         if let Some(curr_val) = &node.value {
-                            middlewares.append(&mut curr_val.middlewares.clone());
+                            curr_val.prepend_middlewares(middlewares);
                         }
                     }
 
-- 
2.43.0


From a05b7a8c12a1844946fd2985eed51257f6b08913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 03/19] fix: apply a middleware registered for "/"

use_service_to("/", middleware) dropped the middleware silently.
---
 src/router/route_trie.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index b1197d3..89d16ae 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -165,6 +165,12 @@ impl RouteTrie {
             }
         });
 
+        // if the path is "/"
+        if split_key.peek().is_none() {
+            self.insert_default_middleware(middleware);
+            return;
+        }
+
         let mut curr_node = &mut self.head;
 
         while let Some(k) = split_key.next() {
-- 
2.43.0


From 79899a2b8c4744065f56fea6e4882f0b178be59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:23 +0000
Subject: [PATCH 04/19] fix: do not discard the main router when a router is
 used at "/"

use_router("/", router) replaced the whole trie: every route and middleware
registered before was lost silently. Conflicts are now reported like at any
other path and the middlewares of the main router are kept.
---
 src/router/resource.rs   |  4 ++++
 src/router/route_trie.rs | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/router/resource.rs b/src/router/resource.rs
index 808c93b..b99e7a8 100644
--- a/src/router/resource.rs
+++ b/src/router/resource.rs
@@ -23,6 +23,10 @@ impl Resource {
         self.route_map.insert(method, route)
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.route_map.is_empty()
+    }
+
     pub fn get_route(&self, method: &Method) -> Option<&Route> {
         self.route_map.get(&method)
     }
diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 89d16ae..6e164ec 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -261,7 +261,23 @@ impl RouteTrie {
         let mut curr_node = &mut des.head;
 
         if split_key.peek().is_none() {
+            let has_route = match &des.head.value {
+                Some(val) => !val.route.is_empty(),
+                None => false,
+            };
+
+            if has_route || !des.head.child_nodes.is_empty() {
+                panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
+            }
+
+            let default_value = des.head.value.take();
             des.head = src.head;
+
+            // Keep the middlewares applied to the main router
+            if let Some(default_val) = default_value {
+                let val = des.head.value.get_or_insert_with(RouteValue::default);
+                default_val.prepend_middlewares(&mut val.middlewares);
+            }
             return;
         }
 
-- 
2.43.0


From 1a85a2d3dae6603a4bafd11e4ad03d2162ba4aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:16 +0000
Subject: [PATCH 05/19] fix: let a wildcard match an empty remainder everywhere

/a/* answered for /a, but /* did not answer for / and /:id/* did not answer
for /1.
---
 src/router/route_trie.rs | 71 ++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 6e164ec..ab5ccd0 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -208,25 +208,23 @@ impl RouteTrie {
             .filter(|key| !key.is_empty())
             .collect::<Vec<&str>>();
 
-        let mut curr_node = &self.head;
         let mut params = HashMap::default();
         let mut middlewares = vec![];
 
-        if !split_key.is_empty() {
-            match curr_node.get_next_node(&mut split_key, &mut params, &mut middlewares, false) {
-                Some(handler_node) => {
-                    curr_node = handler_node;
-                }
-                None => {
-                    // Path is not registered
-                    return None;
-                }
+        // Path is not registered if there is no node
+        let curr_node = if split_key.is_empty() {
+            self.head.get_end_node(&mut middlewares)?
+        } else {
+            let handler_node =
+                self.head
+                    .get_next_node(&mut split_key, &mut params, &mut middlewares, false)?;
+
+            if let Some(val) = &self.head.value {
+                val.prepend_middlewares(&mut middlewares);
             }
-        }
 
-        if let Some(val) = &self.head.value {
-            val.prepend_middlewares(&mut middlewares);
-        }
+            handler_node
+        };
 
         match &curr_node.value {
             Some(val) => {
@@ -498,6 +496,24 @@ impl Node {
         Action::new(ActionName::CreateNewNode, ActionPayload::new(0, 0))
     }
 
+    // Helper function to get the node for a path ending at the current node:
+    // the wildcard child stands in when the current node has no value
+    fn get_end_node(&self, middlewares: &mut Vec<Arc<dyn Middleware>>) -> Option<&Self> {
+        let end_node = match &self.value {
+            Some(_) => self,
+            None => self
+                .child_nodes
+                .iter()
+                .find(|child| child.key == "*" && child.value.is_some())?,
+        };
+
+        if let Some(val) = &end_node.value {
+            val.prepend_middlewares(middlewares);
+        }
+
+        Some(end_node)
+    }
+
     // Helper function to consume the whole key and get the next available node
     fn get_next_node(
         &self,
@@ -519,11 +535,10 @@ impl Node {
                 // Check param
                 if node.is_param() {
                     if key.is_empty() {
-                        match &node.value {
-                            Some(curr_val) => {
+                        match node.get_end_node(middlewares) {
+                            Some(end_node) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
-                                curr_val.prepend_middlewares(middlewares);
-                                return Some(node);
+                                return Some(end_node);
                             }
                             None => {
                                 continue;
@@ -588,23 +603,9 @@ impl Node {
 
             if count != 0 && count == node.key.len() {
                 if key.is_empty() {
-                    match &node.value {
-                        Some(curr_val) => {
-                            curr_val.prepend_middlewares(middlewares);
-                            return Some(node);
-                        }
-                        None => {
-                            for child in node.child_nodes.iter() {
-                                if child.key == "*" {
-                                    if let Some(child_val) = &child.value {
-                                        child_val.prepend_middlewares(middlewares);
-                                        return Some(child);
-                                    }
-                                }
-                            }
-
-                            continue;
-                        }
+                    match node.get_end_node(middlewares) {
+                        Some(end_node) => return Some(end_node),
+                        None => continue,
                     }
                 } else if let Some(final_val) =
                     node.get_next_node(key, params, middlewares, break_key)
-- 
2.43.0


From f8371853c13db2e8626977f1a325dd0cdb059dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:18 +0000
Subject: [PATCH 06/19] fix: do not let middlewares hide the route of a
 wildcard

A path registered only with use_service_to, next to a wildcard route that
covers it, answered 404 instead of reaching the wildcard route.
---
 src/router/route_trie.rs | 64 ++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index ab5ccd0..b5f0152 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -202,6 +202,12 @@ impl RouteTrie {
     /// Search node through the provided key
     /// Middleware will be accumulated throughout the search path
     pub fn search_route(&self, path: &str) -> Option<RouteValueResult> {
+        // A path with nothing but middlewares does not hide the route of a wildcard
+        self.search_value(path, true)
+            .or_else(|| self.search_value(path, false))
+    }
+
+    fn search_value(&self, path: &str, need_route: bool) -> Option<RouteValueResult> {
         // Split key and drop additional '/'
         let split_key = path.split('/');
         let mut split_key = split_key
@@ -213,11 +219,15 @@ impl RouteTrie {
 
         // Path is not registered if there is no node
         let curr_node = if split_key.is_empty() {
-            self.head.get_end_node(&mut middlewares)?
+            self.head.get_end_node(&mut middlewares, need_route)?
         } else {
-            let handler_node =
-                self.head
-                    .get_next_node(&mut split_key, &mut params, &mut middlewares, false)?;
+            let handler_node = self.head.get_next_node(
+                &mut split_key,
+                &mut params,
+                &mut middlewares,
+                false,
+                need_route,
+            )?;
 
             if let Some(val) = &self.head.value {
                 val.prepend_middlewares(&mut middlewares);
@@ -496,18 +506,37 @@ impl Node {
         Action::new(ActionName::CreateNewNode, ActionPayload::new(0, 0))
     }
 
+    // Check whether a path can end at the current node
+    fn is_end(&self, need_route: bool) -> bool {
+        match &self.value {
+            Some(val) => !need_route || !val.route.is_empty(),
+            None => false,
+        }
+    }
+
     // Helper function to get the node for a path ending at the current node:
-    // the wildcard child stands in when the current node has no value
-    fn get_end_node(&self, middlewares: &mut Vec<Arc<dyn Middleware>>) -> Option<&Self> {
-        let end_node = match &self.value {
-            Some(_) => self,
-            None => self
+    // the wildcard child stands in when the path cannot end at the current node
+    fn get_end_node(
+        &self,
+        middlewares: &mut Vec<Arc<dyn Middleware>>,
+        need_route: bool,
+    ) -> Option<&Self> {
+        let end_node = if self.is_end(need_route) {
+            self
+        } else {
+            let wildcard_node = self
                 .child_nodes
                 .iter()
-                .find(|child| child.key == "*" && child.value.is_some())?,
+                .find(|child| child.key == "*" && child.is_end(need_route))?;
+
+            if let Some(val) = &wildcard_node.value {
+                val.prepend_middlewares(middlewares);
+            }
+
+            wildcard_node
         };
 
-        if let Some(val) = &end_node.value {
+        if let Some(val) = &self.value {
             val.prepend_middlewares(middlewares);
         }
 
@@ -521,6 +550,7 @@ impl Node {
         params: &mut HashMap<String, String>,
         middlewares: &mut Vec<std::sync::Arc<(dyn Middleware + 'static)>>,
         is_break_parent: bool,
+        need_route: bool,
     ) -> Option<&Self> {
         let curr_key = key.remove(0);
 
@@ -535,7 +565,7 @@ impl Node {
                 // Check param
                 if node.is_param() {
                     if key.is_empty() {
-                        match node.get_end_node(middlewares) {
+                        match node.get_end_node(middlewares, need_route) {
                             Some(end_node) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
                                 return Some(end_node);
@@ -545,7 +575,7 @@ impl Node {
                             }
                         }
                     } else {
-                        match node.get_next_node(key, params, middlewares, break_key) {
+                        match node.get_next_node(key, params, middlewares, break_key, need_route) {
                             Some(final_val) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
 
@@ -567,6 +597,10 @@ impl Node {
 
                 // Check wildcard
                 if node.key == "*" {
+                    if !node.is_end(need_route) {
+                        continue;
+                    }
+
                     match &node.value {
                         Some(curr_val) => {
                             curr_val.prepend_middlewares(middlewares);
@@ -603,12 +637,12 @@ impl Node {
 
             if count != 0 && count == node.key.len() {
                 if key.is_empty() {
-                    match node.get_end_node(middlewares) {
+                    match node.get_end_node(middlewares, need_route) {
                         Some(end_node) => return Some(end_node),
                         None => continue,
                     }
                 } else if let Some(final_val) =
-                    node.get_next_node(key, params, middlewares, break_key)
+                    node.get_next_node(key, params, middlewares, break_key, need_route)
                 {
                     // A broken key only shares its prefix with the node path
                     if !break_key {
-- 
2.43.0


From da0a09148537724f38bd4058568770ded8c74480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:40 +0000
Subject: [PATCH 07/19] fix: do not serve files outside of the static directory

A request path with ".." segments was joined to the served directory as it
is, so any file readable by the server could be fetched.
---
 src/router.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 8eff03d..502a74c 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,7 @@ mod route_trie;
 use self::route_trie::RouteTrie;
 use crate::context::Context;
 use crate::middleware::Middleware;
-use crate::Method;
+use crate::{Method, StatusCode};
 pub use hyper::header;
 
 pub use self::handler::{ContextResult, Handler};
@@ -135,15 +135,26 @@ impl Router {
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
+            let is_outside = Self::is_outside_dir(&relative_path);
+
             dir_path.append(&mut relative_path);
 
             Box::pin(async move {
+                if is_outside {
+                    return ctx.build(StatusCode::NOT_FOUND).ok();
+                }
+
                 ctx.build(Response::ok().file(&dir_path.join("/")).await)
                     .ok()
             })
         }
     }
 
+    /// Check whether the requested path may leave the served directory
+    fn is_outside_dir(path: &[String]) -> bool {
+        path.iter().any(|key| key == "..")
+    }
+
     async fn static_dir_file_handler(ctx: Context) -> ContextResult {
         let relative_path = ctx
             .uri()
@@ -153,6 +164,10 @@ impl Router {
             .map(|x| x.to_string())
             .collect::<Vec<String>>();
 
+        if Self::is_outside_dir(&relative_path) {
+            return ctx.build(StatusCode::NOT_FOUND).ok();
+        }
+
         ctx.build(Response::ok().file(&relative_path.join("/")).await)
             .ok()
     }
-- 
2.43.0


From 4f37b78fb3b2e7680cbe0b88c4e5fab53cf85ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:43 +0000
Subject: [PATCH 08/19] fix: serve files that are not valid UTF-8

Response::file read the file into a String, so images and any other binary
file answered 404.
---
 src/router/response.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 4c5ce92..2c2fb51 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -130,8 +130,11 @@ impl Response {
     }
 
     pub async fn file(self, file_path: &str) -> Self {
-        match fs::read_to_string(file_path.to_string()).await {
-            Ok(content) => self.set_body(content),
+        match fs::read(file_path).await {
+            Ok(content) => Response {
+                body: Body::from(content),
+                ..self
+            },
             Err(err) => {
                 dbg!(&err);
                 self.set_body(err.to_string())
-- 
2.43.0


From e65c46516885c1be4f68263c47cc66845bd5b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:08 +0000
Subject: [PATCH 09/19] fix: read the whole request body in form and json

Only the first chunk of the aggregated body was parsed: a body received in
several chunks was truncated, failing to parse as json or losing form
fields.
---
 src/context.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1166c71..d5c1617 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use http::Extensions;
-use hyper::{body, body::Buf};
+use hyper::body;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use url::form_urlencoded;
@@ -176,14 +176,14 @@ impl Context {
     pub async fn form<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Self::parse_queries(buf.chunk())
+        Self::parse_queries(&buf)
     }
 
     /// Form value merge with Params
@@ -241,14 +241,14 @@ impl Context {
     pub async fn json<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Ok(serde_json::from_slice(buf.chunk())?)
+        Ok(serde_json::from_slice(&buf)?)
     }
 
     /// Json value merged with Params
-- 
2.43.0


From 0b46b578ab7437808dd4bf2034952a46405bca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 10/19] fix: do not panic in the logger when there is no
 response

A handler may return the context without a response, which is sent as an
empty 200 response, but with the logger the connection was dropped.
---
 src/middleware/logger.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 5a7537d..8add888 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -5,6 +5,7 @@ use crate::app::EndpointExecutor;
 use crate::context::Context;
 use crate::middleware::Middleware;
 use crate::router::ContextResult;
+use crate::StatusCode;
 
 use colored::*;
 
@@ -33,11 +34,12 @@ impl Middleware for Logger {
         match ep_executor.next(context).await {
             Ok(context_after) => {
                 let duration = start.elapsed();
-                println!(
-                    "[info] Sent {} in {:?}",
-                    context_after.response().as_ref().unwrap().status(),
-                    duration
-                );
+                // No response is sent as an empty one
+                let status = match context_after.response() {
+                    Some(response) => response.status(),
+                    None => StatusCode::OK,
+                };
+                println!("[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-- 
2.43.0


From ca6e34f7c1f8782a0f1db806d6dc3431b1982ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:12 +0000
Subject: [PATCH 11/19] fix: deserialize each element of a form list from its
 own value

An element that consumed its empty value (Option, unit) moved the list as
well: ["", "a"] lost "a" and ["a", ""] panicked.
---
 src/router/req_deserializer.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index af23374..1e8069f 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -221,7 +221,7 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_seq(FromSeq::new(self))
+        visitor.visit_seq(FromSeq::new(self.input))
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Error>
@@ -328,35 +328,33 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     }
 }
 
-struct FromSeq<'a, 'de: 'a> {
-    de: &'a mut FormValueDeserializer<'de>,
-    first: bool,
+struct FromSeq<'de> {
+    input: &'de [std::string::String],
 }
 
-impl<'a, 'de> FromSeq<'a, 'de> {
-    fn new(de: &'a mut FormValueDeserializer<'de>) -> Self {
-        FromSeq { de, first: true }
+impl<'de> FromSeq<'de> {
+    fn new(input: &'de [std::string::String]) -> Self {
+        FromSeq { input }
     }
 }
 
-impl<'de, 'a> SeqAccess<'de> for FromSeq<'a, 'de> {
+impl<'de> SeqAccess<'de> for FromSeq<'de> {
     type Error = Error;
 
     fn next_element_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>, Error>
     where
         T: DeserializeSeed<'de>,
     {
-        if self.de.input.len() == 1 && !self.first {
+        if self.input.is_empty() {
             return Ok(None);
         }
 
-        // Only start moving slices after processing
-        if !self.first {
-            self.de.input = &self.de.input[1..];
-        }
-        self.first = false;
+        // Each element only sees its own value
+        let (value, rest) = self.input.split_at(1);
+        self.input = rest;
 
-        seed.deserialize(&mut *self.de).map(Some)
+        seed.deserialize(&mut FormValueDeserializer::new(value))
+            .map(Some)
     }
 }
 
-- 
2.43.0


From ae2bf120bdbfb74169955ffc3563d4c1cdf0ef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:57 +0000
Subject: [PATCH 12/19] fix: parse the keys of a form map with number or bool
 keys

The key was handed over as a string whatever the key type, so form data
could never be read into a map with such keys.
---
 src/router/req_deserializer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index 1e8069f..6bd4084 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -90,7 +90,10 @@ macro_rules! from_string_forms_key_impl {
                 where V: de::Visitor<'de>
             {
                 match self.input.peek() {
-                    Some(key) => key.0.clone().into_deserializer().$method(visitor),
+                    Some(key) => match key.0.parse::<$t>() {
+                        Ok(result) => result.into_deserializer().$method(visitor),
+                        Err(e) => Err(Error::Message(format!("{}", e))),
+                    },
                     _ => Err(Error::NoneError),
                 }
             }
-- 
2.43.0


From 6a9f589bedb4a024eb34aaafb700a5a31e49ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:00 +0000
Subject: [PATCH 13/19] fix: serve static files of a router used under another
 path

The static handlers took the request path without the path the router is
used at into account, so no static file of a nested router or a scope could
be fetched. They now use the path matched by the wildcard.
---
 src/router.rs            | 37 ++++++-------------------------------
 src/router/route_trie.rs |  7 +++++++
 2 files changed, 13 insertions(+), 31 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 502a74c..2203ca9 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -83,10 +83,7 @@ impl Router {
         let mut path = String::from(virtual_path);
         path.push_str("/*");
 
-        self.get(
-            &path,
-            Self::static_virtual_file_handler(virtual_path, dir_path),
-        );
+        self.get(&path, Self::static_file_handler(dir_path));
     }
 
     /// Serve static files by the directory path as the route and server file path
@@ -94,7 +91,7 @@ impl Router {
         let mut path = String::from(dir_path);
         path.push_str("/*");
 
-        self.get(&path, Self::static_dir_file_handler);
+        self.get(&path, Self::static_file_handler(dir_path));
     }
 
     /// Apply route handler in current relative route
@@ -112,26 +109,21 @@ impl Router {
         self.routes.insert_route(path, route);
     }
 
-    fn static_virtual_file_handler(virtual_path: &str, dir_path: &str) -> impl Handler {
+    fn static_file_handler(dir_path: &str) -> impl Handler {
         let dir_path = dir_path
             .split('/')
             .filter(|key| !key.is_empty())
             .map(|x| x.to_string())
             .collect::<Vec<String>>();
 
-        let virtual_path_len = virtual_path
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .count();
-
         move |ctx: Context| {
             let mut dir_path = dir_path.clone();
+            // The path matched by the wildcard, wherever the router is used
             let mut relative_path = ctx
-                .uri()
-                .path()
+                .param::<String>("*")
+                .unwrap_or_default()
                 .split('/')
                 .filter(|key| !key.is_empty())
-                .skip(virtual_path_len)
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
@@ -154,23 +146,6 @@ impl Router {
     fn is_outside_dir(path: &[String]) -> bool {
         path.iter().any(|key| key == "..")
     }
-
-    async fn static_dir_file_handler(ctx: Context) -> ContextResult {
-        let relative_path = ctx
-            .uri()
-            .path()
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .map(|x| x.to_string())
-            .collect::<Vec<String>>();
-
-        if Self::is_outside_dir(&relative_path) {
-            return ctx.build(StatusCode::NOT_FOUND).ok();
-        }
-
-        ctx.build(Response::ok().file(&relative_path.join("/")).await)
-            .ok()
-    }
 }
 
 #[cfg(test)]
diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index b5f0152..3dd145b 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -552,6 +552,11 @@ impl Node {
         is_break_parent: bool,
         need_route: bool,
     ) -> Option<&Self> {
+        // The remaining path is what a wildcard child matches
+        let wildcard_path = match self.child_nodes.iter().find(|node| node.key == "*") {
+            Some(_) => key.join("/"),
+            None => String::default(),
+        };
         let curr_key = key.remove(0);
 
         for node in self.child_nodes.iter() {
@@ -601,6 +606,8 @@ impl Node {
                         continue;
                     }
 
+                    params.insert(node.key.to_string(), wildcard_path);
+
                     match &node.value {
                         Some(curr_val) => {
                             curr_val.prepend_middlewares(middlewares);
-- 
2.43.0


From 9ff60a7c7575d3cc99e1ab679727a4398358b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:57 +0000
Subject: [PATCH 14/19] fix: refuse longer texts for a char field of a form

Only the first character of the text was used and the rest dropped.
---
 src/router/req_deserializer.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index 6bd4084..ce2958a 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -241,16 +241,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
         visitor.visit_str(&self.input[0])
     }
 
-    fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Error>
-    where
-        V: Visitor<'de>,
-    {
-        match self.input[0].chars().next() {
-            Some(val) => visitor.visit_char(val),
-            _ => Err(Error::NoneError),
-        }
-    }
-
     fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
@@ -328,6 +318,7 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
         i64 => deserialize_i64
         f32 => deserialize_f32
         f64 => deserialize_f64
+        char => deserialize_char
     }
 }
 
-- 
2.43.0


From 14118bc7028d97d5e07e84ad86c99265e5e60a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:12 +0000
Subject: [PATCH 15/19] fix: do not recurse endlessly when a form key is
 deserialized as any

---
 src/router/req_deserializer.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index ce2958a..0d2e08d 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -82,6 +82,8 @@ struct FormDeserializer<'de> {
             std::borrow::Cow<'de, [String]>,
         >,
     >,
+    // Whether a key of the map is deserialized, instead of the map itself
+    is_key: bool,
 }
 
 macro_rules! from_string_forms_key_impl {
@@ -110,7 +112,10 @@ impl<'de> FormDeserializer<'de> {
             >,
         >,
     ) -> Self {
-        FormDeserializer { input }
+        FormDeserializer {
+            input,
+            is_key: false,
+        }
     }
 }
 
@@ -121,13 +126,11 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut FormDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_map(visitor)
-    }
+        if self.is_key {
+            return self.deserialize_str(visitor);
+        }
 
-    fn deserialize_map<V>(self, visitor: V) -> Result<V::Value, Error>
-    where
-        V: Visitor<'de>,
-    {
+        self.is_key = true;
         visitor.visit_map(FromMap::new(self))
     }
 
@@ -160,6 +163,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut FormDeserializer<'de> {
         option
         bytes
         byte_buf
+        map
         unit_struct
         newtype_struct
         tuple_struct
-- 
2.43.0


From b6c03524c24ba084105d8c2498205959b23d19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:32 +0000
Subject: [PATCH 16/19] fix: limit how deep lists and options of a form nest

---
 src/router/req_deserializer.rs | 37 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index 0d2e08d..647b4a7 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -203,14 +203,31 @@ macro_rules! from_string_forms_impl {
     )*}
 }
 
+/// How deep lists and options may be nested, a recursive type would never end otherwise.
+const MAX_DEPTH: u8 = 128;
+
 // Deserializer for value of merged hashmap forms.
 struct FormValueDeserializer<'de> {
     input: &'de [std::string::String],
+    remaining_depth: u8,
 }
 
 impl<'de> FormValueDeserializer<'de> {
-    pub fn new(input: &'de [std::string::String]) -> Self {
-        FormValueDeserializer { input }
+    pub fn new(input: &'de [std::string::String], remaining_depth: u8) -> Self {
+        FormValueDeserializer {
+            input,
+            remaining_depth,
+        }
+    }
+
+    fn enter(&mut self) -> Result<(), Error> {
+        match self.remaining_depth.checked_sub(1) {
+            Some(depth) => {
+                self.remaining_depth = depth;
+                Ok(())
+            }
+            None => Err(Error::Message("recursion limit exceeded".to_string())),
+        }
     }
 }
 
@@ -228,7 +245,8 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_seq(FromSeq::new(self.input))
+        self.enter()?;
+        visitor.visit_seq(FromSeq::new(self.input, self.remaining_depth))
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Error>
@@ -253,6 +271,7 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
             self.input = &self.input[1..];
             visitor.visit_none()
         } else {
+            self.enter()?;
             visitor.visit_some(self)
         }
     }
@@ -328,11 +347,15 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
 
 struct FromSeq<'de> {
     input: &'de [std::string::String],
+    remaining_depth: u8,
 }
 
 impl<'de> FromSeq<'de> {
-    fn new(input: &'de [std::string::String]) -> Self {
-        FromSeq { input }
+    fn new(input: &'de [std::string::String], remaining_depth: u8) -> Self {
+        FromSeq {
+            input,
+            remaining_depth,
+        }
     }
 }
 
@@ -351,7 +374,7 @@ impl<'de> SeqAccess<'de> for FromSeq<'de> {
         let (value, rest) = self.input.split_at(1);
         self.input = rest;
 
-        seed.deserialize(&mut FormValueDeserializer::new(value))
+        seed.deserialize(&mut FormValueDeserializer::new(value, self.remaining_depth))
             .map(Some)
     }
 }
@@ -391,7 +414,7 @@ impl<'de, 'a> MapAccess<'de> for FromMap<'a, 'de> {
         V: DeserializeSeed<'de>,
     {
         match self.de.input.peek() {
-            Some(val) => seed.deserialize(&mut FormValueDeserializer::new(val.1)),
+            Some(val) => seed.deserialize(&mut FormValueDeserializer::new(val.1, MAX_DEPTH)),
             _ => Err(Error::NoneError),
         }
     }
-- 
2.43.0


From aae600f0ef3927908701939315c55a40b209f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:01 +0000
Subject: [PATCH 17/19] fix: building a response from something that is not a
 regular file waited for ever on a pipe

---
 src/router/response.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 2c2fb51..791c57c 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -12,6 +12,18 @@ pub struct Response {
     headers: Option<Vec<(header::HeaderName, &'static str)>>,
 }
 
+/// Opening a pipe would wait for a writer that may never come.
+async fn read_regular_file(file_path: &str) -> std::io::Result<Vec<u8>> {
+    if !fs::metadata(file_path).await?.is_file() {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "not a regular file",
+        ));
+    }
+
+    fs::read(file_path).await
+}
+
 impl Response {
     pub fn new(body: impl ResponseBody) -> Self {
         Response {
@@ -130,7 +142,7 @@ impl Response {
     }
 
     pub async fn file(self, file_path: &str) -> Self {
-        match fs::read(file_path).await {
+        match read_regular_file(file_path).await {
             Ok(content) => Response {
                 body: Body::from(content),
                 ..self
-- 
2.43.0


From 3be04ec658d0c5ee5936497de2002292c156e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 18/19] fix: the logger made every request fail when standard
 output could not be written

---
 src/middleware/logger.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 8add888..bb0e8dc 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -1,4 +1,6 @@
 use async_trait::async_trait;
+use std::fmt;
+use std::io::{self, Write};
 use std::time::Instant;
 
 use crate::app::EndpointExecutor;
@@ -26,10 +28,10 @@ impl Middleware for Logger {
         ep_executor: EndpointExecutor<'a>,
     ) -> ContextResult {
         let start = Instant::now();
-        println!("[info] {} {}", context.method(), context.uri(),);
+        print_log(format_args!("[info] {} {}", context.method(), context.uri()));
 
         #[cfg(debug_assertions)]
-        println!("{} {:#?}", "[debug]".cyan(), context);
+        print_log(format_args!("{} {:#?}", "[debug]".cyan(), context));
 
         match ep_executor.next(context).await {
             Ok(context_after) => {
@@ -39,13 +41,18 @@ impl Middleware for Logger {
                     Some(response) => response.status(),
                     None => StatusCode::OK,
                 };
-                println!("[info] Sent {} in {:?}", status, duration);
+                print_log(format_args!("[info] Sent {} in {:?}", status, duration));
                 Ok(context_after)
             }
             Err(error) => {
-                println!("{} {}", "[error]".red(), error);
+                print_log(format_args!("{} {}", "[error]".red(), error));
                 Err(error)
             }
         }
     }
 }
+
+/// Print a line. A standard output that cannot be written does not fail the request
+fn print_log(line: fmt::Arguments<'_>) {
+    let _ = writeln!(io::stdout(), "{}", line);
+}
-- 
2.43.0


From 63265bdd49d7b3ef5dd02f2c1636da7c6ddb479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 19/19] fix: a request for a file that does not exist failed
 when standard error could not be written

---
 src/router/response.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 791c57c..1e89c11 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -4,6 +4,7 @@ use async_std::fs;
 use http::StatusCode;
 use hyper::{header, Body};
 use serde::ser::Serialize;
+use std::io::{self, Write};
 
 #[derive(Debug)]
 pub struct Response {
@@ -148,7 +149,8 @@ impl Response {
                 ..self
             },
             Err(err) => {
-                dbg!(&err);
+                // A standard error that cannot be written does not fail the request
+                let _ = writeln!(io::stderr(), "{}: {}", file_path, err);
                 self.set_body(err.to_string())
                     .set_status(StatusCode::NOT_FOUND)
             }
-- 
2.43.0

