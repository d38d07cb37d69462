From a97d134abd38495c05295b75c502b329cb9e3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 01/37] fix: keep looking for a match when a matched route
 rejects the request

---
 src/handler/tree_router.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 6855d5d..042a65a 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -164,6 +164,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
         let mut hyperlinks = vec![];
         let mut matches = vec![];
+        let mut found_match = false;
 
         while let Some((current, branch, snapshot)) = stack.pop() {
             environment.route_state.go_to(snapshot);
@@ -171,8 +172,10 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                 if !self.find_hyperlinks {
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
+                        //Keep looking for an other match that accepts the request.
                         environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
-                        return Err(environment);
+                        found_match = true;
+                        continue;
                     } else {
                         return Ok(());
                     }
@@ -264,7 +267,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             }
         }
 
-        if matches.is_empty() {
+        if matches.is_empty() && !found_match {
             environment.response.set_status(StatusCode::NotFound);
         } else if self.find_hyperlinks {
             hyperlinks.sort();
-- 
2.43.0


From 3d0e487e33988be94408d67f83fed8bbc05e6b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 02/37] fix: don't treat an exhausted variable sequence as a
 match of its parent

---
 src/handler/tree_router.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 042a65a..268bb43 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -169,7 +169,9 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
         while let Some((current, branch, snapshot)) = stack.pop() {
             environment.route_state.go_to(snapshot);
             if environment.route_state.is_empty() {
-                if !self.find_hyperlinks {
+                //Only the first branch is a match. The others are either the
+                //same match again or what's left of an exhausted sequence.
+                if branch == Static && !self.find_hyperlinks {
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
                         //Keep looking for an other match that accepts the request.
@@ -181,9 +183,9 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                     }
                 }
 
-                matches.push((&current.item, environment.route_state.clone()));
-
                 if branch == Static {
+                    matches.push((&current.item, environment.route_state.clone()));
+
                     let base_link = Link {
                         method: None,
                         path: vec![],
-- 
2.43.0


From 63682bf8763d41e2e46423798d8f595538d28d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 03/37] fix: don't let a rejecting route affect the status of
 the route that accepts

---
 src/handler/tree_router.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 268bb43..5f6a30e 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -160,6 +160,7 @@ impl<T: FromHandler<H> + ApplyContext, D: AsRef<[u8]>, H> FromIterator<(Method,
 impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
         let now = environment.route_state.snapshot();
+        let status = environment.response.status();
         let mut stack = vec![(self, Wildcard, now), (self, Variable, now), (self, Static, now)];
 
         let mut hyperlinks = vec![];
@@ -172,6 +173,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                 //Only the first branch is a match. The others are either the
                 //same match again or what's left of an exhausted sequence.
                 if branch == Static && !self.find_hyperlinks {
+                    environment.response.set_status(status);
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
                         //Keep looking for an other match that accepts the request.
@@ -278,6 +280,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
             for (handler, snapshot) in matches {
                 new_environment.route_state = snapshot;
+                new_environment.response.set_status(status);
                 if let Err(returned_environment) = handler.handle_request(new_environment) {
                     new_environment = returned_environment;
                 } else {
-- 
2.43.0


From aedacddfeda78e455c8c950bafe89908e497344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 04/37] fix: restore the route state when a tree router rejects
 a request

---
 src/handler/tree_router.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 5f6a30e..6f8adcf 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -291,6 +291,8 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             environment = new_environment.replace_hyperlinks(old_hyperlinks).0;
         }
 
+        //Let the next router start from the same position.
+        environment.route_state.go_to(now);
 
         Err(environment)
     }
-- 
2.43.0


From 77494f0f4349d51b1310b6f92ef58ef6f8379c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 05/37] fix: accept empty segments in router paths

---
 src/handler/tree_router.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 6f8adcf..eb25860 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -461,7 +461,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -510,7 +510,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
-- 
2.43.0


From 85904ea8f20a4e819eed26a2af4f612c72c12b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 06/37] fix: ignore variable segments that were saved by
 abandoned routes

---
 src/handler/routing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler/routing.rs b/src/handler/routing.rs
index f87b800..71a5299 100644
--- a/src/handler/routing.rs
+++ b/src/handler/routing.rs
@@ -153,7 +153,8 @@ impl<'a> RouteState<'a> {
 
     ///Assign names to the saved variables and return them.
     pub fn variables(&self, names: &[MaybeUtf8Owned]) -> HashMap<MaybeUtf8Owned, MaybeUtf8Owned> {
-        let values = self.route.iter().zip(self.variables.iter()).filter_map(|(v, keep)| {
+        //Anything after the current position is left from an abandoned route.
+        let values = self.route.iter().zip(self.variables.iter()).take(self.index).filter_map(|(v, keep)| {
             if let Some(index) = *keep {
                 Some((index, *v))
             } else {
-- 
2.43.0


From 556a5b7ef8cd8667ce9f15ad1af674edeaf1b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 07/37] fix: set the handler when on_route is used on an
 existing node

---
 src/handler/tree_router.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index eb25860..5c310fa 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -590,29 +590,32 @@ impl<'a, T> Builder<'a, T> {
         let context = self.context.clone();
 
         let mut label_iter = label.as_ref().segments();
-        let label = if let Some(label) = label_iter.next() {
-            label
-        } else {
-            return Builder {
-                node: self.node,
-                variables: self.variables.clone(),
-                context: self.context.clone()
-            };
-        };
+        let label = label_iter.next();
 
         if label_iter.next().is_some() {
             panic!("expected at most a single label, but got a longer path");
         }
 
-        if label[0] == b':' || label[0] == b'*' {
-            variables.to_mut().push(label[1..].to_owned().into());
+        if let Some(label) = label {
+            if label.starts_with(b":") || label.starts_with(b"*") {
+                variables.to_mut().push(label[1..].to_owned().into());
+            }
         }
 
-        let node = self.node.find_or_insert_router(label, || {
-            let mut new_context = context.clone().into_owned();
-            new_context.insert(VariableNames(variables.clone().into_owned()));
-            T::from_handler(new_context, handler)
-        });
+        let mut new_context = context.into_owned();
+        new_context.insert(VariableNames(variables.clone().into_owned()));
+        let mut item = Some(T::from_handler(new_context, handler));
+
+        let node = if let Some(label) = label {
+            self.node.find_or_insert_router(label, || item.take().expect("only one node is created"))
+        } else {
+            &mut *self.node
+        };
+
+        if let Some(item) = item {
+            //The node did already exist.
+            node.item = item;
+        }
 
         Builder {
             node: node,
-- 
2.43.0


From 375cb7bba31fc33eddc97d83db62620849dfd6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 08/37] fix: restore the variables when a handler rejects the
 request

---
 src/handler/variables.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/handler/variables.rs b/src/handler/variables.rs
index 690acdc..9983fa4 100644
--- a/src/handler/variables.rs
+++ b/src/handler/variables.rs
@@ -61,8 +61,14 @@ impl<'a, H: Build<'a>> Build<'a> for Variables<H> {
 
 impl<H: HandleRequest> HandleRequest for Variables<H> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
-        environment.context.variables = environment.route_state.variables(&self.variables).into();
-        self.handler.handle_request(environment)
+        let variables = environment.route_state.variables(&self.variables).into();
+        let old_variables = ::std::mem::replace(&mut environment.context.variables, variables);
+
+        self.handler.handle_request(environment).map_err(|mut environment| {
+            //Don't leave any variables behind for the next router.
+            environment.context.variables = old_variables;
+            environment
+        })
     }
 
     fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
-- 
2.43.0


From d386a67bee360d9d52785df38586194d322458b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 09/37] fix: order links consistently with their equality

---
 src/context/hypermedia.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context/hypermedia.rs b/src/context/hypermedia.rs
index a9c1d22..7eebc74 100644
--- a/src/context/hypermedia.rs
+++ b/src/context/hypermedia.rs
@@ -44,7 +44,10 @@ impl<'a> cmp::Ord for Link<'a> {
             (&None, &None) => cmp::Ordering::Equal,
             (&Some(_), &None) => cmp::Ordering::Greater,
             (&None, &Some(_)) => cmp::Ordering::Less,
-            (&Some(ref this_method), &Some(ref other_method)) => this_method.as_ref().cmp(&other_method.as_ref()),
+            (&Some(ref this_method), &Some(ref other_method)) => {
+                //An extension may have the same name as a standard method, but they are not equal.
+                this_method.as_ref().cmp(&other_method.as_ref()).then_with(|| is_extension(this_method).cmp(&is_extension(other_method)))
+            },
         };
 
         if method_ord == cmp::Ordering::Equal {
@@ -55,6 +58,14 @@ impl<'a> cmp::Ord for Link<'a> {
     }
 }
 
+fn is_extension(method: &Method) -> bool {
+    if let Method::Extension(_) = *method {
+        true
+    } else {
+        false
+    }
+}
+
 ///A segment of a hyperlink path.
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
 pub struct LinkSegment<'a> {
-- 
2.43.0


From d8b0c06a054884ee2342128fb9bfb092af899a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 10/37] fix: don't make parameters of empty parts of a query

---
 src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 2b01eee..4648945 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,6 +9,10 @@ pub fn parse_parameters(source: &[u8]) -> Parameters {
                                 .collect();
 
     for parameter in source.split(|&e| e == b'&') {
+        if parameter.is_empty() {
+            continue;
+        }
+
         let mut parts = parameter.split(|&e| e == b'=');
 
         match (parts.next(), parts.next()) {
-- 
2.43.0


From 5db4a08a5aff961ca2208763c2558033ee5b38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 11/37] fix: keep the bytes of query parameters in absolute
 URIs

---
 src/server/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 327f455..378481e 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -283,9 +283,9 @@ fn parse_url(url: &Url) -> ParsedUri {
     let mut path = vec![];
     path.extend(percent_decode(url.path().as_bytes()));
 
-    let query = url.query_pairs()
-        .map(|(k, v)| (k.into_owned(), v.into_owned()))
-        .collect();
+    let query = url.query()
+        .map(|query| utils::parse_parameters(query.as_bytes()))
+        .unwrap_or_else(Parameters::new);
 
     let host = url.host_str().map(|host| (host.into(), url.port()));
 
-- 
2.43.0


From eb825c381d1a6248d69dc1aa746db54768b8a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 12/37] fix: separate the fragment from the path before the
 query

---
 src/server/instance.rs | 43 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 378481e..37a1c67 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -238,37 +238,24 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
 }
 
 fn parse_path(path: &str) -> ParsedUri {
-    match path.find('?') {
-        Some(index) => {
-            let (query, fragment) = parse_fragment(&path[index+1..]);
+    //The fragment may contain question marks, so it has to go first.
+    let (path, fragment) = parse_fragment(path);
 
-            let mut path: Vec<_> = percent_decode(path[..index].as_bytes()).collect();
-            if path.is_empty() {
-                path.push(b'/');
-            }
-
-            ParsedUri {
-                host: None,
-                uri_path: UriPath::Path(path.into()),
-                query: utils::parse_parameters(query.as_bytes()),
-                fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into()),
-            }
-        },
-        None => {
-            let (path, fragment) = parse_fragment(&path);
+    let (path, query) = match path.find('?') {
+        Some(index) => (&path[..index], utils::parse_parameters(path[index+1..].as_bytes())),
+        None => (path, Parameters::new())
+    };
 
-            let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
-            if path.is_empty() {
-                path.push(b'/');
-            }
+    let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
+    if path.is_empty() {
+        path.push(b'/');
+    }
 
-            ParsedUri {
-                host: None,
-                uri_path: UriPath::Path(path.into()),
-                query: Parameters::new(),
-                fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into())
-            }
-        }
+    ParsedUri {
+        host: None,
+        uri_path: UriPath::Path(path.into()),
+        query: query,
+        fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into()),
     }
 }
 
-- 
2.43.0


From 86d2fb1e9222e84171fbc03d35c67f1ff2b27983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 13/37] fix: accept a multipart boundary that looks like a
 charset

---
 src/context/body.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 0fc8b7c..2d09c5c 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -32,10 +32,10 @@ impl<'a, 'b> BodyReader<'a, 'b> {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
+                    .map(|&(_, ref val)| match *val {
+                        Value::Ext(ref boundary) => boundary.clone(),
+                        //A boundary may happen to look like a charset
+                        Value::Utf8 => String::from("utf-8")
                     })
             },
             _ => None
@@ -66,10 +66,10 @@ impl<'a, 'b> BodyReader<'a, 'b> {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
+                    .map(|&(_, ref val)| match *val {
+                        Value::Ext(ref boundary) => boundary.clone(),
+                        //A boundary may happen to look like a charset
+                        Value::Utf8 => String::from("utf-8")
                     })
             },
             _ => None
-- 
2.43.0


From 22ad66571f10d5072dc444b0873c157c0727d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:13 +0000
Subject: [PATCH 14/37] fix: run the ends of the response filters in order and
 report their errors

---
 src/response.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 4656a17..eac79ad 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1200,23 +1200,9 @@ fn filter_content<'a, 'd: 'a, Content: Into<Data<'d>>>(filters: &'a [Box<Respons
 }
 
 fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_storage: &mut AnyMap) -> Result<Vec<Action<'a>>, Error> {
-    let otuputs: Vec<_> = filters.into_iter()
-        .rev()
-        .map(|filter| {
-            let filter_context = FilterContext {
-                storage: filter_storage,
-                global: global,
-            };
-
-            filter.end(filter_context)
-        })
-        .take_while(|a| if let Action::Next(_) = *a { true } else { false })
-        .map(Some)
-        .collect();
-
     let mut write_queue = vec![];
 
-    for (filter, action) in filters.into_iter().zip(otuputs.into_iter().chain(::std::iter::repeat(None))) {
+    for filter in filters {
         let mut error = None;
 
         write_queue = write_queue.into_iter().filter_map(|action| match action {
@@ -1238,8 +1224,14 @@ fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_st
             return Err(Error::Filter(e))
         }
 
-        if let Some(action) = action {
-            write_queue.push(action);
+        let filter_context = FilterContext {
+            storage: filter_storage,
+            global: global,
+        };
+
+        match filter.end(filter_context) {
+            Action::Abort(e) => return Err(Error::Filter(e)),
+            action => write_queue.push(action)
         }
     }
 
-- 
2.43.0


From 10cf91b3a1d246a6d316ac30f6bf3cbd7d23ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 15/37] fix: report the unfiltered length when writing to a
 chunked response

---
 src/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index eac79ad..85b3db8 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -983,7 +983,8 @@ impl<'a, 'b> Chunked<'a, 'b> {
 
 impl<'a, 'b> Write for Chunked<'a, 'b> {
     fn write(&mut self, content: &[u8]) -> io::Result<usize> {
-        response_to_io_result(self.try_send(content))
+        //All of it was consumed, even if the filters changed its length
+        response_to_io_result(self.try_send(content)).map(|_| content.len())
     }
 
     fn write_all(&mut self, content: &[u8]) -> io::Result<()> {
-- 
2.43.0


From b2bff0904b3c8420335d71fe726aa4348d41ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:13 +0000
Subject: [PATCH 16/37] fix: don't panic when ending a chunked response that
 has failed

---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 85b3db8..61b94dc 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -954,7 +954,10 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = try!(self.writer.take().expect("can only finish once"));
+        let mut writer = match self.writer.take() {
+            Some(writer) => try!(writer),
+            None => return Ok(()) //It has already failed or ended
+        };
         let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
 
         for action in write_queue {
-- 
2.43.0


From 59af0041c8b299ce32e2189cc752707d5c24a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 17/37] fix: forget the content length of responses that are
 filtered

---
 src/response.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 61b94dc..467ad72 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -655,6 +655,10 @@ impl<'a, 'b> Response<'a, 'b> {
         } else {
             let mut buffer = vec![];
 
+            //The length may change
+            writer.headers_mut().remove::<::header::ContentLength>();
+            writer.headers_mut().remove_raw("content-length");
+
             let (status, write_queue) = try!(filter_headers(
                 self.filters,
                 writer.status(),
-- 
2.43.0


From ddc25c071bd606f1522a60e80d20f2fcfc6efc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 18/37] fix: don't panic when a filter silently aborts a chunk

---
 src/response.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 467ad72..ea4ed0d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -943,8 +943,7 @@ impl<'a, 'b> Chunked<'a, 'b> {
             Some(Err(e)) => Err(Error::Io(e)),
             None => match filter_result {
                 Action::Abort(e) => Err(Error::Filter(e)),
-                Action::Next(None) => Ok(0),
-                _ => unreachable!()
+                _ => Ok(0)
             }
         }
     }
-- 
2.43.0


From a6d19f1336e9c197eeaad29b04596b46b751f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 19/37] fix: don't drop the data of other filters when one of
 them silently aborts

---
 src/response.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index ea4ed0d..3f3006a 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -673,9 +673,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
@@ -690,9 +689,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
@@ -797,9 +795,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => try!(writer.write_all(content.as_bytes())),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
-- 
2.43.0


From f297011f471ceb13921106fc205019e2c609a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 20/37] fix: map extensions of video files to video types

---
 build/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/mime.rs b/build/mime.rs
index 0f9b1fb..e48cdb0 100644
--- a/build/mime.rs
+++ b/build/mime.rs
@@ -37,7 +37,7 @@ pub fn gen() {
             "text" => "MaybeKnown::Known(::mime::TopLevel::Text)".into(),
             "image" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
             "audio" => "MaybeKnown::Known(::mime::TopLevel::Audio)".into(),
-            "video" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
+            "video" => "MaybeKnown::Known(::mime::TopLevel::Video)".into(),
             "application" => "MaybeKnown::Known(::mime::TopLevel::Application)".into(),
             "multipart" => "MaybeKnown::Known(::mime::TopLevel::Multipart)".into(),
             "message" => "MaybeKnown::Known(::mime::TopLevel::Message)".into(),
-- 
2.43.0


From 58c7d5d8a4c56b673a9f011f606e4db94e1f310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 21/37] fix: report directories as errors and send the rest of
 files that have been read from

---
 src/response.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 3f3006a..96679ad 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -32,7 +32,7 @@
 //![raw]: struct.Raw.html
 
 use std;
-use std::io::{self, Write};
+use std::io::{self, Write, Seek, SeekFrom};
 use std::error;
 use std::borrow::Cow;
 use std::convert::From;
@@ -344,7 +344,7 @@ impl<'d, 'a, 'b> SendResponse<'a, 'b> for &'d Path {
             .and_then(|ext| ::file::ext_to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(self) {
+        let file = match open_file(self) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, response))
         };
@@ -366,16 +366,34 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
     type Error = FileError<'a, 'b>;
 
     fn send_response(mut self, response: Response<'a, 'b>) -> Result<(), FileError<'a, 'b>> {
-        let metadata = match self.metadata() {
-            Ok(metadata) => metadata,
+        let length = match remaining_length(&mut self) {
+            Ok(length) => length,
             Err(e) => return Err(FileError::Open(e, response)),
         };
 
-        let mut writer = unsafe { response.into_raw(metadata.len()) };
+        let mut writer = unsafe { response.into_raw(length) };
         io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
     }
 }
 
+//Directories can also be opened, but not sent.
+fn open_file(path: &Path) -> io::Result<File> {
+    let mut file = try!(File::open(path));
+    try!(remaining_length(&mut file));
+    Ok(file)
+}
+
+//The number of bytes from the current position to the end.
+fn remaining_length(file: &mut File) -> io::Result<u64> {
+    let metadata = try!(file.metadata());
+    if metadata.is_dir() {
+        return Err(io::Error::new(io::ErrorKind::Other, "is a directory"));
+    }
+
+    let position = try!(file.seek(SeekFrom::Current(0)));
+    Ok(metadata.len().saturating_sub(position))
+}
+
 ///Helper trait for dealing with errors that may occur while sending a
 ///response. It provides a default method of handling the error.
 pub trait ResponseError {
@@ -761,7 +779,7 @@ impl<'a, 'b> Response<'a, 'b> {
             .and_then(|ext| to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(path) {
+        let file = match open_file(path) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, self))
         };
-- 
2.43.0


From 006a6539331b9d482473c51a837edf5dd249e570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 22/37] fix: don't reverse the order of strings compared with
 possibly-text strings

---
 src/context/maybe_utf8.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/context/maybe_utf8.rs b/src/context/maybe_utf8.rs
index 3b387b5..049de8b 100644
--- a/src/context/maybe_utf8.rs
+++ b/src/context/maybe_utf8.rs
@@ -313,7 +313,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -322,7 +322,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -331,7 +331,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for String where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -340,7 +340,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for Cow<'a, str> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self.as_ref())
+        other.partial_cmp(self.as_ref()).map(Ordering::reverse)
     }
 }
 
@@ -349,7 +349,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -358,7 +358,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -367,7 +367,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for Vec<u8> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
-- 
2.43.0


From 274b4e00aec77060ee9842d36fc544b02421ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 23/37] fix: release the thread when a handler panics

The connection was counted as in use for ever, since hyper doesn't notify of
its end when a handler panics.
---
 src/server/instance.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 37a1c67..53b819e 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -1,5 +1,6 @@
 use std::net::SocketAddr;
 use std::sync::atomic::{AtomicUsize, Ordering};
+use std::thread;
 
 use time;
 
@@ -127,6 +128,18 @@ impl<R: HandleRequest + 'static> ServerInstance<R> {
 
 }
 
+//A panic ends the connection and its thread without further notice, so the
+//thread has to be released when the stack unwinds.
+struct ReleaseOnPanic<'a>(&'a AtomicUsize);
+
+impl<'a> Drop for ReleaseOnPanic<'a> {
+    fn drop(&mut self) {
+        if thread::panicking() {
+            self.0.fetch_sub(1, Ordering::SeqCst);
+        }
+    }
+}
+
 struct ParsedUri {
     host: Option<(String, Option<u16>)>,
     uri_path: UriPath,
@@ -136,6 +149,8 @@ struct ParsedUri {
 
 impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
     fn handle<'a, 'b>(&'a self, request: hyper::server::request::Request<'a, 'b>, writer: hyper::server::response::Response<'a>) {
+        let _release = ReleaseOnPanic(&self.threads_in_use);
+
         let (
             request_addr,
             request_method,
-- 
2.43.0


From 331d6cadddfd86ac790fe8cb9e33ca3aee1d0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:47 +0000
Subject: [PATCH 24/37] fix: close the connection also when a response filter
 fails

The close instruction was forgotten when a filter failed before the head was
sent, which left the connection open although too few threads were free.
---
 src/response.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 96679ad..f08dff6 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -677,6 +677,11 @@ impl<'a, 'b> Response<'a, 'b> {
             writer.headers_mut().remove::<::header::ContentLength>();
             writer.headers_mut().remove_raw("content-length");
 
+            //The head is also sent if a filter fails
+            if self.force_close {
+                writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+            }
+
             let (status, write_queue) = try!(filter_headers(
                 self.filters,
                 writer.status(),
@@ -797,6 +802,11 @@ impl<'a, 'b> Response<'a, 'b> {
         writer.headers_mut().remove::<::header::ContentLength>();
         writer.headers_mut().remove_raw("content-length");
 
+        //The head is also sent if a filter fails
+        if self.force_close {
+            writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+        }
+
         let writer = filter_headers(
             self.filters,
             writer.status(),
-- 
2.43.0


From 22b5edeb2e39773d3f6bd573fa236267e109b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:41 +0000
Subject: [PATCH 25/37] fix: don't overflow when more threads should be free
 than exist

---
 src/server/instance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 53b819e..5776988 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -161,7 +161,7 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
         ) = request.deconstruct();
 
         let force_close = if let Some(ref keep_alive) = self.keep_alive {
-            self.threads_in_use.load(Ordering::SeqCst) + keep_alive.free_threads > self.threads
+            self.threads_in_use.load(Ordering::SeqCst).saturating_add(keep_alive.free_threads) > self.threads
         } else {
             false
         };
-- 
2.43.0


From ee8d0bd9214eefa9f90eab62e594756e3669e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 26/37] fix: skip the unread rest of request bodies

Otherwise it was taken for the next request of a kept-alive connection.
---
 src/context/body.rs    | 11 +++++++++++
 src/server/instance.rs | 14 +++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 2d09c5c..859a55e 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -4,6 +4,7 @@
 use multipart::server::{HttpRequest, Multipart};
 
 use std::io::{self, Read};
+use std::thread;
 
 use hyper::buffer::BufReader;
 use hyper::http::h1::HttpReader;
@@ -190,6 +191,16 @@ impl<'a, 'b> Read for BodyReader<'a, 'b> {
     }
 }
 
+impl<'a, 'b> Drop for BodyReader<'a, 'b> {
+    ///Skips what is left of the body, since it would otherwise be taken for
+    ///the next request of the connection.
+    fn drop(&mut self) {
+        if !thread::panicking() {
+            let _ = io::copy(&mut self.reader, &mut io::sink());
+        }
+    }
+}
+
 ///A specialized request representation for the multipart interface.
 #[cfg(feature = "multipart")]
 pub struct MultipartRequest<'r, 'a: 'r, 'b: 'a> {
diff --git a/src/server/instance.rs b/src/server/instance.rs
index 5776988..e3b225e 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -166,6 +166,10 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
             false
         };
 
+        //What the handler leaves of the body is skipped when it's dropped. The
+        //response should not have to wait for that.
+        let body = context::body::BodyReader::from_reader(request_reader, &request_headers);
+
         let mut response = Response::new(writer, &self.response_filters, &self.global, force_close);
         response.headers_mut().set(Date(HttpDate(time::now_utc())));
         response.headers_mut().set(ContentType(self.content_type.clone()));
@@ -194,8 +198,6 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
                     });
                 }
 
-                let body = context::body::BodyReader::from_reader(request_reader, &request_headers);
-
                 let mut context = Context {
                     headers: request_headers,
                     http_version: request_version,
@@ -224,16 +226,18 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
                                 route_state: (&path[..]).into(),
                             });
 
-                            if let Err(mut environment) = result {
-                                if environment.response.status() == StatusCode::Ok {
-                                    environment.response.set_status(StatusCode::NotFound);
+                            if let Err(Environment { context: _context, mut response, .. }) = result {
+                                if response.status() == StatusCode::Ok {
+                                    response.set_status(StatusCode::NotFound);
                                 }
+                                drop(response);
                             }
                         }
                     },
                     ContextAction::Abort(status) => {
                         *response.filter_storage_mut() = filter_storage;
                         response.set_status(status);
+                        drop(response);
                     }
                 }
             },
-- 
2.43.0


From d5780a7152402a2f307000c25853c300a8add023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:43 +0000
Subject: [PATCH 27/37] fix: accept the data that is written to mock responses

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index f08dff6..6c22b20 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -483,7 +483,7 @@ impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::S
         if let MaybeMock::Actual(ref mut response) = *self {
             response.write(buffer)
         } else {
-            Ok(0)
+            Ok(buffer.len())
         }
     }
 
-- 
2.43.0


From 9c34550fd1bcef597a2f89c9b8b197c54abc5252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 28/37] fix: release the thread also when a panic comes from
 outside of the handler

---
 src/server/instance.rs | 51 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index e3b225e..e494b07 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -1,4 +1,6 @@
+use std::cell::RefCell;
 use std::net::SocketAddr;
+use std::sync::Arc;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::thread;
 
@@ -63,7 +65,7 @@ pub struct ServerInstance<R> {
 
     threads: usize,
     keep_alive: Option<KeepAlive>,
-    threads_in_use: AtomicUsize,
+    threads_in_use: Arc<AtomicUsize>,
 
     context_filters: Vec<Box<ContextFilter>>,
     response_filters: Vec<Box<ResponseFilter>>,
@@ -82,7 +84,7 @@ impl<R: HandleRequest + 'static> ServerInstance<R> {
             content_type: config.content_type,
             threads: config.threads.unwrap_or_else(|| (num_cpus::get() * 5) / 4),
             keep_alive: config.keep_alive,
-            threads_in_use: AtomicUsize::new(0),
+            threads_in_use: Arc::new(AtomicUsize::new(0)),
             context_filters: config.context_filters,
             response_filters: config.response_filters,
             global: config.global,
@@ -128,14 +130,47 @@ impl<R: HandleRequest + 'static> ServerInstance<R> {
 
 }
 
-//A panic ends the connection and its thread without further notice, so the
-//thread has to be released when the stack unwinds.
-struct ReleaseOnPanic<'a>(&'a AtomicUsize);
+//The connections of the current thread, as counters of threads in use. A panic
+//ends the connection and its thread without further notice, and it doesn't have
+//to come from here: hyper panics because of some invalid requests. What's left
+//is therefore released when the thread ends.
+struct Connections(Vec<Arc<AtomicUsize>>);
+
+thread_local!(static CONNECTIONS: RefCell<Connections> = RefCell::new(Connections(vec![])));
+
+impl Connections {
+    fn begin(threads_in_use: &Arc<AtomicUsize>) {
+        threads_in_use.fetch_add(1, Ordering::SeqCst);
+        CONNECTIONS.with(|connections| connections.borrow_mut().0.push(threads_in_use.clone()));
+    }
+
+    fn end(threads_in_use: &Arc<AtomicUsize>) {
+        CONNECTIONS.with(|connections| {
+            let mut connections = connections.borrow_mut();
+            if let Some(index) = connections.0.iter().rposition(|c| Arc::ptr_eq(c, threads_in_use)) {
+                connections.0.swap_remove(index);
+            }
+        });
+        threads_in_use.fetch_sub(1, Ordering::SeqCst);
+    }
+}
+
+impl Drop for Connections {
+    fn drop(&mut self) {
+        for threads_in_use in &self.0 {
+            threads_in_use.fetch_sub(1, Ordering::SeqCst);
+        }
+    }
+}
+
+//The client should not be able to see the end of the connection before its
+//thread is released, if that's possible.
+struct ReleaseOnPanic<'a>(&'a Arc<AtomicUsize>);
 
 impl<'a> Drop for ReleaseOnPanic<'a> {
     fn drop(&mut self) {
         if thread::panicking() {
-            self.0.fetch_sub(1, Ordering::SeqCst);
+            Connections::end(self.0);
         }
     }
 }
@@ -248,11 +283,11 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
     }
 
     fn on_connection_start(&self) {
-        self.threads_in_use.fetch_add(1, Ordering::SeqCst);
+        Connections::begin(&self.threads_in_use);
     }
 
     fn on_connection_end(&self) {
-        self.threads_in_use.fetch_sub(1, Ordering::SeqCst);
+        Connections::end(&self.threads_in_use);
     }
 }
 
-- 
2.43.0


From e182f5f276ccca9d28c84ec8e98a69ed7c526eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:03 +0000
Subject: [PATCH 29/37] fix: stop reading multipart forms without a last
 boundary

---
 src/context/body.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 859a55e..71c9140 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -148,7 +148,8 @@ impl<'a, 'b> BodyReader<'a, 'b> {
             self.multipart_boundary.as_ref().and_then(move |boundary|
                 Multipart::from_request(MultipartRequest {
                     boundary: boundary,
-                    reader: reader
+                    reader: reader,
+                    reads_at_end: 0
                 }).ok()
             )
         } else {
@@ -201,11 +202,18 @@ impl<'a, 'b> Drop for BodyReader<'a, 'b> {
     }
 }
 
+//The multipart parser keeps on reading when the last boundary is missing, so
+//it has to be told when it's enough. This is much more than what's needed for
+//reading the last part of a body, byte by byte.
+#[cfg(feature = "multipart")]
+const MAX_READS_AT_END: usize = 1 << 20;
+
 ///A specialized request representation for the multipart interface.
 #[cfg(feature = "multipart")]
 pub struct MultipartRequest<'r, 'a: 'r, 'b: 'a> {
     boundary: &'r str,
-    reader: &'r mut HttpReader<&'a mut BufReader<&'b mut NetworkStream>>
+    reader: &'r mut HttpReader<&'a mut BufReader<&'b mut NetworkStream>>,
+    reads_at_end: usize
 }
 
 #[cfg(feature = "multipart")]
@@ -225,7 +233,16 @@ impl<'r, 'a, 'b> HttpRequest for MultipartRequest<'r, 'a, 'b> {
 impl<'r, 'a, 'b> Read for MultipartRequest<'r, 'a, 'b> {
     ///Read the request body.
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        self.reader.read(buf)
+        let read = try!(self.reader.read(buf));
+
+        if read == 0 {
+            self.reads_at_end += 1;
+            if self.reads_at_end > MAX_READS_AT_END {
+                return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "the last multipart boundary is missing"));
+            }
+        }
+
+        Ok(read)
     }
 }
 
-- 
2.43.0


From b662afe2e8c11e5fb75d26a4126fffbdd037427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:06 +0000
Subject: [PATCH 30/37] fix: don't parse content types that aren't ASCII

---
 src/context/body.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 71c9140..61334ef 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -29,7 +29,7 @@ impl<'a, 'b> BodyReader<'a, 'b> {
         use header::ContentType;
         use mime::{Mime, TopLevel, SubLevel, Attr, Value};
 
-        let boundary = match headers.get() {
+        let boundary = match content_type(headers) {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
@@ -63,7 +63,7 @@ impl<'a, 'b> BodyReader<'a, 'b> {
         use header::ContentType;
         use mime::{Mime, TopLevel, SubLevel, Attr, Value};
 
-        let boundary = match headers.get() {
+        let boundary = match content_type(headers) {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
@@ -202,6 +202,16 @@ impl<'a, 'b> Drop for BodyReader<'a, 'b> {
     }
 }
 
+//Parsing a content type panics if there are certain characters in it that
+//aren't ASCII, and they aren't allowed in a boundary.
+#[cfg(feature = "multipart")]
+fn content_type(headers: &Headers) -> Option<&::header::ContentType> {
+    match headers.get_raw("Content-Type") {
+        Some(raw) if raw.iter().all(|value| value.is_ascii()) => headers.get(),
+        _ => None
+    }
+}
+
 //The multipart parser keeps on reading when the last boundary is missing, so
 //it has to be told when it's enough. This is much more than what's needed for
 //reading the last part of a body, byte by byte.
-- 
2.43.0


From ef799b3b29d417580a21d957c564670aafcc5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 31/37] fix: close the connection if a filter removes the
 header and a later one fails

---
 src/response.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 6c22b20..220c1cc 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -677,21 +677,20 @@ impl<'a, 'b> Response<'a, 'b> {
             writer.headers_mut().remove::<::header::ContentLength>();
             writer.headers_mut().remove_raw("content-length");
 
-            //The head is also sent if a filter fails
-            if self.force_close {
-                writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
-            }
-
-            let (status, write_queue) = try!(filter_headers(
+            let filtered = filter_headers(
                 self.filters,
                 writer.status(),
                 writer.headers_mut(),
                 self.global,
                 &mut filter_storage
-            ));
+            );
+
+            //The head is also sent if a filter fails
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
+
+            let (status, write_queue) = try!(filtered);
             *writer.status_mut() = status;
             for action in write_queue {
                 match action {
@@ -802,21 +801,20 @@ impl<'a, 'b> Response<'a, 'b> {
         writer.headers_mut().remove::<::header::ContentLength>();
         writer.headers_mut().remove_raw("content-length");
 
-        //The head is also sent if a filter fails
-        if self.force_close {
-            writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
-        }
-
-        let writer = filter_headers(
+        let filtered = filter_headers(
             self.filters,
             writer.status(),
             writer.headers_mut(),
             self.global,
             self.filter_storage_mut()
-        ).and_then(|(status, write_queue)|{
-            if self.force_close {
-                writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
-            }
+        );
+
+        //The head is also sent if a filter fails
+        if self.force_close {
+            writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+        }
+
+        let writer = filtered.and_then(|(status, write_queue)|{
             *writer.status_mut() = status;
             let mut writer = try!(writer.start());
 
-- 
2.43.0


From 1155b0d2540ff995c56d830cc05d8022d9a9f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 32/37] fix: apply the builder context to the items of a merged
 TreeRouter also without variable names

A TreeRouter that was merged in a scope without variable names, such as
inside another TreeRouter or through a MethodRouter builder, didn't pass the
builder context on to its items.
---
 src/handler/tree_router.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 5c310fa..b8810b1 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -357,16 +357,20 @@ impl<T: FromHandler<H>, H> FromHandler<H> for TreeRouter<T> {
 
 impl<T: ApplyContext> ApplyContext for TreeRouter<T> {
     fn apply_context(&mut self, mut context: BuilderContext) {
-        if let Some(VariableNames(variables)) = context.remove() {
+        let variables = context.remove::<VariableNames>();
+
+        if let Some(ref variables) = variables {
             let mut variable_context = BuilderContext::new();
-            variable_context.insert(VariableNames(variables.clone()));
+            variable_context.insert(variables.clone());
 
             self.item.prepend_context(variable_context);
-            self.item.apply_context(context.clone());
-
-            context.insert(VariableNames(variables));
         }
 
+        self.item.apply_context(context.clone());
+
+        if let Some(variables) = variables {
+            context.insert(variables);
+        }
 
         for (_, mut node) in &mut self.static_routes {
             node.apply_context(context.clone());
-- 
2.43.0


From 69b7781f9322db63f16c6eb79708bdfae1a01542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 33/37] fix: let Arc and boxed handlers describe themselves as
 the handler they hold

---
 src/handler/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handler/mod.rs b/src/handler/mod.rs
index f8bf982..96217c6 100644
--- a/src/handler/mod.rs
+++ b/src/handler/mod.rs
@@ -180,12 +180,20 @@ impl<T: Handler> Handler for Arc<T> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 impl Handler for Box<Handler> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 ///A request environment, containing the context, response and route state.
-- 
2.43.0


From 721710478abc89a537612036158ec25ad8227b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 34/37] fix: don't print while routers are merged, which panics
 when the output can't be written

---
 src/handler/method_router.rs | 2 --
 src/handler/tree_router.rs   | 1 -
 2 files changed, 3 deletions(-)

diff --git a/src/handler/method_router.rs b/src/handler/method_router.rs
index 69bfbcd..28977af 100644
--- a/src/handler/method_router.rs
+++ b/src/handler/method_router.rs
@@ -118,9 +118,7 @@ impl<T: ApplyContext> ApplyContext for MethodRouter<T> {
 
 impl<T: Merge> Merge for MethodRouter<T> {
     fn merge(&mut self, other: MethodRouter<T>) {
-        println!("merging {:} methods with {:} methods", self.handlers.len(), other.handlers.len());
         for (method, handler) in other.handlers {
-            println!("merging {:}", method);
             match self.handlers.entry(method) {
                 Entry::Vacant(entry) => { entry.insert(handler); },
                 Entry::Occupied(mut entry) => entry.get_mut().merge(handler),
diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index b8810b1..9207bec 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -407,7 +407,6 @@ impl<T: Merge> Merge for TreeRouter<T> {
         self.item.merge(other.item);
 
         for (key, other_node) in other.static_routes {
-            println!("merging {:}", key.as_utf8_lossy());
             match self.static_routes.entry(key) {
                 Vacant(entry) => { entry.insert(other_node); },
                 Occupied(mut entry) => entry.get_mut().merge(other_node)
-- 
2.43.0


From 3a71c2b9e7df20742af9f2fca4116f36477d016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 35/37] fix: don't send the body of a response to a HEAD
 request

---
 src/server/instance.rs | 57 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index e494b07..878ff58 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -1,4 +1,5 @@
 use std::cell::RefCell;
+use std::io::{self, Write};
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -14,6 +15,7 @@ use url::Url;
 use hyper;
 use hyper::server::Handler as HyperHandler;
 use hyper::header::{Date, ContentType};
+use hyper::method::Method;
 use hyper::mime::Mime;
 use hyper::uri::RequestUri;
 
@@ -175,6 +177,53 @@ impl<'a> Drop for ReleaseOnPanic<'a> {
     }
 }
 
+//Leaves everything that comes after the head of the response, if it's the
+//response to a HEAD request.
+struct HeadWriter<'a> {
+    writer: &'a mut (Write + 'a),
+    head_only: bool,
+    matched: usize
+}
+
+impl<'a> HeadWriter<'a> {
+    fn new(writer: &'a mut (Write + 'a), head_only: bool) -> HeadWriter<'a> {
+        HeadWriter {
+            writer: writer,
+            head_only: head_only,
+            matched: 0
+        }
+    }
+}
+
+impl<'a> Write for HeadWriter<'a> {
+    fn write(&mut self, content: &[u8]) -> io::Result<usize> {
+        if !self.head_only {
+            return self.writer.write(content);
+        }
+
+        let end = b"\r\n\r\n";
+        let mut length = 0;
+
+        while length < content.len() && self.matched < end.len() {
+            self.matched = if content[length] == end[self.matched] {
+                self.matched + 1
+            } else if content[length] == end[0] {
+                1
+            } else {
+                0
+            };
+            length += 1;
+        }
+
+        try!(self.writer.write_all(&content[..length]));
+        Ok(content.len())
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.writer.flush()
+    }
+}
+
 struct ParsedUri {
     host: Option<(String, Option<u16>)>,
     uri_path: UriPath,
@@ -205,6 +254,14 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
         //response should not have to wait for that.
         let body = context::body::BodyReader::from_reader(request_reader, &request_headers);
 
+        //The response to a HEAD request has no body, no matter what the handler
+        //and the filters write.
+        let (response_version, writer, status, response_headers) = writer.deconstruct();
+        let mut writer = HeadWriter::new(writer.into_inner(), request_method == Method::Head);
+        let mut writer = hyper::server::response::Response::new(&mut writer, response_headers);
+        writer.version = response_version;
+        *writer.status_mut() = status;
+
         let mut response = Response::new(writer, &self.response_filters, &self.global, force_close);
         response.headers_mut().set(Date(HttpDate(time::now_utc())));
         response.headers_mut().set(ContentType(self.content_type.clone()));
-- 
2.43.0


From 6c333cc11dc5c53c89b8d1deaf149c58e37a5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 36/37] fix: don't complete the response of a handler that
 panics

---
 src/response.rs | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 220c1cc..434de73 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -34,6 +34,7 @@
 use std;
 use std::io::{self, Write, Seek, SeekFrom};
 use std::error;
+use std::thread;
 use std::borrow::Cow;
 use std::convert::From;
 use std::str::{from_utf8, Utf8Error};
@@ -476,6 +477,16 @@ impl<'a> MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>
             Ok(())
         }
     }
+
+    //Leave the response as it is, without ending it, which hyper would do if
+    //it was dropped. There can't be any other responses after that.
+    fn abandon(self) {
+        if let MaybeMock::Actual(response) = self {
+            let (_, mut writer, _, headers) = response.deconstruct();
+            let _ = writer.flush();
+            headers.set(Connection(vec![ConnectionOption::Close]));
+        }
+    }
 }
 
 impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>> {
@@ -862,7 +873,8 @@ impl<'a, 'b> Response<'a, 'b> {
 impl<'a, 'b> Drop for Response<'a, 'b> {
     ///Writes status code and headers and closes the connection.
     fn drop(&mut self) {
-        if self.writer.is_some() {
+        //Hyper responds with "internal server error" after a panic.
+        if self.writer.is_some() && !thread::panicking() {
             self.send_sized(&[][..]);
         }
     }
@@ -980,11 +992,15 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = match self.writer.take() {
+        let writer = match self.writer.take() {
             Some(writer) => try!(writer),
             None => return Ok(()) //It has already failed or ended
         };
-        let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
+
+        let mut unfinished = AbandonOnPanic(Some(writer));
+        let filtered = filter_end(self.filters, self.global, &mut self.filter_storage);
+        let mut writer = unfinished.0.take().expect("response used after drop");
+        let write_queue = try!(filtered);
 
         for action in write_queue {
             try!{
@@ -1030,12 +1046,29 @@ impl<'a, 'b> Write for Chunked<'a, 'b> {
 impl<'a, 'b> Drop for Chunked<'a, 'b> {
     ///Finishes writing and closes the connection.
     fn drop(&mut self) {
-        if self.writer.is_some() {
+        if thread::panicking() {
+            if let Some(Ok(writer)) = self.writer.take() {
+                writer.abandon();
+            }
+        } else if self.writer.is_some() {
             self.finish();
         }
     }
 }
 
+//A response should not look like it's complete if a filter panics.
+struct AbandonOnPanic<'a>(Option<MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>>);
+
+impl<'a> Drop for AbandonOnPanic<'a> {
+    fn drop(&mut self) {
+        if let Some(writer) = self.0.take() {
+            if thread::panicking() {
+                writer.abandon();
+            }
+        }
+    }
+}
+
 ///A streaming fixed-size response.
 ///
 ///Everything is written directly to the network stream, without being
-- 
2.43.0


From ef15a6df038a75fa3f28e7ad2dcb87a8deb1a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:22 +0000
Subject: [PATCH 37/37] fix: don't keep the connection of a file that became
 shorter while it was sent

---
 src/response.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 434de73..ff964af 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -32,7 +32,7 @@
 //![raw]: struct.Raw.html
 
 use std;
-use std::io::{self, Write, Seek, SeekFrom};
+use std::io::{self, Read, Write, Seek, SeekFrom};
 use std::error;
 use std::thread;
 use std::borrow::Cow;
@@ -373,7 +373,17 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
         };
 
         let mut writer = unsafe { response.into_raw(length) };
-        io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
+        let error = match io::copy(&mut self.take(length), &mut writer) {
+            Ok(sent) if sent == length => return Ok(()),
+            Ok(_) => io::Error::new(io::ErrorKind::UnexpectedEof, "the file became shorter"),
+            Err(e) => e,
+        };
+
+        //Nothing is missing if there was no room for it
+        if error.kind() != io::ErrorKind::WriteZero {
+            writer.abandon();
+        }
+        Err(FileError::Send(error))
     }
 }
 
@@ -1144,6 +1154,13 @@ impl<'a> Raw<'a> {
         writer.end()
     }
 
+    //Leave a response that is too short.
+    fn abandon(mut self) {
+        if let Some(Ok(writer)) = self.writer.take() {
+            writer.abandon();
+        }
+    }
+
     fn borrow_writer(&mut self) -> io::Result<&mut MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>> {
         match self.writer {
             Some(Ok(ref mut writer)) => Ok(writer),
-- 
2.43.0

