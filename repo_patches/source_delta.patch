From a46826b29f994c72351d340ba68c990cd79a0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 01/18] fix: tokenizer panics on trailing whitespace and on a
 string at the end of the query

---
 server/src/analysis/tokenizer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index ea50b7e..8ac2e53 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -57,9 +57,6 @@ impl Tokenizer {
 
     /// Retrieve the next token
     fn get_next_token(&mut self) -> Result<Token, ServerError> {
-        while self.view().is_whitespace() {
-            self.advance();
-        }
         self.token_start_index = self.current_index;
         let next_char = self.view();
         
@@ -100,6 +97,14 @@ impl Tokenizer {
     fn is_at_end(&self) -> bool {
         self.current_index >= self.command.len()
     }
+
+    /// Move past any whitespace at the current position
+    fn skip_whitespace(&mut self) {
+        while !self.is_at_end() && self.view().is_whitespace() {
+            self.advance();
+        }
+    }
+
     /// Consume a character, move to the next one, and return
     fn view(&mut self) -> char {
         self.command[self.current_index]
@@ -191,7 +196,7 @@ impl Tokenizer {
                 char_vec.push(next_char);
             }
         }
-        if !is_valid_literal_end_char(self.view()) {
+        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) {
             return Err(
                 ServerError::TokenizationError(
                     "Invalid character found at the end of a string.".to_string()
@@ -236,6 +241,7 @@ impl Tokenizer {
 impl Iterator for Tokenizer {
     type Item = Result<AnnotatedToken, ServerError>;
     fn next(&mut self) -> Option<Self::Item> {
+        self.skip_whitespace();
         if self.is_at_end() | self.error_detected {
             return None
         }
-- 
2.43.0


From 327b50056f5df9be0b8226b46028074b3d02185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 02/18] fix: parser panics when a query ends inside a statement

---
 server/src/analysis/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index afb409a..2ebb87d 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -116,6 +116,9 @@ impl Parser {
     fn process_identifier_statement<F>(&mut self, f: F) -> Result<Statement, ServerError>
     where F: Fn(&String) -> Statement
     {
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Expected an identifier instead of the end of the query.".to_string()));
+        }
         let next_token = self.advance();
         
         match &next_token.token {
@@ -375,7 +378,7 @@ impl Parser {
             self.advance();
             let key_type = get_key_type(&type_token.token)?;
             let collection_type = get_collection_type(&next_token.token)?;
-            let map = if self.is_at_statement_end() | (self.view().token != Token::LeftCurlyBracket) {
+            let map = if self.is_at_statement_end() || (self.view().token != Token::LeftCurlyBracket) {
                 StorageValue::Map(StorageMap::new(key_type, collection_type))
             } else {
                 self.get_map_value(key_type, collection_type)?
@@ -433,6 +436,9 @@ impl Parser {
         let mut value = StorageVector::new(collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
+        }
         if let Token::RightBracket = self.view().token {
             return Ok(StorageValue::Vector(value));
         }
@@ -459,6 +465,9 @@ impl Parser {
         let mut value = StorageMap::new(key_type, collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+        }
         if let Token::RightCurlyBracket = self.view().token {
             return Ok(StorageValue::Map(value));
         }
@@ -476,6 +485,9 @@ impl Parser {
             if let Err(_) = value.set(element_key, element_value) {
                 return Err(ServerError::ParseError("Could not add element to map.".to_string()));
             }
+            if self.is_at_end() {
+                return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+            }
             if let Token::RightCurlyBracket = self.view().token {
                 break;
             } else if let Token::Comma = self.view().token {
-- 
2.43.0


From 7be336f87497e9eaf5a50140ce94acaddb1f78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 03/18] fix: empty vector and map literals leave their closing
 bracket unparsed

---
 server/src/analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 2ebb87d..1c4817c 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -440,6 +440,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
         }
         if let Token::RightBracket = self.view().token {
+            self.advance(); // ]
             return Ok(StorageValue::Vector(value));
         }
 
@@ -469,6 +470,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
         }
         if let Token::RightCurlyBracket = self.view().token {
+            self.advance(); // }
             return Ok(StorageValue::Map(value));
         }
 
-- 
2.43.0


From 33ffef59c1e766999fe8bb9fd197b20616a23930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 04/18] fix: tokenizer lowercases the contents of string
 literals

---
 server/src/analysis/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 8ac2e53..e45b1e1 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -31,7 +31,6 @@ pub struct Tokenizer {
 impl Tokenizer {
     /// Build a new tokenizer
     pub fn new(command: &str) -> Tokenizer {
-        let command = command.to_lowercase();
         let command = Vec::from_iter(command.chars());
         Tokenizer {
             command,
@@ -229,7 +228,8 @@ impl Tokenizer {
             }
 
         }
-        let token_string: String = char_vec.into_iter().collect();
+        // Keywords and identifiers are not case sensitive
+        let token_string = String::from_iter(char_vec).to_lowercase();
         let token = match get_word_to_token_map().get(&token_string) {
             Some(keyword_token) => keyword_token.clone(),
             None => Token::Identifier(Box::new(token_string)),
-- 
2.43.0


From f930ab0dbeb6d517c0c54c5a96ecfb69742ac3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 05/18] fix: set_if_not_exists treats an expired entry as
 existing

---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 70a1375..a1f2de4 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -180,7 +180,7 @@ impl Storage for HashMapStorage {
     fn set_if_not_exists(
         &mut self, key: &str, value: StorageElement
     ) -> Result<bool, ServerError> {
-        if self.storage.contains_key(key) {
+        if self.contains_key(key)? {
             Ok(false)
         } else {
             match self.set(key, value) {
-- 
2.43.0


From 13fa48c9ac549ba893c8a1d01f885e124f42afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 06/18] fix: sweeping an expired entry leaves its key in the
 expiring keys

---
 server/src/storage/hashmap_storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index a1f2de4..e2726f7 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -256,9 +256,10 @@ impl Storage for HashMapStorage {
             None => return Err(ServerError::KeyError(format!("Key {} not found.", key))),
         };
         if item.element.is_expired() {
-            match self.storage.remove(key) {
-                _ => Ok(true),
+            if let Some(HashMapContainer{key_index: Some(index), ..}) = self.storage.remove(key) {
+                self.invalidate_key_index(index);
             }
+            Ok(true)
         } else {
             Ok(false)
         }
-- 
2.43.0


From 8e87dacadff5ac8587b8a542cb850447550134e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 07/18] fix: lifetimes too large for the clock panic instead of
 failing

---
 server/src/analysis/interpreter.rs | 31 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/server/src/analysis/interpreter.rs b/server/src/analysis/interpreter.rs
index 3e22f20..855884b 100644
--- a/server/src/analysis/interpreter.rs
+++ b/server/src/analysis/interpreter.rs
@@ -80,6 +80,17 @@ pub enum InterpreterResponse {
     Null,
 }
 
+/// Convert a lifetime in seconds into the time at which it ends
+fn make_expiration(lifetime: Option<u64>) -> Result<Option<SystemTime>, ServerError> {
+    match lifetime {
+        None => Ok(None),
+        Some(time) => match SystemTime::now().checked_add(Duration::from_secs(time)) {
+            Some(expiration) => Ok(Some(expiration)),
+            None => Err(ServerError::IndexError(format!("Lifetime of {} seconds is too large.", time))),
+        },
+    }
+}
+
 /// An interpreter backed by some storage 
 pub struct Interpreter<S: Storage + Send> {
     /// The underlying storage to communicate with
@@ -225,10 +236,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = make_expiration(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.set(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -238,10 +246,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn set_if_not_exists(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = make_expiration(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         let result = self.storage.set_if_not_exists(key, element)?;
         Ok(InterpreterResponse::Bool(result))
@@ -251,10 +256,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update(
         &mut self, key: &StorageKey, value: StorageValue, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = make_expiration(expiration)?;
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.update(key, element)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -264,10 +266,7 @@ impl<S: Storage + Send> Interpreter<S> {
     fn update_expiration(
         &mut self, key: &StorageKey, expiration: Option<u64>
     ) -> Result<InterpreterResponse, ServerError> {
-        let expiration = match expiration {
-            None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
-        };
+        let expiration = make_expiration(expiration)?;
         self.storage.update_expiration(key, expiration)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
     }
-- 
2.43.0


From c145854d223ebdd9abac5147461ba4292a9edcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 08/18] fix: simple server shuts down although the shutdown
 command was not executed

---
 server/src/single_threaded.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 61a0f50..0d7ff8f 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use crate::auth::{AuthenticationResult, AuthenticationService, MockAuthenticator};
 use crate::error::ServerError;
 use crate::io::stream::{StreamHandler, StreamRequest};
-use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
+use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Tokenizer};
 use crate::storage::hashmap_storage::HashMapStorage;
 use crate::storage::Storage;
 
@@ -84,15 +84,13 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             return (Err(error), false)
         }
         let statements = statements.unwrap();
-        let mut shut_down = false;
-        for statement in statements.iter() {
-            if let Statement::Shutdown = statement {
-                shut_down = true;
-                break;
-            }
-        }
         let int_request = InterpreterRequest{statements, authorization};
         let result = self.interpreter.interpret(int_request);
+        let shut_down = if let Ok(InterpreterResponse::ShuttingDown) = result {
+            true
+        } else {
+            false
+        };
         (result, shut_down)
     }
 }
-- 
2.43.0


From 95ece6721d16f6e480a083a3744e2715d3ed371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 09/18] fix: reading a request loops forever when the client
 closes the connection early

---
 server/src/io/tcp.rs       | 7 +++++++
 server/src/io/tcp_async.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8696881..7db8c28 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -126,6 +126,13 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Connection closed before the end of the request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 69c19bd..07fd077 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -137,6 +137,13 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Connection closed before the end of the request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
-- 
2.43.0


From 3defbdbad557861a9ec68a842577e0e68d59f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 10/18] fix: requests whose head arrives in several segments
 are refused

---
 server/src/io/tcp.rs       | 5 +++--
 server/src/io/tcp_async.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 7db8c28..fd44814 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -136,8 +136,9 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
-            _ => return StreamRequest {
-                request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
+            Ok(Status::Partial) => continue,
+            Err(_) => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
                 headers,
                 sender: Some(Box::new(TcpStreamSender{stream})),
             },
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 07fd077..c4ac005 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -147,8 +147,9 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
-            _ => return StreamRequest {
-                request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
+            Ok(Status::Partial) => continue,
+            Err(_) => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
                 headers,
                 sender: Some(TcpStreamSender{stream}),
             },
-- 
2.43.0


From 27aae486a6d9ea17f56bc8e66c4dd94f661625ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 11/18] fix: requests without a content length are never
 answered

---
 server/src/io/tcp.rs       | 6 +++++-
 server/src/io/tcp_async.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index fd44814..4048cd7 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -154,7 +154,11 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Missing content length.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            },
             Some(body_length) => body_length,
         };
         if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index c4ac005..1fdaab1 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -165,7 +165,11 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Missing content length.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            },
             Some(body_length) => body_length,
         };
         if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
-- 
2.43.0


From 685b88e61f5d03751a82617041bbe024703a06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 12/18] fix: an absurd content length panics instead of being
 refused

---
 server/src/io/tcp.rs       | 12 ++++++++++--
 server/src/io/tcp_async.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 4048cd7..834c7bd 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -161,7 +161,15 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        let body_end = match body_start.checked_add(body_length) {
+            Some(body_end) => body_end,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            },
+        };
+        if body_end <= buffer.len() {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
@@ -171,7 +179,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..(body_start + body_length)]);
+            let body = String::from_utf8_lossy(&buffer[body_start..body_end]);
 
             break (headers, body);
         }
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 1fdaab1..da37b8b 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -172,7 +172,15 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        let body_end = match body_start.checked_add(body_length) {
+            Some(body_end) => body_end,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            },
+        };
+        if body_end <= buffer.len() {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
@@ -182,7 +190,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..(body_start + body_length)]);
+            let body = String::from_utf8_lossy(&buffer[body_start..body_end]);
 
             break (headers, body);
         }
-- 
2.43.0


From 28d608ecee75c54a7806291cea08f563bacad621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 13/18] fix: content length header is only found in one
 capitalisation

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 834c7bd..8147cd1 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -65,7 +65,7 @@ impl StreamSender for TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index da37b8b..acc54aa 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -76,7 +76,7 @@ impl TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
-- 
2.43.0


From 83e9534cb28192c4ebb86f5a8f327069476c2275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 14/18] fix: replies may be cut off by a short write

---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8147cd1..f6b2229 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -50,7 +50,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.write(http_bytes) {
+        if let Err(_) = self.stream.write_all(http_bytes) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index acc54aa..2dccf3e 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -61,7 +61,7 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write(http_bytes).await {
+        if let Err(_) = self.stream.write_all(http_bytes).await {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush().await {
-- 
2.43.0


From abf311dd5ede752ef601e5427751df5fe1862d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 15/18] fix: simple server reports unreadable requests as
 internal errors

---
 server/src/single_threaded.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 0d7ff8f..434e792 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -47,6 +47,10 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
     
     /// Handle a single stream request to the server. 
     fn handle_request(&mut self, request: Result<String, ServerError>, headers: HashMap<String, String>) -> (Result<InterpreterResponse, ServerError>, bool) {
+        if let Err(error) = &request {
+            return (Err(error.clone()), false);
+        }
+        let request_string = request.unwrap();
         let authentication = self.authenticator.authenticate(&headers);
         let (username, authorization)= match authentication {
             Ok(AuthenticationResult::Authenticated(username, level)) => (username, level),
@@ -67,10 +71,6 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             },
             Some(auth) => auth,
         };
-        if let Err(error) = &request {
-            return (Err(error.clone()), false);
-        }
-        let request_string = request.unwrap();
 
         let mut tokenizer = Tokenizer::new(&request_string);
         let tokens = tokenizer.tokenize();
-- 
2.43.0


From f58e34501b1d22cda2a6517826577167fa79142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 16/18] fix: replies holding a map panic because its keys are
 not strings

---
 server/src/storage/types.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/server/src/storage/types.rs b/server/src/storage/types.rs
index 2196c63..ea32a60 100644
--- a/server/src/storage/types.rs
+++ b/server/src/storage/types.rs
@@ -238,10 +238,33 @@ impl StorageVector {
 
 
 
+/// Maps are serialized as lists of (key, value) pairs since their keys are not plain strings
+mod map_entries {
+    use std::collections::HashMap;
+
+    use serde::{Deserialize, Deserializer, Serializer};
+
+    use super::StorageValue;
+
+    pub fn serialize<S: Serializer>(
+        map: &HashMap<StorageValue, StorageValue>, serializer: S
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(map)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D
+    ) -> Result<HashMap<StorageValue, StorageValue>, D::Error> {
+        let entries: Vec<(StorageValue, StorageValue)> = Vec::deserialize(deserializer)?;
+        Ok(entries.into_iter().collect())
+    }
+}
+
 /// A map object that can be saved in the key value store
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct StorageMap {
     /// The raw map to be accessed
+    #[serde(with = "map_entries")]
     map: HashMap<StorageValue, StorageValue>,
     /// The type of key to be used
     pub key_type: KeyType,
-- 
2.43.0


From 8e8a400da697265800881825166e27c41b31d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 17/18] fix: async listener dies when a request is dropped
 without an answer

---
 server/src/async.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/src/async.rs b/server/src/async.rs
index f25cdb2..95f8b68 100644
--- a/server/src/async.rs
+++ b/server/src/async.rs
@@ -80,7 +80,10 @@ async fn listen_for_requests(analysis_sender: AnalysisSender) {
             continue;
 
         }
-        let response = job_receiver.recv().await.unwrap();
+        let response = match job_receiver.recv().await {
+            Some(response) => response,
+            None => Err(ServerError::InternalError("Request was dropped before it was answered.".to_string())),
+        };
         send_response_to_client(sender, response).await;
 
 
-- 
2.43.0


From f057d5d0829ba26870186e03403f542ef34a20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:35 +0000
Subject: [PATCH 18/18] fix: refuse request bodies that are not valid UTF-8
 instead of altering them

---
 server/src/io/tcp.rs       | 9 ++++++++-
 server/src/io/tcp_async.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index f6b2229..fe51ae0 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -179,7 +179,14 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..body_end]);
+            let body = match std::str::from_utf8(&buffer[body_start..body_end]) {
+                Ok(body) => body.to_string(),
+                Err(_) => return StreamRequest {
+                    request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                    headers,
+                    sender: Some(Box::new(TcpStreamSender{stream})),
+                },
+            };
 
             break (headers, body);
         }
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 2dccf3e..f135113 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -190,7 +190,14 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 }
             }
             headers = convert_headers_to_map(&request);
-            let body = String::from_utf8_lossy(&buffer[body_start..body_end]);
+            let body = match std::str::from_utf8(&buffer[body_start..body_end]) {
+                Ok(body) => body.to_string(),
+                Err(_) => return StreamRequest {
+                    request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                    headers,
+                    sender: Some(TcpStreamSender{stream}),
+                },
+            };
 
             break (headers, body);
         }
-- 
2.43.0

