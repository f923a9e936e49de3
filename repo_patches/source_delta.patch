From 4082fb411f24c271fff401673afeba902386e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 01/43] fix: a `!` after an expression no longer makes the
 parser loop forever

---
 lib/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index bd473eb..38944e7 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -142,7 +142,7 @@ impl Parser {
                     self.next_token();
                     self.parse_field_expr(left)?
                 }
-                _ => left,
+                _ => break,
             };
         }
         Ok(left)
-- 
2.43.0


From 1b1abcf835295dd58106d50e394e158cb064ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 02/43] fix: exprs nested too deeply are a parse error instead
 of a stack overflow

---
 lib/src/parser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index 38944e7..a9c2f47 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -10,9 +10,13 @@ pub struct Source {
     pub tests: HashMap<String, Vec<Expr>>,
 }
 
+/// How deeply exprs may nest, parsing and evaluating a deeper one could overflow the stack
+const MAX_DEPTH: usize = 128;
+
 pub struct Parser {
     tokens: Vec<Token>,
     index: usize,
+    depth: usize,
 }
 
 impl Parser {
@@ -20,6 +24,16 @@ impl Parser {
         Parser {
             tokens: lexer::segment(text),
             index: usize::MIN,
+            depth: usize::MIN,
+        }
+    }
+
+    fn descend(&mut self) -> Result<(), String> {
+        self.depth += 1;
+        if self.depth > MAX_DEPTH {
+            Err(format!("parse expr error: nested deeper than {}", MAX_DEPTH))
+        } else {
+            Ok(())
         }
     }
 
@@ -90,6 +104,8 @@ impl Parser {
     }
 
     fn parse_expr(&mut self, mut precedence: u8) -> Result<Expr, String> {
+        let depth = self.depth;
+        self.descend()?;
         let mut left = match self.current_token().kind {
             Kind::Ident => self.parse_ident_expr(),
             Kind::Integer => self.parse_integer_literal()?,
@@ -108,6 +124,7 @@ impl Parser {
             _ => Err(format!("parse expr error: {}", self.current_token()))?,
         };
         while !self.peek_token_is(Kind::Semi) && precedence < self.peek_precedence() {
+            self.descend()?;
             left = match self.peek_token() {
                 Some(Token { kind: Kind::Add, .. })
                 | Some(Token { kind: Kind::Sub, .. })
@@ -145,6 +162,7 @@ impl Parser {
                 _ => break,
             };
         }
+        self.depth = depth;
         Ok(left)
     }
 
-- 
2.43.0


From dc8c8c9ba069024181e839e6564463d97938b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 03/43] fix: integer overflow and division by zero are eval
 errors instead of panics

---
 lib/src/evaluator.rs |  5 ++++-
 lib/src/value.rs     | 37 ++++++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index f638c12..72e4734 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -117,7 +117,10 @@ fn eval_unary_expr(token: &Token, right: &Expr, context: &mut Context) -> Result
         (Kind::Not, Value::Boolean(false)) | (Kind::Not, Value::Null) => Ok(Value::Boolean(true)),
         (Kind::Not, Value::Integer(integer)) => Ok(Value::Integer(!integer)),
         (Kind::Not, _) => Ok(Value::Boolean(false)),
-        (Kind::Sub, Value::Integer(integer)) => Ok(Value::Integer(-integer)),
+        (Kind::Sub, Value::Integer(integer)) => match integer.checked_neg() {
+            Some(integer) => Ok(Value::Integer(integer)),
+            None => Err(format!("integer overflow: -{}", integer)),
+        },
         (Kind::Sub, Value::Float(float)) => Ok(Value::Float(-float)),
         (_, right) => Err(format!("unknown operator: {}{:?}", token, right)),
     }
diff --git a/lib/src/value.rs b/lib/src/value.rs
index f3b8d00..9c4e77e 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -42,7 +42,10 @@ impl Add for Value {
     type Output = std::result::Result<Self, String>;
     fn add(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left + right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_add(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} + {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left + right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 + right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left + right as f64)),
@@ -56,7 +59,10 @@ impl Sub for Value {
     type Output = std::result::Result<Self, String>;
     fn sub(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left - right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_sub(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} - {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left - right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 - right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left - right as f64)),
@@ -69,7 +75,10 @@ impl Mul for Value {
     type Output = std::result::Result<Self, String>;
     fn mul(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left * right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_mul(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} * {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left * right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 * right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left * right as f64)),
@@ -82,7 +91,11 @@ impl Div for Value {
     type Output = std::result::Result<Self, String>;
     fn div(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left / right)),
+            (Value::Integer(left), Value::Integer(0)) => Err(format!("division by zero: {} / 0", left)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_div(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} / {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left / right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 / right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left / right as f64)),
@@ -95,7 +108,11 @@ impl Rem for Value {
     type Output = std::result::Result<Self, String>;
     fn rem(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left % right)),
+            (Value::Integer(left), Value::Integer(0)) => Err(format!("division by zero: {} % 0", left)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_rem(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} % {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left % right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 % right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left % right as f64)),
@@ -138,7 +155,10 @@ impl Shl for Value {
     type Output = std::result::Result<Self, String>;
     fn shl(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left << right)),
+            (Value::Integer(left), Value::Integer(right)) => match u32::try_from(right).ok().and_then(|right| left.checked_shl(right)) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("shift overflow: {} << {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} << {}", left, right)),
         }
     }
@@ -148,7 +168,10 @@ impl Shr for Value {
     type Output = std::result::Result<Self, String>;
     fn shr(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left >> right)),
+            (Value::Integer(left), Value::Integer(right)) => match u32::try_from(right).ok().and_then(|right| left.checked_shr(right)) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("shift overflow: {} >> {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} >> {}", left, right)),
         }
     }
-- 
2.43.0


From 8ee0fe51071057b6bdf2705416679cdfa9022a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 04/43] fix: the reason of a response keeps all of its words

---
 lib/src/http/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 2e9224d..96a6ec8 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -37,7 +37,7 @@ impl Response {
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
-        let reason = parse::<String>(splits.next());
+        let reason = splits.collect::<Vec<&str>>().join(" ");
         // headers
         let mut headers = Headers::default();
         loop {
-- 
2.43.0


From efd16fa81c3655fffb633d944cb4fa15a5a0e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 05/43] fix: a url whose path or query contains :// keeps all
 of it

---
 lib/src/http/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index bba5999..3919aec 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -9,7 +9,7 @@ pub struct Url {
 
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
-        let mut splits = str.split("://");
+        let mut splits = str.splitn(2, "://");
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-- 
2.43.0


From 342f0007ad3d0734ae4bc407b7dbea6b36a1ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 06/43] fix: a query or fragment right after the authority is
 not part of the host

---
 lib/src/http/url.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 3919aec..a2de815 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -13,17 +13,22 @@ impl std::convert::From<&str> for Url {
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-                let (host, path) = if let Some(i) = str.find('/') {
+                let (host, path) = if let Some(i) = str.find(['/', '?', '#']) {
                     (&str[..i], &str[i..])
                 } else {
                     (str, "/")
                 };
+                let path = if path.starts_with('/') {
+                    path.to_string()
+                } else {
+                    format!("/{}", path)
+                };
                 let (host, port) = if let Some(j) = host.find(':') {
                     (&host[..j], host[j + 1..].parse::<u16>().ok())
                 } else {
                     (host, None)
                 };
-                (host.to_string(), port, path.to_string())
+                (host.to_string(), port, path)
             }
             None => ("localhost".to_string(), None, "/".to_string()),
         };
-- 
2.43.0


From da6ba0cf054e145266bbe594793b2716d9742ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 07/43] fix: the scheme of a url is case insensitive, HTTPS://
 does not fall back to plain http

---
 lib/src/http/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index a2de815..28e4e07 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -10,7 +10,7 @@ pub struct Url {
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
         let mut splits = str.splitn(2, "://");
-        let scheme = Scheme::from(splits.next());
+        let scheme = Scheme::from(splits.next().map(str::to_lowercase).as_deref());
         let (host, port, path) = match splits.next() {
             Some(str) => {
                 let (host, path) = if let Some(i) = str.find(['/', '?', '#']) {
-- 
2.43.0


From 86104fbe4a1020dadd2a1f32f353ebe3395cc19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 08/43] fix: a recorded url keeps its port

---
 lib/src/http/url.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 28e4e07..a47c56a 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -65,7 +65,10 @@ impl Default for Url {
 
 impl std::fmt::Display for Url {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}://{}{}", self.scheme, self.host, self.path)
+        match (&self.scheme, self.port) {
+            (Scheme::Http, 80) | (Scheme::Https, 443) => write!(f, "{}://{}{}", self.scheme, self.host, self.path),
+            _ => write!(f, "{}://{}:{}{}", self.scheme, self.host, self.port, self.path),
+        }
     }
 }
 
-- 
2.43.0


From ff873a7451d29ccc2596afc63d13110b6ddb2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 09/43] fix: a url can have an ipv6 address as its host

---
 lib/src/http/stream.rs | 2 +-
 lib/src/http/url.rs    | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/http/stream.rs b/lib/src/http/stream.rs
index decbe3e..83a89de 100644
--- a/lib/src/http/stream.rs
+++ b/lib/src/http/stream.rs
@@ -29,7 +29,7 @@ pub enum Stream {
 
 impl Stream {
     pub fn connect(url: &Url, connect_tiomeout: Option<Duration>, read_tiomeout: Option<Duration>) -> Result<Self, Error> {
-        let host = url.host.as_str();
+        let host = url.host.trim_start_matches('[').trim_end_matches(']');
         let port = url.port;
 
         match url.scheme {
diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index a47c56a..ed37ec1 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -23,8 +23,10 @@ impl std::convert::From<&str> for Url {
                 } else {
                     format!("/{}", path)
                 };
-                let (host, port) = if let Some(j) = host.find(':') {
-                    (&host[..j], host[j + 1..].parse::<u16>().ok())
+                // the colons of an ipv6 address are inside brackets
+                let end = host.find(']').unwrap_or_default();
+                let (host, port) = if let Some(j) = host[end..].find(':') {
+                    (&host[..end + j], host[end + j + 1..].parse::<u16>().ok())
                 } else {
                     (host, None)
                 };
-- 
2.43.0


From 08ca612731966137de2d85dd48d1f6a619bdf415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 10/43] fix: the lines of a request body are not glued together

---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index f0cb496..7506087 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -79,7 +79,7 @@ impl Request {
                     }
                 }
                 _ => {
-                    body = String::from_iter(lines);
+                    body = lines.collect::<Vec<&str>>().join("\n");
                     if body.trim().is_empty() {
                         content = Content::Empty;
                     } else {
-- 
2.43.0


From f83151d96293cdabf234ca4847c5023235b5671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 11/43] fix: names and values of a form body are trimmed like
 those of headers and multipart

---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 7506087..8f4d956 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -54,7 +54,7 @@ impl Request {
                     let mut serializer = form_urlencoded::Serializer::new(String::default());
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
-                            serializer.append_pair(name, value);
+                            serializer.append_pair(name.trim(), value.trim());
                             body.push_str(line);
                         }
                     }
-- 
2.43.0


From 42bedfbbf95ab81eb6a39aae9725ff4549006fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 12/43] fix: a request body is framed by its content length,
 and a multipart one by its boundary

---
 lib/src/http/content.rs | 18 +++++++++++-------
 lib/src/http/request.rs | 21 ++++++++++++++++++---
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/lib/src/http/content.rs b/lib/src/http/content.rs
index 8a67b98..5a77a29 100644
--- a/lib/src/http/content.rs
+++ b/lib/src/http/content.rs
@@ -1,5 +1,5 @@
 use super::Error;
-use std::io::Write;
+use std::io::Read;
 
 pub enum Content<'a> {
     Empty,
@@ -8,13 +8,17 @@ pub enum Content<'a> {
 }
 
 impl Content<'_> {
-    pub fn write<W: Write>(&mut self, writer: &mut W) -> Result<(), Error> {
+    /// The bytes of this content, and the boundary of its parts when it is multipart.
+    pub fn into_bytes(self) -> Result<(Vec<u8>, Option<String>), Error> {
         match self {
-            Content::Empty => Ok(()),
-            Content::Byte(bytes) => Ok(writer.write_all(bytes).map_err(Error::WriteFailed)?),
-            Content::Multipart(ref mut prepared) => {
-                std::io::copy(prepared, writer).map_err(Error::WriteFailed)?;
-                Ok(())
+            Content::Empty => Ok((Vec::new(), None)),
+            Content::Byte(bytes) => Ok((bytes, None)),
+            Content::Multipart(mut prepared) => {
+                let mut bytes = Vec::new();
+                prepared.read_to_end(&mut bytes).map_err(Error::WriteFailed)?;
+                // without any part there is no boundary
+                let boundary = (!bytes.is_empty()).then(|| prepared.boundary().to_string());
+                Ok((bytes, boundary))
             }
         }
     }
diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 8f4d956..b57028b 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -102,14 +102,29 @@ impl Request {
         }
     }
 
-    pub fn write<W: Write>(&mut self, writer: W, mut content: Content) -> Result<(), Error> {
+    pub fn write<W: Write>(&mut self, writer: W, content: Content) -> Result<(), Error> {
+        let (bytes, boundary) = content.into_bytes()?;
+        let mut sized = bytes.is_empty();
         let mut writer = BufWriter::new(writer);
         write!(writer, "{} {} {}\r\n", self.method, self.url.path, self.version).map_err(Error::WriteFailed)?;
         for header in self.headers.iter() {
-            write!(writer, "{}: {}\r\n", header.name, header.value).map_err(Error::WriteFailed)?;
+            write!(writer, "{}: {}", header.name, header.value).map_err(Error::WriteFailed)?;
+            match header.name.to_lowercase().as_str() {
+                "content-length" | "transfer-encoding" => sized = true,
+                "content-type" => {
+                    if let Some(boundary) = &boundary {
+                        write!(writer, "; boundary={}", boundary).map_err(Error::WriteFailed)?;
+                    }
+                }
+                _ => {}
+            }
+            write!(writer, "\r\n").map_err(Error::WriteFailed)?;
+        }
+        if !sized {
+            write!(writer, "Content-Length: {}\r\n", bytes.len()).map_err(Error::WriteFailed)?;
         }
         write!(writer, "\r\n").map_err(Error::WriteFailed)?;
-        content.write(&mut writer)?;
+        writer.write_all(&bytes).map_err(Error::WriteFailed)?;
         writer.flush().map_err(|_e| Error::WriteFlushFailed)?;
         Ok(())
     }
-- 
2.43.0


From a53662e915f81432208c04ec53d2bc9fa7277c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 13/43] fix: a multipart file that cannot be read is an error
 instead of an empty body

---
 lib/src/http/content.rs | 2 ++
 lib/src/http/request.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/content.rs b/lib/src/http/content.rs
index 5a77a29..b02c506 100644
--- a/lib/src/http/content.rs
+++ b/lib/src/http/content.rs
@@ -5,6 +5,7 @@ pub enum Content<'a> {
     Empty,
     Byte(Vec<u8>),
     Multipart(multipart::client::lazy::PreparedFields<'a>),
+    Invalid(std::io::Error),
 }
 
 impl Content<'_> {
@@ -13,6 +14,7 @@ impl Content<'_> {
         match self {
             Content::Empty => Ok((Vec::new(), None)),
             Content::Byte(bytes) => Ok((bytes, None)),
+            Content::Invalid(error) => Err(Error::ReadFailed(error)),
             Content::Multipart(mut prepared) => {
                 let mut bytes = Vec::new();
                 prepared.read_to_end(&mut bytes).map_err(Error::WriteFailed)?;
diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index b57028b..56b6fbb 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -75,7 +75,7 @@ impl Request {
                     }
                     match parts.prepare() {
                         Ok(parts) => content = Content::Multipart(parts),
-                        Err(_) => content = Content::Empty,
+                        Err(error) => content = Content::Invalid(error.error),
                     }
                 }
                 _ => {
-- 
2.43.0


From d7454e3671c3843879697e851a9fe0b0350141a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 14/43] fix: a request that failed with an error is not
 reported as PASS

---
 lib/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/context.rs b/lib/src/context.rs
index 7059e40..4833d9a 100644
--- a/lib/src/context.rs
+++ b/lib/src/context.rs
@@ -101,7 +101,7 @@ impl Display for Assert {
 impl Display for Record {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         writeln!(f, "=== TEST  {}", self.name)?;
-        let mut flag = true;
+        let mut flag = self.error.is_empty();
         for assert in self.asserts.iter() {
             flag &= assert.result;
             writeln!(
-- 
2.43.0


From 4b8815eff557dafd10f83198c78baed362f5155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 15/43] fix: number is the total of all threads also when it is
 not a multiple of them

---
 cmd/src/command.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 3f67921..620749d 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -82,8 +82,8 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
-                    let maximun = number / threads;
                     for thread in 0..threads {
+                        let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
                         let continuous = continuous.to_owned();
                         let name = name.to_owned();
-- 
2.43.0


From a461cad33e039b2344062ff799b517bbc6db57b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 16/43] fix: zero threads is an argument error instead of a
 panic

---
 cmd/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 05b06c5..706fc65 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -23,7 +23,7 @@ enum Commands {
         #[command()]
         name: Option<String>,
         /// Threads
-        #[arg(short, long, default_value_t = 1)]
+        #[arg(short, long, default_value_t = 1, value_parser = clap::value_parser!(u32).range(1..))]
         threads: u32,
         /// Duration
         #[arg(short, long, value_parser = parse_duration)]
-- 
2.43.0


From 7c1cd52b2f88d21e42258e9a68fcfda1fab0f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 17/43] fix: the requests of an iteration that ends with an
 error are reported

---
 cmd/src/command.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 620749d..a4382a2 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -93,12 +93,9 @@ pub fn test(
                         handles.push(std::thread::spawn(move || {
                             let mut number = u32::default();
                             while continuous.load(Ordering::Relaxed) && number < maximun {
-                                match eval_block(test.as_ref(), &mut context) {
-                                    Ok(_) => {}
-                                    Err(error) => {
-                                        println!("{}", error);
-                                        break;
-                                    }
+                                let result = eval_block(test.as_ref(), &mut context);
+                                if let Err(ref error) = result {
+                                    println!("{}", error);
                                 }
                                 let records = context.records();
                                 records.iter().for_each(|record| println!("{}", record));
@@ -106,6 +103,9 @@ pub fn test(
                                     writer.write(&records, &name, thread, number)
                                 }
                                 stat.then(|| sender.send(records));
+                                if result.is_err() {
+                                    break;
+                                }
                                 number += 1;
                             }
                         }));
-- 
2.43.0


From 97854521045794f7a9ebfb5d3afdd2e6f924a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 18/43] fix: stat also counts the requests when all tests are
 run

---
 cmd/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index a4382a2..6456336 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -125,6 +125,7 @@ pub fn test(
         }
         None => {
             for (thread, (name, test)) in tests.into_iter().enumerate() {
+                let sender = sender.to_owned();
                 let mut writer = writer(record.as_ref(), thread as u32);
                 let mut context = context.to_owned();
                 handles.push(std::thread::spawn(move || {
@@ -139,6 +140,7 @@ pub fn test(
                     if let Some(ref mut writer) = writer {
                         writer.write(&records, &name, thread as u32, u32::default())
                     }
+                    stat.then(|| sender.send(records));
                 }));
             }
         }
-- 
2.43.0


From f612ebf0de2103f19596fb6648911369de78e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 19/43] fix: the last line of a source file is not glued to the
 first of the next

---
 cmd/src/command.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 6456336..df6808b 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -178,7 +178,8 @@ fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
             read(entry, text)?;
         }
     } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
-        text.push_str(&std::fs::read_to_string(path)?)
+        text.push_str(&std::fs::read_to_string(path)?);
+        text.push('\n');
     }
     Ok(())
 }
-- 
2.43.0


From 5933fde9b0952ae57feea0510b2825773e6074a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 20/43] fix: the repl ends at the end of its input instead of
 spinning

---
 cmd/src/command.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index df6808b..e5cca44 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -17,14 +17,18 @@ pub fn repl() {
     let mut lines = stdin().lock().lines();
     let mut context = Context::new();
     loop {
-        if let Some(Ok(text)) = lines.next() {
-            if text == "exit" {
-                break;
-            }
-            if text.trim().is_empty() {
-                continue;
+        match lines.next() {
+            Some(Ok(text)) => {
+                if text == "exit" {
+                    break;
+                }
+                if text.trim().is_empty() {
+                    continue;
+                }
+                context = eval(text, Some(context));
             }
-            context = eval(text, Some(context));
+            Some(Err(_)) => continue,
+            None => break,
         }
     }
 }
-- 
2.43.0


From e4c74d2bd390fbdf6f19bf4f5865366fec8d6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 21/43] fix: a duration too long for its unit is an argument
 error instead of a panic

---
 cmd/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 706fc65..8181946 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -77,12 +77,15 @@ fn parse_duration(s: &str) -> Result<Duration, String> {
         Ok(value) => value,
         Err(_) => return Err(format!("Invalid number: {}", chars.as_str())),
     };
-    let duration = match last {
-        Some('s') => Duration::from_secs(value),
-        Some('m') => Duration::from_secs(value * 60),
-        Some('h') => Duration::from_secs(value * 3600),
+    let seconds = match last {
+        Some('s') => Some(value),
+        Some('m') => value.checked_mul(60),
+        Some('h') => value.checked_mul(3600),
         Some(c) => return Err(format!("Unknown time unit: {}, supported units: s, m, h", c)),
         None => return Err("Time unit needed, for example 1s or 2m".to_string()),
     };
-    Ok(duration)
+    match seconds {
+        Some(seconds) => Ok(Duration::from_secs(seconds)),
+        None => Err(format!("Duration too long: {}", s)),
+    }
 }
-- 
2.43.0


From 4552ebf40e4fc99327b44bf0d1a97f38b4319600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 22/43] fix: arrays in the record file are terminated as avro
 requires

---
 lib/src/writer.rs | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index f2b191b..1c77bab 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -87,31 +87,28 @@ impl<W: Write> Writer<W> {
             encode_bytes(record.request.method.as_ref(), &mut data);
             encode_bytes(record.request.url.to_string().as_bytes(), &mut data);
             encode_bytes(record.request.version.as_ref(), &mut data);
-            encode_long(record.request.headers.len() as i64, &mut data);
-            for header in record.request.headers.iter() {
-                encode_long(2, &mut data);
-                encode_bytes(header.name.as_bytes(), &mut data);
-                encode_bytes(header.value.as_bytes(), &mut data);
-            }
+            encode_array(record.request.headers.iter(), &mut data, |header, data| {
+                encode_array([&header.name, &header.value].into_iter(), data, |string, data| {
+                    encode_bytes(string, data)
+                });
+            });
             encode_bytes(record.request.body.as_bytes(), &mut data);
             encode_bytes(record.response.version.as_bytes(), &mut data);
             encode_long(record.response.status as i64, &mut data);
             encode_bytes(record.response.reason.as_bytes(), &mut data);
-            encode_long(record.response.headers.len() as i64, &mut data);
-            for header in record.response.headers.iter() {
-                encode_long(2, &mut data);
-                encode_bytes(header.name.as_bytes(), &mut data);
-                encode_bytes(header.value.as_bytes(), &mut data);
-            }
+            encode_array(record.response.headers.iter(), &mut data, |header, data| {
+                encode_array([&header.name, &header.value].into_iter(), data, |string, data| {
+                    encode_bytes(string, data)
+                });
+            });
             encode_bytes(record.response.body.as_bytes(), &mut data);
-            encode_long(record.asserts.len() as i64, &mut data);
-            for assert in record.asserts.iter() {
-                encode_bytes(assert.expr.as_bytes(), &mut data);
-                encode_bytes(assert.left.as_bytes(), &mut data);
-                encode_bytes(assert.compare.as_bytes(), &mut data);
-                encode_bytes(assert.right.as_bytes(), &mut data);
-                encode_bool(assert.result, &mut data);
-            }
+            encode_array(record.asserts.iter(), &mut data, |assert, data| {
+                encode_bytes(assert.expr.as_bytes(), data);
+                encode_bytes(assert.left.as_bytes(), data);
+                encode_bytes(assert.compare.as_bytes(), data);
+                encode_bytes(assert.right.as_bytes(), data);
+                encode_bool(assert.result, data);
+            });
             encode_bytes(record.error.as_bytes(), &mut data);
         }
         let mut buffer = Vec::new();
@@ -136,6 +133,15 @@ fn header() -> Vec<u8> {
     header
 }
 
+fn encode_array<T>(items: impl ExactSizeIterator<Item = T>, buffer: &mut Vec<u8>, encode: impl Fn(T, &mut Vec<u8>)) {
+    if items.len() > 0 {
+        encode_long(items.len() as i64, buffer);
+        items.for_each(|item| encode(item, buffer));
+    }
+    // an array ends with a block of no items
+    encode_long(0, buffer);
+}
+
 fn encode_bool(b: bool, buffer: &mut Vec<u8>) {
     buffer.push(u8::from(b));
 }
-- 
2.43.0


From ab94ead88f849d6c30e4cfa0ac6861b334df991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 23/43] fix: an iteration without requests does not end the
 record file

---
 lib/src/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index 1c77bab..d00c2dc 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -69,6 +69,10 @@ impl<W: Write> Writer<W> {
     }
 
     pub fn write(&mut self, records: &[Record], name: &str, thread: u32, number: u32) {
+        if records.is_empty() {
+            // readers take a block of no records as the end of the file
+            return;
+        }
         let mut data = Vec::new();
         for (order, record) in records.iter().enumerate() {
             encode_bytes(name.as_bytes(), &mut data);
-- 
2.43.0


From a4314173996368274495f0046e78333c113f9750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 24/43] fix: a record block is not cut off by a short write

---
 lib/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index d00c2dc..8818ccf 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -64,7 +64,7 @@ pub struct Writer<W> {
 
 impl<W: Write> Writer<W> {
     pub fn new(mut w: W) -> Self {
-        let _ = w.write(&header());
+        let _ = w.write_all(&header());
         Writer { w }
     }
 
@@ -120,7 +120,7 @@ impl<W: Write> Writer<W> {
         encode_long(data.len() as i64, &mut buffer);
         buffer.extend_from_slice(&data);
         buffer.extend_from_slice(MARKER);
-        let _ = self.w.write(&buffer);
+        let _ = self.w.write_all(&buffer);
     }
 }
 
-- 
2.43.0


From c3b14237dcd7af5373e3ac2578fdfe223ff5703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 25/43] fix: negative numbers in a json response are not null

---
 lib/src/syntax.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index 9356670..70af266 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -1,3 +1,4 @@
+use crate::Kind;
 use crate::Token;
 use crate::Value;
 use std::collections::HashMap;
@@ -44,6 +45,11 @@ impl Expr {
                     .map(|(k, v)| (k.eval().to_string(), v.eval()))
                     .collect::<HashMap<String, Value>>(),
             ),
+            Expr::Unary(token, right) if token.kind == Kind::Sub => match right.eval() {
+                Value::Integer(integer) => Value::Integer(-integer),
+                Value::Float(float) => Value::Float(-float),
+                _ => Value::Null,
+            },
             _ => Value::Null,
         }
     }
-- 
2.43.0


From 1b51a203b00024b2ce532e7a735649fbc88e0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 26/43] fix: a whole float in the text of an assertion is not
 shown as an integer

---
 lib/src/syntax.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index 70af266..7e77d0a 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -76,6 +76,7 @@ impl Display for Expr {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         match self {
             Expr::Integer(integer) => write!(f, "{}", integer),
+            Expr::Float(float) if float.fract() == 0.0 => write!(f, "{}.0", float),
             Expr::Float(float) => write!(f, "{}", float),
             Expr::Boolean(boolean) => write!(f, "{}", boolean),
             Expr::String(string) => write!(f, "\"{}\"", string),
-- 
2.43.0


From 11c2798ca3dca71bfb0148a5c2644835ca147268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:33 +0000
Subject: [PATCH 27/43] fix: a response without a status line or without the
 end of its headers is an error, not a PASS

---
 lib/src/http/error.rs    |  1 +
 lib/src/http/response.rs | 19 +++++++++----------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/src/http/error.rs b/lib/src/http/error.rs
index 2f38076..b384be5 100644
--- a/lib/src/http/error.rs
+++ b/lib/src/http/error.rs
@@ -33,5 +33,6 @@ http_error! {
     NoConnectionAvailable => "no connection available",
     TlsHandshakeFailed => "tls handshake failed",
     WriteFlushFailed => "write flush failed",
+    InvalidResponse => "invalid response",
     SetReadTimeoutFailed => "set read timeout failed",
 }
diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 96a6ec8..fd3b28b 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -35,14 +35,20 @@ impl Response {
         let mut line = String::from_utf8(buf).unwrap_or_default();
         reader.read_line(&mut line).map_err(Error::ReadFailed)?;
         let mut splits = line.split_whitespace();
-        let version = parse::<String>(splits.next());
-        let status = parse::<u16>(splits.next());
+        let version = splits.next().unwrap_or_default().to_string();
+        let status = match splits.next().and_then(|status| status.parse::<u16>().ok()) {
+            Some(status) => status,
+            None => return Err(Error::InvalidResponse),
+        };
         let reason = splits.collect::<Vec<&str>>().join(" ");
         // headers
         let mut headers = Headers::default();
         loop {
             let mut line = String::new();
-            reader.read_line(&mut line).map_err(Error::ReadFailed)?;
+            if reader.read_line(&mut line).map_err(Error::ReadFailed)? == 0 {
+                // closed before the end of the headers
+                return Err(Error::InvalidResponse);
+            }
             if line.trim().is_empty() {
                 break;
             } else if let Some((name, value)) = line.split_once(':') {
@@ -88,13 +94,6 @@ impl Response {
     }
 }
 
-fn parse<T: std::str::FromStr + std::default::Default>(str: Option<&str>) -> T {
-    match str {
-        Some(str) => str.parse::<T>().unwrap_or_default(),
-        None => T::default(),
-    }
-}
-
 #[test]
 fn test_from_message_json() {
     let message = r#"HTTP/1.1 200 OK
-- 
2.43.0


From a20daacd192bd8cca62f73a3b866701e357ceae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:55 +0000
Subject: [PATCH 28/43] fix: the user info of a url is not part of its host

---
 lib/src/http/url.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index ed37ec1..ce08bab 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -23,6 +23,8 @@ impl std::convert::From<&str> for Url {
                 } else {
                     format!("/{}", path)
                 };
+                // user info is not part of the host
+                let host = host.rsplit_once('@').map_or(host, |(_, host)| host);
                 // the colons of an ipv6 address are inside brackets
                 let end = host.find(']').unwrap_or_default();
                 let (host, port) = if let Some(j) = host[end..].find(':') {
-- 
2.43.0


From d2c99384622ead2fe0afbbf87f63287298b8f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 29/43] fix: a body cut short of its announced length is an
 error, not a PASS

---
 lib/src/http/client.rs   | 6 ++++++
 lib/src/http/response.rs | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/lib/src/http/client.rs b/lib/src/http/client.rs
index e4362e0..22b0a8c 100644
--- a/lib/src/http/client.rs
+++ b/lib/src/http/client.rs
@@ -1,3 +1,5 @@
+use super::Error;
+use super::Method;
 use super::Request;
 use super::Response;
 use super::Stream;
@@ -33,6 +35,10 @@ impl Client {
             Ok(response) => response,
             Err(error) => return (request, Response::default(), time, error.to_string()),
         };
+        // closed before all of the announced body arrived, which a response to HEAD or not modified does not have
+        if request.method != Method::Head && response.status != 304 && response.body.len() < response.length() {
+            return (request, Response::default(), time, Error::InvalidResponse.to_string());
+        }
         time.read = read.elapsed() - time.delay;
         let end = Instant::now();
         time.total = end - start;
diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index fd3b28b..a9f5005 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -69,6 +69,15 @@ impl Response {
         })
     }
 
+    /// The length of the body announced by the headers, zero when there is none.
+    pub fn length(&self) -> usize {
+        self.headers
+            .iter()
+            .find(|header| header.name.eq_ignore_ascii_case("content-length"))
+            .and_then(|header| header.value.parse().ok())
+            .unwrap_or_default()
+    }
+
     pub fn to_map(&self) -> HashMap<String, Value> {
         let mut map = HashMap::new();
         map.insert(String::from("version"), Value::String(self.version.to_string()));
-- 
2.43.0


From 31a7b26b6f48690814b81bd6b0d1498e0163b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 30/43] fix: an interrupt while the threads of a run are being
 started does not kill it

---
 cmd/src/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index e5cca44..d547b44 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -86,6 +86,8 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
+                    // handle interrupt signal, before anything runs that it could cut off
+                    handle_interrupt(continuous.clone());
                     for thread in 0..threads {
                         let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
@@ -114,8 +116,6 @@ pub fn test(
                             }
                         }));
                     }
-                    // handle interrupt signal
-                    handle_interrupt(continuous.clone());
                     // completed after thread sleep duration
                     std::thread::spawn(move || {
                         std::thread::sleep(duration);
-- 
2.43.0


From c621d497e74b6db0978f78f527d52718af10be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 31/43] fix: a path that does not exist was run as an empty
 project

---
 cmd/src/command.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index d547b44..aefd184 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -168,7 +168,9 @@ pub fn test(
 
 fn read_to_string(path: PathBuf) -> String {
     let mut text = String::new();
-    read(path, &mut text).expect("Could not read source file");
+    path.metadata()
+        .and_then(|_| read(path, &mut text))
+        .expect("Could not read source file");
     text
 }
 
-- 
2.43.0


From 929ea4ed5491e3615d6a838089255833a639d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:13 +0000
Subject: [PATCH 32/43] fix: a float literal beyond all doubles was read as
 infinity

---
 lib/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index a9c2f47..ae859cc 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -185,8 +185,8 @@ impl Parser {
     fn parse_float_literal(&self) -> Result<Expr, String> {
         let token = self.current_token();
         match token.literal.parse::<f64>() {
-            Ok(float) => Ok(Expr::Float(float)),
-            Err(_) => Err(format!("parse float error: {}", token)),
+            Ok(float) if float.is_finite() => Ok(Expr::Float(float)),
+            _ => Err(format!("parse float error: {}", token)),
         }
     }
 
-- 
2.43.0


From f22b2229d34a636d04eabe2c6535496184971ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:08 +0000
Subject: [PATCH 33/43] fix: name the parameter that format and append need,
 not the function length

---
 lib/src/native.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/native.rs b/lib/src/native.rs
index 5570bd1..05cf1d5 100644
--- a/lib/src/native.rs
+++ b/lib/src/native.rs
@@ -39,7 +39,6 @@ pub fn format(mut values: Vec<Value>) -> Result<Value, String> {
                 Ok(Value::String(string))
             }
         }
-        None => Err("function length need a parameter".to_string()),
         _ => Err("first parameter must be a string".to_string()),
     }
 }
@@ -68,7 +67,6 @@ pub fn append(mut values: Vec<Value>) -> Result<Value, String> {
             }
             Ok(Value::Array(array))
         }
-        None => Err("function length need a parameter".to_string()),
         _ => Err("first parameter must be a array".to_string()),
     }
 }
-- 
2.43.0


From 40f9db222a3f512f9f1bb2440447626c8c801aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:57 +0000
Subject: [PATCH 34/43] fix: drop the records of a REPL line, which nothing
 reports

---
 cmd/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index aefd184..8dac49e 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -26,6 +26,8 @@ pub fn repl() {
                     continue;
                 }
                 context = eval(text, Some(context));
+                // nothing reports them here
+                context.records();
             }
             Some(Err(_)) => continue,
             None => break,
-- 
2.43.0


From 829bf8651d00246d7f560b6a9e82020d84f7be19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:50 +0000
Subject: [PATCH 35/43] fix: values that nest ever deeper are an error instead
 of a stack overflow

---
 lib/src/evaluator.rs |  6 +++---
 lib/src/value.rs     | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index 72e4734..ddae3c8 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -46,7 +46,7 @@ fn eval_string_literal(string: &String) -> Result<Value, String> {
 }
 
 fn eval_array_literal(items: &[Expr], context: &mut Context) -> Result<Value, String> {
-    Ok(Value::Array(eval_list(items, context)?))
+    Value::Array(eval_list(items, context)?).nested()
 }
 
 fn eval_map_literal(pairs: &Vec<(Expr, Expr)>, context: &mut Context) -> Result<Value, String> {
@@ -56,7 +56,7 @@ fn eval_map_literal(pairs: &Vec<(Expr, Expr)>, context: &mut Context) -> Result<
         let value = eval_expr(value, context)?;
         map.insert(key.to_string(), value);
     }
-    Ok(Value::Map(map))
+    Value::Map(map).nested()
 }
 
 fn eval_index_expr(value: &Expr, index: &Expr, context: &mut Context) -> Result<Value, String> {
@@ -228,7 +228,7 @@ fn eval_call_expr(name: &str, arguments: &[Expr], context: &mut Context) -> Resu
             "print" => Ok(native::print(arguments)?),
             "format" => Ok(native::format(arguments)?),
             "length" => Ok(native::length(arguments)?),
-            "append" => Ok(native::append(arguments)?),
+            "append" => native::append(arguments)?.nested(),
             _ => Err(format!("function {} not found", name)),
         },
     }
diff --git a/lib/src/value.rs b/lib/src/value.rs
index 9c4e77e..291d0e1 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -13,6 +13,9 @@ use std::ops::Shl;
 use std::ops::Shr;
 use std::ops::Sub;
 
+/// How deeply values may nest, cloning, comparing, showing or dropping a deeper one could overflow the stack
+const MAX_DEPTH: usize = 512;
+
 #[derive(Debug, Clone, PartialEq)]
 pub enum Value {
     Null,
@@ -24,6 +27,25 @@ pub enum Value {
     Map(HashMap<String, Value>),
 }
 
+impl Value {
+    /// This value, or an error if it nests too deeply.
+    pub fn nested(self) -> std::result::Result<Self, String> {
+        if self.depth() > MAX_DEPTH {
+            Err(format!("value nested deeper than {}", MAX_DEPTH))
+        } else {
+            Ok(self)
+        }
+    }
+
+    fn depth(&self) -> usize {
+        match self {
+            Value::Array(items) => 1 + items.iter().map(Value::depth).max().unwrap_or_default(),
+            Value::Map(pairs) => 1 + pairs.values().map(Value::depth).max().unwrap_or_default(),
+            _ => 0,
+        }
+    }
+}
+
 impl Display for Value {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         match self {
-- 
2.43.0


From 15590de9d9c6ba7fdb2ddec89738686c00d7c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:50 +0000
Subject: [PATCH 36/43] fix: a link back to a directory does not load its files
 again

---
 cmd/src/command.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 8dac49e..728bb07 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -171,20 +171,27 @@ pub fn test(
 fn read_to_string(path: PathBuf) -> String {
     let mut text = String::new();
     path.metadata()
-        .and_then(|_| read(path, &mut text))
+        .and_then(|_| read(path, &mut text, &mut Vec::new()))
         .expect("Could not read source file");
     text
 }
 
-fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
+fn read(path: PathBuf, text: &mut String, within: &mut Vec<PathBuf>) -> std::io::Result<()> {
     if path.is_dir() {
+        let directory = path.canonicalize().unwrap_or_else(|_| path.clone());
+        // a link back to a directory that is being read already
+        if within.contains(&directory) {
+            return Ok(());
+        }
+        within.push(directory);
         let mut entries = std::fs::read_dir(path)?
             .map(|r| r.map(|e| e.path()))
             .collect::<Result<Vec<PathBuf>, std::io::Error>>()?;
         entries.sort();
         for entry in entries {
-            read(entry, text)?;
+            read(entry, text, within)?;
         }
+        within.pop();
     } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
         text.push_str(&std::fs::read_to_string(path)?);
         text.push('\n');
-- 
2.43.0


From b126baa0f969c1910fd3336f2d84c9948d8466d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:50 +0000
Subject: [PATCH 37/43] fix: the recorded lines of a form body are not glued
 together

---
 lib/src/http/request.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 56b6fbb..d375ecf 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -55,6 +55,9 @@ impl Request {
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
                             serializer.append_pair(name.trim(), value.trim());
+                            if !body.is_empty() {
+                                body.push('\n');
+                            }
                             body.push_str(line);
                         }
                     }
@@ -70,6 +73,9 @@ impl Request {
                             } else {
                                 parts.add_text(name, value);
                             }
+                            if !body.is_empty() {
+                                body.push('\n');
+                            }
                             body.push_str(line);
                         }
                     }
-- 
2.43.0


From 4e464d7a985263a3e9a58e66e9236cbecc074901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:49 +0000
Subject: [PATCH 38/43] fix: a url whose port is not one was sent to the
 default port of its host

---
 lib/src/http/stream.rs |  3 +++
 lib/src/http/url.rs    | 12 ++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/src/http/stream.rs b/lib/src/http/stream.rs
index 83a89de..b8acb37 100644
--- a/lib/src/http/stream.rs
+++ b/lib/src/http/stream.rs
@@ -29,6 +29,9 @@ pub enum Stream {
 
 impl Stream {
     pub fn connect(url: &Url, connect_tiomeout: Option<Duration>, read_tiomeout: Option<Duration>) -> Result<Self, Error> {
+        if url.host.contains(':') && !url.host.ends_with(']') {
+            return Err(Error::InvalidUrlHost);
+        }
         let host = url.host.trim_start_matches('[').trim_end_matches(']');
         let port = url.port;
 
diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index ce08bab..aee14d5 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -27,10 +27,14 @@ impl std::convert::From<&str> for Url {
                 let host = host.rsplit_once('@').map_or(host, |(_, host)| host);
                 // the colons of an ipv6 address are inside brackets
                 let end = host.find(']').unwrap_or_default();
-                let (host, port) = if let Some(j) = host[end..].find(':') {
-                    (&host[..end + j], host[end + j + 1..].parse::<u16>().ok())
-                } else {
-                    (host, None)
+                let (host, port) = match host[end..].find(':').map(|j| (&host[..end + j], &host[end + j + 1..])) {
+                    Some((host, "")) => (host, None),
+                    Some((name, port)) => match port.parse::<u16>() {
+                        Ok(port) => (name, Some(port)),
+                        // not a port, this is no valid host
+                        Err(_) => (host, None),
+                    },
+                    None => (host, None),
                 };
                 (host.to_string(), port, path)
             }
-- 
2.43.0


From 83ac660a15801e4a2ce8a1ea34fee2733c5fb8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:05 +0000
Subject: [PATCH 39/43] fix: the reason phrase of a response keeps its inner
 white space

---
 lib/src/http/response.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index a9f5005..6860ff3 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -34,13 +34,16 @@ impl Response {
         }
         let mut line = String::from_utf8(buf).unwrap_or_default();
         reader.read_line(&mut line).map_err(Error::ReadFailed)?;
-        let mut splits = line.split_whitespace();
-        let version = splits.next().unwrap_or_default().to_string();
-        let status = match splits.next().and_then(|status| status.parse::<u16>().ok()) {
-            Some(status) => status,
-            None => return Err(Error::InvalidResponse),
+        let line = line.trim();
+        let (version, rest) = line.split_once(char::is_whitespace).unwrap_or((line, ""));
+        let rest = rest.trim_start();
+        let (status, reason) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
+        let version = version.to_string();
+        let status = match status.parse::<u16>() {
+            Ok(status) => status,
+            Err(_) => return Err(Error::InvalidResponse),
         };
-        let reason = splits.collect::<Vec<&str>>().join(" ");
+        let reason = reason.trim_start().to_string();
         // headers
         let mut headers = Headers::default();
         loop {
-- 
2.43.0


From 13d9256136add64c75b66e80935db10233b8219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:43 +0000
Subject: [PATCH 40/43] fix: a repl whose input cannot be read any more ends
 instead of trying for ever

---
 cmd/src/command.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 728bb07..8b1c6a4 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -7,6 +7,7 @@ use lib::Writer;
 use std::fs::File;
 use std::io::stdin;
 use std::io::BufRead;
+use std::io::ErrorKind;
 use std::path::PathBuf;
 use std::sync::atomic::AtomicBool;
 use std::sync::atomic::Ordering;
@@ -29,8 +30,10 @@ pub fn repl() {
                 // nothing reports them here
                 context.records();
             }
-            Some(Err(_)) => continue,
-            None => break,
+            // a line that is no text
+            Some(Err(error)) if error.kind() == ErrorKind::InvalidData => continue,
+            // input that cannot be read any more stays so
+            Some(Err(_)) | None => break,
         }
     }
 }
-- 
2.43.0


From 69416a27d75c251a7a3b7a8989e21f628d7ee626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:43 +0000
Subject: [PATCH 41/43] fix: a run with a path needs no current directory

---
 cmd/src/command.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 8b1c6a4..6a6e142 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -64,7 +64,7 @@ pub fn test(
     record: Option<PathBuf>,
     stat: bool,
 ) {
-    let text = read_to_string(path.unwrap_or(std::env::current_dir().unwrap()));
+    let text = read_to_string(path.unwrap_or_else(|| std::env::current_dir().unwrap()));
     let mut context = Context::new();
     let mut tests = match Parser::new(&text).parse() {
         Ok(Source { exprs, requests, tests }) => {
-- 
2.43.0


From b6b6023a25ce4cc38ac43f29cd2395487a1950f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:43 +0000
Subject: [PATCH 42/43] fix: threads without an iteration are not started, many
 of them ended a run

---
 cmd/src/command.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 6a6e142..1f40d45 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -100,6 +100,10 @@ pub fn test(
                         let name = name.to_owned();
                         let test = test.to_owned();
                         let mut writer = writer(record.as_ref(), thread);
+                        if maximun == 0 {
+                            // nothing to run, a thread would only take up memory until the end
+                            continue;
+                        }
                         let mut context = context.to_owned();
                         handles.push(std::thread::spawn(move || {
                             let mut number = u32::default();
-- 
2.43.0


From 65ef09f8414022cd2ce71a98e9771d7ab558bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:23 +0000
Subject: [PATCH 43/43] fix: the fragment of a url was sent to the server as
 part of the path

---
 lib/src/http/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index d375ecf..791cd69 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -112,7 +112,9 @@ impl Request {
         let (bytes, boundary) = content.into_bytes()?;
         let mut sized = bytes.is_empty();
         let mut writer = BufWriter::new(writer);
-        write!(writer, "{} {} {}\r\n", self.method, self.url.path, self.version).map_err(Error::WriteFailed)?;
+        // the fragment of a url is not part of what is asked for
+        let target = self.url.path.split('#').next().unwrap_or_default();
+        write!(writer, "{} {} {}\r\n", self.method, target, self.version).map_err(Error::WriteFailed)?;
         for header in self.headers.iter() {
             write!(writer, "{}: {}", header.name, header.value).map_err(Error::WriteFailed)?;
             match header.name.to_lowercase().as_str() {
-- 
2.43.0

