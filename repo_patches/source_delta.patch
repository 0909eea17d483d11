From bb390c17f9edeca26053d73db86f0b6aae617a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:48 +0000
Subject: [PATCH 01/46] fix: read the key type of a request from the wire
 instead of the command byte

---
 engine/src/command/request/context.rs | 55 ++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d9b4997..12a4f15 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -28,6 +28,9 @@ impl TryFrom<u8> for ParseError {
 #[derive(Clone, Debug, Eq, PartialEq)]
 enum Stage {
     Init,
+    KeyType {
+        command_id: CommandId,
+    },
     Kind {
         command_id: CommandId,
         key_type: Option<KeyType>,
@@ -73,6 +76,7 @@ impl Context {
 
                 match self.stage {
                     Stage::Init => self.stage_init(buf)?,
+                    Stage::KeyType { command_id } => self.stage_key_type(buf, command_id)?,
                     Stage::Kind {
                         command_id,
                         key_type,
@@ -108,34 +112,59 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
-        // If the first bit is flipped, then this byte is denoting the type of
-        // key to work with. This means that byte idx 2 is the argument length.
+        let command_id =
+            CommandId::try_from(byte & 0b0111_1111).map_err(|_| ParseError::CommandIdInvalid)?;
+
+        self.idx = self.idx.wrapping_add(1);
+
+        // If the first bit is flipped, then the byte following this one is the
+        // type of key to work with.
         //
-        // If the first bit is 0, then this byte is the argument length, and the
-        // type of key to work with is not a requirement.
-        let key_type = if byte >> 7 == 1 {
-            let key_type_id = byte >> 1;
+        // If the first bit is 0, then the type of key to work with is not a
+        // requirement.
+        if byte >> 7 == 1 {
+            self.stage = Stage::KeyType { command_id };
 
-            Some(KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?)
-        } else {
-            None
+            return Ok(Conclusion::Next);
+        }
+
+        Ok(self.stage_kind_init(command_id, None))
+    }
+
+    fn stage_key_type<'a>(
+        &'a mut self,
+        buf: &'a [u8],
+        command_id: CommandId,
+    ) -> Result<Conclusion<'a>, ParseError> {
+        let byte = match buf.get(self.idx) {
+            Some(byte) => *byte,
+            None => return Ok(Conclusion::Incomplete),
         };
 
-        let command_id = CommandId::try_from(byte).map_err(|_| ParseError::CommandIdInvalid)?;
+        let key_type = KeyType::try_from(byte).map_err(|_| ParseError::KeyTypeInvalid)?;
+
+        self.idx = self.idx.saturating_add(1);
+
+        Ok(self.stage_kind_init(command_id, Some(key_type)))
+    }
 
+    fn stage_kind_init<'a>(
+        &mut self,
+        command_id: CommandId,
+        key_type: Option<KeyType>,
+    ) -> Conclusion<'a> {
         // If the command type is simple and has no arguments or keys, then
         // we can just return a successful command here.
         if command_id.is_simple() {
-            return Ok(Conclusion::Finished((command_id, None)));
+            return Conclusion::Finished((command_id, key_type));
         }
 
         self.stage = Stage::Kind {
             command_id,
             key_type,
         };
-        self.idx = self.idx.wrapping_add(1);
 
-        Ok(Conclusion::Next)
+        Conclusion::Next
     }
 
     fn stage_kind(
-- 
2.43.0


From 120d6b89c0c3524e80153cc270ee2ee249532c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:52 +0000
Subject: [PATCH 02/46] fix: keep the argument positions of a parsed request,
 and its exact bytes

---
 engine/src/command/request/context.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 12a4f15..791da23 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -2,7 +2,10 @@ use super::{super::ContextConclusion, Request};
 use crate::{command::CommandId, state::KeyType};
 use alloc::borrow::Cow;
 use arrayvec::ArrayVec;
-use core::convert::{TryFrom, TryInto};
+use core::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 type Conclusion<'a> = ContextConclusion<(CommandId, Option<KeyType>)>;
 
@@ -91,13 +94,15 @@ impl Context {
 
             match conclusion {
                 Conclusion::Finished((command_id, key_type)) => {
+                    let end = self.idx;
+                    let positions = mem::replace(&mut self.positions, ArrayVec::new());
                     self.reset();
 
                     return Ok(Some(Request {
-                        buf: Cow::Borrowed(buf),
+                        buf: Cow::Borrowed(&buf[..end]),
                         command_id,
                         key_type,
-                        positions: Cow::Borrowed(&self.positions),
+                        positions: Cow::Owned(positions),
                     }));
                 }
                 Conclusion::Incomplete => return Ok(None),
-- 
2.43.0


From 9bf5dc1b536b5ffffba4141c4cb13a7042f25c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:56 +0000
Subject: [PATCH 03/46] fix: account for the length prefix when locating
 request arguments

---
 engine/src/command/request/context.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 791da23..9d1ccee 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -207,13 +207,15 @@ impl Context {
 
         let arg_len = u32::from_be_bytes(len_bytes) as usize;
 
-        if buf.get(self.idx..self.idx + arg_len).is_some() {
-            self.positions.push(self.idx + arg_len);
-        } else {
+        let arg_end = self.idx + Self::ARG_LEN_BYTES + arg_len;
+
+        if buf.len() < arg_end {
             return Ok(Conclusion::Incomplete);
         }
 
-        self.idx += 4 + arg_len;
+        // the position of an argument is the index of its last byte
+        self.positions.push(arg_end - 1);
+        self.idx = arg_end;
 
         if self.positions.len() == argument_count as usize {
             Ok(Conclusion::Finished((command_id, key_type)))
-- 
2.43.0


From 54c451495ffbb25b4d12940da3fa2fb28cedd27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:00 +0000
Subject: [PATCH 04/46] fix: conclude requests without arguments

---
 engine/src/command/request/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 9d1ccee..f9170d7 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -190,6 +190,11 @@ impl Context {
         };
         self.idx = self.idx.saturating_add(1);
 
+        // there are no arguments to parse, so this is a complete request
+        if argument_count == 0 {
+            return Ok(Conclusion::Finished((command_id, key_type)));
+        }
+
         Ok(Conclusion::Next)
     }
 
-- 
2.43.0


From 8f1033ce1f0c04a0ea8d1fd22f7717de73c33dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:10 +0000
Subject: [PATCH 05/46] fix: reset the request context after a parse error

---
 engine/src/command/request/context.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index f9170d7..acd2ca3 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -77,18 +77,28 @@ impl Context {
                     return Ok(None);
                 }
 
-                match self.stage {
-                    Stage::Init => self.stage_init(buf)?,
-                    Stage::KeyType { command_id } => self.stage_key_type(buf, command_id)?,
+                let result = match self.stage {
+                    Stage::Init => self.stage_init(buf),
+                    Stage::KeyType { command_id } => self.stage_key_type(buf, command_id),
                     Stage::Kind {
                         command_id,
                         key_type,
-                    } => self.stage_kind(buf, key_type, command_id)?,
+                    } => self.stage_kind(buf, key_type, command_id),
                     Stage::ArgumentParsing {
                         argument_count,
                         command_id,
                         key_type,
-                    } => self.stage_argument_parsing(buf, command_id, key_type, argument_count)?,
+                    } => self.stage_argument_parsing(buf, command_id, key_type, argument_count),
+                };
+
+                match result {
+                    Ok(conclusion) => conclusion,
+                    Err(why) => {
+                        // the next buffer is the start of a new request
+                        self.reset();
+
+                        return Err(why);
+                    }
                 }
             };
 
-- 
2.43.0


From 389260badb57c8708bba3dec8c6522ff1e9c22df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:14 +0000
Subject: [PATCH 06/46] fix: report too many arguments instead of overflowing
 the argument count

---
 engine/src/command/request/builder.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 47562eb..9062f51 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -171,7 +171,7 @@ impl RequestBuilder {
             }
             Value::Integer(int) => self.push_argument(Cow::Borrowed(int.to_be_bytes().as_ref()))?,
             Value::List(list) => {
-                if self.arguments_would_overfill(list.len() as u8) {
+                if self.arguments_would_overfill(list.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -184,7 +184,7 @@ impl RequestBuilder {
                 }
             }
             Value::Map(map) => {
-                if self.arguments_would_overfill(map.len() as u8) {
+                if self.arguments_would_overfill(map.len() * 2) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -198,7 +198,7 @@ impl RequestBuilder {
                 }
             }
             Value::Set(set) => {
-                if self.arguments_would_overfill(set.len() as u8) {
+                if self.arguments_would_overfill(set.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -222,8 +222,15 @@ impl RequestBuilder {
         Ok(self)
     }
 
-    fn arguments_would_overfill(&self, amount: u8) -> bool {
-        self.argument_count.checked_add(amount).is_none()
+    fn arguments_would_overfill(&self, amount: usize) -> bool {
+        // simple commands have no argument list at all
+        let limit = if self.command_id.is_simple() {
+            0
+        } else {
+            usize::from(u8::MAX)
+        };
+
+        usize::from(self.argument_count) + amount > limit
     }
 
     fn update_count(&mut self) {
@@ -242,6 +249,10 @@ impl RequestBuilder {
         &mut self,
         argument: impl Into<Cow<'a, [u8]>>,
     ) -> Result<(), RequestBuilderError> {
+        if self.arguments_would_overfill(1) {
+            return Err(RequestBuilderError::TooManyArguments);
+        }
+
         let argument = argument.into();
         let argument_len = argument.len();
 
-- 
2.43.0


From 925b4481e3064de11bf3d390fac4e78b0cb537e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 07/46] fix: reject empty lists and empty items before adding
 any argument

---
 engine/src/command/request/builder.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 9062f51..3cbc86d 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -175,11 +175,11 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                for item in list {
-                    if item.is_empty() {
-                        return Err(RequestBuilderError::ValueEmpty);
-                    }
+                if list.is_empty() || list.iter().any(|item| item.is_empty()) {
+                    return Err(RequestBuilderError::ValueEmpty);
+                }
 
+                for item in list {
                     self.push_argument(item)?;
                 }
             }
@@ -188,7 +188,11 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                if map.is_empty() {
+                let item_empty = map
+                    .iter()
+                    .any(|item| item.key().is_empty() || item.value().is_empty());
+
+                if map.is_empty() || item_empty {
                     return Err(RequestBuilderError::ValueEmpty);
                 }
 
@@ -202,7 +206,7 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                if set.is_empty() {
+                if set.is_empty() || set.iter().any(|item| item.is_empty()) {
                     return Err(RequestBuilderError::ValueEmpty);
                 }
 
-- 
2.43.0


From cd239053a8f797ab4cdabc40b8eb4e5bc675c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:21 +0000
Subject: [PATCH 08/46] fix: keep the argument count when extending an existing
 request

---
 engine/src/command/request/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 3cbc86d..9712702 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -292,6 +292,7 @@ impl RequestBuilder {
 impl From<Request<'_>> for RequestBuilder {
     fn from(request: Request) -> Self {
         let mut builder = Self::new_with_key_type(request.command_id, request.key_type);
+        builder.argument_count = request.positions.len() as u8;
         builder.buf = request.buf.into_owned();
         builder.positions = request.positions.into_owned();
 
-- 
2.43.0


From 3909f898dab3e9bc96f73e7bfba2b93d669119ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 09/46] fix: bound argument iterators to the arguments of the
 request

---
 engine/src/command/request/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index efa2a5f..b8b808b 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -101,7 +101,7 @@ pub struct Arguments<'a> {
 
 impl ExactSizeIterator for Arguments<'_> {
     fn len(&self) -> usize {
-        self.to
+        self.to - self.idx
     }
 }
 
@@ -139,20 +139,21 @@ impl<'a> Request<'a> {
         }
 
         let start = match range.start_bound() {
-            Bound::Excluded(amt) => *amt + 1,
+            Bound::Excluded(amt) => amt.saturating_add(1),
             Bound::Included(amt) => *amt,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
             Bound::Excluded(amt) => *amt,
-            Bound::Included(amt) => *amt + 1,
+            Bound::Included(amt) => amt.saturating_add(1),
             Bound::Unbounded => self.arg_count(),
         };
+        let to = end.min(self.arg_count());
 
         Some(Arguments {
-            idx: start,
+            idx: start.min(to),
             request: self,
-            to: end,
+            to,
         })
     }
 
-- 
2.43.0


From 840c82ea225e6e1e5536104b7bb760fc6a9217db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:49 +0000
Subject: [PATCH 10/46] fix: parse empty bytes, list and set responses

---
 engine/src/command/response/context.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index ba018a7..65e6fda 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -192,7 +192,6 @@ impl Context {
 
     fn stage_bytes(&mut self, buf: &[u8], len: u32) -> Result<Option<Instruction>, ParseError> {
         debug_assert_eq!(self.idx, 9);
-        debug_assert_ne!(len, 0);
 
         let bytes = match buf.get(self.idx..self.idx + len as usize) {
             Some(bytes) => bytes,
@@ -395,6 +394,10 @@ impl Context {
             ResponseType::List => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::list()))));
+                }
+
                 Stage::List {
                     args: Vec::new(),
                     len,
@@ -415,6 +418,10 @@ impl Context {
             ResponseType::Set => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::set()))));
+                }
+
                 Stage::Set {
                     args: DashSet::new(),
                     len,
-- 
2.43.0


From 8de871662359812056f1704b90f394873e0ddb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:53 +0000
Subject: [PATCH 11/46] fix: report unknown error codes in responses instead of
 panicking

---
 engine/src/command/response/context.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 65e6fda..dfb855b 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -214,7 +214,7 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = DispatchError::try_from(byte).unwrap();
+        let variant = DispatchError::try_from(byte).map_err(|_| ParseError::DispatchErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -365,7 +365,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = RequestParseError::try_from(byte).unwrap();
+        let variant =
+            RequestParseError::try_from(byte).map_err(|_| ParseError::ParseErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
-- 
2.43.0


From 2ac8b29ae92c728895198f17bc058f8b306b7d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 12/46] fix: ask for exactly the missing bytes of a response

---
 engine/src/command/response/context.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index dfb855b..f0b4bb4 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -310,7 +310,7 @@ impl Context {
         let key = match buf.get(key_size_end..key_value_end) {
             Some(key) => key,
             None => {
-                let remaining = remaining_bytes(key_size_end, buf.len(), key_value_end);
+                let remaining = remaining_bytes(key_size_end, buf.len(), key_len as usize);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -321,7 +321,7 @@ impl Context {
         let value_len = match buf.get(key_value_end..value_size_end) {
             Some(value_len) => u32::from_be_bytes(value_len.try_into().unwrap()),
             None => {
-                let remaining = remaining_bytes(self.idx, buf.len(), value_size_end);
+                let remaining = remaining_bytes(key_value_end, buf.len(), 4);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -332,7 +332,7 @@ impl Context {
         let value = match buf.get(value_size_end..value_end) {
             Some(value) => value,
             None => {
-                let remaining = remaining_bytes(value_size_end, buf.len(), value_end);
+                let remaining = remaining_bytes(value_size_end, buf.len(), value_len as usize);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -381,7 +381,11 @@ impl Context {
 
         let bytes = match buf.get(self.idx..self.idx + read_len) {
             Some(bytes) => bytes,
-            None => return Ok(Some(Instruction::ReadBytes(read_len + 1 - buf.len()))),
+            None => {
+                let remaining = remaining_bytes(self.idx, buf.len(), read_len);
+
+                return Ok(Some(Instruction::ReadBytes(remaining)));
+            }
         };
 
         debug_assert_eq!(bytes.len(), read_len);
@@ -477,7 +481,7 @@ impl Context {
         let arg = match buf.get(arg_size_end..arg_value_end) {
             Some(arg) => arg,
             None => {
-                let remaining = remaining_bytes(arg_size_end, buf.len(), arg_value_end);
+                let remaining = remaining_bytes(arg_size_end, buf.len(), arg_len as usize);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
-- 
2.43.0


From 0ffc9bf755fbe377868db8890a7a2ab6a78d7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 13/46] fix: reset the response context after a parse error

---
 engine/src/command/response/context.rs | 38 ++++++++++++++++----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index f0b4bb4..a8ef7de 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -96,20 +96,30 @@ impl Context {
 
     pub fn feed(&mut self, buf: &[u8]) -> Result<Instruction, ParseError> {
         loop {
-            let instruction = match self.stage {
-                Stage::Init => self.stage_init(buf)?,
-                Stage::DetermineType => self.stage_determine_type(buf)?,
-                Stage::Boolean => self.stage_boolean(buf)?,
-                Stage::Bytes { len } => self.stage_bytes(buf, len)?,
-                Stage::Float => self.stage_float(buf)?,
-                Stage::Integer => self.stage_integer(buf)?,
-                Stage::List { .. } => self.stage_list(buf)?,
-                Stage::Map { .. } => self.stage_map(buf)?,
-                Stage::Set { .. } => self.stage_set(buf)?,
-                Stage::String { len } => self.stage_string(buf, len)?,
-                Stage::TypeInit { kind, read_len } => self.stage_type_init(buf, kind, read_len)?,
-                Stage::DispatchError => self.stage_dispatch_error(buf)?,
-                Stage::ParseError => self.stage_parse_error(buf)?,
+            let result = match self.stage {
+                Stage::Init => self.stage_init(buf),
+                Stage::DetermineType => self.stage_determine_type(buf),
+                Stage::Boolean => self.stage_boolean(buf),
+                Stage::Bytes { len } => self.stage_bytes(buf, len),
+                Stage::Float => self.stage_float(buf),
+                Stage::Integer => self.stage_integer(buf),
+                Stage::List { .. } => self.stage_list(buf),
+                Stage::Map { .. } => self.stage_map(buf),
+                Stage::Set { .. } => self.stage_set(buf),
+                Stage::String { len } => self.stage_string(buf, len),
+                Stage::TypeInit { kind, read_len } => self.stage_type_init(buf, kind, read_len),
+                Stage::DispatchError => self.stage_dispatch_error(buf),
+                Stage::ParseError => self.stage_parse_error(buf),
+            };
+
+            let instruction = match result {
+                Ok(instruction) => instruction,
+                Err(why) => {
+                    // the next buffer is the start of a new response
+                    self.reset();
+
+                    return Err(why);
+                }
             };
 
             match instruction {
-- 
2.43.0


From b8638a21ab10c1979d7e732b2f0b1f2877950427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:39 +0000
Subject: [PATCH 14/46] fix: only strings are strings

---
 engine/src/state/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/state/value.rs b/engine/src/state/value.rs
index 2254b71..bc904c7 100644
--- a/engine/src/state/value.rs
+++ b/engine/src/state/value.rs
@@ -201,7 +201,7 @@ impl Value {
     }
 
     pub fn is_string(&self) -> bool {
-        matches!(self, Value::Boolean(_))
+        matches!(self, Value::String(_))
     }
 }
 
-- 
2.43.0


From 15e27fa2b6b2584c5e64f2bc5cb1019ee05dacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 15/46] fix: initialise missing keys as floats when
 incrementing by a float

---
 engine/src/command/impl/increment_by.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7e042de..3b5a4f8 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -11,7 +11,7 @@ impl IncrementBy {
         amount: f64,
         resp: &mut Vec<u8>,
     ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
+        let mut key = hop.state().key_or_insert_with(key, Value::float);
         let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         *float += amount;
-- 
2.43.0


From 2a4e538f728380126b9fa95224411dd2bbc3c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:45 +0000
Subject: [PATCH 16/46] fix: wrap integers around on overflow in increments and
 decrements

---
 engine/src/command/impl/decrement_by.rs | 2 +-
 engine/src/command/impl/increment_by.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index da4aab2..b094bc1 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -12,7 +12,7 @@ impl Dispatch for DecrementBy {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
         if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, 0 - int, resp)
+            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
         } else if let Some(float) = req.typed_arg::<f64>(1) {
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 3b5a4f8..7a7bc85 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -32,7 +32,7 @@ impl IncrementBy {
             .as_integer_mut()
             .ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *int += amount;
+        *int = int.wrapping_add(amount);
 
         response::write_int(resp, *int);
 
-- 
2.43.0


From 42a6f2b00f750c6fddffb074e48bb86292f16064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:48 +0000
Subject: [PATCH 17/46] fix: honour the float key type in increment:by and
 decrement:by

---
 engine/src/command/impl/decrement_by.rs | 16 +++++++++++-----
 engine/src/command/impl/increment_by.rs | 19 ++++++++++++++-----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index b094bc1..de319a0 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::Hop;
+use crate::{state::KeyType, Hop};
 use alloc::vec::Vec;
 
 pub struct DecrementBy;
@@ -11,12 +11,18 @@ impl Dispatch for DecrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        if req.key_type() == Some(KeyType::Float) {
+            let float = req
+                .typed_arg::<f64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int = req
+                .typed_arg::<i64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
+            IncrementBy::increment_int_by(hop, key, int.wrapping_neg(), resp)
         }
     }
 }
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7a7bc85..ebd97ad 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -1,5 +1,8 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::Value, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct IncrementBy;
@@ -44,12 +47,18 @@ impl Dispatch for IncrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            Self::increment_int_by(hop, key, int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        if req.key_type() == Some(KeyType::Float) {
+            let float = req
+                .typed_arg::<f64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
             Self::increment_float_by(hop, key, float, resp)
         } else {
-            Err(DispatchError::ArgumentRetrieval)
+            let int = req
+                .typed_arg::<i64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
+            Self::increment_int_by(hop, key, int, resp)
         }
     }
 }
-- 
2.43.0


From 59f14a3859643e3fec6246efb4e1ba4bc9414906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 18/46] fix: insert and retrieve a missing key in one step

---
 engine/src/state/mod.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 7321ed8..d4f5a08 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -177,18 +177,7 @@ impl State {
 
         debug_assert!(!key.is_empty());
 
-        loop {
-            match self.0.get_mut(key) {
-                Some(v) => {
-                    break v;
-                }
-                None => {
-                    self.0.insert(key.to_owned(), f());
-
-                    continue;
-                }
-            }
-        }
+        self.0.entry(key.to_owned()).or_insert_with(f)
     }
 
     /// Retrieve the key type of a key's value, if it exists.
-- 
2.43.0


From 0e8a3ed6210a7270b264f9cfe661f0298f85e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:45 +0000
Subject: [PATCH 19/46] fix: replace the value of a key in one step when
 setting it

---
 engine/src/command/impl/set.rs | 44 +++++++---------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/engine/src/command/impl/set.rs b/engine/src/command/impl/set.rs
index 633e836..38b982c 100644
--- a/engine/src/command/impl/set.rs
+++ b/engine/src/command/impl/set.rs
@@ -10,13 +10,8 @@ pub struct Set;
 impl Set {
     fn boolean(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::boolean);
-        let boolean = key
-            .as_boolean_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *boolean = arg;
+        *key = Value::Boolean(arg);
 
         response::write_bool(resp, arg);
 
@@ -27,11 +22,8 @@ impl Set {
         let arg = req
             .typed_arg::<&[u8]>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::bytes);
-        let bytes = key.as_bytes_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *bytes = arg.to_vec();
+        *key = Value::Bytes(arg.to_vec());
 
         response::write_bytes(resp, arg);
 
@@ -40,11 +32,8 @@ impl Set {
 
     fn float(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::float);
-        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *float = arg;
+        *key = Value::Float(arg);
 
         response::write_float(resp, arg);
 
@@ -53,13 +42,8 @@ impl Set {
 
     fn integer(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let int = key
-            .as_integer_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *int = arg;
+        *key = Value::Integer(arg);
 
         response::write_int(resp, arg);
 
@@ -68,11 +52,8 @@ impl Set {
 
     fn list(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::list);
-        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *list = args.map(ToOwned::to_owned).collect();
+        *key = Value::List(args.map(ToOwned::to_owned).collect());
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
 
         response::write_list(resp, args);
@@ -82,26 +63,20 @@ impl Set {
 
     fn map(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::map);
-        let map = key.as_map_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
         response::write_map(resp, &args);
 
-        *map = args;
+        *key = Value::Map(args);
 
         Ok(())
     }
 
     fn set(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::set);
-        let set = key.as_set_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
         response::write_set(resp, &args);
 
-        *set = args;
+        *key = Value::Set(args);
 
         Ok(())
     }
@@ -110,11 +85,8 @@ impl Set {
         let arg = req
             .typed_arg::<&str>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::string);
-        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *string = arg.to_owned();
+        *key = Value::String(arg.to_owned());
 
         response::write_str(resp, arg);
 
-- 
2.43.0


From c74dfe5eab147c1232a6ec67c39ff4ca2f8f120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:48 +0000
Subject: [PATCH 20/46] fix: treat an empty key as an unspecified key instead
 of panicking

---
 engine/src/command/impl/append.rs | 2 +-
 engine/src/command/impl/rename.rs | 7 +++++--
 engine/src/command/request/mod.rs | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index ca7a76f..7581ccb 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -59,7 +59,7 @@ impl Append {
 
 impl Dispatch for Append {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;
+        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
         let key_type = req
             .key_type()
diff --git a/engine/src/command/impl/rename.rs b/engine/src/command/impl/rename.rs
index 45d6c8c..fee5785 100644
--- a/engine/src/command/impl/rename.rs
+++ b/engine/src/command/impl/rename.rs
@@ -10,8 +10,11 @@ impl Dispatch for Rename {
             return Err(DispatchError::KeyTypeUnexpected);
         }
 
-        let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;
-        let arg = req.arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
+        let arg = req
+            .arg(1)
+            .filter(|arg| !arg.is_empty())
+            .ok_or(DispatchError::ArgumentRetrieval)?;
         let state = hop.state();
 
         if !state.contains_key(key) {
diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index b8b808b..636a6c6 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -192,7 +192,8 @@ impl<'a> Request<'a> {
             return None;
         }
 
-        self.arg(0)
+        // keys are never empty
+        self.arg(0).filter(|key| !key.is_empty())
     }
 
     /// Returns the requested type of key to work with, if any.
-- 
2.43.0


From 394eb16667ad8f1ba72237a41da15d44c7faa435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:34 +0000
Subject: [PATCH 21/46] fix: allot session IDs atomically

---
 engine/src/session/manager.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 1516c15..457cdcc 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -27,22 +27,16 @@ impl SessionManager {
     }
 
     pub fn add(&mut self, client_token: [u8; 32]) -> RefMut<'_, u32, Session> {
-        let session = Session::new(client_token, self.next_id());
+        loop {
+            let id = self.next_id();
 
-        let value = match self.0.sessions.entry(self.next_id()) {
-            Entry::Occupied(_) => {
-                unreachable!();
-            }
-            Entry::Vacant(v) => v.insert(session),
-        };
-
-        self.0.metrics_writer.increment(Metric::SessionsStarted);
+            // skip IDs that are still in use after IDs wrapped around
+            if let Entry::Vacant(v) = self.0.sessions.entry(id) {
+                self.0.metrics_writer.increment(Metric::SessionsStarted);
 
-        self.0
-            .next_id
-            .store(self.next_id().wrapping_add(1), Ordering::SeqCst);
-
-        value
+                return v.insert(Session::new(client_token, id));
+            }
+        }
     }
 
     pub fn remove(&self, id: u32) -> bool {
@@ -50,7 +44,7 @@ impl SessionManager {
     }
 
     fn next_id(&self) -> u32 {
-        self.0.next_id.load(Ordering::SeqCst)
+        self.0.next_id.fetch_add(1, Ordering::SeqCst)
     }
 }
 
-- 
2.43.0


From 87efdb72008b524162cb4d8d116aac237c96e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:37 +0000
Subject: [PATCH 22/46] fix: count ended sessions

---
 engine/src/session/manager.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 457cdcc..ae4b5e8 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -40,7 +40,13 @@ impl SessionManager {
     }
 
     pub fn remove(&self, id: u32) -> bool {
-        self.0.sessions.remove(&id).is_some()
+        let removed = self.0.sessions.remove(&id).is_some();
+
+        if removed {
+            self.0.metrics_writer.increment(Metric::SessionsEnded);
+        }
+
+        removed
     }
 
     fn next_id(&self) -> u32 {
-- 
2.43.0


From af2c6467b10b4046d36fe3eab1017602e0b705ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:40 +0000
Subject: [PATCH 23/46] fix: include ended sessions in stats

---
 engine/src/command/impl/stats.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/command/impl/stats.rs b/engine/src/command/impl/stats.rs
index 48e8db5..8126561 100644
--- a/engine/src/command/impl/stats.rs
+++ b/engine/src/command/impl/stats.rs
@@ -11,6 +11,7 @@ impl Stats {
     const COUNTERS: &'static [Metric] = &[
         Metric::CommandsErrored,
         Metric::CommandsSuccessful,
+        Metric::SessionsEnded,
         Metric::SessionsStarted,
     ];
 }
-- 
2.43.0


From b70f3cd8a575b43ac7bcbefb6c2b451028cc6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:44 +0000
Subject: [PATCH 24/46] fix: register every session subscribed to a key

---
 engine/src/pubsub/manager.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 2c04fde..34f1726 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -40,15 +40,13 @@ impl PubSubManager {
             }
         };
 
-        match self.0.keys.entry(object_key) {
-            Entry::Occupied(_) => None,
-            Entry::Vacant(v) => {
-                let set = v.insert(DashSet::new());
-                set.insert(session_id);
+        self.0
+            .keys
+            .entry(object_key)
+            .or_default()
+            .insert(session_id);
 
-                Some(subscription)
-            }
-        }
+        Some(subscription)
     }
 
     /// Unsubscribes a session by ID from an object key.
-- 
2.43.0


From 9939db1d36ab42f85e5b9e1b845c5cb2aac19ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:47 +0000
Subject: [PATCH 25/46] fix: forget the keys a removed session was subscribed
 to

---
 engine/src/pubsub/manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 34f1726..b6cc73a 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -80,7 +80,11 @@ impl PubSubManager {
             .sessions
             .remove(&session_id)
             .map(|(_, subscriptions)| {
-                for (_, sub) in subscriptions.into_iter() {
+                for (object_key, sub) in subscriptions.into_iter() {
+                    if let Some(sessions) = self.0.keys.get(&object_key) {
+                        sessions.remove(&session_id);
+                    }
+
                     sub.close();
                 }
             })
-- 
2.43.0


From 1900889d8d0e4bfbd757286ec43865c29114a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 26/46] fix: report whether a removed session had any
 subscriptions

---
 engine/src/pubsub/manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index b6cc73a..33acc43 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -80,6 +80,8 @@ impl PubSubManager {
             .sessions
             .remove(&session_id)
             .map(|(_, subscriptions)| {
+                let subscribed = !subscriptions.is_empty();
+
                 for (object_key, sub) in subscriptions.into_iter() {
                     if let Some(sessions) = self.0.keys.get(&object_key) {
                         sessions.remove(&session_id);
@@ -87,8 +89,10 @@ impl PubSubManager {
 
                     sub.close();
                 }
+
+                subscribed
             })
-            .is_some()
+            .unwrap_or(false)
     }
 }
 
-- 
2.43.0


From ab160d13906a1a6c6cb19830f9547cf178478cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:27 +0000
Subject: [PATCH 27/46] fix: read the amount of bytes a response needs

---
 client/src/backend/server.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 9cb7484..50bd364 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -15,7 +15,10 @@ use hop_engine::{
     },
     state::{KeyType, Value},
 };
-use std::{error::Error as StdError, io::Error as IoError};
+use std::{
+    error::Error as StdError,
+    io::{Error as IoError, ErrorKind},
+};
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt, BufReader},
     net::{
@@ -123,21 +126,12 @@ impl ServerBackend {
             .map_err(|source| Error::WritingMessage { source })?;
 
         let mut ctx = Context::new();
-        let mut resp = Vec::with_capacity(1);
+        let mut resp = Vec::new();
 
         let mut reader = self.reader.lock().await;
 
         loop {
-            let read_amount = reader
-                .read_exact(&mut resp)
-                .await
-                .map_err(|source| Error::ReadingMessage { source })?;
-
-            if read_amount == 0 {
-                return Err(Error::ConnectionClosed);
-            }
-
-            match ctx.feed(&resp).unwrap() {
+            match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
                     return match response {
                         Response::Value(value) => Ok(value),
@@ -146,7 +140,16 @@ impl ServerBackend {
                     }
                 }
                 Instruction::ReadBytes(bytes) => {
-                    resp.reserve_exact(bytes);
+                    let start = resp.len();
+                    resp.resize(start + bytes, 0);
+
+                    reader
+                        .read_exact(&mut resp[start..])
+                        .await
+                        .map_err(|source| match source.kind() {
+                            ErrorKind::UnexpectedEof => Error::ConnectionClosed,
+                            _ => Error::ReadingMessage { source },
+                        })?;
                 }
             }
         }
-- 
2.43.0


From f9b2307ac10dd5ec1c28166f74f150e78ac3363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:29 +0000
Subject: [PATCH 28/46] fix: receive responses in the order their requests were
 written

---
 client/src/backend/server.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 50bd364..729a584 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -118,9 +118,9 @@ impl ServerBackend {
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
-        self.writer
-            .lock()
-            .await
+        let mut writer = self.writer.lock().await;
+
+        writer
             .write_all(request.into().as_bytes())
             .await
             .map_err(|source| Error::WritingMessage { source })?;
@@ -128,7 +128,10 @@ impl ServerBackend {
         let mut ctx = Context::new();
         let mut resp = Vec::new();
 
+        // Responses are sent in the order of the requests, so the next writer
+        // can only continue once this one is in line for its response.
         let mut reader = self.reader.lock().await;
+        drop(writer);
 
         loop {
             match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
-- 
2.43.0


From ce3409645eec25806ddb44aa9678a3edd1dd97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 29/46] fix: send the key type of an increment to the server

---
 client/src/backend/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 729a584..f607415 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -293,8 +293,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn increment(&self, key: &[u8], _: Option<KeyType>) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Increment);
+    async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Increment, key_type);
         builder.bytes(key)?;
 
         let value = self.send_and_wait(builder).await?;
-- 
2.43.0


From dea8fdbcb4ea1744eab642676bffc922aff786af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 30/46] fix: serve requests by their own framing instead of by
 lines

---
 server/src/main.rs | 51 +++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index ed393e0..7db4508 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -14,12 +14,15 @@ use std::{
     str::FromStr as _,
 };
 use tokio::{
-    io::{AsyncBufReadExt, AsyncWriteExt, BufReader},
+    io::{AsyncReadExt, AsyncWriteExt},
     net::{TcpListener, TcpStream},
     stream::StreamExt,
     task,
 };
 
+/// The maximum number of bytes to read from a socket at once.
+const READ_SIZE: usize = 4096;
+
 struct Config {
     host: IpAddr,
     port: u16,
@@ -83,36 +86,46 @@ async fn handle_socket_inner(socket: TcpStream, hop: Hop) -> Result<(), Box<dyn
     let mut input = Vec::new();
     let mut ctx = Context::new();
 
-    let (reader, mut writer) = socket.into_split();
-    let mut reader = BufReader::new(reader);
+    let (mut reader, mut writer) = socket.into_split();
+    let mut chunk = [0; READ_SIZE];
     let mut resp = Vec::new();
 
-    while let Ok(size) = reader.read_until(b'\n', &mut input).await {
+    while let Ok(size) = reader.read(&mut chunk).await {
         // If we get no bytes then we're EOF.
         if size == 0 {
             break;
         }
 
-        match ctx.feed(&input) {
-            Ok(Some(req)) => match hop.dispatch(&req, &mut resp) {
-                Ok(()) => {}
+        input.extend_from_slice(&chunk[..size]);
+
+        // What was read might be anything from a part of a request to multiple
+        // requests.
+        while !input.is_empty() {
+            let consumed = match ctx.feed(&input) {
+                Ok(Some(req)) => {
+                    if let Err(why) = hop.dispatch(&req, &mut resp) {
+                        let res = Response::DispatchError(why);
+
+                        res.copy_to(&mut resp);
+                    }
+
+                    req.as_bytes().len()
+                }
+                Ok(None) => break,
                 Err(why) => {
-                    let res = Response::DispatchError(why);
+                    let res = Response::ParseError(why);
 
                     res.copy_to(&mut resp);
-                }
-            },
-            Ok(None) => continue,
-            Err(why) => {
-                let res = Response::ParseError(why);
 
-                res.copy_to(&mut resp);
-            }
-        };
+                    // there's no telling where the next request starts
+                    input.len()
+                }
+            };
 
-        writer.write_all(&resp).await?;
-        resp.clear();
-        input.clear();
+            input.drain(..consumed);
+            writer.write_all(&resp).await?;
+            resp.clear();
+        }
     }
 
     Ok(())
-- 
2.43.0


From 3f267468ab65472b256010db45d07634a972360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 31/46] fix: strip only the trailing newline of printed lists
 and maps

---
 cli/lib/src/print.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/print.rs b/cli/lib/src/print.rs
index 5342522..6b8899a 100644
--- a/cli/lib/src/print.rs
+++ b/cli/lib/src/print.rs
@@ -21,7 +21,7 @@ pub fn list<T: IntoIterator<Item = U>, U: AsRef<[u8]>>(items: T) -> String {
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    output.pop();
 
     output
 }
@@ -36,7 +36,7 @@ pub fn map<T: IntoIterator<Item = (U, V)>, U: AsRef<[u8]>, V: AsRef<[u8]>>(pairs
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    output.pop();
 
     output
 }
-- 
2.43.0


From 84032f972a9ebaf30ca1fb4a443780e7348e7787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 32/46] fix: reject maps with an incomplete pair on the command
 line

---
 cli/lib/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 77f9b9a..d876f8f 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -159,7 +159,11 @@ fn input_args<'a>(
             KeyType::Map => {
                 let value = match iter.next() {
                     Some(arg) => arg.as_bytes().to_vec(),
-                    None => break,
+                    None => {
+                        return Err(ParseError::MapIncomplete {
+                            key: arg.to_owned(),
+                        })
+                    }
                 };
 
                 args.push(arg.as_bytes().to_vec());
-- 
2.43.0


From cd20af759af6a7c15eb7a623747db811e733c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 33/46] fix: keep commands without a key type untyped on the
 command line

---
 cli/lib/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index d876f8f..5cd7200 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -69,9 +69,14 @@ pub fn parse(input: &str) -> Result<Request, ParseError> {
         provided_name: cmd_name.to_owned(),
     })?;
 
-    let key_type = key_type.unwrap_or(KeyType::Bytes);
     let mut builder = RequestBuilder::new_with_key_type(cmd_id, key_type);
 
+    // Without an explicit type, arguments have the default type of the command.
+    let key_type = key_type.unwrap_or(match cmd_id {
+        CommandId::DecrementBy | CommandId::IncrementBy => KeyType::Integer,
+        _ => KeyType::Bytes,
+    });
+
     let mut arg_iter = split.peekable();
 
     if arg_iter.peek().is_some() {
-- 
2.43.0


From 3307c234681b9afd9db3dcd02185b1d29aad60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 34/46] fix: have typed gets of a different type fail instead
 of panicking

---
 client/src/backend/memory.rs          | 4 ++--
 client/src/backend/mod.rs             | 2 +-
 client/src/backend/server.rs          | 4 ++--
 client/src/request/get/get_boolean.rs | 4 ++--
 client/src/request/get/get_bytes.rs   | 4 ++--
 client/src/request/get/get_float.rs   | 4 ++--
 client/src/request/get/get_integer.rs | 4 ++--
 client/src/request/get/get_list.rs    | 4 ++--
 client/src/request/get/get_map.rs     | 4 ++--
 client/src/request/get/get_set.rs     | 4 ++--
 client/src/request/get/get_string.rs  | 4 ++--
 client/src/request/get/mod.rs         | 2 +-
 12 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/client/src/backend/memory.rs b/client/src/backend/memory.rs
index 1d00a44..c216280 100644
--- a/client/src/backend/memory.rs
+++ b/client/src/backend/memory.rs
@@ -216,8 +216,8 @@ impl Backend for MemoryBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send(builder)
diff --git a/client/src/backend/mod.rs b/client/src/backend/mod.rs
index df98f63..3483158 100644
--- a/client/src/backend/mod.rs
+++ b/client/src/backend/mod.rs
@@ -52,7 +52,7 @@ pub trait Backend: Send + Sync {
     where
         Self: Sized;
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error>
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error>
     where
         Self: Sized;
 
diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index f607415..e89aa12 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -265,8 +265,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send_and_wait(builder).await
diff --git a/client/src/request/get/get_boolean.rs b/client/src/request/get/get_boolean.rs
index 9a18fa9..dfd34ce 100644
--- a/client/src/request/get/get_boolean.rs
+++ b/client/src/request/get/get_boolean.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a boolean when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Boolean)).await?;
 
                 match value {
                     Value::Boolean(bool) => Ok(bool),
diff --git a/client/src/request/get/get_bytes.rs b/client/src/request/get/get_bytes.rs
index 1d7622f..0f10cb3 100644
--- a/client/src/request/get/get_bytes.rs
+++ b/client/src/request/get/get_bytes.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to bytes when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Bytes)).await?;
 
                 match value {
                     Value::Bytes(bytes) => Ok(bytes),
diff --git a/client/src/request/get/get_float.rs b/client/src/request/get/get_float.rs
index 512960e..dc4c2f4 100644
--- a/client/src/request/get/get_float.rs
+++ b/client/src/request/get/get_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Float)).await?;
 
                 match value {
                     Value::Float(float) => Ok(float),
diff --git a/client/src/request/get/get_integer.rs b/client/src/request/get/get_integer.rs
index 18e1af2..cd09047 100644
--- a/client/src/request/get/get_integer.rs
+++ b/client/src/request/get/get_integer.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to an integer when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Integer)).await?;
 
                 match value {
                     Value::Integer(int) => Ok(int),
diff --git a/client/src/request/get/get_list.rs b/client/src/request/get/get_list.rs
index b4a6fe3..5a0afc6 100644
--- a/client/src/request/get/get_list.rs
+++ b/client/src/request/get/get_list.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a list when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::List)).await?;
 
                 match value {
                     Value::List(list) => Ok(list),
diff --git a/client/src/request/get/get_map.rs b/client/src/request/get/get_map.rs
index 4641c57..fddf6e3 100644
--- a/client/src/request/get/get_map.rs
+++ b/client/src/request/get/get_map.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashMap, state::Value};
+use hop_engine::{dashmap::DashMap, state::{KeyType, Value}};
 
 /// A configured `get` command that will resolve to a map when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Map)).await?;
 
                 match value {
                     Value::Map(map) => Ok(map),
diff --git a/client/src/request/get/get_set.rs b/client/src/request/get/get_set.rs
index 91037c4..a2fee20 100644
--- a/client/src/request/get/get_set.rs
+++ b/client/src/request/get/get_set.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashSet, state::Value};
+use hop_engine::{dashmap::DashSet, state::{KeyType, Value}};
 
 /// A configured `get` command that will resolve to a set when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Set)).await?;
 
                 match value {
                     Value::Set(set) => Ok(set),
diff --git a/client/src/request/get/get_string.rs b/client/src/request/get/get_string.rs
index 02ffc62..fc7c444 100644
--- a/client/src/request/get/get_string.rs
+++ b/client/src/request/get/get_string.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a string when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::String)).await?;
 
                 match value {
                     Value::String(string) => Ok(string),
diff --git a/client/src/request/get/mod.rs b/client/src/request/get/mod.rs
index 770d270..9819d4c 100644
--- a/client/src/request/get/mod.rs
+++ b/client/src/request/get/mod.rs
@@ -281,7 +281,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin + 'a>
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                backend.get(key).await
+                backend.get(key, None).await
             }));
         }
 
-- 
2.43.0


From 61f2c41917b08584c6605d8de5325be07a217d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:29 +0000
Subject: [PATCH 35/46] fix: return the error of a failed connection instead of
 panicking

---
 client/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index b3f4459..8e10c47 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -48,7 +48,7 @@ impl Client<backend::ServerBackend> {
     pub async fn connect(
         addrs: impl tokio::net::ToSocketAddrs,
     ) -> Result<Self, <backend::ServerBackend as Backend>::Error> {
-        let backend = backend::ServerBackend::connect(addrs).await.unwrap();
+        let backend = backend::ServerBackend::connect(addrs).await?;
 
         Ok(Self {
             backend: Arc::new(backend),
-- 
2.43.0


From 0ee28095ed9cb478b68916505fb5338433530838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 36/46] fix: honour the float key type of increments on the
 command line

---
 cli/lib/src/process.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index d3b37ba..8461469 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -9,7 +9,10 @@ use hop::{
     request::CommandConfigurationError,
     Client,
 };
-use hop_engine::command::{CommandId, DispatchError, Request};
+use hop_engine::{
+    command::{CommandId, DispatchError, Request},
+    state::{KeyType, Value},
+};
 use std::error::Error;
 
 #[derive(Debug)]
@@ -211,7 +214,14 @@ where
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.decrement(key).await.map_err(backend_err)?;
+            let request = client.decrement(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Float) => Value::Float(request.float().await.map_err(backend_err)?),
+                Some(KeyType::Integer) => Value::Integer(request.int().await.map_err(backend_err)?),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => request.await.map_err(backend_err)?,
+            };
 
             Ok(print::value(v).into())
         }
@@ -267,7 +277,14 @@ where
         CommandId::Increment => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.increment(key).await.map_err(backend_err)?;
+            let request = client.increment(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Float) => Value::Float(request.float().await.map_err(backend_err)?),
+                Some(KeyType::Integer) => Value::Integer(request.int().await.map_err(backend_err)?),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => request.await.map_err(backend_err)?,
+            };
 
             Ok(print::value(v).into())
         }
-- 
2.43.0


From 44c7adae36ec863d1f2d48f1d12f5a14a80b8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 37/46] fix: run every command on the command line instead of
 panicking

---
 cli/lib/src/process.rs | 117 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 116 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index 8461469..13f7066 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -211,6 +211,23 @@ where
     B::Error: Error,
 {
     match req.command_id() {
+        CommandId::Append => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let request = client.append(key);
+
+            let v = match value(&req)? {
+                Value::Bytes(bytes) => {
+                    Value::Bytes(request.bytes(bytes).await.map_err(backend_err)?)
+                }
+                Value::List(list) => Value::List(request.list(list).await.map_err(backend_err)?),
+                Value::String(string) => {
+                    Value::String(request.string(string).await.map_err(backend_err)?)
+                }
+                _ => return Err(InnerProcessError::KeyTypeInvalid),
+            };
+
+            Ok(print::value(v).into())
+        }
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
@@ -225,6 +242,30 @@ where
 
             Ok(print::value(v).into())
         }
+        CommandId::DecrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let request = client.decrement(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Float) => {
+                    let amount = req
+                        .typed_arg(1)
+                        .ok_or_else(|| InnerProcessError::TooFewArguments)?;
+
+                    Value::Float(request.float().by(amount).await.map_err(backend_err)?)
+                }
+                Some(KeyType::Integer) | None => {
+                    let amount = req
+                        .typed_arg(1)
+                        .ok_or_else(|| InnerProcessError::TooFewArguments)?;
+
+                    Value::Integer(request.int().by(amount).await.map_err(backend_err)?)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+            };
+
+            Ok(print::value(v).into())
+        }
         CommandId::Delete => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
@@ -288,6 +329,30 @@ where
 
             Ok(print::value(v).into())
         }
+        CommandId::IncrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let request = client.increment(key);
+
+            let v = match req.key_type() {
+                Some(KeyType::Float) => {
+                    let amount = req
+                        .typed_arg(1)
+                        .ok_or_else(|| InnerProcessError::TooFewArguments)?;
+
+                    Value::Float(request.float().by(amount).await.map_err(backend_err)?)
+                }
+                Some(KeyType::Integer) | None => {
+                    let amount = req
+                        .typed_arg(1)
+                        .ok_or_else(|| InnerProcessError::TooFewArguments)?;
+
+                    Value::Integer(request.int().by(amount).await.map_err(backend_err)?)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+            };
+
+            Ok(print::value(v).into())
+        }
         CommandId::Is => {
             let key_type = req
                 .key_type()
@@ -308,6 +373,24 @@ where
 
             Ok(print_list(v).into())
         }
+        CommandId::Length => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let request = client.length(key);
+
+            let request = match req.key_type() {
+                Some(KeyType::Bytes) => request.bytes(),
+                Some(KeyType::List) => request.list(),
+                Some(KeyType::Map) => request.map(),
+                Some(KeyType::Set) => request.set(),
+                Some(KeyType::String) => request.string(),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => request,
+            };
+
+            let length = request.await.map_err(backend_err)?;
+
+            Ok(length.to_string().into())
+        }
         CommandId::Rename => {
             let from = req
                 .key()
@@ -320,6 +403,17 @@ where
 
             Ok(String::from_utf8_lossy(&v).into_owned().into())
         }
+        CommandId::Set => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+
+            let v = client
+                .set(key)
+                .value(value(&req)?)
+                .await
+                .map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
         CommandId::Stats => {
             let stats = client.stats().await.map_err(backend_err)?;
 
@@ -346,10 +440,31 @@ where
 
             Ok(print::key_type_name(key_type).into())
         }
-        _ => panic!(),
     }
 }
 
+/// Retrieve the value of a request, which is its arguments following the key.
+fn value<B: Backend>(req: &Request<'_>) -> Result<Value, InnerProcessError<B>> {
+    let value = match req.key_type().unwrap_or(KeyType::Bytes) {
+        KeyType::Boolean => req.typed_arg(1).map(Value::Boolean),
+        KeyType::Bytes => req
+            .typed_arg::<&[u8]>(1)
+            .map(|bytes| Value::Bytes(bytes.to_vec())),
+        KeyType::Float => req.typed_arg(1).map(Value::Float),
+        KeyType::Integer => req.typed_arg(1).map(Value::Integer),
+        KeyType::List => req
+            .args(1..)
+            .map(|items| Value::List(items.map(<[u8]>::to_vec).collect())),
+        KeyType::Map => req.typed_args().map(Value::Map),
+        KeyType::Set => req.typed_args().map(Value::Set),
+        KeyType::String => req
+            .typed_arg::<&str>(1)
+            .map(|string| Value::String(string.to_owned())),
+    };
+
+    value.ok_or(InnerProcessError::TooFewArguments)
+}
+
 fn print_list(list: Vec<Vec<u8>>) -> String {
     list.into_iter()
         .map(|item| String::from_utf8_lossy(&item).into_owned())
-- 
2.43.0


From 274e5e0f5e4aed0e82bee61dcd5f464e3164d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 38/46] fix: reject map keys and set items that are too long
 for a response

---
 engine/src/command/request/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index 636a6c6..fd95808 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -67,6 +67,11 @@ impl MultiArgument<'_> for DashMap<Vec<u8>, Vec<u8>> {
         let map = DashMap::new();
 
         while let (Some(k), Some(v)) = (args.next(), args.next()) {
+            // lengths of keys are a single byte in responses
+            if k.len() > u8::MAX as usize {
+                return None;
+            }
+
             map.insert(k.to_owned(), v.to_owned());
         }
 
@@ -79,6 +84,11 @@ impl MultiArgument<'_> for DashSet<Vec<u8>> {
         let set = DashSet::new();
 
         for arg in args {
+            // lengths of items are two bytes in responses
+            if arg.len() > u16::MAX as usize {
+                return None;
+            }
+
             set.insert(arg.to_owned());
         }
 
-- 
2.43.0


From eeea7f96df42cf79e6f310982a865847a5eaa843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:44 +0000
Subject: [PATCH 39/46] fix: conclude maps and sets after their items even if
 some are the same

---
 engine/src/command/response/context.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index a8ef7de..6a5a0ae 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -349,10 +349,14 @@ impl Context {
         };
 
         match self.stage {
-            Stage::Map { ref map, len } => {
+            Stage::Map {
+                ref map,
+                ref mut len,
+            } => {
                 map.insert(key.to_vec(), value.to_vec());
+                *len -= 1;
 
-                if map.len() < len as usize {
+                if *len > 0 {
                     self.idx = value_end;
 
                     return Ok(None);
@@ -498,10 +502,14 @@ impl Context {
         };
 
         match self.stage {
-            Stage::Set { ref args, len } => {
+            Stage::Set {
+                ref args,
+                ref mut len,
+            } => {
                 args.insert(arg.to_vec());
+                *len -= 1;
 
-                if args.len() < len as usize {
+                if *len > 0 {
                     self.idx = arg_value_end;
 
                     return Ok(None);
-- 
2.43.0


From 8bbb8a268d730bcfc8011aa4afc3debd4325ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 40/46] fix: refuse appends that make a list too long for a
 response

---
 engine/src/command/impl/append.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index 7581ccb..f12fd3b 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -29,6 +29,11 @@ impl Append {
         let mut key = hop.state().key_or_insert_with(key, Value::list);
         let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
+        // A response can only contain up to u16 items.
+        if list.len() + args.len() > u16::MAX as usize {
+            return Err(DispatchError::PreconditionFailed);
+        }
+
         list.append(&mut args.map(ToOwned::to_owned).collect());
 
         response::write_list(resp, list.iter());
-- 
2.43.0


From d10bf2cdc3494a84d472b996b4acd65b5196f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 41/46] fix: refuse maps with an incomplete pair

---
 engine/src/command/request/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index fd95808..b63eaa8 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -64,6 +64,11 @@ impl Argument<'_> for i64 {
 
 impl MultiArgument<'_> for DashMap<Vec<u8>, Vec<u8>> {
     fn convert(mut args: Arguments<'_>) -> Option<Self> {
+        // every key needs a value
+        if args.len() % 2 != 0 {
+            return None;
+        }
+
         let map = DashMap::new();
 
         while let (Some(k), Some(v)) = (args.next(), args.next()) {
-- 
2.43.0


From bdb9d5ac38fa7d1145f1c93df4dc53e0a6209c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 42/46] fix: refuse to append text that isn't valid instead of
 skipping it

---
 engine/src/command/impl/append.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index f12fd3b..892acb0 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -47,13 +47,15 @@ impl Append {
         resp: &mut Vec<u8>,
         key: &[u8],
     ) -> DispatchResult<()> {
+        let args = args
+            .map(str::from_utf8)
+            .collect::<Result<Vec<_>, _>>()
+            .map_err(|_| DispatchError::ArgumentRetrieval)?;
         let mut key = hop.state().key_or_insert_with(key, Value::string);
         let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         for arg in args {
-            if let Ok(arg) = str::from_utf8(arg) {
-                string.push_str(arg);
-            }
+            string.push_str(arg);
         }
 
         response::write_str(resp, &string);
-- 
2.43.0


From 9100d829e544f70e9a84d5236a6cc5f27a716354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:10 +0000
Subject: [PATCH 43/46] fix: end subscriptions in one step

---
 engine/src/pubsub/manager.rs | 68 +++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 33acc43..90fe667 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -54,45 +54,47 @@ impl PubSubManager {
     /// Returns whether unsubscribing was successful. This will only be
     /// unsuccessful if the session wasn't subscribed to the key.
     pub fn unsubscribe(&self, object_key: &[u8], session_id: SessionId) -> bool {
-        let key_unsubbed = self
-            .0
-            .keys
-            .get(object_key)
-            .and_then(|sessions| sessions.remove(&session_id))
-            .is_some();
-        let session_unsubbed = self
-            .0
-            .sessions
-            .get(&session_id)
-            .and_then(|keys| keys.remove(object_key))
-            .is_some();
-
-        // Really either both of these should be true or both false, but we'll
-        // handle state inconsistencies elsewhere...
-        key_unsubbed || session_unsubbed
+        // The session is held until its key is forgotten, so that subscribing to
+        // the key in the meantime doesn't get lost.
+        let session = match self.0.sessions.get(&session_id) {
+            Some(session) => session,
+            None => return false,
+        };
+
+        if session.remove(object_key).is_none() {
+            return false;
+        }
+
+        if let Some(sessions) = self.0.keys.get(object_key) {
+            sessions.remove(&session_id);
+        }
+
+        true
     }
 
     /// Unsubscribes a session from all of its subscriptions.
     ///
     /// Returns whether the session was subscribed to any channels.
     pub fn remove_session(&self, session_id: SessionId) -> bool {
-        self.0
-            .sessions
-            .remove(&session_id)
-            .map(|(_, subscriptions)| {
-                let subscribed = !subscriptions.is_empty();
-
-                for (object_key, sub) in subscriptions.into_iter() {
-                    if let Some(sessions) = self.0.keys.get(&object_key) {
-                        sessions.remove(&session_id);
-                    }
-
-                    sub.close();
-                }
-
-                subscribed
-            })
-            .unwrap_or(false)
+        // As when unsubscribing, the session is held until its keys are
+        // forgotten.
+        let session = match self.0.sessions.entry(session_id) {
+            Entry::Occupied(session) => session,
+            Entry::Vacant(_) => return false,
+        };
+        let subscribed = !session.get().is_empty();
+
+        for sub in session.get().iter() {
+            if let Some(sessions) = self.0.keys.get(sub.key()) {
+                sessions.remove(&session_id);
+            }
+
+            sub.value().close();
+        }
+
+        session.remove();
+
+        subscribed
     }
 }
 
-- 
2.43.0


From f4c5d79b691af3688f245c99e435805f7b09d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:26 +0000
Subject: [PATCH 44/46] fix: keep serving after a connection could not be
 accepted

---
 server/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 7db4508..ead24ba 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -64,8 +64,14 @@ async fn main() -> Result<(), Box<dyn Error>> {
 
     debug!("Listening for new connections on {}", addr);
 
-    while let Some(Ok(socket)) = incoming.next().await {
-        task::spawn(handle_socket(socket, hop.clone()));
+    while let Some(socket) = incoming.next().await {
+        match socket {
+            Ok(socket) => {
+                task::spawn(handle_socket(socket, hop.clone()));
+            }
+            // others can still be accepted, and served
+            Err(why) => warn!("Error accepting a connection: {:?}", why),
+        }
     }
 
     Ok(())
-- 
2.43.0


From 7fc4841c532ee0b210592f534ae210a5183b81f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 45/46] fix: don't answer a request with the response of one
 that was given up

---
 client/src/backend/server.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index e89aa12..1c60f8e 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -99,8 +99,11 @@ impl From<RequestBuilderError> for Error {
 
 #[derive(Debug)]
 pub struct ServerBackend {
-    reader: Mutex<BufReader<OwnedReadHalf>>,
-    writer: Mutex<OwnedWriteHalf>,
+    // A half is taken out while it's used, and only put back after a whole
+    // response was read or a whole request was written. If that fails or is
+    // given up, then what follows on the connection can't be told apart.
+    reader: Mutex<Option<BufReader<OwnedReadHalf>>>,
+    writer: Mutex<Option<OwnedWriteHalf>>,
 }
 
 impl ServerBackend {
@@ -112,13 +115,14 @@ impl ServerBackend {
         let (reader, writer) = stream.into_split();
 
         Ok(Self {
-            reader: Mutex::new(BufReader::new(reader)),
-            writer: Mutex::new(writer),
+            reader: Mutex::new(Some(BufReader::new(reader))),
+            writer: Mutex::new(Some(writer)),
         })
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
-        let mut writer = self.writer.lock().await;
+        let mut writer_slot = self.writer.lock().await;
+        let mut writer = writer_slot.take().ok_or(Error::ConnectionClosed)?;
 
         writer
             .write_all(request.into().as_bytes())
@@ -130,12 +134,16 @@ impl ServerBackend {
 
         // Responses are sent in the order of the requests, so the next writer
         // can only continue once this one is in line for its response.
-        let mut reader = self.reader.lock().await;
-        drop(writer);
+        let mut reader_slot = self.reader.lock().await;
+        let mut reader = reader_slot.take().ok_or(Error::ConnectionClosed)?;
+        writer_slot.replace(writer);
+        drop(writer_slot);
 
         loop {
             match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
+                    reader_slot.replace(reader);
+
                     return match response {
                         Response::Value(value) => Ok(value),
                         Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
-- 
2.43.0


From 1ec9b29155e73e27bb80af957396886b5f4cfc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:07 +0000
Subject: [PATCH 46/46] fix: go on after a line that is no command, and end
 with the input

---
 cli/bin/src/main.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cli/bin/src/main.rs b/cli/bin/src/main.rs
index 4851b5b..47c44d1 100644
--- a/cli/bin/src/main.rs
+++ b/cli/bin/src/main.rs
@@ -3,7 +3,7 @@
 #![allow(clippy::multiple_crate_versions)]
 
 use hop::Client;
-use std::error::Error;
+use std::{borrow::Cow, error::Error};
 use tokio::{
     io::{self, AsyncBufReadExt, AsyncWrite, AsyncWriteExt, BufReader},
     runtime::Builder as RuntimeBuilder,
@@ -28,9 +28,14 @@ async fn run(
     loop {
         writer.write_all(b"> ").await?;
         writer.flush().await?;
-        reader.read_line(&mut input).await?;
 
-        let mut output = hop_cli::process(&client, input.trim_end()).await?;
+        if reader.read_line(&mut input).await? == 0 {
+            return Ok(());
+        }
+
+        let mut output = hop_cli::process(&client, input.trim_end())
+            .await
+            .unwrap_or_else(|source| Cow::Owned(source.to_string()));
         output.to_mut().push('\n');
 
         writer.write_all(output.as_bytes()).await?;
-- 
2.43.0

