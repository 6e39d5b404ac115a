From 743256cfddb2dd7d1e5d674f44e0059c8014f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 01/25] fix: report the unparsed remainder in Partial and
 PartialError results

---
 src/internals/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 65976ab..a2189f2 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -46,7 +46,6 @@ impl<'a> Parser<'a> {
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-    let leftover = self.leftover.into();
     // let mut res = self.result;
     match res {
       IResult::Done(i, o) => {
@@ -55,6 +54,7 @@ impl<'a> Parser<'a> {
       },
       _ => return (self, ParseResult::Failure(line_count, 0)),
     };
+    let leftover = self.leftover.into();
     if self.leftover.len() > 0 {
       let len = self.errors.borrow().len();
       if len > 0 {
-- 
2.43.0


From ccf019400a508b5c900336711a4e8acb1d3f1569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 02/25] fix: display empty arrays and inline tables without
 underflowing

---
 src/internals/ast/structs.rs |  6 +++---
 src/types.rs                 | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index b9b10c5..b339aad 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -753,10 +753,10 @@ impl<'a> PartialEq for InlineTable<'a> {
 impl<'a> Display for InlineTable<'a> {
   fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
     try!(write!(f, "{{{}", self.ws.ws1));
-    for i in 0..self.keyvals.len() - 1 {
-      try!(write!(f, "{}", self.keyvals[i]));
-    }
     if self.keyvals.len() > 0 {
+      for i in 0..self.keyvals.len() - 1 {
+        try!(write!(f, "{}", self.keyvals[i]));
+      }
       try!(write!(f, "{}", self.keyvals[self.keyvals.len() - 1]));
     }
     write!(f, "{}}}", self.ws.ws2)
diff --git a/src/types.rs b/src/types.rs
index 5579c3f..dd92189 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -280,10 +280,10 @@ impl<'a> Display for Value<'a> {
       &Value::DateTime(ref v) => write!(f, "{}", v),
       &Value::Array(ref arr) => {
         try!(write!(f, "["));
-        for i in 0..arr.len() - 1 {
-          try!(write!(f, "{}, ", arr[i]));
-        }
         if arr.len() > 0 {
+          for i in 0..arr.len() - 1 {
+            try!(write!(f, "{}, ", arr[i]));
+          }
           try!(write!(f, "{}", arr[arr.len()-1]));
         }
         write!(f, "]")
@@ -298,10 +298,10 @@ impl<'a> Display for Value<'a> {
       },
       &Value::InlineTable(ref it) => {
         try!(write!(f, "{{"));
-        for i in 0..it.len() - 1 {
-          try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
-        }
         if it.len() > 0 {
+          for i in 0..it.len() - 1 {
+            try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
+          }
           try!(write!(f, "{} = {}", it[it.len()-1].0, it[it.len()-1].1));
         }
         write!(f, "}}")
-- 
2.43.0


From 7d3123ab3ffd957fadd8aa2ffbf3c922b9e63af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 03/25] fix: display a parser that holds no document as the
 empty string

---
 src/internals/ast/structs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index b339aad..57b92d7 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -36,6 +36,9 @@ impl<'a> PartialEq for Toml<'a> {
 
 impl<'a> Display for Toml<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+      if self.exprs.len() == 0 {
+        return Ok(());
+      }
       for i in 0..self.exprs.len()-1 {
         try!(write!(f, "{}", self.exprs[i]));
       }
-- 
2.43.0


From 94d4dbb79f1bbbd9e25c815555746e18470aa38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 04/25] fix: get_value on the key of a table returns None
 instead of panicking

---
 src/internals/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index a2189f2..b2be0e4 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -102,6 +102,9 @@ impl<'a> Parser<'a> {
       let hashval = self.map.get(&s_key).unwrap();
       let clone = hashval.clone();
       if let Some(val) = clone.value {
+        if let TOMLValue::Table = *val.borrow() {
+          return None;
+        }
         Some(to_val!(&*val.borrow()))
       } else {
         None
-- 
2.43.0


From 96e45fcb65474b118c23ee63ffb587e2028eed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 05/25] fix: set_value validates the whole new value before
 changing anything

---
 src/internals/parser.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index b2be0e4..e6d65c4 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -132,6 +132,11 @@ impl<'a> Parser<'a> {
 
   pub fn set_value<S>(self: &mut Parser<'a>, key: S, val: Value<'a>) -> bool where S: Into<String> {
     let s_key = key.into();
+    // check the whole new value before anything is changed
+    let new_value = match Parser::convert_vector(&val) {
+      Some(v) => v,
+      None => return false,
+    };
     {
       let tval = match self.map.entry(s_key.clone()) {
         Entry::Occupied(entry) => entry.into_mut(),
@@ -142,6 +147,10 @@ impl<'a> Parser<'a> {
         &mut Some(ref mut v) => v,
         &mut None => return false,
       };
+      // a table isn't a value that can be replaced
+      if let TOMLValue::Table = *val_rf.borrow() {
+        return false;
+      }
       // if the inline table/array has the same structure the just replace the values
       if Parser::same_structure(val_rf, &val) {
         return Parser::replace_values(val_rf, &val);
@@ -153,11 +162,6 @@ impl<'a> Parser<'a> {
     for key in all_keys.iter() {
       self.map.remove(key);
     }
-    let new_value_opt = Parser::convert_vector(&val);
-    if new_value_opt.is_none() {
-      return false;
-    }
-    let new_value = new_value_opt.unwrap();
     let new_value_clone = match new_value {
       TOMLValue::Array(ref rc_rc) => {
         TOMLValue::Array(rc_rc.clone())
@@ -215,6 +219,9 @@ impl<'a> Parser<'a> {
         for i in 0..it.len() {
           let subval = &it[i].1;
           let value_opt = Parser::convert_vector(subval);
+          if value_opt.is_none() {
+            return None;
+          }
           let value = value_opt.unwrap();
           let key_value;
           if i < it.len() - 1 {
-- 
2.43.0


From 0adbae326f204856d6975981d953b4d22d41f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 06/25] fix: set_value can replace any value with a value of
 another structure

---
 src/internals/parser.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index e6d65c4..c6e5242 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -162,15 +162,7 @@ impl<'a> Parser<'a> {
     for key in all_keys.iter() {
       self.map.remove(key);
     }
-    let new_value_clone = match new_value {
-      TOMLValue::Array(ref rc_rc) => {
-        TOMLValue::Array(rc_rc.clone())
-      },
-      TOMLValue::InlineTable(ref rc_rc) => {
-        TOMLValue::InlineTable(rc_rc.clone())
-      },
-      unknown => panic!("In Parser.set_value, new_value should only be an Array or InlineTable. Instead it's a {:?}", unknown),
-    };
+    let new_value_clone = new_value.clone();
     if self.map.contains_key(&s_key) {
       let existing_value = match self.map.entry(s_key.clone()) {
         Entry::Occupied(entry) => entry.into_mut(),
@@ -311,10 +303,8 @@ impl<'a> Parser<'a> {
     match *val.borrow() {
       TOMLValue::Array(ref arr) => {
         {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains array key, but map.entry returned a Vacant entry in set_value."),
-          };
+          // the entries of nested arrays don't exist yet
+          let value = self.map.entry(key.clone()).or_insert(HashValue::new_count(val.clone()));
           if !skip {
             value.value = Some(val.clone());
           }
@@ -327,13 +317,12 @@ impl<'a> Parser<'a> {
       },
       TOMLValue::InlineTable(ref it) => {
         {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains inline table key, but map.entry returned a Vacant entry is set_value."),
-          };
+          // the entries of nested inline tables don't exist yet
+          let value = self.map.entry(key.clone()).or_insert(HashValue::new_keys(val.clone()));
           if !skip {
             value.value = Some(val.clone());
           }
+          value.subkeys = Children::Keys(RefCell::new(vec![]));
           if let Children::Keys(ref child_keys) = value.subkeys {
             for i in 0..it.borrow().keyvals.len() {
               Parser::insert(child_keys, it.borrow().keyvals[i].keyval.key.clone().into_owned());
@@ -346,9 +335,10 @@ impl<'a> Parser<'a> {
         }
       },
       _ => {
-        self.map.entry(key.clone()).or_insert(
+        let value = self.map.entry(key.clone()).or_insert(
           HashValue::new_count(val.clone())
         );
+        value.subkeys = Children::Count(Cell::new(0));
       },
     }
   }
-- 
2.43.0


From a2aadd5d8227b02c05eb143d0d22de9892379d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 07/25] fix: numbers consist of ASCII digits only and must
 match in full

---
 src/internals/primitives.rs | 4 ++--
 src/types.rs                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index fa5cb6e..e62bace 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -422,11 +422,11 @@ impl<'a> Parser<'a> {
   }
 
   // Integer
-  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9](\d|(_\d))+)|\d))"#)) ;
+  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9]([0-9]|(_[0-9]))+)|[0-9]))"#)) ;
 
   // Float
   method!(pub float<Parser<'a>, &'a str, &'a str>, self,
-         re_find!(r#"^(\+|-)?([1-9](\d|(_\d))+|\d)((\.\d(\d|(_\d))*)((e|E)(\+|-)?([1-9](\d|(_\d))+|\d))|(\.\d(\d|(_\d))*)|((e|E)(\+|-)?([1-9](\d|(_\d))+|\d)))"#));
+         re_find!(r#"^(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])((\.[0-9]([0-9]|(_[0-9]))*)((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9]))|(\.[0-9]([0-9]|(_[0-9]))*)|((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])))"#));
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
diff --git a/src/types.rs b/src/types.rs
index dd92189..4cbcda0 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -949,14 +949,14 @@ impl<'a> Value<'a> {
       &Value::Integer(ref s) => {
         let p = Parser::new();
         match p.integer(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
       &Value::Float(ref s) => {
         let p = Parser::new();
         match p.float(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
-- 
2.43.0


From 0e97f7a5a67a496ed7576b9d9d6f3f0ebc66e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 08/25] fix: parts of dates and times consist of decimal digits
 only

---
 src/types.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 4cbcda0..3c3910c 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1157,7 +1157,8 @@ impl<'a> TimeOffsetAmount<'a> {
   /// assert!(offset_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.hour.len() != 2 || self.minute.len() != 2 {
+    if self.hour.len() != 2 || self.minute.len() != 2 ||
+      !all_digits(&self.hour) || !all_digits(&self.minute) {
       return false;
     }
     return self.validate_numbers();
@@ -1182,6 +1183,11 @@ impl<'a> TimeOffsetAmount<'a> {
   }
 }
 
+// the parts of dates and times are unsigned decimal numbers
+fn all_digits(s: &str) -> bool {
+  s.bytes().all(|b| b >= b'0' && b <= b'9')
+}
+
 /// Represents a date value.
 // <year>-<month>-<day>
 #[derive(Debug, Eq, Clone)]
@@ -1241,7 +1247,8 @@ impl<'a> Date<'a> {
   /// assert!(date_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.year.len() != 4 || self.month.len() != 2 || self.day.len() != 2 {
+    if self.year.len() != 4 || self.month.len() != 2 || self.day.len() != 2 ||
+      !all_digits(&self.year) || !all_digits(&self.month) || !all_digits(&self.day) {
       return false;
     }
     return self.validate_numbers();
@@ -1376,7 +1383,8 @@ impl<'a> Time<'a> {
   /// assert!(time_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.hour.len() != 2 || self.minute.len() != 2 || self.second.len() != 2 {
+    if self.hour.len() != 2 || self.minute.len() != 2 || self.second.len() != 2 ||
+      !all_digits(&self.hour) || !all_digits(&self.minute) || !all_digits(&self.second) {
       return false;
     }
     return self.validate_numbers();
@@ -1405,7 +1413,7 @@ impl<'a> Time<'a> {
       return false;
     }
     if let Some(ref frac) = self.fraction {
-      if u64::from_str(frac).is_err() {
+      if frac.len() == 0 || !all_digits(frac) {
         return false;
       }
     }
-- 
2.43.0


From d83c108ee70e1a3d9b632777fc6c0ec83084daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 09/25] fix: accept characters beyond the basic multilingual
 plane in strings, keys and comments

---
 src/internals/primitives.rs | 18 +++++++++---------
 src/internals/util.rs       |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index e62bace..a01a1f4 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -430,35 +430,35 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -￿]|\n|(\r\n))*"#));
+  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -\x{10FFFF}]|\n|(\r\n))*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-￿])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-\x{10FFFF}])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -￿]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(  |[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -614,7 +614,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-￿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
diff --git a/src/internals/util.rs b/src/internals/util.rs
index 511e431..b7347a2 100644
--- a/src/internals/util.rs
+++ b/src/internals/util.rs
@@ -2,7 +2,7 @@ use internals::ast::structs::Comment;
 use internals::parser::Parser;
 
 fn not_eol(chr: char) -> bool {
-  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFF)
+  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFFF)
 }
 
 impl<'a> Parser<'a> {
-- 
2.43.0


From 83d1bab00fbfe0ae095425864db66d734054ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 10/25] fix: escapes in strings take hexadecimal digits of
 either case, and \t in multi-line strings

---
 src/internals/primitives.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index a01a1f4..f50f766 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -430,11 +430,11 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*"#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
   named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
   // Multiline Literal String
@@ -443,12 +443,12 @@ impl<'a> Parser<'a> {
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -614,7 +614,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Fa-f]{4})|(\\\\U[0-9A-Fa-f]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
-- 
2.43.0


From 7889cf521bd816ab08d75b3cbb5563758b85ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 11/25] fix: multi-line strings that contain their closing
 delimiter are invalid

---
 src/internals/primitives.rs |  2 +-
 src/types.rs                | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index f50f766..85b7a38 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -507,7 +507,7 @@ impl<'a> Parser<'a> {
     (self, r)
   }
 
-  method!(string<Parser<'a>, &'a str, TOMLValue>, mut self,
+  method!(pub string<Parser<'a>, &'a str, TOMLValue>, mut self,
     alt!(
       complete!(call_m!(self.ml_literal_string))  => {|ml: &'a str| TOMLValue::String(ml.into(), StrType::MLLiteral)}  |
       complete!(call_m!(self.ml_basic_string))    => {|mb: &'a str| TOMLValue::String(mb.into(), StrType::MLBasic)}  |
diff --git a/src/types.rs b/src/types.rs
index 3c3910c..47d0d3c 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -971,7 +971,7 @@ impl<'a> Value<'a> {
           },
           StrType::MLBasic => {
             match Parser::quoteless_ml_basic_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+              IResult::Done(i,_) => i.len() == 0 && self.is_delimited(),
               _ => false,
             }
           },
@@ -983,7 +983,7 @@ impl<'a> Value<'a> {
           },
           StrType::MLLiteral => {
             match Parser::quoteless_ml_literal_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+              IResult::Done(i,_) => i.len() == 0 && self.is_delimited(),
               _ => false,
             }
           },
@@ -992,6 +992,17 @@ impl<'a> Value<'a> {
       _ => true,
     }
   }
+
+  // A string must not contain its own closing delimiter
+  fn is_delimited(&self) -> bool {
+    let text = format!("{}", self);
+    let p = Parser::new();
+    let result = match p.string(&text) {
+      (_, IResult::Done(i, _)) => i.len() == 0,
+      (_,_) => false,
+    };
+    result
+  }
 }
 
 /// Error type returned by `Value` creation convenience functions on invalid input.
-- 
2.43.0


From c95c0738f747329c4c2b90fca48633111a668fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 12/25] fix: arrays and inline tables are valid only if all of
 their keys and values are

---
 src/types.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 47d0d3c..99f028a 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -989,7 +989,21 @@ impl<'a> Value<'a> {
           },
         }
       },
-      _ => true,
+      &Value::Boolean(_) => true,
+      &Value::Array(ref arr) => arr.iter().all(|v| v.validate()),
+      &Value::InlineTable(ref it) => {
+        for i in 0..it.len() {
+          let p = Parser::new();
+          let valid_key = match p.key(&it[i].0) {
+            (_, IResult::Done(rest, _)) => rest.len() == 0,
+            (_,_) => false,
+          };
+          if !valid_key || !it[i].1.validate() || it[..i].iter().any(|kv| kv.0 == it[i].0) {
+            return false;
+          }
+        }
+        true
+      },
     }
   }
 
-- 
2.43.0


From 50282719b5f2d029f959c64114bbb00f471f8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 13/25] fix: tomlkit keeps the Z of a datetime it sets

---
 src/bin/tomlkit.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 1e62c06..15d124e 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -569,7 +569,7 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
           let (year, month, day);
           let (mut hour, mut minute, mut second, mut fraction) = ("".into(), "".into(), "".into(), "".into());
           let (mut off_hour, mut off_minute, mut pos_neg) = ("".into(), "".into(), PosNeg::Pos);
-          let (mut has_time, mut has_fraction, mut has_offset) = (false, false, false);
+          let (mut has_time, mut has_fraction, mut has_offset, mut is_zulu) = (false, false, false, false);
           if let Ok(dtval) = tmp_result {
             if let Value::DateTime(dt) = dtval {
               year = dt.date.year.to_string().into();
@@ -585,17 +585,22 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
                   fraction = frac.to_string().into();
                 }
                 if let Some(ref offset) = time.offset {
-                  if let &TimeOffset::Time(ref amount) = offset {
-                    has_offset = true;
-                    pos_neg = amount.pos_neg;
-                    off_hour = amount.hour.to_string().into();
-                    off_minute = amount.minute.to_string().into();
+                  match offset {
+                    &TimeOffset::Time(ref amount) => {
+                      has_offset = true;
+                      pos_neg = amount.pos_neg;
+                      off_hour = amount.hour.to_string().into();
+                      off_minute = amount.minute.to_string().into();
+                    },
+                    &TimeOffset::Zulu => is_zulu = true,
                   }
                 }
               }
 
               let newoffset = if has_offset {
                 Some(TimeOffset::Time(TimeOffsetAmount{pos_neg: pos_neg, hour: off_hour, minute: off_minute}))
+              } else if is_zulu {
+                Some(TimeOffset::Zulu)
               } else {
                 None
               };
-- 
2.43.0


From 60a649212ffd358ad71a5db5215a5f15d302ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 14/25] fix: tomlkit --quiet turns off the success messages and
 nothing else

---
 src/bin/tomlkit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 15d124e..2bbd4f6 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -197,6 +197,9 @@ impl Options {
     if matches.has_match("strip-quotes") {
       opts.strip_quotes = true;
     }
+    if matches.has_match("quiet") {
+      opts.quiet = true;
+    }
     // Post-command options
     if matches.has_match("print-doc") {
       opts.print_doc = true;
@@ -323,9 +326,7 @@ fn process_document(file_path: &String, opts: &Options, matches: &Matches, vars:
   for i in 0..result.len() {
     match &result[i]  {
       &Ok(ref val) => {
-        if !opts.quiet {
-          print!("{}", val);
-        }
+        print!("{}", val);
       },
       &Err(ref err) => {
         print!("Error \"{}\": {}", file_path, err);
-- 
2.43.0


From 10ea5341bea723bbf06544832ff004a5927c4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 15/25] fix: tomlkit reports too few true or false values as an
 error

---
 src/bin/tomlkit.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 2bbd4f6..5767b76 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -400,8 +400,11 @@ fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, k
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i];
+        if true_vals.len() != 1 {
+          true_val = match true_vals.get(i) {
+            Some(val) => val,
+            None => return Err(format!("Too few true values specified: {:?}.", true_vals)),
+          };
         } else {
           true_val = &true_vals[0];
         }
@@ -409,8 +412,11 @@ fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, k
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i];
+        if false_vals.len() != 1 {
+          false_val = match false_vals.get(i) {
+            Some(val) => val,
+            None => return Err(format!("Too few false values specified: {:?}.", false_vals)),
+          };
         } else {
           false_val = &false_vals[0];
         }
@@ -496,8 +502,11 @@ fn has_children(csv: &str, sep: &String, true_vals: &String, false_vals: &String
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i+keycount];
+        if true_vals.len() != 1 {
+          true_val = match true_vals.get(i+keycount) {
+            Some(val) => val,
+            None => return Err(format!("Too few true values specified: {:?}.", true_vals)),
+          };
         } else {
           true_val = &true_vals[0];
         }
@@ -505,8 +514,11 @@ fn has_children(csv: &str, sep: &String, true_vals: &String, false_vals: &String
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i+keycount];
+        if false_vals.len() != 1 {
+          false_val = match false_vals.get(i+keycount) {
+            Some(val) => val,
+            None => return Err(format!("Too few false values specified: {:?}.", false_vals)),
+          };
         } else {
           false_val = &false_vals[0];
         }
-- 
2.43.0


From c666ab8437311400855f530dc85e3f50541ae580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 16/25] fix: resolve tables of arrays of tables by the map, so
 that any order of tables is understood

---
 src/internals/ast/structs.rs |   4 +-
 src/internals/objects.rs     | 135 +++++++++--------------------------
 src/internals/primitives.rs  |  55 +++++++-------
 3 files changed, 64 insertions(+), 130 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index 57b92d7..c297367 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -499,9 +499,7 @@ impl<'a> TableType<'a> {
           &TableType::Standard(ref prev_table) | &TableType::Array(ref prev_table) => {
             let prev_key = format_keys(&prev_table);
             let key = format_keys(t);
-            if let Some(i) = key.find(&prev_key) {
-              return i == 0;
-            }
+            return key == prev_key || key.starts_with(&format!("{}.", prev_key));
           }
         }
       }
diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index ec81530..70c283b 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -96,11 +96,6 @@ impl<'a> Parser<'a> {
       TableType::Array(ref last_at) | TableType::Standard(ref last_at) => {
         match *table {
           TableType::Array(ref tb) | TableType::Standard(ref tb) => {
-            let mut first = true;
-            debug!("last_at.keys.len(): {}, tb.keys.len(): {}", last_at.keys.len(), tb.keys.len());
-            for i in 0..last_at.keys.len() {
-              debug!("key {}: {}", i, last_at.keys[i].key);
-            }
             let mut start = last_at.keys.len();
             if last_key == "$Root$" {
               start -= 1;
@@ -110,20 +105,12 @@ impl<'a> Parser<'a> {
               let mut insert = false;
               debug!("index: {}, last_key: {}", i, last_key);
               if let Entry::Occupied(mut o) = borrow.entry(last_key.clone()) {
-                if first {
-
-                  insert = match &o.get_mut().subkeys {
-                    &Children::Keys(ref vec_rf) => {debug!("Inserting subkey: {}", tb.keys[i].key); Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned())},
-                    &Children::Count(ref cell) => { debug!("Incrementing subkey count: {}", cell.get() + 1); cell.set(cell.get() + 1); true },
-                  };
-                  first = false;
-                } else {
-                  debug!("Inserting subkey: {}", tb.keys[i].key);
-                  insert = match &o.get_mut().subkeys {
-                    &Children::Keys(ref vec_rf) => Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned()),
-                    _ => panic!("Implicit tables can only be Standard Tables: \"{}\"", format!("{}.{}", last_key, tb.keys[i].key)),
-                  };
-                }
+                debug!("Inserting subkey: {}", tb.keys[i].key);
+                insert = match &o.get_mut().subkeys {
+                  &Children::Keys(ref vec_rf) => Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned()),
+                  // a key with a value can't contain tables
+                  _ => break,
+                };
               }
               if i < tb.keys.len() - 1 {
                 if last_key != "$Root$" {
@@ -134,15 +121,9 @@ impl<'a> Parser<'a> {
                 last_key.push_str(&tb.keys[i].key);
                 if insert {
                   debug!("insert last_key {}", last_key);
-                  if i == tb.keys.len() - 1 {
-                    if let TableType::Array(_) = *table {
-                      borrow.insert(last_key.clone(), HashValue::one_count());
-                    } else {
-                      borrow.insert(last_key.clone(), HashValue::none_keys());
-                    }
-                  } else {
-                    borrow.insert(last_key.clone(), HashValue::none_keys());
-                  }
+                  borrow.insert(last_key.clone(), HashValue::none_keys());
+                } else if let Some(count) = Parser::array_table_count(borrow.get(&last_key)) {
+                  last_key.push_str(&format!("[{}]", count - 1));
                 }
               }
             }
@@ -156,22 +137,6 @@ impl<'a> Parser<'a> {
     debug!("Returning from add_implicit_tables");
   }
 
-  fn increment_array_table_index(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>,) {
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("increment_array_table_index: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Count(ref c) = &o.get_mut().subkeys {
-         c.set(c.get() + 1);
-      }
-    }
-    let len = tables_index.borrow().len();
-    let last_index = tables_index.borrow()[len - 1];
-    tables_index.borrow_mut()[len - 1] = last_index + 1;
-  }
-
   fn add_to_table_set(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
     tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>, key: &str) -> bool{
     let parent_key = Parser::get_key_parent(tables, tables_index);
@@ -272,7 +237,9 @@ impl<'a> Parser<'a> {
           parent_key = tuple.2;
           self.last_array_tables.borrow_mut().pop();
           self.last_array_tables_index.borrow_mut().pop();
-          if !tuple.0 || Parser::key_has_children_with_values(&parent_key, &map) {
+          if !tuple.0 ||
+            // the tables of an array of tables may have both key-value pairs and subtables
+            (!parent_key.ends_with("]") && Parser::key_has_children_with_values(&parent_key, &map)) {
             error = true;
           } else {
             debug!("Standard Table Key: {}", table_key);
@@ -362,57 +329,17 @@ impl<'a> Parser<'a> {
         {
           let map = RefCell::new(&mut self.map);
           self.array_error.set(false);
-          let len = self.last_array_tables.borrow().len();
           let current_key = format_tt_keys(&*res);
-          if len > 0 {
-            let mut len = self.last_array_tables.borrow().len();
-            let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-            debug!("current_key: {}, last_key: {}", current_key, last_key);
-            if current_key == last_key {
-              debug!("Increment array table index");
-              Parser::increment_array_table_index(&map, &self.last_array_tables,
-                &self.last_array_tables_index);
-            } else {
-              let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-              if subtable {
-                debug!("Is subtable");
-                Parser::add_implicit_tables(&map, &self.last_array_tables,
-                  &self.last_array_tables_index, res.clone());
-                self.last_array_tables.borrow_mut().push(res.clone());
-                self.last_array_tables_index.borrow_mut().push(0);
-              } else {
-                debug!("NOT subtable");
-                while self.last_array_tables.borrow().len() > 0 &&
-                  current_key != format_tt_keys(&self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]) {
-                  debug!("pop table");
-                  self.last_array_tables.borrow_mut().pop();
-                  self.last_array_tables_index.borrow_mut().pop();
-                }
-                len = self.last_array_tables.borrow().len();
-                if len > 0 {
-                  debug!("Increment array table index the second");
-                  Parser::increment_array_table_index(&map, &self.last_array_tables,
-                    &self.last_array_tables_index);
-                } else {
-                  debug!("Add implicit tables");
-                  Parser::add_implicit_tables(&map, &self.last_array_tables,
-                    &self.last_array_tables_index,  res.clone());
-                  self.last_array_tables.borrow_mut().push(res.clone());
-                  self.last_array_tables_index.borrow_mut().push(0);
-                  let parent_key = Parser::get_key_parent(&self.last_array_tables,
-                    &self.last_array_tables_index);
-                  debug!("Got parent key: {}", parent_key);
-                  let contains_key = map.borrow().contains_key(&parent_key);
-                  if contains_key {
-                    debug!("Increment array table index the third");
-                    Parser::increment_array_table_index(&map, &self.last_array_tables,
-                      &self.last_array_tables_index);
-                  }
-                }
-              }
-            }
-          } else {
-            debug!("Len == 0 add implicit tables");
+          // leave the array tables that this table isn't a part of
+          while self.last_array_tables.borrow().len() > 0 &&
+            !res.is_subtable_of(&self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]) {
+            debug!("pop table");
+            self.last_array_tables.borrow_mut().pop();
+            self.last_array_tables_index.borrow_mut().pop();
+          }
+          let len = self.last_array_tables.borrow().len();
+          if len == 0 || current_key != format_tt_keys(&self.last_array_tables.borrow()[len - 1]) {
+            debug!("Add implicit tables");
             Parser::add_implicit_tables(&map, &self.last_array_tables,
               &self.last_array_tables_index, res.clone());
             self.last_array_tables.borrow_mut().push(res.clone());
@@ -427,16 +354,24 @@ impl<'a> Parser<'a> {
               full_key, self.line_count.get(), 0,
               RefCell::new(HashMap::new())
             ));
+            self.last_array_tables.borrow_mut().pop();
+            self.last_array_tables_index.borrow_mut().pop();
+            self.array_error.set(true);
           } else {
             debug!("After call to get_array_table_key");
-            let contains_key = map.borrow().contains_key(&parent_key);
-            if !contains_key {
+            let count = Parser::array_table_len(&parent_key, &map);
+            if let Some(count) = count {
+              debug!("Increment existing array of table key: {}", parent_key);
+              if let Some(hash_val) = map.borrow().get(&parent_key) {
+                if let Children::Count(ref c) = hash_val.subkeys {
+                  c.set(count + 1);
+                }
+              }
+              map.borrow_mut().insert(format!("{}[{}]", parent_key, count), HashValue::none_keys());
+            } else {
               debug!("Insert new array of table key: {}", full_key);
               map.borrow_mut().insert(parent_key, HashValue::one_count());
               map.borrow_mut().insert(full_key, HashValue::none_keys());
-            } else {
-              debug!("Increment existing array of table key: {}", full_key);
-              map.borrow_mut().insert(full_key, HashValue::none_keys());
             }
             self.last_table = Some(res.clone());
           }
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 85b7a38..67d83fc 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -93,34 +93,16 @@ impl<'a> Parser<'a> {
           let len = keys.len();
           for j in prev_end..len - 1 {
             debug!("keys[{}] = {}", j, keys[j]);
+            if keys[j] == "$Root$" {
+              continue;
+            }
             full_key.push_str(&keys[j]);
-            let map_borrow = map.borrow();
-            let hash_value_opt = map_borrow.get(&full_key);
-            match hash_value_opt {
-              Some(hash_value) =>  {
-                match hash_value.subkeys {
-                  Children::Count(ref c) => {
-                    if full_key == "$Root$" {
-                      full_key.truncate(0);
-                    } else {
-                      full_key.push_str(&format!("[{}].", c.get()))
-                    }
-                  },
-                  Children::Keys(ref hs_rf) => {
-                    if hs_rf.borrow().contains(&keys[j+1]) || j+1 == len - 1 {
-                      if full_key == "$Root$" {
-                        full_key.truncate(0);
-                      } else {
-                        full_key.push('.');
-                      }
-                    } else {
-                      panic!("Key does not exist in map: \"{}\"", &format!("{}.{}", full_key, &keys[j+1]));
-                    }
-                  },
-                }
-              }
-              None => panic!("Key does not exist in map: \"{}\"", &full_key),
+            valid = valid && !Parser::key_has_value(&full_key, map);
+            // the current table of an array of tables that isn't in tables
+            if let Some(count) = Parser::array_table_len(&full_key, map) {
+              full_key.push_str(&format!("[{}]", count - 1));
             }
+            full_key.push('.');
           }
           prev_end = len;
           full_key.push_str(&keys[len-1]);
@@ -173,19 +155,26 @@ impl<'a> Parser<'a> {
           // Standard tables can't be nested so this has to be the last table in the vector
           let keys = get_last_keys(last_table, t);
           debug!("get_last_keys {:?}, prev_end: {}", keys, prev_end);
+          if full_key.len() > 0 {
+            // the parent is the current table of an array of tables
+            parent_key = full_key[..full_key.len() - 1].to_string();
+          }
           for j in prev_end..keys.len() - 1 {
             if keys[j] == "$Root$" {
               continue;
             }
             full_key.push_str(&keys[j]);
             valid = valid && !Parser::key_has_value(&full_key, map);
+            if let Some(count) = Parser::array_table_len(&full_key, map) {
+              full_key.push_str(&format!("[{}]", count - 1));
+            }
             if j == keys.len() - 2 {
               parent_key = full_key.clone();
             }
             full_key.push('.');
           }
           full_key.push_str(&keys[keys.len() - 1]);
-          valid = valid && !Parser::key_has_value(&full_key, map);
+          valid = valid && !Parser::key_has_value(&full_key, map) && Parser::array_table_len(&full_key, map).is_none();
         }
       }
     }
@@ -193,6 +182,18 @@ impl<'a> Parser<'a> {
     (valid, full_key, parent_key)
   }
 
+  // The number of tables in the array of tables with the given key, or None if the key is something else
+  pub fn array_table_len(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> Option<usize> {
+    Parser::array_table_count(map.borrow().get(key))
+  }
+
+  pub fn array_table_count(hash_value_opt: Option<&HashValue<'a>>) -> Option<usize> {
+    match hash_value_opt {
+      Some(&HashValue{value: None, subkeys: Children::Count(ref c)}) if c.get() > 0 => Some(c.get()),
+      _ => None,
+    }
+  }
+
   fn key_has_value(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> bool {
     let map_borrow = map.borrow();
     debug!("Check if key \"{}\" has a value.", key);
-- 
2.43.0


From 32c737840d1cf5ff6f981ce62cb1778a81a1d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 17/25] fix: a key that already contains tables is reported as
 a duplicate

---
 src/internals/primitives.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 67d83fc..5a40aa3 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -42,6 +42,14 @@ pub fn count_lines(s: &str) -> usize {
   }
 }
 
+// Containers are inserted after their elements, which create an entry without a value for them
+fn is_container(val: &TOMLValue) -> bool {
+  match val {
+    &TOMLValue::Array(_) | &TOMLValue::InlineTable(_) => true,
+    _ => false,
+  }
+}
+
 impl<'a> Parser<'a> {
   pub fn get_key_parent(tables: &RefCell<Vec<Rc<TableType<'a>>>>,
     tables_index: &RefCell<Vec<usize>>) -> String {
@@ -308,7 +316,7 @@ impl<'a> Parser<'a> {
         let map_borrow = map.borrow();
         let hv_opt = map_borrow.get(&full_key);
         if let Some(hv) = hv_opt {
-          if let Some(_) = hv.value {
+          if hv.value.is_some() || !is_container(&*val.borrow()) {
             error = true;
           } else {
             setvalue = true;
@@ -335,7 +343,7 @@ impl<'a> Parser<'a> {
             let map_borrow = map.borrow();
             let hv_opt = map_borrow.get(&full_key);
             if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
+              if hv.value.is_some() || !is_container(&*val.borrow()) {
                 error = true;
               } else {
                 setvalue = true;
@@ -352,7 +360,7 @@ impl<'a> Parser<'a> {
             let map_borrow = map.borrow();
             let hv_opt = map_borrow.get(&full_key);
             if let Some(hv) = hv_opt {
-              if let Some(_) = hv.value {
+              if hv.value.is_some() || !is_container(&*val.borrow()) {
                 debug!("{} hash value exists in table.", full_key);
                 error = true;
               } else {
-- 
2.43.0


From d75828add037dc3cec67e1d81051a6fe657aecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 18/25] fix: the elements of a duplicate array or inline table
 don't change the first one

---
 src/internals/primitives.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 5a40aa3..6cc128c 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -292,6 +292,24 @@ impl<'a> Parser<'a> {
     return (valid, full_key, parent_key);
   }
 
+  // Is the key an element of a container whose own key already has a value?
+  fn in_duplicate(full_key: &str, keychain: &RefCell<Vec<Key<'a>>>, map: &RefCell<&mut HashMap<String, HashValue<'a>>>)
+    -> bool {
+    let mut key = full_key.to_string();
+    for i in (1..keychain.borrow().len()).rev() {
+      let len = match &keychain.borrow()[i] {
+        &Key::Str(ref s) => s.len() + 1,
+        &Key::Index(ref i) => format!("[{}]", i.get()).len(),
+      };
+      let parent_len = key.len() - len;
+      key.truncate(parent_len);
+      if Parser::key_has_value(&key, map) {
+        return true;
+      }
+    }
+    false
+  }
+
   pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>) {
     debug!("Insert val: {}", *(*val).borrow());
     let map = RefCell::new(&mut self.map);
@@ -374,6 +392,10 @@ impl<'a> Parser<'a> {
       }
     }
 
+    if Parser::in_duplicate(&full_key, &self.keychain, &map) {
+      // the duplicate is reported as a whole, its elements must not end up in the existing value
+      return;
+    }
     if error {
       debug!("Error: {}", *(*val).borrow());
       self.errors.borrow_mut().push(ParseError::DuplicateKey(
-- 
2.43.0


From 62b81d79ec24c5415b552d35fd0e61963a7b827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 19/25] fix: report mixed arrays that follow another error

---
 src/internals/objects.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 70c283b..5782ed2 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -430,18 +430,13 @@ impl<'a> Parser<'a> {
                 &self.last_array_tables_index, &self.keychain
               );
               let err_len = self.errors.borrow().len();
-              let mut mixed = false;
+              let mut mixed = true;
               if err_len > 0 {
                 if let ParseError::MixedArray(ref key, _, _) = self.errors.borrow()[err_len - 1] {
                   debug!("Check mixed array previous: {}, current: {}", key, tuple.1);
-                  if !tuple.1.starts_with(key) {
-                    mixed = true;
-                    debug!("Mixed array error insert: {}", tuple.1);
-                  }
+                  // report every array once
+                  mixed = *key != tuple.2;
                 }
-              } else {
-                mixed = true;
-                debug!("Mixed array error insert: {}", tuple.1);
               }
               if mixed {
                 self.errors.borrow_mut().push(ParseError::MixedArray(
-- 
2.43.0


From 161d6507c241a2e37e89780384a21d66a70db4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 20/25] fix: a sub-table of an array of tables is a child of
 the current table only

---
 src/internals/objects.rs    | 32 --------------------------------
 src/internals/primitives.rs | 34 ----------------------------------
 2 files changed, 66 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 5782ed2..98e9ab2 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -36,15 +36,6 @@ impl<'a> Parser<'a> {
     return true;
   }
 
-  fn contains(vector: &RefCell<Vec<String>>, find: &str) -> bool {
-    for s in vector.borrow().iter() {
-      if s == find {
-        return true;
-      }
-    }
-    return false;
-  }
-
   fn is_top_std_table(tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
     if tables.borrow().len() ==  0 {
       return false;
@@ -137,27 +128,6 @@ impl<'a> Parser<'a> {
     debug!("Returning from add_implicit_tables");
   }
 
-  fn add_to_table_set(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>, key: &str) -> bool{
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("add_to_table_set: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Keys(ref keys) = &o.get_mut().subkeys {
-        let contains = Parser::contains(keys, key);
-        if contains {
-          debug!("key already exists");
-          return false;
-        } else {
-          debug!("add_to_table_set--> {}", key);
-          Parser::insert(keys, key.to_string());
-        }
-      }
-    }
-    return true;
-  }
-
   // Table
   method!(pub table<Parser<'a>, &'a str, Rc<TableType> >, mut self,
     alt!(
@@ -275,8 +245,6 @@ impl<'a> Parser<'a> {
           Parser::add_implicit_tables(&map, &self.last_array_tables,
             &self.last_array_tables_index, res.clone());
           if let TableType::Standard(ref tbl) = *res {
-            Parser::add_to_table_set(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &tbl.keys[keys_len - 1].key);
             self.array_error.set(false);
             debug!("insert table_key: {}", table_key);
             let contains_key = map.borrow().contains_key(&table_key);
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 6cc128c..5a11277 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -51,40 +51,6 @@ fn is_container(val: &TOMLValue) -> bool {
 }
 
 impl<'a> Parser<'a> {
-  pub fn get_key_parent(tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>) -> String {
-    let mut key_parent: String = String::new();
-    let last_table: Option<&Table> = None;
-    let tables_len = tables_index.borrow().len();
-    let mut prev_end = 0;
-    for i in 0..tables_len {
-      if let &TableType::Array(ref t) = &*tables.borrow()[i] {
-        if key_parent.len() > 0 {
-          key_parent.push('.');
-        }
-        let keys = get_last_keys(last_table, t);
-        debug!("get_key_parent last_keys: {:?}", keys);
-        for j in prev_end..keys.len() {
-          if keys[j] != "$Root$" {
-            key_parent.push_str(&keys[j]);
-            if j < keys.len() - 1 {
-              key_parent.push('.');
-            }
-          }
-          debug!("get_key_parent key_parent: {}", key_parent);
-        }
-        prev_end = keys.len();
-        let index = tables_index.borrow()[i];
-        if i < tables_len - 1 {
-          key_parent.push_str(&format!("[{}]", index));
-        }
-      }
-    }
-    debug!("get_key_parent final key_parent: {}", key_parent);
-    key_parent
-  }
-
-
   pub fn get_array_table_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>,
     tables_index: &RefCell<Vec<usize>>) -> (bool, String, String) {
     let mut full_key: String = String::new();
-- 
2.43.0


From 2edd40a6375e27822807d48f4f8d1ef9a4a5c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 21/25] fix: an array of tables with the key of a scalar is
 invalid instead of a panic

---
 src/internals/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 5a11277..e3d820f 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -112,7 +112,7 @@ impl<'a> Parser<'a> {
           match hash_value_opt {
             Some(hash_value) =>  {
               index = match hash_value.subkeys {
-                Children::Count(ref c) => c.get() - 1,
+                Children::Count(ref c) if c.get() > 0 => c.get() - 1,
                 _ => tables_index.borrow()[i],
               };
             },
-- 
2.43.0


From 384beca6a45baadee6013414eee3be6718adc7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 22/25] fix: count the lines of arrays and inline tables

---
 src/internals/objects.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 98e9ab2..c79d886 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,7 +1,7 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
                               TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, format_tt_keys};
 use internals::parser::Parser;
-use internals::primitives::Key;
+use internals::primitives::{Key, count_lines};
 use types::{ParseError, Children};
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -376,8 +376,14 @@ impl<'a> Parser<'a> {
 
   method!(comment_or_nl<Parser<'a>, &'a str, CommentOrNewLines>, mut self,
     alt!(
-      complete!(call_m!(self.comment_nl))   => {|com| CommentOrNewLines::Comment(com)} |
-      complete!(call_m!(self.ws_newline))  => {|nl: &'a str|  CommentOrNewLines::NewLines(nl.into())}
+      complete!(call_m!(self.comment_nl))   => {|com: CommentNewLines<'a>| {
+        self.line_count.set(self.line_count.get() + count_lines(&com.pre_ws_nl) + count_lines(&com.newlines));
+        CommentOrNewLines::Comment(com)
+      }} |
+      complete!(call_m!(self.ws_newline))  => {|nl: &'a str| {
+        self.line_count.set(self.line_count.get() + count_lines(nl));
+        CommentOrNewLines::NewLines(nl.into())
+      }}
     )
   );
 
-- 
2.43.0


From 11651c3dd51bd827bed7fc35edfe8e799d6e4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 23/25] fix: report a mixed array once when it holds other
 mixed arrays

---
 src/internals/objects.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index c79d886..29f98d9 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -403,15 +403,11 @@ impl<'a> Parser<'a> {
               let tuple = Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
                 &self.last_array_tables_index, &self.keychain
               );
-              let err_len = self.errors.borrow().len();
-              let mut mixed = true;
-              if err_len > 0 {
-                if let ParseError::MixedArray(ref key, _, _) = self.errors.borrow()[err_len - 1] {
-                  debug!("Check mixed array previous: {}, current: {}", key, tuple.1);
-                  // report every array once
-                  mixed = *key != tuple.2;
-                }
-              }
+              // report every array once
+              let mixed = !self.errors.borrow().iter().any(|error| match error {
+                &ParseError::MixedArray(ref key, _, _) => *key == tuple.2,
+                _ => false,
+              });
               if mixed {
                 self.errors.borrow_mut().push(ParseError::MixedArray(
                   tuple.2, self.line_count.get(), 0
-- 
2.43.0


From 7730a4dfebae5bad1c45344fa9a6a6f6e1f24c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:30 +0000
Subject: [PATCH 24/25] fix: arrays of an invalid table don't become part of
 the document

---
 src/internals/objects.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 29f98d9..9575849 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -417,7 +417,10 @@ impl<'a> Parser<'a> {
             self.last_array_type.borrow_mut().pop();
             self.last_array_type.borrow_mut().push(t);
             let keychain_len = self.keychain.borrow().len();
-            self.insert_keyval_into_map(val.clone());
+            // the contents of an invalid table don't become part of the document
+            if !self.array_error.get() {
+              self.insert_keyval_into_map(val.clone());
+            }
             self.keychain.borrow_mut()[keychain_len - 1].inc();
             ArrayValue::new(val, array_sep, comment_nls)
           }
-- 
2.43.0


From 4de991c9ec00d0fc8d95d50aa2287c4fd926b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 25/25] fix: keep the contents of an invalid table that holds
 other errors

---
 src/internals/primitives.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index e3d820f..52c5dc8 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -653,12 +653,17 @@ impl<'a> Parser<'a> {
         let res = KeyVal::new_str(key, ws, val);
         if self.array_error.get() {
           debug!("array_error");
-          let err = self.errors.borrow_mut().pop().unwrap();
-          if let ParseError::InvalidTable(_, _, _, ref map) = err {
-            debug!("InvalidTable");
-            map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+          // the table's own keys are its contents, those of inline tables are part of their values
+          if self.keychain.borrow().len() == 1 {
+            // other errors may have been reported since
+            for err in self.errors.borrow().iter().rev() {
+              if let &ParseError::InvalidTable(_, _, _, ref map) = err {
+                debug!("InvalidTable");
+                map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+                break;
+              }
+            }
           }
-          self.errors.borrow_mut().push(err);
         } else {
           match *res.val.borrow() {
             _ => self.insert_keyval_into_map(res.val.clone()),
-- 
2.43.0

