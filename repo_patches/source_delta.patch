From b723862c39688e2496d6fa4f9a87030e7df94f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 01/17] fix: report the leftover text in Partial and
 PartialError results

---
 src/internals/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 65976ab..3b615ab 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -46,7 +46,6 @@ impl<'a> Parser<'a> {
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-    let leftover = self.leftover.into();
     // let mut res = self.result;
     match res {
       IResult::Done(i, o) => {
@@ -56,6 +55,7 @@ impl<'a> Parser<'a> {
       _ => return (self, ParseResult::Failure(line_count, 0)),
     };
     if self.leftover.len() > 0 {
+      let leftover = self.leftover.into();
       let len = self.errors.borrow().len();
       if len > 0 {
         let errors = self.errors.clone();
-- 
2.43.0


From 66b8b6436c52525a702d41a60f41cd56320b893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 02/17] fix: get_value and set_value on a table key no longer
 panic or overwrite it

---
 src/internals/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 3b615ab..d6fe126 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -102,6 +102,10 @@ impl<'a> Parser<'a> {
       let hashval = self.map.get(&s_key).unwrap();
       let clone = hashval.clone();
       if let Some(val) = clone.value {
+        // an explicitly defined table has no value of its own
+        if let TOMLValue::Table = *val.borrow() {
+          return None;
+        }
         Some(to_val!(&*val.borrow()))
       } else {
         None
@@ -139,6 +143,9 @@ impl<'a> Parser<'a> {
         &mut Some(ref mut v) => v,
         &mut None => return false,
       };
+      if let TOMLValue::Table = *val_rf.borrow() {
+        return false;
+      }
       // if the inline table/array has the same structure the just replace the values
       if Parser::same_structure(val_rf, &val) {
         return Parser::replace_values(val_rf, &val);
-- 
2.43.0


From b9da6ab201c6bc370c80b673bd974543dd01281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 03/17] fix: printing an empty array, inline table or document
 no longer underflows

---
 src/internals/ast/structs.rs | 6 +++---
 src/types.rs                 | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index b9b10c5..c1a043f 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -36,10 +36,10 @@ impl<'a> PartialEq for Toml<'a> {
 
 impl<'a> Display for Toml<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-      for i in 0..self.exprs.len()-1 {
+      for i in 0..self.exprs.len() {
         try!(write!(f, "{}", self.exprs[i]));
       }
-    write!(f, "{}", self.exprs[self.exprs.len()-1])
+    Ok(())
    }
 }
 
@@ -753,7 +753,7 @@ impl<'a> PartialEq for InlineTable<'a> {
 impl<'a> Display for InlineTable<'a> {
   fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
     try!(write!(f, "{{{}", self.ws.ws1));
-    for i in 0..self.keyvals.len() - 1 {
+    for i in 0..self.keyvals.len().saturating_sub(1) {
       try!(write!(f, "{}", self.keyvals[i]));
     }
     if self.keyvals.len() > 0 {
diff --git a/src/types.rs b/src/types.rs
index 5579c3f..051411b 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -280,7 +280,7 @@ impl<'a> Display for Value<'a> {
       &Value::DateTime(ref v) => write!(f, "{}", v),
       &Value::Array(ref arr) => {
         try!(write!(f, "["));
-        for i in 0..arr.len() - 1 {
+        for i in 0..arr.len().saturating_sub(1) {
           try!(write!(f, "{}, ", arr[i]));
         }
         if arr.len() > 0 {
@@ -298,7 +298,7 @@ impl<'a> Display for Value<'a> {
       },
       &Value::InlineTable(ref it) => {
         try!(write!(f, "{{"));
-        for i in 0..it.len() - 1 {
+        for i in 0..it.len().saturating_sub(1) {
           try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
         }
         if it.len() > 0 {
-- 
2.43.0


From 491843f25c06b6dee27427824195888b0492fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 04/17] fix: set_value reshaping containers and scalars keeps
 keys, children and refused updates consistent

---
 src/internals/parser.rs | 84 ++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 56 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index d6fe126..618bbeb 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -153,38 +153,20 @@ impl<'a> Parser<'a> {
     }
     // if the inline table/array has a different structure, delete the existing
     // array/inline table from the map and rebuild it from the new value
+    let new_value = match Parser::convert_vector(&val) {
+      Some(v) => v,
+      None => return false,
+    };
     let all_keys = self.get_all_subkeys(&s_key);
     for key in all_keys.iter() {
       self.map.remove(key);
     }
-    let new_value_opt = Parser::convert_vector(&val);
-    if new_value_opt.is_none() {
-      return false;
-    }
-    let new_value = new_value_opt.unwrap();
-    let new_value_clone = match new_value {
-      TOMLValue::Array(ref rc_rc) => {
-        TOMLValue::Array(rc_rc.clone())
-      },
-      TOMLValue::InlineTable(ref rc_rc) => {
-        TOMLValue::InlineTable(rc_rc.clone())
-      },
-      unknown => panic!("In Parser.set_value, new_value should only be an Array or InlineTable. Instead it's a {:?}", unknown),
+    let val_rf = match self.map.get(&s_key) {
+      Some(&HashValue{ value: Some(ref v), .. }) => v.clone(),
+      _ => return false,
     };
-    if self.map.contains_key(&s_key) {
-      let existing_value = match self.map.entry(s_key.clone()) {
-        Entry::Occupied(entry) => entry.into_mut(),
-        _ => panic!("Map contains key, but map.entry returned a Vacant entry is set_value."),
-      };
-      let opt_value: &mut Option<Rc<RefCell<TOMLValue<'a>>>> = &mut existing_value.value;
-      let val_rf = match opt_value {
-        &mut Some(ref mut v) => v,
-        &mut None => panic!("existing_value's value is None, when this should've returned false earlier in the function."),
-      };
-      *val_rf.borrow_mut() = new_value;
-    }
-    let new_value_rc = Rc::new(RefCell::new(new_value_clone));
-    self.rebuild_vector(s_key.clone(), new_value_rc.clone(), true);
+    *val_rf.borrow_mut() = new_value;
+    self.rebuild_vector(s_key, val_rf);
     true
   }
 
@@ -219,6 +201,9 @@ impl<'a> Parser<'a> {
         for i in 0..it.len() {
           let subval = &it[i].1;
           let value_opt = Parser::convert_vector(subval);
+          if value_opt.is_none() {
+            return None;
+          }
           let value = value_opt.unwrap();
           let key_value;
           if i < it.len() - 1 {
@@ -304,48 +289,35 @@ impl<'a> Parser<'a> {
     }
   }
 
-  fn rebuild_vector(self: &mut Parser<'a>, key: String, val: Rc<RefCell<TOMLValue<'a>>>, skip: bool) {
+  // (Re)creates the map entries of `key`, which now holds `val`, and of everything inside it
+  fn rebuild_vector(self: &mut Parser<'a>, key: String, val: Rc<RefCell<TOMLValue<'a>>>) {
     match *val.borrow() {
       TOMLValue::Array(ref arr) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains array key, but map.entry returned a Vacant entry in set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          value.subkeys = Children::Count(Cell::new(arr.borrow().values.len()));
-        }
+        self.map.insert(key.clone(), HashValue {
+          value: Some(val.clone()),
+          subkeys: Children::Count(Cell::new(arr.borrow().values.len())),
+        });
         for i in 0..arr.borrow().values.len() {
           let subkey = format!("{}[{}]", key, i);
-          self.rebuild_vector(subkey, arr.borrow().values[i].val.clone(), false);
+          self.rebuild_vector(subkey, arr.borrow().values[i].val.clone());
         }
       },
       TOMLValue::InlineTable(ref it) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains inline table key, but map.entry returned a Vacant entry is set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          if let Children::Keys(ref child_keys) = value.subkeys {
-            for i in 0..it.borrow().keyvals.len() {
-              Parser::insert(child_keys, it.borrow().keyvals[i].keyval.key.clone().into_owned());
-            }
-          }
+        let child_keys = RefCell::new(vec![]);
+        for i in 0..it.borrow().keyvals.len() {
+          Parser::insert(&child_keys, it.borrow().keyvals[i].keyval.key.clone().into_owned());
         }
+        self.map.insert(key.clone(), HashValue {
+          value: Some(val.clone()),
+          subkeys: Children::Keys(child_keys),
+        });
         for i in 0..it.borrow().keyvals.len() {
           let subkey = format!("{}.{}", key, &it.borrow().keyvals[i].keyval.key);
-          self.rebuild_vector(subkey, it.borrow().keyvals[i].keyval.val.clone(), false);
+          self.rebuild_vector(subkey, it.borrow().keyvals[i].keyval.val.clone());
         }
       },
       _ => {
-        self.map.entry(key.clone()).or_insert(
-          HashValue::new_count(val.clone())
-        );
+        self.map.insert(key, HashValue::new_count(val.clone()));
       },
     }
   }
-- 
2.43.0


From 2b1fdeab1aad326dd4054425c22a900fa0dadc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 05/17] fix: table headers find their parent through the key
 map

---
 src/internals/ast/structs.rs |  51 +------
 src/internals/objects.rs     | 275 +++++++++--------------------------
 src/internals/primitives.rs  |  36 +----
 3 files changed, 69 insertions(+), 293 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index c1a043f..f176bd2 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -314,7 +314,7 @@ impl<'a> Comment<'a> {
   }
 }
 
-#[derive(Debug, Eq)]
+#[derive(Debug, Eq, Clone)]
 pub struct WSSep<'a> {
   pub ws1: Cow<'a, str>,
   pub ws2: Cow<'a, str>,
@@ -370,7 +370,7 @@ impl<'a> KeyVal<'a> {
 }
 
 // <ws.ws1>.<ws.ws2><key>
-#[derive(Debug, Eq)]
+#[derive(Debug, Eq, Clone)]
 pub struct WSKeySep<'a> {
   pub ws: WSSep<'a>,
   pub key: Cow<'a, str>,
@@ -420,34 +420,6 @@ pub fn get_last_keys(last_table: Option<&Table>, t: &Table) -> Vec<String> {
   }
 }
 
-pub fn format_keys(t: &Table) -> String {
-  let mut s = String::new();
-  if t.keys.len() > 0 {
-    for i in 0..t.keys.len() - 1 {
-      s.push_str(&t.keys[i].key);
-      s.push('.');
-    }
-    s.push_str(&t.keys[t.keys.len() - 1].key);
-  }
-  s
-}
-
-pub fn format_tt_keys(tabletype: &TableType) -> String {
-  match tabletype {
-    &TableType::Standard(ref t) | &TableType::Array(ref t) => {
-      let mut s = String::new();
-      if t.keys.len() > 0 {
-        for i in 0..t.keys.len() - 1 {
-          s.push_str(&t.keys[i].key);
-          s.push('.');
-        }
-        s.push_str(&t.keys[t.keys.len() - 1].key);
-      }
-      s
-    }
-  }
-}
-
 // Standard: [<ws.ws1><key><subkeys*><ws.ws2>]
 // Array: [[<ws.ws1><key><subkeys*><ws.ws2>]]
 #[derive(Debug, Eq)]
@@ -488,25 +460,6 @@ impl<'a> Table<'a> {
   }
 }
 
-impl<'a> TableType<'a> {
-  pub fn is_subtable_of(&self, prev: &TableType<'a>) -> bool {
-    match self { 
-      &TableType::Standard(ref t) | &TableType::Array(ref t) => {
-        match prev {
-          &TableType::Standard(ref prev_table) | &TableType::Array(ref prev_table) => {
-            let prev_key = format_keys(&prev_table);
-            let key = format_keys(t);
-            if let Some(i) = key.find(&prev_key) {
-              return i == 0;
-            }
-          }
-        }
-      }
-    }
-    false
-  }
-}
-
 // <comment><newlines+>
 #[derive(Debug, Eq)]
 pub struct CommentNewLines<'a> {
diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index ec81530..3770f44 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,5 +1,5 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
-                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, format_tt_keys};
+                              TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue};
 use internals::parser::Parser;
 use internals::primitives::Key;
 use types::{ParseError, Children};
@@ -36,42 +36,41 @@ impl<'a> Parser<'a> {
     return true;
   }
 
-  fn contains(vector: &RefCell<Vec<String>>, find: &str) -> bool {
-    for s in vector.borrow().iter() {
-      if s == find {
-        return true;
+  // Finds the place of a table header in the document read so far: rebuilds the stack of the arrays of tables
+  // that enclose it, each with the index of its newest element. Returns whether no key on the way to the table
+  // holds a value, the table's full key and its parent's full key.
+  fn locate_table(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
+    tables: &RefCell<Vec<Rc<TableType<'a>>>>,
+    tables_index: &RefCell<Vec<usize>>, table: &TableType<'a>) -> (bool, String, String) {
+    let keys = match *table {
+      TableType::Array(ref t) | TableType::Standard(ref t) => &t.keys,
+    };
+    tables.borrow_mut().clear();
+    tables_index.borrow_mut().clear();
+    let mut valid = true;
+    let mut full_key = String::new();
+    let mut parent_key = "$Root$".to_string();
+    for i in 0..keys.len() - 1 {
+      full_key.push_str(&keys[i].key);
+      valid = valid && !Parser::key_has_value(&full_key, map);
+      if let Some(count) = Parser::array_of_tables_len(&full_key, map) {
+        tables.borrow_mut().push(Rc::new(TableType::Array(Table { keys: keys[0..i + 1].to_vec() })));
+        tables_index.borrow_mut().push(count - 1);
+        full_key.push_str(&format!("[{}]", count - 1));
       }
+      parent_key = full_key.clone();
+      full_key.push('.');
     }
-    return false;
+    full_key.push_str(&keys[keys.len() - 1].key);
+    valid = valid && !Parser::key_has_value(&full_key, map);
+    (valid, full_key, parent_key)
   }
 
-  fn is_top_std_table(tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
-      return false;
-    } else {
-      let len = tables.borrow().len();
-      if let TableType::Standard(_) = *tables.borrow()[len - 1] {
-        return true;
-      } else {
-        return false;
-      }
-    }
-  }
-
-  fn equal_key_length(table: Rc<TableType<'a>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>) -> bool {
-    if tables.borrow().len() ==  0 {
-      return false;
-    } else {
-      match *table {
-        TableType::Array(ref t1) | TableType::Standard(ref t1) => {
-          let len = tables.borrow().len();
-          match *tables.borrow()[len - 1] {
-            TableType::Array(ref t2) | TableType::Standard(ref t2) => {
-              return t1.keys.len() == t2.keys.len();
-            }
-          }
-        }
-      }
+  // The number of elements of the array of tables at `key`, None if there isn't one
+  fn array_of_tables_len(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> Option<usize> {
+    match map.borrow().get(key) {
+      Some(&HashValue{ value: None, subkeys: Children::Count(ref c) }) => Some(c.get()),
+      _ => None,
     }
   }
 
@@ -156,43 +155,6 @@ impl<'a> Parser<'a> {
     debug!("Returning from add_implicit_tables");
   }
 
-  fn increment_array_table_index(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>,) {
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("increment_array_table_index: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Count(ref c) = &o.get_mut().subkeys {
-         c.set(c.get() + 1);
-      }
-    }
-    let len = tables_index.borrow().len();
-    let last_index = tables_index.borrow()[len - 1];
-    tables_index.borrow_mut()[len - 1] = last_index + 1;
-  }
-
-  fn add_to_table_set(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>, key: &str) -> bool{
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("add_to_table_set: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Keys(ref keys) = &o.get_mut().subkeys {
-        let contains = Parser::contains(keys, key);
-        if contains {
-          debug!("key already exists");
-          return false;
-        } else {
-          debug!("add_to_table_set--> {}", key);
-          Parser::insert(keys, key.to_string());
-        }
-      }
-    }
-    return true;
-  }
-
   // Table
   method!(pub table<Parser<'a>, &'a str, Rc<TableType> >, mut self,
     alt!(
@@ -228,88 +190,36 @@ impl<'a> Parser<'a> {
         let res = Rc::new(TableType::Standard(Table::new_str(
           WSSep::new_str(ws1, ws2), key, subkeys
         )));
-        let mut error = false;
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) || Parser::equal_key_length(res.clone(), &self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
         let map = RefCell::new(&mut self.map);
-        let mut table_key = "".to_string();
-        let mut parent_key = "$Root$".to_string();
-        debug!("Before get len");
-        let mut len = self.last_array_tables.borrow().len();
-        let current_key = format_tt_keys(&*res);
-        if len > 0 {
-          let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-          if current_key == last_key {
-            error = true;
-          } else {
-            debug!("Check if subtable");
-            let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-            if !subtable {
-              loop {
-                debug!("Not subtable pop {}", self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]);
-                self.last_array_tables.borrow_mut().pop();
-                self.last_array_tables_index.borrow_mut().pop();
-                len -= 1;
-                debug!("check array_tables len and subtable");
-                if len == 0 || res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]) {
-                  break;
-                }
-              }
-            }
-          }
-        }
-        if len > 0 && current_key == format_tt_keys(&self.last_array_tables.borrow()[len - 1]) {
-          error = true;
-        } else {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let tuple = Parser::get_array_table_key(&map, &self.last_array_tables, &self.last_array_tables_index);
-          table_key = tuple.1;
-          parent_key = tuple.2;
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-          if !tuple.0 || Parser::key_has_children_with_values(&parent_key, &map) {
-            error = true;
-          } else {
-            debug!("Standard Table Key: {}", table_key);
-            if map.borrow().contains_key(&table_key) {
-              let map_borrow = map.borrow();
-              let hash_val_opt = map_borrow.get(&table_key);
-              if let Some(ref hash_val) = hash_val_opt {
-                if let Some(ref rc_rc_val) = hash_val.value {
-                  if let TOMLValue::Table = *rc_rc_val.borrow() {
-                    debug!("Table error {}, table already defined", table_key);
-                    error = true;
-                  }
-                }
-              }
+        let (valid, table_key, parent_key) = Parser::locate_table(&map, &self.last_array_tables,
+          &self.last_array_tables_index, &*res);
+        debug!("Standard Table Key: {}", table_key);
+        // an element of an array of tables ends its key with its index
+        let in_array = parent_key.ends_with(']');
+        let mut error = !valid || Parser::array_of_tables_len(&table_key, &map).is_some() ||
+          (!in_array && Parser::key_has_children_with_values(&parent_key, &map));
+        if let Some(hash_val) = map.borrow().get(&table_key) {
+          if let Some(ref rc_rc_val) = hash_val.value {
+            if let TOMLValue::Table = *rc_rc_val.borrow() {
+              debug!("Table error {}, table already defined", table_key);
+              error = true;
             }
           }
         }
         debug!("Before error check");
         if error {
-          self.last_array_tables.borrow_mut().push(res.clone());
-          self.last_array_tables_index.borrow_mut().push(0);
-          let array_table_key = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index).1;
-          debug!("Setting Invalid Table {} in Standard Table", array_table_key);
+          debug!("Setting Invalid Table {} in Standard Table", table_key);
           self.errors.borrow_mut().push(ParseError::InvalidTable(
-            array_table_key, self.line_count.get(), 0,
+            table_key, self.line_count.get(), 0,
             RefCell::new(HashMap::new())
           ));
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
           self.array_error.set(true);
         } else {
           Parser::add_implicit_tables(&map, &self.last_array_tables,
             &self.last_array_tables_index, res.clone());
           if let TableType::Standard(ref tbl) = *res {
-            Parser::add_to_table_set(&map, &self.last_array_tables,
-              &self.last_array_tables_index, &tbl.keys[keys_len - 1].key);
             self.array_error.set(false);
             debug!("insert table_key: {}", table_key);
             let contains_key = map.borrow().contains_key(&table_key);
@@ -355,89 +265,36 @@ impl<'a> Parser<'a> {
         )));
         let keychain_len = self.keychain.borrow().len();
         self.keychain.borrow_mut().truncate(keychain_len - keys_len);
-        if Parser::is_top_std_table(&self.last_array_tables) {
-          self.last_array_tables.borrow_mut().pop();
-          self.last_array_tables_index.borrow_mut().pop();
-        }
         {
           let map = RefCell::new(&mut self.map);
-          self.array_error.set(false);
-          let len = self.last_array_tables.borrow().len();
-          let current_key = format_tt_keys(&*res);
-          if len > 0 {
-            let mut len = self.last_array_tables.borrow().len();
-            let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
-            debug!("current_key: {}, last_key: {}", current_key, last_key);
-            if current_key == last_key {
-              debug!("Increment array table index");
-              Parser::increment_array_table_index(&map, &self.last_array_tables,
-                &self.last_array_tables_index);
-            } else {
-              let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
-              if subtable {
-                debug!("Is subtable");
-                Parser::add_implicit_tables(&map, &self.last_array_tables,
-                  &self.last_array_tables_index, res.clone());
-                self.last_array_tables.borrow_mut().push(res.clone());
-                self.last_array_tables_index.borrow_mut().push(0);
-              } else {
-                debug!("NOT subtable");
-                while self.last_array_tables.borrow().len() > 0 &&
-                  current_key != format_tt_keys(&self.last_array_tables.borrow()[self.last_array_tables.borrow().len() - 1]) {
-                  debug!("pop table");
-                  self.last_array_tables.borrow_mut().pop();
-                  self.last_array_tables_index.borrow_mut().pop();
-                }
-                len = self.last_array_tables.borrow().len();
-                if len > 0 {
-                  debug!("Increment array table index the second");
-                  Parser::increment_array_table_index(&map, &self.last_array_tables,
-                    &self.last_array_tables_index);
-                } else {
-                  debug!("Add implicit tables");
-                  Parser::add_implicit_tables(&map, &self.last_array_tables,
-                    &self.last_array_tables_index,  res.clone());
-                  self.last_array_tables.borrow_mut().push(res.clone());
-                  self.last_array_tables_index.borrow_mut().push(0);
-                  let parent_key = Parser::get_key_parent(&self.last_array_tables,
-                    &self.last_array_tables_index);
-                  debug!("Got parent key: {}", parent_key);
-                  let contains_key = map.borrow().contains_key(&parent_key);
-                  if contains_key {
-                    debug!("Increment array table index the third");
-                    Parser::increment_array_table_index(&map, &self.last_array_tables,
-                      &self.last_array_tables_index);
-                  }
-                }
-              }
-            }
-          } else {
-            debug!("Len == 0 add implicit tables");
-            Parser::add_implicit_tables(&map, &self.last_array_tables,
-              &self.last_array_tables_index, res.clone());
-            self.last_array_tables.borrow_mut().push(res.clone());
-            self.last_array_tables_index.borrow_mut().push(0);
-          }
-          debug!("Before call to get_array_table_key");
-          let (valid, full_key, parent_key) = Parser::get_array_table_key(&map, &self.last_array_tables,
-            &self.last_array_tables_index);
-          if !valid {
+          let (valid, array_key, _) = Parser::locate_table(&map, &self.last_array_tables,
+            &self.last_array_tables_index, &*res);
+          let contains_key = map.borrow().contains_key(&array_key);
+          let count = Parser::array_of_tables_len(&array_key, &map);
+          let full_key = format!("{}[{}]", array_key, count.unwrap_or(0));
+          if !valid || (contains_key && count.is_none()) {
             debug!("Setting Invalid Table {}", full_key);
             self.errors.borrow_mut().push(ParseError::InvalidTable(
               full_key, self.line_count.get(), 0,
               RefCell::new(HashMap::new())
             ));
+            self.array_error.set(true);
           } else {
-            debug!("After call to get_array_table_key");
-            let contains_key = map.borrow().contains_key(&parent_key);
-            if !contains_key {
-              debug!("Insert new array of table key: {}", full_key);
-              map.borrow_mut().insert(parent_key, HashValue::one_count());
-              map.borrow_mut().insert(full_key, HashValue::none_keys());
-            } else {
+            self.array_error.set(false);
+            Parser::add_implicit_tables(&map, &self.last_array_tables,
+              &self.last_array_tables_index, res.clone());
+            if let Some(len) = count {
               debug!("Increment existing array of table key: {}", full_key);
-              map.borrow_mut().insert(full_key, HashValue::none_keys());
+              if let Some(&HashValue{ subkeys: Children::Count(ref c), .. }) = map.borrow().get(&array_key) {
+                c.set(len + 1);
+              }
+            } else {
+              debug!("Insert new array of table key: {}", full_key);
+              map.borrow_mut().insert(array_key, HashValue::one_count());
             }
+            map.borrow_mut().insert(full_key, HashValue::none_keys());
+            self.last_array_tables.borrow_mut().push(res.clone());
+            self.last_array_tables_index.borrow_mut().push(count.unwrap_or(0));
             self.last_table = Some(res.clone());
           }
         }
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index fa5cb6e..76c2d43 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -43,40 +43,6 @@ pub fn count_lines(s: &str) -> usize {
 }
 
 impl<'a> Parser<'a> {
-  pub fn get_key_parent(tables: &RefCell<Vec<Rc<TableType<'a>>>>,
-    tables_index: &RefCell<Vec<usize>>) -> String {
-    let mut key_parent: String = String::new();
-    let last_table: Option<&Table> = None;
-    let tables_len = tables_index.borrow().len();
-    let mut prev_end = 0;
-    for i in 0..tables_len {
-      if let &TableType::Array(ref t) = &*tables.borrow()[i] {
-        if key_parent.len() > 0 {
-          key_parent.push('.');
-        }
-        let keys = get_last_keys(last_table, t);
-        debug!("get_key_parent last_keys: {:?}", keys);
-        for j in prev_end..keys.len() {
-          if keys[j] != "$Root$" {
-            key_parent.push_str(&keys[j]);
-            if j < keys.len() - 1 {
-              key_parent.push('.');
-            }
-          }
-          debug!("get_key_parent key_parent: {}", key_parent);
-        }
-        prev_end = keys.len();
-        let index = tables_index.borrow()[i];
-        if i < tables_len - 1 {
-          key_parent.push_str(&format!("[{}]", index));
-        }
-      }
-    }
-    debug!("get_key_parent final key_parent: {}", key_parent);
-    key_parent
-  }
-
-
   pub fn get_array_table_key(map: &RefCell<&mut HashMap<String, HashValue<'a>>>, tables: &RefCell<Vec<Rc<TableType<'a>>>>,
     tables_index: &RefCell<Vec<usize>>) -> (bool, String, String) {
     let mut full_key: String = String::new();
@@ -193,7 +159,7 @@ impl<'a> Parser<'a> {
     (valid, full_key, parent_key)
   }
 
-  fn key_has_value(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> bool {
+  pub fn key_has_value(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> bool {
     let map_borrow = map.borrow();
     debug!("Check if key \"{}\" has a value.", key);
     let hash_value_opt = map_borrow.get(key);
-- 
2.43.0


From 14c376e27331dd9b9a154e3a1ae1191f5c327bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 06/17] fix: token grammar covers ASCII digits, hex escapes,
 tabs and all of Unicode

---
 src/internals/primitives.rs | 22 +++++++++++-----------
 src/internals/util.rs       |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 76c2d43..fb23918 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -388,43 +388,43 @@ impl<'a> Parser<'a> {
   }
 
   // Integer
-  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9](\d|(_\d))+)|\d))"#)) ;
+  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9]([0-9]|(_[0-9]))+)|[0-9]))"#)) ;
 
   // Float
   method!(pub float<Parser<'a>, &'a str, &'a str>, self,
-         re_find!(r#"^(\+|-)?([1-9](\d|(_\d))+|\d)((\.\d(\d|(_\d))*)((e|E)(\+|-)?([1-9](\d|(_\d))+|\d))|(\.\d(\d|(_\d))*)|((e|E)(\+|-)?([1-9](\d|(_\d))+|\d)))"#));
+         re_find!(r#"^(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])((\.[0-9]([0-9]|(_[0-9]))*)((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9]))|(\.[0-9]([0-9]|(_[0-9]))*)|((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])))"#));
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*"#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
+    re_find!(r#"^([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -&]|[\(-\x{10FFFF}])*"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -￿]|\n|(\r\n))*"#));
+  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -\x{10FFFF}]|\n|(\r\n))*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-￿])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'(\t|[ -&]|[\(-\x{10FFFF}])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -￿]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(\t|[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -580,7 +580,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-￿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Fa-f]{4})|(\\\\U[0-9A-Fa-f]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
diff --git a/src/internals/util.rs b/src/internals/util.rs
index 511e431..b7347a2 100644
--- a/src/internals/util.rs
+++ b/src/internals/util.rs
@@ -2,7 +2,7 @@ use internals::ast::structs::Comment;
 use internals::parser::Parser;
 
 fn not_eol(chr: char) -> bool {
-  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFF)
+  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFFF)
 }
 
 impl<'a> Parser<'a> {
-- 
2.43.0


From e839acc23730853a75890b22ca0f53e71b8853e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 07/17] fix: line numbers count the newlines inside arrays and
 inline tables

---
 src/internals/objects.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 3770f44..44438b8 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,7 +1,7 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
                               TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue};
 use internals::parser::Parser;
-use internals::primitives::Key;
+use internals::primitives::{Key, count_lines};
 use types::{ParseError, Children};
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -323,6 +323,7 @@ impl<'a> Parser<'a> {
    comment: call_m!(self.comment)     ~
   newlines: call_m!(self.ws_newline) ,
       ||{
+        self.line_count.set(self.line_count.get() + count_lines(prewsnl) + count_lines(newlines));
         CommentNewLines::new_str(prewsnl, comment, newlines)
       }
     )
@@ -331,7 +332,9 @@ impl<'a> Parser<'a> {
   method!(comment_or_nl<Parser<'a>, &'a str, CommentOrNewLines>, mut self,
     alt!(
       complete!(call_m!(self.comment_nl))   => {|com| CommentOrNewLines::Comment(com)} |
-      complete!(call_m!(self.ws_newline))  => {|nl: &'a str|  CommentOrNewLines::NewLines(nl.into())}
+      complete!(call_m!(self.ws_newline))  => {|nl: &'a str| {
+        self.line_count.set(self.line_count.get() + count_lines(nl)); CommentOrNewLines::NewLines(nl.into())
+      }}
     )
   );
 
-- 
2.43.0


From 58e2e8e4d1f1ef2f381d65dc919344e74ec1625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 08/17] fix: array elements and inline table pairs need a
 separating comma

---
 src/internals/objects.rs | 49 +++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 44438b8..a38bc76 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -384,17 +384,26 @@ impl<'a> Parser<'a> {
         )
   );
 
-  method!(array_values<Parser<'a>, &'a str, Vec<ArrayValue> >, mut self,
-    chain!(
-     vals: many0!(call_m!(self.array_value)) ,
-     ||{
-        debug!("Finished array values");
-        let mut tmp = vec![];
-        tmp.extend(vals);
-        tmp
+  // Only the last value may go without a separator
+  fn array_values(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Vec<ArrayValue<'a>>>) {
+    let mut vals = vec![];
+    let mut rest = input;
+    loop {
+      let (tmp, res) = self.array_value(rest);
+      self = tmp; // Restore self
+      match res {
+        IResult::Done(i, val) => {
+          rest = i;
+          let separated = val.array_sep.is_some();
+          vals.push(val);
+          if !separated { break; }
+        },
+        _ => break,
       }
-    )
-  );
+    }
+    debug!("Finished array values");
+    (self, IResult::Done(rest, vals))
+  }
 
   pub fn array(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Rc<RefCell<Array>>>) {
     // Initialize last array type to None, we need a stack because arrays can be nested
@@ -434,7 +443,25 @@ impl<'a> Parser<'a> {
         )
   );
 
-  method!(inline_table_keyvals_non_empty<Parser<'a>, &'a str, Vec<TableKeyVal> >, mut self, many0!(call_m!(self.table_keyval)));
+  // Only the last key/value may go without a separator
+  fn inline_table_keyvals_non_empty(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Vec<TableKeyVal<'a>>>) {
+    let mut keyvals = vec![];
+    let mut rest = input;
+    loop {
+      let (tmp, res) = self.table_keyval(rest);
+      self = tmp; // Restore self
+      match res {
+        IResult::Done(i, keyval) => {
+          rest = i;
+          let separated = keyval.kv_sep.is_some();
+          keyvals.push(keyval);
+          if !separated { break; }
+        },
+        _ => break,
+      }
+    }
+    (self, IResult::Done(rest, keyvals))
+  }
 
   method!(pub inline_table<Parser<'a>, &'a str, Rc<RefCell<InlineTable>> >, mut self,
     chain!(
-- 
2.43.0


From afd47fae232eadb59cb27992baac6e353a429b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 09/17] fix: date and time fields are decimal digits, fractions
 of any length

---
 src/types.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 051411b..a16a1b9 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1057,6 +1057,11 @@ impl Display for PosNeg {
   }
 }
 
+// The number parsing functions of std also take a leading plus sign and limit the size
+fn all_digits(s: &str) -> bool {
+  s.len() > 0 && s.bytes().all(|b| b >= b'0' && b <= b'9')
+}
+
 /// Represents either a timezone of Zulu or or hour plus minute timezone offset from UTC.
 #[derive(Debug, Eq, Clone)]
 pub enum TimeOffset<'a> {
@@ -1157,7 +1162,7 @@ impl<'a> TimeOffsetAmount<'a> {
   /// assert!(offset_right.validate());
   /// ```
   pub fn validate(&self) -> bool {
-    if self.hour.len() != 2 || self.minute.len() != 2 {
+    if self.hour.len() != 2 || self.minute.len() != 2 || !all_digits(&self.hour) || !all_digits(&self.minute) {
       return false;
     }
     return self.validate_numbers();
@@ -1244,6 +1249,9 @@ impl<'a> Date<'a> {
     if self.year.len() != 4 || self.month.len() != 2 || self.day.len() != 2 {
       return false;
     }
+    if !all_digits(&self.year) || !all_digits(&self.month) || !all_digits(&self.day) {
+      return false;
+    }
     return self.validate_numbers();
   }
 
@@ -1379,6 +1387,9 @@ impl<'a> Time<'a> {
     if self.hour.len() != 2 || self.minute.len() != 2 || self.second.len() != 2 {
       return false;
     }
+    if !all_digits(&self.hour) || !all_digits(&self.minute) || !all_digits(&self.second) {
+      return false;
+    }
     return self.validate_numbers();
   }
 
@@ -1405,7 +1416,7 @@ impl<'a> Time<'a> {
       return false;
     }
     if let Some(ref frac) = self.fraction {
-      if u64::from_str(frac).is_err() {
+      if !all_digits(frac) {
         return false;
       }
     }
-- 
2.43.0


From 78adffe3ddb14553d9bdae9f12f7e10e41667d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 10/17] fix: each mixed array is reported once, with its own
 key, whatever other errors exist

---
 src/internals/ast/structs.rs |  1 +
 src/internals/objects.rs     | 34 ++++++++++------------------------
 2 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index f176bd2..87a3e9f 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -143,6 +143,7 @@ pub enum ArrayType {
   Array,
   String,
   InlineTable,
+  Mixed,
   None,
 }
 
diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index a38bc76..7bf93c2 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -348,34 +348,20 @@ impl<'a> Parser<'a> {
   comment_nls: complete!(call_m!(self.comment_or_nls))  ,
           ||{
             let t = map_val_to_array_type(&*val.borrow());
-            let len = self.last_array_type.borrow().len();
-            if len > 0 && self.last_array_type.borrow()[len - 1] != ArrayType::None &&
-               self.last_array_type.borrow()[len - 1] != t {
+            let last = self.last_array_type.borrow_mut().pop().unwrap_or(ArrayType::None);
+            let mixed = last != ArrayType::None && last != ArrayType::Mixed && last != t;
+            if mixed {
               let tuple = Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
                 &self.last_array_tables_index, &self.keychain
               );
-              let err_len = self.errors.borrow().len();
-              let mut mixed = false;
-              if err_len > 0 {
-                if let ParseError::MixedArray(ref key, _, _) = self.errors.borrow()[err_len - 1] {
-                  debug!("Check mixed array previous: {}, current: {}", key, tuple.1);
-                  if !tuple.1.starts_with(key) {
-                    mixed = true;
-                    debug!("Mixed array error insert: {}", tuple.1);
-                  }
-                }
-              } else {
-                mixed = true;
-                debug!("Mixed array error insert: {}", tuple.1);
-              }
-              if mixed {
-                self.errors.borrow_mut().push(ParseError::MixedArray(
-                  tuple.2, self.line_count.get(), 0
-                ));
-              }
+              debug!("Mixed array error insert: {}", tuple.2);
+              self.errors.borrow_mut().push(ParseError::MixedArray(
+                tuple.2, self.line_count.get(), 0
+              ));
             }
-            self.last_array_type.borrow_mut().pop();
-            self.last_array_type.borrow_mut().push(t);
+            // once reported, an array stays mixed
+            let mixed = mixed || last == ArrayType::Mixed;
+            self.last_array_type.borrow_mut().push(if mixed { ArrayType::Mixed } else { t });
             let keychain_len = self.keychain.borrow().len();
             self.insert_keyval_into_map(val.clone());
             self.keychain.borrow_mut()[keychain_len - 1].inc();
-- 
2.43.0


From 1d30a3c306e63acf2d6c07c2ecb572e1dd81b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 11/17] fix: duplicate keys and invalid tables keep their
 contents out of the key map

---
 src/internals/objects.rs    | 10 +++++++
 src/internals/parser.rs     |  3 ++-
 src/internals/primitives.rs | 52 ++++++++++++++++++++++++++++++-------
 3 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 7bf93c2..070793e 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -66,6 +66,14 @@ impl<'a> Parser<'a> {
     (valid, full_key, parent_key)
   }
 
+  // Makes errors found below an invalid table header carry that table's key
+  fn set_invalid_table(tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>, key: &str) {
+    *tables.borrow_mut() = vec![Rc::new(TableType::Standard(
+      Table::new_string(WSSep::new_str("", ""), key.to_string(), vec![])
+    ))];
+    *tables_index.borrow_mut() = vec![0];
+  }
+
   // The number of elements of the array of tables at `key`, None if there isn't one
   fn array_of_tables_len(key: &str, map: &RefCell<&mut HashMap<String, HashValue<'a>>>) -> Option<usize> {
     match map.borrow().get(key) {
@@ -211,6 +219,7 @@ impl<'a> Parser<'a> {
         debug!("Before error check");
         if error {
           debug!("Setting Invalid Table {} in Standard Table", table_key);
+          Parser::set_invalid_table(&self.last_array_tables, &self.last_array_tables_index, &table_key);
           self.errors.borrow_mut().push(ParseError::InvalidTable(
             table_key, self.line_count.get(), 0,
             RefCell::new(HashMap::new())
@@ -274,6 +283,7 @@ impl<'a> Parser<'a> {
           let full_key = format!("{}[{}]", array_key, count.unwrap_or(0));
           if !valid || (contains_key && count.is_none()) {
             debug!("Setting Invalid Table {}", full_key);
+            Parser::set_invalid_table(&self.last_array_tables, &self.last_array_tables_index, &full_key);
             self.errors.borrow_mut().push(ParseError::InvalidTable(
               full_key, self.line_count.get(), 0,
               RefCell::new(HashMap::new())
diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 618bbeb..6c72756 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -23,6 +23,7 @@ pub struct Parser<'a> {
   pub last_table: Option<Rc<TableType<'a>>>,
   pub last_array_type: RefCell<Vec<ArrayType>>,
   pub array_error: Cell<bool>,
+  pub ignore_keys: Cell<bool>,
   pub mixed_array: Cell<bool>,
   pub failure: Cell<bool>,
 }
@@ -38,7 +39,7 @@ impl<'a> Parser<'a> {
             last_array_tables_index: RefCell::new(vec![]),
             last_table: None, last_array_type: RefCell::new(vec![]),
             keychain: RefCell::new(vec![]),
-            array_error: Cell::new(false), mixed_array: Cell::new(false),
+            array_error: Cell::new(false), ignore_keys: Cell::new(false), mixed_array: Cell::new(false),
             failure: Cell::new(false)}
   }
 
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index fb23918..0b94682 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -250,6 +250,9 @@ impl<'a> Parser<'a> {
   }
 
   pub fn insert_keyval_into_map(&mut self, val: Rc<RefCell<TOMLValue<'a>>>) {
+    if self.ignore_keys.get() {
+      return;
+    }
     debug!("Insert val: {}", *(*val).borrow());
     let map = RefCell::new(&mut self.map);
     let mut insert = false;
@@ -613,25 +616,56 @@ impl<'a> Parser<'a> {
     )
   );
 
+  // The value of a key. Nothing inside the value of a duplicate key or of a key in an invalid table is reachable, so
+  // none of it goes into the map. Returns the value and whether the key is a duplicate.
+  fn keyval_val(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, (Rc<RefCell<TOMLValue<'a>>>, bool)>) {
+    let outer = self.ignore_keys.get();
+    let mut duplicate = false;
+    if !outer {
+      let full_key = Parser::get_full_key(&RefCell::new(&mut self.map), &self.last_array_tables,
+        &self.last_array_tables_index, &self.keychain).1;
+      duplicate = !self.array_error.get() && self.map.contains_key(&full_key);
+      self.ignore_keys.set(duplicate || self.array_error.get());
+    }
+    let (tmp, res) = self.val(input);
+    self = tmp; // Restore self
+    self.ignore_keys.set(outer);
+    let r = match res {
+      IResult::Done(i, o) => IResult::Done(i, (o, duplicate)),
+      IResult::Error(e) => IResult::Error(e),
+      IResult::Incomplete(n) => IResult::Incomplete(n),
+    };
+    (self, r)
+  }
+
   method!(pub keyval<Parser<'a>, &'a str, KeyVal>, mut self,
     chain!(
       key: call_m!(self.key)        ~
        ws: call_m!(self.keyval_sep) ~
-      val: call_m!(self.val)        ,
+      val: call_m!(self.keyval_val) ,
       || {
+        let (val, duplicate) = val;
         let res = KeyVal::new_str(key, ws, val);
         if self.array_error.get() {
           debug!("array_error");
-          let err = self.errors.borrow_mut().pop().unwrap();
-          if let ParseError::InvalidTable(_, _, _, ref map) = err {
-            debug!("InvalidTable");
-            map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+          // only the table's own keys, not those of an inline table inside it
+          if self.keychain.borrow().len() == 1 {
+            for err in self.errors.borrow().iter().rev() {
+              if let &ParseError::InvalidTable(_, _, _, ref map) = err {
+                debug!("InvalidTable");
+                map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+                break;
+              }
+            }
           }
-          self.errors.borrow_mut().push(err);
+        } else if duplicate {
+          let full_key = Parser::get_full_key(&RefCell::new(&mut self.map), &self.last_array_tables,
+            &self.last_array_tables_index, &self.keychain).1;
+          self.errors.borrow_mut().push(ParseError::DuplicateKey(
+            full_key, self.line_count.get(), 0, to_val!(&*res.val.borrow())
+          ));
         } else {
-          match *res.val.borrow() {
-            _ => self.insert_keyval_into_map(res.val.clone()),
-          }
+          self.insert_keyval_into_map(res.val.clone());
         }
         self.keychain.borrow_mut().pop();
         res
-- 
2.43.0


From 9ff81b2effb0293ab16e0a58144860dae7c5857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 12/17] fix: validate checks the whole text of a value and
 everything inside a container

---
 src/internals/parser.rs |  9 +++------
 src/types.rs            | 32 +++++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 6c72756..705f133 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -134,6 +134,9 @@ impl<'a> Parser<'a> {
 
   pub fn set_value<S>(self: &mut Parser<'a>, key: S, val: Value<'a>) -> bool where S: Into<String> {
     let s_key = key.into();
+    if !val.validate() {
+      return false;
+    }
     {
       let tval = match self.map.entry(s_key.clone()) {
         Entry::Occupied(entry) => entry.into_mut(),
@@ -172,9 +175,6 @@ impl<'a> Parser<'a> {
   }
 
   fn convert_vector(tval: &Value<'a>) -> Option<TOMLValue<'a>> {
-    if !tval.validate() {
-      return None;
-    }
      match tval {
       &Value::Array(ref arr) => {
         let mut values = vec![];
@@ -251,9 +251,6 @@ impl<'a> Parser<'a> {
   }
 
   fn same_structure(val_rf: &Rc<RefCell<TOMLValue<'a>>>, tval: &Value<'a>) -> bool {
-    if !tval.validate() {
-      return false;
-    }
     match (&*val_rf.borrow(), tval) {
       (&TOMLValue::Array(ref arr), &Value::Array(ref t_arr)) => {
         let borrow = arr.borrow();
diff --git a/src/types.rs b/src/types.rs
index a16a1b9..883b81e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hasher;
 use std::rc::Rc;
 use std::cell::{Cell, RefCell};
@@ -949,14 +949,14 @@ impl<'a> Value<'a> {
       &Value::Integer(ref s) => {
         let p = Parser::new();
         match p.integer(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
       &Value::Float(ref s) => {
         let p = Parser::new();
         match p.float(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
@@ -971,7 +971,7 @@ impl<'a> Value<'a> {
           },
           StrType::MLBasic => {
             match Parser::quoteless_ml_basic_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+              IResult::Done(i,_) => i.len() == 0 && self.closes_at_end(),
               _ => false,
             }
           },
@@ -983,15 +983,37 @@ impl<'a> Value<'a> {
           },
           StrType::MLLiteral => {
             match Parser::quoteless_ml_literal_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
+              IResult::Done(i,_) => i.len() == 0 && self.closes_at_end(),
               _ => false,
             }
           },
         }
       },
+      &Value::Array(ref arr) => arr.iter().all(|val| val.validate()),
+      &Value::InlineTable(ref it) => {
+        let mut keys = HashSet::new();
+        it.iter().all(|keyval| {
+          let valid_key = match Parser::new().key(&keyval.0) {
+            (_, IResult::Done(i, _)) => i.len() == 0,
+            (_,_) => false,
+          };
+          valid_key && keys.insert(&keyval.0) && keyval.1.validate()
+        })
+      },
       _ => true,
     }
   }
+
+  // The quotes of a multi-line string may also occur inside of it, they must not close it early
+  fn closes_at_end(&self) -> bool {
+    let text = format!("{}", self);
+    let p = Parser::new();
+    let closes = match p.val(&text) {
+      (_, IResult::Done(i, _)) => i.len() == 0,
+      (_,_) => false,
+    };
+    closes
+  }
 }
 
 /// Error type returned by `Value` creation convenience functions on invalid input.
-- 
2.43.0


From a7ba37f3335185b5b61cb612806d6c8b41a98deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 13/17] fix: a parser that parses again forgets the earlier
 document

---
 src/internals/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 705f133..c23d0c1 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -44,6 +44,8 @@ impl<'a> Parser<'a> {
   }
 
   pub fn parse(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, ParseResult<'a>) {
+    // nothing of a document parsed earlier may show in this one
+    self = Parser::new();
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-- 
2.43.0


From 63ddeafec4c142f7b83cb15dee423a8b7118a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 14/17] fix: tomlkit keeps the Z offset of a datetime it sets

---
 src/bin/tomlkit.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 1e62c06..15d124e 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -569,7 +569,7 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
           let (year, month, day);
           let (mut hour, mut minute, mut second, mut fraction) = ("".into(), "".into(), "".into(), "".into());
           let (mut off_hour, mut off_minute, mut pos_neg) = ("".into(), "".into(), PosNeg::Pos);
-          let (mut has_time, mut has_fraction, mut has_offset) = (false, false, false);
+          let (mut has_time, mut has_fraction, mut has_offset, mut is_zulu) = (false, false, false, false);
           if let Ok(dtval) = tmp_result {
             if let Value::DateTime(dt) = dtval {
               year = dt.date.year.to_string().into();
@@ -585,17 +585,22 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
                   fraction = frac.to_string().into();
                 }
                 if let Some(ref offset) = time.offset {
-                  if let &TimeOffset::Time(ref amount) = offset {
-                    has_offset = true;
-                    pos_neg = amount.pos_neg;
-                    off_hour = amount.hour.to_string().into();
-                    off_minute = amount.minute.to_string().into();
+                  match offset {
+                    &TimeOffset::Time(ref amount) => {
+                      has_offset = true;
+                      pos_neg = amount.pos_neg;
+                      off_hour = amount.hour.to_string().into();
+                      off_minute = amount.minute.to_string().into();
+                    },
+                    &TimeOffset::Zulu => is_zulu = true,
                   }
                 }
               }
 
               let newoffset = if has_offset {
                 Some(TimeOffset::Time(TimeOffsetAmount{pos_neg: pos_neg, hour: off_hour, minute: off_minute}))
+              } else if is_zulu {
+                Some(TimeOffset::Zulu)
               } else {
                 None
               };
-- 
2.43.0


From d6b482671f6e3e682c98ed535dbb13aae5bcd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 15/17] fix: tomlkit --quiet turns off printing Success

---
 src/bin/tomlkit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 15d124e..2bbd4f6 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -197,6 +197,9 @@ impl Options {
     if matches.has_match("strip-quotes") {
       opts.strip_quotes = true;
     }
+    if matches.has_match("quiet") {
+      opts.quiet = true;
+    }
     // Post-command options
     if matches.has_match("print-doc") {
       opts.print_doc = true;
@@ -323,9 +326,7 @@ fn process_document(file_path: &String, opts: &Options, matches: &Matches, vars:
   for i in 0..result.len() {
     match &result[i]  {
       &Ok(ref val) => {
-        if !opts.quiet {
-          print!("{}", val);
-        }
+        print!("{}", val);
       },
       &Err(ref err) => {
         print!("Error \"{}\": {}", file_path, err);
-- 
2.43.0


From bb979c3337eb2a0b049fb391806b025bb92b11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 16/17] fix: tomlkit reports --set-true and --set-false lists
 that are empty or too short for the keys instead of panicking

---
 src/bin/tomlkit.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 2bbd4f6..b11b672 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -400,19 +400,17 @@ fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, k
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i];
-        } else {
-          true_val = &true_vals[0];
+        match list_item(true_vals, i) {
+          Some(val) => true_val = val,
+          None => return Err(format!("Not enough true values specified for the number of keys: \"{}\".", csv)),
         }
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i];
-        } else {
-          false_val = &false_vals[0];
+        match list_item(false_vals, i) {
+          Some(val) => false_val = val,
+          None => return Err(format!("Not enough false values specified for the number of keys: \"{}\".", csv)),
         }
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
@@ -496,19 +494,17 @@ fn has_children(csv: &str, sep: &String, true_vals: &String, false_vals: &String
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i+keycount];
-        } else {
-          true_val = &true_vals[0];
+        match list_item(true_vals, i + keycount) {
+          Some(val) => true_val = val,
+          None => return Err(format!("Not enough true values specified for the number of keys: \"{}\".", csv)),
         }
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i+keycount];
-        } else {
-          false_val = &false_vals[0];
+        match list_item(false_vals, i + keycount) {
+          Some(val) => false_val = val,
+          None => return Err(format!("Not enough false values specified for the number of keys: \"{}\".", csv)),
         }
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
@@ -653,6 +649,16 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
   Err(format!("Could not parse keys: \"{}\".", kvs))
 }
 
+// The item of an option list that belongs to a key: a list of one item is used for every key and an empty list stands
+// for one empty item
+fn list_item(items: &Vec<String>, i: usize) -> Option<&str> {
+  match items.len() {
+    0 => Some(""),
+    1 => Some(&items[0]),
+    _ => items.get(i).map(|item| item as &str),
+  }
+}
+
 fn csv_to_vec<'a>(csv: &str) -> Result<Vec<String>, csv::Error> {
   let mut fields = vec![];
   let mut rdr = Reader::from_string(csv).has_headers(false).escape(Some(b'\\')).quote(b'\0');
-- 
2.43.0


From 47a0360505f7cd9c013e9af0ed3d4460a74af41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 17/17] fix: tomlkit refuses arguments that are neither options
 nor their values instead of panicking

---
 src/bin/tomlkit.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index b11b672..841adbe 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -88,7 +88,18 @@ fn main() {
     Err(e) => panic!("There was an error parsing argument definitions: {}", e)
   };
 
-  let args: Vec<String> = env::args().collect();
+  let mut args: Vec<String> = vec![];
+  for arg in env::args_os() {
+    match arg.into_string() {
+      Ok(a) => args.push(a),
+      Err(a) => {
+        usage!(println!("Error: Argument is not valid UTF-8: {:?}.", a), &vars);
+      },
+    }
+  }
+  if let Some(arg) = unreadable_arg(&args, &vars) {
+    usage!(println!("Error: Unexpected argument: \"{}\".", arg), &vars);
+  }
   let matches: Matches = match matches(&args, &mut vars) {
     Ok(m) => m,
     Err(e) => {
@@ -129,6 +140,28 @@ fn main() {
   }
 }
 
+// Finds the first argument that is neither an option nor the value of one, pirate panics when it meets such an argument
+fn unreadable_arg(args: &Vec<String>, vars: &Vars) -> Option<String> {
+  let mut rest = args.iter().skip(1);
+  while let Some(arg) = rest.next() {
+    let mut chars = arg.chars();
+    if chars.next() != Some('-') || chars.next().map_or(true, |c| !c.is_ascii()) {
+      return Some(arg.clone());
+    }
+    let names: Vec<String> = if arg.starts_with("--") {
+      vec![arg[2..].to_string()]
+    } else {
+      arg[1..].chars().map(|c| c.to_string()).collect()
+    };
+    for name in names {
+      if vars.get_opt(&name).map_or(false, |token| token.has_arg) {
+        let _ = rest.next();
+      }
+    }
+  }
+  None
+}
+
 struct Options {
   true_vals: String,
   false_vals: String,
-- 
2.43.0

