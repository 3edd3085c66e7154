From 36c4d5db7a104eb52c37c3f566709df4530c8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 01/20] fix: skip unknown varint fields of any length

---
 steit/src/de/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 3aaba8a..911cc0d 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -43,7 +43,8 @@ impl<R: io::Read> Reader<R> {
     pub fn skip_field(&mut self, wire_type: WireType) -> io::Result<()> {
         match wire_type {
             WireType::Varint => {
-                u8::deserialize(self)?;
+                // The field may hold a varint of any length; `bool` reads all of them.
+                bool::deserialize(self)?;
             }
 
             WireType::Sized => {
-- 
2.43.0


From 74b63252cc274d60ef9cabe2d5a44fa7b913d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 02/20] fix: reject overlong varints instead of overflowing a
 shift

---
 steit/src/impls/varint.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 4a880fe..e81a8ca 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -58,6 +58,13 @@ macro_rules! impl_unsigned_varint {
                         }
 
                         offset += 7;
+
+                        if offset >= std::mem::size_of::<$type>() << 3 {
+                            return Err(::std::io::Error::new(
+                                ::std::io::ErrorKind::InvalidData,
+                                format!("varint is too long for `{}`", stringify!($type)),
+                            ));
+                        }
                     }
                 }
             }
-- 
2.43.0


From 6acf885bbc23dbd57a4fd8f90f6ad32a0cef177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 03/20] fix: skip sized fields without allocating, and fail if
 they are truncated

---
 steit/src/de/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 911cc0d..e2ba0b3 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -49,8 +49,11 @@ impl<R: io::Read> Reader<R> {
 
             WireType::Sized => {
                 let size = u64::deserialize(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
-                self.by_ref().take(size).read_to_end(&mut buf)?;
+                let skipped = io::copy(&mut self.by_ref().take(size), &mut io::sink())?;
+
+                if skipped < size {
+                    return Err(io::ErrorKind::UnexpectedEof.into());
+                }
             }
         }
 
-- 
2.43.0


From 671f05f8f6270ab4814faec7babefdfb3be22cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 04/20] fix: fail on sized values that are cut short instead of
 accepting a part

---
 steit/src/de/de.rs     |  7 ++++++-
 steit/src/de/reader.rs | 13 +++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/steit/src/de/de.rs b/steit/src/de/de.rs
index 80ef6a4..88ca3c7 100644
--- a/steit/src/de/de.rs
+++ b/steit/src/de/de.rs
@@ -24,7 +24,12 @@ pub trait Deserialize: Default + HasWireType {
 
         match wire_type {
             WireType::Varint => self.merge(reader),
-            WireType::Sized => self.merge(&mut reader.nested()?),
+
+            WireType::Sized => {
+                let mut nested = reader.nested()?;
+                self.merge(&mut nested)?;
+                nested.finish()
+            }
         }
     }
 
diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index e2ba0b3..a6a3c80 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -65,6 +65,19 @@ impl<R: io::Read> Reader<R> {
     }
 }
 
+impl<R: io::Read> Reader<io::Take<R>> {
+    /// Skips what is left of a nested value, which must not be cut short by the end of input.
+    pub fn finish(mut self) -> io::Result<()> {
+        io::copy(&mut self, &mut io::sink())?;
+
+        if self.inner.get_ref().limit() > 0 {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+
+        Ok(())
+    }
+}
+
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         self.inner.read(buf)
-- 
2.43.0


From 12c0817055f39b5d3a1a1e7ae239f499f1443b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 05/20] fix: attach values inserted into a Map to its runtime

---
 steit/src/types/map/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 96350fc..d21dce6 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -58,8 +58,9 @@ impl<K: MapKey, V: State> Map<K, V> {
         self.entries.get_mut(&key.as_field_number())
     }
 
-    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+    pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
     }
-- 
2.43.0


From 2f9e7465d255fa10bec995ee382752ed8291fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 06/20] fix: don't log the removal of a key that isn't in the
 Map

---
 steit/src/types/map/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index d21dce6..4f8cb24 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -75,6 +75,11 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn remove(&mut self, key: &K) -> Option<V> {
         let field_number = key.as_field_number();
+
+        if !self.entries.contains_key(&field_number) {
+            return None;
+        }
+
         self.runtime.log_map_remove(field_number).unwrap();
         self.entries.remove(&field_number)
     }
-- 
2.43.0


From f19f99440d356b1bf780a6e7f4a69b9eb2c018cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 07/20] fix: re-address the item moved by List::swap_remove
 from the list itself

---
 steit/src/types/list.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index e07e9b1..c62e5e0 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -103,8 +103,7 @@ impl<T: State> List<T> {
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
-            let runtime = removed.runtime().sibling(index as u32);
-            swapped.set_runtime(runtime);
+            swapped.set_runtime(self.runtime.nested(index as u32));
         }
 
         Some(removed)
-- 
2.43.0


From 9815df56ca788060f0cbf8c442fe38e9ca10c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 08/20] fix: build new values under a muted runtime instead of
 pausing the shared logger

---
 steit-derive/src/derive/field.rs |  6 +++---
 steit/src/rt/runtime.rs          | 13 ++++++++++++-
 steit/src/types/list.rs          | 13 +++++--------
 steit/src/types/map/map.rs       |  6 ++----
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index f2f0bce..76c8d38 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -309,9 +309,9 @@ impl<'a> DeriveField<'a> {
                     pub fn #setter_with_name(&mut self, get_value: impl FnOnce(Runtime) -> #ty) -> &mut Self {
                         #reset_variant
                         #declare_runtime
-                        runtime.pause_logger();
-                        let value = get_value(runtime.nested(#tag));
-                        runtime.unpause_logger();
+                        let value_runtime = runtime.nested(#tag);
+                        let mut value = get_value(value_runtime.muted());
+                        value.set_runtime(value_runtime);
                         #log_update
                         #set_value
                         self
diff --git a/steit/src/rt/runtime.rs b/steit/src/rt/runtime.rs
index abb68c0..ff7a884 100644
--- a/steit/src/rt/runtime.rs
+++ b/steit/src/rt/runtime.rs
@@ -8,7 +8,10 @@ use std::{
 use serde::Serialize as JsonSerialize;
 
 use crate::{
-    log::{loggers::BufferLogger, LogEntry, Logger},
+    log::{
+        loggers::{BufferLogger, NoopLogger},
+        LogEntry, Logger,
+    },
     ser::Serialize,
 };
 
@@ -83,6 +86,14 @@ impl Runtime {
         }
     }
 
+    /// Gets a `Runtime` at the same path that doesn't log anything.
+    pub fn muted(&self) -> Self {
+        Self {
+            logger: Arc::new(Mutex::new(RuntimeLogger::new(NoopLogger::new()))),
+            path: self.path.clone(),
+        }
+    }
+
     pub fn path(&self) -> &Arc<Node<u32>> {
         &self.path
     }
diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index c62e5e0..298eb23 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -50,19 +50,16 @@ impl<T: State> List<T> {
         self.items.get_mut(index)
     }
 
-    pub fn push(&mut self, mut item: T) -> usize {
-        self.push_with(|runtime| {
-            item.set_runtime(runtime);
-            item
-        })
+    pub fn push(&mut self, item: T) -> usize {
+        self.push_with(|_| item)
     }
 
     pub fn push_with(&mut self, get_item: impl FnOnce(Runtime) -> T) -> usize {
         let field_number = self.items.len() as u32;
 
-        self.runtime.pause_logger();
-        let item = get_item(self.runtime.nested(field_number));
-        self.runtime.unpause_logger();
+        let runtime = self.runtime.nested(field_number);
+        let mut item = get_item(runtime.muted());
+        item.set_runtime(runtime);
 
         self.runtime.log_list_push(&item).unwrap();
         self.items.push(item);
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 4f8cb24..45ef0a2 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -66,10 +66,8 @@ impl<K: MapKey, V: State> Map<K, V> {
     }
 
     pub fn insert_with(&mut self, key: K, get_value: impl FnOnce(Runtime) -> V) -> Option<V> {
-        let tag = key.as_field_number();
-        self.runtime.pause_logger();
-        let value = get_value(self.runtime.nested(tag));
-        self.runtime.unpause_logger();
+        let runtime = self.runtime.nested(key.as_field_number());
+        let value = get_value(runtime.muted());
         self.insert(key, value)
     }
 
-- 
2.43.0


From c6392e9d053b2ee1b6773c19fbc24e8c1066e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 09/20] fix: give Maybe and its value the runtimes of their own
 positions

---
 steit/src/types/maybe.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/maybe.rs b/steit/src/types/maybe.rs
index cce3f68..65743cd 100644
--- a/steit/src/types/maybe.rs
+++ b/steit/src/types/maybe.rs
@@ -21,15 +21,18 @@ pub enum Maybe<T: State> {
 
 impl<T: State> Maybe<T> {
     pub fn some(runtime: Runtime, value: T) -> Self {
-        Maybe::Some {
+        let mut some = Maybe::Some {
             value,
             size_cache: SizeCache::new(),
-            runtime,
-        }
+            runtime: runtime.clone(),
+        };
+
+        some.set_runtime(runtime);
+        some
     }
 
     pub fn none(runtime: Runtime) -> Self {
-        Maybe::None { runtime }
+        Self::new_none(runtime)
     }
 
     pub fn from_option(runtime: Runtime, option: Option<T>) -> Self {
-- 
2.43.0


From b113ac088ce06cb4f51afcc78deaab9e85acbfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 10/20] fix: keep the old value when the payload of an update
 can't be decoded

---
 steit-derive/src/derive/enum.rs | 6 ++++--
 steit/src/state.rs              | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index b56da2b..e726ddb 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -417,8 +417,10 @@ impl<'a> Enum<'a> {
                 }
 
                 fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
-                    *self = Self::with_runtime(self.runtime().parent());
-                    self.merge(reader)
+                    let mut value = Self::with_runtime(self.runtime().parent());
+                    value.merge(reader)?;
+                    *self = value;
+                    Ok(())
                 }
 
                 fn handle(
diff --git a/steit/src/state.rs b/steit/src/state.rs
index a5d3b7a..5f30227 100644
--- a/steit/src/state.rs
+++ b/steit/src/state.rs
@@ -30,8 +30,10 @@ pub trait State: Serialize + Deserialize {
     }
 
     fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
-        *self = Self::with_runtime(self.runtime().clone());
-        self.merge(reader)
+        let mut value = Self::with_runtime(self.runtime().clone());
+        value.merge(reader)?;
+        *self = value;
+        Ok(())
     }
 
     fn replay(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
-- 
2.43.0


From b043093ebc6b9c15ad3b515ef13f79a52d0995a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 11/20] fix: reject Map keys that can't be encoded or aren't
 keys before inserting

---
 steit/src/types/map/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 45ef0a2..ec65c7b 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -60,6 +60,7 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        wire_fmt::validate_field_number(field_number).unwrap();
         value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
@@ -233,6 +234,9 @@ impl<K: MapKey, V: State> State for Map<K, V> {
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.handle(path, kind, key, reader)
             } else if kind == LogEntryKind::Update && path.next().is_none() {
+                wire_fmt::validate_field_number(field_number)?;
+                K::try_from_field_number(field_number)?;
+
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
                 value.merge(reader)?;
 
-- 
2.43.0


From 5bfc90012241da2f89047f659cc1d9592a93c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 12/20] fix: hand the entries of one operation to the inner
 logger together

---
 steit/src/log/logger.rs | 4 ++++
 steit/src/rt/logger.rs  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/steit/src/log/logger.rs b/steit/src/log/logger.rs
index 6559f1c..bdd4316 100644
--- a/steit/src/log/logger.rs
+++ b/steit/src/log/logger.rs
@@ -18,4 +18,8 @@ impl<T: ?Sized + Logger> Logger for Box<T> {
     fn log(&mut self, entry: LogEntry) -> io::Result<()> {
         self.as_mut().log(entry)
     }
+
+    fn log_multi(&mut self, entries: Vec<LogEntry>) -> io::Result<()> {
+        self.as_mut().log_multi(entries)
+    }
 }
diff --git a/steit/src/rt/logger.rs b/steit/src/rt/logger.rs
index 4a691fe..8af24e8 100644
--- a/steit/src/rt/logger.rs
+++ b/steit/src/rt/logger.rs
@@ -36,6 +36,14 @@ impl<T: Logger> Logger for RuntimeLogger<T> {
 
         Ok(())
     }
+
+    fn log_multi(&mut self, entries: Vec<LogEntry>) -> io::Result<()> {
+        if self.paused == 0 {
+            self.inner.log_multi(entries)?;
+        }
+
+        Ok(())
+    }
 }
 
 impl<T: Logger> PausableLogger for RuntimeLogger<T> {
-- 
2.43.0


From a5c9566fc6fa155cbdf749ba405df754843f0f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 13/20] fix: report generated files that couldn't be written
 out completely

---
 steit/src/gen/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steit/src/gen/generator.rs b/steit/src/gen/generator.rs
index 13072d0..1e2bcda 100644
--- a/steit/src/gen/generator.rs
+++ b/steit/src/gen/generator.rs
@@ -54,6 +54,7 @@ pub trait Generator {
             let mut writer = io::BufWriter::new(file);
 
             writer.write_all(source.as_bytes())?;
+            writer.flush()?;
             generated_names.push(name);
         }
 
-- 
2.43.0


From c6cdc68b5a7b689d892cce28a2cb97ef3bd5fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 14/20] fix: let a boxed enum be the root of a replay

---
 steit/src/impls/box.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 7802a7c..2b94253 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -47,6 +47,10 @@ impl<T: State> State for Box<T> {
         self.as_mut().set_runtime(runtime)
     }
 
+    fn is_root(&self) -> bool {
+        self.as_ref().is_root()
+    }
+
     fn handle(
         &mut self,
         path: impl Iterator<Item = u32>,
-- 
2.43.0


From 1d0fd54746839c5a6ccfa0ee2d74f9a75e6e24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 15/20] fix: respect the wire type of an entry when merging a
 Map

---
 steit/src/types/map/map.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index ec65c7b..e71bbf4 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -188,9 +188,13 @@ impl<K: MapKey, V: State> Serialize for Map<K, V> {
 impl<K: MapKey, V: State> Deserialize for Map<K, V> {
     fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
         while !reader.eof()? {
-            let field_number = u32::deserialize(reader)?;
-            let (field_number, _) = wire_fmt::parse_tag(field_number)?;
-            wire_fmt::validate_field_number(field_number)?;
+            let (field_number, wire_type) = reader.read_tag()?;
+
+            if wire_type != V::WIRE_TYPE {
+                reader.skip_field(wire_type)?;
+                continue;
+            }
+
             K::try_from_field_number(field_number)?;
 
             if let Some(value) = self.entries.get_mut(&field_number) {
-- 
2.43.0


From 966f006c83b413da99e70b0f19c76288f7951220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 16/20] fix: detach removed items from the log of the state
 they were in

---
 steit/src/types/list.rs    | 10 ++++++++--
 steit/src/types/map/map.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index 298eb23..b30040e 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -70,7 +70,7 @@ impl<T: State> List<T> {
     pub fn pop(&mut self) -> Option<T> {
         if !self.items.is_empty() {
             self.runtime.log_list_pop().unwrap();
-            self.items.pop()
+            self.items.pop().map(detach)
         } else {
             None
         }
@@ -103,7 +103,7 @@ impl<T: State> List<T> {
             swapped.set_runtime(self.runtime.nested(index as u32));
         }
 
-        Some(removed)
+        Some(detach(removed))
     }
 
     pub fn iter_mut(&mut self) -> slice::IterMut<T> {
@@ -111,6 +111,12 @@ impl<T: State> List<T> {
     }
 }
 
+/// Keeps a removed item from logging to the state it was removed from.
+fn detach<T: State>(mut item: T) -> T {
+    item.set_runtime(Runtime::default());
+    item
+}
+
 impl<T: State> ops::Index<usize> for List<T> {
     type Output = T;
 
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index e71bbf4..aa7ea16 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -63,7 +63,7 @@ impl<K: MapKey, V: State> Map<K, V> {
         wire_fmt::validate_field_number(field_number).unwrap();
         value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
-        self.entries.insert(field_number, value)
+        self.entries.insert(field_number, value).map(detach)
     }
 
     pub fn insert_with(&mut self, key: K, get_value: impl FnOnce(Runtime) -> V) -> Option<V> {
@@ -80,7 +80,7 @@ impl<K: MapKey, V: State> Map<K, V> {
         }
 
         self.runtime.log_map_remove(field_number).unwrap();
-        self.entries.remove(&field_number)
+        self.entries.remove(&field_number).map(detach)
     }
 
     pub fn iter(&self) -> MapIter<K, V> {
@@ -96,6 +96,12 @@ impl<K: MapKey, V: State> Map<K, V> {
     }
 }
 
+/// Keeps a removed value from logging to the state it was removed from.
+fn detach<V: State>(mut value: V) -> V {
+    value.set_runtime(Runtime::default());
+    value
+}
+
 impl<K: MapKey, V: State> ops::Index<&K> for Map<K, V> {
     type Output = V;
 
-- 
2.43.0


From 692995bed7a956bbb5dc3ab21b9b341c2cbf9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 17/20] fix: decode signed varints of large magnitude

---
 steit/src/impls/varint.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index e81a8ca..d192a49 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -94,8 +94,9 @@ macro_rules! impl_signed_varint {
                 (value << 1) ^ (value >> ((std::mem::size_of::<$type>() << 3) - 1))
             }
 
-            fn decode(value: $type) -> $type {
-                (value >> 1) ^ -(value & 1)
+            // The shift must be a logical one.
+            fn decode(value: $unsigned_type) -> $type {
+                (value >> 1) as $type ^ -((value & 1) as $type)
             }
 
             fn compute_size(value: &$type) -> u32 {
@@ -118,7 +119,7 @@ macro_rules! impl_signed_varint {
                     &mut self,
                     reader: &mut $crate::de::Reader<impl ::std::io::Read>,
                 ) -> ::std::io::Result<()> {
-                    let encoded = <$unsigned_type>::deserialize(reader)? as $type;
+                    let encoded = <$unsigned_type>::deserialize(reader)?;
                     *self = decode(encoded);
                     Ok(())
                 }
-- 
2.43.0


From d46abe387cac76f3531396d14173be8e6273d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 18/20] fix: keep the value type of a Map that is behind a type
 alias

---
 steit/src/gen/generators/csharp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 214652d..14ce4e0 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -644,7 +644,8 @@ fn field_type(ty: &'static FieldTypeMeta) -> String {
                 }
 
                 // A hack to shadow the first type argument of `Map`
-                if &type_name == "StateMap" {
+                // (which is already absent if we come here from the type itself, e.g., via an alias)
+                if &type_name == "StateMap" && type_args.len() > 1 {
                     type_args.remove(0);
                 }
 
-- 
2.43.0


From a9f3644fb2bcc008c8689d9255b2604218d35b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 19/20] fix: generate the types that are only reached through a
 Box

---
 steit/src/impls/box.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 2b94253..433371e 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -70,11 +70,8 @@ impl<T: HasMeta> HasMeta for Box<T> {
 
     const TYPE: &'static TypeMeta = T::TYPE;
 
-    const LINK: &'static MetaLink = &MetaLink {
-        r#type: Self::TYPE,
-        msg: None,
-        links: || &[T::LINK],
-    };
+    // `Self::TYPE` is `T::TYPE`, so a separate link would make `T` look already visited.
+    const LINK: &'static MetaLink = T::LINK;
 }
 
 #[cfg(test)]
-- 
2.43.0


From c6a7e2ccee2b57d434362223cbd3b47a07879a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 20/20] fix: Reader::as_mut_read must not lose the byte that
 eof() peeked at

It handed out the innermost reader, from which eof() may have taken a
byte already, so whoever looked for the end of input first missed the
first byte of the next value.
---
 steit/src/de/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index a6a3c80..886c98c 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -18,8 +18,9 @@ impl<R: io::Read> Reader<R> {
     }
 
     pub fn as_mut_read(&mut self) -> Reader<&mut dyn io::Read> {
+        // Not the inner reader: `eof` may have taken a byte from it already.
         Reader {
-            inner: Eof::new(self.inner.get_mut()),
+            inner: Eof::new(self),
         }
     }
 
-- 
2.43.0

