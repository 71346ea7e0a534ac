From d81fdb4c1356f98db281b651aa8004eecdfe8f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:37 +0000
Subject: [PATCH 01/47] fix: unescape the first escape sequence of a tag value

Its backslash was kept and its escape code was copied verbatim.
---
 src/string/tf/escape.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index b13f02a..ccdb4ef 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -61,11 +61,8 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
     };
     let (mut new_bytes, rest) = unsafe {
         let (no_escape, rest) = tag_value.as_bytes_unsafe().split_at(first_idx);
-        // rest contains at least one byte because first_idx is a valid index.
-        let (first, rest) = rest.split_first().unwrap_unchecked();
         let mut new_bytes = Vec::with_capacity(tag_value.len() - 1);
         new_bytes.extend_from_slice(no_escape);
-        new_bytes.push(unescape_byte(first));
         (new_bytes, rest)
     };
     let mut esc = false;
-- 
2.43.0


From 91d3e98eb340d16d90768a14e368e8901d1c78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:37 +0000
Subject: [PATCH 02/47] fix: do not loop forever on a tag key that starts with
 a colon

---
 src/ircmsg/tags.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/tags.rs b/src/ircmsg/tags.rs
index 8b15297..ee6c79b 100644
--- a/src/ircmsg/tags.rs
+++ b/src/ircmsg/tags.rs
@@ -87,7 +87,9 @@ impl<'a> Tags<'a> {
         // TODO: Tag bytes available.
         while !splitter.is_empty() {
             let Ok(key) = splitter.string::<Key>(false) else {
-                splitter.consume_invalid::<Key>();
+                // Not a valid key. Drop the whole tag.
+                splitter.save_end().until_byte_eq(b';').rest_or_default::<NoNul>();
+                splitter.next_byte();
                 continue;
             };
             let value = if matches!(splitter.next_byte(), Some(b'=')) {
-- 
2.43.0


From e1af077d6d1e84fcb6f14e4ab09546f3e0a780ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:37 +0000
Subject: [PATCH 03/47] fix: do not strip tabs and form feeds from parsed
 arguments

Only spaces separate arguments, so an argument starting with any other
whitespace was changed by a write and a parse.
---
 src/ircmsg/args.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index a5792d6..3a28a1c 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -141,7 +141,8 @@ impl<'a> Args<'a> {
         let mut words = Vec::with_capacity(2);
         let mut long = None;
         loop {
-            line.consume_whitespace();
+            // Of the bytes that an `Arg` cannot contain, a `Line` has only spaces.
+            line.consume_invalid::<Arg>();
             match line.string::<Arg>(false) {
                 Ok(arg) => words.push(arg),
                 Err(InvalidString::Colon) => {
-- 
2.43.0


From 670db1601e353f8bd09a647123243d386e352fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:37 +0000
Subject: [PATCH 04/47] fix: reject sources whose nickname contains a comma

Everything after the comma was silently dropped.
---
 src/ircmsg/source.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/source.rs b/src/ircmsg/source.rs
index d555986..e4da8c2 100644
--- a/src/ircmsg/source.rs
+++ b/src/ircmsg/source.rs
@@ -110,7 +110,8 @@ impl<'a> Source<'a> {
                     Ok(Source { nick, userhost: Some(address) })
                 }
             }
-            _ => Ok(Source { nick, userhost: None }),
+            Some(b) => Err(ParseError::InvalidNick(crate::error::InvalidString::Byte(b))),
+            None => Ok(Source { nick, userhost: None }),
         }
     }
     /// Converts `self` into a version that owns its data.
-- 
2.43.0


From 19f8ac6f17d1dc2e1135e5510e4399218e655c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 05/47] fix: reject the empty word in Cmd::from_word

---
 src/string/subtypes/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string/subtypes/impls.rs b/src/string/subtypes/impls.rs
index 93f31b1..4cfa293 100644
--- a/src/string/subtypes/impls.rs
+++ b/src/string/subtypes/impls.rs
@@ -75,6 +75,9 @@ impl<'a> Cmd<'a> {
     /// Tries to convert `word` into an instance of this type, uppercasing where necessary.
     pub fn from_word(word: impl Into<Word<'a>>) -> Result<Self, InvalidString> {
         let mut word = word.into();
+        if word.is_empty() {
+            return Err(InvalidString::Empty);
+        }
         if let Some(inval) = word.iter().find(|b| !b.is_ascii_alphabetic()) {
             return Err(InvalidString::Byte(*inval));
         };
-- 
2.43.0


From d6056a69f99b273f85481f670392e9dd9f389c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 06/47] fix: forget a narrower range's encoding when a Splitter
 is widened

A UTF-8 check made while a SavedIndices guard was narrowing the range kept
its verdict after the guard restored the range, so that strings split off
later could claim to be UTF-8 without being it.
---
 src/string/splitter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/string/splitter.rs b/src/string/splitter.rs
index ee73db0..0a4d241 100644
--- a/src/string/splitter.rs
+++ b/src/string/splitter.rs
@@ -77,6 +77,9 @@ impl Range {
         }
         if start && end {
             self.encoding = saved.encoding;
+        } else if start || end {
+            // What was learned about the narrower range need not hold for the restored one.
+            self.encoding = std::cmp::min(self.encoding, saved.encoding);
         }
     }
     pub fn constrain<'a, T>(&self, slice: &'a [T]) -> &'a [T] {
@@ -117,6 +120,10 @@ impl<T: AsRef<[u8]>> Splitter<T> {
     fn check_encoding_inner(&mut self, accept: Encoding) -> Result<(), std::str::Utf8Error> {
         if self.range.encoding < accept {
             let slice = self.range.constrain(self.as_ref());
+            if slice.is_empty() {
+                // Says nothing about the indices, which a `SavedIndices` may restore around.
+                return Ok(());
+            }
             let idx = slice.iter().position(|c| !c.is_ascii());
             self.range.encoding = if let Some(idx) = idx {
                 let slice = &slice[idx..];
-- 
2.43.0


From 918e226fce95d37730c581d833a43799dde67f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 07/47] fix: do not write past the end of a buffer in
 init_capacity

---
 src/util/ownedslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ownedslice.rs b/src/util/ownedslice.rs
index 8139cc8..4174c83 100644
--- a/src/util/ownedslice.rs
+++ b/src/util/ownedslice.rs
@@ -87,7 +87,7 @@ impl<T: Default + Copy> OwnedSlice<T> {
     /// Sets all uninitialized values of buffer to the default value.
     pub fn init_capacity(&mut self, len: usize) {
         let mut cur = unsafe { self.0.as_ptr().add(len) };
-        let end = unsafe { cur.add(self.1) };
+        let end = unsafe { self.0.as_ptr().add(self.1) };
         let default = T::default();
         while cur < end {
             unsafe {
-- 
2.43.0


From 8992d6d2d516d8961e310a3d4e8f468da2bae75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 08/47] fix: read no more than the expected number of bytes
 into a SecretBuf

---
 src/string/secretbuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index d7e43a6..fee324d 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -82,7 +82,7 @@ impl SecretBuf {
         self.reserve(expect);
         // Safety: This data gets initialized on creation of the SecretBuf,
         // or above.
-        let mut write_to = unsafe { self.data.as_write_slice(self.len) };
+        let mut write_to = unsafe { &mut self.data.as_write_slice(self.len)[..expect] };
         let mut bytes_read = 0usize;
         while bytes_read < expect {
             let last_read = read.read(write_to)?;
-- 
2.43.0


From 67448786afdd0fa765aba41ef715db158d3d6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 09/47] fix: synchronise with other threads' uses before
 destroying a ThinArc's value

---
 src/util/thinarc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/thinarc.rs b/src/util/thinarc.rs
index 8077a09..cf42862 100644
--- a/src/util/thinarc.rs
+++ b/src/util/thinarc.rs
@@ -32,7 +32,7 @@ impl<T> ThinArc<T> {
     }
     pub fn try_unwrap(mut self) -> Result<T, Self> {
         unsafe {
-            if self.ret_rc().load(Ordering::Relaxed) == 1 {
+            if self.ret_rc().load(Ordering::Acquire) == 1 {
                 let retval = Ok(self.offsets().1.cast::<T>().read());
                 self.dealloc();
                 std::mem::forget(self);
@@ -109,6 +109,8 @@ impl<T: DynSized + ?Sized> Drop for ThinArc<T> {
     fn drop(&mut self) {
         unsafe {
             if self.ret_rc().fetch_sub(1, Ordering::Release) == 1 {
+                // The value must not be used by other threads past this point.
+                std::sync::atomic::fence(Ordering::Acquire);
                 let (ptr_meta, ptr_value) = self.offsets();
                 T::drop_in_place(
                     NonNull::new_unchecked(ptr_value),
-- 
2.43.0


From 1e2ecd05b253e774c0f75c7c37476b1bc7506f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 10/47] fix: zero the buffers of secret strings when they are
 released

The documentation promises this, but it was only done for a part of a buffer
that into_vec could not re-use. Marking the buffer also means that making an
owning string secret leaves no copy of it behind.
---
 src/string/bytes.rs | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 1612ba1..39d7389 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -2,7 +2,7 @@ use super::{Transform, Utf8Policy};
 use std::{
     borrow::Cow,
     ops::Deref,
-    sync::atomic::{AtomicI8, Ordering::Relaxed},
+    sync::atomic::{AtomicBool, AtomicI8, Ordering::Relaxed},
 };
 
 /// Placeholder string for when some value cannot be displayed,
@@ -66,7 +66,7 @@ impl<'a> Bytes<'a> {
     }
     /// Cheaply conversts a secret value into a `Bytes`.
     pub fn from_secret(value: Vec<u8>) -> Self {
-        let (ownership, value) = unsafe { OwnedBytes::from_vec(value) };
+        let (ownership, value) = unsafe { OwnedBytes::from_vec(value, true) };
         Bytes { value, ownership, utf8: AtomicI8::new(0), secret: true }
     }
     /// Returns `true` if `self` is not borrowing its data.
@@ -97,16 +97,15 @@ impl<'a> Bytes<'a> {
     /// Owning versions of these strings' buffers are zeroed out
     /// when the last reference to them is lost.
     pub fn secret(mut self) -> Self {
-        if !self.secret && self.is_owning() {
-            self.owning_force(true);
-        } else {
-            self.secret = true;
+        self.secret = true;
+        if let Some(owner) = &self.ownership {
+            owner.set_secret();
         }
         self
     }
     fn owning_force(&mut self, secret: bool) {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec());
+            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec(), secret);
             *self = Bytes { value, ownership, utf8: self.utf8.load(Relaxed).into(), secret }
         }
     }
@@ -172,7 +171,7 @@ impl<'a> Bytes<'a> {
         use base64::engine::{general_purpose::STANDARD as ENGINE, Engine};
         let encoded = ENGINE.encode(self.value);
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes(), self.secret);
             Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
         }
     }
@@ -265,7 +264,7 @@ impl<'a> Bytes<'a> {
             Cow::Owned(o) => {
                 let utf8 = self.utf8_for_policy(tfed.utf8);
                 unsafe {
-                    let (ownership, value) = OwnedBytes::from_vec(o);
+                    let (ownership, value) = OwnedBytes::from_vec(o, self.secret);
                     *self = Bytes { value, ownership, utf8: utf8.into(), secret: self.secret };
                 }
             }
@@ -309,7 +308,7 @@ impl std::borrow::Borrow<[u8]> for Bytes<'_> {
 impl<'a> From<Vec<u8>> for Bytes<'a> {
     fn from(value: Vec<u8>) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value);
+            let (ownership, value) = OwnedBytes::from_vec(value, false);
             Bytes { value, ownership, utf8: 0i8.into(), secret: false }
         }
     }
@@ -318,7 +317,7 @@ impl<'a> From<Vec<u8>> for Bytes<'a> {
 impl<'a> From<String> for Bytes<'a> {
     fn from(value: String) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes(), false);
             Bytes { value, ownership, utf8: 1i8.into(), secret: false }
         }
     }
@@ -477,7 +476,24 @@ impl std::fmt::Debug for Bytes<'_> {
 /// There is also only a strong reference count, which is kept seperate.
 #[repr(transparent)]
 #[derive(Clone)]
-struct OwnedBytes(crate::util::ThinArc<crate::util::OwnedSlice<u8>>);
+struct OwnedBytes(crate::util::ThinArc<OwnedBuf>);
+
+/// The buffer of an [`OwnedBytes`], zeroed on release if a secret string ever used it.
+struct OwnedBuf {
+    /// `None` only once the buffer has been taken.
+    slice: Option<crate::util::OwnedSlice<u8>>,
+    secret: AtomicBool,
+}
+
+impl Drop for OwnedBuf {
+    fn drop(&mut self) {
+        if *self.secret.get_mut() {
+            if let Some(slice) = &mut self.slice {
+                slice.reinit_all();
+            }
+        }
+    }
+}
 
 impl OwnedBytes {
     /// Converts a Vec into Self (which owns the data)
@@ -489,20 +505,25 @@ impl OwnedBytes {
     /// This returns a reference with an unbound lifetime.
     /// Make sure this lifetime doesn't leak anywhere that might outlive
     /// the `Self`.
-    pub unsafe fn from_vec<'a>(value: Vec<u8>) -> (Option<Self>, &'a [u8]) {
+    pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
         if value.is_empty() {
             return (None, &[]);
         }
         let (os, len) = crate::util::OwnedSlice::from_vec(value);
         let slice = unsafe { os.as_slice(len) };
-        (Some(OwnedBytes(crate::util::ThinArc::new(os))), slice)
+        let buf = OwnedBuf { slice: Some(os), secret: AtomicBool::new(secret) };
+        (Some(OwnedBytes(crate::util::ThinArc::new(buf))), slice)
+    }
+    /// Has the buffer zeroed when the last reference to it is lost.
+    pub fn set_secret(&self) {
+        self.0.secret.store(true, Relaxed);
     }
     /// Attempts to re-use the buffer for constructing a `Vec` from `slice`.
     ///
     /// # Safety
     /// `slice` is assumed to be a slice of the data owned by self.
     pub unsafe fn into_vec(self, slice: &[u8], secret: bool) -> Vec<u8> {
-        if let Ok(os) = self.0.try_unwrap() {
+        if let Some(os) = self.0.try_unwrap().ok().and_then(|mut buf| buf.slice.take()) {
             let (retval, destroy) = os.into_vec_with_slice(slice);
             if secret {
                 if let Some(mut destroy) = destroy {
-- 
2.43.0


From 47703cb76f0837c2e841f76b2a8e40103feab316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 11/47] fix: keep secret strings secret when they are copied,
 decoded or escaped

---
 src/string/bytes.rs     |  3 ++-
 src/string/tf/escape.rs | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 39d7389..4202978 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -46,7 +46,7 @@ unsafe impl<'a> crate::owning::MakeOwning for crate::string::Bytes<'a> {
 
     fn make_owning(&mut self) {
         if !self.is_owning() {
-            self.owning_force(false);
+            self.owning_force(self.secret);
         }
     }
 }
@@ -163,6 +163,7 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
+            Cow::Owned(o) if self.secret => Bytes::from(o).secret(),
             Cow::Owned(o) => o.into(),
         }
     }
diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index ccdb4ef..9ab2754 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -50,7 +50,11 @@ pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { Word::from_unchecked(new_bytes.into()) }
+    let mut retval = unsafe { Word::from_unchecked(new_bytes.into()) };
+    if tag_value.is_secret() {
+        retval = retval.secret();
+    }
+    retval
 }
 
 /// Returns an unescaped form of the provided tag value.
@@ -76,5 +80,9 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { NoNul::from_unchecked(new_bytes.into()) }
+    let mut retval = unsafe { NoNul::from_unchecked(new_bytes.into()) };
+    if tag_value.is_secret() {
+        retval = retval.secret();
+    }
+    retval
 }
-- 
2.43.0


From 8aa46a9272083c84bf16d97d2a70ccafc961ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:38 +0000
Subject: [PATCH 12/47] fix: make FlatMap's edit guard see and keep its
 unsorted elements

Once an element was out of order, lookups missed elements, removals took out
the wrong one or panicked, counts were of the sorted part only, clearing
leaked, and the reference to a pushed element pointed past it.
---
 src/util/flatmap.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index da32864..8c11f34 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -138,7 +138,6 @@ fn get_impl<E, X: KeyExtractor<E>>(
     let (sorted, unsorted) = pairs.split_at(sorted_until);
     match sorted.binary_search_by(|v| X::extract_key(v).borrow().cmp(key)) {
         Ok(key) => Some(key),
-        Err(v) if v < sorted_until => None,
         Err(_) => unsorted
             .iter()
             .position(|v| X::extract_key(v).borrow() == key)
@@ -184,13 +183,22 @@ impl<E, X: KeyExtractor<E>> FlatMap<E, X> {
 }
 
 impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
-    collection_methods!(src);
-
+    pub fn len(&self) -> usize {
+        self.real_len
+    }
+    pub fn is_empty(&self) -> bool {
+        self.real_len == 0
+    }
     /// Return a slice of all the elements in the `Vec`, sorted and otherwise.
     pub fn as_slice(&self) -> &[E] {
         let ptr = self.src.as_ptr();
         unsafe { std::slice::from_raw_parts(ptr, self.real_len) }
     }
+    /// As `as_slice`, but mutable.
+    fn as_slice_mut(&mut self) -> &mut [E] {
+        let ptr = self.src.as_mut_ptr();
+        unsafe { std::slice::from_raw_parts_mut(ptr, self.real_len) }
+    }
     /// Return the index of a given element in the full `Vec`.
     fn get_idx(&self, key: &X::KeyBorrowed) -> Option<usize> {
         let sorted_until = self.src.len();
@@ -198,11 +206,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
     }
     pub fn get<'a>(&'a self, key: &X::KeyBorrowed) -> Option<&'a E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked(idx) })
+        Some(unsafe { self.as_slice().get_unchecked(idx) })
     }
     pub fn get_mut<'a>(&'a mut self, key: &X::KeyBorrowed) -> Option<&'a mut E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked_mut(idx) })
+        Some(unsafe { self.as_slice_mut().get_unchecked_mut(idx) })
     }
     fn push(&mut self, elem: E) -> &mut E {
         let key = X::extract_key(&elem);
@@ -228,7 +236,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         unsafe { self.src.set_len(sorted_until) };
         let mut ptr = self.src.as_mut_ptr();
         unsafe {
-            ptr = ptr.add(self.real_len);
+            ptr = ptr.add(self.real_len - 1);
             ptr.as_mut().unwrap_unchecked()
         }
     }
@@ -236,7 +244,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            let old_elem = unsafe { &mut self.src.get_unchecked_mut(idx) };
+            let old_elem = unsafe { &mut self.as_slice_mut().get_unchecked_mut(idx) };
             Some(std::mem::replace(old_elem, elem))
         } else {
             self.push(elem);
@@ -258,7 +266,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            (unsafe { self.src.get_unchecked_mut(idx) }, Some(elem))
+            (unsafe { self.as_slice_mut().get_unchecked_mut(idx) }, Some(elem))
         } else {
             (self.push(elem), None)
         }
@@ -268,15 +276,18 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         // That said, removal should be infrequent, so it's probably
         // not worth adding some sort of tombstoning to the edit guard.
         let idx = self.get_idx(key)?;
+        let sorted_until = std::cmp::min(self.src.len(), idx);
+        unsafe { self.src.set_len(self.real_len) };
         let retval = self.src.swap_remove(idx);
         self.real_len -= 1;
-        unsafe { self.src.set_len(idx) };
+        unsafe { self.src.set_len(sorted_until) };
         Some(retval)
     }
     /// Removes all key-value pairs.
     pub fn clear(&mut self) {
-        self.src.clear();
+        unsafe { self.src.set_len(self.real_len) };
         self.real_len = 0;
+        self.src.clear();
     }
 }
 
-- 
2.43.0


From a16234cab650538aca3a746216c8646b1b17b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:50 +0000
Subject: [PATCH 13/47] fix: report the end of a stream inside of a line as an
 unexpected EOF

Reading from a stream that ended inside of a line reported the partial line as
being too long or invalid, not as the unexpected EOF that the documentation
promises.
---
 src/ircmsg/codec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 2d93c2f..c30aa72 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -18,6 +18,10 @@ macro_rules! read_msg {
                 if $read_expr? == 0 {
                     return Err(Error::from(ErrorKind::UnexpectedEof));
                 }
+                // The stream ended inside of a line. Leave the partial line in the buffer.
+                if $buf.len() < $limit && $buf.last() != Some(&b'\n') {
+                    return Err(Error::from(ErrorKind::UnexpectedEof));
+                }
             }
             read_buf!(|$buf| $parse_expr)
         }
-- 
2.43.0


From f0edef6c98620e6038c82716c3d9f15303a5c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:35 +0000
Subject: [PATCH 14/47] fix: decode lines with their newline in the stream
 codec

The stream decoder handed lines over to the parser with their newline attached,
which made every message be rejected, and treated the first bytes of an overlong
line as a whole line.
---
 src/ircmsg/codec.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index c30aa72..d89011f 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -426,6 +426,7 @@ impl ServerCodec {
 pub(super) mod tokio_codec {
     use super::{ClientCodec, ServerCodec};
     use crate::{
+        error::ParseError,
         ircmsg::{ClientMsg, ServerMsg},
         string::Line,
     };
@@ -476,6 +477,19 @@ pub(super) mod tokio_codec {
         None
     }
 
+    /// Strips the newline off of the end of a line found by [`scroll_buf`].
+    fn strip_newline(line: &[u8]) -> Result<Line<'_>, ParseError> {
+        let Some(mut line) = line.strip_suffix(b"\n") else {
+            // Either a NUL byte was found or the limit was reached.
+            Line::from_bytes(line).map_err(ParseError::InvalidLine)?;
+            return Err(ParseError::TooLong);
+        };
+        while let Some(stripped) = line.strip_suffix(b"\r") {
+            line = stripped;
+        }
+        Line::from_bytes(line).map_err(ParseError::InvalidLine)
+    }
+
     impl Decoder for ClientCodec {
         type Item = ServerMsg<'static>;
         type Error = std::io::Error;
@@ -486,7 +500,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = strip_newline(&line_raw)?;
             Ok(Some(ServerMsg::parse(line.owning())?))
         }
     }
@@ -500,7 +514,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = strip_newline(&line_raw)?;
             Ok(Some(ClientMsg::parse(line.owning())?))
         }
     }
-- 
2.43.0


From 995ef1de8eb5ca8b6f394772c6a2d83f581c15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 15/47] fix: count the long argument in
 ArgsEditGuard::args_left

---
 src/ircmsg/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index 3a28a1c..387b5fa 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -61,7 +61,7 @@ impl<'a> ArgsEditGuard<'a, '_> {
     /// IRC messages should contain no more than 15 arguments,
     /// but IRC software should also support any number of arguments.
     pub fn args_left(&self) -> isize {
-        15 - self.0.len() as isize
+        15 - self.0.len() as isize - self.1.is_some() as isize
     }
     /// Returns a mutable slice of all the arguments as a slice of [`Arg`]s,
     /// or None if the final argument is long.
-- 
2.43.0


From 89b7fddff74e39a39e355d11bd4ddf32455f9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:40 +0000
Subject: [PATCH 16/47] fix: wipe the buffer of a secret string that was
 emptied

---
 src/string/bytes.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 4202978..53a0806 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -508,6 +508,10 @@ impl OwnedBytes {
     /// the `Self`.
     pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
         if value.is_empty() {
+            if secret {
+                // The spare capacity may still hold what was cleared out of the buffer.
+                std::mem::drop(super::SecretBuf::from(value));
+            }
             return (None, &[]);
         }
         let (os, len) = crate::util::OwnedSlice::from_vec(value);
-- 
2.43.0


From 5de5deacd66ca6d7359f42628207707d2778e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:10 +0000
Subject: [PATCH 17/47] fix: decode secret strings lossily without leaving
 copies behind

---
 src/string/bytes.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 53a0806..7160660 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -156,6 +156,9 @@ impl<'a> Bytes<'a> {
     /// replacing any non-UTF-8 byte sequences with the the
     /// [U+FFFD replacement character](std::char::REPLACEMENT_CHARACTER).
     pub fn into_utf8_lossy(self) -> Self {
+        if self.secret && self.to_utf8().is_none() {
+            return self.secret_utf8_lossy();
+        }
         match unsafe { self.utf8_cow() } {
             Cow::Borrowed(s) => Bytes {
                 value: s.as_bytes(),
@@ -163,10 +166,24 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
-            Cow::Owned(o) if self.secret => Bytes::from(o).secret(),
             Cow::Owned(o) => o.into(),
         }
     }
+    /// Lossily decodes `self` without leaving parts of its value behind in released memory.
+    fn secret_utf8_lossy<'b>(&self) -> Bytes<'b> {
+        let mut buf = super::SecretBuf::with_capacity(self.value.len());
+        let mut rest = self.value;
+        while let Err(e) = std::str::from_utf8(rest) {
+            let (valid, invalid) = rest.split_at(e.valid_up_to());
+            buf.push_slice(valid);
+            buf.push_slice("\u{FFFD}".as_bytes());
+            rest = &invalid[e.error_len().unwrap_or(invalid.len())..];
+        }
+        buf.push_slice(rest);
+        let mut retval = buf.into_bytes();
+        *retval.utf8.get_mut() = 1i8;
+        retval
+    }
     #[cfg(feature = "base64")]
     fn to_base64_impl(&self) -> Bytes<'static> {
         use base64::engine::{general_purpose::STANDARD as ENGINE, Engine};
-- 
2.43.0


From 229c8ed1547a3edf5b87d9286a6dedd81004b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:45 +0000
Subject: [PATCH 18/47] fix: wipe a shared buffer that any of its users marked
 secret

---
 src/string/bytes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 7160660..e309005 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -545,7 +545,10 @@ impl OwnedBytes {
     /// # Safety
     /// `slice` is assumed to be a slice of the data owned by self.
     pub unsafe fn into_vec(self, slice: &[u8], secret: bool) -> Vec<u8> {
-        if let Some(os) = self.0.try_unwrap().ok().and_then(|mut buf| buf.slice.take()) {
+        let Ok(mut buf) = self.0.try_unwrap() else { return slice.to_vec() };
+        // Another user of this buffer may have been secret.
+        let secret = secret || *buf.secret.get_mut();
+        if let Some(os) = buf.slice.take() {
             let (retval, destroy) = os.into_vec_with_slice(slice);
             if secret {
                 if let Some(mut destroy) = destroy {
-- 
2.43.0


From e775f86e7829f7a2c96b02efad9bae3d5ea155b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:48 +0000
Subject: [PATCH 19/47] fix: free a oneshot channel exactly once, after both of
 its sides are done

---
 src/client/handler/channel/oneshot.rs | 44 +++++++++++++--------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/client/handler/channel/oneshot.rs b/src/client/handler/channel/oneshot.rs
index 806b6de..9a1fec2 100644
--- a/src/client/handler/channel/oneshot.rs
+++ b/src/client/handler/channel/oneshot.rs
@@ -27,13 +27,25 @@ use std::{
 // The senders have no access to the sent value.
 
 struct Inner<T> {
-    sender_count: AtomicUsize,
+    // The number of senders, plus one for as long as there is a receiver.
+    // Whoever brings this down to zero frees the allocation.
+    ref_count: AtomicUsize,
     recver: AtomicBool,
     lock: Once,
     // Manually implement OnceLock so that we can deinit the value but keep the lock.
     value: UnsafeCell<MaybeUninit<T>>,
 }
 
+impl<T> Inner<T> {
+    /// Gives up one sender's or the receiver's share of the allocation.
+    unsafe fn release(this: std::ptr::NonNull<Self>) {
+        if this.as_ref().ref_count.fetch_sub(1, Ordering::Release) == 1 {
+            std::sync::atomic::fence(Ordering::Acquire);
+            std::mem::drop(Box::from_raw(this.as_ptr()));
+        }
+    }
+}
+
 /// The receiver portion of a oneshot channel.
 #[derive(Debug)]
 pub struct Receiver<T>(std::ptr::NonNull<Inner<T>>);
@@ -51,7 +63,7 @@ unsafe impl<T> Sync for Sender<T> {}
 
 impl<T> Clone for Sender<T> {
     fn clone(&self) -> Self {
-        unsafe { self.0.as_ref().sender_count.fetch_add(1, Ordering::Relaxed) };
+        unsafe { self.0.as_ref().ref_count.fetch_add(1, Ordering::Relaxed) };
         Self(self.0)
     }
 }
@@ -70,32 +82,22 @@ impl<T> Drop for Receiver<T> {
         if has_value {
             unsafe { inner_ref.value.get().as_mut().unwrap_unchecked().assume_init_drop() };
         }
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
-            #[allow(dropping_references)]
-            std::mem::drop(inner_ref);
-            std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-        }
+        #[allow(dropping_references)]
+        std::mem::drop(inner_ref);
+        unsafe { Inner::release(self.0) };
     }
 }
 
 impl<T> Drop for Sender<T> {
     fn drop(&mut self) {
-        let inner_ref = unsafe { self.0.as_ref() };
-        if inner_ref.sender_count.fetch_sub(1, Ordering::Release) == 1 {
-            #[allow(clippy::collapsible_if)]
-            if !inner_ref.recver.load(Ordering::Acquire) {
-                #[allow(dropping_references)]
-                std::mem::drop(inner_ref);
-                std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-            }
-        }
+        unsafe { Inner::release(self.0) };
     }
 }
 
 /// Creates a new oneshot channel for sending single values.
 pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
     let inner = Box::new(Inner {
-        sender_count: AtomicUsize::new(1),
+        ref_count: AtomicUsize::new(2),
         recver: AtomicBool::new(true),
         lock: Once::new(),
         value: UnsafeCell::new(MaybeUninit::uninit()),
@@ -135,11 +137,9 @@ impl<T> Receiver<T> {
         let retval = has_value.then(|| unsafe {
             inner_ref.value.get().as_ref().unwrap_unchecked().assume_init_read()
         });
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
-            #[allow(dropping_references)]
-            std::mem::drop(inner_ref);
-            std::mem::drop(unsafe { Box::from_raw(ptr.as_ptr()) });
-        }
+        #[allow(dropping_references)]
+        std::mem::drop(inner_ref);
+        unsafe { Inner::release(ptr) };
         retval
     }
     /// Receives a value over this channel. Parks using the provided `parker` if
-- 
2.43.0


From 892b404b3b4b82d8ddba86eeac086c91318b83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:35 +0000
Subject: [PATCH 20/47] fix: keep a parked thread's handle alive and wait out
 spurious wake-ups

---
 src/client/handler/channel/parker.rs | 58 ++++++++++++++++++----------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index f4f6053..a650bab 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -21,6 +21,14 @@ pub struct Unparker<S>(S, ManuallyDrop<Arc<AtomicPtr<Thread>>>);
 #[derive(Debug)]
 pub struct Parker(Weak<AtomicPtr<Thread>>);
 
+/// Takes ownership of the handle of a parked thread, if there is one at `ptr`.
+///
+/// # Safety
+/// `ptr` must have been taken out of the [`AtomicPtr`] shared by a [`Parker`] and its [`Unparker`]s.
+unsafe fn take_thread(ptr: *mut Thread) -> Option<Box<Thread>> {
+    (!ptr.is_null() && ptr != SKIP_PARKING.as_mut_ptr()).then(|| Box::from_raw(ptr))
+}
+
 /// Creates a new [`Unparker`] from the provided sender,
 /// also returning a [`Parker`] for that unparker.
 pub fn new<S>(sender: S) -> (Unparker<S>, Parker) {
@@ -34,11 +42,8 @@ impl<S> Drop for Unparker<S> {
         let Some(arc) = Arc::into_inner(unsafe { ManuallyDrop::take(&mut self.1) }) else {
             return;
         };
-        let ptr = arc.into_inner();
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
+        if let Some(th) = unsafe { take_thread(arc.into_inner()) } {
+            th.unpark();
         }
     }
 }
@@ -50,10 +55,8 @@ impl<S> Unparker<S> {
     /// This generally doesn't need to be called manually unless `S` is not a sender.
     pub fn unpark(&self) {
         let ptr = self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel);
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
+        if let Some(th) = unsafe { take_thread(ptr) } {
+            th.unpark();
         }
     }
 }
@@ -81,26 +84,39 @@ impl Parker {
         let Some(strong) = self.0.upgrade() else {
             return;
         };
-        let mut th = std::thread::current();
+        // Owned by whoever takes it back out of the pointer,
+        // since we may wake up before an unparker is done with it.
+        let th = Box::into_raw(Box::new(std::thread::current()));
         if strong
-            .compare_exchange(
-                std::ptr::null_mut(),
-                &mut th as *mut Thread,
-                Ordering::AcqRel,
-                Ordering::Acquire,
-            )
+            .compare_exchange(std::ptr::null_mut(), th, Ordering::AcqRel, Ordering::Acquire)
             .is_ok()
         {
-            if Arc::into_inner(strong).is_none() {
+            let mut strong = strong;
+            // Threads may wake up without having been unparked by an unparker.
+            while strong.load(Ordering::Acquire) == th {
+                if let Some(ptr) = Arc::into_inner(strong) {
+                    // No unparkers left!
+                    std::mem::drop(unsafe { take_thread(ptr.into_inner()) });
+                    return;
+                }
                 std::thread::park();
-            } else {
-                // No unparkers left!
-                return;
+                let Some(again) = self.0.upgrade() else {
+                    return;
+                };
+                strong = again;
             }
+        } else {
+            std::mem::drop(unsafe { Box::from_raw(th) });
         }
         let Some(strong) = self.0.upgrade() else {
             return;
         };
-        strong.store(std::ptr::null_mut(), Ordering::Release);
+        // Only undo an unparking, not another thread's parking.
+        let _ = strong.compare_exchange(
+            unsafe { SKIP_PARKING.as_mut_ptr() },
+            std::ptr::null_mut(),
+            Ordering::AcqRel,
+            Ordering::Relaxed,
+        );
     }
 }
-- 
2.43.0


From 0a854e6036ba72775428e8041fa3bb5cf0e8287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:03 +0000
Subject: [PATCH 21/47] fix: do not borrow the parker's marker mutably on
 several threads

---
 src/client/handler/channel/parker.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index a650bab..4ad7017 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -13,6 +13,15 @@ use std::thread::Thread;
 /// Global location whose address we can use to indicate that a [`Parker`] should skip parking.
 static mut SKIP_PARKING: std::mem::MaybeUninit<Thread> = std::mem::MaybeUninit::uninit();
 
+/// Returns the address of [`SKIP_PARKING`], without creating a reference to it.
+fn skip_parking() -> *mut Thread {
+    // Safety: Nothing is read or written. This is unsafe until Rust 1.82.
+    #[allow(unused_unsafe)]
+    unsafe {
+        std::ptr::addr_of_mut!(SKIP_PARKING).cast()
+    }
+}
+
 /// A wrapped [`Sender`][super::Sender] that can unpark a thread blocked by a [`Parker`].
 #[derive(Clone, Debug, Default)]
 pub struct Unparker<S>(S, ManuallyDrop<Arc<AtomicPtr<Thread>>>);
@@ -26,7 +35,7 @@ pub struct Parker(Weak<AtomicPtr<Thread>>);
 /// # Safety
 /// `ptr` must have been taken out of the [`AtomicPtr`] shared by a [`Parker`] and its [`Unparker`]s.
 unsafe fn take_thread(ptr: *mut Thread) -> Option<Box<Thread>> {
-    (!ptr.is_null() && ptr != SKIP_PARKING.as_mut_ptr()).then(|| Box::from_raw(ptr))
+    (!ptr.is_null() && ptr != skip_parking()).then(|| Box::from_raw(ptr))
 }
 
 /// Creates a new [`Unparker`] from the provided sender,
@@ -54,7 +63,7 @@ impl<S> Unparker<S> {
     ///
     /// This generally doesn't need to be called manually unless `S` is not a sender.
     pub fn unpark(&self) {
-        let ptr = self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel);
+        let ptr = self.1.swap(skip_parking(), Ordering::AcqRel);
         if let Some(th) = unsafe { take_thread(ptr) } {
             th.unpark();
         }
@@ -113,7 +122,7 @@ impl Parker {
         };
         // Only undo an unparking, not another thread's parking.
         let _ = strong.compare_exchange(
-            unsafe { SKIP_PARKING.as_mut_ptr() },
+            skip_parking(),
             std::ptr::null_mut(),
             Ordering::AcqRel,
             Ordering::Relaxed,
-- 
2.43.0


From d559034854f8d54735a0cd564e0246806f23cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:56 +0000
Subject: [PATCH 22/47] fix: keep a shared buffer alive while it is copied
 (follow-up to wiping shared buffers)

---
 src/string/bytes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index e309005..b9d4c2b 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -545,7 +545,11 @@ impl OwnedBytes {
     /// # Safety
     /// `slice` is assumed to be a slice of the data owned by self.
     pub unsafe fn into_vec(self, slice: &[u8], secret: bool) -> Vec<u8> {
-        let Ok(mut buf) = self.0.try_unwrap() else { return slice.to_vec() };
+        let mut buf = match self.0.try_unwrap() {
+            Ok(buf) => buf,
+            // Keeps the buffer alive until it has been copied.
+            Err(_shared) => return slice.to_vec(),
+        };
         // Another user of this buffer may have been secret.
         let secret = secret || *buf.secret.get_mut();
         if let Some(os) = buf.slice.take() {
-- 
2.43.0


From e712e175652c13fde6728c74a336d45905521208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:24 +0000
Subject: [PATCH 23/47] fix: do not panic in Queue::pop when the delay is not
 representable

---
 src/client/queue.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/client/queue.rs b/src/client/queue.rs
index b189e1e..428ea0f 100644
--- a/src/client/queue.rs
+++ b/src/client/queue.rs
@@ -24,6 +24,16 @@ pub struct Queue {
     adjuster: Option<Box<dyn Adjuster>>,
 }
 
+/// Adds `dur` to `at`, settling for a time in the far future if the sum is not representable.
+fn saturating_add(at: Instant, mut dur: Duration) -> Instant {
+    loop {
+        match at.checked_add(dur) {
+            Some(sum) => return sum,
+            None => dur /= 2,
+        }
+    }
+}
+
 impl std::fmt::Debug for Queue {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let mut f = f.debug_struct("Queue");
@@ -93,7 +103,7 @@ impl Queue {
         // Pessimistically sets the next-message delay
         // to the longest possible under the new settings.
         let now = Instant::now();
-        self.timepoint = now.checked_add(self.sub.saturating_add(delay)).unwrap_or(now);
+        self.timepoint = saturating_add(now, self.sub.saturating_add(delay));
         self
     }
     /// Retrieves a message from the queue, subject to rate limits.
@@ -107,7 +117,8 @@ impl Queue {
             let mut delay = self.timepoint.saturating_duration_since(Instant::now());
             delay = delay.saturating_sub(self.sub);
             if delay.is_zero() {
-                self.timepoint = std::cmp::max(self.timepoint, Instant::now()) + self.delay;
+                let base = std::cmp::max(self.timepoint, Instant::now());
+                self.timepoint = saturating_add(base, self.delay);
                 Some(value)
             } else {
                 self.queue.push_front(value);
-- 
2.43.0


From 1a2a9724762d5fe3e832418a7bd103a37d7e9cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:58 +0000
Subject: [PATCH 24/47] fix: lift the read time limit of a connection when
 there is none to enforce

---
 src/client/conn/time.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 5bc6e37..f168721 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -150,6 +150,10 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
         }
         let (read, constrained) = timeout_fallback(write_after, read);
         let read = read.and_then(|dur| Instant::now().checked_add(dur));
+        if read.is_none() {
+            // Lift any time limit left over from an earlier read.
+            conn.set_read_timeout(None)?;
+        }
         Ok((TimeLimitedSync { conn, read }, constrained))
     }
     fn update_timeout(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From 95c5b59d0889887fbf381b243bf3fc9d7453f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:26 +0000
Subject: [PATCH 25/47] fix: forget the assumed source length when client state
 is reset

---
 src/client/logic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/logic.rs b/src/client/logic.rs
index dd64cc2..c0e65cb 100644
--- a/src/client/logic.rs
+++ b/src/client/logic.rs
@@ -222,6 +222,7 @@ impl ClientState {
     /// Clears all state.
     pub(super) fn clear(&mut self) {
         self.state.clear();
+        self.source_len = DEFAULT_SOURCE_LEN;
     }
     /// Returns the length that clients should assume for the length of their `source` fields.
     pub fn source_len(&self) -> NonZeroUsize {
-- 
2.43.0


From 2f01ccfe08e592690bf3aae0f1e06adc4e7e95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:46 +0000
Subject: [PATCH 26/47] fix: apply the write time limit before the first write,
 not after it

---
 src/client/conn/sync.rs |  1 +
 src/client/conn/time.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index 7cff4ac..5604c77 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -345,6 +345,7 @@ impl<C: Connection, S> crate::client::Client<C, S> {
         if self.logic.queue.is_empty() {
             return Ok(None);
         }
+        self.logic.timeout.update_write(&mut self.conn.conn)?;
         let mut timeout = None;
         while let Some(popped) = self.logic.queue.pop(|new_timeout| timeout = new_timeout) {
             #[cfg(feature = "tracing")]
diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index f168721..dce3a0b 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -115,6 +115,14 @@ pub(crate) struct TimeLimits {
 }
 
 impl TimeLimits {
+    /// Applies the write timeout to `conn` if it hasn't been already.
+    pub fn update_write(&mut self, conn: &mut impl WriteTimeout) -> std::io::Result<()> {
+        if self.update_write {
+            conn.set_write_timeout(self.write)?;
+            self.update_write = false;
+        }
+        Ok(())
+    }
     pub fn require_update(&mut self) {
         self.update_write = true;
     }
@@ -143,12 +151,8 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
         timeouts: &mut TimeLimits,
         write_after: Option<Duration>,
     ) -> std::io::Result<(Self, bool)> {
-        let TimeLimits { read, write, update_write, .. } = *timeouts;
-        if update_write {
-            conn.set_write_timeout(write)?;
-            timeouts.update_write = false;
-        }
-        let (read, constrained) = timeout_fallback(write_after, read);
+        timeouts.update_write(conn)?;
+        let (read, constrained) = timeout_fallback(write_after, timeouts.read);
         let read = read.and_then(|dur| Instant::now().checked_add(dur));
         if read.is_none() {
             // Lift any time limit left over from an earlier read.
-- 
2.43.0


From 43c71d4ae299ed0a9dadb06597476692c3418617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:57 +0000
Subject: [PATCH 27/47] fix: let the asynchronous write time limit run out

---
 src/client/conn/time.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index dce3a0b..2340a9b 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -216,21 +216,25 @@ impl<'a, C: super::Connection> std::io::BufRead for TimeLimitedSync<'a, C> {
 pub(super) struct TimeLimitedTokio<'a, C> {
     conn: &'a mut C,
     write: Option<Duration>,
+    /// Time limit for the write in progress, if any.
+    write_limit: Option<std::pin::Pin<Box<tokio::time::Sleep>>>,
 }
 
 #[cfg(feature = "tokio")]
 impl<'a, C: super::ConnectionTokio> TimeLimitedTokio<'a, C> {
     pub fn new(conn: &'a mut C, timeouts: &TimeLimits) -> Self {
-        TimeLimitedTokio { conn, write: timeouts.write }
+        TimeLimitedTokio { conn, write: timeouts.write, write_limit: None }
     }
     fn poll_write_timeout(
-        self: std::pin::Pin<&mut Self>,
+        mut self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<std::io::Error> {
         if let Some(timeout) = self.write {
             use std::future::Future;
-            let sleeper = std::pin::pin!(tokio::time::sleep(timeout));
-            if sleeper.poll(cx).is_ready() {
+            let sleeper =
+                self.write_limit.get_or_insert_with(|| Box::pin(tokio::time::sleep(timeout)));
+            if sleeper.as_mut().poll(cx).is_ready() {
+                self.write_limit = None;
                 return std::task::Poll::Ready(std::io::Error::new(
                     std::io::ErrorKind::TimedOut,
                     "async write time limit elapsed",
@@ -275,6 +279,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<usize, std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_write(cx, buf) {
+            self.write_limit = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
@@ -286,6 +291,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<(), std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_flush(cx) {
+            self.write_limit = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
-- 
2.43.0


From 5d42aac031f9dbc6a4dd086cfcf0edab76b1fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:14 +0000
Subject: [PATCH 28/47] fix: keep the whole text as the body when a CTCP
 message names no command

---
 src/ircmsg/ctcp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ircmsg/ctcp.rs b/src/ircmsg/ctcp.rs
index 3c09e7e..10acfaf 100644
--- a/src/ircmsg/ctcp.rs
+++ b/src/ircmsg/ctcp.rs
@@ -20,6 +20,9 @@ impl<'a> MaybeCtcp<'a, Line<'a>> {
         if splitter.next_byte() == Some(1) {
             splitter.until_byte_eq(1);
             let mut cmd = splitter.string_or_default::<Word<'_>>(false);
+            if cmd.is_empty() {
+                return MaybeCtcp { cmd, body: value };
+            }
             cmd.transform(AsciiCasemap::<true>);
             splitter.next_byte();
             let body = splitter.rest_or_default();
-- 
2.43.0


From 056b4a5db432fddb736ae2208dab4d6ae37e3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:06 +0000
Subject: [PATCH 29/47] fix: use hexadecimal digits for hexadecimal nickname
 suffixes

---
 src/client/nick/suffix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 6ed8285..4600178 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -37,15 +37,15 @@ impl SuffixType {
             SuffixType::Base8 => nick.try_push(b'0' + (num & 7)),
             SuffixType::Base10 => nick.try_push(b'0' + num % 10),
             SuffixType::Base16(uc) => nick.try_push(match num & 15 {
-                num if *uc && num > 9 => b'A' + num,
-                num if !uc && num > 9 => b'a' + num,
+                num if *uc && num > 9 => b'A' + (num - 10),
+                num if !uc && num > 9 => b'a' + (num - 10),
                 num => b'0' + num,
             }),
             SuffixType::NonZeroBase8 => nick.try_push(b'1' + (num % 7)),
             SuffixType::NonZeroBase10 => nick.try_push(b'1' + num % 9),
             SuffixType::NonZeroBase16(uc) => nick.try_push(match num % 15 {
-                num if *uc && num > 8 => b'A' + num,
-                num if !uc && num > 8 => b'a' + num,
+                num if *uc && num > 8 => b'A' + (num - 9),
+                num if !uc && num > 8 => b'a' + (num - 9),
                 num => b'1' + num,
             }),
             SuffixType::Choice(opts) if !opts.is_empty() => {
-- 
2.43.0


From 0b8483766ab1574a7f4bf6110321df73ae983446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:06 +0000
Subject: [PATCH 30/47] fix: do not underflow when no nickname suffix has any
 values

---
 src/client/nick/suffix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 4600178..ee37070 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -147,7 +147,8 @@ impl NickTransformer for Suffix {
                     .suffixes
                     .iter()
                     .fold(0u8, |count, suffix| count.saturating_add(suffix.variance()));
-                (0, limit)
+                // Nick generators always yield at least one nick.
+                (0, limit.max(1))
             }
         };
         Box::new(SuffixGen { cfg: self.clone(), prefix, state: seed, limit })
-- 
2.43.0


From 69c41e6ee61c7d2aceb5e50637fb05a27f67f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:06 +0000
Subject: [PATCH 31/47] fix: keep a fallback nickname when a different nickname
 was invalid

---
 src/client/nick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/nick.rs b/src/client/nick.rs
index 61ad5f1..afc8593 100644
--- a/src/client/nick.rs
+++ b/src/client/nick.rs
@@ -76,8 +76,8 @@ impl NickGen for Nick<'static> {
     }
 
     fn handle_invalid(self: Box<Self>, nick: &Nick<'static>) -> Option<Box<dyn NickGen>> {
-        let eq = *nick == *self;
-        eq.then_some(self)
+        let ne = *nick != *self;
+        ne.then_some(self)
     }
 }
 
-- 
2.43.0


From c0e090e3184409b04f0b6f1dadfa6e44b7b6dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:48 +0000
Subject: [PATCH 32/47] fix: detect every overlap between mode types

---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index b420d1f..62769b1 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -330,8 +330,9 @@ impl ModeTypes {
     /// and returned as a separate set. Use [`insert_set()`][Self::insert_set] to add them back.
     pub fn from_sets(a: ModeSet, b: ModeSet, c: ModeSet, d: ModeSet) -> (Self, ModeSet) {
         let mut overlap = a.intersection(b);
+        overlap = overlap.union(a.intersection(c));
+        overlap = overlap.union(a.intersection(d));
         overlap = overlap.union(b.intersection(c));
-        overlap = overlap.union(c.intersection(d));
         overlap = overlap.union(b.intersection(d));
         overlap = overlap.union(c.intersection(d));
         (
-- 
2.43.0


From af5f75f0b6ff00e93d9e6d281c915672763ecc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:48 +0000
Subject: [PATCH 33/47] fix: accept several status modes without a prefix

---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index 62769b1..53151ac 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -474,7 +474,8 @@ impl StatusModes {
                         format!("duplicate mode `{mode}`").into(),
                     ));
                 }
-                if prefix == prefix_b {
+                // Any number of modes may lack a prefix.
+                if prefix != b'\0' && prefix == prefix_b {
                     return Err(ParseError::InvalidField(
                         "PREFIX value".into(),
                         format!("duplicate prefix `{}`", prefix.escape_ascii()).into(),
-- 
2.43.0


From e59a26ff4557d04f592536a3c81fc19739cb5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:48 +0000
Subject: [PATCH 34/47] fix: name the ISUPPORT token in errors about its value

---
 src/names/isupport.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/names/isupport.rs b/src/names/isupport.rs
index 48529e7..f625c4c 100644
--- a/src/names/isupport.rs
+++ b/src/names/isupport.rs
@@ -78,7 +78,7 @@ macro_rules! defn_isupport {
                 match do_parse(raw) {
                     Ok(rv) => Ok(rv),
                     Err(e) => Err(ParseError::InvalidField(
-                        format!("{} value", stringify!($name)).into(),
+                        format!("{} value", stringify!($key)).into(),
                         e,
                     )),
                 }
-- 
2.43.0


From 8305867469b153820805ad60888e8d335d15bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:08 +0000
Subject: [PATCH 35/47] fix: name JOIN in errors about its arguments

---
 src/names/cmd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/names/cmd.rs b/src/names/cmd.rs
index dee1987..ad5aa06 100644
--- a/src/names/cmd.rs
+++ b/src/names/cmd.rs
@@ -259,7 +259,7 @@ impl NameValued<ServerMsgKind> for JOIN {
         let ServerMsg { tags, source, args, .. } = input;
         let Some([target]) = args.all() else {
             return Err(crate::error::ParseError::InvalidField(
-                concat!(stringify!($name), " args").into(),
+                "JOIN args".into(),
                 "invalid arguments".into(),
             ));
         };
-- 
2.43.0


From 4d5c598c7ab724fa59fb9ad697bf94d3de3a37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:08 +0000
Subject: [PATCH 36/47] fix: read the mechanisms of a 908 reply as a
 comma-separated list

---
 src/client/auth/handler.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 981a00c..76888cb 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -2,7 +2,7 @@ use super::{Sasl, SaslLogic, SaslQueue};
 use crate::{
     client::{auth::msg_abort, ClientMsgSink, NoHandler},
     ircmsg::ClientMsg,
-    names::cmd::AUTHENTICATE,
+    names::{cap::SASL, cmd::AUTHENTICATE, NameValued},
     string::{Arg, Line, SecretBuf},
 };
 
@@ -220,17 +220,22 @@ impl Handler {
             }
             // Server is telling us something about the supported mechanisms.
             "908" => {
+                // The second argument is a comma-separated list, as in the value of the `sasl` cap.
+                let Some(mechs) = msg.args.words().get(1) else {
+                    return Ok(false);
+                };
                 // Let's assume that these apply to all accounts we might try to log in to.
-                #[allow(clippy::mutable_key_type)]
-                let set: std::collections::BTreeSet<_> =
-                    msg.args.split_last().0.iter().map(|a| a.clone().owning()).collect();
-                self.queue.retain(&|ln| set.contains(ln));
+                let union = (SASL::NAME, mechs.clone().owning().into());
+                let Ok(set) = SASL::from_union(&union) else {
+                    return Ok(false);
+                };
+                self.queue.retain(&|ln| set.contains(ln.as_bytes()));
                 // If the mechanism is NOT supported,
                 // the server needs to error with a 904, which causes this handler to
                 // cycle to the next authenticator.
                 // However, we can short-circuit this if the queue is empty AND
                 // the authenticator is unsupported.
-                if self.queue.is_empty() && !set.contains(&self.logic.name()) {
+                if self.queue.is_empty() && !set.contains(self.logic.name().as_bytes()) {
                     Err(HandlerError::Unsupported)
                 } else {
                     Ok(false)
-- 
2.43.0


From d7d4f73fcebb8fcba936be2ddeac91cf5721b384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:13 +0000
Subject: [PATCH 37/47] fix: discard an unfinished SASL challenge when moving
 to another mechanism

---
 src/client/auth/handler.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 76888cb..bb7f636 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -3,14 +3,14 @@ use crate::{
     client::{auth::msg_abort, ClientMsgSink, NoHandler},
     ircmsg::ClientMsg,
     names::{cap::SASL, cmd::AUTHENTICATE, NameValued},
-    string::{Arg, Line, SecretBuf},
+    string::{base64::ChunkDecoder, Arg, Line, SecretBuf},
 };
 
 /// Handler for SASL authentication.
 pub struct Handler {
     queue: SaslQueue,
     logic: Box<dyn SaslLogic>,
-    decoder: crate::string::base64::ChunkDecoder,
+    decoder: ChunkDecoder,
 }
 
 /// All the possible errors that can occur during SASL authentication.
@@ -107,7 +107,7 @@ impl Handler {
     /// (potentially empty) queue.
     /// Additionally returns the message to send to initiate authentication.
     pub fn new(logic: Box<dyn SaslLogic>, queue: SaslQueue) -> Self {
-        Handler { queue, logic, decoder: crate::string::base64::ChunkDecoder::new(400) }
+        Handler { queue, logic, decoder: ChunkDecoder::new(400) }
     }
     /// Attempts to create a new authenticator directly from a [`SaslQueue`].
     /// Returns `None` if the queue is empty.
@@ -139,6 +139,7 @@ impl Handler {
             None
         } else if let Some(new_logic) = self.queue.pop() {
             self.logic = new_logic;
+            self.decoder = ChunkDecoder::new(400);
             Some(true)
         } else {
             Some(false)
@@ -199,6 +200,8 @@ impl Handler {
                 // meant to log in to the same account on a 902.
                 if let Some(next_logic) = self.queue.pop() {
                     self.logic = next_logic;
+                    // Forget any unfinished challenge meant for the previous authenticator.
+                    self.decoder = ChunkDecoder::new(400);
                     sink.send(self.auth_msg());
                     Ok(false)
                 } else {
@@ -215,6 +218,7 @@ impl Handler {
             "906" => {
                 // Since we're here, we're trying again.
                 // The authenticator was already cycled earlier, so we just send the message.
+                self.decoder = ChunkDecoder::new(400);
                 sink.send(self.auth_msg());
                 Ok(false)
             }
-- 
2.43.0


From 8d46a68d217d7498d283e6598472de0c69fc901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:52 +0000
Subject: [PATCH 38/47] fix: require a login when authentication is required

---
 src/client/register.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/client/register.rs b/src/client/register.rs
index 6691694..c31f640 100644
--- a/src/client/register.rs
+++ b/src/client/register.rs
@@ -108,8 +108,7 @@ impl<O> Register<O> {
     pub fn handler(&self, opts: &O, sink: impl ClientMsgSink<'static>) -> Handler {
         let nicks = self.register_msgs(opts, sink);
         let caps = (self.caps)(opts);
-        let (auths, mut needs_auth) = (self.auth)(opts);
-        needs_auth &= auths.is_empty();
+        let (auths, needs_auth) = (self.auth)(opts);
         Handler::new(nicks, caps, needs_auth, auths)
     }
 }
-- 
2.43.0


From 91f5ccdfb8b580b42ddb7a526b1505005f688602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:55 +0000
Subject: [PATCH 39/47] fix: continue registration after SASL errors that
 arrive late

---
 src/client/register/handler.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 3ae3071..b2f2a0e 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -250,11 +250,8 @@ impl Handler {
         if crate::client::handlers::pong(msg, sink.borrow_mut()) {
             return Ok(None);
         }
-        // Ignore errors related to SASL.
-        let mut ignore_sasl = false;
         #[cfg(feature = "base64")]
         if let HandlerState::Sasl(sasl) = &mut self.state {
-            ignore_sasl = true;
             match sasl.handle(msg, sink.borrow_mut()) {
                 Ok(false) => (),
                 Ok(true) => {
@@ -415,7 +412,9 @@ impl Handler {
                 }
                 Ok(None)
             }
-            "902" | "904" | "905" | "906" | "907" if ignore_sasl => Ok(None),
+            // Ignore errors related to SASL. Whether we logged in is checked separately.
+            // These can arrive after we gave up on SASL, e.g. because of a preceding 908.
+            "902" | "904" | "905" | "906" | "907" => Ok(None),
             "CAP" => {
                 use crate::client::cap;
                 let cap_msg = cap::ServerMsgArgs::parse(&msg.args.clone().owning())
-- 
2.43.0


From cdc9f0ad1574454d1010ca7d167fedb20b4e3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:57 +0000
Subject: [PATCH 40/47] fix: keep tracking the client's source while it is not
 known yet

---
 src/client/handlers/track.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index 74aab7c..b98b990 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -8,7 +8,7 @@ use crate::{
         ClientState, Handler, SelfMadeHandler,
     },
     error::ParseError,
-    ircmsg::{ClientMsg, Source, UserHost},
+    ircmsg::{ClientMsg, UserHost},
     names::cmd::USERHOST,
     string::{Arg, Nick, User, Word},
 };
@@ -31,13 +31,6 @@ impl TrackClientSource {
     }
 }
 
-fn get_client_source(state: &mut ClientState) -> ControlFlow<(), &mut Source<'static>> {
-    match state.get_mut::<ClientSource>() {
-        Some(v) => ControlFlow::Continue(v),
-        None => ControlFlow::Break(()),
-    }
-}
-
 // TODO: Would be nice to extract RPL_USERHOST parsing.
 /// Attempts to parse out the UserHost for `nick` from the args for a RPL_USERHOST.
 ///
@@ -96,7 +89,9 @@ impl Handler for TrackClientSource {
             // RPL_USERHOST
             "302" => {
                 if let Some([_, items @ ..]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        return ControlFlow::Continue(());
+                    };
                     for item in items {
                         let userhost = match parse_userhost_item(item.clone(), &src.nick) {
                             Ok(uh) => uh,
@@ -112,7 +107,9 @@ impl Handler for TrackClientSource {
             }
             "NICK" => {
                 if let Some([nick]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        return ControlFlow::Continue(());
+                    };
                     let Ok(nick) = Nick::from_arg(nick.clone()) else {
                         // TODO: Log warning?
                         return ControlFlow::Continue(());
@@ -129,7 +126,9 @@ impl Handler for TrackClientSource {
             }
             "CHGHOST" => {
                 if let Some([user, host]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        return ControlFlow::Continue(());
+                    };
                     match msg.source.as_ref() {
                         Some(m_src) if m_src.nick == src.nick => {
                             let user = match User::from_super(user.clone()) {
-- 
2.43.0


From 9471901484b763fca334294a36f35cf23274d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:23 +0000
Subject: [PATCH 41/47] fix: read all replies in a USERHOST reply's last
 argument

---
 src/client/handlers/track.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index b98b990..56f231f 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -88,12 +88,17 @@ impl Handler for TrackClientSource {
         match msg.kind.as_str() {
             // RPL_USERHOST
             "302" => {
-                if let Some([_, items @ ..]) = msg.args.all() {
+                if let Some((_, words)) = msg.args.words().split_first() {
                     let Some(src) = state.get_mut::<ClientSource>() else {
                         return ControlFlow::Continue(());
                     };
+                    // Several replies are sent as one argument, separated by spaces.
+                    let long = msg.args.split_last().1.filter(|_| msg.args.is_last_long());
+                    let long = long.into_iter().flat_map(|last| last.split(|b| *b == b' '));
+                    let long = long.filter_map(|item| Arg::from_bytes(item).ok());
+                    let items = words.iter().cloned().chain(long);
                     for item in items {
-                        let userhost = match parse_userhost_item(item.clone(), &src.nick) {
+                        let userhost = match parse_userhost_item(item, &src.nick) {
                             Ok(uh) => uh,
                             // TODO: Log warning on ParseError?
                             Err(_) => continue,
-- 
2.43.0


From 0a6f926bed747790dd30482ee1b768cf4d8568c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:04 +0000
Subject: [PATCH 42/47] fix: use the limits the server advertised for the
 source length after registration

---
 src/client/register/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index b2f2a0e..4b15588 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -58,11 +58,12 @@ impl Registration {
     pub fn save(self, state: &mut crate::client::ClientState) {
         use crate::client::state::*;
         let source = Source { nick: self.nick, userhost: self.userhost };
+        state.insert::<ISupport>(self.isupport);
+        // Uses ISUPPORT for whatever isn't known about the source.
         state.update_source_len_from(Some(&source), true);
         state.insert::<ClientSource>(source);
         state.insert::<Account>(self.account);
         state.insert::<Caps>(self.caps);
-        state.insert::<ISupport>(self.isupport);
         if let Some(server_source) = self.source {
             state.insert::<ServerSource>(server_source);
         }
-- 
2.43.0


From a9b57af57b5438eb4e19686a4c45512d4d4497db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:00 +0000
Subject: [PATCH 43/47] fix: answer CTCP queries only, not replies or other
 messages

---
 src/client/handlers/autoreply.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/handlers/autoreply.rs b/src/client/handlers/autoreply.rs
index 71fc218..910db4d 100644
--- a/src/client/handlers/autoreply.rs
+++ b/src/client/handlers/autoreply.rs
@@ -41,6 +41,10 @@ impl Handler for CtcpVersion {
         mut queue: QueueEditGuard<'_>,
         _: crate::client::channel::SenderRef<'_, Self::Value>,
     ) -> std::ops::ControlFlow<()> {
+        // Never reply to a NOTICE, which is how replies are sent.
+        if msg.kind != PRIVMSG {
+            return std::ops::ControlFlow::Continue(());
+        }
         // TODO: Should probably consider length limits.
         let Ok(msg) = msg.parse_as(PRIVMSG) else {
             return std::ops::ControlFlow::Continue(());
-- 
2.43.0


From 1955e84745c8a51a586df6a9fc0efe5a291f9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:45 +0000
Subject: [PATCH 44/47] fix: do not take an overlong PONG for the answer to a
 ping

---
 src/client/handlers/ping.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client/handlers/ping.rs b/src/client/handlers/ping.rs
index 8ac01b0..ba91d39 100644
--- a/src/client/handlers/ping.rs
+++ b/src/client/handlers/ping.rs
@@ -39,8 +39,11 @@ impl Handler for Ping {
                     if !(b'0'..=b'7').contains(&byte) {
                         return std::ops::ControlFlow::Continue(());
                     }
-                    value <<= 3;
-                    value |= (byte - b'0') as u32;
+                    let Some(shifted) = value.checked_mul(8) else {
+                        // Longer than anything we send.
+                        return std::ops::ControlFlow::Continue(());
+                    };
+                    value = shifted | (byte - b'0') as u32;
                 }
                 if hash == value {
                     let duration = Instant::now().saturating_duration_since(self.0);
-- 
2.43.0


From 7a5fa5d5c681da2c507ee0d4bc762662c1726581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:52 +0000
Subject: [PATCH 45/47] fix: deserialize numerics from the integers they
 serialize as

---
 src/ircmsg/numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/numeric.rs b/src/ircmsg/numeric.rs
index 8be4785..24f6a5a 100644
--- a/src/ircmsg/numeric.rs
+++ b/src/ircmsg/numeric.rs
@@ -5,7 +5,7 @@ use std::{io::Write, num::NonZeroU8};
 /// A three-digit numeric reply code.
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(serde_derive::Serialize, serde_derive::Deserialize))]
-#[cfg_attr(feature = "serde", serde(into = "u16"))]
+#[cfg_attr(feature = "serde", serde(try_from = "u16", into = "u16"))]
 pub struct Numeric([NonZeroU8; 3]);
 
 impl AsRef<str> for Numeric {
-- 
2.43.0


From 7495e912bbd0357a06cdbbbb0e3124274b39b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:54 +0000
Subject: [PATCH 46/47] fix: read back byte strings that are not UTF-8 from
 human-readable formats

---
 src/string/serde.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/string/serde.rs b/src/string/serde.rs
index 786b822..239501f 100644
--- a/src/string/serde.rs
+++ b/src/string/serde.rs
@@ -21,7 +21,14 @@ impl<'a, 'de> serde::Deserialize<'de> for Bytes<'a> {
     where
         D: serde::Deserializer<'de>,
     {
-        de.deserialize_string(Visitor::<'a>(std::marker::PhantomData))
+        let visitor = Visitor::<'a>(std::marker::PhantomData);
+        if de.is_human_readable() {
+            // These formats may represent byte strings that aren't UTF-8 as sequences,
+            // and may refuse to yield them if asked for a string.
+            de.deserialize_any(visitor)
+        } else {
+            de.deserialize_string(visitor)
+        }
     }
 }
 
@@ -71,6 +78,17 @@ impl<'a, 'de> serde::de::Visitor<'de> for Visitor<'a> {
         Ok(v.into())
     }
 
+    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+    where
+        A: serde::de::SeqAccess<'de>,
+    {
+        let mut bytes = Vec::<u8>::new();
+        while let Some(byte) = seq.next_element()? {
+            bytes.push(byte);
+        }
+        Ok(bytes.into())
+    }
+
     fn visit_unit<E>(self) -> Result<Self::Value, E>
     where
         E: serde::de::Error,
-- 
2.43.0


From 17b3f1d61011a137d935aef139048294afb4044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:14 +0000
Subject: [PATCH 47/47] fix: verify TLS 1.3 handshake signatures by TLS 1.3's
 rules when not verifying certificates

---
 src/client/tls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/tls.rs b/src/client/tls.rs
index d39e719..fe7e1f5 100644
--- a/src/client/tls.rs
+++ b/src/client/tls.rs
@@ -73,7 +73,7 @@ impl rustls::client::danger::ServerCertVerifier for NoVerifier {
         cert: &CertificateDer<'_>,
         dss: &rustls::DigitallySignedStruct,
     ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
-        rustls::crypto::verify_tls12_signature(
+        rustls::crypto::verify_tls13_signature(
             message,
             cert,
             dss,
-- 
2.43.0

