From 8d2f069d22170ab00b8637dc1a7545dd2d9c138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 01/31] Add lock-observation hooks behind cfg(mortal_verif)

---
 src/lib.rs           |   4 ++
 src/unix/screen.rs   |   6 +-
 src/unix/terminal.rs |   6 +-
 src/verif.rs         | 141 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 155 insertions(+), 2 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 2f641d3..6ed15dc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,6 +61,10 @@ pub mod signal;
 pub mod terminal;
 pub mod util;
 
+#[cfg(mortal_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(unix)]
 #[path = "unix/mod.rs"]
 mod sys;
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 5597355..2f13ccc 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -1,5 +1,7 @@
 use std::io;
-use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
+use std::sync::{LockResult, TryLockResult};
+#[cfg(not(mortal_verif))]
+use std::sync::{Mutex, MutexGuard};
 use std::time::Duration;
 
 use crate::buffer::ScreenBuffer;
@@ -9,6 +11,8 @@ use crate::priv_util::{
 };
 use crate::sys::{Terminal, TerminalReadGuard, TerminalWriteGuard, PrepareState};
 use crate::terminal::{Color, Cursor, CursorMode, Event, Size, Style, PrepareConfig};
+#[cfg(mortal_verif)]
+use crate::verif::{Mutex, MutexGuard};
 
 pub struct Screen {
     term: Terminal,
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4efd294..9889c74 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -6,7 +6,9 @@ use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
 use std::str::from_utf8;
 use std::sync::atomic::{AtomicUsize, Ordering};
-use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
+use std::sync::{LockResult, TryLockResult};
+#[cfg(not(mortal_verif))]
+use std::sync::{Mutex, MutexGuard};
 use std::time::Duration;
 
 use libc::{
@@ -42,6 +44,8 @@ use crate::terminal::{
     MouseButton, MouseEvent, MouseInput, ModifierState,
 };
 use crate::util::prefixes;
+#[cfg(mortal_verif)]
+use crate::verif::{Mutex, MutexGuard};
 
 const OUT_BUFFER_SIZE: usize = 8192;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..08b2025
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,141 @@
+//! Verification hooks, compiled only with `--cfg mortal_verif`.
+//!
+//! Provides a `Mutex` that reports its lock operations to an observer.
+
+use std::fmt;
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::{self, LockResult, PoisonError, RwLock, TryLockError, TryLockResult};
+
+#[derive(Copy, Clone, Debug, Eq, PartialEq)]
+pub enum LockEvent {
+    Want,
+    Acquired,
+    TryWant,
+    TryAcquired,
+    TryFailed,
+    Released,
+}
+
+pub type Hook = fn(LockEvent, usize);
+
+static HOOK: RwLock<Option<Hook>> = RwLock::new(None);
+static NEXT_ID: AtomicUsize = AtomicUsize::new(0);
+
+/// Installs the observer and restarts the numbering of mutexes.
+pub fn set_hook(hook: Option<Hook>) {
+    *HOOK.write().unwrap_or_else(|e| e.into_inner()) = hook;
+    NEXT_ID.store(0, Ordering::SeqCst);
+}
+
+fn report(ev: LockEvent, id: usize) {
+    let hook = *HOOK.read().unwrap_or_else(|e| e.into_inner());
+    if let Some(hook) = hook {
+        hook(ev, id);
+    }
+}
+
+pub struct Mutex<T> {
+    id: usize,
+    inner: sync::Mutex<T>,
+}
+
+pub struct MutexGuard<'a, T: 'a> {
+    id: usize,
+    inner: Option<sync::MutexGuard<'a, T>>,
+}
+
+impl<T> Mutex<T> {
+    pub fn new(t: T) -> Mutex<T> {
+        Mutex{
+            id: NEXT_ID.fetch_add(1, Ordering::SeqCst),
+            inner: sync::Mutex::new(t),
+        }
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<T>> {
+        report(LockEvent::Want, self.id);
+        let r = self.inner.lock();
+        report(LockEvent::Acquired, self.id);
+
+        match r {
+            Ok(g) => Ok(self.guard(g)),
+            Err(e) => Err(PoisonError::new(self.guard(e.into_inner())))
+        }
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<T>> {
+        report(LockEvent::TryWant, self.id);
+        let r = self.inner.try_lock();
+        report(match r {
+            Err(TryLockError::WouldBlock) => LockEvent::TryFailed,
+            _ => LockEvent::TryAcquired
+        }, self.id);
+
+        match r {
+            Ok(g) => Ok(self.guard(g)),
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(
+                PoisonError::new(self.guard(e.into_inner())))),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+
+    pub fn clear_poison(&self) {
+        self.inner.clear_poison();
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+
+    fn guard<'a>(&self, g: sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        MutexGuard{id: self.id, inner: Some(g)}
+    }
+}
+
+impl<T: Default> Default for Mutex<T> {
+    fn default() -> Mutex<T> {
+        Mutex::new(T::default())
+    }
+}
+
+impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        self.inner.fmt(f)
+    }
+}
+
+impl<'a, T: fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        (**self).fmt(f)
+    }
+}
+
+impl<'a, T> Deref for MutexGuard<'a, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.inner.as_ref().unwrap()
+    }
+}
+
+impl<'a, T> DerefMut for MutexGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.inner.as_mut().unwrap()
+    }
+}
+
+impl<'a, T> Drop for MutexGuard<'a, T> {
+    fn drop(&mut self) {
+        drop(self.inner.take());
+        report(LockEvent::Released, self.id);
+    }
+}
-- 
2.43.0


From fcf926fe5e798d2bf0ae8693fa8443a3f8d6a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 02/31] fix: fill the end of a line with spaces when a wide
 character moves to the next line

---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 020715e..6c827d8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -195,7 +195,7 @@ impl ScreenBuffer {
                 let mut pos = self.cursor;
 
                 for _ in 0..rem {
-                    self.set_cell(pos, ch);
+                    self.set_cell(pos, ' ');
                     pos.column += 1;
                 }
 
-- 
2.43.0


From ea778dbad0ef0447b4116f1ab4e5b998d5791865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 03/31] fix: do not write outside the buffer when a wide
 character cannot fit on any line

---
 src/buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6c827d8..4587ab3 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -188,6 +188,10 @@ impl ScreenBuffer {
             let rem = self.size.columns - self.cursor.column;
             let width = char_width(ch).unwrap_or(0);
 
+            if width > self.size.columns {
+                return Err(OutOfBounds(()));
+            }
+
             // If insufficient space exists on the current line,
             // fill it with spaces and write the char on the next line.
             if rem < width {
-- 
2.43.0


From 213dfae1236cd09bc40143bfe6f252320fd919b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 04/31] fix: attach combining marks following a wide character
 to that character

---
 src/buffer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 4587ab3..21b498a 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -170,8 +170,18 @@ impl ScreenBuffer {
             self.cursor.line += 1;
             self.cursor.column = 0;
         } else if is_combining_mark(ch) {
-            if let Some(prev) = self.cursor.previous(self.size) {
+            if let Some(mut prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
+
+                // The second cell of a wide character is not displayed
+                if prev.column != 0 {
+                    let first = Cursor{line: prev.line, column: prev.column - 1};
+
+                    if self.cell_mut(first).is_wide() {
+                        prev = first;
+                    }
+                }
+
                 self.cell_mut(prev).text.push(ch);
             }
         } else if is_visible(ch) {
-- 
2.43.0


From 690ed88c0b7522339ba7bb8e82286cb5055c522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 05/31] fix: redraw the second cell of a replaced wide
 character

---
 src/buffer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 21b498a..1c6a43e 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -125,6 +125,12 @@ impl ScreenBuffer {
 
                 self.back_buffer[idx] = cell.clone();
 
+                if width == 2 {
+                    // Overlapped by the wide character; must be redrawn
+                    // when it is no longer overlapped.
+                    self.back_buffer[idx + 1] = Cell::invalid();
+                }
+
                 return Some((Cursor{line, column}, cell));
             }
         }
-- 
2.43.0


From 0bdcc588ece12134891a3610135e6fd783eaf189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 06/31] fix: account for wide characters in the position of the
 terminal cursor

---
 src/buffer.rs      | 4 ++++
 src/unix/screen.rs | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 1c6a43e..889e229 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -523,6 +523,10 @@ impl Cell {
         &self.text
     }
 
+    pub fn width(&self) -> usize {
+        char_width(self.first_char()).unwrap_or(0)
+    }
+
     fn first_char(&self) -> char {
         self.text.chars().next().expect("empty cell text")
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 2f13ccc..da50f51 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -196,7 +196,7 @@ impl<'a> ScreenWriteGuard<'a> {
 
             self.apply_attrs(cell.attrs())?;
             self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += 1;
+            self.data.real_cursor.column += cell.width();
         }
 
         self.writer.clear_attributes()?;
-- 
2.43.0


From 1f063e53bd9c7e696b7b79fb59663d3f2454de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 07/31] fix: clearing the terminal on refresh moves its cursor

---
 src/unix/screen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index da50f51..720e8c9 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -185,6 +185,8 @@ impl<'a> ScreenWriteGuard<'a> {
         if self.data.clear_screen {
             self.writer.clear_screen()?;
             self.data.clear_screen = false;
+            // Clearing the screen moves the terminal cursor
+            self.data.real_cursor = Cursor::default();
         }
 
         self.writer.clear_attributes()?;
-- 
2.43.0


From 4ae97ae65d914ecb1062e9a406e13dae5ebb1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 08/31] fix: blank a wide character cut by a resize

---
 src/buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 889e229..f5159b8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -555,6 +555,11 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
                 for i in 0..n_cols {
                     swap(&mut new[i], &mut old[i]);
                 }
+
+                // Do not leave half of a wide character
+                if n_cols != 0 && new.len() == n_cols && new[n_cols - 1].is_wide() {
+                    new[n_cols - 1] = Cell::default();
+                }
             }
         }
 
-- 
2.43.0


From 47bc80b70257490633d7d6c5c31f0313ff03cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 09/31] fix: clear attributes after a styled write that does
 not fit the screen

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index f5159b8..9ad79aa 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -266,10 +266,10 @@ impl ScreenBuffer {
         self.bg = bg;
         self.style = style;
 
-        self.write_str(text)?;
+        let res = self.write_str(text);
         self.clear_attributes();
 
-        Ok(())
+        res
     }
 
     pub fn write_styled_at(&mut self, pos: Cursor,
-- 
2.43.0


From 9d5a87ea57fa8b5e99ca5018aa0b1228c444a6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 10/31] fix: continue after a short write instead of starting
 over

---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 9889c74..76fad08 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1030,7 +1030,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 break Ok(());
             }
 
-            match write(self.term.out_fd, buf) {
+            match write(self.term.out_fd, &buf[offset..]) {
                 Ok(0) => break Err(io::Error::from(io::ErrorKind::WriteZero)),
                 Ok(n) => offset += n,
                 Err(Errno::EINTR) => continue,
-- 
2.43.0


From 66649de66ddf619e4b0c95202ecc3c4c50f2801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 11/31] fix: redraw the screen after a refresh that failed

---
 src/buffer.rs      |  5 +++++
 src/unix/screen.rs | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 9ad79aa..d273e87 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -54,6 +54,11 @@ impl ScreenBuffer {
         self.size = new_size;
     }
 
+    /// Causes all cells to be yielded by `next_cell`
+    pub fn invalidate(&mut self) {
+        new_buffer(&mut self.back_buffer, self.size);
+    }
+
     pub fn set_cursor(&mut self, pos: Cursor) {
         self.cursor = pos;
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 720e8c9..f93f264 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -182,6 +182,19 @@ impl<'a> ScreenWriteGuard<'a> {
     }
 
     pub fn refresh(&mut self) -> io::Result<()> {
+        let res = self.write_changes();
+
+        if res.is_err() {
+            // Some cells may not have been written;
+            // all cells will be redrawn by the next refresh.
+            self.data.buffer.invalidate();
+            self.data.real_cursor = (!0, !0).into();
+        }
+
+        res
+    }
+
+    fn write_changes(&mut self) -> io::Result<()> {
         if self.data.clear_screen {
             self.writer.clear_screen()?;
             self.data.clear_screen = false;
-- 
2.43.0


From 739a611cf0d19f8cbf40d5209dccf3cfbf8f5272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 12/31] fix: limit terminal parameters to the range of a signed
 integer

---
 src/unix/terminal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 76fad08..79e07c6 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1420,8 +1420,9 @@ fn not_supported(op: &str) -> io::Error {
 
 #[cfg(target_pointer_width = "64")]
 fn to_u32(u: usize) -> u32 {
-    if u > u32::max_value() as usize {
-        u32::max_value()
+    // terminfo parameters are signed
+    if u > i32::max_value() as usize {
+        i32::max_value() as u32
     } else {
         u as u32
     }
-- 
2.43.0


From 61525f6cac4920006797ce235adcb3817d360c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 13/31] fix: reject mouse reports with missing or zero numbers

---
 src/unix/terminal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 79e07c6..ba94c86 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1302,8 +1302,8 @@ fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
 
     let position = Cursor{
         // Parsed line and column begin at 1; we begin at 0
-        line: (line - 1) as usize,
-        column: (column - 1) as usize,
+        line: line.checked_sub(1)? as usize,
+        column: column.checked_sub(1)? as usize,
     };
 
     Some((MouseEvent{
@@ -1317,6 +1317,11 @@ fn parse_integer(buf: &mut &[u8]) -> Option<(u32, u8)> {
     let mut n = 0u32;
     let mut iter = buf.iter();
 
+    if !buf.first()?.is_ascii_digit() {
+        // There must be at least one digit
+        return None;
+    }
+
     while let Some(&b) = iter.next() {
         match b {
             b'0' ..= b'9' => {
-- 
2.43.0


From b50f54dd780217f0c01f71dd3113152e48491fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 14/31] fix: discard invalid UTF-8 input after reporting it

---
 src/unix/terminal.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index ba94c86..8f4002a 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -462,8 +462,10 @@ impl<'a> TerminalReadGuard<'a> {
             return Ok(true);
         }
 
-        if peek_event(&self.reader.in_buffer, &self.term.sequences)?.is_some() {
-            return Ok(true);
+        match peek_event(&self.reader.in_buffer, &self.term.sequences) {
+            Ok(None) => (),
+            // Invalid input is reported when it is read
+            Ok(Some(_)) | Err(_) => return Ok(true)
         }
 
         let mut timeout = timeout.map(to_timeval);
@@ -600,7 +602,12 @@ impl<'a> TerminalReadGuard<'a> {
                     Ok(Some(ev))
                 }
                 Ok(None) => Ok(None),
-                Err(e) => Err(e)
+                Err(e) => {
+                    // Discard the invalid data, so that what follows can be read
+                    let n = invalid_utf8_len(in_buffer);
+                    let _ = in_buffer.drain(..n);
+                    Err(e)
+                }
             }
         }
     }
@@ -1370,6 +1377,14 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
+/// Returns the length of the invalid UTF-8 sequence at the beginning of `buf`.
+fn invalid_utf8_len(buf: &[u8]) -> usize {
+    match from_utf8(buf) {
+        Err(ref e) if e.valid_up_to() == 0 => e.error_len().unwrap_or(0),
+        _ => 0
+    }
+}
+
 static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-- 
2.43.0


From f9723848ab7e0ee087af4cb0055292b8c1ccb0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 15/31] fix: remember every signal that has arrived, not only
 the last

---
 src/unix/terminal.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 8f4002a..3a53b0a 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1385,10 +1385,11 @@ fn invalid_utf8_len(buf: &[u8]) -> usize {
     }
 }
 
-static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
+/// Signals which have arrived, but have not been read; bit `n` represents signal number `n`
+static PENDING_SIGNALS: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-    LAST_SIGNAL.store(signum as usize, Ordering::Relaxed);
+    PENDING_SIGNALS.fetch_or(1 << signum, Ordering::Relaxed);
 }
 
 fn conv_signal(sig: c_int) -> Option<Signal> {
@@ -1403,11 +1404,20 @@ fn conv_signal(sig: c_int) -> Option<Signal> {
 }
 
 fn get_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.load(Ordering::Relaxed) as c_int)
+    match PENDING_SIGNALS.load(Ordering::Relaxed) {
+        0 => None,
+        n => conv_signal(n.trailing_zeros() as c_int)
+    }
 }
 
 fn take_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.swap(0, Ordering::Relaxed) as c_int)
+    let signum = match PENDING_SIGNALS.load(Ordering::Relaxed) {
+        0 => return None,
+        n => n.trailing_zeros()
+    };
+
+    PENDING_SIGNALS.fetch_and(!(1 << signum), Ordering::Relaxed);
+    conv_signal(signum as c_int)
 }
 
 fn ascii_str(s: &[u8]) -> Option<&str> {
-- 
2.43.0


From 2d70a82ccfbc90f94de3a470a1fb4156e9cd2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 16/31] fix: wait until the timeout has elapsed

---
 src/unix/terminal.rs | 106 ++++++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 46 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 3a53b0a..d3c6eb0 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -9,7 +9,7 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{LockResult, TryLockResult};
 #[cfg(not(mortal_verif))]
 use std::sync::{Mutex, MutexGuard};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use libc::{
     ioctl,
@@ -458,19 +458,25 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     pub fn wait_event(&mut self, timeout: Option<Duration>) -> io::Result<bool> {
-        if get_signal().is_some() {
-            return Ok(true);
-        }
+        let mut signals = self.reader.report_signals;
+        signals.insert(Signal::Resize);
+
+        self.wait_until(deadline(timeout), signals)
+    }
 
+    /// Waits until `deadline` for input or one of the given signals.
+    fn wait_until(&mut self, deadline: Option<Instant>, signals: SignalSet) -> io::Result<bool> {
         match peek_event(&self.reader.in_buffer, &self.term.sequences) {
             Ok(None) => (),
             // Invalid input is reported when it is read
             Ok(Some(_)) | Err(_) => return Ok(true)
         }
 
-        let mut timeout = timeout.map(to_timeval);
-
         let n = loop {
+            if pending_signals().intersects(signals) {
+                return Ok(true);
+            }
+
             let in_fd = self.term.in_fd;
 
             let mut r_fds = FdSet::new();
@@ -480,14 +486,13 @@ impl<'a> TerminalReadGuard<'a> {
             let mut e_fds = FdSet::new();
             e_fds.insert(in_fd);
 
+            let mut timeout = deadline.map(|d| to_timeval(
+                d.saturating_duration_since(Instant::now())));
+
             match select(in_fd + 1,
                     Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_mut()) {
                 Ok(n) => break n,
-                Err(Errno::EINTR) =>
-                    if get_signal().is_some() {
-                        return Ok(true);
-                    }
-                
+                Err(Errno::EINTR) => (),
                 Err(e) => return Err(nix_to_io(e))
             }
         };
@@ -496,20 +501,24 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     pub fn read_event(&mut self, timeout: Option<Duration>) -> io::Result<Option<Event>> {
-        if let Some(ev) = self.try_read()? {
-            return Ok(Some(ev));
-        }
+        let deadline = deadline(timeout);
 
-        match self.read_into_buffer(timeout)? {
-            Some(Event::Raw(_)) => self.try_read(),
-            Some(Event::Signal(sig)) => {
-                if let Some(ev) = self.handle_signal(sig)? {
-                    Ok(Some(ev))
-                } else {
-                    Ok(None)
+        loop {
+            if let Some(ev) = self.try_read()? {
+                return Ok(Some(ev));
+            }
+
+            match self.read_into_buffer(deadline)? {
+                // No input is left, although some was announced
+                Some(Event::Raw(0)) => return Ok(None),
+                Some(Event::Raw(_)) => (),
+                Some(Event::Signal(sig)) => {
+                    if let Some(ev) = self.handle_signal(sig)? {
+                        return Ok(Some(ev));
+                    }
                 }
+                r => return Ok(r)
             }
-            r => Ok(r)
         }
     }
 
@@ -523,19 +532,21 @@ impl<'a> TerminalReadGuard<'a> {
             return Ok(Some(Event::Raw(n)));
         }
 
-        match self.read_input(buf, timeout)? {
-            Some(Event::Signal(sig)) => {
-                if let Some(event) = self.handle_signal(sig)? {
-                    Ok(Some(event))
-                } else {
-                    Ok(None)
+        let deadline = deadline(timeout);
+
+        loop {
+            match self.read_input(buf, deadline)? {
+                Some(Event::Signal(sig)) => {
+                    if let Some(event) = self.handle_signal(sig)? {
+                        return Ok(Some(event));
+                    }
                 }
+                r => return Ok(r)
             }
-            r => Ok(r)
         }
     }
 
-    fn read_into_buffer(&mut self, timeout: Option<Duration>) -> io::Result<Option<Event>> {
+    fn read_into_buffer(&mut self, deadline: Option<Instant>) -> io::Result<Option<Event>> {
         // Temporarily replace the buffer to prevent borrow errors
         let mut buf = replace(&mut self.reader.in_buffer, Vec::new());
 
@@ -548,7 +559,7 @@ impl<'a> TerminalReadGuard<'a> {
         unsafe {
             buf.set_len(cap);
 
-            r = self.read_input(&mut buf[len..], timeout);
+            r = self.read_input(&mut buf[len..], deadline);
 
             match r {
                 Ok(Some(Event::Raw(n))) => buf.set_len(len + n),
@@ -562,13 +573,13 @@ impl<'a> TerminalReadGuard<'a> {
         r
     }
 
-    fn read_input(&mut self, buf: &mut [u8], timeout: Option<Duration>) -> io::Result<Option<Event>> {
+    fn read_input(&mut self, buf: &mut [u8], deadline: Option<Instant>) -> io::Result<Option<Event>> {
         // Check for a signal that may have already arrived.
         if let Some(sig) = take_signal() {
             return Ok(Some(Event::Signal(sig)));
         }
 
-        if !self.wait_event(timeout)? {
+        if !self.wait_until(deadline, SignalSet::all())? {
             return Ok(None);
         }
 
@@ -1200,17 +1211,20 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
     }
 }
 
-fn to_timeval(d: Duration) -> TimeVal {
-    const MAX_SECS: i64 = i64::max_value() / 1_000;
+/// Returns the time at which a timeout elapses; `None` if it never does.
+fn deadline(timeout: Option<Duration>) -> Option<Instant> {
+    timeout.and_then(|timeout| Instant::now().checked_add(timeout))
+}
 
-    let secs = match d.as_secs() {
-        n if n > MAX_SECS as u64 => MAX_SECS,
-        n => n as i64,
-    };
+fn to_timeval(d: Duration) -> TimeVal {
+    // Limit imposed by `TimeVal`; this is longer than 290,000 years
+    const MAX_MICROS: i64 = i64::max_value() / 1_000_000 * 1_000_000 - 1_000_000;
 
-    let millis = d.subsec_millis() as i64;
+    // Round up, so that the wait does not end before the time has elapsed
+    let micros = (d.as_nanos() + 999) / 1_000;
 
-    TimeVal::milliseconds(secs * 1_000 + millis)
+    TimeVal::microseconds(
+        if micros > MAX_MICROS as u128 { MAX_MICROS } else { micros as i64 })
 }
 
 fn peek_event(buf: &[u8], sequences: &SeqMap)
@@ -1403,11 +1417,11 @@ fn conv_signal(sig: c_int) -> Option<Signal> {
     }
 }
 
-fn get_signal() -> Option<Signal> {
-    match PENDING_SIGNALS.load(Ordering::Relaxed) {
-        0 => None,
-        n => conv_signal(n.trailing_zeros() as c_int)
-    }
+fn pending_signals() -> SignalSet {
+    let pending = PENDING_SIGNALS.load(Ordering::Relaxed);
+
+    (1..32).filter(|n| pending & (1 << n) != 0)
+        .filter_map(conv_signal).collect()
 }
 
 fn take_signal() -> Option<Signal> {
-- 
2.43.0


From ac1b6e0935d53850a8445613494d0b9faa582fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 17/31] fix: end a wait for signals arriving just before it

---
 src/unix/terminal.rs | 59 ++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index d3c6eb0..ae0da55 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -18,16 +18,16 @@ use libc::{
 };
 
 use nix::errno::Errno;
-use nix::sys::select::{select, FdSet};
+use nix::sys::select::{pselect, FdSet};
 use nix::sys::signal::{
     sigaction,
-    SaFlags, SigAction, SigHandler, Signal as NixSignal, SigSet,
+    SaFlags, SigAction, SigHandler, Signal as NixSignal, SigSet, SigmaskHow,
 };
 use nix::sys::termios::{
     tcgetattr, tcsetattr,
     SetArg, InputFlags, LocalFlags,
 };
-use nix::sys::time::{TimeVal, TimeValLike};
+use nix::sys::time::TimeSpec;
 use nix::unistd::{read, write};
 
 use smallstr::SmallString;
@@ -472,13 +472,16 @@ impl<'a> TerminalReadGuard<'a> {
             Ok(Some(_)) | Err(_) => return Ok(true)
         }
 
-        let n = loop {
+        let in_fd = self.term.in_fd;
+
+        // A signal arriving between the check and the wait must end the wait
+        let mask = block_signals()?;
+
+        let r = loop {
             if pending_signals().intersects(signals) {
-                return Ok(true);
+                break Ok(true);
             }
 
-            let in_fd = self.term.in_fd;
-
             let mut r_fds = FdSet::new();
             r_fds.insert(in_fd);
 
@@ -486,18 +489,23 @@ impl<'a> TerminalReadGuard<'a> {
             let mut e_fds = FdSet::new();
             e_fds.insert(in_fd);
 
-            let mut timeout = deadline.map(|d| to_timeval(
+            let timeout = deadline.map(|d| to_timespec(
                 d.saturating_duration_since(Instant::now())));
 
-            match select(in_fd + 1,
-                    Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_mut()) {
-                Ok(n) => break n,
+            match pselect(in_fd + 1,
+                    Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_ref(), Some(&mask)) {
+                Ok(0) => if deadline.map_or(false, |d| d <= Instant::now()) {
+                    break Ok(false);
+                },
+                Ok(_) => break Ok(true),
                 Err(Errno::EINTR) => (),
-                Err(e) => return Err(nix_to_io(e))
+                Err(e) => break Err(nix_to_io(e))
             }
         };
 
-        Ok(n != 0)
+        mask.thread_set_mask().map_err(nix_to_io)?;
+
+        r
     }
 
     pub fn read_event(&mut self, timeout: Option<Duration>) -> io::Result<Option<Event>> {
@@ -1216,15 +1224,11 @@ fn deadline(timeout: Option<Duration>) -> Option<Instant> {
     timeout.and_then(|timeout| Instant::now().checked_add(timeout))
 }
 
-fn to_timeval(d: Duration) -> TimeVal {
-    // Limit imposed by `TimeVal`; this is longer than 290,000 years
-    const MAX_MICROS: i64 = i64::max_value() / 1_000_000 * 1_000_000 - 1_000_000;
-
-    // Round up, so that the wait does not end before the time has elapsed
-    let micros = (d.as_nanos() + 999) / 1_000;
+fn to_timespec(d: Duration) -> TimeSpec {
+    // Longer timeouts are not accepted by all systems
+    const MAX: Duration = Duration::from_secs(100_000_000);
 
-    TimeVal::microseconds(
-        if micros > MAX_MICROS as u128 { MAX_MICROS } else { micros as i64 })
+    TimeSpec::from_duration(d.min(MAX))
 }
 
 fn peek_event(buf: &[u8], sequences: &SeqMap)
@@ -1406,6 +1410,19 @@ extern "C" fn handle_signal(signum: c_int) {
     PENDING_SIGNALS.fetch_or(1 << signum, Ordering::Relaxed);
 }
 
+/// Blocks all signals which may be handled in the current thread, and returns the old mask.
+fn block_signals() -> io::Result<SigSet> {
+    let mut set = SigSet::empty();
+
+    set.add(NixSignal::SIGCONT);
+    set.add(NixSignal::SIGINT);
+    set.add(NixSignal::SIGQUIT);
+    set.add(NixSignal::SIGTSTP);
+    set.add(NixSignal::SIGWINCH);
+
+    set.thread_swap_mask(SigmaskHow::SIG_BLOCK).map_err(nix_to_io)
+}
+
 fn conv_signal(sig: c_int) -> Option<Signal> {
     match NixSignal::try_from(sig).ok() {
         Some(NixSignal::SIGCONT)  => Some(Signal::Continue),
-- 
2.43.0


From 51f4417c998d74e8f5d2590a6d078adb9f6b6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 18/31] fix: restore the set of reported signals

---
 src/unix/terminal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index ae0da55..c8c976f 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -339,6 +339,7 @@ impl<'a> TerminalReadGuard<'a> {
             old_sigwinch: None,
             restore_keypad: false,
             restore_mouse: false,
+            prev_report_signals: self.reader.report_signals,
             prev_resume: self.reader.resume,
         };
 
@@ -422,6 +423,7 @@ impl<'a> TerminalReadGuard<'a> {
 
     pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             state: PrepareState) -> io::Result<()> {
+        self.reader.report_signals = state.prev_report_signals;
         self.reader.resume = state.prev_resume;
 
         if state.restore_mouse {
@@ -1153,6 +1155,7 @@ pub struct PrepareState {
     old_sigwinch: Option<SigAction>,
     restore_keypad: bool,
     restore_mouse: bool,
+    prev_report_signals: SignalSet,
     prev_resume: Option<Resume>,
 }
 
-- 
2.43.0


From 3fb60c8e3eca7211881d56f414044cd09b9df4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 19/31] fix: restore keypad and mouse modes of an outer
 preparation

---
 src/unix/terminal.rs | 77 ++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index c8c976f..c5fe33b 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -92,6 +92,9 @@ struct Reader {
     in_buffer: Vec<u8>,
     resume: Option<Resume>,
     report_signals: SignalSet,
+    // Modes currently enabled
+    keypad: bool,
+    mouse: Option<MouseMode>,
 }
 
 struct Writer {
@@ -117,6 +120,8 @@ impl Terminal {
                 in_buffer: Vec::new(),
                 resume: None,
                 report_signals: SignalSet::new(),
+                keypad: false,
+                mouse: None,
             }),
             writer: Mutex::new(Writer::new()),
         })
@@ -337,8 +342,8 @@ impl<'a> TerminalReadGuard<'a> {
             old_sigtstp: None,
             old_sigquit: None,
             old_sigwinch: None,
-            restore_keypad: false,
-            restore_mouse: false,
+            old_keypad: None,
+            old_mouse: None,
             prev_report_signals: self.reader.report_signals,
             prev_resume: self.reader.resume,
         };
@@ -378,16 +383,16 @@ impl<'a> TerminalReadGuard<'a> {
 
         tcsetattr(self.term.in_fd, SetArg::TCSANOW, &tio).map_err(nix_to_io)?;
 
-        if config.enable_mouse {
-            if writer.enable_mouse(config.always_track_motion)? {
-                state.restore_mouse = true;
-            }
+        if config.enable_mouse && self.term.is_xterm() {
+            let mode = Some(MouseMode{track_motion: config.always_track_motion});
+            let old_mode = replace(&mut self.reader.mouse, mode);
+            state.old_mouse = Some(old_mode);
+            writer.set_mouse(old_mode, mode)?;
         }
 
         if config.enable_keypad {
-            if writer.enable_keypad()? {
-                state.restore_keypad = true;
-            }
+            state.old_keypad = Some(replace(&mut self.reader.keypad, true));
+            writer.set_keypad(true)?;
         }
 
         writer.flush()?;
@@ -426,12 +431,14 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.report_signals = state.prev_report_signals;
         self.reader.resume = state.prev_resume;
 
-        if state.restore_mouse {
-            writer.disable_mouse()?;
+        if let Some(mode) = state.old_mouse {
+            let cur_mode = replace(&mut self.reader.mouse, mode);
+            writer.set_mouse(cur_mode, mode)?;
         }
 
-        if state.restore_keypad {
-            writer.disable_keypad()?;
+        if let Some(enable) = state.old_keypad {
+            self.reader.keypad = enable;
+            writer.set_keypad(enable)?;
         }
 
         writer.flush()?;
@@ -703,37 +710,31 @@ impl<'a> TerminalWriteGuard<'a> {
         get_winsize(self.term.out_fd)
     }
 
-    fn disable_keypad(&mut self) -> io::Result<()> {
-        if let Some(local) = self.term.info.get::<cap::KeypadLocal>() {
+    fn set_keypad(&mut self, enable: bool) -> io::Result<()> {
+        if enable {
+            if let Some(xmit) = self.term.info.get::<cap::KeypadXmit>() {
+                self.expand(xmit.expand())?;
+            }
+        } else if let Some(local) = self.term.info.get::<cap::KeypadLocal>() {
             self.expand(local.expand())?;
         }
         Ok(())
     }
 
-    fn enable_keypad(&mut self) -> io::Result<bool> {
-        if let Some(xmit) = self.term.info.get::<cap::KeypadXmit>() {
-            self.expand(xmit.expand())?;
-            Ok(true)
-        } else {
-            Ok(false)
+    fn set_mouse(&mut self, old: Option<MouseMode>, new: Option<MouseMode>) -> io::Result<()> {
+        if old.is_some() {
+            self.write_bytes(XTERM_DISABLE_MOUSE.as_bytes())?;
+            self.write_bytes(XTERM_DISABLE_MOUSE_MOTION.as_bytes())?;
         }
-    }
-
-    fn disable_mouse(&mut self) -> io::Result<()> {
-        self.write_bytes(XTERM_DISABLE_MOUSE.as_bytes())?;
-        self.write_bytes(XTERM_DISABLE_MOUSE_MOTION.as_bytes())
-    }
 
-    fn enable_mouse(&mut self, track_motion: bool) -> io::Result<bool> {
-        if self.term.is_xterm() {
+        if let Some(mode) = new {
             self.write_bytes(XTERM_ENABLE_MOUSE.as_bytes())?;
-            if track_motion {
+            if mode.track_motion {
                 self.write_bytes(XTERM_ENABLE_MOUSE_MOTION.as_bytes())?;
             }
-            Ok(true)
-        } else {
-            Ok(false)
         }
+
+        Ok(())
     }
 
     fn enter_screen(&mut self) -> io::Result<()> {
@@ -1153,12 +1154,18 @@ pub struct PrepareState {
     old_sigtstp: Option<SigAction>,
     old_sigquit: Option<SigAction>,
     old_sigwinch: Option<SigAction>,
-    restore_keypad: bool,
-    restore_mouse: bool,
+    // Set if changed by `prepare`
+    old_keypad: Option<bool>,
+    old_mouse: Option<Option<MouseMode>>,
     prev_report_signals: SignalSet,
     prev_resume: Option<Resume>,
 }
 
+#[derive(Copy, Clone, Debug)]
+struct MouseMode {
+    track_motion: bool,
+}
+
 #[derive(Copy, Clone, Debug)]
 struct Resume {
     config: PrepareConfig,
-- 
2.43.0


From af6cc313dfc9d54388043a2f497cc194bc36ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 20/31] fix: undo a failed prepare and carry out every step of
 restore

---
 src/unix/terminal.rs | 75 +++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index c5fe33b..c0cef6e 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -25,7 +25,7 @@ use nix::sys::signal::{
 };
 use nix::sys::termios::{
     tcgetattr, tcsetattr,
-    SetArg, InputFlags, LocalFlags,
+    SetArg, InputFlags, LocalFlags, Termios,
 };
 use nix::sys::time::TimeSpec;
 use nix::unistd::{read, write};
@@ -330,13 +330,20 @@ impl<'a> TerminalReadGuard<'a> {
 
     pub fn prepare_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             config: PrepareConfig) -> io::Result<PrepareState> {
-        use nix::sys::termios::SpecialCharacterIndices::*;
+        let mut state = self.current_state()?;
+
+        if let Err(e) = self.apply_config(writer, config, &mut state) {
+            // Undo what has been done
+            let _ = self.restore_with_lock(writer, state);
+            return Err(e);
+        }
 
-        let old_tio = tcgetattr(self.term.in_fd).map_err(nix_to_io)?;
-        let mut tio = old_tio.clone();
+        Ok(state)
+    }
 
-        let mut state = PrepareState{
-            old_tio: old_tio.into(),
+    fn current_state(&self) -> io::Result<PrepareState> {
+        Ok(PrepareState{
+            old_tio: tcgetattr(self.term.in_fd).map_err(nix_to_io)?.into(),
             old_sigcont: None,
             old_sigint: None,
             old_sigtstp: None,
@@ -346,7 +353,14 @@ impl<'a> TerminalReadGuard<'a> {
             old_mouse: None,
             prev_report_signals: self.reader.report_signals,
             prev_resume: self.reader.resume,
-        };
+        })
+    }
+
+    fn apply_config(&mut self, writer: &mut TerminalWriteGuard,
+            config: PrepareConfig, state: &mut PrepareState) -> io::Result<()> {
+        use nix::sys::termios::SpecialCharacterIndices::*;
+
+        let mut tio = Termios::from(state.old_tio);
 
         tio.input_flags.remove(
             // Disable carriage return/line feed conversion
@@ -418,7 +432,7 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.report_signals = config.report_signals;
         self.reader.resume = Some(Resume{config});
 
-        Ok(state)
+        Ok(())
     }
 
     pub fn restore(&mut self, state: PrepareState) -> io::Result<()> {
@@ -431,39 +445,40 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.report_signals = state.prev_report_signals;
         self.reader.resume = state.prev_resume;
 
+        // Each step is taken even if another one fails;
+        // the first error is returned.
+        let mut res = Ok(());
+
         if let Some(mode) = state.old_mouse {
             let cur_mode = replace(&mut self.reader.mouse, mode);
-            writer.set_mouse(cur_mode, mode)?;
+            res = res.and(writer.set_mouse(cur_mode, mode));
         }
 
         if let Some(enable) = state.old_keypad {
             self.reader.keypad = enable;
-            writer.set_keypad(enable)?;
+            res = res.and(writer.set_keypad(enable));
         }
 
-        writer.flush()?;
+        res = res.and(writer.flush());
 
-        tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into()).map_err(nix_to_io)?;
+        res = res.and(tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into())
+            .map_err(nix_to_io));
 
-        unsafe {
-            if let Some(ref old) = state.old_sigcont {
-                sigaction(NixSignal::SIGCONT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigint {
-                sigaction(NixSignal::SIGINT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigtstp {
-                sigaction(NixSignal::SIGTSTP, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigquit {
-                sigaction(NixSignal::SIGQUIT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigwinch {
-                sigaction(NixSignal::SIGWINCH, old).map_err(nix_to_io)?;
+        let signals = [
+            (NixSignal::SIGCONT, state.old_sigcont),
+            (NixSignal::SIGINT, state.old_sigint),
+            (NixSignal::SIGTSTP, state.old_sigtstp),
+            (NixSignal::SIGQUIT, state.old_sigquit),
+            (NixSignal::SIGWINCH, state.old_sigwinch),
+        ];
+
+        for &(sig, ref old) in &signals {
+            if let Some(ref old) = *old {
+                res = res.and(unsafe { sigaction(sig, old) }.map(drop).map_err(nix_to_io));
             }
         }
 
-        Ok(())
+        res
     }
 
     pub fn wait_event(&mut self, timeout: Option<Duration>) -> io::Result<bool> {
@@ -661,7 +676,9 @@ impl<'a> TerminalReadGuard<'a> {
 
     fn resume(&mut self) -> io::Result<()> {
         if let Some(resume) = self.reader.resume {
-            let _ = self.prepare(resume.config)?;
+            let mut writer = self.term.lock_writer();
+            let mut state = self.current_state()?;
+            self.apply_config(&mut writer, resume.config, &mut state)?;
         }
         Ok(())
     }
-- 
2.43.0


From 5a0789b56672ff2ce25e0dc49c9db9c8010986d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 21/31] fix: report a resize without taking the write lock

---
 src/unix/terminal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index c0cef6e..6bb63e2 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -661,7 +661,8 @@ impl<'a> TerminalReadGuard<'a> {
                 self.resume()?;
             }
             Signal::Resize => {
-                let size = self.term.size()?;
+                // The caller may hold the write lock
+                let size = get_winsize(self.term.out_fd)?;
                 return Ok(Some(Event::Resize(size)));
             }
             _ => ()
-- 
2.43.0


From 6d01c00478b5e9648d84710857f0ab4e462ff1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 22/31] fix: restore the terminal on drop after a thread
 panicked holding a lock

---
 src/unix/screen.rs   |  9 +++++++--
 src/unix/terminal.rs | 12 ++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index f93f264..769a5bf 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -127,13 +127,18 @@ impl Screen {
 
 impl Drop for Screen {
     fn drop(&mut self) {
+        // The locks may be poisoned
+        let mut reader = self.term.lock_read().unwrap_or_else(|e| e.into_inner());
+        let mut writer = self.term.lock_write().unwrap_or_else(|e| e.into_inner());
+
         let res = if let Some(state) = self.state.take() {
-            self.term.restore(state)
+            reader.restore_with_lock(&mut writer, state)
         } else {
             Ok(())
         };
 
-        if let Err(e) = res.and_then(|_| self.term.exit_screen()) {
+        // Exit screen mode even if another step has failed
+        if let Err(e) = res.and(writer.exit_screen()) {
             eprintln!("failed to restore terminal: {}", e);
         }
     }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 6bb63e2..99fda6c 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -175,10 +175,6 @@ impl Terminal {
         self.lock_writer().enter_screen()
     }
 
-    pub fn exit_screen(&self) -> io::Result<()> {
-        self.lock_writer().exit_screen()
-    }
-
     pub fn prepare(&self, config: PrepareConfig) -> io::Result<PrepareState> {
         self.lock_reader().prepare(config)
     }
@@ -308,7 +304,11 @@ impl Terminal {
 
 impl Drop for Terminal {
     fn drop(&mut self) {
-        if let Err(e) = self.set_cursor_mode(CursorMode::Normal) {
+        // The lock may be poisoned
+        let res = self.lock_write().unwrap_or_else(|e| e.into_inner())
+            .set_cursor_mode(CursorMode::Normal);
+
+        if let Err(e) = res {
             eprintln!("failed to restore terminal: {}", e);
         }
 
@@ -780,7 +780,7 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
-    fn exit_screen(&mut self) -> io::Result<()> {
+    pub(crate) fn exit_screen(&mut self) -> io::Result<()> {
         if let Some(exit) = self.term.info.get::<cap::ExitCaMode>() {
             self.expand(exit.expand())?;
             self.flush()?;
-- 
2.43.0


From 91dd66f0e3aa09955f914a5f5fb4aa96cf37cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 23/31] fix: do not panic in drop when standard error is not
 writable

---
 src/unix/screen.rs   | 6 +++---
 src/unix/terminal.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 769a5bf..4566d2e 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::io::{self, Write};
 use std::sync::{LockResult, TryLockResult};
 #[cfg(not(mortal_verif))]
 use std::sync::{Mutex, MutexGuard};
@@ -139,7 +139,7 @@ impl Drop for Screen {
 
         // Exit screen mode even if another step has failed
         if let Err(e) = res.and(writer.exit_screen()) {
-            eprintln!("failed to restore terminal: {}", e);
+            let _ = writeln!(io::stderr(), "failed to restore terminal: {}", e);
         }
     }
 }
@@ -252,7 +252,7 @@ impl<'a> ScreenWriteGuard<'a> {
 impl<'a> Drop for ScreenWriteGuard<'a> {
     fn drop(&mut self) {
         if let Err(e) = self.refresh() {
-            eprintln!("failed to refresh screen: {}", e);
+            let _ = writeln!(io::stderr(), "failed to refresh screen: {}", e);
         }
     }
 }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 99fda6c..b0b7976 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1,6 +1,6 @@
 use std::convert::TryFrom;
 use std::fs::File;
-use std::io;
+use std::io::{self, Write};
 use std::mem::{replace, zeroed};
 use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
@@ -309,7 +309,7 @@ impl Drop for Terminal {
             .set_cursor_mode(CursorMode::Normal);
 
         if let Err(e) = res {
-            eprintln!("failed to restore terminal: {}", e);
+            let _ = writeln!(io::stderr(), "failed to restore terminal: {}", e);
         }
 
         if self.owned_fd {
@@ -1100,7 +1100,7 @@ impl<'a> TerminalWriteGuard<'a> {
 impl<'a> Drop for TerminalWriteGuard<'a> {
     fn drop(&mut self) {
         if let Err(e) = self.flush() {
-            eprintln!("failed to flush terminal: {}", e);
+            let _ = writeln!(io::stderr(), "failed to flush terminal: {}", e);
         }
     }
 }
-- 
2.43.0


From 9ffe4eb99fa785e40e478a597d2c18e2313d7de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 24/31] fix: do not panic on a screen without lines or columns

---
 src/buffer.rs        | 2 +-
 src/terminal.rs      | 6 +++---
 src/unix/terminal.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index d273e87..ab01507 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -552,7 +552,7 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
     if old != new {
         let mut new_buf = vec![Cell::default(); new.area()];
 
-        if !buf.is_empty() {
+        if !buf.is_empty() && !new_buf.is_empty() {
             let n_cols = old.columns.min(new.columns);
 
             for (old, new) in buf.chunks_mut(old.columns)
diff --git a/src/terminal.rs b/src/terminal.rs
index 8c96587..d3614f6 100644
--- a/src/terminal.rs
+++ b/src/terminal.rs
@@ -146,7 +146,7 @@ impl Cursor {
             if self.line == 0 {
                 None
             } else {
-                Some(Cursor{line: self.line - 1, column: size.columns - 1})
+                Some(Cursor{line: self.line - 1, column: size.columns.saturating_sub(1)})
             }
         } else {
             Some(Cursor{line: self.line, column: self.column - 1})
@@ -166,8 +166,8 @@ impl Cursor {
     #[inline]
     pub fn last(size: Size) -> Cursor {
         Cursor{
-            line: size.lines - 1,
-            column: size.columns - 1,
+            line: size.lines.saturating_sub(1),
+            column: size.columns.saturating_sub(1),
         }
     }
 
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b0b7976..b94ffb1 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -767,7 +767,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 }
 
                 self.expand(scroll.expand()
-                    .parameters(0, to_u32(size.lines - 1)))?;
+                    .parameters(0, to_u32(size.lines.saturating_sub(1))))?;
                 self.expand(home.expand())?;
             }
             (_, None, _) => return Err(not_supported("change_scroll_region")),
-- 
2.43.0


From 809d1cab99cd6b1b0a2b5f558c116105c10883b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 25/31] fix: removing underline on terminals which reset all
 attributes to do so

---
 src/unix/terminal.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b94ffb1..952d18f 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -855,9 +855,18 @@ impl<'a> TerminalWriteGuard<'a> {
     pub fn remove_style(&mut self, style: Style) -> io::Result<()> {
         let remove = style & self.writer.cur_style;
 
-        if remove.intersects(Style::BOLD | Style::REVERSE) {
-            // terminfo does not contain entries to remove bold or reverse.
-            // Instead, we must reset all attributes.
+        // terminfo does not contain entries to remove bold or reverse.
+        // Some terminals reset all attributes to remove italics or underline.
+        let reset = remove.intersects(Style::BOLD | Style::REVERSE) ||
+            (remove.contains(Style::ITALIC) &&
+                self.term.info.get::<cap::ExitItalicsMode>()
+                    .map_or(false, |seq| resets_attributes(seq.as_ref()))) ||
+            (remove.contains(Style::UNDERLINE) &&
+                self.term.info.get::<cap::ExitUnderlineMode>()
+                    .map_or(false, |seq| resets_attributes(seq.as_ref())));
+
+        if reset {
+            // All attributes are reset and those which remain are set again.
             let new_style = self.writer.cur_style - remove;
             let fg = self.writer.fg;
             let bg = self.writer.bg;
@@ -1235,6 +1244,11 @@ fn nix_to_io(e: nix::Error) -> io::Error {
     io::Error::from_raw_os_error(e as i32)
 }
 
+/// Returns whether a control sequence resets all attributes.
+fn resets_attributes(seq: &[u8]) -> bool {
+    seq.starts_with(b"\x1b[m") || seq.starts_with(b"\x1b[0m")
+}
+
 fn ti_to_io(e: terminfo::Error) -> io::Error {
     match e {
         terminfo::Error::Io(e) => e,
-- 
2.43.0


From 971b8a730e745df0489a61c15cc38e0341f90331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 26/31] fix: do not write padding times of terminal
 capabilities to the terminal

---
 src/unix/terminal.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 952d18f..f711cd7 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1099,10 +1099,16 @@ impl<'a> TerminalWriteGuard<'a> {
 
     fn expand<T: AsRef<[u8]>>(&mut self, exp: Expansion<T>) -> io::Result<()> {
         let writer = &mut *self.writer;
+        let start = writer.out_buffer.len();
+
         exp
             .with(&mut writer.context)
             .to(&mut writer.out_buffer)
-            .map_err(ti_to_io)
+            .map_err(ti_to_io)?;
+
+        remove_padding(&mut writer.out_buffer, start);
+
+        Ok(())
     }
 }
 
@@ -1244,6 +1250,23 @@ fn nix_to_io(e: nix::Error) -> io::Error {
     io::Error::from_raw_os_error(e as i32)
 }
 
+/// Removes the padding times, e.g. `$<5>`, from the control sequence which begins at `start`.
+/// They are meant for the writer and not for the terminal, which would display them.
+fn remove_padding(buf: &mut Vec<u8>, start: usize) {
+    let mut pos = start;
+
+    while pos < buf.len() {
+        if buf[pos..].starts_with(b"$<") {
+            if let Some(n) = buf[pos..].iter().position(|&b| b == b'>') {
+                buf.drain(pos..pos + n + 1);
+                continue;
+            }
+        }
+
+        pos += 1;
+    }
+}
+
 /// Returns whether a control sequence resets all attributes.
 fn resets_attributes(seq: &[u8]) -> bool {
     seq.starts_with(b"\x1b[m") || seq.starts_with(b"\x1b[0m")
-- 
2.43.0


From 422c75089e95069b7aede649c1ee8a97d45beab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 27/31] fix: do not scroll when moving up on the first line

---
 src/unix/terminal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index f711cd7..9ada072 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -967,7 +967,9 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 
     pub fn move_up(&mut self, n: usize) -> io::Result<()> {
-        if n == 1 {
+        // Prefer ParmUpCursor because CursorUp scrolls on some terminals
+        // when the cursor is on the first line.
+        if n == 1 && self.term.info.get::<cap::ParmUpCursor>().is_none() {
             expand_req!(self, cap::CursorUp, "cursor_up")?;
         } else if n != 0 {
             expand_req!(self, cap::ParmUpCursor, "parm_cursor_up",
-- 
2.43.0


From 73d154e96709df799c991897f653ae6182e27fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 28/31] fix: do not overflow the line of a cursor set far
 outside of the screen

---
 src/buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index ab01507..0e5d17a 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -64,7 +64,8 @@ impl ScreenBuffer {
     }
 
     pub fn next_line(&mut self, column: usize) {
-        self.cursor.line += 1;
+        // The cursor may have been set far outside of the screen
+        self.cursor.line = self.cursor.line.saturating_add(1);
         self.cursor.column = column;
     }
 
@@ -178,8 +179,7 @@ impl ScreenBuffer {
         } else if ch == '\r' {
             self.cursor.column = 0;
         } else if ch == '\n' {
-            self.cursor.line += 1;
-            self.cursor.column = 0;
+            self.next_line(0);
         } else if is_combining_mark(ch) {
             if let Some(mut prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
-- 
2.43.0


From 4148841dac0a72681150e330477fc58519a36954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:19 +0000
Subject: [PATCH 29/31] fix: notice a change of the size while a screen is
 opened

The size was read before signals were handled, so that a change between the two
was never reported and the screen kept the old size.
---
 src/unix/screen.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 4566d2e..ed4e26f 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -39,9 +39,17 @@ struct Writer {
 
 impl Screen {
     pub fn new(term: Terminal, config: PrepareConfig) -> io::Result<Screen> {
-        let size = term.size()?;
         let state = term.prepare(config)?;
 
+        // A change of the size from here on is reported as an event
+        let size = match term.size() {
+            Ok(size) => size,
+            Err(e) => {
+                let _ = term.restore(state);
+                return Err(e);
+            }
+        };
+
         let screen = Screen{
             term: term,
             state: Some(state),
-- 
2.43.0


From 08649fcaa1d2a81baae8abb6183ea5dad6808c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 30/31] fix: remove a style which has no sequence of its own to
 end it

---
 src/unix/terminal.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 9ada072..e6d375e 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -856,14 +856,15 @@ impl<'a> TerminalWriteGuard<'a> {
         let remove = style & self.writer.cur_style;
 
         // terminfo does not contain entries to remove bold or reverse.
-        // Some terminals reset all attributes to remove italics or underline.
+        // Some terminals reset all attributes to remove italics or underline;
+        // others have no sequence to remove them.
         let reset = remove.intersects(Style::BOLD | Style::REVERSE) ||
             (remove.contains(Style::ITALIC) &&
                 self.term.info.get::<cap::ExitItalicsMode>()
-                    .map_or(false, |seq| resets_attributes(seq.as_ref()))) ||
+                    .map_or(true, |seq| resets_attributes(seq.as_ref()))) ||
             (remove.contains(Style::UNDERLINE) &&
                 self.term.info.get::<cap::ExitUnderlineMode>()
-                    .map_or(false, |seq| resets_attributes(seq.as_ref())));
+                    .map_or(true, |seq| resets_attributes(seq.as_ref())));
 
         if reset {
             // All attributes are reset and those which remain are set again.
-- 
2.43.0


From b4f898528652f6b77dcda79b33df7466b18ee986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:57 +0000
Subject: [PATCH 31/31] Report operations on atomic values to the observer
 behind cfg(mortal_verif)

---
 src/unix/terminal.rs |  6 ++--
 src/verif.rs         | 85 ++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 86 insertions(+), 5 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index e6d375e..8e9befc 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -5,7 +5,9 @@ use std::mem::{replace, zeroed};
 use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
 use std::str::from_utf8;
-use std::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(not(mortal_verif))]
+use std::sync::atomic::AtomicUsize;
+use std::sync::atomic::Ordering;
 use std::sync::{LockResult, TryLockResult};
 #[cfg(not(mortal_verif))]
 use std::sync::{Mutex, MutexGuard};
@@ -45,7 +47,7 @@ use crate::terminal::{
 };
 use crate::util::prefixes;
 #[cfg(mortal_verif)]
-use crate::verif::{Mutex, MutexGuard};
+use crate::verif::{AtomicUsize, Mutex, MutexGuard};
 
 const OUT_BUFFER_SIZE: usize = 8192;
 
diff --git a/src/verif.rs b/src/verif.rs
index 08b2025..8339121 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,10 +1,11 @@
 //! Verification hooks, compiled only with `--cfg mortal_verif`.
 //!
-//! Provides a `Mutex` that reports its lock operations to an observer.
+//! Provides a `Mutex` that reports its lock operations to an observer,
+//! and an `AtomicUsize` that calls one after each operation.
 
 use std::fmt;
 use std::ops::{Deref, DerefMut};
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::atomic::{self, Ordering};
 use std::sync::{self, LockResult, PoisonError, RwLock, TryLockError, TryLockResult};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
@@ -20,7 +21,7 @@ pub enum LockEvent {
 pub type Hook = fn(LockEvent, usize);
 
 static HOOK: RwLock<Option<Hook>> = RwLock::new(None);
-static NEXT_ID: AtomicUsize = AtomicUsize::new(0);
+static NEXT_ID: atomic::AtomicUsize = atomic::AtomicUsize::new(0);
 
 /// Installs the observer and restarts the numbering of mutexes.
 pub fn set_hook(hook: Option<Hook>) {
@@ -139,3 +140,81 @@ impl<'a, T> Drop for MutexGuard<'a, T> {
         report(LockEvent::Released, self.id);
     }
 }
+
+pub type AtomicHook = fn();
+
+// Read by signal handlers; no locks may be used
+static ATOMIC_HOOK: atomic::AtomicPtr<()> = atomic::AtomicPtr::new(std::ptr::null_mut());
+
+/// Installs the observer of operations on atomic values.
+pub fn set_atomic_hook(hook: Option<AtomicHook>) {
+    ATOMIC_HOOK.store(hook.map_or(std::ptr::null_mut(), |f| f as *mut ()), Ordering::SeqCst);
+}
+
+fn observed<T>(t: T) -> T {
+    let hook = ATOMIC_HOOK.load(Ordering::SeqCst);
+    if !hook.is_null() {
+        (unsafe { std::mem::transmute::<*mut (), AtomicHook>(hook) })();
+    }
+    t
+}
+
+#[derive(Debug, Default)]
+pub struct AtomicUsize(atomic::AtomicUsize);
+
+macro_rules! observed_methods {
+    ( $( $name:ident ( $( $arg:ident : $ty:ty ),* ) -> $ret:ty ; )* ) => {
+        impl AtomicUsize {
+            $( pub fn $name(&self, $( $arg: $ty ),*) -> $ret {
+                observed(self.0.$name($( $arg ),*))
+            } )*
+        }
+    }
+}
+
+observed_methods!{
+    load(o: Ordering) -> usize;
+    store(n: usize, o: Ordering) -> ();
+    swap(n: usize, o: Ordering) -> usize;
+    compare_exchange(a: usize, b: usize, o: Ordering, p: Ordering) -> Result<usize, usize>;
+    compare_exchange_weak(a: usize, b: usize, o: Ordering, p: Ordering) -> Result<usize, usize>;
+    fetch_add(n: usize, o: Ordering) -> usize;
+    fetch_sub(n: usize, o: Ordering) -> usize;
+    fetch_and(n: usize, o: Ordering) -> usize;
+    fetch_nand(n: usize, o: Ordering) -> usize;
+    fetch_or(n: usize, o: Ordering) -> usize;
+    fetch_xor(n: usize, o: Ordering) -> usize;
+    fetch_max(n: usize, o: Ordering) -> usize;
+    fetch_min(n: usize, o: Ordering) -> usize;
+}
+
+impl AtomicUsize {
+    pub const fn new(n: usize) -> AtomicUsize {
+        AtomicUsize(atomic::AtomicUsize::new(n))
+    }
+
+    pub fn fetch_update<F>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<usize, usize>
+            where F: FnMut(usize) -> Option<usize> {
+        let mut old = self.load(fetch);
+
+        loop {
+            let new = match f(old) {
+                Some(n) => n,
+                None => return Err(old)
+            };
+
+            match self.compare_exchange(old, new, set, fetch) {
+                Ok(n) => return Ok(n),
+                Err(n) => old = n
+            }
+        }
+    }
+
+    pub fn get_mut(&mut self) -> &mut usize {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> usize {
+        self.0.into_inner()
+    }
+}
-- 
2.43.0

