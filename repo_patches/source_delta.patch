From 08634b0df67350b9012e49f431c079eb087e4605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 01/46] fix: keep the heartbeat thread alive after its first
 deadline

---
 src/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 0237cf9..97746d0 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1371,7 +1371,7 @@ fn tty_worker(
                     if !deadlines.is_empty() && now >= deadlines[0] {
                         deadlines.remove(0);
                         match req_tx_clone.send(Request::Heartbeat) {
-                            Ok(_) => break,
+                            Ok(_) => (),
                             Err(_) => return,
                         }
                     }
-- 
2.43.0


From 9dd4d3bffe8d86a98faae25f430c4cf7d1a1ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 02/46] fix: let each notice expire at its own deadline

---
 src/worker.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 97746d0..89b8038 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1377,9 +1377,14 @@ fn tty_worker(
                     }
                     if !deadlines.is_empty() {
                         use std::sync::mpsc::RecvTimeoutError;
-                        let interval = deadlines[0] - now;
+                        let interval =
+                            deadlines[0].saturating_duration_since(now);
                         match ded_rx.recv_timeout(interval) {
-                            Ok(x) => deadlines.push(x),
+                            Ok(x) => {
+                                // the earliest deadline must come first
+                                deadlines.push(x);
+                                deadlines.sort_unstable();
+                            }
                             Err(RecvTimeoutError::Timeout) => (),
                             Err(RecvTimeoutError::Disconnected) => return,
                         }
-- 
2.43.0


From 81ef73d036a493cee304e60b07fada6e963b458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 03/46] fix: accept notices with very long durations

---
 src/worker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 89b8038..28cd87b 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1163,7 +1163,11 @@ impl TtyState {
         ded_tx: &mut std_mpsc::SyncSender<Instant>,
     ) -> LifeOrDeath {
         self.rollout_needed = true;
-        let deadline = Instant::now() + duration;
+        let now = Instant::now();
+        // A duration too long to represent is, for our purposes, forever.
+        let deadline = now.checked_add(duration).unwrap_or_else(|| {
+            now + Duration::from_secs(60 * 60 * 24 * 365 * 30)
+        });
         self.notice = Some((line, deadline));
         ded_tx.send(deadline)?;
         Ok(())
-- 
2.43.0


From 293cc29e416ad5499f1506e9e26744a0266f9055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 04/46] fix: prompt() applies input_allowed and clear_input in
 every case

---
 src/worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 28cd87b..f5dea18 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -618,7 +618,8 @@ impl TtyState {
                 clear_input,
             } => {
                 if self.prompt != line
-                    || (clear_input && !self.input.is_empty())
+                    || self.input_allowed != input_allowed
+                    || clear_input
                 {
                     self.rollout_needed = true;
                     self.prompt = line;
-- 
2.43.0


From 9e22e32c3aaee6672b5ce1aa051501f0b6c322ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 05/46] fix: reset the input cursor when prompt() clears the
 input

---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index f5dea18..959cb4d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -626,6 +626,7 @@ impl TtyState {
                     self.input_allowed = input_allowed;
                     if clear_input {
                         self.input.clear();
+                        self.input_cursor = 0;
                         #[cfg(feature = "history")]
                         {
                             self.cur_history_index = None;
-- 
2.43.0


From 65601ca4e97e3996d09b7530b760aaf2c033c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 06/46] fix: any key dismisses a notice

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 959cb4d..5654069 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -967,6 +967,7 @@ impl TtyState {
             return Ok(());
         }
         for ch in input.chars() {
+            self.dismiss_notice()?;
             #[cfg(feature = "completion")]
             if ch == '\t' {
                 self.consecutive_completion_presses =
@@ -1050,6 +1051,7 @@ impl TtyState {
             Event::Mouse(..) => (),
             Event::Key(k) => {
                 use crossterm::event::{KeyCode, KeyModifiers};
+                self.dismiss_notice()?;
                 if k.modifiers.contains(KeyModifiers::CONTROL) {
                     #[cfg(feature = "completion")]
                     if k.code == KeyCode::Char('i') {
-- 
2.43.0


From 3fe12a8e86c10d93ade617facd17383cfb728c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 07/46] fix: history navigation survives a concurrent
 swap_history

---
 src/worker.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 5654069..ad33671 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1181,8 +1181,8 @@ impl TtyState {
         let history = self.history.read().unwrap();
         let prev_history_index = match self.cur_history_index {
             None => history.get_lines().len().checked_sub(1),
-            Some(x) if x > 0 => Some(x - 1),
-            _ => None,
+            // the history may have been replaced by a shorter one since
+            Some(x) => x.min(history.get_lines().len()).checked_sub(1),
         };
         match prev_history_index {
             None => {
@@ -1203,7 +1203,7 @@ impl TtyState {
         }
         self.history_original_line = self
             .cur_history_index
-            .map(|i| history.get_lines()[i].clone());
+            .and_then(|i| history.get_lines().get(i).cloned());
         Ok(())
     }
     #[cfg(feature = "history")]
@@ -1214,10 +1214,10 @@ impl TtyState {
                 let mut term = self.term.borrow_mut();
                 term.bell()?;
             }
-            Some(x) if x + 1 == history.get_lines().len() => {
-                assert!(self.orphaned_new_input.is_some());
+            Some(x) if x + 1 >= history.get_lines().len() => {
                 self.rollout_needed = true;
-                self.input = self.orphaned_new_input.take().unwrap();
+                self.input =
+                    self.orphaned_new_input.take().unwrap_or_default();
                 self.input_cursor = self.input.len();
                 self.cur_history_index = None;
             }
@@ -1236,7 +1236,7 @@ impl TtyState {
         }
         self.history_original_line = self
             .cur_history_index
-            .map(|i| history.get_lines()[i].clone());
+            .and_then(|i| history.get_lines().get(i).cloned());
         Ok(())
     }
     #[cfg(unix)]
-- 
2.43.0


From 7c11621125e70df9b9d9a1bc4b391abdd84596c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 08/46] fix: send output (such as a bell) that needs no redraw

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index ad33671..d25500d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1317,6 +1317,8 @@ impl TtyState {
     }
     pub fn rollout(&mut self) -> LifeOrDeath {
         if !self.rollout_needed {
+            // there may still be output (such as a bell) to be sent
+            self.term.borrow_mut().flush()?;
             return Ok(());
         }
         self.rollout_needed = false;
-- 
2.43.0


From db7c31d2513022ceb9c8972ed2414bbcece4eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 09/46] fix: draw the input line after the very first request

---
 src/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index d25500d..518d694 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1414,7 +1414,7 @@ fn tty_worker(
         input: String::new(),
         input_cursor: 0,
         term: RefCell::new(term),
-        rollout_needed: false,
+        rollout_needed: true,
         clipboard: String::new(),
         #[cfg(feature = "history")]
         history,
-- 
2.43.0


From 47e8ac716675329b4895d929705e2d6913d53dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 10/46] fix: wrap_to_width finds linebreaks by byte, not
 character, position

---
 src/line.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 275ba0b..8da8508 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -389,8 +389,7 @@ impl Line {
         assert!(width > 0);
         let newline_positions: Vec<usize> = self
             .text
-            .chars()
-            .enumerate()
+            .char_indices()
             .filter_map(|(n, c)| if c == '\n' { Some(n) } else { None })
             .chain(Some(self.text.len()))
             .collect();
-- 
2.43.0


From fbc16b71a0e3ef1f9bdaa95db9c85af23b139c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 11/46] fix: wrap_to_width adjusts every element after the edit

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 8da8508..3f4986e 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -473,7 +473,7 @@ impl Line {
                     continue;
                 }
             }
-            if element.start >= range.start {
+            if element.start < range.start {
                 break; // all subsequent elements will be before the edit
             }
         }
-- 
2.43.0


From a8023d2ed5e8a983080cacc93e025778043317dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 12/46] fix: reset attributes when the background returns to
 default

---
 src/term/cross.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index a94032c..e4bae87 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -290,7 +290,7 @@ impl Term for Crossterminal {
     ) -> LifeOrDeath {
         if self.cur_style != style
             || (self.cur_fg != fg && fg.is_none())
-            || (self.cur_bg != bg && fg.is_none())
+            || (self.cur_bg != bg && bg.is_none())
         {
             queue!(self.stdout, style::SetAttribute(CtAttribute::Reset))?;
             // TODO: check if this is needed
-- 
2.43.0


From 05b6e47015a4359a5c8251aca95e750e7fb645c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 13/46] fix: invalid UTF-8 on the terminal decodes to U+FFFD
 instead of panicking

---
 src/term/cross.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index e4bae87..4f54424 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -147,7 +147,6 @@ fn input_thread(
                     // Read more data before sending this along
                     break;
                 }
-                let mut code = (b & (0b1111111 >> num_bytes_needed)) as u32;
                 for i in 1..num_bytes_needed {
                     if buf[start + i] < 0x80 || buf[start + i] >= 0xC0 {
                         start += i;
@@ -162,12 +161,15 @@ fn input_thread(
                         req_tx.send(Request::CrosstermEvent(event))?;
                         continue 'processing;
                     }
-                    code = (code << 6) | (buf[start + i] & 0x3F) as u32;
                 }
+                // send the decoded character; overlong sequences, surrogates,
+                // and values out of range don't decode to any character
+                let seq = &buf[start..start + num_bytes_needed];
                 start += num_bytes_needed;
-                // send the decoded character
-                let code = if code > 0x10FFFF { 0xFFFD } else { code };
-                let ch = char::from_u32(code).unwrap();
+                let ch = std::str::from_utf8(seq)
+                    .ok()
+                    .and_then(|x| x.chars().next())
+                    .unwrap_or('\u{fffd}');
                 let event = KeyEvent {
                     code: event::KeyCode::Char(ch),
                     modifiers: event::KeyModifiers::empty(),
-- 
2.43.0


From 297bdac5086dc9cead1907cccd180d59799c30e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 14/46] fix: skip meta bytes on VT52 instead of spinning

---
 src/term/vt52.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b9fdfbf..9a1af3c 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -85,6 +85,7 @@ fn input_thread(
             } else if buf[start] >= 0x80 {
                 // We have to discard the meta bytes we receive
                 // TODO: are these sent sometimes?
+                start += 1;
             } else {
                 let mut text_end = start + 1;
                 while text_end < buf.len()
-- 
2.43.0


From ea97381202f0e72a1e10a7d1f3cccccc380a822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 15/46] fix: interrupt the thread that reads stdin on VT52, not
 the other one

---
 src/term/vt52.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 9a1af3c..336cfe7 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -136,6 +136,12 @@ impl Vt52 {
         };
         let (input_tx, input_rx) = std_mpsc::sync_channel(1);
         std::thread::Builder::new()
+            .name("Liso input processing thread".to_owned())
+            .spawn(move || {
+                let _ = input_thread(input_rx, req_tx);
+            })
+            .unwrap();
+        let input_thread = std::thread::Builder::new()
             .name("Liso raw stdin thread".to_owned())
             .spawn(move || {
                 let stdin = std::io::stdin();
@@ -155,12 +161,6 @@ impl Vt52 {
                 }
             })
             .unwrap();
-        let input_thread = std::thread::Builder::new()
-            .name("Liso input processing thread".to_owned())
-            .spawn(move || {
-                let _ = input_thread(input_rx, req_tx);
-            })
-            .unwrap();
         let stdout = std::io::stdout();
         let mut ret = Vt52 {
             stdout,
-- 
2.43.0


From 84983f9bad891c333918972e7785680c4366ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 16/46] fix: print_char on VT52 takes as many columns as the
 character

---
 src/term/vt52.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 336cfe7..7c0094b 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -276,7 +276,10 @@ impl Term for Vt52 {
     }
     fn print_char(&mut self, ch: char) -> LifeOrDeath {
         if ch >= '\u{0080}' {
-            self.stdout.write_all(b"\x7F")?;
+            let width = UnicodeWidthChar::width(ch).unwrap_or(0);
+            for _ in 0..width {
+                self.stdout.write_all(b"\x7F")?;
+            }
         } else {
             self.stdout.write_all(&[ch as u8])?;
         }
-- 
2.43.0


From 0ca957b98f3c67c9c3382aa5907a5776a00f68c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 17/46] fix: keep track of the colors a VT52 actually shows

---
 src/term/vt52.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 7c0094b..31d432b 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -167,8 +167,9 @@ impl Vt52 {
             old_hook: None,
             suspended: true,
             cur_style: Style::PLAIN,
-            cur_fg: num_colors - 1,
-            cur_bg: 0,
+            // the colors that unsuspend selects
+            cur_fg: if white_on_black { 0 } else { 15 },
+            cur_bg: if white_on_black { 15 } else { 0 },
             num_colors,
             white_on_black,
             input_thread: InterruptibleStdinThread::new(input_thread),
@@ -402,6 +403,14 @@ impl Term for Vt52 {
             default_hook(info)
         }));
         terminal::enable_raw_mode()?;
+        if self.white_on_black {
+            self.cur_fg = 0;
+            self.cur_bg = 15;
+        } else {
+            self.cur_fg = 15;
+            self.cur_bg = 0;
+        }
+        self.cur_style = Style::PLAIN;
         self.suspended = false;
         self.old_hook = Some(old_hook);
         Ok(())
-- 
2.43.0


From d52e49a20255f94bbdb7e4fb69507d35ff9570a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 18/46] fix: move a wide character that doesn't fit to the next
 row

---
 src/worker.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 518d694..dd12fe0 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -125,7 +125,9 @@ impl TtyState {
             for (idx, ch) in text.char_indices() {
                 let char_width =
                     UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
-                if (char_width > 0 && cur_column >= term_width) || ch == '\n' {
+                if (char_width > 0 && cur_column + char_width > term_width)
+                    || ch == '\n'
+                {
                     if cur != idx {
                         term.print(&text[cur..idx])?;
                     }
@@ -245,6 +247,20 @@ impl TtyState {
         }
         let ch = lc.ch;
         let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
+        if char_width > 1 && *cur_column + char_width > term_width {
+            // a wide character that doesn't fit goes on the next row
+            if cur_attr.0.contains(Style::INVERSE)
+                || cur_attr.0.contains(Style::UNDERLINE)
+                || cur_attr.2.is_some()
+            {
+                term.print_spaces((term_width - *cur_column) as usize)?;
+            } else {
+                term.clear_to_end_of_line()?;
+            }
+            term.newline()?;
+            *cur_breaks += 1;
+            *cur_column = 0;
+        }
         if ch != '\n' {
             term.print_char(ch)?;
             *cur_column += char_width;
@@ -281,6 +297,10 @@ impl TtyState {
     ) -> LifeOrDeath {
         let ch = lc.ch;
         let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
+        if char_width > 1 && *cur_column + char_width > term_width {
+            *cur_breaks += 1;
+            *cur_column = 0;
+        }
         if ch != '\n' {
             *cur_column += char_width;
             *implied_newline = false;
-- 
2.43.0


From 8289592509237a1a59355544c960d59d355bc096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 19/46] fix: redraw the rest of the live area after a character
 of another width

---
 src/worker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index dd12fe0..bf56817 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -397,7 +397,10 @@ impl TtyState {
                         cur_column,
                         cur_breaks,
                     )?;
-                    if (a.ch == '\n') != (b.ch == '\n') {
+                    if (a.ch == '\n') != (b.ch == '\n')
+                        || UnicodeWidthChar::width(a.ch)
+                            != UnicodeWidthChar::width(b.ch)
+                    {
                         // Simpler at this point just to clear everything.
                         term.clear_forward_and_reset()?;
                         cur_attr = (Style::empty(), None, None);
-- 
2.43.0


From d035fad42b9c1b739cf52576491d6548c2cce6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 20/46] fix: treat a terminal of unknown (zero) width as 80
 columns wide

---
 src/term/cross.rs | 6 +++++-
 src/term/vt52.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 4f54424..d8c5adb 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -416,7 +416,11 @@ impl Term for Crossterminal {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        match terminal::size() {
+            // some terminals don't know their size, and report zero
+            Ok((0, _)) | Err(_) => 80,
+            Ok((width, _)) => width as u32,
+        }
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 31d432b..b0d32f3 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -370,7 +370,11 @@ impl Term for Vt52 {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        match terminal::size() {
+            // some terminals don't know their size, and report zero
+            Ok((0, _)) | Err(_) => 80,
+            Ok((width, _)) => width as u32,
+        }
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
-- 
2.43.0


From 3fd829c170e97dccac73da0c376b1a796ffe1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 21/46] fix: don't hold back keys that follow a broken UTF-8
 sequence

---
 src/term/cross.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index d8c5adb..35d4a97 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -143,11 +143,11 @@ fn input_thread(
                     start += 1;
                     continue;
                 };
-                if (buf.len() - start) < num_bytes_needed {
-                    // Read more data before sending this along
-                    break;
-                }
                 for i in 1..num_bytes_needed {
+                    if start + i >= buf.len() {
+                        // Read more data before sending this along
+                        break 'processing;
+                    }
                     if buf[start + i] < 0x80 || buf[start + i] >= 0xC0 {
                         start += i;
                         // send the replacement character
-- 
2.43.0


From ad035395da2aba76fba385ceb6dd5a432de7cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 22/46] fix: don't let the background color leak into rows
 scrolled in

---
 src/worker.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index bf56817..8e8cb24 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -257,7 +257,11 @@ impl TtyState {
             } else {
                 term.clear_to_end_of_line()?;
             }
+            // terminals fill the row a newline scrolls in with the current
+            // background color
+            term.set_attrs(Style::empty(), None, None)?;
             term.newline()?;
+            term.set_attrs(lc.style, lc.fg, lc.bg)?;
             *cur_breaks += 1;
             *cur_column = 0;
         }
@@ -280,6 +284,8 @@ impl TtyState {
                     term.clear_to_end_of_line()?;
                 }
             }
+            term.set_attrs(Style::empty(), None, None)?;
+            *cur_attr = (Style::empty(), None, None);
             term.newline()?;
             *implied_newline = ch != '\n';
             *cur_breaks += 1;
-- 
2.43.0


From f40a7f32b9df1dbfc2fda3e1d9980137a0594cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 23/46] fix: erase the fill of the old live area when the new
 one has none

---
 src/worker.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 8e8cb24..d73c872 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -364,6 +364,16 @@ impl TtyState {
             .remembered_output
             .as_ref()
             .map(|x| x.output_line.chars());
+        let old_trailit = self
+            .remembered_output
+            .as_ref()
+            .and_then(|x| x.output_line.elements.last())
+            .map(|el| {
+                el.style.contains(Style::INVERSE)
+                    || el.style.contains(Style::UNDERLINE)
+                    || el.bg.is_some()
+            })
+            .unwrap_or(false);
         let mut cur_attr = (Style::empty(), None, None);
         let mut cur_column = 0;
         let mut cur_breaks = 0;
@@ -557,6 +567,18 @@ impl TtyState {
                 term.print_spaces((term_width - cur_column) as usize)?;
                 cur_column = term_width;
                 real_column = cur_column;
+            } else if !trailit && old_trailit && cur_column < term_width {
+                // nothing has erased the fill at the end of the old line
+                self.reconcile_cursors(
+                    &mut term,
+                    term_width,
+                    &mut real_column,
+                    &mut real_breaks,
+                    cur_column,
+                    cur_breaks,
+                )?;
+                term.set_attrs(Style::empty(), None, None)?;
+                term.clear_to_end_of_line()?;
             }
         }
         term.set_attrs(Style::empty(), None, None)?;
-- 
2.43.0


From 95da206724fe539d0a1d761152e4e81206127158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:27 +0000
Subject: [PATCH 24/46] fix: clear the rows below when the live area shrinks to
 one column short of a row

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index d73c872..bad4bf0 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -481,6 +481,8 @@ impl TtyState {
                             && cur_column + 1 == term_width
                         {
                             term.print_spaces(1)?;
+                            // (there may be more on the rows below)
+                            term.clear_forward_and_reset()?;
                         } else if cur_column == term_width {
                             term.newline()?;
                             term.clear_forward_and_reset()?;
-- 
2.43.0


From 05c80fa19bff9a7acedab84af272b4c9c5b3ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:11 +0000
Subject: [PATCH 25/46] fix: losing the terminal ends the instance

When reading the terminal failed, or it was hung up, only the input
threads ended. The program was never told, and a program waiting for a
response waited for ever.
---
 src/term/cross.rs | 14 ++++++++++----
 src/term/vt52.rs  |  8 ++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 35d4a97..560542b 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -22,7 +22,7 @@ pub(crate) struct Crossterminal {
 
 fn parse_csi_sequence(
     seq: &[u8],
-    req_tx: &mut std_mpsc::Sender<Request>,
+    req_tx: &std_mpsc::Sender<Request>,
 ) -> LifeOrDeath {
     use event::KeyCode;
     let code = match seq {
@@ -48,7 +48,7 @@ fn parse_csi_sequence(
 
 fn input_thread(
     input_rx: std_mpsc::Receiver<Vec<u8>>,
-    mut req_tx: std_mpsc::Sender<Request>,
+    req_tx: &std_mpsc::Sender<Request>,
 ) -> LifeOrDeath {
     let mut buf = Vec::new();
     loop {
@@ -101,7 +101,7 @@ fn input_thread(
                             Some(end) => {
                                 parse_csi_sequence(
                                     &buf[start + 1..end],
-                                    &mut req_tx,
+                                    req_tx,
                                 )?;
                                 start = end;
                             }
@@ -237,6 +237,8 @@ impl Crossterminal {
                             break;
                         }
                     }
+                    // there will never be input again
+                    let _ = req_tx.send(Request::Die);
                 })
                 .unwrap()
         } else {
@@ -244,7 +246,11 @@ impl Crossterminal {
             std::thread::Builder::new()
                 .name("Liso input processing thread".to_owned())
                 .spawn(move || {
-                    let _ = input_thread(input_rx, req_tx);
+                    let _ = input_thread(input_rx, &req_tx);
+                    // the terminal is gone, there will never be input again
+                    // (if we get here because we're shutting down already,
+                    // this does nothing)
+                    let _ = req_tx.send(Request::Die);
                 })
                 .unwrap();
             std::thread::Builder::new()
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b0d32f3..474d70e 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -26,7 +26,7 @@ pub(crate) struct Vt52 {
 
 fn input_thread(
     input_rx: std_mpsc::Receiver<Vec<u8>>,
-    req_tx: std_mpsc::Sender<Request>,
+    req_tx: &std_mpsc::Sender<Request>,
 ) -> LifeOrDeath {
     let mut buf = Vec::new();
     loop {
@@ -138,7 +138,11 @@ impl Vt52 {
         std::thread::Builder::new()
             .name("Liso input processing thread".to_owned())
             .spawn(move || {
-                let _ = input_thread(input_rx, req_tx);
+                let _ = input_thread(input_rx, &req_tx);
+                // the terminal is gone, there will never be input again
+                // (if we get here because we're shutting down already, this
+                // does nothing)
+                let _ = req_tx.send(Request::Die);
             })
             .unwrap();
         let input_thread = std::thread::Builder::new()
-- 
2.43.0


From 69d5984ba1ddfd133d7b1dec73ff924451457127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:38 +0000
Subject: [PATCH 26/46] fix: failing terminals are cleaned up after, too

When writing to the terminal (or setting it up) failed, Liso's thread
ended right there: raw mode stayed on, Liso's panic hook stayed installed,
and its thread kept consuming stdin.
---
 src/term/cross.rs | 51 ++++++++++++++++++++++++++-----------------
 src/term/vt52.rs  | 55 ++++++++++++++++++++++++++++-------------------
 src/worker.rs     | 50 ++++++++++++++++++++++++++++++++++++------
 3 files changed, 108 insertions(+), 48 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 560542b..2273fe7 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -284,8 +284,13 @@ impl Crossterminal {
             cur_bg: None,
             input_thread: InterruptibleStdinThread::new(input_thread),
         };
-        ret.unsuspend()?;
-        Ok(ret)
+        match ret.unsuspend() {
+            Ok(()) => Ok(ret),
+            Err(x) => {
+                let _ = ret.cleanup();
+                Err(x)
+            }
+        }
     }
 }
 
@@ -434,14 +439,6 @@ impl Term for Crossterminal {
     }
     fn unsuspend(&mut self) -> LifeOrDeath {
         assert!(self.suspended);
-        // queue, but don't actually output anything until the first command...
-        queue!(
-            self.stdout,
-            cursor::Hide,
-            terminal::DisableLineWrap,
-            style::ResetColor,
-            style::SetAttribute(CtAttribute::Reset)
-        )?;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
@@ -458,37 +455,51 @@ impl Term for Crossterminal {
             let _ = terminal::disable_raw_mode();
             default_hook(info)
         }));
-        terminal::enable_raw_mode()?;
-        self.suspended = false;
         self.old_hook = Some(old_hook);
+        self.suspended = false;
+        // queue, but don't actually output anything until the first command...
+        queue!(
+            self.stdout,
+            cursor::Hide,
+            terminal::DisableLineWrap,
+            style::ResetColor,
+            style::SetAttribute(CtAttribute::Reset)
+        )?;
+        terminal::enable_raw_mode()?;
         Ok(())
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        queue!(
+        // even if some of this fails, do the rest
+        let queue_result = queue!(
             self.stdout,
             cursor::Show,
             terminal::EnableLineWrap,
             style::ResetColor,
             style::SetAttribute(CtAttribute::Reset),
             terminal::Clear(terminal::ClearType::FromCursorDown)
-        )?;
-        terminal::disable_raw_mode()?;
+        );
+        let raw_mode_result = terminal::disable_raw_mode();
         self.cur_style = Style::PLAIN;
         self.cur_fg = None;
         self.cur_bg = None;
-        self.stdout.flush()?;
+        let flush_result = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
         self.suspended = true;
+        queue_result?;
+        raw_mode_result?;
+        flush_result?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let result = if self.suspended {
+            Ok(())
+        } else {
+            self.suspend()
+        };
         self.input_thread.interrupt();
-        Ok(())
+        result
     }
 }
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 474d70e..a13762c 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -178,8 +178,13 @@ impl Vt52 {
             white_on_black,
             input_thread: InterruptibleStdinThread::new(input_thread),
         };
-        ret.unsuspend()?;
-        Ok(ret)
+        match ret.unsuspend() {
+            Ok(()) => Ok(ret),
+            Err(x) => {
+                let _ = ret.cleanup();
+                Err(x)
+            }
+        }
     }
 }
 
@@ -386,14 +391,6 @@ impl Term for Vt52 {
     }
     fn unsuspend(&mut self) -> LifeOrDeath {
         assert!(self.suspended);
-        // queue, but don't actually output anything until the first command...
-        if self.white_on_black {
-            self.stdout
-                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x20\x1Bc\x2F")?;
-        } else {
-            self.stdout
-                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
-        }
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
@@ -410,6 +407,16 @@ impl Term for Vt52 {
             let _ = terminal::disable_raw_mode();
             default_hook(info)
         }));
+        self.old_hook = Some(old_hook);
+        self.suspended = false;
+        // queue, but don't actually output anything until the first command...
+        if self.white_on_black {
+            self.stdout
+                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x20\x1Bc\x2F")?;
+        } else {
+            self.stdout
+                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
+        }
         terminal::enable_raw_mode()?;
         if self.white_on_black {
             self.cur_fg = 0;
@@ -419,30 +426,34 @@ impl Term for Vt52 {
             self.cur_bg = 0;
         }
         self.cur_style = Style::PLAIN;
-        self.suspended = false;
-        self.old_hook = Some(old_hook);
         Ok(())
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        if self.white_on_black {
-            write!(self.stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")?;
+        // even if some of this fails, do the rest
+        let write_result = if self.white_on_black {
+            write!(self.stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")
         } else {
-            write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")?;
-        }
-        self.stdout.flush()?;
+            write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")
+        };
+        let flush_result = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
-        terminal::disable_raw_mode()?;
+        let raw_mode_result = terminal::disable_raw_mode();
         self.suspended = true;
+        write_result?;
+        flush_result?;
+        raw_mode_result?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let result = if self.suspended {
+            Ok(())
+        } else {
+            self.suspend()
+        };
         self.input_thread.interrupt();
-        Ok(())
+        result
     }
 }
diff --git a/src/worker.rs b/src/worker.rs
index bad4bf0..9761de4 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1416,6 +1416,32 @@ fn tty_worker(
     rx: std_mpsc::Receiver<Request>,
     mut tx: tokio_mpsc::UnboundedSender<Response>,
     #[cfg(feature = "history")] history: Arc<RwLock<History>>,
+) -> LifeOrDeath {
+    let result = tty_session(
+        req_tx,
+        &rx,
+        &mut tx,
+        #[cfg(feature = "history")]
+        history,
+    );
+    // Usually raw mode has been disabled by now, and this does nothing. If
+    // something failed, this is our last chance.
+    let raw_mode_result = crossterm::terminal::disable_raw_mode();
+    // When the other side finds out that we're dead (because `tx` is gone),
+    // its requests must fail already.
+    drop(rx);
+    drop(tx);
+    result?;
+    raw_mode_result?;
+    Ok(())
+}
+
+/// Everything from setting the terminal up to restoring it.
+fn tty_session(
+    req_tx: std_mpsc::Sender<Request>,
+    rx: &std_mpsc::Receiver<Request>,
+    tx: &mut tokio_mpsc::UnboundedSender<Response>,
+    #[cfg(feature = "history")] history: Arc<RwLock<History>>,
 ) -> LifeOrDeath {
     let req_tx_clone = req_tx.clone();
     let (mut ded_tx, ded_rx) = std_mpsc::sync_channel(5);
@@ -1484,6 +1510,22 @@ fn tty_worker(
         #[cfg(feature = "completion")]
         own_output: Output { tx: req_tx },
     };
+    let result = handle_requests(&mut state, rx, tx, &mut ded_tx);
+    // Even if something went wrong, do as much of the cleanup as possible.
+    let rollin_result = state.rollin();
+    let cleanup_result = state.cleanup();
+    result?;
+    rollin_result?;
+    cleanup_result
+}
+
+/// Handles requests until it's time to die.
+fn handle_requests(
+    state: &mut TtyState,
+    rx: &std_mpsc::Receiver<Request>,
+    tx: &mut tokio_mpsc::UnboundedSender<Response>,
+    ded_tx: &mut std_mpsc::SyncSender<Instant>,
+) -> LifeOrDeath {
     let mut dying = false;
     'outer: while let Some(request) = if dying {
         rx.try_recv().ok()
@@ -1493,7 +1535,7 @@ fn tty_worker(
         if let Request::Die = request {
             break;
         }
-        state.handle(&mut tx, &mut ded_tx, request)?;
+        state.handle(tx, ded_tx, request)?;
         loop {
             use std_mpsc::TryRecvError;
             match rx.try_recv() {
@@ -1505,17 +1547,13 @@ fn tty_worker(
                         break;
                     }
                 }
-                Ok(request) => state.handle(&mut tx, &mut ded_tx, request)?,
+                Ok(request) => state.handle(tx, ded_tx, request)?,
                 Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => break 'outer,
             }
         }
         state.rollout()?;
     }
-    state.rollin()?;
-    state.cleanup()?;
-    crossterm::terminal::disable_raw_mode()?;
-    drop(rx);
     Ok(())
 }
 
-- 
2.43.0


From a6c8ec9cb416b9d3816cc5211a26e3dae046d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 27/46] fix: suspending with a failing stdout doesn't panic

Liso's own thread panicked in println! when ^Z couldn't be written.
---
 src/worker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 9761de4..1659ab8 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -6,7 +6,7 @@ use super::*;
 
 use std::{
     cell::{RefCell, RefMut},
-    io::BufRead,
+    io::{BufRead, Write},
     mem::swap,
     time::Instant,
 };
@@ -1299,7 +1299,7 @@ impl TtyState {
         let mut term = self.term.borrow_mut();
         term.set_attrs(Style::PLAIN, None, None)?;
         term.suspend()?;
-        std::println!("^Z");
+        writeln!(std::io::stdout(), "^Z")?;
         unix_util::sigstop_ourselves();
         term.unsuspend()?;
         self.rollout_needed = true;
-- 
2.43.0


From 14675c04c3830bc37f643bd723e0fe9287fcf604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 28/46] fix: shutdown doesn't wait for later requests

After the request to shut down, requests that came after it were still
handled for as long as there were any; a thread that never stopped
sending kept Liso from shutting down.
---
 src/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 1659ab8..f0cea4d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1544,7 +1544,7 @@ fn handle_requests(
                     if cfg!(not(feature = "capture-stderr")) {
                         // if we're not capturing stderr, there's no reason not
                         // to break immediately
-                        break;
+                        break 'outer;
                     }
                 }
                 Ok(request) => state.handle(tx, ded_tx, request)?,
-- 
2.43.0


From 5b95bf8b55aa3b2f92a1802b2825468440518afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:09 +0000
Subject: [PATCH 29/46] fix: an instance that is still shutting down is still
 the only one

While an InputOutput was being dropped, and Liso's threads still owned the
terminal, another InputOutput could be created already.
---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 74cac3a..f831106 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -804,15 +804,16 @@ impl Output {
 
 impl Drop for InputOutput {
     fn drop(&mut self) {
+        self.actually_blocking_die();
+        #[cfg(feature = "capture-stderr")]
+        stderr_capture::wait_until_not_captured();
+        // Only now can another instance take our place.
         #[cfg(feature = "global")]
         {
             *LISO_OUTPUT_TX.lock() = None;
         }
-        self.actually_blocking_die();
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
-        #[cfg(feature = "capture-stderr")]
-        stderr_capture::wait_until_not_captured();
     }
 }
 
-- 
2.43.0


From d2367ca774f3452536eacbad357d1fad1e9cc66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:16 +0000
Subject: [PATCH 30/46] fix: a panic on a VT52 restores the terminal with the
 VT52's codes

---
 src/term/vt52.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index a13762c..c5c37e7 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -393,16 +393,14 @@ impl Term for Vt52 {
         assert!(self.suspended);
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
+        let restore_terminal: &[u8] = if self.white_on_black {
+            b"\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be"
+        } else {
+            b"\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be"
+        };
         panic::set_hook(Box::new(move |info| {
             let mut stdout = std::io::stdout();
-            let _ = queue!(
-                stdout,
-                cursor::Show,
-                terminal::EnableLineWrap,
-                style::ResetColor,
-                style::SetAttribute(CtAttribute::Reset),
-                terminal::Clear(terminal::ClearType::FromCursorDown)
-            );
+            let _ = stdout.write_all(restore_terminal);
             let _ = stdout.flush();
             let _ = terminal::disable_raw_mode();
             default_hook(info)
-- 
2.43.0


From 15042904f59b74e9f4bc5d5b4858bfd4ad23559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 31/46] fix: a line of input that is not UTF-8 no longer ends
 the input in pipe mode

---
 src/worker.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index f0cea4d..4a57b7d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -27,14 +27,18 @@ fn pipe_worker(
             .spawn(move || {
                 let stdin = std::io::stdin();
                 let mut stdin = stdin.lock();
+                let mut buf = Vec::new();
                 loop {
-                    let mut buf = String::new();
-                    match stdin.read_line(&mut buf) {
+                    buf.clear();
+                    match stdin.read_until(b'\n', &mut buf) {
                         Ok(_) => {
-                            while buf.ends_with('\n') || buf.ends_with('\r') {
+                            while buf.ends_with(b"\n") || buf.ends_with(b"\r")
+                            {
                                 buf.pop();
                             }
-                            if req_tx.send(Request::RawInput(buf)).is_err() {
+                            let line =
+                                String::from_utf8_lossy(&buf).into_owned();
+                            if req_tx.send(Request::RawInput(line)).is_err() {
                                 break;
                             }
                         }
-- 
2.43.0


From c14a075a9b109575cf8d68c196f709e7c502b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 32/46] fix: the end of the input in pipe mode is one Finish,
 not endless empty lines

---
 src/lib.rs    |  5 ++++-
 src/worker.rs | 28 ++++++++++++++++------------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f831106..009345d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -456,6 +456,8 @@ enum Request {
     /// out. (The pipe worker doesn't interpret escape sequences and therefore
     /// does no such processing.)
     RawInput(String),
+    /// Sent by the pipe worker's input thread when there is no more input.
+    EndOfInput,
     /// Used to implement notices.
     Heartbeat,
     /// If the crossterm event system is being used, this is an event received.
@@ -558,7 +560,8 @@ pub enum Response {
     /// feedback that the input was discarded.
     Discarded(String),
     /// Sent when the user types control-D on an empty line, which normally
-    /// means that they are done providing input (possibly temporarily).
+    /// means that they are done providing input (possibly temporarily). In
+    /// pipe mode, sent once, when the end of the input is reached.
     Finish,
     /// Sent when the user types control-T, which on some BSDs is a standard
     /// way to request that a program give a status report or other progress
diff --git a/src/worker.rs b/src/worker.rs
index 4a57b7d..b9b1899 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -30,19 +30,20 @@ fn pipe_worker(
                 let mut buf = Vec::new();
                 loop {
                     buf.clear();
-                    match stdin.read_until(b'\n', &mut buf) {
-                        Ok(_) => {
-                            while buf.ends_with(b"\n") || buf.ends_with(b"\r")
-                            {
-                                buf.pop();
-                            }
-                            let line =
-                                String::from_utf8_lossy(&buf).into_owned();
-                            if req_tx.send(Request::RawInput(line)).is_err() {
-                                break;
-                            }
+                    let result = stdin.read_until(b'\n', &mut buf);
+                    // (the end of the input may come in the middle of a line)
+                    if !buf.is_empty() {
+                        while buf.ends_with(b"\n") || buf.ends_with(b"\r") {
+                            buf.pop();
                         }
-                        Err(_) => break,
+                        let line = String::from_utf8_lossy(&buf).into_owned();
+                        if req_tx.send(Request::RawInput(line)).is_err() {
+                            break;
+                        }
+                    }
+                    if !matches!(result, Ok(count) if count > 0) {
+                        let _ = req_tx.send(Request::EndOfInput);
+                        break;
                     }
                 }
             })
@@ -66,6 +67,7 @@ fn pipe_worker(
                     break;
                 }
             }
+            Request::EndOfInput => tx.send(Response::Finish)?,
             Request::Die => break,
             Request::Custom(x) => tx.send(Response::Custom(x))?,
             _ => (),
@@ -700,6 +702,8 @@ impl TtyState {
             Request::CrosstermEvent(event) => {
                 self.handle_event(tx, event, ded_tx)?
             }
+            // only sent in pipe mode
+            Request::EndOfInput => (),
             Request::Die => return Ok(()),
             Request::Heartbeat => {
                 if let Some((_, deadline)) = self.notice {
-- 
2.43.0


From a07aa347fcb5b0b2246acca37fa5aeb6a4da23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 33/46] fix: suspend_and_run runs its closure in pipe mode as
 well

---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index b9b1899..199c52f 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -68,6 +68,7 @@ fn pipe_worker(
                 }
             }
             Request::EndOfInput => tx.send(Response::Finish)?,
+            Request::SuspendAndRun(mut f) => f(),
             Request::Die => break,
             Request::Custom(x) => tx.send(Response::Custom(x))?,
             _ => (),
-- 
2.43.0


From 91f8a21f46b7c27718ea7a5661f38e4e424bcf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 34/46] fix: failing to write to stdout in pipe mode ends the
 worker properly, without a panic

---
 src/worker.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 199c52f..bff5bb6 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -49,15 +49,29 @@ fn pipe_worker(
             })
             .unwrap(),
     );
+    let result = pipe_session(&rx, &tx);
+    input_thread.interrupt();
+    // When the other side finds out that we're dead (because `tx` is gone),
+    // its requests must fail already.
+    drop(rx);
+    drop(tx);
+    result
+}
+
+/// Handles requests until it's time to die, in pipe mode.
+fn pipe_session(
+    rx: &std_mpsc::Receiver<Request>,
+    tx: &tokio_mpsc::UnboundedSender<Response>,
+) -> LifeOrDeath {
     while let Ok(request) = rx.recv() {
         match request {
             #[cfg(feature = "wrap")]
             Request::Output(line) | Request::OutputWrapped(line) => {
-                std::println!("{}", line.text);
+                writeln!(std::io::stdout(), "{}", line.text)?;
             }
             #[cfg(not(feature = "wrap"))]
             Request::Output(line) => {
-                std::println!("{}", line.text);
+                writeln!(std::io::stdout(), "{}", line.text)?;
             }
             // stderr will not be captured if the pipe worker is being used.
             #[cfg(feature = "capture-stderr")]
@@ -74,7 +88,6 @@ fn pipe_worker(
             _ => (),
         }
     }
-    input_thread.interrupt();
     Ok(())
 }
 
-- 
2.43.0


From 02b404b606ea7d484ff484035e32be95e20bddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 35/46] fix: write_history_to reports errors in writing the
 last part of the file

---
 src/history.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index c2e460a..dbe8218 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -152,7 +152,8 @@ impl History {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
         }
-        drop(f);
+        // (dropping a BufWriter ignores errors)
+        f.flush()?;
         Ok(())
     }
     /// Sets the maximum number of lines that will be saved in the history. If
-- 
2.43.0


From be04b0cc223e999347da6d64b4675de45185fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 36/46] fix: saving the history creates the file, and replaces
 an existing one atomically

---
 src/history.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index dbe8218..3bb7d32 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -109,10 +109,11 @@ impl History {
             Err(x) => Err(x),
         }?;
         let handler = Box::new(move |history: &History| -> io::Result<()> {
-            history.write_history_to(&build_path)?;
-            let _ = remove_file(&backup_path);
-            rename(&history_path, &backup_path)?;
+            // Only when the new file is complete (even if there were a power
+            // failure right now) may it replace the old one.
+            history.write_lines_to(&build_path)?.sync_all()?;
             rename(&build_path, &history_path)?;
+            // older versions may have left this behind
             let _ = remove_file(&backup_path);
             Ok(())
         });
@@ -147,14 +148,17 @@ impl History {
     /// file, or et cetera. If you didn't create your `History` using
     /// `from_file`, that's up to you to build *using* this function.
     pub fn write_history_to<P: AsRef<Path>>(&self, path: P) -> io::Result<()> {
+        self.write_lines_to(path)?;
+        Ok(())
+    }
+    fn write_lines_to<P: AsRef<Path>>(&self, path: P) -> io::Result<File> {
         let mut f = BufWriter::new(File::create(path)?);
         for line in self.lines.iter() {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
         }
         // (dropping a BufWriter ignores errors)
-        f.flush()?;
-        Ok(())
+        Ok(f.into_inner()?)
     }
     /// Sets the maximum number of lines that will be saved in the history. If
     /// more lines than this are added, the oldest lines will be removed. This
-- 
2.43.0


From 96c8c7dd20a66a0e09a584a53aa012f56374ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 37/46] fix: a changed History is autosaved when it is dropped,
 as documented

---
 src/history.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 3bb7d32..33c4633 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -19,6 +19,8 @@ pub struct History {
     autosave_handler: Option<Box<AutosaveHandlerFn>>,
     autosave_interval: Option<NonZeroUsize>,
     lines_since_last_autosave: usize,
+    /// Whether there have been any changes since the last successful autosave.
+    unsaved: bool,
 }
 
 pub type AutosaveHandlerFn = dyn Fn(&History) -> io::Result<()> + Send + Sync;
@@ -40,6 +42,7 @@ impl History {
             autosave_handler: None,
             autosave_interval: None,
             lines_since_last_autosave: 0,
+            unsaved: false,
         }
     }
     /// Create a new History by reading the given file, with default options.
@@ -118,6 +121,7 @@ impl History {
             Ok(())
         });
         ret.autosave_handler = Some(handler);
+        ret.unsaved = false;
         Ok(ret)
     }
     /// Attempts to read history from the given file. Does not change any
@@ -141,6 +145,7 @@ impl History {
         }
         let ret = new_history.len();
         self.lines = new_history;
+        self.unsaved = true;
         Ok(ret)
     }
     /// Attempts to write history to the given file. Doesn't have any special
@@ -232,24 +237,38 @@ impl History {
             }
         }
         self.lines.push(line);
+        self.unsaved = true;
         if let Some(interval) = self.autosave_interval {
             self.lines_since_last_autosave += 1;
             if self.lines_since_last_autosave >= interval.get() {
                 self.lines_since_last_autosave = 0;
-                if let Some(autosave_handler) = self.autosave_handler.as_ref()
-                {
-                    (autosave_handler)(self)?;
-                }
+                self.autosave()?;
             }
         }
         Ok(())
     }
+    fn autosave(&mut self) -> io::Result<()> {
+        if let Some(autosave_handler) = self.autosave_handler.as_ref() {
+            (autosave_handler)(self)?;
+            self.unsaved = false;
+        }
+        Ok(())
+    }
     /// Returns all the lines currently in the history.
     pub fn get_lines(&self) -> &[String] {
         &self.lines
     }
 }
 
+impl Drop for History {
+    fn drop(&mut self) {
+        if self.unsaved {
+            // nobody is left to whom we could report an error
+            let _ = self.autosave();
+        }
+    }
+}
+
 impl Default for History {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From d62c6dc39e0888a743f862bbb7c7cce0cd76843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 38/46] fix: a first history line that starts with a byte order
 mark is saved unchanged

---
 src/history.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index 33c4633..b61c89d 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -158,6 +158,10 @@ impl History {
     }
     fn write_lines_to<P: AsRef<Path>>(&self, path: P) -> io::Result<File> {
         let mut f = BufWriter::new(File::create(path)?);
+        // When the file is read, one byte order mark at its start is skipped.
+        if self.lines.first().is_some_and(|x| x.starts_with('\u{FEFF}')) {
+            f.write_all("\u{FEFF}".as_bytes())?;
+        }
         for line in self.lines.iter() {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
-- 
2.43.0


From a74365a9a6a0c116aab63e9ae397d62a7280a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:14 +0000
Subject: [PATCH 39/46] fix: captured stderr is searched for line ends only as
 far as it was read

The rest of the buffer holds what earlier reads left there. A newline among
that made up lines, and could make the length go negative (a panic).
---
 src/stderr_capture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index fe8ad84..33692f9 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -217,7 +217,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
                 Ok(x) => {
                     let mut last_newline_pos = None;
                     let end_pos = buf_pos + x;
-                    while let Some(p) = buf[buf_pos..]
+                    while let Some(p) = buf[buf_pos..end_pos]
                         .iter()
                         .position(|x| *x == b'\n')
                         .map(|x| x + buf_pos)
-- 
2.43.0


From 00789cc0c84077bc55d5ceadb6b62a72c21c8dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:51 +0000
Subject: [PATCH 40/46] fix: giving stderr back never closes it

While Liso shut down, stderr was closed for a moment. What another thread
wrote to it just then was lost, and a file opened just then became stderr,
only to be closed right away. If the capture thread had already ended, stderr
even stayed closed.
---
 src/stderr_capture.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 33692f9..91c89fe 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -11,7 +11,9 @@ use libc::c_int;
 use parking_lot::Mutex;
 
 const STDERR_FD: c_int = 2;
-static STDERR_CAPTURE_THREAD: Mutex<Option<JoinHandle<()>>> = Mutex::new(None);
+/// The capture thread, and the duplicate of the real stderr.
+static STDERR_CAPTURE_THREAD: Mutex<Option<(JoinHandle<()>, c_int)>> =
+    Mutex::new(None);
 
 fn pipe() -> Result<(c_int, c_int), c_int> {
     #[cfg(any(target_family = "windows", target_family = "unix"))]
@@ -191,7 +193,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         return;
     }
     close(w); // it is now staying alive as STDERR_FD
-    *lock = Some(std::thread::spawn(move || {
+    let thread = std::thread::spawn(move || {
         let mut buf = vec![0u8; 128];
         let mut buf_pos = 0;
         'outer: loop {
@@ -276,11 +278,9 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         // stderr output is happening at once. Oh well. That's an unavoidable
         // cost of your program bypassing the "so" part of "liso".
         //
-        // There's also a small possibility that one or more StderrLines we
-        // sent "successfully" were lost. Oh well.
+        // (Usually, this has been done already.)
         dup2(real_stderr, STDERR_FD)
             .expect("Unable to reduplicate stderr back into place!");
-        close(real_stderr);
         // Any remaining output waiting in the pipe, process.
         while let Ok(amount) = read(r, &mut buf[..]) {
             if amount == 0 {
@@ -289,14 +289,20 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
             let _ = write_all(STDERR_FD, &buf[..amount]);
         }
         close(r);
-    }));
+    });
+    *lock = Some((thread, real_stderr));
 }
 
 pub(crate) fn wait_until_not_captured() {
     let mut lock = STDERR_CAPTURE_THREAD.lock();
-    if let Some(x) = lock.take() {
-        close(STDERR_FD); // :(
-        let _ = x.join();
+    if let Some((thread, real_stderr)) = lock.take() {
+        // This closes the write end of the pipe, which ends the thread.
+        // STDERR_FD must never be closed, not even for a moment: what is
+        // written to it at that moment would be lost, and the next file to be
+        // opened would take its place.
+        let _ = dup2(real_stderr, STDERR_FD);
+        let _ = thread.join();
+        close(real_stderr);
     }
     // Do not drop the lock until here! Nobody else should be allowed to
     // think they can join before us!
-- 
2.43.0


From 33ba72350428858f7fb977cd06a5436eecf7858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:40 +0000
Subject: [PATCH 41/46] fix: captured stderr lines that come in while Liso
 shuts down aren't lost

Lines that the capture thread had sent, but that came too late to be handled,
were thrown away. Now capturing ends right after the terminal has been
restored, and what is left over is written to the real stderr.
---
 src/worker.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index bff5bb6..57a15ba 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1449,6 +1449,17 @@ fn tty_worker(
     // Usually raw mode has been disabled by now, and this does nothing. If
     // something failed, this is our last chance.
     let raw_mode_result = crossterm::terminal::disable_raw_mode();
+    // The terminal isn't ours anymore, so stderr is nobody's concern but the
+    // program's. What we haven't shown until now goes where it was meant to.
+    #[cfg(feature = "capture-stderr")]
+    {
+        stderr_capture::wait_until_not_captured();
+        for request in rx.try_iter() {
+            if let Request::StderrLine(text) = request {
+                let _ = writeln!(std::io::stderr(), "{}", text);
+            }
+        }
+    }
     // When the other side finds out that we're dead (because `tx` is gone),
     // its requests must fail already.
     drop(rx);
-- 
2.43.0


From bea6292bde2bc32b0c89ac8d0bfada7ae58bd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 42/46] fix: failing to capture stderr leaks no file
 descriptors

---
 src/stderr_capture.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 91c89fe..ae05355 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -176,6 +176,8 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     let real_stderr = match dup(STDERR_FD) {
         Ok(x) => x,
         Err(x) => {
+            close(r);
+            close(w);
             let _ = output.tx.send(crate::Request::StderrLine(format!(
                 "dup(STDERR_FD) returned error {:?} when attempting to capture stderr.",
                 x
@@ -186,6 +188,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     if let Err(x) = dup2(w, STDERR_FD) {
         close(r);
         close(w);
+        close(real_stderr);
         let _ = output.tx.send(crate::Request::StderrLine(format!(
             "dup2() returned error {:?} when attempting to capture stderr.",
             x
-- 
2.43.0


From b7fb9c7a6f95c7b75d9355f1637071b3585c3afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:07 +0000
Subject: [PATCH 43/46] fix: a changed notice or prompt does not keep the old
 one's fill

Whether the blank end of the last row needs redrawing was decided from the
last characters alone, but the fill is drawn in the style of the line's last
element, which may be an empty one after them (for instance behind an escaped
control character).
---
 src/worker.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 57a15ba..fc10992 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -565,7 +565,19 @@ impl TtyState {
             &mut output_cursor_top,
             term_width,
         );
-        if !ended_simultaneously || !endfill_redundant {
+        // (the fill has the style of the last element, which need not be that
+        // of the last character)
+        let old_fill = self
+            .remembered_output
+            .as_ref()
+            .and_then(|x| x.output_line.elements.last())
+            .map(|el| (el.style, el.fg, el.bg));
+        let new_fill =
+            new_line.elements.last().map(|el| (el.style, el.fg, el.bg));
+        if !ended_simultaneously
+            || !endfill_redundant
+            || old_fill != new_fill
+        {
             let trailit = endfill
                 && match new_line.elements.last() {
                     None => false,
-- 
2.43.0


From 7afaf4fb366d714aa0dee7d5752797a1c9e81aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:26 +0000
Subject: [PATCH 44/46] fix: leave stderr alone if the thread that captures it
 can't be started

---
 src/stderr_capture.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index ae05355..c75cb4d 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -196,7 +196,9 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         return;
     }
     close(w); // it is now staying alive as STDERR_FD
-    let thread = std::thread::spawn(move || {
+    let capture_output = output.clone_output();
+    let thread = std::thread::Builder::new().spawn(move || {
+        let output = capture_output;
         let mut buf = vec![0u8; 128];
         let mut buf_pos = 0;
         'outer: loop {
@@ -293,7 +295,18 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         }
         close(r);
     });
-    *lock = Some((thread, real_stderr));
+    match thread {
+        Ok(thread) => *lock = Some((thread, real_stderr)),
+        Err(x) => {
+            let _ = dup2(real_stderr, STDERR_FD);
+            close(real_stderr);
+            close(r);
+            let _ = output.tx.send(crate::Request::StderrLine(format!(
+                "Couldn't start a thread when attempting to capture stderr: {}",
+                x
+            )));
+        }
+    }
 }
 
 pub(crate) fn wait_until_not_captured() {
-- 
2.43.0


From 8707ae00ca731679a926494260a6439cecc61229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:26 +0000
Subject: [PATCH 45/46] fix: an instance whose thread can't be started doesn't
 prevent others (without "global")

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 009345d..1014bf0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -874,7 +874,12 @@ impl InputOutput {
                 let _ =
                     worker::worker(request_tx_clone, request_rx, response_tx);
             })
-            .unwrap();
+            .unwrap_or_else(|x| {
+                // We won't exist, so we mustn't stand in another's way.
+                #[cfg(not(feature = "global"))]
+                LISO_IS_ACTIVE.store(false, Ordering::Release);
+                panic!("Couldn't start Liso's output thread: {}", x)
+            });
         #[cfg(feature = "global")]
         {
             *global_lock = Some(request_tx.clone());
-- 
2.43.0


From 26e2b84db2bb08fdc030e910766c60fbc6e113c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:26 +0000
Subject: [PATCH 46/46] fix: if a thread can't be started, die in an orderly
 way instead of panicking

---
 src/term/cross.rs | 9 +++------
 src/term/vt52.rs  | 6 ++----
 src/worker.rs     | 9 +++++----
 3 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 2273fe7..1adc26c 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -239,8 +239,7 @@ impl Crossterminal {
                     }
                     // there will never be input again
                     let _ = req_tx.send(Request::Die);
-                })
-                .unwrap()
+                })?
         } else {
             let (input_tx, input_rx) = std_mpsc::sync_channel(1);
             std::thread::Builder::new()
@@ -251,8 +250,7 @@ impl Crossterminal {
                     // (if we get here because we're shutting down already,
                     // this does nothing)
                     let _ = req_tx.send(Request::Die);
-                })
-                .unwrap();
+                })?;
             std::thread::Builder::new()
                 .name("Liso raw stdin thread".to_owned())
                 .spawn(move || {
@@ -271,8 +269,7 @@ impl Crossterminal {
                             break;
                         }
                     }
-                })
-                .unwrap()
+                })?
         };
         let stdout = std::io::stdout();
         let mut ret = Crossterminal {
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index c5c37e7..16823a1 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -143,8 +143,7 @@ impl Vt52 {
                 // (if we get here because we're shutting down already, this
                 // does nothing)
                 let _ = req_tx.send(Request::Die);
-            })
-            .unwrap();
+            })?;
         let input_thread = std::thread::Builder::new()
             .name("Liso raw stdin thread".to_owned())
             .spawn(move || {
@@ -163,8 +162,7 @@ impl Vt52 {
                         break;
                     }
                 }
-            })
-            .unwrap();
+            })?;
         let stdout = std::io::stdout();
         let mut ret = Vt52 {
             stdout,
diff --git a/src/worker.rs b/src/worker.rs
index fc10992..0ec172b 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -21,6 +21,9 @@ fn pipe_worker(
     rx: std_mpsc::Receiver<Request>,
     tx: tokio_mpsc::UnboundedSender<Response>,
 ) -> LifeOrDeath {
+    // (`rx` must be dropped before `tx`, see below)
+    let tx = tx;
+    let rx = rx;
     let mut input_thread = InterruptibleStdinThread::new(
         std::thread::Builder::new()
             .name("Liso input thread".to_owned())
@@ -46,8 +49,7 @@ fn pipe_worker(
                         break;
                     }
                 }
-            })
-            .unwrap(),
+            })?,
     );
     let result = pipe_session(&rx, &tx);
     input_thread.interrupt();
@@ -1525,8 +1527,7 @@ fn tty_session(
                     }
                 }
             }
-        })
-        .unwrap();
+        })?;
     crossterm::terminal::enable_raw_mode()?;
     let term = new_term(&req_tx)?;
     let mut state = TtyState {
-- 
2.43.0

