From 05b5e9330c154ce3040218b7cfb23cd71e8484f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 01/15] fix: reject JMP words with bit 11 set in
 SimInstr::decode

---
 src/ast/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/sim.rs b/src/ast/sim.rs
index 02db76f..3ec64da 100644
--- a/src/ast/sim.rs
+++ b/src/ast/sim.rs
@@ -330,7 +330,7 @@ impl SimInstr {
                 Ok(Self::STI(sr, off))
             },
             OP_JMP => {
-                word.slice(9..11).assert_equals(0b00)?;
+                word.slice(9..12).assert_equals(0b000)?;
                 let reg = word.slice(6..9).interpret();
                 word.slice(0..6).assert_equals(0b000_000)?;
                 Ok(Self::JMP(reg))
-- 
2.43.0


From 220bce3927ae5dab670071e162c12e6c2821d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 02/15] fix: peek at the next instruction in strict mode
 without a memory access

---
 src/sim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 11157e4..6ea3bc8 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1019,7 +1019,8 @@ impl Simulator {
         let addr = addr_word.get_if_init(self.flags.strict, SimErr::StrictJmpAddrUninit)?;
         if self.flags.strict && st_check_mem {
             // Check next memory value is initialized:
-            if !self.read_mem(addr, self.default_mem_ctx())?.is_init() {
+            // (This is a peek: it must not access devices, the observer, or raise access violations.)
+            if !self.mem[addr].is_init() {
                 return Err(SimErr::StrictPCNextUninit);
             }
         }
-- 
2.43.0


From 8e9d63e9c0644b4173fbbdc7eb65bd0d6003412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 03/15] fix: wrap prefetch_pc when the PC is 0

---
 src/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 6ea3bc8..e01dc0c 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1038,7 +1038,7 @@ impl Simulator {
     /// This function is useful as it returns the location of the currently
     /// executing instruction in memory.
     pub fn prefetch_pc(&self) -> u16 {
-        self.pc - (!self.prefetch) as u16
+        self.pc.wrapping_sub((!self.prefetch) as u16)
     }
 
     /// Checks whether the address points to a memory location that was allocated
-- 
2.43.0


From 4523b5da578fefa7f485692afb26f7e78ae9d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 04/15] fix: do not record rejected strict-mode writes in the
 access observer

---
 src/sim.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index e01dc0c..413a3bb 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -876,16 +876,17 @@ impl Simulator {
 
         // Duplicate write in mem array:
         if success {
+            let old = self.mem[addr];
+            self.mem[addr]
+                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
+
             if ctx.track_access {
                 // Update memory observer:
                 self.observer.update_mem_accesses(addr, AccessSet::WRITTEN);
-                if self.mem[addr] != data {
+                if old != data {
                     self.observer.update_mem_accesses(addr, AccessSet::MODIFIED);
                 }
             }
-
-            self.mem[addr]
-                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
         }
 
         Ok(())
-- 
2.43.0


From 25510d189559b9932da84dd259acbf94bb62212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 05/15] fix: handle a backslash at the end of a line and before
 non-ASCII characters in string literals

---
 src/parse/lex.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/parse/lex.rs b/src/parse/lex.rs
index 869b89a..762a1b9 100644
--- a/src/parse/lex.rs
+++ b/src/parse/lex.rs
@@ -263,23 +263,22 @@ fn lex_str_literal(lx: &mut Lexer<'_, Token>) -> Result<String, LexErr> {
         match mid {
             "\\" => {
                 // the next character is part of the escape:
-                let esc = right.as_bytes()
-                    .first()
-                    .unwrap_or_else(|| unreachable!("expected character after escape")); // there always has to be one, cause last character is not \
+                // (if the line ends here, the literal is never closed)
+                let Some(esc) = right.chars().next() else { break };
                 match esc {
-                    b'n'  => buf.push('\n'),
-                    b'r'  => buf.push('\r'),
-                    b't'  => buf.push('\t'),
-                    b'\\' => buf.push('\\'),
-                    b'0'  => buf.push('\0'),
-                    b'"'  => buf.push('\"'),
-                    &c => {
+                    'n'  => buf.push('\n'),
+                    'r'  => buf.push('\r'),
+                    't'  => buf.push('\t'),
+                    '\\' => buf.push('\\'),
+                    '0'  => buf.push('\0'),
+                    '"'  => buf.push('\"'),
+                    c => {
                         buf.push('\\');
-                        buf.push(char::from(c));
+                        buf.push(c);
                     }
                 }
                 
-                remaining = &right[1..];
+                remaining = &right[esc.len_utf8()..];
             },
             "\"" => {
                 remaining = right;
-- 
2.43.0


From f2409d15cd2862c1d41ae5f311a9b0f98634f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:45 +0000
Subject: [PATCH 06/15] fix: write relocation addresses in little endian

---
 src/asm/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 77d032a..d6b7192 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -134,7 +134,7 @@ impl ObjFileFormat for BinaryFormat {
 
             for (&addr, label) in &sym.rel_map {
                 bytes.push(0x04);
-                bytes.extend(u16::to_be_bytes(addr));
+                bytes.extend(u16::to_le_bytes(addr));
                 bytes.extend(u64::to_le_bytes(label.len() as u64));
                 bytes.extend_from_slice(label.as_bytes());
             }
-- 
2.43.0


From ee0b36ff2229231cad615e3de68a24e2d8f5bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:48 +0000
Subject: [PATCH 07/15] fix: accept .DEBUG sections without a line table in
 text object files

---
 src/asm/encoding.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index d6b7192..95b6a21 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -506,7 +506,12 @@ impl ObjFileFormat for TextFormat {
                 ".DEBUG" => if !rest.is_empty() {
                     let split_pos = rest.iter().position(|l| l.starts_with('='))?;
                     if !rest.last()?.starts_with('=') { return None; }
-                    let (label_src, [_, line_src @ .., _]) = rest.split_at(split_pos) else { unreachable!("divider should be present") };
+                    let (label_src, divided) = rest.split_at(split_pos);
+                    // There is only one divider if the file doesn't have a line table.
+                    let line_src = match divided {
+                        [_, line_src @ .., _] => line_src,
+                        _ => &[],
+                    };
 
                     let label_table = parse_table(label_src, ["LABEL", "INDEX"], |[label, index_str], _| {
                         let index = index_str.parse().ok()?;
-- 
2.43.0


From 5f9e6abed94e4597363d9227adda180c7c6ba401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 08/15] fix: do not panic when linking invalid object files

---
 src/asm.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9fe11f2..33738a3 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -251,7 +251,7 @@ impl LineSymbolMap {
         // Check not overlapping:
         let not_overlapping = bl.windows(2).all(|win| {
             let [(ls, lb), (rs, _)] = win else { unreachable!() };
-            ls + lb.len() <= *rs
+            ls.checked_add(lb.len()).is_some_and(|le| le <= *rs)
         });
 
         match not_overlapping {
@@ -443,7 +443,7 @@ struct SymbolData {
 impl SymbolData {
     /// Calculates the source range of this symbol, given the name of the label.
     fn span(&self, label: &str) -> Range<usize> {
-        self.src_start .. (self.src_start + label.len())
+        self.src_start .. self.src_start.saturating_add(label.len())
     }
 }
 
@@ -475,7 +475,7 @@ impl DebugSymbols {
         // B doesn't overlap with A because ObjectFile check
         a.line_map.0.extend({
             b.line_map.0.into_iter()
-                .map(|(k, v)| (k + lines, v))
+                .map(|(k, v)| (k.wrapping_add(lines), v))
         });
 
         a.src_info = SourceInfo::from_string(a.src_info.src + "\n" + &b.src_info.src);
@@ -1216,8 +1216,8 @@ impl ObjectFile {
         let mut second = a_obj.block_map.iter();
         second.next();
         if std::iter::zip(first, second).any(|((&a_st, a_bl), (&b_st, b_bl))| {
-            let ar = a_st .. (a_st + a_bl.len() as u16);
-            let br = b_st .. (b_st + b_bl.len() as u16);
+            let ar = usize::from(a_st) .. (usize::from(a_st) + a_bl.len());
+            let br = usize::from(b_st) .. (usize::from(b_st) + b_bl.len());
             ranges_overlap(ar, br)
         }) {
             return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
@@ -1289,11 +1289,11 @@ impl ObjectFile {
             (ma, mb) => ma.or(mb)
         };
         for (addr, linked_addr) in relocations {
-            // TODO: handle case where the address needed is not found in block map
-            // should really only occur from invalid manipulation of obj file
-            a_obj.get_mut(addr)
-                .unwrap_or_else(|| unreachable!("object file should have had address x{addr:04X} bound"))
-                .replace(linked_addr);
+            // The address can only be missing from the block map in an invalid object file.
+            // In that case, there is nothing to relocate.
+            if let Some(word) = a_obj.get_mut(addr) {
+                word.replace(linked_addr);
+            }
         }
 
         Ok(a_obj)
-- 
2.43.0


From 95025a6280b98a33bf26d94e12ad61313b23135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 09/15] fix: keep every reference to an external label until it
 is resolved

---
 src/asm.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 33738a3..e0aa610 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -619,7 +619,7 @@ impl SymbolTable {
 
         let mut cursor: Option<Cursor> = None;
         let mut label_map: HashMap<String, SymbolData> = HashMap::new();
-        let mut rel_map = HashMap::new();
+        let mut label_fills = vec![];
         let mut debug_sym = src.map(|s| {
             let src_info = SourceInfo::new(s);
             (vec![None; src_info.count_lines()], src_info)
@@ -659,14 +659,11 @@ impl SymbolTable {
                     add_label(&mut label_map, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
-                    let label_text = label.name.to_uppercase();
-                    if let Some(SymbolData { external: true, .. }) = label_map.get(&label_text) {
-                        let Some(cur) = cursor.as_ref() else {
-                            return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
-                        };
+                    let Some(cur) = cursor.as_ref() else {
+                        return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
+                    };
 
-                        rel_map.insert(cur.lc, label_text);
-                    }
+                    label_fills.push((cur.lc, label.name.to_uppercase()));
                 },
                 _ => {}
             };
@@ -695,6 +692,12 @@ impl SymbolTable {
             return Err(AsmErr::new(AsmErrKind::UnclosedOrig, cur.block_orig));
         }
         
+        // An external label may be declared after it is used,
+        // so relocations are only known after every statement has been visited.
+        let rel_map = label_fills.into_iter()
+            .filter(|(_, label)| matches!(label_map.get(label), Some(SymbolData { external: true, .. })))
+            .collect();
+
         let debug_symbols = debug_sym.map(|(lines, src_info)| DebugSymbols {
             line_map: LineSymbolMap::new(lines)
             .unwrap_or_else(|| {
@@ -1182,7 +1185,8 @@ impl ObjectFile {
             .collect();
         Ok(Self {
             block_map,
-            sym: debug.then_some(sym),
+            // External labels have to be kept even without debug symbols, or else they could not be resolved.
+            sym: (debug || sym.label_iter().any(|(_, _, external)| external)).then_some(sym),
         })
     }
 
-- 
2.43.0


From f38b967d714fd6e31b2a84ee3b8a81580e9840e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:16 +0000
Subject: [PATCH 10/15] fix: shift label source positions when linking debug
 symbols

---
 src/asm.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index e0aa610..e44db5d 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1233,8 +1233,13 @@ impl ObjectFile {
             // If we have both symbol tables:
             (Some(mut a_sym), Some(b_sym)) => {
                 let SymbolTable { label_map, rel_map, debug_symbols: b_debug_symbols } = b_sym;
+                // How far B's source moves in the linked source:
+                let mut b_src_shift = 0;
                 a_sym.debug_symbols = match (a_sym.debug_symbols, b_debug_symbols) {
-                    (Some(ads), Some(bds)) => Some(DebugSymbols::link(ads, bds)?),
+                    (Some(ads), Some(bds)) => {
+                        b_src_shift = ads.src_info.src.len() + 1; // incl NL between the sources
+                        Some(DebugSymbols::link(ads, bds)?)
+                    },
                     (m_ads, b_ads) => m_ads.or(b_ads)
                 };
 
@@ -1242,7 +1247,8 @@ impl ObjectFile {
                 a_sym.rel_map.extend(rel_map);
 
                 // For every label in symbol table B:
-                for (label, b_sym_data) in label_map {
+                for (label, mut b_sym_data) in label_map {
+                    b_sym_data.src_start = b_sym_data.src_start.wrapping_add(b_src_shift);
                     match a_sym.label_map.entry(label) {
                         Entry::Occupied(mut e) => {
                             let &a_sym_data = e.get();
-- 
2.43.0


From 352f1ac27e87c02a6f7ad771b37041d3c9453c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:19 +0000
Subject: [PATCH 11/15] fix: ignore case in get_label_source

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index e44db5d..2014ae6 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -797,7 +797,7 @@ impl SymbolTable {
     /// assert_eq!(sym.get_label_source("LOOP_DE_LOOP"), None);
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
-        self.label_map.get(label)
+        self.label_map.get(&label.to_uppercase())
             .map(|data| data.span(label))
     }
 
-- 
2.43.0


From 59ca04b4780823036fc9b52b55b79aef6fe6de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 12/15] fix: do not map .external lines to an address

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 2014ae6..ccabfed 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -674,7 +674,7 @@ impl SymbolTable {
                 // Calculate which source code line is associated with the instruction the LC is currently pointing to
                 // and add the mapping from line to instruction address.
                 if let Some((lines, s)) = &mut debug_sym {
-                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End)) {
+                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End | Directive::External(_))) {
                         let line_index = s.get_line(stmt.span.start);
                         lines[line_index].replace(cur.lc);
                     }
-- 
2.43.0


From 3fa3f39dcd7896870da6c23ac2c785597ed41b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:25 +0000
Subject: [PATCH 13/15] fix: report positions past the end on the last line

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index ccabfed..cfe48df 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -414,7 +414,7 @@ impl SourceInfo {
     /// the line number is given as the last line and the character number
     /// is given as the number of characters after the start of the line.
     pub fn get_pos_pair(&self, index: usize) -> (usize, usize) {
-        let lno = self.get_line(index);
+        let lno = self.get_line(index).min(self.count_lines() - 1);
 
         let Range { start: lstart, .. } = self.raw_line_span(lno)
             .or_else(|| self.raw_line_span(self.nl_indices.len()))
-- 
2.43.0


From df7f37e68d5692b4e561d4b3af949a8e1f4fb9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 14/15] fix: do not panic on the first span of an error without
 spans

---
 src/err.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/err.rs b/src/err.rs
index fce4a4e..0ad95bd 100644
--- a/src/err.rs
+++ b/src/err.rs
@@ -59,7 +59,7 @@ impl ErrSpan {
         match self {
             ErrSpan::One(r)      => r.clone(),
             ErrSpan::Two([r, _]) => r.clone(),
-            ErrSpan::Many(r)     => r.first().unwrap().clone(),
+            ErrSpan::Many(r)     => r.first().cloned().unwrap_or(0..0),
         }
     }
 
-- 
2.43.0


From dcc5c389127c2d9b855b08779c78b219d21c6b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 15/15] fix: raise timer interrupts when the sampled interval
 is 0

---
 src/sim/device/timer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim/device/timer.rs b/src/sim/device/timer.rs
index c103c2d..af49e4a 100644
--- a/src/sim/device/timer.rs
+++ b/src/sim/device/timer.rs
@@ -158,7 +158,8 @@ impl ExternalDevice for TimerDevice {
         match self.time {
             0 => {
                 self.reset_remaining();
-                None
+                // An interval of 0 elapses immediately.
+                (self.time == 0).then(|| super::Interrupt::vectored(self.vect, self.priority))
             },
             1 => {
                 self.time = 0;
-- 
2.43.0

