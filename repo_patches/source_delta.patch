From f9f5c4812e9b0a686280e559519292b9a579155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 01/25] fix: string literals ending in a backslash or escaping
 a non-ASCII character no longer panic the lexer

---
 src/parse/lex.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/parse/lex.rs b/src/parse/lex.rs
index 869b89a..00ecdfb 100644
--- a/src/parse/lex.rs
+++ b/src/parse/lex.rs
@@ -263,23 +263,24 @@ fn lex_str_literal(lx: &mut Lexer<'_, Token>) -> Result<String, LexErr> {
         match mid {
             "\\" => {
                 // the next character is part of the escape:
-                let esc = right.as_bytes()
-                    .first()
-                    .unwrap_or_else(|| unreachable!("expected character after escape")); // there always has to be one, cause last character is not \
+                let Some(esc) = right.chars().next() else {
+                    // the line ends right after the backslash, so the literal is never closed
+                    break;
+                };
                 match esc {
-                    b'n'  => buf.push('\n'),
-                    b'r'  => buf.push('\r'),
-                    b't'  => buf.push('\t'),
-                    b'\\' => buf.push('\\'),
-                    b'0'  => buf.push('\0'),
-                    b'"'  => buf.push('\"'),
-                    &c => {
+                    'n'  => buf.push('\n'),
+                    'r'  => buf.push('\r'),
+                    't'  => buf.push('\t'),
+                    '\\' => buf.push('\\'),
+                    '0'  => buf.push('\0'),
+                    '"'  => buf.push('\"'),
+                    c => {
                         buf.push('\\');
-                        buf.push(char::from(c));
+                        buf.push(c);
                     }
                 }
                 
-                remaining = &right[1..];
+                remaining = &right[esc.len_utf8()..];
             },
             "\"" => {
                 remaining = right;
-- 
2.43.0


From cb364d3d54d388c6dacbe25040abaf264d128649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 02/25] fix: JMP decoding checks all three must-be-zero bits

---
 src/ast/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/sim.rs b/src/ast/sim.rs
index 02db76f..3ec64da 100644
--- a/src/ast/sim.rs
+++ b/src/ast/sim.rs
@@ -330,7 +330,7 @@ impl SimInstr {
                 Ok(Self::STI(sr, off))
             },
             OP_JMP => {
-                word.slice(9..11).assert_equals(0b00)?;
+                word.slice(9..12).assert_equals(0b000)?;
                 let reg = word.slice(6..9).interpret();
                 word.slice(0..6).assert_equals(0b000_000)?;
                 Ok(Self::JMP(reg))
-- 
2.43.0


From e672d425983d2936fd1a61dcbf1841463dfd090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 03/25] fix: binary format writes relocation addresses in the
 byte order they are read in

---
 src/asm/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 77d032a..d6b7192 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -134,7 +134,7 @@ impl ObjFileFormat for BinaryFormat {
 
             for (&addr, label) in &sym.rel_map {
                 bytes.push(0x04);
-                bytes.extend(u16::to_be_bytes(addr));
+                bytes.extend(u16::to_le_bytes(addr));
                 bytes.extend(u64::to_le_bytes(label.len() as u64));
                 bytes.extend_from_slice(label.as_bytes());
             }
-- 
2.43.0


From 0f2b9ca96bafe9e97a23980b6b44757f8055af55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 04/25] fix: prefetch_pc wraps instead of overflowing at PC
 x0000

---
 src/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 11157e4..e8cd776 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1037,7 +1037,7 @@ impl Simulator {
     /// This function is useful as it returns the location of the currently
     /// executing instruction in memory.
     pub fn prefetch_pc(&self) -> u16 {
-        self.pc - (!self.prefetch) as u16
+        self.pc.wrapping_sub((!self.prefetch) as u16)
     }
 
     /// Checks whether the address points to a memory location that was allocated
-- 
2.43.0


From e2ee8a28d428a4aab4325a2b8f501adec76896b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 05/25] fix: get_label_source ignores the case of the queried
 label

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9fe11f2..232f2f7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -794,7 +794,7 @@ impl SymbolTable {
     /// assert_eq!(sym.get_label_source("LOOP_DE_LOOP"), None);
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
-        self.label_map.get(label)
+        self.label_map.get(&label.to_uppercase())
             .map(|data| data.span(label))
     }
 
-- 
2.43.0


From 3997751ebeaf32e71a85f81dd58c38cc5076d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 06/25] fix: text format reader accepts a .DEBUG section
 without a line table instead of panicking

---
 src/asm/encoding.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index d6b7192..46bcc43 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -506,7 +506,12 @@ impl ObjFileFormat for TextFormat {
                 ".DEBUG" => if !rest.is_empty() {
                     let split_pos = rest.iter().position(|l| l.starts_with('='))?;
                     if !rest.last()?.starts_with('=') { return None; }
-                    let (label_src, [_, line_src @ .., _]) = rest.split_at(split_pos) else { unreachable!("divider should be present") };
+                    let (label_src, line_src) = rest.split_at(split_pos);
+                    // The line table lies between two dividers. It is absent if there's only one divider.
+                    let line_src = match line_src {
+                        [_, line_src @ .., _] => line_src,
+                        _ => &[]
+                    };
 
                     let label_table = parse_table(label_src, ["LABEL", "INDEX"], |[label, index_str], _| {
                         let index = index_str.parse().ok()?;
-- 
2.43.0


From eac70889f92a0f97b4b52bf00ec02b714772be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 07/25] fix: .fill uses of an external label are recorded even
 when .external comes later

---
 src/asm.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 232f2f7..44969b3 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -659,14 +659,13 @@ impl SymbolTable {
                     add_label(&mut label_map, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
-                    let label_text = label.name.to_uppercase();
-                    if let Some(SymbolData { external: true, .. }) = label_map.get(&label_text) {
-                        let Some(cur) = cursor.as_ref() else {
-                            return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
-                        };
+                    let Some(cur) = cursor.as_ref() else {
+                        return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
+                    };
 
-                        rel_map.insert(cur.lc, label_text);
-                    }
+                    // The label may only be declared external later in the file,
+                    // so the external ones are picked out after all statements are read.
+                    rel_map.insert(cur.lc, label.name.to_uppercase());
                 },
                 _ => {}
             };
@@ -694,6 +693,8 @@ impl SymbolTable {
         if let Some(cur) = cursor {
             return Err(AsmErr::new(AsmErrKind::UnclosedOrig, cur.block_orig));
         }
+
+        rel_map.retain(|_, label| label_map.get(label).is_some_and(|data| data.external));
         
         let debug_symbols = debug_sym.map(|(lines, src_info)| DebugSymbols {
             line_map: LineSymbolMap::new(lines)
-- 
2.43.0


From 30670206cc1a6efcb5ed35943c03162be1c2219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 08/25] fix: object files without debug symbols keep the
 symbols of unresolved external references

---
 src/asm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 44969b3..74fe70d 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1181,9 +1181,12 @@ impl ObjectFile {
         let block_map = block_map.into_iter()
             .map(|(start, ObjBlock { words, .. })| (start, words))
             .collect();
+        // Even without debug symbols, unresolved references are needed for linking
+        // (and must keep the file from being loaded before that).
+        let keep_sym = debug || !sym.rel_map.is_empty();
         Ok(Self {
             block_map,
-            sym: debug.then_some(sym),
+            sym: keep_sym.then_some(sym),
         })
     }
 
-- 
2.43.0


From e955f46cd6eb71908b25a417a3468001dad5a17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 09/25] fix: .external lines are not mapped to an address in
 debug symbols

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 74fe70d..d33412a 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -676,7 +676,7 @@ impl SymbolTable {
                 // Calculate which source code line is associated with the instruction the LC is currently pointing to
                 // and add the mapping from line to instruction address.
                 if let Some((lines, s)) = &mut debug_sym {
-                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End)) {
+                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End | Directive::External(_))) {
                         let line_index = s.get_line(stmt.span.start);
                         lines[line_index].replace(cur.lc);
                     }
-- 
2.43.0


From 32c32e201957d8ada3de7f97cb7e2d5fcd281039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:38 +0000
Subject: [PATCH 10/25] fix: source positions past the end are reported on the
 last line

---
 src/asm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index d33412a..2b6f937 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -414,10 +414,10 @@ impl SourceInfo {
     /// the line number is given as the last line and the character number
     /// is given as the number of characters after the start of the line.
     pub fn get_pos_pair(&self, index: usize) -> (usize, usize) {
-        let lno = self.get_line(index);
+        // Indices past the end are considered to be on the last line.
+        let lno = self.get_line(index).min(self.count_lines() - 1);
 
         let Range { start: lstart, .. } = self.raw_line_span(lno)
-            .or_else(|| self.raw_line_span(self.nl_indices.len()))
             .unwrap_or(0..0);
         let cno = index - lstart;
         (lno, cno)
-- 
2.43.0


From 61cd55bd2345dc15835a49bc4edafddb88d191c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 11/25] fix: an error span built from an empty span list has a
 first span

---
 src/err.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/err.rs b/src/err.rs
index fce4a4e..046b488 100644
--- a/src/err.rs
+++ b/src/err.rs
@@ -106,6 +106,7 @@ impl From<Span> for ErrSpan {
 impl From<&[Span]> for ErrSpan {
     fn from(value: &[Span]) -> Self {
         match value {
+            [] => ErrSpan::One(0..0),
             [r0] => ErrSpan::One(r0.clone()),
             [r0, r1] => ErrSpan::Two([r0.clone(), r1.clone()]),
             rr => ErrSpan::Many(rr.to_vec())
@@ -123,7 +124,7 @@ impl From<Vec<Span>> for ErrSpan {
             Ok([r]) => ErrSpan::One(r),
             Err(value) => match <[_; 2]>::try_from(value) {
                 Ok(r2) => ErrSpan::Two(r2),
-                Err(value) => ErrSpan::Many(value)
+                Err(value) => ErrSpan::from(value.as_slice())
             }
         }
     }
-- 
2.43.0


From 6c4cd960b6958018bf4ab352b9905204d0931c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 12/25] fix: spans of a duplicate label cover its spelling when
 uppercasing changes its length

---
 src/asm.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 2b6f937..283a0d7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -596,6 +596,7 @@ impl SymbolTable {
 
         fn add_label(
             labels: &mut HashMap<String, SymbolData>, 
+            first_spans: &mut HashMap<String, Span>,
             label: &crate::ast::Label, 
             addr: u16,
             external: bool
@@ -603,7 +604,8 @@ impl SymbolTable {
             match labels.entry(label.name.to_uppercase()) {
                 // Two labels with different addresses. Conflict.
                 Entry::Occupied(e) if e.get().addr != addr => {
-                    let span1 = e.get().span(e.key());
+                    // The uppercased key may differ in length from the label's spelling in source.
+                    let span1 = first_spans[e.key()].clone();
                     let span2 = label.span();
                     Err(AsmErr::new(AsmErrKind::OverlappingLabels, [span1, span2]))
                 },
@@ -611,6 +613,7 @@ impl SymbolTable {
                 Entry::Occupied(_) => Ok(()),
                 // New label.
                 Entry::Vacant(e) => {
+                    first_spans.insert(e.key().clone(), label.span());
                     e.insert(SymbolData { addr, src_start: label.span().start, external });
                     Ok(())
                 }
@@ -619,6 +622,7 @@ impl SymbolTable {
 
         let mut cursor: Option<Cursor> = None;
         let mut label_map: HashMap<String, SymbolData> = HashMap::new();
+        let mut first_spans: HashMap<String, Span> = HashMap::new();
         let mut rel_map = HashMap::new();
         let mut debug_sym = src.map(|s| {
             let src_info = SourceInfo::new(s);
@@ -640,7 +644,7 @@ impl SymbolTable {
 
                 // Add labels
                 for label in &stmt.labels {
-                    add_label(&mut label_map, label, cur.lc, false)?;
+                    add_label(&mut label_map, &mut first_spans, label, cur.lc, false)?;
                 }
             }
 
@@ -656,7 +660,7 @@ impl SymbolTable {
                 },
                 StmtKind::Directive(Directive::External(label)) => {
                     // Arbitrarily chose 0 as a placeholder for externals
-                    add_label(&mut label_map, label, 0, true)?;
+                    add_label(&mut label_map, &mut first_spans, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
                     let Some(cur) = cursor.as_ref() else {
-- 
2.43.0


From 412c7ff2da8c68f6480ed0ad2b5c91c45e39ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 13/25] fix: text format writer no longer panics on labels
 longer than 65535 bytes

---
 src/asm/encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 46bcc43..68b931f 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -365,6 +365,8 @@ impl ObjFileFormat for TextFormat {
                             (LABEL.len(), INDEX.len()), 
                             |(lc, ic), (lx, ix)| (lc.max(lx), ic.max(ix))
                         );
+                    // Formatting widths are limited to u16
+                    let label_col = label_col.min(usize::from(u16::MAX));
 
                     // Display!
                     writeln!(buf, "{LABEL:1$}{0}{INDEX:2$}", TABLE_DIV, label_col, index_col)?;
-- 
2.43.0


From 698bd29d3b9deb046cb3e1dd09ce42b4b0b8d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 14/25] fix: linking computes block ends without overflowing
 past xFFFF

---
 src/asm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 283a0d7..54d6ff4 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1224,8 +1224,9 @@ impl ObjectFile {
         let mut second = a_obj.block_map.iter();
         second.next();
         if std::iter::zip(first, second).any(|((&a_st, a_bl), (&b_st, b_bl))| {
-            let ar = a_st .. (a_st + a_bl.len() as u16);
-            let br = b_st .. (b_st + b_bl.len() as u16);
+            // Blocks read from a file can end past xFFFF.
+            let ar = usize::from(a_st) .. (usize::from(a_st) + a_bl.len());
+            let br = usize::from(b_st) .. (usize::from(b_st) + b_bl.len());
             ranges_overlap(ar, br)
         }) {
             return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
-- 
2.43.0


From 48f4043103f0677ba665264940cb6d26040b1050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 15/25] fix: linking ignores relocations of addresses outside
 of the object file instead of panicking

---
 src/asm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 54d6ff4..b65cccb 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1298,11 +1298,11 @@ impl ObjectFile {
             (ma, mb) => ma.or(mb)
         };
         for (addr, linked_addr) in relocations {
-            // TODO: handle case where the address needed is not found in block map
-            // should really only occur from invalid manipulation of obj file
-            a_obj.get_mut(addr)
-                .unwrap_or_else(|| unreachable!("object file should have had address x{addr:04X} bound"))
-                .replace(linked_addr);
+            // The address can only be missing if the object file was invalidly manipulated,
+            // in which case there is nothing to replace.
+            if let Some(word) = a_obj.get_mut(addr) {
+                word.replace(linked_addr);
+            }
         }
 
         Ok(a_obj)
-- 
2.43.0


From 4932a5418576fe969a481c9a6058a303e78ee5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 16/25] fix: label spans read from an object file cannot
 overflow

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index b65cccb..b12e0d9 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -443,7 +443,7 @@ struct SymbolData {
 impl SymbolData {
     /// Calculates the source range of this symbol, given the name of the label.
     fn span(&self, label: &str) -> Range<usize> {
-        self.src_start .. (self.src_start + label.len())
+        self.src_start .. self.src_start.saturating_add(label.len())
     }
 }
 
-- 
2.43.0


From be077cdd07dae4532fae834cb0c78adc90f2628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 17/25] fix: binary format reader rejects line tables that lie
 outside of the source

---
 src/asm/encoding.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 68b931f..70334bd 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -147,7 +147,7 @@ impl ObjFileFormat for BinaryFormat {
         let mut block_map  = BTreeMap::new();
         let mut label_map  = HashMap::new();
         let mut rel_map    = HashMap::new();
-        let mut debug_sym  = None::<(BTreeMap<_, _>, String)>;
+        let mut debug_sym  = None::<(BTreeMap<usize, Vec<u16>>, String)>;
 
         vec = vec.strip_prefix(BFMT_MAGIC)?
             .strip_prefix(BFMT_VER)?;
@@ -205,11 +205,21 @@ impl ObjFileFormat for BinaryFormat {
         }
 
         let debug_symbols = match debug_sym {
-            Some((line_map, src)) => Some(DebugSymbols {
-                // Error should propagate to deser
-                line_map: super::LineSymbolMap::from_blocks(line_map)?,
-                src_info: super::SourceInfo::from_string(src),
-            }),
+            Some((line_map, src)) => {
+                let src_info = super::SourceInfo::from_string(src);
+
+                // Line numbers must exist in the source:
+                let lines_in_src = line_map.iter().all(|(lno, data)| {
+                    lno.checked_add(data.len()).is_some_and(|end| end <= src_info.count_lines())
+                });
+                if !lines_in_src { return None; }
+
+                Some(DebugSymbols {
+                    // Error should propagate to deser
+                    line_map: super::LineSymbolMap::from_blocks(line_map)?,
+                    src_info,
+                })
+            },
             None => None,
         };
         let sym = (!label_map.is_empty() || debug_symbols.is_some())
-- 
2.43.0


From 4cc5992070a4c08ad8b763981f8125b29e3b133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:30 +0000
Subject: [PATCH 18/25] fix: linked labels of the second file point into the
 combined source

---
 src/asm.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index b12e0d9..b07f21f 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1238,6 +1238,11 @@ impl ObjectFile {
             // If we have both symbol tables:
             (Some(mut a_sym), Some(b_sym)) => {
                 let SymbolTable { label_map, rel_map, debug_symbols: b_debug_symbols } = b_sym;
+                // Where B's source starts in the combined source (see DebugSymbols::link)
+                let b_src_start = match (&a_sym.debug_symbols, &b_debug_symbols) {
+                    (Some(ads), Some(_)) => ads.src_info.src.len() + 1,
+                    _ => 0
+                };
                 a_sym.debug_symbols = match (a_sym.debug_symbols, b_debug_symbols) {
                     (Some(ads), Some(bds)) => Some(DebugSymbols::link(ads, bds)?),
                     (m_ads, b_ads) => m_ads.or(b_ads)
@@ -1247,7 +1252,8 @@ impl ObjectFile {
                 a_sym.rel_map.extend(rel_map);
 
                 // For every label in symbol table B:
-                for (label, b_sym_data) in label_map {
+                for (label, mut b_sym_data) in label_map {
+                    b_sym_data.src_start = b_sym_data.src_start.saturating_add(b_src_start);
                     match a_sym.label_map.entry(label) {
                         Entry::Occupied(mut e) => {
                             let &a_sym_data = e.get();
-- 
2.43.0


From 187508bc17b699b626ef17c9b0c94edea99ddde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 19/25] fix: label spans cover the spelling in source when it
 differs in length from the queried one

---
 src/asm.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index b07f21f..6ef5939 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -799,8 +799,20 @@ impl SymbolTable {
     /// assert_eq!(sym.get_label_source("LOOP_DE_LOOP"), None);
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
-        self.label_map.get(&label.to_uppercase())
-            .map(|data| data.span(label))
+        let key = label.to_uppercase();
+        let data = self.label_map.get(&key)?;
+
+        // The spelling in source may differ in length from the given one (outside of ASCII),
+        // so measure it if there is a source to measure it in:
+        let src_text = self.source_info().and_then(|s| s.source().get(data.src_start..)).unwrap_or("");
+        let mut upper = String::new();
+        for (i, c) in src_text.char_indices() {
+            upper.extend(c.to_uppercase());
+            if !key.starts_with(&upper) { break; }
+            if upper == key { return Some(data.src_start .. data.src_start + i + c.len_utf8()); }
+        }
+
+        Some(data.span(label))
     }
 
     /// Gets the address of a given source line.
-- 
2.43.0


From 0fa068e869cb31fcee539cc6795fe079011af658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 20/25] fix: strict mode check of the next PC only peeks at
 memory

---
 src/sim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index e8cd776..59bad43 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1019,7 +1019,8 @@ impl Simulator {
         let addr = addr_word.get_if_init(self.flags.strict, SimErr::StrictJmpAddrUninit)?;
         if self.flags.strict && st_check_mem {
             // Check next memory value is initialized:
-            if !self.read_mem(addr, self.default_mem_ctx())?.is_init() {
+            // (This only peeks: the access itself, with its IO effects and privilege checks, occurs at the next fetch.)
+            if !self.mem[addr].is_init() {
                 return Err(SimErr::StrictPCNextUninit);
             }
         }
-- 
2.43.0


From 502e063f713523ebcb8b5513ed5f6b371542046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 21/25] fix: device interrupts at vectors x00-x02 are not
 reported as exceptions under virtual traps

---
 src/sim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 59bad43..c7a099f 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1121,7 +1121,8 @@ impl Simulator {
         // Virtual traps.
         // See the flag for documentation.
         // Virtual HALT
-        if !self.flags.use_real_traps {
+        // (Device interrupts share vectors with the exceptions, but they are not virtualized.)
+        if !self.flags.use_real_traps && priority.is_none() {
             if let Ok(intv) = RealIntVect::try_from(vect) {
                 if !self.prefetch {
                     // decrement PC so that if play is pressed again, it goes back here
-- 
2.43.0


From 97dc86715daa4eac28497acaf9f191bd27732ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 22/25] fix: keyboard and display wait for their buffer lock
 instead of dropping or repeating a byte

---
 src/sim/device/display.rs  | 15 +++++++--------
 src/sim/device/keyboard.rs |  8 ++++++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/sim/device/display.rs b/src/sim/device/display.rs
index 3723615..39e94c0 100644
--- a/src/sim/device/display.rs
+++ b/src/sim/device/display.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, RwLock, RwLockWriteGuard, TryLockError};
+use std::sync::{Arc, PoisonError, RwLock, RwLockWriteGuard, TryLockError};
 
 use super::{DevWrapper, ExternalDevice, Interrupt, DDR, DSR};
 
@@ -66,13 +66,12 @@ impl DisplayDevice for BufferedDisplay {
     }
 
     fn send_output(&mut self, byte: u8) -> bool {
-        match self.try_output() {
-            Some(mut d) => {
-                d.push(byte);
-                true
-            },
-            None => false,
-        }
+        // The program cannot tell a failed write from a successful one,
+        // so wait for the buffer instead of dropping the byte.
+        self.buffer.write()
+            .unwrap_or_else(PoisonError::into_inner)
+            .push(byte);
+        true
     }
     
     fn clear_output(&mut self) {
diff --git a/src/sim/device/keyboard.rs b/src/sim/device/keyboard.rs
index 7a5a491..813241e 100644
--- a/src/sim/device/keyboard.rs
+++ b/src/sim/device/keyboard.rs
@@ -1,5 +1,5 @@
 use std::collections::VecDeque;
-use std::sync::{Arc, RwLock, RwLockWriteGuard, TryLockError};
+use std::sync::{Arc, PoisonError, RwLock, RwLockWriteGuard, TryLockError};
 
 use super::{DevWrapper, ExternalDevice, Interrupt, KBDR, KBSR, KB_INTP, KB_INTV};
 
@@ -99,7 +99,11 @@ impl KeyboardDevice for BufferedKeyboard {
     }
 
     fn pop_input(&mut self) -> Option<u8> {
-        self.try_input()?.pop_front()
+        // The program cannot tell a failed read from a successful one,
+        // so wait for the buffer instead of making it read a stale byte.
+        self.buffer.write()
+            .unwrap_or_else(PoisonError::into_inner)
+            .pop_front()
     }
     
     fn clear_input(&mut self) {
-- 
2.43.0


From e0829202fa652cde535a5b5220b1e0eb125b3cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 23/25] fix: timer interrupts stay within ranges that include 0

---
 src/sim/device/timer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim/device/timer.rs b/src/sim/device/timer.rs
index c103c2d..a28296a 100644
--- a/src/sim/device/timer.rs
+++ b/src/sim/device/timer.rs
@@ -158,7 +158,8 @@ impl ExternalDevice for TimerDevice {
         match self.time {
             0 => {
                 self.reset_remaining();
-                None
+                // No polls between the last interrupt and this one.
+                (self.time == 0).then(|| super::Interrupt::vectored(self.vect, self.priority))
             },
             1 => {
                 self.time = 0;
-- 
2.43.0


From ccc1e965a6722c4564fa97b0bc202865356a12cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 24/25] fix: do not record a write that strict mode rejected in
 the access observer

---
 src/sim.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index c7a099f..c2c70f8 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -876,16 +876,17 @@ impl Simulator {
 
         // Duplicate write in mem array:
         if success {
+            let modified = self.mem[addr] != data;
+            self.mem[addr]
+                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
+
             if ctx.track_access {
                 // Update memory observer:
                 self.observer.update_mem_accesses(addr, AccessSet::WRITTEN);
-                if self.mem[addr] != data {
+                if modified {
                     self.observer.update_mem_accesses(addr, AccessSet::MODIFIED);
                 }
             }
-
-            self.mem[addr]
-                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
         }
 
         Ok(())
-- 
2.43.0


From 7e471c27b9a4453a7d3b4b258485fa9c1cdc2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 25/25] fix: only push a frame for a call that strict mode does
 not reject

---
 src/sim.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index c2c70f8..43d1f7b 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1091,9 +1091,12 @@ impl Simulator {
     /// - Setting R7 to the original PC (return address)
     /// - Adding information to the frame stack
     pub fn call_subroutine(&mut self, addr: u16) -> Result<(), SimErr> {
+        let caller = self.prefetch_pc();
         self.reg_file[R7].set(self.pc);
-        self.frame_stack.push_frame(self.prefetch_pc(), addr, FrameType::Subroutine, &self.reg_file, &self.mem);
-        self.set_pc(Word::new_init(addr), true)
+        // Only push the frame if the subroutine is entered.
+        self.set_pc(Word::new_init(addr), true)?;
+        self.frame_stack.push_frame(caller, addr, FrameType::Subroutine, &self.reg_file, &self.mem);
+        Ok(())
     }
 
     /// Calls a trap or interrupt, adding information to the frame stack
@@ -1105,8 +1108,11 @@ impl Simulator {
         let addr = self.read_mem(vect, self.default_mem_ctx())?
             .get_if_init(self.flags.strict, SimErr::StrictSRAddrUninit)?;
 
-        self.frame_stack.push_frame(self.prefetch_pc(), vect, ft, &self.reg_file, &self.mem);
-        self.set_pc(Word::new_init(addr), true)
+        let caller = self.prefetch_pc();
+        // Only push the frame if the handler is entered.
+        self.set_pc(Word::new_init(addr), true)?;
+        self.frame_stack.push_frame(caller, vect, ft, &self.reg_file, &self.mem);
+        Ok(())
     }
     /// Interrupt, trap, and exception handler.
     /// 
-- 
2.43.0

