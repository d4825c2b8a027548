From a46a7b0fc86a5248f713a3bab8dcf4410b2c885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 01/39] fix: resolve hexadecimal and underscore-separated
 indexes

---
 crates/service/src/binder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 79a2b49..75469db 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -65,7 +65,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                 node.children_with_tokens()
                     .filter_map(|it| it.into_token())
                     .find(|it| matches!(it.kind(), SyntaxKind::UNSIGNED_INT | SyntaxKind::INT))
-                    .and_then(|token| token.text().parse().ok())
+                    .and_then(|token| parse_index(token.text()))
                     .map(|num| SymbolItem {
                         green: node.green().into(),
                         key: node.into(),
@@ -78,6 +78,13 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     })
             })
     }
+    fn parse_index(text: &str) -> Option<u32> {
+        let text = text.replace('_', "");
+        match text.strip_prefix("0x") {
+            Some(hex) => u32::from_str_radix(hex, 16).ok(),
+            None => text.parse().ok(),
+        }
+    }
     fn create_import_desc_symbol(
         db: &dyn SymbolTablesCtx,
         node: &SyntaxNode,
-- 
2.43.0


From 448abef49bae6779690533bc1574dbf7fabce2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:43 +0000
Subject: [PATCH 02/39] fix: bind table uses, exported globals and element
 function indexes

---
 crates/service/src/binder.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 75469db..798498d 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -334,7 +334,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                             create_ref_symbol(db, node, region.clone(), SymbolItemKind::TableRef)
                         }));
                     }
-                    Some("table.init") => {
+                    Some("table.init" | "call_indirect") => {
                         let Some(region) = node
                             .ancestors()
                             .find(|node| node.kind() == SyntaxKind::MODULE)
@@ -432,7 +432,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
-            SyntaxKind::EXPORT_DESC_TABLE => {
+            SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => {
                 if let Some(symbol) = node
                     .ancestors()
                     .find(|node| node.kind() == SyntaxKind::MODULE)
@@ -448,6 +448,37 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
+            SyntaxKind::EXPORT_DESC_GLOBAL => {
+                if let Some(symbol) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                    .zip(
+                        node.children()
+                            .find(|child| child.kind() == SyntaxKind::INDEX),
+                    )
+                    .and_then(|(region, index)| {
+                        create_ref_symbol(db, index, region, SymbolItemKind::GlobalRef)
+                    })
+                {
+                    symbols.push(symbol);
+                }
+            }
+            SyntaxKind::ELEM_LIST | SyntaxKind::ELEM => {
+                if let Some(region) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                {
+                    symbols.extend(
+                        node.children()
+                            .filter(|child| child.kind() == SyntaxKind::INDEX)
+                            .filter_map(|index| {
+                                create_ref_symbol(db, index, region.clone(), SymbolItemKind::Call)
+                            }),
+                    );
+                }
+            }
             SyntaxKind::IMPORT_DESC_TYPE_USE => {
                 if let Some(symbol) =
                     create_import_desc_symbol(db, &node, module_field_id, SymbolItemKind::Func)
-- 
2.43.0


From f00106e4687f8bce8cfb3c711c2759413f0b4639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:19 +0000
Subject: [PATCH 03/39] fix: resolve labels through then, else and folded
 operands

---
 crates/service/src/binder.rs | 39 ++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 798498d..69acc80 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -78,6 +78,24 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     })
             })
     }
+    /// Find the innermost block whose label is visible at the given node,
+    /// or the function if there isn't such block.
+    fn find_label_region(node: &SyntaxNode) -> Option<SyntaxNode> {
+        node.ancestors()
+            .zip(node.ancestors().skip(1))
+            .find(|(child, parent)| match parent.kind() {
+                SyntaxKind::BLOCK_BLOCK
+                | SyntaxKind::BLOCK_LOOP
+                | SyntaxKind::MODULE_FIELD_FUNC => true,
+                // the condition of folded `if` is outside of the label
+                SyntaxKind::BLOCK_IF => matches!(
+                    child.kind(),
+                    SyntaxKind::BLOCK_IF_THEN | SyntaxKind::BLOCK_IF_ELSE
+                ),
+                _ => false,
+            })
+            .map(|(_, parent)| parent)
+    }
     fn parse_index(text: &str) -> Option<u32> {
         let text = text.replace('_', "");
         match text.strip_prefix("0x") {
@@ -274,20 +292,11 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                         }));
                     }
                     Some("br" | "br_if" | "br_table") => {
-                        let Some(region) = node
-                            .ancestors()
-                            .find(|node| {
-                                matches!(
-                                    node.kind(),
-                                    SyntaxKind::BLOCK_BLOCK
-                                        | SyntaxKind::BLOCK_LOOP
-                                        | SyntaxKind::BLOCK_IF
-                                )
-                            })
-                            .map(SymbolItemKey::from)
-                        else {
+                        let Some(region) = find_label_region(&node) else {
                             continue;
                         };
+                        let in_block = region.kind() != SyntaxKind::MODULE_FIELD_FUNC;
+                        let region = SymbolItemKey::from(region);
                         node.children()
                             .filter_map(|node| {
                                 create_ref_symbol(
@@ -297,6 +306,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                     SymbolItemKind::BlockRef,
                                 )
                             })
+                            .filter(|symbol| in_block || symbol.idx.name.is_some())
                             .for_each(|symbol| {
                                 symbols.push(symbol.clone());
                                 let mut current = &symbol;
@@ -353,12 +363,15 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                 }
             }
             SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_IF | SyntaxKind::BLOCK_LOOP => {
-                if let Some(symbol) = create_parent_based_symbol(
+                if let Some(mut symbol) = create_parent_based_symbol(
                     db,
                     node.clone(),
                     0, // fake ID
                     SymbolItemKind::BlockDef,
                 ) {
+                    if let Some(region) = find_label_region(&node) {
+                        symbol.region = region.into();
+                    }
                     symbols.push(symbol);
                 }
             }
-- 
2.43.0


From a01dc160f1259fd1d608212c60f1dc04f4fc17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:06 +0000
Subject: [PATCH 04/39] fix: count parameters taken from a type when indexing
 locals

---
 crates/service/src/binder.rs | 54 ++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 69acc80..921d790 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -4,12 +4,15 @@ use crate::{
     InternUri,
 };
 use rowan::{
-    ast::{support::token, AstNode, SyntaxNodePtr},
+    ast::{
+        support::{child, token},
+        AstNode, SyntaxNodePtr,
+    },
     GreenNode,
 };
 use std::{hash::Hash, rc::Rc};
 use wat_syntax::{
-    ast::{ModuleFieldFunc, PlainInstr},
+    ast::{FuncType, ModuleFieldFunc, PlainInstr},
     SyntaxKind, SyntaxNode, WatLanguage,
 };
 
@@ -128,6 +131,7 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
     let mut module_field_id = 0;
     let mut symbols = Vec::with_capacity(2);
     let mut blocks = vec![];
+    let mut funcs_with_type = vec![];
     for node in root.descendants() {
         match node.kind() {
             SyntaxKind::MODULE => {
@@ -161,6 +165,18 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                 let Some(func) = ModuleFieldFunc::cast(node.clone()) else {
                     continue;
                 };
+                if let Some(index) = func
+                    .type_use()
+                    .filter(|type_use| {
+                        type_use.params().next().is_none() && type_use.results().next().is_none()
+                    })
+                    .and_then(|type_use| type_use.index())
+                {
+                    funcs_with_type.push((
+                        SymbolItemKey::from(node.clone()),
+                        SymbolItemKey::from(index.syntax().clone()),
+                    ));
+                }
                 let local_index = func
                     .type_use()
                     .iter()
@@ -543,7 +559,39 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
             _ => {}
         }
     }
-    Rc::new(SymbolTable { symbols, blocks })
+
+    // functions that only mention a type take parameters from that type
+    let mut symbol_table = SymbolTable { symbols, blocks };
+    for (func, index) in funcs_with_type {
+        let params = symbol_table
+            .find_defs(&index)
+            .and_then(|mut types| types.next())
+            .and_then(|symbol| child::<FuncType>(&symbol.key.ptr.to_node(&root)))
+            .iter()
+            .flat_map(|func_type| func_type.params())
+            .flat_map(|param| param.val_types())
+            .zip(0..)
+            .map(|(val_type, num)| SymbolItem {
+                key: val_type.syntax().clone().into(),
+                green: val_type.syntax().green().into(),
+                region: func.clone(),
+                kind: SymbolItemKind::Param,
+                idx: Idx {
+                    num: Some(num),
+                    name: None,
+                },
+            })
+            .collect::<Vec<_>>();
+        symbol_table
+            .symbols
+            .iter_mut()
+            .filter(|symbol| symbol.kind == SymbolItemKind::Local && symbol.region == func)
+            .for_each(|symbol| {
+                symbol.idx.num = symbol.idx.num.map(|num| num + params.len() as u32)
+            });
+        symbol_table.symbols.extend(params);
+    }
+    Rc::new(symbol_table)
 }
 
 impl SymbolTable {
-- 
2.43.0


From d3eecd7f1290e99671c0f111514e6227d91b69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 05/39] fix: exclude branches to inner labels from references
 of a block

---
 crates/service/src/features/references.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/features/references.rs b/crates/service/src/features/references.rs
index 06d1dfb..347dcd2 100644
--- a/crates/service/src/features/references.rs
+++ b/crates/service/src/features/references.rs
@@ -372,7 +372,12 @@ fn get_block_refs(
         symbol_table
             .blocks
             .iter()
-            .filter(|(_, def_key, _)| def_key == &def_symbol.key)
+            .filter(|(ref_key, def_key, _)| {
+                def_key == &def_symbol.key
+                    && symbol_table
+                        .find_block_def(ref_key)
+                        .is_some_and(|symbol| symbol == def_symbol)
+            })
             .filter_map(|(ref_key, _, _)| {
                 symbol_table
                     .symbols
-- 
2.43.0


From ea63af5db7dd44403c0c2016067faa7505999f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 06/39] fix: report duplicated names of tables and nested
 labels only

---
 crates/service/src/checker/dup_names.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index ceca7a3..92d5e9d 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -32,7 +32,7 @@ pub fn check(
                         | SymbolItemKind::Type
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
-                        | SymbolItemKind::BlockDef
+                        | SymbolItemKind::TableDef
                 )
             })
             .fold(FxHashMap::default(), |mut map, symbol| {
@@ -117,11 +117,7 @@ pub fn check(
                                 *other != symbol
                                     && other.kind == SymbolItemKind::BlockDef
                                     && other.idx.name.is_some_and(|other| other == name)
-                                    && symbol
-                                        .key
-                                        .ptr
-                                        .text_range()
-                                        .contains_range(other.key.ptr.text_range())
+                                    && is_label_visible(symbol_table, symbol, other)
                             })
                             .map(|other| get_ident_range(other, root)),
                     );
@@ -129,7 +125,7 @@ pub fn check(
                 map
             })
             .into_iter()
-            .filter(|(_, ranges)| ranges.len() > 1)
+            .filter(|(_, ranges)| !ranges.is_empty())
             .map(|((symbol, name), mut ranges)| {
                 ranges.sort_by_key(|range| range.start());
                 let name = service.lookup_ident(name);
@@ -159,6 +155,21 @@ pub fn check(
     );
 }
 
+fn is_label_visible(symbol_table: &SymbolTable, label: &SymbolItem, block: &SymbolItem) -> bool {
+    let mut current = block;
+    while let Some(parent) = symbol_table
+        .symbols
+        .iter()
+        .find(|sym| sym.kind == SymbolItemKind::BlockDef && sym.key == current.region)
+    {
+        if parent == label {
+            return true;
+        }
+        current = parent;
+    }
+    false
+}
+
 fn get_ident_range(symbol: &SymbolItem, root: &SyntaxNode) -> TextRange {
     token(&symbol.key.ptr.to_node(root), SyntaxKind::IDENT)
         .map(|token| token.text_range())
-- 
2.43.0


From 63894d6e9a8b66bdabb6b08860e8701b64d976bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:10 +0000
Subject: [PATCH 07/39] fix: rename only the identifiers bound to the renamed
 symbol

---
 crates/service/src/features/rename.rs | 55 +++++++++++++++++----------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index b978d7f..354cd15 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -9,10 +9,9 @@ use crate::{
 use lsp_types::{
     PrepareRenameResponse, RenameParams, TextDocumentPositionParams, TextEdit, WorkspaceEdit,
 };
-use rowan::ast::support;
-use std::collections::HashMap;
+use std::{collections::HashMap, iter};
 use wat_parser::is_id_char;
-use wat_syntax::{SyntaxKind, SyntaxNode, SyntaxToken};
+use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken};
 
 const ERR_INVALID_IDENTIFIER: &str = "not a valid identifier";
 const ERR_CANT_BE_RENAMED: &str = "This can't be renamed.";
@@ -66,11 +65,20 @@ impl LanguageService {
         let symbol_table = self.symbol_table(uri);
 
         let old_name = self.ident(ident_token.text().to_string());
-        let symbol_key = ident_token.parent()?.into();
+        let mut symbol_node = ident_token.parent()?;
+        if symbol_node.kind() == SyntaxKind::BLOCK_IF_ELSE {
+            symbol_node = symbol_node.parent()?;
+        }
+        let symbol_key = symbol_node.into();
         let symbol = symbol_table
             .symbols
             .iter()
             .find(|symbol| symbol.key == symbol_key)?;
+        let block = if symbol.kind == SymbolItemKind::BlockDef {
+            Some(symbol)
+        } else {
+            symbol_table.find_block_def(&symbol_key)
+        };
         let text_edits = symbol_table
             .symbols
             .iter()
@@ -89,30 +97,35 @@ impl LanguageService {
                 | SymbolItemKind::TableDef
                 | SymbolItemKind::TableRef => {
                     symbol.region == sym.region
-                        && symbol.idx.name.is_some_and(|name| name == old_name)
-                }
-                SymbolItemKind::BlockDef => {
-                    symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &symbol_key == ref_key && def_key == &sym.key
-                        })
+                        && !matches!(
+                            symbol.kind,
+                            SymbolItemKind::BlockDef | SymbolItemKind::BlockRef
+                        )
+                        && sym.idx.name.is_some_and(|name| name == old_name)
                 }
+                SymbolItemKind::BlockDef => block.is_some_and(|block| block == *sym),
                 SymbolItemKind::BlockRef => {
                     symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &sym.key == ref_key && def_key == &symbol.key
+                        || block.is_some_and(|block| {
+                            symbol_table
+                                .find_block_def(&sym.key)
+                                .is_some_and(|def| def == block)
                         })
-                        || symbol_table
-                            .find_block_def(&symbol_key)
-                            .is_some_and(|def_symbol| {
-                                symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                                    &sym.key == ref_key && def_key == &def_symbol.key
-                                })
-                            })
                 }
                 SymbolItemKind::Module => false,
             })
-            .filter_map(|sym| support::token(&sym.key.ptr.to_node(&root), SyntaxKind::IDENT))
+            .flat_map(|sym| {
+                let node = sym.key.ptr.to_node(&root);
+                // labels can be repeated after `else` and `end`
+                let else_branch = node
+                    .children()
+                    .find(|child| child.kind() == SyntaxKind::BLOCK_IF_ELSE);
+                iter::once(node)
+                    .chain(else_branch)
+                    .flat_map(|node| node.children_with_tokens())
+                    .filter_map(SyntaxElement::into_token)
+                    .filter(|token| token.text() == ident_token.text())
+            })
             .map(|token| TextEdit {
                 range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
                 new_text: params.new_name.clone(),
-- 
2.43.0


From 9f14bca3c01ff6695f00e44216ccc9193acdc709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:58 +0000
Subject: [PATCH 08/39] fix: count columns of LSP positions in UTF-16 code
 units

---
 crates/service/src/files.rs   | 12 ++++-----
 crates/service/src/helpers.rs | 48 ++++++++++++++++++++++++-----------
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/crates/service/src/files.rs b/crates/service/src/files.rs
index aa0c0d9..aef36bc 100644
--- a/crates/service/src/files.rs
+++ b/crates/service/src/files.rs
@@ -1,6 +1,6 @@
-use crate::InternUri;
+use crate::{helpers, InternUri};
 use line_index::{LineIndex, TextSize};
-use lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range, Uri};
+use lsp_types::{Diagnostic, DiagnosticSeverity, Range, Uri};
 use rowan::GreenNode;
 use std::rc::Rc;
 use wat_parser::Parser;
@@ -38,12 +38,12 @@ fn parse(db: &dyn FilesCtx, uri: InternUri) -> (GreenNode, Vec<Diagnostic>) {
         .errors()
         .iter()
         .map(|error| {
-            let start = line_index.line_col(TextSize::new(error.start as u32));
-            let end = line_index.line_col(TextSize::new(error.end as u32));
+            let start = TextSize::new(error.start as u32);
+            let end = TextSize::new(error.end as u32);
             Diagnostic {
                 range: Range::new(
-                    Position::new(start.line, start.col),
-                    Position::new(end.line, end.col),
+                    helpers::rowan_pos_to_lsp_pos(&line_index, start),
+                    helpers::rowan_pos_to_lsp_pos(&line_index, end),
                 ),
                 severity: Some(DiagnosticSeverity::ERROR),
                 source: Some("wat".into()),
diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 6dd22dc..6cf55c8 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -1,10 +1,14 @@
-use line_index::{LineCol, LineIndex};
+use line_index::{LineCol, LineIndex, WideEncoding, WideLineCol};
 use lsp_types::{Position, Range};
 use rowan::{TextRange, TextSize};
 
+/// Columns of LSP positions are counted in UTF-16 code units.
 pub fn rowan_pos_to_lsp_pos(line_index: &LineIndex, pos: TextSize) -> Position {
     let line_col = line_index.line_col(pos);
-    Position::new(line_col.line, line_col.col)
+    let col = line_index
+        .to_wide(WideEncoding::Utf16, line_col)
+        .map_or(line_col.col, |wide| wide.col);
+    Position::new(line_col.line, col)
 }
 
 pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Range {
@@ -15,23 +19,37 @@ pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Ran
 }
 
 pub fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<TextSize> {
-    line_index.offset(LineCol {
+    let line_start = line_index.offset(LineCol {
         line: pos.line,
-        col: pos.character,
-    })
+        col: 0,
+    })?;
+    let line_end = line_index
+        .offset(LineCol {
+            line: pos.line.checked_add(1)?,
+            col: 0,
+        })
+        .map_or(line_index.len(), |next_line| {
+            next_line - TextSize::new(1)
+        });
+    let col = line_index
+        .to_utf8(
+            WideEncoding::Utf16,
+            WideLineCol {
+                line: pos.line,
+                col: pos.character,
+            },
+        )?
+        .col;
+    // column after the end of line means the end of that line
+    let offset = line_start + TextSize::new(col.min((line_end - line_start).into()));
+    line_index.try_line_col(offset).map(|_| offset)
 }
 
 pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
-    line_index
-        .offset(LineCol {
-            line: range.start.line,
-            col: range.start.character,
-        })
-        .zip(line_index.offset(LineCol {
-            line: range.end.line,
-            col: range.end.character,
-        }))
-        .map(|(start, end)| TextRange::new(TextSize::new(start.into()), TextSize::new(end.into())))
+    lsp_pos_to_rowan_pos(line_index, range.start)
+        .zip(lsp_pos_to_rowan_pos(line_index, range.end))
+        .filter(|(start, end)| start <= end)
+        .map(|(start, end)| TextRange::new(start, end))
 }
 
 pub(crate) mod ast {
-- 
2.43.0


From 50e7ca67afb12f5f2b5c57d4634ed697a934266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:51 +0000
Subject: [PATCH 09/39] fix: compute semantic token deltas from positions

---
 .../service/src/features/semantic_tokens.rs   | 59 ++++++-------------
 1 file changed, 18 insertions(+), 41 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 8519e5b..c0c12c4 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -1,7 +1,6 @@
 use crate::{binder::SymbolTablesCtx, files::FilesCtx, helpers, InternUri, LanguageService};
-use line_index::LineCol;
 use lsp_types::{
-    SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
+    Position, SemanticToken, SemanticTokens, SemanticTokensParams, SemanticTokensRangeParams,
     SemanticTokensRangeResult, SemanticTokensResult,
 };
 use rowan::ast::support;
@@ -15,15 +14,12 @@ impl LanguageService {
         params: SemanticTokensParams,
     ) -> Option<SemanticTokensResult> {
         let uri = self.uri(params.text_document.uri);
-        let mut delta_line = 0;
-        let mut prev_start = 0;
         let tokens = self.build_tokens(
             uri,
             SyntaxNode::new_root(self.root(uri))
                 .descendants_with_tokens()
                 .filter_map(SyntaxElement::into_token),
-            &mut delta_line,
-            &mut prev_start,
+            Position::default(),
         );
         Some(SemanticTokensResult::Tokens(SemanticTokens {
             result_id: None,
@@ -41,21 +37,16 @@ impl LanguageService {
         let start = helpers::lsp_pos_to_rowan_pos(&line_index, params.range.start)?;
         let end = helpers::lsp_pos_to_rowan_pos(&line_index, params.range.end)?;
 
-        let mut delta_line = 0;
-        let mut prev_start = 0;
         let mut tokens = SyntaxNode::new_root(self.root(uri))
             .descendants_with_tokens()
             .filter_map(SyntaxElement::into_token)
             .skip_while(|token| token.text_range().end() <= start)
             .take_while(|token| token.text_range().start() < end)
             .peekable();
-        if let Some(token) = tokens.peek() {
-            LineCol {
-                line: delta_line,
-                col: prev_start,
-            } = line_index.line_col(token.text_range().start());
-        }
-        let tokens = self.build_tokens(uri, tokens, &mut delta_line, &mut prev_start);
+        let base = tokens.peek().map_or_else(Position::default, |token| {
+            helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start())
+        });
+        let tokens = self.build_tokens(uri, tokens, base);
         Some(SemanticTokensRangeResult::Tokens(SemanticTokens {
             result_id: None,
             data: tokens,
@@ -66,40 +57,26 @@ impl LanguageService {
         &self,
         uri: InternUri,
         tokens: impl Iterator<Item = SyntaxToken>,
-        delta_line: &mut u32,
-        prev_start: &mut u32,
+        base: Position,
     ) -> Vec<SemanticToken> {
         let line_index = self.line_index(uri);
+        let mut base_line = base.line;
+        let mut prev = base;
         tokens
             .filter_map(|token| {
-                if token.kind() == SyntaxKind::WHITESPACE {
-                    let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
-                    if lines > 0 {
-                        *delta_line += lines;
-                        *prev_start = 0;
-                    }
-                    return None;
-                }
                 let token_type = self.token_type(uri, &token)?;
-                let block_comment_lines = if token.kind() == SyntaxKind::BLOCK_COMMENT {
-                    Some(token.text().chars().filter(|c| *c == '\n').count() as u32)
+                let pos = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start());
+                let delta_line = pos.line - prev.line;
+                let delta_start = if delta_line == 0 {
+                    pos.character - prev.character
                 } else {
-                    None
+                    pos.character
                 };
-                let range = token.text_range();
-                let col = line_index.line_col(range.start()).col;
+                prev = pos;
                 Some(SemanticToken {
-                    delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
-                    delta_start: col
-                        - mem::replace(
-                            prev_start,
-                            if block_comment_lines.is_some_and(|lines| lines > 0) {
-                                0
-                            } else {
-                                col
-                            },
-                        ),
-                    length: range.len().into(),
+                    delta_line: mem::take(&mut base_line) + delta_line,
+                    delta_start,
+                    length: token.text().encode_utf16().count() as u32,
                     token_type,
                     token_modifiers_bitset: 0,
                 })
-- 
2.43.0


From 65724cce6c629992f9abf605b2e23ab0c4dafd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 10/39] fix: do not panic on unterminated nested block comment

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c972ad0..50c8398 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -115,7 +115,7 @@ fn block_comment_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError
             (
                 take_until(0.., ("(;", ";)")),
                 dispatch! {peek(opt("(;"));
-                    Some(..) => opt(block_comment_impl).void(),
+                    Some(..) => block_comment_impl.void(),
                     None => empty,
                 },
             ),
-- 
2.43.0


From 14878c25b7a44a6c08c237896cc9b01458a29dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:04 +0000
Subject: [PATCH 11/39] fix: keep form feeds and malformed strings in the
 syntax tree

---
 crates/parser/src/parser/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 50c8398..8626a37 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -293,9 +293,9 @@ pub(super) fn error_token<'s>(
         '$' => ('$', take_while(0.., is_id_char)).take(),
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
-        '"' => string_impl,
+        '"' => alt((string_impl, "\"")),
         c if is_id_char(c) => take_while(1.., is_id_char),
-        _ => take_till(1.., |c: char| c == '(' || c == ')' || c.is_ascii_whitespace()),
+        _ => take_till(1.., |c: char| matches!(c, '(' | ')' | ' ' | '\t' | '\r' | '\n')),
     }
     .map(|text| tok(ERROR, text))
 }
-- 
2.43.0


From 089aa12240818b4c74f5c241db17d53b92573234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:13 +0000
Subject: [PATCH 12/39] fix: report syntax errors with ordered ranges

---
 crates/parser/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/error.rs b/crates/parser/src/error.rs
index 646c727..2583734 100644
--- a/crates/parser/src/error.rs
+++ b/crates/parser/src/error.rs
@@ -29,7 +29,8 @@ impl FromRecoverableError<Input<'_>, SyntaxError> for SyntaxError {
         input: &Input,
         mut e: SyntaxError,
     ) -> Self {
-        e.end = input.location();
+        // the parser may have failed after the point it recovers from
+        e.end = input.location().max(e.start);
         e
     }
 }
-- 
2.43.0


From c7fc92c5dc80184440fd3299b620af9f4a313dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:55 +0000
Subject: [PATCH 13/39] fix: report stray tokens after the last module

---
 crates/parser/src/parser/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/mod.rs b/crates/parser/src/parser/mod.rs
index 4d42126..12480b2 100644
--- a/crates/parser/src/parser/mod.rs
+++ b/crates/parser/src/parser/mod.rs
@@ -42,8 +42,12 @@ impl<'s> Parser<'s> {
     /// Parse the code into a rowan green node.
     pub fn parse_to_green(&mut self) -> GreenNode {
         let (_, tree, errors) = root.recoverable_parse(*self.input);
+        let tree = tree.expect("parser should always succeed even if there are syntax errors");
         self.errors = errors;
-        tree.expect("parser should always succeed even if there are syntax errors")
+        if self.errors.is_empty() {
+            self.errors.extend(find_stray_token(&tree));
+        }
+        tree
     }
 
     /// Retrieve syntax errors.
@@ -87,6 +91,24 @@ fn root(input: &mut Input) -> PResult<GreenNode, SyntaxError> {
         })
 }
 
+/// Tokens after the last module are consumed without recording errors,
+/// because they can be left over by recovery from another error.
+fn find_stray_token(root: &GreenNode) -> Option<SyntaxError> {
+    let mut start = 0;
+    for child in root.children() {
+        let end = start + usize::from(child.text_len());
+        if child.kind() == SyntaxKind::ERROR.into() {
+            return Some(SyntaxError {
+                start,
+                end,
+                message: StrContext::Label("unexpected token"),
+            });
+        }
+        start = end;
+    }
+    None
+}
+
 /// Note: use `retry_once` instead if you're using `retry` in `repeat` or `repeat_till`.
 // copied and modified from https://github.com/winnow-rs/winnow/blob/95e0c100656a98a0ff3bc8420fc8844edff6b615/src/combinator/parser.rs#L963
 fn retry<'s, P, const N: usize>(
-- 
2.43.0


From 152550103d25a9a348ec4ce01eba200793e98e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 14/39] fix: accept underscores in signed hexadecimal floats

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 8626a37..342b00c 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -266,7 +266,7 @@ fn float_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     )
         .take()
         .verify(|text: &str| {
-            let is_hex = text.starts_with("0x");
+            let is_hex = text.trim_start_matches(['+', '-']).starts_with("0x");
             let mut chars = text.chars();
             while let Some(c) = chars.next() {
                 if c == '_'
-- 
2.43.0


From 339c3ea9f9e3af426e6ae6f442694a4155e08720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 15/39] fix: accept apostrophes in identifiers

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 342b00c..0158fcf 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -168,7 +168,7 @@ pub fn is_id_char(c: char) -> bool {
         || c.is_ascii_punctuation()
             && !matches!(
                 c,
-                '\'' | '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}'
+                '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}'
             )
 }
 
-- 
2.43.0


From b2802b22b399e8c6c5c1f575d43c684394edefcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 16/39] fix: end line comments at carriage returns

---
 crates/parser/src/parser/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 0158fcf..d2cb606 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -2,7 +2,7 @@ use super::{tok, GreenElement, GreenResult, Input};
 use crate::error::SyntaxError;
 use wat_syntax::SyntaxKind::*;
 use winnow::{
-    ascii::{hex_digit0, line_ending, multispace1, take_escaped, till_line_ending},
+    ascii::{hex_digit0, line_ending, multispace1, take_escaped},
     combinator::{alt, dispatch, empty, eof, fail, not, opt, peek, preceded, repeat, repeat_till},
     error::{ErrMode, FromRecoverableError, StrContext, StrContextValue},
     stream::{AsChar, Recover, Stream},
@@ -96,7 +96,7 @@ pub(super) fn ws(input: &mut Input) -> GreenResult {
 }
 
 pub(super) fn line_comment(input: &mut Input) -> GreenResult {
-    (";;", till_line_ending)
+    (";;", take_till(0.., ['\n', '\r']))
         .take()
         .parse_next(input)
         .map(|text| tok(LINE_COMMENT, text))
-- 
2.43.0


From 6fa7b6ce44de9138c88e580144367c5a457d75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:38 +0000
Subject: [PATCH 17/39] fix: report unterminated string literals

---
 crates/parser/src/parser/token.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index d2cb606..59ea564 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -5,7 +5,7 @@ use winnow::{
     ascii::{hex_digit0, line_ending, multispace1, take_escaped},
     combinator::{alt, dispatch, empty, eof, fail, not, opt, peek, preceded, repeat, repeat_till},
     error::{ErrMode, FromRecoverableError, StrContext, StrContextValue},
-    stream::{AsChar, Recover, Stream},
+    stream::{AsChar, Location, Recover, Stream},
     token::{any, none_of, one_of, take_till, take_until, take_while},
     PResult, Parser,
 };
@@ -173,14 +173,28 @@ pub fn is_id_char(c: char) -> bool {
 }
 
 pub(super) fn string(input: &mut Input) -> GreenResult {
-    string_impl
+    let start = input.checkpoint();
+    let location = input.location();
+    let (end, text) = string_inner
+        .with_taken()
         .context(StrContext::Expected(StrContextValue::Description(
             "string literal",
         )))
-        .parse_next(input)
-        .map(|text| tok(STRING, text))
+        .parse_next(input)?;
+    if end != "\"" {
+        let error = SyntaxError {
+            start: location,
+            end: location,
+            message: StrContext::Expected(StrContextValue::Description("end of string literal")),
+        };
+        input.record_err(&start, &start, ErrMode::Backtrack(error))?;
+    }
+    Ok(tok(STRING, text))
 }
 fn string_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
+    string_inner.take().parse_next(input)
+}
+fn string_inner<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
     (
         '"',
         take_escaped(
@@ -193,8 +207,8 @@ fn string_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
         ),
         alt(("\"", peek(line_ending), eof)),
     )
-        .take()
         .parse_next(input)
+        .map(|(_, _, end)| end)
 }
 
 pub(super) fn int(input: &mut Input) -> GreenResult {
-- 
2.43.0


From 5b0ab07cad4528c1c5f8d5b012293148df3d3b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:04 +0000
Subject: [PATCH 18/39] fix: accept several result groups in block types

---
 crates/parser/src/parser/instr.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/instr.rs b/crates/parser/src/parser/instr.rs
index 306794d..28327c4 100644
--- a/crates/parser/src/parser/instr.rs
+++ b/crates/parser/src/parser/instr.rs
@@ -33,7 +33,20 @@ fn block_instr(input: &mut Input) -> GreenResult {
 
 fn block_type(input: &mut Input) -> GreenResult {
     alt((
-        result.map(|child| node(BLOCK_TYPE, [child])),
+        (
+            result,
+            repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(result)),
+        )
+            .map(|(first, rest)| {
+                if rest.is_empty() {
+                    node(BLOCK_TYPE, [first])
+                } else {
+                    let mut children = vec![first];
+                    rest.into_iter()
+                        .for_each(|mut result| children.append(&mut result));
+                    node(BLOCK_TYPE, [node(TYPE_USE, children)])
+                }
+            }),
         type_use.map(|child| node(BLOCK_TYPE, [child])),
     ))
     .parse_next(input)
-- 
2.43.0


From 24bc97a800df9d483f3cf03ffcd56b96f4697c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:19 +0000
Subject: [PATCH 19/39] fix: keep trivia between params and results when
 formatting

---
 crates/formatter/src/printer/module.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index d211a12..f847b66 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -1218,10 +1218,10 @@ impl DocGen for TypeUse {
 
         let mut params = self.params();
         if let Some(param) = params.next() {
-            if trivias.is_empty() && !docs.is_empty() {
-                docs.push(Doc::soft_line().nest(ctx.indent_width));
-            } else if self.l_paren_token().is_some() {
+            if !trivias.is_empty() {
                 docs.append(&mut trivias);
+            } else if !docs.is_empty() {
+                docs.push(Doc::soft_line().nest(ctx.indent_width));
             }
             docs.push(param.doc(ctx));
             trivias = format_trivias_after_node(param, ctx);
@@ -1237,10 +1237,10 @@ impl DocGen for TypeUse {
         });
         let mut results = self.results();
         if let Some(result) = results.next() {
-            if trivias.is_empty() && !docs.is_empty() {
-                docs.push(Doc::space());
-            } else if self.l_paren_token().is_some() {
+            if !trivias.is_empty() {
                 docs.append(&mut trivias);
+            } else if !docs.is_empty() {
+                docs.push(Doc::space());
             }
             docs.push(result.doc(ctx));
             trivias = format_trivias_after_node(result, ctx);
-- 
2.43.0


From 69c9c3328dd5b53936ec0852f944b1a98fd69ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:19 +0000
Subject: [PATCH 20/39] fix: keep shared and unshared of limits when formatting

---
 crates/formatter/src/printer/ty.rs | 9 +++++++++
 crates/syntax/src/ast/ty.rs        | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/crates/formatter/src/printer/ty.rs b/crates/formatter/src/printer/ty.rs
index 688adc5..589254e 100644
--- a/crates/formatter/src/printer/ty.rs
+++ b/crates/formatter/src/printer/ty.rs
@@ -85,6 +85,15 @@ impl DocGen for Limits {
                 docs.append(&mut trivias);
             }
             docs.push(Doc::text(max.to_string()));
+            trivias = format_trivias_after_token(max, ctx);
+        }
+        if let Some(share) = self.share_token() {
+            if trivias.is_empty() {
+                docs.push(Doc::space());
+            } else {
+                docs.append(&mut trivias);
+            }
+            docs.push(Doc::text(share.to_string()));
         }
         Doc::list(docs)
     }
diff --git a/crates/syntax/src/ast/ty.rs b/crates/syntax/src/ast/ty.rs
index e05474a..a677409 100644
--- a/crates/syntax/src/ast/ty.rs
+++ b/crates/syntax/src/ast/ty.rs
@@ -128,6 +128,10 @@ impl Limits {
             })
             .nth(1)
     }
+    #[inline]
+    pub fn share_token(&self) -> Option<SyntaxToken> {
+        token(&self.syntax, SyntaxKind::SHARE)
+    }
 }
 impl AstNode for Limits {
     type Language = WatLanguage;
-- 
2.43.0


From aa38a6c4b0034bec87277ba1585c8ff4b7d7b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:26 +0000
Subject: [PATCH 21/39] fix: accept several inline exports of globals, memories
 and tables

---
 crates/formatter/src/printer/module.rs | 86 +++++++++-----------------
 crates/parser/src/parser/module.rs     | 42 +++++--------
 2 files changed, 45 insertions(+), 83 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index f847b66..9c82067 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -729,7 +729,7 @@ impl DocGen for ModuleFieldFunc {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
+        self.syntax().children().filter_map(Import::cast).for_each(|import| {
             if trivias.is_empty() {
                 docs.push(Doc::space());
             } else {
@@ -737,7 +737,7 @@ impl DocGen for ModuleFieldFunc {
             }
             docs.push(import.doc(ctx));
             trivias = format_trivias_after_node(import, ctx);
-        }
+        });
         self.exports().for_each(|export| {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -820,24 +820,7 @@ impl DocGen for ModuleFieldGlobal {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        if let Some(export) = self.export() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        }
+        format_imports_and_exports(self.syntax(), &mut docs, &mut trivias, ctx);
         if let Some(global_type) = self.global_type() {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -934,24 +917,7 @@ impl DocGen for ModuleFieldMemory {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        if let Some(export) = self.export() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        }
+        format_imports_and_exports(self.syntax(), &mut docs, &mut trivias, ctx);
         if let Some(memory_type) = self.memory_type() {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -1026,24 +992,7 @@ impl DocGen for ModuleFieldTable {
             docs.push(Doc::text(ident.to_string()));
             trivias = format_trivias_after_token(ident, ctx);
         }
-        if let Some(import) = self.import() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(import.doc(ctx));
-            trivias = format_trivias_after_node(import, ctx);
-        }
-        if let Some(export) = self.export() {
-            if trivias.is_empty() {
-                docs.push(Doc::space());
-            } else {
-                docs.append(&mut trivias);
-            }
-            docs.push(export.doc(ctx));
-            trivias = format_trivias_after_node(export, ctx);
-        }
+        format_imports_and_exports(self.syntax(), &mut docs, &mut trivias, ctx);
         if let Some(table_type) = self.table_type() {
             if trivias.is_empty() {
                 docs.push(Doc::space());
@@ -1259,6 +1208,31 @@ impl DocGen for TypeUse {
     }
 }
 
+/// Inline imports and exports, in the order they're written.
+fn format_imports_and_exports(
+    node: &SyntaxNode,
+    docs: &mut Vec<Doc<'static>>,
+    trivias: &mut Vec<Doc<'static>>,
+    ctx: &Ctx,
+) {
+    node.children().for_each(|child| {
+        let (doc, trivias_after) = if let Some(import) = Import::cast(child.clone()) {
+            (import.doc(ctx), format_trivias_after_node(import, ctx))
+        } else if let Some(export) = Export::cast(child) {
+            (export.doc(ctx), format_trivias_after_node(export, ctx))
+        } else {
+            return;
+        };
+        if trivias.is_empty() {
+            docs.push(Doc::space());
+        } else {
+            docs.append(trivias);
+        }
+        docs.push(doc);
+        *trivias = trivias_after;
+    });
+}
+
 fn format_export_desc(
     l_paren: Option<SyntaxToken>,
     keyword: Option<SyntaxToken>,
diff --git a/crates/parser/src/parser/module.rs b/crates/parser/src/parser/module.rs
index 5bbade9..bbd1fe1 100644
--- a/crates/parser/src/parser/module.rs
+++ b/crates/parser/src/parser/module.rs
@@ -213,27 +213,23 @@ fn module_field_global(input: &mut Input) -> GreenResult {
         l_paren,
         trivias_prefixed(keyword("global")),
         opt(trivias_prefixed(ident)),
-        opt(trivias_prefixed(import)), // postpone syntax error for using import with export or instr
-        opt(trivias_prefixed(export)),
+        repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(alt((import, export)))), // postpone syntax error for using import with export or instr
         must(retry_once(global_type, [])),
         repeat::<_, _, Vec<_>, _, _>(0.., retry_once(instr, [])),
         r_paren,
     )
         .parse_next(input)
         .map(
-            |(l_paren, mut keyword, id, import, export, ty, instrs, r_paren)| {
+            |(l_paren, mut keyword, id, imports_or_exports, ty, instrs, r_paren)| {
                 let mut children = Vec::with_capacity(7);
                 children.push(l_paren);
                 children.append(&mut keyword);
                 if let Some(mut id) = id {
                     children.append(&mut id);
                 }
-                if let Some(mut import) = import {
-                    children.append(&mut import);
-                }
-                if let Some(mut export) = export {
-                    children.append(&mut export);
-                }
+                imports_or_exports
+                    .into_iter()
+                    .for_each(|mut import_or_export| children.append(&mut import_or_export));
                 if let Some(mut ty) = ty {
                     children.append(&mut ty);
                 }
@@ -283,8 +279,7 @@ fn module_field_memory(input: &mut Input) -> GreenResult {
         l_paren,
         trivias_prefixed(keyword("memory")),
         opt(trivias_prefixed(ident)),
-        opt(trivias_prefixed(import)), // postpone syntax error for using import with export or instr
-        opt(trivias_prefixed(export)),
+        repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(alt((import, export)))), // postpone syntax error for using import with export or instr
         dispatch! {peek(preceded(trivias, any));
             '(' => must(retry_once(data, [])),
             _ => must(retry_once(memory_type, [])),
@@ -293,19 +288,16 @@ fn module_field_memory(input: &mut Input) -> GreenResult {
     )
         .parse_next(input)
         .map(
-            |(l_paren, mut keyword, id, import, export, mem_type_or_data, r_paren)| {
+            |(l_paren, mut keyword, id, imports_or_exports, mem_type_or_data, r_paren)| {
                 let mut children = Vec::with_capacity(8);
                 children.push(l_paren);
                 children.append(&mut keyword);
                 if let Some(mut id) = id {
                     children.append(&mut id);
                 }
-                if let Some(mut import) = import {
-                    children.append(&mut import);
-                }
-                if let Some(mut export) = export {
-                    children.append(&mut export);
-                }
+                imports_or_exports
+                    .into_iter()
+                    .for_each(|mut import_or_export| children.append(&mut import_or_export));
                 if let Some(mut mem_type_or_data) = mem_type_or_data {
                     children.append(&mut mem_type_or_data);
                 }
@@ -344,8 +336,7 @@ fn module_field_table(input: &mut Input) -> GreenResult {
         l_paren,
         trivias_prefixed(keyword("table")),
         opt(trivias_prefixed(ident)),
-        opt(trivias_prefixed(import)), // postpone syntax error for using import with export or instr
-        opt(trivias_prefixed(export)),
+        repeat::<_, _, Vec<_>, _, _>(0.., trivias_prefixed(alt((import, export)))), // postpone syntax error for using import with export or instr
         must(alt((
             (trivias_prefixed(ref_type), must(retry_once(elem, []))),
             (retry(table_type, []), empty.value(None)),
@@ -354,19 +345,16 @@ fn module_field_table(input: &mut Input) -> GreenResult {
     )
         .parse_next(input)
         .map(
-            |(l_paren, mut keyword, id, import, export, ty_and_elem, r_paren)| {
+            |(l_paren, mut keyword, id, imports_or_exports, ty_and_elem, r_paren)| {
                 let mut children = Vec::with_capacity(7);
                 children.push(l_paren);
                 children.append(&mut keyword);
                 if let Some(mut id) = id {
                     children.append(&mut id);
                 }
-                if let Some(mut import) = import {
-                    children.append(&mut import);
-                }
-                if let Some(mut export) = export {
-                    children.append(&mut export);
-                }
+                imports_or_exports
+                    .into_iter()
+                    .for_each(|mut import_or_export| children.append(&mut import_or_export));
                 if let Some((mut ty, elem)) = ty_and_elem {
                     children.append(&mut ty);
                     if let Some(mut elem) = elem {
-- 
2.43.0


From a4aefc9b29d0d122ce89c42ebd8756aca4738a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:04 +0000
Subject: [PATCH 22/39] fix: break lines before offsets and element expressions
 only once when formatting

---
 crates/formatter/src/printer/module.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/formatter/src/printer/module.rs b/crates/formatter/src/printer/module.rs
index 9c82067..4b3d2f6 100644
--- a/crates/formatter/src/printer/module.rs
+++ b/crates/formatter/src/printer/module.rs
@@ -54,7 +54,7 @@ impl DocGen for Elem {
         });
         self.elem_exprs().for_each(|elem_expr| {
             let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -85,12 +85,13 @@ impl DocGen for ElemExpr {
             docs.push(Doc::text("item"));
             trivias = format_trivias_after_token(keyword, ctx);
         }
+        let has_paren = self.l_paren_token().is_some();
         docs.push(
             Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
-                if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
-                } else {
+                if !trivias.is_empty() {
                     docs.append(&mut trivias);
+                } else if has_paren || !docs.is_empty() {
+                    docs.push(Doc::hard_line());
                 }
                 docs.push(instr.doc(ctx));
                 trivias = format_trivias_after_node(instr, ctx);
@@ -131,7 +132,7 @@ impl DocGen for ElemList {
         }
         self.elem_exprs().for_each(|elem_expr| {
             let has_keyword = elem_expr.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -574,7 +575,7 @@ impl DocGen for ModuleFieldData {
         }
         if let Some(offset) = self.offset() {
             let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -643,7 +644,7 @@ impl DocGen for ModuleFieldElem {
         }
         if let Some(offset) = self.offset() {
             let has_keyword = offset.keyword().is_some();
-            if trivias.is_empty() && has_keyword {
+            if trivias.is_empty() {
                 docs.push(Doc::hard_line().nest(ctx.indent_width));
             } else {
                 docs.append(&mut trivias);
@@ -1088,12 +1089,13 @@ impl DocGen for Offset {
             docs.push(Doc::text("offset"));
             trivias = format_trivias_after_token(keyword, ctx);
         }
+        let has_paren = self.l_paren_token().is_some();
         docs.push(
             Doc::list(self.instrs().fold(vec![], |mut docs, instr| {
-                if trivias.is_empty() {
-                    docs.push(Doc::hard_line());
-                } else {
+                if !trivias.is_empty() {
                     docs.append(&mut trivias);
+                } else if has_paren || !docs.is_empty() {
+                    docs.push(Doc::hard_line());
                 }
                 docs.push(instr.doc(ctx));
                 trivias = format_trivias_after_node(instr, ctx);
-- 
2.43.0


From f421879cdf7f5b3cbc36e5cc16a8fe9e43436f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:43 +0000
Subject: [PATCH 23/39] fix: keep comments at the start of unfolded if branches
 when formatting

---
 crates/formatter/src/printer/instr.rs |  2 +-
 crates/formatter/src/printer/mod.rs   | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/formatter/src/printer/instr.rs b/crates/formatter/src/printer/instr.rs
index 82fb6a7..3c29df2 100644
--- a/crates/formatter/src/printer/instr.rs
+++ b/crates/formatter/src/printer/instr.rs
@@ -207,7 +207,7 @@ impl DocGen for BlockIfElse {
 impl DocGen for BlockIfThen {
     fn doc(&self, ctx: &Ctx) -> Doc<'static> {
         let mut docs = Vec::with_capacity(2);
-        let mut trivias = vec![];
+        let mut trivias = format_leading_trivias(self, ctx);
         if let Some(l_paren) = self.l_paren_token() {
             docs.push(Doc::text("("));
             trivias = format_trivias_after_token(l_paren, ctx);
diff --git a/crates/formatter/src/printer/mod.rs b/crates/formatter/src/printer/mod.rs
index 2a918a8..4f8f2d2 100644
--- a/crates/formatter/src/printer/mod.rs
+++ b/crates/formatter/src/printer/mod.rs
@@ -201,9 +201,23 @@ where
     docs
 }
 fn format_trivias_after_token(token: SyntaxToken, ctx: &Ctx) -> Vec<Doc<'static>> {
-    let trivias = token
-        .siblings_with_tokens(Direction::Next)
-        .skip(1)
+    format_trivias_in_line(
+        token.siblings_with_tokens(Direction::Next).skip(1),
+        ctx,
+    )
+}
+/// Trivias at the beginning of a node which doesn't start with token of its own.
+fn format_leading_trivias<N>(node: &N, ctx: &Ctx) -> Vec<Doc<'static>>
+where
+    N: AstNode<Language = WatLanguage>,
+{
+    format_trivias_in_line(node.syntax().children_with_tokens(), ctx)
+}
+fn format_trivias_in_line(
+    elements: impl Iterator<Item = SyntaxElement>,
+    ctx: &Ctx,
+) -> Vec<Doc<'static>> {
+    let trivias = elements
         .map_while(|element| match element {
             SyntaxElement::Token(token)
                 if matches!(
-- 
2.43.0


From c03c57d55eac62de171c744d7c61d982f1c19cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:33 +0000
Subject: [PATCH 24/39] fix: indent as the enclosing line when formatting a
 range

---
 crates/formatter/src/lib.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/formatter/src/lib.rs b/crates/formatter/src/lib.rs
index ff9fd3f..27e6ec8 100644
--- a/crates/formatter/src/lib.rs
+++ b/crates/formatter/src/lib.rs
@@ -33,10 +33,27 @@ pub fn format_range(
         node = it;
     }
     let range = node.text_range();
-    let col = line_index.line_col(TextSize::new(range.start().into())).col as usize;
+    let text = root.syntax().text();
+    let indentation = node
+        .ancestors()
+        .find_map(|node| {
+            let start = node.text_range().start();
+            let col = line_index.line_col(TextSize::new(start.into())).col;
+            let line_start = start - rowan::TextSize::new(col);
+            text.slice(line_start..start)
+                .to_string()
+                .chars()
+                .map(|c| match c {
+                    ' ' => Some(1),
+                    '\t' => Some(options.layout.indent_width),
+                    _ => None,
+                })
+                .sum::<Option<usize>>()
+        })
+        .unwrap_or_default();
 
     let ctx = Ctx::new(options);
-    let doc = format_node(node, &ctx)?.nest(col);
+    let doc = format_node(node, &ctx)?.nest(indentation);
     Some((tiny_pretty::print(&doc, &build_options(options)), range))
 }
 
-- 
2.43.0


From e18808377f86be3edd11794118000375ed441f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 25/39] fix: apply the last of several content changes

---
 crates/server/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 0965923..5c85913 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -400,7 +400,7 @@ impl Server {
         params: DidChangeTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
-        if let Some(change) = params.content_changes.first() {
+        if let Some(change) = params.content_changes.last() {
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
-- 
2.43.0


From 1b6dd697e1b19d80278eefd85e1dc42568ce6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:10 +0000
Subject: [PATCH 26/39] fix: respond to requests which are unknown or can't be
 decoded

---
 crates/server/src/server.rs | 125 +++++++++++++++++++++++++++++-------
 1 file changed, 102 insertions(+), 23 deletions(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 5c85913..4e99a96 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -1,5 +1,5 @@
 use lsp_server::{
-    Connection, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
+    Connection, ErrorCode, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
 };
 use lsp_types::{
     notification::{
@@ -48,6 +48,7 @@ impl Server {
                     if conn.handle_shutdown(&req)? {
                         return Ok(());
                     }
+                    let id = req.id.clone();
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -60,7 +61,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyIncomingCalls>(req) {
                         Ok((id, params)) => {
@@ -74,7 +78,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyOutgoingCalls>(req) {
                         Ok((id, params)) => {
@@ -88,7 +95,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CodeActionRequest>(req) {
                         Ok((id, params)) => {
@@ -102,7 +112,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Completion>(req) {
                         Ok((id, params)) => {
@@ -116,7 +129,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentDiagnosticRequest>(req) {
                         Ok((id, params)) => {
@@ -130,7 +146,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<FoldingRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -144,7 +163,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Formatting>(req) {
                         Ok((id, params)) => {
@@ -158,7 +180,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<RangeFormatting>(req) {
                         Ok((id, params)) => {
@@ -172,7 +197,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDefinition>(req) {
                         Ok((id, params)) => {
@@ -186,7 +214,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoTypeDefinition>(req) {
                         Ok((id, params)) => {
@@ -200,7 +231,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDeclaration>(req) {
                         Ok((id, params)) => {
@@ -214,7 +248,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<HoverRequest>(req) {
                         Ok((id, params)) => {
@@ -226,7 +263,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<InlayHintRequest>(req) {
                         Ok((id, params)) => {
@@ -240,7 +280,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<References>(req) {
                         Ok((id, params)) => {
@@ -254,7 +297,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<PrepareRenameRequest>(req) {
                         Ok((id, params)) => {
@@ -268,7 +314,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Rename>(req) {
                         Ok((id, params)) => {
@@ -291,7 +340,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SelectionRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -305,7 +357,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensFullRequest>(req) {
                         Ok((id, params)) => {
@@ -319,7 +374,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -333,7 +391,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentSymbolRequest>(req) {
                         Ok((id, params)) => {
@@ -346,8 +407,15 @@ impl Server {
                             }))?;
                             continue;
                         }
-                        Err(ExtractError::MethodMismatch(..)) => continue,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::MethodMismatch(r)) => {
+                            let message = format!("unknown method: {}", r.method);
+                            reply_error(&conn, id, ErrorCode::MethodNotFound, message)?;
+                            continue;
+                        }
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                 }
                 Message::Notification(mut notification) => {
@@ -435,6 +503,17 @@ impl Server {
     }
 }
 
+fn reply_error(
+    conn: &Connection,
+    id: RequestId,
+    code: ErrorCode,
+    message: String,
+) -> anyhow::Result<()> {
+    conn.sender
+        .send(Message::Response(Response::new_err(id, code as i32, message)))?;
+    Ok(())
+}
+
 fn cast_req<R>(req: Request) -> Result<(RequestId, R::Params), ExtractError<Request>>
 where
     R: lsp_types::request::Request,
-- 
2.43.0


From 903b78d9f31df63e6684291c3c00b3a9de3462dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:31 +0000
Subject: [PATCH 27/39] fix: don't crash on requests about documents which
 aren't opened

---
 crates/server/src/server.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 4e99a96..f57122e 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -16,12 +16,14 @@ use lsp_types::{
     DidChangeTextDocumentParams, DidCloseTextDocumentParams, DidOpenTextDocumentParams,
     InitializeParams, PublishDiagnosticsParams, Uri,
 };
+use std::collections::HashSet;
 use wat_service::LanguageService;
 
 #[derive(Default)]
 pub struct Server {
     service: LanguageService,
     support_pull_diagnostics: bool,
+    documents: HashSet<Uri>,
 }
 
 impl Server {
@@ -49,6 +51,13 @@ impl Server {
                         return Ok(());
                     }
                     let id = req.id.clone();
+                    if let Some(uri) = requested_uri(&req.params) {
+                        if !self.documents.contains(&uri) {
+                            let message = format!("document isn't opened: {}", uri.as_str());
+                            reply_error(&conn, id, ErrorCode::InvalidParams, message)?;
+                            continue;
+                        }
+                    }
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -455,6 +464,7 @@ impl Server {
         params: DidOpenTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
+        self.documents.insert(params.text_document.uri.clone());
         self.service
             .commit(params.text_document.uri.clone(), params.text_document.text);
         if !self.support_pull_diagnostics {
@@ -469,6 +479,7 @@ impl Server {
         conn: &Connection,
     ) -> anyhow::Result<()> {
         if let Some(change) = params.content_changes.last() {
+            self.documents.insert(params.text_document.uri.clone());
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
@@ -503,6 +514,17 @@ impl Server {
     }
 }
 
+/// The document which a request is about.
+fn requested_uri(params: &serde_json::Value) -> Option<Uri> {
+    params
+        .get("textDocument")
+        .or_else(|| params.get("item"))?
+        .get("uri")?
+        .as_str()?
+        .parse()
+        .ok()
+}
+
 fn reply_error(
     conn: &Connection,
     id: RequestId,
-- 
2.43.0


From 2cc8295723e811ef1071f1713fa30ca6b0de1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:18 +0000
Subject: [PATCH 28/39] fix: don't expect an immediate from every select

---
 crates/service/src/data_set/instr_meta.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index 5af71df..a363682 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -37,19 +37,6 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
             results: vec![OperandType::Generic],
         },
     );
-    map.insert(
-        "select",
-        InstrMeta {
-            bin_op: "0x1C",
-            operands_count: 1,
-            params: vec![
-                OperandType::Generic,
-                OperandType::Generic,
-                OperandType::Val(ValType::I32),
-            ],
-            results: vec![OperandType::Generic],
-        },
-    );
     map.insert(
         "local.get",
         InstrMeta {
-- 
2.43.0


From 3ad9831ef783f0ab97ae3b8d1a3ed5090c569e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:36 +0000
Subject: [PATCH 29/39] fix: expect all lanes of shuffle

---
 crates/service/src/data_set/instr_meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/service/src/data_set/instr_meta.rs b/crates/service/src/data_set/instr_meta.rs
index a363682..7a4f4f8 100644
--- a/crates/service/src/data_set/instr_meta.rs
+++ b/crates/service/src/data_set/instr_meta.rs
@@ -2105,7 +2105,7 @@ pub(crate) static INSTR_METAS: LazyLock<FxHashMap<&'static str, InstrMeta>> = La
         "i8x16.shuffle",
         InstrMeta {
             bin_op: "0xFD 0x0D",
-            operands_count: 1,
+            operands_count: 16,
             params: vec![
                 OperandType::Val(ValType::V128),
                 OperandType::Val(ValType::V128),
-- 
2.43.0


From 037bba5ee007866b8c40a12041ad59dd573cd031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:49 +0000
Subject: [PATCH 30/39] fix: check all parameters of functions which don't
 declare them

---
 crates/service/src/checker/typeck.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 616fcdb..8e9c45d 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -299,7 +299,8 @@ fn resolve_expected_types(
                     symbol.key.ptr.text_range(),
                     "parameter originally defined here".into(),
                 ))
-            });
+            })
+            .chain(std::iter::repeat(None));
         service.get_func_sig(uri, func.clone().into()).map(|sig| {
             sig.params
                 .iter()
-- 
2.43.0


From 6fb226113711f32b18ddb45761dedc909cdcab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:48 +0000
Subject: [PATCH 31/39] fix: check calls of functions without params and
 results

---
 crates/service/src/types_analyzer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/types_analyzer.rs b/crates/service/src/types_analyzer.rs
index 3e12a08..42a87df 100644
--- a/crates/service/src/types_analyzer.rs
+++ b/crates/service/src/types_analyzer.rs
@@ -90,7 +90,7 @@ fn get_func_sig(
             NodeOrToken::Node(node) if node.kind() == SyntaxKind::TYPE_USE.into() => Some(node),
             _ => None,
         })
-        .and_then(|type_use| {
+        .map_or(Some(FuncSig::default()), |type_use| {
             if type_use.children().any(|child| {
                 let kind = child.kind();
                 kind == SyntaxKind::PARAM.into() || kind == SyntaxKind::RESULT.into()
@@ -215,7 +215,7 @@ impl TryFrom<GreenNode> for ValType {
     }
 }
 
-#[derive(Clone, Debug, PartialEq, Eq)]
+#[derive(Clone, Debug, Default, PartialEq, Eq)]
 pub(crate) struct FuncSig {
     pub(crate) params: Vec<(ValType, Option<String>)>,
     pub(crate) results: Vec<ValType>,
-- 
2.43.0


From a31bc385eeaa3f6819e62c2e140d58611862f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:38 +0000
Subject: [PATCH 32/39] fix: check immediates of return_call, br_table and
 v128.load*_zero

---
 crates/service/src/checker/literal_operands.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 77c7a88..fa182c0 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -33,7 +33,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
     }
 
     match instr_name.text() {
-        "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
+        "call" | "return_call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set"
         | "table.get" | "table.set" | "ref.func" | "memory.init" | "data.drop" | "elem.drop"
         | "table.grow" | "table.size" | "table.fill" | "br" | "br_if" => {
             check_operand!(
@@ -41,6 +41,20 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
                 "expected identifier or unsigned integer"
             );
         }
+        "br_table" => operands
+            .enumerate()
+            .filter(|(i, operand)| *i == 0 || operand.instr().is_none())
+            .filter_map(|(_, operand)| operand.syntax().first_token())
+            .filter(|token| !matches!(token.kind(), SyntaxKind::IDENT | SyntaxKind::INT))
+            .for_each(|token| {
+                diags.push(Diagnostic {
+                    range: helpers::rowan_range_to_lsp_range(line_index, token.text_range()),
+                    severity: Some(DiagnosticSeverity::ERROR),
+                    source: Some("wat".into()),
+                    message: "expected identifier or unsigned integer".into(),
+                    ..Default::default()
+                });
+            }),
         "i32.const" | "i64.const" | "v128.const" => {
             check_operand!(SyntaxKind::INT, "expected integer");
         }
@@ -67,6 +81,7 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "i64.store16" | "i64.store32" | "v128.load" | "v128.load8x8_s" | "v128.load8x8_u"
         | "v128.load16x4_s" | "v128.load16x4_u" | "v128.load32x2_s" | "v128.load32x2_u"
         | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
+        | "v128.load32_zero" | "v128.load64_zero"
         | "v128.store" => {
             check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
         }
-- 
2.43.0


From 1448a55ec7a1c2e66ee4ef61437da25290c91dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:44 +0000
Subject: [PATCH 33/39] fix: allow memory arguments to be omitted or given in
 two parts

---
 crates/service/src/checker/literal_operands.rs | 10 ++++++++--
 crates/service/src/checker/typeck.rs           | 10 +++++++++-
 crates/service/src/helpers.rs                  | 17 +++++++++++++++--
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index fa182c0..6cd6367 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -83,7 +83,10 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
         | "v128.load32_zero" | "v128.load64_zero"
         | "v128.store" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            let mem_args = helpers::ast::count_mem_args(node, 0);
+            (0..mem_args).for_each(|_| {
+                check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            });
         }
         "i8x16.shuffle"
         | "i8x16.extract_lane_s"
@@ -107,7 +110,10 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
         }
         "v128.load8_lane" | "v128.load16_lane" | "v128.load32_lane" | "v128.load64_lane"
         | "v128.store8_lane" | "v128.store16_lane" | "v128.store32_lane" | "v128.store64_lane" => {
-            check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            let mem_args = helpers::ast::count_mem_args(node, 1);
+            (0..mem_args).for_each(|_| {
+                check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
+            });
             check_operand!(
                 SyntaxKind::IDENT | SyntaxKind::INT,
                 "expected identifier or unsigned integer"
diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 8e9c45d..0ce16e5 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -43,7 +43,15 @@ pub fn check_folded(
     let skipped_count = if is_call {
         1
     } else {
-        meta.map(|meta| meta.operands_count).unwrap_or_default()
+        meta.map(|meta| {
+            if helpers::ast::is_mem_access(instr_name.text()) {
+                let rest = meta.operands_count - 1;
+                rest + helpers::ast::count_mem_args(instr.syntax(), rest)
+            } else {
+                meta.operands_count
+            }
+        })
+        .unwrap_or_default()
     };
     let received_types =
         instr
diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 6cf55c8..895e80f 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -53,8 +53,8 @@ pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<
 }
 
 pub(crate) mod ast {
-    use rowan::{GreenNode, NodeOrToken};
-    use wat_syntax::SyntaxKind;
+    use rowan::{ast::support::children, GreenNode, NodeOrToken};
+    use wat_syntax::{ast::Operand, SyntaxKind, SyntaxNode};
 
     pub fn find_func_type_of_type_def(green: &GreenNode) -> Option<GreenNode> {
         green.children().find_map(|child| match child {
@@ -64,4 +64,17 @@ pub(crate) mod ast {
             _ => None,
         })
     }
+    /// Count memory arguments of load and store instructions.
+    /// Both offset and align can be omitted, while the `rest` immediates can't.
+    pub fn count_mem_args(instr: &SyntaxNode, rest: usize) -> usize {
+        children::<Operand>(instr)
+            .take_while(|operand| operand.instr().is_none())
+            .count()
+            .saturating_sub(rest)
+            .min(2)
+    }
+
+    pub fn is_mem_access(instr_name: &str) -> bool {
+        instr_name.contains(".load") || instr_name.contains(".store")
+    }
 }
-- 
2.43.0


From 1f42edc37872e61982e0ff2accd02ae956b7bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:22 +0000
Subject: [PATCH 34/39] fix: don't count operands whose types are unknown

---
 crates/service/src/checker/typeck.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 0ce16e5..ed4afa3 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -53,14 +53,20 @@ pub fn check_folded(
         })
         .unwrap_or_default()
     };
+    // types of operands before the first one whose type is unknown
+    let mut is_known = true;
     let received_types =
         instr
             .operands()
             .skip(skipped_count)
             .fold(vec![], |mut received, operand| {
                 if let Some(instr) = operand.instr() {
-                    if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
-                        received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
+                    match resolve_type(service, uri, symbol_table, &instr) {
+                        Some(types) if is_known => {
+                            received.extend(types.into_iter().map(|ty| (ty, operand.clone())));
+                        }
+                        Some(..) => {}
+                        None => is_known = false,
                     }
                 } else if meta.is_some() {
                     diags.push(Diagnostic {
@@ -86,7 +92,7 @@ pub fn check_folded(
             .operands()
             .filter(|operand| operand.instr().is_none())
             .count();
-    if expected_count != received_count {
+    if is_known && expected_count != received_count {
         diags.push(Diagnostic {
             range: helpers::rowan_range_to_lsp_range(line_index, instr.syntax().text_range()),
             severity: Some(DiagnosticSeverity::ERROR),
-- 
2.43.0


From 5683d0edc675e24297bf558febde19cf209c5588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:44 +0000
Subject: [PATCH 35/39] fix: don't miss values behind instructions with unknown
 effect

---
 crates/service/src/checker/typeck.rs | 55 ++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index ed4afa3..d7af61b 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -16,7 +16,7 @@ use rowan::{
     TextRange,
 };
 use wat_syntax::{
-    ast::{Instr, PlainInstr},
+    ast::{BlockType, Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
 };
 
@@ -160,7 +160,19 @@ pub fn check_stacked(
     }
 
     let mut types_stack = Vec::<(_, Instr)>::with_capacity(2);
+    // whether there are no values other than those in `types_stack`
+    let mut is_known = true;
     children::<Instr>(node).for_each(|instr| {
+        if let Instr::Block(block) = &instr {
+            if block.syntax().children().any(|child| BlockType::can_cast(child.kind())) {
+                types_stack.clear();
+                is_known = false;
+            } else if block.syntax().kind() == SyntaxKind::BLOCK_IF
+                && token(block.syntax(), SyntaxKind::L_PAREN).is_none()
+            {
+                types_stack.pop();
+            }
+        }
         if let Instr::Plain(plain_instr) = &instr {
             let Some(instr_name) = plain_instr.instr_name() else {
                 return;
@@ -169,6 +181,10 @@ pub fn check_stacked(
             let Some(params) =
                 resolve_expected_types(service, uri, symbol_table, plain_instr, meta)
             else {
+                if instr_name.text() != "nop" {
+                    types_stack.clear();
+                    is_known = false;
+                }
                 return;
             };
             let expected_count = if plain_instr.l_paren_token().is_some() {
@@ -178,6 +194,8 @@ pub fn check_stacked(
             };
             let pop_count = if let Some(count) = types_stack.len().checked_sub(expected_count) {
                 count
+            } else if !is_known {
+                0
             } else {
                 diags.push(Diagnostic {
                     range: helpers::rowan_range_to_lsp_range(
@@ -191,8 +209,10 @@ pub fn check_stacked(
                 });
                 0
             };
+            let missing_count = expected_count.saturating_sub(types_stack.len());
             let type_mismatches = params
                 .iter()
+                .skip(if is_known { 0 } else { missing_count })
                 .zip(types_stack.drain(pop_count..))
                 .filter_map(|pair| {
                     if let (
@@ -231,13 +251,42 @@ pub fn check_stacked(
                 });
             diags.extend(type_mismatches);
 
-            if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
-                types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
+            match resolve_type(service, uri, symbol_table, &instr) {
+                Some(types) if !diverges(plain_instr) => {
+                    types_stack.extend(types.into_iter().map(|ty| (ty, instr.clone())));
+                }
+                _ => {
+                    types_stack.clear();
+                    is_known = false;
+                }
             }
         }
     });
 }
 
+/// Check if any of operands never returns, and neither does the instruction.
+fn diverges(instr: &PlainInstr) -> bool {
+    instr
+        .operands()
+        .filter_map(|operand| operand.instr())
+        .any(|instr| match &instr {
+            Instr::Block(..) => false,
+            Instr::Plain(plain_instr) => {
+                plain_instr.instr_name().is_some_and(|instr_name| {
+                    matches!(
+                        instr_name.text(),
+                        "unreachable"
+                            | "return"
+                            | "br"
+                            | "br_table"
+                            | "return_call"
+                            | "return_call_indirect"
+                    )
+                }) || diverges(plain_instr)
+            }
+        })
+}
+
 fn resolve_type(
     service: &LanguageService,
     uri: InternUri,
-- 
2.43.0


From d31e157f36c7e46d64da18b08eb1a89a30b15f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:44 +0000
Subject: [PATCH 36/39] fix: check all lanes of shuffle

---
 crates/service/src/checker/literal_operands.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/service/src/checker/literal_operands.rs b/crates/service/src/checker/literal_operands.rs
index 6cd6367..f9b0942 100644
--- a/crates/service/src/checker/literal_operands.rs
+++ b/crates/service/src/checker/literal_operands.rs
@@ -88,8 +88,15 @@ pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxN
                 check_operand!(SyntaxKind::MEM_ARG, "expected memory argument");
             });
         }
-        "i8x16.shuffle"
-        | "i8x16.extract_lane_s"
+        "i8x16.shuffle" => {
+            (0..16).for_each(|_| {
+                check_operand!(
+                    SyntaxKind::IDENT | SyntaxKind::INT,
+                    "expected identifier or unsigned integer"
+                );
+            });
+        }
+        "i8x16.extract_lane_s"
         | "i8x16.extract_lane_u"
         | "i8x16.replace_lane"
         | "i16x8.extract_lane_s"
-- 
2.43.0


From 9af7f4ce0d71ca19b9515797029fb34ef24f5564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:35 +0000
Subject: [PATCH 37/39] fix: don't offer an if's label in completion of its
 condition

---
 crates/service/src/features/completion.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/service/src/features/completion.rs b/crates/service/src/features/completion.rs
index 3d58b9d..ea5dd03 100644
--- a/crates/service/src/features/completion.rs
+++ b/crates/service/src/features/completion.rs
@@ -585,17 +585,27 @@ fn get_cmp_list(
                 }
                 CmpCtx::Block => {
                     let has_dollar = token.text().starts_with('$');
+                    let blocks = token
+                        .parent_ancestors()
+                        .zip(token.parent_ancestors().skip(1))
+                        .filter(|(child, parent)| match parent.kind() {
+                            SyntaxKind::BLOCK_BLOCK | SyntaxKind::BLOCK_LOOP => true,
+                            // the condition of folded `if` is outside of the label
+                            SyntaxKind::BLOCK_IF => matches!(
+                                child.kind(),
+                                SyntaxKind::BLOCK_IF_THEN | SyntaxKind::BLOCK_IF_ELSE
+                            ),
+                            _ => false,
+                        })
+                        .map(|(_, parent)| parent.into())
+                        .collect::<Vec<_>>();
                     items.extend(
                         symbol_table
                             .symbols
                             .iter()
                             .filter(|symbol| {
                                 symbol.kind == SymbolItemKind::BlockDef
-                                    && symbol
-                                        .key
-                                        .ptr
-                                        .text_range()
-                                        .contains_range(token.text_range())
+                                    && blocks.contains(&symbol.key)
                             })
                             .rev()
                             .enumerate()
-- 
2.43.0


From 2101938558e8fec0cedd1b5cf784e06ce7bfb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:10 +0000
Subject: [PATCH 38/39] fix: keep comments when splitting and joining groups

---
 .../src/refactorings/func_header_split.rs     | 45 +++++++++++------
 .../service/src/refactorings/params_join.rs   | 50 +++++++++++--------
 2 files changed, 59 insertions(+), 36 deletions(-)

diff --git a/crates/service/src/refactorings/func_header_split.rs b/crates/service/src/refactorings/func_header_split.rs
index ed7a23a..e916840 100644
--- a/crates/service/src/refactorings/func_header_split.rs
+++ b/crates/service/src/refactorings/func_header_split.rs
@@ -11,14 +11,11 @@ pub fn act(
     node: &SyntaxNode,
     kind: SyntaxKind,
 ) -> Option<CodeAction> {
-    let types = node
+    let types_count = node
         .children()
         .filter(|child| child.kind() == SyntaxKind::VAL_TYPE)
-        .collect::<Vec<_>>();
-    let [first, rest @ ..] = &types[..] else {
-        return None;
-    };
-    if rest.is_empty() {
+        .count();
+    if types_count < 2 {
         return None;
     }
 
@@ -28,16 +25,32 @@ pub fn act(
         SyntaxKind::LOCAL => "local",
         _ => return None,
     };
-    let new_text = rest
-        .iter()
-        .fold(format!("({keyword} {first})"), |mut new_text, ty| {
-            new_text.push_str(" (");
-            new_text.push_str(keyword);
-            new_text.push(' ');
-            new_text.push_str(&ty.to_string());
-            new_text.push(')');
-            new_text
-        });
+    let mut new_text = format!("({keyword}");
+    let mut is_first = true;
+    for element in node.children_with_tokens() {
+        match element.kind() {
+            SyntaxKind::VAL_TYPE => {
+                if !is_first {
+                    new_text.push_str(") (");
+                    new_text.push_str(keyword);
+                }
+                is_first = false;
+                new_text.push(' ');
+                new_text.push_str(&element.to_string());
+            }
+            SyntaxKind::LINE_COMMENT => {
+                new_text.push(' ');
+                new_text.push_str(&element.to_string());
+                new_text.push('\n');
+            }
+            SyntaxKind::BLOCK_COMMENT => {
+                new_text.push(' ');
+                new_text.push_str(&element.to_string());
+            }
+            _ => {}
+        }
+    }
+    new_text.push(')');
 
     #[expect(clippy::mutable_key_type)]
     let mut changes = HashMap::with_capacity(1);
diff --git a/crates/service/src/refactorings/params_join.rs b/crates/service/src/refactorings/params_join.rs
index bfd66af..b574ee8 100644
--- a/crates/service/src/refactorings/params_join.rs
+++ b/crates/service/src/refactorings/params_join.rs
@@ -3,7 +3,7 @@ use line_index::LineIndex;
 use lsp_types::{CodeAction, CodeActionKind, TextEdit, WorkspaceEdit};
 use rowan::TextRange;
 use std::collections::HashMap;
-use wat_syntax::{SyntaxKind, SyntaxNode};
+use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode};
 
 pub fn act(
     service: &LanguageService,
@@ -20,28 +20,44 @@ pub fn act(
     let [first_node, ..] = &params[..] else {
         return None;
     };
-    let types = params
+    let types_count = params
         .iter()
         .flat_map(|param| {
             param
                 .children()
                 .filter(|child| child.kind() == SyntaxKind::VAL_TYPE)
         })
-        .collect::<Vec<_>>();
-    let [first, rest @ ..] = &types[..] else {
-        return None;
-    };
-    if rest.is_empty() {
+        .count();
+    if types_count < 2 {
         return None;
     }
+    let joined_range = TextRange::new(
+        first_node.text_range().start(),
+        params.last().unwrap_or(first_node).text_range().end(),
+    );
 
-    let mut new_text = rest
-        .iter()
-        .fold(format!("(param {first}"), |mut new_text, ty| {
-            new_text.push(' ');
-            new_text.push_str(&ty.to_string());
-            new_text
+    let mut new_text = String::from("(param");
+    let elements = node
+        .children_with_tokens()
+        .filter(|element| joined_range.contains_range(element.text_range()))
+        .flat_map(|element| match element {
+            SyntaxElement::Node(node) => node.children_with_tokens().collect(),
+            SyntaxElement::Token(..) => vec![element],
         });
+    for element in elements {
+        match element.kind() {
+            SyntaxKind::VAL_TYPE | SyntaxKind::BLOCK_COMMENT => {
+                new_text.push(' ');
+                new_text.push_str(&element.to_string());
+            }
+            SyntaxKind::LINE_COMMENT => {
+                new_text.push(' ');
+                new_text.push_str(&element.to_string());
+                new_text.push('\n');
+            }
+            _ => {}
+        }
+    }
     new_text.push(')');
 
     #[expect(clippy::mutable_key_type)]
@@ -49,13 +65,7 @@ pub fn act(
     changes.insert(
         service.lookup_uri(uri),
         vec![TextEdit {
-            range: helpers::rowan_range_to_lsp_range(
-                line_index,
-                TextRange::new(
-                    first_node.text_range().start(),
-                    params.last().unwrap_or(first_node).text_range().end(),
-                ),
-            ),
+            range: helpers::rowan_range_to_lsp_range(line_index, joined_range),
             new_text,
         }],
     );
-- 
2.43.0


From 00985aaa2846e6ee1dc609362c288be8d20387df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:10 +0000
Subject: [PATCH 39/39] fix: don't join a memory argument with the lane behind
 it

---
 .../src/refactorings/fix_invalid_mem_arg.rs   | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/service/src/refactorings/fix_invalid_mem_arg.rs b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
index 17f7600..4a41dcb 100644
--- a/crates/service/src/refactorings/fix_invalid_mem_arg.rs
+++ b/crates/service/src/refactorings/fix_invalid_mem_arg.rs
@@ -31,25 +31,28 @@ pub fn act(
                         }
                         _ => None,
                     });
-                    if let Some(range) = children
+                    if let Some((is_eq_only, range)) = children
                         .next()
-                        .filter(|element| {
-                            if let SyntaxElement::Token(token) = element {
-                                token.kind() == SyntaxKind::ERROR
-                                    && token.text().strip_prefix('=').is_some_and(|rest| {
-                                        rest.chars().all(|c| c.is_ascii_digit())
-                                    })
-                            } else {
-                                false
+                        .and_then(|element| match element {
+                            SyntaxElement::Token(token) if token.kind() == SyntaxKind::ERROR => {
+                                token.text().strip_prefix('=').and_then(|rest| {
+                                    rest.chars()
+                                        .all(|c| c.is_ascii_digit())
+                                        .then_some(rest.is_empty())
+                                })
                             }
+                            _ => None,
                         })
-                        .and(range)
+                        .zip(range)
                     {
                         text_edits.push(TextEdit {
                             range: helpers::rowan_range_to_lsp_range(line_index, range),
                             new_text: String::new(),
                         });
-                        if let Some(range) = check_after_eq(&mut children) {
+                        if let Some(range) = is_eq_only
+                            .then(|| check_after_eq(&mut children))
+                            .flatten()
+                        {
                             text_edits.push(TextEdit {
                                 range: helpers::rowan_range_to_lsp_range(line_index, range),
                                 new_text: String::new(),
-- 
2.43.0

