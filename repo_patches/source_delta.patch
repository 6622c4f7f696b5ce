From 310ab6871661e4afeedbcfd69271ad37dadfa421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 01/19] fix: two-letter compass points after a port id were cut
 to one letter

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 2226670..02cb325 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -14,7 +14,7 @@ html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-compass = ${"n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_"}
+compass = ${("ne" | "nw" | "n" | "se" | "sw" | "s" | "e" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}
 
 port = {":" ~ id ~ (":" ~ compass)? }
 id = {plain | html | string_qt}
-- 
2.43.0


From d5a4e82f4cc49def87ae6210fe8c445362df44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 02/19] fix: numerals with leading zeros or a trailing dot were
 split into several tokens

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 02cb325..28ce471 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -8,7 +8,7 @@ char = {
 }
 
 inner = ${ char* }
-number = ${"-"? ~ (("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) ~ ("." ~ ASCII_DIGIT+)? | ("." ~ ASCII_DIGIT+))}
+number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
 html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
-- 
2.43.0


From 24db75244fb044c7ae937306968945b3ec3e4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 03/19] fix: an HTML string ends at its matching bracket, not
 at the next pair of closing brackets

---
 src/grammar/dot.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 28ce471..27999b3 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -10,7 +10,8 @@ char = {
 inner = ${ char* }
 number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
-html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
+html = ${"<" ~ html_inner* ~ ">"}
+html_inner = _{ "<" ~ html_inner* ~ ">" | !("<" | ">") ~ ANY }
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-- 
2.43.0


From 9d4d469347bbeabd91d7caff6c4d041daae34b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 04/19] fix: an edge statement starting with a subgraph could
 not be parsed

---
 src/grammar/dot.pest |  3 ++-
 src/parser.rs        | 39 ++++++++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 27999b3..f95a983 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -32,7 +32,8 @@ edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
 subgraph = {"subgraph" ~ id? ~ body}
-stmt = {attr_stmt | subgraph | bare_attr | edge_stmt | node }
+subgraph_stmt = {subgraph ~ (edge_tail+ ~ attr_list?)?}
+stmt = {attr_stmt | subgraph_stmt | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = {"strict"}
 graph_ty = {"graph" | "digraph"}
diff --git a/src/parser.rs b/src/parser.rs
index c7e08a1..e73f648 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -161,12 +161,7 @@ fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
     let mut edge_r = rule.into_inner();
     let edges = process_edge(edge_r.next().unwrap());
 
-    let ty = if edges.len() > 2 {
-        EdgeTy::Chain(edges)
-    } else {
-        let mut edge_iter = edges.into_iter();
-        EdgeTy::Pair(edge_iter.next().unwrap(), edge_iter.next().unwrap())
-    };
+    let ty = edge_ty(edges);
 
     if let Some(attr_r) = edge_r.next() {
         Edge {
@@ -181,6 +176,36 @@ fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
     }
 }
 
+fn edge_ty(edges: Vec<Vertex>) -> EdgeTy {
+    if edges.len() > 2 {
+        EdgeTy::Chain(edges)
+    } else {
+        let mut edge_iter = edges.into_iter();
+        EdgeTy::Pair(edge_iter.next().unwrap(), edge_iter.next().unwrap())
+    }
+}
+
+fn process_subgraph_stmt(rule: Pair<Rule>) -> Stmt {
+    let mut stmt_r = rule.into_inner();
+    let head = process_subgraph(stmt_r.next().unwrap());
+    if stmt_r.peek().is_none() {
+        return Stmt::Subgraph(head);
+    }
+
+    let mut edges = vec![Vertex::S(head)];
+    let mut attributes = vec![];
+    for r in stmt_r {
+        match r.as_rule() {
+            Rule::edge_tail => edges.push(process_vertex(down(r))),
+            _ => attributes = process_attr_list(r),
+        }
+    }
+    Stmt::Edge(Edge {
+        ty: edge_ty(edges),
+        attributes,
+    })
+}
+
 fn process_attr_stmt(rule: Pair<Rule>) -> GraphAttributes {
     let mut stmts_r = rule.into_inner();
     let mark = stmts_r.next().unwrap().as_str();
@@ -192,7 +217,7 @@ fn process_stmt(rule: Pair<Rule>) -> Stmt {
     let stmt_r = down(rule);
     match stmt_r.as_rule() {
         Rule::attr_stmt => Stmt::GAttribute(process_attr_stmt(stmt_r)),
-        Rule::subgraph => Stmt::Subgraph(process_subgraph(stmt_r)),
+        Rule::subgraph_stmt => process_subgraph_stmt(stmt_r),
         Rule::node => Stmt::Node(process_node(stmt_r)),
         Rule::bare_attr => Stmt::Attribute(process_bare_attr(stmt_r)),
         Rule::edge_stmt => Stmt::Edge(process_edge_stmt(stmt_r)),
-- 
2.43.0


From 2830ddc1e1ec05cb9b10790a204761b58778222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 05/19] fix: keywords are case-independent whole words, and a
 malformed subgraph is not re-parsed at every level

Backtracking from a subgraph to a node named subgraph made the time to
reject malformed input exponential in the nesting depth.
---
 src/grammar/dot.pest | 13 +++++++------
 src/parser.rs        |  3 ++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index f95a983..488a81c 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -12,7 +12,7 @@ number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
 html = ${"<" ~ html_inner* ~ ">"}
 html_inner = _{ "<" ~ html_inner* ~ ">" | !("<" | ">") ~ ANY }
-plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
+plain = ${(!subgraph_kw ~ word ~ (word | ASCII_DIGIT)*) | number}
 
 
 compass = ${("ne" | "nw" | "n" | "se" | "sw" | "s" | "e" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}
@@ -24,18 +24,19 @@ attr = {bare_attr ~ (";" |",")?}
 attr_list = {("[" ~ attr* ~ "]")+}
 node = {node_id ~ attr_list*}
 
-attr_mark = {"graph" | "node" | "edge"}
+attr_mark = @{(^"graph" | ^"node" | ^"edge") ~ !(word | ASCII_DIGIT)}
 attr_stmt = {attr_mark ~ attr_list}
 bare_attr = {id ~ "=" ~ id}
 edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
-subgraph = {"subgraph" ~ id? ~ body}
+subgraph_kw = @{^"subgraph" ~ !(word | ASCII_DIGIT)}
+subgraph = {&subgraph_kw ~ ^"subgraph" ~ id? ~ body}
 subgraph_stmt = {subgraph ~ (edge_tail+ ~ attr_list?)?}
-stmt = {attr_stmt | subgraph_stmt | bare_attr | edge_stmt | node }
+stmt = {attr_stmt | subgraph_stmt | !subgraph_kw ~ (bare_attr | edge_stmt | node) }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
-strict = {"strict"}
-graph_ty = {"graph" | "digraph"}
+strict = @{^"strict" ~ !(word | ASCII_DIGIT)}
+graph_ty = @{(^"graph" | ^"digraph") ~ !(word | ASCII_DIGIT)}
 graph = {strict? ~ graph_ty ~ id? ~ body}
 file = {SOI ~ graph ~ EOI }
\ No newline at end of file
diff --git a/src/parser.rs b/src/parser.rs
index e73f648..589b092 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -235,7 +235,8 @@ fn process_graph(rule: Pair<Rule>) -> Graph {
         _ => false,
     };
 
-    let is_di = matches!(graph_r.next().map(|r| r.as_str()), Some("digraph"));
+    let is_di =
+        matches!(graph_r.next(), Some(r) if r.as_str().eq_ignore_ascii_case("digraph"));
 
     let id = match graph_r.peek().map(|r| r.as_rule()) {
         Some(Rule::id) => process_id(graph_r.next().unwrap()),
-- 
2.43.0


From 1a64b78ca1cc93f135d77194bef1170f34c50b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 06/19] fix: the subgraph keyword is optional before a braced
 body

---
 src/grammar/dot.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 488a81c..f002576 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -32,9 +32,9 @@ edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
 subgraph_kw = @{^"subgraph" ~ !(word | ASCII_DIGIT)}
-subgraph = {&subgraph_kw ~ ^"subgraph" ~ id? ~ body}
+subgraph = {(&subgraph_kw ~ ^"subgraph" ~ id?)? ~ body}
 subgraph_stmt = {subgraph ~ (edge_tail+ ~ attr_list?)?}
-stmt = {attr_stmt | subgraph_stmt | !subgraph_kw ~ (bare_attr | edge_stmt | node) }
+stmt = {attr_stmt | subgraph_stmt | !(subgraph_kw | "{") ~ (bare_attr | edge_stmt | node) }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = @{^"strict" ~ !(word | ASCII_DIGIT)}
 graph_ty = @{(^"graph" | ^"digraph") ~ !(word | ASCII_DIGIT)}
-- 
2.43.0


From 99fd663c35289c6db685665c11a9892e9ad7bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 07/19] fix: unquoted ids may contain non-ASCII letters

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index f002576..66711df 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -1,6 +1,6 @@
 WHITESPACE = _{ " " | "\t" | "\r\n" | "\n" }
 COMMENT    = _{("/*" ~ (!"*/" ~ ANY)* ~ "*/") | (("#" | "//") ~ (!NEWLINE ~ ANY)* ~ NEWLINE?) }
-word = _{ ('a'..'z' | 'A'..'Z' | "_")+ }
+word = _{ ('a'..'z' | 'A'..'Z' | "_" | '\u{80}'..'\u{10FFFF}')+ }
 arr = _{"->" | "--"}
 char = {
     !("\"" | "\\") ~ ANY
-- 
2.43.0


From 263b4e7253c0675ac40f10bd0953d0494a766337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 08/19] fix: statements printed on one line without semicolons
 ran together

---
 src/printer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 4903e2e..502daa0 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -388,8 +388,19 @@ impl DotPrinter for Graph {
 
 impl DotPrinter for Vec<Stmt> {
     fn print(&self, ctx: &mut PrinterContext) -> String {
-        let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
-        attrs.join(ctx.l_s.as_str())
+        let mut stmts = String::new();
+        for (i, e) in self.iter().enumerate() {
+            let stmt = e.print(ctx);
+            if i > 0 {
+                stmts.push_str(&ctx.l_s);
+                // without a separator two adjacent ids would be read as one
+                if ctx.l_s.is_empty() && !stmts.ends_with([']', '}', ';']) {
+                    stmts.push(' ');
+                }
+            }
+            stmts.push_str(&stmt);
+        }
+        stmts
     }
 }
 
-- 
2.43.0


From 0724f154e962ae4bc67f0745d811d3bbe54a72df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 09/19] fix: printing a graph left its indent behind in the
 context

---
 src/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 502daa0..b48b604 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -335,7 +335,7 @@ impl DotPrinter for Graph {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         ctx.indent_grow();
 
-        match self {
+        let r = match self {
             Graph::Graph { id, strict, stmts } if *strict => {
                 ctx.is_digraph = false;
                 let body = stmts.print(ctx);
@@ -382,7 +382,9 @@ impl DotPrinter for Graph {
                     ctx.l_s
                 )
             }
-        }
+        };
+        ctx.indent_shrink();
+        r
     }
 }
 
-- 
2.43.0


From 4f5dcac5ba91d155dcbc91076d38347ba4bc71a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 10/19] fix: PrinterContext::new ignored the indent step and
 the inline size

---
 src/printer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index b48b604..a879e77 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -136,8 +136,8 @@ impl PrinterContext {
             indent_step,
             inline_size,
             l_s: line_s.clone(),
-            l_s_i: line_s,
-            l_s_m: "".to_string(),
+            l_s_i: "".to_string(),
+            l_s_m: line_s,
             attr_value_printers: HashMap::new(),
         }
     }
-- 
2.43.0


From d8be0b01caa05a014d43c3d65bebe4d928d6ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 11/19] fix: empty default attributes were printed as a bare
 keyword, which reads as a node

---
 src/printer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index a879e77..f8aa4b8 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -297,10 +297,16 @@ impl DotPrinter for Vec<Attribute> {
 
 impl DotPrinter for GraphAttributes {
     fn print(&self, ctx: &mut PrinterContext) -> String {
-        match self {
-            GraphAttributes::Graph(attrs) => format!("graph{}", attrs.print(ctx)),
-            GraphAttributes::Node(attrs) => format!("node{}", attrs.print(ctx)),
-            GraphAttributes::Edge(attrs) => format!("edge{}", attrs.print(ctx)),
+        let (ty, attrs) = match self {
+            GraphAttributes::Graph(attrs) => ("graph", attrs),
+            GraphAttributes::Node(attrs) => ("node", attrs),
+            GraphAttributes::Edge(attrs) => ("edge", attrs),
+        };
+        if attrs.is_empty() {
+            // the brackets are not optional here, the bare keyword is not a statement
+            format!("{}[]", ty)
+        } else {
+            format!("{}{}", ty, attrs.print(ctx))
         }
     }
 }
-- 
2.43.0


From 388740b5381504d6aa7e3065d5f86f72cdc79531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 12/19] fix: the osage layout and the wbmp format were passed
 to dot under misspelled names

---
 src/cmd.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cmd.rs b/src/cmd.rs
index 673beae..df88163 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -122,7 +122,13 @@ impl CommandArg {
         match self {
             CommandArg::Custom(s) => s.clone(),
             CommandArg::Output(p) => format!("-o{}", p),
-            CommandArg::Layout(l) => format!("-K{}", format!("{:?}", l).to_lowercase()),
+            CommandArg::Layout(l) => {
+                let str = match l {
+                    Layout::Asage => "osage".to_string(),
+                    _ => format!("{:?}", l).to_lowercase(),
+                };
+                format!("-K{}", str)
+            }
             CommandArg::Format(f) => {
                 let str = match f {
                     Format::Xdot12 => "xdot1.2".to_string(),
@@ -132,6 +138,7 @@ impl CommandArg {
                     Format::DotJson => "dot_json".to_string(),
                     Format::XdotJson => "xdot_json".to_string(),
                     Format::PlainExt => "plain-ext".to_string(),
+                    Format::Vbmp => "wbmp".to_string(),
                     _ => format!("{:?}", f).to_lowercase(),
                 };
                 format!("-T{}", str)
-- 
2.43.0


From 0575782a6883fa2667989c0a46568eed1987a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 13/19] fix: dot was given the wrong file when the temporary
 directory is not valid UTF-8

---
 src/cmd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cmd.rs b/src/cmd.rs
index df88163..5033f95 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -47,6 +47,7 @@
 //! [`dot` command line executable]: https://graphviz.org/doc/info/command.html
 use std::{
     io::{self, ErrorKind, Write},
+    path::Path,
     process::{Command, Output},
 };
 
@@ -56,7 +57,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     let args = args.into_iter().map(|a| a.prepare()).collect();
     temp_file(graph).and_then(|f| {
         let path = f.into_temp_path();
-        do_exec(path.to_string_lossy().to_string(), args).and_then(|o| {
+        do_exec(&path, args).and_then(|o| {
             if o.status.code().map(|c| c != 0).unwrap_or(true) {
                 let mes = String::from_utf8_lossy(&o.stderr).to_string();
                 path.close()?;
@@ -69,7 +70,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     })
 }
 
-fn do_exec(input: String, args: Vec<String>) -> io::Result<Output> {
+fn do_exec(input: &Path, args: Vec<String>) -> io::Result<Output> {
     let mut command = Command::new("dot");
 
     for arg in args {
-- 
2.43.0


From 8491c4aab3e4fb0c820848d8f817e166801254dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 14/19] fix: the default arrowsize is 1.0, 0.0 is its minimum

---
 src/attributes/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index 16819f2..e978e6c 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -52,7 +52,7 @@ generate_attr!(enum arrowtail for EdgeAttributes;
     normal
     //endregion
 );
-generate_attr!(struct arrowsize for EdgeAttributes; f32; 0.0);
+generate_attr!(struct arrowsize for EdgeAttributes; f32; 1.0);
 generate_attr!(struct bb for GraphAttributes; String);
 generate_attr!(struct center for GraphAttributes; bool;false);
 generate_attr!(struct charset for GraphAttributes; String;"UTF-8".to_string());
-- 
2.43.0


From bb2f15b459f668556d32f8bc72d3ee1f13e30a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 15/19] fix: edge! with a chain and a vec of attributes did not
 compile

---
 dot-generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 0dcb7bf..b9b5176 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -576,7 +576,7 @@ macro_rules! edge {
     }};
     ($l:expr => $r:expr $(=> $nexts:expr)+ , $attrs:expr) => {{
 
-         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)]
+         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
          $( edges_vec.push(Vertex::from($nexts)) ; )+
 
         Edge{ ty: EdgeTy::Chain(edges_vec), attributes: $attrs }
-- 
2.43.0


From 883fcd82a51b8ad3c7b2202524238d6f98b98fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 16/19] fix: graph! turned the id of a digraph without
 statements into a plain one

---
 dot-generator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index b9b5176..275fdcb 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -687,10 +687,10 @@ macro_rules! graph {
         Graph::Graph { id: $id, strict: false, stmts: vec![] }
     };
     (strict di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: true, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: true, stmts: vec![] }
     };
     (di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: false, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: false, stmts: vec![] }
     };
     (strict $id:expr, $stmts:expr) => {
         Graph::Graph { id: $id, strict: true, stmts: $stmts }
-- 
2.43.0


From 7520b04f3c3b76b7d9fa1fb815c38576b0c9241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 17/19] fix: defaults of text attributes were not valid ids and
 printed invalid DOT

---
 src/attributes/mod.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index e978e6c..6a3c993 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -55,10 +55,10 @@ generate_attr!(enum arrowtail for EdgeAttributes;
 generate_attr!(struct arrowsize for EdgeAttributes; f32; 1.0);
 generate_attr!(struct bb for GraphAttributes; String);
 generate_attr!(struct center for GraphAttributes; bool;false);
-generate_attr!(struct charset for GraphAttributes; String;"UTF-8".to_string());
-generate_attr!(struct class for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"".to_string());
-generate_attr!(struct colorscheme for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"".to_string());
-generate_attr!(struct comment for GraphAttributes,NodeAttributes,EdgeAttributes;String;"".to_string());
+generate_attr!(struct charset for GraphAttributes; String;"\"UTF-8\"".to_string());
+generate_attr!(struct class for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"\"\"".to_string());
+generate_attr!(struct colorscheme for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"\"\"".to_string());
+generate_attr!(struct comment for GraphAttributes,NodeAttributes,EdgeAttributes;String;"\"\"".to_string());
 generate_attr!(struct compound for GraphAttributes;bool;false);
 generate_attr!(struct concentrate for GraphAttributes;bool;false);
 generate_attr!(struct Damping for GraphAttributes;f32;0.99);
@@ -79,37 +79,37 @@ generate_attr!(struct edgeURL for EdgeAttributes; String );
 generate_attr!(struct epsilon for GraphAttributes; f32);
 generate_attr!(struct esep for GraphAttributes; f32;3.0);
 generate_attr!(struct fixedsize for NodeAttributes; bool;false);
-generate_attr!(struct fontname for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"Times-Roman".to_string());
-generate_attr!(struct href for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"".to_string());
-generate_attr!(struct id for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"".to_string());
+generate_attr!(struct fontname for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"Times-Roman\"".to_string());
+generate_attr!(struct href for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"\"".to_string());
+generate_attr!(struct id for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct fontsize for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; f32;14.0);
-generate_attr!(struct fontnames for GraphAttributes; String;"".to_string());
+generate_attr!(struct fontnames for GraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct fontpath for GraphAttributes; String;"<system-dependent>".to_string());
 generate_attr!(struct forcelabels for GraphAttributes; bool;true);
 generate_attr!(struct gradientangle for NodeAttributes,GraphAttributes,SubgraphAttributes; i32);
 generate_attr!(struct group for NodeAttributes; String);
 generate_attr!(struct head_lp for EdgeAttributes; String);
 generate_attr!(struct headclip for EdgeAttributes; bool;true);
-generate_attr!(struct headhref for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headlabel for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headtarget for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headtooltip for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headURL for EdgeAttributes; String;"".to_string());
+generate_attr!(struct headhref for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headlabel for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headtarget for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headtooltip for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headURL for EdgeAttributes; String;"\"\"".to_string());
 generate_attr!(struct height for NodeAttributes; f32;0.5);
-generate_attr!(struct image for NodeAttributes; String;"".to_string());
+generate_attr!(struct image for NodeAttributes; String;"\"\"".to_string());
 generate_attr!(struct imagepos for NodeAttributes; String;"mc".to_string());
 generate_attr!(struct imagescale for NodeAttributes; bool;false);
-generate_attr!(struct imagepath for GraphAttributes; String;"".to_string());
+generate_attr!(struct imagepath for GraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct inputscale for GraphAttributes; f32);
 generate_attr!(struct K for GraphAttributes,SubgraphAttributes; f32;0.3);
-generate_attr!(struct label for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"".to_string());
+generate_attr!(struct label for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct label_scheme for  GraphAttributes; i32;0);
 generate_attr!(struct labelangle for  EdgeAttributes; f32;-25.0);
 generate_attr!(struct labeldistance for  EdgeAttributes; f32;1.0);
 generate_attr!(struct labelfloat for  EdgeAttributes; bool;false);
-generate_attr!(struct labelfontname for  EdgeAttributes; String;"Times-Roman".to_string());
+generate_attr!(struct labelfontname for  EdgeAttributes; String;"\"Times-Roman\"".to_string());
 generate_attr!(struct labelfontsize for  EdgeAttributes; f32;14.0);
-generate_attr!(struct labelhref for  EdgeAttributes; String;"".to_string());
+generate_attr!(struct labelhref for  EdgeAttributes; String;"\"\"".to_string());
 generate_attr!(struct labeljust for  GraphAttributes,SubgraphAttributes; String;"c".to_string());
 generate_attr!(struct labelloc for  GraphAttributes,SubgraphAttributes,NodeAttributes; String);
 generate_attr!(struct labeltarget for EdgeAttributes; String);
@@ -117,10 +117,10 @@ generate_attr!(struct labeltooltip for EdgeAttributes; String);
 generate_attr!(struct labelURL for EdgeAttributes; String);
 generate_attr!(struct landscape for GraphAttributes; bool;false);
 generate_attr!(struct layer for EdgeAttributes,NodeAttributes,SubgraphAttributes; String);
-generate_attr!(struct layerlistsep for GraphAttributes; String;",".to_string());
+generate_attr!(struct layerlistsep for GraphAttributes; String;"\",\"".to_string());
 generate_attr!(struct layers for GraphAttributes; String);
 generate_attr!(struct layerselect for GraphAttributes; String);
-generate_attr!(struct layersep for GraphAttributes; String;":\t ".to_string());
+generate_attr!(struct layersep for GraphAttributes; String;"\":\t \"".to_string());
 generate_attr!(struct layout for GraphAttributes; String);
 generate_attr!(struct len for EdgeAttributes; f32);
 generate_attr!(struct levels for GraphAttributes; i32);
-- 
2.43.0


From ebaf7ff3b2d15d046ac6053962ed1c4c6be942a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 18/19] fix: node_id, attr, node and subgraph did not accept
 calls, references and other expressions as ids

---
 dot-generator/src/lib.rs | 83 ++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 29 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 275fdcb..0d44180 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -130,10 +130,12 @@ macro_rules! port {
 #[macro_export]
 macro_rules! node_id {
     () => {  NodeId(id!(),None) };
+    (esc $e:expr) => { NodeId(id!(esc $e),None) };
+    (esc $e:expr, $p:expr) => { NodeId(id!(esc $e),Some($p)) };
+    (html $e:expr) => { NodeId(id!(html $e),None) };
+    (html $e:expr, $p:expr) => { NodeId(id!(html $e),Some($p)) };
     ($e:expr) => { NodeId(id!($e),None) };
     ($e:expr, $p:expr) => { NodeId(id!($e),Some($p)) };
-    ($i:ident $e:expr) => { NodeId(id!($i$e),None) };
-    ($i:ident $e:expr, $p:expr) => { NodeId(id!($i$e),Some($p)) };
 }
 
 /// Constructs an id for node or subgraph.
@@ -192,10 +194,9 @@ macro_rules! id {
 /// ```
 #[macro_export]
 macro_rules! attr {
-    ($ik:ident $k:expr,$iv:ident $v:expr) => {Attribute(id!($ik $k),id!($iv $v))};
-    ($ik:ident $k:expr,$v:expr) => {Attribute(id!($ik $k),id!($v))};
-    ($k:expr, $iv:ident $v:expr) => {Attribute(id!($k),id!($iv $v))};
-    ($k:expr,$v:expr) => {Attribute(id!($k),id!($v))}
+    (esc $k:expr, $($v:tt)+) => {Attribute(id!(esc $k),id!($($v)+))};
+    (html $k:expr, $($v:tt)+) => {Attribute(id!(html $k),id!($($v)+))};
+    ($k:expr, $($v:tt)+) => {Attribute(id!($k),id!($($v)+))}
 }
 
 
@@ -315,15 +316,22 @@ macro_rules! stmt {
 #[macro_export]
 macro_rules! subgraph {
     () => {Subgraph{id:id!(),stmts:vec![]}};
-    ($id:expr) => {Subgraph{id:id!($id),stmts:vec![]}};
-    ($i:ident $id:expr) => {Subgraph{id:id!($i$id),stmts:vec![]}};
-    ($id:expr, $stmts:expr) => {Subgraph{id:id!($id),stmts:$stmts}};
-    ($i:ident $id:expr, $stmts:expr) => {Subgraph{id:id!($i$id),stmts:$stmts}};
-    ($i:ident $id:expr; $($stmts:expr),+ ) => {{
+    (esc $id:expr) => {Subgraph{id:id!(esc $id),stmts:vec![]}};
+    (esc $id:expr, $stmts:expr) => {Subgraph{id:id!(esc $id),stmts:$stmts}};
+    (esc $id:expr; $($stmts:expr),+ ) => {{
+        let mut stmts_vec = Vec::new();
+        $( stmts_vec.push(stmt!($stmts)) ; )+
+        Subgraph{id:id!(esc $id),stmts:stmts_vec}
+    }};
+    (html $id:expr) => {Subgraph{id:id!(html $id),stmts:vec![]}};
+    (html $id:expr, $stmts:expr) => {Subgraph{id:id!(html $id),stmts:$stmts}};
+    (html $id:expr; $($stmts:expr),+ ) => {{
         let mut stmts_vec = Vec::new();
         $( stmts_vec.push(stmt!($stmts)) ; )+
-        Subgraph{id:id!($i$id),stmts:stmts_vec}
+        Subgraph{id:id!(html $id),stmts:stmts_vec}
     }};
+    ($id:expr) => {Subgraph{id:id!($id),stmts:vec![]}};
+    ($id:expr, $stmts:expr) => {Subgraph{id:id!($id),stmts:$stmts}};
     ($id:expr; $($stmts:expr),+ ) => {{
         let mut stmts_vec = Vec::new();
         $( stmts_vec.push(stmt!($stmts)) ; )+
@@ -451,36 +459,53 @@ macro_rules! attrs {
 #[macro_export]
 macro_rules! node {
     () => {Node::new(NodeId(id!(), None), vec![])};
-    ($i:ident $id:expr) => {Node::new(NodeId(id!($i$id), None), vec![])};
-    ($id:expr) => {Node::new(NodeId(id!($id), None), vec![])};
-    ($i:ident $id:expr; $($attr:expr),+ ) => {{
+    (esc $id:expr) => {Node::new(NodeId(id!(esc $id), None), vec![])};
+    (esc $id:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!($i$id), None), attrs)
+        Node::new(NodeId(id!(esc $id), None), attrs)
     }};
-     ($i:ident $id:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($i$id), None), $attrs)
+    (esc $id:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(esc $id), None), $attrs)
     };
-    ($id:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($id), None), $attrs)
+    (esc $id:expr => $p:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(esc $id), Some($p)), $attrs)
     };
-    ( $id:expr; $($attr:expr),+ ) => {{
+    (esc $id:expr => $p:expr; $($attr:expr),+ ) => {{
+        let mut attrs = Vec::new();
+        $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!(esc $id), Some($p)), attrs)
+    }};
+    (html $id:expr) => {Node::new(NodeId(id!(html $id), None), vec![])};
+    (html $id:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!( $id), None), attrs)
+        Node::new(NodeId(id!(html $id), None), attrs)
     }};
-    ($i:ident $id:expr => $p:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($i$id), Some($p)), $attrs)
+    (html $id:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(html $id), None), $attrs)
+    };
+    (html $id:expr => $p:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(html $id), Some($p)), $attrs)
     };
-    ($i:ident $id:expr => $p:expr; $($attr:expr),+ ) => {{
+    (html $id:expr => $p:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
-         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!($i$id), Some($p)), attrs)
+        $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!(html $id), Some($p)), attrs)
     }};
-    ( $id:expr => $p:expr, $attrs:expr  ) => {
+    ($id:expr) => {Node::new(NodeId(id!($id), None), vec![])};
+    ($id:expr; $($attr:expr),+ ) => {{
+        let mut attrs = Vec::new();
+        $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!($id), None), attrs)
+    }};
+    ($id:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!($id), None), $attrs)
+    };
+    ($id:expr => $p:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!($id), Some($p)), $attrs)
     };
-    ( $id:expr => $p:expr; $($attr:expr),+ ) => {{
+    ($id:expr => $p:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
         $( attrs.push($attr) ; )+
         Node::new(NodeId(id!($id), Some($p)), attrs)
-- 
2.43.0


From a92aa221f111f20ed626fb016da63084f110106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 19/19] fix: a deeply nested document overflowed the stack
 while its parse tree was converted

---
 src/parser.rs | 86 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 589b092..4c3d3c2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,6 +3,8 @@
 //! The grammar can be viewed in `/grammar/dot.pest`
 //!
 //! ['notation']: https://graphviz.org/doc/info/lang.html
+use std::collections::HashMap;
+
 use dot_structures::*;
 use pest::{
     error::Error,
@@ -102,21 +104,44 @@ fn process_node_id(rule: Pair<Rule>) -> NodeId {
     }
 }
 
-fn process_subgraph(rule: Pair<Rule>) -> Subgraph {
+/// The subgraphs that are already converted, by the place in the text they start at.
+type Subgraphs = HashMap<usize, Subgraph>;
+
+/// Converts the subgraphs in a rule, each after the ones it contains, so that the conversion
+/// does not take more stack the deeper they are nested.
+fn process_subgraphs(rule: &Pair<Rule>) -> Subgraphs {
+    let mut subgraphs = Subgraphs::new();
+    let rules = Pairs::single(rule.clone())
+        .flatten()
+        .rev()
+        .filter(|r| r.as_rule() == Rule::subgraph);
+    for r in rules {
+        let start = r.as_span().start();
+        let subgraph = process_subgraph(r, &mut subgraphs);
+        subgraphs.insert(start, subgraph);
+    }
+    subgraphs
+}
+
+fn take_subgraph(rule: Pair<Rule>, subgraphs: &mut Subgraphs) -> Subgraph {
+    subgraphs.remove(&rule.as_span().start()).unwrap()
+}
+
+fn process_subgraph(rule: Pair<Rule>, subgraphs: &mut Subgraphs) -> Subgraph {
     let mut sub_r = rule.into_inner();
     let id = match sub_r.peek().map(|r| r.as_rule()) {
         Some(Rule::id) => process_id(sub_r.next().unwrap()),
         _ => Id::Anonymous(rand::random::<u64>().to_string()),
     };
-    let stmts = process_body(sub_r.next().unwrap());
+    let stmts = process_body(sub_r.next().unwrap(), subgraphs);
     Subgraph { id, stmts }
 }
 
-fn process_body(rule: Pair<Rule>) -> Vec<Stmt> {
+fn process_body(rule: Pair<Rule>, subgraphs: &mut Subgraphs) -> Vec<Stmt> {
     let mut stmts = vec![];
     let mut body_r = rule.into_inner();
     while body_r.peek().is_some() {
-        stmts.push(process_stmt(body_r.next().unwrap()));
+        stmts.push(stmt(body_r.next().unwrap(), subgraphs));
     }
     stmts
 }
@@ -137,29 +162,29 @@ fn process_node(rule: Pair<Rule>) -> Node {
     }
 }
 
-fn process_vertex(rule: Pair<Rule>) -> Vertex {
+fn vertex(rule: Pair<Rule>, subgraphs: &mut Subgraphs) -> Vertex {
     let vertex_r = down(rule);
     match vertex_r.as_rule() {
         Rule::node_id => Vertex::N(process_node_id(vertex_r)),
-        Rule::subgraph => Vertex::S(process_subgraph(vertex_r)),
+        Rule::subgraph => Vertex::S(take_subgraph(vertex_r, subgraphs)),
         _ => unreachable!(""),
     }
 }
 
-fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {
+fn edge(rule: Pair<Rule>, subgraphs: &mut Subgraphs) -> Vec<Vertex> {
     let mut edge_r = rule.into_inner();
-    let h = process_vertex(edge_r.next().unwrap());
+    let h = vertex(edge_r.next().unwrap(), subgraphs);
     let mut chain = vec![h];
 
     while edge_r.peek().is_some() {
-        chain.push(process_vertex(down(edge_r.next().unwrap())))
+        chain.push(vertex(down(edge_r.next().unwrap()), subgraphs))
     }
     chain
 }
 
-fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
+fn edge_stmt(rule: Pair<Rule>, subgraphs: &mut Subgraphs) -> Edge {
     let mut edge_r = rule.into_inner();
-    let edges = process_edge(edge_r.next().unwrap());
+    let edges = edge(edge_r.next().unwrap(), subgraphs);
 
     let ty = edge_ty(edges);
 
@@ -185,9 +210,9 @@ fn edge_ty(edges: Vec<Vertex>) -> EdgeTy {
     }
 }
 
-fn process_subgraph_stmt(rule: Pair<Rule>) -> Stmt {
+fn process_subgraph_stmt(rule: Pair<Rule>, subgraphs: &mut Subgraphs) -> Stmt {
     let mut stmt_r = rule.into_inner();
-    let head = process_subgraph(stmt_r.next().unwrap());
+    let head = take_subgraph(stmt_r.next().unwrap(), subgraphs);
     if stmt_r.peek().is_none() {
         return Stmt::Subgraph(head);
     }
@@ -196,7 +221,7 @@ fn process_subgraph_stmt(rule: Pair<Rule>) -> Stmt {
     let mut attributes = vec![];
     for r in stmt_r {
         match r.as_rule() {
-            Rule::edge_tail => edges.push(process_vertex(down(r))),
+            Rule::edge_tail => edges.push(vertex(down(r), subgraphs)),
             _ => attributes = process_attr_list(r),
         }
     }
@@ -213,19 +238,20 @@ fn process_attr_stmt(rule: Pair<Rule>) -> GraphAttributes {
     GraphAttributes::new(mark, attrs)
 }
 
-fn process_stmt(rule: Pair<Rule>) -> Stmt {
+fn stmt(rule: Pair<Rule>, subgraphs: &mut Subgraphs) -> Stmt {
     let stmt_r = down(rule);
     match stmt_r.as_rule() {
         Rule::attr_stmt => Stmt::GAttribute(process_attr_stmt(stmt_r)),
-        Rule::subgraph_stmt => process_subgraph_stmt(stmt_r),
+        Rule::subgraph_stmt => process_subgraph_stmt(stmt_r, subgraphs),
         Rule::node => Stmt::Node(process_node(stmt_r)),
         Rule::bare_attr => Stmt::Attribute(process_bare_attr(stmt_r)),
-        Rule::edge_stmt => Stmt::Edge(process_edge_stmt(stmt_r)),
+        Rule::edge_stmt => Stmt::Edge(edge_stmt(stmt_r, subgraphs)),
         _ => unreachable!(),
     }
 }
 
 fn process_graph(rule: Pair<Rule>) -> Graph {
+    let mut subgraphs = process_subgraphs(&rule);
     let mut graph_r = rule.into_inner();
     let strict = match graph_r.peek().map(|r| r.as_rule()) {
         Some(Rule::strict) => {
@@ -243,7 +269,7 @@ fn process_graph(rule: Pair<Rule>) -> Graph {
         _ => Id::Anonymous(rand::random::<u64>().to_string()),
     };
 
-    let stmts = process_body(graph_r.next().unwrap());
+    let stmts = process_body(graph_r.next().unwrap(), &mut subgraphs);
     if is_di {
         Graph::DiGraph { id, strict, stmts }
     } else {
@@ -251,6 +277,30 @@ fn process_graph(rule: Pair<Rule>) -> Graph {
     }
 }
 
+#[cfg(test)]
+fn process_vertex(rule: Pair<Rule>) -> Vertex {
+    let mut subgraphs = process_subgraphs(&rule);
+    vertex(rule, &mut subgraphs)
+}
+
+#[cfg(test)]
+fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {
+    let mut subgraphs = process_subgraphs(&rule);
+    edge(rule, &mut subgraphs)
+}
+
+#[cfg(test)]
+fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
+    let mut subgraphs = process_subgraphs(&rule);
+    edge_stmt(rule, &mut subgraphs)
+}
+
+#[cfg(test)]
+fn process_stmt(rule: Pair<Rule>) -> Stmt {
+    let mut subgraphs = process_subgraphs(&rule);
+    stmt(rule, &mut subgraphs)
+}
+
 #[cfg(test)]
 mod test {
     use dot_generator::{attr, edge, graph, id, node, node_id, port, stmt, subgraph};
-- 
2.43.0

