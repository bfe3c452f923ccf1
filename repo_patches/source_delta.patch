From a551e1c1929aa8b5431fbdf2907683bf9e70b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:05 +0000
Subject: [PATCH 01/11] fix: a nested FROM or pipe query no longer takes the
 semicolon of its parent

parse_from_statement and parse_pipe_statement consumed `;` unconditionally,
so `a: FROM x; b;` lost a semicolon and `CREATE ... AS FROM x;` put it on the
inner query. They now take the `semicolon` flag like every other statement.
---
 src/parser.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index de801ff..b838f25 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -303,7 +303,7 @@ impl Parser {
         let mut grouped = self.construct_node(NodeType::GroupedStatement)?;
         self.next_token()?; // ( -> SELECT | FROM
         if self.get_token(0)?.is("FROM") {
-            grouped.push_node("stmt", self.parse_from_statement()?);
+            grouped.push_node("stmt", self.parse_from_statement(false)?);
         } else {
             grouped.push_node("stmt", self.parse_select_statement(false, true)?);
         }
@@ -1097,7 +1097,7 @@ impl Parser {
                 // actually, it may be pipe syntax
                 self.parse_select_statement(semicolon, true)?
             }
-            "FROM" => self.parse_from_statement()?, // pipe syntax
+            "FROM" => self.parse_from_statement(semicolon)?, // pipe syntax
             // DML
             "INSERT" => self.parse_insert_statement(semicolon)?,
             "DELETE" => self.parse_delete_statement(semicolon)?,
@@ -2012,7 +2012,7 @@ impl Parser {
             let mut node = self.construct_node(NodeType::GroupedStatement)?;
             self.next_token()?; // ( -> SELECT
             if self.get_token(0)?.is("FROM") {
-                node.push_node("stmt", self.parse_from_statement()?);
+                node.push_node("stmt", self.parse_from_statement(false)?);
             } else {
                 node.push_node("stmt", self.parse_select_statement(false, true)?);
             }
@@ -2068,7 +2068,7 @@ impl Parser {
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
             } else if self.get_token(1)?.is("|>") {
                 self.next_token()?; // -> |>
-                return self.parse_pipe_statement(node);
+                return self.parse_pipe_statement(node, semicolon);
             }
             return Ok(node);
         }
@@ -2076,7 +2076,7 @@ impl Parser {
             let with = self.parse_with_clause()?;
             self.next_token()?; // -> SELECT | '(' | FROM
             let mut node = if self.get_token(0)?.is("FROM") {
-                self.parse_from_statement()?
+                self.parse_from_statement(semicolon)?
             } else {
                 self.parse_select_statement(semicolon, true)?
             };
@@ -2241,27 +2241,27 @@ impl Parser {
             node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         } else if self.get_token(1)?.is("|>") && root {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(node);
+            return self.parse_pipe_statement(node, semicolon);
         }
         Ok(node)
     }
-    fn parse_from_statement(&mut self) -> BQ2CSTResult<Node> {
+    fn parse_from_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut from = self.construct_node(NodeType::FromStatement)?;
         self.next_token()?; // -> ident
         from.push_node("expr", self.parse_table(true)?);
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(from);
+            return self.parse_pipe_statement(from, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             from.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
         Ok(from)
     }
-    fn parse_pipe_statement(&mut self, left: Node) -> BQ2CSTResult<Node> {
+    fn parse_pipe_statement(&mut self, left: Node, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut pipe = self.construct_node(NodeType::PipeStatement)?;
         pipe.push_node("left", left);
         self.next_token()?; // -> SELECT | LIMIT | ...
@@ -2301,10 +2301,10 @@ impl Parser {
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(pipe);
+            return self.parse_pipe_statement(pipe, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             pipe.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
-- 
2.43.0


From ab46988fe51ba9741a83776ebd4a75a3b5651b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:22 +0000
Subject: [PATCH 02/11] fix: MERGE does not lose a semicolon written before ON

A `;` after the USING clause was stored under "semicolon" and then silently
replaced by the terminating one.
---
 src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b838f25..ef8a906 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2647,10 +2647,6 @@ impl Parser {
             self.parse_expr(usize::MAX, true, false, false, true)?,
         );
         merge.push_node("using", using);
-        if self.get_token(1)?.is(";") {
-            self.next_token()?; // -> ;
-            merge.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
-        }
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // ON -> expr
-- 
2.43.0


From 9e45536c2e2fb692091ecf396a7c4984cadf70e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:27 +0000
Subject: [PATCH 03/11] fix: an identifier missing at the end of the input is
 an error, not a panic

`CREATE TABLE` and the like made parse_identifier unwrap the first character
of the empty end-of-file literal.
---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ef8a906..be57592 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -942,7 +942,7 @@ impl Parser {
             let mut trailing_idents = vec![];
             loop {
                 let curr_token = parser.get_token(0)?;
-                if curr_token.literal.chars().next().unwrap() == '`' {
+                if curr_token.literal.starts_with('`') {
                     break;
                 }
                 let next_token = match parser.get_token(1) {
@@ -952,7 +952,7 @@ impl Parser {
                 if next_token.in_(&vec![",", ".", "(", ")", ";"]) {
                     break;
                 }
-                if !(curr_token.literal.chars().last().unwrap() == '.')
+                if !curr_token.literal.ends_with('.')
                     && !(curr_token.line == next_token.line
                         && curr_token.column + curr_token.literal.chars().count()
                             == next_token.column)
-- 
2.43.0


From a3e93a1325a9a5cf59fc011fb63100026d237ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:52 +0000
Subject: [PATCH 04/11] fix: a column type takes either PRIMARY KEY or
 REFERENCES, not both

`INT64 PRIMARY KEY NOT ENFORCED REFERENCES t(c) NOT ENFORCED` stored two
"enforced" children and lost the tokens of the first.
---
 src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index be57592..a565b79 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1506,8 +1506,7 @@ impl Parser {
                 self.next_token()?; // -> NOT | ENFORCED
                 res.push_node("enforced", self.parse_enforced()?);
             }
-        }
-        if self.get_token(1)?.is("REFERENCES") {
+        } else if self.get_token(1)?.is("REFERENCES") {
             self.next_token()?; // -> REFERENCES
             let mut references = self.construct_node(NodeType::KeywordWithExpr)?;
             self.next_token()?; // -> ident
-- 
2.43.0


From 68597ab951534db6838764c8edbc52696e6cd58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:25 +0000
Subject: [PATCH 05/11] fix: a leading < is not a panic, and comments may
 precede the < of a type

The lexer unwrapped the last token, which does not exist when the input starts
with `<`, and which is a comment in `ARRAY /* c */ <INT64>`, so that the depth
of type parameters depended on comments.
---
 src/lexer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d8f6cd6..862275b 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,10 +153,11 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if self.tokens.last().unwrap().literal.to_uppercase() == "ARRAY"
-                        || self.tokens.last().unwrap().literal.to_uppercase() == "STRUCT"
-                    {
-                        self.type_declaration_depth += 1;
+                    // comments may stand between ARRAY and <
+                    if let Some(last) = self.tokens.iter().rev().find(|t| !t.is_comment()) {
+                        if last.is("ARRAY") || last.is("STRUCT") {
+                            self.type_declaration_depth += 1;
+                        }
                     }
                     self.next_char()?;
                     self.construct_token(line, column, ch.to_string())
-- 
2.43.0


From 2cc5b13dc60f9374077d4a595bd4943c23ecbafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:28 +0000
Subject: [PATCH 06/11] fix: /*/ opens a block comment but does not close it

The `*` of the opening was also accepted as the `*` of the closing.
---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 862275b..a666ca9 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -313,6 +313,8 @@ impl Lexer {
     }
     fn read_multiline_comment(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        self.next_char()?; // / -> *
+        self.next_char()?; // * ->
         while !(self.get_char(0) == Some('*') && self.get_char(1) == Some('/')) {
             self.next_char()?;
         }
-- 
2.43.0


From d870082315747b7943e0b0eff76f1bc47b718dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:11 +0000
Subject: [PATCH 07/11] fix: field access binds tighter than unary minus

`-a.b` was parsed as `(-a).b`: the operand of a unary operator was parsed with
the precedence of `.` itself, so it stopped before the dot.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a565b79..9827060 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -459,7 +459,7 @@ impl Parser {
                 "-" | "+" | "~" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // - -> expr
-                    let right = self.parse_expr(102, false, false, false, true)?;
+                    let right = self.parse_expr(103, false, false, false, true)?;
                     left.push_node("right", right);
                 }
                 "DATE" | "TIME" | "DATETIME" | "TIMESTAMP" | "NUMERIC" | "BIGNUMERIC"
-- 
2.43.0


From cc96cf7d42f3387e7b8abd665226c275377e01fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:32 +0000
Subject: [PATCH 08/11] fix: a float without digits after the point is a
 numeric literal

`1.` and `1.e5` are valid GoogleSQL literals and single tokens, but got the
node type Unknown.
---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 55df731..b2574ef 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -90,7 +90,7 @@ impl Token {
         }
     }
     pub fn is_numeric(&self) -> bool {
-        let re = Regex::new(r"^([0-9]+|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
+        let re = Regex::new(r"^([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
         re.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
-- 
2.43.0


From c4c42537de318a6096540ca329e99cb9b29de3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:51 +0000
Subject: [PATCH 09/11] fix: read a hexadecimal integer as one numeric literal

`0xFF` was split into `0` and `xFF`, so that `SELECT 0xFF` became `SELECT 0 AS xFF`.
---
 src/lexer.rs | 20 ++++++++++++++++++++
 src/token.rs |  4 +++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index a666ca9..367bc46 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -358,6 +358,19 @@ impl Lexer {
     }
     fn read_number(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        if let (Some('0'), Some('x') | Some('X')) = (self.get_char(0), self.get_char(1)) {
+            if is_hex_digit(&self.get_char(2)) {
+                self.next_char()?; // 0 -> x
+                self.next_char()?; // x -> f
+                while is_hex_digit(&self.get_char(0)) {
+                    self.next_char()?;
+                }
+                let res = self.input[first_position..self.position]
+                    .into_iter()
+                    .collect();
+                return Ok(res);
+            }
+        }
         while is_digit(&self.get_char(0)) {
             self.next_char()?;
         } // 9 -> .
@@ -427,6 +440,13 @@ fn is_digit(ch: &Option<char>) -> bool {
     }
 }
 
+fn is_hex_digit(ch: &Option<char>) -> bool {
+    match ch {
+        Some(ch) => ch.is_digit(16),
+        None => false,
+    }
+}
+
 fn is_end_of_line(ch: &Option<char>) -> bool {
     match ch {
         Some(ch) => ch == &'\n',
diff --git a/src/token.rs b/src/token.rs
index b2574ef..0b3e980 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -90,7 +90,9 @@ impl Token {
         }
     }
     pub fn is_numeric(&self) -> bool {
-        let re = Regex::new(r"^([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
+        let re =
+            Regex::new(r"^(0[xX][0-9a-fA-F]+|([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?)$")
+                .unwrap();
         re.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
-- 
2.43.0


From 433e9f28e1ded8bf038bdda9d8fb44e0372f2c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:02 +0000
Subject: [PATCH 10/11] fix: publish the with child of a pipe statement

---
 src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types.rs b/src/types.rs
index 89f22f7..76988e2 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1315,6 +1315,7 @@ export type PatternQuantifier = BaseNode & {
 export type PipeStatement = XXXStatement & {
   node_type: "PipeStatement";
   children: {
+    with?: { Node: WithClause };
     left: NodeChild;
     right: NodeChild;
   };
-- 
2.43.0


From c0b7eb60ad8bc766318540359952008ea2889ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:02 +0000
Subject: [PATCH 11/11] fix: publish the orderby and limit children of a set
 operation

---
 src/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index 76988e2..036db60 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1436,6 +1436,8 @@ export type SetOperator = XXXStatement & {
     distinct_or_all: NodeChild;
     left: { Node: SetOperator | SelectStatement | GroupedStatement };
     right: { Node: SetOperator | SelectStatement | GroupedStatement };
+    orderby?: NodeChild;
+    limit?: NodeChild;
   };
 };
 
-- 
2.43.0

