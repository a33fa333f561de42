From 71cc85f7487c2e593e53457fb266e0426d5f55af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 01/44] fix: compare rows without underflow when body members
 start on the first line

---
 src/enum_def.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 97e1106..caef97b 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -819,7 +819,7 @@ impl<M> BodyMember<M> {
         }
 
         node.next_named_sibling()
-            .is_some_and(|n| node.end_position().row < n.start_position().row - 1)
+            .is_some_and(|n| node.end_position().row + 1 < n.start_position().row)
     }
 }
 
-- 
2.43.0


From 20600c30d4722f892360daa6a806aa94844db7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 02/44] fix: keep every dimension of a multi-dimensional array
 type

---
 src/data_model.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 67bb626..0ac6aba 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2686,6 +2686,7 @@ impl<'a> DocBuild<'a> for ArrayCreationVariant {
 
 #[derive(Debug)]
 pub struct Dimensions {
+    pub count: usize,
     pub node_context: NodeContext,
 }
 
@@ -2693,7 +2694,14 @@ impl Dimensions {
     pub fn new(node: Node) -> Self {
         assert_check(node, "dimensions");
 
+        let mut cursor = node.walk();
+        let count = node
+            .children(&mut cursor)
+            .filter(|c| c.kind() == "[")
+            .count();
+
         Self {
+            count,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2702,7 +2710,7 @@ impl Dimensions {
 impl<'a> DocBuild<'a> for Dimensions {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt("[]"));
+            result.push(b.txt("[]".repeat(self.count)));
         });
     }
 }
-- 
2.43.0


From 3520291b7516ac3aa7012c5131a0875da031ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 03/44] fix: keep array dimensions and loop variable modifiers
 in declarations

---
 src/data_model.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 0ac6aba..7902e97 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -137,8 +137,8 @@ pub struct MethodDeclaration {
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
+    pub dimensions: Option<Dimensions>,
     pub body: Option<Block>,
-    //pub dimensions
     pub node_context: NodeContext,
 }
 
@@ -151,6 +151,7 @@ impl MethodDeclaration {
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             body: node.try_c_by_n("body").map(|n| Block::new(n)),
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -169,6 +170,10 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
             result.push(self.name.build(b));
             result.push(self.formal_parameters.build(b));
 
+            if let Some(ref n) = self.dimensions {
+                result.push(n.build(b));
+            }
+
             if let Some(ref n) = self.body {
                 result.push(b.txt(" "));
                 let body_doc = n.build(b);
@@ -1199,7 +1204,7 @@ impl<'a> DocBuild<'a> for LocalVariableDeclaration {
 #[derive(Debug)]
 pub struct VariableDeclarator {
     pub name: ValueNode,
-    //pub dimenssions
+    pub dimensions: Option<Dimensions>,
     pub op: Option<ValueNode>,
     pub value: Option<VariableInitializer>,
     pub is_value_child_a_query_node: bool,
@@ -1219,6 +1224,7 @@ impl VariableDeclarator {
 
         Self {
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             op,
             value,
             is_value_child_a_query_node,
@@ -1233,6 +1239,10 @@ impl<'a> DocBuild<'a> for VariableDeclarator {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let mut docs = vec![self.name.build(b)];
 
+            if let Some(ref n) = self.dimensions {
+                docs.push(n.build(b));
+            }
+
             if self.value.is_none() {
                 result.push(b.concat(docs));
                 return;
@@ -1555,10 +1565,10 @@ impl<'a> DocBuild<'a> for ForStatement {
 
 #[derive(Debug)]
 pub struct EnhancedForStatement {
-    //pub modifiers: Option<Modifiers>,
+    pub modifiers: Option<Modifiers>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
-    //pub dimension
+    pub dimensions: Option<Dimensions>,
     pub value: Expression,
     pub body: Statement,
     pub node_context: NodeContext,
@@ -1568,12 +1578,11 @@ impl EnhancedForStatement {
     pub fn new(node: Node) -> Self {
         assert_check(node, "enhanced_for_statement");
 
-        //let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
-
         Self {
-            //modifiers,
+            modifiers: node.try_c_by_k("modifiers").map(Modifiers::new),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             value: Expression::new(node.c_by_n("value")),
             body: Statement::new(node.c_by_n("body")),
             node_context: NodeContext::with_punctuation(&node),
@@ -1585,9 +1594,15 @@ impl<'a> DocBuild<'a> for EnhancedForStatement {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for ("));
+            if let Some(ref n) = self.modifiers {
+                result.push(n.build(b));
+            }
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
+            if let Some(ref n) = self.dimensions {
+                result.push(n.build(b));
+            }
             result.push(b._txt_(":"));
             result.push(self.value.build(b));
             result.push(b.txt(")"));
-- 
2.43.0


From cd1c9097c86412147e941084014fd21881d8b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 04/44] fix: keep every update expression of a for loop

---
 src/data_model.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 7902e97..c1770a6 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1472,7 +1472,7 @@ impl<'a> DocBuild<'a> for ForInitOption {
 pub struct ForStatement {
     pub init: Option<ForInitOption>,
     pub condition: Option<Expression>,
-    pub update: Option<Expression>,
+    pub updates: Vec<Expression>,
     pub body: Statement,
     pub semicolons: Vec<Punctuation>,
     pub node_context: NodeContext,
@@ -1488,7 +1488,11 @@ impl ForStatement {
 
         let init = node.try_c_by_n("init").map(|n| ForInitOption::new(n));
         let condition = node.try_c_by_n("condition").map(|n| Expression::new(n));
-        let update = node.try_c_by_n("update").map(|n| Expression::new(n));
+        let mut cursor = node.walk();
+        let updates = node
+            .children_by_field_name("update", &mut cursor)
+            .map(|n| Expression::new(n))
+            .collect();
 
         let semicolons = Self::build_semi_colons(&node);
 
@@ -1506,7 +1510,7 @@ impl ForStatement {
         Self {
             init,
             condition,
-            update,
+            updates,
             body: Statement::new(node.c_by_n("body")),
             semicolons,
             node_context: NodeContext::with_punctuation(&node),
@@ -1539,9 +1543,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = match &self.update {
-                Some(u) => b.concat(vec![b.txt(" "), u.build(b)]),
-                None => b.nil(),
+            let update = if self.updates.is_empty() {
+                b.nil()
+            } else {
+                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+                let updates = b.intersperse(&b.to_docs(&self.updates), sep);
+                b.concat(vec![b.txt(" "), updates])
             };
 
             let docs = vec![init, condition, update];
-- 
2.43.0


From c2be3f70328de0390243452494c2ebae191ea307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 05/44] fix: keep the type parameters of a method

---
 src/data_model.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index c1770a6..8726a8a 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -134,6 +134,7 @@ impl<'a> DocBuild<'a> for ClassDeclaration {
 #[derive(Debug)]
 pub struct MethodDeclaration {
     pub modifiers: Option<Modifiers>,
+    pub type_parameters: Option<TypeParameters>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
@@ -148,6 +149,7 @@ impl MethodDeclaration {
 
         Self {
             modifiers: node.try_c_by_k("modifiers").map(|n| Modifiers::new(n)),
+            type_parameters: node.try_c_by_n("type_parameters").map(TypeParameters::new),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
@@ -165,6 +167,11 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
                 result.push(n.build(b));
             }
 
+            if let Some(ref n) = self.type_parameters {
+                result.push(n.build(b));
+                result.push(b.txt(" "));
+            }
+
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
-- 
2.43.0


From a250fb6daed0a0d363a2bb3d91cd5aeec56d1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 06/44] fix: keep the USING, UPDATE and every FOR option of a
 SOQL query

---
 src/data_model.rs | 50 ++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8726a8a..d7b0eb7 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4215,15 +4215,15 @@ impl<'a> DocBuild<'a> for SObjectReturnQuery {
 pub struct SoqlQueryBody {
     pub select_clause: SelectClause,
     pub from_clause: FromClause,
-    //using_clause;
+    pub using_clause: Option<UsingClause>,
     pub where_clause: Option<WhereClause>,
     pub with_clause: Option<SoqlWithClause>,
     pub group_by_clause: Option<GroupByClause>,
     pub order_by_clause: Option<OrderByClause>,
     pub limit_clause: Option<LimitClause>,
     pub offset_clause: Option<OffsetClause>,
-    pub for_clause: Vec<ForClause>,
-    //update_c;
+    pub for_clause: Option<ForClause>,
+    pub update_clause: Option<UpdateClause>,
     pub all_rows_clause: Option<AllRowsClause>,
     pub node_context: NodeContext,
 }
@@ -4249,15 +4249,16 @@ impl SoqlQueryBody {
         let all_rows_clause = node
             .try_c_by_n("all_rows_clause")
             .map(|n| AllRowsClause::new(n));
-        let for_clause = node
-            .try_cs_by_k("for_clause")
-            .into_iter()
-            .map(|n| ForClause::new(n))
-            .collect();
+        let using_clause = node.try_c_by_n("using_clause").map(|n| UsingClause::new(n));
+        let for_clause = node.try_c_by_n("for_clause").map(|n| ForClause::new(n));
+        let update_clause = node
+            .try_c_by_n("update_clause")
+            .map(|n| UpdateClause::new(n));
 
         Self {
             select_clause: SelectClause::new(node.c_by_n("select_clause")),
             from_clause: FromClause::new(node.c_by_n("from_clause")),
+            using_clause,
             where_clause,
             with_clause,
             group_by_clause,
@@ -4265,6 +4266,7 @@ impl SoqlQueryBody {
             limit_clause,
             offset_clause,
             for_clause,
+            update_clause,
             all_rows_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4278,6 +4280,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             docs.push(self.select_clause.build(b));
             docs.push(self.from_clause.build(b));
 
+            if let Some(ref n) = self.using_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.where_clause {
                 docs.push(n.build(b));
             }
@@ -4296,17 +4301,14 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             if let Some(ref n) = self.offset_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.all_rows_clause {
+            if let Some(ref n) = self.for_clause {
                 docs.push(n.build(b));
             }
-            if !self.for_clause.is_empty() {
-                let for_types: Vec<DocRef<'_>> =
-                    self.for_clause.iter().map(|n| n.build(b)).collect();
-                let sep = Insertable::new(None, Some(" "), None);
-                let for_types_doc = b.intersperse(&for_types, sep);
-
-                let for_clause_doc = b.concat(vec![b.txt_("FOR"), for_types_doc]);
-                docs.push(for_clause_doc);
+            if let Some(ref n) = self.update_clause {
+                docs.push(n.build(b));
+            }
+            if let Some(ref n) = self.all_rows_clause {
+                docs.push(n.build(b));
             }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -6009,7 +6011,7 @@ impl<'a> DocBuild<'a> for SoqlWithType {
 
 #[derive(Debug)]
 pub struct ForClause {
-    pub for_type: ValueNode,
+    pub for_types: Vec<ValueNode>,
     pub node_context: NodeContext,
 }
 
@@ -6018,7 +6020,11 @@ impl ForClause {
         assert_check(node, "for_clause");
 
         Self {
-            for_type: ValueNode::new(node.c_by_k("for_type")),
+            for_types: node
+                .cs_by_k("for_type")
+                .into_iter()
+                .map(|n| ValueNode::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -6027,7 +6033,11 @@ impl ForClause {
 impl<'a> DocBuild<'a> for ForClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.for_type.build(b));
+            result.push(b.txt_("FOR"));
+
+            let docs = b.to_docs(&self.for_types);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 36cb8c88997fed37dc8b74c36e61ef414669d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 07/44] fix: format USING LOOKUP clauses

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index d7b0eb7..761586a 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4611,7 +4611,7 @@ impl UsingLookupClause {
     pub fn new(node: Node) -> Self {
         assert_check(node, "using_lookup_clause");
 
-        let lookup_field = DottedIdentifier::new(node.c_by_n("using_lookup_clause"));
+        let lookup_field = DottedIdentifier::new(node.c_by_n("lookup_field"));
         let bind_clause = node
             .try_c_by_k("using_lookup_bind_clause")
             .map(|n| UsingLookupBindClause::new(n));
@@ -4629,8 +4629,8 @@ impl<'a> DocBuild<'a> for UsingLookupClause {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("LOOKUP"));
             result.push(self.lookup_field.build(b));
-            result.push(b.txt(" "));
             if let Some(ref n) = self.bind_clause {
+                result.push(b.txt(" "));
                 result.push(n.build(b));
             }
         });
@@ -4712,7 +4712,7 @@ impl UsingLookupBindExpression {
         assert_check(node, "using_lookup_bind_expression");
 
         Self {
-            field: ValueNode::new(node.c_by_k("field")),
+            field: ValueNode::new(node.c_by_n("field")),
             bound_value: SoqlLiteral::new(node.c_by_n("bound_value")),
             node_context: NodeContext::with_punctuation(&node),
         }
-- 
2.43.0


From 06154579d1497194438be072b0417b14795fabea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 08/44] fix: keep every object of a FROM clause

---
 src/data_model.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 761586a..3f30799 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4320,7 +4320,7 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
 
 #[derive(Debug)]
 pub struct FromClause {
-    pub content: StorageVariant,
+    pub contents: Vec<StorageVariant>,
     pub node_context: NodeContext,
 }
 
@@ -4329,7 +4329,11 @@ impl FromClause {
         assert_check(node, "from_clause");
 
         Self {
-            content: StorageVariant::new(node.first_c()),
+            contents: node
+                .children_vec()
+                .into_iter()
+                .map(|n| StorageVariant::new(n))
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -4339,7 +4343,10 @@ impl<'a> DocBuild<'a> for FromClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("FROM"));
-            result.push(self.content.build(b));
+
+            let docs = b.to_docs(&self.contents);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 8f11f709c1d7b7f31c928c6b3ff57b24ae16e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 09/44] fix: keep the OFFSET and every RETURNING clause of a
 SOSL query

---
 src/data_model.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3f30799..901d2fe 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3939,11 +3939,11 @@ impl<'a> DocBuild<'a> for QueryBody {
 pub struct SoslQueryBody {
     pub find_clause: FindClause,
     pub in_clause: Option<InClause>,
-    pub returning_clause: Option<ReturningClause>,
+    pub returning_clauses: Vec<ReturningClause>,
     pub with_clauses: Vec<SoslWithClause>,
     pub using_clause: Option<SoslUsingClause>,
     pub limit_clause: Option<LimitClause>,
-    //pub offset_clause: Option<OffsetClause>,
+    pub offset_clause: Option<OffsetClause>,
     pub update_clause: Option<UpdateClause>,
     pub node_context: NodeContext,
 }
@@ -3954,9 +3954,11 @@ impl SoslQueryBody {
 
         let find_clause = FindClause::new(node.c_by_k("find_clause"));
         let in_clause = node.try_c_by_k("in_clause").map(|n| InClause::new(n));
-        let returning_clause = node
-            .try_c_by_k("returning_clause")
-            .map(|n| ReturningClause::new(n));
+        let returning_clauses = node
+            .try_cs_by_k("returning_clause")
+            .into_iter()
+            .map(|n| ReturningClause::new(n))
+            .collect();
         let with_clauses = node
             .try_cs_by_k("with_clause")
             .into_iter()
@@ -3966,6 +3968,9 @@ impl SoslQueryBody {
             .try_c_by_k("sosl_using_clause")
             .map(|n| SoslUsingClause::new(n));
         let limit_clause = node.try_c_by_k("limit_clause").map(|n| LimitClause::new(n));
+        let offset_clause = node
+            .try_c_by_k("offset_clause")
+            .map(|n| OffsetClause::new(n));
         let update_clause = node
             .try_c_by_k("update_clause")
             .map(|n| UpdateClause::new(n));
@@ -3973,10 +3978,11 @@ impl SoslQueryBody {
         Self {
             find_clause,
             in_clause,
-            returning_clause,
+            returning_clauses,
             with_clauses,
             using_clause,
             limit_clause,
+            offset_clause,
             update_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -3992,7 +3998,7 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.in_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.returning_clause {
+            for n in &self.returning_clauses {
                 docs.push(n.build(b));
             }
             if !self.with_clauses.is_empty() {
@@ -4007,6 +4013,9 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.limit_clause {
                 docs.push(n.build(b));
             }
+            if let Some(ref n) = self.offset_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.update_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From 1920cff977e8d60e15326e669d06925f72c40245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 10/44] fix: keep the parentheses of a nested SOQL NOT

---
 src/enum_def.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index caef97b..422d724 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1235,9 +1235,10 @@ impl ConditionExpression {
     }
 
     fn should_parenthesize(parent_op: Option<&str>, child_op: Option<&str>) -> bool {
-        // Parentheses are NOT needed if both parent and child operators are the same.
+        // Parentheses are NOT needed if both parent and child operators are the same,
+        // except for NOT, which cannot be applied to another NOT directly.
         // Otherwise, parentheses are needed to maintain correct logical grouping.
-        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child)
+        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child && parent != "NOT")
     }
 }
 
-- 
2.43.0


From 6470773c5ab415dc680799122d1f09b801afdf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 11/44] fix: format date-time and currency literals in SOQL

---
 src/enum_def.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 422d724..e38edbb 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1389,8 +1389,8 @@ pub enum SoqlLiteral {
     DWithParam(DateLiteralWithParam),
     NullLiteral(ValueNode),
     Date(ValueNode),
-    //CurrentLiteral(ValueNode),
-    //DateTime(ValueNode),
+    CurrencyLiteral(ValueNode),
+    DateTime(ValueNode),
 }
 
 impl SoqlLiteral {
@@ -1401,6 +1401,8 @@ impl SoqlLiteral {
             "string_literal" => Self::StringLiteral(ValueNode::new(node)),
             "boolean" => Self::Boolean(ValueNode::new(node)),
             "date" => Self::Date(ValueNode::new(node)),
+            "date_time" => Self::DateTime(ValueNode::new(node)),
+            "currency_literal" => Self::CurrencyLiteral(ValueNode::new(node)),
             "date_literal" => Self::DateLiteral(ValueNode::new(node)),
             "date_literal_with_param" => Self::DWithParam(DateLiteralWithParam::new(node)),
             "null_literal" => Self::NullLiteral(ValueNode::new(node)),
@@ -1424,6 +1426,12 @@ impl<'a> DocBuild<'a> for SoqlLiteral {
             Self::Date(n) => {
                 result.push(n.build(b));
             }
+            Self::DateTime(n) => {
+                result.push(n.build(b));
+            }
+            Self::CurrencyLiteral(n) => {
+                result.push(n.build(b));
+            }
             Self::Boolean(n) => {
                 result.push(n.build(b));
             }
-- 
2.43.0


From bccad233f19b094196bf9249fcf4db58b5235cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 12/44] fix: print the semicolon of an empty if or else body
 once

---
 src/data_model.rs | 13 +++++++++++++
 src/enum_def.rs   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 901d2fe..39787df 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1377,6 +1377,8 @@ impl<'a> DocBuild<'a> for IfStatement {
             if self.consequence.is_block() {
                 result.push(b.txt(" "));
                 result.push(self.consequence.build(b));
+            } else if self.consequence.is_semicolon() {
+                // the `;` is already built as the punctuation of the condition
             } else {
                 result.push(b.indent(b.nl()));
                 result.push(b.indent(self.consequence.build(b)));
@@ -1384,6 +1386,17 @@ impl<'a> DocBuild<'a> for IfStatement {
 
             // Handle the 'else' part
             if let Some(ref alt) = self.alternative {
+                if alt.statement.is_semicolon() {
+                    // the `;` is already built as the punctuation of the `else`
+                    if self.consequence.is_block() {
+                        result.push(b.txt(" "));
+                    } else {
+                        result.push(b.nl());
+                    }
+                    result.push(alt.else_node.build(b));
+                    return;
+                }
+
                 if self.consequence.is_block() {
                     result.push(b.txt(" "));
 
diff --git a/src/enum_def.rs b/src/enum_def.rs
index e38edbb..d120bfa 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -636,6 +636,9 @@ impl Statement {
     pub fn is_block(&self) -> bool {
         matches!(self, Statement::Block(_))
     }
+    pub fn is_semicolon(&self) -> bool {
+        matches!(self, Statement::SemiColumn)
+    }
 }
 
 impl<'a> DocBuild<'a> for Statement {
-- 
2.43.0


From f18ae7280c69806fe93fcc8554e0b2859672efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 13/44] fix: keep the brackets of an empty list that holds a
 comment

---
 src/data_model.rs |  8 ++++----
 src/utility.rs    | 34 +++++++++++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 39787df..83ee8ec 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -215,7 +215,7 @@ impl FormalParameters {
 
 impl<'a> DocBuild<'a> for FormalParameters {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_list_with_comments_and_punc(b, &self.node_context, result, "(", ")", |b, result| {
             let parameters_doc = b.to_docs(&self.formal_parameters);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -557,7 +557,7 @@ impl ArrayInitializer {
 
 impl<'a> DocBuild<'a> for ArrayInitializer {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_list_with_comments_and_punc(b, &self.node_context, result, "{", "}", |b, result| {
             let docs = b.to_docs(&self.initializers);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -1003,7 +1003,7 @@ impl ArgumentList {
 
 impl<'a> DocBuild<'a> for ArgumentList {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_list_with_comments_and_punc(b, &self.node_context, result, "(", ")", |b, result| {
             let docs = b.to_docs(&self.expressions);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -5041,7 +5041,7 @@ impl MapInitializer {
 
 impl<'a> DocBuild<'a> for MapInitializer {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_list_with_comments_and_punc(b, &self.node_context, result, "{", "}", |b, result| {
             let docs = b.to_docs(&self.initializers);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
diff --git a/src/utility.rs b/src/utility.rs
index 8ce88c1..0b0e0f6 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -309,9 +309,10 @@ pub fn build_with_comments_core<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
+    handle_members(b, result);
+
+    if !bucket.dangling_comments.is_empty() {
+        result.push(b.txt(" "));
         result.push(b.concat(handle_dangling_comments(b, bucket)));
     }
 }
@@ -336,6 +337,33 @@ pub fn build_with_comments_and_punc<'a, F>(
     }
 }
 
+// The dangling comments of an empty bracketed list are kept within its brackets.
+pub fn build_list_with_comments_and_punc<'a, F>(
+    b: &'a DocBuilder<'a>,
+    node_context: &NodeContext,
+    result: &mut Vec<DocRef<'a>>,
+    open: &str,
+    close: &str,
+    handle_members: F,
+) where
+    F: FnOnce(&'a DocBuilder<'a>, &mut Vec<DocRef<'a>>),
+{
+    let bucket = get_comment_bucket(&node_context.id);
+    if bucket.dangling_comments.is_empty() {
+        return build_with_comments_and_punc(b, node_context, result, handle_members);
+    }
+
+    handle_pre_comments(b, bucket, result);
+    result.push(b.txt(open));
+    result.push(b.concat(handle_dangling_comments(b, bucket)));
+    result.push(b.txt(close));
+    handle_post_comments(b, bucket, result);
+
+    if let Some(ref n) = node_context.punc {
+        result.push(n.build(b));
+    }
+}
+
 // fix: https://github.com/xixiaofinland/afmt/issues/114
 pub fn build_with_comments_and_punc_attached<'a, F>(
     b: &'a DocBuilder<'a>,
-- 
2.43.0


From 54f5f420f3d59f0cad70f7b270f5f07eb271c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 14/44] fix: format files that hold only comments

---
 src/data_model.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 83ee8ec..bc035d6 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -49,12 +49,9 @@ impl<'a> DocBuild<'a> for Root {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         let bucket = get_comment_bucket(&self.node_context.id);
         if !bucket.dangling_comments.is_empty() {
-            let docs: Vec<_> = bucket
-                .dangling_comments
-                .iter()
-                .map(|n| n.build(b))
-                .collect();
-            return result.push(b.concat(docs));
+            result.push(b.concat(handle_dangling_comments(b, bucket)));
+            result.push(b.nl());
+            return;
         }
 
         let doc = b.intersperse_body_members(&self.members);
-- 
2.43.0


From c05b16457bf9a34ee9c22f42f09c0f4b2a27b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 15/44] fix: keep nested signs of an operand apart

---
 src/data_model.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index bc035d6..2a3e7f9 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2168,6 +2168,7 @@ impl<'a> DocBuild<'a> for WhileStatement {
 pub struct UnaryExpression {
     pub operator: String,
     pub operand: Box<Expression>,
+    pub is_operand_same_sign: bool,
     pub node_context: NodeContext,
 }
 
@@ -2176,9 +2177,16 @@ impl UnaryExpression {
         assert_check(node, "unary_expression");
 
         let operator = node.cvalue_by_n("operator");
+        let operand_node = node.c_by_n("operand");
+
+        // `- -a` must not become `--a`
+        let is_operand_same_sign =
+            matches!(operator.as_str(), "+" | "-") && operand_node.v().starts_with(&operator);
+
         Self {
             operator,
-            operand: Box::new(Expression::new(node.c_by_n("operand"))),
+            operand: Box::new(Expression::new(operand_node)),
+            is_operand_same_sign,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2188,6 +2196,9 @@ impl<'a> DocBuild<'a> for UnaryExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt(&self.operator));
+            if self.is_operand_same_sign {
+                result.push(b.txt(" "));
+            }
             result.push(self.operand.build(b));
         });
     }
-- 
2.43.0


From 61aa722d64455aa4643f9fe278e70bd7c915dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 16/44] fix: build each semicolon of a for loop once

---
 src/data_model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 2a3e7f9..760dcc4 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1551,7 +1551,13 @@ impl<'a> DocBuild<'a> for ForStatement {
             let mut semicolons_iter = self.semicolons.iter();
 
             let init = match &self.init {
-                Some(i) => i.build(b),
+                Some(i) => {
+                    // the semicolon is already built as the punctuation of the last expression
+                    if matches!(i, ForInitOption::Exps(_)) {
+                        semicolons_iter.next();
+                    }
+                    i.build(b)
+                }
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-- 
2.43.0


From 9ad18a6e91c98ef1ece7f0249cd5c0e78186bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 17/44] fix: print the comments of a simple SOQL WITH type once

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 760dcc4..eb1e989 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5260,7 +5260,7 @@ impl<'a> DocBuild<'a> for SoqlWithClause {
 
 #[derive(Debug)]
 pub enum SoqlWithTypeVariant {
-    SimpleType(ValueNode), // Security_Enforced, User_Mode, and System_Mode
+    SimpleType(String), // Security_Enforced, User_Mode, and System_Mode
     //RecordVisibility(WithRecordVisibilityExpression),
     //DataCategory(WithDataCatExpression),
     UserId(ValueNode),
@@ -5269,7 +5269,7 @@ pub enum SoqlWithTypeVariant {
 impl SoqlWithTypeVariant {
     pub fn new(node: Node) -> Self {
         let with_type = if node.named_child_count() == 0 {
-            return Self::SimpleType(ValueNode::new(node));
+            return Self::SimpleType(node.value());
         } else {
             let child = node.first_c();
             match child.kind() {
@@ -5285,7 +5285,7 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         match self {
             Self::SimpleType(n) => {
-                result.push(n.build(b));
+                result.push(b.txt(n));
             }
             Self::UserId(n) => {
                 result.push(b.txt_("UserId ="));
-- 
2.43.0


From 17c2d46e2df8fea27ec6c25cf7ba3772d81e8cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 18/44] fix: print the comments of a version number once

---
 src/data_model.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index eb1e989..b40df20 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3687,7 +3687,14 @@ impl VersionExpression {
     pub fn new(node: Node) -> Self {
         assert_check(node, "version_expression");
 
-        let version_number = node.try_c_by_n("version_num").map(|n| ValueNode::new(n));
+        let version_number = node.try_c_by_n("version_num").map(|n| {
+            // comments within the number are built from its comment bucket
+            let mut value_node = ValueNode::new(n);
+            for comment in n.all_children_vec().iter().filter(|c| c.is_extra()) {
+                value_node.value = value_node.value.replacen(comment.v(), "", 1);
+            }
+            value_node
+        });
         Self {
             version_number,
             node_context: NodeContext::with_punctuation(&node),
-- 
2.43.0


From 787159e835294fba3b681dce6dd1886fde175197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 19/44] fix: cut error snippets at a character boundary

---
 src/utility.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index 0b0e0f6..ea4bf2d 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -16,7 +16,11 @@ pub fn truncate_snippet(snippet: &str) -> String {
     if snippet.len() <= SNIPPET_MAX_LEN {
         snippet.to_string()
     } else {
-        format!("{}…", &snippet[..SNIPPET_MAX_LEN])
+        let end = (0..=SNIPPET_MAX_LEN)
+            .rev()
+            .find(|&i| snippet.is_char_boundary(i))
+            .unwrap_or(0);
+        format!("{}…", &snippet[..end])
     }
 }
 
-- 
2.43.0


From 2ed13fc4bba0616480cb2d14ca0d45dd1a1c75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 20/44] fix: indent the statement after a blank line in a
 constructor

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index b40df20..701b36e 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1864,7 +1864,7 @@ impl<'a> DocBuild<'a> for ConstructorBody {
 
                 if !self.statements.is_empty() {
                     if c.has_trailing_newline {
-                        result.push(b.empty_new_line());
+                        result.push(b.indent(b.empty_new_line()));
                     } else {
                         result.push(b.indent(b.nl()));
                     }
-- 
2.43.0


From 546e5d79b61cd8c24cb446ef59681e3733685f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 21/44] fix: keep the text of the last line of a doc comment

---
 src/context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 4737a6c..d0d06d8 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -146,7 +146,7 @@ impl<'a> DocBuild<'a> for Comment {
                 let mut lines: Vec<&str> = self.value.split('\n').collect();
 
                 // JavaDoc formatting
-                if self.value.starts_with("/**") {
+                if self.value.starts_with("/**") && self.value != "/**/" {
                     // Handle the first line that might contain both /** and content
                     if !lines.is_empty() {
                         let first_line = lines[0].trim();
@@ -171,7 +171,9 @@ impl<'a> DocBuild<'a> for Comment {
                             result.push(b.txt(trimmed));
                         } else if i == lines.len() - 1 {
                             if let Some(before_end) = trimmed.strip_suffix("*/") {
-                                let content = before_end.trim();
+                                let before_end = before_end.trim();
+                                let content =
+                                    before_end.strip_prefix('*').unwrap_or(before_end).trim();
                                 if content.is_empty() {
                                     result.push(b.txt(" */"));
                                 } else {
-- 
2.43.0


From 62a6f7beac7ae9b7c648cd02cc6edde6e506f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 22/44] fix: measure text width in characters

---
 src/doc_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_builder.rs b/src/doc_builder.rs
index 78f1f5e..f19b594 100644
--- a/src/doc_builder.rs
+++ b/src/doc_builder.rs
@@ -191,7 +191,7 @@ impl<'a> DocBuilder<'a> {
 
     pub fn txt(&'a self, text: impl ToString) -> DocRef<'a> {
         let s = text.to_string();
-        let width = s.len() as u32;
+        let width = s.chars().count() as u32;
         self.arena.alloc(Doc::Text(s, width))
     }
 
-- 
2.43.0


From 7caf8e682bf1bf077e1d1026fcbb935103410002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 23/44] fix: return results in the order of the source files

---
 src/formatter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d2392f1..67e0a01 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -103,7 +103,7 @@ impl Formatter {
         let (tx, rx) = mpsc::channel();
         let config = self.config.clone();
 
-        for file in &self.source_files {
+        for (index, file) in self.source_files.iter().enumerate() {
             let tx = tx.clone();
             let config = config.clone();
             let file = file.clone();
@@ -124,10 +124,11 @@ impl Formatter {
                 });
                 match result {
                     Ok(result) => {
-                        tx.send(Ok(result)).expect("failed to send result in tx");
+                        tx.send((index, Ok(result)))
+                            .expect("failed to send result in tx");
                     }
                     Err(_) => tx
-                        .send(Err("Thread panicked".to_string()))
+                        .send((index, Err("Thread panicked".to_string())))
                         .expect("failed to send error in tx"),
                 }
             });
@@ -135,7 +136,10 @@ impl Formatter {
 
         drop(tx);
 
-        rx.into_iter().collect()
+        // threads finish in any order, results are returned in the order of the source files
+        let mut results: Vec<_> = rx.into_iter().collect();
+        results.sort_by_key(|(index, _)| *index);
+        results.into_iter().map(|(_, result)| result).collect()
     }
 
     pub fn format_one(source_code: &str, config: Config) -> String {
-- 
2.43.0


From a7dc47963d6c12db798269be51d19badb1fed4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 24/44] fix: keep the comments after a block holding only
 comments

---
 src/data_model.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 701b36e..f3451f6 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -699,7 +699,6 @@ impl<'a> DocBuild<'a> for Block {
             result.push(docs);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
-            return;
         }
         handle_post_comments(b, bucket, result);
     }
-- 
2.43.0


From 1e71847c1fe617819b82c50a6f1aaf5db79109fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 25/44] fix: no blank line for the missing update of a broken
 for header

---
 src/data_model.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index f3451f6..7535bac 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1565,15 +1565,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = if self.updates.is_empty() {
-                b.nil()
-            } else {
+            let mut docs = vec![init, condition];
+            if !self.updates.is_empty() {
                 let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
                 let updates = b.intersperse(&b.to_docs(&self.updates), sep);
-                b.concat(vec![b.txt(" "), updates])
-            };
-
-            let docs = vec![init, condition, update];
+                docs.push(b.concat(vec![b.txt(" "), updates]));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.maybeline()));
             let open = Insertable::new(None, Some("("), Some(b.maybeline()));
-- 
2.43.0


From c78449de75c7ff466fab450d756148427d351554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 26/44] fix: keep a multi-line comment that trails code with
 that code

---
 src/utility.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index ea4bf2d..adc42cd 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -219,7 +219,7 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
                         break;
                     } else {
                         // Otherwise, the sibling is a named node, no special treatment needed
-                        if child.end_position().row == last_row {
+                        if child.start_position().row == last_row {
                             comment_map
                                 .entry(last_id)
                                 .or_insert_with(CommentBucket::new)
-- 
2.43.0


From d7e99a1bc314ee6518aea65fa2425fb7998eee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 27/44] fix: no blank line at the end of a constructor with
 only an explicit invocation

---
 src/data_model.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 7535bac..e9ca795 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1869,7 +1869,9 @@ impl<'a> DocBuild<'a> for ConstructorBody {
                 result.push(b.indent(b.nl()));
             }
 
-            result.push(b.indent(b.intersperse_body_members(&self.statements)));
+            if !self.statements.is_empty() {
+                result.push(b.indent(b.intersperse_body_members(&self.statements)));
+            }
             result.push(b.nl());
             result.push(b.txt("}"));
         } else {
-- 
2.43.0


From 9fb322f8979987f4dd0d12eec58289e0cfb16130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 28/44] fix: no blank line after a line comment that trails a
 when block

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index e9ca795..cee2dad 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3520,7 +3520,7 @@ impl<'a> DocBuild<'a> for SwitchBlock {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let docs = b.to_docs(&self.rules);
 
-            let sep = Insertable::new(None, Some(""), Some(b.nl()));
+            let sep = Insertable::new::<&str>(None, None, Some(b.nl()));
             let open = Insertable::new(None, Some("{"), Some(b.nl()));
             let close = Insertable::new(Some(b.nl()), Some("}"), None);
             let doc = b.surround(&docs, sep, open, close);
-- 
2.43.0


From 5d0f257bdca99df2ee2f22392ef715f18db72d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 29/44] fix: keep the stars of text on the first line of a doc
 comment

---
 src/context.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index d0d06d8..1798d51 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -157,8 +157,9 @@ impl<'a> DocBuild<'a> for Comment {
                             if !content.is_empty() {
                                 // Replace first line with just /**
                                 lines[0] = "/**";
-                                // Insert the content as a new second line
-                                lines.insert(1, content);
+                                // Insert the content as a new second line, led by a star
+                                // so that a star of the content itself is kept
+                                lines.insert(1, &first_line[2..]);
                             }
                         }
                     }
-- 
2.43.0


From 5489ef90e26309046e71b07fa630a242ede5bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 30/44] fix: keep the dot of a constructor invocation on an
 object

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index cee2dad..cab20ab 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1920,6 +1920,7 @@ impl<'a> DocBuild<'a> for ConstructInvocation {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             if let Some(ref o) = self.object {
                 result.push(o.build(b));
+                result.push(b.txt("."));
             }
 
             if let Some(ref t) = self.type_arguments {
-- 
2.43.0


From 94425390d0be5226cdde4655297184ce21e9cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 31/44] fix: keep the bounds of a type parameter

---
 src/data_model.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index cab20ab..0ffacfe 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1992,6 +1992,7 @@ impl<'a> DocBuild<'a> for TypeParameters {
 pub struct TypeParameter {
     annotations: Vec<Annotation>,
     pub type_identifier: String,
+    pub bounds: Vec<Type>,
     pub node_context: NodeContext,
 }
 
@@ -2006,6 +2007,10 @@ impl TypeParameter {
         Self {
             annotations,
             type_identifier: node.cvalue_by_k("type_identifier"),
+            bounds: node
+                .try_c_by_k("type_bound")
+                .map(|n| n.children_vec().into_iter().map(Type::new).collect())
+                .unwrap_or_default(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2021,6 +2026,13 @@ impl<'a> DocBuild<'a> for TypeParameter {
                 result.push(b.txt(" "));
             }
             result.push(b.txt(&self.type_identifier));
+
+            if !self.bounds.is_empty() {
+                result.push(b.txt(" extends "));
+                let docs = b.to_docs(&self.bounds);
+                let sep = Insertable::new(None, Some(" & "), None);
+                result.push(b.intersperse(&docs, sep));
+            }
         });
     }
 }
-- 
2.43.0


From f51150a3bf9a6fb170a431200085a54d7093f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 32/44] fix: keep the annotations after a method's type
 parameters

---
 src/data_model.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 0ffacfe..f0d9217 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -132,6 +132,7 @@ impl<'a> DocBuild<'a> for ClassDeclaration {
 pub struct MethodDeclaration {
     pub modifiers: Option<Modifiers>,
     pub type_parameters: Option<TypeParameters>,
+    pub annotations: Vec<Annotation>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
@@ -147,6 +148,11 @@ impl MethodDeclaration {
         Self {
             modifiers: node.try_c_by_k("modifiers").map(|n| Modifiers::new(n)),
             type_parameters: node.try_c_by_n("type_parameters").map(TypeParameters::new),
+            annotations: node
+                .try_cs_by_k("annotation")
+                .into_iter()
+                .map(Annotation::new)
+                .collect(),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
@@ -169,6 +175,7 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
                 result.push(b.txt(" "));
             }
 
+            result.extend(self.annotations.iter().map(|n| n.build(b)));
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
-- 
2.43.0


From a72dc79fde3c55486303c261e24c7aa361f974b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 33/44] fix: no blanks at the end of a line after a comment

---
 src/doc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/doc.rs b/src/doc.rs
index 3474cae..ba50963 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -110,7 +110,7 @@ impl<'a> PrettyPrinter<'a> {
                     // Clear any pending newline and insert a newline without indent
                     newline_buffer.clear();
 
-                    result.push('\n');
+                    push_newline(&mut result);
                     self.col = 0;
                 }
                 Doc::Softline => {
@@ -185,7 +185,7 @@ impl<'a> PrettyPrinter<'a> {
     }
 
     fn insert_newline_with_indent(&mut self, result: &mut String, indent: u32) {
-        result.push('\n');
+        push_newline(result);
         for _ in 0..indent {
             result.push(' ');
         }
@@ -275,6 +275,12 @@ impl<'a> PrettyPrinter<'a> {
     }
 }
 
+// A line never ends in blanks, e.g. those between a comment and the code following it.
+fn push_newline(result: &mut String) {
+    result.truncate(result.trim_end_matches(' ').len());
+    result.push('\n');
+}
+
 struct NewlineBuffer {
     has_pending_newline: bool,
     indent_level: u32,
-- 
2.43.0


From 00f6f9cac2ed5ecb00d59d7b88033a4fc5798f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 34/44] fix: a comment after an accessor stays behind its
 semicolon

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index f0d9217..b73b2d1 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3329,7 +3329,7 @@ impl AccessorDeclaration {
 
 impl<'a> DocBuild<'a> for AccessorDeclaration {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_with_comments_and_punc_attached(b, &self.node_context, result, |b, result| {
             if let Some(ref n) = self.modifiers {
                 result.push(n.build(b));
             }
-- 
2.43.0


From 4ab2267cd0192b3e9e24a5e7b54e5152cad4517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 35/44] fix: accessors with comments between them have lines of
 their own

---
 src/data_model.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index b73b2d1..1285831 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3255,6 +3255,7 @@ impl<'a> DocBuild<'a> for ConstantDeclaration {
 pub struct AccessorList {
     pub accessor_declarations: Vec<AccessorDeclaration>,
     pub child_has_body_section: bool,
+    pub has_comment: bool, // between the accessors
     pub node_context: NodeContext,
 }
 
@@ -3268,10 +3269,12 @@ impl AccessorList {
             .map(|n| AccessorDeclaration::new(n))
             .collect();
         let child_has_body_section = accessor_declarations.iter().any(|n| n.body.is_some());
+        let has_comment = node.named_children(&mut node.walk()).any(|n| n.is_extra());
 
         Self {
             accessor_declarations,
             child_has_body_section,
+            has_comment,
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -3281,7 +3284,7 @@ impl<'a> DocBuild<'a> for AccessorList {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             // to align with prettier apex;
-            if self.child_has_body_section {
+            if self.child_has_body_section || self.has_comment {
                 // NOTE: group does NOT work with b.nl() so can't use group_surround()
                 let docs = b.to_docs(&self.accessor_declarations);
                 let sep = Insertable::new::<&str>(None, None, Some(b.nl()));
-- 
2.43.0


From 379a9072b1904c5cbc268fc6eb202f82be86e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 36/44] fix: the installer removes its temporary directory when
 it fails

---
 scripts/install-afmt.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/install-afmt.sh b/scripts/install-afmt.sh
index 669f532..05b9df3 100644
--- a/scripts/install-afmt.sh
+++ b/scripts/install-afmt.sh
@@ -8,6 +8,7 @@ set -euo pipefail
 REPO="xixiaofinland/afmt"
 API_URL="https://api.github.com/repos/${REPO}/releases/latest"
 TMP_DIR="$(mktemp -d)"
+trap 'rm -rf "$TMP_DIR"' EXIT
 INSTALL_DIR="$HOME/.local/bin"
 BINARY_NAME="afmt"
 
-- 
2.43.0


From a272225b41317a38a0253acf7b863f1539916cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 37/44] fix: the installer says why a download failed

---
 scripts/install-afmt.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/install-afmt.sh b/scripts/install-afmt.sh
index 05b9df3..8beecbe 100644
--- a/scripts/install-afmt.sh
+++ b/scripts/install-afmt.sh
@@ -66,7 +66,7 @@ main() {
   echo "Arch detected: $arch_type"
   echo "Fetching latest release from GitHub ($REPO)..."
   local release_data
-  release_data="$(curl -s "$API_URL")"
+  release_data="$(curl -sS "$API_URL")"
 
   # Construct the pattern to match new naming: e.g. "linux-x86_64"
   local pattern="${os_type}-${arch_type}"
@@ -91,7 +91,7 @@ main() {
   filename="$(basename "$download_url")"
 
   # Download the asset
-  curl -sL "$download_url" -o "${TMP_DIR}/${filename}"
+  curl -sSL "$download_url" -o "${TMP_DIR}/${filename}"
 
   # Extract the tarball
   echo "Extracting $filename..."
-- 
2.43.0


From 0234fcbe0bd26350569dfffe5f2ffc1c5bf185fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 38/44] fix: the installer says when a release has no matching
 asset

---
 scripts/install-afmt.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/install-afmt.sh b/scripts/install-afmt.sh
index 8beecbe..9ba6f6e 100644
--- a/scripts/install-afmt.sh
+++ b/scripts/install-afmt.sh
@@ -79,7 +79,7 @@ main() {
     | grep "$pattern" \
     | grep ".tar.gz" \
     | cut -d '"' -f 4 \
-    | head -n 1)"
+    | head -n 1 || true)"
 
   if [[ -z "$download_url" ]]; then
     echo "Error: No matching tar.gz asset found for $pattern."
-- 
2.43.0


From 18dce96c193f8f1223a5d9bb4eaae7eda725bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 39/44] fix: the installer works without a SHELL variable

---
 scripts/install-afmt.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/install-afmt.sh b/scripts/install-afmt.sh
index 9ba6f6e..2c9aaea 100644
--- a/scripts/install-afmt.sh
+++ b/scripts/install-afmt.sh
@@ -125,7 +125,7 @@ main() {
   # Check if INSTALL_DIR is already in PATH
   if [[ ":$PATH:" != *":$INSTALL_DIR:"* ]]; then
     # Detect user's shell from $SHELL
-    current_shell="$(basename "$SHELL")"
+    current_shell="$(basename "${SHELL:-unknown}")"
 
     # Ask if user wants to update their shell profile automatically
     read -r -p "Would you like to add \"$INSTALL_DIR\" to your PATH now? (y/n) " answer < /dev/tty
-- 
2.43.0


From afa5e67697d102571641fed7963b1fcdfcb7e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 40/44] fix: the installer works without a terminal

---
 scripts/install-afmt.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/install-afmt.sh b/scripts/install-afmt.sh
index 2c9aaea..f09c42f 100644
--- a/scripts/install-afmt.sh
+++ b/scripts/install-afmt.sh
@@ -128,7 +128,7 @@ main() {
     current_shell="$(basename "${SHELL:-unknown}")"
 
     # Ask if user wants to update their shell profile automatically
-    read -r -p "Would you like to add \"$INSTALL_DIR\" to your PATH now? (y/n) " answer < /dev/tty
+    read -r -p "Would you like to add \"$INSTALL_DIR\" to your PATH now? (y/n) " answer < /dev/tty || answer=""
     if [[ "$answer" =~ ^[Yy]$ ]]; then
       case "$current_shell" in
         bash)
-- 
2.43.0


From b933b3275569e442e0b4f4e939ef86958f3c4235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 41/44] fix: the installer keeps the last line of a shell
 profile apart from its own

---
 scripts/install-afmt.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/install-afmt.sh b/scripts/install-afmt.sh
index f09c42f..94edb3c 100644
--- a/scripts/install-afmt.sh
+++ b/scripts/install-afmt.sh
@@ -147,6 +147,10 @@ main() {
 
       if [[ -n "$PROFILE_FILE" ]]; then
         echo "Adding to $PROFILE_FILE ..."
+        # A last line without a newline must not run into the new one
+        if [[ -w "$PROFILE_FILE" && -n "$(tail -c 1 "$PROFILE_FILE")" ]]; then
+          echo >> "$PROFILE_FILE"
+        fi
         if [[ "$current_shell" == "fish" ]]; then
           # For fish shell, use fish_user_paths
           mkdir -p "$(dirname "$PROFILE_FILE")"
-- 
2.43.0


From 610a3a1b2fbf60143a88584044a7bb7215f14fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:19 +0000
Subject: [PATCH 42/44] fix: a line of the top level never starts with a blank

A comment behind the end of a block comment that trails a top-level
declaration was put on a line of its own, one column in.
---
 src/doc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/doc.rs b/src/doc.rs
index ba50963..3e4679b 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -137,9 +137,10 @@ impl<'a> PrettyPrinter<'a> {
                         newline_buffer.clear();
                     }
 
-                    if text == " " && result.ends_with(' ') {
+                    if text == " " && result.ends_with([' ', '\n']) {
                         // TODO: better way to handle this challenge?
-                        // do nothing to avoid "double spacing" in comment node handling
+                        // do nothing to avoid "double spacing" in comment node handling,
+                        // nor start an unindented line with a blank
                     } else {
                         result.push_str(text);
                         self.col += width;
-- 
2.43.0


From 008cba57b2954fa6a8cf4ddf68dd152720ff4fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 43/44] fix: the links of a chain are indented when an element
 access follows it, and a query is not moved left

---
 src/utility.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index adc42cd..460fff1 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -579,11 +579,7 @@ pub fn get_comparsion(node: &Node) -> Comparison {
 }
 
 pub fn build_chaining_context(node: &Node) -> Option<ChainingContext> {
-    let parent_node = node
-        .parent()
-        .expect("node must have parent node in build_chaining_context()");
-
-    let is_parent_a_chaining_node = is_a_chaining_node(&parent_node);
+    let is_parent_a_chaining_node = is_start_of_a_chain(node);
 
     let has_a_chaining_child = node
         .try_c_by_n("object")
@@ -602,6 +598,21 @@ pub fn build_chaining_context(node: &Node) -> Option<ChainingContext> {
     })
 }
 
+// Is the node the object the links of a chain (`.field`, `.method()`) follow, elements aside?
+fn is_start_of_a_chain(node: &Node) -> bool {
+    let Some(parent_node) = node.parent() else {
+        return false;
+    };
+
+    match parent_node.kind() {
+        "method_invocation" | "field_access" => parent_node.try_c_by_n("object") == Some(*node),
+        "array_access" if parent_node.try_c_by_n("array") == Some(*node) => {
+            is_start_of_a_chain(&parent_node)
+        }
+        _ => false,
+    }
+}
+
 fn is_a_chaining_node(node: &Node) -> bool {
     [
         "method_invocation",
-- 
2.43.0


From a5c36be33b4ed24b9eb2925e0469a14224ea3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:10 +0000
Subject: [PATCH 44/44] fix: what is nested in an unbraced else branch is
 indented

---
 src/data_model.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 1285831..0ed0e77 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1412,9 +1412,10 @@ impl<'a> DocBuild<'a> for IfStatement {
 
                     if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                         result.push(b.indent(b.nl()));
-                    } else {
-                        result.push(b.txt(" "));
+                        result.push(b.indent(alt.statement.build(b)));
+                        return;
                     }
+                    result.push(b.txt(" "));
                 }
                 result.push(alt.statement.build(b));
             }
-- 
2.43.0

