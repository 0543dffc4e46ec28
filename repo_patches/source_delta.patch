From 15905297b5d707f14aae93f1b77613df07dcc990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:31 +0000
Subject: [PATCH 01/29] fix: report out-of-range integers in plan text as parse
 errors instead of panicking

---
 src/parser/common.rs      | 23 ++++++++++++++++
 src/parser/expressions.rs | 49 ++++++++++++++++------------------
 src/parser/extensions.rs  | 55 +++++++++++++++++++--------------------
 src/parser/mod.rs         |  2 +-
 src/parser/relations.rs   | 42 ++++++++++++++++++------------
 src/parser/types.rs       |  8 +++---
 6 files changed, 104 insertions(+), 75 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index c79c939..26241ec 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,4 +1,6 @@
 use std::collections::HashMap;
+use std::num::ParseIntError;
+use std::str::FromStr;
 use std::{fmt, thread};
 
 use pest::error::{Error as PestError, ErrorVariant};
@@ -87,6 +89,26 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     pair
 }
 
+/// Parses the text of an integer pair, reporting values that do not fit in `T`.
+///
+/// The grammar places no limit on the number of digits, so any integer in the
+/// input can be out of range for the type it is parsed into.
+pub(crate) fn parse_integer<T>(
+    message: &'static str,
+    pair: &Pair<Rule>,
+) -> Result<T, MessageParseError>
+where
+    T: FromStr<Err = ParseIntError>,
+{
+    pair.as_str().parse::<T>().map_err(|e| {
+        MessageParseError::invalid(
+            message,
+            pair.as_span(),
+            format!("invalid integer {:?}: {e}", pair.as_str()),
+        )
+    })
+}
+
 /// Unescapes a quoted string literal, handling escape sequences.
 ///
 /// # Arguments
@@ -167,6 +189,7 @@ pub(crate) trait ParsePair: Sized {
     // expected.
     fn parse_pair(pair: Pair<Rule>) -> Self;
 
+    #[allow(dead_code)] // only used by tests
     fn parse_str(s: &str) -> Result<Self, MessageParseError> {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f116c0a..8434984 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -23,7 +23,7 @@ use substrait::proto::{AggregateFunction, Expression, FunctionArgument, Type};
 
 use super::types::get_and_validate_anchor;
 use super::{
-    ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
+    ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair, parse_integer,
     unescape_string, unwrap_single_pair,
 };
 use crate::extensions::SimpleExtensions;
@@ -51,22 +51,12 @@ impl FieldIndex {
             root_type: Some(RootType::RootReference(RootReference {})),
         }
     }
-}
-
-impl ParsePair for FieldIndex {
-    fn rule() -> Rule {
-        Rule::reference
-    }
-
-    fn message() -> &'static str {
-        "FieldIndex"
-    }
 
-    fn parse_pair(pair: Pair<Rule>) -> Self {
-        assert_eq!(pair.as_rule(), Self::rule());
+    /// Parse a field index from a `reference` pair, e.g. `$0`.
+    pub(crate) fn parse_pair(pair: Pair<Rule>) -> Result<Self, MessageParseError> {
+        assert_eq!(pair.as_rule(), Rule::reference);
         let inner = unwrap_single_pair(pair);
-        let index: i32 = inner.as_str().parse().unwrap();
-        FieldIndex(index)
+        Ok(FieldIndex(parse_integer("FieldIndex", &inner)?))
     }
 }
 
@@ -83,7 +73,9 @@ impl ParsePair for FieldReference {
         assert_eq!(pair.as_rule(), Self::rule());
 
         // TODO: Other types of references.
-        FieldIndex::parse_pair(pair).to_field_reference()
+        FieldIndex::parse_pair(pair)
+            .expect("field index out of range")
+            .to_field_reference()
     }
 }
 
@@ -94,7 +86,7 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
 
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
-    let parsed_value: i64 = value.as_str().parse().unwrap();
+    let parsed_value: i64 = parse_integer("int_literal", &value)?;
 
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
@@ -738,7 +730,7 @@ struct FunctionReference {
     anchor: Option<u32>,
 }
 
-impl ParsePair for FunctionReference {
+impl ScopedParsePair for FunctionReference {
     fn rule() -> Rule {
         Rule::function_reference
     }
@@ -747,7 +739,10 @@ impl ParsePair for FunctionReference {
         "FunctionReference"
     }
 
-    fn parse_pair(pair: Pair<Rule>) -> Self {
+    fn parse_pair(
+        _extensions: &SimpleExtensions,
+        pair: Pair<Rule>,
+    ) -> Result<Self, MessageParseError> {
         assert_eq!(pair.as_rule(), Self::rule());
         let mut iter = RuleIter::from(pair.into_inner());
 
@@ -757,15 +752,17 @@ impl ParsePair for FunctionReference {
         // Optional anchor (e.g., #1)
         let anchor = iter
             .try_pop(Rule::anchor)
-            .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+            .map(|n| parse_integer::<u32>(Self::message(), &unwrap_single_pair(n)))
+            .transpose()?;
 
         // Optional URN anchor (e.g., @1); currently unused.
         let _urn_anchor = iter
             .try_pop(Rule::urn_anchor)
-            .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+            .map(|n| parse_integer::<u32>(Self::message(), &unwrap_single_pair(n)))
+            .transpose()?;
 
         iter.done();
-        FunctionReference { name, anchor }
+        Ok(FunctionReference { name, anchor })
     }
 }
 
@@ -840,7 +837,7 @@ impl ScopedParsePair for ScalarFunction {
         let type_pair = iter.pop(Rule::r#type);
         iter.done();
 
-        let reference = FunctionReference::parse_pair(reference_pair);
+        let reference = FunctionReference::parse_pair(extensions, reference_pair)?;
         let FunctionArguments(arguments) = FunctionArguments::parse_pair(extensions, args_pair)?;
         // Required output type (e.g., :i64); the grammar guarantees its presence.
         let output_type = Type::parse_pair(extensions, type_pair)?;
@@ -928,9 +925,9 @@ impl ScopedParsePair for Expression {
                 )?)),
             }),
             Rule::reference => Ok(Expression {
-                rex_type: Some(RexType::Selection(Box::new(FieldReference::parse_pair(
-                    inner,
-                )))),
+                rex_type: Some(RexType::Selection(Box::new(
+                    FieldIndex::parse_pair(inner)?.to_field_reference(),
+                ))),
             }),
             Rule::if_then => Ok(Expression {
                 rex_type: Some(RexType::IfThen(Box::new(IfThen::parse_pair(
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index ec2fb5e..093c6d8 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    unescape_string, unwrap_single_pair,
+    parse_integer, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -181,28 +181,27 @@ pub struct SimpleExtensionDeclaration {
     pub name: String,
 }
 
-impl ParsePair for URNExtensionDeclaration {
-    fn rule() -> Rule {
-        Rule::extension_urn_declaration
-    }
-
-    fn message() -> &'static str {
-        "URNExtensionDeclaration"
-    }
-
-    fn parse_pair(pair: Pair<Rule>) -> Self {
-        assert_eq!(pair.as_rule(), Self::rule());
+impl URNExtensionDeclaration {
+    pub(crate) fn parse_str(s: &str) -> Result<Self, MessageParseError> {
+        let mut pairs =
+            <ExpressionParser as pest::Parser<Rule>>::parse(Rule::extension_urn_declaration, s)
+                .map_err(|e| {
+                    MessageParseError::new(
+                        "URNExtensionDeclaration",
+                        ErrorKind::Syntax,
+                        Box::new(e),
+                    )
+                })?;
+        assert_eq!(pairs.as_str(), s);
+        let pair = pairs.next().unwrap();
 
         let mut iter = RuleIter::from(pair.into_inner());
         let anchor_pair = iter.pop(Rule::urn_anchor);
-        let anchor = unwrap_single_pair(anchor_pair)
-            .as_str()
-            .parse::<u32>()
-            .unwrap();
+        let anchor = parse_integer("URNExtensionDeclaration", &unwrap_single_pair(anchor_pair))?;
         let urn = iter.pop(Rule::urn).as_str().to_string();
         iter.done();
 
-        URNExtensionDeclaration { anchor, urn }
+        Ok(URNExtensionDeclaration { anchor, urn })
     }
 }
 
@@ -224,14 +223,14 @@ impl SimpleExtensionDeclaration {
         let pair = pairs.next().unwrap();
         let mut iter = RuleIter::from(pair.into_inner());
 
-        let anchor = unwrap_single_pair(iter.pop(Rule::anchor))
-            .as_str()
-            .parse::<u32>()
-            .unwrap();
-        let urn_anchor = unwrap_single_pair(iter.pop(Rule::urn_anchor))
-            .as_str()
-            .parse::<u32>()
-            .unwrap();
+        let anchor = parse_integer::<u32>(
+            "SimpleExtensionDeclaration",
+            &unwrap_single_pair(iter.pop(Rule::anchor)),
+        )?;
+        let urn_anchor = parse_integer::<u32>(
+            "SimpleExtensionDeclaration",
+            &unwrap_single_pair(iter.pop(Rule::urn_anchor)),
+        )?;
         let name_pair = iter.pop(Rule::simple_extension_name);
         let name_span = name_pair.as_span();
         let name = name_pair.as_str();
@@ -291,7 +290,7 @@ impl ScopedParsePair for ExtensionValue {
             }
             Rule::reference => {
                 // Reuse the existing FieldIndex parser, then extract the i32
-                let field_index = FieldIndex::parse_pair(inner);
+                let field_index = FieldIndex::parse_pair(inner)?;
                 ExtensionValue::from(Reference(field_index.0))
             }
             Rule::parameter_literal => {
@@ -300,7 +299,7 @@ impl ScopedParsePair for ExtensionValue {
                 match value_pair.as_rule() {
                     Rule::string_literal => ExtensionValue::String(unescape_string(value_pair)),
                     Rule::integer => {
-                        ExtensionValue::Integer(value_pair.as_str().parse::<i64>().unwrap())
+                        ExtensionValue::Integer(parse_integer(Self::message(), &value_pair)?)
                     }
                     Rule::float => {
                         ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
@@ -359,7 +358,7 @@ impl ScopedParsePair for ExtensionColumn {
             }
             Rule::reference => {
                 // Reuse the existing FieldIndex parser, then extract the i32
-                let field_index = FieldIndex::parse_pair(inner);
+                let field_index = FieldIndex::parse_pair(inner)?;
                 ExtensionColumn::Expr(Reference(field_index.0).into())
             }
             Rule::expression => {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 72d62a6..a6cd171 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,7 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    iter_pairs, parse_integer, sort_direction_from_str, unescape_string, unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 38d9c1c..415e198 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -207,10 +207,10 @@ pub(crate) fn expect_one_child(
 
 /// Parse a reference list Pair and return an EmitKind::Emit.
 /// Parse a reference list into field indices for emit mapping.
-fn parse_output_mapping(pair: Pair<Rule>) -> Vec<i32> {
+fn parse_output_mapping(pair: Pair<Rule>) -> Result<Vec<i32>, MessageParseError> {
     assert_eq!(pair.as_rule(), Rule::reference_list);
     pair.into_inner()
-        .map(|p| FieldIndex::parse_pair(p).0)
+        .map(|p| Ok(FieldIndex::parse_pair(p)?.0))
         .collect()
 }
 
@@ -238,11 +238,14 @@ pub(crate) fn direct_common() -> RelCommon {
 }
 
 /// Parse a reference list into an emit and output field count.
-fn parse_emit(reference_list: Pair<Rule>, direct_output_count: usize) -> (EmitKind, usize) {
-    let output_mapping = parse_output_mapping(reference_list);
+fn parse_emit(
+    reference_list: Pair<Rule>,
+    direct_output_count: usize,
+) -> Result<(EmitKind, usize), MessageParseError> {
+    let output_mapping = parse_output_mapping(reference_list)?;
     let output_count = output_mapping.len();
     let emit = make_emit(output_mapping, direct_output_count);
-    (emit, output_count)
+    Ok((emit, output_count))
 }
 
 fn parse_output(
@@ -266,7 +269,7 @@ fn parse_output(
             iter.done();
 
             let direct_output_count = columns.len();
-            let (emit, output_count) = parse_emit_suffix(emit_suffix)
+            let (emit, output_count) = parse_emit_suffix(emit_suffix)?
                 .unwrap_or((EmitKind::Direct(Direct {}), direct_output_count));
             let common = Some(RelCommon {
                 emit_kind: Some(emit),
@@ -278,13 +281,18 @@ fn parse_output(
     }
 }
 
-fn parse_emit_suffix(suffix: Pair<Rule>) -> Option<(EmitKind, usize)> {
+fn parse_emit_suffix(suffix: Pair<Rule>) -> Result<Option<(EmitKind, usize)>, MessageParseError> {
     assert_eq!(suffix.as_rule(), Rule::emit_suffix);
-    let reference_list = suffix.into_inner().next()?;
+    let Some(reference_list) = suffix.into_inner().next() else {
+        return Ok(None);
+    };
     assert_eq!(reference_list.as_rule(), Rule::reference_list);
-    let output_mapping = parse_output_mapping(reference_list);
+    let output_mapping = parse_output_mapping(reference_list)?;
     let output_count = output_mapping.len();
-    Some((EmitKind::Emit(Emit { output_mapping }), output_count))
+    Ok(Some((
+        EmitKind::Emit(Emit { output_mapping }),
+        output_count,
+    )))
 }
 
 impl RelationParsePair for ReadRel {
@@ -557,7 +565,7 @@ impl RelationParsePair for FilterRel {
         let references_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -609,7 +617,7 @@ impl RelationParsePair for ProjectRel {
             let inner_arg = unwrap_single_pair(arg);
             match inner_arg.as_rule() {
                 Rule::reference => {
-                    let field_index = FieldIndex::parse_pair(inner_arg);
+                    let field_index = FieldIndex::parse_pair(inner_arg)?;
                     output_mapping.push(field_index.0);
                 }
                 Rule::expression => {
@@ -935,7 +943,7 @@ impl RelationParsePair for SortRel {
             let sort_field = SortField::parse_pair(extensions, sort_field_pair)?;
             sorts.push(sort_field);
         }
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1106,7 +1114,7 @@ impl RelationParsePair for FetchRel {
         };
 
         let references_pair = iter.pop(Rule::reference_list);
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1217,7 +1225,7 @@ impl RelationParsePair for JoinRel {
         // TODO: For semi/anti joins, the direct output width differs from
         // left+right — `input_field_count` would misclassify the emit as Direct.
         // Revisit when those join types are supported.
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = parse_emit(references_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1281,7 +1289,7 @@ impl RelationParsePair for CrossRel {
         let reference_list_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        let (emit, output_count) = parse_emit(reference_list_pair, input_field_count);
+        let (emit, output_count) = parse_emit(reference_list_pair, input_field_count)?;
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
@@ -1364,7 +1372,7 @@ pub(crate) fn parse_set_relation_pair(
     let reference_list_pair = iter.pop(Rule::reference_list);
     iter.done();
 
-    let (emit, output_count) = parse_emit(reference_list_pair, child_width);
+    let (emit, output_count) = parse_emit(reference_list_pair, child_width)?;
     let common = RelCommon {
         emit_kind: Some(emit),
         ..Default::default()
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 42efae6..0c38e85 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -2,7 +2,7 @@ use pest::iterators::Pair;
 use substrait::proto::r#type::{Kind, Nullability, Parameter};
 use substrait::proto::{self, Type};
 
-use super::{ParsePair, Rule, ScopedParsePair, iter_pairs, unwrap_single_pair};
+use super::{ParsePair, Rule, ScopedParsePair, iter_pairs, parse_integer, unwrap_single_pair};
 use crate::extensions::SimpleExtensions;
 use crate::extensions::simple::{ExtensionKind, MissingReference};
 use crate::parser::MessageParseError;
@@ -312,12 +312,14 @@ fn parse_user_defined_type(
     let name = iter.pop(Rule::identifier).as_str().to_string();
     let anchor = iter
         .try_pop(Rule::anchor)
-        .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+        .map(|n| parse_integer::<u32>("anchor", &unwrap_single_pair(n)))
+        .transpose()?;
 
     // TODO: Handle urn_anchor; validate that it matches the anchor
     let _urn_anchor = iter
         .try_pop(Rule::urn_anchor)
-        .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
+        .map(|n| parse_integer::<u32>("anchor", &unwrap_single_pair(n)))
+        .transpose()?;
 
     let nullability = iter.parse_next::<Nullability>();
     let parameters = match iter.try_pop(Rule::parameters) {
-- 
2.43.0


From aa436b9caaae11323e099d46d9cf218213e40aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:32 +0000
Subject: [PATCH 02/29] fix: do not panic when a parse error leaves sibling
 tokens unread

---
 src/parser/common.rs | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 26241ec..d3e9424 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
+use std::fmt;
 use std::num::ParseIntError;
 use std::str::FromStr;
-use std::{fmt, thread};
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -221,21 +221,16 @@ pub(crate) trait ScopedParsePair: Sized {
 }
 
 pub(crate) fn iter_pairs(pair: Pairs<'_, Rule>) -> RuleIter<'_> {
-    RuleIter {
-        iter: pair,
-        done: false,
-    }
+    RuleIter { iter: pair }
 }
 
 pub(crate) struct RuleIter<'a> {
     iter: Pairs<'a, Rule>,
-    // Set to true when done is called, so destructor doesn't panic
-    done: bool,
 }
 
 impl<'a> From<Pairs<'a, Rule>> for RuleIter<'a> {
     fn from(iter: Pairs<'a, Rule>) -> Self {
-        RuleIter { iter, done: false }
+        RuleIter { iter }
     }
 }
 
@@ -308,8 +303,10 @@ impl<'a> RuleIter<'a> {
         T::parse_pair(extensions, pair)
     }
 
+    // Make sure that the iterator was completely consumed - that we didn't leave
+    // any partially-parsed tokens. Not checked on drop: an iterator abandoned
+    // because of a parse error legitimately has tokens left.
     pub(crate) fn done(mut self) {
-        self.done = true;
         // A rule may end with the `EOI` marker to force full input consumption
         // (e.g. `virtual_read_relation`). That marker carries no data, so it is
         // not leftover content — skip it before asserting the iterator is empty.
@@ -321,20 +318,6 @@ impl<'a> RuleIter<'a> {
     }
 }
 
-/// Make sure that the iterator was completely consumed when the iterator is
-/// dropped - that we didn't leave any partially-parsed tokens.
-///
-/// This is not strictly necessary, but it's a good way to catch bugs.
-impl Drop for RuleIter<'_> {
-    fn drop(&mut self) {
-        if self.done || thread::panicking() {
-            return;
-        }
-        // If the iterator is not done, something probably went wrong.
-        assert_eq!(self.iter.next(), None);
-    }
-}
-
 /// A collection of named arguments (`name=value` pairs) extracted from a
 /// named-argument-list rule, keyed by name with duplicate-name rejection.
 pub(crate) struct ParsedNamedArgs<'a> {
-- 
2.43.0


From 86bbae4e0c1e373ee0bc5abeb71f03743c22ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:56 +0000
Subject: [PATCH 03/29] fix: reject trailing text on extension declaration
 lines instead of panicking

---
 src/parser/expression_grammar.pest | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3518570..b6f36bd 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -204,7 +204,8 @@ expression = { if_then | cast_expression | function_call | reference | expressio
 // A URN value can be a sequence of non-whitespace characters
 urn = @{ (!whitespace ~ ANY)+ }
 
-extension_urn_declaration = { urn_anchor ~ ":" ~ sp ~ urn }
+// `EOI` makes trailing text after the URN a syntax error.
+extension_urn_declaration = { urn_anchor ~ ":" ~ sp ~ urn ~ sp ~ EOI }
 
 // -- Simple Extension Declaration (Function, Type, TypeVariation) --
 // Format: #anchor@urn_ref: simple_extension_name
@@ -212,7 +213,8 @@ extension_urn_declaration = { urn_anchor ~ ":" ~ sp ~ urn }
 // `anchor` is defined above as "#" ~ integer.
 // `urn_anchor` is defined above as "@" ~ integer.
 simple_extension_name = @{ "u!"? ~ identifier ~ (":" ~ argument_signature?)? }
-simple_extension = { anchor ~ sp ~ urn_anchor ~ sp ~ ":" ~ sp ~ simple_extension_name }
+// `EOI` makes trailing text after the name a syntax error.
+simple_extension = { anchor ~ sp ~ urn_anchor ~ sp ~ ":" ~ sp ~ simple_extension_name ~ sp ~ EOI }
 
 // == Relations ==
 // These rules are for parsing relations - well, for parsing one relation on one line.
-- 
2.43.0


From 07b99a9bdde5f96167d587df931ba577ffc4ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:19 +0000
Subject: [PATCH 04/29] fix: report types the parser does not support as errors
 instead of panicking

---
 src/parser/expression_grammar.pest |  4 ----
 src/parser/types.rs                | 12 ++++++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index b6f36bd..c248e91 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -84,10 +84,6 @@ simple_type_name = {
   | "i16"
   | "i32"
   | "i64"
-  | "u8"
-  | "u16"
-  | "u32"
-  | "u64"
   | "fp32"
   | "fp64"
   | "string"
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 0c38e85..0280496 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -98,7 +98,11 @@ impl ScopedParsePair for Parameter {
                     Type::parse_pair(extensions, inner)?,
                 )),
             }),
-            _ => unimplemented!("{:?}", inner.as_rule()),
+            rule => Err(MessageParseError::invalid(
+                Self::message(),
+                inner.as_span(),
+                format!("{rule:?} type parameters are not supported"),
+            )),
         }
     }
 }
@@ -193,7 +197,11 @@ fn parse_compound_type(
         | Rule::precision_timestamp_type
         | Rule::precision_time_type => parse_precision_type(inner),
         Rule::interval_day_type => parse_interval_day_type(inner),
-        _ => unimplemented!("{:?}", inner.as_rule()),
+        rule => Err(MessageParseError::invalid(
+            "compound_type",
+            inner.as_span(),
+            format!("{rule:?} is not supported"),
+        )),
     }
 }
 
-- 
2.43.0


From 0dd560588c58481c5c57bcbb74a2340b3fcba09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:33 +0000
Subject: [PATCH 05/29] fix: unquote quoted extension relation names like every
 other name

---
 src/parser/extensions.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 093c6d8..f754d1d 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -473,18 +473,15 @@ impl ScopedParsePair for ExtensionInvocation {
 
         // Parse extension name to determine relation type and custom name
         let extension_name_pair = iter.next().unwrap(); // Grammar guarantees extension_name exists
-        let full_extension_name = extension_name_pair.as_str();
 
         // Extract the relation type and custom name from the extension name
         // (e.g., "ExtensionLeaf:ParquetScan" -> "ExtensionLeaf" and "ParquetScan")
-        let (relation_type_str, custom_name) = if full_extension_name.contains(':') {
-            let parts: Vec<&str> = full_extension_name.splitn(2, ':').collect();
-            (parts[0], parts[1].to_string())
-        } else {
-            (full_extension_name, "UnknownExtension".to_string())
-        };
+        let mut name_iter = RuleIter::from(extension_name_pair.into_inner());
+        let relation_type_pair = name_iter.pop(Rule::extension_type);
+        let custom_name = name_iter.parse_next::<Name>().0;
+        name_iter.done();
 
-        let relation_kind = ExtensionRelationKind::from_str(relation_type_str).unwrap();
+        let relation_kind = ExtensionRelationKind::from_str(relation_type_pair.as_str()).unwrap();
         let mut args = ExtensionArgs::default();
 
         // Parse optional arguments
-- 
2.43.0


From 97f712013312e9bcdd15075b2b5a1aed12780287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 06/29] fix: reject duplicate named extension arguments instead
 of keeping the last

---
 src/parser/extensions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index f754d1d..14f0904 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -589,7 +589,15 @@ fn extension_args_rule_parsing(
                     let mut arg_iter = arg_pair.into_inner();
                     let name_p = arg_iter.next().unwrap();
                     let value_p = arg_iter.next().unwrap();
+                    let name_span = name_p.as_span();
                     let key = Name::parse_pair(name_p).0.to_string();
+                    if args.named.contains_key(&key) {
+                        return Err(MessageParseError::invalid(
+                            "NamedArg",
+                            name_span,
+                            format!("Duplicate argument: {key}"),
+                        ));
+                    }
                     let val = ExtensionValue::parse_pair(extensions, value_p)?;
                     args.insert(key, val);
                 }
-- 
2.43.0


From 2d76932b399eff9fdde7d07333122c964b8c2a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:46 +0000
Subject: [PATCH 07/29] fix: report the input line number for a bad line before
 the first section

---
 src/parser/structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1fc989a..db91763 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1055,8 +1055,8 @@ impl<'a> Parser<'a> {
         match self.state {
             State::Initial => match indented_line {
                 IndentedLine(0, l) if l.trim().is_empty() => Ok(()),
-                IndentedLine(n, l) => Err(ParseError::Initial(
-                    ParseContext::new(n as i64, l.to_string()),
+                IndentedLine(_, l) => Err(ParseError::Initial(
+                    ParseContext::new(line_no, l.to_string()),
                     MessageParseError::invalid(
                         "initial",
                         pest::Span::new(l, 0, l.len()).expect("Invalid span?!"),
-- 
2.43.0


From 5a90e2472963669f732086ac88564230acf0b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:01 +0000
Subject: [PATCH 08/29] fix: reject integer literals outside the range of their
 ascribed type

---
 src/parser/expressions.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 8434984..93c6f20 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -86,7 +86,6 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
 
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
-    let parsed_value: i64 = parse_integer("int_literal", &value)?;
 
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
@@ -94,22 +93,22 @@ fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Messa
     let (lit, nullability, tvar) = match &kind {
         // If no type is provided, we assume i64, Nullability::Required.
         Kind::I8(i) => (
-            LiteralType::I8(parsed_value as i32),
+            LiteralType::I8(parse_integer::<i8>("int_literal", &value)?.into()),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I16(i) => (
-            LiteralType::I16(parsed_value as i32),
+            LiteralType::I16(parse_integer::<i16>("int_literal", &value)?.into()),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I32(i) => (
-            LiteralType::I32(parsed_value as i32),
+            LiteralType::I32(parse_integer("int_literal", &value)?),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I64(i) => (
-            LiteralType::I64(parsed_value),
+            LiteralType::I64(parse_integer("int_literal", &value)?),
             i.nullability,
             i.type_variation_reference,
         ),
-- 
2.43.0


From 483261004909f9122370616b9b60432643d83bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 09/29] fix: escape strings and names only with sequences the
 parser reads back

---
 src/textify/expressions.rs |  2 +-
 src/textify/types.rs       | 30 ++++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index ffca46e..0d4e5d7 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -316,7 +316,7 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::I64(i) => write!(w, "{i}"),
         LiteralType::Fp32(f) => write!(w, "{f}"),
         LiteralType::Fp64(f) => write!(w, "{f}"),
-        LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
+        LiteralType::String(s) => write!(w, "'{}'", escaped(s)),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => {
             write!(w, "'{}'", escaped(&days_to_date_string(*days)))
diff --git a/src/textify/types.rs b/src/textify/types.rs
index db0c8f5..8ba9d61 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::fmt::{self, Write as _};
 use std::ops::Deref;
 
 use ptype::parameter::Parameter;
@@ -61,9 +61,35 @@ pub fn is_identifer(s: &str) -> bool {
     true
 }
 
+/// A string displayed with the escape sequences the parser understands.
+#[derive(Debug)]
+struct Escaped<'a>(&'a str);
+
+impl fmt::Display for Escaped<'_> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        for c in self.0.chars() {
+            match c {
+                '\n' => f.write_str("\\n")?,
+                '\t' => f.write_str("\\t")?,
+                '\r' => f.write_str("\\r")?,
+                '\\' | '\'' | '"' => {
+                    f.write_char('\\')?;
+                    f.write_char(c)?;
+                }
+                c => f.write_char(c)?,
+            }
+        }
+        Ok(())
+    }
+}
+
 /// Escape a string for use in a literal or quoted identifier.
+///
+/// Only escapes what the parser unescapes again: unlike [`str::escape_debug`],
+/// this never writes `\0` or `\u{..}`, which the parser would read as the
+/// literal characters `0` and `u{..}`.
 pub fn escaped(s: &str) -> impl fmt::Display + fmt::Debug {
-    s.escape_debug()
+    Escaped(s)
 }
 
 /// The name of a something to be represented. It will be displayed on its own
-- 
2.43.0


From f944ec513d2175b79f29b536a428e5fb283f96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:43 +0000
Subject: [PATCH 10/29] fix: honour the type ascribed to a string literal
 instead of discarding it

---
 src/parser/expressions.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 93c6f20..7ed11e3 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -324,14 +324,16 @@ fn to_string_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Me
                 type_variation_reference: pt.type_variation_reference,
             })
         }
-        _ => {
-            // For other types, treat as string
-            Ok(Literal {
-                literal_type: Some(LiteralType::String(string_value)),
-                nullable: false,
-                type_variation_reference: 0,
-            })
-        }
+        Kind::String(s) => Ok(Literal {
+            literal_type: Some(LiteralType::String(string_value)),
+            nullable: s.nullability != Nullability::Required as i32,
+            type_variation_reference: s.type_variation_reference,
+        }),
+        k => Err(MessageParseError::invalid(
+            "string_literal_type",
+            value.as_span(),
+            format!("Invalid type for string literal: {k:?}"),
+        )),
     }
 }
 
-- 
2.43.0


From 268c6c7bdb27f7a95798593c29df7990b5d03611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:46 +0000
Subject: [PATCH 11/29] fix: report an out-of-range date literal as a format
 error instead of panicking

---
 src/textify/expressions.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 0d4e5d7..3dfa15b 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -115,11 +115,12 @@ pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fm
     write!(w, "&{}", Name(s))
 }
 
-/// Convert days since Unix epoch to date string
-fn days_to_date_string(days: i32) -> String {
+/// Convert days since Unix epoch to date string, or `None` if the date is out
+/// of chrono's representable range.
+fn days_to_date_string(days: i32) -> Option<String> {
     let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Duration::days(days as i64);
-    date.format("%Y-%m-%d").to_string()
+    let date = epoch.checked_add_signed(chrono::Duration::days(days as i64))?;
+    Some(date.format("%Y-%m-%d").to_string())
 }
 
 /// Convert a value in `precision` units, to a `chrono::Duration`.
@@ -318,9 +319,18 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Fp64(f) => write!(w, "{f}"),
         LiteralType::String(s) => write!(w, "'{}'", escaped(s)),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
-        LiteralType::Date(days) => {
-            write!(w, "'{}'", escaped(&days_to_date_string(*days)))
-        }
+        LiteralType::Date(days) => match days_to_date_string(*days) {
+            Some(date) => write!(w, "'{}'", escaped(&date)),
+            None => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::invalid(
+                    "LiteralType",
+                    Some("Date"),
+                    format!("{days} days since the epoch is out of range for Date"),
+                ))
+            ),
+        },
         #[allow(deprecated)]
         LiteralType::Time(microseconds) => write_precision_literal(
             "Time",
-- 
2.43.0


From df51caa6984860023fef18d5c146ae1db6094e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:54 +0000
Subject: [PATCH 12/29] fix: read back the &Clustered sort direction the
 formatter writes

---
 src/parser/common.rs               | 1 +
 src/parser/expression_grammar.pest | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index d3e9424..6462a0b 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -383,6 +383,7 @@ pub(crate) fn sort_direction_from_str(
         "AscNullsLast" => Ok(SortDirection::AscNullsLast),
         "DescNullsFirst" => Ok(SortDirection::DescNullsFirst),
         "DescNullsLast" => Ok(SortDirection::DescNullsLast),
+        "Clustered" => Ok(SortDirection::Clustered),
         other => Err(MessageParseError::invalid(
             "SortDirection",
             span,
diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index c248e91..704c719 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -335,7 +335,7 @@ empty = { "_" }
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
 sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
-sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" }
+sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" | "&Clustered" }
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-- 
2.43.0


From f61765c1d5fa8779ea3a4551f22388e35d51be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:16 +0000
Subject: [PATCH 13/29] fix: write floats with a fractional part so they read
 back as floats

---
 src/textify/expressions.rs | 32 ++++++++++++++++++++++++++++++--
 src/textify/extensions.rs  |  3 ++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 3dfa15b..cf1641f 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -42,6 +42,34 @@ pub fn textify_binary<S: Scope, W: fmt::Write>(items: &[u8], ctx: &S, w: &mut W)
     Ok(())
 }
 
+/// Write a float so that it reads back as a float: always with a fractional
+/// part, so that `1.0` is not mistaken for the integer `1`. NaN and infinities
+/// have no text representation.
+pub fn textify_float<F, S, W>(f: F, ctx: &S, w: &mut W) -> fmt::Result
+where
+    F: Into<f64> + fmt::Display + Copy,
+    S: Scope,
+    W: fmt::Write,
+{
+    let value: f64 = f.into();
+    if !value.is_finite() {
+        return write!(
+            w,
+            "{}",
+            ctx.failure(PlanError::unimplemented(
+                "Float",
+                Some("value"),
+                format!("{f} has no text representation"),
+            ))
+        );
+    }
+    if value.fract() == 0.0 {
+        write!(w, "{f:.1}")
+    } else {
+        write!(w, "{f}")
+    }
+}
+
 /// Write an error token for a literal type that hasn't been implemented yet.
 fn unimplemented_literal<S: Scope, W: fmt::Write>(
     variant: &'static str,
@@ -315,8 +343,8 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Boolean(b) => write!(w, "{b}"),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
-        LiteralType::Fp32(f) => write!(w, "{f}"),
-        LiteralType::Fp64(f) => write!(w, "{f}"),
+        LiteralType::Fp32(f) => textify_float(*f, ctx, w),
+        LiteralType::Fp64(f) => textify_float(*f, ctx, w),
         LiteralType::String(s) => write!(w, "'{}'", escaped(s)),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => match days_to_date_string(*days) {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 8e731ca..dbdc6e2 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -9,6 +9,7 @@ use std::fmt;
 
 use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
+use crate::textify::expressions::textify_float;
 use crate::textify::foundation::{Scope, Textify};
 use crate::textify::types::{Name, escaped};
 
@@ -38,7 +39,7 @@ impl Textify for ExtensionValue {
         match self {
             ExtensionValue::String(s) => write!(w, "'{}'", escaped(s)),
             ExtensionValue::Integer(i) => write!(w, "{i}"),
-            ExtensionValue::Float(f) => write!(w, "{f}"),
+            ExtensionValue::Float(f) => textify_float(*f, ctx, w),
             ExtensionValue::Boolean(b) => write!(w, "{b}"),
             ExtensionValue::Null => write!(w, "null"),
             ExtensionValue::Error(error) => {
-- 
2.43.0


From a3c78b8ee46150e8edfad56ffc198094e736407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:29 +0000
Subject: [PATCH 14/29] fix: quote extension and argument names that are not
 plain identifiers

---
 src/textify/addenda.rs    | 8 +++++++-
 src/textify/extensions.rs | 2 +-
 src/textify/rels.rs       | 2 +-
 src/textify/values.rs     | 2 +-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/textify/addenda.rs b/src/textify/addenda.rs
index 83b0dfe..be5ab07 100644
--- a/src/textify/addenda.rs
+++ b/src/textify/addenda.rs
@@ -13,6 +13,7 @@ use crate::extensions::any::AnyRef;
 use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs};
 use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::Name;
 
 /// All addenda associated with a relation, in canonical text-format order.
 #[derive(Default)]
@@ -160,7 +161,12 @@ impl Textify for AddendumLine {
                         )))
                     )
                 } else {
-                    write!(w, "{indent}+ {prefix}:{name}[{}]", ctx.display(args))
+                    write!(
+                        w,
+                        "{indent}+ {prefix}:{}[{}]",
+                        Name(name),
+                        ctx.display(args)
+                    )
                 }
             }
             AddendumLine::DecodeError { kind, error } => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index dbdc6e2..07cc3a2 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -99,7 +99,7 @@ impl Textify for ExtensionArgs {
             if has_args {
                 write!(w, ", ")?;
             }
-            write!(w, "{name}=")?;
+            write!(w, "{}=", Name(name))?;
             value.textify(ctx, w)?;
             has_args = true;
         }
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 4020575..374cb50 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -682,7 +682,7 @@ impl<'a> Relation<'a> {
                     .map(Value::ExtColumn)
                     .collect();
                 Relation {
-                    name: Cow::Owned(format!("{}:{}", ext_type, name)),
+                    name: Cow::Owned(format!("{}:{}", ext_type, Name(&name))),
                     arguments: Some(RelationArgs::inline(positional, named)),
                     columns,
                     emit: None,
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 72bc239..1d9820d 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -306,7 +306,7 @@ impl<'a> Textify for NamedArg<'a> {
         "NamedArg"
     }
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}=", self.name)?;
+        write!(w, "{}=", Name(&self.name))?;
         self.value.textify(ctx, w)
     }
 }
-- 
2.43.0


From 946bbeec3f5443d2532aff63af345d424a2ba414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:36 +0000
Subject: [PATCH 15/29] fix: create the output file only after the conversion
 has succeeded

---
 src/cli.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index c825700..8bbac90 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -82,20 +82,21 @@ impl Cli {
             } => {
                 let reader = get_reader(input)
                     .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
                 let options = self.create_output_options(*show_literal_types);
                 let from_format = self.resolve_input_format(from, input)?;
                 let to_format = self.resolve_output_format(to, output)?;
-                self.run_convert_with_io(
+                let mut contents = Vec::new();
+                let outcome = self.run_convert_with_io(
                     reader,
-                    writer,
+                    &mut contents,
                     &from_format,
                     &to_format,
                     &options,
                     *verbose,
                     registry,
-                )
+                )?;
+                write_output(output, &contents)?;
+                Ok(outcome)
             }
 
             Commands::Validate {
@@ -105,9 +106,11 @@ impl Cli {
             } => {
                 let reader = get_reader(input)
                     .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
-                self.run_validate_with_io(reader, writer, *verbose, registry)
+                let mut contents = Vec::new();
+                let outcome =
+                    self.run_validate_with_io(reader, &mut contents, *verbose, registry)?;
+                write_output(output, &contents)?;
+                Ok(outcome)
             }
         }
     }
@@ -461,6 +464,19 @@ fn get_reader(path: &str) -> Result<Box<dyn Read>> {
     }
 }
 
+/// Write the complete output of a command to a file path (or stdout if "-").
+///
+/// The output file is only created once there is something to put in it, so a
+/// command that fails leaves an existing file as it was.
+fn write_output(path: &str, contents: &[u8]) -> Result<()> {
+    let mut writer =
+        get_writer(path).with_context(|| format!("Failed to create output file: {path}"))?;
+    writer
+        .write_all(contents)
+        .and_then(|()| writer.flush())
+        .with_context(|| format!("Failed to write output file: {path}"))
+}
+
 /// Helper function to get writer from file path (or stdout if "-")
 fn get_writer(path: &str) -> Result<Box<dyn Write>> {
     if path == "-" {
-- 
2.43.0


From 41d121c4b6bb2a48a2d77276ce31c79a9ddba50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:44 +0000
Subject: [PATCH 16/29] fix: report nested field references instead of writing
 only their first segment

---
 src/textify/expressions.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index cf1641f..d4d528f 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -644,6 +644,15 @@ impl Textify for FieldReference {
         };
 
         match &ref_type.reference_type {
+            Some(reference_segment::ReferenceType::StructField(s)) if s.child.is_some() => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "StructField",
+                    Some("child"),
+                    "FieldReference textification not implemented for nested fields",
+                ))
+            ),
             Some(reference_segment::ReferenceType::StructField(s)) => {
                 write!(w, "{}", Reference(s.field))
             }
-- 
2.43.0


From aa2d994ff11ab3a705b2502c18259bd079c47fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:33 +0000
Subject: [PATCH 17/29] fix: report measures the text cannot express instead of
 dropping their filter, sorts or DISTINCT

---
 src/textify/expressions.rs | 20 ++++++++++++++++++++
 src/textify/rels.rs        | 16 +++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index d4d528f..70d705d 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -2,6 +2,7 @@ use std::fmt;
 
 use chrono::{DateTime, NaiveDate, NaiveTime};
 use expr::RexType;
+use substrait::proto::aggregate_function::AggregationInvocation;
 use substrait::proto::expression::field_reference::{ReferenceType, RootReference, RootType};
 use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
 use substrait::proto::expression::literal::{IntervalDayToSecond, LiteralType};
@@ -964,6 +965,25 @@ impl Textify for AggregateFunction {
     }
 
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
+        let unsupported = if self.invocation() == AggregationInvocation::Distinct {
+            Some("invocation")
+        } else if !self.sorts.is_empty() {
+            Some("sorts")
+        } else {
+            None
+        };
+        if let Some(field) = unsupported {
+            return write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "AggregateFunction",
+                    Some(field),
+                    format!("AggregateFunction textification not implemented for {field}"),
+                ))
+            );
+        }
+
         let invocation = FunctionInvocation::from(self);
         let output_type = OutputType(self.output_type.as_ref());
 
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 374cb50..df34e4c 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -784,9 +784,19 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
-            if let Some(agg_fn) = m.measure.as_ref() {
-                all_outputs.push(Value::AggregateFunction(agg_fn));
-            }
+            all_outputs.push(match (m.measure.as_ref(), m.filter.as_ref()) {
+                (Some(agg_fn), None) => Value::AggregateFunction(agg_fn),
+                (Some(_), Some(_)) => Value::Missing(PlanError::unimplemented(
+                    "Measure",
+                    Some("filter"),
+                    "Measure textification not implemented for a filtered measure",
+                )),
+                (None, _) => Value::Missing(PlanError::invalid(
+                    "Measure",
+                    Some("measure"),
+                    "Required field measure is missing",
+                )),
+            });
         }
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
-- 
2.43.0


From 5ed1a9eb53def11c913a972f27e419c023f3c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:17 +0000
Subject: [PATCH 18/29] fix: report parts of a read the text cannot express
 instead of dropping them

---
 src/textify/rels.rs | 50 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index df34e4c..263b7cc 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -388,9 +388,11 @@ impl<'a> Relation<'a> {
                     Some(EmitKind::Emit(_)) => OutputSyntax::Explicit,
                     Some(EmitKind::Direct(_)) | None => OutputSyntax::Implicit,
                 };
+                let mut positional = vec![table_name];
+                positional.extend(unsupported_read_fields(rel));
                 Relation {
                     name: Cow::Borrowed("Read"),
-                    arguments: Some(RelationArgs::inline(vec![table_name], vec![])),
+                    arguments: Some(RelationArgs::inline(positional, vec![])),
                     columns,
                     emit,
                     output_syntax,
@@ -408,6 +410,7 @@ impl<'a> Relation<'a> {
                     .iter()
                     .map(|row| Value::Tuple(row.fields.iter().map(Value::Expression).collect()))
                     .collect();
+                positional.extend(unsupported_read_fields(rel));
                 let mut named = vec![];
                 if let Some(filter) = rel.filter.as_ref() {
                     named.push(NamedArg {
@@ -450,9 +453,13 @@ impl<'a> Relation<'a> {
                     None => Err(ExtensionError::MissingDetail),
                 };
 
+                let unsupported = unsupported_read_fields(rel);
+                let arguments =
+                    (!unsupported.is_empty()).then(|| RelationArgs::inline(unsupported, vec![]));
+
                 Relation {
                     name: Cow::Borrowed("Read:Extension"),
-                    arguments: None,
+                    arguments,
                     columns,
                     emit,
                     output_syntax: OutputSyntax::Implicit,
@@ -487,6 +494,45 @@ impl<'a> Relation<'a> {
     }
 }
 
+/// The parts of a read that its text cannot express, as error values.
+fn unsupported_read_fields<'a>(rel: &'a ReadRel) -> Vec<Value<'a>> {
+    let virtual_table = match &rel.read_type {
+        Some(ReadType::VirtualTable(vt)) => Some(vt),
+        _ => None,
+    };
+    // Only a named table writes its columns apart from the emit that remaps them.
+    let remapped = match get_emit(rel.common.as_ref()) {
+        Some(EmitKind::Emit(emit)) => {
+            let width = rel.base_schema.as_ref().map_or(0, |s| s.names.len());
+            !emit.output_mapping.iter().copied().eq(0..width as i32)
+        }
+        Some(EmitKind::Direct(_)) | None => false,
+    };
+    let named_table = matches!(rel.read_type, Some(ReadType::NamedTable(_)));
+    #[allow(deprecated)]
+    let unsupported = [
+        ("filter", rel.filter.is_some() && virtual_table.is_none()),
+        ("best_effort_filter", rel.best_effort_filter.is_some()),
+        ("projection", rel.projection.is_some()),
+        ("common.emit_kind", remapped && !named_table),
+        (
+            "virtual_table.values",
+            virtual_table.is_some_and(|vt| !vt.values.is_empty()),
+        ),
+    ];
+    unsupported
+        .into_iter()
+        .filter(|(_, present)| *present)
+        .map(|(field, _)| {
+            Value::Missing(PlanError::unimplemented(
+                "ReadRel",
+                Some(field),
+                format!("ReadRel textification not implemented for {field}"),
+            ))
+        })
+        .collect()
+}
+
 fn read_columns<'a>(rel: &'a ReadRel) -> Vec<Value<'a>> {
     match rel.base_schema {
         Some(ref schema) => schema_to_values(schema),
-- 
2.43.0


From 99441711ab8ef491cbd4364717cf05448de17f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:25 +0000
Subject: [PATCH 19/29] fix: write user-defined types named like built-in ones
 with the u! prefix

---
 src/textify/types.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/textify/types.rs b/src/textify/types.rs
index 8ba9d61..0291400 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -387,6 +387,41 @@ impl<'a> Textify for Parameters<'a> {
     }
 }
 
+/// Whether a user-defined type's name, written on its own, would be read as a
+/// built-in type (or as one with text left over): `date`, `time_of_day`, `list`.
+/// Such names are written with the `u!` prefix, which marks them as user-defined.
+fn reads_as_builtin_type(name: &str) -> bool {
+    // Matched by the grammar wherever a type name starts with them
+    const SIMPLE: &[&str] = &[
+        "boolean",
+        "i8",
+        "i16",
+        "i32",
+        "i64",
+        "fp32",
+        "fp64",
+        "string",
+        "binary",
+        "timestamp",
+        "date",
+        "time",
+        "interval_year",
+        "uuid",
+    ];
+    // Case-insensitive, and followed by their parameters
+    const COMPOUND: &[&str] = &[
+        "list",
+        "map",
+        "struct",
+        "precisiontimestamptz",
+        "precisiontimestamp",
+        "precisiontime",
+        "interval_day",
+    ];
+    SIMPLE.iter().any(|t| name.starts_with(t))
+        || COMPOUND.iter().any(|t| name.eq_ignore_ascii_case(t))
+}
+
 impl Textify for ptype::UserDefined {
     fn name() -> &'static str {
         "UserDefined"
@@ -404,9 +439,14 @@ impl Textify for ptype::UserDefined {
                 .collect();
             let params = Parameters(&param_vec);
 
+            let prefix = match &name_and_anchor.name.0 {
+                Ok(name) if reads_as_builtin_type(name.full()) => "u!",
+                _ => "",
+            };
+
             write!(
                 w,
-                "{name_and_anchor}{null}{var}{params}",
+                "{prefix}{name_and_anchor}{null}{var}{params}",
                 name_and_anchor = ctx.display(&name_and_anchor),
                 null = ctx.display(&self.nullability()),
                 var = ctx.display(&TypeVariation(self.type_variation_reference)),
-- 
2.43.0


From aa9ebfed8e96573c636085fe1415deed4d726e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 20/29] fix: accept a typed or fractional literal as a fetch
 limit or offset, as the formatter writes it

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 704c719..3695db3 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -339,7 +339,8 @@ sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&D
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-fetch_value          =  { integer | expression }
+// A bare integer is a row count; with a type or a fraction it is an ordinary literal.
+fetch_value          =  { integer ~ !("." | ":") | expression }
 fetch_named_arg      =  { fetch_arg_name ~ sp ~ "=" ~ sp ~ fetch_value }
 fetch_named_arg_list =  { fetch_named_arg ~ (sp ~ "," ~ sp ~ fetch_named_arg)* }
 fetch_args           = _{ fetch_named_arg_list | empty }
-- 
2.43.0


From 618713146959d2aa51c9b6163124952f9865b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:00 +0000
Subject: [PATCH 21/29] fix: report an emit on an extension relation instead of
 dropping it

---
 src/textify/rels.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 263b7cc..5db0b0e 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -658,6 +658,7 @@ impl<'a> Relation<'a> {
     fn from_extension_leaf<S: Scope>(rel: &'a ExtensionLeafRel, ctx: &S) -> Self {
         Relation::from_extension(
             "ExtensionLeaf",
+            rel.common.as_ref(),
             rel.detail.as_ref().map(AnyRef::from),
             vec![],
             ctx,
@@ -667,6 +668,7 @@ impl<'a> Relation<'a> {
     fn from_extension_single<S: Scope>(rel: &'a ExtensionSingleRel, ctx: &S) -> Self {
         Relation::from_extension(
             "ExtensionSingle",
+            rel.common.as_ref(),
             rel.detail.as_ref().map(AnyRef::from),
             vec![rel.input.as_deref()],
             ctx,
@@ -680,6 +682,7 @@ impl<'a> Relation<'a> {
         }
         Relation::from_extension(
             "ExtensionMulti",
+            rel.common.as_ref(),
             rel.detail.as_ref().map(AnyRef::from),
             child_refs,
             ctx,
@@ -688,6 +691,7 @@ impl<'a> Relation<'a> {
 
     fn from_extension<S: Scope>(
         ext_type: &'static str,
+        common: Option<&'a RelCommon>,
         detail: Option<AnyRef<'a>>,
         child_refs: Vec<Option<&'a Rel>>,
         ctx: &S,
@@ -722,11 +726,26 @@ impl<'a> Relation<'a> {
                         value: Value::ExtensionArgument(value),
                     });
                 }
-                let columns = args
+                let columns: Vec<Value> = args
                     .output_columns
                     .into_iter()
                     .map(Value::ExtColumn)
                     .collect();
+                // The text lists the columns of the extension itself and has no
+                // syntax for an emit that remaps them.
+                if let Some(EmitKind::Emit(emit)) = get_emit(common)
+                    && !emit
+                        .output_mapping
+                        .iter()
+                        .copied()
+                        .eq(0..columns.len() as i32)
+                {
+                    positional.push(Value::Missing(PlanError::unimplemented(
+                        ext_type,
+                        Some("common.emit_kind"),
+                        format!("{ext_type} textification not implemented for common.emit_kind"),
+                    )));
+                }
                 Relation {
                     name: Cow::Owned(format!("{}:{}", ext_type, Name(&name))),
                     arguments: Some(RelationArgs::inline(positional, named)),
-- 
2.43.0


From 280d1cda3a5f2b784edda02958e0837107fcf7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:41 +0000
Subject: [PATCH 22/29] fix: accept extension arguments whose names begin with
 a literal keyword

---
 src/parser/expression_grammar.pest | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3695db3..5cd6cdb 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -8,8 +8,10 @@ sp = _{ whitespace* }
 identifier = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 integer    = @{ "-"? ~ ASCII_DIGIT+ }
 float      = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
-boolean    = @{ "true" | "false" }
-null       = @{ "null" }
+boolean    = @{ ("true" | "false") ~ word_end }
+null       = @{ "null" ~ word_end }
+// A keyword is not the beginning of a longer name, such as "nullable"
+word_end   = _{ !(ASCII_ALPHANUMERIC | "_") }
 
 // Basic string literals, does not handle escape sequences for simplicity here.
 // String literals are for literal values
@@ -397,7 +399,8 @@ tuple = {
               ~ (sp ~ "," ~ sp ~ extension_argument)+
               ~ (sp ~ ",")? ~ sp ~ ")"
         }
-extension_argument  = { enum_value | parameter_literal | reference | expression | tuple }
+// A keyword before "=" (but not "=>") is the name of a named argument.
+extension_argument  = { (enum_value | parameter_literal | reference | expression | tuple) ~ !(sp ~ "=" ~ !">") }
 
 // Named arguments (name=value pairs)
 extension_named_arguments = { extension_named_argument ~ (sp ~ "," ~ sp ~ extension_named_argument)* }
-- 
2.43.0


From a7a5485c7f1ea4553539398fd2df6a666205c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:26 +0000
Subject: [PATCH 23/29] fix: reject trailing text after a relation instead of
 silently dropping it

---
 src/parser/expression_grammar.pest | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 5cd6cdb..6966ea3 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -242,7 +242,12 @@ implicit_output = { "=>" ~ sp ~ named_column_list }
 direct_output   = { "+>" ~ sp ~ named_column_list ~ emit_suffix }
 emit_suffix     = { (sp ~ "|>" ~ sp ~ reference_list)? }
 
+// What may follow a relation on its line: a comment. Any other trailing text is
+// a syntax error, rather than silently dropped.
+line_end = _{ sp ~ ("//" ~ (!"\n" ~ ANY)*)? ~ !ANY }
+
 planNode = {
+  (
     // Specialized read relations must precede read_relation: all start with
     // "Read", and PEG tries alternatives in order — the longer prefixes
     // must be attempted first.
@@ -259,11 +264,12 @@ planNode = {
   | cross_relation
   | extension_relation
   | addendum
+  ) ~ line_end
 }
 
 // At the top level, we can have a RelRoot, or a regular relation; both are valid.
 top_level_relation = {
-    root_relation
+    root_relation ~ line_end
   | planNode
 }
 
-- 
2.43.0


From afc6237a0bc605a5cf4ee42a2b2db0d781601c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:40 +0000
Subject: [PATCH 24/29] fix: reject a repeated version field instead of keeping
 only the last

---
 src/parser/structural.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index db91763..47f028c 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1188,16 +1188,23 @@ impl<'a> Parser<'a> {
             .version
             .as_mut()
             .expect("version is set on entry to the version section");
-        match key.trim() {
-            "producer" => version.producer = value,
-            "git_hash" => version.git_hash = value,
+        let field = match key.trim() {
+            "producer" => &mut version.producer,
+            "git_hash" => &mut version.git_hash,
             other => {
                 return Err(ParseError::ValidationError(
                     ctx(),
                     format!("unknown version field {other:?}, expected 'producer' or 'git_hash'"),
                 ));
             }
+        };
+        if !field.is_empty() {
+            return Err(ParseError::ValidationError(
+                ctx(),
+                format!("duplicate version field {:?}", key.trim()),
+            ));
         }
+        *field = value;
         Ok(())
     }
 
-- 
2.43.0


From 25eef0a396a0f8bc03c9face8388daebf11e4236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:40 +0000
Subject: [PATCH 25/29] fix: check the URN anchor of a function or type
 reference instead of ignoring it

---
 src/parser/expressions.rs | 27 ++++++++++++++++++++-------
 src/parser/types.rs       | 29 +++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 7ed11e3..a8c2e0a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -21,7 +21,7 @@ use substrait::proto::function_argument::ArgType;
 use substrait::proto::r#type::{Fp64, I64, Kind, Nullability};
 use substrait::proto::{AggregateFunction, Expression, FunctionArgument, Type};
 
-use super::types::get_and_validate_anchor;
+use super::types::{get_and_validate_anchor, validate_urn_anchor};
 use super::{
     ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair, parse_integer,
     unescape_string, unwrap_single_pair,
@@ -725,10 +725,11 @@ impl ScopedParsePair for Literal {
     }
 }
 
-/// An unresolved reference to a function: its compound name plus an optional explicit anchor.
+/// An unresolved reference to a function: its compound name plus optional explicit anchors.
 struct FunctionReference {
     name: CompoundName,
     anchor: Option<u32>,
+    urn_anchor: Option<u32>,
 }
 
 impl ScopedParsePair for FunctionReference {
@@ -756,14 +757,18 @@ impl ScopedParsePair for FunctionReference {
             .map(|n| parse_integer::<u32>(Self::message(), &unwrap_single_pair(n)))
             .transpose()?;
 
-        // Optional URN anchor (e.g., @1); currently unused.
-        let _urn_anchor = iter
+        // Optional URN anchor (e.g., @1)
+        let urn_anchor = iter
             .try_pop(Rule::urn_anchor)
             .map(|n| parse_integer::<u32>(Self::message(), &unwrap_single_pair(n)))
             .transpose()?;
 
         iter.done();
-        Ok(FunctionReference { name, anchor })
+        Ok(FunctionReference {
+            name,
+            anchor,
+            urn_anchor,
+        })
     }
 }
 
@@ -775,13 +780,21 @@ impl FunctionReference {
         extensions: &SimpleExtensions,
         span: pest::Span,
     ) -> Result<u32, MessageParseError> {
-        get_and_validate_anchor(
+        let anchor = get_and_validate_anchor(
             extensions,
             ExtensionKind::Function,
             self.anchor,
             self.name.full(),
             span,
-        )
+        )?;
+        validate_urn_anchor(
+            extensions,
+            ExtensionKind::Function,
+            anchor,
+            self.urn_anchor,
+            span,
+        )?;
+        Ok(anchor)
     }
 }
 
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 0280496..bde14a2 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -57,6 +57,31 @@ pub(crate) fn get_and_validate_anchor(
     }
 }
 
+/// Check that the URN anchor written in a reference, if any, is the one that the
+/// extension was declared with.
+pub(crate) fn validate_urn_anchor(
+    extensions: &SimpleExtensions,
+    kind: ExtensionKind,
+    anchor: u32,
+    urn_anchor: Option<u32>,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    let Some(urn_anchor) = urn_anchor else {
+        return Ok(());
+    };
+    let (declared, name) = extensions.find_by_anchor(kind, anchor).map_err(|e| {
+        MessageParseError::lookup(kind.name(), e, span, "Error finding extension for anchor")
+    })?;
+    if declared != urn_anchor {
+        return Err(MessageParseError::invalid(
+            kind.name(),
+            span,
+            format!("URN anchor @{urn_anchor} does not match {name}, declared with @{declared}"),
+        ));
+    }
+    Ok(())
+}
+
 impl ParsePair for Nullability {
     fn rule() -> Rule {
         Rule::nullability
@@ -323,8 +348,7 @@ fn parse_user_defined_type(
         .map(|n| parse_integer::<u32>("anchor", &unwrap_single_pair(n)))
         .transpose()?;
 
-    // TODO: Handle urn_anchor; validate that it matches the anchor
-    let _urn_anchor = iter
+    let urn_anchor = iter
         .try_pop(Rule::urn_anchor)
         .map(|n| parse_integer::<u32>("anchor", &unwrap_single_pair(n)))
         .transpose()?;
@@ -337,6 +361,7 @@ fn parse_user_defined_type(
     iter.done();
 
     let anchor = get_and_validate_anchor(extensions, ExtensionKind::Type, anchor, &name, span)?;
+    validate_urn_anchor(extensions, ExtensionKind::Type, anchor, urn_anchor, span)?;
 
     Ok(Type {
         kind: Some(Kind::UserDefined(proto::r#type::UserDefined {
-- 
2.43.0


From 52cf1d39c2635b8c39fd0b86d46826d1c0ce47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:32 +0000
Subject: [PATCH 26/29] fix: reject a float too large for its type instead of
 reading it as infinity

---
 src/parser/common.rs      | 21 ++++++++++++++++++++-
 src/parser/expressions.rs |  9 ++++-----
 src/parser/extensions.rs  |  4 ++--
 src/parser/mod.rs         |  3 ++-
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 6462a0b..32a9510 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 use std::fmt;
-use std::num::ParseIntError;
+use std::num::{ParseFloatError, ParseIntError};
 use std::str::FromStr;
 
 use pest::error::{Error as PestError, ErrorVariant};
@@ -109,6 +109,25 @@ where
     })
 }
 
+/// Parses the text of a float pair, reporting values too large for `T`, which
+/// would otherwise be read as infinity.
+pub(crate) fn parse_float<T>(
+    message: &'static str,
+    pair: &Pair<Rule>,
+) -> Result<T, MessageParseError>
+where
+    T: FromStr<Err = ParseFloatError> + Into<f64> + Copy,
+{
+    match pair.as_str().parse::<T>() {
+        Ok(value) if Into::<f64>::into(value).is_finite() => Ok(value),
+        _ => Err(MessageParseError::invalid(
+            message,
+            pair.as_span(),
+            format!("float {:?} is out of range", pair.as_str()),
+        )),
+    }
+}
+
 /// Unescapes a quoted string literal, handling escape sequences.
 ///
 /// # Arguments
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a8c2e0a..41ef1c3 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -23,8 +23,8 @@ use substrait::proto::{AggregateFunction, Expression, FunctionArgument, Type};
 
 use super::types::{get_and_validate_anchor, validate_urn_anchor};
 use super::{
-    ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair, parse_integer,
-    unescape_string, unwrap_single_pair,
+    ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair, parse_float,
+    parse_integer, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::SimpleExtensions;
 use crate::extensions::simple::{CompoundName, ExtensionKind};
@@ -135,19 +135,18 @@ const UNSIGNED_FLOAT_KIND: Kind = Kind::Fp64(Fp64 {
 
 fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::float);
-    let parsed_value: f64 = value.as_str().parse().unwrap();
 
     // If no type is provided, we assume fp64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_FLOAT_KIND);
 
     let (lit, nullability, tvar) = match &kind {
         Kind::Fp32(f) => (
-            LiteralType::Fp32(parsed_value as f32),
+            LiteralType::Fp32(parse_float("float_literal", &value)?),
             f.nullability,
             f.type_variation_reference,
         ),
         Kind::Fp64(f) => (
-            LiteralType::Fp64(parsed_value),
+            LiteralType::Fp64(parse_float("float_literal", &value)?),
             f.nullability,
             f.type_variation_reference,
         ),
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 14f0904..6f6810d 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    parse_integer, unescape_string, unwrap_single_pair,
+    parse_float, parse_integer, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -302,7 +302,7 @@ impl ScopedParsePair for ExtensionValue {
                         ExtensionValue::Integer(parse_integer(Self::message(), &value_pair)?)
                     }
                     Rule::float => {
-                        ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
+                        ExtensionValue::Float(parse_float(Self::message(), &value_pair)?)
                     }
                     Rule::boolean => ExtensionValue::Boolean(value_pair.as_str() == "true"),
                     Rule::null => ExtensionValue::Null,
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a6cd171..ccc6834 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,8 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, parse_integer, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    iter_pairs, parse_float, parse_integer, sort_direction_from_str, unescape_string,
+    unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
-- 
2.43.0


From 96d561f033ac87218c5c781e743dc927677b74c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:32 +0000
Subject: [PATCH 27/29] fix: reject a leap second at the end of the day as a
 time literal

---
 src/parser/expressions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 41ef1c3..88a48a8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -535,6 +535,10 @@ fn parse_time_to_precision_units(
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
+            // A leap second at the end of the day is not a time of the day.
+            if duration >= chrono::Duration::days(1) {
+                break;
+            }
             return duration_to_precision_units(duration, precision, literal_kind, span);
         }
     }
-- 
2.43.0


From 5b69aece5004a170c9aa165b4fc53e77caffddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:14 +0000
Subject: [PATCH 28/29] fix: keep deprecated grouping expressions when the
 first grouping set is empty

---
 src/textify/rels.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 5db0b0e..7d07fe0 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -793,8 +793,10 @@ impl<'a> Relation<'a> {
         // set, then we silently ignore the deprecated one.
         #[allow(deprecated)]
         if rel.grouping_expressions.is_empty()
-            && !rel.groupings.is_empty()
-            && !rel.groupings[0].grouping_expressions.is_empty()
+            && rel
+                .groupings
+                .iter()
+                .any(|group| !group.grouping_expressions.is_empty())
         {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
-- 
2.43.0


From 9fd2dde67bccbf82e0cb5250938ec20df26ca0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:49 +0000
Subject: [PATCH 29/29] fix: report version details that the text cannot hold

---
 src/textify/plan.rs | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/textify/plan.rs b/src/textify/plan.rs
index 36d66f0..16910e2 100644
--- a/src/textify/plan.rs
+++ b/src/textify/plan.rs
@@ -5,7 +5,7 @@ use substrait::proto;
 use super::Textify;
 use crate::extensions::{ExtensionRegistry, SimpleExtensions};
 use crate::parser::{PLAN_HEADER, VERSION_HEADER};
-use crate::textify::foundation::ErrorAccumulator;
+use crate::textify::foundation::{ErrorAccumulator, PlanError, Scope};
 use crate::textify::{OutputOptions, ScopedContext};
 
 #[derive(Debug, Clone)]
@@ -71,23 +71,33 @@ impl<'a, E: ErrorAccumulator + Default + Clone> PlanWriter<'a, E> {
             "{VERSION_HEADER} {}.{}.{}",
             version.major_number, version.minor_number, version.patch_number
         )?;
-        if !version.producer.is_empty() {
-            writeln!(
-                w,
-                "{}producer: {}",
-                self.options.indent,
-                version.producer.trim()
-            )?;
+        self.write_version_detail(w, "producer", &version.producer)?;
+        self.write_version_detail(w, "git_hash", &version.git_hash)?;
+        Ok(())
+    }
+
+    /// Write one detail line of the version section, if there is anything to
+    /// write. A detail is the trimmed rest of its line, so a value with outer
+    /// white space or line breaks cannot be expressed.
+    fn write_version_detail(
+        &self,
+        w: &mut impl fmt::Write,
+        name: &'static str,
+        value: &str,
+    ) -> fmt::Result {
+        if value.is_empty() {
+            return Ok(());
         }
-        if !version.git_hash.is_empty() {
-            writeln!(
-                w,
-                "{}git_hash: {}",
-                self.options.indent,
-                version.git_hash.trim()
-            )?;
+        let indent = &self.options.indent;
+        if value.trim() == value && !value.contains('\n') {
+            return writeln!(w, "{indent}{name}: {value}");
         }
-        Ok(())
+        let error = PlanError::invalid(
+            "Version",
+            Some(name),
+            format!("{name} {value:?} has outer white space or line breaks"),
+        );
+        writeln!(w, "{indent}{name}: {}", self.scope().failure(error))
     }
 
     pub(crate) fn write_extensions(&self, w: &mut impl fmt::Write) -> fmt::Result {
-- 
2.43.0

