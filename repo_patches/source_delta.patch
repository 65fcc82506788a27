From 6a1ecc9dde23359916519fdee1609ec025b9de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 01/20] fix: reject truncated unicode escapes instead of
 panicking

The string literal parser used nom's streaming one_of, so a query ending
inside a \u escape produced Err::Incomplete, which JsonPath::parse treats
as unreachable.
---
 serde_json_path/src/parser/primitive/string.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index bf7f61d..4c8d5f1 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -1,6 +1,5 @@
 use nom::bytes::complete::{tag, take_while};
-use nom::character::complete::{anychar, char};
-use nom::character::streaming::one_of;
+use nom::character::complete::{anychar, char, one_of};
 use nom::combinator::{cut, map, recognize, verify};
 use nom::error::context;
 use nom::sequence::{pair, separated_pair, tuple};
-- 
2.43.0


From 9043991e1418881828d270c90d2a3f97fd144101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 02/20] fix: accept lower case hex digits in high surrogate
 escapes

---
 serde_json_path/src/parser/primitive/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index 4c8d5f1..db11538 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -70,7 +70,11 @@ fn parse_high_surrogate(input: &str) -> PResult<u16> {
     context(
         "high surrogate",
         map_res(
-            recognize(tuple((char('D'), one_of("89AB"), parse_n_hex_digits(2)))),
+            recognize(tuple((
+                one_of("Dd"),
+                one_of("89ABab"),
+                parse_n_hex_digits(2),
+            ))),
             |hex| u16::from_str_radix(hex, 16),
         ),
     )(input)
-- 
2.43.0


From 39bf035d7ef04c48b909ade946de36fb084a7295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 03/20] fix: escape names in normalized paths

Names were written verbatim between single quotes, so the location of a
member whose name has a quote, backslash or control character was not a
normalized path, and not even a valid query.
---
 serde_json_path_core/src/path.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index d2c3d19..db0313c 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -192,7 +192,7 @@ impl Display for NormalizedPath<'_> {
         write!(f, "$")?;
         for elem in &self.0 {
             match elem {
-                PathElement::Name(name) => write!(f, "['{name}']")?,
+                PathElement::Name(name) => write!(f, "[{name}]", name = Quoted(name))?,
                 PathElement::Index(index) => write!(f, "[{index}]")?,
             }
         }
@@ -200,6 +200,30 @@ impl Display for NormalizedPath<'_> {
     }
 }
 
+/// Displays a string as a single quoted JSONPath string literal, in the form used for names in
+/// normalized paths, see <https://www.rfc-editor.org/rfc/rfc9535#section-2.7>
+pub(crate) struct Quoted<'a>(pub(crate) &'a str);
+
+impl Display for Quoted<'_> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        write!(f, "'")?;
+        for c in self.0.chars() {
+            match c {
+                '\u{0008}' => write!(f, r"\b")?,
+                '\u{000C}' => write!(f, r"\f")?,
+                '\u{000A}' => write!(f, r"\n")?,
+                '\u{000D}' => write!(f, r"\r")?,
+                '\u{0009}' => write!(f, r"\t")?,
+                '\'' => write!(f, r"\'")?,
+                '\\' => write!(f, r"\\")?,
+                '\u{0000}'..='\u{001F}' => write!(f, "\\u{:04x}", c as u32)?,
+                _ => write!(f, "{c}")?,
+            }
+        }
+        write!(f, "'")
+    }
+}
+
 impl Serialize for NormalizedPath<'_> {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
-- 
2.43.0


From 9a829f30eda4fcd87b98ec2ebe3e5a65e1fc5d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 04/20] fix: accept whitespace before descendant segments

---
 serde_json_path/src/parser/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/segment.rs b/serde_json_path/src/parser/segment.rs
index 6ff4528..fa42ac2 100644
--- a/serde_json_path/src/parser/segment.rs
+++ b/serde_json_path/src/parser/segment.rs
@@ -112,7 +112,7 @@ fn parse_child_segment(input: &str) -> PResult<Segment> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_descendant_segment(input: &str) -> PResult<Segment> {
     preceded(
-        tag(".."),
+        pair(multispace0, tag("..")),
         alt((
             map(parse_wildcard_selector, |_| Segment::Wildcard),
             parse_child_long_hand,
-- 
2.43.0


From 74a4a41cca3d654eab65c7c538b5a16a96c22bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 05/20] fix: accept function names of a single character

---
 serde_json_path/src/parser/selector/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index d4aadfe..c8d046c 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -6,7 +6,7 @@ use nom::{
     branch::alt,
     character::complete::{multispace0, satisfy},
     combinator::map,
-    multi::fold_many1,
+    multi::fold_many0,
     sequence::{delimited, pair},
 };
 use serde_json_path_core::spec::functions::{
@@ -40,7 +40,7 @@ fn parse_function_name(input: &str) -> PResult<String> {
     map(
         pair(
             parse_function_name_first,
-            fold_many1(
+            fold_many0(
                 parse_function_name_char,
                 String::new,
                 |mut string, fragment| {
-- 
2.43.0


From 69abb3f25a10ca25d029fc09cd29af5ebfae8561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 06/20] fix: report the exact size hint of Locations and Nodes

They are ExactSizeIterators, but kept the default size hint, so adaptors
that compute their length from it, such as zip, panicked.
---
 serde_json_path_core/src/node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/node.rs b/serde_json_path_core/src/node.rs
index 3b9577e..a1f1f0f 100644
--- a/serde_json_path_core/src/node.rs
+++ b/serde_json_path_core/src/node.rs
@@ -550,6 +550,10 @@ impl<'a> Iterator for Locations<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.location())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Locations<'_> {
@@ -580,6 +584,10 @@ impl<'a> Iterator for Nodes<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.node())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Nodes<'_> {
-- 
2.43.0


From ddad3edb36b2b6e6e52354c6dbc668c69a3eace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 07/20] fix: do not swap expected and received number of
 function arguments

---
 serde_json_path_macros/src/internal/common/define.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 9902b8b..8dd5f06 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -78,8 +78,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
                     return #res::Err(#core::FunctionValidationError::NumberOfArgsMismatch {
-                        expected: a.len(),
-                        received: #args_len,
+                        expected: #args_len,
+                        received: a.len(),
                     });
                 }
                 #(#arg_checks)*
-- 
2.43.0


From df41e6837754caab7c94c535e9078f3107bf4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 08/20] fix: accept functions whose name begins with true,
 false or null

---
 serde_json_path/src/parser/primitive/mod.rs | 26 +++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/mod.rs b/serde_json_path/src/parser/primitive/mod.rs
index 01a0c90..ed7113c 100644
--- a/serde_json_path/src/parser/primitive/mod.rs
+++ b/serde_json_path/src/parser/primitive/mod.rs
@@ -1,4 +1,10 @@
-use nom::{branch::alt, bytes::complete::tag, combinator::value};
+use nom::{
+    branch::alt,
+    bytes::complete::tag,
+    character::complete::satisfy,
+    combinator::{not, value},
+    sequence::terminated,
+};
 
 use super::PResult;
 
@@ -6,14 +12,26 @@ pub(crate) mod int;
 pub(crate) mod number;
 pub(crate) mod string;
 
+/// Parse a keyword, which must not be the beginning, or the whole, of the name of a function
+fn parse_keyword(keyword: &'static str) -> impl Fn(&str) -> PResult<&str> {
+    move |input: &str| {
+        terminated(
+            tag(keyword),
+            not(satisfy(|c| {
+                c.is_ascii_alphanumeric() || c == '_' || c == '('
+            })),
+        )(input)
+    }
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_null(input: &str) -> PResult<()> {
-    value((), tag("null"))(input)
+    value((), parse_keyword("null"))(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_bool(input: &str) -> PResult<bool> {
-    let parse_true = value(true, tag("true"));
-    let parse_false = value(false, tag("false"));
+    let parse_true = value(true, parse_keyword("true"));
+    let parse_false = value(false, parse_keyword("false"));
     alt((parse_true, parse_false))(input)
 }
-- 
2.43.0


From a275c1c48be758d610a91efee6485dee8d201d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 09/20] fix: reject regular expressions that are only valid
 when wrapped in a group

match and search wrap the expression in parentheses, so that 'a)|(b' was
accepted, and for match escaped the anchors.
---
 serde_json_path/src/parser/selector/function/registry.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/registry.rs b/serde_json_path/src/parser/selector/function/registry.rs
index 8174ca3..2a7d278 100644
--- a/serde_json_path/src/parser/selector/function/registry.rs
+++ b/serde_json_path/src/parser/selector/function/registry.rs
@@ -57,7 +57,9 @@ fn count(nodes: NodesType) -> ValueType {
 fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)^({r})$").as_str())
+            // the expression needs to be valid in itself, e.g., unlike `a)|(b`
+            regex::Regex::new(format!("(?R){r}").as_str())
+                .and_then(|_| regex::Regex::new(format!("(?R)^({r})$").as_str()))
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
@@ -71,7 +73,7 @@ fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
 fn search(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)({r})").as_str())
+            regex::Regex::new(format!("(?R){r}").as_str())
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
-- 
2.43.0


From 61889533bf1d0a909997e1edd62d000ead2b63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 10/20] fix: do not take exponential time to parse nested
 filters

A query or function at the start of an expression was parsed once as the
left hand side of a comparison, and then again as an existence or function
test, at each level of nesting.
---
 serde_json_path/src/parser/selector/filter.rs | 67 +++++++++++++++----
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index 40c332c..b3e7fae 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,5 +1,5 @@
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{cut, map, map_res};
+use nom::combinator::{cut, map, map_res, peek};
 use nom::multi::separated_list1;
 use nom::sequence::{delimited, pair, preceded, separated_pair, tuple};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
@@ -16,7 +16,7 @@ use crate::parser::primitive::number::parse_number;
 use crate::parser::primitive::string::parse_string_literal;
 use crate::parser::primitive::{parse_bool, parse_null};
 use crate::parser::utils::uncut;
-use crate::parser::{parse_query, PResult};
+use crate::parser::{parse_query, Error, FromInternalError, PResult};
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_filter(input: &str) -> PResult<Filter> {
@@ -53,9 +53,23 @@ fn parse_exist_expr_inner(input: &str) -> PResult<ExistExpr> {
     map(parse_query, ExistExpr)(input)
 }
 
+/// Parse an expression that begins with a query, i.e., an existence expression, or a comparison
+///
+/// The query is parsed only once, since doing so for each of the two forms would take a time that
+/// is exponential in the depth of nested filters.
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_exist_expr(input: &str) -> PResult<BasicExpr> {
-    map(parse_exist_expr_inner, BasicExpr::Exist)(input)
+fn parse_exist_or_comp_expr(input: &str) -> PResult<BasicExpr> {
+    let (rest, query) = parse_query(input)?;
+    match parse_comp_expr_tail(rest) {
+        Ok((rest, (op, right))) => {
+            let left = SingularQuery::try_from(query)
+                .map(Comparable::SingularQuery)
+                .map_err(|e| nom::Err::Failure(Error::from_internal_error(input, e)))?;
+            let expr = ComparisonExpr { left, op, right };
+            Ok((rest, BasicExpr::Relation(expr)))
+        }
+        Err(_) => Ok((rest, BasicExpr::Exist(ExistExpr(query)))),
+    }
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
@@ -74,9 +88,27 @@ fn parse_func_expr_inner(input: &str) -> PResult<FunctionExpr<Validated>> {
     }))(input)
 }
 
+/// Parse an expression that begins with a function, i.e., a function expression, or a comparison
+///
+/// The function is parsed only once, since doing so for each of the two forms would take a time
+/// that is exponential in the depth of nested functions.
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_func_expr(input: &str) -> PResult<BasicExpr> {
-    map(parse_func_expr_inner, BasicExpr::FuncExpr)(input)
+fn parse_func_or_comp_expr(input: &str) -> PResult<BasicExpr> {
+    let (rest, fe) = parse_function_expr(input)?;
+    match fe.return_type {
+        FunctionArgType::Logical | FunctionArgType::Nodelist => Ok((rest, BasicExpr::FuncExpr(fe))),
+        _ => match parse_comp_expr_tail(rest) {
+            Ok((rest, (op, right))) => {
+                let left = Comparable::FunctionExpr(fe);
+                let expr = ComparisonExpr { left, op, right };
+                Ok((rest, BasicExpr::Relation(expr)))
+            }
+            Err(_) => Err(nom::Err::Failure(Error::from_internal_error(
+                input,
+                FunctionValidationError::IncorrectFunctionReturnType,
+            ))),
+        },
+    }
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
@@ -114,26 +146,33 @@ fn parse_basic_expr(input: &str) -> PResult<BasicExpr> {
     alt((
         parse_not_parent_expr,
         parse_paren_expr,
-        map(parse_comp_expr, BasicExpr::Relation),
+        map(
+            preceded(peek(parse_literal), parse_comp_expr),
+            BasicExpr::Relation,
+        ),
         parse_not_exist_expr,
-        parse_exist_expr,
+        parse_exist_or_comp_expr,
         parse_not_func_expr,
-        parse_func_expr,
+        parse_func_or_comp_expr,
     ))(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_comp_expr(input: &str) -> PResult<ComparisonExpr> {
     map(
-        separated_pair(
-            parse_comparable,
-            multispace0,
-            separated_pair(parse_comparison_operator, multispace0, parse_comparable),
-        ),
+        pair(parse_comparable, parse_comp_expr_tail),
         |(left, (op, right))| ComparisonExpr { left, op, right },
     )(input)
 }
 
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_comp_expr_tail(input: &str) -> PResult<(ComparisonOperator, Comparable)> {
+    preceded(
+        multispace0,
+        separated_pair(parse_comparison_operator, multispace0, parse_comparable),
+    )(input)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_comparison_operator(input: &str) -> PResult<ComparisonOperator> {
     alt((
-- 
2.43.0


From fbb930a708d067703a39bea5c43036ec3e1e9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 11/20] fix: accept logical expressions as function arguments

The alternative for logical expressions could not be reached, since the
preceding ones either took the first operand of the expression on its own,
or failed for good on an operand that was not a function.
---
 serde_json_path/src/parser/selector/filter.rs | 84 +++++++++++++++----
 .../src/parser/selector/function/mod.rs       | 20 +++--
 2 files changed, 78 insertions(+), 26 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index b3e7fae..39bf470 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,10 +1,10 @@
 use nom::character::complete::{char, multispace0};
 use nom::combinator::{cut, map, map_res, peek};
-use nom::multi::separated_list1;
-use nom::sequence::{delimited, pair, preceded, separated_pair, tuple};
+use nom::multi::{many0, separated_list1};
+use nom::sequence::{delimited, pair, preceded, separated_pair};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
 use serde_json_path_core::spec::functions::{
-    FunctionArgType, FunctionExpr, FunctionValidationError, Validated,
+    FunctionArgType, FunctionExpr, FunctionExprArg, FunctionValidationError, Validated,
 };
 use serde_json_path_core::spec::selector::filter::{
     BasicExpr, Comparable, ComparisonExpr, ComparisonOperator, ExistExpr, Filter, Literal,
@@ -26,24 +26,26 @@ pub(crate) fn parse_filter(input: &str) -> PResult<Filter> {
     )(input)
 }
 
+fn parse_and_operator(input: &str) -> PResult<&str> {
+    delimited(multispace0, tag("&&"), multispace0)(input)
+}
+
+fn parse_or_operator(input: &str) -> PResult<&str> {
+    delimited(multispace0, tag("||"), multispace0)(input)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_logical_and(input: &str) -> PResult<LogicalAndExpr> {
     map(
-        separated_list1(
-            tuple((multispace0, tag("&&"), multispace0)),
-            parse_basic_expr,
-        ),
+        separated_list1(parse_and_operator, parse_basic_expr),
         LogicalAndExpr,
     )(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-pub(crate) fn parse_logical_or_expr(input: &str) -> PResult<LogicalOrExpr> {
+fn parse_logical_or_expr(input: &str) -> PResult<LogicalOrExpr> {
     map(
-        separated_list1(
-            tuple((multispace0, tag("||"), multispace0)),
-            parse_logical_and,
-        ),
+        separated_list1(parse_or_operator, parse_logical_and),
         LogicalOrExpr,
     )(input)
 }
@@ -103,14 +105,26 @@ fn parse_func_or_comp_expr(input: &str) -> PResult<BasicExpr> {
                 let expr = ComparisonExpr { left, op, right };
                 Ok((rest, BasicExpr::Relation(expr)))
             }
-            Err(_) => Err(nom::Err::Failure(Error::from_internal_error(
-                input,
-                FunctionValidationError::IncorrectFunctionReturnType,
-            ))),
+            Err(_) => Ok((rest, BasicExpr::FuncExpr(fe))),
         },
     }
 }
 
+/// A function expression that is not part of a comparison can not return a value, unless it is the
+/// argument to another function
+fn check_test_expr(input: &str, expr: BasicExpr) -> Result<BasicExpr, nom::Err<Error<&str>>> {
+    match expr {
+        BasicExpr::FuncExpr(FunctionExpr {
+            return_type: FunctionArgType::Value,
+            ..
+        }) => Err(nom::Err::Failure(Error::from_internal_error(
+            input,
+            FunctionValidationError::IncorrectFunctionReturnType,
+        ))),
+        expr => Ok(expr),
+    }
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_not_func_expr(input: &str) -> PResult<BasicExpr> {
     map(
@@ -143,6 +157,40 @@ fn parse_not_parent_expr(input: &str) -> PResult<BasicExpr> {
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_basic_expr(input: &str) -> PResult<BasicExpr> {
+    let (rest, expr) = parse_basic_expr_or_func(input)?;
+    Ok((rest, check_test_expr(input, expr)?))
+}
+
+/// Parse an argument of a function, other than a literal
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+pub(crate) fn parse_expr_argument(input: &str) -> PResult<FunctionExprArg> {
+    let (rest, first) = parse_basic_expr_or_func(input)?;
+    let (rest, ands) = many0(preceded(parse_and_operator, parse_basic_expr))(rest)?;
+    let (rest, ors) = many0(preceded(parse_or_operator, parse_logical_and))(rest)?;
+    let arg = match first {
+        BasicExpr::Exist(ExistExpr(query)) if ands.is_empty() && ors.is_empty() => {
+            match SingularQuery::try_from(query.clone()) {
+                Ok(singular) => FunctionExprArg::SingularQuery(singular),
+                Err(_) => FunctionExprArg::FilterQuery(query),
+            }
+        }
+        BasicExpr::FuncExpr(func) if ands.is_empty() && ors.is_empty() => {
+            FunctionExprArg::FunctionExpr(func)
+        }
+        first => {
+            let mut and = vec![check_test_expr(input, first)?];
+            and.extend(ands);
+            let mut or = vec![LogicalAndExpr(and)];
+            or.extend(ors);
+            FunctionExprArg::LogicalExpr(LogicalOrExpr(or))
+        }
+    };
+    Ok((rest, arg))
+}
+
+/// Parse a basic expression, or a function that returns a value
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_basic_expr_or_func(input: &str) -> PResult<BasicExpr> {
     alt((
         parse_not_parent_expr,
         parse_paren_expr,
@@ -174,7 +222,7 @@ fn parse_comp_expr_tail(input: &str) -> PResult<(ComparisonOperator, Comparable)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_comparison_operator(input: &str) -> PResult<ComparisonOperator> {
+pub(crate) fn parse_comparison_operator(input: &str) -> PResult<ComparisonOperator> {
     alt((
         value(ComparisonOperator::EqualTo, tag("==")),
         value(ComparisonOperator::NotEqualTo, tag("!=")),
@@ -201,7 +249,7 @@ fn parse_literal_comparable(input: &str) -> PResult<Comparable> {
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-pub(crate) fn parse_singular_path(input: &str) -> PResult<SingularQuery> {
+fn parse_singular_path(input: &str) -> PResult<SingularQuery> {
     map_res(parse_query, |q| q.try_into())(input)
 }
 
diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index c8d046c..d1dad59 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
 use nom::character::complete::char;
-use nom::combinator::{cut, map_res};
+use nom::combinator::{cut, map_res, not};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -15,11 +15,11 @@ use serde_json_path_core::spec::functions::{
 
 pub(crate) mod registry;
 
-use crate::parser::{parse_query, PResult};
+use crate::parser::PResult;
 
 use self::registry::REGISTRY;
 
-use super::filter::{parse_literal, parse_logical_or_expr, parse_singular_path};
+use super::filter::{parse_comparison_operator, parse_expr_argument, parse_literal};
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_name_first(input: &str) -> PResult<char> {
@@ -56,11 +56,15 @@ fn parse_function_name(input: &str) -> PResult<String> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
     alt((
-        map(parse_literal, FunctionExprArg::Literal),
-        map(parse_singular_path, FunctionExprArg::SingularQuery),
-        map(parse_query, FunctionExprArg::FilterQuery),
-        map(parse_function_expr, FunctionExprArg::FunctionExpr),
-        map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
+        map(
+            terminated(
+                parse_literal,
+                // otherwise, the literal is part of a logical expression
+                not(pair(multispace0, parse_comparison_operator)),
+            ),
+            FunctionExprArg::Literal,
+        ),
+        parse_expr_argument,
     ))(input)
 }
 
-- 
2.43.0


From d534a505bf246d3f35c32c485f37005f3df81160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 12/20] fix: accept function expressions without arguments

---
 serde_json_path/src/parser/selector/function/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index d1dad59..29ed679 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -77,7 +77,7 @@ pub(crate) fn parse_function_expr(input: &str) -> PResult<FunctionExpr<Validated
                 terminated(char('('), multispace0),
                 separated_list0(
                     delimited(multispace0, char(','), multispace0),
-                    parse_function_argument,
+                    preceded(not(char(')')), parse_function_argument),
                 ),
                 preceded(multispace0, char(')')),
             ),
-- 
2.43.0


From 1d4e86170565a3447552a35e28233fca0eb30a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 13/20] fix: do not treat && and ~~ as operators in the
 character classes of regular expressions

---
 .../src/parser/selector/function/registry.rs           | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/serde_json_path/src/parser/selector/function/registry.rs b/serde_json_path/src/parser/selector/function/registry.rs
index 2a7d278..3aaae94 100644
--- a/serde_json_path/src/parser/selector/function/registry.rs
+++ b/serde_json_path/src/parser/selector/function/registry.rs
@@ -52,11 +52,20 @@ fn count(nodes: NodesType) -> ValueType {
     nodes.len().into()
 }
 
+/// Escape what is an operator in character classes for the regex crate, but not for I-Regexp
+///
+/// See [RFC 9485](https://www.rfc-editor.org/rfc/rfc9485.html), where neither `&` nor `~` is special.
+#[cfg(feature = "regex")]
+fn escape_class_operators(r: &str) -> String {
+    r.replace("&&", r"&\&").replace("~~", r"~\~")
+}
+
 #[cfg(feature = "regex")]
 #[serde_json_path_macros::register(name = "match", target = MATCH_FUNC)]
 fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
+            let r = escape_class_operators(r);
             // the expression needs to be valid in itself, e.g., unlike `a)|(b`
             regex::Regex::new(format!("(?R){r}").as_str())
                 .and_then(|_| regex::Regex::new(format!("(?R)^({r})$").as_str()))
@@ -73,6 +82,7 @@ fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
 fn search(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
+            let r = escape_class_operators(r);
             regex::Regex::new(format!("(?R){r}").as_str())
                 .map(|r| r.is_match(s))
                 .map(Into::into)
-- 
2.43.0


From c24dfe54b97af55af3bc6cbe5b21b6380aeb13c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 14/20] fix: do not mix up identifiers of custom functions with
 those of their evaluators

---
 .../src/internal/common/define.rs             | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 8dd5f06..7ee9a9a 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -1,5 +1,5 @@
-use proc_macro2::{Ident, TokenStream};
-use quote::quote;
+use proc_macro2::{Ident, Span, TokenStream};
+use quote::{format_ident, quote};
 use syn::{ItemFn, LitStr};
 
 use crate::common::extract::FnArgument;
@@ -87,24 +87,25 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             })
         });
     };
+    // The identifiers used in the evaluator are hygienic, so that they do not collide with the name
+    // of the function, nor with the names of its arguments:
+    let values = Ident::new("v", Span::mixed_site());
+    let arg_names: Vec<Ident> = (0..args_len)
+        .map(|idx| format_ident!("arg_{idx}", span = Span::mixed_site()))
+        .collect();
     // Generate the code to declare each individual argument for evaluation, at query time:
-    let arg_declarations = args.iter().map(|arg| {
-        let FnArgument { ident, ty } = arg;
+    let arg_declarations = args.iter().zip(&arg_names).map(|(arg, arg_name)| {
+        let FnArgument { ident: _, ty } = arg;
         // validation should ensure unwrap is okay here:
         quote! {
-            let #ident = #ty::try_from(v.pop_front().unwrap()).unwrap();
+            let #arg_name = #ty::try_from(#values.pop_front().unwrap()).unwrap();
         }
     });
-    // Produce the argument name identifiers:
-    let arg_names = args.iter().map(|arg| {
-        let FnArgument { ident, ty: _ } = arg;
-        ident
-    });
     // Generate the evaluator function used to evaluate a function at query time:
     let evaluator = quote! {
         fn #name #generics (#inputs) #ret #block
         static #evaluator_name: #core::Evaluator = #lazy::new(|| {
-            std::boxed::Box::new(|mut v: std::collections::VecDeque<#core::JsonPathValue>| {
+            std::boxed::Box::new(|mut #values: std::collections::VecDeque<#core::JsonPathValue>| {
                 #(#arg_declarations)*
                 return #name(#(#arg_names,)*).into()
             })
-- 
2.43.0


From 0840f9eaba70d98a9e650eced3c56d844434a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 15/20] fix: report what is wrong with the operands of a
 comparison

An error on the right side of a comparison was dropped, and so was that of a function on the left
whose result can not be compared. The message was then that of an unfinished filter.
---
 serde_json_path/src/parser/selector/filter.rs | 73 +++++++++++--------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index 39bf470..dbefa95 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,7 +1,7 @@
 use nom::character::complete::{char, multispace0};
 use nom::combinator::{cut, map, map_res, peek};
 use nom::multi::{many0, separated_list1};
-use nom::sequence::{delimited, pair, preceded, separated_pair};
+use nom::sequence::{delimited, pair, preceded, tuple};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
 use serde_json_path_core::spec::functions::{
     FunctionArgType, FunctionExpr, FunctionExprArg, FunctionValidationError, Validated,
@@ -62,16 +62,17 @@ fn parse_exist_expr_inner(input: &str) -> PResult<ExistExpr> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_exist_or_comp_expr(input: &str) -> PResult<BasicExpr> {
     let (rest, query) = parse_query(input)?;
-    match parse_comp_expr_tail(rest) {
-        Ok((rest, (op, right))) => {
-            let left = SingularQuery::try_from(query)
-                .map(Comparable::SingularQuery)
-                .map_err(|e| nom::Err::Failure(Error::from_internal_error(input, e)))?;
-            let expr = ComparisonExpr { left, op, right };
-            Ok((rest, BasicExpr::Relation(expr)))
-        }
-        Err(_) => Ok((rest, BasicExpr::Exist(ExistExpr(query)))),
-    }
+    let Ok((rest, op)) = parse_operator_and_spaces(rest) else {
+        return Ok((rest, BasicExpr::Exist(ExistExpr(query))));
+    };
+    let left = SingularQuery::try_from(query)
+        .map(Comparable::SingularQuery)
+        .map_err(|e| nom::Err::Failure(Error::from_internal_error(input, e)))?;
+    let (rest, right) = cut(parse_comparable)(rest)?;
+    Ok((
+        rest,
+        BasicExpr::Relation(ComparisonExpr { left, op, right }),
+    ))
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
@@ -97,17 +98,23 @@ fn parse_func_expr_inner(input: &str) -> PResult<FunctionExpr<Validated>> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_func_or_comp_expr(input: &str) -> PResult<BasicExpr> {
     let (rest, fe) = parse_function_expr(input)?;
-    match fe.return_type {
-        FunctionArgType::Logical | FunctionArgType::Nodelist => Ok((rest, BasicExpr::FuncExpr(fe))),
-        _ => match parse_comp_expr_tail(rest) {
-            Ok((rest, (op, right))) => {
-                let left = Comparable::FunctionExpr(fe);
-                let expr = ComparisonExpr { left, op, right };
-                Ok((rest, BasicExpr::Relation(expr)))
-            }
-            Err(_) => Ok((rest, BasicExpr::FuncExpr(fe))),
-        },
-    }
+    let Ok((rest, op)) = parse_operator_and_spaces(rest) else {
+        return Ok((rest, BasicExpr::FuncExpr(fe)));
+    };
+    let left = match fe.return_type {
+        FunctionArgType::Logical | FunctionArgType::Nodelist => {
+            return Err(nom::Err::Failure(Error::from_internal_error(
+                input,
+                FunctionValidationError::IncorrectFunctionReturnType,
+            )))
+        }
+        _ => Comparable::FunctionExpr(fe),
+    };
+    let (rest, right) = cut(parse_comparable)(rest)?;
+    Ok((
+        rest,
+        BasicExpr::Relation(ComparisonExpr { left, op, right }),
+    ))
 }
 
 /// A function expression that is not part of a comparison can not return a value, unless it is the
@@ -165,6 +172,10 @@ fn parse_basic_expr(input: &str) -> PResult<BasicExpr> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_expr_argument(input: &str) -> PResult<FunctionExprArg> {
     let (rest, first) = parse_basic_expr_or_func(input)?;
+    let first = match alt((parse_and_operator, parse_or_operator))(rest) {
+        Ok(_) => check_test_expr(input, first)?,
+        Err(_) => first,
+    };
     let (rest, ands) = many0(preceded(parse_and_operator, parse_basic_expr))(rest)?;
     let (rest, ors) = many0(preceded(parse_or_operator, parse_logical_and))(rest)?;
     let arg = match first {
@@ -178,7 +189,7 @@ pub(crate) fn parse_expr_argument(input: &str) -> PResult<FunctionExprArg> {
             FunctionExprArg::FunctionExpr(func)
         }
         first => {
-            let mut and = vec![check_test_expr(input, first)?];
+            let mut and = vec![first];
             and.extend(ands);
             let mut or = vec![LogicalAndExpr(and)];
             or.extend(ors);
@@ -208,17 +219,19 @@ fn parse_basic_expr_or_func(input: &str) -> PResult<BasicExpr> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_comp_expr(input: &str) -> PResult<ComparisonExpr> {
     map(
-        pair(parse_comparable, parse_comp_expr_tail),
-        |(left, (op, right))| ComparisonExpr { left, op, right },
+        tuple((
+            parse_comparable,
+            parse_operator_and_spaces,
+            // nothing but a comparable can follow, so report what is wrong with it
+            cut(parse_comparable),
+        )),
+        |(left, op, right)| ComparisonExpr { left, op, right },
     )(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_comp_expr_tail(input: &str) -> PResult<(ComparisonOperator, Comparable)> {
-    preceded(
-        multispace0,
-        separated_pair(parse_comparison_operator, multispace0, parse_comparable),
-    )(input)
+fn parse_operator_and_spaces(input: &str) -> PResult<ComparisonOperator> {
+    delimited(multispace0, parse_comparison_operator, multispace0)(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-- 
2.43.0


From d908cfbb9e61583706e7af8634450558a9ac0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 16/20] fix: remove the names of macro arguments, which are not
 read any more

Since the evaluators use identifiers of their own (c24dfe5), the compiler warns of the field.
---
 .../src/internal/common/define.rs               |  4 ++--
 .../src/internal/common/extract.rs              | 17 +++--------------
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 7ee9a9a..db5b094 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -55,7 +55,7 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
     };
     // Generate code for checking each individual argument in a query at parse time:
     let arg_checks = args.iter().enumerate().map(|(idx, arg)| {
-        let FnArgument { ident: _, ty } = arg;
+        let FnArgument { ty } = arg;
         quote! {
             match a[#idx].as_type_kind() {
                 #res::Ok(tk) => {
@@ -95,7 +95,7 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
         .collect();
     // Generate the code to declare each individual argument for evaluation, at query time:
     let arg_declarations = args.iter().zip(&arg_names).map(|(arg, arg_name)| {
-        let FnArgument { ident: _, ty } = arg;
+        let FnArgument { ty } = arg;
         // validation should ensure unwrap is okay here:
         quote! {
             let #arg_name = #ty::try_from(#values.pop_front().unwrap()).unwrap();
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index 1e6344f..b889032 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -19,18 +19,9 @@ pub struct Components {
 }
 
 pub struct FnArgument {
-    pub ident: Ident,
     pub ty: TokenStream,
 }
 
-fn extract_pat_ident(pat: &Pat) -> Option<Ident> {
-    if let Pat::Ident(ref pat_ident) = pat {
-        Some(pat_ident.ident.to_owned())
-    } else {
-        None
-    }
-}
-
 fn extract_type_path(ty: &Type) -> Option<&Path> {
     match ty {
         Type::Path(ref typepath) if typepath.qself.is_none() => Some(&typepath.path),
@@ -109,14 +100,12 @@ pub fn extract_components(input: Signature) -> Result<Components> {
                 colon_token: _,
                 ty,
             }) => {
-                let ident = if let Some(id) = extract_pat_ident(pat) {
-                    id
-                } else {
+                if !matches!(**pat, Pat::Ident(_)) {
                     return Err(Error::new(
                         pat.span(),
                         "expected identifier in function argument",
                     ));
-                };
+                }
                 let ty = if let Some(path) = extract_type_path(ty) {
                     extract_json_path_type(path)?
                 } else {
@@ -126,7 +115,7 @@ pub fn extract_components(input: Signature) -> Result<Components> {
                                 ValueType, or LogicalType",
                     ));
                 };
-                Ok(FnArgument { ident, ty })
+                Ok(FnArgument { ty })
             }
         })
         .collect();
-- 
2.43.0


From fe1e2304285959c313f82aafacdfa266783bb6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 17/20] fix: do not require users of the function attribute to
 depend on serde_json_path_macros

---
 serde_json_path/src/lib.rs                         |  5 +++++
 .../src/internal/common/define.rs                  | 12 +++++++++---
 .../src/internal/common/extract.rs                 | 14 +++++++-------
 serde_json_path_macros/src/internal/func/define.rs |  9 +++++++--
 serde_json_path_macros/src/internal/reg/define.rs  |  6 +++++-
 5 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/serde_json_path/src/lib.rs b/serde_json_path/src/lib.rs
index 2f4b4a6..5546724 100644
--- a/serde_json_path/src/lib.rs
+++ b/serde_json_path/src/lib.rs
@@ -488,3 +488,8 @@ pub use serde_json_path_core::spec::functions;
 #[doc(inline)]
 #[cfg(feature = "functions")]
 pub use serde_json_path_macros::function;
+
+// Used by the code that the `#[function]` macro generates:
+#[doc(hidden)]
+#[cfg(feature = "functions")]
+pub use serde_json_path_macros as __private;
diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index db5b094..1a6ea90 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -18,7 +18,13 @@ pub(crate) struct Expanded {
 
 /// Expand the macro input to produce the common elements used in the `#[function]` and
 /// `#[register]` macros.
-pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded, TokenStream> {
+///
+/// The `root` is the path of the `serde_json_path_macros` crate where the macro is used.
+pub(crate) fn expand(
+    input: ItemFn,
+    name_str: Option<LitStr>,
+    root: &TokenStream,
+) -> Result<Expanded, TokenStream> {
     let ItemFn {
         attrs: _,
         vis: _,
@@ -35,7 +41,7 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
         args,
         ret,
         inputs,
-    } = match extract_components(sig) {
+    } = match extract_components(sig, root) {
         Ok(fd) => fd,
         Err(e) => return Err(e.into_compile_error()),
     };
@@ -48,7 +54,7 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
         std::sync::LazyLock
     };
     let core = quote! {
-        ::serde_json_path_macros::serde_json_path_core::spec::functions
+        #root::serde_json_path_core::spec::functions
     };
     let res = quote! {
         std::result::Result
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index b889032..8bca9ad 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -33,20 +33,20 @@ fn extract_type_path(ty: &Type) -> Option<&Path> {
     }
 }
 
-fn extract_json_path_type(p: &Path) -> Result<TokenStream> {
+fn extract_json_path_type(p: &Path, root: &TokenStream) -> Result<TokenStream> {
     let p_seg = p
         .segments
         .last()
         .ok_or_else(|| Error::new(p.span(), "expected a type identifier"))?;
     let ts = match p_seg.ident.to_string().as_str() {
         "NodesType" => quote! {
-            ::serde_json_path_macros::serde_json_path_core::spec::functions::NodesType
+            #root::serde_json_path_core::spec::functions::NodesType
         },
         "ValueType" => quote! {
-            ::serde_json_path_macros::serde_json_path_core::spec::functions::ValueType
+            #root::serde_json_path_core::spec::functions::ValueType
         },
         "LogicalType" => quote! {
-            ::serde_json_path_macros::serde_json_path_core::spec::functions::LogicalType
+            #root::serde_json_path_core::spec::functions::LogicalType
         },
         other => {
             return Err(Error::new(
@@ -61,7 +61,7 @@ fn extract_json_path_type(p: &Path) -> Result<TokenStream> {
     Ok(ts)
 }
 
-pub fn extract_components(input: Signature) -> Result<Components> {
+pub fn extract_components(input: Signature, root: &TokenStream) -> Result<Components> {
     let name = input.ident.clone();
     let generics = input.generics.clone();
     let inputs = input.inputs.clone();
@@ -76,7 +76,7 @@ pub fn extract_components(input: Signature) -> Result<Components> {
         }
         ReturnType::Type(_, ty) => {
             if let Some(path) = extract_type_path(ty.as_ref()) {
-                extract_json_path_type(path)?
+                extract_json_path_type(path, root)?
             } else {
                 return Err(Error::new(
                     ty.span(),
@@ -107,7 +107,7 @@ pub fn extract_components(input: Signature) -> Result<Components> {
                     ));
                 }
                 let ty = if let Some(path) = extract_type_path(ty) {
-                    extract_json_path_type(path)?
+                    extract_json_path_type(path, root)?
                 } else {
                     return Err(Error::new(
                         ty.span(),
diff --git a/serde_json_path_macros/src/internal/func/define.rs b/serde_json_path_macros/src/internal/func/define.rs
index f304dbc..aeaa14a 100644
--- a/serde_json_path_macros/src/internal/func/define.rs
+++ b/serde_json_path_macros/src/internal/func/define.rs
@@ -7,6 +7,11 @@ use crate::common::{self, define::Expanded};
 use super::args::FunctionMacroArgs;
 
 pub(crate) fn expand(attrs: FunctionMacroArgs, input: ItemFn) -> TokenStream {
+    // those who use the macro depend on `serde_json_path`, but not necessarily on its macros crate:
+    let root = quote! {
+        ::serde_json_path::__private
+    };
+
     let Expanded {
         name_str,
         validator,
@@ -15,13 +20,13 @@ pub(crate) fn expand(attrs: FunctionMacroArgs, input: ItemFn) -> TokenStream {
         evaluator_name,
         result,
         core,
-    } = match common::define::expand(input, attrs.name) {
+    } = match common::define::expand(input, attrs.name, &root) {
         Ok(exp) => exp,
         Err(err) => return err.into(),
     };
 
     let inventory = quote! {
-        ::serde_json_path_macros::inventory
+        #root::inventory
     };
 
     TokenStream::from(quote! {
diff --git a/serde_json_path_macros/src/internal/reg/define.rs b/serde_json_path_macros/src/internal/reg/define.rs
index 46f3155..b7ac954 100644
--- a/serde_json_path_macros/src/internal/reg/define.rs
+++ b/serde_json_path_macros/src/internal/reg/define.rs
@@ -9,6 +9,10 @@ use super::args::RegisterMacroArgs;
 pub(crate) fn expand(attrs: RegisterMacroArgs, input: ItemFn) -> TokenStream {
     let RegisterMacroArgs { name, target } = attrs;
 
+    let root = quote! {
+        ::serde_json_path_macros
+    };
+
     let Expanded {
         name_str,
         validator,
@@ -17,7 +21,7 @@ pub(crate) fn expand(attrs: RegisterMacroArgs, input: ItemFn) -> TokenStream {
         evaluator_name,
         result,
         core,
-    } = match common::define::expand(input, name) {
+    } = match common::define::expand(input, name, &root) {
         Ok(exp) => exp,
         Err(err) => return err.into(),
     };
-- 
2.43.0


From d55ff44bed598014db7b01c5f71075885107ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 18/20] fix: leave a function that is registered as it was
 declared

---
 .../src/internal/common/define.rs             | 14 ++-----------
 .../src/internal/common/extract.rs            | 21 ++++++-------------
 2 files changed, 8 insertions(+), 27 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 1a6ea90..937da42 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -25,23 +25,13 @@ pub(crate) fn expand(
     name_str: Option<LitStr>,
     root: &TokenStream,
 ) -> Result<Expanded, TokenStream> {
-    let ItemFn {
-        attrs: _,
-        vis: _,
-        sig,
-        block,
-    } = input;
-
     let Components {
         name,
-        generics,
         validator_name,
         evaluator_name,
         result,
         args,
-        ret,
-        inputs,
-    } = match extract_components(sig, root) {
+    } = match extract_components(&input.sig, root) {
         Ok(fd) => fd,
         Err(e) => return Err(e.into_compile_error()),
     };
@@ -109,7 +99,7 @@ pub(crate) fn expand(
     });
     // Generate the evaluator function used to evaluate a function at query time:
     let evaluator = quote! {
-        fn #name #generics (#inputs) #ret #block
+        #input
         static #evaluator_name: #core::Evaluator = #lazy::new(|| {
             std::boxed::Box::new(|mut #values: std::collections::VecDeque<#core::JsonPathValue>| {
                 #(#arg_declarations)*
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index 8bca9ad..72aafcf 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -3,18 +3,14 @@ use std::collections::VecDeque;
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 use syn::{
-    punctuated::Punctuated, spanned::Spanned, token::Comma, Error, FnArg, Generics, Pat, PatType,
-    Path, Result, ReturnType, Signature, Type,
+    spanned::Spanned, Error, FnArg, Pat, PatType, Path, Result, ReturnType, Signature, Type,
 };
 
 pub struct Components {
     pub name: Ident,
-    pub generics: Generics,
     pub validator_name: Ident,
     pub evaluator_name: Ident,
     pub result: TokenStream,
-    pub ret: ReturnType,
-    pub inputs: Punctuated<FnArg, Comma>,
     pub args: VecDeque<FnArgument>,
 }
 
@@ -61,13 +57,10 @@ fn extract_json_path_type(p: &Path, root: &TokenStream) -> Result<TokenStream> {
     Ok(ts)
 }
 
-pub fn extract_components(input: Signature, root: &TokenStream) -> Result<Components> {
+pub fn extract_components(input: &Signature, root: &TokenStream) -> Result<Components> {
     let name = input.ident.clone();
-    let generics = input.generics.clone();
-    let inputs = input.inputs.clone();
-    let ret = input.output.clone();
 
-    let result = match &ret {
+    let result = match &input.output {
         ReturnType::Default => {
             return Err(Error::new(
                 input.span(),
@@ -87,11 +80,12 @@ pub fn extract_components(input: Signature, root: &TokenStream) -> Result<Compon
         }
     };
 
-    let args: Result<VecDeque<FnArgument>> = inputs
+    let args: Result<VecDeque<FnArgument>> = input
+        .inputs
         .iter()
         .map(|i| match i {
             FnArg::Receiver(_) => Err(Error::new(
-                inputs.span(),
+                input.inputs.span(),
                 "receiver arguments like self, &self, or &mut self are not supported",
             )),
             FnArg::Typed(PatType {
@@ -132,10 +126,7 @@ pub fn extract_components(input: Signature, root: &TokenStream) -> Result<Compon
 
     Ok(Components {
         name,
-        generics,
         result,
-        inputs,
-        ret,
         args,
         validator_name,
         evaluator_name,
-- 
2.43.0


From 9d5a252f2703524964fb37d760732bae68b693ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 19/20] fix: do not let the names in scope matter to functions
 that are registered

---
 .../src/internal/common/define.rs             | 21 ++++++++++---------
 .../src/internal/common/extract.rs            | 11 +++++++---
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 937da42..7abe4cb 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote};
-use syn::{ItemFn, LitStr};
+use syn::{ext::IdentExt, ItemFn, LitStr};
 
 use crate::common::extract::FnArgument;
 
@@ -36,18 +36,19 @@ pub(crate) fn expand(
         Err(e) => return Err(e.into_compile_error()),
     };
     // Stringified name of the function:
-    let name_str = name_str.unwrap_or_else(|| LitStr::new(name.to_string().as_str(), name.span()));
+    let name_str =
+        name_str.unwrap_or_else(|| LitStr::new(name.unraw().to_string().as_str(), name.span()));
     // The number of arguments the function accepts:
     let args_len = args.len();
     // Generate token streams for some needed types:
     let lazy = quote! {
-        std::sync::LazyLock
+        ::std::sync::LazyLock
     };
     let core = quote! {
         #root::serde_json_path_core::spec::functions
     };
     let res = quote! {
-        std::result::Result
+        ::std::result::Result
     };
     // Generate code for checking each individual argument in a query at parse time:
     let arg_checks = args.iter().enumerate().map(|(idx, arg)| {
@@ -57,7 +58,7 @@ pub(crate) fn expand(
                 #res::Ok(tk) => {
                     if !tk.converts_to(#ty::json_path_type()) {
                         return #res::Err(#core::FunctionValidationError::MismatchTypeKind {
-                            name: String::from(#name_str),
+                            name: ::std::string::String::from(#name_str),
                             expected: #ty::json_path_type(),
                             received: tk,
                             position: #idx,
@@ -71,7 +72,7 @@ pub(crate) fn expand(
     // Generate the validator function used at parse time to validate a function declaration:
     let validator = quote! {
         static #validator_name: #core::Validator = #lazy::new(|| {
-            std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
+            ::std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
                     return #res::Err(#core::FunctionValidationError::NumberOfArgsMismatch {
                         expected: #args_len,
@@ -79,7 +80,7 @@ pub(crate) fn expand(
                     });
                 }
                 #(#arg_checks)*
-                Ok(())
+                #res::Ok(())
             })
         });
     };
@@ -94,16 +95,16 @@ pub(crate) fn expand(
         let FnArgument { ty } = arg;
         // validation should ensure unwrap is okay here:
         quote! {
-            let #arg_name = #ty::try_from(#values.pop_front().unwrap()).unwrap();
+            let #arg_name = <#ty as ::std::convert::TryFrom<_>>::try_from(#values.pop_front().unwrap()).unwrap();
         }
     });
     // Generate the evaluator function used to evaluate a function at query time:
     let evaluator = quote! {
         #input
         static #evaluator_name: #core::Evaluator = #lazy::new(|| {
-            std::boxed::Box::new(|mut #values: std::collections::VecDeque<#core::JsonPathValue>| {
+            ::std::boxed::Box::new(|mut #values: ::std::collections::VecDeque<#core::JsonPathValue>| {
                 #(#arg_declarations)*
-                return #name(#(#arg_names,)*).into()
+                return ::std::convert::Into::into(#name(#(#arg_names,)*))
             })
         });
     };
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index 72aafcf..d3a6a96 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -3,7 +3,8 @@ use std::collections::VecDeque;
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 use syn::{
-    spanned::Spanned, Error, FnArg, Pat, PatType, Path, Result, ReturnType, Signature, Type,
+    ext::IdentExt, spanned::Spanned, Error, FnArg, Pat, PatType, Path, Result, ReturnType,
+    Signature, Type,
 };
 
 pub struct Components {
@@ -116,11 +117,15 @@ pub fn extract_components(input: &Signature, root: &TokenStream) -> Result<Compo
 
     let args = args?;
     let validator_name = Ident::new(
-        format!("{name}_validator").to_uppercase().as_str(),
+        format!("{name}_validator", name = name.unraw())
+            .to_uppercase()
+            .as_str(),
         name.span(),
     );
     let evaluator_name = Ident::new(
-        format!("{name}_evaluator").to_uppercase().as_str(),
+        format!("{name}_evaluator", name = name.unraw())
+            .to_uppercase()
+            .as_str(),
         name.span(),
     );
 
-- 
2.43.0


From 1af0504aab88263e625a70722a29fd27bb610d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 20/20] fix: accept types in parentheses and types from
 macro_rules fragments in registered functions

---
 serde_json_path_macros/src/internal/common/extract.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index d3a6a96..5be6f3a 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -4,7 +4,7 @@ use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 use syn::{
     ext::IdentExt, spanned::Spanned, Error, FnArg, Pat, PatType, Path, Result, ReturnType,
-    Signature, Type,
+    Signature, Type, TypeGroup, TypeParen,
 };
 
 pub struct Components {
@@ -21,6 +21,10 @@ pub struct FnArgument {
 
 fn extract_type_path(ty: &Type) -> Option<&Path> {
     match ty {
+        // parenthesized, or passed through a `macro_rules!` macro as a fragment:
+        Type::Paren(TypeParen { ref elem, .. }) | Type::Group(TypeGroup { ref elem, .. }) => {
+            extract_type_path(elem)
+        }
         Type::Path(ref typepath) if typepath.qself.is_none() => Some(&typepath.path),
         Type::Reference(ref typeref) => match *typeref.elem {
             Type::Path(ref typepath) if typepath.qself.is_none() => Some(&typepath.path),
-- 
2.43.0

