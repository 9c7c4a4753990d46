From 25f30c1b537cb2f8b91337d0e231109dbb7a97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 01/56] fix: write names, strings and patterns as Python
 literals that mean the same text

---
 src/commands/cmd_make_results/pyspark.rs |   4 +-
 src/commands/cmd_regex/pyspark.rs        |   2 +-
 src/commands/cmd_rex/pyspark.rs          |   2 +-
 src/functions/eval_fns.rs                |   3 +-
 src/pyspark/ast.rs                       | 111 +++++++++++++++++++----
 src/pyspark/transpiler/expr.rs           |  46 +++++++---
 6 files changed, 130 insertions(+), 38 deletions(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index fa7ac6e..8289c76 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -29,12 +29,12 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
                 .with_column("sourcetype", column_like!(lit(None)))
                 .with_column(
                     "splunk_server",
-                    column_like!(lit(format!("\"{}\"", self.server.clone()))),
+                    column_like!(lit(py_string(&self.server, '"'))),
                 )
                 .with_column(
                     "splunk_server_group",
                     match self.server_group.clone() {
-                        Some(group) => column_like!(lit(group)),
+                        Some(group) => column_like!(lit(py_string(&group, '"'))),
                         None => column_like!(lit(None)),
                     },
                 );
diff --git a/src/commands/cmd_regex/pyspark.rs b/src/commands/cmd_regex/pyspark.rs
index eec66ad..1a40034 100644
--- a/src/commands/cmd_regex/pyspark.rs
+++ b/src/commands/cmd_regex/pyspark.rs
@@ -22,7 +22,7 @@ impl PipelineTransformer for RegexCommand {
 
         let mut col = column_like!(regexp_like(
             [col(field)],
-            [Expr::PyLiteral(PyLiteral(format!("r\"{}\"", self.regex)))]
+            [Expr::PyLiteral(PyLiteral(py_regex(&self.regex)))]
         ));
         if invert {
             col = column_like!(~[col]);
diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index f84ccbb..7f77fc1 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -27,7 +27,7 @@ impl PipelineTransformer for RexCommand {
                 group_name.unwrap_or(group_index.to_string()),
                 column_like!(regexp_extract(
                     [col(self.field.clone())],
-                    [Expr::PyLiteral(PyLiteral(format!("r\"{}\"", self.regex)))],
+                    [Expr::PyLiteral(PyLiteral(py_regex(&self.regex)))],
                     [py_lit(group_index as i64)]
                 )),
             );
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 6ebac6c..d7286f0 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -543,8 +543,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                 None => ",".into(),
                 Some(delim) => map_arg(delim) ?,
             };
+            let delim = if delim.contains('\\') { py_string(&delim, '"') } else { py_regex(&delim) };
             let zip_function: Expr = PyLiteral(
-                format !(r#"lambda left_, right_: F.concat_ws(r"{}", left_, right_)"#, delim)
+                format!("lambda left_, right_: F.concat_ws({}, left_, right_)", delim)
             ).into();
             column_like!(
                 zip_with(
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 34d32b4..d8bbc06 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -5,6 +5,72 @@ use crate::pyspark::base::{
 use anyhow::{ensure, Result};
 use std::sync::atomic::{AtomicUsize, Ordering};
 
+/// Render SPL text as a Python string literal delimited by `quote`.
+///
+/// SPL text is kept as it was written in the query, so the escapes `\\`, `\"` and `\'` are already
+/// there and mean the same in Python. Any other backslash stands for itself: it is doubled wherever
+/// Python would read it as the start of one of its own escape sequences.
+pub fn py_string(raw: &str, quote: char) -> String {
+    let mut out = String::with_capacity(raw.len() + 2);
+    out.push(quote);
+    let mut chars = raw.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => match chars.peek().copied() {
+                Some(next @ ('\\' | '"' | '\'')) => {
+                    chars.next();
+                    if next == '\\' || next == quote {
+                        out.push('\\');
+                    }
+                    out.push(next);
+                }
+                Some('a' | 'b' | 'f' | 'n' | 'r' | 't' | 'v' | 'x' | 'u' | 'U' | 'N' | '0'..='7')
+                | Some('\n' | '\r' | '\0')
+                | None => out.push_str("\\\\"),
+                Some(_) => out.push('\\'),
+            },
+            '\n' => out.push_str("\\n"),
+            '\r' => out.push_str("\\r"),
+            '\0' => out.push_str("\\0"),
+            c if c == quote => {
+                out.push('\\');
+                out.push(c);
+            }
+            c => out.push(c),
+        }
+    }
+    out.push(quote);
+    out
+}
+
+/// Render a regular expression as a Python string literal, raw if it can be written that way.
+pub fn py_regex(raw: &str) -> String {
+    let bytes = raw.chars().rev().take_while(|c| *c == '\\').count();
+    let mut escaped = false;
+    let mut bare_quote = false;
+    for c in raw.chars() {
+        bare_quote |= c == '"' && !escaped;
+        escaped = c == '\\' && !escaped;
+    }
+    if bare_quote || bytes % 2 == 1 || raw.contains(['\n', '\r', '\0']) {
+        let mut out = String::from("\"");
+        for c in raw.chars() {
+            match c {
+                '\\' => out.push_str("\\\\"),
+                '"' => out.push_str("\\\""),
+                '\n' => out.push_str("\\n"),
+                '\r' => out.push_str("\\r"),
+                '\0' => out.push_str("\\0"),
+                c => out.push(c),
+            }
+        }
+        out.push('"');
+        out
+    } else {
+        format!("r\"{}\"", raw)
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Hash)]
 // #[pyclass(frozen,eq,hash)]
 pub struct Base();
@@ -24,12 +90,12 @@ impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
 
 impl From<String> for PyLiteral {
     fn from(value: String) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(py_string(&value, '"'))
     }
 }
 impl From<&str> for PyLiteral {
     fn from(value: &str) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(py_string(value, '"'))
     }
 }
 
@@ -219,7 +285,7 @@ pub(crate) use column_like;
 impl ToSparkQuery for ColumnLike {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            ColumnLike::Named { name } => Ok(format!("F.col('{}')", name)),
+            ColumnLike::Named { name } => Ok(format!("F.col({})", py_string(name, '\''))),
             ColumnLike::Literal { code } => Ok(format!("F.lit({})", code)),
             ColumnLike::MethodCall { col, func, args } => {
                 let args: Result<Vec<String>> = args
@@ -245,9 +311,11 @@ impl ToSparkQuery for ColumnLike {
                 };
                 Ok(format!("{}({})", func, args?.join(", ")))
             }
-            ColumnLike::Aliased { col, name } => {
-                Ok(format!("{}.alias('{}')", col.to_spark_query(ctx)?, name))
-            }
+            ColumnLike::Aliased { col, name } => Ok(format!(
+                "{}.alias({})",
+                col.to_spark_query(ctx)?,
+                py_string(name, '\'')
+            )),
             ColumnLike::BinaryOp { op, left, right } => Ok(format!(
                 "{} {} {}",
                 left.to_spark_query(ctx)?,
@@ -321,7 +389,7 @@ impl ToSparkQuery for ColumnOrName {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
             ColumnOrName::Column(col) => col.to_spark_query(ctx),
-            ColumnOrName::Name(name) => Ok(format!("\"{}\"", name).into()),
+            ColumnOrName::Name(name) => Ok(py_string(name, '"').into()),
         }
     }
 }
@@ -355,7 +423,7 @@ impl ToSparkQuery for PyDict {
                 primary_df_code,
             } = value.to_spark_query(ctx)?;
             out_preface.extend(preface);
-            out_vals.push(format!("\"{}\": {}", key, primary_df_code).to_string());
+            out_vals.push(format!("{}: {}", py_string(key, '"'), primary_df_code));
         }
         Ok(format!(r#"{{ {} }}"#, out_vals.join(", ")).into())
     }
@@ -772,7 +840,9 @@ impl Default for DataFrame {
 impl ToSparkQuery for DataFrame {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            DataFrame::Source { name } => Ok(format!("spark.table('{}')", name).into()),
+            DataFrame::Source { name } => {
+                Ok(format!("spark.table({})", py_string(name, '\'')).into())
+            },
             DataFrame::RawSource { code } => Ok(code.clone().into()),
             DataFrame::Runtime {
                 name,
@@ -870,9 +940,9 @@ impl ToSparkQuery for DataFrame {
                 column,
                 name,
             } => Ok(format!(
-                "{}.withColumn('{}', {},)",
+                "{}.withColumn({}, {},)",
                 source.to_spark_query(ctx)?,
-                name,
+                py_string(name, '\''),
                 column.to_spark_query(ctx)?,
             )
             .into()),
@@ -881,10 +951,10 @@ impl ToSparkQuery for DataFrame {
                 old_name,
                 new_name,
             } => Ok(format!(
-                "{}.withColumnRenamed('{}', '{}',)",
+                "{}.withColumnRenamed({}, {},)",
                 source.to_spark_query(ctx)?,
-                old_name,
-                new_name,
+                py_string(old_name, '\''),
+                py_string(new_name, '\''),
             )
             .into()),
             DataFrame::OrderBy { source, columns } => {
@@ -917,16 +987,19 @@ impl ToSparkQuery for DataFrame {
                 condition,
                 join_type,
             } => Ok(format!(
-                "{}.join({}, {}, '{}',)",
+                "{}.join({}, {}, {},)",
                 source.to_spark_query(ctx)?,
                 other.to_spark_query(ctx)?,
                 condition.to_spark_query(ctx)?,
-                join_type
+                py_string(join_type, '\'')
+            )
+            .into()),
+            DataFrame::Alias { source, name } => Ok(format!(
+                "{}.alias({},)",
+                source.to_spark_query(ctx)?,
+                py_string(name, '\'')
             )
             .into()),
-            DataFrame::Alias { source, name } => {
-                Ok(format!("{}.alias('{}',)", source.to_spark_query(ctx)?, name,).into())
-            }
             DataFrame::ArbitraryMethod {
                 source,
                 method,
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index f5b1498..14e072e 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -6,7 +6,6 @@ use crate::pyspark::transpiler::utils::join_as_binaries;
 use crate::spl::ast;
 use anyhow::{anyhow, bail};
 use phf::phf_map;
-use regex::Regex;
 
 static SIMPLE_OP_MAP: phf::Map<&'static str, &'static str> = phf_map! {
     "=" => "==",
@@ -15,6 +14,20 @@ static SIMPLE_OP_MAP: phf::Map<&'static str, &'static str> = phf_map! {
     "NOT" => "~",
 };
 
+/// A column name as it has to be written inside a SQL expression
+fn sql_identifier(name: &str) -> String {
+    let is_plain = |part: &str| {
+        !part.starts_with(|c: char| c.is_ascii_digit())
+            && !part.is_empty()
+            && part.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+    };
+    if name.split('.').all(is_plain) {
+        name.to_string()
+    } else {
+        format!("`{}`", name.replace('`', "``"))
+    }
+}
+
 impl ToSparkExpr for ast::Expr {
     fn to_spark_expr(&self, ctx: &PysparkTranspileContext) -> anyhow::Result<Expr> {
         match self.clone() {
@@ -38,7 +51,10 @@ impl ToSparkExpr for ast::Expr {
                     ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(
                         ast::IPv4CIDR(cidr),
                     ))),
-                ) => Ok(column_like!(expr("cidr_match('{}', {})", cidr, col)).into()),
+                ) => {
+                    let col = sql_identifier(&col);
+                    Ok(column_like!(expr("cidr_match('{}', {})", cidr, col)).into())
+                },
                 // src_ip = "x*" -> F.like(F.col("src_ip"), "x%"),
                 (
                     lhs,
@@ -89,7 +105,7 @@ impl ToSparkExpr for ast::Expr {
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
                 Ok(ColumnLike::Literal {
-                    code: format!("'{}'", val),
+                    code: py_string(&val, '\''),
                 }
                 .into())
             }
@@ -103,7 +119,7 @@ impl ToSparkExpr for ast::Expr {
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(ast::IPv4CIDR(
                 val,
             )))) => Ok(ColumnLike::Literal {
-                code: format!("'{}'", val),
+                code: py_string(&val, '\''),
             }
             .into()),
 
@@ -204,9 +220,14 @@ impl ColumnLike {
             ColumnLike::Named { name } => {
                 column_like!([col("_raw")].ilike([py_lit(format!("%{}%", name))]))
             }
+            // The code is already a Python literal: wrap what is between its quotes, if it has any
+            // The code is already a Python literal: wrap what is between its quotes, if it has any
             ColumnLike::Literal { code } => {
-                column_like!([col("_raw")]
-                    .ilike([py_lit(format!("%{}%", Self::_strip_quotes(code.as_str())))]))
+                let pattern = PyLiteral(match Self::_quoted_content(code.as_str()) {
+                    Some((quote, content)) => format!("{quote}%{content}%{quote}"),
+                    None => format!("\"%{code}%\""),
+                });
+                column_like!([col("_raw")].ilike([pattern]))
             }
 
             ColumnLike::UnaryNot { right } => ColumnLike::UnaryNot {
@@ -219,14 +240,11 @@ impl ColumnLike {
         }
     }
 
-    fn _strip_quotes(code: &str) -> &str {
-        let re_double: Regex = Regex::new(r#"^".+"$"#).unwrap();
-        let re_single: Regex = Regex::new(r#"^'.+'$"#).unwrap();
-        if re_double.is_match(code) | re_single.is_match(code) {
-            &code[1..code.len() - 1]
-        } else {
-            code
-        }
+    fn _quoted_content(code: &str) -> Option<(char, &str)> {
+        ['"', '\''].into_iter().find_map(|quote| {
+            let content = code.strip_prefix(quote)?.strip_suffix(quote)?;
+            Some((quote, content))
+        })
     }
 
     pub fn into_search_expr(self) -> Self {
-- 
2.43.0


From 032fa10ed5974345caa9f6673422e303a02f6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 02/56] fix: match keywords as whole words and emit logical
 operators in one spelling

---
 src/commands/cmd_convert/spl.rs      |  5 +++--
 src/commands/cmd_dedup/spl.rs        |  5 +++--
 src/commands/cmd_event_stats/spl.rs  |  4 ++--
 src/commands/cmd_input_lookup/spl.rs |  4 ++--
 src/commands/cmd_lookup/spl.rs       |  4 ++--
 src/commands/cmd_rare/spl.rs         |  4 ++--
 src/commands/cmd_stats/spl.rs        |  3 ++-
 src/commands/cmd_stream_stats/spl.rs |  4 ++--
 src/commands/cmd_t_stats/spl.rs      | 11 ++++++-----
 src/commands/cmd_top/spl.rs          |  4 ++--
 src/spl/operators.rs                 | 25 +++++++++++++++++++------
 src/spl/parser.rs                    | 14 +++++++-------
 12 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/src/commands/cmd_convert/spl.rs b/src/commands/cmd_convert/spl.rs
index f84c7d4..4f65b78 100644
--- a/src/commands/cmd_convert/spl.rs
+++ b/src/commands/cmd_convert/spl.rs
@@ -1,8 +1,9 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{field, token, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::{tag, tag_no_case};
+use nom::bytes::complete::tag;
 use nom::combinator::{map, opt};
 use nom::multi::many0;
 use nom::sequence::{delimited, pair, preceded, tuple};
@@ -75,7 +76,7 @@ impl SplCommand<ConvertCommand> for ConvertParser {
                     ws(tuple((
                         token,
                         delimited(tag("("), ws(field), tag(")")),
-                        ws(opt(preceded(ws(tag_no_case("AS")), field))),
+                        ws(opt(preceded(ws(keyword("AS")), field))),
                     ))),
                     |(token, field, as_field)| FieldConversion {
                         func: token.into(),
diff --git a/src/commands/cmd_dedup/spl.rs b/src/commands/cmd_dedup/spl.rs
index 52849ae..8221667 100644
--- a/src/commands/cmd_dedup/spl.rs
+++ b/src/commands/cmd_dedup/spl.rs
@@ -2,10 +2,11 @@ use crate::commands::cmd_sort::spl::SortCommand;
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast;
 use crate::spl::ast::{Field, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{field, int, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
-use nom::bytes::complete::{tag, tag_no_case};
+use nom::bytes::complete::tag;
 use nom::combinator::{map, opt, verify};
 use nom::multi::many1;
 use nom::sequence::{pair, preceded, tuple};
@@ -101,7 +102,7 @@ impl SplCommand<DedupCommand> for DedupParser {
                 Self::Options::match_options,
                 dedup_field_rep,
                 opt(preceded(
-                    ws(tag_no_case("sortby")),
+                    ws(keyword("sortby")),
                     map(
                         many1(ws(pair(
                             opt(map(alt((tag("+"), tag("-"))), Into::into)),
diff --git a/src/commands/cmd_event_stats/spl.rs b/src/commands/cmd_event_stats/spl.rs
index 3a44200..76d0893 100644
--- a/src/commands/cmd_event_stats/spl.rs
+++ b/src/commands/cmd_event_stats/spl.rs
@@ -1,8 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, Field, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{field_list0, stats_call, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -57,7 +57,7 @@ impl SplCommand<EventStatsCommand> for EventStatsParser {
             tuple((
                 Self::Options::match_options,
                 ws(stats_call),
-                opt(preceded(ws(tag_no_case("by")), field_list0)),
+                opt(preceded(ws(keyword("by")), field_list0)),
             )),
             |(options, funcs, by)| EventStatsCommand {
                 all_num: options.all_num,
diff --git a/src/commands/cmd_input_lookup/spl.rs b/src/commands/cmd_input_lookup/spl.rs
index 8e5c416..175fd37 100644
--- a/src/commands/cmd_input_lookup/spl.rs
+++ b/src/commands/cmd_input_lookup/spl.rs
@@ -1,8 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{expr, token, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -71,7 +71,7 @@ impl SplCommand<InputLookupCommand> for InputLookupParser {
             tuple((
                 Self::Options::match_options,
                 ws(token),
-                ws(opt(preceded(ws(tag_no_case("where")), expr))),
+                ws(opt(preceded(ws(keyword("where")), expr))),
             )),
             |(options, table_name, where_options)| InputLookupCommand {
                 append: options.append,
diff --git a/src/commands/cmd_lookup/spl.rs b/src/commands/cmd_lookup/spl.rs
index a1d1338..c1ae9cc 100644
--- a/src/commands/cmd_lookup/spl.rs
+++ b/src/commands/cmd_lookup/spl.rs
@@ -1,9 +1,9 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{FieldLike, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{aliased_field, comma_or_space_separated_list1, field, token, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
 use nom::character::complete::multispace1;
 use nom::combinator::{map, opt, verify};
 use nom::sequence::{separated_pair, tuple};
@@ -57,7 +57,7 @@ pub fn field_rep(input: &str) -> IResult<&str, Vec<FieldLike>> {
 fn lookup_output(input: &str) -> IResult<&str, LookupOutput> {
     map(
         separated_pair(
-            alt((tag_no_case("OUTPUT"), tag_no_case("OUTPUTNEW"))),
+            alt((keyword("OUTPUT"), keyword("OUTPUTNEW"))),
             multispace1,
             field_rep,
         ),
diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index f6441b6..e614f52 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -1,8 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{field_list0, int, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -115,7 +115,7 @@ impl SplCommand<RareCommand> for RareParser {
                 ws(opt(int)),
                 ws(Self::Options::match_options),
                 ws(field_list0),
-                ws(opt(preceded(ws(tag_no_case("BY")), field_list0))),
+                ws(opt(preceded(ws(keyword("BY")), field_list0))),
             )),
             |(n, opts, fields, by_fields)| RareCommand {
                 fields,
diff --git a/src/commands/cmd_stats/spl.rs b/src/commands/cmd_stats/spl.rs
index 0348624..44f344a 100644
--- a/src/commands/cmd_stats/spl.rs
+++ b/src/commands/cmd_stats/spl.rs
@@ -2,6 +2,7 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::commands::stats_utils;
 use crate::commands::stats_utils::maybe_spanned_field_list1;
 use crate::spl::ast::{Expr, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{bool_, stats_call, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::{tag, tag_no_case};
@@ -74,7 +75,7 @@ impl SplCommand<StatsCommand> for StatsParser {
             tuple((
                 Self::Options::match_options,
                 stats_call,
-                opt(preceded(ws(tag_no_case("by")), maybe_spanned_field_list1)),
+                opt(preceded(ws(keyword("by")), maybe_spanned_field_list1)),
                 opt(preceded(
                     pair(ws(tag_no_case("dedup_splitvals")), ws(tag("="))),
                     bool_,
diff --git a/src/commands/cmd_stream_stats/spl.rs b/src/commands/cmd_stream_stats/spl.rs
index 7eef5f6..b94cacf 100644
--- a/src/commands/cmd_stream_stats/spl.rs
+++ b/src/commands/cmd_stream_stats/spl.rs
@@ -1,9 +1,9 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::commands::stats_utils;
 use crate::spl::ast::{Expr, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{stats_call, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -64,7 +64,7 @@ impl SplCommand<StreamStatsCommand> for StreamStatsParser {
                 Self::Options::match_options,
                 ws(stats_call),
                 opt(preceded(
-                    ws(tag_no_case("by")),
+                    ws(keyword("by")),
                     stats_utils::maybe_spanned_field_list1,
                 )),
             )),
diff --git a/src/commands/cmd_t_stats/spl.rs b/src/commands/cmd_t_stats/spl.rs
index 722bf4c..7416b16 100644
--- a/src/commands/cmd_t_stats/spl.rs
+++ b/src/commands/cmd_t_stats/spl.rs
@@ -2,6 +2,7 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::commands::stats_utils;
 use crate::commands::stats_utils::maybe_spanned_field_list1;
 use crate::spl::ast::{Call, Expr, Field, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{field, field_in, logical_expression, space_separated_list1, token, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
@@ -129,14 +130,14 @@ impl TryFrom<ParsedCommandOptions> for TStatsCommandOptions {
 
 fn _parse_from_datamodel(input: &str) -> IResult<&str, (String, Option<String>)> {
     preceded(
-        ws(tag_no_case("from")),
+        ws(keyword("from")),
         tuple((
             ws(preceded(
                 ws(tag_no_case("datamodel=")),
                 into(recognize(separated_list1(tag("."), token))),
             )),
             opt(ws(preceded(
-                ws(tag_no_case("where")),
+                ws(keyword("where")),
                 ws(preceded(
                     tag_no_case("nodename="),
                     into(recognize(separated_list1(tag("."), token))),
@@ -148,7 +149,7 @@ fn _parse_from_datamodel(input: &str) -> IResult<&str, (String, Option<String>)>
 
 fn _parse_where(input: &str) -> IResult<&str, Expr> {
     preceded(
-        ws(tag_no_case("where")),
+        ws(keyword("where")),
         ws(alt((logical_expression, into(field_in)))),
     )(input)
 }
@@ -162,7 +163,7 @@ struct ByClause {
 fn _parse_by(input: &str) -> IResult<&str, ByClause> {
     map(
         preceded(
-            ws(tag_no_case("by")),
+            ws(keyword("by")),
             alt((
                 // Freaking seriously? This can be either a space-delimited or comma-delimited list
                 // WHY?!?
@@ -219,7 +220,7 @@ fn _stats_function(input: &str) -> IResult<&str, Expr> {
         pair(
             alt((_stats_function_call, _stats_function_count)),
             opt(preceded(
-                delimited(multispace1, tag_no_case("AS"), multispace1),
+                delimited(multispace1, keyword("AS"), multispace1),
                 into(token),
             )),
         ),
diff --git a/src/commands/cmd_top/spl.rs b/src/commands/cmd_top/spl.rs
index 09bd0ee..349a6cd 100644
--- a/src/commands/cmd_top/spl.rs
+++ b/src/commands/cmd_top/spl.rs
@@ -1,8 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
+use crate::spl::operators::keyword;
 use crate::spl::parser::{field_list1, int, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -115,7 +115,7 @@ impl SplCommand<TopCommand> for TopParser {
                 ws(opt(int)),
                 ws(Self::Options::match_options),
                 field_list1,
-                ws(opt(preceded(ws(tag_no_case("BY")), field_list1))),
+                ws(opt(preceded(ws(keyword("BY")), field_list1))),
             )),
             |(n, opts, fields, by_fields)| TopCommand {
                 fields,
diff --git a/src/spl/operators.rs b/src/spl/operators.rs
index 69eb131..455cd97 100644
--- a/src/spl/operators.rs
+++ b/src/spl/operators.rs
@@ -1,8 +1,15 @@
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::character::complete::{multispace0, multispace1};
-use nom::sequence::delimited;
-use nom::IResult;
+use nom::character::complete::{multispace0, multispace1, satisfy};
+use nom::combinator::{not, value};
+use nom::sequence::{delimited, terminated};
+use nom::{IResult, Parser};
+
+/// Matches a keyword as a whole word, in any case: `OR` is not the start of `orange`.
+pub fn keyword<'a>(word: &'static str) -> impl FnMut(&'a str) -> IResult<&'a str, &'a str> {
+    let is_word_char = |c: char| c.is_alphanumeric() || "_*:/-%{}@\\$.".contains(c);
+    move |input| terminated(tag_no_case(word), not(satisfy(is_word_char))).parse(input)
+}
 
 pub trait OperatorSymbolTrait {
     const SYMBOL: &'static str;
@@ -16,12 +23,18 @@ pub struct UnaryNot;
 impl OperatorSymbolTrait for UnaryNot {
     const SYMBOL: &'static str = "NOT";
     const PRECEDENCE: i32 = 2;
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        value(Self::SYMBOL, keyword(Self::SYMBOL))(input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct Or;
 impl OperatorSymbolTrait for Or {
     const SYMBOL: &'static str = "OR";
     const PRECEDENCE: i32 = 9;
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        value(Self::SYMBOL, keyword(Self::SYMBOL))(input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct And;
@@ -29,7 +42,7 @@ impl OperatorSymbolTrait for And {
     const SYMBOL: &'static str = "AND";
     const PRECEDENCE: i32 = 8;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        alt((tag_no_case("AND"), tag(" ")))(input)
+        value(Self::SYMBOL, keyword(Self::SYMBOL))(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
@@ -39,7 +52,7 @@ impl OperatorSymbolTrait for InList {
     const PRECEDENCE: i32 = 7;
 
     fn pattern(input: &str) -> IResult<&str, &str> {
-        tag_no_case("IN")(input)
+        keyword("IN")(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
@@ -106,7 +119,7 @@ impl OperatorSymbolTrait for Equals {
     const SYMBOL: &'static str = "=";
     const PRECEDENCE: i32 = 7;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        alt((tag("="), tag("::")))(input)
+        value(Self::SYMBOL, alt((tag("="), tag("::"))))(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 093edae..3330c00 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -34,7 +34,7 @@ use crate::commands::cmd_tail::spl::TailParser;
 use crate::commands::cmd_top::spl::TopParser;
 use crate::commands::cmd_where::spl::WhereParser;
 use crate::commands::spl::SplCommand;
-use crate::spl::operators::{OperatorSymbol, OperatorSymbolTrait};
+use crate::spl::operators::{keyword, OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
 use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of};
@@ -879,7 +879,7 @@ pub fn field_in(input: &str) -> IResult<&str, ast::FieldIn> {
     map(
         separated_pair(
             field,
-            ws(tag_no_case("IN")),
+            ws(operators::InList::pattern),
             parenthesized(comma_or_space_separated_list0(constant)),
         ),
         |(field, constants)| ast::FieldIn {
@@ -1123,7 +1123,7 @@ pub fn expr(input: &str) -> IResult<&str, ast::Expr> {
 //   def aliasedField[_: P]: P[Alias] = field ~ W("AS") ~ (token|doubleQuoted) map Alias.tupled
 pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
     map(
-        separated_pair(field, ws(tag_no_case("AS")), alt((token, double_quoted))),
+        separated_pair(field, ws(keyword("AS")), alt((token, double_quoted))),
         |(field, alias)| ast::AliasedField {
             field,
             alias: alias.into(),
@@ -1134,7 +1134,7 @@ pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
 //   def aliasedCall[_: P]: P[Alias] = call ~ W("as") ~ token map Alias.tupled
 pub fn aliased_call(input: &str) -> IResult<&str, ast::Alias> {
     map(
-        separated_pair(call, ws(tag_no_case("as")), token),
+        separated_pair(call, ws(keyword("as")), token),
         |(expr, name)| ast::Alias {
             expr: Box::new(expr.into()),
             name: name.into(),
@@ -1298,7 +1298,7 @@ pub fn combine_all_expressions(exprs: Vec<ast::Expr>, symbol: impl ToString) ->
 // <logical-expression> | <time-opts> | <search-modifier> | NOT <logical-expression> | <index-expression> | <comparison-expression> | <logical-expression> [OR] <logical-expression>
 pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
     map(
-        separated_list1(ws(tag_no_case("OR")), logical_expression_group),
+        separated_list1(ws(keyword("OR")), logical_expression_group),
         |exprs| combine_all_expressions(exprs, operators::Or::SYMBOL).unwrap(),
     )(input)
 }
@@ -1306,7 +1306,7 @@ pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
 pub fn logical_expression_group(input: &str) -> IResult<&str, ast::Expr> {
     map(
         separated_list1(
-            alt((ws(tag_no_case("AND")), multispace1)),
+            alt((ws(keyword("AND")), multispace1)),
             logical_expression_term,
         ),
         |exprs| combine_all_expressions(exprs, operators::And::SYMBOL).unwrap(),
@@ -1317,7 +1317,7 @@ pub fn logical_expression_term(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         parenthesized(logical_expression),
         map(
-            preceded(ws(tag_no_case("NOT")), logical_expression_term),
+            preceded(ws(keyword("NOT")), logical_expression_term),
             |expr| ast::Unary::new(operators::UnaryNot::SYMBOL, expr).into(),
         ),
         map(time_opts, |opts| {
-- 
2.43.0


From 18a885fa808284fa07c37b8db2a670b6e48ebdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 03/56] fix: group arithmetic from the left, and AND before OR
 in eval expressions

---
 src/commands/cmd_eval/spl.rs |   4 +-
 src/commands/cmd_head/spl.rs |   4 +-
 src/spl/parser.rs            | 213 +++++++++++++++++++++++------------
 3 files changed, 143 insertions(+), 78 deletions(-)

diff --git a/src/commands/cmd_eval/spl.rs b/src/commands/cmd_eval/spl.rs
index b581e0c..e05184e 100644
--- a/src/commands/cmd_eval/spl.rs
+++ b/src/commands/cmd_eval/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, Field, ParsedCommandOptions};
-use crate::spl::parser::{comma_separated_list0, expr, field, ws};
+use crate::spl::parser::{comma_separated_list0, eval_expr, field, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
@@ -38,7 +38,7 @@ impl SplCommand<EvalCommand> for EvalParser {
 
     fn parse_body(input: &str) -> IResult<&str, EvalCommand> {
         map(
-            comma_separated_list0(separated_pair(ws(field), ws(tag("=")), ws(expr))),
+            comma_separated_list0(separated_pair(ws(field), ws(tag("=")), ws(eval_expr))),
             |assignments| EvalCommand {
                 fields: assignments,
             },
diff --git a/src/commands/cmd_head/spl.rs b/src/commands/cmd_head/spl.rs
index b30ef6c..2c3bb29 100644
--- a/src/commands/cmd_head/spl.rs
+++ b/src/commands/cmd_head/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{BoolValue, Expr, ParsedCommandOptions};
-use crate::spl::parser::{bool_, expr, int, ws};
+use crate::spl::parser::{bool_, eval_expr, int, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::bytes::complete::tag_no_case;
@@ -60,7 +60,7 @@ impl SplCommand<HeadCommand> for HeadParser {
                     map(alt((int, preceded(ws(tag_no_case("limit=")), int))), |v| {
                         v.into()
                     }),
-                    expr,
+                    eval_expr,
                 ))),
                 ws(opt(preceded(ws(tag_no_case("keeplast=")), bool_))),
                 ws(opt(preceded(ws(tag_no_case("null=")), bool_))),
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 3330c00..5ad0441 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -895,7 +895,7 @@ pub fn field_in(input: &str) -> IResult<&str, ast::FieldIn> {
 //   def call[_: P]: P[Call] = (token ~~ "(" ~~ expr.rep(sep = ",") ~~ ")").map(Call.tupled)
 pub fn call(input: &str) -> IResult<&str, ast::Call> {
     map(
-        pair(token, parenthesized(comma_separated_list0(expr))),
+        pair(token, parenthesized(comma_separated_list0(eval_expr))),
         |(token, exprs)| ast::Call {
             name: token.into(),
             args: exprs,
@@ -969,9 +969,45 @@ pub fn term_call(input: &str) -> IResult<&str, ast::Call> {
    precedence 9: Or
 */
 
-pub fn expr_base(input: &str) -> IResult<&str, ast::Expr> {
+/*
+   `where`, `eval` and function arguments follow the order above, but the search command evaluates
+   OR before AND. The levels that depend on it take the order as a type parameter.
+*/
+const SEARCH: bool = true;
+const EVAL: bool = false;
+
+/// Combines a run of same-precedence operators from left to right: `a - b - c` is `(a - b) - c`.
+/// Operands of a run of the same associative operator nest to the right: `a + b + c` is `a + (b + c)`.
+fn fold_binaries((first, rest): (ast::Expr, Vec<(&str, ast::Expr)>)) -> ast::Expr {
+    let mut left = first;
+    let mut rest = rest.into_iter().peekable();
+    while let Some((op, operand)) = rest.next() {
+        let mut run = vec![operand];
+        while let Some((_, operand)) =
+            rest.next_if(|(next, _)| *next == op && matches!(op, "+" | "*" | "."))
+        {
+            run.push(operand);
+        }
+        let right = run
+            .into_iter()
+            .rev()
+            .reduce(|right, operand| ast::Binary::new(operand, op, right).into())
+            .unwrap();
+        left = ast::Binary::new(left, op, right).into();
+    }
+    left
+}
+
+fn maybe_binary((left, maybe_op_right): (ast::Expr, Option<(&str, ast::Expr)>)) -> ast::Expr {
+    match maybe_op_right {
+        None => left,
+        Some((op, right)) => ast::Binary::new(left, op, right).into(),
+    }
+}
+
+pub fn expr_base<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
     alt((
-        parenthesized(expr9_with_whitespace),
+        parenthesized(expr9_with_whitespace::<ORDER>),
         map(term_call, ast::Expr::Call),
         map(call, ast::Expr::Call),
         map(constant, |v| ast::Expr::Leaf(ast::LeafExpr::Constant(v))),
@@ -979,65 +1015,52 @@ pub fn expr_base(input: &str) -> IResult<&str, ast::Expr> {
     ))(input)
 }
 
-pub fn expr2(input: &str) -> IResult<&str, ast::Expr> {
-    alt((expr_base,))(input)
-}
-
-pub fn expr3(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+pub fn expr3<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
+    map(
         pair(
-            expr2,
-            opt(pair(
+            expr_base::<ORDER>,
+            many0(pair(
                 ws(alt((
                     operators::Multiply::pattern,
                     operators::Divide::pattern,
                 ))),
-                expr3,
+                expr_base::<ORDER>,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        fold_binaries,
+    )(input)
 }
 
-pub fn expr4(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+pub fn expr4<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
+    map(
         pair(
-            expr3,
-            opt(pair(
+            expr3::<ORDER>,
+            many0(pair(
                 ws(alt((operators::Add::pattern, operators::Subtract::pattern))),
-                expr4,
+                expr3::<ORDER>,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        fold_binaries,
+    )(input)
 }
 
-pub fn expr5(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+pub fn expr5<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
+    map(
         pair(
-            expr4,
-            opt(pair(ws(alt((operators::Concatenate::pattern,))), expr5)),
+            expr4::<ORDER>,
+            many0(pair(ws(operators::Concatenate::pattern), expr4::<ORDER>)),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        fold_binaries,
+    )(input)
 }
 
-pub fn expr6(input: &str) -> IResult<&str, ast::Expr> {
+pub fn expr6<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         into(field_in),
         map(
             pair(
-                expr5,
-                opt(pair(
+                expr5::<ORDER>,
+                many0(pair(
                     ws(alt((
                         operators::StrictlyEquals::pattern,
                         operators::Equals::pattern,
@@ -1047,76 +1070,118 @@ pub fn expr6(input: &str) -> IResult<&str, ast::Expr> {
                         operators::GreaterEquals::pattern,
                         operators::GreaterThan::pattern,
                     ))),
-                    expr6,
+                    expr5::<ORDER>,
                 )),
             ),
-            |(left, maybe_op_right)| match maybe_op_right {
-                None => left,
-                Some((op, right)) => ast::Binary::new(left, op, right).into(),
-            },
+            fold_binaries,
         ),
     ))(input)
 }
 
-pub fn expr7(input: &str) -> IResult<&str, ast::Expr> {
+pub fn expr7<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         map(
             alt((
-                separated_pair(operators::UnaryNot::pattern, multispace1, expr7),
+                separated_pair(operators::UnaryNot::pattern, multispace1, expr7::<ORDER>),
                 pair(
                     ws(operators::UnaryNot::pattern),
-                    parenthesized(expr9_with_whitespace),
+                    parenthesized(expr9_with_whitespace::<ORDER>),
                 ),
             )),
             |(op, right)| ast::Unary::new(op, right).into(),
         ),
-        expr6,
+        expr6::<ORDER>,
     ))(input)
 }
 
-pub fn expr8(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
-        pair(expr7, opt(pair(ws(operators::Or::pattern), expr8))),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+fn or_operator(input: &str) -> IResult<&str, &str> {
+    ws(operators::Or::pattern).parse(input)
+}
+
+fn and_operator(input: &str) -> IResult<&str, &str> {
+    ws(operators::And::pattern).parse(input)
 }
 
-pub fn expr9_no_whitespace(input: &str) -> IResult<&str, ast::Expr> {
+fn and_operator_or_whitespace(input: &str) -> IResult<&str, &str> {
+    alt((and_operator, value("AND", multispace1)))(input)
+}
+
+// Whichever of AND and OR binds more tightly
+pub fn expr8<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
+    let operator = if ORDER == SEARCH {
+        or_operator
+    } else {
+        and_operator
+    };
     map(
-        pair(
-            expr8,
-            opt(pair(ws(operators::And::pattern), expr9_no_whitespace)),
-        ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
+        pair(expr7::<ORDER>, opt(pair(operator, expr8::<ORDER>))),
+        maybe_binary,
     )(input)
 }
 
-pub fn expr9_with_whitespace(input: &str) -> IResult<&str, ast::Expr> {
+fn expr8_with_whitespace<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
+    if ORDER == SEARCH {
+        return expr8::<ORDER>(input);
+    }
     map(
         pair(
-            expr8,
+            expr7::<ORDER>,
             opt(pair(
-                alt((ws(operators::And::pattern), value("AND", multispace1))),
-                expr9_with_whitespace,
+                and_operator_or_whitespace,
+                expr8_with_whitespace::<ORDER>,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
+        maybe_binary,
     )(input)
 }
 
+// Whichever of AND and OR binds less tightly
+pub fn expr9_no_whitespace<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
+    let operator = if ORDER == SEARCH {
+        and_operator
+    } else {
+        or_operator
+    };
+    map(
+        pair(
+            expr8::<ORDER>,
+            opt(pair(operator, expr9_no_whitespace::<ORDER>)),
+        ),
+        maybe_binary,
+    )(input)
+}
+
+pub fn expr9_with_whitespace<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
+    let operator = if ORDER == SEARCH {
+        and_operator_or_whitespace
+    } else {
+        or_operator
+    };
+    map(
+        pair(
+            expr8_with_whitespace::<ORDER>,
+            opt(pair(operator, expr9_with_whitespace::<ORDER>)),
+        ),
+        maybe_binary,
+    )(input)
+}
+
+/// An expression of the search command, where OR is evaluated before AND
 pub fn expr(input: &str) -> IResult<&str, ast::Expr> {
-    expr9_no_whitespace(input)
+    expr9_no_whitespace::<SEARCH>(input)
+}
+
+/// An expression of eval and the like, where AND is evaluated before OR
+pub fn eval_expr(input: &str) -> IResult<&str, ast::Expr> {
+    expr9_no_whitespace::<EVAL>(input)
 }
 
+/// A predicate: as `eval_expr`, but conditions may also be put one after another
+pub fn predicate_expr(input: &str) -> IResult<&str, ast::Expr> {
+    expr9_with_whitespace::<EVAL>(input)
+}
+
+
 //
 //   // lookup <lookup-dataset> (<lookup-field> [AS <event-field>] )...
 //   // [ (OUTPUT | OUTPUTNEW) ( <lookup-destfield> [AS <event-destfield>] )...]
-- 
2.43.0


From 793bd1481aff62fd24776f12fd08637ca0141088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 04/56] fix: read the where clause as an eval expression, so
 that a bare word on either side is a field

---
 src/commands/cmd_where/spl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_where/spl.rs b/src/commands/cmd_where/spl.rs
index edad280..ec74427 100644
--- a/src/commands/cmd_where/spl.rs
+++ b/src/commands/cmd_where/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, ParsedCommandOptions};
-use crate::spl::parser::logical_expression;
+use crate::spl::parser::predicate_expr;
 use crate::spl::python::*;
 use nom::combinator::map;
 use nom::IResult;
@@ -35,7 +35,7 @@ impl SplCommand<WhereCommand> for WhereParser {
     type Options = WhereCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, WhereCommand> {
-        map(logical_expression, |v| WhereCommand { expr: v })(input)
+        map(predicate_expr, |v| WhereCommand { expr: v })(input)
     }
 }
 
-- 
2.43.0


From 1cff2b51db6677a6b3dfdc1fa9f75b07f0b89ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 05/56] fix: compare fields to values in search, and keep to
 the indexes and events it is given

---
 src/commands/cmd_search/pyspark.rs | 305 ++++++++++++++++++++++-------
 1 file changed, 232 insertions(+), 73 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 7baa079..efab0f4 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -13,6 +13,18 @@ fn _is_index(expr: &ast::Expr) -> bool {
     )
 }
 
+/// Whether the index is used in a condition, anywhere inside an expression
+fn _mentions_index(expr: &ast::Expr) -> bool {
+    match expr {
+        ast::Expr::Binary(ast::Binary { left, right, .. }) => {
+            _is_index(left) || _mentions_index(left) || _mentions_index(right)
+        }
+        ast::Expr::Unary(ast::Unary { right, .. }) => _mentions_index(right),
+        ast::Expr::FieldIn(ast::FieldIn { field, .. }) => field == "index",
+        _ => false,
+    }
+}
+
 fn split_conditions(
     expr: &ast::Expr,
     all_ands: bool,
@@ -29,9 +41,17 @@ fn split_conditions(
             let left_is_index = _is_index(left.as_ref());
             let right_is_index = _is_index(right.as_ref());
             match (left_is_index, symbol.as_str(), right_is_index) {
-                (true, "=", false) | (false, "=", true) => {
+                (true, "=" | "==", false) | (false, "=" | "==", true) => {
                     ensure!(all_ands, "Cannot specify an index under an OR branch");
                     let compare_value = if left_is_index { *right } else { *left };
+                    ensure!(
+                        !matches!(
+                            compare_value,
+                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Wildcard(_)))
+                        ),
+                        "Cannot list the indexes that match {:?}",
+                        compare_value
+                    );
                     indices.insert(compare_value.with_context(ctx).try_into()?);
                     Ok(None)
                 }
@@ -76,6 +96,128 @@ fn break_down_ands(expr: &ast::Expr, exprs: &mut Vec<ast::Expr>) {
     }
 }
 
+/// The pattern that finds a search term in the text of an event: only `*` is a wildcard
+fn term_pattern(term: &str, wildcards: bool) -> String {
+    let mut out = String::from("%");
+    let mut chars = term.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => match chars.next_if(|next| matches!(next, '\\' | '"' | '\'')) {
+                Some('\\') | None => out.push_str("\\\\\\\\"),
+                Some(quote) => out.extend(['\\', quote]),
+            },
+            '%' | '_' => out.extend(['\\', '\\', c]),
+            '*' if wildcards => out.push('%'),
+            c => out.push(c),
+        }
+    }
+    out.push('%');
+    out
+}
+
+/// The condition that a search expression sets: the right-hand side of a comparison is a value even
+/// if it is a bare word, and what is not compared to anything is looked for in the raw event.
+fn search_condition(expr: &ast::Expr, ctx: &PysparkTranspileContext) -> Result<Expr> {
+    let contains = |pattern: String| column_like!([col("_raw")].ilike([py_lit(pattern)])).into();
+    match expr {
+        ast::Expr::Binary(ast::Binary {
+            left,
+            symbol,
+            right,
+        }) if matches!(symbol.as_str(), "AND" | "OR") => Ok(ColumnLike::binary_op(
+            search_condition(left, ctx)?,
+            if symbol == "AND" { "&" } else { "|" },
+            search_condition(right, ctx)?,
+        )
+        .into()),
+        ast::Expr::Unary(ast::Unary { symbol, right }) if symbol == "NOT" => {
+            Ok(ColumnLike::unary_not(search_condition(right, ctx)?).into())
+        }
+        ast::Expr::Binary(ast::Binary {
+            left,
+            symbol,
+            right,
+        }) => {
+            let value = match *right.clone() {
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                    word,
+                )))) => ast::StrValue(word).into(),
+                value => value,
+            };
+            ast::Expr::Binary(ast::Binary::new(*left.clone(), symbol, value))
+                .with_context(ctx)
+                .try_into()
+        }
+        ast::Expr::Leaf(ast::LeafExpr::Constant(term)) => match term {
+            ast::Constant::Field(ast::Field(term))
+            | ast::Constant::Str(ast::StrValue(term))
+            | ast::Constant::IPv4CIDR(ast::IPv4CIDR(term)) => {
+                Ok(contains(term_pattern(term, false)))
+            }
+            ast::Constant::Wildcard(ast::Wildcard(term)) => Ok(contains(term_pattern(term, true))),
+            ast::Constant::Int(ast::IntValue(term)) => {
+                Ok(contains(term_pattern(&term.to_string(), false)))
+            }
+            _ => bail!("Unsupported search term: {:?}", term),
+        },
+        expr => expr.clone().with_context(ctx).try_into(),
+    }
+}
+
+/// Whether `name` can be passed to the runtime as the name of an argument of its own
+fn is_field_argument(name: &str) -> bool {
+    const TAKEN: [&str; 45] = [
+        "False",
+        "None",
+        "True",
+        "and",
+        "as",
+        "assert",
+        "async",
+        "await",
+        "break",
+        "class",
+        "continue",
+        "def",
+        "del",
+        "elif",
+        "else",
+        "except",
+        "finally",
+        "for",
+        "from",
+        "global",
+        "if",
+        "import",
+        "in",
+        "is",
+        "lambda",
+        "nonlocal",
+        "not",
+        "or",
+        "pass",
+        "raise",
+        "return",
+        "try",
+        "while",
+        "with",
+        "yield", // Python keywords
+        "df",
+        "index",
+        "source",
+        "source_type",
+        "host",
+        "host_tag",
+        "event_type",
+        "event_type_tag",
+        "saved_splunk",
+        "splunk_server", // Parameters of the runtime command
+    ];
+    !name.starts_with(|c: char| c.is_ascii_digit())
+        && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+        && !TAKEN.contains(&name)
+}
+
 const INDEX: &str = "index";
 const SOURCE: &str = "source";
 const SOURCE_TYPE: &str = "sourcetype";
@@ -86,6 +228,21 @@ const EVENT_TYPE_TAG: &str = "eventtypetag";
 const SAVED_SPLUNK: &str = "savedsplunk";
 const SPLUNK_SERVER: &str = "splunk_server";
 
+fn is_source_field(name: &str) -> bool {
+    matches!(
+        name,
+        INDEX
+            | SOURCE
+            | SOURCE_TYPE
+            | HOST
+            | HOST_TAG
+            | EVENT_TYPE
+            | EVENT_TYPE_TAG
+            | SAVED_SPLUNK
+            | SPLUNK_SERVER
+    )
+}
+
 impl PipelineTransformer for SearchCommand {
     fn transform_for_runtime(
         &self,
@@ -100,69 +257,68 @@ impl PipelineTransformer for SearchCommand {
         let mut kwargs = vec![];
 
         for expr in exprs {
-            match expr.clone() {
+            // Comparing a field to a plain value can be done by name, once for each field
+            let by_name = match &expr {
                 ast::Expr::Binary(ast::Binary {
                     left,
                     symbol,
                     right,
-                }) => {
-                    match (*left.clone(), symbol.as_str()) {
-                        (
-                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(
-                                ast::Field(name),
-                            ))),
-                            op,
-                        ) if matches!(
-                            name.as_str(),
-                            INDEX
-                                | SOURCE
-                                | SOURCE_TYPE
-                                | HOST
-                                | HOST_TAG
-                                | EVENT_TYPE
-                                | EVENT_TYPE_TAG
-                                | SAVED_SPLUNK
-                                | SPLUNK_SERVER
-                        ) =>
-                        {
-                            ensure!(
-                                matches!(op, "=" | "=="),
-                                format!("`{}` must use equality comparison", name)
-                            );
-                            let name = match name.as_str() {
-                                INDEX => INDEX,
-                                SOURCE => SOURCE,
-                                SOURCE_TYPE => "source_type",
-                                HOST => HOST,
-                                HOST_TAG => "host_tag",
-                                EVENT_TYPE => "event_type",
-                                EVENT_TYPE_TAG => "event_type_tag",
-                                SAVED_SPLUNK => "saved_splunk",
-                                SPLUNK_SERVER => SPLUNK_SERVER,
-                                _ => panic!("How on earth did we get here?!?"),
-                            };
-                            let rhs_value = match *right {
-                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
-                                                                                             val,
-                                                                                         )))) => val,
-                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => val,
-                            _ => bail!("Right-hand side of comparison to {} must be a string-like value", name),
-                        };
-                            kwargs.push((name.to_string(), column_like!(py_lit(rhs_value)).into()))
+                }) if matches!(symbol.as_str(), "=" | "==") => match (&**left, &**right) {
+                    (
+                        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                            name,
+                        )))),
+                        ast::Expr::Leaf(ast::LeafExpr::Constant(value)),
+                    ) => Some((name.as_str(), value)),
+                    _ => None,
+                },
+                _ => None,
+            };
+            let kwarg: Option<(&str, RuntimeExpr)> = match by_name {
+                // Where to look for events
+                Some((
+                    name,
+                    ast::Constant::Field(ast::Field(value))
+                    | ast::Constant::Str(ast::StrValue(value)),
+                )) if is_source_field(name) && df.is_none() => {
+                    let name = match name {
+                        SOURCE_TYPE => "source_type",
+                        HOST_TAG => "host_tag",
+                        EVENT_TYPE => "event_type",
+                        EVENT_TYPE_TAG => "event_type_tag",
+                        SAVED_SPLUNK => "saved_splunk",
+                        name => name,
+                    };
+                    Some((name, column_like!(py_lit(value.as_str())).into()))
+                }
+                Some((name, value)) if is_field_argument(name) && !is_source_field(name) => {
+                    match value {
+                        ast::Constant::Field(ast::Field(value))
+                        | ast::Constant::Str(ast::StrValue(value)) => {
+                            let value: ast::Expr = ast::StrValue(value.clone()).into();
+                            Some((name, value.with_context(&state.ctx).try_into()?))
                         }
-                        (
-                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(
-                                ast::Field(name),
-                            ))),
-                            "=" | "==",
-                        ) => kwargs.push((
-                            name.to_string(),
-                            (*right).with_context(&state.ctx).try_into()?,
-                        )),
-                        _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                        ast::Constant::Int(_) | ast::Constant::Double(_) => {
+                            let value: ast::Expr = value.clone().into();
+                            Some((name, value.with_context(&state.ctx).try_into()?))
+                        }
+                        _ => None,
                     }
                 }
-                _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                _ => None,
+            };
+            match kwarg {
+                Some((name, value)) if !kwargs.iter().any(|(used, _)| used == name) => {
+                    kwargs.push((name.to_string(), value))
+                }
+                _ => {
+                    ensure!(
+                        df.is_some() || !_mentions_index(&expr),
+                        "Cannot tell which index to read from: {:?}",
+                        expr
+                    );
+                    args.push(search_condition(&expr, &state.ctx)?.into())
+                }
             }
         }
 
@@ -176,26 +332,29 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut indices = HashSet::new();
-        let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
-        let mut df = if !indices.is_empty() {
-            let mut _df: Option<DataFrame> = None;
-            for new_index in indices.into_iter() {
-                let new_source = DataFrame::source(new_index);
-                _df = match (_df, new_source) {
-                    (None, new_source) => Some(new_source),
-                    (Some(cur_source), new_source) => Some(cur_source.union_by_name(new_source)),
-                }
-            }
-            _df.unwrap()
-        } else {
-            state.df.clone().unwrap_or_default()
+        let condition_expr = match state.df {
+            // Events that were already read can only be filtered
+            Some(_) => Some(self.expr.clone()),
+            None => split_conditions(&self.expr, true, &mut indices, &state.ctx)?,
         };
+        let mut indices: Vec<_> = indices.into_iter().collect();
+        indices.sort();
+        let df = indices
+            .into_iter()
+            .map(DataFrame::source)
+            .reduce(|df, other| df.union_by_name(other))
+            .or_else(|| state.df.clone())
+            .unwrap_or_default();
 
-        df = match condition_expr {
+        let df = match condition_expr {
             None => df,
             Some(condition) => {
-                let condition: Expr = condition.with_context(&state.ctx).try_into()?;
-                df.where_(condition.into_search_expr())
+                ensure!(
+                    state.df.is_some() || !_mentions_index(&condition),
+                    "Cannot tell which index to read from: {:?}",
+                    condition
+                );
+                df.where_(search_condition(&condition, &state.ctx)?)
             }
         };
 
-- 
2.43.0


From 13dab160cdb58ffd567b82f9c5bb0457c447336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 06/56] fix: name unnamed results of eval functions after the
 function that was called

---
 src/functions/eval_fns.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index d7286f0..ca4c4e5 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -217,8 +217,8 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
     match name.as_str() {
         // Convert functions (not sure this is actually valid, but it's in the original transpiler...)
         "memk" => function_transform!(memk [args] (c) { memk(c) }),
-        "rmunit" => function_transform!(memk [args] (c) { rmunit(c) }),
-        "rmcomma" => function_transform!(memk [args] (c) { rmcomma(c) }),
+        "rmunit" => function_transform!(rmunit [args] (c) { rmunit(c) }),
+        "rmcomma" => function_transform!(rmcomma [args] (c) { rmcomma(c) }),
 
         // Bitwise functions
         // bit_and(<values>)                                   	 Bitwise AND function that takes two or more non-negative integers as arguments and sequentially performs logical bitwise AND on them.
@@ -231,15 +231,15 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         "bit_not" => function_transform!(bit_not [args] (x) { column_like!(bitwise_not([x])) }),
         // bit_xor(<values>)                                   	 Bitwise XOR function that takes two or more non-negative integers as arguments and sequentially performs bitwise XOR of each of the given arguments.
         "bit_xor" => {
-            function_transform!(bit_or [args] (a, b) { column_like!([a].bitwiseXOR([b])) })
+            function_transform!(bit_xor [args] (a, b) { column_like!([a].bitwiseXOR([b])) })
         }
         // bit_shift_left(<value>, <shift_offset>)             	 Logical left shift function that takes two non-negative integers as arguments and shifts the binary representation of the first integer over to the left by the specified shift amount.
         "bit_shift_left" => {
-            function_transform!(bit_not [args] (x, offset: i64) { column_like!(shiftleft([x], [py_lit(offset)])) })
+            function_transform!(bit_shift_left [args] (x, offset: i64) { column_like!(shiftleft([x], [py_lit(offset)])) })
         }
         // bit_shift_right(<value>, <shift_offset>)            	 Logical right shift function that takes two non-negative integers as arguments and shifts the binary representation of the first integer over to the right by the specified shift amount.
         "bit_shift_right" => {
-            function_transform!(bit_not [args] (x, offset: i64) { column_like!(shiftright([x], [py_lit(offset)])) })
+            function_transform!(bit_shift_right [args] (x, offset: i64) { column_like!(shiftright([x], [py_lit(offset)])) })
         }
 
         // Comparison and Conditional functions
@@ -348,7 +348,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // now()                                               	 Returns the time that the search was started.
         "now" => function_transform!(now [args] () { column_like!(current_timestamp()) }),
         // relative_time(<time>,<specifier>)                   	 Adjusts the time by a relative time specifier.
-        "relative_time" => function_transform!(now [args ...] (time) {
+        "relative_time" => function_transform!(relative_time [args ...] (time) {
             let relative_time_spec = match args.get(1).map(Deref::deref) {
                 Some(ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::SnapTime(snap_time)))) => snap_time,
                 Some(v) => bail!("`relative_time` function requires a second argument of type SnapTime, got {:?}", v),
-- 
2.43.0


From b7cbbe5bfa8e5efe134a0934bdee095f9f77c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 07/56] fix: wait for black to be fully imported before
 formatting with it

---
 src/format_python.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/format_python.rs b/src/format_python.rs
index 243b06b..90707ca 100644
--- a/src/format_python.rs
+++ b/src/format_python.rs
@@ -4,6 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::IntoPyDict;
 use std::error::Error;
 use std::fmt::{Debug, Display, Formatter};
+use std::sync::Mutex;
 
 #[derive(Debug, Clone)]
 struct BlackNotInstalled();
@@ -19,12 +20,27 @@ impl Display for BlackNotInstalled {
 
 impl Error for BlackNotInstalled {}
 
+/// Black is not ready for use as soon as it shows up as an imported module, so that only one thread
+/// at a time may import it; the others have to wait without holding on to the interpreter.
+fn import_black(py: Python<'_>) -> Result<Bound<'_, PyModule>> {
+    static IMPORTING: Mutex<()> = Mutex::new(());
+    let black: Result<Py<PyModule>> = py.allow_threads(|| {
+        let _importing = IMPORTING.lock();
+        Python::with_gil(|py| {
+            Ok(PyModule::import_bound(py, "black")
+                .map_err(|_| BlackNotInstalled())?
+                .unbind())
+        })
+    });
+    Ok(black?.into_bound(py))
+}
+
 pub fn format_python_code(code: impl ToString) -> Result<String> {
     // TODO: When ruff format is available on cargo, use that instead of an embedded Python interpeter
     // from black import format_str, FileMode
     // res = format_str("some python code", mode=FileMode())
     let result: Result<String> = Python::with_gil(|py| {
-        let black = PyModule::import_bound(py, "black").map_err(|_| BlackNotInstalled())?;
+        let black = import_black(py)?;
         let mode = black.getattr("FileMode")?.call0()?;
         let args = (code.to_string(),);
         let kwargs = [("mode", mode)].into_py_dict_bound(py);
-- 
2.43.0


From 17b7259610318022a64affa117ca5dfa6ecf1edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 08/56] fix: translate log, round, sum, mvindex and the .
 operator to what they compute

---
 src/functions/eval_fns.rs      | 33 ++++++++++++++++++++++++++++-----
 src/pyspark/transpiler/expr.rs |  8 +++++++-
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index ca4c4e5..74d99c9 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -6,6 +6,7 @@ use crate::pyspark::ast::*;
 use crate::pyspark::base::{
     ContextualizedExpr, PysparkTranspileContext, RuntimeSelection, ToSparkExpr,
 };
+use crate::pyspark::transpiler::expr::sql_identifier;
 use crate::pyspark::transpiler::utils::convert_time_format;
 use crate::spl::ast;
 use crate::spl::ast::TimeSpan;
@@ -260,7 +261,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }),
         // cidrmatch(<cidr>,<ip>)                              	 Returns TRUE when an IP address, <ip>, belongs to a particular CIDR subnet, <cidr>.
         "cidrmatch" => function_transform!(cidrmatch [args] (cidr: String, col: String) {
-            column_like!(expr("cidr_match('{}', {})", cidr, col))
+            column_like!(expr("cidr_match('{}', {})", cidr, sql_identifier(&col)))
         }),
         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
         "coalesce" => function_transform!(coalesce [args -> mapped_args] () {
@@ -349,6 +350,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         "now" => function_transform!(now [args] () { column_like!(current_timestamp()) }),
         // relative_time(<time>,<specifier>)                   	 Adjusts the time by a relative time specifier.
         "relative_time" => function_transform!(relative_time [args ...] (time) {
+            ensure!(args.len() <= 2, "`relative_time` takes two arguments, got {}", args.len());
             let relative_time_spec = match args.get(1).map(Deref::deref) {
                 Some(ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::SnapTime(snap_time)))) => snap_time,
                 Some(v) => bail!("`relative_time` function requires a second argument of type SnapTime, got {:?}", v),
@@ -468,13 +470,24 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!(log([x], [base])) }),
+        "log" => function_transform!(log [args -> mapped_args] (x) {
+            match mapped_args.as_slice() {
+                [] => column_like!(log10([x])),
+                [base] => column_like!(log([base.clone()], [x])),
+                _ => bail!("`log` takes a number and a base, got {} more arguments", mapped_args.len()),
+            }
+        }),
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
         "pow" => function_transform!(pow [args] (x, exp) { column_like!(pow([x], [exp])) }),
         // round(<num>,<precision>)                            	 Returns <num> rounded to the amount of decimal places specified by <precision>. The default is to round to an integer.
-        "round" => function_transform!(round [args] (x, precision: i64) {
+        "round" => function_transform!(round [args ...] (x) {
+            ensure!(args.len() <= 2, "`round` takes a number and a precision, got {} arguments", args.len());
+            let precision: i64 = match args.get(1) {
+                None => 0,
+                Some(precision) => map_arg(precision)?,
+            };
             column_like!(round([x], [py_lit(precision)]))
         }),
         // sigfig(<num>)                                       	 Rounds <num> to the appropriate number of significant figures.
@@ -484,7 +497,11 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // sqrt(<num>)                                         	 Returns the square root of the value.
         "sqrt" => function_transform!(sqrt [args] (x) { column_like!(sqrt([x])) }),
         // sum(<num>,...)                                      	 Returns the sum of numerical values as an integer.
-        "sum" => function_transform!(sum [args] (x) { column_like!(sum([x])) }),
+        "sum" => function_transform!(sum [args -> mapped_args] () {
+            let sum = mapped_args.into_iter().reduce(|sum, x| column_like!([sum] + [x]).into());
+            ensure!(sum.is_some(), "Must provide at least one column to sum");
+            sum.unwrap()
+        }),
 
         // Multivalue eval functions
         // commands(<value>)                                   	 Returns a multivalued field that contains a list of the commands used in <value>.
@@ -513,11 +530,16 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvindex(<mv>,<start>,<end>)                         	 Returns a subset of the multivalue field using the start and end index values.
         "mvindex" => function_transform!(mvindex [args ...] (x, start: i64) {
+            ensure!(args.len() <= 3, "`mvindex` takes a start and an end, got {} arguments", args.len());
             match args.get(2) {
                 None => column_like!(get([x], [py_lit(start)])),
                 Some(end) => {
                     let end: i64 = map_arg(end) ?;
-                    column_like!(slice([x], [py_lit(start + 1)], [py_lit(end - start + 1)]))
+                    ensure!((start < 0) == (end < 0), "UNIMPLEMENTED: `mvindex` from one end to the other");
+                    ensure!(start <= end, "`mvindex` cannot end before it starts");
+                    // Positions count from 1 at the start, and from -1 at the end
+                    let start_position = if start < 0 { start } else { start + 1 };
+                    column_like!(slice([x], [py_lit(start_position)], [py_lit(end - start + 1)]))
                 },
             }
         }),
@@ -539,6 +561,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvzip(<mv_left>,<mv_right>,<delim>)                 	 Combines the values in two multivalue fields. The delimiter is used to specify a delimiting character to join the two values.
         "mvzip" => function_transform!(mvzip [args -> _mapped_args] (left, right) {
+            ensure!(args.len() <= 3, "`mvzip` takes at most three arguments, got {}", args.len());
             let delim: String = match args.get(2) {
                 None => ",".into(),
                 Some(delim) => map_arg(delim) ?,
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 14e072e..3f07e38 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -15,7 +15,7 @@ static SIMPLE_OP_MAP: phf::Map<&'static str, &'static str> = phf_map! {
 };
 
 /// A column name as it has to be written inside a SQL expression
-fn sql_identifier(name: &str) -> String {
+pub fn sql_identifier(name: &str) -> String {
     let is_plain = |part: &str| {
         !part.starts_with(|c: char| c.is_ascii_digit())
             && !part.is_empty()
@@ -73,6 +73,12 @@ impl ToSparkExpr for ast::Expr {
                         _ => bail!("Unsupported comparison operator for wildcard rhs: {}", op),
                     }
                 }
+                // a . b -> F.concat(a, b)
+                (left, ".", right) => {
+                    let left: Expr = left.with_context(ctx).try_into()?;
+                    let right: Expr = right.with_context(ctx).try_into()?;
+                    Ok(column_like!(concat([left.unaliased()], [right.unaliased()])).into())
+                }
                 // a [op] b -> a [op] b
                 (left, op, right) => Ok(ColumnLike::try_binary_op(
                     left.with_context(ctx),
-- 
2.43.0


From 5ab2e3b4363b0ce895ad4a3e684bd494aefbae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 09/56] fix: apply the options and fields that fields, lookup,
 top, rare, fillnull, bin, head, tail and sort are given

---
 src/commands/cmd_bin/pyspark.rs       | 35 ++++++++++++++++++++-------
 src/commands/cmd_fields/pyspark.rs    |  9 +++++++
 src/commands/cmd_fill_null/pyspark.rs | 10 +++++---
 src/commands/cmd_head/pyspark.rs      |  6 +++--
 src/commands/cmd_lookup/pyspark.rs    |  2 +-
 src/commands/cmd_rare/pyspark.rs      | 30 +++++++++++++++--------
 src/commands/cmd_rare/spl.rs          | 31 +++++++++++++-----------
 src/commands/cmd_sort/pyspark.rs      |  2 +-
 src/commands/cmd_tail/spl.rs          |  4 +--
 src/commands/cmd_top/pyspark.rs       | 30 +++++++++++++++--------
 src/commands/cmd_top/spl.rs           | 31 +++++++++++++-----------
 11 files changed, 123 insertions(+), 67 deletions(-)

diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 9ed01b1..a7b9e13 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -3,6 +3,7 @@ use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use crate::spl::ast::FieldOrAlias;
+use anyhow::{bail, ensure};
 
 impl PipelineTransformer for BinCommand {
     fn transform_standalone(
@@ -10,16 +11,32 @@ impl PipelineTransformer for BinCommand {
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
-        let col_name = match self.field.clone() {
-            FieldOrAlias::Field(ast::Field(name)) => name,
-            FieldOrAlias::Alias(ast::Alias { name, .. }) => name,
+        let (source_name, col_name) = match self.field.clone() {
+            FieldOrAlias::Field(ast::Field(name)) => (name.clone(), name),
+            FieldOrAlias::Alias(ast::Alias { expr, name }) => match *expr {
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                    source_name,
+                )))) => (source_name, name),
+                expr => bail!("Unsupported field for `bin`: {:?}", expr),
+            },
         };
-        if let Some(ast::TimeSpan { value, scale }) = self.span.clone() {
-            let span = format!("{} {}", value, scale);
-            df = df.with_column(
-                col_name.clone(),
-                column_like!(window([col("n")], [py_lit(span)])),
-            );
+        ensure!(
+            self.min_span.is_none()
+                && self.bins.is_none()
+                && self.start.is_none()
+                && self.end.is_none()
+                && self.align_time.is_none(),
+            "UNIMPLEMENTED: `bin` command only supports the `span` option"
+        );
+        match self.span.clone() {
+            Some(ast::TimeSpan { value, scale }) => {
+                let span = format!("{} {}", value, scale);
+                df = df.with_column(
+                    col_name.clone(),
+                    column_like!(window([col(source_name)], [py_lit(span)])),
+                );
+            }
+            None => bail!("UNIMPLEMENTED: `bin` command requires a `span`"),
         }
         let subfield = "start";
         df = df.with_column(
diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index d3c637b..8588db4 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -10,6 +10,15 @@ impl PipelineTransformer for FieldsCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        if self.remove_fields {
+            let names = self
+                .fields
+                .iter()
+                .map(|ast::Field(name)| column_like!(py_lit(name.as_str())).into())
+                .collect();
+            return Ok(state.with_df(df.arbitrary_method("drop", names)));
+        }
+
         let cols: Vec<_> = self
             .fields
             .iter()
diff --git a/src/commands/cmd_fill_null/pyspark.rs b/src/commands/cmd_fill_null/pyspark.rs
index c424d1a..e817b60 100644
--- a/src/commands/cmd_fill_null/pyspark.rs
+++ b/src/commands/cmd_fill_null/pyspark.rs
@@ -27,10 +27,12 @@ impl PipelineTransformer for FillNullCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let df = state.df.clone().unwrap_or_default();
 
-        let df = df.arbitrary_method(
-            "fillna",
-            vec![column_like!(py_lit(self.value.clone())).into()],
-        );
+        let mut params: Vec<Expr> = vec![column_like!(py_lit(self.value.clone())).into()];
+        if let Some(fields) = &self.fields {
+            let names: Vec<_> = fields.iter().map(|f| py_string(&f.0, '"')).collect();
+            params.push(PyLiteral(format!("[{}]", names.join(", "))).into());
+        }
+        let df = df.arbitrary_method("fillna", params);
 
         Ok(state.with_df(df))
     }
diff --git a/src/commands/cmd_head/pyspark.rs b/src/commands/cmd_head/pyspark.rs
index b27bf3d..072a16c 100644
--- a/src/commands/cmd_head/pyspark.rs
+++ b/src/commands/cmd_head/pyspark.rs
@@ -1,7 +1,7 @@
 use crate::commands::cmd_head::spl::HeadCommand;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::bail;
+use anyhow::{anyhow, bail};
 
 impl PipelineTransformer for HeadCommand {
     fn transform_standalone(
@@ -48,7 +48,9 @@ impl PipelineTransformer for HeadCommand {
             ),
         };
 
-        df = df.limit(limit as u64);
+        let limit = u64::try_from(limit)
+            .map_err(|_| anyhow!("Cannot keep a negative number of results: {}", limit))?;
+        df = df.limit(limit);
         Ok(state.with_df(df))
     }
 }
diff --git a/src/commands/cmd_lookup/pyspark.rs b/src/commands/cmd_lookup/pyspark.rs
index 73e872b..c755815 100644
--- a/src/commands/cmd_lookup/pyspark.rs
+++ b/src/commands/cmd_lookup/pyspark.rs
@@ -66,6 +66,6 @@ impl PipelineTransformer for LookupCommand {
             output => bail!("Unsupported output definition for `lookup`: {:?}", output),
         });
 
-        Ok(state.with_df(df))
+        Ok(state.with_df(result_df))
     }
 }
diff --git a/src/commands/cmd_rare/pyspark.rs b/src/commands/cmd_rare/pyspark.rs
index 4b7c1b0..dc44388 100644
--- a/src/commands/cmd_rare/pyspark.rs
+++ b/src/commands/cmd_rare/pyspark.rs
@@ -1,7 +1,8 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
+use crate::pyspark::transpiler::expr::sql_identifier;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
-use anyhow::bail;
+use anyhow::{bail, ensure};
 
 impl PipelineTransformer for RareCommand {
     fn transform_standalone(
@@ -14,13 +15,12 @@ impl PipelineTransformer for RareCommand {
             bail!("UNIMPLEMENTED: No implementation yet for `useother=true` in `rare`")
         }
 
-        let groupby_fields: Vec<_> = self
-            .by
-            .clone()
-            .unwrap_or(self.fields.clone())
-            .iter()
-            .map(|f| f.0.clone())
-            .collect();
+        ensure!(
+            self.by.is_none(),
+            "UNIMPLEMENTED: `rare` command does not support a `by` clause yet"
+        );
+
+        let groupby_fields: Vec<_> = self.fields.iter().map(|f| f.0.clone()).collect();
         df = df.group_by(groupby_fields);
 
         df = df.agg(vec![
@@ -30,16 +30,26 @@ impl PipelineTransformer for RareCommand {
         if self.show_percent {
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!(
+                    [[lit(100)] * [col(self.count_field.clone())]]
+                        / [expr("sum({}) OVER ()", sql_identifier(&self.count_field))]
+                ),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].asc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].asc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.arbitrary_method(
+                "drop",
+                vec![column_like!(py_lit(self.count_field.as_str())).into()],
+            );
+        }
+
         Ok(state.with_df(df))
     }
 }
diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index e614f52..dcfceeb 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -3,10 +3,11 @@ use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::operators::keyword;
 use crate::spl::parser::{field_list0, int, ws};
 use crate::spl::python::*;
-use nom::combinator::{map, opt};
+use nom::combinator::{map_res, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
+use std::num::TryFromIntError;
 
 #[derive(Debug, PartialEq, Clone, Hash)]
 #[pyclass(frozen, eq, hash)]
@@ -95,7 +96,7 @@ impl TryFrom<ParsedCommandOptions> for RareCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: value.get_int("limit", 10)?.try_into()?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -110,24 +111,26 @@ impl SplCommand<RareCommand> for RareParser {
     type Options = RareCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, RareCommand> {
-        map(
+        map_res(
             tuple((
                 ws(opt(int)),
                 ws(Self::Options::match_options),
                 ws(field_list0),
                 ws(opt(preceded(ws(keyword("BY")), field_list0))),
             )),
-            |(n, opts, fields, by_fields)| RareCommand {
-                fields,
-                n: n.map(|i| i.0 as u64).unwrap_or(opts.limit),
-                by: by_fields,
-                count_field: opts.count_field,
-                // limit: opts.limit,
-                other_str: opts.other_str,
-                percent_field: opts.percent_field,
-                show_count: opts.show_count,
-                show_percent: opts.show_percent,
-                use_other: opts.use_other,
+            |(n, opts, fields, by_fields)| -> Result<_, TryFromIntError> {
+                Ok(RareCommand {
+                    fields,
+                    n: n.map_or(Ok(opts.limit), |i| i.0.try_into())?,
+                    by: by_fields,
+                    count_field: opts.count_field,
+                    // limit: opts.limit,
+                    other_str: opts.other_str,
+                    percent_field: opts.percent_field,
+                    show_count: opts.show_count,
+                    show_percent: opts.show_percent,
+                    use_other: opts.use_other,
+                })
             },
         )(input)
     }
diff --git a/src/commands/cmd_sort/pyspark.rs b/src/commands/cmd_sort/pyspark.rs
index c5ee775..913dac9 100644
--- a/src/commands/cmd_sort/pyspark.rs
+++ b/src/commands/cmd_sort/pyspark.rs
@@ -62,7 +62,7 @@ impl PipelineTransformer for SortCommand {
         df = df.order_by(sort_fields?);
 
         if self.count != 0 {
-            df = df.limit(self.count as u64);
+            df = df.limit(u64::try_from(self.count)?);
         }
 
         Ok(state.with_df(df))
diff --git a/src/commands/cmd_tail/spl.rs b/src/commands/cmd_tail/spl.rs
index f0187e9..871d620 100644
--- a/src/commands/cmd_tail/spl.rs
+++ b/src/commands/cmd_tail/spl.rs
@@ -2,7 +2,7 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::int;
 use crate::spl::python::*;
-use nom::combinator::map;
+use nom::combinator::map_res;
 use nom::IResult;
 use pyo3::prelude::*;
 
@@ -35,6 +35,6 @@ impl SplCommand<TailCommand> for TailParser {
     type Options = TailCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, TailCommand> {
-        map(int, |n| TailCommand { n: n.0 as u64 })(input)
+        map_res(int, |n| u64::try_from(n.0).map(|n| TailCommand { n }))(input)
     }
 }
diff --git a/src/commands/cmd_top/pyspark.rs b/src/commands/cmd_top/pyspark.rs
index 3e3343e..ecfa978 100644
--- a/src/commands/cmd_top/pyspark.rs
+++ b/src/commands/cmd_top/pyspark.rs
@@ -1,7 +1,8 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
+use crate::pyspark::transpiler::expr::sql_identifier;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
-use anyhow::bail;
+use anyhow::{bail, ensure};
 
 impl PipelineTransformer for TopCommand {
     fn transform_standalone(
@@ -14,13 +15,12 @@ impl PipelineTransformer for TopCommand {
             bail!("UNIMPLEMENTED: No implementation yet for `useother=true` in `top`")
         }
 
-        let groupby_fields: Vec<_> = self
-            .by
-            .clone()
-            .unwrap_or(self.fields.clone())
-            .iter()
-            .map(|f| f.0.clone())
-            .collect();
+        ensure!(
+            self.by.is_none(),
+            "UNIMPLEMENTED: `top` command does not support a `by` clause yet"
+        );
+
+        let groupby_fields: Vec<_> = self.fields.iter().map(|f| f.0.clone()).collect();
         df = df.group_by(groupby_fields);
 
         df = df.agg(vec![
@@ -30,16 +30,26 @@ impl PipelineTransformer for TopCommand {
         if self.show_percent {
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!(
+                    [[lit(100)] * [col(self.count_field.clone())]]
+                        / [expr("sum({}) OVER ()", sql_identifier(&self.count_field))]
+                ),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].desc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].desc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.arbitrary_method(
+                "drop",
+                vec![column_like!(py_lit(self.count_field.as_str())).into()],
+            );
+        }
+
         Ok(state.with_df(df))
     }
 }
diff --git a/src/commands/cmd_top/spl.rs b/src/commands/cmd_top/spl.rs
index 349a6cd..b9c98ec 100644
--- a/src/commands/cmd_top/spl.rs
+++ b/src/commands/cmd_top/spl.rs
@@ -3,10 +3,11 @@ use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::operators::keyword;
 use crate::spl::parser::{field_list1, int, ws};
 use crate::spl::python::*;
-use nom::combinator::{map, opt};
+use nom::combinator::{map_res, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
+use std::num::TryFromIntError;
 
 #[derive(Debug, PartialEq, Clone, Hash)]
 #[pyclass(frozen, eq, hash)]
@@ -95,7 +96,7 @@ impl TryFrom<ParsedCommandOptions> for TopCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: value.get_int("limit", 10)?.try_into()?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -110,24 +111,26 @@ impl SplCommand<TopCommand> for TopParser {
     type Options = TopCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, TopCommand> {
-        map(
+        map_res(
             tuple((
                 ws(opt(int)),
                 ws(Self::Options::match_options),
                 field_list1,
                 ws(opt(preceded(ws(keyword("BY")), field_list1))),
             )),
-            |(n, opts, fields, by_fields)| TopCommand {
-                fields,
-                n: n.map(|i| i.0 as u64).unwrap_or(opts.limit),
-                by: by_fields,
-                count_field: opts.count_field,
-                // limit: opts.limit,
-                other_str: opts.other_str,
-                percent_field: opts.percent_field,
-                show_count: opts.show_count,
-                show_percent: opts.show_percent,
-                use_other: opts.use_other,
+            |(n, opts, fields, by_fields)| -> Result<_, TryFromIntError> {
+                Ok(TopCommand {
+                    fields,
+                    n: n.map_or(Ok(opts.limit), |i| i.0.try_into())?,
+                    by: by_fields,
+                    count_field: opts.count_field,
+                    // limit: opts.limit,
+                    other_str: opts.other_str,
+                    percent_field: opts.percent_field,
+                    show_count: opts.show_count,
+                    show_percent: opts.show_percent,
+                    use_other: opts.use_other,
+                })
             },
         )(input)
     }
-- 
2.43.0


From 0e99cbaa7f46b611499f4f5df24bf802fe5451b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 10/56] fix: keep the blanks inside quotes, and tell empty
 strings from a doubled quote

---
 src/spl/parser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 5ad0441..8a2a9bf 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -447,18 +447,26 @@ pub fn bool_(input: &str) -> IResult<&str, ast::BoolValue> {
 
 //   def doubleQuoted[_: P]: P[String] = P( "\"" ~ (CharsWhile(!"\"".contains(_)) | "\\" ~~ AnyChar | !"\"").rep.! ~ "\"" )
 fn _double_quoted_content(input: &str) -> IResult<&str, &str> {
-    ws(recognize(many0(alt((
+    recognize(many0(alt((
         recognize(pair(tag(r#"\"#), anychar)),
         recognize(none_of(r#""\"#)),
-    )))))
-    .parse(input)
+    ))))(input)
+}
+
+/// What can stand between doubled quotes: `""xyz""` is one string, but `"", ""` is two empty ones
+fn _doubly_quoted_content(input: &str) -> IResult<&str, &str> {
+    verify(_double_quoted_content, |content: &str| {
+        content.contains(|c: char| c.is_alphanumeric() || c == '*')
+            && !content.contains(|c: char| c.is_whitespace() || ",()=<>!|".contains(c))
+            && !content.starts_with('.')
+    })(input)
 }
 
 pub fn double_quoted(input: &str) -> IResult<&str, &str> {
     alt((
         delimited(
             tag("\""),
-            recognize(tuple((tag("\""), _double_quoted_content, tag("\"")))),
+            recognize(tuple((tag("\""), _doubly_quoted_content, tag("\"")))),
             tag("\""),
         ),
         delimited(tag("\""), _double_quoted_content, tag("\"")),
@@ -468,10 +476,10 @@ pub fn double_quoted(input: &str) -> IResult<&str, &str> {
 pub fn single_quoted(input: &str) -> IResult<&str, &str> {
     delimited(
         tag("\'"),
-        ws(recognize(many0(alt((
+        recognize(many0(alt((
             recognize(pair(tag(r#"\"#), anychar)),
             recognize(none_of(r#"'\"#)),
-        ))))),
+        )))),
         tag("\'"),
     )(input)
 }
-- 
2.43.0


From 7253b3d1c597b22bc381f1435a26d8bec28a0309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 11/56] fix: write numbers with a fraction and truth values as
 the Python literals they are

---
 src/pyspark/ast.rs             | 6 +++++-
 src/pyspark/transpiler/expr.rs | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index d8bbc06..d6c12eb 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -106,7 +106,11 @@ impl From<i64> for PyLiteral {
 }
 impl From<f64> for PyLiteral {
     fn from(value: f64) -> PyLiteral {
-        PyLiteral(value.to_string())
+        PyLiteral(if value.is_finite() {
+            format!("{value:?}")
+        } else {
+            format!("float(\"{value}\")")
+        })
     }
 }
 impl From<bool> for PyLiteral {
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 3f07e38..cdc9233 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -106,7 +106,7 @@ impl ToSparkExpr for ast::Expr {
             // Double constant -> Double literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Double(ast::DoubleValue(
                 val,
-            )))) => Ok(ColumnLike::literal(val).into()),
+            )))) => Ok(ColumnLike::literal(PyLiteral::from(val).0).into()),
 
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
@@ -118,7 +118,7 @@ impl ToSparkExpr for ast::Expr {
 
             // Boolean constant -> Boolean literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Bool(ast::BoolValue(val)))) => {
-                Ok(ColumnLike::literal(val).into())
+                Ok(ColumnLike::literal(PyLiteral::from(val).0).into())
             }
 
             // IPv4 cidr -> String literal column
-- 
2.43.0


From fbd6e76d35dc4e51b95deea12a7b95b03fcf9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 12/56] fix: translate range and the short percentile names to
 aggregates that exist

---
 src/functions/stat_fns.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 3724c76..8142d45 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -64,6 +64,12 @@ fn _as_call_and_alias(expr: &ast::Expr) -> Result<(ast::Call, Option<String>)> {
     }
 }
 
+/// The number at the end of the short names of the percentile function
+fn _percentile_suffix(name: &str) -> Option<&str> {
+    let digits = name.strip_prefix("perc").or(name.strip_prefix('p'))?;
+    (!digits.is_empty() && digits.chars().all(|c| c.is_ascii_digit())).then_some(digits)
+}
+
 pub fn stats_fn(
     expr: ast::Expr,
     df: DataFrame,
@@ -160,9 +166,16 @@ fn stats_fn_bare(
                 column_like!(percentile_approx([x], [py_lit(percentile as f64 / 100.0)]))
             })
         }
+        // perc<percentile>(<value>) and p<percentile>(<value>) are short for percentile<percentile>(<value>)
+        perc if _percentile_suffix(perc).is_some() => {
+            function_transform!(perc [args] (x) {
+                let percentile: u32 = _percentile_suffix(perc).unwrap_or_default().parse()?;
+                column_like!(percentile_approx([x], [py_lit(percentile as f64 / 100.0)]))
+            })
+        }
         // range(<value>)                       	 If the field values are numeric, returns the difference between the maximum and minimum values in the field specified.
         "range" => {
-            function_transform!(range [args] (x) { column_like!(max([[x.clone()] - [min([x])]])) })
+            function_transform!(range [args] (x) { column_like!([max([x.clone()])] - [min([x])]) })
         }
         // stdev(<value>)                       	 Returns the sample standard deviation of the values in the field specified.
         "stdev" => function_transform!(stdev [args] (x) { column_like!(stddev_samp([x])) }),
-- 
2.43.0


From 3e87d573d1ac2690450caa9fc31adaa92a4580b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 13/56] fix: substitute macro arguments literally, and check
 the arguments and finiteness of macro calls

---
 python/spl_transpiler/macros.py | 38 +++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 75223d2..fc13c23 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -81,6 +81,17 @@ class CombinedMacroLoader(MacroLoader):
         raise KeyError(f"No macro found for `{item}`")
 
 
+def _ensure_finite(macro_name: str, macros: MacroLoader, callers=()):
+    """A macro whose definition leads back to itself has no final value"""
+    if macro_name in callers:
+        raise ValueError(
+            f"Macro is defined in terms of itself: {' -> '.join([*callers, macro_name])}"
+        )
+    definition = MacroDefinition.model_validate(macros[macro_name]).definition
+    for _, macro_call in detect_macros(definition)[0]:
+        _ensure_finite(macro_call.macro_name, macros, (*callers, macro_name))
+
+
 def substitute_macros(code, macros: MacroLoader):
     (chunks, suffix) = detect_macros(code)
     query_parts = []
@@ -92,30 +103,35 @@ def substitute_macros(code, macros: MacroLoader):
 
         macro_spec = MacroDefinition.model_validate(macros[macro_name])
 
+        _ensure_finite(macro_name, macros)
+
         macro_final_value = macro_spec.definition
 
+        if len(macro_spec.arguments) != len(args):
+            raise ValueError(
+                f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
+            )
+
         if args:
             if all(name is None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
                 args = dict(zip(macro_spec.arguments, [value for _, value in args]))
             elif all(name is not None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
+                args = dict(args)
+                if set(args) != set(macro_spec.arguments):
                     raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
+                        f"Mismatched names of arguments in macro call {macro_name}: expected {macro_spec.arguments}, got {list(args)}"
                     )
-                args = dict(args)
             else:
                 raise ValueError(
                     f"Mixture of named and positional arguments in macro call {macro_name}"
                 )
 
-            for arg_name, arg_substitute_value in args.items():
-                macro_final_value = re.sub(
-                    f"\\${arg_name}\\$", arg_substitute_value, macro_final_value
-                )
+            # All at once, so that the value of one argument is not searched for the next
+            macro_final_value = re.sub(
+                "|".join(rf"\${re.escape(arg_name)}\$" for arg_name in args),
+                lambda m: args[m.group()[1:-1]],
+                macro_final_value,
+            )
 
         printable_args = ",".join(
             value if name is None else f"{name}={value}"
-- 
2.43.0


From 4ca875d5318931f82ab7b7bb2d633478d1c54b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 14/56] fix: make the eval functions of the runtime compute
 their results

---
 python/spl_transpiler/runtime/base.py         |  3 +-
 .../spl_transpiler/runtime/functions/eval.py  | 77 ++++++++++++-------
 .../spl_transpiler/runtime/functions/utils.py |  2 +-
 .../spl_transpiler/runtime/udfs/__init__.py   |  6 +-
 4 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/python/spl_transpiler/runtime/base.py b/python/spl_transpiler/runtime/base.py
index 013d1ee..ff9e33e 100644
--- a/python/spl_transpiler/runtime/base.py
+++ b/python/spl_transpiler/runtime/base.py
@@ -4,8 +4,9 @@ from typing import Any
 from pydantic import validate_call, ConfigDict, BaseModel, model_validator
 import pyspark.sql.functions as F
 
+# Results are returned as they are: wrapped in an `Expr`, a column could not be part of a larger expression
 enforce_types = validate_call(
-    config=ConfigDict(arbitrary_types_allowed=True), validate_return=True
+    config=ConfigDict(arbitrary_types_allowed=True), validate_return=False
 )
 
 
diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 446a0ba..77f3498 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1,3 +1,4 @@
+import re
 import warnings
 from functools import reduce
 
@@ -17,7 +18,7 @@ from spl_transpiler.runtime.functions import utils
 
 @enforce_types
 def bit_and(a: Expr, b: Expr) -> Expr:
-    a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
+    return a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
 
 
 #         // bit_or(<values>)                                    	 Bitwise OR function that takes two or more non-negative integers as arguments and sequentially performs bitwise OR on them.
@@ -102,7 +103,7 @@ def case(*args: Expr) -> Expr:
 
     result = F
     for condition, value in zip(args[::2], args[1::2]):
-        result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
+        result = result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
 
     return result
 
@@ -114,8 +115,12 @@ def case(*args: Expr) -> Expr:
 
 
 @enforce_types
-def cidrmatch(cidr: Expr, ip: Expr) -> Expr:
-    return udfs.cidr_match(cidr.to_pyspark_expr(), ip.to_pyspark_expr())
+def cidrmatch(cidr: str | Expr, ip: Expr) -> Expr:
+    if isinstance(cidr, str):
+        cidr_column = F.lit(cidr)
+    else:
+        cidr_column = cidr.to_pyspark_expr()
+    return udfs.cidr_match(cidr_column, ip.to_pyspark_expr())
 
 
 #         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
@@ -249,7 +254,7 @@ def true() -> Expr:
 
 
 @enforce_types
-def validate(*args) -> Expr:
+def validate(*args: Expr) -> Expr:
     if len(args) % 2 != 0:
         raise ValueError(
             "validate() function requires an even number of arguments (conditions and values)."
@@ -286,7 +291,7 @@ def ipmask(mask: Expr, ip: Expr) -> Expr:
 @enforce_types
 def printf(format_str: Expr, *args: Expr) -> Expr:
     return udfs.printf(
-        format_str.to_pyspark_expr(), [arg.to_pyspark_expr() for arg in args]
+        format_str.to_pyspark_expr(), *(arg.to_pyspark_expr() for arg in args)
     )
 
 
@@ -299,7 +304,9 @@ def printf(format_str: Expr, *args: Expr) -> Expr:
 
 @enforce_types
 def tonumber(value: Expr, base: int = 10) -> Expr:
-    return udfs.tonumber(value.to_pyspark_expr(), base=base)
+    if base == 10:
+        return value.to_pyspark_expr().cast("double")
+    return udfs.tonumber(value.to_pyspark_expr(), F.lit(base))
 
 
 #         // tostring(<value>,<format>)                          	 Converts the input, such as a number or a Boolean value, to a string.
@@ -310,8 +317,10 @@ def tonumber(value: Expr, base: int = 10) -> Expr:
 
 
 @enforce_types
-def tostring(value, format=None):
-    return udfs.tostring(value.to_pyspark_expr(), format=format)
+def tostring(value: Expr, format: str | None = None) -> Expr:
+    if format is None:
+        return value.to_pyspark_expr().cast("string")
+    return udfs.tostring(value.to_pyspark_expr(), F.lit(format))
 
 
 #
@@ -427,10 +436,10 @@ def strftime(date: Expr, format: str, is_spl_format=True) -> Expr:
 
 
 @enforce_types
-def strptime(date: str, format: str, is_spl_format=True) -> Expr:
+def strptime(date: Expr, format: str, is_spl_format=True) -> Expr:
     if is_spl_format:
         format = utils.convert_time_format(format)
-    return F.to_timestamp(date, format)
+    return F.to_timestamp(date.to_pyspark_expr(), format)
 
 
 #         // time()                                              	 The time that eval function was computed. The time will be different for each event, based on when the event was processed.
@@ -708,7 +717,7 @@ def ln(num: Expr) -> Expr:
 
 @enforce_types
 def log(num: Expr, base: int = 10) -> Expr:
-    return F.log(num.to_pyspark_expr(), base)
+    return F.log(base, num.to_pyspark_expr())
 
 
 #         // pi()                                                	 Returns the constant pi to 11 digits of precision.
@@ -763,7 +772,7 @@ def sqrt(num: Expr) -> Expr:
 @enforce_types
 def sum_(*nums: Expr) -> Expr:
     # Adds the columns together, creating a new column whose value is the sum of the others
-    return sum(*(n.to_pyspark_expr() for n in nums))
+    return reduce(lambda a, b: a + b, (n.to_pyspark_expr() for n in nums))
 
 
 #
@@ -786,8 +795,8 @@ def commands(value: Expr) -> Expr:
 
 
 @enforce_types
-def mvappend(values: Expr) -> Expr:
-    return F.concat(*[v.to_pyspark_expr() for v in values])
+def mvappend(*values: Expr) -> Expr:
+    return F.concat(*(v.to_pyspark_expr() for v in values))
 
 
 #         // mvcount(<mv>)                                       	 Returns the count of the number of values in the specified field.
@@ -848,10 +857,18 @@ def mvfind(column: Expr, regex: Expr) -> Expr:
 
 @enforce_types
 def mvindex(column: Expr, start: int, end: int | None = None) -> Expr:
+    mv = column.to_pyspark_expr()
+
+    # Negative positions count from the end
+    def position(index):
+        return F.lit(index) if index >= 0 else F.size(mv) + F.lit(index)
+
     if end is None:
-        return F.get(column.to_pyspark_expr(), start)
+        return F.get(mv, position(start))
     else:
-        return F.slice(column.to_pyspark_expr(), start + 1, end - start + 1)
+        first = F.greatest(position(start), F.lit(0))
+        length = F.greatest(position(end) - first + F.lit(1), F.lit(0))
+        return F.slice(mv, first + F.lit(1), length)
 
 
 #         // mvjoin(<mv>,<delim>)                                	 Takes all of the values in a multivalue field and appends the values together using a delimiter.
@@ -920,7 +937,9 @@ def mvsort(column: Expr) -> Expr:
 @enforce_types
 def mvzip(left: Expr, right: Expr, delimiter: str = ",") -> Expr:
     return F.zip_with(
-        left, right, lambda left_, right_: F.concat_ws(delimiter, left_, right_)
+        left.to_pyspark_expr(),
+        right.to_pyspark_expr(),
+        lambda left_, right_: F.concat_ws(delimiter, left_, right_),
     )
 
 
@@ -943,7 +962,7 @@ def mv_to_json_array(column: Expr, invert_types: bool = False) -> Expr:
 
 @enforce_types
 def split(column: Expr, delimiter: str) -> Expr:
-    return F.split(column.to_pyspark_expr(), delimiter)
+    return F.split(column.to_pyspark_expr(), re.escape(delimiter))
 
 
 #
@@ -966,7 +985,7 @@ def split(column: Expr, delimiter: str) -> Expr:
 
 @enforce_types
 def avg(*args: Expr) -> Expr:
-    return sum(*(a.to_pyspark_expr() for a in args)) / len(args)
+    return reduce(lambda a, b: a + b, (a.to_pyspark_expr() for a in args)) / len(args)
 
 
 #         // max(<values>)                                       	 Returns the maximum of a set of string or numeric values.
@@ -987,9 +1006,8 @@ def avg(*args: Expr) -> Expr:
 @enforce_types
 def max_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.greatest(a.to_pyspark_expr(), b.to_pyspark_expr()),
-        args[1:],
-        args[0].to_pyspark_expr(),
+        lambda a, b: F.greatest(a, b),
+        (arg.to_pyspark_expr() for arg in args),
     )
 
 
@@ -1011,9 +1029,8 @@ def max_(*args: Expr) -> Expr:
 @enforce_types
 def min_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.least(a.to_pyspark_expr(), b.to_pyspark_expr()),
-        args[1:],
-        args[0].to_pyspark_expr(),
+        lambda a, b: F.least(a, b),
+        (arg.to_pyspark_expr() for arg in args),
     )
 
 
@@ -1054,7 +1071,7 @@ def lower(x: Expr):
 
 @enforce_types
 def ltrim(x: Expr, chars: str):
-    return F.ltrim(x.to_pyspark_expr(), chars)
+    return F.ltrim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
@@ -1067,6 +1084,8 @@ def ltrim(x: Expr, chars: str):
 
 @enforce_types
 def replace(input: Expr, regex: str, replacement: str):
+    # SPL refers to captured groups as \1, Spark as $1
+    replacement = re.sub(r"\\(\d)", r"$\1", replacement.replace("$", r"\$"))
     return F.regexp_replace(input.to_pyspark_expr(), regex, replacement)
 
 
@@ -1078,7 +1097,7 @@ def replace(input: Expr, regex: str, replacement: str):
 
 @enforce_types
 def rtrim(x: Expr, chars: str):
-    return F.rtrim(x.to_pyspark_expr(), chars)
+    return F.rtrim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // spath(<value>,<path>)                               	 Extracts information from the structured data formats XML and JSON.
@@ -1109,7 +1128,7 @@ def substr(column: Expr, start: int, length: int):
 
 @enforce_types
 def trim(x: Expr, chars: str):
-    return F.trim(x.to_pyspark_expr(), chars)
+    return F.trim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // upper(<str>)                                        	 Returns the string in uppercase.
diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index b9a1ae5..7559225 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -10,7 +10,7 @@ from pyspark.sql import functions as F
 @enforce_types
 def offset_time(time_col, offset: TimeSpan):
     return time_col + F.expr(
-        f"INTERVAL {offset.value} {offset.scale.to_ascii_uppercase()}"
+        f"INTERVAL {offset.value} {offset.scale.value.upper()}"
     )
 
 
diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 81fcb27..7e4b241 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -4,7 +4,7 @@ import ipaddress
 
 
 @udf(returnType=BooleanType())
-def cidr_match(ip_address, cidr_range):
+def cidr_match(cidr_range, ip_address):
     try:
         # Parse the IP address
         ip = ipaddress.ip_address(ip_address)
@@ -36,7 +36,7 @@ def ipmask(mask, ip):
 
 
 @udf(returnType=StringType())
-def printf(format_str, args):
+def printf(format_str, *args):
     return format_str % args
 
 
@@ -52,6 +52,8 @@ def tonumber(value, base=10):
 def tostring(value, format: str | None = None):
     # "binary", "hex", "commas", "duration"
     match (value, format):
+        case (None, _):
+            return None
         case (bool(), None):
             return "True" if value else "False"
         case (int() | float(), None):
-- 
2.43.0


From 7ba455ead300fccd6b1d0b0a578a63b19956a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 15/56] fix: count values, count distinct values exactly and
 add stdevp in the runtime

---
 .../spl_transpiler/runtime/functions/stats.py | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index b3595a2..9e7f727 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -41,14 +41,19 @@ def avg(value: Expr) -> AvgStatsFn:
 #         }),
 class CountStatsFn(StatsFunction):
     name: Literal["count"] = "count"
+    value: Expr | None = None
 
     def to_pyspark_expr_simple(self):
-        return F.count(F.lit(1))
+        if self.value is None:
+            return F.count(F.lit(1))
+        return F.count(self.value.to_pyspark_expr())
 
 
 @enforce_types
-def count() -> CountStatsFn:
-    return CountStatsFn()
+def count(*values: Expr) -> CountStatsFn:
+    if len(values) > 1:
+        raise ValueError(f"count() takes at most one value, got {len(values)}")
+    return CountStatsFn(value=values[0]) if values else CountStatsFn()
 
 
 #         // distinct_count(<value>)              	 Returns the count of distinct values in the field specified.
@@ -63,7 +68,7 @@ class DistinctCountStatsFn(StatsFunction):
     x: Expr
 
     def to_pyspark_expr_simple(self):
-        return F.approx_count_distinct(self.x.to_pyspark_expr())
+        return F.count_distinct(self.x.to_pyspark_expr())
 
 
 @enforce_types
@@ -88,6 +93,7 @@ class EstdcStatsFn(StatsFunction):
         return F.approx_count_distinct(self.x.to_pyspark_expr())
 
 
+@enforce_types
 def estdc(x: Expr) -> EstdcStatsFn:
     return EstdcStatsFn(x=x)
 
@@ -285,6 +291,19 @@ def stdev(value: Expr) -> StdevStatsFn:
 #         "stdevp" => function_transform!(stdevp [args] (x) { column_like!(stddev_pop([x])) }),
 
 
+class StdevpStatsFn(StatsFunction):
+    name: Literal["stdevp"] = "stdevp"
+    value: Expr
+
+    def to_pyspark_expr_simple(self):
+        return F.stddev_pop(self.value.to_pyspark_expr())
+
+
+@enforce_types
+def stdevp(value: Expr) -> StdevpStatsFn:
+    return StdevpStatsFn(value=value)
+
+
 class StddevStatsFn(StatsFunction):
     name: Literal["stddev"] = "stddev"
     value: Expr
-- 
2.43.0


From 6e2ca1690909cf193a3bf150ee818317c6e4fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 16/56] fix: give the runtime commands a default source, and
 read data models where they are

---
 .../spl_transpiler/runtime/commands/data_model.py  | 14 +++++++++-----
 python/spl_transpiler/runtime/commands/eval.py     |  6 +++++-
 .../spl_transpiler/runtime/commands/fill_null.py   |  4 ++++
 python/spl_transpiler/runtime/commands/search.py   |  4 +++-
 python/spl_transpiler/runtime/commands/stats.py    |  6 +++++-
 python/spl_transpiler/runtime/commands/tstats.py   |  8 ++++----
 python/spl_transpiler/runtime/config.py            |  4 ++++
 7 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/data_model.py b/python/spl_transpiler/runtime/commands/data_model.py
index 0f1351a..3a95dd7 100644
--- a/python/spl_transpiler/runtime/commands/data_model.py
+++ b/python/spl_transpiler/runtime/commands/data_model.py
@@ -7,9 +7,15 @@ from spl_transpiler.runtime.base import enforce_types
 from spl_transpiler.runtime.config import settings
 
 
+def data_model(*args, **kwargs) -> DataFrame:
+    # In a program, the dataframe so far is the first argument of each command: this one never has any
+    if args and args[0] is None:
+        args = args[1:]
+    return _data_model(*args, **kwargs)
+
+
 @enforce_types
-def data_model(
-    # df: DataFrame | None,
+def _data_model(
     data_model_name: str,
     dataset_name: str | None = None,
     search_mode: str | None = "search",
@@ -17,8 +23,6 @@ def data_model(
     allow_old_summaries: bool | None = None,
     summaries_only: bool | None = None,
 ) -> DataFrame:
-    # if df is not None:
-    #     raise NotImplementedError("Cannot pass input to `data_model`")
     if search_mode and search_mode != "search":
         raise NotImplementedError(
             "`data_model` command does not support search_mode other than 'search'"
@@ -39,6 +43,6 @@ def data_model(
     table_name = ".".join(
         data_model_name.split(".") + (dataset_name or "").split(".")[1:]
     )
-    df = settings().table_lookup_function(table_name)
+    df = settings().table_lookup_function(data_model=table_name)
 
     return df
diff --git a/python/spl_transpiler/runtime/commands/eval.py b/python/spl_transpiler/runtime/commands/eval.py
index 1d1c502..d2797c9 100644
--- a/python/spl_transpiler/runtime/commands/eval.py
+++ b/python/spl_transpiler/runtime/commands/eval.py
@@ -1,10 +1,14 @@
 from pyspark.sql import DataFrame
 
 from spl_transpiler.runtime.base import enforce_types, Expr
+from spl_transpiler.runtime.config import DEFAULT_INDEX, settings
 
 
 @enforce_types
-def eval(df: DataFrame, **exprs: Expr) -> DataFrame:
+def eval(df: DataFrame | None, **exprs: Expr) -> DataFrame:
+    if df is None:
+        df = settings().table_lookup_function(index=DEFAULT_INDEX)
+
     for name, expr in exprs.items():
         df = df.withColumn(name, expr.to_pyspark_expr())
     return df
diff --git a/python/spl_transpiler/runtime/commands/fill_null.py b/python/spl_transpiler/runtime/commands/fill_null.py
index 9a57f4d..8b47d28 100644
--- a/python/spl_transpiler/runtime/commands/fill_null.py
+++ b/python/spl_transpiler/runtime/commands/fill_null.py
@@ -1,6 +1,7 @@
 from pyspark.sql import DataFrame, functions as F
 
 from spl_transpiler.runtime.base import enforce_types
+from spl_transpiler.runtime.config import DEFAULT_INDEX, settings
 
 
 @enforce_types
@@ -9,6 +10,9 @@ def fill_null(
     value: str,
     fields: list[str] | None = None,
 ) -> DataFrame:
+    if df is None:
+        df = settings().table_lookup_function(index=DEFAULT_INDEX)
+
     type_map = dict(df.dtypes)
     fields = fields if fields is not None else list(type_map)
 
diff --git a/python/spl_transpiler/runtime/commands/search.py b/python/spl_transpiler/runtime/commands/search.py
index a309437..57dfd3f 100644
--- a/python/spl_transpiler/runtime/commands/search.py
+++ b/python/spl_transpiler/runtime/commands/search.py
@@ -3,7 +3,7 @@ from functools import reduce
 from pyspark.sql import DataFrame, functions as F
 
 from spl_transpiler.runtime.base import enforce_types, Expr
-from spl_transpiler.runtime.config import settings
+from spl_transpiler.runtime.config import DEFAULT_INDEX, settings
 
 
 @enforce_types
@@ -22,6 +22,8 @@ def search(
     **field_exprs: Expr,
 ) -> DataFrame:
     if df is None:
+        if index is None and source is None and source_type is None:
+            index = DEFAULT_INDEX
         df = settings().table_lookup_function(
             index=index,
             source=source,
diff --git a/python/spl_transpiler/runtime/commands/stats.py b/python/spl_transpiler/runtime/commands/stats.py
index 5097f1e..3b79339 100644
--- a/python/spl_transpiler/runtime/commands/stats.py
+++ b/python/spl_transpiler/runtime/commands/stats.py
@@ -1,16 +1,20 @@
 from pyspark.sql import DataFrame
 
 from spl_transpiler.runtime.base import enforce_types, Expr
+from spl_transpiler.runtime.config import DEFAULT_INDEX, settings
 from spl_transpiler.runtime.functions.stats import StatsFunction
 
 
 @enforce_types
 def stats(
-    df: DataFrame,
+    df: DataFrame | None,
     *,
     by: list[Expr] = (),
     **stat_exprs: StatsFunction,
 ) -> DataFrame:
+    if df is None:
+        df = settings().table_lookup_function(index=DEFAULT_INDEX)
+
     aggs = []
     for label, expr in stat_exprs.items():
         df, agg_expr = expr.to_pyspark_expr(df)
diff --git a/python/spl_transpiler/runtime/commands/tstats.py b/python/spl_transpiler/runtime/commands/tstats.py
index f8fee94..ca43f65 100644
--- a/python/spl_transpiler/runtime/commands/tstats.py
+++ b/python/spl_transpiler/runtime/commands/tstats.py
@@ -15,7 +15,7 @@ class DataModelSpecifier(BaseModel):
     def __str__(self) -> str:
         return ".".join(
             s
-            for name in [self.datamodel.split("."), self.nodename or ""]
+            for name in [self.datamodel, self.nodename or ""]
             for s in name.split(".")
             if s
         )
@@ -32,6 +32,8 @@ def tstats(
     **stat_exprs: StatsFunction,
 ) -> DataFrame:
     match (df, from_):
+        case (None, None):
+            raise ValueError("Either `df` or `from_` must be provided")
         case (None, from_):
             df = data_model(
                 data_model_name=from_.datamodel,
@@ -40,15 +42,13 @@ def tstats(
             )
         case (df, None):
             pass
-        case (None, None):
-            raise ValueError("Either `df` or `from_` must be provided")
         case _:
             raise ValueError("Invalid combination of `df` and `from_`")
 
     if fill_null_value is not None:
         df = fill_null(df, value=fill_null_value)
 
-    if where:
+    if where is not None:
         df = df.where(where.to_pyspark_expr())
 
     df = commands.stats(df, by=by, **stat_exprs)
diff --git a/python/spl_transpiler/runtime/config.py b/python/spl_transpiler/runtime/config.py
index 96cd655..9816a98 100644
--- a/python/spl_transpiler/runtime/config.py
+++ b/python/spl_transpiler/runtime/config.py
@@ -103,6 +103,10 @@ class SplTranspilerSettings(BaseSettings):
     table_lookup_function: Annotated[Callable, lookup_callable] = default_table_lookup
 
 
+# The table that is read where neither the query nor a preceding command says which one
+DEFAULT_INDEX = "main"
+
+
 @cache
 def settings() -> SplTranspilerSettings:
     return SplTranspilerSettings()
-- 
2.43.0


From 9d7b46d6f0dcbfd9b1cdf6ede853c00e8b4d98b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 17/56] fix: put the statements of runtime programs before the
 expressions that use them

---
 src/pyspark/ast.rs | 156 +++++++++++++++++++++++----------------------
 1 file changed, 80 insertions(+), 76 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index d6c12eb..e0c4291 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -429,7 +429,8 @@ impl ToSparkQuery for PyDict {
             out_preface.extend(preface);
             out_vals.push(format!("{}: {}", py_string(key, '"'), primary_df_code));
         }
-        Ok(format!(r#"{{ {} }}"#, out_vals.join(", ")).into())
+        let code = format!(r#"{{ {} }}"#, out_vals.join(", "));
+        Ok(PythonCode::new(code, out_preface, None))
     }
 }
 
@@ -472,7 +473,8 @@ impl ToSparkQuery for PyList {
             out_preface.extend(preface);
             out_vals.push(primary_df_code);
         }
-        Ok(format!(r#"[ {} ]"#, out_vals.join(", ")).into())
+        let code = format!(r#"[ {} ]"#, out_vals.join(", "));
+        Ok(PythonCode::new(code, out_preface, None))
     }
 }
 
@@ -543,7 +545,8 @@ impl ToSparkQuery for PyRuntimeFunc {
             out_args.push(format!("{}={}", key, primary_df_code).to_string());
         }
 
-        Ok(format!("functions.{}({})", self.name, out_args.join(", ")).into())
+        let code = format!("functions.{}({})", self.name, out_args.join(", "));
+        Ok(PythonCode::new(code, out_preface, None))
     }
 }
 
@@ -901,109 +904,97 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.select({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                let columns = columns?.join(", ");
+                source.continued(ctx, |df| format!("{df}.select({columns},)"))
+            }
+            DataFrame::Where { source, condition } => {
+                let condition = condition.to_spark_query(ctx)?;
+                source.continued(ctx, |df| format!("{df}.where({condition},)"))
             }
-            DataFrame::Where { source, condition } => Ok(format!(
-                "{}.where({},)",
-                source.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
-            )
-            .into()),
             DataFrame::GroupBy { source, columns } => {
                 // Extra trailing comma is intentional
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|s| s.to_spark_query(ctx).map(|s| format!("{}, ", s)))
                     .collect();
-                Ok(format!(
-                    "{}.groupBy([{}])",
-                    source.to_spark_query(ctx)?,
-                    columns?.join("")
-                )
-                .into())
+                let columns = columns?.join("");
+                source.continued(ctx, |df| format!("{df}.groupBy([{columns}])"))
             }
             DataFrame::Aggregation { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.agg({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                let columns = columns?.join(", ");
+                source.continued(ctx, |df| format!("{df}.agg({columns},)"))
             }
             DataFrame::WithColumn {
                 source,
                 column,
                 name,
-            } => Ok(format!(
-                "{}.withColumn({}, {},)",
-                source.to_spark_query(ctx)?,
-                py_string(name, '\''),
-                column.to_spark_query(ctx)?,
-            )
-            .into()),
+            } => {
+                let name = py_string(name, '\'');
+                let column = column.to_spark_query(ctx)?;
+                source.continued(ctx, |df| format!("{df}.withColumn({name}, {column},)"))
+            }
             DataFrame::WithColumnRenamed {
                 source,
                 old_name,
                 new_name,
-            } => Ok(format!(
-                "{}.withColumnRenamed({}, {},)",
-                source.to_spark_query(ctx)?,
-                py_string(old_name, '\''),
-                py_string(new_name, '\''),
-            )
-            .into()),
+            } => {
+                let old_name = py_string(old_name, '\'');
+                let new_name = py_string(new_name, '\'');
+                source.continued(ctx, |df| {
+                    format!("{df}.withColumnRenamed({old_name}, {new_name},)")
+                })
+            }
             DataFrame::OrderBy { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.orderBy({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                let columns = columns?.join(", ");
+                source.continued(ctx, |df| format!("{df}.orderBy({columns},)"))
+            }
+            DataFrame::UnionByName { source, other } => {
+                let PythonCode {
+                    preface,
+                    primary_df_code: other,
+                } = other.to_spark_query(ctx)?;
+                let mut code = source.continued(ctx, |df| {
+                    format!("{df}.unionByName({other}, allowMissingColumns=True,)")
+                })?;
+                code.preface.extend(preface);
+                Ok(code)
             }
-            DataFrame::UnionByName { source, other } => Ok(format!(
-                "{}.unionByName({}, allowMissingColumns=True,)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
-            )
-            .into()),
             DataFrame::Limit { source, limit } => {
-                Ok(format!("{}.limit({},)", source.to_spark_query(ctx)?, limit).into())
+                source.continued(ctx, |df| format!("{df}.limit({limit},)"))
             }
             DataFrame::Tail { source, limit } => {
-                Ok(format!("{}.tail({})", source.to_spark_query(ctx)?, limit).into())
+                source.continued(ctx, |df| format!("{df}.tail({limit})"))
             }
             DataFrame::Join {
                 source,
                 other,
                 condition,
                 join_type,
-            } => Ok(format!(
-                "{}.join({}, {}, {},)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
-                py_string(join_type, '\'')
-            )
-            .into()),
-            DataFrame::Alias { source, name } => Ok(format!(
-                "{}.alias({},)",
-                source.to_spark_query(ctx)?,
-                py_string(name, '\'')
-            )
-            .into()),
+            } => {
+                let PythonCode {
+                    preface,
+                    primary_df_code: other,
+                } = other.to_spark_query(ctx)?;
+                let condition = condition.to_spark_query(ctx)?;
+                let join_type = py_string(join_type, '\'');
+                let mut code = source.continued(ctx, |df| {
+                    format!("{df}.join({other}, {condition}, {join_type},)")
+                })?;
+                code.preface.extend(preface);
+                Ok(code)
+            }
+            DataFrame::Alias { source, name } => {
+                let name = py_string(name, '\'');
+                source.continued(ctx, |df| format!("{df}.alias({name},)"))
+            }
             DataFrame::ArbitraryMethod {
                 source,
                 method,
@@ -1013,18 +1004,31 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.{}({},)",
-                    source.to_spark_query(ctx)?,
-                    method,
-                    params?.join(",")
-                )
-                .into())
+                let params = params?.join(",");
+                source.continued(ctx, |df| format!("{df}.{method}({params},)"))
             }
         }
     }
 }
 
+impl DataFrame {
+    /// The code of a method called on this dataframe, after the statements that the dataframe needs
+    fn continued(
+        &self,
+        ctx: &PysparkTranspileContext,
+        call: impl FnOnce(String) -> String,
+    ) -> Result<PythonCode> {
+        let PythonCode {
+            preface,
+            primary_df_code,
+        } = self.to_spark_query(ctx)?;
+        Ok(PythonCode {
+            preface,
+            primary_df_code: call(primary_df_code),
+        })
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Hash)]
 pub struct TransformedPipeline {
     pub dataframes: Vec<DataFrame>,
-- 
2.43.0


From e48206072e387089759a73a0c5d33f7b1fce0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 18/56] fix: call runtime functions only as the runtime has
 them, and aggregate over eval(...) expressions

---
 src/commands/cmd_data_model/pyspark.rs |   9 ++
 src/commands/cmd_eval/pyspark.rs       |  14 ++-
 src/commands/cmd_search/pyspark.rs     |  45 ++--------
 src/commands/cmd_stats/pyspark.rs      |  35 +-------
 src/commands/cmd_t_stats/pyspark.rs    |  30 +++++--
 src/commands/stats_utils.rs            |  35 ++++++--
 src/functions/eval_fns.rs              |  25 +++++-
 src/functions/stat_fns.rs              | 114 +++++++++++++++++++------
 src/pyspark/transpiler/utils.rs        |  14 +++
 9 files changed, 205 insertions(+), 116 deletions(-)

diff --git a/src/commands/cmd_data_model/pyspark.rs b/src/commands/cmd_data_model/pyspark.rs
index b164f56..e188451 100644
--- a/src/commands/cmd_data_model/pyspark.rs
+++ b/src/commands/cmd_data_model/pyspark.rs
@@ -11,6 +11,15 @@ impl PipelineTransformer for DataModelCommand {
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
         let df = state.df.clone();
+        ensure!(df.is_none(), "`datamodel` does not take any input");
+        ensure!(
+            self.data_model_name.is_some(),
+            "UNIMPLEMENTED: `datamodel` command without the name of a data model"
+        );
+        ensure!(
+            self.search_mode == Some("search".to_string()),
+            "UNIMPLEMENTED: `datamodel` command does not support search_mode other than 'search'"
+        );
         let mut kwargs = py_dict! {};
 
         kwargs.push(
diff --git a/src/commands/cmd_eval/pyspark.rs b/src/commands/cmd_eval/pyspark.rs
index 632d50a..b5352e5 100644
--- a/src/commands/cmd_eval/pyspark.rs
+++ b/src/commands/cmd_eval/pyspark.rs
@@ -2,9 +2,11 @@ use super::spl::*;
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::ToSparkExpr;
+use crate::pyspark::transpiler::utils::is_python_name;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::{bail, Result};
+use anyhow::{bail, ensure, Result};
+use std::collections::HashSet;
 
 impl EvalCommand {
     fn _eval_expr(&self, expr: impl TryInto<Expr, Error = anyhow::Error>) -> Result<ColumnLike> {
@@ -21,6 +23,16 @@ impl PipelineTransformer for EvalCommand {
         &self,
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
+        // Each result is an argument of its own, named after the field
+        let mut names = HashSet::from(["df"]);
+        for (ast::Field(name), _) in self.fields.iter() {
+            ensure!(
+                is_python_name(name) && names.insert(name),
+                "Cannot pass a result named {:?} to the runtime",
+                name
+            );
+        }
+
         let kwargs: Result<Vec<(String, RuntimeExpr)>> = self
             .fields
             .iter()
diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index efab0f4..ae0f321 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -1,6 +1,7 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
+use crate::pyspark::transpiler::utils::is_python_name;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
@@ -166,42 +167,8 @@ fn search_condition(expr: &ast::Expr, ctx: &PysparkTranspileContext) -> Result<E
 
 /// Whether `name` can be passed to the runtime as the name of an argument of its own
 fn is_field_argument(name: &str) -> bool {
-    const TAKEN: [&str; 45] = [
-        "False",
-        "None",
-        "True",
-        "and",
-        "as",
-        "assert",
-        "async",
-        "await",
-        "break",
-        "class",
-        "continue",
-        "def",
-        "del",
-        "elif",
-        "else",
-        "except",
-        "finally",
-        "for",
-        "from",
-        "global",
-        "if",
-        "import",
-        "in",
-        "is",
-        "lambda",
-        "nonlocal",
-        "not",
-        "or",
-        "pass",
-        "raise",
-        "return",
-        "try",
-        "while",
-        "with",
-        "yield", // Python keywords
+    // Parameters of the runtime command
+    const TAKEN: [&str; 10] = [
         "df",
         "index",
         "source",
@@ -211,11 +178,9 @@ fn is_field_argument(name: &str) -> bool {
         "event_type",
         "event_type_tag",
         "saved_splunk",
-        "splunk_server", // Parameters of the runtime command
+        "splunk_server",
     ];
-    !name.starts_with(|c: char| c.is_ascii_digit())
-        && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
-        && !TAKEN.contains(&name)
+    is_python_name(name) && !TAKEN.contains(&name)
 }
 
 const INDEX: &str = "index";
diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 5c2897f..90e30aa 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -1,40 +1,10 @@
 use super::spl::*;
 use crate::commands::stats_utils;
-use crate::pyspark::alias::Aliasable;
-use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
-use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
-use crate::spl::ast;
-use anyhow::bail;
 use anyhow::Result;
 use log::warn;
 
-fn transform_stats_runtime_expr(
-    expr: &ast::Expr,
-    ctx: &PysparkTranspileContext,
-) -> Result<(String, RuntimeExpr)> {
-    let (e, maybe_name) = expr.clone().unaliased_with_name();
-    let (name, args) = match e {
-        ast::Expr::Call(ast::Call { name, args }) => (name.to_string(), args),
-        _ => bail!(
-            "All `stats` aggregations must be function calls, got {:?}",
-            expr
-        ),
-    };
-    let alias = maybe_name.unwrap_or(name.clone());
-    let args: Result<Vec<Expr>> = args
-        .into_iter()
-        .map(|e| e.with_context(ctx).try_into())
-        .collect();
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
-    Ok((alias, RuntimeExpr::from(expr)))
-}
-
 impl PipelineTransformer for StatsCommand {
     fn transform_for_runtime(
         &self,
@@ -66,8 +36,9 @@ impl PipelineTransformer for StatsCommand {
             all_kwargs.push("by", PyList(by_fields));
         }
 
-        for e in self.funcs.iter() {
-            let (name, e) = transform_stats_runtime_expr(e, &state.ctx)?;
+        for (name, e) in
+            stats_utils::transform_stats_runtime_exprs(&self.funcs, &["df", "by"], &state.ctx)?
+        {
             all_kwargs.push(name, e);
         }
 
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 071bb96..c092c47 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -37,16 +37,25 @@ impl PipelineTransformer for TStatsCommand {
             "`tstats` only supports `include_reduced_buckets`=false"
         );
 
+        ensure!(
+            self.by_prefix.is_none(),
+            "UNIMPLEMENTED: `tstats` command does not yet support BY prefix"
+        );
+
         let mut all_kwargs = py_dict! {};
 
         // Options
-        all_kwargs.push(
-            "from_",
-            py_dict! {
-                datamodel=self.datamodel.clone().map(PyLiteral::from),
-                nodename=self.nodename.clone().map(PyLiteral::from),
-            },
-        );
+        match (&state.df, &self.datamodel) {
+            (None, Some(datamodel)) => all_kwargs.push(
+                "from_",
+                py_dict! {
+                    datamodel=PyLiteral::from(datamodel.clone()),
+                    nodename=self.nodename.clone().map(PyLiteral::from),
+                },
+            ),
+            (Some(_), None) if self.nodename.is_none() => {}
+            _ => bail!("`tstats` requires either a source or a data model"),
+        }
 
         if let Some(fill_null_value) = &self.fillnull_value {
             all_kwargs.push("fill_null_value", PyLiteral::from(fill_null_value.clone()));
@@ -75,8 +84,11 @@ impl PipelineTransformer for TStatsCommand {
             all_kwargs.push("by", PyList(by_fields));
         }
 
-        for e in self.exprs.iter() {
-            let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
+        for (name, e) in stats_utils::transform_stats_runtime_exprs(
+            &self.exprs,
+            &["df", "fill_null_value", "from_", "where", "by"],
+            &state.ctx,
+        )? {
             all_kwargs.push(name, e);
         }
 
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index bb133dc..636823e 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -1,8 +1,9 @@
-use crate::functions::stat_fns::stats_fn;
+use crate::functions::stat_fns::{runtime_stats_fn, stats_args, stats_fn};
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
+use crate::pyspark::transpiler::utils::is_python_name;
 use crate::spl::ast;
 use crate::spl::ast::{Field, TimeSpan};
 use crate::spl::parser::{comma_or_space_separated_list1, field, time_span, ws};
@@ -46,7 +47,7 @@ pub fn transform_stats_expr(
     Ok((df_, e.maybe_with_alias(maybe_name)))
 }
 
-pub fn transform_stats_runtime_expr(
+fn transform_stats_runtime_expr(
     expr: &ast::Expr,
     ctx: &PysparkTranspileContext,
 ) -> anyhow::Result<(String, RuntimeExpr)> {
@@ -59,18 +60,36 @@ pub fn transform_stats_runtime_expr(
         ),
     };
     let alias = maybe_name.unwrap_or(name.clone());
-    let args: anyhow::Result<Vec<Expr>> = args
+    let args: anyhow::Result<Vec<Expr>> = stats_args(&name, args)
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
         .collect();
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
+    let func = runtime_stats_fn(&name, args.as_ref().map_or(0, Vec::len))?;
+    let expr: Expr = FunctionCall { func, args: args? }.into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
+/// The aggregations as named arguments of a runtime command, which has the parameters `taken` itself
+pub fn transform_stats_runtime_exprs(
+    exprs: &[ast::Expr],
+    taken: &[&str],
+    ctx: &PysparkTranspileContext,
+) -> anyhow::Result<Vec<(String, RuntimeExpr)>> {
+    let mut out: Vec<(String, RuntimeExpr)> = vec![];
+    for expr in exprs {
+        let (name, expr) = transform_stats_runtime_expr(expr, ctx)?;
+        ensure!(
+            is_python_name(&name)
+                && !taken.contains(&name.as_str())
+                && !out.iter().any(|(used, _)| *used == name),
+            "Cannot pass a result named {:?} to the runtime",
+            name
+        );
+        out.push((name, expr));
+    }
+    Ok(out)
+}
+
 #[derive(Debug, PartialEq, Clone, Hash)]
 #[pyclass(frozen, eq, hash)]
 pub struct MaybeSpannedField {
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 74d99c9..335ac9b 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -185,6 +185,24 @@ pub fn eval_fn(call: ast::Call, ctx: &PysparkTranspileContext) -> Result<ColumnL
     }
 }
 
+/// Whether the runtime has an eval function of so many arguments, all of which can be columns
+fn runtime_has_eval_fn(name: &str, num_args: usize) -> bool {
+    match name {
+        "false" | "null" | "now" | "pi" | "random" | "time" | "true" => num_args == 0,
+        "abs" | "acos" | "acosh" | "asin" | "asinh" | "atan" | "atanh" | "bit_not" | "ceiling"
+        | "cos" | "cosh" | "exact" | "exp" | "floor" | "isnotnull" | "isnull" | "json_keys"
+        | "json_valid" | "len" | "ln" | "log" | "lower" | "md5" | "mvcount" | "round" | "sha1"
+        | "sha256" | "sha512" | "sin" | "sinh" | "sqrt" | "tan" | "tanh" | "tonumber"
+        | "tostring" | "upper" | "urldecode" => num_args == 1,
+        "atan2" | "bit_and" | "bit_or" | "bit_xor" | "hypot" | "ipmask" | "like" | "match"
+        | "nullif" | "pow" => num_args == 2,
+        "if" => num_args == 3,
+        "case" | "validate" => num_args > 0 && num_args % 2 == 0,
+        "avg" | "coalesce" | "max" | "min" | "mvappend" | "printf" | "sum" => num_args > 0,
+        _ => false,
+    }
+}
+
 fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
     match name.as_str() {
         "cidrmatch" => function_transform!(cidrmatch [args] (cidr: String, col) {
@@ -198,9 +216,14 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
             //     "Unknown eval function encountered, returning as is: {}",
             //     name
             // );
+            ensure!(
+                runtime_has_eval_fn(name, args.len()),
+                "The runtime has no eval function `{}` of {} columns",
+                name,
+                args.len()
+            );
             let name = match name {
                 "if" => "if_",
-                "in" => "in_",
                 "len" => "len_",
                 "sum" => "sum_",
                 "max" => "max_",
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 8142d45..b474aa3 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -48,7 +48,7 @@ rate_sum(<value>)                    	 Returns the summed rates for the time ser
 use crate::functions::*;
 use crate::pyspark::ast::ColumnLike;
 use crate::pyspark::ast::*;
-use crate::pyspark::base::{PysparkTranspileContext, RuntimeSelection, ToSparkExpr};
+use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
 use log::warn;
@@ -80,34 +80,98 @@ pub fn stats_fn(
         ast::Expr::Call(ast::Call { name, args }) => (name, args),
         _ => bail!("Expected a stats function call, got {:?}", expr),
     };
-    let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
-
-    let (df, expr) = match ctx.runtime {
-        RuntimeSelection::Disallow => stats_fn_bare(name, args, df),
-        RuntimeSelection::Require => stats_fn_runtime(name, args, df),
-        RuntimeSelection::Allow => stats_fn_runtime(name.clone(), args.clone(), df.clone())
-            .or_else(|_| stats_fn_bare(name, args, df)),
-    }?;
+    // The result is a Spark aggregate, which the aggregations of the runtime are not
+    let args: Vec<_> = stats_args(&name, args)
+        .into_iter()
+        .map(|arg| arg.with_context(ctx))
+        .collect();
+    let (df, expr) = stats_fn_bare(name, args, df)?;
 
     Ok((df, expr.maybe_with_alias(maybe_alias)))
 }
 
-fn stats_fn_runtime(
-    name: String,
-    args: Vec<ContextualizedExpr<ast::Expr>>,
-    df: DataFrame,
-) -> Result<(DataFrame, ColumnLike)> {
-    // match name.as_str() {
-    //     name => {
-    // warn!(
-    //     "Unknown eval function encountered, returning as is: {}",
-    //     name
-    // );
-    let func = format!("functions.stats.{}", name);
-    let args: Result<Vec<Expr>> = map_args(args);
-    Ok((df, ColumnLike::FunctionCall { func, args: args? }))
-    // }
-    // }
+/// The values that a stats function is computed from: the results of `eval(...)` expressions, of
+/// which the ones that are conditions are counted where they are met.
+pub fn stats_args(name: &str, args: Vec<ast::Expr>) -> Vec<ast::Expr> {
+    fn is_condition(expr: &ast::Expr) -> bool {
+        match expr {
+            ast::Expr::Binary(ast::Binary { symbol, .. }) => {
+                !matches!(symbol.as_str(), "+" | "-" | "*" | "/" | "%" | ".")
+            }
+            ast::Expr::Unary(ast::Unary { symbol, .. }) => symbol == "NOT",
+            ast::Expr::FieldIn(_) => true,
+            ast::Expr::Call(ast::Call { name, .. }) => matches!(
+                name.as_str(),
+                "cidrmatch"
+                    | "false"
+                    | "in"
+                    | "isbool"
+                    | "isint"
+                    | "isnotnull"
+                    | "isnull"
+                    | "isnum"
+                    | "isstr"
+                    | "json_valid"
+                    | "like"
+                    | "match"
+                    | "searchmatch"
+                    | "true"
+            ),
+            _ => false,
+        }
+    }
+
+    args.into_iter()
+        .map(|arg| match arg {
+            ast::Expr::Call(ast::Call { name: eval, args })
+                if eval == "eval" && args.len() == 1 =>
+            {
+                let value = args[0].clone();
+                if name == "count" && is_condition(&value) {
+                    ast::Call {
+                        name: "if".into(),
+                        args: vec![
+                            value,
+                            ast::IntValue(1).into(),
+                            ast::Call {
+                                name: "null".into(),
+                                args: vec![],
+                            }
+                            .into(),
+                        ],
+                    }
+                    .into()
+                } else {
+                    value
+                }
+            }
+            arg => arg,
+        })
+        .collect()
+}
+
+/// The aggregation of the runtime that computes a stats function of so many arguments
+pub fn runtime_stats_fn(name: &str, num_args: usize) -> Result<String> {
+    let supported = match name {
+        "count" => num_args <= 1,
+        "earliest_time" | "latest_time" => num_args == 0,
+        "avg" | "distinct_count" | "dc" | "estdc" | "max" | "mean" | "median" | "min" | "mode"
+        | "range" | "stdev" | "stdevp" | "sum" | "sumsq" | "var" | "varp" | "first" | "last"
+        | "list" | "values" | "earliest" | "latest" | "rate" => num_args == 1,
+        _ => false,
+    };
+    ensure!(
+        supported,
+        "The runtime has no stats function `{}` of {} arguments",
+        name,
+        num_args
+    );
+    let name = match name {
+        "list" => "list_",
+        "sum" => "sum_",
+        name => name,
+    };
+    Ok(format!("functions.stats.{}", name))
 }
 
 fn stats_fn_bare(
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index c497615..8f58a3f 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -179,3 +179,17 @@ pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
     }
     Ok(fmt_string)
 }
+
+/// Whether `name` can be the name of an argument in a Python call
+pub fn is_python_name(name: &str) -> bool {
+    const KEYWORDS: [&str; 35] = [
+        "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class",
+        "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global",
+        "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return",
+        "try", "while", "with", "yield",
+    ];
+    !name.is_empty()
+        && !name.starts_with(|c: char| c.is_ascii_digit())
+        && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+        && !KEYWORDS.contains(&name)
+}
-- 
2.43.0


From 8acee9e7288ee6e8866c929a74fc153f2426fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 19/56] fix: take the quotes off quoted field names and
 aliases, and escape what split and replace pass on

---
 src/commands/cmd_search/pyspark.rs |  8 +++++++-
 src/functions/eval_fns.rs          | 19 +++++++++++++++++--
 src/spl/parser.rs                  | 11 ++++++++---
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index ae0f321..6c30bef 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -145,7 +145,13 @@ fn search_condition(expr: &ast::Expr, ctx: &PysparkTranspileContext) -> Result<E
                 )))) => ast::StrValue(word).into(),
                 value => value,
             };
-            ast::Expr::Binary(ast::Binary::new(*left.clone(), symbol, value))
+            let field = match *left.clone() {
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(
+                    name,
+                )))) => ast::Field(name).into(),
+                field => field,
+            };
+            ast::Expr::Binary(ast::Binary::new(field, symbol, value))
                 .with_context(ctx)
                 .try_into()
         }
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 335ac9b..0e4003a 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -156,6 +156,20 @@ fn offset_time(time_col: impl Into<Expr>, offset: TimeSpan) -> ColumnLike {
     column_like!([time_col] + [expr("INTERVAL {} {}", value, scale.to_ascii_uppercase())])
 }
 
+/// SPL refers to captured groups as `\1`, Spark as `$1`
+fn spark_replacement(replacement: &str) -> String {
+    let mut out = String::new();
+    let mut chars = replacement.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' if chars.peek().is_some_and(char::is_ascii_digit) => out.push('$'),
+            '$' => out.push_str("\\$"),
+            c => out.push(c),
+        }
+    }
+    out
+}
+
 fn round_time(time_col: impl Into<Expr>, scale: String) -> Result<ColumnLike> {
     let round_to = match scale.as_str() {
         "years" => "year",
@@ -607,7 +621,8 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // split(<str>,<delim>)                                	 Splits the string values on the delimiter and returns the string values as a multivalue field.
         "split" => function_transform!(split [args] (x, delim: String) {
-            column_like!(split([x], [py_lit(delim)]))
+            // The delimiter is plain text here, and a regular expression in Spark
+            column_like!(split([x], [py_lit(regex::escape(&delim))]))
         }),
 
         // Statistical eval functions
@@ -666,7 +681,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
         "replace" => {
             function_transform!(replace [args] (input, regex: String, replacement: String) {
-                column_like!(regexp_replace([input.clone()], [py_lit(regex)], [py_lit(replacement)]))
+                column_like!(regexp_replace([input.clone()], [py_lit(regex)], [py_lit(spark_replacement(&replacement))]))
             })
         }
         // rtrim(<str>,<trim_chars>)                           	 Removes the trim characters from the right side of the string.
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 8a2a9bf..ff24811 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -38,7 +38,7 @@ use crate::spl::operators::{keyword, OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
 use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of};
-use nom::combinator::{all_consuming, eof, into, map_parser, peek, value, verify};
+use nom::combinator::{all_consuming, eof, into, map_parser, not, peek, value, verify};
 use nom::error::ParseError;
 use nom::multi::{many0, separated_list0, separated_list1};
 use nom::sequence::{delimited, preceded, separated_pair, terminated};
@@ -530,7 +530,12 @@ fn _field_fmt(input: &str) -> IResult<&str, ast::Field> {
 }
 
 pub fn field(input: &str) -> IResult<&str, ast::Field> {
-    alt((_field_fmt, into(single_quoted)))(input)
+    alt((
+        // Quotes around the whole name are not part of it
+        into(terminated(double_quoted, not(tag(".")))),
+        _field_fmt,
+        into(single_quoted),
+    ))(input)
 }
 
 pub fn string(input: &str) -> IResult<&str, &str> {
@@ -1207,7 +1212,7 @@ pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
 //   def aliasedCall[_: P]: P[Alias] = call ~ W("as") ~ token map Alias.tupled
 pub fn aliased_call(input: &str) -> IResult<&str, ast::Alias> {
     map(
-        separated_pair(call, ws(keyword("as")), token),
+        separated_pair(call, ws(keyword("as")), alt((token, double_quoted))),
         |(expr, name)| ast::Alias {
             expr: Box::new(expr.into()),
             name: name.into(),
-- 
2.43.0


From f7eeb147a6027f7289b8b717c15cb5c343a8c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:20 +0000
Subject: [PATCH 20/56] fix: read time formats variable by variable, and quote
 the text between them

---
 .../spl_transpiler/runtime/functions/utils.py | 49 +++++++++----
 src/pyspark/transpiler/utils.rs               | 70 ++++++++++++++-----
 2 files changed, 88 insertions(+), 31 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index 7559225..2f098ba 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -105,12 +105,15 @@ CONVERSIONS = {
     "%c": None,
     "%+": None,
     "%Ez": None,
-    "%f": "SSS",
+    "%f": "SSSSSS",
     "%H": "HH",
     "%I": "hh",
     "%k": "H",
     "%M": "mm",
-    "%N": "SSS",
+    "%N": "SSSSSSSSS",
+    "%3N": "SSS",
+    "%6N": "SSSSSS",
+    "%9N": "SSSSSSSSS",
     "%p": "a",
     "%Q": "SSS",
     "%3Q": "SSS",
@@ -121,17 +124,17 @@ CONVERSIONS = {
     "%T": "HH:mm:ss",
     "%X": None,
     "%Z": "z",
-    "%z": "x",
-    "%:z": "xxxx",
-    "%::z": "xxxxxx",
-    "%:::z": "xx",
+    "%z": "xx",
+    "%:z": "xxx",
+    "%::z": "xxxxx",
+    "%:::z": "x",
     "%F": "yyyy-MM-dd",
     "%x": None,
     "%A": "EEEE",
     "%a": "EEE",
     "%d": "dd",
     "%e": "d",
-    "%j": "D",
+    "%j": "DDD",
     # "%V": "w",
     # "%U": "w",
     "%w": "e",
@@ -160,11 +163,29 @@ CONVERSIONS = {
 # }
 
 
+def _quote_time_format_text(text: str) -> str:
+    # Letters and some punctuation mean something in a Spark time format unless they are quoted
+    if any((c.isascii() and c.isalpha()) or c in "'[]#{}" for c in text):
+        return "'" + text.replace("'", "''") + "'"
+    return text
+
+
 def convert_time_format(fmt_string: str) -> str:
-    for original, replacement in CONVERSIONS.items():
-        if original not in fmt_string:
-            continue
-        if replacement is None:
-            raise ValueError(f"No known replacement pattern for `{original}`")
-        fmt_string = fmt_string.replace(original, replacement)
-    return fmt_string
+    if "%" not in fmt_string:
+        return fmt_string
+    converted, text, rest = "", "", fmt_string
+    while rest:
+        if not rest.startswith("%"):
+            text, rest = text + rest[0], rest[1:]
+        elif rest.startswith("%%"):
+            text, rest = text + "%", rest[2:]
+        else:
+            original = next((o for o in CONVERSIONS if rest.startswith(o)), None)
+            if original is None:
+                raise ValueError(f"Unknown time format variable at `{rest}`")
+            replacement = CONVERSIONS[original]
+            if replacement is None:
+                raise ValueError(f"No known replacement pattern for `{original}`")
+            converted += _quote_time_format_text(text) + replacement
+            text, rest = "", rest[len(original) :]
+    return converted + _quote_time_format_text(text)
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index 8f58a3f..c19ecc5 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -112,18 +112,21 @@ Z      	 zone-offset                  	 offset-Z     	 +0000; -0800; -08:00;
 ]      	 optional section end
  */
 
-const CONVERSIONS: [(&str, Option<&str>); 37] = [
+const CONVERSIONS: [(&str, Option<&str>); 40] = [
     // Date and time variables
     ("%c", None), // No direct equivalent
     ("%+", None), // No direct equivalent
     // Time variables
     ("%Ez", None),              // No direct equivalent
-    ("%f", Some("SSS")),        // Microseconds as a decimal number
+    ("%f", Some("SSSSSS")),     // Microseconds as a decimal number
     ("%H", Some("HH")),         // Hour (24-hour clock)
     ("%I", Some("hh")),         // Hour (12-hour clock)
     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
     ("%M", Some("mm")),         // Minute
-    ("%N", Some("SSS")),        // Subsecond digits (default to milliseconds)
+    ("%N", Some("SSSSSSSSS")),  // Subsecond digits (default to nanoseconds)
+    ("%3N", Some("SSS")),       // Subsecond digits (milliseconds)
+    ("%6N", Some("SSSSSS")),    // Subsecond digits (microseconds)
+    ("%9N", Some("SSSSSSSSS")), // Subsecond digits (nanoseconds)
     ("%p", Some("a")),          // AM or PM
     ("%Q", Some("SSS")),        // Subsecond component of a UTC timestamp (default to milliseconds)
     ("%3Q", Some("SSS")),       // Subsecond component of a UTC timestamp (milliseconds)
@@ -138,10 +141,10 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     // Use %:z to specify hour and minute separated by a colon, for example -05:00
     // Use %::z to specify hour minute and second separated with colons, for example -05:00:00
     // Use %:::z to specify hour only, for example -05
-    ("%z", Some("x")),        // Timezone offset from UTC
-    ("%:z", Some("xxxx")),    // Timezone offset from UTC
-    ("%::z", Some("xxxxxx")), // Timezone offset from UTC
-    ("%:::z", Some("xx")),    // Timezone offset from UTC
+    ("%z", Some("xx")),      // Timezone offset from UTC
+    ("%:z", Some("xxx")),    // Timezone offset from UTC
+    ("%::z", Some("xxxxx")), // Timezone offset from UTC
+    ("%:::z", Some("x")),    // Timezone offset from UTC
     // Date variables
     ("%F", Some("yyyy-MM-dd")), // ISO 8601 date format
     ("%x", None),               // No direct equivalent for locale-specific date
@@ -150,7 +153,7 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%a", Some("EEE")),  // Abbreviated weekday name
     ("%d", Some("dd")),   // Day of the month
     ("%e", Some("d")),    // Day of the month (leading space)
-    ("%j", Some("D")),    // Day of year
+    ("%j", Some("DDD")),  // Day of year
     // ("%V", Some("w")), // Week of the year (ISO)
     // ("%U", Some("w")), // Week of the year (starting with 0)
     ("%w", Some("e")), // Weekday as a decimal number (1 = Monday, ..., 7 = Sunday)
@@ -166,18 +169,51 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
 ];
 
 pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
-    let mut fmt_string = spl_time_format.to_string();
+    let spl_time_format = spl_time_format.to_string();
+    if !spl_time_format.contains('%') {
+        return Ok(spl_time_format);
+    }
+    let mut rest = spl_time_format.as_str();
+    let mut converted = String::new();
+    let mut text = String::new();
 
-    for (original, replacement) in CONVERSIONS {
-        if !fmt_string.contains(original) {
-            continue;
-        }
-        match replacement {
-            None => bail!("No known replacement pattern for `{}`", original),
-            Some(replacement) => fmt_string = fmt_string.replace(original, replacement),
+    while let Some(c) = rest.chars().next() {
+        if c != '%' {
+            text.push(c);
+            rest = &rest[c.len_utf8()..];
+        } else if let Some(after) = rest.strip_prefix("%%") {
+            text.push('%');
+            rest = after;
+        } else {
+            let Some((original, replacement)) = CONVERSIONS
+                .iter()
+                .find(|(original, _)| rest.starts_with(original))
+            else {
+                bail!("Unknown time format variable at `{}`", rest)
+            };
+            let Some(replacement) = replacement else {
+                bail!("No known replacement pattern for `{}`", original)
+            };
+            converted.push_str(&quote_time_format_text(&text));
+            converted.push_str(replacement);
+            text.clear();
+            rest = &rest[original.len()..];
         }
     }
-    Ok(fmt_string)
+    converted.push_str(&quote_time_format_text(&text));
+    Ok(converted)
+}
+
+/// Letters and some punctuation mean something in a Spark time format unless they are quoted
+fn quote_time_format_text(text: &str) -> String {
+    if text
+        .chars()
+        .any(|c| c.is_ascii_alphabetic() || "'[]#{}".contains(c))
+    {
+        format!("'{}'", text.replace('\'', "''"))
+    } else {
+        text.to_string()
+    }
 }
 
 /// Whether `name` can be the name of an argument in a Python call
-- 
2.43.0


From e8a03fd92e8ed3fc7ad8c083d496d7c37bff8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:38 +0000
Subject: [PATCH 21/56] fix: parse calls of the eval functions like and in, and
 keep escaped backslashes in replacements

---
 src/functions/eval_fns.rs | 12 +++++++++++-
 src/spl/parser.rs         |  9 ++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 0e4003a..f6efbd6 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -162,6 +162,13 @@ fn spark_replacement(replacement: &str) -> String {
     let mut chars = replacement.chars().peekable();
     while let Some(c) = chars.next() {
         match c {
+            '\\' if chars.next_if_eq(&'\\').is_some() => {
+                // An escaped backslash
+                match chars.peek() {
+                    Some(c) if c.is_ascii_digit() => out.push('$'),
+                    _ => out.push_str("\\\\\\\\"),
+                }
+            }
             '\\' if chars.peek().is_some_and(char::is_ascii_digit) => out.push('$'),
             '$' => out.push_str("\\$"),
             c => out.push(c),
@@ -311,7 +318,10 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
             column_like!([when([condition], [then_expr])].otherwise([else_expr]))
         }),
         // in(<field>,<list>)                                  	 Returns TRUE if one of the values in the list matches a value that you specify.
-        "in" => function_transform!(in [args] (x, vals) { column_like!([x].isin([vals])) }),
+        "in" => function_transform!(in [args -> vals] (x) {
+            ensure!(!vals.is_empty(), "`in` takes at least one value to look for");
+            ColumnLike::method_call(x, "isin", vals)
+        }),
         // like(<str>,<pattern>)                               	 Returns TRUE only if <str> matches <pattern>.
         "like" => {
             function_transform!(like [args] (x, pattern) { column_like!(like([x], [pattern])) })
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index ff24811..2d2d935 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -908,7 +908,14 @@ pub fn field_in(input: &str) -> IResult<&str, ast::FieldIn> {
 //   def call[_: P]: P[Call] = (token ~~ "(" ~~ expr.rep(sep = ",") ~~ ")").map(Call.tupled)
 pub fn call(input: &str) -> IResult<&str, ast::Call> {
     map(
-        pair(token, parenthesized(comma_separated_list0(eval_expr))),
+        pair(
+            alt((
+                token,
+                // Operators which are functions as well
+                terminated(alt((tag("like"), tag("in"))), peek(tag("("))),
+            )),
+            parenthesized(comma_separated_list0(eval_expr)),
+        ),
         |(token, exprs)| ast::Call {
             name: token.into(),
             args: exprs,
-- 
2.43.0


From 8e297445be23b8c85dc336af65bb3f652c7b9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 22/56] fix: accept patterns with * in match and like

---
 src/functions/eval_fns.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index f6efbd6..7090af7 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -156,6 +156,19 @@ fn offset_time(time_col: impl Into<Expr>, offset: TimeSpan) -> ColumnLike {
     column_like!([time_col] + [expr("INTERVAL {} {}", value, scale.to_ascii_uppercase())])
 }
 
+/// A pattern, in which `*` does not make a wildcard
+fn pattern_arg(arg: &ContextualizedExpr<ast::Expr>) -> Result<Expr> {
+    match arg.deref() {
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Wildcard(ast::Wildcard(
+            pattern,
+        )))) => Ok(ColumnLike::Literal {
+            code: py_string(pattern, '\''),
+        }
+        .into()),
+        _ => map_arg(arg),
+    }
+}
+
 /// SPL refers to captured groups as `\1`, Spark as `$1`
 fn spark_replacement(replacement: &str) -> String {
     let mut out = String::new();
@@ -323,17 +336,19 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
             ColumnLike::method_call(x, "isin", vals)
         }),
         // like(<str>,<pattern>)                               	 Returns TRUE only if <str> matches <pattern>.
-        "like" => {
-            function_transform!(like [args] (x, pattern) { column_like!(like([x], [pattern])) })
-        }
+        "like" => function_transform!(like [args ...] (x) {
+            ensure!(args.len() == 2, "`like` takes two arguments, got {}", args.len());
+            column_like!(like([x], [pattern_arg(&args[1])?]))
+        }),
         // lookup(<lookup_table>, <json_object>, <json_array>) 	 Performs a CSV lookup. Returns the output field or fields in the form of a JSON object. The lookup() function is available only to Splunk Enterprise users.
         "lookup" => {
             bail!("UNIMPLEMENTED: Unsupported function: {}", name)
         }
         // match(<str>, <regex>)                               	 Returns TRUE if the regular expression <regex> finds a match against any substring of the string value <str>. Otherwise returns FALSE.
-        "match" => {
-            function_transform!(match [args] (x, regex) { column_like!(regexp_like([x], [regex])) })
-        }
+        "match" => function_transform!(match [args ...] (x) {
+            ensure!(args.len() == 2, "`match` takes two arguments, got {}", args.len());
+            column_like!(regexp_like([x], [pattern_arg(&args[1])?]))
+        }),
         // null()                                              	 This function takes no arguments and returns NULL.
         "null" => function_transform!(null [args] () { column_like!(lit(None)) }),
         // nullif(<field1>,<field2>)                           	 Compares the values in two fields and returns NULL if the value in <field1> is equal to the value in <field2>. Otherwise returns the value in <field1>.
-- 
2.43.0


From 325fc82be5bafd502a2e5a94446299861df697aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 23/56] fix: put parentheses around a negated column that a
 method is called on

---
 src/pyspark/ast.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index e0c4291..2b2f35b 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -298,7 +298,7 @@ impl ToSparkQuery for ColumnLike {
                     .collect();
                 Ok(format!(
                     "{}.{}({})",
-                    col.to_spark_query(ctx)?,
+                    col.to_receiver(ctx)?,
                     func,
                     args?.join(", ")
                 ))
@@ -317,7 +317,7 @@ impl ToSparkQuery for ColumnLike {
             }
             ColumnLike::Aliased { col, name } => Ok(format!(
                 "{}.alias({})",
-                col.to_spark_query(ctx)?,
+                col.to_receiver(ctx)?,
                 py_string(name, '\'')
             )),
             ColumnLike::BinaryOp { op, left, right } => Ok(format!(
@@ -339,6 +339,17 @@ pub enum Expr {
     PyLiteral(PyLiteral),
 }
 
+impl Expr {
+    /// The code of an expression that a method is called on: `~` binds less tightly than the call.
+    fn to_receiver(&self, ctx: &PysparkTranspileContext) -> Result<String> {
+        let code = self.to_spark_query(ctx)?;
+        Ok(match self {
+            Expr::Column(ColumnLike::UnaryNot { .. }) => format!("({})", code),
+            _ => code.to_string(),
+        })
+    }
+}
+
 impl ToSparkQuery for Expr {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-- 
2.43.0


From 24c1b6af8b5ac986540e83c815b1cf7d43ce828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 24/56] fix: refuse the forms of addtotals and rex that are not
 translated

---
 src/commands/cmd_add_totals/pyspark.rs | 10 ++++++++++
 src/commands/cmd_rex/pyspark.rs        |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/commands/cmd_add_totals/pyspark.rs b/src/commands/cmd_add_totals/pyspark.rs
index 9aa2952..45ee694 100644
--- a/src/commands/cmd_add_totals/pyspark.rs
+++ b/src/commands/cmd_add_totals/pyspark.rs
@@ -1,12 +1,22 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::utils::join_as_binaries;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use anyhow::ensure;
 
 impl PipelineTransformer for super::spl::AddTotalsCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            !self.fields.is_empty(),
+            "UNIMPLEMENTED: `addtotals` over all numeric fields is not supported, name the fields"
+        );
+        ensure!(
+            self.row && !self.col,
+            "UNIMPLEMENTED: `addtotals` supports only totals of rows"
+        );
+
         let cast_columns: Vec<ColumnLike> = self
             .fields
             .iter()
diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index 7f77fc1..f0d23bf 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -19,6 +19,10 @@ impl PipelineTransformer for RexCommand {
             self.max_match == 1,
             "Rex not yet implemented for multiple matches"
         );
+        ensure!(
+            self.offset_field.is_none(),
+            "Rex not yet implemented for offset fields"
+        );
 
         let regex_groups = get_groups(self.regex.clone())?;
 
-- 
2.43.0


From edb658036ea6f4cba5661b161a04cfea05f3c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 25/56] fix: only the first command of a pipeline can be an
 implied search

---
 src/spl/parser.rs | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 2d2d935..4241c46 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -53,6 +53,7 @@ use nom::{
 };
 use paste::paste;
 use std::fmt::Debug;
+use std::iter::once;
 use std::net::Ipv6Addr;
 
 // https://github.com/rust-bakery/nom/blob/main/doc/nom_recipes.md#wrapper-combinators-that-eat-whitespace-before-and-after-a-parser
@@ -1290,6 +1291,11 @@ pub fn stats_call(input: &str) -> IResult<&str, Vec<ast::Expr>> {
 //     | _map
 //     | impliedSearch)
 pub fn command(input: &str) -> IResult<&str, ast::Command> {
+    alt((explicit_command, into(SearchParser::parse)))(input)
+}
+
+/// A command that is named: what follows a pipe is never an implied search
+fn explicit_command(input: &str) -> IResult<&str, ast::Command> {
     alt((
         // `alt` has a hard count limit, so we just break it up into sub-alts
         alt((
@@ -1330,7 +1336,29 @@ pub fn command(input: &str) -> IResult<&str, ast::Command> {
             into(TStatsParser::parse),
             into(WhereParser::parse),
         )),
-        into(SearchParser::parse),
+        preceded(
+            peek(pair(tag_no_case("search"), multispace1)),
+            into(SearchParser::parse),
+        ),
+    ))(input)
+}
+
+/// Commands separated by pipes, of which only the first can be an implied search
+fn commands(input: &str) -> IResult<&str, Vec<ast::Command>> {
+    let explicit_commands = |input| separated_list1(ws(tag("|")), explicit_command)(input);
+    alt((
+        preceded(ws(tag("|")), explicit_commands),
+        map(
+            opt(pair(
+                command,
+                opt(preceded(ws(tag("|")), explicit_commands)),
+            )),
+            |commands| {
+                commands.map_or(vec![], |(first, rest)| {
+                    once(first).chain(rest.into_iter().flatten()).collect()
+                })
+            },
+        ),
     ))(input)
 }
 //
@@ -1339,7 +1367,7 @@ pub fn sub_search(input: &str) -> IResult<&str, ast::Pipeline> {
     map(
         delimited(
             ws(tag("[")),
-            preceded(opt(ws(tag("|"))), separated_list0(ws(tag("|")), command)),
+            commands,
             ws(tag("]")),
         ),
         |commands| ast::Pipeline { commands },
@@ -1348,13 +1376,9 @@ pub fn sub_search(input: &str) -> IResult<&str, ast::Pipeline> {
 
 //   def pipeline[_: P]: P[Pipeline] = (command rep(sep = "|")) ~ End map Pipeline
 pub fn pipeline(input: &str) -> IResult<&str, ast::Pipeline> {
-    map(
-        preceded(
-            opt(ws(tag("|"))),
-            all_consuming(ws(separated_list0(ws(tag("|")), command))),
-        ),
-        |commands| ast::Pipeline { commands },
-    )(input)
+    map(all_consuming(ws(commands)), |commands| ast::Pipeline {
+        commands,
+    })(input)
 }
 
 // <expression>
-- 
2.43.0


From 16da702e6643975a271b9ad6ae09f98028132782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 26/56] fix: an option that is on or off can stand right before
 a bracket, comma or pipe

---
 src/spl/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 4241c46..40daa34 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -440,7 +440,7 @@ pub fn bool_(input: &str) -> IResult<&str, ast::BoolValue> {
                 map(tag_no_case("false"), |_| false),
                 map(tag_no_case("f"), |_| false),
             )),
-            peek(alt((eof, multispace1, recognize(one_of("().:"))))),
+            peek(alt((eof, multispace1, recognize(one_of("().:,|]"))))),
         ),
         ast::BoolValue::from,
     )(input)
-- 
2.43.0


From 7fe95da2e6e6b59e52a6b137578922315ed4833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 27/56] fix: rate compares the latest and earliest values of
 the field, as latest and earliest do

---
 src/functions/stat_fns.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index b474aa3..05a273d 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -316,8 +316,8 @@ fn stats_fn_bare(
         // rate(<value>)                        	 Returns the per-second rate change of the value of the field. Represents (latest - earliest) / (latest_time - earliest_time) Requires the earliest and latest values of the field to be numerical, and the earliest_time and latest_time values to be different.
         "rate" => function_transform!(rate [args] (x) {
             df = df.order_by(vec![column_like!([col("_time")].asc())]);
-            let latest_value = column_like!(last([x.clone()]));
-            let earliest_value = column_like!(first([x]));
+            let latest_value = column_like!(last([x.clone()], [py_lit(true)]));
+            let earliest_value = column_like!(first([x], [py_lit(true)]));
             let latest_time = column_like!(max([col("_time")]));
             let earliest_time = column_like!(min([col("_time")]));
             column_like!([[latest_value] - [earliest_value]] / [[latest_time] - [earliest_time]])
-- 
2.43.0


From a86fd8c29ed3635df4c42a7558320aa5e254730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 28/56] fix: a digit after a NUL character is not part of its
 escape

---
 src/pyspark/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 2b2f35b..133ec29 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -31,7 +31,7 @@ pub fn py_string(raw: &str, quote: char) -> String {
             },
             '\n' => out.push_str("\\n"),
             '\r' => out.push_str("\\r"),
-            '\0' => out.push_str("\\0"),
+            '\0' => out.push_str("\\x00"),
             c if c == quote => {
                 out.push('\\');
                 out.push(c);
@@ -60,7 +60,7 @@ pub fn py_regex(raw: &str) -> String {
                 '"' => out.push_str("\\\""),
                 '\n' => out.push_str("\\n"),
                 '\r' => out.push_str("\\r"),
-                '\0' => out.push_str("\\0"),
+                '\0' => out.push_str("\\x00"),
                 c => out.push(c),
             }
         }
-- 
2.43.0


From a1465c2b132b3c95a26417a4503e71ab03e60a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:03 +0000
Subject: [PATCH 29/56] fix: rex extracts its named groups only, whatever their
 names

---
 src/commands/cmd_rex/pyspark.rs | 18 ++++++++++---
 src/commands/regex_utils.rs     | 47 +++++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index f0d23bf..9057ed4 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -1,5 +1,5 @@
 use crate::commands::cmd_rex::spl::RexCommand;
-use crate::commands::regex_utils::get_groups;
+use crate::commands::regex_utils::{get_groups, without_unsupported_names};
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use anyhow::ensure;
@@ -24,14 +24,24 @@ impl PipelineTransformer for RexCommand {
             "Rex not yet implemented for offset fields"
         );
 
-        let regex_groups = get_groups(self.regex.clone())?;
+        // Only named groups become fields
+        let regex_groups: Vec<_> = get_groups(self.regex.clone())?
+            .into_iter()
+            .filter_map(|(index, name)| name.map(|name| (index, name)))
+            .collect();
+        ensure!(
+            !regex_groups.is_empty(),
+            "Rex needs at least one named group: {}",
+            self.regex
+        );
+        let regex = without_unsupported_names(&self.regex)?;
 
         for (group_index, group_name) in regex_groups {
             df = df.with_column(
-                group_name.unwrap_or(group_index.to_string()),
+                group_name,
                 column_like!(regexp_extract(
                     [col(self.field.clone())],
-                    [Expr::PyLiteral(PyLiteral(py_regex(&self.regex)))],
+                    [Expr::PyLiteral(PyLiteral(py_regex(&regex)))],
                     [py_lit(group_index as i64)]
                 )),
             );
diff --git a/src/commands/regex_utils.rs b/src/commands/regex_utils.rs
index a725059..2904f27 100644
--- a/src/commands/regex_utils.rs
+++ b/src/commands/regex_utils.rs
@@ -96,6 +96,53 @@ pub fn get_groups(regex: impl ToString) -> Result<Vec<SimplifiedGroup>> {
     Ok(get_groups_from_ast(regex_ast))
 }
 
+fn _named_group_headers(node: &Ast, headers: &mut Vec<(usize, usize, String)>) {
+    match node {
+        Ast::Repetition(repetition) => _named_group_headers(&repetition.ast, headers),
+        Ast::Group(group) => {
+            if let GroupKind::CaptureName { name, .. } = &group.kind {
+                headers.push((
+                    group.span.start.offset,
+                    name.span.end.offset + 1,
+                    name.name.clone(),
+                ));
+            }
+            _named_group_headers(&group.ast, headers);
+        }
+        Ast::Alternation(alternation) => {
+            for ast in &alternation.asts {
+                _named_group_headers(ast, headers);
+            }
+        }
+        Ast::Concat(concat) => {
+            for ast in &concat.asts {
+                _named_group_headers(ast, headers);
+            }
+        }
+        _ => {}
+    }
+}
+
+/// The same regex, without those names of groups which Spark (Java) regexes can't express,
+/// that is any `(?P<name>` and any name that isn't purely ASCII letters and digits.
+/// Groups keep their numbers.
+pub fn without_unsupported_names(regex: &str) -> Result<String> {
+    let mut headers = vec![];
+    _named_group_headers(&parse::Parser::new().parse(regex)?, &mut headers);
+    let mut result = String::new();
+    let mut position = 0;
+    for (start, end, name) in headers {
+        let supported = regex[start..].starts_with("(?<")
+            && name.chars().all(|c| c.is_ascii_alphanumeric())
+            && name.starts_with(|c: char| c.is_ascii_alphabetic());
+        result.push_str(&regex[position..start]);
+        result.push_str(if supported { &regex[start..end] } else { "(" });
+        position = end;
+    }
+    result.push_str(&regex[position..]);
+    Ok(result)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3ce7df9783db7d063a3aa7ddb249342302c3f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:34 +0000
Subject: [PATCH 30/56] fix: limits and positions next to the largest integer
 do not overflow

---
 src/commands/cmd_head/pyspark.rs | 10 +++++-----
 src/functions/eval_fns.rs        |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/commands/cmd_head/pyspark.rs b/src/commands/cmd_head/pyspark.rs
index 072a16c..ac4de21 100644
--- a/src/commands/cmd_head/pyspark.rs
+++ b/src/commands/cmd_head/pyspark.rs
@@ -30,18 +30,18 @@ impl PipelineTransformer for HeadCommand {
                     ))) => limit,
                     _ => bail!("Unable to find a constant integer being compared against `count`"),
                 };
-                let limit = match (was_left, symbol.as_str()) {
+                let limit: i64 = match (was_left, symbol.as_str()) {
                     (true, "<") => limit_value,
-                    (true, "<=") => limit_value + 1,
+                    (true, "<=") => limit_value.saturating_add(1),
                     (false, ">") => limit_value,
-                    (false, ">=") => limit_value + 1,
+                    (false, ">=") => limit_value.saturating_add(1),
                     _ => bail!(
                         "Unsupported `count` comparison ({}, {}) for head command",
                         was_left,
                         symbol
                     ),
-                } + if self.keep_last.0 { 1 } else { 0 };
-                limit
+                };
+                limit.saturating_add(if self.keep_last.0 { 1 } else { 0 })
             }
             _ => bail!(
                 "Limit for head command must be an integer (or equivalent `count<N` expression)"
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 7090af7..76b89a6 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -600,8 +600,8 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                     ensure!((start < 0) == (end < 0), "UNIMPLEMENTED: `mvindex` from one end to the other");
                     ensure!(start <= end, "`mvindex` cannot end before it starts");
                     // Positions count from 1 at the start, and from -1 at the end
-                    let start_position = if start < 0 { start } else { start + 1 };
-                    column_like!(slice([x], [py_lit(start_position)], [py_lit(end - start + 1)]))
+                    let start_position = if start < 0 { start } else { start.saturating_add(1) };
+                    column_like!(slice([x], [py_lit(start_position)], [py_lit((end - start).saturating_add(1))]))
                 },
             }
         }),
-- 
2.43.0


From b85fdccfd7e2406b93cbf5911bfbac973ec85d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:12 +0000
Subject: [PATCH 31/56] fix: deeply nested and long queries no longer overflow
 the stack

---
 src/lib.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb39988..4f398b0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,16 +11,32 @@ pub(crate) mod spl;
 use crate::pyspark::base::{PysparkTranspileContext, RuntimeSelection};
 use pyspark::{ToSparkQuery, TransformedPipeline};
 
+/// Queries are parsed and translated recursively, so that a deeply nested or very long one needs far
+/// more stack than the caller's thread may have left. Only the pages in use take up memory.
+const STACK_SIZE: usize = 1 << 30;
+
+fn with_large_stack<T: Send>(work: impl FnOnce() -> T + Send) -> PyResult<T> {
+    std::thread::scope(|scope| {
+        let worker = std::thread::Builder::new()
+            .stack_size(STACK_SIZE)
+            .spawn_scoped(scope, work)?;
+        match worker.join() {
+            Ok(result) => Ok(result),
+            Err(panic) => std::panic::resume_unwind(panic),
+        }
+    })
+}
+
 #[pymodule]
 fn spl_transpiler(m: &Bound<'_, PyModule>) -> PyResult<()> {
     #[pyfn(m)]
     /// Parses SPL query code into a syntax tree.
     fn parse(spl_code: &str) -> PyResult<spl::ast::Pipeline> {
-        match parser::pipeline(spl_code) {
+        with_large_stack(|| match parser::pipeline(spl_code) {
             Ok(("", pipeline)) => Ok(pipeline),
             Ok(_) => Err(PyValueError::new_err("Failed to fully parse input")),
             Err(e) => Err(PyValueError::new_err(format!("Error parsing SPL: {}", e))),
-        }
+        })?
     }
 
     #[pyfn(m)]
@@ -41,13 +57,15 @@ fn spl_transpiler(m: &Bound<'_, PyModule>) -> PyResult<()> {
         allow_runtime: bool,
         format_code: bool,
     ) -> PyResult<String> {
-        let ctx = PysparkTranspileContext::new(match allow_runtime {
-            true => RuntimeSelection::Allow,
-            false => RuntimeSelection::Disallow,
-        });
-        let transformed_pipeline: TransformedPipeline =
-            TransformedPipeline::transform(pipeline.clone(), ctx.clone())?;
-        let mut code = transformed_pipeline.to_spark_query(&ctx)?.to_string();
+        let mut code = with_large_stack(|| -> anyhow::Result<String> {
+            let ctx = PysparkTranspileContext::new(match allow_runtime {
+                true => RuntimeSelection::Allow,
+                false => RuntimeSelection::Disallow,
+            });
+            let transformed_pipeline: TransformedPipeline =
+                TransformedPipeline::transform(pipeline.clone(), ctx.clone())?;
+            Ok(transformed_pipeline.to_spark_query(&ctx)?.to_string())
+        })??;
         if format_code {
             code = format_python::safe_format_python_code(code);
         }
-- 
2.43.0


From 651cddfab7ff04e19f348f066b9cfbe9576b97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:12 +0000
Subject: [PATCH 32/56] fix: long chains of one operator stay within Python's
 limit of nested parentheses

---
 src/pyspark/ast.rs | 66 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 133ec29..c529a37 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -286,6 +286,48 @@ macro_rules! column_like {
 pub(crate) use column_like;
 // <-- the trick
 
+/// Python operators that group from the left within their level
+fn grouping_level(op: &str) -> Option<u8> {
+    match op {
+        "*" | "/" => Some(1),
+        "+" | "-" => Some(2),
+        "&" => Some(3),
+        "|" => Some(4),
+        _ => None,
+    }
+}
+
+impl ColumnLike {
+    /// The longest chain of operations written with one pair of parentheses each: Python code cannot
+    /// nest more than 200 parentheses.
+    const MAX_NESTED_CHAIN: usize = 50;
+
+    /// The operands of a chain of operations, each with the operator in front of it, if the chain is
+    /// too long for parentheses, none of which it needs.
+    fn long_chain(&self) -> Option<Vec<(Option<&str>, &Expr)>> {
+        let (level, op, left, right) = match self {
+            ColumnLike::BinaryOp { op, left, right } => (grouping_level(op)?, op, left, right),
+            _ => return None,
+        };
+        let mut chain = vec![];
+        let mut pending = vec![(Some(op.as_str()), right.as_ref()), (None, left.as_ref())];
+        while let Some((before, operand)) = pending.pop() {
+            match operand {
+                Expr::Column(ColumnLike::BinaryOp { op, left, right })
+                    if grouping_level(op) == Some(level)
+                        // `a - (b - c)` needs its parentheses, `(a - b) - c` and `a + (b + c)` do not
+                        && before.map_or(true, |b| b == op && !matches!(b, "-" | "/")) =>
+                {
+                    pending.push((Some(op.as_str()), right.as_ref()));
+                    pending.push((before, left.as_ref()));
+                }
+                _ => chain.push((before, operand)),
+            }
+        }
+        (chain.len() > Self::MAX_NESTED_CHAIN).then_some(chain)
+    }
+}
+
 impl ToSparkQuery for ColumnLike {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
@@ -320,12 +362,24 @@ impl ToSparkQuery for ColumnLike {
                 col.to_receiver(ctx)?,
                 py_string(name, '\'')
             )),
-            ColumnLike::BinaryOp { op, left, right } => Ok(format!(
-                "{} {} {}",
-                left.to_spark_query(ctx)?,
-                op,
-                right.to_spark_query(ctx)?,
-            )),
+            ColumnLike::BinaryOp { op, left, right } => {
+                if let Some(chain) = self.long_chain() {
+                    let mut code = String::new();
+                    for (op, operand) in chain {
+                        if let Some(op) = op {
+                            code.push_str(&format!(" {} ", op));
+                        }
+                        code.push_str(&operand.to_spark_query(ctx)?.to_string());
+                    }
+                    return Ok(code.into());
+                }
+                Ok(format!(
+                    "{} {} {}",
+                    left.to_spark_query(ctx)?,
+                    op,
+                    right.to_spark_query(ctx)?,
+                ))
+            }
             ColumnLike::UnaryNot { right } => Ok(format!("~{}", right.to_spark_query(ctx)?,)),
         }
         .map(Into::into)
-- 
2.43.0


From 80ade7671aeaf4f0cd65834997b1b08d52eff7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:28 +0000
Subject: [PATCH 33/56] fix: earliest_time, latest_time and rate regard the
 times at which the field has a value

---
 .../spl_transpiler/runtime/functions/stats.py | 10 ++++---
 src/functions/stat_fns.rs                     | 28 +++++++++++++++----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index 9e7f727..7053743 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -668,10 +668,12 @@ class RateStatsFn(StatsFunction):
 
     def to_pyspark_expr(self, df: DataFrame):
         df = df.orderBy(F.col("_time").asc())
-        latest_value = F.last(self.value.to_pyspark_expr())
-        earliest_value = F.first(self.value.to_pyspark_expr())
-        latest_time = F.max(F.col("_time"))
-        earliest_time = F.min(F.col("_time"))
+        value = self.value.to_pyspark_expr()
+        time = F.when(value.isNotNull(), F.col("_time"))
+        latest_value = F.last(value, ignorenulls=True)
+        earliest_value = F.first(value, ignorenulls=True)
+        latest_time = F.max(time)
+        earliest_time = F.min(time)
         return (df, (latest_value - earliest_value) / (latest_time - earliest_time))
 
 
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 05a273d..b83c5d4 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -70,6 +70,11 @@ fn _percentile_suffix(name: &str) -> Option<&str> {
     (!digits.is_empty() && digits.chars().all(|c| c.is_ascii_digit())).then_some(digits)
 }
 
+/// The times at which there is a value
+fn _times_of(x: Expr) -> ColumnLike {
+    column_like!(when([[x].isNotNull()], [col("_time")]))
+}
+
 pub fn stats_fn(
     expr: ast::Expr,
     df: DataFrame,
@@ -281,8 +286,14 @@ fn stats_fn_bare(
             column_like!(first([x], [py_lit(true)]))
         }),
         // earliest_time(<value>)               	 Returns the UNIX time of the earliest (oldest) occurrence of a value of the field. Used in conjunction with the earliest, latest, and latest_time functions to calculate the rate of increase for an accumulating counter.
+        "earliest_time" if args.is_empty() => {
+            function_transform!(earliest_time [args] () { column_like!(min([col("_time")])) })
+        }
         "earliest_time" => {
-            function_transform!(earliest_time [args -> _mapped_args] () { column_like!(min([col("_time")])) })
+            function_transform!(earliest_time [args] (x) {
+                let times = _times_of(x);
+                column_like!(min([times]))
+            })
         }
         // latest(<value>)                      	 Returns the chronologically latest (most recent) seen occurrence of a value in a field.
         "latest" => function_transform!(latest [args] (x) {
@@ -290,8 +301,14 @@ fn stats_fn_bare(
             column_like!(last([x], [py_lit(true)]))
         }),
         // latest_time(<value>)                 	 Returns the UNIX time of the latest (most recent) occurrence of a value of the field. Used in conjunction with the earliest, earliest_time, and latest functions to calculate the rate of increase for an accumulating counter.
+        "latest_time" if args.is_empty() => {
+            function_transform!(latest_time [args] () { column_like!(max([col("_time")])) })
+        }
         "latest_time" => {
-            function_transform!(latest_time [args -> _mapped_args] () { column_like!(max([col("_time")])) })
+            function_transform!(latest_time [args] (x) {
+                let times = _times_of(x);
+                column_like!(max([times]))
+            })
         }
         // per_day(<value>)                     	 Returns the values in a field or eval expression for each day.
         "per_day" => bail!(
@@ -317,9 +334,10 @@ fn stats_fn_bare(
         "rate" => function_transform!(rate [args] (x) {
             df = df.order_by(vec![column_like!([col("_time")].asc())]);
             let latest_value = column_like!(last([x.clone()], [py_lit(true)]));
-            let earliest_value = column_like!(first([x], [py_lit(true)]));
-            let latest_time = column_like!(max([col("_time")]));
-            let earliest_time = column_like!(min([col("_time")]));
+            let earliest_value = column_like!(first([x.clone()], [py_lit(true)]));
+            let times = _times_of(x);
+            let latest_time = column_like!(max([times.clone()]));
+            let earliest_time = column_like!(min([times]));
             column_like!([[latest_value] - [earliest_value]] / [[latest_time] - [earliest_time]])
         }),
         // rate_avg(<value>)                    	 Returns the average rates for the time series associated with a specified accumulating counter metric.
-- 
2.43.0


From 2e0aa5a76b80b37e3741c5c3bb99d772f22b7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 34/56] fix: mvappend and coalesce need at least one value

---
 src/functions/eval_fns.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 76b89a6..1c0b56e 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -322,6 +322,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }),
         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
         "coalesce" => function_transform!(coalesce [args -> mapped_args] () {
+            ensure!(!mapped_args.is_empty(), "Must provide at least one value to coalesce");
             column_like!(coalesce(mapped_args))
         }),
         // false()                                             	 Returns FALSE.
@@ -572,6 +573,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvappend(<values>)                                  	 Returns a multivalue result based on all of values specified.
         "mvappend" => function_transform!(mvappend [args -> mapped_args] () {
+            ensure!(!mapped_args.is_empty(), "Must provide at least one value to append");
             column_like!(concat(mapped_args))
         }),
         // mvcount(<mv>)                                       	 Returns the count of the number of values in the specified field.
-- 
2.43.0


From 07f984eac88d27e78c2cf5aacb56057f5b868bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:18 +0000
Subject: [PATCH 35/56] fix: keep neighbouring time format variables of the
 same letter apart

---
 src/pyspark/transpiler/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index c19ecc5..0608d66 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -195,6 +195,10 @@ pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
                 bail!("No known replacement pattern for `{}`", original)
             };
             converted.push_str(&quote_time_format_text(&text));
+            if text.is_empty() && converted.chars().last() == replacement.chars().next() {
+                // An empty optional section keeps the letters of two variables apart
+                converted.push_str("[]");
+            }
             converted.push_str(replacement);
             text.clear();
             rest = &rest[original.len()..];
-- 
2.43.0


From 499573ada54b844d0faaabf544a2650509481a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:42 +0000
Subject: [PATCH 36/56] fix: join type=inner and type=outer written plainly,
 and an outer join keeps the left side

---
 src/commands/cmd_join/pyspark.rs |  4 ++--
 src/spl/parser.rs                | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index 2f3c50a..d58bac7 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -28,8 +28,8 @@ impl PipelineTransformer for JoinCommand {
 
         let join_type = match self.join_type.clone().as_str() {
             "inner" => "inner",
-            "left" => "left",
-            "outer" => "outer",
+            // In SPL, an outer join is a left (outer) join
+            "left" | "outer" => "left",
             _ => bail!("Unsupported join type: {}", self.join_type),
         };
 
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 40daa34..9497b3b 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -683,12 +683,17 @@ pub fn field_and_value(input: &str) -> IResult<&str, ast::FV> {
 
 //   def fieldAndConstant[_: P]: P[FC] = (token ~ "=" ~ constant) map { case (k, v) => FC(k, v) }
 pub fn field_and_constant(input: &str) -> IResult<&str, ast::FC> {
-    map(separated_pair(token, ws(tag("=")), constant), |(k, v)| {
-        ast::FC {
+    // The join types are reserved words, but here they are what is asked for
+    let join_type = map(alt((tag_no_case("inner"), tag_no_case("outer"))), |s: &str| {
+        ast::Constant::Field(s.into())
+    });
+    map(
+        separated_pair(token, ws(tag("=")), alt((constant, join_type))),
+        |(k, v)| ast::FC {
             field: k.into(),
             value: v,
-        }
-    })(input)
+        },
+    )(input)
 }
 
 //   def quotedSearch[_: P]: P[Pipeline] = ("search" ~ "=" ~ doubleQuotedAlt) map { subSearch => {
-- 
2.43.0


From 3f812d981b845c4dc1afd59d94cf577a2dd83e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:19 +0000
Subject: [PATCH 37/56] fix: a command name may be followed directly by a pipe
 or a closing bracket

---
 src/commands/spl.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/commands/spl.rs b/src/commands/spl.rs
index 8f7e6f4..6a19370 100644
--- a/src/commands/spl.rs
+++ b/src/commands/spl.rs
@@ -2,9 +2,9 @@ use crate::commands::CommandBase;
 use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::{command_options, unwrapped};
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use nom::bytes::complete::{tag, tag_no_case};
 use nom::character::complete::multispace1;
-use nom::combinator::{eof, map};
+use nom::combinator::{eof, map, peek};
 use nom::sequence::{preceded, tuple};
 use nom::{IResult, Parser};
 
@@ -46,7 +46,10 @@ pub trait SplCommand<T> {
 
     fn match_name(input: &str) -> IResult<&str, ()> {
         map(
-            tuple((Self::match_name_raw, alt((multispace1, eof)))),
+            tuple((
+                Self::match_name_raw,
+                alt((multispace1, eof, peek(alt((tag("|"), tag("]")))))),
+            )),
             |_| (),
         )(input)
     }
-- 
2.43.0


From 98a219313316795f41176b952a2d701a39231dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 38/56] fix: wildcard characters in a macro's name do not match
 other files

---
 python/spl_transpiler/macros.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index fc13c23..65aa28b 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -2,6 +2,7 @@ import json
 import logging
 import re
 from functools import cache
+from glob import escape
 from itertools import islice
 from pathlib import Path
 from typing import Protocol, Mapping, Callable
@@ -43,7 +44,7 @@ class FolderMacroLoader(MacroLoader):
 
     @cache
     def __getitem__(self, item):
-        macro_files = list(islice(self.root_dir.rglob(f"{item}{self.suffix}"), 2))
+        macro_files = list(islice(self.root_dir.rglob(escape(f"{item}{self.suffix}")), 2))
         if len(macro_files) > 1:
             raise ValueError(
                 f"Multiple macro files found for `{item}`: {list(macro_files)}"
-- 
2.43.0


From 7ee21762b98edea87d7fe6b748d3adb3f63fd15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 39/56] fix: accept limit= for top and rare

---
 src/spl/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 9497b3b..fa63443 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -687,8 +687,10 @@ pub fn field_and_constant(input: &str) -> IResult<&str, ast::FC> {
     let join_type = map(alt((tag_no_case("inner"), tag_no_case("outer"))), |s: &str| {
         ast::Constant::Field(s.into())
     });
+    // `limit` is a reserved word as well, but also the name of an option
+    let name = alt((token, tag("limit")));
     map(
-        separated_pair(token, ws(tag("=")), alt((constant, join_type))),
+        separated_pair(name, ws(tag("=")), alt((constant, join_type))),
         |(k, v)| ast::FC {
             field: k.into(),
             value: v,
-- 
2.43.0


From b140617c27fe77443097d3cff3f355871c1d2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:47 +0000
Subject: [PATCH 40/56] fix: by-clause fields can be read from Python

---
 src/commands/stats_utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 636823e..efdcb3b 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -7,6 +7,7 @@ use crate::pyspark::transpiler::utils::is_python_name;
 use crate::spl::ast;
 use crate::spl::ast::{Field, TimeSpan};
 use crate::spl::parser::{comma_or_space_separated_list1, field, time_span, ws};
+use crate::spl::python::impl_pyclass;
 use anyhow::{bail, ensure};
 use nom::branch::alt;
 use nom::bytes::complete::tag_no_case;
@@ -15,7 +16,7 @@ use nom::combinator::map;
 use nom::sequence::{preceded, separated_pair};
 use nom::IResult;
 use nom::Parser;
-use pyo3::pyclass;
+use pyo3::prelude::*;
 
 pub fn transform_by_field(f: MaybeSpannedField) -> ColumnOrName {
     match f.clone() {
@@ -93,9 +94,12 @@ pub fn transform_stats_runtime_exprs(
 #[derive(Debug, PartialEq, Clone, Hash)]
 #[pyclass(frozen, eq, hash)]
 pub struct MaybeSpannedField {
+    #[pyo3(get)]
     pub field: Field,
+    #[pyo3(get)]
     pub span: Option<TimeSpan>,
 }
+impl_pyclass!(MaybeSpannedField { field: Field, span: Option<TimeSpan> });
 
 impl From<Field> for MaybeSpannedField {
     fn from(field: Field) -> Self {
-- 
2.43.0


From 4d46fe9f69bd4839ecf4d841cc884a576fe1c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 41/56] fix: a join on no fields is refused instead of
 panicking

---
 src/commands/cmd_join/pyspark.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index d58bac7..2bde3d0 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -3,7 +3,7 @@ use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::utils::join_as_binaries;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::{anyhow, bail, ensure};
+use anyhow::{anyhow, bail, ensure, Context};
 
 impl PipelineTransformer for JoinCommand {
     #[allow(unused_variables, unreachable_code)]
@@ -45,7 +45,7 @@ impl PipelineTransformer for JoinCommand {
                 })
                 .collect(),
         )
-        .unwrap();
+        .context("join needs at least one field to join on")?;
 
         let condition = match (self.use_time, self.earlier) {
             (true, true) => {
-- 
2.43.0


From d50419900177a127c4f7d2569ae1cc254e727096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 42/56] fix: renaming by wildcard is refused instead of doing
 nothing

---
 src/commands/cmd_rename/pyspark.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commands/cmd_rename/pyspark.rs b/src/commands/cmd_rename/pyspark.rs
index add8f82..8e34cf7 100644
--- a/src/commands/cmd_rename/pyspark.rs
+++ b/src/commands/cmd_rename/pyspark.rs
@@ -12,6 +12,11 @@ impl PipelineTransformer for RenameCommand {
 
         for alias in self.alias.clone() {
             let old_name = match *alias.expr {
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                    name,
+                )))) if name.contains('*') => {
+                    bail!("UNIMPLEMENTED: Wildcard renaming is not supported yet")
+                }
                 ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
                     name,
                 )))) => name,
-- 
2.43.0


From 55123bdbffed04e0bdfe5dc9ac9752765281be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 43/56] fix: removing fields by wildcard is refused instead of
 doing nothing

---
 src/commands/cmd_fields/pyspark.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index 8588db4..22b1b92 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -2,6 +2,7 @@ use super::spl::*;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
+use anyhow::ensure;
 
 impl PipelineTransformer for FieldsCommand {
     fn transform_standalone(
@@ -11,6 +12,13 @@ impl PipelineTransformer for FieldsCommand {
         let mut df = state.df.clone().unwrap_or_default();
 
         if self.remove_fields {
+            ensure!(
+                !self
+                    .fields
+                    .iter()
+                    .any(|ast::Field(name)| name.contains('*')),
+                "UNIMPLEMENTED: Removing fields by wildcard is not supported yet"
+            );
             let names = self
                 .fields
                 .iter()
-- 
2.43.0


From 739e2b23db9a98913a06023b6cd7935d95b21f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 44/56] fix: makeresults and multisearch refuse input instead
 of dropping it

---
 src/commands/cmd_make_results/pyspark.rs | 6 +++++-
 src/commands/cmd_multi_search/pyspark.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index 8289c76..866e70c 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -1,5 +1,6 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use anyhow::ensure;
 
 impl PipelineTransformer for super::spl::MakeResultsCommand {
     #[allow(unused_variables, unreachable_code)]
@@ -7,7 +8,10 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
-        // let df = state.df.clone().unwrap_or_default();
+        ensure!(
+            state.df.is_none(),
+            "`makeresults` does not take any input"
+        );
 
         /*
             spark.range(0, 10, 1)
diff --git a/src/commands/cmd_multi_search/pyspark.rs b/src/commands/cmd_multi_search/pyspark.rs
index 9cad709..4d285ca 100644
--- a/src/commands/cmd_multi_search/pyspark.rs
+++ b/src/commands/cmd_multi_search/pyspark.rs
@@ -1,12 +1,16 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
-use anyhow::anyhow;
+use anyhow::{anyhow, ensure};
 
 impl PipelineTransformer for super::spl::MultiSearchCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            state.df.is_none(),
+            "`multisearch` does not take any input"
+        );
         if self.pipelines.is_empty() {
             return Ok(state);
         }
-- 
2.43.0


From c3fd55186a7077fe619ae2b7fcdfb32100e59e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 45/56] fix: convert functions without a translation are
 refused

---
 src/functions/convert_fns.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions/convert_fns.rs b/src/functions/convert_fns.rs
index fbdda4c..f66f4e1 100644
--- a/src/functions/convert_fns.rs
+++ b/src/functions/convert_fns.rs
@@ -2,6 +2,7 @@ use crate::commands::cmd_convert::spl::{ConvertCommand, FieldConversion};
 use crate::functions::shared::{ctime, memk, rmcomma, rmunit};
 use crate::pyspark::ast::*;
 use crate::spl::ast;
+use anyhow::bail;
 use log::warn;
 /*
 https://docs.splunk.com/Documentation/SplunkCloud/9.2.2406/SearchReference/Convert
@@ -54,6 +55,9 @@ pub fn convert_fn(
         "memk" => Ok(memk(column_like!(col(field_name)))),
         "rmunit" => Ok(rmunit(column_like!(col(field_name)))),
         "rmcomma" => Ok(rmcomma(column_like!(col(field_name)))),
+        "auto" | "dur2sec" | "mktime" | "mstime" | "none" | "num" => {
+            bail!("UNIMPLEMENTED: Unsupported convert function: {}", func)
+        }
 
         name => {
             warn!(
-- 
2.43.0


From b78867e92ee38444c0681396374415cd3cc2ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:05 +0000
Subject: [PATCH 46/56] fix: eval, convert and rare without anything to work on
 are refused

---
 src/commands/cmd_convert/spl.rs | 4 ++--
 src/commands/cmd_eval/spl.rs    | 4 ++--
 src/commands/cmd_rare/spl.rs    | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/commands/cmd_convert/spl.rs b/src/commands/cmd_convert/spl.rs
index 4f65b78..df3bac2 100644
--- a/src/commands/cmd_convert/spl.rs
+++ b/src/commands/cmd_convert/spl.rs
@@ -5,7 +5,7 @@ use crate::spl::parser::{field, token, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag;
 use nom::combinator::{map, opt};
-use nom::multi::many0;
+use nom::multi::many1;
 use nom::sequence::{delimited, pair, preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -72,7 +72,7 @@ impl SplCommand<ConvertCommand> for ConvertParser {
         map(
             pair(
                 Self::Options::match_options,
-                many0(map(
+                many1(map(
                     ws(tuple((
                         token,
                         delimited(tag("("), ws(field), tag(")")),
diff --git a/src/commands/cmd_eval/spl.rs b/src/commands/cmd_eval/spl.rs
index e05184e..2c9a439 100644
--- a/src/commands/cmd_eval/spl.rs
+++ b/src/commands/cmd_eval/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, Field, ParsedCommandOptions};
-use crate::spl::parser::{comma_separated_list0, eval_expr, field, ws};
+use crate::spl::parser::{comma_separated_list1, eval_expr, field, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
@@ -38,7 +38,7 @@ impl SplCommand<EvalCommand> for EvalParser {
 
     fn parse_body(input: &str) -> IResult<&str, EvalCommand> {
         map(
-            comma_separated_list0(separated_pair(ws(field), ws(tag("=")), ws(eval_expr))),
+            comma_separated_list1(separated_pair(ws(field), ws(tag("=")), ws(eval_expr))),
             |assignments| EvalCommand {
                 fields: assignments,
             },
diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index dcfceeb..5ee8e79 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -1,7 +1,7 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::operators::keyword;
-use crate::spl::parser::{field_list0, int, ws};
+use crate::spl::parser::{field_list1, int, ws};
 use crate::spl::python::*;
 use nom::combinator::{map_res, opt};
 use nom::sequence::{preceded, tuple};
@@ -115,8 +115,8 @@ impl SplCommand<RareCommand> for RareParser {
             tuple((
                 ws(opt(int)),
                 ws(Self::Options::match_options),
-                ws(field_list0),
-                ws(opt(preceded(ws(keyword("BY")), field_list0))),
+                ws(field_list1),
+                ws(opt(preceded(ws(keyword("BY")), field_list1))),
             )),
             |(n, opts, fields, by_fields)| -> Result<_, TryFromIntError> {
                 Ok(RareCommand {
-- 
2.43.0


From 48c104ec7318bb08d515d4d84b3ee6451c387851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:18 +0000
Subject: [PATCH 47/56] fix: read an integer too long for 64 bits as text
 instead of as a field name

---
 src/spl/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index fa63443..d1883a5 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -663,6 +663,10 @@ pub fn constant(input: &str) -> IResult<&str, ast::Constant> {
         into(all_consuming(variable)),
         into(all_consuming(double)),
         into(all_consuming(int)),
+        // A number too long for an integer is not a field either
+        map(all_consuming(recognize(pair(opt(tag("-")), digit1))), |s: &str| {
+            ast::Constant::Str(s.into())
+        }),
         into(all_consuming(field)),
         into(all_consuming(bool_)),
     ))(content)?;
-- 
2.43.0


From 4579035b075a37525e99bc6888620f018a3f67ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:41 +0000
Subject: [PATCH 48/56] fix: an error inside nested NOT ( ... ) no longer
 doubles the parse time at every level

---
 src/spl/parser.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index d1883a5..53f3628 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1113,13 +1113,8 @@ pub fn expr6<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
 pub fn expr7<const ORDER: bool>(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         map(
-            alt((
-                separated_pair(operators::UnaryNot::pattern, multispace1, expr7::<ORDER>),
-                pair(
-                    ws(operators::UnaryNot::pattern),
-                    parenthesized(expr9_with_whitespace::<ORDER>),
-                ),
-            )),
+            // What NOT applies to is tried once only: nested attempts would double with every level
+            pair(ws(operators::UnaryNot::pattern), expr7::<ORDER>),
             |(op, right)| ast::Unary::new(op, right).into(),
         ),
         expr6::<ORDER>,
-- 
2.43.0


From 273acd51465c956a0976356b5ecb69a35cedefd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:18 +0000
Subject: [PATCH 49/56] fix: refuse function names that cannot be Python names

---
 src/functions/eval_fns.rs | 7 ++++++-
 src/functions/stat_fns.rs | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 1c0b56e..c2b5261 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -7,7 +7,7 @@ use crate::pyspark::base::{
     ContextualizedExpr, PysparkTranspileContext, RuntimeSelection, ToSparkExpr,
 };
 use crate::pyspark::transpiler::expr::sql_identifier;
-use crate::pyspark::transpiler::utils::convert_time_format;
+use crate::pyspark::transpiler::utils::{convert_time_format, is_python_name};
 use crate::spl::ast;
 use crate::spl::ast::TimeSpan;
 use anyhow::{bail, ensure, Result};
@@ -762,6 +762,11 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
 
         // Fallback
         name => {
+            ensure!(
+                name != "eval" && is_python_name(name),
+                "There is no eval function `{}`",
+                name
+            );
             warn!(
                 "Unknown eval function encountered, returning as is: {}",
                 name
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index b83c5d4..ea76a38 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -49,6 +49,7 @@ use crate::functions::*;
 use crate::pyspark::ast::ColumnLike;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
+use crate::pyspark::transpiler::utils::is_python_name;
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
 use log::warn;
@@ -353,6 +354,11 @@ fn stats_fn_bare(
 
         // Fallback
         name => {
+            ensure!(
+                name != "eval" && is_python_name(name),
+                "There is no stats function `{}`",
+                name
+            );
             warn!(
                 "Unknown eval function encountered, returning as is: {}",
                 name
-- 
2.43.0


From cd418ea717925d509a69f1a17790bfb3795d46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:36 +0000
Subject: [PATCH 50/56] fix: ipmask takes a dotted mask, tostring writes its
 formats and tonumber its range as SPL does

---
 .../spl_transpiler/runtime/udfs/__init__.py   | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 7e4b241..717a17f 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -1,5 +1,5 @@
 from pyspark.sql.functions import udf
-from pyspark.sql.types import BooleanType, StringType, IntegerType
+from pyspark.sql.types import BooleanType, LongType, StringType
 import ipaddress
 
 
@@ -22,14 +22,9 @@ def cidr_match(cidr_range, ip_address):
 @udf(returnType=StringType())
 def ipmask(mask, ip):
     try:
-        # Convert mask to integer
-        mask_int = int(mask)
-
-        # Create an IPv4Network object
-        network = ipaddress.IPv4Network(f"{ip}/{mask_int}", strict=False)
-
-        # Return the network address (masked IP)
-        return str(network.network_address)
+        # The mask is itself written as an address, and need not be a prefix
+        masked = int(ipaddress.IPv4Address(mask)) & int(ipaddress.IPv4Address(ip))
+        return str(ipaddress.IPv4Address(masked))
     except ValueError:
         # Return None if there's an error (invalid IP or mask)
         return None
@@ -40,7 +35,7 @@ def printf(format_str, *args):
     return format_str % args
 
 
-@udf(returnType=IntegerType())
+@udf(returnType=LongType())
 def tonumber(value, base=10):
     try:
         return int(value, base)
@@ -59,14 +54,18 @@ def tostring(value, format: str | None = None):
         case (int() | float(), None):
             return str(value)
         case (int(), "binary"):
-            return bin(value)[2:]
+            return f"{value:b}"
         case (int(), "hex"):
-            return hex(value)[2:]
-        case (int() | float(), "commas"):
-            return "{:,}".format(value)
+            return f"0x{value:X}"
+        case (int(), "commas"):
+            return f"{value:,}"
+        case (float(), "commas"):
+            return f"{value:,.2f}"
         case (int(), "duration"):
-            hours, remainder = divmod(value, 3600)
-            minutes, seconds = divmod(remainder, 60)
-            return f"{hours:02d}:{minutes:02d}:{seconds:02d}"
+            minutes, seconds = divmod(value, 60)
+            hours, minutes = divmod(minutes, 60)
+            days, hours = divmod(hours, 24)
+            prefix = f"{days}+" if days else ""
+            return f"{prefix}{hours:02d}:{minutes:02d}:{seconds:02d}"
         case _:
             raise TypeError(f"Unsupported value+format pair: ({value}, {format})")
-- 
2.43.0


From cf5b9d5b84fc442a6a96c17b5a1f7897b96b6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:01 +0000
Subject: [PATCH 51/56] fix: logarithms to any base in a form that Spark
 accepts

---
 python/spl_transpiler/runtime/functions/eval.py | 5 +++--
 src/functions/eval_fns.rs                       | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 77f3498..3988868 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -716,8 +716,9 @@ def ln(num: Expr) -> Expr:
 
 
 @enforce_types
-def log(num: Expr, base: int = 10) -> Expr:
-    return F.log(base, num.to_pyspark_expr())
+def log(num: Expr, base: float = 10) -> Expr:
+    # Spark takes the base as a Python float only
+    return F.log(float(base), num.to_pyspark_expr())
 
 
 #         // pi()                                                	 Returns the constant pi to 11 digits of precision.
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index c2b5261..b9066e0 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -536,7 +536,8 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         "log" => function_transform!(log [args -> mapped_args] (x) {
             match mapped_args.as_slice() {
                 [] => column_like!(log10([x])),
-                [base] => column_like!(log([base.clone()], [x])),
+                // Spark's `log` takes the base as a Python number only
+                [base] => column_like!([log([x])] / [log([base.clone()])]),
                 _ => bail!("`log` takes a number and a base, got {} more arguments", mapped_args.len()),
             }
         }),
-- 
2.43.0


From bffe08e32e7d352fbdbdc962e5cde6cb91271d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:48 +0000
Subject: [PATCH 52/56] fix: keep neighbouring time variables apart in the
 runtime's time formats too

---
 python/spl_transpiler/runtime/functions/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index 2f098ba..2bad4d8 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -186,6 +186,9 @@ def convert_time_format(fmt_string: str) -> str:
             replacement = CONVERSIONS[original]
             if replacement is None:
                 raise ValueError(f"No known replacement pattern for `{original}`")
+            if not text and converted.endswith(replacement[0]):
+                # An empty optional section keeps the letters of two variables apart
+                converted += "[]"
             converted += _quote_time_format_text(text) + replacement
             text, rest = "", rest[len(original) :]
     return converted + _quote_time_format_text(text)
-- 
2.43.0


From fad07745248e05bf19c8e0bc94d7007614bcf0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:28 +0000
Subject: [PATCH 53/56] fix: data model read by the name of its root dataset
 has no empty part in its table name

---
 src/commands/cmd_data_model/pyspark.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_data_model/pyspark.rs b/src/commands/cmd_data_model/pyspark.rs
index e188451..c95982d 100644
--- a/src/commands/cmd_data_model/pyspark.rs
+++ b/src/commands/cmd_data_model/pyspark.rs
@@ -66,8 +66,10 @@ impl PipelineTransformer for DataModelCommand {
                     // data_model = <data_model_name>.<root_dataset_name>
                     // node_name = <root_dataset_name>.<...>.<target_dataset_name>
                     // return <data_model_name>.<root_dataset_name>.<...>.<target_dataset_name>
-                    let truncated_node_name = node_name.split(".").skip(1).collect::<Vec<_>>().join(".");
-                    format!("{}.{}", data_model, truncated_node_name)
+                    std::iter::once(data_model.as_str())
+                        .chain(node_name.split(".").skip(1))
+                        .collect::<Vec<_>>()
+                        .join(".")
                 }
                 _ => bail!("I think we received a dataset ({:?}) with no data model ({:?}) in `datamodel`?", self.dataset_name, self.data_model_name),
             }),
-- 
2.43.0


From bbbcdd94fbfa156ac9c366c605b994fb77997391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:44 +0000
Subject: [PATCH 54/56] fix: earliest, latest and rate of the runtime leave the
 other aggregates the rows in their own order

---
 .../spl_transpiler/runtime/functions/stats.py | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index 7053743..ccaf109 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -496,9 +496,9 @@ class EarliestStatsFn(StatsFunction):
     name: Literal["earliest"] = "earliest"
     value: Expr
 
-    def to_pyspark_expr(self, df: DataFrame):
-        df = df.orderBy(F.col("_time").asc())
-        return (df, F.first(self.value.to_pyspark_expr(), ignorenulls=True))
+    def to_pyspark_expr_simple(self):
+        value = self.value.to_pyspark_expr()
+        return F.min_by(value, F.when(value.isNotNull(), F.col("_time")))
 
 
 @enforce_types
@@ -535,9 +535,9 @@ class LatestStatsFn(StatsFunction):
     name: Literal["latest"] = "latest"
     value: Expr
 
-    def to_pyspark_expr(self, df: DataFrame):
-        df = df.orderBy(F.col("_time").asc())
-        return (df, F.last(self.value.to_pyspark_expr(), ignorenulls=True))
+    def to_pyspark_expr_simple(self):
+        value = self.value.to_pyspark_expr()
+        return F.max_by(value, F.when(value.isNotNull(), F.col("_time")))
 
 
 @enforce_types
@@ -666,15 +666,12 @@ class RateStatsFn(StatsFunction):
     name: Literal["rate"] = "rate"
     value: Expr
 
-    def to_pyspark_expr(self, df: DataFrame):
-        df = df.orderBy(F.col("_time").asc())
+    def to_pyspark_expr_simple(self):
         value = self.value.to_pyspark_expr()
         time = F.when(value.isNotNull(), F.col("_time"))
-        latest_value = F.last(value, ignorenulls=True)
-        earliest_value = F.first(value, ignorenulls=True)
-        latest_time = F.max(time)
-        earliest_time = F.min(time)
-        return (df, (latest_value - earliest_value) / (latest_time - earliest_time))
+        latest_value = F.max_by(value, time)
+        earliest_value = F.min_by(value, time)
+        return (latest_value - earliest_value) / (F.max(time) - F.min(time))
 
 
 @enforce_types
-- 
2.43.0


From 40623d7e0f9b2e0578ac309f3e17627818fbbca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:04 +0000
Subject: [PATCH 55/56] fix: refuse convert function names that cannot be
 Python names

---
 src/functions/convert_fns.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/functions/convert_fns.rs b/src/functions/convert_fns.rs
index f66f4e1..89a78d8 100644
--- a/src/functions/convert_fns.rs
+++ b/src/functions/convert_fns.rs
@@ -1,8 +1,9 @@
 use crate::commands::cmd_convert::spl::{ConvertCommand, FieldConversion};
 use crate::functions::shared::{ctime, memk, rmcomma, rmunit};
 use crate::pyspark::ast::*;
+use crate::pyspark::transpiler::utils::is_python_name;
 use crate::spl::ast;
-use anyhow::bail;
+use anyhow::{bail, ensure};
 use log::warn;
 /*
 https://docs.splunk.com/Documentation/SplunkCloud/9.2.2406/SearchReference/Convert
@@ -60,6 +61,11 @@ pub fn convert_fn(
         }
 
         name => {
+            ensure!(
+                is_python_name(name),
+                "Not the name of a function: {}",
+                name
+            );
             warn!(
                 "Unknown convert function encountered, returning as is: {}",
                 name
-- 
2.43.0


From 59a8f249e075b22e6fda533d66a28c0f0b61752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:15 +0000
Subject: [PATCH 56/56] fix: lambdas in executed code see the names it was
 given

---
 python/spl_transpiler/runtime/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/utils.py b/python/spl_transpiler/runtime/utils.py
index 813d3ae..77496d4 100644
--- a/python/spl_transpiler/runtime/utils.py
+++ b/python/spl_transpiler/runtime/utils.py
@@ -18,7 +18,9 @@ def exec_with_return(code: str, globals: dict, locals: dict) -> Any | None:
             last_expression = ast.unparse(a_last.target)
     main_body = ast.unparse(a)
     log.debug(f"Executing main code:\n```\n{main_body}\n```")
-    exec(main_body, globals, locals)
+    # One namespace, since functions defined by the code only see its global names
+    namespace = {**globals, **locals}
+    exec(main_body, namespace)
     if last_expression:
         log.debug(f"Returning expression: `{last_expression}`")
-        return eval(last_expression, globals, locals)
+        return eval(last_expression, namespace)
-- 
2.43.0

