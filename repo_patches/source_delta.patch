From 5034b659c024e370940d0d40a3f6e49b6af3d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 01/71] fix: recognise AND/OR/NOT/IN/AS only as whole,
 case-insensitive words

A field name that merely starts with a keyword ('order', 'android', 'notes')
was split into the keyword and a different field.
---
 src/spl/operators.rs | 30 ++++++++++++++++++++++++++----
 src/spl/parser.rs    | 16 ++++++++++------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/spl/operators.rs b/src/spl/operators.rs
index 69eb131..179b49e 100644
--- a/src/spl/operators.rs
+++ b/src/spl/operators.rs
@@ -1,9 +1,25 @@
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::character::complete::{multispace0, multispace1};
-use nom::sequence::delimited;
+use nom::character::complete::{multispace0, multispace1, satisfy};
+use nom::combinator::{not, value};
+use nom::sequence::{delimited, terminated};
 use nom::IResult;
 
+/// Matches a whole keyword, i.e. one that isn't merely the beginning of a longer token.
+pub fn keyword(word: &'static str) -> impl Fn(&str) -> IResult<&str, &str> {
+    move |input| {
+        value(
+            word,
+            terminated(
+                tag_no_case(word),
+                not(satisfy(|c| {
+                    c.is_ascii_alphanumeric() || "_*:/-%{}@\\$.".contains(c)
+                })),
+            ),
+        )(input)
+    }
+}
+
 pub trait OperatorSymbolTrait {
     const SYMBOL: &'static str;
     const PRECEDENCE: i32;
@@ -16,12 +32,18 @@ pub struct UnaryNot;
 impl OperatorSymbolTrait for UnaryNot {
     const SYMBOL: &'static str = "NOT";
     const PRECEDENCE: i32 = 2;
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        keyword(Self::SYMBOL)(input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct Or;
 impl OperatorSymbolTrait for Or {
     const SYMBOL: &'static str = "OR";
     const PRECEDENCE: i32 = 9;
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        keyword(Self::SYMBOL)(input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct And;
@@ -29,7 +51,7 @@ impl OperatorSymbolTrait for And {
     const SYMBOL: &'static str = "AND";
     const PRECEDENCE: i32 = 8;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        alt((tag_no_case("AND"), tag(" ")))(input)
+        alt((keyword(Self::SYMBOL), tag(" ")))(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
@@ -39,7 +61,7 @@ impl OperatorSymbolTrait for InList {
     const PRECEDENCE: i32 = 7;
 
     fn pattern(input: &str) -> IResult<&str, &str> {
-        tag_no_case("IN")(input)
+        keyword(Self::SYMBOL)(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 093edae..22e6cda 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -879,7 +879,7 @@ pub fn field_in(input: &str) -> IResult<&str, ast::FieldIn> {
     map(
         separated_pair(
             field,
-            ws(tag_no_case("IN")),
+            ws(operators::InList::pattern),
             parenthesized(comma_or_space_separated_list0(constant)),
         ),
         |(field, constants)| ast::FieldIn {
@@ -1123,7 +1123,11 @@ pub fn expr(input: &str) -> IResult<&str, ast::Expr> {
 //   def aliasedField[_: P]: P[Alias] = field ~ W("AS") ~ (token|doubleQuoted) map Alias.tupled
 pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
     map(
-        separated_pair(field, ws(tag_no_case("AS")), alt((token, double_quoted))),
+        separated_pair(
+            field,
+            ws(operators::keyword("AS")),
+            alt((token, double_quoted)),
+        ),
         |(field, alias)| ast::AliasedField {
             field,
             alias: alias.into(),
@@ -1134,7 +1138,7 @@ pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
 //   def aliasedCall[_: P]: P[Alias] = call ~ W("as") ~ token map Alias.tupled
 pub fn aliased_call(input: &str) -> IResult<&str, ast::Alias> {
     map(
-        separated_pair(call, ws(tag_no_case("as")), token),
+        separated_pair(call, ws(operators::keyword("AS")), token),
         |(expr, name)| ast::Alias {
             expr: Box::new(expr.into()),
             name: name.into(),
@@ -1298,7 +1302,7 @@ pub fn combine_all_expressions(exprs: Vec<ast::Expr>, symbol: impl ToString) ->
 // <logical-expression> | <time-opts> | <search-modifier> | NOT <logical-expression> | <index-expression> | <comparison-expression> | <logical-expression> [OR] <logical-expression>
 pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
     map(
-        separated_list1(ws(tag_no_case("OR")), logical_expression_group),
+        separated_list1(ws(operators::Or::pattern), logical_expression_group),
         |exprs| combine_all_expressions(exprs, operators::Or::SYMBOL).unwrap(),
     )(input)
 }
@@ -1306,7 +1310,7 @@ pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
 pub fn logical_expression_group(input: &str) -> IResult<&str, ast::Expr> {
     map(
         separated_list1(
-            alt((ws(tag_no_case("AND")), multispace1)),
+            alt((ws(operators::keyword("AND")), multispace1)),
             logical_expression_term,
         ),
         |exprs| combine_all_expressions(exprs, operators::And::SYMBOL).unwrap(),
@@ -1317,7 +1321,7 @@ pub fn logical_expression_term(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         parenthesized(logical_expression),
         map(
-            preceded(ws(tag_no_case("NOT")), logical_expression_term),
+            preceded(ws(operators::UnaryNot::pattern), logical_expression_term),
             |expr| ast::Unary::new(operators::UnaryNot::SYMBOL, expr).into(),
         ),
         map(time_opts, |opts| {
-- 
2.43.0


From 1948b3a579bd6ef12d081e809416ca561637201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 02/71] fix: operators of equal precedence associate to the
 left, AND binds before OR in eval

'a - b - c' was read as 'a - (b - c)', and eval and function arguments used the
OR-before-AND precedence of the search command.
---
 src/commands/cmd_eval/spl.rs |   4 +-
 src/spl/parser.rs            | 128 +++++++++++++++++++++++++----------
 2 files changed, 95 insertions(+), 37 deletions(-)

diff --git a/src/commands/cmd_eval/spl.rs b/src/commands/cmd_eval/spl.rs
index b581e0c..e05184e 100644
--- a/src/commands/cmd_eval/spl.rs
+++ b/src/commands/cmd_eval/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, Field, ParsedCommandOptions};
-use crate::spl::parser::{comma_separated_list0, expr, field, ws};
+use crate::spl::parser::{comma_separated_list0, eval_expr, field, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
@@ -38,7 +38,7 @@ impl SplCommand<EvalCommand> for EvalParser {
 
     fn parse_body(input: &str) -> IResult<&str, EvalCommand> {
         map(
-            comma_separated_list0(separated_pair(ws(field), ws(tag("=")), ws(expr))),
+            comma_separated_list0(separated_pair(ws(field), ws(tag("=")), ws(eval_expr))),
             |assignments| EvalCommand {
                 fields: assignments,
             },
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 22e6cda..3c9cbbb 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -895,7 +895,7 @@ pub fn field_in(input: &str) -> IResult<&str, ast::FieldIn> {
 //   def call[_: P]: P[Call] = (token ~~ "(" ~~ expr.rep(sep = ",") ~~ ")").map(Call.tupled)
 pub fn call(input: &str) -> IResult<&str, ast::Call> {
     map(
-        pair(token, parenthesized(comma_separated_list0(expr))),
+        pair(token, parenthesized(comma_separated_list0(eval_expr))),
         |(token, exprs)| ast::Call {
             name: token.into(),
             args: exprs,
@@ -969,9 +969,16 @@ pub fn term_call(input: &str) -> IResult<&str, ast::Call> {
    precedence 9: Or
 */
 
+type ExprParser = fn(&str) -> IResult<&str, ast::Expr>;
+
 pub fn expr_base(input: &str) -> IResult<&str, ast::Expr> {
+    expr_base_grouping(expr9_with_whitespace, input)
+}
+
+/// `group` is the grammar to use inside of parentheses
+fn expr_base_grouping(group: ExprParser, input: &str) -> IResult<&str, ast::Expr> {
     alt((
-        parenthesized(expr9_with_whitespace),
+        parenthesized(group),
         map(term_call, ast::Expr::Call),
         map(call, ast::Expr::Call),
         map(constant, |v| ast::Expr::Leaf(ast::LeafExpr::Constant(v))),
@@ -979,50 +986,68 @@ pub fn expr_base(input: &str) -> IResult<&str, ast::Expr> {
     ))(input)
 }
 
-pub fn expr2(input: &str) -> IResult<&str, ast::Expr> {
-    alt((expr_base,))(input)
+/// Combine a chain of operators of equal precedence, e.g. `a - b + c`.
+/// The operators are left-associative; chains of only `associative_op` are nested to the right,
+/// which has the same meaning.
+fn combine_operator_chain(
+    first: ast::Expr,
+    rest: Vec<(&str, ast::Expr)>,
+    associative_op: &str,
+) -> ast::Expr {
+    if rest.iter().all(|(op, _)| *op == associative_op) {
+        let (ops, mut operands): (Vec<_>, Vec<_>) = rest.into_iter().unzip();
+        operands.insert(0, first);
+        let last = operands.pop().unwrap();
+        operands
+            .into_iter()
+            .zip(ops)
+            .rev()
+            .fold(last, |right, (left, op)| {
+                ast::Binary::new(left, op, right).into()
+            })
+    } else {
+        rest.into_iter().fold(first, |left, (op, right)| {
+            ast::Binary::new(left, op, right).into()
+        })
+    }
 }
 
-pub fn expr3(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+fn expr3(group: ExprParser, input: &str) -> IResult<&str, ast::Expr> {
+    map(
         pair(
-            expr2,
-            opt(pair(
+            |i| expr_base_grouping(group, i),
+            many0(pair(
                 ws(alt((
                     operators::Multiply::pattern,
                     operators::Divide::pattern,
                 ))),
-                expr3,
+                |i| expr_base_grouping(group, i),
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        |(first, rest)| combine_operator_chain(first, rest, operators::Multiply::SYMBOL),
+    )(input)
 }
 
-pub fn expr4(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+fn expr4(group: ExprParser, input: &str) -> IResult<&str, ast::Expr> {
+    map(
         pair(
-            expr3,
-            opt(pair(
+            |i| expr3(group, i),
+            many0(pair(
                 ws(alt((operators::Add::pattern, operators::Subtract::pattern))),
-                expr4,
+                |i| expr3(group, i),
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        |(first, rest)| combine_operator_chain(first, rest, operators::Add::SYMBOL),
+    )(input)
 }
 
-pub fn expr5(input: &str) -> IResult<&str, ast::Expr> {
+fn expr5(group: ExprParser, input: &str) -> IResult<&str, ast::Expr> {
     alt((map(
         pair(
-            expr4,
-            opt(pair(ws(alt((operators::Concatenate::pattern,))), expr5)),
+            |i| expr4(group, i),
+            opt(pair(ws(alt((operators::Concatenate::pattern,))), |i| {
+                expr5(group, i)
+            })),
         ),
         |(left, maybe_op_right)| match maybe_op_right {
             None => left,
@@ -1031,12 +1056,12 @@ pub fn expr5(input: &str) -> IResult<&str, ast::Expr> {
     ),))(input)
 }
 
-pub fn expr6(input: &str) -> IResult<&str, ast::Expr> {
+fn expr6(group: ExprParser, input: &str) -> IResult<&str, ast::Expr> {
     alt((
         into(field_in),
         map(
             pair(
-                expr5,
+                |i| expr5(group, i),
                 opt(pair(
                     ws(alt((
                         operators::StrictlyEquals::pattern,
@@ -1047,7 +1072,7 @@ pub fn expr6(input: &str) -> IResult<&str, ast::Expr> {
                         operators::GreaterEquals::pattern,
                         operators::GreaterThan::pattern,
                     ))),
-                    expr6,
+                    |i| expr6(group, i),
                 )),
             ),
             |(left, maybe_op_right)| match maybe_op_right {
@@ -1058,25 +1083,30 @@ pub fn expr6(input: &str) -> IResult<&str, ast::Expr> {
     ))(input)
 }
 
-pub fn expr7(input: &str) -> IResult<&str, ast::Expr> {
+fn expr7(group: ExprParser, input: &str) -> IResult<&str, ast::Expr> {
     alt((
         map(
             alt((
-                separated_pair(operators::UnaryNot::pattern, multispace1, expr7),
+                separated_pair(operators::UnaryNot::pattern, multispace1, |i| {
+                    expr7(group, i)
+                }),
                 pair(
                     ws(operators::UnaryNot::pattern),
-                    parenthesized(expr9_with_whitespace),
+                    parenthesized(group),
                 ),
             )),
             |(op, right)| ast::Unary::new(op, right).into(),
         ),
-        expr6,
+        |i| expr6(group, i),
     ))(input)
 }
 
 pub fn expr8(input: &str) -> IResult<&str, ast::Expr> {
     alt((map(
-        pair(expr7, opt(pair(ws(operators::Or::pattern), expr8))),
+        pair(
+            |i| expr7(expr9_with_whitespace, i),
+            opt(pair(ws(operators::Or::pattern), expr8)),
+        ),
         |(left, maybe_op_right)| match maybe_op_right {
             None => left,
             Some((op, right)) => ast::Binary::new(left, op, right).into(),
@@ -1113,10 +1143,38 @@ pub fn expr9_with_whitespace(input: &str) -> IResult<&str, ast::Expr> {
     )(input)
 }
 
+/// Expressions of the `search` command, where OR has a higher precedence than AND
 pub fn expr(input: &str) -> IResult<&str, ast::Expr> {
     expr9_no_whitespace(input)
 }
 
+/// Expressions of `eval`, `where` and function arguments, where AND has a higher precedence than OR
+pub fn eval_expr(input: &str) -> IResult<&str, ast::Expr> {
+    map(
+        pair(
+            eval_expr_and,
+            opt(pair(ws(operators::Or::pattern), eval_expr)),
+        ),
+        |(left, maybe_op_right)| match maybe_op_right {
+            None => left,
+            Some((op, right)) => ast::Binary::new(left, op, right).into(),
+        },
+    )(input)
+}
+
+fn eval_expr_and(input: &str) -> IResult<&str, ast::Expr> {
+    map(
+        pair(
+            |i| expr7(eval_expr, i),
+            opt(pair(ws(operators::And::pattern), eval_expr_and)),
+        ),
+        |(left, maybe_op_right)| match maybe_op_right {
+            None => left,
+            Some((op, right)) => ast::Binary::new(left, op, right).into(),
+        },
+    )(input)
+}
+
 //
 //   // lookup <lookup-dataset> (<lookup-field> [AS <event-field>] )...
 //   // [ (OUTPUT | OUTPUTNEW) ( <lookup-destfield> [AS <event-destfield>] )...]
-- 
2.43.0


From 0e7530dad63766e42782ad98ed283f9d314a9b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 03/71] fix: where accepts the same expressions as eval

'where a > b' compared with the string "b" instead of the field, and anything but
a field on the left-hand side was rejected.
---
 src/commands/cmd_where/spl.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/commands/cmd_where/spl.rs b/src/commands/cmd_where/spl.rs
index edad280..9398dcf 100644
--- a/src/commands/cmd_where/spl.rs
+++ b/src/commands/cmd_where/spl.rs
@@ -1,8 +1,11 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, ParsedCommandOptions};
-use crate::spl::parser::logical_expression;
+use crate::spl::parser::{eval_expr, logical_expression, ws};
 use crate::spl::python::*;
-use nom::combinator::map;
+use nom::branch::alt;
+use nom::bytes::complete::tag;
+use nom::combinator::{eof, map, peek};
+use nom::sequence::terminated;
 use nom::IResult;
 use pyo3::prelude::*;
 //   // where <predicate-expression>
@@ -35,7 +38,14 @@ impl SplCommand<WhereCommand> for WhereParser {
     type Options = WhereCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, WhereCommand> {
-        map(logical_expression, |v| WhereCommand { expr: v })(input)
+        map(
+            alt((
+                // Same expressions as `eval`, as long as that explains the whole command
+                terminated(eval_expr, peek(ws(alt((eof, tag("|"), tag("]")))))),
+                logical_expression,
+            )),
+            |v| WhereCommand { expr: v },
+        )(input)
     }
 }
 
-- 
2.43.0


From 2dd39668e59a5189609745bc1ad4db8be9920fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 04/71] fix: escape strings and names in the generated Python
 code

Quotes, line breaks and backslash sequences in SPL strings, field names and
aliases ended the Python literal early or changed its value.
---
 src/commands/cmd_make_results/pyspark.rs |  4 +-
 src/pyspark/ast.rs                       | 74 +++++++++++++++++++-----
 src/pyspark/transpiler/expr.rs           |  4 +-
 3 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index fa7ac6e..4b3c6f8 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -29,12 +29,12 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
                 .with_column("sourcetype", column_like!(lit(None)))
                 .with_column(
                     "splunk_server",
-                    column_like!(lit(format!("\"{}\"", self.server.clone()))),
+                    column_like!(lit(quote_python_string(&self.server, '"'))),
                 )
                 .with_column(
                     "splunk_server_group",
                     match self.server_group.clone() {
-                        Some(group) => column_like!(lit(group)),
+                        Some(group) => column_like!(lit(quote_python_string(&group, '"'))),
                         None => column_like!(lit(None)),
                     },
                 );
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 34d32b4..c7987c1 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -13,6 +13,44 @@ pub struct Base();
 // #[pyclass(frozen,eq,hash)]
 pub struct PyLiteral(pub String);
 
+/// Render the contents of an SPL string as a Python string literal using the given quotes.
+/// Escaped quotes and backslashes remain escaped, all other characters stand for themselves.
+pub fn quote_python_string(value: &str, quote: char) -> String {
+    let mut out = String::with_capacity(value.len() + 2);
+    let mut chars = value.chars().peekable();
+    out.push(quote);
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                out.push('\\');
+                match chars.peek() {
+                    Some(&escaped @ ('\\' | '"' | '\'')) => {
+                        out.push(escaped);
+                        chars.next();
+                    }
+                    // Anything else isn't an SPL escape and must not become a Python one
+                    Some(
+                        'a' | 'b' | 'f' | 'n' | 'r' | 't' | 'u' | 'v' | 'x' | 'N' | 'U' | '0'..='7',
+                    )
+                    | None => out.push('\\'),
+                    Some(c) if c.is_control() => out.push('\\'),
+                    _ => {}
+                }
+            }
+            '\n' => out.push_str("\\n"),
+            '\r' => out.push_str("\\r"),
+            c if c == quote => {
+                out.push('\\');
+                out.push(c);
+            }
+            c if c.is_control() => out.push_str(&format!("\\x{:02x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+    out.push(quote);
+    out
+}
+
 impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
     fn from(value: Option<T>) -> PyLiteral {
         match value {
@@ -24,12 +62,12 @@ impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
 
 impl From<String> for PyLiteral {
     fn from(value: String) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        value.as_str().into()
     }
 }
 impl From<&str> for PyLiteral {
     fn from(value: &str) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(quote_python_string(value, '"'))
     }
 }
 
@@ -219,7 +257,7 @@ pub(crate) use column_like;
 impl ToSparkQuery for ColumnLike {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            ColumnLike::Named { name } => Ok(format!("F.col('{}')", name)),
+            ColumnLike::Named { name } => Ok(format!("F.col({})", quote_python_string(name, '\''))),
             ColumnLike::Literal { code } => Ok(format!("F.lit({})", code)),
             ColumnLike::MethodCall { col, func, args } => {
                 let args: Result<Vec<String>> = args
@@ -245,9 +283,11 @@ impl ToSparkQuery for ColumnLike {
                 };
                 Ok(format!("{}({})", func, args?.join(", ")))
             }
-            ColumnLike::Aliased { col, name } => {
-                Ok(format!("{}.alias('{}')", col.to_spark_query(ctx)?, name))
-            }
+            ColumnLike::Aliased { col, name } => Ok(format!(
+                "{}.alias({})",
+                col.to_spark_query(ctx)?,
+                quote_python_string(name, '\'')
+            )),
             ColumnLike::BinaryOp { op, left, right } => Ok(format!(
                 "{} {} {}",
                 left.to_spark_query(ctx)?,
@@ -321,7 +361,7 @@ impl ToSparkQuery for ColumnOrName {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
             ColumnOrName::Column(col) => col.to_spark_query(ctx),
-            ColumnOrName::Name(name) => Ok(format!("\"{}\"", name).into()),
+            ColumnOrName::Name(name) => Ok(quote_python_string(name, '"').into()),
         }
     }
 }
@@ -355,7 +395,11 @@ impl ToSparkQuery for PyDict {
                 primary_df_code,
             } = value.to_spark_query(ctx)?;
             out_preface.extend(preface);
-            out_vals.push(format!("\"{}\": {}", key, primary_df_code).to_string());
+            out_vals.push(format!(
+                "{}: {}",
+                quote_python_string(key, '"'),
+                primary_df_code
+            ));
         }
         Ok(format!(r#"{{ {} }}"#, out_vals.join(", ")).into())
     }
@@ -772,7 +816,9 @@ impl Default for DataFrame {
 impl ToSparkQuery for DataFrame {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            DataFrame::Source { name } => Ok(format!("spark.table('{}')", name).into()),
+            DataFrame::Source { name } => {
+                Ok(format!("spark.table({})", quote_python_string(name, '\'')).into())
+            }
             DataFrame::RawSource { code } => Ok(code.clone().into()),
             DataFrame::Runtime {
                 name,
@@ -870,9 +916,9 @@ impl ToSparkQuery for DataFrame {
                 column,
                 name,
             } => Ok(format!(
-                "{}.withColumn('{}', {},)",
+                "{}.withColumn({}, {},)",
                 source.to_spark_query(ctx)?,
-                name,
+                quote_python_string(name, '\''),
                 column.to_spark_query(ctx)?,
             )
             .into()),
@@ -881,10 +927,10 @@ impl ToSparkQuery for DataFrame {
                 old_name,
                 new_name,
             } => Ok(format!(
-                "{}.withColumnRenamed('{}', '{}',)",
+                "{}.withColumnRenamed({}, {},)",
                 source.to_spark_query(ctx)?,
-                old_name,
-                new_name,
+                quote_python_string(old_name, '\''),
+                quote_python_string(new_name, '\''),
             )
             .into()),
             DataFrame::OrderBy { source, columns } => {
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index f5b1498..40daa76 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -89,7 +89,7 @@ impl ToSparkExpr for ast::Expr {
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
                 Ok(ColumnLike::Literal {
-                    code: format!("'{}'", val),
+                    code: quote_python_string(&val, '\''),
                 }
                 .into())
             }
@@ -103,7 +103,7 @@ impl ToSparkExpr for ast::Expr {
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(ast::IPv4CIDR(
                 val,
             )))) => Ok(ColumnLike::Literal {
-                code: format!("'{}'", val),
+                code: quote_python_string(&val, '\''),
             }
             .into()),
 
-- 
2.43.0


From 5f3a583e1b4dbbf94a9b640b9630c0d95343c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 05/71] fix: quote regular expressions that cannot be written
 as a raw Python string

---
 src/commands/cmd_regex/pyspark.rs |  2 +-
 src/commands/cmd_rex/pyspark.rs   |  2 +-
 src/pyspark/ast.rs                | 15 +++++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_regex/pyspark.rs b/src/commands/cmd_regex/pyspark.rs
index eec66ad..a91381f 100644
--- a/src/commands/cmd_regex/pyspark.rs
+++ b/src/commands/cmd_regex/pyspark.rs
@@ -22,7 +22,7 @@ impl PipelineTransformer for RegexCommand {
 
         let mut col = column_like!(regexp_like(
             [col(field)],
-            [Expr::PyLiteral(PyLiteral(format!("r\"{}\"", self.regex)))]
+            [Expr::PyLiteral(PyLiteral(quote_python_regex(&self.regex)))]
         ));
         if invert {
             col = column_like!(~[col]);
diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index f84ccbb..6d36a44 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -27,7 +27,7 @@ impl PipelineTransformer for RexCommand {
                 group_name.unwrap_or(group_index.to_string()),
                 column_like!(regexp_extract(
                     [col(self.field.clone())],
-                    [Expr::PyLiteral(PyLiteral(format!("r\"{}\"", self.regex)))],
+                    [Expr::PyLiteral(PyLiteral(quote_python_regex(&self.regex)))],
                     [py_lit(group_index as i64)]
                 )),
             );
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index c7987c1..9a6e7a1 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -51,6 +51,21 @@ pub fn quote_python_string(value: &str, quote: char) -> String {
     out
 }
 
+/// Render a regular expression as a Python string literal, raw if possible.
+pub fn quote_python_regex(regex: &str) -> String {
+    let mut escaped = false;
+    let raw_is_safe = regex.chars().all(|c| {
+        let is_safe = !c.is_control() && (escaped || c != '"');
+        escaped = c == '\\' && !escaped;
+        is_safe
+    });
+    if raw_is_safe && !escaped {
+        format!("r\"{}\"", regex)
+    } else {
+        quote_python_string(&regex.replace('\\', "\\\\"), '"')
+    }
+}
+
 impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
     fn from(value: Option<T>) -> PyLiteral {
         match value {
-- 
2.43.0


From 166999f7f27ae03d4f505cb8257f501e941dfeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 06/71] fix: keep leading and trailing whitespace of quoted
 strings

---
 src/spl/parser.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 3c9cbbb..5fcf72f 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -447,11 +447,10 @@ pub fn bool_(input: &str) -> IResult<&str, ast::BoolValue> {
 
 //   def doubleQuoted[_: P]: P[String] = P( "\"" ~ (CharsWhile(!"\"".contains(_)) | "\\" ~~ AnyChar | !"\"").rep.! ~ "\"" )
 fn _double_quoted_content(input: &str) -> IResult<&str, &str> {
-    ws(recognize(many0(alt((
+    recognize(many0(alt((
         recognize(pair(tag(r#"\"#), anychar)),
         recognize(none_of(r#""\"#)),
-    )))))
-    .parse(input)
+    ))))(input)
 }
 
 pub fn double_quoted(input: &str) -> IResult<&str, &str> {
@@ -468,10 +467,10 @@ pub fn double_quoted(input: &str) -> IResult<&str, &str> {
 pub fn single_quoted(input: &str) -> IResult<&str, &str> {
     delimited(
         tag("\'"),
-        ws(recognize(many0(alt((
+        recognize(many0(alt((
             recognize(pair(tag(r#"\"#), anychar)),
             recognize(none_of(r#"'\"#)),
-        ))))),
+        )))),
         tag("\'"),
     )(input)
 }
-- 
2.43.0


From 573001636ed173e633dafd95358374b362bba9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:31 +0000
Subject: [PATCH 07/71] fix: keep the statements a nested runtime query depends
 on

---
 src/pyspark/ast.rs  | 118 +++++++++++++++++++++++++-------------------
 src/pyspark/base.rs |  12 +++++
 2 files changed, 79 insertions(+), 51 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 9a6e7a1..2fe0ada 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -416,7 +416,11 @@ impl ToSparkQuery for PyDict {
                 primary_df_code
             ));
         }
-        Ok(format!(r#"{{ {} }}"#, out_vals.join(", ")).into())
+        Ok(PythonCode::new(
+            format!(r#"{{ {} }}"#, out_vals.join(", ")),
+            out_preface,
+            None,
+        ))
     }
 }
 
@@ -459,7 +463,11 @@ impl ToSparkQuery for PyList {
             out_preface.extend(preface);
             out_vals.push(primary_df_code);
         }
-        Ok(format!(r#"[ {} ]"#, out_vals.join(", ")).into())
+        Ok(PythonCode::new(
+            format!(r#"[ {} ]"#, out_vals.join(", ")),
+            out_preface,
+            None,
+        ))
     }
 }
 
@@ -530,7 +538,11 @@ impl ToSparkQuery for PyRuntimeFunc {
             out_args.push(format!("{}={}", key, primary_df_code).to_string());
         }
 
-        Ok(format!("functions.{}({})", self.name, out_args.join(", ")).into())
+        Ok(PythonCode::new(
+            format!("functions.{}({})", self.name, out_args.join(", ")),
+            out_preface,
+            None,
+        ))
     }
 }
 
@@ -830,11 +842,12 @@ impl Default for DataFrame {
 
 impl ToSparkQuery for DataFrame {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
-        match self {
+        let mut preface = vec![];
+        let code: String = match self {
             DataFrame::Source { name } => {
-                Ok(format!("spark.table({})", quote_python_string(name, '\'')).into())
+                format!("spark.table({})", quote_python_string(name, '\''))
             }
-            DataFrame::RawSource { code } => Ok(code.clone().into()),
+            DataFrame::RawSource { code } => code.clone(),
             DataFrame::Runtime {
                 name,
                 source,
@@ -869,124 +882,127 @@ impl ToSparkQuery for DataFrame {
                     format!("{} = commands.{}({})", name, runtime_func, all_args_str);
                 all_preface.push(full_command);
 
-                Ok(PythonCode::new(
+                return Ok(PythonCode::new(
                     name.clone(),
                     all_preface,
                     Some(primary_source_code),
-                ))
+                ));
             }
             DataFrame::Named { source, name } => {
                 let source_code = source.to_spark_query(ctx)?;
-                Ok(PythonCode::new(
+                return Ok(PythonCode::new(
                     name.clone(),
                     vec![format!("{} = {}", name, source_code.primary_df_code)],
                     Some(source_code),
-                ))
+                ));
             }
             DataFrame::Select { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.select({},)",
-                    source.to_spark_query(ctx)?,
+                    source.to_spark_query(ctx)?.into_expression(&mut preface),
                     columns?.join(", ")
                 )
-                .into())
             }
-            DataFrame::Where { source, condition } => Ok(format!(
+            DataFrame::Where { source, condition } => format!(
                 "{}.where({},)",
-                source.to_spark_query(ctx)?,
+                source.to_spark_query(ctx)?.into_expression(&mut preface),
                 condition.to_spark_query(ctx)?,
-            )
-            .into()),
+            ),
             DataFrame::GroupBy { source, columns } => {
                 // Extra trailing comma is intentional
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|s| s.to_spark_query(ctx).map(|s| format!("{}, ", s)))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.groupBy([{}])",
-                    source.to_spark_query(ctx)?,
+                    source.to_spark_query(ctx)?.into_expression(&mut preface),
                     columns?.join("")
                 )
-                .into())
             }
             DataFrame::Aggregation { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.agg({},)",
-                    source.to_spark_query(ctx)?,
+                    source.to_spark_query(ctx)?.into_expression(&mut preface),
                     columns?.join(", ")
                 )
-                .into())
             }
             DataFrame::WithColumn {
                 source,
                 column,
                 name,
-            } => Ok(format!(
+            } => format!(
                 "{}.withColumn({}, {},)",
-                source.to_spark_query(ctx)?,
+                source.to_spark_query(ctx)?.into_expression(&mut preface),
                 quote_python_string(name, '\''),
                 column.to_spark_query(ctx)?,
-            )
-            .into()),
+            ),
             DataFrame::WithColumnRenamed {
                 source,
                 old_name,
                 new_name,
-            } => Ok(format!(
+            } => format!(
                 "{}.withColumnRenamed({}, {},)",
-                source.to_spark_query(ctx)?,
+                source.to_spark_query(ctx)?.into_expression(&mut preface),
                 quote_python_string(old_name, '\''),
                 quote_python_string(new_name, '\''),
-            )
-            .into()),
+            ),
             DataFrame::OrderBy { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.orderBy({},)",
-                    source.to_spark_query(ctx)?,
+                    source.to_spark_query(ctx)?.into_expression(&mut preface),
                     columns?.join(", ")
                 )
-                .into())
             }
-            DataFrame::UnionByName { source, other } => Ok(format!(
+            DataFrame::UnionByName { source, other } => format!(
                 "{}.unionByName({}, allowMissingColumns=True,)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
-            )
-            .into()),
+                source.to_spark_query(ctx)?.into_expression(&mut preface),
+                other.to_spark_query(ctx)?.into_expression(&mut preface),
+            ),
             DataFrame::Limit { source, limit } => {
-                Ok(format!("{}.limit({},)", source.to_spark_query(ctx)?, limit).into())
+                format!(
+                    "{}.limit({},)",
+                    source.to_spark_query(ctx)?.into_expression(&mut preface),
+                    limit
+                )
             }
             DataFrame::Tail { source, limit } => {
-                Ok(format!("{}.tail({})", source.to_spark_query(ctx)?, limit).into())
+                format!(
+                    "{}.tail({})",
+                    source.to_spark_query(ctx)?.into_expression(&mut preface),
+                    limit
+                )
             }
             DataFrame::Join {
                 source,
                 other,
                 condition,
                 join_type,
-            } => Ok(format!(
+            } => format!(
                 "{}.join({}, {}, '{}',)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
+                source.to_spark_query(ctx)?.into_expression(&mut preface),
+                other.to_spark_query(ctx)?.into_expression(&mut preface),
                 condition.to_spark_query(ctx)?,
                 join_type
-            )
-            .into()),
+            ),
             DataFrame::Alias { source, name } => {
-                Ok(format!("{}.alias('{}',)", source.to_spark_query(ctx)?, name,).into())
+                format!(
+                    "{}.alias({},)",
+                    source.to_spark_query(ctx)?.into_expression(&mut preface),
+                    quote_python_string(name, '\''),
+                )
             }
             DataFrame::ArbitraryMethod {
                 source,
@@ -997,15 +1013,15 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
+                format!(
                     "{}.{}({},)",
-                    source.to_spark_query(ctx)?,
+                    source.to_spark_query(ctx)?.into_expression(&mut preface),
                     method,
                     params?.join(",")
                 )
-                .into())
             }
-        }
+        };
+        Ok(PythonCode::new(code, preface, None))
     }
 }
 
diff --git a/src/pyspark/base.rs b/src/pyspark/base.rs
index b64b78b..f3a27df 100644
--- a/src/pyspark/base.rs
+++ b/src/pyspark/base.rs
@@ -57,6 +57,18 @@ impl PythonCode {
     }
 }
 
+impl PythonCode {
+    /// Move the statements this code depends on to `preface`, leaving only an expression
+    pub fn into_expression(self, preface: &mut Vec<String>) -> String {
+        for statement in self.preface {
+            if !preface.contains(&statement) {
+                preface.push(statement);
+            }
+        }
+        self.primary_df_code
+    }
+}
+
 impl From<String> for PythonCode {
     fn from(primary_df_code: String) -> Self {
         Self {
-- 
2.43.0


From f3ab35e3f324dea4a580cfe719e0ab48ba5c65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 08/71] fix: parse nested NOT in linear time

---
 src/spl/parser.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 5fcf72f..e10bf94 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1085,15 +1085,7 @@ fn expr6(group: ExprParser, input: &str) -> IResult<&str, ast::Expr> {
 fn expr7(group: ExprParser, input: &str) -> IResult<&str, ast::Expr> {
     alt((
         map(
-            alt((
-                separated_pair(operators::UnaryNot::pattern, multispace1, |i| {
-                    expr7(group, i)
-                }),
-                pair(
-                    ws(operators::UnaryNot::pattern),
-                    parenthesized(group),
-                ),
-            )),
+            pair(ws(operators::UnaryNot::pattern), |i| expr7(group, i)),
             |(op, right)| ast::Unary::new(op, right).into(),
         ),
         |i| expr6(group, i),
-- 
2.43.0


From ff1358d4eecc2727e87e7c1589ac7216d92c8dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:53 +0000
Subject: [PATCH 09/71] fix: union the indexes of a search in the order they
 are written

---
 src/commands/cmd_search/pyspark.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 7baa079..39cb4a6 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -16,7 +16,7 @@ fn _is_index(expr: &ast::Expr) -> bool {
 fn split_conditions(
     expr: &ast::Expr,
     all_ands: bool,
-    indices: &mut HashSet<String>,
+    indices: &mut impl Extend<String>,
     ctx: &PysparkTranspileContext,
 ) -> Result<Option<ast::Expr>> {
     match expr.clone() {
@@ -32,7 +32,8 @@ fn split_conditions(
                 (true, "=", false) | (false, "=", true) => {
                     ensure!(all_ands, "Cannot specify an index under an OR branch");
                     let compare_value = if left_is_index { *right } else { *left };
-                    indices.insert(compare_value.with_context(ctx).try_into()?);
+                    let index: String = compare_value.with_context(ctx).try_into()?;
+                    indices.extend([index]);
                     Ok(None)
                 }
                 (true, _, true) | (true, _, _) | (_, _, true) => {
@@ -175,11 +176,13 @@ impl PipelineTransformer for SearchCommand {
         &self,
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
-        let mut indices = HashSet::new();
+        // In the order of their appearance, so the result is deterministic
+        let mut indices: Vec<String> = vec![];
         let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
         let mut df = if !indices.is_empty() {
             let mut _df: Option<DataFrame> = None;
-            for new_index in indices.into_iter() {
+            let mut seen = HashSet::new();
+            for new_index in indices.into_iter().filter(|i| seen.insert(i.clone())) {
                 let new_source = DataFrame::source(new_index);
                 _df = match (_df, new_source) {
                     (None, new_source) => Some(new_source),
-- 
2.43.0


From 8e22bcf797f4bd1ba74994a48b9037f18c0c2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 10/71] fix: compare search fields with the words they are
 written next to, not with other fields

---
 src/commands/cmd_search/pyspark.rs | 52 ++++++++++++++++++++++++++++--
 src/pyspark/transpiler/expr.rs     |  2 +-
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 39cb4a6..1b2cb7e 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -13,6 +13,49 @@ fn _is_index(expr: &ast::Expr) -> bool {
     )
 }
 
+/// In a search the left-hand side of a comparison is a field and the right-hand side is a value,
+/// even if the value is written as a bare word: `user=alice` compares `user` with the string "alice".
+fn with_literal_values(expr: ast::Expr) -> ast::Expr {
+    let as_field = |expr: ast::Expr| match expr {
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Bool(ast::BoolValue(val)))) => {
+            ast::Field::from(if val { "t" } else { "f" }).into()
+        }
+        other => other,
+    };
+    let as_value = |expr: ast::Expr| match as_field(expr) {
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(name)))) => {
+            ast::StrValue::from(name).into()
+        }
+        other => other,
+    };
+    match expr {
+        ast::Expr::Binary(ast::Binary {
+            left,
+            symbol,
+            right,
+        }) => match symbol.as_str() {
+            "AND" | "OR" => ast::Binary::new(
+                with_literal_values(*left),
+                symbol,
+                with_literal_values(*right),
+            )
+            .into(),
+            "=" | "==" | "!=" | "<" | "<=" | ">" | ">=" => {
+                ast::Binary::new(as_field(*left), symbol, as_value(*right)).into()
+            }
+            _ => ast::Binary::new(*left, symbol, *right).into(),
+        },
+        ast::Expr::Unary(ast::Unary { symbol, right }) => {
+            ast::Unary::new(symbol, with_literal_values(*right)).into()
+        }
+        ast::Expr::FieldIn(ast::FieldIn { field, exprs }) => ast::Expr::FieldIn(ast::FieldIn {
+            field,
+            exprs: exprs.into_iter().map(as_value).collect(),
+        }),
+        other => as_field(other),
+    }
+}
+
 fn split_conditions(
     expr: &ast::Expr,
     all_ands: bool,
@@ -93,7 +136,7 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut exprs = vec![];
-        break_down_ands(&self.expr, &mut exprs);
+        break_down_ands(&with_literal_values(self.expr.clone()), &mut exprs);
 
         let df = state.df.clone();
 
@@ -178,7 +221,12 @@ impl PipelineTransformer for SearchCommand {
     ) -> Result<PipelineTransformState> {
         // In the order of their appearance, so the result is deterministic
         let mut indices: Vec<String> = vec![];
-        let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
+        let expr = with_literal_values(self.expr.clone());
+        // Only the start of a pipeline reads from an index, later on `index` is a field like any other
+        let condition_expr = match state.df {
+            None => split_conditions(&expr, true, &mut indices, &state.ctx)?,
+            Some(_) => Some(expr),
+        };
         let mut df = if !indices.is_empty() {
             let mut _df: Option<DataFrame> = None;
             let mut seen = HashSet::new();
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 40daa76..28f7602 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -96,7 +96,7 @@ impl ToSparkExpr for ast::Expr {
 
             // Boolean constant -> Boolean literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Bool(ast::BoolValue(val)))) => {
-                Ok(ColumnLike::literal(val).into())
+                Ok(ColumnLike::literal(if val { "True" } else { "False" }).into())
             }
 
             // IPv4 cidr -> String literal column
-- 
2.43.0


From 8bd57be63761f2917c7eb964cdd963694c34f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 11/71] fix: runtime eval and stats calls accept any field name
 and repeated assignments

---
 .../spl_transpiler/runtime/commands/eval.py   |  2 +-
 src/commands/cmd_eval/pyspark.rs              | 26 +++++++++----------
 src/pyspark/ast.rs                            | 24 ++++++++++++++++-
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/eval.py b/python/spl_transpiler/runtime/commands/eval.py
index 1d1c502..9227fe5 100644
--- a/python/spl_transpiler/runtime/commands/eval.py
+++ b/python/spl_transpiler/runtime/commands/eval.py
@@ -4,7 +4,7 @@ from spl_transpiler.runtime.base import enforce_types, Expr
 
 
 @enforce_types
-def eval(df: DataFrame, **exprs: Expr) -> DataFrame:
+def eval(df: DataFrame, /, **exprs: Expr) -> DataFrame:
     for name, expr in exprs.items():
         df = df.withColumn(name, expr.to_pyspark_expr())
     return df
diff --git a/src/commands/cmd_eval/pyspark.rs b/src/commands/cmd_eval/pyspark.rs
index 632d50a..ee3785a 100644
--- a/src/commands/cmd_eval/pyspark.rs
+++ b/src/commands/cmd_eval/pyspark.rs
@@ -21,21 +21,19 @@ impl PipelineTransformer for EvalCommand {
         &self,
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
-        let kwargs: Result<Vec<(String, RuntimeExpr)>> = self
-            .fields
-            .iter()
-            .map(|(field, expr)| {
-                Ok((
-                    field.0.to_string(),
-                    RuntimeExpr::from(
-                        self._eval_expr(expr.clone().with_context(&state.ctx))?
-                            .unaliased(),
-                    ),
-                ))
-            })
-            .collect();
+        let mut df = state.df.clone();
+        let mut kwargs: Vec<(String, RuntimeExpr)> = vec![];
+        for (ast::Field(name), expr) in self.fields.iter().cloned() {
+            let expr = self._eval_expr(expr.with_context(&state.ctx))?.unaliased();
+            // A keyword argument can only be given once, so assign to the same field in a new call
+            if kwargs.iter().any(|(assigned, _)| *assigned == name) {
+                let assigned = std::mem::take(&mut kwargs);
+                df = Some(DataFrame::runtime(df, "eval", vec![], assigned, &state.ctx));
+            }
+            kwargs.push((name, expr.into()));
+        }
 
-        let df = DataFrame::runtime(state.df.clone(), "eval", vec![], kwargs?, &state.ctx);
+        let df = DataFrame::runtime(df, "eval", vec![], kwargs, &state.ctx);
 
         Ok(state.with_df(df))
     }
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 2fe0ada..fed662e 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -66,6 +66,20 @@ pub fn quote_python_regex(regex: &str) -> String {
     }
 }
 
+const PYTHON_KEYWORDS: [&str; 35] = [
+    "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue",
+    "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import",
+    "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while",
+    "with", "yield",
+];
+
+/// Whether `name` can be written as the name of a Python keyword argument
+fn is_python_name(name: &str) -> bool {
+    name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+        && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+        && !PYTHON_KEYWORDS.contains(&name)
+}
+
 impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
     fn from(value: Option<T>) -> PyLiteral {
         match value {
@@ -875,7 +889,15 @@ impl ToSparkQuery for DataFrame {
                         primary_df_code,
                     } = kwarg.to_spark_query(ctx)?;
                     all_preface.extend(preface);
-                    all_args.push(format!("{name}={primary_df_code}"));
+                    all_args.push(if is_python_name(name) {
+                        format!("{name}={primary_df_code}")
+                    } else {
+                        // e.g. `eval 'my field'=1` or `eval class=1`
+                        format!(
+                            "**{{{}: {primary_df_code}}}",
+                            quote_python_string(name, '"')
+                        )
+                    });
                 }
                 let all_args_str = all_args.join(", ");
                 let full_command =
-- 
2.43.0


From 05a2c7a263e3c2048950bf708cb6e3d41a7f5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:30 +0000
Subject: [PATCH 12/71] fix: runtime functions return columns instead of
 wrapping them

---
 python/spl_transpiler/runtime/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/base.py b/python/spl_transpiler/runtime/base.py
index 013d1ee..fa78e4a 100644
--- a/python/spl_transpiler/runtime/base.py
+++ b/python/spl_transpiler/runtime/base.py
@@ -5,7 +5,7 @@ from pydantic import validate_call, ConfigDict, BaseModel, model_validator
 import pyspark.sql.functions as F
 
 enforce_types = validate_call(
-    config=ConfigDict(arbitrary_types_allowed=True), validate_return=True
+    config=ConfigDict(arbitrary_types_allowed=True), validate_return=False
 )
 
 
-- 
2.43.0


From 863842f236bb53967866782bd3dde42e51c52f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:29 +0000
Subject: [PATCH 13/71] fix: runtime stats calls only the functions the runtime
 library has

---
 src/commands/cmd_stats/pyspark.rs | 32 +-----------------------
 src/commands/stats_utils.rs       | 14 +++--------
 src/functions/stat_fns.rs         | 41 ++++++++++++++++---------------
 3 files changed, 25 insertions(+), 62 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 5c2897f..1c7b2fa 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -1,40 +1,10 @@
 use super::spl::*;
 use crate::commands::stats_utils;
-use crate::pyspark::alias::Aliasable;
-use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
-use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
-use crate::spl::ast;
-use anyhow::bail;
 use anyhow::Result;
 use log::warn;
 
-fn transform_stats_runtime_expr(
-    expr: &ast::Expr,
-    ctx: &PysparkTranspileContext,
-) -> Result<(String, RuntimeExpr)> {
-    let (e, maybe_name) = expr.clone().unaliased_with_name();
-    let (name, args) = match e {
-        ast::Expr::Call(ast::Call { name, args }) => (name.to_string(), args),
-        _ => bail!(
-            "All `stats` aggregations must be function calls, got {:?}",
-            expr
-        ),
-    };
-    let alias = maybe_name.unwrap_or(name.clone());
-    let args: Result<Vec<Expr>> = args
-        .into_iter()
-        .map(|e| e.with_context(ctx).try_into())
-        .collect();
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
-    Ok((alias, RuntimeExpr::from(expr)))
-}
-
 impl PipelineTransformer for StatsCommand {
     fn transform_for_runtime(
         &self,
@@ -67,7 +37,7 @@ impl PipelineTransformer for StatsCommand {
         }
 
         for e in self.funcs.iter() {
-            let (name, e) = transform_stats_runtime_expr(e, &state.ctx)?;
+            let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
             all_kwargs.push(name, e);
         }
 
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index bb133dc..2c5d9f1 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -1,6 +1,5 @@
-use crate::functions::stat_fns::stats_fn;
+use crate::functions::stat_fns::{stats_fn, stats_fn_runtime};
 use crate::pyspark::alias::Aliasable;
-use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
@@ -59,15 +58,8 @@ pub fn transform_stats_runtime_expr(
         ),
     };
     let alias = maybe_name.unwrap_or(name.clone());
-    let args: anyhow::Result<Vec<Expr>> = args
-        .into_iter()
-        .map(|e| e.with_context(ctx).try_into())
-        .collect();
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
+    let args = args.into_iter().map(|e| e.with_context(ctx)).collect();
+    let expr: Expr = stats_fn_runtime(&name, args)?.into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 3724c76..b92737a 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -48,7 +48,7 @@ rate_sum(<value>)                    	 Returns the summed rates for the time ser
 use crate::functions::*;
 use crate::pyspark::ast::ColumnLike;
 use crate::pyspark::ast::*;
-use crate::pyspark::base::{PysparkTranspileContext, RuntimeSelection, ToSparkExpr};
+use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
 use log::warn;
@@ -76,32 +76,33 @@ pub fn stats_fn(
     };
     let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
 
-    let (df, expr) = match ctx.runtime {
-        RuntimeSelection::Disallow => stats_fn_bare(name, args, df),
-        RuntimeSelection::Require => stats_fn_runtime(name, args, df),
-        RuntimeSelection::Allow => stats_fn_runtime(name.clone(), args.clone(), df.clone())
-            .or_else(|_| stats_fn_bare(name, args, df)),
-    }?;
+    let (df, expr) = stats_fn_bare(name, args, df)?;
 
     Ok((df, expr.maybe_with_alias(maybe_alias)))
 }
 
-fn stats_fn_runtime(
-    name: String,
+/// The call of `spl_transpiler.runtime.functions.stats` for an aggregation in a runtime command
+pub fn stats_fn_runtime(
+    name: &str,
     args: Vec<ContextualizedExpr<ast::Expr>>,
-    df: DataFrame,
-) -> Result<(DataFrame, ColumnLike)> {
-    // match name.as_str() {
-    //     name => {
-    // warn!(
-    //     "Unknown eval function encountered, returning as is: {}",
-    //     name
-    // );
+) -> Result<ColumnLike> {
+    let (name, arity) = match name {
+        "count" | "earliest_time" | "latest_time" => (name, 0),
+        "sum" => ("sum_", 1),
+        "list" => ("list_", 1),
+        "avg" | "distinct_count" | "dc" | "estdc" | "max" | "mean" | "median" | "min" | "mode"
+        | "range" | "stdev" | "sumsq" | "var" | "varp" | "first" | "last" | "values"
+        | "earliest" | "latest" => (name, 1),
+        _ => bail!("No runtime implementation of stats function `{}`", name),
+    };
+    ensure!(
+        args.len() == arity,
+        "Invalid number of arguments for stats function `{}`",
+        name
+    );
     let func = format!("functions.stats.{}", name);
     let args: Result<Vec<Expr>> = map_args(args);
-    Ok((df, ColumnLike::FunctionCall { func, args: args? }))
-    // }
-    // }
+    Ok(ColumnLike::FunctionCall { func, args: args? })
 }
 
 fn stats_fn_bare(
-- 
2.43.0


From adb2cd2932e411a9819c05551820f03ce1c725b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 14/71] fix: runtime functions that compute the wrong thing
 (bit_and, case, validate, sum, avg, max, min)

---
 python/spl_transpiler/runtime/functions/eval.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 446a0ba..03c29ff 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -17,7 +17,7 @@ from spl_transpiler.runtime.functions import utils
 
 @enforce_types
 def bit_and(a: Expr, b: Expr) -> Expr:
-    a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
+    return a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
 
 
 #         // bit_or(<values>)                                    	 Bitwise OR function that takes two or more non-negative integers as arguments and sequentially performs bitwise OR on them.
@@ -102,7 +102,7 @@ def case(*args: Expr) -> Expr:
 
     result = F
     for condition, value in zip(args[::2], args[1::2]):
-        result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
+        result = result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
 
     return result
 
@@ -249,7 +249,7 @@ def true() -> Expr:
 
 
 @enforce_types
-def validate(*args) -> Expr:
+def validate(*args: Expr) -> Expr:
     if len(args) % 2 != 0:
         raise ValueError(
             "validate() function requires an even number of arguments (conditions and values)."
@@ -763,7 +763,7 @@ def sqrt(num: Expr) -> Expr:
 @enforce_types
 def sum_(*nums: Expr) -> Expr:
     # Adds the columns together, creating a new column whose value is the sum of the others
-    return sum(*(n.to_pyspark_expr() for n in nums))
+    return reduce(lambda a, b: a + b, (n.to_pyspark_expr() for n in nums))
 
 
 #
@@ -966,7 +966,7 @@ def split(column: Expr, delimiter: str) -> Expr:
 
 @enforce_types
 def avg(*args: Expr) -> Expr:
-    return sum(*(a.to_pyspark_expr() for a in args)) / len(args)
+    return reduce(lambda a, b: a + b, (a.to_pyspark_expr() for a in args)) / len(args)
 
 
 #         // max(<values>)                                       	 Returns the maximum of a set of string or numeric values.
@@ -987,7 +987,7 @@ def avg(*args: Expr) -> Expr:
 @enforce_types
 def max_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.greatest(a.to_pyspark_expr(), b.to_pyspark_expr()),
+        lambda a, b: F.greatest(a, b.to_pyspark_expr()),
         args[1:],
         args[0].to_pyspark_expr(),
     )
@@ -1011,7 +1011,7 @@ def max_(*args: Expr) -> Expr:
 @enforce_types
 def min_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.least(a.to_pyspark_expr(), b.to_pyspark_expr()),
+        lambda a, b: F.least(a, b.to_pyspark_expr()),
         args[1:],
         args[0].to_pyspark_expr(),
     )
-- 
2.43.0


From 8767085f0bad7cec8a5326f1f5b53c18f032abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 15/71] fix: call only the eval functions the runtime library
 has, with arguments it accepts

---
 src/functions/eval_fns.rs | 67 +++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 6ebac6c..c328083 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -193,26 +193,54 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
             }
         }),
         name => {
-            // warn!(
-            //     "Unknown eval function encountered, returning as is: {}",
-            //     name
-            // );
-            let name = match name {
-                "if" => "if_",
-                "in" => "in_",
-                "len" => "len_",
-                "sum" => "sum_",
-                "max" => "max_",
-                "min" => "min_",
-                name => name,
+            let Some((func, min_args, max_args)) = runtime_column_function(name) else {
+                bail!("The runtime has no `{}` function of columns", name)
             };
-            let func = format!("functions.eval.{}", name);
+            ensure!(
+                (min_args..=max_args).contains(&args.len()),
+                "Wrong number of arguments to `{}`: {}",
+                name,
+                args.len()
+            );
+            ensure!(
+                !matches!(name, "case" | "validate") || args.len() % 2 == 0,
+                "{} function requires an even number of arguments (conditions and values).",
+                name
+            );
+            let func = format!("functions.eval.{}", func);
             let args: Result<Vec<Expr>> = map_args(args);
             Ok(ColumnLike::FunctionCall { func, args: args? })
         }
     }
 }
 
+/// The functions the runtime library implements whose arguments are all columns,
+/// as their name in the library and the number of arguments they take
+fn runtime_column_function(name: &str) -> Option<(&str, usize, usize)> {
+    let (min_args, max_args) = match name {
+        "false" | "true" | "null" | "now" | "time" | "pi" | "random" => (0, 0),
+        "bit_not" | "md5" | "sha1" | "sha256" | "sha512" | "isnotnull" | "isnull" | "json_keys"
+        | "json_valid" | "abs" | "ceiling" | "exact" | "exp" | "floor" | "ln" | "sqrt"
+        | "mvcount" | "len" | "lower" | "upper" | "urldecode" | "acos" | "acosh" | "asin"
+        | "asinh" | "atan" | "atanh" | "cos" | "cosh" | "sin" | "sinh" | "tan" | "tanh" => (1, 1),
+        "bit_and" | "bit_or" | "bit_xor" | "like" | "match" | "nullif" | "pow" | "atan2"
+        | "hypot" => (2, 2),
+        "if" => (3, 3),
+        "case" | "validate" => (2, usize::MAX),
+        "coalesce" | "sum" | "avg" | "max" | "min" => (1, usize::MAX),
+        _ => return None,
+    };
+    let name = match name {
+        "if" => "if_",
+        "len" => "len_",
+        "sum" => "sum_",
+        "max" => "max_",
+        "min" => "min_",
+        name => name,
+    };
+    Some((name, min_args, max_args))
+}
+
 fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
     match name.as_str() {
         // Convert functions (not sure this is actually valid, but it's in the original transpiler...)
@@ -484,7 +512,18 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // sqrt(<num>)                                         	 Returns the square root of the value.
         "sqrt" => function_transform!(sqrt [args] (x) { column_like!(sqrt([x])) }),
         // sum(<num>,...)                                      	 Returns the sum of numerical values as an integer.
-        "sum" => function_transform!(sum [args] (x) { column_like!(sum([x])) }),
+        "sum" => function_transform!(sum [args -> mapped_args] () {
+            ensure!(!mapped_args.is_empty(), "Must provide at least one column to add together");
+            let mut out: Option<Expr> = None;
+            for c in mapped_args {
+                out = match out {
+                    Some(v) => Some(column_like!([v] + [c]).into()),
+                    None => Some(c),
+                }
+            };
+            assert!(out.is_some(), "Failed to compute sum");
+            out.unwrap()
+        }),
 
         // Multivalue eval functions
         // commands(<value>)                                   	 Returns a multivalued field that contains a list of the commands used in <value>.
-- 
2.43.0


From c8e1d890e8f6b7bb96df8207833b91fee8f9177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 16/71] fix: runtime search filters on the fields of its input
 instead of reselecting a source

---
 src/commands/cmd_search/pyspark.rs | 147 +++++++++++++++++------------
 1 file changed, 88 insertions(+), 59 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 1b2cb7e..bb726fe 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -130,6 +130,38 @@ const EVENT_TYPE_TAG: &str = "eventtypetag";
 const SAVED_SPLUNK: &str = "savedsplunk";
 const SPLUNK_SERVER: &str = "splunk_server";
 
+/// The parameter of the runtime's `search` that selects by this field
+fn source_parameter(field: &str) -> Option<&'static str> {
+    match field {
+        INDEX => Some(INDEX),
+        SOURCE => Some(SOURCE),
+        SOURCE_TYPE => Some("source_type"),
+        HOST => Some(HOST),
+        HOST_TAG => Some("host_tag"),
+        EVENT_TYPE => Some("event_type"),
+        EVENT_TYPE_TAG => Some("event_type_tag"),
+        SAVED_SPLUNK => Some("saved_splunk"),
+        SPLUNK_SERVER => Some(SPLUNK_SERVER),
+        _ => None,
+    }
+}
+
+/// Whether the runtime's `search` has a parameter of this name, so it cannot be the name of a field
+fn is_parameter(name: &str) -> bool {
+    matches!(
+        name,
+        "df" | INDEX
+            | SOURCE
+            | "source_type"
+            | HOST
+            | "host_tag"
+            | "event_type"
+            | "event_type_tag"
+            | "saved_splunk"
+            | SPLUNK_SERVER
+    )
+}
+
 impl PipelineTransformer for SearchCommand {
     fn transform_for_runtime(
         &self,
@@ -140,73 +172,70 @@ impl PipelineTransformer for SearchCommand {
 
         let df = state.df.clone();
 
-        let mut args = vec![];
-        let mut kwargs = vec![];
+        let mut args: Vec<RuntimeExpr> = vec![];
+        let mut kwargs: Vec<(String, RuntimeExpr)> = vec![];
 
         for expr in exprs {
-            match expr.clone() {
+            let comparison = match &expr {
                 ast::Expr::Binary(ast::Binary {
                     left,
                     symbol,
                     right,
-                }) => {
-                    match (*left.clone(), symbol.as_str()) {
-                        (
-                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(
-                                ast::Field(name),
-                            ))),
-                            op,
-                        ) if matches!(
-                            name.as_str(),
-                            INDEX
-                                | SOURCE
-                                | SOURCE_TYPE
-                                | HOST
-                                | HOST_TAG
-                                | EVENT_TYPE
-                                | EVENT_TYPE_TAG
-                                | SAVED_SPLUNK
-                                | SPLUNK_SERVER
+                }) => match left.as_ref() {
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                        name,
+                    )))) => Some((name.as_str(), symbol.as_str(), right.as_ref())),
+                    _ => None,
+                },
+                _ => None,
+            };
+            match comparison {
+                // Only the start of a pipeline selects its source, later on these are fields like any other
+                Some((name, op, right)) if df.is_none() && source_parameter(name).is_some() => {
+                    ensure!(
+                        matches!(op, "=" | "=="),
+                        format!("`{}` must use equality comparison", name)
+                    );
+                    let parameter = source_parameter(name).unwrap_or(name);
+                    let rhs_value = match right {
+                        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(
+                            ast::Field(val),
+                        ))) => val.clone(),
+                        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(
+                            ast::StrValue(val),
+                        ))) => val.clone(),
+                        _ => bail!(
+                            "Right-hand side of comparison to {} must be a string-like value",
+                            name
+                        ),
+                    };
+                    ensure!(
+                        !kwargs.iter().any(|(used, _)| used == parameter),
+                        "The runtime selects a single `{}`",
+                        name
+                    );
+                    kwargs.push((
+                        parameter.to_string(),
+                        column_like!(py_lit(rhs_value)).into(),
+                    ))
+                }
+                Some((name, "=" | "==", right))
+                    if !is_parameter(name)
+                        && !kwargs.iter().any(|(used, _)| used == name)
+                        && !matches!(
+                            right,
+                            ast::Expr::Leaf(ast::LeafExpr::Constant(
+                                ast::Constant::Wildcard(_) | ast::Constant::IPv4CIDR(_)
+                            ))
                         ) =>
-                        {
-                            ensure!(
-                                matches!(op, "=" | "=="),
-                                format!("`{}` must use equality comparison", name)
-                            );
-                            let name = match name.as_str() {
-                                INDEX => INDEX,
-                                SOURCE => SOURCE,
-                                SOURCE_TYPE => "source_type",
-                                HOST => HOST,
-                                HOST_TAG => "host_tag",
-                                EVENT_TYPE => "event_type",
-                                EVENT_TYPE_TAG => "event_type_tag",
-                                SAVED_SPLUNK => "saved_splunk",
-                                SPLUNK_SERVER => SPLUNK_SERVER,
-                                _ => panic!("How on earth did we get here?!?"),
-                            };
-                            let rhs_value = match *right {
-                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
-                                                                                             val,
-                                                                                         )))) => val,
-                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => val,
-                            _ => bail!("Right-hand side of comparison to {} must be a string-like value", name),
-                        };
-                            kwargs.push((name.to_string(), column_like!(py_lit(rhs_value)).into()))
-                        }
-                        (
-                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(
-                                ast::Field(name),
-                            ))),
-                            "=" | "==",
-                        ) => kwargs.push((
-                            name.to_string(),
-                            (*right).with_context(&state.ctx).try_into()?,
-                        )),
-                        _ => args.push(expr.with_context(&state.ctx).try_into()?),
-                    }
+                {
+                    let value: Expr = right.clone().with_context(&state.ctx).try_into()?;
+                    kwargs.push((name.to_string(), value.into()))
+                }
+                _ => {
+                    let condition: Expr = expr.with_context(&state.ctx).try_into()?;
+                    args.push(condition.into_search_expr().into())
                 }
-                _ => args.push(expr.with_context(&state.ctx).try_into()?),
             }
         }
 
-- 
2.43.0


From 5a7d27914c15e4ebade7f6b985801661f0d6a535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 17/71] fix: cidr_match takes the range before the address, as
 its callers do

---
 python/spl_transpiler/runtime/udfs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 81fcb27..19924ee 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -4,7 +4,7 @@ import ipaddress
 
 
 @udf(returnType=BooleanType())
-def cidr_match(ip_address, cidr_range):
+def cidr_match(cidr_range, ip_address):
     try:
         # Parse the IP address
         ip = ipaddress.ip_address(ip_address)
-- 
2.43.0


From b299b7583b0297ca3cd0aad605d3d1fc4558367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:04 +0000
Subject: [PATCH 18/71] fix: runtime cidrmatch takes its range as a literal,
 not as a column name

---
 python/spl_transpiler/runtime/functions/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 03c29ff..14e7c6f 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -114,8 +114,8 @@ def case(*args: Expr) -> Expr:
 
 
 @enforce_types
-def cidrmatch(cidr: Expr, ip: Expr) -> Expr:
-    return udfs.cidr_match(cidr.to_pyspark_expr(), ip.to_pyspark_expr())
+def cidrmatch(cidr: str, ip: Expr) -> Expr:
+    return udfs.cidr_match(F.lit(cidr), ip.to_pyspark_expr())
 
 
 #         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
-- 
2.43.0


From 3adb0c53e21f0b18a8916356cd2baf35ab2884ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:04 +0000
Subject: [PATCH 19/71] fix: match CIDR ranges in != and IN, and fields with
 any name

---
 src/functions/eval_fns.rs      |  3 ++-
 src/pyspark/transpiler/expr.rs | 26 ++++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index c328083..c4c2790 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -6,6 +6,7 @@ use crate::pyspark::ast::*;
 use crate::pyspark::base::{
     ContextualizedExpr, PysparkTranspileContext, RuntimeSelection, ToSparkExpr,
 };
+use crate::pyspark::transpiler::expr::cidr_match;
 use crate::pyspark::transpiler::utils::convert_time_format;
 use crate::spl::ast;
 use crate::spl::ast::TimeSpan;
@@ -288,7 +289,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }),
         // cidrmatch(<cidr>,<ip>)                              	 Returns TRUE when an IP address, <ip>, belongs to a particular CIDR subnet, <cidr>.
         "cidrmatch" => function_transform!(cidrmatch [args] (cidr: String, col: String) {
-            column_like!(expr("cidr_match('{}', {})", cidr, col))
+            cidr_match(&cidr, &col)
         }),
         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
         "coalesce" => function_transform!(coalesce [args -> mapped_args] () {
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 28f7602..d140e59 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -15,6 +15,19 @@ static SIMPLE_OP_MAP: phf::Map<&'static str, &'static str> = phf_map! {
     "NOT" => "~",
 };
 
+/// The check that the IP address in a field belongs to a range
+pub fn cidr_match(cidr: &str, field: &str) -> ColumnLike {
+    let cidr = cidr.replace('\\', r"\\").replace('\'', r"\'");
+    let is_plain = Regex::new(r"^[A-Za-z_][A-Za-z0-9_.]*$")
+        .unwrap()
+        .is_match(field);
+    let field = match is_plain {
+        true => field.to_string(),
+        false => format!("`{}`", field.replace('`', "``")),
+    };
+    column_like!(expr("cidr_match('{}', {})", cidr, field))
+}
+
 impl ToSparkExpr for ast::Expr {
     fn to_spark_expr(&self, ctx: &PysparkTranspileContext) -> anyhow::Result<Expr> {
         match self.clone() {
@@ -38,7 +51,15 @@ impl ToSparkExpr for ast::Expr {
                     ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(
                         ast::IPv4CIDR(cidr),
                     ))),
-                ) => Ok(column_like!(expr("cidr_match('{}', {})", cidr, col)).into()),
+                ) => Ok(cidr_match(&cidr, &col).into()),
+                // src_ip != 10.0.0.0/16 -> ~F.expr("cidr_match('10.0.0.0/16', src_ip)")
+                (
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(col)))),
+                    "!=",
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(
+                        ast::IPv4CIDR(cidr),
+                    ))),
+                ) => Ok(column_like!(~[cidr_match(&cidr, &col)]).into()),
                 // src_ip = "x*" -> F.like(F.col("src_ip"), "x%"),
                 (
                     lhs,
@@ -110,6 +131,7 @@ impl ToSparkExpr for ast::Expr {
             // 'x in ("a", "b*", c)' -> Binary op tree of OR's of individual checks
             // "a" -> { col("x") == "a" }
             // "b*" -> { col("x").like("b%") }
+            // "10.0.0.0/16" -> { F.expr("cidr_match('10.0.0.0/16', x)") }
             // ...
             ast::Expr::FieldIn(ast::FieldIn { field, exprs }) => {
                 let c: Expr = column_like!(col(field.clone())).into();
@@ -151,7 +173,7 @@ impl ToSparkExpr for ast::Expr {
                                 bail!("Unimplemented value in field-in rhs: {:?}", const_)
                             }
                             ast::Constant::IPv4CIDR(ast::IPv4CIDR(val)) => {
-                                Ok(column_like!([c.clone()] == [PyLiteral::from(val.clone())]))
+                                Ok(cidr_match(val, &field))
                             }
                         },
                         // Handle exact case
-- 
2.43.0


From 701de3e499360f5551d97e11fcecf2104766d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 20/71] fix: concatenate with F.concat instead of the .
 operator

---
 src/pyspark/transpiler/expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index d140e59..5d26f6c 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -78,6 +78,12 @@ impl ToSparkExpr for ast::Expr {
                         _ => bail!("Unsupported comparison operator for wildcard rhs: {}", op),
                     }
                 }
+                // a . b -> F.concat(a, b)
+                (left, ".", right) => {
+                    let left: Expr = left.with_context(ctx).try_into()?;
+                    let right: Expr = right.with_context(ctx).try_into()?;
+                    Ok(column_like!(concat([left.unaliased()], [right.unaliased()])).into())
+                }
                 // a [op] b -> a [op] b
                 (left, op, right) => Ok(ColumnLike::try_binary_op(
                     left.with_context(ctx),
-- 
2.43.0


From 3cd65953976dd382b4b581c67ba76c669423e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:24 +0000
Subject: [PATCH 21/71] fix: parse calls of like() and in(), log base order,
 mvindex ranges from the end, mvzip delimiters

---
 src/functions/eval_fns.rs | 21 +++++++++++++++++----
 src/spl/parser.rs         | 12 +++++++++++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index c4c2790..0785fca 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -302,7 +302,14 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
             column_like!([when([condition], [then_expr])].otherwise([else_expr]))
         }),
         // in(<field>,<list>)                                  	 Returns TRUE if one of the values in the list matches a value that you specify.
-        "in" => function_transform!(in [args] (x, vals) { column_like!([x].isin([vals])) }),
+        "in" => function_transform!(in [args -> vals] (x) {
+            ensure!(!vals.is_empty(), "in() function requires at least one value.");
+            ColumnLike::MethodCall {
+                col: Box::new(x),
+                func: "isin".into(),
+                args: vals,
+            }
+        }),
         // like(<str>,<pattern>)                               	 Returns TRUE only if <str> matches <pattern>.
         "like" => {
             function_transform!(like [args] (x, pattern) { column_like!(like([x], [pattern])) })
@@ -497,7 +504,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!(log([x], [base])) }),
+        "log" => function_transform!(log [args] (x, base) { column_like!(log([base], [x])) }),
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
@@ -557,7 +564,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                 None => column_like!(get([x], [py_lit(start)])),
                 Some(end) => {
                     let end: i64 = map_arg(end) ?;
-                    column_like!(slice([x], [py_lit(start + 1)], [py_lit(end - start + 1)]))
+                    ensure!((start < 0) == (end < 0), "UNIMPLEMENTED: `mvindex` range from {} to {}", start, end);
+                    let first = if start < 0 { start } else { start + 1 };
+                    column_like!(slice([x], [py_lit(first)], [py_lit((end - start + 1).max(0))]))
                 },
             }
         }),
@@ -583,8 +592,12 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                 None => ",".into(),
                 Some(delim) => map_arg(delim) ?,
             };
+            let delim = match delim.contains(|c: char| c == '\\' || c == '"' || c.is_control()) {
+                true => quote_python_string(&delim, '"'),
+                false => format!("r\"{}\"", delim),
+            };
             let zip_function: Expr = PyLiteral(
-                format !(r#"lambda left_, right_: F.concat_ws(r"{}", left_, right_)"#, delim)
+                format !("lambda left_, right_: F.concat_ws({}, left_, right_)", delim)
             ).into();
             column_like!(
                 zip_with(
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index e10bf94..3d8518d 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -894,7 +894,17 @@ pub fn field_in(input: &str) -> IResult<&str, ast::FieldIn> {
 //   def call[_: P]: P[Call] = (token ~~ "(" ~~ expr.rep(sep = ",") ~~ ")").map(Call.tupled)
 pub fn call(input: &str) -> IResult<&str, ast::Call> {
     map(
-        pair(token, parenthesized(comma_separated_list0(eval_expr))),
+        pair(
+            // These operators are names of functions as well
+            alt((
+                token,
+                terminated(
+                    alt((tag_no_case("like"), tag_no_case("in"))),
+                    peek(tag("(")),
+                ),
+            )),
+            parenthesized(comma_separated_list0(eval_expr)),
+        ),
         |(token, exprs)| ast::Call {
             name: token.into(),
             args: exprs,
-- 
2.43.0


From 830f93ab643fa69190fb35075f98b9facb878da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 22/71] fix: split at literal delimiters, and groups in the
 replacement of replace()

---
 src/functions/eval_fns.rs | 18 ++++++++++++++++++
 src/pyspark/ast.rs        | 16 ++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 0785fca..6b39028 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -172,6 +172,21 @@ fn round_time(time_col: impl Into<Expr>, scale: String) -> Result<ColumnLike> {
     Ok(column_like!(date_trunc([py_lit(round_to)], [time_col])))
 }
 
+/// Translate a replacement with groups written as \1 to one with groups written as $1
+fn spark_replacement(replacement: &str) -> String {
+    let mut out = String::new();
+    let replacement = unescape_spl_string(replacement);
+    let mut chars = replacement.chars().peekable();
+    while let Some(c) = chars.next() {
+        match (c, chars.peek()) {
+            ('\\', Some(c)) if c.is_ascii_digit() => out.push('$'),
+            ('\\' | '$', _) => out.extend(['\\', c]),
+            (c, _) => out.push(c),
+        }
+    }
+    out
+}
+
 pub fn eval_fn(call: ast::Call, ctx: &PysparkTranspileContext) -> Result<ColumnLike> {
     let ast::Call { name, args } = call;
     let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
@@ -613,6 +628,8 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // split(<str>,<delim>)                                	 Splits the string values on the delimiter and returns the string values as a multivalue field.
         "split" => function_transform!(split [args] (x, delim: String) {
+            // The delimiter of F.split is a regular expression
+            let delim = regex::escape(&unescape_spl_string(&delim)).replace('\\', "\\\\");
             column_like!(split([x], [py_lit(delim)]))
         }),
 
@@ -672,6 +689,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
         "replace" => {
             function_transform!(replace [args] (input, regex: String, replacement: String) {
+                let replacement = spark_replacement(&replacement).replace('\\', "\\\\");
                 column_like!(regexp_replace([input.clone()], [py_lit(regex)], [py_lit(replacement)]))
             })
         }
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index fed662e..36d92a4 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -51,6 +51,22 @@ pub fn quote_python_string(value: &str, quote: char) -> String {
     out
 }
 
+/// The text that the contents of an SPL string stand for, i.e. without its escapes
+pub fn unescape_spl_string(value: &str) -> String {
+    let mut out = String::with_capacity(value.len());
+    let mut chars = value.chars().peekable();
+    while let Some(c) = chars.next() {
+        match (c, chars.peek()) {
+            ('\\', Some(&escaped @ ('\\' | '"' | '\''))) => {
+                out.push(escaped);
+                chars.next();
+            }
+            (c, _) => out.push(c),
+        }
+    }
+    out
+}
+
 /// Render a regular expression as a Python string literal, raw if possible.
 pub fn quote_python_regex(regex: &str) -> String {
     let mut escaped = false;
-- 
2.43.0


From 21e5c7ec850d8c457eca271f3c87ad70f7453ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 23/71] fix: cidrmatch() of an address written in the query

---
 src/functions/eval_fns.rs      | 16 ++++++++++++----
 src/pyspark/transpiler/expr.rs | 16 ++++++++++++++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 6b39028..497683c 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -6,7 +6,7 @@ use crate::pyspark::ast::*;
 use crate::pyspark::base::{
     ContextualizedExpr, PysparkTranspileContext, RuntimeSelection, ToSparkExpr,
 };
-use crate::pyspark::transpiler::expr::cidr_match;
+use crate::pyspark::transpiler::expr::{cidr_match, cidr_match_literal};
 use crate::pyspark::transpiler::utils::convert_time_format;
 use crate::spl::ast;
 use crate::spl::ast::TimeSpan;
@@ -303,9 +303,17 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
             c.unwrap()
         }),
         // cidrmatch(<cidr>,<ip>)                              	 Returns TRUE when an IP address, <ip>, belongs to a particular CIDR subnet, <cidr>.
-        "cidrmatch" => function_transform!(cidrmatch [args] (cidr: String, col: String) {
-            cidr_match(&cidr, &col)
-        }),
+        "cidrmatch" => {
+            let is_literal = matches!(
+                args.get(1).map(Deref::deref),
+                Some(ast::Expr::Leaf(ast::LeafExpr::Constant(
+                    ast::Constant::Str(_)
+                )))
+            );
+            function_transform!(cidrmatch [args] (cidr: String, ip: String) {
+                if is_literal { cidr_match_literal(&cidr, &ip) } else { cidr_match(&cidr, &ip) }
+            })
+        }
         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
         "coalesce" => function_transform!(coalesce [args -> mapped_args] () {
             column_like!(coalesce(mapped_args))
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 5d26f6c..e5a2e13 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -15,9 +15,21 @@ static SIMPLE_OP_MAP: phf::Map<&'static str, &'static str> = phf_map! {
     "NOT" => "~",
 };
 
+fn quote_sql_string(text: &str) -> String {
+    format!("'{}'", text.replace('\\', r"\\").replace('\'', r"\'"))
+}
+
+/// The check that an IP address written in the query belongs to a range
+pub fn cidr_match_literal(cidr: &str, ip: &str) -> ColumnLike {
+    column_like!(expr(
+        "cidr_match({}, {})",
+        quote_sql_string(cidr),
+        quote_sql_string(ip)
+    ))
+}
+
 /// The check that the IP address in a field belongs to a range
 pub fn cidr_match(cidr: &str, field: &str) -> ColumnLike {
-    let cidr = cidr.replace('\\', r"\\").replace('\'', r"\'");
     let is_plain = Regex::new(r"^[A-Za-z_][A-Za-z0-9_.]*$")
         .unwrap()
         .is_match(field);
@@ -25,7 +37,7 @@ pub fn cidr_match(cidr: &str, field: &str) -> ColumnLike {
         true => field.to_string(),
         false => format!("`{}`", field.replace('`', "``")),
     };
-    column_like!(expr("cidr_match('{}', {})", cidr, field))
+    column_like!(expr("cidr_match({}, {})", quote_sql_string(cidr), field))
 }
 
 impl ToSparkExpr for ast::Expr {
-- 
2.43.0


From f17faf56dea86b12cd4843f44584db4f306dc40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 24/71] fix: quotes around a field name are not part of the
 name

---
 src/spl/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 3d8518d..7479f34 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -38,7 +38,7 @@ use crate::spl::operators::{OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
 use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of};
-use nom::combinator::{all_consuming, eof, into, map_parser, peek, value, verify};
+use nom::combinator::{all_consuming, eof, into, map_parser, not, peek, value, verify};
 use nom::error::ParseError;
 use nom::multi::{many0, separated_list0, separated_list1};
 use nom::sequence::{delimited, preceded, separated_pair, terminated};
@@ -521,7 +521,11 @@ fn _field_fmt(input: &str) -> IResult<&str, ast::Field> {
 }
 
 pub fn field(input: &str) -> IResult<&str, ast::Field> {
-    alt((_field_fmt, into(single_quoted)))(input)
+    alt((
+        terminated(into(double_quoted), not(tag("."))),
+        _field_fmt,
+        into(single_quoted),
+    ))(input)
 }
 
 pub fn string(input: &str) -> IResult<&str, &str> {
-- 
2.43.0


From a6d87bc00ae4441da098877888f7533f6d4230d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:56 +0000
Subject: [PATCH 25/71] fix: range() of stats as the difference of two
 aggregates, and repeated or reserved labels in runtime mode

---
 src/commands/cmd_stats/pyspark.rs | 8 +++++++-
 src/functions/stat_fns.rs         | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 1c7b2fa..d838fbc 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -2,7 +2,7 @@ use super::spl::*;
 use crate::commands::stats_utils;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use log::warn;
 
 impl PipelineTransformer for StatsCommand {
@@ -38,6 +38,12 @@ impl PipelineTransformer for StatsCommand {
 
         for e in self.funcs.iter() {
             let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
+            // A Python call takes each keyword once, and these two are parameters of its own
+            ensure!(
+                name != "df" && name != "by" && all_kwargs.0.iter().all(|(n, _)| *n != name),
+                "No runtime implementation of `stats` with a column named `{}` here",
+                name
+            );
             all_kwargs.push(name, e);
         }
 
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index b92737a..b024ba9 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -163,7 +163,7 @@ fn stats_fn_bare(
         }
         // range(<value>)                       	 If the field values are numeric, returns the difference between the maximum and minimum values in the field specified.
         "range" => {
-            function_transform!(range [args] (x) { column_like!(max([[x.clone()] - [min([x])]])) })
+            function_transform!(range [args] (x) { column_like!([max([x.clone()])] - [min([x])]) })
         }
         // stdev(<value>)                       	 Returns the sample standard deviation of the values in the field specified.
         "stdev" => function_transform!(stdev [args] (x) { column_like!(stddev_samp([x])) }),
-- 
2.43.0


From 8fb070e106e65dad6fa164c0e6b16fbac16222c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:08 +0000
Subject: [PATCH 26/71] fix: eval() as the argument of a stats function

---
 src/commands/stats_utils.rs |  7 +++++--
 src/functions/stat_fns.rs   | 24 +++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 2c5d9f1..496d60c 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -1,4 +1,4 @@
-use crate::functions::stat_fns::{stats_fn, stats_fn_runtime};
+use crate::functions::stat_fns::{eval_argument, stats_fn, stats_fn_runtime};
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
@@ -58,7 +58,10 @@ pub fn transform_stats_runtime_expr(
         ),
     };
     let alias = maybe_name.unwrap_or(name.clone());
-    let args = args.into_iter().map(|e| e.with_context(ctx)).collect();
+    let args = args
+        .into_iter()
+        .map(|e| eval_argument(&name, e).with_context(ctx))
+        .collect();
     let expr: Expr = stats_fn_runtime(&name, args)?.into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index b024ba9..22ba2e6 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -74,13 +74,35 @@ pub fn stats_fn(
         ast::Expr::Call(ast::Call { name, args }) => (name, args),
         _ => bail!("Expected a stats function call, got {:?}", expr),
     };
-    let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
+    let args: Vec<_> = args
+        .into_iter()
+        .map(|arg| eval_argument(&name, arg).with_context(ctx))
+        .collect();
 
     let (df, expr) = stats_fn_bare(name, args, df)?;
 
     Ok((df, expr.maybe_with_alias(maybe_alias)))
 }
 
+/// `eval(<expression>)` as an argument stands for the value of the expression;
+/// `count` counts the events for which it is true
+pub fn eval_argument(function: &str, arg: ast::Expr) -> ast::Expr {
+    match arg {
+        ast::Expr::Call(ast::Call { name, mut args }) if name == "eval" && args.len() == 1 => {
+            let value = args.remove(0);
+            match function {
+                "count" => ast::Call {
+                    name: "case".into(),
+                    args: vec![value, ast::IntValue(1).into()],
+                }
+                .into(),
+                _ => value,
+            }
+        }
+        arg => arg,
+    }
+}
+
 /// The call of `spl_transpiler.runtime.functions.stats` for an aggregation in a runtime command
 pub fn stats_fn_runtime(
     name: &str,
-- 
2.43.0


From 0003374def4cf927af6c17b85eab827bd32a6d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 27/71] fix: quoted names of aggregations

---
 src/spl/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 7479f34..5840a6c 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1201,7 +1201,11 @@ pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
 //   def aliasedCall[_: P]: P[Alias] = call ~ W("as") ~ token map Alias.tupled
 pub fn aliased_call(input: &str) -> IResult<&str, ast::Alias> {
     map(
-        separated_pair(call, ws(operators::keyword("AS")), token),
+        separated_pair(
+            call,
+            ws(operators::keyword("AS")),
+            alt((token, double_quoted)),
+        ),
         |(expr, name)| ast::Alias {
             expr: Box::new(expr.into()),
             name: name.into(),
-- 
2.43.0


From e338b8d9f4f4821f71a81c223b91d2e5aa121310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 28/71] fix: rate() of stats over a timestamp

---
 src/functions/stat_fns.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 22ba2e6..a62436b 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -264,8 +264,10 @@ fn stats_fn_bare(
             df = df.order_by(vec![column_like!([col("_time")].asc())]);
             let latest_value = column_like!(last([x.clone()]));
             let earliest_value = column_like!(first([x]));
-            let latest_time = column_like!(max([col("_time")]));
-            let earliest_time = column_like!(min([col("_time")]));
+            // In seconds, also when `_time` is a timestamp
+            let time = column_like!([col("_time")].cast([py_lit("double")]));
+            let latest_time = column_like!(max([time.clone()]));
+            let earliest_time = column_like!(min([time]));
             column_like!([[latest_value] - [earliest_value]] / [[latest_time] - [earliest_time]])
         }),
         // rate_avg(<value>)                    	 Returns the average rates for the time series associated with a specified accumulating counter metric.
-- 
2.43.0


From a1e35dab8ca1e2f765499d09b7bf9b7a13255602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:58 +0000
Subject: [PATCH 29/71] fix: fields - removes the fields

---
 src/commands/cmd_fields/pyspark.rs |  5 +++++
 src/pyspark/ast.rs                 | 22 ++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index d3c637b..970e70e 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -10,6 +10,11 @@ impl PipelineTransformer for FieldsCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        if self.remove_fields {
+            let names = self.fields.iter().map(|f| f.0.clone()).collect();
+            return Ok(state.with_df(df.drop(names)));
+        }
+
         let cols: Vec<_> = self
             .fields
             .iter()
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 36d92a4..20fd5b0 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -677,6 +677,10 @@ pub enum DataFrame {
         source: Box<DataFrame>,
         columns: Vec<ColumnLike>,
     },
+    Drop {
+        source: Box<DataFrame>,
+        columns: Vec<String>,
+    },
     Where {
         source: Box<DataFrame>,
         condition: Expr,
@@ -812,6 +816,13 @@ impl DataFrame {
             new_name: new_name.to_string(),
         }
     }
+    pub fn drop(&self, columns: Vec<String>) -> DataFrame {
+        Self::Drop {
+            source: Box::new(self.clone()),
+            columns,
+        }
+    }
+
     pub fn order_by(&self, columns: Vec<ColumnLike>) -> DataFrame {
         Self::OrderBy {
             source: Box::new(self.clone()),
@@ -993,6 +1004,17 @@ impl ToSparkQuery for DataFrame {
                 quote_python_string(old_name, '\''),
                 quote_python_string(new_name, '\''),
             ),
+            DataFrame::Drop { source, columns } => {
+                let columns: Vec<String> = columns
+                    .iter()
+                    .map(|name| quote_python_string(name, '\''))
+                    .collect();
+                format!(
+                    "{}.drop({},)",
+                    source.to_spark_query(ctx)?.into_expression(&mut preface),
+                    columns.join(", ")
+                )
+            }
             DataFrame::OrderBy { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
-- 
2.43.0


From 801ac6fe4889a80a2ed51023e852e8d63439b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:11 +0000
Subject: [PATCH 30/71] fix: options named by reserved words

---
 src/spl/parser.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 5840a6c..e432110 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -713,7 +713,22 @@ pub fn quoted_search(input: &str) -> IResult<&str, ast::Pipeline> {
 
 //   def commandOptions[_: P]: P[CommandOptions] = fieldAndConstant.rep map CommandOptions
 pub fn command_options(input: &str) -> IResult<&str, ast::CommandOptions> {
-    map(many0(ws(field_and_constant)), |options| {
+    // The name of an option may be a word that is reserved elsewhere, like `limit`
+    let option = map(
+        separated_pair(
+            verify(
+                recognize(many1(alt((alphanumeric1, tag("_"), tag("-"), tag("."))))),
+                |name: &str| name.starts_with(|c: char| c.is_ascii_alphabetic()),
+            ),
+            ws(tag("=")),
+            constant,
+        ),
+        |(k, v): (&str, _)| ast::FC {
+            field: k.into(),
+            value: v,
+        },
+    );
+    map(many0(ws(alt((field_and_constant, option)))), |options| {
         ast::CommandOptions { options }
     })(input)
 }
-- 
2.43.0


From e2169070d85b843bb36df20e990fd106ed1e7a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:11 +0000
Subject: [PATCH 31/71] fix: count column of top and rare

---
 src/commands/cmd_rare/pyspark.rs | 9 +++++++--
 src/commands/cmd_top/pyspark.rs  | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_rare/pyspark.rs b/src/commands/cmd_rare/pyspark.rs
index 4b7c1b0..519ff0f 100644
--- a/src/commands/cmd_rare/pyspark.rs
+++ b/src/commands/cmd_rare/pyspark.rs
@@ -28,18 +28,23 @@ impl PipelineTransformer for RareCommand {
         ]);
 
         if self.show_percent {
+            let count = self.count_field.clone();
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!([col(count.clone())] / [sum([col(count)])]),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].asc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].asc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.drop(vec![self.count_field.clone()]);
+        }
+
         Ok(state.with_df(df))
     }
 }
diff --git a/src/commands/cmd_top/pyspark.rs b/src/commands/cmd_top/pyspark.rs
index 3e3343e..95e5b0b 100644
--- a/src/commands/cmd_top/pyspark.rs
+++ b/src/commands/cmd_top/pyspark.rs
@@ -28,18 +28,23 @@ impl PipelineTransformer for TopCommand {
         ]);
 
         if self.show_percent {
+            let count = self.count_field.clone();
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!([col(count.clone())] / [sum([col(count)])]),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].desc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].desc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.drop(vec![self.count_field.clone()]);
+        }
+
         Ok(state.with_df(df))
     }
 }
-- 
2.43.0


From 639d2c1d633d122ae2f096d52fb260e818437a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:11 +0000
Subject: [PATCH 32/71] fix: limits of head, tail, sort, top and rare; spaced
 signs and quoted names of sort

---
 src/commands/cmd_head/pyspark.rs |  3 ++-
 src/commands/cmd_head/spl.rs     | 19 ++++++++++++-------
 src/commands/cmd_rare/spl.rs     |  6 +++---
 src/commands/cmd_sort/pyspark.rs |  7 ++++++-
 src/commands/cmd_sort/spl.rs     |  2 +-
 src/commands/cmd_tail/spl.rs     |  6 ++++--
 src/commands/cmd_top/spl.rs      |  6 +++---
 7 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/commands/cmd_head/pyspark.rs b/src/commands/cmd_head/pyspark.rs
index b27bf3d..b3d8aa7 100644
--- a/src/commands/cmd_head/pyspark.rs
+++ b/src/commands/cmd_head/pyspark.rs
@@ -1,7 +1,7 @@
 use crate::commands::cmd_head::spl::HeadCommand;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::bail;
+use anyhow::{bail, ensure};
 
 impl PipelineTransformer for HeadCommand {
     fn transform_standalone(
@@ -48,6 +48,7 @@ impl PipelineTransformer for HeadCommand {
             ),
         };
 
+        ensure!(limit >= 0, "Invalid head limit `{}`", limit);
         df = df.limit(limit as u64);
         Ok(state.with_df(df))
     }
diff --git a/src/commands/cmd_head/spl.rs b/src/commands/cmd_head/spl.rs
index b30ef6c..2c0c5fe 100644
--- a/src/commands/cmd_head/spl.rs
+++ b/src/commands/cmd_head/spl.rs
@@ -1,11 +1,12 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
-use crate::spl::ast::{BoolValue, Expr, ParsedCommandOptions};
+use crate::spl::ast::{self, BoolValue, Expr, ParsedCommandOptions};
 use crate::spl::parser::{bool_, expr, int, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt};
-use nom::sequence::{preceded, tuple};
+use nom::bytes::complete::{tag, tag_no_case};
+use nom::character::complete::multispace1;
+use nom::combinator::{eof, map, opt, peek, success};
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
 //
@@ -57,10 +58,14 @@ impl SplCommand<HeadCommand> for HeadParser {
         map(
             tuple((
                 ws(alt((
-                    map(alt((int, preceded(ws(tag_no_case("limit=")), int))), |v| {
-                        v.into()
-                    }),
+                    terminated(
+                        map(alt((int, preceded(ws(tag_no_case("limit=")), int))), |v| {
+                            v.into()
+                        }),
+                        peek(alt((eof, multispace1, tag("|"), tag("]")))),
+                    ),
                     expr,
+                    map(success(10), |n: i64| ast::IntValue(n).into()),
                 ))),
                 ws(opt(preceded(ws(tag_no_case("keeplast=")), bool_))),
                 ws(opt(preceded(ws(tag_no_case("null=")), bool_))),
diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index f6441b6..a39bfaf 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -3,7 +3,7 @@ use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list0, int, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, verify};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -95,7 +95,7 @@ impl TryFrom<ParsedCommandOptions> for RareCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: value.get_int("limit", 10)?.try_into()?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -112,7 +112,7 @@ impl SplCommand<RareCommand> for RareParser {
     fn parse_body(input: &str) -> IResult<&str, RareCommand> {
         map(
             tuple((
-                ws(opt(int)),
+                ws(opt(verify(int, |n| n.0 >= 0))),
                 ws(Self::Options::match_options),
                 ws(field_list0),
                 ws(opt(preceded(ws(tag_no_case("BY")), field_list0))),
diff --git a/src/commands/cmd_sort/pyspark.rs b/src/commands/cmd_sort/pyspark.rs
index c5ee775..574a216 100644
--- a/src/commands/cmd_sort/pyspark.rs
+++ b/src/commands/cmd_sort/pyspark.rs
@@ -2,7 +2,7 @@ use crate::commands::cmd_sort::spl::SortCommand;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::{bail, Result};
+use anyhow::{bail, ensure, Result};
 
 /// Converts a generic column-like expression into an explicitly ascending or descending ordering
 fn _ascending_or_descending(
@@ -31,6 +31,10 @@ fn _resolve_expr(e: ast::Expr) -> Result<ColumnLike> {
         ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(name)))) => {
             Ok(column_like!(col(name)))
         }
+        // A quoted name
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(name)))) => {
+            Ok(column_like!(col(name)))
+        }
         ast::Expr::Call(ast::Call { name, .. }) => match name.as_str() {
             "auto" => bail!("UNIMPLEMENTED"),
             "ip" => bail!("UNIMPLEMENTED"),
@@ -61,6 +65,7 @@ impl PipelineTransformer for SortCommand {
 
         df = df.order_by(sort_fields?);
 
+        ensure!(self.count >= 0, "Invalid sort limit `{}`", self.count);
         if self.count != 0 {
             df = df.limit(self.count as u64);
         }
diff --git a/src/commands/cmd_sort/spl.rs b/src/commands/cmd_sort/spl.rs
index 9bf8d85..01f362c 100644
--- a/src/commands/cmd_sort/spl.rs
+++ b/src/commands/cmd_sort/spl.rs
@@ -66,7 +66,7 @@ impl SplCommand<SortCommand> for SortParser {
             tuple((
                 opt(preceded(opt(ws(tag_no_case("limit="))), ws(int))),
                 comma_separated_list1(pair(
-                    opt(map(alt((tag("+"), tag("-"))), String::from)),
+                    opt(map(ws(alt((tag("+"), tag("-")))), String::from)),
                     expr,
                 )),
                 opt(ws(tag_no_case("desc"))),
diff --git a/src/commands/cmd_tail/spl.rs b/src/commands/cmd_tail/spl.rs
index f0187e9..c918774 100644
--- a/src/commands/cmd_tail/spl.rs
+++ b/src/commands/cmd_tail/spl.rs
@@ -2,7 +2,7 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::int;
 use crate::spl::python::*;
-use nom::combinator::map;
+use nom::combinator::{map, opt, verify};
 use nom::IResult;
 use pyo3::prelude::*;
 
@@ -35,6 +35,8 @@ impl SplCommand<TailCommand> for TailParser {
     type Options = TailCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, TailCommand> {
-        map(int, |n| TailCommand { n: n.0 as u64 })(input)
+        map(opt(verify(int, |n| n.0 >= 0)), |n| TailCommand {
+            n: n.map(|n| n.0 as u64).unwrap_or(10),
+        })(input)
     }
 }
diff --git a/src/commands/cmd_top/spl.rs b/src/commands/cmd_top/spl.rs
index 09bd0ee..e6bed97 100644
--- a/src/commands/cmd_top/spl.rs
+++ b/src/commands/cmd_top/spl.rs
@@ -3,7 +3,7 @@ use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list1, int, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, verify};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -95,7 +95,7 @@ impl TryFrom<ParsedCommandOptions> for TopCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: value.get_int("limit", 10)?.try_into()?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -112,7 +112,7 @@ impl SplCommand<TopCommand> for TopParser {
     fn parse_body(input: &str) -> IResult<&str, TopCommand> {
         map(
             tuple((
-                ws(opt(int)),
+                ws(opt(verify(int, |n| n.0 >= 0))),
                 ws(Self::Options::match_options),
                 field_list1,
                 ws(opt(preceded(ws(tag_no_case("BY")), field_list1))),
-- 
2.43.0


From 021abaf8dd35dd47573957e8c7bd3ce45237fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 33/71] fix: head with the limit on the left, top and rare
 without fields or with a negative limit

---
 src/commands/cmd_head/spl.rs |  7 ++++---
 src/commands/cmd_rare/spl.rs | 12 ++++++------
 src/commands/cmd_top/spl.rs  |  6 +++---
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/commands/cmd_head/spl.rs b/src/commands/cmd_head/spl.rs
index 2c0c5fe..62f2df4 100644
--- a/src/commands/cmd_head/spl.rs
+++ b/src/commands/cmd_head/spl.rs
@@ -4,8 +4,8 @@ use crate::spl::parser::{bool_, expr, int, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::character::complete::multispace1;
-use nom::combinator::{eof, map, opt, peek, success};
+use nom::character::complete::one_of;
+use nom::combinator::{map, not, opt, success};
 use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -62,7 +62,8 @@ impl SplCommand<HeadCommand> for HeadParser {
                         map(alt((int, preceded(ws(tag_no_case("limit=")), int))), |v| {
                             v.into()
                         }),
-                        peek(alt((eof, multispace1, tag("|"), tag("]")))),
+                        // Otherwise it is the left side of a comparison
+                        not(ws(one_of("<>=!+-*/."))),
                     ),
                     expr,
                     map(success(10), |n: i64| ast::IntValue(n).into()),
diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index a39bfaf..4108284 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -1,9 +1,9 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
-use crate::spl::parser::{field_list0, int, ws};
+use crate::spl::parser::{field_list1, int, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt, verify};
+use nom::bytes::complete::{tag, tag_no_case};
+use nom::combinator::{map, not, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -112,10 +112,10 @@ impl SplCommand<RareCommand> for RareParser {
     fn parse_body(input: &str) -> IResult<&str, RareCommand> {
         map(
             tuple((
-                ws(opt(verify(int, |n| n.0 >= 0))),
+                ws(preceded(not(tag("-")), opt(int))),
                 ws(Self::Options::match_options),
-                ws(field_list0),
-                ws(opt(preceded(ws(tag_no_case("BY")), field_list0))),
+                ws(field_list1),
+                ws(opt(preceded(ws(tag_no_case("BY")), field_list1))),
             )),
             |(n, opts, fields, by_fields)| RareCommand {
                 fields,
diff --git a/src/commands/cmd_top/spl.rs b/src/commands/cmd_top/spl.rs
index e6bed97..0ac3766 100644
--- a/src/commands/cmd_top/spl.rs
+++ b/src/commands/cmd_top/spl.rs
@@ -2,8 +2,8 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list1, int, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt, verify};
+use nom::bytes::complete::{tag, tag_no_case};
+use nom::combinator::{map, not, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -112,7 +112,7 @@ impl SplCommand<TopCommand> for TopParser {
     fn parse_body(input: &str) -> IResult<&str, TopCommand> {
         map(
             tuple((
-                ws(opt(verify(int, |n| n.0 >= 0))),
+                ws(preceded(not(tag("-")), opt(int))),
                 ws(Self::Options::match_options),
                 field_list1,
                 ws(opt(preceded(ws(tag_no_case("BY")), field_list1))),
-- 
2.43.0


From 36efbca7c3930d777fadce94befe5e405c74958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 34/71] fix: only the first command of a search may leave out
 its name

---
 src/spl/parser.rs | 53 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index e432110..370c53b 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1290,7 +1290,7 @@ pub fn stats_call(input: &str) -> IResult<&str, Vec<ast::Expr>> {
 //     | multiSearch
 //     | _map
 //     | impliedSearch)
-pub fn command(input: &str) -> IResult<&str, ast::Command> {
+fn named_command(input: &str) -> IResult<&str, ast::Command> {
     alt((
         // `alt` has a hard count limit, so we just break it up into sub-alts
         alt((
@@ -1331,31 +1331,56 @@ pub fn command(input: &str) -> IResult<&str, ast::Command> {
             into(TStatsParser::parse),
             into(WhereParser::parse),
         )),
-        into(SearchParser::parse),
+    ))(input)
+}
+
+/// The first command of a search, which is an implied `search` when it names no command
+pub fn command(input: &str) -> IResult<&str, ast::Command> {
+    alt((named_command, into(SearchParser::parse)))(input)
+}
+
+/// A command after a pipe, whose name must be given
+pub fn piped_command(input: &str) -> IResult<&str, ast::Command> {
+    alt((
+        named_command,
+        preceded(
+            peek(pair(tag_no_case("search"), alt((multispace1, eof)))),
+            into(SearchParser::parse),
+        ),
+    ))(input)
+}
+
+/// `| command | command ...` or `command | command ...`
+fn commands(input: &str) -> IResult<&str, Vec<ast::Command>> {
+    let pipe = |input| value((), ws(tag("|")))(input);
+    alt((
+        preceded(pipe, separated_list0(pipe, piped_command)),
+        map(
+            opt(pair(command, many0(preceded(pipe, piped_command)))),
+            |commands| match commands {
+                Some((first, mut rest)) => {
+                    rest.insert(0, first);
+                    rest
+                }
+                None => vec![],
+            },
+        ),
     ))(input)
 }
 //
 //   def subSearch[_: P]: P[Pipeline] = "[" ~ (command rep(sep = "|")) ~ "]" map Pipeline
 pub fn sub_search(input: &str) -> IResult<&str, ast::Pipeline> {
     map(
-        delimited(
-            ws(tag("[")),
-            preceded(opt(ws(tag("|"))), separated_list0(ws(tag("|")), command)),
-            ws(tag("]")),
-        ),
+        delimited(ws(tag("[")), commands, ws(tag("]"))),
         |commands| ast::Pipeline { commands },
     )(input)
 }
 
 //   def pipeline[_: P]: P[Pipeline] = (command rep(sep = "|")) ~ End map Pipeline
 pub fn pipeline(input: &str) -> IResult<&str, ast::Pipeline> {
-    map(
-        preceded(
-            opt(ws(tag("|"))),
-            all_consuming(ws(separated_list0(ws(tag("|")), command))),
-        ),
-        |commands| ast::Pipeline { commands },
-    )(input)
+    map(all_consuming(ws(commands)), |commands| ast::Pipeline {
+        commands,
+    })(input)
 }
 
 // <expression>
-- 
2.43.0


From 692d9df0cf64e33e5b1bb350914fa3b179718f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 35/71] fix: fillnull of the listed fields only, and of numeric
 fields

---
 .../runtime/commands/fill_null.py             | 18 +++++++++++++++
 src/commands/cmd_fill_null/pyspark.rs         | 22 ++++++++++++++-----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/fill_null.py b/python/spl_transpiler/runtime/commands/fill_null.py
index 9a57f4d..7098ef6 100644
--- a/python/spl_transpiler/runtime/commands/fill_null.py
+++ b/python/spl_transpiler/runtime/commands/fill_null.py
@@ -3,6 +3,22 @@ from pyspark.sql import DataFrame, functions as F
 from spl_transpiler.runtime.base import enforce_types
 
 
+NUMERIC_TYPES = ("tinyint", "smallint", "int", "bigint", "float", "double", "decimal")
+
+
+def _fits(value: str, type_name: str) -> bool:
+    """Whether a column of this type can hold the value"""
+    if type_name == "string":
+        return True
+    if not type_name.startswith(NUMERIC_TYPES):
+        return False
+    try:
+        int(value)
+    except ValueError:
+        return False
+    return True
+
+
 @enforce_types
 def fill_null(
     df: DataFrame | None,
@@ -13,6 +29,8 @@ def fill_null(
     fields = fields if fields is not None else list(type_map)
 
     for field in fields:
+        if not _fits(value, type_map[field]):
+            continue
         df = df.withColumn(
             field,
             F.when(F.col(field).isNull(), F.lit(value).cast(type_map[field])).otherwise(
diff --git a/src/commands/cmd_fill_null/pyspark.rs b/src/commands/cmd_fill_null/pyspark.rs
index c424d1a..8d15775 100644
--- a/src/commands/cmd_fill_null/pyspark.rs
+++ b/src/commands/cmd_fill_null/pyspark.rs
@@ -25,12 +25,24 @@ impl PipelineTransformer for FillNullCommand {
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
-        let df = state.df.clone().unwrap_or_default();
+        let mut df = state.df.clone().unwrap_or_default();
 
-        let df = df.arbitrary_method(
-            "fillna",
-            vec![column_like!(py_lit(self.value.clone())).into()],
-        );
+        // `fillna` only fills the columns that have the type of the value
+        let mut values = vec![PyLiteral::from(self.value.clone())];
+        if let Ok(number) = self.value.parse::<i64>() {
+            values.push(number.into());
+        }
+        let subset = self.fields.as_ref().map(|fields| {
+            let names: Vec<String> = fields
+                .iter()
+                .map(|f| PyLiteral::from(f.0.as_str()).0)
+                .collect();
+            PyLiteral(format!("[{}]", names.join(", ")))
+        });
+        for value in values {
+            let params = std::iter::once(value).chain(subset.clone());
+            df = df.arbitrary_method("fillna", params.map(Into::into).collect());
+        }
 
         Ok(state.with_df(df))
     }
-- 
2.43.0


From 0a1c6a31dc8f826c92fc0283adfbf0b5bb854b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 36/71] fix: options of addtotals

---
 src/commands/cmd_add_totals/pyspark.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/commands/cmd_add_totals/pyspark.rs b/src/commands/cmd_add_totals/pyspark.rs
index 9aa2952..59487a7 100644
--- a/src/commands/cmd_add_totals/pyspark.rs
+++ b/src/commands/cmd_add_totals/pyspark.rs
@@ -1,12 +1,24 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::utils::join_as_binaries;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use anyhow::bail;
 
 impl PipelineTransformer for super::spl::AddTotalsCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        if self.col {
+            bail!("UNIMPLEMENTED: No implementation yet for `col=true` in `addtotals`")
+        }
+        if !self.row {
+            let df = state.df.clone().unwrap_or_default();
+            return Ok(state.with_df(df));
+        }
+        if self.fields.is_empty() {
+            bail!("UNIMPLEMENTED: No implementation yet for `addtotals` without a list of fields")
+        }
+
         let cast_columns: Vec<ColumnLike> = self
             .fields
             .iter()
-- 
2.43.0


From e02242486eee6f8a41a26a50810e83127487da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 37/71] fix: bin the given field, under its alias, with options
 on either side

---
 src/commands/cmd_bin/pyspark.rs | 27 +++++++++++++++++----------
 src/commands/cmd_bin/spl.rs     | 23 ++++++++++++++++-------
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 9ed01b1..c0c81b1 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -3,6 +3,7 @@ use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use crate::spl::ast::FieldOrAlias;
+use anyhow::bail;
 
 impl PipelineTransformer for BinCommand {
     fn transform_standalone(
@@ -10,17 +11,23 @@ impl PipelineTransformer for BinCommand {
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
-        let col_name = match self.field.clone() {
-            FieldOrAlias::Field(ast::Field(name)) => name,
-            FieldOrAlias::Alias(ast::Alias { name, .. }) => name,
+        let (source, col_name) = match self.field.clone() {
+            FieldOrAlias::Field(ast::Field(name)) => (name.clone(), name),
+            FieldOrAlias::Alias(ast::Alias { expr, name }) => match *expr {
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                    field,
+                )))) => (field, name),
+                expr => bail!("Unsupported field to bin: {:?}", expr),
+            },
         };
-        if let Some(ast::TimeSpan { value, scale }) = self.span.clone() {
-            let span = format!("{} {}", value, scale);
-            df = df.with_column(
-                col_name.clone(),
-                column_like!(window([col("n")], [py_lit(span)])),
-            );
-        }
+        let Some(ast::TimeSpan { value, scale }) = self.span.clone() else {
+            bail!("UNIMPLEMENTED: No implementation yet for `bin` without `span`")
+        };
+        let span = format!("{} {}", value, scale);
+        df = df.with_column(
+            col_name.clone(),
+            column_like!(window([col(source)], [py_lit(span)])),
+        );
         let subfield = "start";
         df = df.with_column(
             col_name.clone(),
diff --git a/src/commands/cmd_bin/spl.rs b/src/commands/cmd_bin/spl.rs
index cd92bbe..3a2a98d 100644
--- a/src/commands/cmd_bin/spl.rs
+++ b/src/commands/cmd_bin/spl.rs
@@ -1,10 +1,10 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::*;
-use crate::spl::parser::{aliased_field, field};
+use crate::spl::parser::{aliased_field, command_options, field, unwrapped};
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::combinator::{into, map};
-use nom::sequence::pair;
+use nom::sequence::tuple;
 use nom::IResult;
 use pyo3::prelude::*;
 //
@@ -74,11 +74,20 @@ impl SplCommand<BinCommand> for BinParser {
 
     fn parse_body(input: &str) -> IResult<&str, BinCommand> {
         map(
-            pair(
-                Self::Options::match_options,
-                alt((into(aliased_field), into(field))),
-            ),
-            |(options, field)| BinCommand {
+            // The options may stand on either side of the field
+            unwrapped(map(
+                tuple((
+                    command_options,
+                    alt((into(aliased_field), into(field))),
+                    command_options,
+                )),
+                |(mut options, field, more)| {
+                    options.options.extend(more.options);
+                    BinCommandOptions::try_from(ParsedCommandOptions::from(options))
+                        .map(|options| (options, field))
+                },
+            )),
+            |(options, field): (BinCommandOptions, FieldOrAlias)| BinCommand {
                 field,
                 span: options.span,
                 min_span: options.min_span,
-- 
2.43.0


From 3550889b321cfd006add4b00eb153a59ebde3c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 38/71] fix: refuse wildcards in fields and table, which Spark
 cannot resolve

---
 src/commands/cmd_fields/pyspark.rs |  9 +++++++++
 src/commands/cmd_table/pyspark.rs  | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index 970e70e..9596594 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -2,6 +2,7 @@ use super::spl::*;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
+use anyhow::ensure;
 
 impl PipelineTransformer for FieldsCommand {
     fn transform_standalone(
@@ -10,6 +11,14 @@ impl PipelineTransformer for FieldsCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        for ast::Field(name) in self.fields.iter() {
+            ensure!(
+                !name.contains('*') || (name == "*" && !self.remove_fields),
+                "UNIMPLEMENTED: No implementation yet for wildcards in `fields`: {}",
+                name
+            );
+        }
+
         if self.remove_fields {
             let names = self.fields.iter().map(|f| f.0.clone()).collect();
             return Ok(state.with_df(df.drop(names)));
diff --git a/src/commands/cmd_table/pyspark.rs b/src/commands/cmd_table/pyspark.rs
index 5bd9d33..dcbba03 100644
--- a/src/commands/cmd_table/pyspark.rs
+++ b/src/commands/cmd_table/pyspark.rs
@@ -1,6 +1,8 @@
 use crate::commands::cmd_table::spl::TableCommand;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use crate::spl::ast;
+use anyhow::ensure;
 
 impl PipelineTransformer for TableCommand {
     fn transform_standalone(
@@ -9,6 +11,14 @@ impl PipelineTransformer for TableCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        for ast::Field(name) in self.fields.iter() {
+            ensure!(
+                !name.contains('*') || name == "*",
+                "UNIMPLEMENTED: No implementation yet for wildcards in `table`: {}",
+                name
+            );
+        }
+
         df = df.select(
             self.fields
                 .iter()
-- 
2.43.0


From 2f71dcace1b9cf2e96c8c41b4a259c0d4a526587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:54 +0000
Subject: [PATCH 39/71] fix: refuse wildcards in rename instead of renaming
 nothing

---
 src/commands/cmd_rename/pyspark.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/cmd_rename/pyspark.rs b/src/commands/cmd_rename/pyspark.rs
index add8f82..c3b9018 100644
--- a/src/commands/cmd_rename/pyspark.rs
+++ b/src/commands/cmd_rename/pyspark.rs
@@ -20,6 +20,9 @@ impl PipelineTransformer for RenameCommand {
                 ))) => bail!("UNIMPLEMENTED: Wildcard renaming is not supported yet"),
                 _ => bail!("Unsupported rename source: {:?}", alias),
             };
+            if old_name.contains('*') {
+                bail!("UNIMPLEMENTED: Wildcard renaming is not supported yet")
+            }
             df = df.with_column_renamed(old_name, alias.name.clone());
         }
 
-- 
2.43.0


From 685a02a7f79dd5abca0ebfe71dbbc73753c5cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 40/71] fix: commands without arguments may be followed by a
 pipe or a bracket

---
 src/commands/spl.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/commands/spl.rs b/src/commands/spl.rs
index 8f7e6f4..6a19370 100644
--- a/src/commands/spl.rs
+++ b/src/commands/spl.rs
@@ -2,9 +2,9 @@ use crate::commands::CommandBase;
 use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::{command_options, unwrapped};
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use nom::bytes::complete::{tag, tag_no_case};
 use nom::character::complete::multispace1;
-use nom::combinator::{eof, map};
+use nom::combinator::{eof, map, peek};
 use nom::sequence::{preceded, tuple};
 use nom::{IResult, Parser};
 
@@ -46,7 +46,10 @@ pub trait SplCommand<T> {
 
     fn match_name(input: &str) -> IResult<&str, ()> {
         map(
-            tuple((Self::match_name_raw, alt((multispace1, eof)))),
+            tuple((
+                Self::match_name_raw,
+                alt((multispace1, eof, peek(alt((tag("|"), tag("]")))))),
+            )),
             |_| (),
         )(input)
     }
-- 
2.43.0


From 61c2bfd031b02b6542bc36b095286e01f72603d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 41/71] fix: options may be given reserved words, as in
 type=outer

---
 src/spl/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 370c53b..353b698 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -721,7 +721,14 @@ pub fn command_options(input: &str) -> IResult<&str, ast::CommandOptions> {
                 |name: &str| name.starts_with(|c: char| c.is_ascii_alphabetic()),
             ),
             ws(tag("=")),
-            constant,
+            // ...and so may be its value, as in `type=outer`
+            alt((
+                constant,
+                map(
+                    verify(alphanumeric1, |v: &str| !_is_not_reserved_word(v)),
+                    |v: &str| ast::Constant::Str(v.into()),
+                ),
+            )),
         ),
         |(k, v): (&str, _)| ast::FC {
             field: k.into(),
-- 
2.43.0


From 91f000eb839ecc1b1c3ccc679aea6bbee0ea41c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 42/71] fix: an outer join keeps the events on the left

---
 src/commands/cmd_join/pyspark.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index 2f3c50a..42ae9b5 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -28,8 +28,8 @@ impl PipelineTransformer for JoinCommand {
 
         let join_type = match self.join_type.clone().as_str() {
             "inner" => "inner",
-            "left" => "left",
-            "outer" => "outer",
+            // In SPL an outer join is a left join
+            "left" | "outer" => "left",
             _ => bail!("Unsupported join type: {}", self.join_type),
         };
 
-- 
2.43.0


From d43096074c3ee35435612bf44e84de5b0dffb3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 43/71] fix: multisearch cannot follow another command

---
 src/commands/cmd_multi_search/pyspark.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_multi_search/pyspark.rs b/src/commands/cmd_multi_search/pyspark.rs
index 9cad709..2dcf4b5 100644
--- a/src/commands/cmd_multi_search/pyspark.rs
+++ b/src/commands/cmd_multi_search/pyspark.rs
@@ -1,12 +1,16 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
-use anyhow::anyhow;
+use anyhow::{anyhow, ensure};
 
 impl PipelineTransformer for super::spl::MultiSearchCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            state.df.is_none(),
+            "`multisearch` must be the first command of a search"
+        );
         if self.pipelines.is_empty() {
             return Ok(state);
         }
-- 
2.43.0


From 74d5a5a5d3aab6016bd360d6d4cb852905a59b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 44/71] fix: lookup adds the fields it looks up

---
 src/commands/cmd_head/spl.rs       |  2 +-
 src/commands/cmd_lookup/pyspark.rs | 38 ++++++++++++++++++++----------
 src/commands/cmd_lookup/spl.rs     | 13 +++++++---
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/commands/cmd_head/spl.rs b/src/commands/cmd_head/spl.rs
index 62f2df4..15677a9 100644
--- a/src/commands/cmd_head/spl.rs
+++ b/src/commands/cmd_head/spl.rs
@@ -3,7 +3,7 @@ use crate::spl::ast::{self, BoolValue, Expr, ParsedCommandOptions};
 use crate::spl::parser::{bool_, expr, int, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
-use nom::bytes::complete::{tag, tag_no_case};
+use nom::bytes::complete::tag_no_case;
 use nom::character::complete::one_of;
 use nom::combinator::{map, not, opt, success};
 use nom::sequence::{preceded, terminated, tuple};
diff --git a/src/commands/cmd_lookup/pyspark.rs b/src/commands/cmd_lookup/pyspark.rs
index 73e872b..808f829 100644
--- a/src/commands/cmd_lookup/pyspark.rs
+++ b/src/commands/cmd_lookup/pyspark.rs
@@ -37,34 +37,48 @@ impl PipelineTransformer for LookupCommand {
 
         let joined_df = df.join(lookup_df, join_condition, "left");
 
-        let result_df = joined_df.select(match self.output.clone() {
-            None => {
-                vec![column_like!(col("main.*")), column_like!(col("lookup.*"))]
-            }
+        // Output fields take the place of the ones the events already have
+        let (replaced, columns): (Vec<Expr>, Vec<ColumnLike>) = match self.output.clone() {
+            None => (
+                self.fields
+                    .iter()
+                    .filter_map(|f| match f {
+                        FieldLike::AliasedField(ast::AliasedField { field, .. }) => Some(field),
+                        FieldLike::Field(field) => Some(field),
+                        _ => None,
+                    })
+                    .map(|ast::Field(name)| column_like!(col(format!("lookup.{}", name))).into())
+                    .collect(),
+                vec![column_like!(col("main.*")), column_like!(col("lookup.*"))],
+            ),
             Some(LookupOutput { kv, fields }) if kv.to_ascii_uppercase() == "OUTPUT" => {
+                let mut replaced = vec![];
                 let mut cols = vec![column_like!(col("main.*"))];
                 for field in fields {
-                    cols.push(match field {
-                        FieldLike::Field(ast::Field(name)) => {
-                            column_like!([col(format!("lookup.{}", name))].alias(name))
-                        }
+                    let (name, alias) = match field {
+                        FieldLike::Field(ast::Field(name)) => (name.clone(), name),
                         FieldLike::AliasedField(ast::AliasedField { field, alias }) => {
-                            column_like!([col(format!("lookup.{}", field.0))].alias(alias))
+                            (field.0, alias)
                         }
                         // FieldLike::Alias(_) => {}
                         _ => bail!(
                             "UNIMPLEMENTED: Unsupported lookup output definition: {:?}",
                             field
                         ),
-                    });
+                    };
+                    replaced.push(column_like!(col(format!("main.{}", alias))).into());
+                    cols.push(column_like!([col(format!("lookup.{}", name))].alias(alias)));
                 }
-                cols
+                (replaced, cols)
             }
             Some(LookupOutput { kv, fields }) if kv.to_ascii_uppercase() == "OUTPUTNEW" => {
                 bail!("UNIMPLEMENTED: `lookup` command with `OUTPUTNEW` not supported")
             }
             output => bail!("Unsupported output definition for `lookup`: {:?}", output),
-        });
+        };
+        let df = joined_df
+            .arbitrary_method("drop", replaced)
+            .select(columns);
 
         Ok(state.with_df(df))
     }
diff --git a/src/commands/cmd_lookup/spl.rs b/src/commands/cmd_lookup/spl.rs
index a1d1338..03a83a9 100644
--- a/src/commands/cmd_lookup/spl.rs
+++ b/src/commands/cmd_lookup/spl.rs
@@ -37,14 +37,21 @@ impl_pyclass!(LookupCommand { dataset: String, fields: Vec<FieldLike>, output: O
 //     case Field(v) => v.toLowerCase(Locale.ROOT) != "output"
 //     case _ => false
 //   }.rep(1)
+fn is_output(word: &str) -> bool {
+    matches!(
+        word.to_ascii_lowercase().as_str(),
+        "output" | "outputnew"
+    )
+}
+
 pub fn field_rep(input: &str) -> IResult<&str, Vec<FieldLike>> {
     comma_or_space_separated_list1(alt((
         map(
-            verify(aliased_field, |v| v.alias.to_ascii_lowercase() != "output"),
+            verify(aliased_field, |v| !is_output(&v.alias)),
             FieldLike::AliasedField,
         ),
         map(
-            verify(field, |v| v.0.to_ascii_lowercase() != "output"),
+            verify(field, |v| !is_output(&v.0)),
             FieldLike::Field,
         ),
     )))
@@ -57,7 +64,7 @@ pub fn field_rep(input: &str) -> IResult<&str, Vec<FieldLike>> {
 fn lookup_output(input: &str) -> IResult<&str, LookupOutput> {
     map(
         separated_pair(
-            alt((tag_no_case("OUTPUT"), tag_no_case("OUTPUTNEW"))),
+            alt((tag_no_case("OUTPUTNEW"), tag_no_case("OUTPUT"))),
             multispace1,
             field_rep,
         ),
-- 
2.43.0


From 2f262b00f64c0e7bb5be5d1ba3c4a17658f0e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:06 +0000
Subject: [PATCH 45/71] fix: distinct_count of the runtime counts exactly, as
 estdc is the estimate

---
 python/spl_transpiler/runtime/functions/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index b3595a2..f801576 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -63,7 +63,7 @@ class DistinctCountStatsFn(StatsFunction):
     x: Expr
 
     def to_pyspark_expr_simple(self):
-        return F.approx_count_distinct(self.x.to_pyspark_expr())
+        return F.count_distinct(self.x.to_pyspark_expr())
 
 
 @enforce_types
-- 
2.43.0


From 5021d5bcc72ca6076552974abde59007ee865cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 46/71] fix: expand macros all arguments at once, check their
 names and refuse macros defined by themselves

---
 python/spl_transpiler/macros.py | 71 +++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 75223d2..9277c13 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -81,41 +81,50 @@ class CombinedMacroLoader(MacroLoader):
         raise KeyError(f"No macro found for `{item}`")
 
 
-def substitute_macros(code, macros: MacroLoader):
+def _bind_arguments(macro_name, macro_spec: MacroDefinition, args):
+    """Match the arguments of a macro call to the argument names in the macro's definition"""
+    names = [name for name, _ in args]
+    if None in names and any(name is not None for name in names):
+        raise ValueError(
+            f"Mixture of named and positional arguments in macro call {macro_name}"
+        )
+    if len(macro_spec.arguments) != len(args):
+        raise ValueError(
+            f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
+        )
+    if None in names:
+        return dict(zip(macro_spec.arguments, [value for _, value in args]))
+    if set(names) != set(macro_spec.arguments):
+        raise ValueError(
+            f"Mismatched arguments in macro call {macro_name}: expected {macro_spec.arguments}, got {names}"
+        )
+    return dict(args)
+
+
+def _expand_macros(code, macros: MacroLoader, active=()):
     (chunks, suffix) = detect_macros(code)
     query_parts = []
     for prefix, macro_call in chunks:
         query_parts.append(prefix)
 
         macro_name = macro_call.macro_name
-        args = macro_call.args
+        # Avoid infinite recursion
+        if macro_name in active:
+            raise ValueError(
+                f"Macro `{macro_name}` is defined in terms of itself: {' > '.join([*active, macro_name])}"
+            )
 
         macro_spec = MacroDefinition.model_validate(macros[macro_name])
-
         macro_final_value = macro_spec.definition
 
+        args = _bind_arguments(macro_name, macro_spec, macro_call.args)
         if args:
-            if all(name is None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
-                args = dict(zip(macro_spec.arguments, [value for _, value in args]))
-            elif all(name is not None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
-                args = dict(args)
-            else:
-                raise ValueError(
-                    f"Mixture of named and positional arguments in macro call {macro_name}"
-                )
-
-            for arg_name, arg_substitute_value in args.items():
-                macro_final_value = re.sub(
-                    f"\\${arg_name}\\$", arg_substitute_value, macro_final_value
-                )
+            # All arguments at once, so that `$name$` in a value is left alone
+            macro_final_value = re.sub(
+                r"\$(" + "|".join(map(re.escape, args)) + r")\$",
+                lambda m: args[m[1]],
+                macro_final_value,
+            )
 
         printable_args = ",".join(
             value if name is None else f"{name}={value}"
@@ -125,17 +134,17 @@ def substitute_macros(code, macros: MacroLoader):
             f"Resolved macro `{macro_name}({printable_args})` to {macro_final_value}"
         )
 
-        query_parts.append(macro_final_value)
+        query_parts.append(
+            _expand_macros(macro_final_value, macros, (*active, macro_name))
+        )
 
     query_parts.append(suffix)
-    final_query = "".join(query_parts)
-    final_query = final_query.rstrip().rstrip("|").strip()
+    return "".join(query_parts)
 
-    # Avoid infinite recursion
-    if final_query == code:
-        return final_query
 
-    final_query = substitute_macros(final_query, macros)
+def substitute_macros(code, macros: MacroLoader):
+    final_query = _expand_macros(code, macros)
+    final_query = final_query.rstrip().rstrip("|").strip()
 
     log.debug(f"Resolved query '''{code}''' to '''{final_query}")
 
-- 
2.43.0


From 58b71daa2ccefe853785881c594a8ffca5a8fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 47/71] fix: refuse spans of months, which Spark has no windows
 for

---
 src/commands/cmd_bin/pyspark.rs     |  4 ++++
 src/commands/cmd_stats/pyspark.rs   |  7 +++----
 src/commands/cmd_t_stats/pyspark.rs |  7 +++----
 src/commands/stats_utils.rs         | 11 ++++++++---
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index c0c81b1..53776df 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -23,6 +23,10 @@ impl PipelineTransformer for BinCommand {
         let Some(ast::TimeSpan { value, scale }) = self.span.clone() else {
             bail!("UNIMPLEMENTED: No implementation yet for `bin` without `span`")
         };
+        // Spark has no windows of calendar months
+        if scale == "months" {
+            bail!("UNIMPLEMENTED: No implementation yet for `bin` with a span of months")
+        }
         let span = format!("{} {}", value, scale);
         df = df.with_column(
             col_name.clone(),
diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index d838fbc..d0dc59b 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -30,9 +30,8 @@ impl PipelineTransformer for StatsCommand {
             let by_fields: Vec<RuntimeExpr> = by_fields
                 .iter()
                 .cloned()
-                .map(stats_utils::transform_by_field)
-                .map(Into::into)
-                .collect();
+                .map(|f| Ok(stats_utils::transform_by_field(f)?.into()))
+                .collect::<anyhow::Result<_>>()?;
             all_kwargs.push("by", PyList(by_fields));
         }
 
@@ -83,7 +82,7 @@ impl PipelineTransformer for StatsCommand {
                 .unwrap_or_default()
                 .into_iter()
                 .map(stats_utils::transform_by_field)
-                .collect(),
+                .collect::<anyhow::Result<_>>()?,
         );
 
         df = df.agg(aggs);
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 071bb96..7c33499 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -69,9 +69,8 @@ impl PipelineTransformer for TStatsCommand {
             let by_fields: Vec<RuntimeExpr> = by_fields
                 .iter()
                 .cloned()
-                .map(stats_utils::transform_by_field)
-                .map(Into::into)
-                .collect();
+                .map(|f| Ok(stats_utils::transform_by_field(f)?.into()))
+                .collect::<anyhow::Result<_>>()?;
             all_kwargs.push("by", PyList(by_fields));
         }
 
@@ -142,7 +141,7 @@ impl PipelineTransformer for TStatsCommand {
                 by_fields
                     .into_iter()
                     .map(stats_utils::transform_by_field)
-                    .collect(),
+                    .collect::<anyhow::Result<_>>()?,
             ),
             (None, Some(_)) => {
                 bail!("UNIMPLEMENTED: `tstats` command does not yet support BY prefix")
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 496d60c..99bd74d 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -15,8 +15,8 @@ use nom::IResult;
 use nom::Parser;
 use pyo3::pyclass;
 
-pub fn transform_by_field(f: MaybeSpannedField) -> ColumnOrName {
-    match f.clone() {
+pub fn transform_by_field(f: MaybeSpannedField) -> anyhow::Result<ColumnOrName> {
+    Ok(match f.clone() {
         MaybeSpannedField {
             field: ast::Field(field),
             span: None,
@@ -25,10 +25,15 @@ pub fn transform_by_field(f: MaybeSpannedField) -> ColumnOrName {
             field: ast::Field(field),
             span: Some(span),
         } => {
+            // Spark has no windows of calendar months
+            ensure!(
+                span.scale != "months",
+                "UNIMPLEMENTED: Unable to group by a span of months"
+            );
             let span_text = format!("{} {}", span.value, span.scale);
             column_like!(window([py_lit(field)], [py_lit(span_text)])).into()
         }
-    }
+    })
 }
 
 pub fn transform_stats_expr(
-- 
2.43.0


From 46a21212f54a5c277f584c5d3750a3e96a9732fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 48/71] fix: relative_time without a snap unit, and weeks that
 start on Sunday

---
 src/functions/eval_fns.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 497683c..651fa30 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -10,8 +10,11 @@ use crate::pyspark::transpiler::expr::{cidr_match, cidr_match_literal};
 use crate::pyspark::transpiler::utils::convert_time_format;
 use crate::spl::ast;
 use crate::spl::ast::TimeSpan;
+use crate::spl::parser::{time_span, time_span_one};
 use anyhow::{bail, ensure, Result};
 use log::warn;
+use nom::branch::alt;
+use nom::combinator::all_consuming;
 use std::any::type_name;
 use std::ops::Deref;
 /*
@@ -157,10 +160,19 @@ fn offset_time(time_col: impl Into<Expr>, offset: TimeSpan) -> ColumnLike {
 }
 
 fn round_time(time_col: impl Into<Expr>, scale: String) -> Result<ColumnLike> {
+    let time_col: Expr = time_col.into();
+    // Weeks start on Sunday in SPL, but on Monday in Spark
+    if scale == "weeks" {
+        return Ok(column_like!(
+            [date_trunc(
+                [py_lit("week")],
+                [[time_col] + [expr("INTERVAL 1 DAYS")]]
+            )] - [expr("INTERVAL 1 DAYS")]
+        ));
+    }
     let round_to = match scale.as_str() {
         "years" => "year",
         "months" => "month",
-        "weeks" => "week",
         "days" => "day",
         "hours" => "hour",
         "minutes" => "minute",
@@ -408,19 +420,33 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         "now" => function_transform!(now [args] () { column_like!(current_timestamp()) }),
         // relative_time(<time>,<specifier>)                   	 Adjusts the time by a relative time specifier.
         "relative_time" => function_transform!(now [args ...] (time) {
-            let relative_time_spec = match args.get(1).map(Deref::deref) {
-                Some(ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::SnapTime(snap_time)))) => snap_time,
+            let (span, snap, snap_offset) = match args.get(1).map(Deref::deref) {
+                Some(ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::SnapTime(ast::SnapTime {
+                    span,
+                    snap,
+                    snap_offset,
+                })))) => (span.clone(), Some(snap.clone()), snap_offset.clone()),
+                Some(ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::TimeSpan(span)))) => (Some(span.clone()), None, None),
+                Some(ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(span))))) => {
+                    let Ok((_, span)) = all_consuming(alt((time_span, time_span_one)))(span.as_str()) else {
+                        bail!("Unsupported relative time specifier: {}", span)
+                    };
+                    (Some(span), None, None)
+                }
                 Some(v) => bail!("`relative_time` function requires a second argument of type SnapTime, got {:?}", v),
                 None => bail!("`relative_time` function requires a second argument"),
             };
             let time = column_like!(to_timestamp([time]));
-            let time = match relative_time_spec.span.clone() {
+            let time = match span {
                 None => time,
                 Some(time_span) => offset_time(time, time_span)
             };
-            let time = round_time(time, relative_time_spec.snap.clone())?;
+            let time = match snap {
+                None => time,
+                Some(snap) => round_time(time, snap)?
+            };
 
-            match relative_time_spec.snap_offset.clone() {
+            match snap_offset {
                 None => time,
                 Some(snap_offset) => offset_time(time, snap_offset)
             }
-- 
2.43.0


From 196cef24d7e6a31adc7fe7d917e7bc2c304d7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 49/71] fix: convert time formats in one pass, quoting literal
 text and refusing unknown variables

---
 .../spl_transpiler/runtime/functions/eval.py  |   4 +-
 .../spl_transpiler/runtime/functions/utils.py | 150 ++++++------------
 src/pyspark/transpiler/utils.rs               |  71 +++++++--
 3 files changed, 106 insertions(+), 119 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 14e7c6f..67a4899 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -427,10 +427,10 @@ def strftime(date: Expr, format: str, is_spl_format=True) -> Expr:
 
 
 @enforce_types
-def strptime(date: str, format: str, is_spl_format=True) -> Expr:
+def strptime(date: Expr, format: str, is_spl_format=True) -> Expr:
     if is_spl_format:
         format = utils.convert_time_format(format)
-    return F.to_timestamp(date, format)
+    return F.to_timestamp(date.to_pyspark_expr(), format)
 
 
 #         // time()                                              	 The time that eval function was computed. The time will be different for each event, based on when the event was processed.
diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index b9a1ae5..2ca4e12 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -10,34 +10,19 @@ from pyspark.sql import functions as F
 @enforce_types
 def offset_time(time_col, offset: TimeSpan):
     return time_col + F.expr(
-        f"INTERVAL {offset.value} {offset.scale.to_ascii_uppercase()}"
+        f"INTERVAL {offset.value} {offset.scale.upper()}"
     )
 
 
-#
-# fn round_time(time_col: impl Into<Expr>, scale: String) -> Result<ColumnLike> {
-#     let round_to = match scale.as_str() {
-#         "years" => "year",
-#         "months" => "month",
-#         "weeks" => "week",
-#         "days" => "day",
-#         "hours" => "hour",
-#         "minutes" => "minute",
-#         "seconds" => "second",
-#         "milliseconds" => "millisecond",
-#         "microseconds" => "microsecond",
-#         _ => bail!("Invalid snap time specifier"),
-#     };
-#     Ok(column_like!(date_trunc([py_lit(round_to)], [time_col])))
-# }
-
-
 @enforce_types
 def round_time(time_col, scale: TimeScale) -> Expr:
+    # Weeks start on Sunday in SPL, but on Monday in Spark
+    if scale == TimeScale.WEEKS:
+        one_day = F.expr("INTERVAL 1 DAYS")
+        return F.date_trunc("week", time_col + one_day) - one_day
     try:
         round_to = {
             scale.MONTHS: "month",
-            scale.WEEKS: "week",
             scale.DAYS: "day",
             scale.HOURS: "hour",
             scale.MINUTES: "minute",
@@ -48,69 +33,19 @@ def round_time(time_col, scale: TimeScale) -> Expr:
     return F.date_trunc(round_to, time_col)
 
 
-# const CONVERSIONS: [(&str, Option<&str>); 37] = [
-#     // Date and time variables
-#     ("%c", None), // No direct equivalent
-#     ("%+", None), // No direct equivalent
-#     // Time variables
-#     ("%Ez", None),              // No direct equivalent
-#     ("%f", Some("SSS")),        // Microseconds as a decimal number
-#     ("%H", Some("HH")),         // Hour (24-hour clock)
-#     ("%I", Some("hh")),         // Hour (12-hour clock)
-#     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
-#     ("%M", Some("mm")),         // Minute
-#     ("%N", Some("SSS")),        // Subsecond digits (default to milliseconds)
-#     ("%p", Some("a")),          // AM or PM
-#     ("%Q", Some("SSS")),        // Subsecond component of a UTC timestamp (default to milliseconds)
-#     ("%3Q", Some("SSS")),       // Subsecond component of a UTC timestamp (milliseconds)
-#     ("%6Q", Some("SSSSSS")),    // Subsecond component of a UTC timestamp (microseconds)
-#     ("%9Q", Some("SSSSSSSSS")), // Subsecond component of a UTC timestamp (nanoseconds)
-#     ("%S", Some("ss")),         // Second
-#     ("%s", None),               // No direct equivalent for UNIX Epoch Time timestamp
-#     ("%T", Some("HH:mm:ss")),   // Time in 24-hour notation
-#     ("%X", None),               // No direct equivalent for locale-specific time
-#     ("%Z", Some("z")),          // Timezone abbreviation
-#     // Use %z to specify hour and minute, for example -0500
-#     // Use %:z to specify hour and minute separated by a colon, for example -05:00
-#     // Use %::z to specify hour minute and second separated with colons, for example -05:00:00
-#     // Use %:::z to specify hour only, for example -05
-#     ("%z", Some("x")),        // Timezone offset from UTC
-#     ("%:z", Some("xxxx")),    // Timezone offset from UTC
-#     ("%::z", Some("xxxxxx")), // Timezone offset from UTC
-#     ("%:::z", Some("xx")),    // Timezone offset from UTC
-#     // Date variables
-#     ("%F", Some("yyyy-MM-dd")), // ISO 8601 date format
-#     ("%x", None),               // No direct equivalent for locale-specific date
-#     // Specifying days and weeks
-#     ("%A", Some("EEEE")), // Full weekday name
-#     ("%a", Some("EEE")),  // Abbreviated weekday name
-#     ("%d", Some("dd")),   // Day of the month
-#     ("%e", Some("d")),    // Day of the month (leading space)
-#     ("%j", Some("D")),    // Day of year
-#     // ("%V", Some("w")), // Week of the year (ISO)
-#     // ("%U", Some("w")), // Week of the year (starting with 0)
-#     ("%w", Some("e")), // Weekday as a decimal number (1 = Monday, ..., 7 = Sunday)
-#     // Specifying months
-#     ("%b", Some("MMM")),  // Abbreviated month name
-#     ("%B", Some("MMMM")), // Full month name
-#     ("%m", Some("MM")),   // Month as a decimal number
-#     // Specifying year
-#     ("%y", Some("yy")),   // Year without century
-#     ("%Y", Some("yyyy")), // Year with century
-#     // Other
-#     ("%%", Some("%")), // A literal "%" character
-# ];
-
 CONVERSIONS = {
     "%c": None,
     "%+": None,
     "%Ez": None,
-    "%f": "SSS",
+    "%f": "SSSSSS",
     "%H": "HH",
     "%I": "hh",
     "%k": "H",
     "%M": "mm",
-    "%N": "SSS",
+    "%N": "SSSSSSSSS",
+    "%3N": "SSS",
+    "%6N": "SSSSSS",
+    "%9N": "SSSSSSSSS",
     "%p": "a",
     "%Q": "SSS",
     "%3Q": "SSS",
@@ -121,20 +56,20 @@ CONVERSIONS = {
     "%T": "HH:mm:ss",
     "%X": None,
     "%Z": "z",
-    "%z": "x",
-    "%:z": "xxxx",
-    "%::z": "xxxxxx",
-    "%:::z": "xx",
+    "%z": "xx",
+    "%:z": "xxx",
+    "%::z": "xxxxx",
+    "%:::z": "x",
     "%F": "yyyy-MM-dd",
     "%x": None,
     "%A": "EEEE",
     "%a": "EEE",
     "%d": "dd",
     "%e": "d",
-    "%j": "D",
+    "%j": "DDD",
     # "%V": "w",
     # "%U": "w",
-    "%w": "e",
+    "%w": None,
     "%b": "MMM",
     "%B": "MMMM",
     "%m": "MM",
@@ -143,28 +78,41 @@ CONVERSIONS = {
     "%%": "%",
 }
 
-#
-# pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
-#     let mut fmt_string = spl_time_format.to_string();
-#
-#     for (original, replacement) in CONVERSIONS {
-#         if !fmt_string.contains(original) {
-#             continue;
-#         }
-#         match replacement {
-#             None => bail!("No known replacement pattern for `{}`", original),
-#             Some(replacement) => fmt_string = fmt_string.replace(original, replacement),
-#         }
-#     }
-#     Ok(fmt_string)
-# }
+
+def _quote_literal_text(text: str) -> str:
+    """Quote the parts of a literal text which would otherwise be read as part of a Spark time format"""
+    if any((c.isascii() and c.isalpha()) or c in "'[]{}#" for c in text):
+        return "'" + text.replace("'", "''") + "'"
+    return text
 
 
 def convert_time_format(fmt_string: str) -> str:
-    for original, replacement in CONVERSIONS.items():
-        if original not in fmt_string:
+    # Without any SPL variables, the format is used as it is
+    if "%" not in fmt_string:
+        return fmt_string
+
+    converted = ""
+    literal_text = ""
+    remaining = fmt_string
+    while remaining:
+        if remaining[0] != "%":
+            literal_text += remaining[0]
+            remaining = remaining[1:]
             continue
+        variable = next((v for v in CONVERSIONS if remaining.startswith(v)), None)
+        if variable is None:
+            raise ValueError(f"Unknown time format variable at `{remaining}`")
+        replacement = CONVERSIONS[variable]
         if replacement is None:
-            raise ValueError(f"No known replacement pattern for `{original}`")
-        fmt_string = fmt_string.replace(original, replacement)
-    return fmt_string
+            raise ValueError(f"No known replacement pattern for `{variable}`")
+        remaining = remaining[len(variable) :]
+        if variable == "%%":
+            literal_text += "%"
+            continue
+        converted += _quote_literal_text(literal_text)
+        literal_text = ""
+        # Spark would read two adjacent patterns of the same letter as a single longer one
+        if converted.endswith(replacement[0]):
+            raise ValueError(f"Unable to convert the time format `{fmt_string}`")
+        converted += replacement
+    return converted + _quote_literal_text(literal_text)
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index c497615..babe624 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -112,18 +112,21 @@ Z      	 zone-offset                  	 offset-Z     	 +0000; -0800; -08:00;
 ]      	 optional section end
  */
 
-const CONVERSIONS: [(&str, Option<&str>); 37] = [
+const CONVERSIONS: [(&str, Option<&str>); 40] = [
     // Date and time variables
     ("%c", None), // No direct equivalent
     ("%+", None), // No direct equivalent
     // Time variables
     ("%Ez", None),              // No direct equivalent
-    ("%f", Some("SSS")),        // Microseconds as a decimal number
+    ("%f", Some("SSSSSS")),     // Microseconds as a decimal number
     ("%H", Some("HH")),         // Hour (24-hour clock)
     ("%I", Some("hh")),         // Hour (12-hour clock)
     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
     ("%M", Some("mm")),         // Minute
-    ("%N", Some("SSS")),        // Subsecond digits (default to milliseconds)
+    ("%N", Some("SSSSSSSSS")),  // Subsecond digits (default to nanoseconds)
+    ("%3N", Some("SSS")),       // Subsecond digits (milliseconds)
+    ("%6N", Some("SSSSSS")),    // Subsecond digits (microseconds)
+    ("%9N", Some("SSSSSSSSS")), // Subsecond digits (nanoseconds)
     ("%p", Some("a")),          // AM or PM
     ("%Q", Some("SSS")),        // Subsecond component of a UTC timestamp (default to milliseconds)
     ("%3Q", Some("SSS")),       // Subsecond component of a UTC timestamp (milliseconds)
@@ -138,10 +141,10 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     // Use %:z to specify hour and minute separated by a colon, for example -05:00
     // Use %::z to specify hour minute and second separated with colons, for example -05:00:00
     // Use %:::z to specify hour only, for example -05
-    ("%z", Some("x")),        // Timezone offset from UTC
-    ("%:z", Some("xxxx")),    // Timezone offset from UTC
-    ("%::z", Some("xxxxxx")), // Timezone offset from UTC
-    ("%:::z", Some("xx")),    // Timezone offset from UTC
+    ("%z", Some("xx")),      // Timezone offset from UTC
+    ("%:z", Some("xxx")),    // Timezone offset from UTC
+    ("%::z", Some("xxxxx")), // Timezone offset from UTC
+    ("%:::z", Some("x")),    // Timezone offset from UTC
     // Date variables
     ("%F", Some("yyyy-MM-dd")), // ISO 8601 date format
     ("%x", None),               // No direct equivalent for locale-specific date
@@ -150,10 +153,10 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%a", Some("EEE")),  // Abbreviated weekday name
     ("%d", Some("dd")),   // Day of the month
     ("%e", Some("d")),    // Day of the month (leading space)
-    ("%j", Some("D")),    // Day of year
+    ("%j", Some("DDD")),  // Day of year
     // ("%V", Some("w")), // Week of the year (ISO)
     // ("%U", Some("w")), // Week of the year (starting with 0)
-    ("%w", Some("e")), // Weekday as a decimal number (1 = Monday, ..., 7 = Sunday)
+    ("%w", None), // No direct equivalent for weekday as a decimal number
     // Specifying months
     ("%b", Some("MMM")),  // Abbreviated month name
     ("%B", Some("MMMM")), // Full month name
@@ -165,17 +168,53 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%%", Some("%")), // A literal "%" character
 ];
 
+/// Quote the parts of a literal text which would otherwise be read as part of a Spark time format
+fn quote_literal_text(text: &str) -> String {
+    if text.contains(|c: char| c.is_ascii_alphabetic() || "'[]{}#".contains(c)) {
+        format!("'{}'", text.replace('\'', "''"))
+    } else {
+        text.to_string()
+    }
+}
+
 pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
-    let mut fmt_string = spl_time_format.to_string();
+    let spl_time_format = spl_time_format.to_string();
+    // Without any SPL variables, the format is used as it is
+    if !spl_time_format.contains('%') {
+        return Ok(spl_time_format);
+    }
 
-    for (original, replacement) in CONVERSIONS {
-        if !fmt_string.contains(original) {
+    let mut converted = String::new();
+    let mut literal_text = String::new();
+    let mut remaining = spl_time_format.as_str();
+    while let Some(next_char) = remaining.chars().next() {
+        if next_char != '%' {
+            literal_text.push(next_char);
+            remaining = &remaining[next_char.len_utf8()..];
+            continue;
+        }
+        let Some((variable, replacement)) = CONVERSIONS
+            .iter()
+            .find(|(variable, _)| remaining.starts_with(variable))
+        else {
+            bail!("Unknown time format variable at `{}`", remaining)
+        };
+        let Some(replacement) = replacement else {
+            bail!("No known replacement pattern for `{}`", variable)
+        };
+        remaining = &remaining[variable.len()..];
+        if *variable == "%%" {
+            literal_text.push('%');
             continue;
         }
-        match replacement {
-            None => bail!("No known replacement pattern for `{}`", original),
-            Some(replacement) => fmt_string = fmt_string.replace(original, replacement),
+        converted.push_str(&quote_literal_text(&literal_text));
+        literal_text.clear();
+        // Spark would read two adjacent patterns of the same letter as a single longer one
+        if converted.chars().last() == replacement.chars().next() {
+            bail!("Unable to convert the time format `{}`", spl_time_format)
         }
+        converted.push_str(replacement);
     }
-    Ok(fmt_string)
+    converted.push_str(&quote_literal_text(&literal_text));
+    Ok(converted)
 }
-- 
2.43.0


From e51d1b761f4ee0204b75bd26e616b7cda0c33293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 50/71] fix: rex and regex write named groups the way Java
 reads them, rex refuses offset_field

---
 src/commands/cmd_regex/pyspark.rs |  5 ++-
 src/commands/cmd_rex/pyspark.rs   | 21 ++++++++++---
 src/commands/regex_utils.rs       | 51 +++++++++++++++++++++++++++++++
 3 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/src/commands/cmd_regex/pyspark.rs b/src/commands/cmd_regex/pyspark.rs
index a91381f..d618115 100644
--- a/src/commands/cmd_regex/pyspark.rs
+++ b/src/commands/cmd_regex/pyspark.rs
@@ -1,4 +1,5 @@
 use crate::commands::cmd_regex::spl::RegexCommand;
+use crate::commands::regex_utils::to_java_regex;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
@@ -22,7 +23,9 @@ impl PipelineTransformer for RegexCommand {
 
         let mut col = column_like!(regexp_like(
             [col(field)],
-            [Expr::PyLiteral(PyLiteral(quote_python_regex(&self.regex)))]
+            [Expr::PyLiteral(PyLiteral(quote_python_regex(
+                &to_java_regex(&self.regex)
+            )))]
         ));
         if invert {
             col = column_like!(~[col]);
diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index 6d36a44..38be489 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -1,5 +1,5 @@
 use crate::commands::cmd_rex::spl::RexCommand;
-use crate::commands::regex_utils::get_groups;
+use crate::commands::regex_utils::{get_groups, to_java_regex};
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use anyhow::ensure;
@@ -20,14 +20,27 @@ impl PipelineTransformer for RexCommand {
             "Rex not yet implemented for multiple matches"
         );
 
-        let regex_groups = get_groups(self.regex.clone())?;
+        ensure!(
+            self.offset_field.is_none(),
+            "Rex not yet implemented with an offset_field"
+        );
+
+        let mut regex_groups: Vec<_> = get_groups(self.regex.clone())?
+            .into_iter()
+            .map(|(group_index, group_name)| {
+                (group_index, group_name.unwrap_or(group_index.to_string()))
+            })
+            .collect();
+        // All groups are taken from the original value of the field, so overwrite it last
+        regex_groups.sort_by_key(|(_, group_name)| *group_name == self.field);
+        let regex = to_java_regex(&self.regex);
 
         for (group_index, group_name) in regex_groups {
             df = df.with_column(
-                group_name.unwrap_or(group_index.to_string()),
+                group_name,
                 column_like!(regexp_extract(
                     [col(self.field.clone())],
-                    [Expr::PyLiteral(PyLiteral(quote_python_regex(&self.regex)))],
+                    [Expr::PyLiteral(PyLiteral(quote_python_regex(&regex)))],
                     [py_lit(group_index as i64)]
                 )),
             );
diff --git a/src/commands/regex_utils.rs b/src/commands/regex_utils.rs
index a725059..708fbcc 100644
--- a/src/commands/regex_utils.rs
+++ b/src/commands/regex_utils.rs
@@ -96,6 +96,57 @@ pub fn get_groups(regex: impl ToString) -> Result<Vec<SimplifiedGroup>> {
     Ok(get_groups_from_ast(regex_ast))
 }
 
+/// Where each named group starts, up to the end of its name, and whether Java accepts it as it is
+fn _visit_named_groups(node: &Ast, openings: &mut Vec<(usize, usize, String)>) {
+    match node {
+        Ast::Repetition(repetition) => _visit_named_groups(&repetition.ast, openings),
+        Ast::Group(group) => {
+            if let GroupKind::CaptureName { name, .. } = &group.kind {
+                openings.push((
+                    group.span.start.offset,
+                    name.span.end.offset + 1,
+                    name.name.clone(),
+                ));
+            }
+            _visit_named_groups(&group.ast, openings);
+        }
+        Ast::Alternation(alternation) => {
+            for ast in &alternation.asts {
+                _visit_named_groups(ast, openings);
+            }
+        }
+        Ast::Concat(concat) => {
+            for ast in &concat.asts {
+                _visit_named_groups(ast, openings);
+            }
+        }
+        _ => {}
+    }
+}
+
+/// Spark uses the regular expressions of Java, where a named group starts with `(?<` and its name
+/// consists of ASCII letters and digits. Other named groups become plain groups, which keeps the
+/// numbers of all groups.
+pub fn to_java_regex(regex: &str) -> String {
+    let Ok(node) = parse::Parser::new().parse(regex) else {
+        return regex.to_string();
+    };
+    let mut openings = vec![];
+    _visit_named_groups(&node, &mut openings);
+    let mut java_regex = regex.to_string();
+    for (start, end, name) in openings.into_iter().rev() {
+        let is_java_name = name.starts_with(|c: char| c.is_ascii_alphabetic())
+            && name.chars().all(|c| c.is_ascii_alphanumeric());
+        let opening = if is_java_name {
+            format!("(?<{}>", name)
+        } else {
+            "(".to_string()
+        };
+        java_regex.replace_range(start..end, &opening);
+    }
+    java_regex
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From fa359aee8656b68976520eee60cdab541e17a740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 51/71] fix: convert refuses unknown conversion functions

---
 src/functions/convert_fns.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/functions/convert_fns.rs b/src/functions/convert_fns.rs
index fbdda4c..36ee514 100644
--- a/src/functions/convert_fns.rs
+++ b/src/functions/convert_fns.rs
@@ -2,7 +2,7 @@ use crate::commands::cmd_convert::spl::{ConvertCommand, FieldConversion};
 use crate::functions::shared::{ctime, memk, rmcomma, rmunit};
 use crate::pyspark::ast::*;
 use crate::spl::ast;
-use log::warn;
+use anyhow::bail;
 /*
 https://docs.splunk.com/Documentation/SplunkCloud/9.2.2406/SearchReference/Convert
 
@@ -55,21 +55,6 @@ pub fn convert_fn(
         "rmunit" => Ok(rmunit(column_like!(col(field_name)))),
         "rmcomma" => Ok(rmcomma(column_like!(col(field_name)))),
 
-        name => {
-            warn!(
-                "Unknown convert function encountered, returning as is: {}",
-                name
-            );
-            Ok(ColumnLike::Aliased {
-                name: name.into(),
-                col: Box::new(
-                    ColumnLike::FunctionCall {
-                        func: name.to_string(),
-                        args: vec![column_like!(col(field_name)).into()],
-                    }
-                    .into(),
-                ),
-            })
-        }
+        name => bail!("Unsupported convert function: {}", name),
     }
 }
-- 
2.43.0


From 80cad35be8c7a540a0a3cfd03a5ef7823a9a346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 52/71] fix: spath translates {N} to an index and refuses paths
 it cannot express

---
 src/commands/cmd_s_path/pyspark.rs | 35 ++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_s_path/pyspark.rs b/src/commands/cmd_s_path/pyspark.rs
index 6346504..ec1d88e 100644
--- a/src/commands/cmd_s_path/pyspark.rs
+++ b/src/commands/cmd_s_path/pyspark.rs
@@ -1,6 +1,35 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use anyhow::ensure;
+
+/// The location path in the notation of Spark: the steps are separated by periods in both, but the
+/// index of an array element is `{0}` in SPL and `[0]` in Spark
+fn json_path(path: &str) -> anyhow::Result<String> {
+    let mut json_path = "$".to_string();
+    for step in path.split('.') {
+        let (name, index) = match step.split_once('{') {
+            None => (step, None),
+            Some((name, index)) => (name, index.strip_suffix('}').or(Some(""))),
+        };
+        ensure!(
+            !name.is_empty() && !name.contains(['[', ']', '*', '}']),
+            "Unsupported location path: {}",
+            path
+        );
+        json_path.push('.');
+        json_path.push_str(name);
+        if let Some(index) = index {
+            ensure!(
+                !index.is_empty() && index.chars().all(|c| c.is_ascii_digit()),
+                "Unsupported index in location path: {}",
+                path
+            );
+            json_path.push_str(&format!("[{}]", index));
+        }
+    }
+    Ok(json_path)
+}
 
 impl PipelineTransformer for SPathCommand {
     fn transform_standalone(
@@ -9,14 +38,12 @@ impl PipelineTransformer for SPathCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        let path = json_path(&self.path)?;
         let output_name = self.output.clone().unwrap_or(self.path.clone());
 
         df = df.with_column(
             output_name,
-            column_like!(get_json_object(
-                [col(self.input.clone())],
-                [py_lit(format!("$.{}", self.path.clone()))]
-            )),
+            column_like!(get_json_object([col(self.input.clone())], [py_lit(path)])),
         );
 
         Ok(state.with_df(df))
-- 
2.43.0


From 45518d9138a20da268472683e7dfb34ea9bb3462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 53/71] fix: tstats and datamodel read the right table in both
 modes, refuse what they cannot express

---
 .../runtime/commands/data_model.py            | 28 +++++++++++++------
 .../spl_transpiler/runtime/commands/tstats.py |  5 ++--
 src/commands/cmd_data_model/pyspark.rs        | 24 ++++++++++++++--
 src/commands/cmd_data_model/spl.rs            |  7 +++--
 src/commands/cmd_t_stats/pyspark.rs           | 16 +++++++++++
 5 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/data_model.py b/python/spl_transpiler/runtime/commands/data_model.py
index 0f1351a..ea423cb 100644
--- a/python/spl_transpiler/runtime/commands/data_model.py
+++ b/python/spl_transpiler/runtime/commands/data_model.py
@@ -9,17 +9,21 @@ from spl_transpiler.runtime.config import settings
 
 @enforce_types
 def data_model(
-    # df: DataFrame | None,
-    data_model_name: str,
+    df: DataFrame | str | None = None,
+    data_model_name: str | None = None,
     dataset_name: str | None = None,
     search_mode: str | None = "search",
     strict_fields: bool | None = None,
     allow_old_summaries: bool | None = None,
     summaries_only: bool | None = None,
 ) -> DataFrame:
-    # if df is not None:
-    #     raise NotImplementedError("Cannot pass input to `data_model`")
-    if search_mode and search_mode != "search":
+    if isinstance(df, str) and data_model_name is None:
+        df, data_model_name = None, df
+    if data_model_name is None:
+        raise ValueError("`data_model` requires the name of a data model")
+    if df is not None:
+        raise NotImplementedError("Cannot pass input to `data_model`")
+    if search_mode != "search":
         raise NotImplementedError(
             "`data_model` command does not support search_mode other than 'search'"
         )
@@ -36,9 +40,15 @@ def data_model(
             "`data_model` `summaries_only` parameter does not have any effect in Pyspark"
         )
 
-    table_name = ".".join(
-        data_model_name.split(".") + (dataset_name or "").split(".")[1:]
-    )
-    df = settings().table_lookup_function(table_name)
+    # The data model may include the root dataset, which the dataset then starts with, too
+    path = data_model_name.split(".")
+    if dataset_name:
+        dataset_path = dataset_name.split(".")
+        if len(path) > 1 and path.pop() != dataset_path[0]:
+            raise ValueError(
+                f"The dataset `{dataset_name}` is not in `{data_model_name}`"
+            )
+        path += dataset_path
+    df = settings().table_lookup_function(data_model=".".join(path))
 
     return df
diff --git a/python/spl_transpiler/runtime/commands/tstats.py b/python/spl_transpiler/runtime/commands/tstats.py
index f8fee94..59053c3 100644
--- a/python/spl_transpiler/runtime/commands/tstats.py
+++ b/python/spl_transpiler/runtime/commands/tstats.py
@@ -24,6 +24,7 @@ class DataModelSpecifier(BaseModel):
 @enforce_types
 def tstats(
     df: DataFrame | None = None,
+    /,
     *,
     fill_null_value=None,
     from_: DataModelSpecifier | None = None,
@@ -32,6 +33,8 @@ def tstats(
     **stat_exprs: StatsFunction,
 ) -> DataFrame:
     match (df, from_):
+        case (None, None):
+            raise ValueError("Either `df` or `from_` must be provided")
         case (None, from_):
             df = data_model(
                 data_model_name=from_.datamodel,
@@ -40,8 +43,6 @@ def tstats(
             )
         case (df, None):
             pass
-        case (None, None):
-            raise ValueError("Either `df` or `from_` must be provided")
         case _:
             raise ValueError("Invalid combination of `df` and `from_`")
 
diff --git a/src/commands/cmd_data_model/pyspark.rs b/src/commands/cmd_data_model/pyspark.rs
index b164f56..0e26070 100644
--- a/src/commands/cmd_data_model/pyspark.rs
+++ b/src/commands/cmd_data_model/pyspark.rs
@@ -11,6 +11,14 @@ impl PipelineTransformer for DataModelCommand {
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
         let df = state.df.clone();
+        ensure!(
+            df.is_none() && self.data_model_name.is_some(),
+            "UNIMPLEMENTED: `datamodel` command requires the name of a data model and no input"
+        );
+        ensure!(
+            self.search_mode == Some("search".to_string()),
+            "UNIMPLEMENTED: `datamodel` command does not support search_mode other than 'search'"
+        );
         let mut kwargs = py_dict! {};
 
         kwargs.push(
@@ -57,8 +65,20 @@ impl PipelineTransformer for DataModelCommand {
                     // data_model = <data_model_name>.<root_dataset_name>
                     // node_name = <root_dataset_name>.<...>.<target_dataset_name>
                     // return <data_model_name>.<root_dataset_name>.<...>.<target_dataset_name>
-                    let truncated_node_name = node_name.split(".").skip(1).collect::<Vec<_>>().join(".");
-                    format!("{}.{}", data_model, truncated_node_name)
+                    // and without a root dataset in its name, return <data_model_name>.<node_name>
+                    let mut path: Vec<_> = data_model.split('.').collect();
+                    let root = if path.len() > 1 { path.pop() } else { None };
+                    let mut node_path: Vec<_> = node_name.split('.').collect();
+                    if let Some(root) = root {
+                        ensure!(
+                            node_path[0] == root,
+                            "The node `{}` is not in the dataset `{}`",
+                            node_name,
+                            data_model
+                        );
+                    }
+                    path.append(&mut node_path);
+                    path.join(".")
                 }
                 _ => bail!("I think we received a dataset ({:?}) with no data model ({:?}) in `datamodel`?", self.dataset_name, self.data_model_name),
             }),
diff --git a/src/commands/cmd_data_model/spl.rs b/src/commands/cmd_data_model/spl.rs
index 19449f7..7f3a0aa 100644
--- a/src/commands/cmd_data_model/spl.rs
+++ b/src/commands/cmd_data_model/spl.rs
@@ -63,7 +63,10 @@ impl TryFrom<ParsedCommandOptions> for DataModelCommandOptions {
 
 fn field_not_keyword(input: &str) -> IResult<&str, ast::Field> {
     verify(field, |v| {
-        !matches!(v.0.as_str(), "search" | "flat" | "acceleration_search")
+        !matches!(
+            v.0.to_ascii_lowercase().as_str(),
+            "search" | "flat" | "acceleration_search"
+        )
     })(input)
 }
 
@@ -86,7 +89,7 @@ impl SplCommand<DataModelCommand> for DataModelParser {
             |(options, data_model_name, dataset_name, search_mode)| DataModelCommand {
                 data_model_name: data_model_name.map(|s| s.0),
                 dataset_name: dataset_name.map(|s| s.0),
-                search_mode: search_mode.map(|s| s.to_string()),
+                search_mode: search_mode.map(|s| s.to_ascii_lowercase()),
                 strict_fields: options.strict_fields,
                 allow_old_summaries: options.allow_old_summaries,
                 summaries_only: options.summaries_only,
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 7c33499..865c721 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -37,6 +37,15 @@ impl PipelineTransformer for TStatsCommand {
             "`tstats` only supports `include_reduced_buckets`=false"
         );
 
+        ensure!(
+            self.by_prefix.is_none(),
+            "UNIMPLEMENTED: `tstats` command does not yet support BY prefix"
+        );
+        ensure!(
+            state.df.is_none() && self.datamodel.is_some(),
+            "No runtime implementation of `tstats` without a data model of its own"
+        );
+
         let mut all_kwargs = py_dict! {};
 
         // Options
@@ -76,6 +85,13 @@ impl PipelineTransformer for TStatsCommand {
 
         for e in self.exprs.iter() {
             let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
+            // A Python call takes each keyword once, and these are parameters of its own
+            ensure!(
+                !["df", "fill_null_value", "from_", "where", "by"].contains(&name.as_str())
+                    && all_kwargs.0.iter().all(|(n, _)| *n != name),
+                "No runtime implementation of `tstats` with a column named `{}` here",
+                name
+            );
             all_kwargs.push(name, e);
         }
 
-- 
2.43.0


From 206c0c107d34c8697b7468b9e0dbea8f68e656f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:20 +0000
Subject: [PATCH 54/71] fix: empty texts, whole numbers beyond 64 bits and
 free-text searches for nothing

---
 src/pyspark/ast.rs             |  7 ++++++-
 src/pyspark/transpiler/expr.rs |  6 +++---
 src/spl/parser.rs              | 28 +++++++++++++++++++++++++++-
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 20fd5b0..e1d4772 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -123,7 +123,12 @@ impl From<i64> for PyLiteral {
 }
 impl From<f64> for PyLiteral {
     fn from(value: f64) -> PyLiteral {
-        PyLiteral(value.to_string())
+        // Spark has no literals for larger whole numbers, so those have to stay floating point
+        if value.abs() < i64::MAX as f64 {
+            PyLiteral(value.to_string())
+        } else {
+            PyLiteral(format!("{:?}", value))
+        }
     }
 }
 impl From<bool> for PyLiteral {
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index e5a2e13..14900a6 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -123,7 +123,7 @@ impl ToSparkExpr for ast::Expr {
             // Double constant -> Double literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Double(ast::DoubleValue(
                 val,
-            )))) => Ok(ColumnLike::literal(val).into()),
+            )))) => Ok(ColumnLike::literal(PyLiteral::from(val).0).into()),
 
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
@@ -260,8 +260,8 @@ impl ColumnLike {
     }
 
     fn _strip_quotes(code: &str) -> &str {
-        let re_double: Regex = Regex::new(r#"^".+"$"#).unwrap();
-        let re_single: Regex = Regex::new(r#"^'.+'$"#).unwrap();
+        let re_double: Regex = Regex::new(r#"^".*"$"#).unwrap();
+        let re_single: Regex = Regex::new(r#"^'.*'$"#).unwrap();
         if re_double.is_match(code) | re_single.is_match(code) {
             &code[1..code.len() - 1]
         } else {
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 353b698..0d1554a 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -454,10 +454,20 @@ fn _double_quoted_content(input: &str) -> IResult<&str, &str> {
 }
 
 pub fn double_quoted(input: &str) -> IResult<&str, &str> {
+    // A text in doubled quotes includes the inner ones, but `"" . ""` and `"", ""` are two empty texts
+    fn is_doubly_quoted_text(quoted: &&str) -> bool {
+        let text = &quoted[1..quoted.len() - 1];
+        let is_text_char = |c: char| c.is_alphanumeric() || c == '*' || c == '_';
+        text.starts_with(is_text_char) && text.ends_with(is_text_char)
+    }
+
     alt((
         delimited(
             tag("\""),
-            recognize(tuple((tag("\""), _double_quoted_content, tag("\"")))),
+            verify(
+                recognize(tuple((tag("\""), _double_quoted_content, tag("\"")))),
+                is_doubly_quoted_text,
+            ),
             tag("\""),
         ),
         delimited(tag("\""), _double_quoted_content, tag("\"")),
@@ -616,6 +626,20 @@ pub fn double(input: &str) -> IResult<&str, ast::DoubleValue> {
     )(input)
 }
 
+/// A whole number outside the range of integers
+pub fn large_int(input: &str) -> IResult<&str, ast::DoubleValue> {
+    map(
+        verify(
+            recognize(pair(opt(alt((tag("+"), tag("-")))), digit1)),
+            |number: &str| {
+                let digits = number.trim_start_matches(['+', '-']);
+                digits.parse::<i64>().is_err()
+            },
+        ),
+        |number: &str| ast::DoubleValue(number.parse::<f64>().unwrap()),
+    )(input)
+}
+
 //   def constant[_: P]: P[Constant] = cidr | wildcard | strValue | variable |
 //       relativeTime | timeSpan | double | int | field | bool
 pub fn literal(input: &str) -> IResult<&str, ast::Constant> {
@@ -631,6 +655,7 @@ pub fn literal(input: &str) -> IResult<&str, ast::Constant> {
         map(all_consuming(relative_time), ast::Constant::SnapTime),
         map(all_consuming(time_span), ast::Constant::TimeSpan),
         map(all_consuming(double), ast::Constant::Double),
+        map(all_consuming(large_int), ast::Constant::Double),
         map(all_consuming(int), ast::Constant::Int),
         map(all_consuming(bool_), ast::Constant::Bool),
         map(all_consuming(string), |s| ast::Constant::Str(s.into())),
@@ -651,6 +676,7 @@ pub fn constant(input: &str) -> IResult<&str, ast::Constant> {
         into(all_consuming(str_value)),
         into(all_consuming(variable)),
         into(all_consuming(double)),
+        into(all_consuming(large_int)),
         into(all_consuming(int)),
         into(all_consuming(field)),
         into(all_consuming(bool_)),
-- 
2.43.0


From 404cdda11a86a03ce79826be40be60c2af244c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:29 +0000
Subject: [PATCH 55/71] fix: control characters in free-text searches

---
 src/pyspark/transpiler/expr.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 14900a6..e8a95a9 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -245,8 +245,10 @@ impl ColumnLike {
                 column_like!([col("_raw")].ilike([py_lit(format!("%{}%", name))]))
             }
             ColumnLike::Literal { code } => {
-                column_like!([col("_raw")]
-                    .ilike([py_lit(format!("%{}%", Self::_strip_quotes(code.as_str())))]))
+                // The code of a literal is escaped already
+                let text = Self::_escape_double_quotes(Self::_strip_quotes(code.as_str()));
+                let pattern = PyLiteral(format!("\"%{}%\"", text));
+                column_like!([col("_raw")].ilike([pattern]))
             }
 
             ColumnLike::UnaryNot { right } => ColumnLike::UnaryNot {
@@ -259,6 +261,22 @@ impl ColumnLike {
         }
     }
 
+    fn _escape_double_quotes(code: &str) -> String {
+        let mut escaped = String::with_capacity(code.len());
+        let mut chars = code.chars();
+        while let Some(c) = chars.next() {
+            match c {
+                '\\' => {
+                    escaped.push(c);
+                    escaped.extend(chars.next());
+                }
+                '"' => escaped.push_str("\\\""),
+                c => escaped.push(c),
+            }
+        }
+        escaped
+    }
+
     fn _strip_quotes(code: &str) -> &str {
         let re_double: Regex = Regex::new(r#"^".*"$"#).unwrap();
         let re_single: Regex = Regex::new(r#"^'.*'$"#).unwrap();
-- 
2.43.0


From 7b3ab06afebe4a4a37b98d2d42de76c5614dd9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 56/71] fix: tstats fillnull_value fills the group-by fields of
 the selected events only

---
 python/spl_transpiler/runtime/commands/tstats.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/tstats.py b/python/spl_transpiler/runtime/commands/tstats.py
index 59053c3..767fc65 100644
--- a/python/spl_transpiler/runtime/commands/tstats.py
+++ b/python/spl_transpiler/runtime/commands/tstats.py
@@ -46,12 +46,18 @@ def tstats(
         case _:
             raise ValueError("Invalid combination of `df` and `from_`")
 
-    if fill_null_value is not None:
-        df = fill_null(df, value=fill_null_value)
-
     if where:
         df = df.where(where.to_pyspark_expr())
 
+    if fill_null_value is not None:
+        # The value only stands for absent group-by fields, the aggregations ignore those
+        by_names = [df.select(e.to_pyspark_expr()).columns[0] for e in by]
+        df = fill_null(
+            df,
+            value=fill_null_value,
+            fields=[name for name in by_names if name in df.columns],
+        )
+
     df = commands.stats(df, by=by, **stat_exprs)
 
     return df
-- 
2.43.0


From 828dde10791a85b4c4c8e069885a4238d993d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:29 +0000
Subject: [PATCH 57/71] fix: makeresults is refused when it is not the first
 command

---
 src/commands/cmd_make_results/pyspark.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index 4b3c6f8..085e898 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -1,5 +1,6 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use anyhow::ensure;
 
 impl PipelineTransformer for super::spl::MakeResultsCommand {
     #[allow(unused_variables, unreachable_code)]
@@ -7,7 +8,10 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
-        // let df = state.df.clone().unwrap_or_default();
+        ensure!(
+            state.df.is_none(),
+            "`makeresults` must be the first command of a search"
+        );
 
         /*
             spark.range(0, 10, 1)
-- 
2.43.0


From 8ce41b111c95a95c156fefa6d1e0977b91b0f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:29 +0000
Subject: [PATCH 58/71] fix: bin refuses aligntime, which it ignored

---
 src/commands/cmd_bin/pyspark.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 53776df..b5caef3 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -20,6 +20,9 @@ impl PipelineTransformer for BinCommand {
                 expr => bail!("Unsupported field to bin: {:?}", expr),
             },
         };
+        if self.align_time.is_some() {
+            bail!("UNIMPLEMENTED: No implementation yet for `aligntime` in `bin`")
+        }
         let Some(ast::TimeSpan { value, scale }) = self.span.clone() else {
             bail!("UNIMPLEMENTED: No implementation yet for `bin` without `span`")
         };
-- 
2.43.0


From 6bd52645efb72a77ad80002de211d3a91cbb1c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:29 +0000
Subject: [PATCH 59/71] fix: unknown command options are refused, booleans are
 read in any case and as 0 or 1

---
 src/commands/spl.rs | 11 ++++++++-
 src/spl/ast.rs      | 54 +++++++++++++++++++++++++++++++--------------
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/commands/spl.rs b/src/commands/spl.rs
index 6a19370..c0f2ee6 100644
--- a/src/commands/spl.rs
+++ b/src/commands/spl.rs
@@ -1,6 +1,7 @@
 use crate::commands::CommandBase;
 use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::{command_options, unwrapped};
+use anyhow::bail;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
 use nom::character::complete::multispace1;
@@ -10,7 +11,15 @@ use nom::{IResult, Parser};
 
 pub trait SplCommandOptions: TryFrom<ParsedCommandOptions, Error = anyhow::Error> {
     fn match_options(input: &str) -> IResult<&str, Self> {
-        unwrapped(map(command_options, |opts| Self::try_from(opts.into()))).parse(input)
+        unwrapped(map(command_options, |opts| {
+            let opts: ParsedCommandOptions = opts.into();
+            let options = Self::try_from(opts.clone())?;
+            match opts.unknown() {
+                Some(name) => bail!("Unknown option: {}", name),
+                None => Ok(options),
+            }
+        }))
+        .parse(input)
     }
 }
 
diff --git a/src/spl/ast.rs b/src/spl/ast.rs
index fe5ee92..b3705b3 100644
--- a/src/spl/ast.rs
+++ b/src/spl/ast.rs
@@ -230,8 +230,10 @@ use crate::commands::cmd_where::spl::WhereCommand;
 use anyhow::anyhow;
 use float_derive::FloatHash;
 use pyo3::prelude::*;
-use std::collections::HashMap;
+use std::cell::RefCell;
+use std::collections::{HashMap, HashSet};
 use std::fmt::Debug;
+use std::rc::Rc;
 
 /// Syntax tree element representing a null literal value.
 #[derive(Debug, PartialEq, Clone, Hash)]
@@ -334,19 +336,25 @@ pub struct CommandOptions {
     pub options: Vec<FC>,
 }
 
+#[derive(Clone)]
 pub struct ParsedCommandOptions {
-    inner: HashMap<String, Constant>,
+    inner: Rc<HashMap<String, Constant>>,
+    /// The names of the options the command knows
+    known: Rc<RefCell<HashSet<String>>>,
 }
 
 impl From<CommandOptions> for ParsedCommandOptions {
     fn from(value: CommandOptions) -> Self {
         Self {
-            inner: value
-                .options
-                .iter()
-                .cloned()
-                .map(|option| (option.field, option.value))
-                .collect(),
+            inner: Rc::new(
+                value
+                    .options
+                    .iter()
+                    .cloned()
+                    .map(|option| (option.field, option.value))
+                    .collect(),
+            ),
+            known: Rc::default(),
         }
     }
 }
@@ -390,8 +398,19 @@ impl From<CommandOptions> for ParsedCommandOptions {
 */
 
 impl ParsedCommandOptions {
+    fn get(&self, key: &str) -> Option<&Constant> {
+        self.known.borrow_mut().insert(key.to_string());
+        self.inner.get(key)
+    }
+
+    /// An option that the command did not ask for, if there is one
+    pub fn unknown(&self) -> Option<&String> {
+        let known = self.known.borrow();
+        self.inner.keys().find(|key| !known.contains(*key))
+    }
+
     pub fn get_int_option(&self, key: &str) -> Result<Option<i64>, anyhow::Error> {
-        match self.inner.get(key) {
+        match self.get(key) {
             Some(Constant::Int(IntValue(value))) => Ok(Some(*value)),
             Some(_) => Err(anyhow!("not an int")),
             None => Ok(None),
@@ -403,7 +422,7 @@ impl ParsedCommandOptions {
     }
 
     pub fn get_string_option(&self, key: &str) -> Result<Option<String>, anyhow::Error> {
-        match self.inner.get(key) {
+        match self.get(key) {
             Some(Constant::Field(Field(value))) => Ok(Some(value.clone())),
             Some(Constant::Str(StrValue(value))) => Ok(Some(value.clone())),
             Some(_) => Err(anyhow!("not a string")),
@@ -417,7 +436,7 @@ impl ParsedCommandOptions {
     }
 
     pub fn get_span_option(&self, key: &str) -> Result<Option<TimeSpan>, anyhow::Error> {
-        match self.inner.get(key) {
+        match self.get(key) {
             Some(Constant::TimeSpan(span)) => Ok(Some(span.clone())),
             Some(_) => Err(anyhow!("not a span")),
             None => Ok(None),
@@ -425,12 +444,15 @@ impl ParsedCommandOptions {
     }
 
     pub fn get_boolean(&self, key: &str, default: bool) -> Result<bool, anyhow::Error> {
-        match self.inner.get(key) {
+        match self.get(key) {
             Some(Constant::Bool(BoolValue(value))) => Ok(*value),
-            Some(Constant::Field(Field(v))) if v == "true" => Ok(true),
-            Some(Constant::Field(Field(v))) if v == "t" => Ok(true),
-            Some(Constant::Field(Field(v))) if v == "false" => Ok(false),
-            Some(Constant::Field(Field(v))) if v == "f" => Ok(false),
+            Some(Constant::Int(IntValue(1))) => Ok(true),
+            Some(Constant::Int(IntValue(0))) => Ok(false),
+            Some(Constant::Field(Field(v))) => match v.to_ascii_lowercase().as_str() {
+                "true" | "t" => Ok(true),
+                "false" | "f" => Ok(false),
+                _ => Err(anyhow!("not a bool")),
+            },
             Some(_) => Err(anyhow!("not a bool")),
             None => Ok(default),
         }
-- 
2.43.0


From bce50282f8e8ec73094d3be878dfbfa51692b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:02 +0000
Subject: [PATCH 60/71] fix: bin refuses unknown options, too

---
 src/commands/cmd_bin/spl.rs |  3 +--
 src/commands/spl.rs         | 21 +++++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/commands/cmd_bin/spl.rs b/src/commands/cmd_bin/spl.rs
index 3a2a98d..1b2cd4d 100644
--- a/src/commands/cmd_bin/spl.rs
+++ b/src/commands/cmd_bin/spl.rs
@@ -83,8 +83,7 @@ impl SplCommand<BinCommand> for BinParser {
                 )),
                 |(mut options, field, more)| {
                     options.options.extend(more.options);
-                    BinCommandOptions::try_from(ParsedCommandOptions::from(options))
-                        .map(|options| (options, field))
+                    BinCommandOptions::from_options(options).map(|options| (options, field))
                 },
             )),
             |(options, field): (BinCommandOptions, FieldOrAlias)| BinCommand {
diff --git a/src/commands/spl.rs b/src/commands/spl.rs
index c0f2ee6..8b7906c 100644
--- a/src/commands/spl.rs
+++ b/src/commands/spl.rs
@@ -1,5 +1,5 @@
 use crate::commands::CommandBase;
-use crate::spl::ast::ParsedCommandOptions;
+use crate::spl::ast::{CommandOptions, ParsedCommandOptions};
 use crate::spl::parser::{command_options, unwrapped};
 use anyhow::bail;
 use nom::branch::alt;
@@ -11,15 +11,16 @@ use nom::{IResult, Parser};
 
 pub trait SplCommandOptions: TryFrom<ParsedCommandOptions, Error = anyhow::Error> {
     fn match_options(input: &str) -> IResult<&str, Self> {
-        unwrapped(map(command_options, |opts| {
-            let opts: ParsedCommandOptions = opts.into();
-            let options = Self::try_from(opts.clone())?;
-            match opts.unknown() {
-                Some(name) => bail!("Unknown option: {}", name),
-                None => Ok(options),
-            }
-        }))
-        .parse(input)
+        unwrapped(map(command_options, Self::from_options)).parse(input)
+    }
+
+    fn from_options(options: CommandOptions) -> anyhow::Result<Self> {
+        let parsed: ParsedCommandOptions = options.into();
+        let options = Self::try_from(parsed.clone())?;
+        match parsed.unknown() {
+            Some(name) => bail!("Unknown option: {}", name),
+            None => Ok(options),
+        }
     }
 }
 
-- 
2.43.0


From dcd8b216fe625f02db19645bd4e741884853662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:28 +0000
Subject: [PATCH 61/71] fix: the by fields of stats can be read from Python,
 every node class is in the ast module

---
 src/commands/mod.rs         | 2 +-
 src/commands/stats_utils.rs | 6 +++++-
 src/spl/python.rs           | 7 +++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/commands/mod.rs b/src/commands/mod.rs
index f1dc20b..6acccdd 100644
--- a/src/commands/mod.rs
+++ b/src/commands/mod.rs
@@ -150,7 +150,7 @@ xpath            	 Redefines the XML path.
 xyseries         	 Converts results into a format suitable for graphing.
  */
 pub mod spl;
-mod stats_utils;
+pub mod stats_utils;
 
 use const_str::replace;
 use paste::paste;
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 99bd74d..5d4f5bc 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -5,6 +5,7 @@ use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
 use crate::spl::ast::{Field, TimeSpan};
 use crate::spl::parser::{comma_or_space_separated_list1, field, time_span, ws};
+use crate::spl::python::impl_pyclass;
 use anyhow::{bail, ensure};
 use nom::branch::alt;
 use nom::bytes::complete::tag_no_case;
@@ -13,7 +14,7 @@ use nom::combinator::map;
 use nom::sequence::{preceded, separated_pair};
 use nom::IResult;
 use nom::Parser;
-use pyo3::pyclass;
+use pyo3::prelude::*;
 
 pub fn transform_by_field(f: MaybeSpannedField) -> anyhow::Result<ColumnOrName> {
     Ok(match f.clone() {
@@ -74,9 +75,12 @@ pub fn transform_stats_runtime_expr(
 #[derive(Debug, PartialEq, Clone, Hash)]
 #[pyclass(frozen, eq, hash)]
 pub struct MaybeSpannedField {
+    #[pyo3(get)]
     pub field: Field,
+    #[pyo3(get)]
     pub span: Option<TimeSpan>,
 }
+impl_pyclass!(MaybeSpannedField { field: Field, span: Option<TimeSpan> });
 
 impl From<Field> for MaybeSpannedField {
     fn from(field: Field) -> Self {
diff --git a/src/spl/python.rs b/src/spl/python.rs
index d3767f6..d256692 100644
--- a/src/spl/python.rs
+++ b/src/spl/python.rs
@@ -192,6 +192,13 @@ pub fn ast(m: &Bound<'_, PyModule>) -> PyResult<()> {
     m.add_class::<crate::commands::cmd_bin::spl::BinCommand>()?;
     m.add_class::<crate::commands::cmd_multi_search::spl::MultiSearchCommand>()?;
     m.add_class::<crate::commands::cmd_map::spl::MapCommand>()?;
+    m.add_class::<crate::commands::cmd_tail::spl::TailCommand>()?;
+    m.add_class::<crate::commands::cmd_top::spl::TopCommand>()?;
+    m.add_class::<crate::commands::cmd_rare::spl::RareCommand>()?;
+    m.add_class::<crate::commands::cmd_s_path::spl::SPathCommand>()?;
+    m.add_class::<crate::commands::cmd_t_stats::spl::TStatsCommand>()?;
+    m.add_class::<crate::commands::cmd_data_model::spl::DataModelCommand>()?;
+    m.add_class::<crate::commands::stats_utils::MaybeSpannedField>()?;
     m.add_class::<ast::Pipeline>()?;
 
     m.add_class::<ast::Constant>()?;
-- 
2.43.0


From 1afcb3314c6eed052a0d664d98e5d80fb8196911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:11 +0000
Subject: [PATCH 62/71] fix: spaces around the equals sign of options are
 accepted everywhere

---
 src/commands/cmd_fill_null/spl.rs |  5 ++---
 src/commands/cmd_head/spl.rs      |  9 ++++-----
 src/commands/cmd_s_path/spl.rs    |  9 ++++-----
 src/commands/cmd_sort/spl.rs      |  4 ++--
 src/commands/cmd_t_stats/spl.rs   | 11 +++++++----
 src/commands/stats_utils.rs       |  5 ++---
 src/spl/parser.rs                 |  5 +++++
 7 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/commands/cmd_fill_null/spl.rs b/src/commands/cmd_fill_null/spl.rs
index 1fca975..d627ed6 100644
--- a/src/commands/cmd_fill_null/spl.rs
+++ b/src/commands/cmd_fill_null/spl.rs
@@ -1,9 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
-use crate::spl::parser::{double_quoted, field, token, ws};
+use crate::spl::parser::{double_quoted, field, option_name, token, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::{into, map, opt};
 use nom::multi::many1;
 use nom::sequence::{preceded, tuple};
@@ -49,7 +48,7 @@ impl SplCommand<FillNullCommand> for FillNullParser {
     fn parse_body(input: &str) -> IResult<&str, FillNullCommand> {
         map(
             tuple((
-                opt(preceded(tag("value="), alt((double_quoted, token)))),
+                opt(preceded(option_name("value"), alt((double_quoted, token)))),
                 opt(many1(into(ws(field)))),
             )),
             |(maybe_value, fields)| FillNullCommand {
diff --git a/src/commands/cmd_head/spl.rs b/src/commands/cmd_head/spl.rs
index 15677a9..c1a1ec2 100644
--- a/src/commands/cmd_head/spl.rs
+++ b/src/commands/cmd_head/spl.rs
@@ -1,9 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{self, BoolValue, Expr, ParsedCommandOptions};
-use crate::spl::parser::{bool_, expr, int, ws};
+use crate::spl::parser::{bool_, expr, int, option_name, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
 use nom::character::complete::one_of;
 use nom::combinator::{map, not, opt, success};
 use nom::sequence::{preceded, terminated, tuple};
@@ -59,7 +58,7 @@ impl SplCommand<HeadCommand> for HeadParser {
             tuple((
                 ws(alt((
                     terminated(
-                        map(alt((int, preceded(ws(tag_no_case("limit=")), int))), |v| {
+                        map(alt((int, preceded(option_name("limit"), int))), |v| {
                             v.into()
                         }),
                         // Otherwise it is the left side of a comparison
@@ -68,8 +67,8 @@ impl SplCommand<HeadCommand> for HeadParser {
                     expr,
                     map(success(10), |n: i64| ast::IntValue(n).into()),
                 ))),
-                ws(opt(preceded(ws(tag_no_case("keeplast=")), bool_))),
-                ws(opt(preceded(ws(tag_no_case("null=")), bool_))),
+                ws(opt(preceded(option_name("keeplast"), bool_))),
+                ws(opt(preceded(option_name("null"), bool_))),
             )),
             |(limit_or_expr, keep_last_opt, null_opt)| HeadCommand {
                 eval_expr: limit_or_expr,
diff --git a/src/commands/cmd_s_path/spl.rs b/src/commands/cmd_s_path/spl.rs
index c208294..158e7ac 100644
--- a/src/commands/cmd_s_path/spl.rs
+++ b/src/commands/cmd_s_path/spl.rs
@@ -1,8 +1,7 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::ParsedCommandOptions;
-use crate::spl::parser::{field, string, ws};
+use crate::spl::parser::{field, option_name, string, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -66,9 +65,9 @@ impl SplCommand<SPathCommand> for SPathParser {
         map(
             tuple((
                 // Self::Options::match_options,
-                opt(ws(preceded(tag_no_case("input="), field))),
-                opt(ws(preceded(tag_no_case("output="), field))),
-                ws(preceded(opt(tag_no_case("path=")), string)),
+                opt(ws(preceded(option_name("input"), field))),
+                opt(ws(preceded(option_name("output"), field))),
+                ws(preceded(opt(option_name("path")), string)),
             )),
             |(input, output, path)| SPathCommand {
                 path: path.into(),
diff --git a/src/commands/cmd_sort/spl.rs b/src/commands/cmd_sort/spl.rs
index 01f362c..c70d297 100644
--- a/src/commands/cmd_sort/spl.rs
+++ b/src/commands/cmd_sort/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, ParsedCommandOptions};
-use crate::spl::parser::{comma_separated_list1, expr, int, ws};
+use crate::spl::parser::{comma_separated_list1, expr, int, option_name, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
@@ -64,7 +64,7 @@ impl SplCommand<SortCommand> for SortParser {
     fn parse_body(input: &str) -> IResult<&str, SortCommand> {
         map(
             tuple((
-                opt(preceded(opt(ws(tag_no_case("limit="))), ws(int))),
+                opt(preceded(opt(option_name("limit")), ws(int))),
                 comma_separated_list1(pair(
                     opt(map(ws(alt((tag("+"), tag("-")))), String::from)),
                     expr,
diff --git a/src/commands/cmd_t_stats/spl.rs b/src/commands/cmd_t_stats/spl.rs
index 722bf4c..dd5624d 100644
--- a/src/commands/cmd_t_stats/spl.rs
+++ b/src/commands/cmd_t_stats/spl.rs
@@ -2,7 +2,10 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::commands::stats_utils;
 use crate::commands::stats_utils::maybe_spanned_field_list1;
 use crate::spl::ast::{Call, Expr, Field, ParsedCommandOptions};
-use crate::spl::parser::{field, field_in, logical_expression, space_separated_list1, token, ws};
+use crate::spl::parser::{
+    field, field_in, logical_expression, option_name, parenthesized, space_separated_list1, token,
+    ws,
+};
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
@@ -132,13 +135,13 @@ fn _parse_from_datamodel(input: &str) -> IResult<&str, (String, Option<String>)>
         ws(tag_no_case("from")),
         tuple((
             ws(preceded(
-                ws(tag_no_case("datamodel=")),
+                option_name("datamodel"),
                 into(recognize(separated_list1(tag("."), token))),
             )),
             opt(ws(preceded(
                 ws(tag_no_case("where")),
                 ws(preceded(
-                    tag_no_case("nodename="),
+                    option_name("nodename"),
                     into(recognize(separated_list1(tag("."), token))),
                 )),
             ))),
@@ -204,7 +207,7 @@ fn _stats_function_call(input: &str) -> IResult<&str, Call> {
         pair(
             token,
             // TODO: Support PREFIX(field)
-            delimited(tag("("), field, tag(")")),
+            parenthesized(field),
         ),
         |(func, field)| Call {
             name: func.into(),
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 5d4f5bc..406a605 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -4,11 +4,10 @@ use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
 use crate::spl::ast::{Field, TimeSpan};
-use crate::spl::parser::{comma_or_space_separated_list1, field, time_span, ws};
+use crate::spl::parser::{comma_or_space_separated_list1, field, option_name, time_span};
 use crate::spl::python::impl_pyclass;
 use anyhow::{bail, ensure};
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
 use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, separated_pair};
@@ -94,7 +93,7 @@ pub fn maybe_spanned_field(input: &str) -> IResult<&str, MaybeSpannedField> {
             separated_pair(
                 field,
                 multispace1,
-                preceded(ws(tag_no_case("span=")), time_span),
+                preceded(option_name("span"), time_span),
             ),
             |(field, span)| MaybeSpannedField {
                 field,
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 0d1554a..2a055dc 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -684,6 +684,11 @@ pub fn constant(input: &str) -> IResult<&str, ast::Constant> {
     Ok((remaining, parsed_value))
 }
 
+/// The name of an option and its equals sign, which may stand between spaces
+pub fn option_name<'a>(name: &'static str) -> impl FnMut(&'a str) -> IResult<&'a str, ()> {
+    move |input| map(pair(ws(tag_no_case(name)), ws(tag("="))), |_| ()).parse(input)
+}
+
 //   def fieldAndValue[_: P]: P[FV] = (
 //       token ~ "=" ~ (doubleQuoted|token)) map { case (k, v) => FV(k, v) }
 pub fn field_and_value(input: &str) -> IResult<&str, ast::FV> {
-- 
2.43.0


From c969b3eeb7eda7d50b42d4f44ee0c257c8759d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:47 +0000
Subject: [PATCH 63/71] fix: limits and indexes at the end of the range of
 integers do not overflow

---
 src/commands/cmd_head/pyspark.rs | 8 ++++----
 src/functions/eval_fns.rs        | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/commands/cmd_head/pyspark.rs b/src/commands/cmd_head/pyspark.rs
index b3d8aa7..b0b22ef 100644
--- a/src/commands/cmd_head/pyspark.rs
+++ b/src/commands/cmd_head/pyspark.rs
@@ -32,16 +32,16 @@ impl PipelineTransformer for HeadCommand {
                 };
                 let limit = match (was_left, symbol.as_str()) {
                     (true, "<") => limit_value,
-                    (true, "<=") => limit_value + 1,
+                    (true, "<=") => limit_value.saturating_add(1),
                     (false, ">") => limit_value,
-                    (false, ">=") => limit_value + 1,
+                    (false, ">=") => limit_value.saturating_add(1),
                     _ => bail!(
                         "Unsupported `count` comparison ({}, {}) for head command",
                         was_left,
                         symbol
                     ),
-                } + if self.keep_last.0 { 1 } else { 0 };
-                limit
+                };
+                limit.saturating_add(if self.keep_last.0 { 1 } else { 0 })
             }
             _ => bail!(
                 "Limit for head command must be an integer (or equivalent `count<N` expression)"
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 651fa30..97d5f05 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -614,8 +614,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                 Some(end) => {
                     let end: i64 = map_arg(end) ?;
                     ensure!((start < 0) == (end < 0), "UNIMPLEMENTED: `mvindex` range from {} to {}", start, end);
-                    let first = if start < 0 { start } else { start + 1 };
-                    column_like!(slice([x], [py_lit(first)], [py_lit((end - start + 1).max(0))]))
+                    let first = if start < 0 { start } else { start.saturating_add(1) };
+                    let length = end.saturating_sub(start).saturating_add(1).max(0);
+                    column_like!(slice([x], [py_lit(first)], [py_lit(length)]))
                 },
             }
         }),
-- 
2.43.0


From 9198c0444af4675e63f20ea26d8c8221c2b28d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:39 +0000
Subject: [PATCH 64/71] fix: log with a base does not pass a column where
 PySpark wants a number

---
 src/functions/eval_fns.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 97d5f05..831fac5 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -553,7 +553,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!(log([base], [x])) }),
+        "log" => {
+            function_transform!(log [args] (x, base) { column_like!([column_like!(log([x]))] / [column_like!(log([base]))]) })
+        }
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
-- 
2.43.0


From f051f5634fb5baffa8bf2c5460643c4774608101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:39 +0000
Subject: [PATCH 65/71] fix: arithmetic and shifts of integers written in the
 query are not confined to 32 bits

---
 src/functions/eval_fns.rs      |  4 ++--
 src/pyspark/transpiler/expr.rs | 28 ++++++++++++++++++++++------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 831fac5..608771f 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -291,11 +291,11 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // bit_shift_left(<value>, <shift_offset>)             	 Logical left shift function that takes two non-negative integers as arguments and shifts the binary representation of the first integer over to the left by the specified shift amount.
         "bit_shift_left" => {
-            function_transform!(bit_not [args] (x, offset: i64) { column_like!(shiftleft([x], [py_lit(offset)])) })
+            function_transform!(bit_not [args] (x, offset: i64) { column_like!(shiftleft([x.widened()], [py_lit(offset)])) })
         }
         // bit_shift_right(<value>, <shift_offset>)            	 Logical right shift function that takes two non-negative integers as arguments and shifts the binary representation of the first integer over to the right by the specified shift amount.
         "bit_shift_right" => {
-            function_transform!(bit_not [args] (x, offset: i64) { column_like!(shiftright([x], [py_lit(offset)])) })
+            function_transform!(bit_not [args] (x, offset: i64) { column_like!(shiftright([x.widened()], [py_lit(offset)])) })
         }
 
         // Comparison and Conditional functions
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index e8a95a9..cb5e963 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -97,12 +97,15 @@ impl ToSparkExpr for ast::Expr {
                     Ok(column_like!(concat([left.unaliased()], [right.unaliased()])).into())
                 }
                 // a [op] b -> a [op] b
-                (left, op, right) => Ok(ColumnLike::try_binary_op(
-                    left.with_context(ctx),
-                    op,
-                    right.with_context(ctx),
-                )?
-                .into()),
+                (left, op, right) => {
+                    let mut left: Expr = left.with_context(ctx).try_into()?;
+                    let right: Expr = right.with_context(ctx).try_into()?;
+                    // The result for two 32-bit literals needs more than 32 bits
+                    if matches!(op, "+" | "-" | "*") && right.is_int_literal() {
+                        left = left.widened();
+                    }
+                    Ok(ColumnLike::try_binary_op(left, op, right)?.into())
+                }
             },
 
             // Unary operation -> Unary op
@@ -224,6 +227,19 @@ impl ToSparkExpr for ast::Expr {
 }
 
 impl Expr {
+    /// Whether this is an integer written in the query, which Spark keeps in 32 bits if it fits
+    pub fn is_int_literal(&self) -> bool {
+        matches!(self, Expr::Column(ColumnLike::Literal { code }) if code.parse::<i64>().is_ok())
+    }
+
+    /// An integer written in the query as a 64-bit value, any other expression as it is
+    pub fn widened(self) -> Self {
+        match self.is_int_literal() {
+            true => column_like!([self].cast([py_lit("bigint")])).into(),
+            false => self,
+        }
+    }
+
     fn _into_search_expr(self) -> Self {
         match self {
             Expr::Column(ref c) => c.clone().into_search_expr().into(),
-- 
2.43.0


From b384c7b7a674871b2ace0192c9c0dfc446a40b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:05 +0000
Subject: [PATCH 66/71] fix: threads that convert at once could see black
 half-imported and return plain code

---
 src/format_python.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/format_python.rs b/src/format_python.rs
index 243b06b..d28d4e0 100644
--- a/src/format_python.rs
+++ b/src/format_python.rs
@@ -4,6 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::IntoPyDict;
 use std::error::Error;
 use std::fmt::{Debug, Display, Formatter};
+use std::sync::Once;
 
 #[derive(Debug, Clone)]
 struct BlackNotInstalled();
@@ -19,12 +20,26 @@ impl Display for BlackNotInstalled {
 
 impl Error for BlackNotInstalled {}
 
+/// A compiled `black` can be seen half-imported by other threads, so only one thread imports it.
+static IMPORT_BLACK: Once = Once::new();
+
+fn import_black(py: Python<'_>) -> PyResult<Bound<'_, PyModule>> {
+    if !IMPORT_BLACK.is_completed() {
+        py.allow_threads(|| {
+            IMPORT_BLACK.call_once(|| {
+                let _ = Python::with_gil(|py| PyModule::import_bound(py, "black").map(|_| ()));
+            })
+        });
+    }
+    PyModule::import_bound(py, "black")
+}
+
 pub fn format_python_code(code: impl ToString) -> Result<String> {
     // TODO: When ruff format is available on cargo, use that instead of an embedded Python interpeter
     // from black import format_str, FileMode
     // res = format_str("some python code", mode=FileMode())
     let result: Result<String> = Python::with_gil(|py| {
-        let black = PyModule::import_bound(py, "black").map_err(|_| BlackNotInstalled())?;
+        let black = import_black(py).map_err(|_| BlackNotInstalled())?;
         let mode = black.getattr("FileMode")?.call0()?;
         let args = (code.to_string(),);
         let kwargs = [("mode", mode)].into_py_dict_bound(py);
-- 
2.43.0


From e5d873d1b04788c445335c91ef1214633d2b73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:03 +0000
Subject: [PATCH 67/71] fix: dedup_splitvals of stats is read as the option it
 is, not as a field or function

---
 src/commands/stats_utils.rs | 12 ++++++++----
 src/spl/parser.rs           |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 406a605..2ce7b60 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -4,13 +4,14 @@ use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
 use crate::spl::ast::{Field, TimeSpan};
-use crate::spl::parser::{comma_or_space_separated_list1, field, option_name, time_span};
+use crate::spl::parser::{comma_or_space_separated_list1, field, option_name, time_span, ws};
 use crate::spl::python::impl_pyclass;
 use anyhow::{bail, ensure};
 use nom::branch::alt;
+use nom::bytes::complete::tag;
 use nom::character::complete::multispace1;
-use nom::combinator::map;
-use nom::sequence::{preceded, separated_pair};
+use nom::combinator::{map, not};
+use nom::sequence::{preceded, separated_pair, terminated};
 use nom::IResult;
 use nom::Parser;
 use pyo3::prelude::*;
@@ -100,7 +101,10 @@ pub fn maybe_spanned_field(input: &str) -> IResult<&str, MaybeSpannedField> {
                 span: Some(span),
             },
         ),
-        map(field, |field| MaybeSpannedField { field, span: None }),
+        // a name with an equals sign after it is an option of the command
+        map(terminated(field, not(ws(tag("=")))), |field| {
+            MaybeSpannedField { field, span: None }
+        }),
     ))(input)
 }
 
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 2a055dc..2b5fea4 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1285,7 +1285,11 @@ pub fn stats_call(input: &str) -> IResult<&str, Vec<ast::Expr>> {
             },
         ),
         map(
-            verify(token, |v: &str| v.to_ascii_lowercase() != "by"),
+            // a name with an equals sign after it is an option of the command
+            terminated(
+                verify(token, |v: &str| v.to_ascii_lowercase() != "by"),
+                not(ws(tag("="))),
+            ),
             |v| {
                 ast::Call {
                     name: v.into(),
-- 
2.43.0


From d9e09c6889d84e8aa9ffe4aa02f721614399e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 68/71] fix: functions of the runtime library called from
 Python pass literals, positions and replacements as Spark takes them

---
 .../spl_transpiler/runtime/functions/eval.py  | 46 ++++++++++++-------
 .../spl_transpiler/runtime/functions/utils.py | 11 +++++
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 67a4899..9d714a1 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1,3 +1,4 @@
+import re
 import warnings
 from functools import reduce
 
@@ -57,7 +58,7 @@ def bit_xor(a: Expr, b: Expr) -> Expr:
 
 @enforce_types
 def bit_shift_left(x: Expr, offset: int) -> Expr:
-    return F.shiftleft(x.to_pyspark_expr(), offset)
+    return F.shiftleft(x.to_pyspark_expr().cast("bigint"), offset)
 
 
 #         // bit_shift_right(<value>, <shift_offset>)            	 Logical right shift function that takes two non-negative integers as arguments and shifts the binary representation of the first integer over to the right by the specified shift amount.
@@ -68,7 +69,7 @@ def bit_shift_left(x: Expr, offset: int) -> Expr:
 
 @enforce_types
 def bit_shift_right(x: Expr, offset: int) -> Expr:
-    return F.shiftright(x.to_pyspark_expr(), offset)
+    return F.shiftright(x.to_pyspark_expr().cast("bigint"), offset)
 
 
 #
@@ -286,7 +287,7 @@ def ipmask(mask: Expr, ip: Expr) -> Expr:
 @enforce_types
 def printf(format_str: Expr, *args: Expr) -> Expr:
     return udfs.printf(
-        format_str.to_pyspark_expr(), [arg.to_pyspark_expr() for arg in args]
+        format_str.to_pyspark_expr(), *(arg.to_pyspark_expr() for arg in args)
     )
 
 
@@ -299,7 +300,9 @@ def printf(format_str: Expr, *args: Expr) -> Expr:
 
 @enforce_types
 def tonumber(value: Expr, base: int = 10) -> Expr:
-    return udfs.tonumber(value.to_pyspark_expr(), base=base)
+    if base == 10:
+        return value.to_pyspark_expr().cast("double")
+    return udfs.tonumber(value.to_pyspark_expr(), F.lit(base))
 
 
 #         // tostring(<value>,<format>)                          	 Converts the input, such as a number or a Boolean value, to a string.
@@ -310,8 +313,10 @@ def tonumber(value: Expr, base: int = 10) -> Expr:
 
 
 @enforce_types
-def tostring(value, format=None):
-    return udfs.tostring(value.to_pyspark_expr(), format=format)
+def tostring(value: Expr, format: str | None = None) -> Expr:
+    if format is None:
+        return value.to_pyspark_expr().cast("string")
+    return udfs.tostring(value.to_pyspark_expr(), F.lit(format))
 
 
 #
@@ -708,7 +713,7 @@ def ln(num: Expr) -> Expr:
 
 @enforce_types
 def log(num: Expr, base: int = 10) -> Expr:
-    return F.log(num.to_pyspark_expr(), base)
+    return F.log(float(base), num.to_pyspark_expr())
 
 
 #         // pi()                                                	 Returns the constant pi to 11 digits of precision.
@@ -786,7 +791,7 @@ def commands(value: Expr) -> Expr:
 
 
 @enforce_types
-def mvappend(values: Expr) -> Expr:
+def mvappend(*values: Expr) -> Expr:
     return F.concat(*[v.to_pyspark_expr() for v in values])
 
 
@@ -850,8 +855,13 @@ def mvfind(column: Expr, regex: Expr) -> Expr:
 def mvindex(column: Expr, start: int, end: int | None = None) -> Expr:
     if end is None:
         return F.get(column.to_pyspark_expr(), start)
-    else:
-        return F.slice(column.to_pyspark_expr(), start + 1, end - start + 1)
+    if (start < 0) != (end < 0):
+        raise NotImplementedError(f"`mvindex` range from {start} to {end}")
+    return F.slice(
+        column.to_pyspark_expr(),
+        start if start < 0 else start + 1,
+        max(end - start + 1, 0),
+    )
 
 
 #         // mvjoin(<mv>,<delim>)                                	 Takes all of the values in a multivalue field and appends the values together using a delimiter.
@@ -920,7 +930,9 @@ def mvsort(column: Expr) -> Expr:
 @enforce_types
 def mvzip(left: Expr, right: Expr, delimiter: str = ",") -> Expr:
     return F.zip_with(
-        left, right, lambda left_, right_: F.concat_ws(delimiter, left_, right_)
+        left.to_pyspark_expr(),
+        right.to_pyspark_expr(),
+        lambda left_, right_: F.concat_ws(delimiter, left_, right_),
     )
 
 
@@ -943,7 +955,7 @@ def mv_to_json_array(column: Expr, invert_types: bool = False) -> Expr:
 
 @enforce_types
 def split(column: Expr, delimiter: str) -> Expr:
-    return F.split(column.to_pyspark_expr(), delimiter)
+    return F.split(column.to_pyspark_expr(), re.escape(delimiter))
 
 
 #
@@ -1054,7 +1066,7 @@ def lower(x: Expr):
 
 @enforce_types
 def ltrim(x: Expr, chars: str):
-    return F.ltrim(x.to_pyspark_expr(), chars)
+    return F.ltrim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
@@ -1067,7 +1079,9 @@ def ltrim(x: Expr, chars: str):
 
 @enforce_types
 def replace(input: Expr, regex: str, replacement: str):
-    return F.regexp_replace(input.to_pyspark_expr(), regex, replacement)
+    return F.regexp_replace(
+        input.to_pyspark_expr(), regex, utils.spark_replacement(replacement)
+    )
 
 
 #         // rtrim(<str>,<trim_chars>)                           	 Removes the trim characters from the right side of the string.
@@ -1078,7 +1092,7 @@ def replace(input: Expr, regex: str, replacement: str):
 
 @enforce_types
 def rtrim(x: Expr, chars: str):
-    return F.rtrim(x.to_pyspark_expr(), chars)
+    return F.rtrim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // spath(<value>,<path>)                               	 Extracts information from the structured data formats XML and JSON.
@@ -1109,7 +1123,7 @@ def substr(column: Expr, start: int, length: int):
 
 @enforce_types
 def trim(x: Expr, chars: str):
-    return F.trim(x.to_pyspark_expr(), chars)
+    return F.trim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // upper(<str>)                                        	 Returns the string in uppercase.
diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index 2ca4e12..d6180bc 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -3,6 +3,8 @@
 #     let time_col: Expr = time_col.into();
 #     column_like!([time_col] + [expr("INTERVAL {} {}", value, scale.to_ascii_uppercase())])
 # }
+import re
+
 from spl_transpiler.runtime.base import enforce_types, TimeSpan, TimeScale, Expr
 from pyspark.sql import functions as F
 
@@ -33,6 +35,15 @@ def round_time(time_col, scale: TimeScale) -> Expr:
     return F.date_trunc(round_to, time_col)
 
 
+def spark_replacement(replacement: str) -> str:
+    r"""Translate a replacement with groups written as \1 to one with groups written as $1"""
+    return re.sub(
+        r"\\([0-9])|([\\$])",
+        lambda m: f"${m[1]}" if m[1] else f"\\{m[2]}",
+        replacement,
+    )
+
+
 CONVERSIONS = {
     "%c": None,
     "%+": None,
-- 
2.43.0


From 75d70e922df64e9741c85a03f276689d950c6881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 69/71] fix: tostring, tonumber, printf and ipmask of the
 runtime library work on columns

---
 .../spl_transpiler/runtime/udfs/__init__.py   | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 19924ee..d7d38f1 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -1,5 +1,5 @@
 from pyspark.sql.functions import udf
-from pyspark.sql.types import BooleanType, StringType, IntegerType
+from pyspark.sql.types import BooleanType, StringType, LongType
 import ipaddress
 
 
@@ -22,25 +22,22 @@ def cidr_match(cidr_range, ip_address):
 @udf(returnType=StringType())
 def ipmask(mask, ip):
     try:
-        # Convert mask to integer
-        mask_int = int(mask)
-
-        # Create an IPv4Network object
-        network = ipaddress.IPv4Network(f"{ip}/{mask_int}", strict=False)
-
-        # Return the network address (masked IP)
-        return str(network.network_address)
+        # Keep the bits of the address that are set in the mask
+        masked = int(ipaddress.IPv4Address(ip)) & int(ipaddress.IPv4Address(mask))
+        return str(ipaddress.IPv4Address(masked))
     except ValueError:
         # Return None if there's an error (invalid IP or mask)
         return None
 
 
 @udf(returnType=StringType())
-def printf(format_str, args):
+def printf(format_str, *args):
+    if format_str is None or None in args:
+        return None
     return format_str % args
 
 
-@udf(returnType=IntegerType())
+@udf(returnType=LongType())
 def tonumber(value, base=10):
     try:
         return int(value, base)
@@ -52,6 +49,8 @@ def tonumber(value, base=10):
 def tostring(value, format: str | None = None):
     # "binary", "hex", "commas", "duration"
     match (value, format):
+        case (None, _):
+            return None
         case (bool(), None):
             return "True" if value else "False"
         case (int() | float(), None):
@@ -59,9 +58,11 @@ def tostring(value, format: str | None = None):
         case (int(), "binary"):
             return bin(value)[2:]
         case (int(), "hex"):
-            return hex(value)[2:]
-        case (int() | float(), "commas"):
-            return "{:,}".format(value)
+            return f"0x{value:X}"
+        case (int(), "commas"):
+            return f"{value:,}"
+        case (float(), "commas"):
+            return f"{value:,.2f}"
         case (int(), "duration"):
             hours, remainder = divmod(value, 3600)
             minutes, seconds = divmod(remainder, 60)
-- 
2.43.0


From 59df9ad475ee342b0a4a840f16791a28ed635166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 70/71] fix: the live translator shows texts in brackets as
 they are, and the members of tuples

---
 python/spl_transpiler/live_translator.py | 29 ++++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/python/spl_transpiler/live_translator.py b/python/spl_transpiler/live_translator.py
index ee6a984..c9216ed 100644
--- a/python/spl_transpiler/live_translator.py
+++ b/python/spl_transpiler/live_translator.py
@@ -2,6 +2,7 @@ import logging
 
 import pyperclip
 from rich.console import RenderableType
+from rich.markup import escape
 from textual.logging import TextualHandler
 from textual.reactive import reactive
 
@@ -68,7 +69,7 @@ class ASTTree(Static):
                 if ": " not in node.label:
                     repr_v = repr(v)
                     if not (repr_v.startswith("<") and repr_v.endswith(">")):
-                        node.label = f"{node.label}: {repr_v}"
+                        node.label = escape(f"{node.label}: {repr_v}")
                 _create_tree(node, v)
                 return
 
@@ -79,12 +80,12 @@ class ASTTree(Static):
                 match getattr(obj, attr):
                     case str(v) | int(v) | bool(v):
                         node.add(
-                            f"[blue][strong]{attr}:[/strong][/blue] {v}", expand=True
+                            f"[blue][strong]{attr}:[/strong][/blue] {escape(str(v))}",
+                            expand=True,
                         )
                     case list(lst):
                         child = node.add(f"[blue][strong]{attr}:", expand=True)
-                        for i, v in enumerate(lst):
-                            _create_tree(child.add(f"[dim][strong]{i}", expand=True), v)
+                        _create_items(child, lst)
                     case dict(lst):
                         child = node.add(f"[blue][strong]{attr}:", expand=True)
                         for k, v in enumerate(lst):
@@ -94,9 +95,21 @@ class ASTTree(Static):
                         if repr_v.startswith("<") and repr_v.endswith(">"):
                             label = f"[dim][strong]{attr}"
                         else:
-                            label = f"[dim][strong]{attr}:[/strong][/dim] {repr(v)}"
+                            label = f"[dim][strong]{attr}:[/strong][/dim] {escape(repr_v)}"
                         _create_tree(node.add(label, expand=True), v)
 
+        def _create_items(node: TreeNode, items):
+            for i, v in enumerate(items):
+                match v:
+                    case tuple(members):
+                        child = node.add(f"[dim][strong]{i}", expand=True)
+                        _create_items(child, members)
+                    case None | str():
+                        label = f"[dim][strong]{i}:[/strong][/dim] {escape(str(v))}"
+                        node.add(label, expand=True)
+                    case v:
+                        _create_tree(node.add(f"[dim][strong]{i}", expand=True), v)
+
         tree: Tree = self.query_exactly_one("#tree")
         tree.clear()
         _create_tree(tree.root, ast)
@@ -167,7 +180,7 @@ class SPLApp(App):
             ast = parse(self.query_exactly_one("#spl").code)
         except ValueError as e:
             self.query_exactly_one("#ast").add_class("error")
-            log.write(f"[red]Failed to parse SPL:[/red] [blue]{e}")
+            log.write(f"[red]Failed to parse SPL:[/red] [blue]{escape(str(e))}")
             return
         else:
             self.query_exactly_one("#ast").remove_class("error")
@@ -179,7 +192,9 @@ class SPLApp(App):
             )
         except RuntimeError as e:
             self.query_exactly_one("#pyspark").add_class("error")
-            log.write(f"[red]Failed to generate Pyspark:[/red] [blue]{e}")
+            log.write(
+                f"[red]Failed to generate Pyspark:[/red] [blue]{escape(str(e))}"
+            )
             return
         else:
             self.query_exactly_one("#pyspark").remove_class("error")
-- 
2.43.0


From 37fb049baa2c1384048dc617c173ea68fa554f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:47 +0000
Subject: [PATCH 71/71] fix: the name of a macro is no pattern of file names
 and does not lead out of the folder

---
 python/spl_transpiler/macros.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 9277c13..87a549c 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -2,6 +2,7 @@ import json
 import logging
 import re
 from functools import cache
+from glob import escape
 from itertools import islice
 from pathlib import Path
 from typing import Protocol, Mapping, Callable
@@ -43,7 +44,12 @@ class FolderMacroLoader(MacroLoader):
 
     @cache
     def __getitem__(self, item):
-        macro_files = list(islice(self.root_dir.rglob(f"{item}{self.suffix}"), 2))
+        # The name is no pattern, and does not lead out of the folder
+        if Path(item).is_absolute() or ".." in Path(item).parts:
+            raise KeyError(f"No macro found for `{item}`")
+        macro_files = list(
+            islice(self.root_dir.rglob(f"{escape(item)}{self.suffix}"), 2)
+        )
         if len(macro_files) > 1:
             raise ValueError(
                 f"Multiple macro files found for `{item}`: {list(macro_files)}"
-- 
2.43.0

