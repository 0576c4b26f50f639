From e3b9da15389a83415ad071aa66033ae3ad0b06a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 01/40] fix: U+007F is a disallowed literal code point

---
 src/v2_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3551732..1d5a85e 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1577,6 +1577,7 @@ pub(crate) fn is_disallowed_unicode(c: char) -> bool {
     matches!(c,
         '\u{0000}'..='\u{0008}'
         | '\u{000E}'..='\u{001F}'
+        | '\u{007F}'
         | '\u{200E}'..='\u{200F}'
         | '\u{202A}'..='\u{202E}'
         | '\u{2066}'..='\u{2069}'
-- 
2.43.0


From 9a7e7c14200845884f899b8377d239b1e43d3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 02/40] fix: tell raw strings that look like multi-line ones by
 their delimiters

A multi-line raw string holding a single quote was rejected, and a
single-line one starting with two quotes was accepted.
---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 1d5a85e..c7619ea 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1363,7 +1363,7 @@ fn raw_string(input: &mut Input<'_>) -> PResult<KdlValue> {
         "\"".context(cx().lbl("raw string closing quotes"))
     };
     cut_err((closing_quotes, &hashes[..])).parse_next(input)?;
-    if body == "\"" {
+    if !is_multiline && (body == "\"" || body.starts_with("\"\"")) {
         Err(ErrMode::Cut(KdlParseError {
             message: Some("Single-line raw strings cannot look like multi-line ones".into()),
             span: Some((_start_loc..input.previous_token_end()).into()),
-- 
2.43.0


From b12cd43821878a62f7b5add7294ba507bef0c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 03/40] fix: -inf is not a bare identifier

---
 src/v2_parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index c7619ea..df58311 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -987,9 +987,15 @@ fn unambiguous_ident(input: &mut Input<'_>) -> PResult<()> {
 
 /// `signed-ident := sign ((identifier-char - digit - '.') identifier-char*)?`
 fn signed_ident(input: &mut Input<'_>) -> PResult<()> {
-    alt(("+", "-")).parse_next(input)?;
-    not(alt((digit1.void(), ".".void()))).parse_next(input)?;
-    repeat(0.., identifier_char).parse_next(input)
+    (
+        alt(("+", "-")),
+        not(alt((digit1.void(), ".".void()))),
+        repeat(0.., identifier_char).map(|()| ()),
+    )
+        .take()
+        .verify(|s: &str| s != "-inf")
+        .void()
+        .parse_next(input)
 }
 
 /// `dotted-ident := sign? '.' ((identifier-char - digit) identifier-char*)?`
-- 
2.43.0


From b62ccf61b8f25b755b9210da7df8f2ee1e396370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 04/40] fix: a slashdash cannot be slashdashed itself

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index df58311..ded1339 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -604,7 +604,7 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
 }
 
 fn slashdashed_entries(input: &mut Input<'_>) -> PResult<()> {
-    separated(1.., (slashdash, node_entry), node_space1)
+    separated(1.., (slashdash, not("/-"), node_entry), node_space1)
         .map(|()| ())
         .take()
         .map(|x| x.to_string())
-- 
2.43.0


From 00bb5286e3fb4782321760346b3e49a459f541a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 05/40] fix: keep the space and terminator that follow a
 children block

Whitespace between a children block and the node's terminator was
dropped, together with the terminator. What precedes a children block is
now read once, where it was read again (with everything nested in it)
whenever no children block followed.
---
 src/v2_parser.rs | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index ded1339..68d9e06 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -396,29 +396,18 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     )
     .map(|e: Vec<Option<KdlEntry>>| e.into_iter().flatten().collect::<Vec<KdlEntry>>())
     .parse_next(input)?;
-    let children = opt((
-        before_node_children.take(),
-        trace("node children", node_children),
-    ))
-    .parse_next(input)?;
-    let (before_terminator, terminator) = if children.is_some() {
-        (
-            opt(slashdashed_children).take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+    let before_children = before_node_children.take().parse_next(input)?;
+    let children = opt(trace("node children", node_children)).parse_next(input)?;
+    let (before_children, before_terminator) = if children.is_some() {
+        let before_terminator = (opt(slashdashed_children), node_space0)
+            .take()
+            .parse_next(input)?;
+        (before_children, before_terminator)
     } else {
-        (
-            before_node_children.take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+        ("", before_children)
     };
-    node_space0.parse_next(input)?;
+    let terminator = peek(opt(node_terminator).take()).parse_next(input)?;
     let (before_inner_ty, ty, after_inner_ty) = ty.unwrap_or_default();
-    let (before_children, children) = children
-        .map(|(before_children, children)| (before_children.into(), Some(children)))
-        .unwrap_or(("".into(), None));
     Ok(KdlNode {
         ty,
         name,
@@ -428,7 +417,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
             before_ty_name: before_inner_ty.into(),
             after_ty_name: after_inner_ty.into(),
             after_ty: after_ty.into(),
-            before_children,
+            before_children: before_children.into(),
             before_terminator: before_terminator.into(),
             terminator: terminator.into(),
             ..Default::default()
-- 
2.43.0


From 4c2faf3bc9de1e6400d6724b73a2fb7d43263433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 06/40] fix: require terminators after slashdashed nodes, and
 let them be ; or }

Slashdashed nodes could not be ended by a semicolon or the end of a
children block, and could follow or precede another node without any
terminator. Slashdashed nodes at the end of a block are also no longer
parsed twice, which took exponential time when they were nested.
---
 src/v2_parser.rs | 68 ++++++++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 68d9e06..a59c1df 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -280,33 +280,30 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let mut ns: Vec<KdlNode> = vec![];
+    let (mut more, mut before_node) = between_nodes.with_taken().parse_next(input)?;
     let _start = input.checkpoint();
-    let mut ns: Vec<KdlNode> = separated(
-        0..,
-        node,
-        alt((node_terminator.void(), (eof.void(), any.void()).void())),
-    )
-    .parse_next(input)?;
-    let _span = span_from_checkpoint(input, &_start);
-    opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
-
-    // If there is a node, let it have the leading format
-    // This gives more consistent behavior
-    if let Some(first_node) = ns.get_mut(0)
-        && let Some(first_node_format) = first_node.format_mut()
-    {
-        first_node_format.leading = leading.into();
-        leading = "";
+    let mut _span = span_from_checkpoint(input, &_start);
+    while more && let Some(mut nd) = opt(base_node).parse_next(input)? {
+        _span = span_from_checkpoint(input, &_start);
+        if let Some(fmt) = nd.format_mut() {
+            fmt.leading = before_node.into();
+        }
+        ns.push(nd);
+        more = opt(node_terminator).parse_next(input)?.is_some();
+        before_node = "";
+        if more {
+            (more, before_node) = between_nodes.with_taken().parse_next(input)?;
+        }
     }
 
+    // What precedes a node belongs to the node.
+    let (leading, trailing) = if ns.is_empty() {
+        (before_node, "")
+    } else {
+        ("", before_node)
+    };
+
     Ok(KdlDocument {
         nodes: ns,
         format: Some(KdlDocumentFormat {
@@ -318,6 +315,21 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     })
 }
 
+/// Everything that can come before a node: `(line-space | slashdash base-node
+/// node-terminator)*`. Returns whether a node can follow: the last slashdashed
+/// node might be missing its terminator.
+fn between_nodes(input: &mut Input<'_>) -> PResult<bool> {
+    loop {
+        repeat(0.., line_space).map(|()| ()).parse_next(input)?;
+        if opt((slashdash, base_node)).parse_next(input)?.is_none() {
+            return Ok(true);
+        }
+        if opt(node_terminator).parse_next(input)?.is_none() {
+            return Ok(false);
+        }
+    }
+}
+
 /// base-node := slashdash? type? node-space* string
 ///      (node-space+ slashdash? node-prop-or-arg)*
 ///      (node-space+ slashdash node-children)*
@@ -327,10 +339,10 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let (can_follow, leading) = between_nodes.with_taken().parse_next(input)?;
+    if !can_follow {
+        fail.parse_next(input)?;
+    }
     let mut nd = base_node.parse_next(input)?;
     if let Some(fmt) = nd.format_mut() {
         fmt.leading = leading.into();
-- 
2.43.0


From 2f8de1e49744db6a4467315a355e0a2c75147d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 07/40] fix: read i128::MIN and decimal literals with any
 number of digits

The sign was applied after parsing the digits, so the smallest i128 was
out of range in every radix; and the digits of floats were parsed as
i128, so long fractions and exponents were errors.
---
 src/v2_parser.rs | 240 +++++++++++++++++------------------------------
 1 file changed, 88 insertions(+), 152 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index a59c1df..b79aa98 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -5,7 +5,6 @@ use std::{
 
 use miette::{Severity, SourceSpan};
 
-use num_traits::CheckedMul;
 use winnow::{
     LocatingSlice,
     ascii::{Caseless, digit1, hex_digit1, oct_digit1},
@@ -164,20 +163,6 @@ impl<'a> FromExternalError<Input<'a>, ParseFloatError> for KdlParseError {
     }
 }
 
-struct NegativeUnsignedError;
-
-impl<'a> FromExternalError<Input<'a>, NegativeUnsignedError> for KdlParseError {
-    fn from_external_error(_input: &Input<'a>, _e: NegativeUnsignedError) -> Self {
-        Self {
-            span: None,
-            message: Some("Tried to parse a negative number as an unsigned integer".into()),
-            label: Some("negative unsigned int".into()),
-            help: None,
-            severity: Some(Severity::Error),
-        }
-    }
-}
-
 impl<I: Stream + Location> FromRecoverableError<I, Self> for KdlParseError {
     #[inline]
     fn from_recoverable_error(
@@ -1774,27 +1759,27 @@ fn float<T: ParseFloat>(input: &mut Input<'_>) -> PResult<T> {
     (
         alt((
             (
-                decimal::<i128>,
+                (signum, decimal_digits),
                 opt(preceded(
                     '.',
                     cut_err(
-                        udecimal::<i128>.context(
+                        decimal_digits.context(
                             cx().msg("Non-digit character found after the '.' of a float"),
                         ),
                     ),
                 )),
                 Caseless("e"),
                 opt(one_of(['-', '+'])),
-                cut_err(udecimal::<i128>.context(
+                cut_err(decimal_digits.context(
                     cx().msg("Non-digit character found in the exponent part of a float").hlp("Floats with exponent parts should look like '2.0e123', or '43.3E-4'."),
                 )),
             )
                 .take(),
             (
-                decimal::<i128>,
+                (signum, decimal_digits),
                 '.',
                 cut_err(
-                    udecimal::<i128>
+                    decimal_digits
                         .context(cx().msg("Non-digit character found after the '.' of a float")),
                 ),
             )
@@ -1849,17 +1834,9 @@ fn integer_value(input: &mut Input<'_>) -> PResult<KdlValue> {
 }
 
 /// Non-float decimal
-fn decimal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
-    let positive = signum.parse_next(input)?;
-    udecimal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+fn decimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    let sign = signum.parse_next(input)?;
+    udecimal(sign).parse_next(input)
 }
 
 #[cfg(test)]
@@ -1872,48 +1849,44 @@ fn decimal_test() {
 }
 
 /// `integer := digit (digit | '_')*`
-fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
-    (
-        digit1,
-        repeat(
-            0..,
-            alt(("_", take_while(1.., AsChar::is_dec_digit).take())),
-        ),
-    )
-        .try_map(|(l, r): (&str, Vec<&str>)| {
-            T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 10)
-        })
+fn udecimal<'s, T: FromStrRadix>(
+    sign: &'static str,
+) -> impl ModalParser<Input<'s>, T, KdlParseError> {
+    decimal_digits
+        .try_map(move |s: &str| T::from_str_radix(&format!("{sign}{}", s.replace('_', "")), 10))
+}
+
+fn decimal_digits<'s>(input: &mut Input<'s>) -> PResult<&'s str> {
+    (digit1, take_while(0.., (AsChar::is_dec_digit, '_')))
+        .take()
         .parse_next(input)
 }
 
 /// `hex := sign? '0x' hex-digit (hex-digit | '_')*`
-fn hex<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
-    let positive = signum.parse_next(input)?;
-    uhex::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
+fn hex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    let sign = signum.parse_next(input)?;
+    uhex(sign).parse_next(input)
+}
+
+fn uhex<'s, T: FromStrRadix>(sign: &'static str) -> impl ModalParser<Input<'s>, T, KdlParseError> {
+    move |input: &mut Input<'s>| {
+        alt(("0x", "0X")).parse_next(input)?;
+        cut_err((
+            hex_digit1,
+            repeat(
+                0..,
+                alt(("_", take_while(1.., AsChar::is_hex_digit).take())),
+            ),
+        ))
+        .try_map(|(l, r): (&str, Vec<&str>)| {
+            T::from_str_radix(
+                &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+                16,
+            )
         })
+        .context(cx().lbl("hexadecimal"))
         .parse_next(input)
-}
-
-fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
-    alt(("0x", "0X")).parse_next(input)?;
-    cut_err((
-        hex_digit1,
-        repeat(
-            0..,
-            alt(("_", take_while(1.., AsChar::is_hex_digit).take())),
-        ),
-    ))
-    .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 16)
-    })
-    .context(cx().lbl("hexadecimal"))
-    .parse_next(input)
+    }
 }
 
 #[cfg(test)]
@@ -1943,33 +1916,32 @@ fn test_hex() {
 }
 
 /// `octal := sign? '0o' [0-7] [0-7_]*`
-fn octal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
-    let positive = signum.parse_next(input)?;
-    uoctal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
+fn octal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    let sign = signum.parse_next(input)?;
+    uoctal(sign).parse_next(input)
+}
+
+fn uoctal<'s, T: FromStrRadix>(
+    sign: &'static str,
+) -> impl ModalParser<Input<'s>, T, KdlParseError> {
+    move |input: &mut Input<'s>| {
+        alt(("0o", "0O")).parse_next(input)?;
+        cut_err((
+            oct_digit1,
+            repeat(
+                0..,
+                alt(("_", take_while(1.., AsChar::is_oct_digit).take())),
+            ),
+        ))
+        .try_map(|(l, r): (&str, Vec<&str>)| {
+            T::from_str_radix(
+                &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+                8,
+            )
         })
+        .context(cx().lbl("octal"))
         .parse_next(input)
-}
-
-fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
-    alt(("0o", "0O")).parse_next(input)?;
-    cut_err((
-        oct_digit1,
-        repeat(
-            0..,
-            alt(("_", take_while(1.., AsChar::is_oct_digit).take())),
-        ),
-    ))
-    .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 8)
-    })
-    .context(cx().lbl("octal"))
-    .parse_next(input)
+    }
 }
 
 #[cfg(test)]
@@ -1982,30 +1954,29 @@ fn test_octal() {
 }
 
 /// `binary := sign? '0b' ('0' | '1') ('0' | '1' | '_')*`
-fn binary<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
-    let positive = signum.parse_next(input)?;
-    ubinary::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+fn binary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    let sign = signum.parse_next(input)?;
+    ubinary(sign).parse_next(input)
 }
 
-fn ubinary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
-    alt(("0b", "0B")).parse_next(input)?;
-    cut_err(
-        (alt(("0", "1")), repeat(0.., alt(("0", "1", "_")))).try_map(
-            move |(x, xs): (&str, Vec<&str>)| {
-                T::from_str_radix(&format!("{x}{}", str::replace(&xs.join(""), "_", "")), 2)
-            },
-        ),
-    )
-    .context(cx().lbl("binary"))
-    .parse_next(input)
+fn ubinary<'s, T: FromStrRadix>(
+    sign: &'static str,
+) -> impl ModalParser<Input<'s>, T, KdlParseError> {
+    move |input: &mut Input<'s>| {
+        alt(("0b", "0B")).parse_next(input)?;
+        cut_err(
+            (alt(("0", "1")), repeat(0.., alt(("0", "1", "_")))).try_map(
+                move |(x, xs): (&str, Vec<&str>)| {
+                    T::from_str_radix(
+                        &format!("{sign}{x}{}", str::replace(&xs.join(""), "_", "")),
+                        2,
+                    )
+                },
+            ),
+        )
+        .context(cx().lbl("binary"))
+        .parse_next(input)
+    }
 }
 
 #[cfg(test)]
@@ -2025,14 +1996,10 @@ fn test_binary() {
     assert!(binary::<i128>.parse(new_input("123")).is_err());
 }
 
-fn signum(input: &mut Input<'_>) -> PResult<bool> {
+/// The sign to put before the digits of a number: `-` or nothing.
+fn signum(input: &mut Input<'_>) -> PResult<&'static str> {
     let sign = opt(alt(('+', '-'))).parse_next(input)?;
-    let mult = if let Some(sign) = sign {
-        sign == '+'
-    } else {
-        true
-    };
-    Ok(mult)
+    Ok(if sign == Some('-') { "-" } else { "" })
 }
 
 trait FromStrRadix {
@@ -2057,34 +2024,6 @@ impl_from_str_radix!(
     i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize
 );
 
-trait MaybeNegatable: CheckedMul {
-    fn negated(&self) -> Option<Self>;
-}
-
-macro_rules! impl_negatable_signed {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    Some(self * -1)
-                }
-            }
-        )*
-    };
-}
-
-macro_rules! impl_negatable_unsigned {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    None
-                }
-            }
-        )*
-    };
-}
-
 trait ParseFloat {
     fn parse_float(input: &str) -> Result<Self, ParseFloatError>
     where
@@ -2102,9 +2041,6 @@ impl ParseFloat for f64 {
     }
 }
 
-impl_negatable_signed!(i8, i16, i32, i64, i128, isize);
-impl_negatable_unsigned!(u8, u16, u32, u64, u128, usize);
-
 #[cfg(test)]
 mod failure_tests {
     use miette::Severity;
-- 
2.43.0


From 38c5b209c0c8637a92507aa51d15298ec92fae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 08/40] fix: print the whitespace in and after a node's type
 annotation

---
 src/node.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6b3c75f..e6d40a6 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -277,13 +277,18 @@ impl KdlNode {
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
         if let Some(KdlNodeFormat {
             leading,
+            before_ty_name,
+            after_ty_name,
+            after_ty,
             before_terminator,
             terminator,
             trailing,
             before_children,
-            ..
         }) = self.format_mut()
         {
+            before_ty_name.clear();
+            after_ty_name.clear();
+            after_ty.clear();
             crate::fmt::autoformat_leading(leading, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
@@ -835,7 +840,17 @@ impl KdlNode {
             write!(f, "{:indent$}", "", indent = indent)?;
         }
         if let Some(ty) = &self.ty {
-            write!(f, "({ty})")?;
+            if let Some(KdlNodeFormat {
+                before_ty_name,
+                after_ty_name,
+                after_ty,
+                ..
+            }) = self.format()
+            {
+                write!(f, "({before_ty_name}{ty}{after_ty_name}){after_ty}")?;
+            } else {
+                write!(f, "({ty})")?;
+            }
         }
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
-- 
2.43.0


From 942f401613e59c7a0df2210fc46bcf84c923196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 09/40] fix: print strings so that they can be read back

Code points that cannot be written literally are escaped, +.5 is quoted
like .5 and +5 are, and the empty string is never a plain identifier.
---
 src/value.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 50853c0..1a44f95 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -154,13 +154,14 @@ impl Display for KdlValue {
 }
 
 pub(crate) fn is_plain_ident(ident: &str) -> bool {
-    let ident_bytes = ident.as_bytes();
-    ident
-        .find(crate::v2_parser::is_disallowed_ident_char)
-        .is_none()
-        && ident_bytes.first().map(|c| c.is_ascii_digit()) != Some(true)
-        && !(ident.chars().next().map(|c| matches!(c, '.' | '-' | '+')) == Some(true)
-            && ident_bytes.get(1).map(|c| c.is_ascii_digit()) == Some(true))
+    // These would be read as (attempts at) numbers: `1`, `-1`, `.1`, and `-.1`.
+    let unsigned = ident.strip_prefix(['-', '+']).unwrap_or(ident);
+    let undotted = unsigned.strip_prefix('.').unwrap_or(unsigned);
+    !ident.is_empty()
+        && ident
+            .find(crate::v2_parser::is_disallowed_ident_char)
+            .is_none()
+        && !undotted.starts_with(|c: char| c.is_ascii_digit())
         && ident != "inf"
         && ident != "-inf"
         && ident != "nan"
@@ -179,7 +180,7 @@ fn plain_ident_test() {
 impl KdlValue {
     fn write_string(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let string = self.as_string().unwrap();
-        if !string.is_empty() && is_plain_ident(string) {
+        if is_plain_ident(string) {
             write!(f, "{string}")?;
         } else {
             write!(f, "\"")?;
@@ -191,6 +192,12 @@ impl KdlValue {
                     '\t' => write!(f, "\\t")?,
                     '\u{08}' => write!(f, "\\b")?,
                     '\u{0C}' => write!(f, "\\f")?,
+                    // Neither of these can be written literally.
+                    c if crate::v2_parser::is_disallowed_unicode(c)
+                        || crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) =>
+                    {
+                        write!(f, "\\u{{{:x}}}", c as u32)?
+                    }
                     _ => write!(f, "{char}")?,
                 }
             }
-- 
2.43.0


From 9f4e168519fe35cd2328bf57714098f868c38ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 10/40] fix: KdlNode::remove finds the property that
 KdlNode::get finds

It compared the key's source text as well, so that properties of parsed
nodes were not found, and removed the first of several properties with
the same key where all lookups use the last.
---
 src/node.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index e6d40a6..9981dcc 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -704,12 +704,12 @@ impl KdlNode {
     fn remove_impl(&mut self, key: NodeKey) -> Option<KdlEntry> {
         match key {
             NodeKey::Key(key) => {
-                for (idx, entry) in self.entries.iter().enumerate() {
-                    if entry.name.is_some() && entry.name.as_ref() == Some(&key) {
-                        return Some(self.entries.remove(idx));
-                    }
-                }
-                None
+                // Like lookups, this goes by the key's value (and not by how it
+                // was written), and finds the last property with that key.
+                let idx = self.entries.iter().rposition(|entry| {
+                    entry.name.as_ref().map(|i| i.value()) == Some(key.value())
+                })?;
+                Some(self.entries.remove(idx))
             }
             NodeKey::Index(idx) => {
                 let mut current_idx = 0;
-- 
2.43.0


From b57db3bd18e0517c8cd187a52afb6e88a73c2bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 11/40] fix: KdlNode::from_str does what KdlNode::parse does

It did not fall back to KDL v1 with the v1-fallback feature.
---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 9981dcc..4455015 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -818,7 +818,7 @@ impl FromStr for KdlNode {
     type Err = KdlError;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
-        v2_parser::try_parse(v2_parser::padded_node, input)
+        Self::parse(input)
     }
 }
 
-- 
2.43.0


From 21904aa742a5bbed7ef1cd4dd0a6ce70922580ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 12/40] fix: print a terminator between nodes that do not have
 one

Nodes without formatting (as clear_format_recursive leaves them) were
printed without anything between them, and so was a node added after the
last node of a parsed document. clear_format_recursive now also clears
the format of the node's type.
---
 src/document.rs |  6 +++++-
 src/node.rs     | 27 +++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 300f176..949bc7f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -541,8 +541,12 @@ impl KdlDocument {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
             write!(f, "{leading}")?;
         }
-        for node in &self.nodes {
+        for (idx, node) in self.nodes.iter().enumerate() {
             node.stringify(f, indent)?;
+            let is_last = idx + 1 == self.nodes.len();
+            if !is_last || (self.format.is_none() && node.format().is_none()) {
+                write!(f, "{}", node.missing_terminator())?;
+            }
         }
         if let Some(KdlDocumentFormat { trailing, .. }) = self.format() {
             write!(f, "{trailing}")?;
diff --git a/src/node.rs b/src/node.rs
index 4455015..593d209 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -140,6 +140,9 @@ impl KdlNode {
     /// children formatting will also be cleared.
     pub fn clear_format_recursive(&mut self) {
         self.clear_format();
+        if let Some(ty) = &mut self.ty {
+            ty.clear_format();
+        }
         self.name.clear_format();
         if let Some(children) = &mut self.children {
             children.clear_format_recursive();
@@ -893,6 +896,30 @@ impl KdlNode {
     }
 }
 
+impl KdlNode {
+    /// What has to be printed after this node for another one to follow it.
+    /// That is nothing for nodes that come with their own terminator.
+    pub(crate) fn missing_terminator(&self) -> &'static str {
+        let Some(fmt) = self.format() else {
+            return "\n";
+        };
+        let is_newline = |c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c));
+        let end = format!("{}{}", fmt.terminator, fmt.trailing);
+        let end = end.trim_start_matches(|c: char| c.is_whitespace() && !is_newline(c));
+        if end.starts_with(';')
+            || end.starts_with(is_newline)
+            || (end.starts_with("//") && end.contains(is_newline))
+        {
+            ""
+        } else if fmt.before_terminator.ends_with('\\') {
+            // The first newline only ends the line continuation.
+            "\n\n"
+        } else {
+            "\n"
+        }
+    }
+}
+
 /// Formatting details for [`KdlNode`].
 #[derive(Debug, Clone, Default, Hash, Eq, PartialEq)]
 pub struct KdlNodeFormat {
-- 
2.43.0


From 7ea7330230814642393ed7d24a5ce04209df4593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 13/40] fix: print a space before entries that were parsed
 without one

Such an entry, added to a node, was glued to what came before it.
---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 593d209..bc3965c 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -858,7 +858,7 @@ impl KdlNode {
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
         for entry in &self.entries {
-            if entry.format().is_none() {
+            if entry.format().is_none_or(|fmt| fmt.leading.is_empty()) {
                 write!(f, " ")?;
             }
             write!(f, "{entry}")?;
-- 
2.43.0


From e6931311280fa6b9195a33509b81a799caee2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 14/40] fix: autoformat indents every node and keeps its
 comments where they are

---
 src/document.rs | 14 ++++-----
 src/fmt.rs      | 79 +++++++++++++++++++++++++++++--------------------
 src/node.rs     | 31 +++++++++----------
 3 files changed, 67 insertions(+), 57 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 949bc7f..fb14992 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -251,17 +251,15 @@ impl KdlDocument {
 
     /// Formats the document according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
-        if let Some(KdlDocumentFormat { leading, .. }) = (*self).format_mut() {
-            crate::fmt::autoformat_leading(leading, config);
-        }
-        let mut has_nodes = false;
         for node in &mut self.nodes {
-            has_nodes = true;
             node.autoformat_config(config);
         }
-        if let Some(KdlDocumentFormat { trailing, .. }) = (*self).format_mut() {
-            crate::fmt::autoformat_trailing(trailing, config.no_comments);
-            if !has_nodes {
+        let has_nodes = !self.nodes.is_empty();
+        if let Some(KdlDocumentFormat { leading, trailing }) = (*self).format_mut() {
+            *leading = leading.trim_start_matches('\u{FEFF}').into();
+            *leading = crate::fmt::autoformat_lines(leading, config);
+            *trailing = crate::fmt::autoformat_lines(trailing, config);
+            if !has_nodes && leading.is_empty() && trailing.is_empty() {
                 trailing.push('\n');
             }
         };
diff --git a/src/fmt.rs b/src/fmt.rs
index 238fb75..69106a9 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -111,43 +111,58 @@ impl<'a> FormatConfigBuilder<'a> {
     }
 }
 
-pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>) {
-    let mut result = String::new();
-    if !config.no_comments {
-        let input = leading.trim();
-        if !input.is_empty() {
-            for line in input.lines() {
-                let trimmed = line.trim();
-                if !trimmed.is_empty() {
-                    for _ in 0..config.indent_level {
-                        result.push_str(config.indent);
-                    }
-                    writeln!(result, "{trimmed}").unwrap();
-                }
-            }
-        }
-    }
-    for _ in 0..config.indent_level {
-        result.push_str(config.indent);
-    }
-    *leading = result;
+/// The indentation of nodes at the config's level.
+pub(crate) fn indentation(config: &FormatConfig<'_>) -> String {
+    config.indent.repeat(config.indent_level)
 }
 
-pub(crate) fn autoformat_trailing(decor: &mut String, no_comments: bool) {
-    if decor.is_empty() {
-        return;
-    }
-    *decor = decor.trim().to_string();
+/// Puts each line of what comes between nodes (comments and slashdashed nodes)
+/// on a line of its own, at the config's level.
+pub(crate) fn autoformat_lines(text: &str, config: &FormatConfig<'_>) -> String {
     let mut result = String::new();
-    if !decor.is_empty() && !no_comments {
-        if decor.trim_start() == &decor[..] {
-            write!(result, " ").unwrap();
-        }
-        for comment in decor.lines() {
-            writeln!(result, "{comment}").unwrap();
+    if config.no_comments {
+        return result;
+    }
+    let text = text.replace("\r\n", "\n");
+    let mut lines = text.split(is_newline).map(str::trim).peekable();
+    let mut escaped = false;
+    while let Some(line) = lines.next() {
+        if !line.is_empty() {
+            writeln!(result, "{}{line}", indentation(config)).unwrap();
+        } else if escaped && lines.peek().is_some() {
+            // The line before might end in a line continuation, and this one
+            // is what keeps it from continuing on the next.
+            writeln!(result).unwrap();
         }
+        escaped = line.contains('\\');
     }
-    *decor = result;
+    result
+}
+
+/// Formats what comes after a node, up to and including its terminator.
+pub(crate) fn autoformat_end(before_terminator: &mut String, terminator: &mut String) {
+    let text = before_terminator.trim();
+    let line_continues = before_terminator
+        .trim_end_matches(|c: char| c.is_whitespace() && !is_newline(c))
+        .ends_with(|c| is_newline(c) || c == '\\');
+    let comment = terminator.trim();
+    let is_comment = comment.starts_with("//");
+    *terminator = if is_comment {
+        format!("{comment}\n")
+    } else {
+        "\n".into()
+    };
+    *before_terminator = if !text.is_empty() && line_continues {
+        format!(" {text}\n")
+    } else {
+        let space_before_text = if text.is_empty() { "" } else { " " };
+        let space_before_comment = if is_comment { " " } else { "" };
+        format!("{space_before_text}{text}{space_before_comment}")
+    };
+}
+
+fn is_newline(c: char) -> bool {
+    crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c))
 }
 
 #[cfg(test)]
diff --git a/src/node.rs b/src/node.rs
index bc3965c..474e225 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -278,6 +278,7 @@ impl KdlNode {
 
     /// Auto-formats this node and its contents according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
+        let indentation = crate::fmt::indentation(config);
         if let Some(KdlNodeFormat {
             leading,
             before_ty_name,
@@ -292,22 +293,18 @@ impl KdlNode {
             before_ty_name.clear();
             after_ty_name.clear();
             after_ty.clear();
-            crate::fmt::autoformat_leading(leading, config);
-            crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
-            crate::fmt::autoformat_trailing(trailing, config.no_comments);
-            *trailing = trailing.trim().into();
-            if !terminator.starts_with('\n') {
-                *terminator = "\n".into();
+            *leading = crate::fmt::autoformat_lines(leading, config) + &indentation;
+            if config.no_comments {
+                before_terminator.clear();
+                terminator.clear();
             }
-            if let Some(c) = trailing.chars().next()
-                && !c.is_whitespace()
-            {
-                trailing.insert(0, ' ');
-            }
-
+            crate::fmt::autoformat_end(before_terminator, terminator);
+            *trailing = crate::fmt::autoformat_lines(trailing, config);
             *before_children = " ".into();
         } else {
             self.set_format(KdlNodeFormat {
+                leading: indentation.clone(),
+                before_children: " ".into(),
                 terminator: "\n".into(),
                 ..Default::default()
             })
@@ -323,16 +320,16 @@ impl KdlNode {
             entry.autoformat();
         }
         if let Some(children) = self.children.as_mut() {
+            if children.format().is_none() && !children.nodes().is_empty() {
+                children.set_format(KdlDocumentFormat::default());
+            }
             children.autoformat_config(&FormatConfig {
                 indent_level: config.indent_level + 1,
                 ..*config
             });
             if let Some(KdlDocumentFormat { leading, trailing }) = children.format_mut() {
-                *leading = leading.trim().into();
-                leading.push('\n');
-                for _ in 0..config.indent_level {
-                    trailing.push_str(config.indent);
-                }
+                leading.insert(0, '\n');
+                trailing.push_str(&indentation);
             }
         }
     }
-- 
2.43.0


From 4e96b46f606a228b80bbe8bf819042118d06bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 15/40] fix: read long comments and recover from stray braces
 without recursion

---
 src/v2_parser.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index b79aa98..62b35e7 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -244,18 +244,19 @@ fn new_input(s: &str) -> Input<'_> {
 
 /// `document := bom? nodes`
 pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let bom = opt(bom.take()).parse_next(input)?;
+    let leading_bom = opt(bom.take()).parse_next(input)?;
     let mut doc = nodes.parse_next(input)?;
-    let badend = resume_after_cut(
+    while resume_after_cut(
         cut_err(eof).context(cx().lbl("EOF").msg("Expected end of document")),
         any.void(),
     )
     .parse_next(input)?
-    .is_none();
-    if badend {
-        document.parse_next(input)?;
+    .is_none()
+    {
+        opt(bom).parse_next(input)?;
+        nodes.parse_next(input)?;
     }
-    if let Some(bom) = bom
+    if let Some(bom) = leading_bom
         && let Some(fmt) = doc.format_mut()
     {
         fmt.leading = format!("{bom}{}", fmt.leading);
@@ -1677,18 +1678,17 @@ fn multi_line_comment(input: &mut Input<'_>) -> PResult<()> {
 
 /// `commented-block := '*/' | (multi-line-comment | '*' | '/' | [^*/]+) commented-block`
 fn commented_block(input: &mut Input<'_>) -> PResult<()> {
-    alt((
-        "*/".void(),
-        preceded(
-            alt((
-                multi_line_comment,
-                "*".void(),
-                "/".void(),
-                repeat(1.., none_of(['*', '/'])).map(|()| ()),
-            )),
-            commented_block,
-        ),
-    ))
+    repeat_till(
+        0..,
+        alt((
+            multi_line_comment,
+            "*".void(),
+            "/".void(),
+            repeat(1.., none_of(['*', '/'])).map(|()| ()),
+        )),
+        "*/",
+    )
+    .map(|((), _)| ())
     .parse_next(input)
 }
 
-- 
2.43.0


From 71dbb5cdbbb74d14aa70b12911d6fa0b24d11702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 16/40] fix: autoformat ends nodes that end in an unfinished
 line continuation once

---
 src/fmt.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 69106a9..8e583fd 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -1,5 +1,7 @@
 use std::fmt::Write as _;
 
+use crate::KdlDocument;
+
 /// Formatting configuration for use with [`KdlDocument::autoformat_config`](`crate::KdlDocument::autoformat_config`)
 /// and [`KdlNode::autoformat_config`](`crate::KdlNode::autoformat_config`).
 #[non_exhaustive]
@@ -142,9 +144,7 @@ pub(crate) fn autoformat_lines(text: &str, config: &FormatConfig<'_>) -> String
 /// Formats what comes after a node, up to and including its terminator.
 pub(crate) fn autoformat_end(before_terminator: &mut String, terminator: &mut String) {
     let text = before_terminator.trim();
-    let line_continues = before_terminator
-        .trim_end_matches(|c: char| c.is_whitespace() && !is_newline(c))
-        .ends_with(|c| is_newline(c) || c == '\\');
+    let line_continues = ends_in_line_continuation(text);
     let comment = terminator.trim();
     let is_comment = comment.starts_with("//");
     *terminator = if is_comment {
@@ -161,6 +161,16 @@ pub(crate) fn autoformat_end(before_terminator: &mut String, terminator: &mut St
     };
 }
 
+/// Whether a newline after this text, which follows a node, would continue the
+/// line instead of ending the node.
+fn ends_in_line_continuation(text: &str) -> bool {
+    text.contains('\\')
+        && KdlDocument::parse_v2(&format!("node {text}\n"))
+            .ok()
+            .and_then(|doc| Some(doc.nodes().last()?.format()?.terminator.is_empty()))
+            .unwrap_or(false)
+}
+
 fn is_newline(c: char) -> bool {
     crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c))
 }
-- 
2.43.0


From 95dd5e45f3218590650b648ad59254260cb11ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 17/40] fix: nodes put next to comments and slashdashed nodes
 do not run into them

---
 src/document.rs |  9 ++++++++-
 src/fmt.rs      | 10 ++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index fb14992..0cd110c 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -538,11 +538,18 @@ impl KdlDocument {
     ) -> std::fmt::Result {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
             write!(f, "{leading}")?;
+            if !self.nodes.is_empty() && !crate::fmt::can_precede_node(leading) {
+                writeln!(f)?;
+            }
         }
         for (idx, node) in self.nodes.iter().enumerate() {
             node.stringify(f, indent)?;
             let is_last = idx + 1 == self.nodes.len();
-            if !is_last || (self.format.is_none() && node.format().is_none()) {
+            let needs_terminator = match self.format() {
+                Some(fmt) => fmt.trailing.contains("/-"),
+                None => node.format().is_none(),
+            };
+            if !is_last || needs_terminator {
                 write!(f, "{}", node.missing_terminator())?;
             }
         }
diff --git a/src/fmt.rs b/src/fmt.rs
index 8e583fd..97eed6c 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -171,6 +171,16 @@ fn ends_in_line_continuation(text: &str) -> bool {
             .unwrap_or(false)
 }
 
+/// Whether a node can be printed right after this text, which might end in the
+/// middle of a line comment or with an unfinished slashdashed node.
+pub(crate) fn can_precede_node(text: &str) -> bool {
+    let text = text.trim_end_matches(|c: char| c.is_whitespace() && !is_newline(c));
+    let last_line = text.rsplit(is_newline).next().unwrap_or_default();
+    let has_comment = last_line.contains("//");
+    let has_slashdash = text.contains("/-") && !text.ends_with(';') && !last_line.is_empty();
+    !has_comment && !has_slashdash && !last_line.ends_with('\\')
+}
+
 fn is_newline(c: char) -> bool {
     crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c))
 }
-- 
2.43.0


From a75ba2f75904ca02e5aee9191d3a1084246dd816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 18/40] fix: ensure_v2 leaves representations alone that it
 cannot convert

---
 src/entry.rs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 93fcef4..dea70b0 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -269,20 +269,19 @@ impl KdlEntry {
             }
         });
 
-        if let Some(value_repr) = value_repr.as_ref() {
-            self.format = Some(
-                self.format
-                    .clone()
-                    .map(|mut x| {
-                        x.value_repr = value_repr.into();
-                        x
-                    })
-                    .unwrap_or_else(|| KdlEntryFormat {
-                        value_repr: value_repr.into(),
-                        leading: " ".into(),
-                        ..Default::default()
-                    }),
-            )
+        if let Some(value_repr) = value_repr {
+            if let Some(format) = self.format.as_mut() {
+                // The conversion above guesses. What it makes of the
+                // representation, or else the representation itself, will do if
+                // it stands for the value.
+                format.value_repr = if is_v2_repr_of(&value_repr, &self.value) {
+                    value_repr
+                } else if is_v2_repr_of(&format.value_repr, &self.value) {
+                    format.value_repr.clone()
+                } else {
+                    self.value.to_string()
+                };
+            }
         }
     }
 
@@ -382,6 +381,21 @@ impl KdlEntry {
     }
 }
 
+/// Whether `repr` is how `value` can be written in KDL v2.
+fn is_v2_repr_of(repr: &str, value: &KdlValue) -> bool {
+    v2_parser::try_parse(v2_parser::padded_node_entry, repr)
+        .ok()
+        .is_some_and(|entry: KdlEntry| {
+            entry.name.is_none()
+                && entry.ty.is_none()
+                && entry.format().is_some_and(|fmt| fmt.value_repr == repr)
+                && match (&entry.value, value) {
+                    (KdlValue::Float(a), KdlValue::Float(b)) => a.to_bits() == b.to_bits(),
+                    (a, b) => a == b,
+                }
+        })
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlEntry> for KdlEntry {
     fn from(value: kdlv1::KdlEntry) -> Self {
-- 
2.43.0


From 34baf96e1095b0e7793d5b525ced4fa6ead6459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 19/40] fix: autoformat clears the formatting of entries' type
 annotations too

---
 src/entry.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index dea70b0..075870e 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -190,6 +190,9 @@ impl KdlEntry {
             });
         }
 
+        if let Some(ty) = &mut self.ty {
+            ty.autoformat();
+        }
         if let Some(name) = &mut self.name {
             name.autoformat();
         }
-- 
2.43.0


From 30f8806f999665aa7f9866b5cf6a3b54e05b21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 20/40] fix: an open comment or escaped line does not swallow
 what is printed after it

---
 src/document.rs  | 18 +++++++++++++++++-
 src/node.rs      | 27 ++++++++++++++++++++++++++-
 src/v2_parser.rs | 11 +++++++++++
 3 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0cd110c..7999755 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -546,7 +546,10 @@ impl KdlDocument {
             node.stringify(f, indent)?;
             let is_last = idx + 1 == self.nodes.len();
             let needs_terminator = match self.format() {
-                Some(fmt) => fmt.trailing.contains("/-"),
+                Some(fmt) => {
+                    fmt.trailing.contains("/-")
+                        || (!fmt.trailing.is_empty() && node.leaves_line_open())
+                }
                 None => node.format().is_none(),
             };
             if !is_last || needs_terminator {
@@ -558,6 +561,19 @@ impl KdlDocument {
         }
         Ok(())
     }
+
+    /// Whether this ends in the middle of a single-line comment or an escaped
+    /// line, so that a closing `}` can't follow.
+    pub(crate) fn leaves_line_open(&self) -> bool {
+        let (leading, trailing) = self
+            .format()
+            .map_or(("", ""), |fmt| (&fmt.leading[..], &fmt.trailing[..]));
+        match self.nodes.last() {
+            None => crate::v2_parser::leaves_line_open("", &format!("{leading}{trailing}")),
+            Some(node) if trailing.is_empty() => node.leaves_line_open(),
+            Some(_) => crate::v2_parser::leaves_line_open("-\n", trailing),
+        }
+    }
 }
 
 impl IntoIterator for KdlDocument {
diff --git a/src/node.rs b/src/node.rs
index 474e225..6a3f33e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -875,6 +875,9 @@ impl KdlNode {
                 writeln!(f)?;
             }
             children.stringify(f, indent + 4)?;
+            if children.leaves_line_open() {
+                writeln!(f)?;
+            }
             if children.format().is_none() {
                 write!(f, "{:indent$}", "", indent = indent)?;
             }
@@ -894,6 +897,23 @@ impl KdlNode {
 }
 
 impl KdlNode {
+    /// The shortest node of this one's kind.
+    fn stem(&self) -> &'static str {
+        if self.children.is_some() { "-{}" } else { "-" }
+    }
+
+    /// Whether this ends in the middle of a single-line comment or an escaped
+    /// line.
+    pub(crate) fn leaves_line_open(&self) -> bool {
+        self.format().is_some_and(|fmt| {
+            let end = format!(
+                "{}{}{}",
+                fmt.before_terminator, fmt.terminator, fmt.trailing
+            );
+            v2_parser::leaves_line_open(self.stem(), &end)
+        })
+    }
+
     /// What has to be printed after this node for another one to follow it.
     /// That is nothing for nodes that come with their own terminator.
     pub(crate) fn missing_terminator(&self) -> &'static str {
@@ -902,13 +922,18 @@ impl KdlNode {
         };
         let is_newline = |c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c));
         let end = format!("{}{}", fmt.terminator, fmt.trailing);
+        if v2_parser::leaves_line_open("-\n", &fmt.trailing) {
+            return "\n";
+        }
         let end = end.trim_start_matches(|c: char| c.is_whitespace() && !is_newline(c));
         if end.starts_with(';')
             || end.starts_with(is_newline)
             || (end.starts_with("//") && end.contains(is_newline))
         {
             ""
-        } else if fmt.before_terminator.ends_with('\\') {
+        } else if fmt.before_terminator.ends_with('\r')
+            || v2_parser::leaves_line_open(self.stem(), &fmt.before_terminator)
+        {
             // The first newline only ends the line continuation.
             "\n\n"
         } else {
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 62b35e7..b660070 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -722,6 +722,17 @@ fn before_node_children_test() {
     assert!(before_node_children.parse(new_input(" /- { bar }")).is_ok());
 }
 
+/// Whether `text`, coming after `stem` in a child block, ends in the middle of
+/// a single-line comment or an escaped line.
+pub(crate) fn leaves_line_open(stem: &str, text: &str) -> bool {
+    let is_newline = |c| NEWLINES.iter().any(|nl| nl.contains(c));
+    let last_line = text.rsplit(is_newline).next().unwrap_or_default();
+    // Most texts don't need a closer look.
+    (last_line.contains("//") || last_line.contains('\\'))
+        && try_parse(document, &format!("-{{{stem}{text}}}")).is_err()
+        && try_parse(document, &format!("-{{{stem}{text}\n}}")).is_ok()
+}
+
 fn slashdashed_children(input: &mut Input<'_>) -> PResult<()> {
     node_space0.parse_next(input)?;
     trace(
-- 
2.43.0


From 4866a2487d5b2fac7d117fd1aba65641db80cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 21/40] fix: children are printed after the slashdashed entries
 of a node

---
 src/node.rs      | 15 ++++++++++++++-
 src/v2_parser.rs |  9 +++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 6a3f33e..a01efdb 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -861,6 +861,18 @@ impl KdlNode {
             write!(f, "{entry}")?;
             space_before_children = entry.format().is_none();
         }
+        let before_terminator = self.format().map_or("", |fmt| &fmt.before_terminator);
+        // Slashdashed entries have to come before the children.
+        let (before_children, before_terminator) =
+            if self.children.is_some() && v2_parser::must_precede_children(before_terminator) {
+                (before_terminator, "")
+            } else {
+                ("", before_terminator)
+            };
+        write!(f, "{before_children}")?;
+        if v2_parser::leaves_line_open("-", before_children) {
+            writeln!(f)?;
+        }
         if let Some(children) = &self.children {
             if let Some(KdlNodeFormat {
                 before_children, ..
@@ -882,9 +894,10 @@ impl KdlNode {
                 write!(f, "{:indent$}", "", indent = indent)?;
             }
             write!(f, "}}")?;
+        } else if before_terminator.starts_with("/-") {
+            write!(f, " ")?;
         }
         if let Some(KdlNodeFormat {
-            before_terminator,
             terminator,
             trailing,
             ..
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index b660070..c48ecea 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -722,6 +722,15 @@ fn before_node_children_test() {
     assert!(before_node_children.parse(new_input(" /- { bar }")).is_ok());
 }
 
+/// Whether `text`, the end of a node without children, has something in it that
+/// can come before but not after children.
+pub(crate) fn must_precede_children(text: &str) -> bool {
+    text.contains("/-")
+        && try_parse(document, &format!("-{{}}{text}")).is_err()
+        && (try_parse(document, &format!("-{text}{{}}")).is_ok()
+            || try_parse(document, &format!("-{text}\n{{}}")).is_ok())
+}
+
 /// Whether `text`, coming after `stem` in a child block, ends in the middle of
 /// a single-line comment or an escaped line.
 pub(crate) fn leaves_line_open(stem: &str, text: &str) -> bool {
-- 
2.43.0


From f350864f074cfb69b33b7179c12be662281801bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 22/40] fix: children without a closing brace are not printed
 to tell whether there are any

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index c48ecea..f0249ca 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -787,7 +787,7 @@ fn node_children(input: &mut Input<'_>) -> PResult<KdlDocument> {
                     e => return Err(e),
                 };
                 input.record_err(&_before_open, &_before_open, e)?;
-                if !ns.is_empty() {
+                if _after_nodes_loc > _after_open_loc {
                     input.record_err(
                         &_after_nodes,
                         &_after_nodes,
-- 
2.43.0


From 9a8447512f5ccd31c373b2799e922b4a43bef37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 23/40] fix: kdl-lsp keeps the last of several changes and
 survives none

---
 tools/kdl-lsp/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 539061c..adf220d 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -82,8 +82,11 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        self.on_change(params.text_document.uri, &params.content_changes[0].text)
-            .await;
+        // Each change holds the whole text (see `TextDocumentSyncKind::FULL`
+        // above), so the last one is what the document ends up as.
+        if let Some(change) = params.content_changes.last() {
+            self.on_change(params.text_document.uri, &change.text).await;
+        }
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-- 
2.43.0


From 2daa4e61135119b423138995de2a364524f6f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 24/40] fix: kdl-lsp counts lines as the protocol does

---
 tools/kdl-lsp/src/main.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index adf220d..8945b68 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -164,20 +164,28 @@ impl LanguageServer for Backend {
 
 /// Converts a byte offset to an LSP [`Position`].
 ///
-/// This panics when we feed it a byte index that falls somewhere inside a multi-byte UTF-8 char.
+/// Lines are those of the LSP, which only end at `\n`, `\r\n` or `\r`.
+/// [`Rope`] has more line breaks than these.
 fn byte_to_position(byte_idx: usize, rope: &Rope) -> Position {
     // Clamp the byte position to the end of the buffer. Just in case.
     let byte_idx = byte_idx.min(rope.len_bytes());
-    // Get the correct line for that byte offset
-    let line_idx = rope.byte_to_line(byte_idx);
-    // Calculate the correct UTF-16 code unit.
-    // The LSP doesn't use characters for columns, but instead for some reason they chose to use
-    // UTF-16 code units.
-    // If not not explicitly handled as such, passing a UTF-8 char column position would result
-    // in a shift of one char backwards per prior 4-byte UTF-16 character in the current line.
-    let col_idx = rope.char_to_utf16_cu(rope.byte_to_char(byte_idx))
-        - rope.char_to_utf16_cu(rope.line_to_char(line_idx));
-    Position::new(line_idx as u32, col_idx as u32)
+    let mut line = 0;
+    let mut col = 0;
+    let mut chars = rope.chars().peekable();
+    for _ in 0..rope.byte_to_char(byte_idx) {
+        match chars.next() {
+            // Part of a line break that ends with the next character.
+            Some('\r') if chars.peek() == Some(&'\n') => {}
+            Some('\n' | '\r') => {
+                line += 1;
+                col = 0;
+            }
+            // The LSP doesn't use characters for columns, but UTF-16 code units.
+            Some(c) => col += c.len_utf16() as u32,
+            None => break,
+        }
+    }
+    Position::new(line, col)
 }
 
 fn to_lsp_sev(sev: miette::Severity) -> DiagnosticSeverity {
-- 
2.43.0


From 12749d643cfd33195561ed605c4b3d6fe1afa931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 25/40] fix: kdl-lsp survives panics of the v1 parser

---
 tools/kdl-lsp/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 8945b68..847579c 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -106,7 +106,12 @@ impl LanguageServer for Backend {
     ) -> Result<DocumentDiagnosticReportResult> {
         tracing::debug!("diagnostic req");
         if let Some(doc) = self.document_map.get(&params.text_document.uri.to_string()) {
-            let res: std::result::Result<KdlDocument, KdlError> = doc.to_string().parse();
+            let text = doc.to_string();
+            // The parser behind the v1 fallback panics on some texts. That
+            // must not end the server.
+            let res: std::result::Result<KdlDocument, KdlError> =
+                std::panic::catch_unwind(|| text.parse())
+                    .unwrap_or_else(|_| KdlDocument::parse_v2(&text));
             if let Err(kdl_err) = res {
                 let diags = kdl_err
                     .diagnostics
-- 
2.43.0


From ed1fafba5bcf25ef525038c17417efde84cb04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 26/40] fix: names, types and values are written as the version
 converted to has them

---
 src/entry.rs      | 77 ++++++++++++++++++++++++++++++-----------------
 src/identifier.rs | 19 ++++++++++++
 src/node.rs       |  8 ++---
 src/value.rs      | 51 +++++++++++++++++++------------
 4 files changed, 102 insertions(+), 53 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 075870e..7c419d4 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -225,6 +225,8 @@ impl KdlEntry {
 
     /// Makes sure this entry is in v2 format.
     pub fn ensure_v2(&mut self) {
+        self.ty = self.ty.take().map(|ty| ty.value().into());
+        self.name = self.name.take().map(|name| name.value().into());
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
@@ -291,6 +293,16 @@ impl KdlEntry {
     /// Makes sure this entry is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
+        self.ty = self.ty.take().map(|ty| ty.to_v1());
+        self.name = self.name.take().map(|name| name.to_v1());
+        if let Some(format) = &mut self.format {
+            // There's no whitespace around type annotations and `=`.
+            format.before_ty_name.clear();
+            format.after_ty_name.clear();
+            format.after_ty.clear();
+            format.after_key.clear();
+            format.after_eq.clear();
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
@@ -353,37 +365,46 @@ impl KdlEntry {
             }
         });
 
-        if let Some(value_repr) = value_repr.as_ref() {
-            self.format = Some(
-                self.format
-                    .clone()
-                    .map(|mut x| {
-                        x.value_repr = value_repr.into();
-                        x
-                    })
-                    .unwrap_or_else(|| KdlEntryFormat {
-                        value_repr: value_repr.into(),
-                        leading: " ".into(),
-                        ..Default::default()
-                    }),
-            )
-        } else {
-            let v1_val = match self.value() {
-                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()),
-                KdlValue::Integer(i) => kdlv1::KdlValue::Base10(*i as i64),
-                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f),
-                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b),
-                KdlValue::Null => kdlv1::KdlValue::Null,
-            };
-            self.format = Some(KdlEntryFormat {
-                value_repr: v1_val.to_string(),
-                leading: " ".into(),
-                ..Default::default()
-            })
-        }
+        // The conversion above guesses.
+        let value_repr = value_repr
+            .filter(|repr| is_v1_repr_of(repr, &self.value))
+            .unwrap_or_else(|| match &self.value {
+                KdlValue::String(s) => crate::value::quoted(s).replace('/', "\\/"),
+                KdlValue::Bool(b) => b.to_string(),
+                KdlValue::Null => "null".to_string(),
+                KdlValue::Float(f) if f.is_finite() => format!("{f:?}"),
+                KdlValue::Integer(_) | KdlValue::Float(_) => self.value.to_string(),
+            });
+        let format = self.format.get_or_insert_with(|| KdlEntryFormat {
+            leading: " ".into(),
+            ..Default::default()
+        });
+        format.value_repr = value_repr;
     }
 }
 
+/// Whether `repr` is how `value` can be written in KDL v1.
+#[cfg(feature = "v1")]
+fn is_v1_repr_of(repr: &str, value: &KdlValue) -> bool {
+    let Ok(doc) = format!("- {repr}\n").parse::<kdlv1::KdlDocument>() else {
+        return false;
+    };
+    let [node] = doc.nodes() else {
+        return false;
+    };
+    let [entry] = node.entries() else {
+        return false;
+    };
+    entry.name().is_none()
+        && entry.ty().is_none()
+        && node.children().is_none()
+        && entry.value_repr() == Some(repr)
+        && match (KdlValue::from(entry.value().clone()), value) {
+            (KdlValue::Float(a), KdlValue::Float(b)) => a.to_bits() == b.to_bits(),
+            (a, b) => a == *b,
+        }
+}
+
 /// Whether `repr` is how `value` can be written in KDL v2.
 fn is_v2_repr_of(repr: &str, value: &KdlValue) -> bool {
     v2_parser::try_parse(v2_parser::padded_node_entry, repr)
diff --git a/src/identifier.rs b/src/identifier.rs
index 49762f6..a0dcb45 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -114,6 +114,25 @@ impl KdlIdentifier {
     }
 }
 
+#[cfg(feature = "v1")]
+impl KdlIdentifier {
+    /// The same identifier, written the way KDL v1 does.
+    pub(crate) fn to_v1(&self) -> Self {
+        let is_plain = crate::value::is_plain_ident(&self.value)
+            && !self.value.contains(['<', '>', ','])
+            && !self.value.starts_with(char::is_numeric);
+        let repr = if is_plain {
+            self.value.clone()
+        } else {
+            crate::value::quoted(&self.value)
+        };
+        Self {
+            repr: Some(repr),
+            ..self.clone()
+        }
+    }
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlIdentifier> for KdlIdentifier {
     fn from(value: kdlv1::KdlIdentifier) -> Self {
diff --git a/src/node.rs b/src/node.rs
index a01efdb..95616a6 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -376,12 +376,8 @@ impl KdlNode {
     /// Makes sure this node is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        self.ty = self.ty.take().map(|ty| {
-            let v1_name: kdlv1::KdlIdentifier = ty.value().into();
-            v1_name.into()
-        });
-        let v1_name: kdlv1::KdlIdentifier = self.name.value().into();
-        self.name = v1_name.into();
+        self.ty = self.ty.take().map(|ty| ty.to_v1());
+        self.name = self.name.to_v1();
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
diff --git a/src/value.rs b/src/value.rs
index 1a44f95..3207748 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -170,6 +170,37 @@ pub(crate) fn is_plain_ident(ident: &str) -> bool {
         && ident != "null"
 }
 
+/// The string with quotes around it.
+#[cfg(feature = "v1")]
+pub(crate) fn quoted(string: &str) -> String {
+    let mut quoted = String::new();
+    write_quoted(&mut quoted, string).expect("writing to a String");
+    quoted
+}
+
+/// Writes a string with quotes, in a way that both KDL v1 and v2 allow.
+pub(crate) fn write_quoted(f: &mut impl std::fmt::Write, string: &str) -> std::fmt::Result {
+    write!(f, "\"")?;
+    for char in string.chars() {
+        match char {
+            '\\' | '"' => write!(f, "\\{char}")?,
+            '\n' => write!(f, "\\n")?,
+            '\r' => write!(f, "\\r")?,
+            '\t' => write!(f, "\\t")?,
+            '\u{08}' => write!(f, "\\b")?,
+            '\u{0C}' => write!(f, "\\f")?,
+            // Neither of these can be written literally.
+            c if crate::v2_parser::is_disallowed_unicode(c)
+                || crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) =>
+            {
+                write!(f, "\\u{{{:x}}}", c as u32)?
+            }
+            _ => write!(f, "{char}")?,
+        }
+    }
+    write!(f, "\"")
+}
+
 #[cfg(test)]
 #[test]
 fn plain_ident_test() {
@@ -183,25 +214,7 @@ impl KdlValue {
         if is_plain_ident(string) {
             write!(f, "{string}")?;
         } else {
-            write!(f, "\"")?;
-            for char in string.chars() {
-                match char {
-                    '\\' | '"' => write!(f, "\\{char}")?,
-                    '\n' => write!(f, "\\n")?,
-                    '\r' => write!(f, "\\r")?,
-                    '\t' => write!(f, "\\t")?,
-                    '\u{08}' => write!(f, "\\b")?,
-                    '\u{0C}' => write!(f, "\\f")?,
-                    // Neither of these can be written literally.
-                    c if crate::v2_parser::is_disallowed_unicode(c)
-                        || crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) =>
-                    {
-                        write!(f, "\\u{{{:x}}}", c as u32)?
-                    }
-                    _ => write!(f, "{char}")?,
-                }
-            }
-            write!(f, "\"")?;
+            write_quoted(f, string)?;
         }
         Ok(())
     }
-- 
2.43.0


From bc32122fd55db237c26c482634e0347fa75a7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 27/40] fix: formatting is converted between versions along
 with the rest

---
 src/convert.rs  | 102 ++++++++++++++++++++++++++++++++++++++++++++++++
 src/document.rs |  14 +++----
 src/entry.rs    |  11 +++++-
 src/lib.rs      |   1 +
 src/node.rs     |  26 ++++++++++++
 5 files changed, 146 insertions(+), 8 deletions(-)
 create mode 100644 src/convert.rs

diff --git a/src/convert.rs b/src/convert.rs
new file mode 100644
index 0000000..57df019
--- /dev/null
+++ b/src/convert.rs
@@ -0,0 +1,102 @@
+//! Conversion of formatting details between versions of KDL.
+
+use crate::{KdlDocument, KdlDocumentFormat, KdlEntryFormat, KdlNodeFormat};
+
+/// For each node of a text, how many entries it has, and whether it has
+/// children. `None` if the text isn't valid.
+type Shape = fn(&str) -> Option<Vec<(usize, bool)>>;
+
+pub(crate) fn v2_shape(text: &str) -> Option<Vec<(usize, bool)>> {
+    let doc = KdlDocument::parse_v2(text).ok()?;
+    let nodes = doc.nodes().iter();
+    Some(
+        nodes
+            .map(|n| (n.entries().len(), n.children().is_some()))
+            .collect(),
+    )
+}
+
+#[cfg(feature = "v1")]
+pub(crate) fn v1_shape(text: &str) -> Option<Vec<(usize, bool)>> {
+    let doc: kdlv1::KdlDocument = text.parse().ok()?;
+    let nodes = doc.nodes().iter();
+    Some(
+        nodes
+            .map(|n| (n.entries().len(), n.children().is_some()))
+            .collect(),
+    )
+}
+
+/// Replaces vertical tabs, which aren't newlines in KDL v1.
+#[cfg(feature = "v1")]
+pub(crate) fn convert_newlines<'a>(texts: impl IntoIterator<Item = &'a mut String>) {
+    for text in texts {
+        *text = text.replace('\u{B}', "\n");
+    }
+}
+
+/// Makes sure that the text around an entry only consists of whitespace,
+/// comments and slashdashed entries of the version.
+pub(crate) fn convert_entry_format(fmt: &mut KdlEntryFormat, shape: Shape) {
+    let leading = &mut fmt.leading;
+    if !leading.is_empty() && shape(&format!("-{leading}1\n")) != Some(vec![(1, false)]) {
+        *leading = " ".into();
+    }
+    let trailing = &mut fmt.trailing;
+    if !trailing.is_empty() && shape(&format!("- 1{trailing} 1\n")) != Some(vec![(2, false)]) {
+        trailing.clear();
+    }
+}
+
+/// Makes sure that the text around a node only consists of whitespace,
+/// comments, slashdashed things and terminators of the version.
+pub(crate) fn convert_node_format(fmt: &mut KdlNodeFormat, has_children: bool, shape: Shape) {
+    convert_lines(&mut fmt.leading, shape);
+    let before = &mut fmt.before_children;
+    if has_children && shape(&format!("-{before}{{}}\n")) != Some(vec![(0, true)]) {
+        *before = " ".into();
+    }
+    let stem = if has_children { "-{}" } else { "-" };
+    let ends_node = |fmt: &KdlNodeFormat| {
+        let end = format!(
+            "{}{}{}",
+            fmt.before_terminator, fmt.terminator, fmt.trailing
+        );
+        let node = (0, has_children);
+        shape(&format!("{stem}{end}-\n")) == Some(vec![node, (0, false)])
+            || (fmt.terminator.is_empty() && shape(&format!("{stem}{end}")) == Some(vec![node]))
+    };
+    if !ends_node(fmt) {
+        fmt.trailing.clear();
+    }
+    if !ends_node(fmt) {
+        fmt.before_terminator.clear();
+    }
+    if !ends_node(fmt) {
+        fmt.terminator = "\n".into();
+    }
+}
+
+/// Makes sure that the text around the nodes of a document only consists of
+/// whitespace, comments and slashdashed nodes of the version.
+pub(crate) fn convert_document_format(fmt: &mut KdlDocumentFormat, shape: Shape) {
+    convert_lines(&mut fmt.leading, shape);
+    convert_lines(&mut fmt.trailing, shape);
+}
+
+fn convert_lines(text: &mut String, shape: Shape) {
+    let fits = |text: &str| {
+        let between = shape(&format!("-\n{text}\n-\n")) == Some(vec![(0, false); 2]);
+        let at_end = || shape(&format!("-{{-\n{text}}}\n")) == Some(vec![(0, true)]);
+        between && (!text.contains("/-") || at_end())
+    };
+    // In KDL v1, there may be BOMs anywhere, and slashdashed nodes always have
+    // a terminator.
+    let spaced = text.replace('\u{FEFF}', " ");
+    let terminated = format!("{spaced}\n");
+    let candidates = [text.clone(), spaced, terminated];
+    *text = candidates
+        .into_iter()
+        .find(|text| fits(text))
+        .unwrap_or_default();
+}
diff --git a/src/document.rs b/src/document.rs
index 7999755..ff40c79 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -398,21 +398,17 @@ impl KdlDocument {
 
     /// Makes sure this document is in v2 format.
     pub fn ensure_v2(&mut self) {
-        // No need to touch KdlDocumentFormat, probably. In the longer term,
-        // we'll want to make sure to parse out whitespace and comments and make
-        // sure they're actually compliant, but this is good enough for now.
         for node in self.nodes_mut().iter_mut() {
             node.ensure_v2();
         }
+        if let Some(fmt) = &mut self.format {
+            crate::convert::convert_document_format(fmt, crate::convert::v2_shape);
+        }
     }
 
     /// Makes sure this document is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        // No need to touch KdlDocumentFormat, probably. In the longer term,
-        // we'll want to make sure to parse out whitespace and comments and make
-        // sure they're actually compliant, but this is good enough for now.
-
         // the last node in v1 docs/children has to have a semicolon.
         let mut iter = self.nodes_mut().iter_mut().rev();
         let last = iter.next();
@@ -449,6 +445,10 @@ impl KdlDocument {
         for node in self.nodes_mut().iter_mut() {
             node.ensure_v1();
         }
+        if let Some(fmt) = &mut self.format {
+            crate::convert::convert_newlines([&mut fmt.leading, &mut fmt.trailing]);
+            crate::convert::convert_document_format(fmt, crate::convert::v1_shape);
+        }
     }
 }
 
diff --git a/src/entry.rs b/src/entry.rs
index 7c419d4..24d0592 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -2,7 +2,11 @@
 use miette::SourceSpan;
 use std::{fmt::Display, str::FromStr};
 
-use crate::{KdlError, KdlIdentifier, KdlValue, v2_parser};
+use crate::{
+    KdlError, KdlIdentifier, KdlValue,
+    convert::{self, convert_entry_format},
+    v2_parser,
+};
 
 /// KDL Entries are the "arguments" to KDL nodes: either a (positional)
 /// [`Argument`](https://github.com/kdl-org/kdl/blob/main/SPEC.md#argument) or
@@ -227,6 +231,9 @@ impl KdlEntry {
     pub fn ensure_v2(&mut self) {
         self.ty = self.ty.take().map(|ty| ty.value().into());
         self.name = self.name.take().map(|name| name.value().into());
+        if let Some(format) = &mut self.format {
+            convert_entry_format(format, convert::v2_shape);
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
@@ -302,6 +309,8 @@ impl KdlEntry {
             format.after_ty.clear();
             format.after_key.clear();
             format.after_eq.clear();
+            convert::convert_newlines([&mut format.leading, &mut format.trailing]);
+            convert_entry_format(format, convert::v1_shape);
         }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
diff --git a/src/lib.rs b/src/lib.rs
index f81ae70..a3b5a9f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -195,6 +195,7 @@ pub use node::*;
 // pub use query::*;
 pub use value::*;
 
+mod convert;
 mod document;
 mod entry;
 mod error;
diff --git a/src/node.rs b/src/node.rs
index 95616a6..b016991 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -11,6 +11,7 @@ use miette::SourceSpan;
 
 use crate::{
     FormatConfig, KdlDocument, KdlDocumentFormat, KdlEntry, KdlError, KdlIdentifier, KdlValue,
+    convert::{self, convert_node_format},
     v2_parser,
 };
 
@@ -371,6 +372,9 @@ impl KdlNode {
             doc.ensure_v2();
             doc
         });
+        if let Some(fmt) = &mut self.format {
+            convert_node_format(fmt, self.children.is_some(), convert::v2_shape);
+        }
     }
 
     /// Makes sure this node is in v1 format.
@@ -383,8 +387,30 @@ impl KdlNode {
         }
         self.children = self.children.take().map(|mut children| {
             children.ensure_v1();
+            // The last node has to have a terminator.
+            if let Some(last) = children.nodes_mut().last_mut() {
+                if last.format.is_some() && !last.missing_terminator().is_empty() {
+                    if let Some(fmt) = last.format_mut() {
+                        fmt.terminator = ";".into();
+                    }
+                }
+            }
             children
         });
+        if let Some(fmt) = &mut self.format {
+            // There's no whitespace around type annotations.
+            fmt.before_ty_name.clear();
+            fmt.after_ty_name.clear();
+            fmt.after_ty.clear();
+            convert::convert_newlines([
+                &mut fmt.leading,
+                &mut fmt.before_children,
+                &mut fmt.before_terminator,
+                &mut fmt.terminator,
+                &mut fmt.trailing,
+            ]);
+            convert_node_format(fmt, self.children.is_some(), convert::v1_shape);
+        }
     }
 }
 
-- 
2.43.0


From 8ecd1cf6696b8bce8e35d246577a300478dd5f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 28/40] fix: what follows a node is kept when converting from
 v1

---
 src/node.rs | 93 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 27 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index b016991..d1aa723 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -414,35 +414,74 @@ impl KdlNode {
     }
 }
 
+/// Splits what follows a KDL v1 node into whitespace and comments, the
+/// terminator, and what follows that.
 #[cfg(feature = "v1")]
-impl From<kdlv1::KdlNode> for KdlNode {
-    fn from(value: kdlv1::KdlNode) -> Self {
-        let terminator = value
-            .trailing()
-            .map(|t| if t.contains(';') { ";" } else { "\n" })
-            .unwrap_or("\n");
-        let trailing = value.trailing().map(|t| {
-            if t.contains(';') {
-                t.replace(';', "")
-            } else {
-                let t = t.replace("\r\n", "\n");
-                let t = t
-                    .chars()
-                    .map(|c| {
-                        if v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) {
-                            '\n'
-                        } else {
-                            c
-                        }
-                    })
-                    .collect::<String>();
-                if terminator == ";" {
-                    t
+fn split_v1_end(end: &str) -> (&str, &str, &str) {
+    let is_newline = |c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c));
+    let after_line = |text: &str| match text.find(is_newline) {
+        Some(at) if text[at..].starts_with("\r\n") => at + 2,
+        Some(at) => at + text[at..].chars().next().map_or(0, char::len_utf8),
+        None => text.len(),
+    };
+    let ends_here = |text: &str| {
+        text.starts_with(';') || text.starts_with("//") || text.starts_with(is_newline)
+    };
+    let mut at = 0;
+    while let Some(c) = end[at..].chars().next() {
+        let rest = &end[at..];
+        if rest.starts_with("/*") {
+            let mut depth = 0;
+            loop {
+                let rest = &end[at..];
+                if rest.starts_with("/*") {
+                    depth += 1;
+                    at += 2;
+                } else if rest.starts_with("*/") {
+                    depth -= 1;
+                    at += 2;
                 } else {
-                    t.replacen('\n', "", 1)
+                    at += rest.chars().next().map_or(0, char::len_utf8);
+                }
+                if depth == 0 || at == end.len() {
+                    break;
                 }
             }
-        });
+        } else if c == '\\' {
+            at += after_line(rest);
+        } else if ends_here(rest) {
+            break;
+        } else if rest.starts_with("/-") {
+            // There's no telling how long this is without parsing it.
+            at += rest
+                .char_indices()
+                .map(|(len, _)| len)
+                .filter(|len| ends_here(&rest[*len..]))
+                .find(|len| {
+                    let node = format!("-{}\n", &end[..at + len]);
+                    convert::v1_shape(&node) == Some(vec![(0, false)])
+                })
+                .unwrap_or(rest.len());
+            break;
+        } else {
+            at += c.len_utf8();
+        }
+    }
+    let (before, rest) = end.split_at(at);
+    let terminator = if rest.starts_with(';') {
+        1
+    } else {
+        after_line(rest)
+    };
+    let (terminator, trailing) = rest.split_at(terminator);
+    (before, terminator, trailing)
+}
+
+#[cfg(feature = "v1")]
+impl From<kdlv1::KdlNode> for KdlNode {
+    fn from(value: kdlv1::KdlNode) -> Self {
+        let end = value.trailing().unwrap_or("\n");
+        let (before_terminator, terminator, trailing) = split_v1_end(end);
         KdlNode {
             ty: value.ty().map(|x| x.clone().into()),
             name: value.name().clone().into(),
@@ -454,9 +493,9 @@ impl From<kdlv1::KdlNode> for KdlNode {
                 after_ty_name: "".into(),
                 after_ty: "".into(),
                 before_children: value.before_children().unwrap_or("").into(),
-                before_terminator: "".into(),
+                before_terminator: before_terminator.into(),
                 terminator: terminator.into(),
-                trailing: trailing.unwrap_or_else(|| "".into()),
+                trailing: trailing.into(),
             }),
             #[cfg(feature = "span")]
             span: SourceSpan::new(value.span().offset().into(), value.span().len()),
-- 
2.43.0


From 8708b5dbfc5fd503c8a1ab68eed6aa691299fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 29/40] fix: options and newtypes in places the deserializer
 did not take them

An optional #type, #name or #0#type, an optional or newtype field of nodes with the same name, and a newtype around an option of a child that is not there all failed with an invalid type.
---
 src/de.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 83df6bf..0437f53 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -434,6 +434,10 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
         visitor.visit_newtype_struct(self)
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_enum<V: Visitor<'de>>(
         self,
         _name: &'static str,
@@ -446,7 +450,7 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
         bytes byte_buf unit unit_struct seq tuple
-        tuple_struct map struct option identifier ignored_any
+        tuple_struct map struct identifier ignored_any
     }
 }
 
@@ -1081,9 +1085,21 @@ impl<'de, 'a> de::Deserializer<'de> for NodeGroupDeserializer<'a> {
         })
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct tuple
+        bytes byte_buf unit unit_struct tuple
         tuple_struct map struct enum identifier ignored_any
     }
 }
@@ -1353,9 +1369,17 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
         visitor.visit_none()
     }
 
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct tuple newtype_struct seq
+        bytes byte_buf unit unit_struct tuple seq
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From e520d180e23a710b0a25332cbed1e674473abcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 30/40] fix: maps with keys that are not strings could not be
 deserialized

The serializer writes them, as the names of nodes.
---
 src/de.rs | 77 ++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 7 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 0437f53..0f3abf5 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -205,7 +205,6 @@ use std::{fmt, iter};
 
 use miette::{Diagnostic, LabeledSpan, Severity, SourceCode, SourceSpan};
 use serde::Deserialize;
-use serde::de::value::StringDeserializer;
 use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
 
 use crate::{KdlDiagnostic, KdlDocument, KdlEntry, KdlIdentifier, KdlNode, KdlValue};
@@ -474,6 +473,73 @@ impl<'a> IdentDeserializer<'a> {
     }
 }
 
+/// The names that are the keys of maps. As these are always strings, other
+/// kinds of keys are whatever the name can be parsed as.
+struct KeyDeserializer<'a> {
+    key: &'a str,
+}
+
+macro_rules! deserialize_parsed_key {
+    ($($method:ident => $visit:ident,)*) => {$(
+        fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+            match self.key.parse() {
+                Ok(key) => visitor.$visit(key),
+                Err(_) => visitor.visit_str(self.key),
+            }
+        }
+    )*}
+}
+
+impl<'de, 'a> de::Deserializer<'de> for KeyDeserializer<'a> {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_str(self.key)
+    }
+
+    deserialize_parsed_key! {
+        deserialize_bool => visit_bool,
+        deserialize_i8 => visit_i8,
+        deserialize_i16 => visit_i16,
+        deserialize_i32 => visit_i32,
+        deserialize_i64 => visit_i64,
+        deserialize_i128 => visit_i128,
+        deserialize_u8 => visit_u8,
+        deserialize_u16 => visit_u16,
+        deserialize_u32 => visit_u32,
+        deserialize_u64 => visit_u64,
+        deserialize_u128 => visit_u128,
+        deserialize_f32 => visit_f32,
+        deserialize_f64 => visit_f64,
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_enum(str_deserializer(self.key))
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple
+        tuple_struct map struct identifier ignored_any
+    }
+}
+
 struct ValueDeserializer<'a> {
     value: &'a KdlValue,
     input: &'a Arc<String>,
@@ -705,7 +771,7 @@ impl<'de, 'a> MapAccess<'de> for DocumentMapAccess<'a> {
             return Ok(None);
         }
         let key = self.keys[self.idx];
-        seed.deserialize(str_deserializer(key)).map(Some)
+        seed.deserialize(KeyDeserializer { key }).map(Some)
     }
 
     fn next_value_seed<V: DeserializeSeed<'de>>(
@@ -1266,11 +1332,8 @@ impl<'de, 'a> MapAccess<'de> for NodeMapAccess<'a> {
         if self.idx >= self.entries.len() {
             return Ok(None);
         }
-        match &self.entries[self.idx].0 {
-            Cow::Borrowed(s) => seed.deserialize(str_deserializer(s)),
-            Cow::Owned(s) => seed.deserialize(StringDeserializer::new(s.clone())),
-        }
-        .map(Some)
+        let key = &self.entries[self.idx].0;
+        seed.deserialize(KeyDeserializer { key }).map(Some)
     }
 
     fn next_value_seed<V: DeserializeSeed<'de>>(
-- 
2.43.0


From 941f85e3c40718806145f3fbdc2c1528a8f21e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 31/40] fix: documents could not be deserialized to tuples

They can be to sequences, and the serializer writes tuples like these.
---
 src/de.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 0f3abf5..e985dfc 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -663,6 +663,23 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         })
     }
 
+    fn deserialize_tuple<V: Visitor<'de>>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         if self.doc.nodes().is_empty() {
             visitor.visit_none()
@@ -718,8 +735,7 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         i64 i128 u8 u16
         u32 u64 u128 f32
         f64 char str string
-        bytes byte_buf tuple
-        tuple_struct identifier ignored_any
+        bytes byte_buf identifier ignored_any
     }
 }
 
-- 
2.43.0


From c554d19c8469d48d9fb73317f6f75cc936dbfcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 32/40] fix: arguments were ignored when a node has empty
 children

Sequences were read from the empty block, unlike those of nodes without one.
---
 src/de.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index e985dfc..8c4d497 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -983,13 +983,14 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
     fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         let args = self.args();
 
-        if !args.is_empty() && self.node.children().is_none() {
+        let children = self.node.children();
+        if !args.is_empty() && children.is_none_or(|children| children.nodes().is_empty()) {
             // Arguments → sequence
             visitor.visit_seq(ArgSeqAccess {
                 iter: args.into_iter(),
                 input: self.input,
             })
-        } else if let Some(children) = self.node.children() {
+        } else if let Some(children) = children {
             // Children → sequence of nodes
             visitor.visit_seq(NodeListSeqAccess {
                 iter: children.nodes().iter(),
-- 
2.43.0


From 31edfc7f90d85f08aa55c771d923684f6566d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 33/40] fix: repeated properties were reported as duplicate
 fields

Of properties with the same name it's the last that counts, as it says in the specification.
---
 src/de.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 8c4d497..db803ea 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -200,6 +200,7 @@
 //! ```
 
 use std::borrow::Cow;
+use std::collections::HashSet;
 use std::sync::Arc;
 use std::{fmt, iter};
 
@@ -812,6 +813,20 @@ impl<'de, 'a> MapAccess<'de> for DocumentMapAccess<'a> {
     }
 }
 
+/// The properties of a node. Of those with the same name, it's the last one
+/// that counts.
+fn props(node: &KdlNode) -> Vec<&KdlEntry> {
+    let mut seen = HashSet::new();
+    let mut props: Vec<_> = node
+        .entries()
+        .iter()
+        .rev()
+        .filter(|e| e.name().is_some_and(|name| seen.insert(name.value())))
+        .collect();
+    props.reverse();
+    props
+}
+
 struct NodeDeserializer<'a> {
     node: &'a KdlNode,
     input: &'a Arc<String>,
@@ -827,11 +842,7 @@ impl<'a> NodeDeserializer<'a> {
     }
 
     fn props(&self) -> Vec<&'a KdlEntry> {
-        self.node
-            .entries()
-            .iter()
-            .filter(|e| e.name().is_some())
-            .collect()
+        props(self.node)
     }
 
     /// Returns true if this node has only a single argument and nothing else.
@@ -1282,8 +1293,8 @@ impl<'a> NodeMapAccess<'a> {
         }
 
         let mut used_names = Vec::new();
-        for prop in node.entries().iter().filter(|e| e.name().is_some()) {
-            // SAFETY: we just filtered for things with names.
+        for prop in props(node) {
+            // SAFETY: props() filters for things with names.
             let name = prop.name().unwrap().value();
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
-- 
2.43.0


From 3ea2f255124af5e5911942ee56a3b572e668cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 34/40] fix: entries were given to structs under names they did
 not ask for

The type annotation of an argument made structs with deny_unknown_fields fail, and a property taken by a #@ field was also the value of the field with its plain name.
---
 src/de.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index db803ea..3cb8274 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1275,7 +1275,9 @@ impl<'a> NodeMapAccess<'a> {
                 }
                 let idx_name = format!("#{i}");
                 let ty_name = format!("{idx_name}#type");
-                if let Some(ty) = arg.ty() {
+                if let Some(ty) = arg.ty()
+                    && fields.contains(&ty_name.as_ref())
+                {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
                 if fields.contains(&idx_name.as_ref()) {
@@ -1299,14 +1301,16 @@ impl<'a> NodeMapAccess<'a> {
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
                 let ty_name = format!("{hash_name}#type");
-                if fields.contains(&hash_name.as_ref()) {
-                    entries.push((hash_name.into(), NodeMapValue::Arg(prop)));
-                }
                 if let Some(ty) = prop.ty()
                     && fields.contains(&ty_name.as_ref())
                 {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
+                if fields.contains(&hash_name.as_ref()) {
+                    // A field of the plain name, if any, is for a child.
+                    entries.push((hash_name.into(), NodeMapValue::Arg(prop)));
+                    continue;
+                }
             }
             entries.push((name.into(), NodeMapValue::Arg(prop)));
             used_names.push(name);
-- 
2.43.0


From d31f7f041f05728d479d8833238dfd1f6e2fe979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 35/40] fix: enum variants with fields did not read back

The # fields of struct variants were not taken at all, nor from the node around that of the variant where the serializer puts them, and neither was a unit variant as the whole document.
---
 src/de.rs | 61 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 3cb8274..cf9b16c 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -711,16 +711,26 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
 
     fn deserialize_enum<V: Visitor<'de>>(
         self,
-        _name: &'static str,
-        _variants: &'static [&'static str],
+        name: &'static str,
+        variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
         // For enums at document level, treat as a single-node document where
         // the node name is the variant.
         let nodes = self.doc.nodes();
         if nodes.len() == 1 {
+            let node = &nodes[0];
+            if node.name().value() == "-" && !variants.contains(&"-") {
+                // What the serializer writes for a unit variant.
+                return NodeDeserializer {
+                    node,
+                    input: self.input,
+                }
+                .deserialize_enum(name, variants, visitor);
+            }
             visitor.visit_enum(NodeEnumAccess {
-                node: &nodes[0],
+                node,
+                outer: None,
                 input: self.input,
             })
         } else {
@@ -1034,7 +1044,7 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        visitor.visit_map(NodeMapAccess::new(self.node, self.input, None))
+        visitor.visit_map(NodeMapAccess::new(self.node, None, self.input, None))
     }
 
     fn deserialize_struct<V: Visitor<'de>>(
@@ -1043,7 +1053,12 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
         fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        visitor.visit_map(NodeMapAccess::new(self.node, self.input, Some(fields)))
+        visitor.visit_map(NodeMapAccess::new(
+            self.node,
+            None,
+            self.input,
+            Some(fields),
+        ))
     }
 
     fn deserialize_enum<V: Visitor<'de>>(
@@ -1074,6 +1089,7 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
             if child_nodes.len() == 1 {
                 return visitor.visit_enum(NodeEnumAccess {
                     node: &child_nodes[0],
+                    outer: Some(self.node),
                     input: self.input,
                 });
             }
@@ -1094,6 +1110,7 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
         // Fall back: just node name is variant
         visitor.visit_enum(NodeEnumAccess {
             node: self.node,
+            outer: None,
             input: self.input,
         })
     }
@@ -1243,17 +1260,23 @@ enum NodeMapValue<'a> {
 impl<'a> NodeMapAccess<'a> {
     fn new(
         node: &'a KdlNode,
+        outer: Option<&'a KdlNode>,
         input: &'a Arc<String>,
         fields: Option<&'static [&'static str]>,
     ) -> Self {
         let mut entries: Vec<(Cow<'a, str>, NodeMapValue<'a>)> = Vec::new();
 
+        // The serializer puts the entries of a struct variant on the node
+        // around the one of the variant.
+        let outer = outer.filter(|_| node.entries().is_empty() && node.ty().is_none());
+        let holder = outer.unwrap_or(node);
+
         if let Some(fields) = fields {
             if fields.contains(&"#name") {
                 entries.push(("#name".into(), NodeMapValue::Ident(node.name())));
             }
             if fields.contains(&"#type")
-                && let Some(ty) = node.ty()
+                && let Some(ty) = holder.ty()
             {
                 entries.push(("#type".into(), NodeMapValue::Ident(ty)));
             }
@@ -1264,7 +1287,7 @@ impl<'a> NodeMapAccess<'a> {
         {
             let mut args = Vec::new();
             let mut rest = Vec::new();
-            for (i, arg) in node
+            for (i, arg) in holder
                 .entries()
                 .iter()
                 .filter(|e| e.name().is_none())
@@ -1295,7 +1318,7 @@ impl<'a> NodeMapAccess<'a> {
         }
 
         let mut used_names = Vec::new();
-        for prop in props(node) {
+        for prop in props(holder) {
             // SAFETY: props() filters for things with names.
             let name = prop.name().unwrap().value();
             if let Some(fields) = fields {
@@ -1312,6 +1335,9 @@ impl<'a> NodeMapAccess<'a> {
                     continue;
                 }
             }
+            if outer.is_some() {
+                continue;
+            }
             entries.push((name.into(), NodeMapValue::Arg(prop)));
             used_names.push(name);
         }
@@ -1481,6 +1507,8 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
 
 struct NodeEnumAccess<'a> {
     node: &'a KdlNode,
+    /// The node that `node` is the only child of.
+    outer: Option<&'a KdlNode>,
     input: &'a Arc<String>,
 }
 
@@ -1506,6 +1534,7 @@ impl<'de, 'a> de::EnumAccess<'de> for NodeEnumAccess<'a> {
             val,
             NodeVariantAccess {
                 node: self.node,
+                outer: self.outer,
                 input: self.input,
             },
         ))
@@ -1514,6 +1543,7 @@ impl<'de, 'a> de::EnumAccess<'de> for NodeEnumAccess<'a> {
 
 struct NodeVariantAccess<'a> {
     node: &'a KdlNode,
+    outer: Option<&'a KdlNode>,
     input: &'a Arc<String>,
 }
 
@@ -1550,16 +1580,15 @@ impl<'de, 'a> de::VariantAccess<'de> for NodeVariantAccess<'a> {
 
     fn struct_variant<V: Visitor<'de>>(
         self,
-        _fields: &'static [&'static str],
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        de::Deserializer::deserialize_map(
-            NodeDeserializer {
-                node: self.node,
-                input: self.input,
-            },
-            visitor,
-        )
+        visitor.visit_map(NodeMapAccess::new(
+            self.node,
+            self.outer,
+            self.input,
+            Some(fields),
+        ))
     }
 }
 
-- 
2.43.0


From 3ff01fc2542d53eab886aa05c15a2c018563b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 36/40] fix: tuple variants were written as several nodes

At the top of the document each field became a node of the variant's name, which can't be read as one variant.
---
 src/se.rs | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 920527a..b0ec491 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -106,7 +106,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     type SerializeSeq = SeqNodeSerializer<'a>;
     type SerializeTuple = SeqNodeSerializer<'a>;
     type SerializeTupleStruct = SeqNodeSerializer<'a>;
-    type SerializeTupleVariant = SeqNodeSerializer<'a>;
+    type SerializeTupleVariant = NodeChildSeqSerializer<'a>;
     type SerializeMap = MapNodeSerializer<'a>;
     type SerializeStruct = MapNodeSerializer<'a>;
     type SerializeStructVariant = StructVariantSerializer<'a>;
@@ -256,9 +256,10 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqNodeSerializer {
+        Ok(NodeChildSeqSerializer {
             nodes: &mut self.doc.nodes,
-            node_name: variant,
+            variant_name: Some(variant),
+            items: Vec::new(),
         })
     }
 
@@ -343,19 +344,6 @@ impl<'a> ser::SerializeTupleStruct for SeqNodeSerializer<'a> {
     }
 }
 
-impl<'a> ser::SerializeTupleVariant for SeqNodeSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
 struct MapNodeSerializer<'a> {
     nodes: &'a mut Vec<KdlNode>,
     current_key: Option<String>,
@@ -642,7 +630,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
         Ok(NodeChildSeqSerializer {
-            parent: self.node,
+            nodes: self.node.ensure_children().nodes_mut(),
             variant_name: Some(variant),
             items: Vec::new(),
         })
@@ -727,7 +715,7 @@ impl<'a> ser::SerializeTupleStruct for NodeSeqSerializer<'a> {
 }
 
 struct NodeChildSeqSerializer<'a> {
-    parent: &'a mut KdlNode,
+    nodes: &'a mut Vec<KdlNode>,
     variant_name: Option<&'static str>,
     items: Vec<KdlValue>,
 }
@@ -748,8 +736,7 @@ impl<'a> ser::SerializeTupleVariant for NodeChildSeqSerializer<'a> {
         for item in self.items {
             node.entries_mut().push(KdlEntry::new(item));
         }
-        let children = self.parent.ensure_children();
-        children.nodes_mut().push(node);
+        self.nodes.push(node);
         Ok(())
     }
 }
-- 
2.43.0


From 44cb30ba9cb6e47b7c52293e4f55f9f22d97c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 37/40] fix: fields and options were written as something else
 than they are read from

Arguments are at the index in the name of their field, with those of #rest in the places between; #name and #type and the types of entries were indices that failed to parse, and the entries in struct variants were lost. Fields are left out for being false or None, not for being a node that begins with such an argument, and entries of maps and Some are not left out. An option that would be read as another value is an error.
---
 src/se.rs | 615 +++++++++++++++++++++---------------------------------
 1 file changed, 243 insertions(+), 372 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index b0ec491..83668e3 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -35,7 +35,7 @@
 //! (de)serialization model.
 
 use serde::ser::{self, Serialize};
-use std::{collections::HashSet, fmt};
+use std::{collections::BTreeMap, fmt};
 
 use crate::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 
@@ -290,9 +290,8 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(StructVariantSerializer {
             parent_nodes: &mut self.doc.nodes,
-            variant,
-            children: KdlDocument::new(),
-            used_indices: Default::default(),
+            node: KdlNode::new(variant),
+            fields: NodeFields::default(),
         })
     }
 }
@@ -384,14 +383,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
         value: &T,
     ) -> Result<(), Self::Error> {
         let mut node = KdlNode::new(key);
-        serialize_value_into_node(&mut node, value)?;
-        match node.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                self.nodes.push(node);
-            }
+        if serialize_value_into_node(&mut node, value)? {
+            self.nodes.push(node);
         }
         Ok(())
     }
@@ -403,9 +396,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
 
 struct StructVariantSerializer<'a> {
     parent_nodes: &'a mut Vec<KdlNode>,
-    variant: &'static str,
-    used_indices: HashSet<usize>,
-    children: KdlDocument,
+    node: KdlNode,
+    fields: NodeFields,
 }
 
 impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
@@ -417,68 +409,198 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            node.entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            let mut ser = RestSerializer {
-                node: &mut node,
-                used_indices: &self.used_indices,
-            };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            let idx: usize = key.strip_prefix('#').unwrap().parse().map_err(|e| Error {
-                msg: format!("Failed to parse index rename {key}: {e}"),
-            })?;
-            self.used_indices.insert(idx);
-            let kdl_val = to_kdl_value(value)?;
-            node.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
-            let children = node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
+        if !self.fields.serialize_field(key, value)? {
+            serialize_child(&mut self.node, key, value)?;
+        }
+        Ok(())
+    }
+
+    fn end(mut self) -> Result<Self::Ok, Self::Error> {
+        let variant = self.node.name().value().to_string();
+        self.fields.finish(&mut self.node, &variant)?;
+        self.parent_nodes.push(self.node);
+        Ok(())
+    }
+}
+
+/// Serializes a field as a child, unless it's one that's told by not being
+/// there.
+fn serialize_child<T: ?Sized + Serialize>(
+    node: &mut KdlNode,
+    key: &'static str,
+    value: &T,
+) -> Result<(), Error> {
+    let mut child = KdlNode::new(key);
+    let is_present = serialize_value_into_node(&mut child, value)?;
+    let children = node.ensure_children();
+    if is_present {
+        children.nodes_mut().push(child);
+    }
+    Ok(())
+}
+
+/// The fields with special names (see [`crate::de`]), which become the entries
+/// and the type annotations of a node.
+#[derive(Default)]
+struct NodeFields {
+    name: Option<Option<String>>,
+    ty: Option<String>,
+    /// `#{n}`
+    indexed: BTreeMap<usize, KdlValue>,
+    /// `#{n}#type`
+    indexed_ty: BTreeMap<usize, String>,
+    /// `#args`
+    args: Option<Vec<KdlValue>>,
+    /// `#rest`
+    rest: Option<Vec<KdlValue>>,
+    /// `#@name`
+    props: Vec<(String, KdlValue)>,
+    /// `#@name#type`
+    props_ty: BTreeMap<String, String>,
+}
+
+impl NodeFields {
+    /// Takes the field if its name is special.
+    fn serialize_field<T: ?Sized + Serialize>(
+        &mut self,
+        key: &'static str,
+        value: &T,
+    ) -> Result<bool, Error> {
+        let Some(special) = key.strip_prefix('#') else {
+            return Ok(false);
+        };
+        match special {
+            "name" => self.name = Some(to_annotation(value)?),
+            "type" => self.ty = to_annotation(value)?,
+            "args" => self.args = Some(to_args(value)?),
+            "rest" => self.rest = Some(to_args(value)?),
+            _ => {
+                let (place, is_ty) = match special.strip_suffix("#type") {
+                    Some(place) => (place, true),
+                    None => (special, false),
+                };
+                if let Some(prop) = place.strip_prefix('@') {
+                    if !is_ty {
+                        self.props.push((prop.into(), to_kdl_value(value)?));
+                    } else if let Some(ty) = to_annotation(value)? {
+                        self.props_ty.insert(prop.into(), ty);
+                    }
+                } else {
+                    let idx: usize = place.parse().map_err(|e| Error {
+                        msg: format!("Failed to parse index rename {key}: {e}"),
+                    })?;
+                    if !is_ty {
+                        self.indexed.insert(idx, to_kdl_value(value)?);
+                    } else if let Some(ty) = to_annotation(value)? {
+                        self.indexed_ty.insert(idx, ty);
+                    }
                 }
-                _ => {
-                    children.nodes_mut().push(child);
+            }
+        }
+        Ok(true)
+    }
+
+    /// All arguments, in order.
+    fn collect_args(&mut self) -> Result<Vec<KdlValue>, Error> {
+        let mut indexed = std::mem::take(&mut self.indexed);
+        let mut rest = self.rest.take();
+        if let Some(args) = self.args.take() {
+            // Those in the other fields have to be the same ones.
+            let mut others = Vec::new();
+            for (i, arg) in args.iter().enumerate() {
+                match indexed.remove(&i) {
+                    Some(value) if value == *arg => {}
+                    Some(_) => return Err(ser::Error::custom("`#args` differs from other fields")),
+                    None => others.push(arg.clone()),
                 }
             }
+            if indexed.into_values().any(|value| value != KdlValue::Null)
+                || rest.is_some_and(|rest| rest != others)
+            {
+                return Err(ser::Error::custom("`#args` differs from other fields"));
+            }
+            return Ok(args);
+        }
+        let mut args = Vec::new();
+        let mut rest = rest.take().unwrap_or_default().into_iter();
+        loop {
+            if let Some(value) = indexed.remove(&args.len()) {
+                args.push(value);
+            } else if let Some(value) = rest.next() {
+                args.push(value);
+            } else if indexed.is_empty() {
+                return Ok(args);
+            } else {
+                return Err(ser::Error::custom(format!(
+                    "there is no argument {}",
+                    args.len()
+                )));
+            }
         }
-        Ok(())
     }
 
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
-        self.parent_nodes.push(node);
+    /// Adds the entries and the type annotations to a node.
+    fn finish(mut self, node: &mut KdlNode, name: &str) -> Result<(), Error> {
+        if self
+            .name
+            .take()
+            .is_some_and(|field| field.as_deref() != Some(name))
+        {
+            return Err(ser::Error::custom("`#name` differs from the node's name"));
+        }
+        if let Some(ty) = self.ty.take() {
+            node.set_ty(ty);
+        }
+        for (i, arg) in self.collect_args()?.into_iter().enumerate() {
+            let mut entry = KdlEntry::new(arg);
+            if let Some(ty) = self.indexed_ty.remove(&i) {
+                entry.set_ty(ty);
+            }
+            node.entries_mut().push(entry);
+        }
+        for (prop, value) in self.props {
+            let ty = self.props_ty.remove(&prop);
+            let mut entry = KdlEntry::new_prop(prop, value);
+            if let Some(ty) = ty {
+                entry.set_ty(ty);
+            }
+            node.entries_mut().push(entry);
+        }
+        if !self.indexed_ty.is_empty() || !self.props_ty.is_empty() {
+            return Err(ser::Error::custom("there is nothing to annotate"));
+        }
         Ok(())
     }
 }
 
 /// Serializes a value into a node, adding it as an argument, or as children
 /// if the value is complex (struct/map/seq).
+///
+/// Returns whether a struct with this value has to have the node. `false` and
+/// `None` are told by there being none.
 fn serialize_value_into_node<T: ?Sized + Serialize>(
     node: &mut KdlNode,
     value: &T,
-) -> Result<(), Error> {
-    let mut ser = NodeValueSerializer { node };
-    value.serialize(&mut ser)
+) -> Result<bool, Error> {
+    let mut is_absent = false;
+    value.serialize(NodeValueSerializer {
+        node,
+        in_some: false,
+        is_absent: &mut is_absent,
+    })?;
+    Ok(!is_absent)
 }
 
 /// Serializer that writes into a KdlNode.
 struct NodeValueSerializer<'a> {
     node: &'a mut KdlNode,
+    /// Whether this is inside of a `Some`.
+    in_some: bool,
+    /// Whether the value was `false` or `None`.
+    is_absent: &'a mut bool,
 }
 
-impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
+impl<'a> ser::Serializer for NodeValueSerializer<'a> {
     type Ok = ();
     type Error = Error;
 
@@ -491,6 +613,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     type SerializeStructVariant = NodeChildStructVariantSerializer<'a>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
+        *self.is_absent = !v && !self.in_some;
         self.node.entries_mut().push(KdlEntry::new(v));
         Ok(())
     }
@@ -557,12 +680,30 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
+        if self.in_some {
+            return Err(ser::Error::custom("`Some(None)` can't be represented"));
+        }
+        *self.is_absent = true;
         self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
         Ok(())
     }
 
     fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
+        value.serialize(NodeValueSerializer {
+            node: &mut *self.node,
+            in_some: true,
+            is_absent: self.is_absent,
+        })?;
+        let is_like_none = match self.node.entries() {
+            [] => true,
+            [entry] => entry.name().is_none() && *entry.value() == KdlValue::Null,
+            _ => false,
+        };
+        if is_like_none {
+            // Having children is what tells it from `None`.
+            self.node.ensure_children();
+        }
+        Ok(())
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
@@ -640,6 +781,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
         Ok(NodeChildMapSerializer {
             node: self.node,
             current_key: None,
+            fields: NodeFields::default(),
         })
     }
 
@@ -651,6 +793,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
         Ok(NodeChildMapSerializer {
             node: self.node,
             current_key: None,
+            fields: NodeFields::default(),
         })
     }
 
@@ -663,8 +806,8 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(NodeChildStructVariantSerializer {
             parent: self.node,
-            variant,
-            children: KdlDocument::new(),
+            node: KdlNode::new(variant),
+            fields: NodeFields::default(),
         })
     }
 }
@@ -744,6 +887,7 @@ impl<'a> ser::SerializeTupleVariant for NodeChildSeqSerializer<'a> {
 struct NodeChildMapSerializer<'a> {
     node: &'a mut KdlNode,
     current_key: Option<String>,
+    fields: NodeFields,
 }
 
 impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
@@ -761,17 +905,9 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
             .take()
             .ok_or_else(|| ser::Error::custom("serialize_value without serialize_key"))?;
         let mut child = KdlNode::new(key);
-        let mut child_ser = NodeValueSerializer { node: &mut child };
-        value.serialize(&mut child_ser)?;
-        match child.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                let children = self.node.ensure_children();
-                children.nodes_mut().push(child);
-            }
-        }
+        serialize_value_into_node(&mut child, value)?;
+        let children = self.node.ensure_children();
+        children.nodes_mut().push(child);
         Ok(())
     }
 
@@ -789,49 +925,22 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            self.node
-                .entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: self.node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: self.node };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            // TODO(@zkat): How do we get the ordering here?... This will just
-            // insert stuff as we discover it.
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
-            let children = self.node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
-            }
+        if !self.fields.serialize_field(key, value)? {
+            serialize_child(self.node, key, value)?;
         }
         Ok(())
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        let name = self.node.name().value().to_string();
+        self.fields.finish(self.node, &name)
     }
 }
 
 struct NodeChildStructVariantSerializer<'a> {
     parent: &'a mut KdlNode,
-    variant: &'static str,
-    children: KdlDocument,
+    node: KdlNode,
+    fields: NodeFields,
 }
 
 impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
@@ -843,44 +952,17 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            self.parent
-                .entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            // TODO(@zkat): How do we get the ordering here?... This will just
-            // insert stuff as we discover it.
-            let kdl_val = to_kdl_value(value)?;
-            self.parent.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child_ser = NodeValueSerializer { node: &mut node };
-            value.serialize(&mut child_ser)?;
-            match node.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    self.children.nodes_mut().push(node);
-                }
-            }
+        if !self.fields.serialize_field(key, value)? {
+            serialize_child(&mut self.node, key, value)?;
         }
         Ok(())
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
+        // The entries go on the node around the one of the variant.
+        self.fields.finish(self.parent, self.node.name().value())?;
         let parent_children = self.parent.ensure_children();
-        parent_children.nodes_mut().push(node);
+        parent_children.nodes_mut().push(self.node);
         Ok(())
     }
 }
@@ -1147,7 +1229,10 @@ impl ser::Serializer for KdlValueSerializer {
     }
 
     fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
+        match value.serialize(self)? {
+            KdlValue::Null => Err(ser::Error::custom("this `Some` is like `None`")),
+            value => Ok(value),
+        }
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
@@ -1250,250 +1335,28 @@ impl ser::Serializer for KdlValueSerializer {
     }
 }
 
-struct RestSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-}
-
-impl<'a> ser::Serializer for &'a mut RestSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    type SerializeSeq = RestSeqSerializer<'a>;
-    type SerializeTuple = RestSeqSerializer<'a>;
-    type SerializeTupleStruct = RestSeqSerializer<'a>;
-    type SerializeTupleVariant = ser::Impossible<(), Error>;
-    type SerializeMap = ser::Impossible<(), Error>;
-    type SerializeStruct = ser::Impossible<(), Error>;
-    type SerializeStructVariant = ser::Impossible<(), Error>;
-
-    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Ok(RestSeqSerializer {
-            node: self.node,
-            used_indices: self.used_indices,
-            current_idx: 0,
-        })
-    }
-
-    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_tuple_struct(
-        self,
-        _: &'static str,
-        len: usize,
-    ) -> Result<Self::SerializeTupleStruct, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(v));
-        Ok(())
-    }
-
-    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_f64(v as f64)
-    }
-    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Float(v)));
-        Ok(())
-    }
-
-    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(&v.to_string())
-    }
-
-    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::String(v.to_string())));
-        Ok(())
-    }
-
-    fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "bytes cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
-        self.serialize_unit()
-    }
-
-    fn serialize_unit_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        variant: &'static str,
-    ) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(variant)
-    }
-
-    fn serialize_newtype_struct<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        value: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_newtype_variant<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "newtype variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        Err(ser::Error::custom(
-            "maps are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct(
-        self,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStruct, Self::Error> {
-        Err(ser::Error::custom(
-            "structs are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "struct variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_tuple_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "tuple variants cannot be represented as KDL arguments",
-        ))
-    }
-}
-
-struct RestSeqSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-    current_idx: usize,
-}
-
-impl<'a> ser::SerializeSeq for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        if !self.used_indices.contains(&self.current_idx) {
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        }
-        self.current_idx += 1;
-        Ok(())
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
-impl<'a> ser::SerializeTuple for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
+/// Converts the name of a type annotation, or the absence of one.
+fn to_annotation<T: ?Sized + Serialize>(value: &T) -> Result<Option<String>, Error> {
+    match to_kdl_value(value)? {
+        KdlValue::String(name) => Ok(Some(name)),
+        KdlValue::Null => Ok(None),
+        _ => Err(ser::Error::custom("names and types have to be strings")),
     }
 }
 
-impl<'a> ser::SerializeTupleStruct for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
+/// Converts a sequence of arguments.
+fn to_args<T: ?Sized + Serialize>(value: &T) -> Result<Vec<KdlValue>, Error> {
+    let mut node = KdlNode::new("-");
+    value.serialize(ArgsSerializer { node: &mut node })?;
+    let args = node.entries().iter();
+    Ok(args.map(|entry| entry.value().clone()).collect())
 }
 
 struct ArgsSerializer<'a> {
     node: &'a mut KdlNode,
 }
 
-impl<'a> ser::Serializer for &'a mut ArgsSerializer<'a> {
+impl<'a> ser::Serializer for ArgsSerializer<'a> {
     type Ok = ();
     type Error = Error;
 
@@ -1586,12 +1449,20 @@ impl<'a> ser::Serializer for &'a mut ArgsSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
+        // There are no arguments.
         Ok(())
     }
 
     fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
+        value.serialize(ArgsSerializer {
+            node: &mut *self.node,
+        })?;
+        if self.node.entries().is_empty() {
+            return Err(ser::Error::custom(
+                "`Some` without arguments is like `None`",
+            ));
+        }
+        Ok(())
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From a224c7b0d0b0363f9491bfd521fd502a194b2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 38/40] fix: KdlValue's order agrees with its equality

Floats that are equal (NaN and 0.0, infinities and the largest numbers)
compared as unordered or different with the derived PartialOrd.
---
 src/value.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 3207748..e802c64 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -1,7 +1,7 @@
-use std::fmt::Display;
+use std::{cmp::Ordering, fmt::Display};
 
 /// A specific [KDL Value](https://github.com/kdl-org/kdl/blob/main/SPEC.md#value).
-#[derive(Debug, Clone, PartialOrd)]
+#[derive(Debug, Clone)]
 pub enum KdlValue {
     /// A [KDL String](https://github.com/kdl-org/kdl/blob/main/SPEC.md#string).
     String(String),
@@ -45,6 +45,30 @@ impl PartialEq for KdlValue {
     }
 }
 
+impl PartialOrd for KdlValue {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        fn rank(value: &KdlValue) -> u8 {
+            match value {
+                KdlValue::String(_) => 0,
+                KdlValue::Integer(_) => 1,
+                KdlValue::Float(_) => 2,
+                KdlValue::Bool(_) => 3,
+                KdlValue::Null => 4,
+            }
+        }
+        match (self, other) {
+            (Self::String(l0), Self::String(r0)) => l0.partial_cmp(r0),
+            (Self::Integer(l0), Self::Integer(r0)) => l0.partial_cmp(r0),
+            // The same floats have to be the same here as in `PartialEq`.
+            (Self::Float(l0), Self::Float(r0)) => {
+                normalize_float(l0).partial_cmp(&normalize_float(r0))
+            }
+            (Self::Bool(l0), Self::Bool(r0)) => l0.partial_cmp(r0),
+            _ => rank(self).partial_cmp(&rank(other)),
+        }
+    }
+}
+
 // NOTE: I know, I know. This is terrible and I shouldn't do it, but it's
 // better than not being able to hash KdlValue at all.
 impl std::hash::Hash for KdlValue {
-- 
2.43.0


From ac1c5ed55d5ed1e429bce319707fc139b5cb91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 39/40] fix: A node after a slashdashed node with a continued
 line stays a node of its own

---
 src/document.rs |  3 +++
 src/fmt.rs      | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index ff40c79..49680db 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -540,6 +540,9 @@ impl KdlDocument {
             write!(f, "{leading}")?;
             if !self.nodes.is_empty() && !crate::fmt::can_precede_node(leading) {
                 writeln!(f)?;
+                if !crate::fmt::can_precede_node(&format!("{leading}\n")) {
+                    writeln!(f)?;
+                }
             }
         }
         for (idx, node) in self.nodes.iter().enumerate() {
diff --git a/src/fmt.rs b/src/fmt.rs
index 97eed6c..122cf56 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -178,7 +178,15 @@ pub(crate) fn can_precede_node(text: &str) -> bool {
     let last_line = text.rsplit(is_newline).next().unwrap_or_default();
     let has_comment = last_line.contains("//");
     let has_slashdash = text.contains("/-") && !text.ends_with(';') && !last_line.is_empty();
-    !has_comment && !has_slashdash && !last_line.ends_with('\\')
+    !has_comment && !has_slashdash && !last_line.ends_with('\\') && !continues_slashdash(text)
+}
+
+/// Whether a slashdashed node in this text goes on behind it, with its last line
+/// continued.
+fn continues_slashdash(text: &str) -> bool {
+    text.contains("/-")
+        && text.contains('\\')
+        && KdlDocument::parse_v2(&format!("{text}-\n")).is_ok_and(|doc| doc.nodes().is_empty())
 }
 
 fn is_newline(c: char) -> bool {
-- 
2.43.0


From dbc075eb1d157f348c82ef5db0678dd4ab2ecd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 40/40] fix: An entry that keeps its format keeps it in every
 autoformat, not only the next

---
 src/entry.rs | 1 +
 src/node.rs  | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 24d0592..59b55d8 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -190,6 +190,7 @@ impl KdlEntry {
             self.format = self.format.take().map(|f| KdlEntryFormat {
                 value_repr: f.value_repr,
                 leading: f.leading,
+                autoformat_keep: f.autoformat_keep,
                 ..Default::default()
             });
         }
diff --git a/src/node.rs b/src/node.rs
index d1aa723..e712ac1 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -315,10 +315,15 @@ impl KdlNode {
             ty.clear_format()
         }
         for entry in &mut self.entries {
+            let keep = entry.format().is_some_and(|f| f.autoformat_keep);
             if config.entry_autoformate_keep {
                 entry.keep_format();
             }
             entry.autoformat();
+            // The configuration is for this run only.
+            if let Some(format) = entry.format_mut() {
+                format.autoformat_keep = keep;
+            }
         }
         if let Some(children) = self.children.as_mut() {
             if children.format().is_none() && !children.nodes().is_empty() {
-- 
2.43.0

