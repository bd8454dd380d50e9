From 1204f62d994a8accc49fdb04b26009fe3e0f537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 01/22] fix: never drop the rest of a file silently

The token stream of a whole file was parsed with many0/many1, which stop
at the first token they do not understand, and what followed was
dropped without an error: one malformed or unsupported line truncated
the model or the materials. As line ends were lost, an unsupported
line could also be swallowed as another name of a g, mtllib or maplib
statement, or as the file name of a texture map.

Statements are now parsed line by line, and each line has to be
understood entirely. This also stops the cost of loading from growing
with the square of the file size, as every parsed token copied all
remaining ones. An mtl file without any statement is an empty list of
materials, as an obj file without any is an empty model.
---
 src/lib.rs      | 20 ++++++++++++++------
 src/material.rs | 17 +++++++++++------
 src/model.rs    | 16 ++++++++++------
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ae5e77..f88b4ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -141,10 +141,11 @@ pub enum ObjError {
 /// Returns a `Result` of either ObjError on parse errors
 /// or a constructed `Model`.
 pub fn load_obj(input: &str) -> Result<Model, ObjError> {
-    match tokenizer::parse_obj(input) {
-        Ok(tokens) => Ok(model::parse(tokens)?),
-        Err(e) => Err(e.into()),
+    let mut model = Model::default();
+    for line in lines(input) {
+        model = model::parse(model, tokenizer::parse_obj(line)?)?;
     }
+    Ok(model)
 }
 
 /// Takes the content of an mtl file and parses it.
@@ -156,10 +157,17 @@ pub fn load_obj(input: &str) -> Result<Model, ObjError> {
 /// Returns a `Result` of either ObjError on parse errors
 /// or a collection of `Material`.
 pub fn load_mtl(input: &str) -> Result<Vec<Material>, ObjError> {
-    match tokenizer::parse_mtl(input) {
-        Ok(tokens) => Ok(material::parse(tokens)?),
-        Err(e) => Err(e.into()),
+    let mut materials = Vec::new();
+    for line in lines(input) {
+        material::parse(&mut materials, tokenizer::parse_mtl(line)?)?;
     }
+    Ok(materials)
+}
+
+/// Statements end at the end of their line, so the lines
+/// of a file can be tokenized and parsed one by one.
+fn lines(input: &str) -> impl Iterator<Item = &str> {
+    input.split(['\n', '\r'])
 }
 
 fn get_token_float(token: &Token) -> Result<f32, ObjError> {
diff --git a/src/material.rs b/src/material.rs
index 1c56d41..e8261ea 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{all_consuming, map, opt},
     error,
     multi::many1,
     sequence::preceded,
@@ -412,13 +412,18 @@ enum MaterialElement {
     AntiAliasMap(bool),
 }
 
-pub(crate) fn parse(input: TokenSet<'_>) -> Result<Vec<Material>, MaterialError> {
-    let elements: Vec<MaterialElement> = match parse_material_set().parse_complete(input) {
-        Ok((_, x)) => x,
+/// Adds the statement of one line, if any, to the materials. The line has to be
+/// understood entirely, nothing is skipped.
+pub(crate) fn parse(res: &mut Vec<Material>, input: TokenSet<'_>) -> Result<(), MaterialError> {
+    if input.is_empty() {
+        return Ok(());
+    }
+    let elements = match all_consuming(parse_material_set()).parse_complete(input) {
+        Ok((_, x)) if x.len() == 1 => x,
+        Ok(_) => return Err(MaterialError::Parse("More than one statement".into())),
         Err(e) => return Err(MaterialError::Parse(e.to_string())),
     };
 
-    let mut res = Vec::new();
     for e in elements {
         if let MaterialElement::Name(n) = e {
             res.push(Material::default());
@@ -431,7 +436,7 @@ pub(crate) fn parse(input: TokenSet<'_>) -> Result<Vec<Material>, MaterialError>
             return Err(MaterialError::NewMaterial);
         }
     }
-    Ok(res)
+    Ok(())
 }
 
 fn parse_material_set<'a>(
diff --git a/src/model.rs b/src/model.rs
index 567e016..5149ddf 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -9,9 +9,9 @@ use crate::{
 
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{all_consuming, map, opt},
     error,
-    multi::{fold_many0, fold_many1, many1},
+    multi::{fold_many1, fold_many_m_n, many1},
     sequence::preceded,
     IResult, Parser,
 };
@@ -214,8 +214,12 @@ pub(crate) enum ModelElement {
     TextureMap(String),
 }
 
-pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
-    match fold_many0(
+/// Adds the statement of one line, if any, to the model. The line has to be
+/// understood entirely, nothing is skipped.
+pub(crate) fn parse(mut model: Model, input: TokenSet) -> Result<Model, ModelError> {
+    match all_consuming(fold_many_m_n(
+        0,
+        1,
         alt((
             map(parse_vertex(), ModelElement::Vertex),
             map(parse_vertex_normal(), ModelElement::Normal),
@@ -237,7 +241,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
             parse_texture_map(),
             parse_group(),
         )),
-        Model::default,
+        || std::mem::take(&mut model),
         |mut model: Model, item: ModelElement| {
             match item {
                 ModelElement::Vertex(x) => model.vertices.push(x),
@@ -298,7 +302,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
             }
             model
         },
-    )
+    ))
     .parse_complete(input)
     {
         Ok((_, acc)) => Ok(acc),
-- 
2.43.0


From aad637664ea7edb8267f78bd46c3d0fb32111834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 02/22] fix: do not read an integer literal out of range as 0

A coordinate like 3000000000 was loaded as 0, and so was an index out
of the range of i32 (and -2147483648, which is in range). Such a
literal is now a float token, which is right for a coordinate and
refused as an index.
---
 src/tokenizer/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 6b5ab60..d03dafd 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -578,11 +578,12 @@ fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             }),
         ),
         |(sign, s): (Option<&str>, Vec<&str>)| {
-            let mut val = s.join("").parse::<i32>().unwrap_or_default();
-            if sign == Some("-") {
-                val *= -1;
+            let literal = format!("{}{}", sign.unwrap_or_default(), s.join(""));
+            match literal.parse::<i32>() {
+                Ok(val) => Token::Int(val),
+                // Too large for an index, but not for a coordinate.
+                Err(_) => Token::Float(literal.parse::<f32>().unwrap_or_default()),
             }
-            Token::Int(val)
         },
     )
 }
-- 
2.43.0


From eda94b1944266b13ddd1ad2e00219a9d79cbb19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 03/22] fix: read numbers with an exponent but no decimal point

1e-05 was split into the integer 1 and the text e-05.
---
 src/tokenizer/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index d03dafd..66f358d 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -654,6 +654,18 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                     ),
                     |(f, _, s, e)| (f.unwrap_or_default(), s, e.unwrap_or_default()),
                 ),
+                map(
+                    (
+                        digit1,
+                        alt((tag("e"), tag("E"))),
+                        opt(alt((tag("+"), tag("-")))),
+                        digit1,
+                    ),
+                    |(f, e, sign, digits): (&str, &str, Option<&str>, &str)| {
+                        let e = [e, sign.unwrap_or_default(), digits].concat();
+                        (vec![f], Vec::new(), e)
+                    },
+                ),
             )),
         ),
         |(sign, (f, s, e)): (Option<&str>, (Vec<&str>, Vec<&str>, String))| {
-- 
2.43.0


From 3859651a4ed710f2def5ce98f7eaff7620e7de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 04/22] fix: do not take the first characters of a name for a
 number

The file name in 'map_Kd 01.png' was split into the number 1 and the
text png, and a lone point was read as the number 0.
---
 src/tokenizer/mod.rs | 20 ++++++++++++++++----
 src/tokenizer/mtl.rs |  3 +--
 src/tokenizer/obj.rs |  3 +--
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 66f358d..2529e4b 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -13,10 +13,11 @@ pub use mtl::parse_mtl;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    character::complete::digit1,
-    combinator::{map, opt},
+    character::complete::{digit1, one_of},
+    combinator::{eof, map, opt, peek, recognize},
     error::Error,
-    multi::{fold_many0, fold_many1},
+    multi::fold_many1,
+    sequence::terminated,
     Input, Parser,
 };
 pub use obj::parse_obj;
@@ -568,6 +569,17 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+/// A number is a token of its own, not the first characters of a name. It has
+/// to be followed by one of the delimiters, or the end of the input.
+fn parse_number<'a>(
+    delimiters: &'static str,
+) -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
+    terminated(
+        alt((parse_float(), parse_digit())),
+        peek(alt((eof, recognize(one_of(delimiters))))),
+    )
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
@@ -596,7 +608,7 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             alt((
                 map(
                     (
-                        fold_many0(digit1, Vec::new, |mut acc: Vec<_>, item| {
+                        fold_many1(digit1, Vec::new, |mut acc: Vec<_>, item| {
                             acc.push(item);
                             acc
                         }),
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 47ce969..3e12a81 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -67,8 +67,7 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
-            super::parse_float(),
-            super::parse_digit(),
+            super::parse_number(" \t\r\n#"),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index ef13c95..1ba41a1 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -49,8 +49,7 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 map(multispace1, |_| Token::Ignore),
             ),
             map(tag("/"), |_| Token::Slash),
-            super::parse_float(),
-            super::parse_digit(),
+            super::parse_number(" \t\r\n#/"),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
-- 
2.43.0


From c300c70dc74c18d5db2e3ca25943bc271ce33c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 05/22] fix: read names in obj files as written

A name which looks like a number, a keyword or a path, or is followed by
blanks or a comment, is the text that follows the keyword.
---
 src/tokenizer/mod.rs | 21 +++++++++++++++++++--
 src/tokenizer/obj.rs | 40 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 2529e4b..069d001 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -13,8 +13,8 @@ pub use mtl::parse_mtl;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    character::complete::{digit1, one_of},
-    combinator::{eof, map, opt, peek, recognize},
+    character::complete::{digit1, not_line_ending, one_of},
+    combinator::{eof, map, map_opt, opt, peek, recognize},
     error::Error,
     multi::fold_many1,
     sequence::terminated,
@@ -569,6 +569,23 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+/// The text up to the end of the line, without the blanks around it and without
+/// a comment that follows it.
+fn parse_text<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
+    map_opt(not_line_ending, |line: &str| {
+        let blank = [' ', '\t'];
+        let end = line
+            .match_indices('#')
+            .map(|(i, _)| i)
+            .find(|&i| i == 0 || line[..i].ends_with(blank))
+            .unwrap_or(line.len());
+        match line[..end].trim_matches(blank) {
+            "" => None,
+            text => Some(Token::String(Cow::Borrowed(text))),
+        }
+    })
+}
+
 /// A number is a token of its own, not the first characters of a name. It has
 /// to be followed by one of the delimiters, or the end of the input.
 fn parse_number<'a>(
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 1ba41a1..786da9d 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -1,14 +1,14 @@
-use std::borrow::Cow;
 use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{complete::is_not, tag, tag_no_case, take_till},
+    bytes::{tag, tag_no_case, take_till},
     character::{
-        complete::{line_ending, multispace1},
+        complete::{line_ending, multispace1, space1},
         multispace0,
     },
     combinator::map,
+    error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded},
     Parser,
@@ -17,6 +17,10 @@ use nom::{
 use super::{Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
+    let (input, tokens) = match parse_name().parse_complete(input) {
+        Ok((remainder, (keyword, name))) => (remainder, vec![keyword, name]),
+        Err(_) => (input, Vec::new()),
+    };
     match fold_many0(
         alt((
             delimited(
@@ -55,9 +59,9 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not("\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            super::parse_text(),
         )),
-        Vec::new,
+        move || tokens.clone(),
         |mut acc: Vec<Token>, item| {
             if item != Token::Ignore {
                 acc.push(item);
@@ -72,6 +76,32 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     }
 }
 
+/// A keyword which is followed by a name. The name is the text that follows on
+/// the same line, even if it looks like a number, a keyword or a path.
+fn parse_name<'a>() -> impl Parser<&'a str, Output = (Token<'a>, Token<'a>), Error = Error<&'a str>>
+{
+    (
+        delimited(
+            multispace0(),
+            map(
+                alt([
+                    tag_no_case("mtllib"),
+                    tag_no_case("usemtl"),
+                    tag_no_case("shadow_obj"),
+                    tag_no_case("trace_obj"),
+                    tag_no_case("maplib"),
+                    tag_no_case("usemap"),
+                    tag_no_case("o"),
+                    tag_no_case("g"),
+                ]),
+                kw_map,
+            ),
+            space1,
+        ),
+        super::parse_text(),
+    )
+}
+
 fn kw_map(value: &str) -> Token<'_> {
     match value.to_lowercase().as_ref() {
         "mtllib" => Token::MaterialLib,
-- 
2.43.0


From 96a6ccb044edc137dfd2b1d0bab1db9504854339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 06/22] fix: keep the settings of a group which is entered
 again

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 5149ddf..bd29735 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -269,7 +269,7 @@ pub(crate) fn parse(mut model: Model, input: TokenSet) -> Result<Model, ModelErr
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
                     for g in groups {
-                        model.groups.insert(g.clone(), Default::default());
+                        model.groups.entry(g.clone()).or_default();
                         model.current_group.push(g);
                     }
                 },
-- 
2.43.0


From 05e2d36da1cce69aa41f611972353d9d095de398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 07/22] fix: read all the names of a g statement

g a b puts the following elements into the groups a and b,
not into one group called "a b".
---
 src/model.rs         | 6 +++++-
 src/tokenizer/mod.rs | 1 -
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index bd29735..e3b3986 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -268,7 +268,11 @@ pub(crate) fn parse(mut model: Model, input: TokenSet) -> Result<Model, ModelErr
                 },
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
-                    for g in groups {
+                    for g in groups.iter().flat_map(|g| g.split_ascii_whitespace()) {
+                        let g = g.to_string();
+                        if model.current_group.contains(&g) {
+                            continue;
+                        }
                         model.groups.entry(g.clone()).or_default();
                         model.current_group.push(g);
                     }
diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 069d001..7648562 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -81,7 +81,6 @@ pub enum Token<'a> {
     Object,
 
     /// g group_name1 group_name2 ...
-    /// Currently ignores all names after the first
     Group,
 
     /// s group_number
-- 
2.43.0


From 5e93bacbc23013d9cf6538b7376ec0cf11f829ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 08/22] fix: store bevel, c_interp and d_interp

They were always read as off, and not stored. Anything but on or off
is an error.
---
 src/model.rs | 77 +++++++++++++++++-----------------------------------
 1 file changed, 25 insertions(+), 52 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index e3b3986..f9b4162 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -9,7 +9,7 @@ use crate::{
 
 use nom::{
     branch::alt,
-    combinator::{all_consuming, map, opt},
+    combinator::{all_consuming, map, map_res, opt},
     error,
     multi::{fold_many1, fold_many_m_n, many1},
     sequence::preceded,
@@ -288,9 +288,24 @@ pub(crate) fn parse(mut model: Model, input: TokenSet) -> Result<Model, ModelErr
                 ModelElement::Smoothing(group_id) => {
                     model.current_smoothing_group = group_id;
                 },
-                ModelElement::Bevel(_flag) => {},
-                ModelElement::CInterp(_flag) => {},
-                ModelElement::DInterp(_flag) => {},
+                ModelElement::Bevel(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.bevel = flag;
+                    }
+                },
+                ModelElement::CInterp(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.c_interp = flag;
+                    }
+                },
+                ModelElement::DInterp(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.d_interp = flag;
+                    }
+                },
                 ModelElement::Lod(_level) => {},
                 ModelElement::ShadowObj(_name) => {},
                 ModelElement::TraceObj(_name) => {},
@@ -679,67 +694,25 @@ pub(crate) fn parse_smoothing<'a>(
 
 pub(crate) fn parse_bevel<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
-        |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::Bevel(flag)
-            } else {
-                ModelElement::Bevel(false)
-            }
-        },
+        |s| get_on_off_from_str(&s).map(ModelElement::Bevel),
     )
 }
 
 pub(crate) fn parse_c_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
-        |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::CInterp(flag)
-            } else {
-                ModelElement::CInterp(false)
-            }
-        },
+        |s| get_on_off_from_str(&s).map(ModelElement::CInterp),
     )
 }
 
 pub(crate) fn parse_d_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
-        |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::DInterp(flag)
-            } else {
-                ModelElement::DInterp(false)
-            }
-        },
+        |s| get_on_off_from_str(&s).map(ModelElement::DInterp),
     )
 }
 
-- 
2.43.0


From dfca6a09f3a371bda59335571656db2d62c0a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 09/22] fix: store the level of detail of a group

---
 src/model.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index f9b4162..23d21fc 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -207,7 +207,7 @@ pub(crate) enum ModelElement {
     Bevel(bool),
     CInterp(bool),
     DInterp(bool),
-    Lod(i32),
+    Lod(u8),
     ShadowObj(String),
     TraceObj(String),
     TextureLib(Vec<String>),
@@ -306,7 +306,12 @@ pub(crate) fn parse(mut model: Model, input: TokenSet) -> Result<Model, ModelErr
                         group.d_interp = flag;
                     }
                 },
-                ModelElement::Lod(_level) => {},
+                ModelElement::Lod(level) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.lod = level;
+                    }
+                },
                 ModelElement::ShadowObj(_name) => {},
                 ModelElement::TraceObj(_name) => {},
                 ModelElement::TextureLib(libs) => {
@@ -718,7 +723,7 @@ pub(crate) fn parse_d_interp<'a>(
 
 pub(crate) fn parse_lod<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(token_match!(Token::Lod), token_match!(Token::Int(_))),
         |s| {
             let res = match get_token_int(&s) {
@@ -728,7 +733,7 @@ pub(crate) fn parse_lod<'a>(
                     Default::default()
                 },
             };
-            ModelElement::Lod(res)
+            res.try_into().map(ModelElement::Lod)
         },
     )
 }
-- 
2.43.0


From cf0416c452a56e0ef45fe7659340887d5a7d1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 10/22] fix: store the shadow and trace objects

---
 src/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 23d21fc..deded81 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -312,8 +312,8 @@ pub(crate) fn parse(mut model: Model, input: TokenSet) -> Result<Model, ModelErr
                         group.lod = level;
                     }
                 },
-                ModelElement::ShadowObj(_name) => {},
-                ModelElement::TraceObj(_name) => {},
+                ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
+                ModelElement::TraceObj(name) => model.trace_obj = Some(name),
                 ModelElement::TextureLib(libs) => {
                     model.texture_libs.extend(libs);
                 },
-- 
2.43.0


From bb573620c7546de0f8dfed45190a248c77704f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 11/22] fix: turn the texture map of a group off with usemap
 off

---
 src/model.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index deded81..8a7627b 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -320,7 +320,10 @@ pub(crate) fn parse(mut model: Model, input: TokenSet) -> Result<Model, ModelErr
                 ModelElement::TextureMap(name) => {
                     for g in &model.current_group {
                         let group = model.groups.entry(g.clone()).or_default();
-                        group.texture_map = Some(name.clone());
+                        group.texture_map = match name.eq_ignore_ascii_case("off") {
+                            true => None,
+                            false => Some(name.clone()),
+                        };
                     }
                 },
             }
-- 
2.43.0


From 3df0f2c92ad79153dc2f2eb98c2da7eb13233ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 12/22] fix: refuse a smoothing group which is not a number, on
 or off

---
 src/model.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 8a7627b..6c062d9 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -5,6 +5,7 @@ use derive_more::{Constructor, From, Into};
 use crate::{
     get_on_off_from_str, get_token_float, get_token_int, get_token_string,
     tokenizer::{Token, TokenSet},
+    ObjError,
 };
 
 use nom::{
@@ -670,19 +671,13 @@ pub(crate) fn parse_smoothing<'a>(
             token_match!(Token::Smoothing),
             alt((
                 token_match!(Token::Int(_)),
-                map(token_match!(Token::String(_)), |s| {
-                    let val = match get_on_off_from_str(&s) {
-                        Ok(v) => v,
-                        Err(e) => {
-                            log::error!("{}", e);
-                            Default::default()
-                        },
-                    };
+                map_res(token_match!(Token::String(_)), |s| {
+                    let val = get_on_off_from_str(&s)?;
                     if !val {
-                        Token::Int(0)
+                        Ok(Token::Int(0))
                     } else {
                         log::error!("Invalid smoothing value encountered. Setting default to 1.");
-                        Token::Int(1)
+                        Ok::<_, ObjError>(Token::Int(1))
                     }
                 }),
             )),
-- 
2.43.0


From d06eb3ba2617751cd84b3c7da3c3852d7402a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 13/22] fix: accept a reference with a trailing slash

f 1/ 2/ 3/ took the 2 for the texture index of the first reference.
---
 src/model.rs         | 24 ++++++++++++------------
 src/tokenizer/mod.rs |  2 ++
 src/tokenizer/obj.rs | 10 +++++++---
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 6c062d9..5573f13 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -472,14 +472,14 @@ pub(crate) fn parse_face<'a>(
             map(
                 (
                     token_match!(Token::Int(_)),
-                    opt(preceded(
-                        token_match!(Token::Slash),
-                        opt(token_match!(Token::Int(_))),
-                    )),
-                    opt(preceded(
-                        token_match!(Token::Slash),
-                        opt(token_match!(Token::Int(_))),
-                    )),
+                    opt(alt((
+                        preceded(token_match!(Token::Slash), opt(token_match!(Token::Int(_)))),
+                        map(token_match!(Token::TrailingSlash), |_| None),
+                    ))),
+                    opt(alt((
+                        preceded(token_match!(Token::Slash), opt(token_match!(Token::Int(_)))),
+                        map(token_match!(Token::TrailingSlash), |_| None),
+                    ))),
                 ),
                 |(v, t, n)| {
                     let v = match get_token_int(&v) {
@@ -530,10 +530,10 @@ pub(crate) fn parse_line<'a>(
             map(
                 (
                     token_match!(Token::Int(_)),
-                    opt(preceded(
-                        token_match!(Token::Slash),
-                        opt(token_match!(Token::Int(_))),
-                    )),
+                    opt(alt((
+                        preceded(token_match!(Token::Slash), opt(token_match!(Token::Int(_)))),
+                        map(token_match!(Token::TrailingSlash), |_| None),
+                    ))),
                 ),
                 |(v, t)| {
                     let v = match get_token_int(&v) {
diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 7648562..47b7fab 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -37,6 +37,8 @@ pub enum Token<'a> {
     Float(f32),
     Int(i32),
     Slash,
+    /// A slash at the end of a reference, the index behind it is left out.
+    TrailingSlash,
 
     // Obj
     /// List of geometric vertices, with (x, y, z [,w]) coordinates, w is
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 786da9d..2bac694 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -4,13 +4,13 @@ use nom::{
     branch::alt,
     bytes::{tag, tag_no_case, take_till},
     character::{
-        complete::{line_ending, multispace1, space1},
+        complete::{line_ending, multispace1, one_of, space1},
         multispace0,
     },
-    combinator::map,
+    combinator::{eof, map, peek, recognize},
     error::Error,
     multi::fold_many0,
-    sequence::{delimited, preceded},
+    sequence::{delimited, preceded, terminated},
     Parser,
 };
 
@@ -52,6 +52,10 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
+            map(
+                terminated(tag("/"), peek(alt((eof, recognize(one_of(" \t\r\n#")))))),
+                |_| Token::TrailingSlash,
+            ),
             map(tag("/"), |_| Token::Slash),
             super::parse_number(" \t\r\n#/"),
             map(
-- 
2.43.0


From 8f0f86852b692a6b8084b6ef30d71edfa78247c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 14/22] fix: resolve negative indices where they stand

A negative index counts back from the entries read so far. How many that were
can not be told from the loaded model.
---
 src/model.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 5573f13..458cbeb 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -250,18 +250,38 @@ pub(crate) fn parse(mut model: Model, input: TokenSet) -> Result<Model, ModelErr
                 ModelElement::Texture(t) => model.textures.push(t),
                 ModelElement::Face(mut f) => {
                     f.smoothing_group = model.current_smoothing_group;
+                    for e in &mut f.elements {
+                        let vertex = absolute_index(e.vertex_index, model.vertices.len());
+                        let texture = e
+                            .texture_index
+                            .map(|i| absolute_index(i, model.textures.len()));
+                        let normal = e
+                            .normal_index
+                            .map(|i| absolute_index(i, model.normals.len()));
+                        *e = FaceElement::new(vertex, texture, normal);
+                    }
                     for g in &model.current_group {
                         let set = model.faces.entry(g.clone()).or_default();
                         set.push(f.clone());
                     }
                 },
-                ModelElement::Line(l) => {
+                ModelElement::Line(mut l) => {
+                    for e in &mut l.elements {
+                        let vertex = absolute_index(e.vertex_index, model.vertices.len());
+                        let texture = e
+                            .texture_index
+                            .map(|i| absolute_index(i, model.textures.len()));
+                        *e = LineElement::new(vertex, texture);
+                    }
                     for g in &model.current_group {
                         let set = model.lines.entry(g.clone()).or_default();
                         set.push(l.clone());
                     }
                 },
-                ModelElement::Point(p) => {
+                ModelElement::Point(mut p) => {
+                    for i in &mut p.elements {
+                        *i = absolute_index(*i, model.vertices.len());
+                    }
                     for g in &model.current_group {
                         let set = model.points.entry(g.clone()).or_default();
                         set.push(p.clone());
@@ -338,6 +358,15 @@ pub(crate) fn parse(mut model: Model, input: TokenSet) -> Result<Model, ModelErr
     }
 }
 
+/// A negative index counts back from the end of the list, as it is now. If it
+/// reaches back too far there is no such entry, and it is left as it is.
+fn absolute_index(index: i32, len: usize) -> i32 {
+    match i32::try_from(len) {
+        Ok(len) if index < 0 && -len <= index => len + index + 1,
+        _ => index,
+    }
+}
+
 pub(crate) fn parse_vertex<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Vertex, Error = error::Error<TokenSet<'a>>> {
     map(
-- 
2.43.0


From a80b4eaf68f3ea6086ca6d2d48b22c7b43bd6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 15/22] fix: read names of materials as written

They may look like a number or a keyword, and may contain blanks
as those on usemtl do.
---
 src/tokenizer/mtl.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 3e12a81..cb8f597 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -5,10 +5,11 @@ use nom::{
     branch::alt,
     bytes::{is_not, tag, tag_no_case, take_till},
     character::{
-        complete::{line_ending, multispace1},
+        complete::{line_ending, multispace1, space1},
         multispace0,
     },
     combinator::map,
+    error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded},
     Parser,
@@ -17,6 +18,10 @@ use nom::{
 use super::{Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
+    let (input, tokens) = match parse_name().parse_complete(input) {
+        Ok((remainder, (keyword, name))) => (remainder, vec![keyword, name]),
+        Err(_) => (input, Vec::new()),
+    };
     match fold_many0(
         alt((
             delimited(
@@ -75,7 +80,7 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
             map(is_not(" \r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
         )),
-        Vec::new,
+        move || tokens.clone(),
         |mut acc: Vec<Token>, item| {
             if item != Token::Ignore {
                 acc.push(item);
@@ -90,6 +95,16 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     }
 }
 
+/// The name of a material is the text that follows the keyword on the same
+/// line, even if it looks like a number or a keyword.
+fn parse_name<'a>() -> impl Parser<&'a str, Output = (Token<'a>, Token<'a>), Error = Error<&'a str>>
+{
+    (
+        delimited(multispace0(), map(tag_no_case("newmtl"), kw_map), space1),
+        super::parse_text(),
+    )
+}
+
 fn kw_map(value: &str) -> Token<'_> {
     match value.to_lowercase().as_ref() {
         "newmtl" => Token::NewMaterial,
-- 
2.43.0


From ffc1f7d7180cd47c010baa033836b0dfc02e3d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 16/22] fix: end words of an mtl file at a tab, too

---
 src/tokenizer/mtl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index cb8f597..8d1ee13 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -78,7 +78,7 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not(" \r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            map(is_not(" \t\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
         )),
         move || tokens.clone(),
         |mut acc: Vec<Token>, item| {
-- 
2.43.0


From 7076038a1c6d9a2968cfe95d09c6053f039a80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 17/22] fix: refuse a map without a file, or with several

map_Kd my texture.png was read as the file texture.png.
---
 src/material.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/material.rs b/src/material.rs
index e8261ea..1231208 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{all_consuming, map, opt},
+    combinator::{all_consuming, map, opt, verify},
     error,
     multi::many1,
     sequence::preceded,
@@ -758,7 +758,18 @@ fn parse_anti_alias_map<'a>(
     )
 }
 
+/// The options of a map, and the name of its file.
 fn parse_options<'a>(
+) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
+    verify(parse_option_list(), |options: &[OptionElement]| {
+        let files = options
+            .iter()
+            .filter(|o| matches!(o, OptionElement::FileName(_)));
+        files.count() == 1
+    })
+}
+
+fn parse_option_list<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
     many1(alt((
         parse_option_blend(),
-- 
2.43.0


From 72f4dcc956856ba9fbdcd337849a4c78f5b6ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 18/22] fix: accept the -boost option of a map

---
 src/material.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/material.rs b/src/material.rs
index 1231208..3bbea4a 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -51,6 +51,7 @@ enum OptionElement {
     TextureRes(i32),
     ImfChan(String),
     BumpMultiplier(f32),
+    Boost,
     ReflectionType(String),
 }
 
@@ -774,6 +775,7 @@ fn parse_option_list<'a>(
     many1(alt((
         parse_option_blend(),
         parse_option_bm(),
+        parse_option_boost(),
         parse_option_cc(),
         parse_option_clamp(),
         parse_option_texture_range(),
@@ -854,6 +856,18 @@ fn parse_option_bm<'a>(
     )
 }
 
+/// Accepted, but there is no use for the value.
+fn parse_option_boost<'a>(
+) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
+    map(
+        preceded(
+            token_match!(Token::OptionBoost),
+            token_match!(Token::Float(_) | Token::Int(_)),
+        ),
+        |_| OptionElement::Boost,
+    )
+}
+
 fn parse_option_cc<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
     map(
-- 
2.43.0


From 665cd8e9d2e6695de24600f08028cdb07f5a439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 19/22] fix: refuse switches which are neither on nor off

They were read as off, in materials.
---
 src/material.rs | 65 +++++++++----------------------------------------
 1 file changed, 11 insertions(+), 54 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 3bbea4a..2e3d509 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{all_consuming, map, opt, verify},
+    combinator::{all_consuming, map, map_res, opt, verify},
     error,
     multi::many1,
     sequence::preceded,
@@ -746,15 +746,8 @@ fn parse_anti_alias_map<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::AntiAliasMap),
-        map(token_match!(Token::String(_)), |o| {
-            let val = match get_on_off_from_str(&o) {
-                Ok(v) => v,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            MaterialElement::AntiAliasMap(val)
+        map_res(token_match!(Token::String(_)), |o| {
+            get_on_off_from_str(&o).map(MaterialElement::AntiAliasMap)
         }),
     )
 }
@@ -801,37 +794,19 @@ fn parse_option_list<'a>(
 fn parse_option_blend<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
     alt((
-        map(
+        map_res(
             preceded(
                 token_match!(Token::OptionBlendU),
                 token_match!(Token::String(_)),
             ),
-            |s| {
-                let val = match get_on_off_from_str(&s) {
-                    Ok(s) => s,
-                    Err(e) => {
-                        log::error!("{}", e);
-                        Default::default()
-                    },
-                };
-                OptionElement::BlendU(val)
-            },
+            |s| get_on_off_from_str(&s).map(OptionElement::BlendU),
         ),
-        map(
+        map_res(
             preceded(
                 token_match!(Token::OptionBlendV),
                 token_match!(Token::String(_)),
             ),
-            |s| {
-                let val = match get_on_off_from_str(&s) {
-                    Ok(s) => s,
-                    Err(e) => {
-                        log::error!("{}", e);
-                        Default::default()
-                    },
-                };
-                OptionElement::BlendV(val)
-            },
+            |s| get_on_off_from_str(&s).map(OptionElement::BlendV),
         ),
     ))
 }
@@ -870,41 +845,23 @@ fn parse_option_boost<'a>(
 
 fn parse_option_cc<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(
             token_match!(Token::OptionColorCorrect),
             token_match!(Token::String(_)),
         ),
-        |s| {
-            let val = match get_on_off_from_str(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            OptionElement::Cc(val)
-        },
+        |s| get_on_off_from_str(&s).map(OptionElement::Cc),
     )
 }
 
 fn parse_option_clamp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(
             token_match!(Token::OptionClamp),
             token_match!(Token::String(_)),
         ),
-        |s| {
-            let val = match get_on_off_from_str(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            OptionElement::Clamp(val)
-        },
+        |s| get_on_off_from_str(&s).map(OptionElement::Clamp),
     )
 }
 
-- 
2.43.0


From 11b1a682da0585d3cf73160374d4058cedbeb840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 20/22] fix: refuse a negative illumination model

illum -1 was read as 4294967295.
---
 src/material.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 2e3d509..558dda7 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -639,7 +639,7 @@ fn parse_illumination_model<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::IlluminationModel),
-        map(token_match!(Token::Int(_)), |f| {
+        map_res(token_match!(Token::Int(_)), |f| {
             let f = match get_token_int(&f) {
                 Ok(s) => s,
                 Err(e) => {
@@ -647,7 +647,7 @@ fn parse_illumination_model<'a>(
                     Default::default()
                 },
             };
-            MaterialElement::IlluminationModel(f as u32)
+            f.try_into().map(MaterialElement::IlluminationModel)
         }),
     )
 }
-- 
2.43.0


From 7e1c3dea92d1d933f8d5f4901f8b5367d6d8e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 21/22] fix: keywords are ASCII, no panic on a Kelvin sign

---
 src/tokenizer/mod.rs | 14 ++++++++++++--
 src/tokenizer/mtl.rs |  4 ++--
 src/tokenizer/obj.rs |  4 ++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 47b7fab..50cf6cc 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -15,10 +15,10 @@ use nom::{
     bytes::complete::tag,
     character::complete::{digit1, not_line_ending, one_of},
     combinator::{eof, map, map_opt, opt, peek, recognize},
-    error::Error,
+    error::{Error, ErrorKind},
     multi::fold_many1,
     sequence::terminated,
-    Input, Parser,
+    IResult, Input, Parser,
 };
 pub use obj::parse_obj;
 
@@ -570,6 +570,16 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+/// Keywords are ASCII, and so is the text they are written with. (The one of nom
+/// goes by the lower case of all characters, which may be of another length: the
+/// Kelvin sign is not a k.)
+fn tag_no_case<'a>(tag: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |input| match input.get(..tag.len()) {
+        Some(text) if text.eq_ignore_ascii_case(tag) => Ok((&input[tag.len()..], text)),
+        _ => Err(nom::Err::Error(Error::new(input, ErrorKind::Tag))),
+    }
+}
+
 /// The text up to the end of the line, without the blanks around it and without
 /// a comment that follows it.
 fn parse_text<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 8d1ee13..7b8c6bb 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{is_not, tag, tag_no_case, take_till},
+    bytes::{is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1, space1},
         multispace0,
@@ -15,7 +15,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     let (input, tokens) = match parse_name().parse_complete(input) {
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 2bac694..f818cf9 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -2,7 +2,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{tag, tag_no_case, take_till},
+    bytes::{tag, take_till},
     character::{
         complete::{line_ending, multispace1, one_of, space1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     let (input, tokens) = match parse_name().parse_complete(input) {
-- 
2.43.0


From a56a90396bb0beb57f14d8da6a1b2a8b58819b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 22/22] fix: an option at the end of a line is not the name of
 a file

---
 src/tokenizer/mtl.rs | 85 +++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 32 deletions(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 7b8c6bb..797d8ed 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -8,7 +8,7 @@ use nom::{
         complete::{line_ending, multispace1, space1},
         multispace0,
     },
-    combinator::map,
+    combinator::{eof, map},
     error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded},
@@ -18,8 +18,8 @@ use nom::{
 use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
-    let (input, tokens) = match parse_name().parse_complete(input) {
-        Ok((remainder, (keyword, name))) => (remainder, vec![keyword, name]),
+    let (input, tokens) = match alt((parse_name(), parse_keyword())).parse_complete(input) {
+        Ok((remainder, tokens)) => (remainder, tokens),
         Err(_) => (input, Vec::new()),
     };
     match fold_many0(
@@ -28,22 +28,8 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 multispace0(),
                 map(
                     alt([
-                        tag_no_case("newmtl"),
                         tag_no_case("spectral"),
                         tag_no_case("xyz"),
-                        tag_no_case("sharpness"),
-                        tag_no_case("illum"),
-                        tag_no_case("map_disp"),
-                        tag_no_case("map_Ka"),
-                        tag_no_case("map_Kd"),
-                        tag_no_case("map_Ks"),
-                        tag_no_case("map_Ns"),
-                        tag_no_case("map_aat"),
-                        tag_no_case("map_d"),
-                        tag_no_case("disp"),
-                        tag_no_case("decal"),
-                        tag_no_case("bump"),
-                        tag_no_case("refl"),
                         tag_no_case("-halo"),
                         tag_no_case("-type"),
                         tag_no_case("-texres"),
@@ -58,19 +44,10 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                         tag_no_case("-o"),
                         tag_no_case("-s"),
                         tag_no_case("-t"),
-                        tag_no_case("ka"),
-                        tag_no_case("kd"),
-                        tag_no_case("ks"),
-                        tag_no_case("ke"),
-                        tag_no_case("ns"),
-                        tag_no_case("tr"),
-                        tag_no_case("Tf"),
-                        tag_no_case("Ni"),
-                        tag_no_case("d"),
                     ]),
                     kw_map,
                 ),
-                map(multispace1, |_| Token::Ignore),
+                parse_end(),
             ),
             super::parse_number(" \t\r\n#"),
             map(
@@ -97,14 +74,58 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
 
 /// The name of a material is the text that follows the keyword on the same
 /// line, even if it looks like a number or a keyword.
-fn parse_name<'a>() -> impl Parser<&'a str, Output = (Token<'a>, Token<'a>), Error = Error<&'a str>>
-{
-    (
-        delimited(multispace0(), map(tag_no_case("newmtl"), kw_map), space1),
-        super::parse_text(),
+fn parse_name<'a>() -> impl Parser<&'a str, Output = Vec<Token<'a>>, Error = Error<&'a str>> {
+    map(
+        (
+            delimited(multispace0(), map(tag_no_case("newmtl"), kw_map), space1),
+            super::parse_text(),
+        ),
+        |(keyword, name)| vec![keyword, name],
     )
 }
 
+/// The keyword of a statement is the first word of its line, the same word may
+/// follow as the name of a file.
+fn parse_keyword<'a>() -> impl Parser<&'a str, Output = Vec<Token<'a>>, Error = Error<&'a str>> {
+    delimited(
+        multispace0(),
+        map(
+            alt([
+                tag_no_case("newmtl"),
+                tag_no_case("sharpness"),
+                tag_no_case("illum"),
+                tag_no_case("map_disp"),
+                tag_no_case("map_Ka"),
+                tag_no_case("map_Kd"),
+                tag_no_case("map_Ks"),
+                tag_no_case("map_Ns"),
+                tag_no_case("map_aat"),
+                tag_no_case("map_d"),
+                tag_no_case("disp"),
+                tag_no_case("decal"),
+                tag_no_case("bump"),
+                tag_no_case("refl"),
+                tag_no_case("ka"),
+                tag_no_case("kd"),
+                tag_no_case("ks"),
+                tag_no_case("ke"),
+                tag_no_case("ns"),
+                tag_no_case("tr"),
+                tag_no_case("Tf"),
+                tag_no_case("Ni"),
+                tag_no_case("d"),
+            ]),
+            |keyword| vec![kw_map(keyword)],
+        ),
+        parse_end(),
+    )
+}
+
+/// What follows a keyword, which may be the last word of its line.
+fn parse_end<'a>() -> impl Parser<&'a str, Output = &'a str, Error = Error<&'a str>> {
+    alt((multispace1, eof))
+}
+
 fn kw_map(value: &str) -> Token<'_> {
     match value.to_lowercase().as_ref() {
         "newmtl" => Token::NewMaterial,
-- 
2.43.0

