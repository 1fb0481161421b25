From 18024267d24c1c6999b70f14cdd4d78ada339dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 01/16] fix: report unparsed OBJ content instead of silently
 dropping the rest of the file

---
 src/model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 567e016..ab31064 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -301,7 +301,11 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
     )
     .parse_complete(input)
     {
-        Ok((_, acc)) => Ok(acc),
+        Ok((rest, acc)) if rest.is_empty() => Ok(acc),
+        Ok((rest, _)) => Err(ModelError::Parse(format!(
+            "Unexpected content: {:?}",
+            rest[0]
+        ))),
         Err(e) => Err(ModelError::Parse(e.to_string())),
     }
 }
-- 
2.43.0


From f9e92062f45521a20b59739342d0070bf8c82fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 02/16] fix: report unparsed MTL content instead of silently
 dropping the rest of the file

---
 src/material.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/material.rs b/src/material.rs
index 1c56d41..d4e5d08 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -414,7 +414,13 @@ enum MaterialElement {
 
 pub(crate) fn parse(input: TokenSet<'_>) -> Result<Vec<Material>, MaterialError> {
     let elements: Vec<MaterialElement> = match parse_material_set().parse_complete(input) {
-        Ok((_, x)) => x,
+        Ok((rest, x)) if rest.is_empty() => x,
+        Ok((rest, _)) => {
+            return Err(MaterialError::Parse(format!(
+                "Unexpected content: {:?}",
+                rest[0]
+            )))
+        },
         Err(e) => return Err(MaterialError::Parse(e.to_string())),
     };
 
-- 
2.43.0


From f068d7dd67b17c93ee78ea90ca365879190c22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 03/16] fix: do not panic on non-ASCII characters which
 case-fold to a keyword letter

---
 src/tokenizer/mod.rs | 13 +++++++++++--
 src/tokenizer/mtl.rs |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 6b5ab60..ee5eb12 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -12,9 +12,9 @@ use std::ops::IndexMut;
 pub use mtl::parse_mtl;
 use nom::{
     branch::alt,
-    bytes::complete::tag,
+    bytes::complete::{tag, take},
     character::complete::digit1,
-    combinator::{map, opt},
+    combinator::{map, opt, verify},
     error::Error,
     multi::{fold_many0, fold_many1},
     Input, Parser,
@@ -568,6 +568,15 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+/// Matches an ASCII keyword in any case. Unlike nom's `tag_no_case` this never
+/// matches (and then splits) a multi-byte character which lowercases to an ASCII
+/// letter, such as the Kelvin sign.
+fn tag_no_case<'a>(
+    kw: &'static str,
+) -> impl Parser<&'a str, Output = &'a str, Error = Error<&'a str>> {
+    verify(take(kw.len()), move |s: &str| s.eq_ignore_ascii_case(kw))
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 47ce969..c8ec788 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{is_not, tag, tag_no_case, take_till},
+    bytes::{is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
-- 
2.43.0


From 2a67850420316abf6bac4a0b8201088f8216ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 04/16] fix: keep the settings of a group when it is declared
 again

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index ab31064..808a258 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -265,7 +265,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
                     for g in groups {
-                        model.groups.insert(g.clone(), Default::default());
+                        model.groups.entry(g.clone()).or_default();
                         model.current_group.push(g);
                     }
                 },
-- 
2.43.0


From 6417eb358dbf4176e840d67da82237fd64756aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 05/16] fix: store the shadow_obj and trace_obj file names in
 the model

---
 src/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 808a258..5b62ed1 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -284,8 +284,8 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::CInterp(_flag) => {},
                 ModelElement::DInterp(_flag) => {},
                 ModelElement::Lod(_level) => {},
-                ModelElement::ShadowObj(_name) => {},
-                ModelElement::TraceObj(_name) => {},
+                ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
+                ModelElement::TraceObj(name) => model.trace_obj = Some(name),
                 ModelElement::TextureLib(libs) => {
                     model.texture_libs.extend(libs);
                 },
-- 
2.43.0


From 0499057cc4ad82f483479ec66f553c164385da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 06/16] fix: apply bevel, c_interp, d_interp and lod to the
 current groups

---
 src/model.rs | 79 ++++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 5b62ed1..482f1b9 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -9,7 +9,7 @@ use crate::{
 
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{map, map_opt, opt},
     error,
     multi::{fold_many0, fold_many1, many1},
     sequence::preceded,
@@ -207,7 +207,7 @@ pub(crate) enum ModelElement {
     Bevel(bool),
     CInterp(bool),
     DInterp(bool),
-    Lod(i32),
+    Lod(u8),
     ShadowObj(String),
     TraceObj(String),
     TextureLib(Vec<String>),
@@ -280,10 +280,30 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Smoothing(group_id) => {
                     model.current_smoothing_group = group_id;
                 },
-                ModelElement::Bevel(_flag) => {},
-                ModelElement::CInterp(_flag) => {},
-                ModelElement::DInterp(_flag) => {},
-                ModelElement::Lod(_level) => {},
+                ModelElement::Bevel(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.bevel = flag;
+                    }
+                },
+                ModelElement::CInterp(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.c_interp = flag;
+                    }
+                },
+                ModelElement::DInterp(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.d_interp = flag;
+                    }
+                },
+                ModelElement::Lod(level) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.lod = level;
+                    }
+                },
                 ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
                 ModelElement::TraceObj(name) => model.trace_obj = Some(name),
                 ModelElement::TextureLib(libs) => {
@@ -678,19 +698,15 @@ pub(crate) fn parse_bevel<'a>(
     map(
         preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
+            let flag = match get_on_off_from_str(&s) {
+                Ok(v) => v,
                 Err(e) => {
                     log::error!("{}", e);
                     Default::default()
                 },
             };
 
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::Bevel(flag)
-            } else {
-                ModelElement::Bevel(false)
-            }
+            ModelElement::Bevel(flag)
         },
     )
 }
@@ -700,19 +716,15 @@ pub(crate) fn parse_c_interp<'a>(
     map(
         preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
+            let flag = match get_on_off_from_str(&s) {
+                Ok(v) => v,
                 Err(e) => {
                     log::error!("{}", e);
                     Default::default()
                 },
             };
 
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::CInterp(flag)
-            } else {
-                ModelElement::CInterp(false)
-            }
+            ModelElement::CInterp(flag)
         },
     )
 }
@@ -722,36 +734,29 @@ pub(crate) fn parse_d_interp<'a>(
     map(
         preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
+            let flag = match get_on_off_from_str(&s) {
+                Ok(v) => v,
                 Err(e) => {
                     log::error!("{}", e);
                     Default::default()
                 },
             };
 
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::DInterp(flag)
-            } else {
-                ModelElement::DInterp(false)
-            }
+            ModelElement::DInterp(flag)
         },
     )
 }
 
 pub(crate) fn parse_lod<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_opt(
         preceded(token_match!(Token::Lod), token_match!(Token::Int(_))),
-        |s| {
-            let res = match get_token_int(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            ModelElement::Lod(res)
+        |s| match get_token_int(&s) {
+            Ok(s) => u8::try_from(s).ok().map(ModelElement::Lod),
+            Err(e) => {
+                log::error!("{}", e);
+                None
+            },
         },
     )
 }
-- 
2.43.0


From da16fc625f8a371db95bf7577a59c15b13edea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 07/16] fix: do not turn integer literals outside the i32 range
 into 0

---
 src/tokenizer/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index ee5eb12..d48395c 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -587,11 +587,12 @@ fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             }),
         ),
         |(sign, s): (Option<&str>, Vec<&str>)| {
-            let mut val = s.join("").parse::<i32>().unwrap_or_default();
-            if sign == Some("-") {
-                val *= -1;
+            let digits = format!("{}{}", sign.unwrap_or_default(), s.join(""));
+            match digits.parse::<i32>() {
+                Ok(val) => Token::Int(val),
+                // Does not fit an integer, the magnitude is kept as a float
+                Err(_) => Token::Float(digits.parse::<f32>().unwrap_or_default()),
             }
-            Token::Int(val)
         },
     )
 }
-- 
2.43.0


From 71fcd42efd64511dc08a9f6595ce3def0ce5172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 08/16] fix: do not read a lone dot (as in ./file.mtl) as the
 number 0

---
 src/tokenizer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index d48395c..998d65d 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -16,7 +16,7 @@ use nom::{
     character::complete::digit1,
     combinator::{map, opt, verify},
     error::Error,
-    multi::{fold_many0, fold_many1},
+    multi::fold_many1,
     Input, Parser,
 };
 pub use obj::parse_obj;
@@ -605,7 +605,7 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             alt((
                 map(
                     (
-                        fold_many0(digit1, Vec::new, |mut acc: Vec<_>, item| {
+                        fold_many1(digit1, Vec::new, |mut acc: Vec<_>, item| {
                             acc.push(item);
                             acc
                         }),
-- 
2.43.0


From 4eba013b690c155e8124e0bb991f8e626ee9e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:54 +0000
Subject: [PATCH 09/16] fix: read numbers with an exponent but no decimal point
 (1e-5)

---
 src/tokenizer/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 998d65d..2826cf6 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -663,6 +663,18 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                     ),
                     |(f, _, s, e)| (f.unwrap_or_default(), s, e.unwrap_or_default()),
                 ),
+                map(
+                    (
+                        digit1,
+                        alt((tag("e"), tag("E"))),
+                        opt(alt((tag("+"), tag("-")))),
+                        digit1,
+                    ),
+                    |(f, e, sign, digits): (_, _, Option<&str>, &str)| {
+                        let e = [e, sign.unwrap_or_default(), digits].concat();
+                        (vec![f], Vec::new(), e)
+                    },
+                ),
             )),
         ),
         |(sign, (f, s, e)): (Option<&str>, (Vec<&str>, Vec<&str>, String))| {
-- 
2.43.0


From dd14ec7d55077f7e0c105a41d05f87483565123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 10/16] fix: do not split a name which starts with a number

---
 src/tokenizer/mtl.rs | 12 ++++++++----
 src/tokenizer/obj.rs | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index c8ec788..871689f 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -8,9 +8,9 @@ use nom::{
         complete::{line_ending, multispace1},
         multispace0,
     },
-    combinator::map,
+    combinator::{eof, map, peek},
     multi::fold_many0,
-    sequence::{delimited, preceded},
+    sequence::{delimited, preceded, terminated},
     Parser,
 };
 
@@ -67,8 +67,12 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
-            super::parse_float(),
-            super::parse_digit(),
+            // A number which runs on into other characters is the start of a
+            // name, like 2k.png
+            terminated(
+                alt((super::parse_float(), super::parse_digit())),
+                peek(alt((eof, multispace1, tag("#")))),
+            ),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index ef13c95..497353c 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -8,9 +8,9 @@ use nom::{
         complete::{line_ending, multispace1},
         multispace0,
     },
-    combinator::map,
+    combinator::{eof, map, peek},
     multi::fold_many0,
-    sequence::{delimited, preceded},
+    sequence::{delimited, preceded, terminated},
     Parser,
 };
 
@@ -49,8 +49,12 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 map(multispace1, |_| Token::Ignore),
             ),
             map(tag("/"), |_| Token::Slash),
-            super::parse_float(),
-            super::parse_digit(),
+            // A number which runs on into other characters is the start of a
+            // name, like 2k.png
+            terminated(
+                alt((super::parse_float(), super::parse_digit())),
+                peek(alt((eof, multispace1, tag("/"), tag("#")))),
+            ),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
-- 
2.43.0


From 46efd5f196d269b09cdf1f8f6c5338a4e2852b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 11/16] fix: end an MTL name at a tab as well as at a space

---
 src/tokenizer/mtl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 871689f..c722110 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -78,7 +78,7 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not(" \r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            map(is_not(" \t\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
         )),
         Vec::new,
         |mut acc: Vec<Token>, item| {
-- 
2.43.0


From d9b1e8fc896643409b8e0567d10c9ebb2427f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 12/16] fix: reject a negative illumination model instead of
 wrapping it

---
 src/material.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index d4e5d08..f6ee859 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{map, map_opt, opt},
     error,
     multi::many1,
     sequence::preceded,
@@ -639,7 +639,7 @@ fn parse_illumination_model<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::IlluminationModel),
-        map(token_match!(Token::Int(_)), |f| {
+        map_opt(token_match!(Token::Int(_)), |f| {
             let f = match get_token_int(&f) {
                 Ok(s) => s,
                 Err(e) => {
@@ -647,7 +647,9 @@ fn parse_illumination_model<'a>(
                     Default::default()
                 },
             };
-            MaterialElement::IlluminationModel(f as u32)
+            u32::try_from(f)
+                .ok()
+                .map(MaterialElement::IlluminationModel)
         }),
     )
 }
-- 
2.43.0


From 43c792280b30b39cfe3d60134dcb3ffd21b0437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 13/16] fix: do not take the words of an unknown statement
 after a map as its file name

---
 src/material.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index f6ee859..bf5f1fa 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{map, map_opt, opt},
+    combinator::{map, map_opt, opt, verify},
     error,
     multi::many1,
     sequence::preceded,
@@ -763,7 +763,7 @@ fn parse_anti_alias_map<'a>(
 
 fn parse_options<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
-    many1(alt((
+    let options = many1(alt((
         parse_option_blend(),
         parse_option_bm(),
         parse_option_cc(),
@@ -785,7 +785,13 @@ fn parse_options<'a>(
             };
             OptionElement::FileName(name.into())
         }),
-    )))
+    )));
+
+    // A second name is not part of this map, it starts an unknown statement
+    verify(options, |options: &Vec<OptionElement>| {
+        let is_name = |o: &&OptionElement| matches!(o, OptionElement::FileName(_));
+        options.iter().filter(is_name).count() == 1
+    })
 }
 
 fn parse_option_blend<'a>(
-- 
2.43.0


From 8cd37351b6b140537a6df2e5f3985fc615766b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 14/16] fix: put elements into every group named by a g
 statement

---
 src/model.rs         | 14 ++++++++++----
 src/tokenizer/mod.rs |  1 -
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 482f1b9..a150816 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -266,7 +266,9 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                     model.current_group.clear();
                     for g in groups {
                         model.groups.entry(g.clone()).or_default();
-                        model.current_group.push(g);
+                        if !model.current_group.contains(&g) {
+                            model.current_group.push(g);
+                        }
                     }
                 },
                 ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),
@@ -580,16 +582,20 @@ pub(crate) fn parse_group<'a>(
     map(
         preceded(
             token_match!(Token::Group),
-            many1(map(
+            map(
                 token_match!(Token::String(_)),
                 |s| match get_token_string(&s) {
-                    Ok(s) => s.into(),
+                    Ok(s) => s
+                        .split([' ', '\t'])
+                        .filter(|name| !name.is_empty())
+                        .map(String::from)
+                        .collect(),
                     Err(e) => {
                         log::error!("{}", e);
                         Default::default()
                     },
                 },
-            )),
+            ),
         ),
         ModelElement::Group,
     )
diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 2826cf6..867d617 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -80,7 +80,6 @@ pub enum Token<'a> {
     Object,
 
     /// g group_name1 group_name2 ...
-    /// Currently ignores all names after the first
     Group,
 
     /// s group_number
-- 
2.43.0


From a081b85827a1fb43a855f42507bf4a145c1b59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 15/16] fix: do not take the line after mtllib or maplib as
 another library name

---
 src/model.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index a150816..7d544ac 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -11,7 +11,7 @@ use nom::{
     branch::alt,
     combinator::{map, map_opt, opt},
     error,
-    multi::{fold_many0, fold_many1, many1},
+    multi::{fold_many0, fold_many1},
     sequence::preceded,
     IResult, Parser,
 };
@@ -606,16 +606,16 @@ pub(crate) fn parse_mat_lib<'a>(
     map(
         preceded(
             token_match!(Token::MaterialLib),
-            many1(map(
+            map(
                 token_match!(Token::String(_)),
                 |s| match get_token_string(&s) {
-                    Ok(s) => s.into(),
+                    Ok(s) => vec![s.into()],
                     Err(e) => {
                         log::error!("{}", e);
                         Default::default()
                     },
                 },
-            )),
+            ),
         ),
         ModelElement::MaterialLib,
     )
@@ -814,7 +814,7 @@ pub(crate) fn parse_texture_lib<'a>(
     map(
         preceded(
             token_match!(Token::TextureMapLib),
-            many1(map(token_match!(Token::String(_)), |s| {
+            map(token_match!(Token::String(_)), |s| {
                 let res = match get_token_string(&s) {
                     Ok(s) => s,
                     Err(e) => {
@@ -823,8 +823,8 @@ pub(crate) fn parse_texture_lib<'a>(
                     },
                 };
 
-                res.into()
-            })),
+                vec![res.into()]
+            }),
         ),
         ModelElement::TextureLib,
     )
-- 
2.43.0


From 3efc358200c54842e24dd58913c3f7b336c28634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 16/16] fix: blanks at the end of an OBJ line are not part of
 the name

'bevel on ' was read as off and 'usemtl a ' as the name 'a ', which the
material library cannot hold.
---
 src/tokenizer/obj.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 497353c..72499ba 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -60,7 +60,11 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not("\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            // Names may hold blanks, blanks at the end of the line are not part
+            // of them
+            map(is_not("\r\n"), |s: &str| {
+                Token::String(Cow::Borrowed(s.trim_end_matches([' ', '\t'])))
+            }),
         )),
         Vec::new,
         |mut acc: Vec<Token>, item| {
-- 
2.43.0

