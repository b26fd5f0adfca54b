From 2a3615b5daba0bc22c55e67982fef299a84b4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:28 +0000
Subject: [PATCH 01/11] fix: encode the text given to from_unencoded_str

Data::from_unencoded_str and Value::from_unencoded_str are documented to
encode the provided value, but stored it as it was, so that dynamic text
could inject markup.
---
 src/text/encoded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text/encoded.rs b/src/text/encoded.rs
index 689e1ba..05edf32 100644
--- a/src/text/encoded.rs
+++ b/src/text/encoded.rs
@@ -90,7 +90,9 @@ impl EncodedText {
 
     pub(crate) fn from_unencoded_str(value: &str) -> EncodedText {
         EncodedText {
-            value: text::Deferred::Actual(value.into()),
+            value: text::Deferred::Actual(
+                encode_str_optional(value).unwrap_or_else(|| value.into())
+            ),
         }
     }
 
-- 
2.43.0


From 51702eec46397e43fb0cfeb38157c156fbdd10c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 02/11] fix: keep leading white space of attribute values

White space after the opening quote belongs to the value.
---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 92b50e5..3c865a7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -571,7 +571,7 @@ fn try_parse_attribute<'i>(tag: &str, input: input::Input<'i>)
     };
     let value_start = rest.location();
     let rest = match rest.take_char('"') {
-        Some(rest) => rest.skip_whitespace(),
+        Some(rest) => rest,
         None => return Err(Error::InvalidAttributeValue { 
             location: value_start,
             tag: tag.into(),
-- 
2.43.0


From c298ca0955cbf02f56a9e32bcd60da5aa72cd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 03/11] fix: compare texts by content instead of by storage

A text in static storage compared unequal to the same text in dynamic
storage, which made equal values, data and templates differ depending on
how they were constructed.
---
 src/text/deferred.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/text/deferred.rs b/src/text/deferred.rs
index 6b6c09f..0416dc5 100644
--- a/src/text/deferred.rs
+++ b/src/text/deferred.rs
@@ -3,12 +3,19 @@ use std::ops;
 use std::str;
 use std::fmt;
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub(crate) enum Deferred<T> {
     StaticStr(&'static str),
     Actual(T),
 }
 
+impl<T> PartialEq for Deferred<T> where T: ops::Deref<Target=str> {
+
+    fn eq(&self, other: &Deferred<T>) -> bool { **self == **other }
+}
+
+impl<T> Eq for Deferred<T> where T: ops::Deref<Target=str> {}
+
 impl<T> Deferred<T> where T: From<&'static str> {
 
     pub(crate) fn into_actual(self) -> T {
-- 
2.43.0


From dd4790813ce3e8dbcd4a65bbcdf3ba8c37369cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 04/11] fix: name the right tags in messages about closing tags

The message for a mismatched closing tag had the opening and the closing
tag swapped, and the one for an invalid closing tag identifier spoke of an
opening tag.
---
 src/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c865a7..a6eb965 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -238,7 +238,7 @@ impl fmt::Display for Error {
             Error::InvalidOpeningTagIdentifier { location, .. } =>
                 write!(fmt, "Invalid opening tag identifier at {}", location),
             Error::InvalidClosingTagIdentifier { location, .. } =>
-                write!(fmt, "Invalid opening tag identifier at {}", location),
+                write!(fmt, "Invalid closing tag identifier at {}", location),
             Error::InvalidAttributeIdentifier { location, .. } =>
                 write!(fmt, "Invalid attribute identifier at {}", location),
             Error::InvalidAttributeValue { ref tag, ref attribute_name, location } =>
@@ -285,10 +285,10 @@ impl fmt::Display for Error {
                 closing_location,
             } =>
                 write!(fmt, "Closing tag '{}' at {} does not match opening tag '{}' at {}",
-                    opening_tag,
-                    opening_location,
                     closing_tag,
                     closing_location,
+                    opening_tag,
+                    opening_location,
                 ),
         }
     }
-- 
2.43.0


From cc77fa9453045c311347ba94ea619b6cb0079e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 05/11] fix: report where an unfinished tag was started

The location of ExpectedOpeningTagClose and ExpectedClosingTagClose is
documented as the place where the tag was started, but was the place where
its end was missed.
---
 src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a6eb965..6b7ff10 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -534,7 +534,7 @@ fn try_parse_tag_close(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedClosingTagClose {
             tag: (*identifier).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
@@ -643,7 +643,7 @@ fn try_parse_tag_open(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedOpeningTagClose {
             tag: (*tag).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
-- 
2.43.0


From f86fe23877f7c49c4a8009b6930a566064dbd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 06/11] fix: refuse names containing a single quote

The parser never reads a ' as part of a name, so that an element or
attribute with such a name rendered to markup that could not be loaded.
---
 src/text/identifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/identifier.rs b/src/text/identifier.rs
index ffcef58..4489e9b 100644
--- a/src/text/identifier.rs
+++ b/src/text/identifier.rs
@@ -103,7 +103,7 @@ impl error::Error for IdentifierError {
 pub(crate) fn validate(value: &str) -> Result<&str, IdentifierError> {
     use std::ascii::{ AsciiExt };
 
-    const FORBIDDEN: &[char] = &['=', '"', '/', '>', '<', '&', ',', ';'];
+    const FORBIDDEN: &[char] = &['=', '"', '\'', '/', '>', '<', '&', ',', ';'];
 
     if value.is_empty() {
         return Err(IdentifierError::Empty);
-- 
2.43.0


From c48f762afa7298e82563c38fba8ae364b6847a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 07/11] fix: scan raw text in linear time

The location was computed anew from the start of the raw text for every
less-than character in it.
---
 src/input.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 5bae473..17ea785 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -62,10 +62,13 @@ impl<'i> Input<'i> {
 
     pub fn take_until_end_char<F>(&self, chr: char, check: F) -> Option<StrSplit<'i>>
     where F: Fn(Input<'i>) -> bool {
+        let mut rest = *self;
+        let mut consumed = 0;
         for (index, _) in self.content.match_indices(chr) {
-            let rest = self.advanced(index);
+            rest = rest.advanced(index - consumed);
+            consumed = index;
             if check(rest) {
-                return Some(self.consumed(index));
+                return Some((&self.content[..index], rest));
             }
         }
         None
-- 
2.43.0


From a2bff0ff0a48a78ae94869bfc8d01f52b1fdb40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 08/11] fix: decode files independent of read buffer boundaries

A multi-byte character crossing the end of the read buffer was reported as
invalid UTF-8.
---
 src/template.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 6d2cd2b..fb0f697 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -159,7 +159,7 @@ impl Template {
                 error,
             })?;
 
-        let mut input = String::new();
+        let mut input = Vec::new();
         let limit = options
             .max_input_len
             .unwrap_or_else(usize::max_value);
@@ -177,22 +177,8 @@ impl Template {
                     break 'read;
                 }
 
-                let valid_data = match str::from_utf8(data) {
-                    Ok(valid_data) => valid_data,
-                    Err(error) =>
-                        if error.valid_up_to() == 0 {
-                            return Err(FileError::Decode {
-                                path: path.into(),
-                                error,
-                            });
-                        } else {
-                            str::from_utf8(&data[..error.valid_up_to()])
-                                .expect("verified utf8")
-                        },
-                };
-            
-                input.push_str(valid_data);
-                valid_data.len()
+                input.extend_from_slice(data);
+                data.len()
             };
 
             if input.len() > limit {
@@ -205,7 +191,13 @@ impl Template {
             buffer.consume(consumed_len);
         }
 
-        Template::from_str(&input, options)
+        let input = str::from_utf8(&input)
+            .map_err(|error| FileError::Decode {
+                path: path.into(),
+                error,
+            })?;
+
+        Template::from_str(input, options)
             .map_err(|error| FileError::Input {
                 path: path.into(),
                 error,
-- 
2.43.0


From d8d321693ada0a3205da0c33defde5358e36aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 09/11] fix: refuse element names starting with an exclamation
 mark

A tag like `< !-- a>` or an element created as `!doctype` was accepted, but
rendered to markup that is a comment or a doctype.
---
 src/parse.rs    | 17 +++++++++++++++++
 src/template.rs |  1 +
 2 files changed, 18 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 6b7ff10..d8223ac 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -619,6 +619,7 @@ fn try_parse_tag_open(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest.skip_whitespace(),
         None => return None,
     };
+    let tag_location = rest.location();
     let (tag, rest) = match rest.take_identifier() {
         Ok(Some((identifier, rest))) => (identifier, rest.skip_whitespace()),
         Ok(None) => return Some(Err(Error::ExpectedOpeningTagIdentifier {
@@ -629,6 +630,12 @@ fn try_parse_tag_open(input: input::Input) -> Option<ParseResult> {
             location: rest.location(),
         })),
     };
+    if let Err(error) = validate_tag_name(&tag) {
+        return Some(Err(Error::InvalidOpeningTagIdentifier {
+            identifier_error: error,
+            location: tag_location,
+        }));
+    }
 
     let (attributes, rest) = match parse_attributes(&tag, rest) {
         Ok((attributes, rest)) => (attributes, rest.skip_whitespace()),
@@ -678,6 +685,16 @@ fn mode_for_tag(tag: &str, self_close: bool) -> Mode {
     Mode::Data
 }
 
+/// The name of an element cannot start with a `!`, since its opening tag would be read as a
+/// comment or doctype.
+pub(crate) fn validate_tag_name(tag: &str) -> Result<(), text::IdentifierError> {
+    if tag.starts_with('!') {
+        Err(text::IdentifierError::Forbidden { forbidden: '!' })
+    } else {
+        Ok(())
+    }
+}
+
 pub(crate) fn is_void_tag(tag: &str) -> bool {
 
     const VOID_TAGS: &'static [&'static str] = &[
diff --git a/src/template.rs b/src/template.rs
index fb0f697..636d767 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -262,6 +262,7 @@ impl Template {
     pub fn with_element<T>(tag: T) -> Result<Template, text::IdentifierError>
     where T: text::IntoIdentifier {
         let tag = tag.into_identifier()?;
+        parse::validate_tag_name(&tag)?;
         let event = {
             let attributes = event::Attributes::new(Vec::new());
             if parse::is_void_tag(&tag) {
-- 
2.43.0


From a8c27acd62c8a7237a78c458b51e10997c07f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 10/11] fix: retry file reads interrupted by a signal

---
 src/template.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 636d767..d0f5263 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -167,11 +167,15 @@ impl Template {
         'read: loop {
 
             let consumed_len = {
-                let data = buffer.fill_buf()
-                    .map_err(|error| FileError::Read {
+                let data = match buffer.fill_buf() {
+                    Ok(data) => data,
+                    Err(ref error)
+                        if error.kind() == io::ErrorKind::Interrupted => continue 'read,
+                    Err(error) => return Err(FileError::Read {
                         path: path.into(),
                         error,
-                    })?;
+                    }),
+                };
 
                 if data.is_empty() {
                     break 'read;
-- 
2.43.0


From 9e08ae8cbb3574e4ebdfefe7bc3a48d8724af948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 11/11] fix: formatting options are not applied to single parts
 of a rendered template

format!("{:.3}", template) cut every text of the document to three characters, and
format!("{:9}", template) filled each with spaces.
---
 src/template.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/template.rs b/src/template.rs
index d0f5263..dbfc0a5 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -367,7 +367,8 @@ impl fmt::Display for Template {
 
     fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
         for event in self.events.iter() {
-            fmt::Display::fmt(event, fmt)?;
+            // width, precision and the like are not meant for the single parts
+            write!(fmt, "{}", event)?;
         }
         Ok(())
     }
-- 
2.43.0

