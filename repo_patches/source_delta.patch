From 0923199ac0f25ff8f6dfa8c2358982d961a35fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:22 +0000
Subject: [PATCH 01/21] fix: as_i32/as_i64 return IntegerTooLarge instead of
 wrapping to a negative value

---
 src/ber/ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 47bb2d6..af39e34 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -414,7 +414,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i64>::from_be_bytes(decode_array_int8(bytes)?)
             } else {
-                <u64>::from_be_bytes(decode_array_uint8(bytes)?) as i64
+                let val = <u64>::from_be_bytes(decode_array_uint8(bytes)?);
+                i64::try_from(val).or(Err(BerError::IntegerTooLarge))?
             };
             Ok(result)
         } else {
@@ -441,7 +442,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i32>::from_be_bytes(decode_array_int4(bytes)?)
             } else {
-                <u32>::from_be_bytes(decode_array_uint4(bytes)?) as i32
+                let val = <u32>::from_be_bytes(decode_array_uint4(bytes)?);
+                i32::try_from(val).or(Err(BerError::IntegerTooLarge))?
             };
             Ok(result)
         } else {
-- 
2.43.0


From 1150c3382dafa895085a1bfd7f9afe4f28d969ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:22 +0000
Subject: [PATCH 02/21] fix: do not recurse on every leading zero when decoding
 an integer (stack overflow)

---
 src/ber/integer.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/ber/integer.rs b/src/ber/integer.rs
index 2ddb2a0..629505d 100644
--- a/src/ber/integer.rs
+++ b/src/ber/integer.rs
@@ -5,16 +5,15 @@ use crate::error::*;
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn remove_zeroes(bytes: &[u8]) -> Result<&[u8], BerError> {
-    // skip leading 0s
-    match bytes {
-        // [] => Err(BerError::DerConstraintFailed),
-        [0] => Ok(bytes),
-        // [0, byte, ..] if *byte < 0x80 => Err(BerError::DerConstraintFailed),
-        // [0, rest @ ..] => Ok(&rest),
-        [0, rest @ ..] => remove_zeroes(rest),
-        // [byte, ..] if *byte >= 0x80 => Err(BerError::IntegerTooLarge),
-        _ => Ok(bytes),
+    // skip leading 0s (not recursive: the number of leading zeroes is not bounded)
+    let mut bytes = bytes;
+    while let [0, rest @ ..] = bytes {
+        if rest.is_empty() {
+            break;
+        }
+        bytes = rest;
     }
+    Ok(bytes)
 }
 
 // XXX const generics require rustc >= 1.51
-- 
2.43.0


From 96dd60ecd79e807f9d3541f86ba6a81e0831aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:22 +0000
Subject: [PATCH 03/21] fix: iterating over an empty SEQUENCE or SET does not
 yield the object itself

---
 src/ber/ber.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index af39e34..b0a61de 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -786,8 +786,9 @@ impl<'a> Iterator for BerObjectIntoIterator<'a> {
         //     None
         // };
         let res = match self.val.content {
-            BerObjectContent::Sequence(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
-            BerObjectContent::Set(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
+            BerObjectContent::Sequence(ref v) | BerObjectContent::Set(ref v) => {
+                v.get(self.idx).cloned()
+            }
             _ => {
                 if self.idx == 0 {
                     Some(self.val.clone())
-- 
2.43.0


From f117967016db3e7d88ddacb1ed0c546613ad86bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:22 +0000
Subject: [PATCH 04/21] fix: BerObject::try_from(Any) accepts objects read with
 an indefinite length

---
 src/ber/ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index b0a61de..54c2b9c 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -731,7 +731,8 @@ impl<'a> TryFrom<Any<'a>> for BerObject<'a> {
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            // end of content (if any) is not included in data
+            Length::Definite(data.len()),
             header.constructed(),
             MAX_RECURSION,
         )?;
@@ -748,7 +749,8 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for BerObject<'a> {
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            // end of content (if any) is not included in data
+            Length::Definite(data.len()),
             header.constructed(),
             MAX_RECURSION,
         )?;
-- 
2.43.0


From 17b66ee24f83e94ed4027ee287aed4b1562a3543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:22 +0000
Subject: [PATCH 05/21] fix: pretty-print IMPLICIT tagged SEQUENCE as Sequence,
 not Set

---
 src/ber/print.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index 3553815..f2d5279 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -3,7 +3,7 @@ use crate::ber::{BerObject, BerObjectContent};
 use alloc::string::{String, ToString};
 use alloc::vec;
 use alloc::vec::Vec;
-use asn1_rs::{Class, Header, Length, Tag};
+use asn1_rs::{Class, Header, Length};
 use core::fmt;
 use core::iter::FromIterator;
 use core::str;
@@ -174,7 +174,8 @@ impl fmt::Debug for PrettyBer<'_> {
             },
             BerObjectContent::Set(ref v) |
             BerObjectContent::Sequence(ref v)        => {
-                let ty = if self.obj.header.tag() == Tag::Sequence { "Sequence" } else { "Set" };
+                // header tag may not match content (for ex. if IMPLICIT tagged)
+                let ty = if let BerObjectContent::Sequence(_) = self.obj.content { "Sequence" } else { "Set" };
                 if self.is_recursive() {
                     writeln!(f, "{}[", ty)?;
                     for o in v {
-- 
2.43.0


From cc19c2c3bc00fb3d1c389c479ffc38bf1f5aca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:22 +0000
Subject: [PATCH 06/21] fix: do not read past the end of an empty DER BIT
 STRING

---
 src/der/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 9a35b64..585b8c3 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -583,6 +583,9 @@ fn der_read_element_content_recursive<'a>(
 }
 
 fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectContent<'_>> {
+    if len == 0 {
+        return Err(Err::Error(BerError::InvalidLength));
+    }
     let (i, ignored_bits) = be_u8(i)?;
     if ignored_bits > 7 {
         return Err(Err::Error(BerError::invalid_value(
@@ -590,9 +593,6 @@ fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectCo
             "More than 7 unused bits".to_owned(),
         )));
     }
-    if len == 0 {
-        return Err(Err::Error(BerError::InvalidLength));
-    }
     let (i, data) = take(len - 1)(i)?;
     if len > 1 {
         let mut last_byte = data[len - 2];
-- 
2.43.0


From 733d9337fe16ef48b0a283965630607e94b0eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 07/21] fix: parse_der_explicit_optional and parse_der_implicit
 reject indefinite lengths

---
 src/der/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 585b8c3..4c5b70c 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -313,7 +313,7 @@ pub fn parse_der_explicit_optional<F>(i: &[u8], tag: Tag, f: F) -> DerResult<'_>
 where
     F: Fn(&[u8]) -> DerResult,
 {
-    parse_ber_explicit_optional(i, tag, f)
+    parse_ber_optional(parse_der_tagged_explicit(tag, f))(i)
 }
 
 /// Parse an implicit tagged object, applying function to read content
@@ -361,7 +361,7 @@ where
     F: Fn(&'a [u8], &'_ Header, usize) -> BerResult<'a, DerObjectContent<'a>>,
     T: Into<Tag>,
 {
-    parse_ber_implicit(i, tag, f)
+    parse_der_tagged_implicit(tag, f)(i)
 }
 
 /// Parse DER object and try to decode it as a 32-bits signed integer
-- 
2.43.0


From 77f23e189d064c74ae27a7660d96575d4c15ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 08/21] fix: reject constructed OCTET STRING in DER (X.690
 10.2)

---
 src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 4c5b70c..73e853e 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -521,7 +521,8 @@ pub fn der_read_element_content_as(
                 _ => (),
             }
         }
-        Tag::NumericString
+        Tag::OctetString
+        | Tag::NumericString
         | Tag::VisibleString
         | Tag::PrintableString
         | Tag::Ia5String
-- 
2.43.0


From 108c16b829eca0ef3a114c31eb8944a0e7ee9ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 09/21] fix: reject non-minimal negative INTEGER in DER (X.690
 8.3.2)

---
 src/der/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 73e853e..d788bbf 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -518,6 +518,11 @@ pub fn der_read_element_content_as(
                         DerConstraint::IntegerLeadingZeroes,
                     )));
                 }
+                [0xff, byte, ..] if byte >= 0x80 => {
+                    return Err(Err::Error(BerError::DerConstraintFailed(
+                        DerConstraint::IntegerLeadingFF,
+                    )));
+                }
                 _ => (),
             }
         }
-- 
2.43.0


From 01001e403db85748426b4ec19676763f48e02e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 10/21] fix: verify DER constraints of the elements of a
 SEQUENCE or SET

---
 src/der/parser.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index d788bbf..984c849 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -3,6 +3,7 @@ use crate::der::*;
 use crate::der_constraint_fail_if;
 use crate::error::*;
 use alloc::borrow::ToOwned;
+use alloc::vec::Vec;
 use asn1_rs::{Any, FromDer};
 use nom::bytes::streaming::take;
 use nom::number::streaming::be_u8;
@@ -485,6 +486,7 @@ pub fn der_read_element_content_as(
     constructed: bool,
     max_depth: usize,
 ) -> BerResult<'_, DerObjectContent<'_>> {
+    custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
     // Indefinite lengths are not allowed in DER (X.690 section 10.1)
     let l = length.definite()?;
     if i.len() < l {
@@ -548,11 +550,38 @@ pub fn der_read_element_content_as(
                 )));
             }
         }
+        Tag::Sequence | Tag::Set => {
+            custom_check!(i, !constructed, BerError::ConstructExpected)?;
+            // DER constraints also apply to the elements
+            let (rem, data) = take(l)(i)?;
+            let objects = der_read_elements(data, max_depth - 1)?;
+            let content = if tag == Tag::Sequence {
+                DerObjectContent::Sequence(objects)
+            } else {
+                DerObjectContent::Set(objects)
+            };
+            return Ok((rem, content));
+        }
         _ => (),
     }
     ber_read_element_content_as(i, tag, length, constructed, max_depth)
 }
 
+/// Read all DER elements of a constructed object
+fn der_read_elements(mut i: &[u8], max_depth: usize) -> Result<Vec<DerObject<'_>>, BerError> {
+    let mut objects = Vec::new();
+    while !i.is_empty() {
+        let (rem, obj) = match parse_der_recursive(i, max_depth) {
+            Ok(res) => res,
+            Err(Err::Incomplete(n)) => return Err(BerError::Incomplete(n)),
+            Err(Err::Error(e)) | Err(Err::Failure(e)) => return Err(e),
+        };
+        objects.push(obj);
+        i = rem;
+    }
+    Ok(objects)
+}
+
 /// Parse DER object content recursively
 ///
 /// *Note: an error is raised if recursion depth exceeds `MAX_RECURSION`.
-- 
2.43.0


From 0d5b8039374bc0e03988d5db6b9df57511131afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 11/21] fix: parse IMPLICIT tagged values using an indefinite
 length

---
 src/ber/tagged.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ber/tagged.rs b/src/ber/tagged.rs
index cef5642..bdb472e 100644
--- a/src/ber/tagged.rs
+++ b/src/ber/tagged.rs
@@ -173,8 +173,9 @@ where
     T: Into<Tag>,
 {
     let tag = tag.into();
-    parse_ber_tagged_implicit_g(tag, move |i, hdr, depth| {
-        let (rem, content) = f(i, &hdr, depth)?;
+    parse_ber_container(move |i, hdr| {
+        hdr.assert_tag(tag)?;
+        let (rem, content) = f(i, &implicit_content_header(i, &hdr), MAX_RECURSION)?;
         // trailing bytes are ignored
         let obj = BerObject::from_header_and_content(hdr, content);
         Ok((rem, obj))
@@ -253,7 +254,14 @@ where
     parse_ber_container(move |i, hdr| {
         hdr.assert_tag(tag).map_err(|e| Err::Error(e.into()))?;
         // XXX MAX_RECURSION should not be used, it resets the depth counter
-        f(i, hdr, MAX_RECURSION)
+        f(i, implicit_content_header(i, &hdr), MAX_RECURSION)
         // trailing bytes are ignored
     })
 }
+
+/// Get the header describing the content given to the parsing function of an IMPLICIT value
+///
+/// If length was indefinite, the end of content is already removed and the length is known.
+fn implicit_content_header<'a>(content: &[u8], hdr: &Header<'a>) -> Header<'a> {
+    hdr.clone().with_length(Length::Definite(content.len()))
+}
-- 
2.43.0


From 132cc9dc08c46dcaca8f6c099d740f549184e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 12/21] fix: serialize End-of-contents as 00 00

---
 src/ber/serialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index d446805..39f08af 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -117,7 +117,7 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
     c: &'a BerObjectContent,
 ) -> impl SerializeFn<W> + 'a {
     move |out| match c {
-        BerObjectContent::EndOfContent => be_u8(0)(out),
+        BerObjectContent::EndOfContent => Ok(out),
         BerObjectContent::Boolean(b) => {
             let b0 = if *b { 0xff } else { 0x00 };
             be_u8(b0)(out)
-- 
2.43.0


From 6fc9ccbc6d95289a7e269fb96de089b75c5034d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 13/21] fix: serialize ENUMERATED as a valid integer encoding

---
 src/ber/serialize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 39f08af..bde8e27 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -129,12 +129,16 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
         BerObjectContent::OctetString(s) => slice(s)(out),
         BerObjectContent::Null => Ok(out),
         BerObjectContent::Enum(i) => {
-            let v: Vec<u8> = i
+            let mut v: Vec<u8> = i
                 .to_be_bytes()
                 .iter()
                 .cloned()
                 .skip_while(|&b| b == 0)
                 .collect();
+            // value is encoded as a (positive) integer, at least one octet (X.690 8.4)
+            if v.first().map_or(true, |&b| b >= 0x80) {
+                v.insert(0, 0);
+            }
             slice(v)(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-- 
2.43.0


From bdac4c28530fe147ebc0f129624306968065adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:14 +0000
Subject: [PATCH 14/21] fix: serialize an absent optional object as nothing,
 not as End-of-contents

---
 src/ber/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index bde8e27..d0779ff 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -202,6 +202,10 @@ pub fn ber_encode_object<'a, 'b: 'a, W: Write + Default + AsRef<[u8]> + 'a>(
     obj: &'b BerObject,
 ) -> impl SerializeFn<W> + 'a {
     move |out| {
+        if let BerObjectContent::Optional(None) = obj.content {
+            // absent object: nothing to encode
+            return Ok(out);
+        }
         // XXX should we make an exception for tagged values here ?
         let v = gen_simple(ber_encode_object_content(&obj.content), W::default())?;
         let len = v.as_ref().len();
-- 
2.43.0


From 3d8425c1ab2fcbe5f20d8836af1fb691e2449d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 15/21] fix: encode headers with a tag number greater than 30
 instead of panicking

---
 src/ber/serialize.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index d0779ff..e882d9e 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -44,12 +44,22 @@ pub fn ber_encode_header<'a, 'b: 'a, W: Write + 'a>(hdr: &'b Header) -> impl Ser
         // identifier octets (X.690 8.1.2)
         let class_u8 = (hdr.class() as u8) << 6;
         let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;
-        if hdr.tag().0 > 30 {
-            unimplemented!();
-        }
-        let byte_0 = class_u8 | pc_u8 | (hdr.tag().0 as u8);
+        let tag = hdr.tag().0;
+        let id = if tag > 30 {
+            // high tag number form (X.690 8.1.2.4): base 128, most significant group first
+            let mut id = vec![(tag & 0x7f) as u8];
+            let mut rest = tag >> 7;
+            while rest > 0 {
+                id.insert(0, 0x80 | (rest & 0x7f) as u8);
+                rest >>= 7;
+            }
+            id.insert(0, class_u8 | pc_u8 | 0x1f);
+            id
+        } else {
+            vec![class_u8 | pc_u8 | (tag as u8)]
+        };
         // length octets (X.690 8.1.3)
-        tuple((be_u8(byte_0), encode_length(hdr.length())))(out)
+        tuple((slice(id), encode_length(hdr.length())))(out)
     }
 }
 
-- 
2.43.0


From f252800f76e6f59f7edff0e0f555aca57c1550bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 16/21] fix: serialize UTCTime and GeneralizedTime in the form
 that is parsed, keeping time zone and fraction

---
 src/ber/serialize.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index e882d9e..ee8fb5c 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -1,7 +1,7 @@
 #![cfg(feature = "std")]
 use crate::ber::*;
 use crate::oid::Oid;
-use asn1_rs::ASN1DateTime;
+use asn1_rs::{ASN1DateTime, ASN1TimeZone};
 use cookie_factory::bytes::be_u8;
 use cookie_factory::combinator::slice;
 use cookie_factory::gen_simple;
@@ -70,9 +70,34 @@ fn ber_encode_oid<'a, W: Write + 'a>(oid: &'a Oid) -> impl SerializeFn<W> + 'a {
     }
 }
 
-fn ber_encode_datetime<'a, W: Write + 'a>(time: &'a ASN1DateTime) -> impl SerializeFn<W> + 'a {
+fn ber_encode_datetime<'a, W: Write + 'a>(
+    time: &'a ASN1DateTime,
+    utc_time: bool,
+) -> impl SerializeFn<W> + 'a {
     move |out| {
-        let s = format!("{}", time);
+        let mut s = if utc_time {
+            // UTCTime only has the two low-order digits of the year
+            format!("{:02}", time.year % 100)
+        } else {
+            format!("{:04}", time.year)
+        };
+        s += &format!(
+            "{:02}{:02}{:02}{:02}{:02}",
+            time.month, time.day, time.hour, time.minute, time.second
+        );
+        if let Some(ms) = time.millisecond {
+            // no trailing zeroes (X.690 11.7.3), but keep at least one digit
+            let frac = format!("{:03}", ms);
+            s += &format!(".{}{}", &frac[..1], frac[1..].trim_end_matches('0'));
+        }
+        match time.tz {
+            ASN1TimeZone::Undefined => (),
+            ASN1TimeZone::Z => s.push('Z'),
+            ASN1TimeZone::Offset(hh, mm) => {
+                let sign = if hh < 0 { '-' } else { '+' };
+                s += &format!("{}{:02}{:02}", sign, hh.unsigned_abs(), mm.unsigned_abs());
+            }
+        }
         slice(s)(out)
     }
 }
@@ -152,9 +177,8 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
             slice(v)(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-        BerObjectContent::UTCTime(time) | BerObjectContent::GeneralizedTime(time) => {
-            ber_encode_datetime(time)(out)
-        }
+        BerObjectContent::UTCTime(time) => ber_encode_datetime(time, true)(out),
+        BerObjectContent::GeneralizedTime(time) => ber_encode_datetime(time, false)(out),
         BerObjectContent::NumericString(s)
         | BerObjectContent::GeneralString(s)
         | BerObjectContent::ObjectDescriptor(s)
-- 
2.43.0


From 866f8f9c2ca5ec6b457e53087952ead5dfbbe554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 17/21] fix: encode_oid accepts any valid second component and
 rejects invalid root components

---
 der-oid-macro/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index afac8c2..9ffcc5f 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -1,10 +1,9 @@
 use proc_macro::TokenStream;
 
 fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<u8> {
-    use num_traits::cast::ToPrimitive;
-
     let mut enc = Vec::new();
     let mut dec = components;
+    let mut first = None;
     if !relative {
         if dec.len() < 2 {
             if dec.len() == 1 && dec[0] == 0u8.into() {
@@ -12,14 +11,16 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
             }
             panic!("Need at least two components for non-relative oid");
         }
-        if dec[0] >= 7u8.into() || dec[1] >= 40u8.into() {
+        // X.660: root arcs are 0, 1 and 2. Arcs beneath 0 and 1 are restricted to 0..=39
+        if dec[0] > 2u8.into() || (dec[0] < 2u8.into() && dec[1] >= 40u8.into()) {
             panic!("First components are too big");
         }
-        enc.push(dec[0].to_u8().unwrap() * 40 + dec[1].to_u8().unwrap());
+        // X.690 8.19.4: first two components are encoded as one subidentifier
+        first = Some(&dec[0] * 40u8 + &dec[1]);
         dec = &dec[2..];
     }
 
-    for int in dec.iter() {
+    for int in first.iter().chain(dec) {
         let mut bytes = int.to_bytes_be();
         if bytes[0] == 0 {
             enc.push(0u8);
-- 
2.43.0


From 4ec446b821dd55536e8299f3b424f3f29b5ce5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:02 +0000
Subject: [PATCH 18/21] fix: a zero-length [0] element does not end an
 indefinite-length object

---
 src/ber/parser.rs   |  2 +-
 src/ber/wrap_any.rs | 41 +++++++++++++++++++++++------------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 7aea9cd..a20d9a5 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -21,7 +21,7 @@ pub(crate) fn ber_skip_object_content<'a>(
     }
     match hdr.length() {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag() == Tag::EndOfContent {
+            if l == 0 && hdr.is_universal() && hdr.tag() == Tag::EndOfContent {
                 return Ok((i, true));
             }
             let (i, _) = take(l)(i)?;
diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index 8d8a878..05eed43 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -1,7 +1,7 @@
 use alloc::string::String;
 
 use super::{BerObject, BerObjectContent, BitStringObject};
-use crate::ber::{ber_get_object_content, MAX_OBJECT_SIZE};
+use crate::ber::{ber_get_object_content, ber_read_element_header, MAX_OBJECT_SIZE, MAX_RECURSION};
 use crate::error::{BerError, BerResult};
 use alloc::vec::Vec;
 use asn1_rs::*;
@@ -12,7 +12,7 @@ use rusticata_macros::custom_check;
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     any.header.assert_tag(tag)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
@@ -23,14 +23,31 @@ pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResu
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_r(i: &[u8], max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
 }
 
 /// Parse any BER object (not recursive)
 pub fn parse_ber_any(i: &[u8]) -> BerResult<'_, Any<'_>> {
-    Any::from_ber(i)
+    let (i, header) = ber_read_element_header(i)?;
+    let (i, data) = ber_get_object_content(i, &header, MAX_RECURSION)?;
+    Ok((i, Any::new(header, data)))
+}
+
+/// Read all elements of a constructed object
+fn read_elements(mut i: &[u8], max_depth: usize) -> Result<Vec<BerObject<'_>>> {
+    let mut objects = Vec::new();
+    while !i.is_empty() {
+        let (rem, any) = match parse_ber_any(i) {
+            Ok(res) => res,
+            Err(Err::Incomplete(n)) => return Err(BerError::Incomplete(n)),
+            Err(Err::Error(e)) | Err(Err::Failure(e)) => return Err(e),
+        };
+        objects.push(try_berobject_from_any(any, max_depth)?);
+        i = rem;
+    }
+    Ok(objects)
 }
 
 macro_rules! from_obj {
@@ -144,24 +161,12 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
         }
         Tag::Sequence => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SequenceIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = read_elements(any.data, max_depth - 1)?;
             Ok(obj_from(header, BerObjectContent::Sequence(objects)))
         }
         Tag::Set => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SetIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = read_elements(any.data, max_depth - 1)?;
             Ok(obj_from(header, BerObjectContent::Set(objects)))
         }
         Tag::TeletexString => from_obj!(STRING TeletexString, T61String, any, header),
-- 
2.43.0


From 088130e3c89b62ca5ed3913b3d071e83c670f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:45 +0000
Subject: [PATCH 19/21] fix: encode_oid accepts long relative oids, printed on
 several lines

---
 der-oid-macro/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index 9ffcc5f..644b534 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -67,10 +67,10 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
 pub fn encode_oid(input: TokenStream) -> TokenStream {
     let s = input.to_string();
 
-    let (rem, relative) = if s.starts_with("rel ") {
-        (&s[4..], true)
-    } else {
-        (s.as_ref(), false)
+    // tokens can be separated by any whitespace: long inputs are printed on several lines
+    let (rem, relative) = match s.strip_prefix("rel") {
+        Some(rem) if rem.starts_with(char::is_whitespace) => (rem, true),
+        _ => (s.as_ref(), false),
     };
 
     let ints: Vec<num_bigint::BigUint> = rem
-- 
2.43.0


From 4978dbfc567c218d886d8493cfb6220a0c877ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:37 +0000
Subject: [PATCH 20/21] fix: pretty-print with any indentation (format widths
 above 65535 panic)

---
 src/ber/print.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index f2d5279..bc23688 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -78,6 +78,11 @@ impl<'a> PrettyBer<'a> {
     }
 }
 
+/// Write `n` spaces (not a format width, which is limited to `u16::MAX`)
+fn write_indent(f: &mut fmt::Formatter, n: usize) -> fmt::Result {
+    (0..n).try_for_each(|_| f.write_str(" "))
+}
+
 fn dbg_header(header: &Header, f: &mut fmt::Formatter) -> fmt::Result {
     let s_constructed = if header.is_constructed() { "+" } else { "" };
     let l = match header.length() {
@@ -103,7 +108,7 @@ impl fmt::Debug for PrettyBer<'_> {
     #[rustfmt::skip]
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if self.indent > 0 {
-            write!(f, "{:1$}", " ", self.indent)?;
+            write_indent(f, self.indent)?;
         };
         if self.flags.contains(&PrettyPrinterFlag::ShowHeader) {
             dbg_header(&self.obj.header, f)?;
@@ -167,7 +172,7 @@ impl fmt::Debug for PrettyBer<'_> {
                 writeln!(f, "ContextSpecific [{} {}] {{", class, tag.0)?;
                 write!(f, "{:?}", self.next_indent(obj))?;
                 if self.indent > 0 {
-                    write!(f, "{:1$}", " ", self.indent)?;
+                    write_indent(f, self.indent)?;
                 };
                 write!(f, "}}")?;
                 Ok(())
@@ -182,7 +187,7 @@ impl fmt::Debug for PrettyBer<'_> {
                         write!(f, "{:?}", self.next_indent(o))?;
                     };
                     if self.indent > 0 {
-                        write!(f, "{:1$}", " ", self.indent)?;
+                        write_indent(f, self.indent)?;
                     };
                     write!(f, "]")?;
                 } else {
-- 
2.43.0


From 692ec9cc700ab12ace133cda25caed52318d23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:01 +0000
Subject: [PATCH 21/21] fix: only 00 00 ends an indefinite-length object

The end-of-contents octets are 00 00 (X.690 8.1.5). Other encodings of a
universal element of tag 0 and length 0 (20 00, 00 81 00, 1f 00 00) were taken
for them, and two octets were cut off whatever had been read, so that parts of
them became contents.
---
 src/ber/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index a20d9a5..cfc1243 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -38,6 +38,10 @@ pub(crate) fn ber_skip_object_content<'a>(
                 let (i2, header2) = ber_read_element_header(i)?;
                 let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                 if eoc {
+                    // X.690 8.1.5: the end-of-contents octets are 00 00
+                    if !i.starts_with(&[0, 0]) {
+                        return Err(Err::Error(BerError::InvalidLength));
+                    }
                     // return false, since top object was not EndOfContent
                     return Ok((i3, false));
                 }
-- 
2.43.0

