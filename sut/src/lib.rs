//! Thin, monomorphic instances of the generic combinators of der-parser, so that their code is
//! compiled in a crate that carries the coverage instrumentation. No logic of its own.
#![allow(clippy::type_complexity)]
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom::error::{ErrorKind, ParseError};
use der_parser::nom::IResult;

/// A caller-defined error type
#[derive(Debug, Clone, PartialEq)]
pub enum CErr {
    Ber(BerError),
    Nom(ErrorKind),
    Custom(u64),
}
impl<'a> ParseError<&'a [u8]> for CErr {
    fn from_error_kind(_: &'a [u8], kind: ErrorKind) -> Self {
        CErr::Nom(kind)
    }
    fn append(_: &'a [u8], _: ErrorKind, other: Self) -> Self {
        other
    }
}
impl From<BerError> for CErr {
    fn from(e: BerError) -> Self {
        CErr::Ber(e)
    }
}
pub type CRes<'a, O> = IResult<&'a [u8], O, CErr>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Seq,
    Set,
}
pub type ItemFn<'a, 'c> = &'c dyn Fn(&'a [u8]) -> BerResult<'a>;

/// sequence_of / set_of, object form
pub fn list_of<'a>(der: bool, k: Kind, i: &'a [u8], f: ItemFn<'a, '_>) -> BerResult<'a> {
    match (der, k) {
        (false, Kind::Seq) => parse_ber_sequence_of(|x| f(x))(i),
        (false, Kind::Set) => parse_ber_set_of(|x| f(x))(i),
        (true, Kind::Seq) => parse_der_sequence_of(|x| f(x))(i),
        (true, Kind::Set) => parse_der_set_of(|x| f(x))(i),
    }
}
/// sequence_of / set_of, vector form with custom output and error
pub fn list_of_v<'a>(der: bool, k: Kind, i: &'a [u8], f: &mut dyn FnMut(&'a [u8]) -> CRes<'a, u64>) -> CRes<'a, Vec<u64>> {
    match (der, k) {
        (false, Kind::Seq) => parse_ber_sequence_of_v(|x| f(x))(i),
        (false, Kind::Set) => parse_ber_set_of_v(|x| f(x))(i),
        (true, Kind::Seq) => parse_der_sequence_of_v(|x| f(x))(i),
        (true, Kind::Set) => parse_der_set_of_v(|x| f(x))(i),
    }
}
/// same, with the library's error type and objects
pub fn list_of_vobj<'a>(der: bool, k: Kind, i: &'a [u8], f: &mut dyn FnMut(&'a [u8]) -> BerResult<'a>) -> BerResult<'a, Vec<BerObject<'a>>> {
    match (der, k) {
        (false, Kind::Seq) => parse_ber_sequence_of_v(|x| f(x))(i),
        (false, Kind::Set) => parse_ber_set_of_v(|x| f(x))(i),
        (true, Kind::Seq) => parse_der_sequence_of_v(|x| f(x))(i),
        (true, Kind::Set) => parse_der_set_of_v(|x| f(x))(i),
    }
}
/// sequence_defined / set_defined, object form
pub fn defined<'a>(der: bool, k: Kind, i: &'a [u8], f: &mut dyn FnMut(&'a [u8]) -> BerResult<'a, Vec<BerObject<'a>>>) -> BerResult<'a> {
    match (der, k) {
        (false, Kind::Seq) => parse_ber_sequence_defined(|x| f(x))(i),
        (false, Kind::Set) => parse_ber_set_defined(|x| f(x))(i),
        (true, Kind::Seq) => parse_der_sequence_defined(|x| f(x))(i),
        (true, Kind::Set) => parse_der_set_defined(|x| f(x))(i),
    }
}
pub type HdrFn<'a, 'c, O> = &'c mut dyn FnMut(&'a [u8], Header<'a>) -> CRes<'a, O>;
/// sequence_defined_g / set_defined_g
pub fn defined_g<'a>(der: bool, k: Kind, i: &'a [u8], f: HdrFn<'a, '_, u64>) -> CRes<'a, u64> {
    match (der, k) {
        (false, Kind::Seq) => parse_ber_sequence_defined_g(|x, h| f(x, h))(i),
        (false, Kind::Set) => parse_ber_set_defined_g(|x, h| f(x, h))(i),
        (true, Kind::Seq) => parse_der_sequence_defined_g(|x, h| f(x, h))(i),
        (true, Kind::Set) => parse_der_set_defined_g(|x, h| f(x, h))(i),
    }
}
pub fn container<'a>(der: bool, i: &'a [u8], f: HdrFn<'a, '_, u64>) -> CRes<'a, u64> {
    if der {
        parse_der_container(|x, h| f(x, h))(i)
    } else {
        parse_ber_container(|x, h| f(x, h))(i)
    }
}
pub fn explicit<'a>(der: bool, tag: u32, i: &'a [u8], f: ItemFn<'a, '_>) -> BerResult<'a> {
    if der {
        parse_der_tagged_explicit(tag, |x| f(x))(i)
    } else {
        parse_ber_tagged_explicit(tag, |x| f(x))(i)
    }
}
pub fn explicit_g<'a>(der: bool, tag: u32, i: &'a [u8], f: &dyn Fn(&'a [u8], Header<'a>) -> CRes<'a, u64>) -> CRes<'a, u64> {
    if der {
        parse_der_tagged_explicit_g(tag, |x, h| f(x, h))(i)
    } else {
        parse_ber_tagged_explicit_g(tag, |x, h| f(x, h))(i)
    }
}
pub type ImplFn<'a, 'c> = &'c dyn Fn(&'a [u8], &Header, usize) -> BerResult<'a, BerObjectContent<'a>>;
pub fn implicit<'a>(der: bool, tag: u32, i: &'a [u8], f: ImplFn<'a, '_>) -> BerResult<'a> {
    if der {
        parse_der_tagged_implicit(tag, |x: &'a [u8], h: &Header, d: usize| f(x, h, d))(i)
    } else {
        parse_ber_tagged_implicit(tag, |x: &'a [u8], h: &Header, d: usize| f(x, h, d))(i)
    }
}
/// the function (non combinator) form
pub fn implicit_fn<'a>(der: bool, tag: u32, i: &'a [u8], f: ImplFn<'a, '_>) -> BerResult<'a> {
    if der {
        parse_der_implicit(i, tag, |x: &'a [u8], h: &Header, d: usize| f(x, h, d))
    } else {
        parse_ber_implicit(i, tag, |x: &'a [u8], h: &Header, d: usize| f(x, h, d))
    }
}
pub fn implicit_g<'a>(der: bool, tag: u32, i: &'a [u8], f: &dyn Fn(&'a [u8], Header<'a>, usize) -> CRes<'a, u64>) -> CRes<'a, u64> {
    if der {
        parse_der_tagged_implicit_g(tag, |x, h, d| f(x, h, d))(i)
    } else {
        parse_ber_tagged_implicit_g(tag, |x, h, d| f(x, h, d))(i)
    }
}
/// implicit with the library's own content parsers
pub fn implicit_content<'a>(der: bool, tag: u32, inner: u32, i: &'a [u8]) -> BerResult<'a> {
    if der {
        parse_der_tagged_implicit(tag, parse_der_content(Tag(inner)))(i)
    } else {
        parse_ber_tagged_implicit(tag, parse_ber_content(Tag(inner)))(i)
    }
}
pub fn implicit_content2<'a>(der: bool, tag: u32, inner: u32, i: &'a [u8]) -> BerResult<'a, BerObjectContent<'a>> {
    if der {
        parse_der_tagged_implicit_g(tag, parse_der_content2(Tag(inner)))(i)
    } else {
        parse_ber_tagged_implicit_g(tag, parse_ber_content2(Tag(inner)))(i)
    }
}
pub fn explicit_optional<'a>(der: bool, tag: u32, i: &'a [u8], f: &dyn for<'x> Fn(&'x [u8]) -> BerResult<'x>) -> BerResult<'a> {
    if der {
        parse_der_explicit_optional(i, Tag(tag), f)
    } else {
        parse_ber_explicit_optional(i, Tag(tag), f)
    }
}
pub fn optional<'a>(i: &'a [u8], f: &mut dyn FnMut(&'a [u8]) -> BerResult<'a>) -> BerResult<'a> {
    parse_ber_optional(|x| f(x))(i)
}
/// all items parsed through one optional combinator instance, one after the other
pub fn optional_chain<'a>(i: &'a [u8], n: usize, f: &mut dyn FnMut(&'a [u8]) -> BerResult<'a>) -> Vec<BerResult<'a>> {
    let mut p = parse_ber_optional(|x| f(x));
    let mut v = vec![];
    let mut i = i;
    for _ in 0..n {
        let r = p(i);
        if let Ok((rem, _)) = &r {
            i = rem;
        }
        v.push(r);
    }
    v
}
/// one list combinator instance used on several inputs
pub fn list_of_v_reuse<'a>(der: bool, inputs: &[&'a [u8]], f: &mut dyn FnMut(&'a [u8]) -> CRes<'a, u64>) -> Vec<CRes<'a, Vec<u64>>> {
    if der {
        let mut p = parse_der_sequence_of_v(|x| f(x));
        inputs.iter().map(|i| p(i)).collect()
    } else {
        let mut p = parse_ber_sequence_of_v(|x| f(x));
        inputs.iter().map(|i| p(i)).collect()
    }
}
pub fn slice<'a>(der: bool, i: &'a [u8], tag: u32) -> BerResult<'a, &'a [u8]> {
    if der {
        parse_der_slice(i, tag)
    } else {
        parse_ber_slice(i, tag)
    }
}
pub fn with_tag<'a>(der: bool, i: &'a [u8], tag: u32) -> BerResult<'a> {
    if der {
        parse_der_with_tag(i, tag)
    } else {
        parse_ber_with_tag(i, tag)
    }
}
pub fn content<'a>(der: bool, i: &'a [u8], tag: u32, h: &Header, d: usize) -> BerResult<'a, BerObjectContent<'a>> {
    if der {
        parse_der_content(Tag(tag))(i, h, d)
    } else {
        parse_ber_content(Tag(tag))(i, h, d)
    }
}
pub fn content2<'a>(der: bool, i: &'a [u8], tag: u32, h: Header<'a>, d: usize) -> BerResult<'a, BerObjectContent<'a>> {
    if der {
        parse_der_content2(Tag(tag))(i, h, d)
    } else {
        parse_ber_content2(Tag(tag))(i, h, d)
    }
}
pub fn int<'a>(der: bool, bits: u8, signed: bool, i: &'a [u8]) -> BerResult<'a, i128> {
    fn up<'a, T: Into<i128>>(r: BerResult<'a, T>) -> BerResult<'a, i128> {
        r.map(|(a, b)| (a, b.into()))
    }
    match (der, bits, signed) {
        (false, 32, true) => up(parse_ber_i32(i)),
        (false, 64, true) => up(parse_ber_i64(i)),
        (false, 32, false) => up(parse_ber_u32(i)),
        (false, _, _) => up(parse_ber_u64(i)),
        (true, 32, true) => up(parse_der_i32(i)),
        (true, 64, true) => up(parse_der_i64(i)),
        (true, 32, false) => up(parse_der_u32(i)),
        (true, _, _) => up(parse_der_u64(i)),
    }
}
pub type TypedFn = for<'a> fn(&'a [u8]) -> BerResult<'a>;
/// (universal tag, BER parser, DER parser) of every typed parser
pub fn typed() -> &'static [(u32, TypedFn, TypedFn)] {
    &[
        (0, parse_ber_endofcontent, parse_der_endofcontent),
        (1, parse_ber_bool, parse_der_bool),
        (2, parse_ber_integer, parse_der_integer),
        (3, parse_ber_bitstring, parse_der_bitstring),
        (4, parse_ber_octetstring, parse_der_octetstring),
        (5, parse_ber_null, parse_der_null),
        (6, parse_ber_oid, parse_der_oid),
        (7, parse_ber_objectdescriptor, parse_der_objectdescriptor),
        (10, parse_ber_enum, parse_der_enum),
        (12, parse_ber_utf8string, parse_der_utf8string),
        (13, parse_ber_relative_oid, parse_der_relative_oid),
        (16, parse_ber_sequence, parse_der_sequence),
        (17, parse_ber_set, parse_der_set),
        (18, parse_ber_numericstring, parse_der_numericstring),
        (19, parse_ber_printablestring, parse_der_printablestring),
        (20, parse_ber_t61string, parse_der_t61string),
        (21, parse_ber_videotexstring, parse_der_videotexstring),
        (22, parse_ber_ia5string, parse_der_ia5string),
        (23, parse_ber_utctime, parse_der_utctime),
        (24, parse_ber_generalizedtime, parse_der_generalizedtime),
        (25, parse_ber_graphicstring, parse_der_graphicstring),
        (26, parse_ber_visiblestring, parse_der_visiblestring),
        (27, parse_ber_generalstring, parse_der_generalstring),
        (28, parse_ber_universalstring, parse_der_universalstring),
        (30, parse_ber_bmpstring, parse_der_bmpstring),
    ]
}
#[allow(deprecated)]
pub fn deprecated_visiblestring(i: &[u8]) -> BerResult<'_> {
    visiblestring(i)
}

/// the same generic combinators with the library's own error type
pub type HdrFnB<'a, 'c, O> = &'c dyn Fn(&'a [u8], Header<'a>) -> BerResult<'a, O>;
pub fn defined_g_b<'a>(der: bool, k: Kind, i: &'a [u8], f: HdrFnB<'a, '_, u64>) -> BerResult<'a, u64> {
    match (der, k) {
        (false, Kind::Seq) => parse_ber_sequence_defined_g(|x, h| f(x, h))(i),
        (false, Kind::Set) => parse_ber_set_defined_g(|x, h| f(x, h))(i),
        (true, Kind::Seq) => parse_der_sequence_defined_g(|x, h| f(x, h))(i),
        (true, Kind::Set) => parse_der_set_defined_g(|x, h| f(x, h))(i),
    }
}
pub fn container_b<'a>(der: bool, i: &'a [u8], f: HdrFnB<'a, '_, u64>) -> BerResult<'a, u64> {
    if der {
        parse_der_container(|x, h| f(x, h))(i)
    } else {
        parse_ber_container(|x, h| f(x, h))(i)
    }
}
pub fn explicit_g_b<'a>(der: bool, tag: u32, i: &'a [u8], f: HdrFnB<'a, '_, u64>) -> BerResult<'a, u64> {
    if der {
        parse_der_tagged_explicit_g(tag, |x, h| f(x, h))(i)
    } else {
        parse_ber_tagged_explicit_g(tag, |x, h| f(x, h))(i)
    }
}
pub fn implicit_g_b<'a>(der: bool, tag: u32, i: &'a [u8], f: HdrFnB<'a, '_, u64>) -> BerResult<'a, u64> {
    if der {
        parse_der_tagged_implicit_g(tag, |x, h, _| f(x, h))(i)
    } else {
        parse_ber_tagged_implicit_g(tag, |x, h, _| f(x, h))(i)
    }
}
pub fn list_of_v_b<'a>(der: bool, k: Kind, i: &'a [u8], f: &mut dyn FnMut(&'a [u8]) -> BerResult<'a, u64>) -> BerResult<'a, Vec<u64>> {
    match (der, k) {
        (false, Kind::Seq) => parse_ber_sequence_of_v(|x| f(x))(i),
        (false, Kind::Set) => parse_ber_set_of_v(|x| f(x))(i),
        (true, Kind::Seq) => parse_der_sequence_of_v(|x| f(x))(i),
        (true, Kind::Set) => parse_der_set_of_v(|x| f(x))(i),
    }
}
/// one instance of a generic combinator applied to several inputs, one after the other
pub fn reuse_container<'a>(der: bool, inputs: &[&'a [u8]], f: HdrFn<'a, '_, u64>) -> Vec<CRes<'a, u64>> {
    if der {
        let mut p = parse_der_container(|x, h| f(x, h));
        inputs.iter().map(|i| p(i)).collect()
    } else {
        let mut p = parse_ber_container(|x, h| f(x, h));
        inputs.iter().map(|i| p(i)).collect()
    }
}
pub fn reuse_explicit<'a>(der: bool, tag: u32, inputs: &[&'a [u8]], f: &dyn Fn(&'a [u8], Header<'a>) -> CRes<'a, u64>) -> Vec<CRes<'a, u64>> {
    if der {
        let mut p = parse_der_tagged_explicit_g(tag, |x, h| f(x, h));
        inputs.iter().map(|i| p(i)).collect()
    } else {
        let mut p = parse_ber_tagged_explicit_g(tag, |x, h| f(x, h));
        inputs.iter().map(|i| p(i)).collect()
    }
}
pub fn reuse_implicit<'a>(der: bool, tag: u32, inputs: &[&'a [u8]], f: &dyn Fn(&'a [u8], Header<'a>, usize) -> CRes<'a, u64>) -> Vec<CRes<'a, u64>> {
    if der {
        let mut p = parse_der_tagged_implicit_g(tag, |x, h, d| f(x, h, d));
        inputs.iter().map(|i| p(i)).collect()
    } else {
        let mut p = parse_ber_tagged_implicit_g(tag, |x, h, d| f(x, h, d));
        inputs.iter().map(|i| p(i)).collect()
    }
}

/// an item parser that depends on nothing but its input: reads up to four octets, refuses some
fn plain_item(x: &[u8]) -> CRes<'_, u64> {
    match x.first() {
        None => Err(der_parser::nom::Err::Incomplete(der_parser::nom::Needed::Unknown)),
        Some(0x1e) => Err(der_parser::nom::Err::Error(CErr::Custom(x.len() as u64))),
        Some(0x1d) => Err(der_parser::nom::Err::Failure(CErr::Custom(x.len() as u64))),
        Some(0x1c) => Err(der_parser::nom::Err::Incomplete(der_parser::nom::Needed::new(3))),
        Some(b) => Ok((&x[x.len().min(1 + (*b & 3) as usize)..], *b as u64)),
    }
}
fn plain_obj(x: &[u8]) -> BerResult<'_> {
    match plain_item(x) {
        Ok((r, v)) => Ok((r, BerObject::from_obj(BerObjectContent::Enum(v)))),
        Err(e) => Err(e.map(|e| match e {
            CErr::Custom(n) => BerError::UnknownTag(n as u32),
            _ => BerError::BerValueError,
        })),
    }
}
fn plain_all(mut x: &[u8]) -> BerResult<'_, Vec<BerObject<'_>>> {
    let mut v = vec![];
    while !x.is_empty() {
        let (r, o) = plain_obj(x)?;
        v.push(o);
        x = r;
    }
    Ok((x, v))
}
/// the combinators, each as one instance for all the inputs or as a fresh one for every input
pub const USES: u8 = 24;
pub fn uses(form: u8, tag: u32, inputs: &[&[u8]], fresh: bool) -> Vec<String> {
    macro_rules! go {
        ($mk:expr) => {
            if fresh {
                inputs.iter().map(|i| format!("{:?}", ($mk)(*i))).collect()
            } else {
                let mut p = $mk;
                inputs.iter().map(|i| format!("{:?}", p(*i))).collect()
            }
        };
    }
    match form {
        0 => go!(parse_ber_sequence_of(plain_obj)),
        1 => go!(parse_ber_set_of(plain_obj)),
        2 => go!(parse_der_sequence_of(plain_obj)),
        3 => go!(parse_der_set_of(plain_obj)),
        4 => go!(parse_ber_sequence_of_v(plain_item)),
        5 => go!(parse_ber_set_of_v(plain_item)),
        6 => go!(parse_der_sequence_of_v(plain_item)),
        7 => go!(parse_der_set_of_v(plain_item)),
        8 => go!(parse_ber_sequence_defined(plain_all)),
        9 => go!(parse_ber_set_defined(plain_all)),
        10 => go!(parse_der_sequence_defined(plain_all)),
        11 => go!(parse_der_set_defined(plain_all)),
        12 => go!(parse_ber_sequence_defined_g(|x, _| plain_item(x))),
        13 => go!(parse_ber_set_defined_g(|x, _| plain_item(x))),
        14 => go!(parse_der_sequence_defined_g(|x, _| plain_item(x))),
        15 => go!(parse_der_set_defined_g(|x, _| plain_item(x))),
        16 => go!(parse_ber_container(|x, _| plain_item(x))),
        17 => go!(parse_der_container(|x, _| plain_item(x))),
        18 => go!(parse_ber_tagged_explicit(tag, plain_obj)),
        19 => go!(parse_der_tagged_explicit(tag, plain_obj)),
        20 => go!(parse_ber_tagged_implicit(tag, |x, _, _| plain_obj(x).map(|(r, o)| (r, o.content)))),
        21 => go!(parse_der_tagged_implicit(tag, |x, _, _| plain_obj(x).map(|(r, o)| (r, o.content)))),
        22 => go!(parse_ber_optional(plain_obj)),
        _ => go!(parse_ber_optional(parse_ber_integer)),
    }
}
