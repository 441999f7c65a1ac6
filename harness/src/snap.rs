//! Snapshots of library results in the vocabulary of the model: every slice becomes its offset in
//! the caller's buffer (or a marker when it points elsewhere).
use crate::model::*;
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone, Any};
use der_parser::ber::*;
use der_parser::error::BerError;
use der_parser::nom::Err as NErr;

pub const OUTSIDE: usize = usize::MAX;
#[derive(Clone, Copy)]
pub struct Base<'b>(pub &'b [u8]);
impl Base<'_> {
    pub fn s(&self, x: &[u8]) -> S {
        if x.is_empty() {
            return (0, 0);
        }
        let a = self.0.as_ptr() as usize;
        let p = x.as_ptr() as usize;
        if p >= a && p + x.len() <= a + self.0.len() {
            (p - a, x.len())
        } else {
            (OUTSIDE, x.len())
        }
    }
    pub fn h(&self, h: &Header) -> H {
        H {
            class: h.class() as u8,
            cons: h.is_constructed(),
            tag: h.tag().0,
            len: len(h.length()),
            raw: h.raw_tag().map(|r| self.s(r)),
        }
    }
    pub fn n(&self, o: &BerObject) -> N {
        N { h: self.h(&o.header), v: self.v(&o.content) }
    }
    pub fn unk(&self, a: &Any) -> V {
        V::Unk(a.header.class() as u8, a.header.is_constructed(), a.header.tag().0, len(a.header.length()), self.s(a.data))
    }
    pub fn v(&self, c: &BerObjectContent) -> V {
        use BerObjectContent as C;
        let st = |t: u32, s: &str| V::Str(t, self.s(s.as_bytes()));
        match c {
            C::EndOfContent => V::Eoc,
            C::Boolean(b) => V::Bool(*b),
            C::Integer(s) => V::Int(self.s(s)),
            C::BitString(u, b) => V::Bits(*u, self.s(b.data)),
            C::OctetString(s) => V::Oct(self.s(s)),
            C::Null => V::Null,
            C::Enum(e) => V::Enum(*e),
            C::OID(o) => V::Oid(self.s(o.as_bytes())),
            C::RelativeOID(o) => V::RelOid(self.s(o.as_bytes())),
            C::NumericString(s) => st(18, s),
            C::VisibleString(s) => st(26, s),
            C::PrintableString(s) => st(19, s),
            C::IA5String(s) => st(22, s),
            C::UTF8String(s) => st(12, s),
            C::T61String(s) => st(20, s),
            C::VideotexString(s) => st(21, s),
            C::ObjectDescriptor(s) => st(7, s),
            C::GraphicString(s) => st(25, s),
            C::GeneralString(s) => st(27, s),
            C::BmpString(s) => V::Bmp(self.s(s)),
            C::UniversalString(s) => V::Univ(self.s(s)),
            C::Sequence(l) => V::Seq(l.iter().map(|o| self.n(o)).collect()),
            C::Set(l) => V::Set(l.iter().map(|o| self.n(o)).collect()),
            C::UTCTime(t) => V::Utc(tm(t)),
            C::GeneralizedTime(t) => V::Gen(tm(t)),
            C::Optional(None) => V::Opt(None),
            C::Optional(Some(o)) => V::Opt(Some(Box::new(self.n(o)))),
            C::Tagged(c, t, o) => V::Tagged(*c as u8, t.0, Box::new(self.n(o))),
            C::Unknown(a) => self.unk(a),
        }
    }
}
pub fn len(l: Length) -> Option<usize> {
    match l {
        Length::Definite(n) => Some(n),
        Length::Indefinite => None,
    }
}
pub fn tm(t: &ASN1DateTime) -> T {
    T {
        y: t.year,
        f: [t.month, t.day, t.hour, t.minute, t.second],
        ms: t.millisecond,
        tz: match t.tz {
            ASN1TimeZone::Undefined => Tz::None,
            ASN1TimeZone::Z => Tz::Z,
            ASN1TimeZone::Offset(a, b) => Tz::Off(a, b),
        },
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum OV {
    Obj(N),
    Val(V),
    Int(i128),
    Sl(S),
    Hdr(H),
    List(Vec<N>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// octets consumed (None: the remainder is not a suffix of the input)
    Ok(Option<usize>, OV),
    Inc,
    Err(String, bool),
}
impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok(..))
    }
    pub fn short(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 300 {
            let mut k = 300;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            format!("{}..", &s[..k])
        } else {
            s
        }
    }
}
pub fn consumed(input: &[u8], rem: &[u8]) -> Option<usize> {
    let end = input.as_ptr() as usize + input.len();
    let rend = rem.as_ptr() as usize + rem.len();
    if rend == end && rem.len() <= input.len() {
        Some(input.len() - rem.len())
    } else {
        None
    }
}
pub fn kind(e: &BerError) -> String {
    format!("{e:?}")
}
/// Convert any result of a parser of this crate
pub fn out<O>(input: &[u8], r: Result<(&[u8], O), NErr<BerError>>, f: impl FnOnce(&O) -> OV) -> Out {
    match r {
        Ok((rem, o)) => Out::Ok(consumed(input, rem), f(&o)),
        Err(NErr::Incomplete(n)) => {
            NEEDED.with(|c| {
                c.set(match n {
                    der_parser::nom::Needed::Size(n) => Some(n.get()),
                    _ => None,
                })
            });
            Out::Inc
        }
        Err(NErr::Error(e)) => Out::Err(kind(&e), false),
        Err(NErr::Failure(e)) => Out::Err(kind(&e), true),
    }
}
pub fn out_obj(input: &[u8], r: Result<(&[u8], BerObject), NErr<BerError>>) -> Out {
    let b = Base(input);
    out(input, r, |o| OV::Obj(b.n(o)))
}
/// Does the error text name the kind the model predicts?
pub fn kind_matches(k: K, s: &str) -> bool {
    match k {
        K::MaxDepth => s == "BerMaxDepth",
        K::Der(c) => s == format!("DerConstraintFailed({c})"),
        K::TooLarge => s == "IntegerTooLarge",
        K::Negative => s == "IntegerNegative",
        K::Tag => s.starts_with("UnexpectedTag"),
        K::Other => true,
    }
}
/// Compare with the model: same acceptance, same consumption, same value.
pub fn agree(o: &Out, m: &R<(OV, usize)>) -> Result<(), String> {
    match (o, m) {
        (Out::Ok(c, v), Ok((mv, mc))) => {
            if *c != Some(*mc) {
                return Err(format!("consumed {c:?}, expected {mc}"));
            }
            if v != mv {
                return Err(format!("value {} expected {}", Out::Ok(*c, v.clone()).short(), Out::Ok(Some(*mc), mv.clone()).short()));
            }
            Ok(())
        }
        (Out::Ok(..), Err(e)) => Err(format!("accepted as {} but the model refuses it ({e:?})", o.short())),
        (_, Ok((mv, mc))) => Err(format!("refused ({}) but the encoding denotes {}", o.short(), Out::Ok(Some(*mc), mv.clone()).short())),
        (_, Err(_)) => Ok(()),
    }
}

thread_local! {
    /// what the last parser that reported incomplete input asked for
    pub static NEEDED: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}
