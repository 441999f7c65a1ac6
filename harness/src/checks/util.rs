//! Shared pieces of the checks: hand-built objects, visitor event logs, exercising of every operation.
use crate::model::*;
use crate::rt::*;
use crate::snap::*;
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone, Any};
use der_parser::ber::*;
use der_parser::oid::Oid;
use std::borrow::Cow;

pub const TEXT: &str = "Zaq12 -./:=?'()+, 0123456789 ABC\u{e9}\u{20ac}\u{1f600}~\u{7f}\tend";
/// buffer for hand-built objects: a text to cut strings from, then arbitrary octets
pub fn hand_buf(slot: usize, data: &[u8]) -> &'static [u8] {
    let mut v = TEXT.as_bytes().to_vec();
    v.extend(data);
    place(slot, &v)
}
fn cut<'a>(r: &mut Rng, b: &'a [u8]) -> &'a [u8] {
    if b.is_empty() {
        return b;
    }
    let a = r.below(b.len());
    let m = (b.len() - a).min(if r.chance(1, 12) { 1 << 20 } else { 24 });
    &b[a..a + r.below(m + 1)]
}
fn text<'a>(r: &mut Rng, b: &'a [u8], ascii: bool) -> &'a str {
    let t = std::str::from_utf8(&b[..TEXT.len()]).unwrap_or("");
    let idx: Vec<usize> = t.char_indices().map(|x| x.0).filter(|k| !ascii || *k <= 32).collect();
    let a = *r.pick(&idx);
    let c = *r.pick(&idx);
    &t[a.min(c)..a.max(c)]
}
pub fn class(n: u8) -> Class {
    match n & 3 {
        0 => Class::Universal,
        1 => Class::Application,
        2 => Class::ContextSpecific,
        _ => Class::Private,
    }
}
pub fn rand_tag(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 | 1 => r.below(31) as u32,
        2 => *r.pick(&[30, 31, 32, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, u32::MAX]),
        _ => {
            let s = r.below(32);
            (r.u64() as u32) >> s
        }
    }
}
pub fn rand_time(r: &mut Rng, utc: bool) -> ASN1DateTime {
    let mut f = |hi: usize| match r.below(5) {
        0 => 0,
        1 => hi,
        _ => r.below(hi + 1),
    };
    let y = if utc { f(99) } else { f(9999) } as u32;
    let (mo, d, h, mi, s) = (f(12) as u8, f(31) as u8, f(23) as u8, f(59) as u8, f(59) as u8);
    let ms = if !utc && r.chance(1, 2) { Some(r.below(1000) as u16) } else { None };
    let tz = match r.below(3) {
        0 if !utc => ASN1TimeZone::Undefined,
        1 => {
            let h = (r.below(199) as i32 - 99) as i8;
            // the parsed form does not keep the sign of -00mm
            ASN1TimeZone::Offset(h, r.below(100) as i8)
        }
        _ => ASN1TimeZone::Z,
    };
    ASN1DateTime::new(y, mo, d, h, mi, s, ms, tz)
}
/// Kinds of hand-built content
pub const KINDS: usize = 28;
pub struct Hand {
    /// only objects whose encoding can be parsed back
    pub parsable: bool,
    pub optional: bool,
    pub tagged: bool,
    pub custom_header: bool,
}
pub fn hand(r: &mut Rng, b: &'static [u8], depth: usize, o: &Hand) -> BerObject<'static> {
    use BerObjectContent as C;
    let asc = o.parsable;
    let c = loop {
        let k = if depth > 0 && r.chance(1, 3) { r.range(20, 21) } else { r.below(KINDS) };
        break match k {
            0 => C::EndOfContent,
            1 => C::Boolean(r.chance(1, 2)),
            2 => C::Integer(cut(r, b)),
            3 => {
                let u = if o.parsable { r.below(8) as u8 } else { r.byte() };
                C::BitString(u, BitStringObject { data: cut(r, b) })
            }
            4 => C::OctetString(cut(r, b)),
            5 => C::Null,
            6 => C::Enum(match r.below(3) {
                0 => r.below(300) as u64,
                1 if !o.parsable => r.u64(),
                _ => {
                    let s = r.below(32);
                    (r.u64() as u32 >> s) as u64
                }
            }),
            7 => C::OID(Oid::new(Cow::Borrowed(cut(r, b)))),
            8 => C::RelativeOID(Oid::new_relative(Cow::Borrowed(cut(r, b)))),
            9 => {
                let digits = std::str::from_utf8(&b[17..29]).unwrap_or("");
                C::NumericString(if o.parsable { &digits[..r.below(13)] } else { text(r, b, false) })
            }
            10 => C::VisibleString(text(r, b, asc)),
            11 => C::PrintableString(text(r, b, asc)),
            12 => C::IA5String(text(r, b, asc)),
            13 => C::UTF8String(text(r, b, false)),
            14 => C::T61String(text(r, b, asc)),
            15 => C::VideotexString(text(r, b, asc)),
            16 => C::ObjectDescriptor(text(r, b, asc)),
            17 => C::GraphicString(text(r, b, asc)),
            18 => C::GeneralString(text(r, b, asc)),
            19 => C::UniversalString(cut(r, b)),
            20 | 21 if depth > 0 => {
                let n = r.below(5);
                let v = (0..n).map(|_| hand(r, b, depth - 1, o)).collect();
                if k == 20 {
                    C::Sequence(v)
                } else {
                    C::Set(v)
                }
            }
            22 => C::UTCTime(rand_time(r, true)),
            23 => C::GeneralizedTime(rand_time(r, false)),
            24 if o.optional => C::Optional(if depth > 0 && r.chance(2, 3) { Some(Box::new(hand(r, b, depth - 1, o))) } else { None }),
            25 if o.tagged && depth > 0 => C::Tagged(class(r.byte()), Tag(rand_tag(r)), Box::new(hand(r, b, depth - 1, o))),
            26 => {
                let d = cut(r, b);
                let h = Header::new(class(r.range(1, 3) as u8), r.chance(1, 2), Tag(rand_tag(r)), Length::Definite(d.len()));
                C::Unknown(Any::new(h, d))
            }
            27 => {
                if o.parsable {
                    // ASCII text as UTF-16
                    C::BmpString(&b[..2 * r.below(8)])
                } else {
                    C::BmpString(cut(r, b))
                }
            }
            _ => continue,
        };
    };
    if let C::Unknown(a) = &c {
        let h = a.header.clone();
        return BerObject::from_header_and_content(h, c);
    }
    if o.custom_header && r.chance(1, 3) {
        let len = match r.below(4) {
            0 => Length::Indefinite,
            1 => Length::Definite(r.u64() as usize),
            _ => Length::Definite(r.below(300)),
        };
        let h = Header::new(class(r.byte()), r.chance(1, 2), Tag(rand_tag(r)), len);
        return BerObject::from_header_and_content(h, c);
    }
    match (r.below(3), c) {
        (0, C::Sequence(v)) => BerObject::from_seq(v),
        (0, C::Set(v)) => BerObject::from_set(v),
        (0, C::Integer(s)) => BerObject::from_int_slice(s),
        (0, C::OID(o)) => BerObject::from(o),
        (1, c) => c.into(),
        (_, c) => BerObject::from_obj(c),
    }
}

// ---------------------------------------------------------------- visitors
/// One callback: (name, what it was given, depth)
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    General(N, usize),
    /// type name of the callback, value
    Typed(&'static str, V, usize),
}
pub struct Log<'b> {
    pub base: Base<'b>,
    pub ev: Vec<Ev>,
}
macro_rules! tv {
    ($s:ident, $n:expr, $v:expr, $d:expr) => {{
        let v = $v;
        $s.ev.push(Ev::Typed($n, v, $d));
    }};
}
impl<'a> Visit<'a> for Log<'_> {
    fn visit_ber(&mut self, b: &'_ BerObject<'a>, d: usize) {
        let n = self.base.n(b);
        self.ev.push(Ev::General(n, d));
    }
    fn visit_ber_bitstring(&mut self, u: u8, b: &'a BitStringObject, d: usize) {
        tv!(self, "bitstring", V::Bits(u, self.base.s(b.data)), d)
    }
    fn visit_ber_bmpstring(&mut self, s: &'a [u8], d: usize) {
        tv!(self, "bmp", V::Bmp(self.base.s(s)), d)
    }
    fn visit_ber_boolean(&mut self, b: bool, d: usize) {
        tv!(self, "bool", V::Bool(b), d)
    }
    fn visit_ber_endofcontent(&mut self, d: usize) {
        tv!(self, "eoc", V::Eoc, d)
    }
    fn visit_ber_enum(&mut self, e: u64, d: usize) {
        tv!(self, "enum", V::Enum(e), d)
    }
    fn visit_ber_generalstring(&mut self, s: &'a str, d: usize) {
        tv!(self, "str27", V::Str(27, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_generalizedtime(&mut self, t: &'a ASN1DateTime, d: usize) {
        tv!(self, "gentime", V::Gen(tm(t)), d)
    }
    fn visit_ber_graphicstring(&mut self, s: &'a str, d: usize) {
        tv!(self, "str25", V::Str(25, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_ia5string(&mut self, s: &'a str, d: usize) {
        tv!(self, "str22", V::Str(22, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_integer(&mut self, s: &'a [u8], d: usize) {
        tv!(self, "integer", V::Int(self.base.s(s)), d)
    }
    fn visit_ber_null(&mut self, d: usize) {
        tv!(self, "null", V::Null, d)
    }
    fn visit_ber_numericstring(&mut self, s: &'a str, d: usize) {
        tv!(self, "str18", V::Str(18, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_oid(&mut self, o: &'a Oid, d: usize) {
        tv!(self, "oid", V::Oid(self.base.s(o.as_bytes())), d)
    }
    fn visit_ber_objectdescriptor(&mut self, s: &'a str, d: usize) {
        tv!(self, "str7", V::Str(7, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_octetstring(&mut self, s: &'a [u8], d: usize) {
        tv!(self, "octets", V::Oct(self.base.s(s)), d)
    }
    fn visit_ber_optional(&mut self, o: Option<&'a BerObject<'a>>, d: usize) {
        tv!(self, "optional", V::Opt(o.map(|x| Box::new(self.base.n(x)))), d)
    }
    fn visit_ber_printablestring(&mut self, s: &'a str, d: usize) {
        tv!(self, "str19", V::Str(19, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_relative_oid(&mut self, o: &'a Oid, d: usize) {
        tv!(self, "reloid", V::RelOid(self.base.s(o.as_bytes())), d)
    }
    fn visit_ber_sequence(&mut self, l: &'_ [BerObject<'a>], d: usize) {
        tv!(self, "seq", V::Seq(l.iter().map(|x| self.base.n(x)).collect()), d)
    }
    fn visit_ber_set(&mut self, l: &'_ [BerObject<'a>], d: usize) {
        tv!(self, "set", V::Set(l.iter().map(|x| self.base.n(x)).collect()), d)
    }
    fn visit_ber_teletexstring(&mut self, s: &'a str, d: usize) {
        tv!(self, "str20", V::Str(20, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_tagged(&mut self, c: Class, t: Tag, o: &'_ BerObject<'a>, d: usize) {
        tv!(self, "tagged", V::Tagged(c as u8, t.0, Box::new(self.base.n(o))), d)
    }
    fn visit_ber_utctime(&mut self, t: &'a ASN1DateTime, d: usize) {
        tv!(self, "utctime", V::Utc(tm(t)), d)
    }
    fn visit_ber_utf8string(&mut self, s: &'a str, d: usize) {
        tv!(self, "str12", V::Str(12, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_universalstring(&mut self, s: &'a [u8], d: usize) {
        tv!(self, "univ", V::Univ(self.base.s(s)), d)
    }
    fn visit_ber_videotextstring(&mut self, s: &'a str, d: usize) {
        tv!(self, "str21", V::Str(21, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_visiblestring(&mut self, s: &'a str, d: usize) {
        tv!(self, "str26", V::Str(26, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_unknown(&mut self, a: &'_ Any<'a>, d: usize) {
        tv!(self, "unknown", self.base.unk(a), d)
    }
}
/// Same log from the mutable visitor; optionally changes what it is given.
pub struct MutLog<'b> {
    pub base: Base<'b>,
    pub ev: Vec<Ev>,
    pub change: bool,
}
impl<'a> VisitMut<'a> for MutLog<'_> {
    fn visit_ber_mut(&mut self, b: &'_ mut BerObject<'a>, d: usize) {
        let n = self.base.n(b);
        if self.change {
            // the header can only be changed here
            b.header = b.header.clone().with_tag(Tag(n.h.tag ^ 1));
        }
        self.ev.push(Ev::General(n, d));
    }
    fn visit_ber_bitstring_mut(&mut self, u: &mut u8, b: &'a mut BitStringObject, d: usize) {
        tv!(self, "bitstring", V::Bits(*u, self.base.s(b.data)), d);
        if self.change {
            *u ^= 1;
        }
    }
    fn visit_ber_bmpstring_mut(&mut self, s: &'a mut &'_ [u8], d: usize) {
        tv!(self, "bmp", V::Bmp(self.base.s(s)), d);
        if self.change && !s.is_empty() {
            *s = &s[1..];
        }
    }
    fn visit_ber_boolean_mut(&mut self, b: &'a mut bool, d: usize) {
        tv!(self, "bool", V::Bool(*b), d);
        if self.change {
            *b = !*b;
        }
    }
    fn visit_ber_endofcontent_mut(&mut self, d: usize) {
        tv!(self, "eoc", V::Eoc, d)
    }
    fn visit_ber_enum_mut(&mut self, e: &'a mut u64, d: usize) {
        tv!(self, "enum", V::Enum(*e), d);
        if self.change {
            *e ^= 1;
        }
    }
    fn visit_ber_generalstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        tv!(self, "str27", V::Str(27, self.base.s(s.as_bytes())), d);
        drop_char(self.change, s);
    }
    fn visit_ber_generalizedtime_mut(&mut self, t: &'a ASN1DateTime, d: usize) {
        tv!(self, "gentime", V::Gen(tm(t)), d)
    }
    fn visit_ber_graphicstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        tv!(self, "str25", V::Str(25, self.base.s(s.as_bytes())), d);
        drop_char(self.change, s);
    }
    fn visit_ber_ia5string_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        tv!(self, "str22", V::Str(22, self.base.s(s.as_bytes())), d);
        drop_char(self.change, s);
    }
    fn visit_ber_integer_mut(&mut self, s: &'a mut &'_ [u8], d: usize) {
        tv!(self, "integer", V::Int(self.base.s(s)), d);
        if self.change && !s.is_empty() {
            *s = &s[1..];
        }
    }
    fn visit_ber_null_mut(&mut self, d: usize) {
        tv!(self, "null", V::Null, d)
    }
    fn visit_ber_numericstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        tv!(self, "str18", V::Str(18, self.base.s(s.as_bytes())), d);
        drop_char(self.change, s);
    }
    fn visit_ber_oid_mut(&mut self, o: &'a mut Oid, d: usize) {
        tv!(self, "oid", V::Oid(self.base.s(o.as_bytes())), d)
    }
    fn visit_ber_objectdescriptor_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        tv!(self, "str7", V::Str(7, self.base.s(s.as_bytes())), d);
        drop_char(self.change, s);
    }
    fn visit_ber_octetstring_mut(&mut self, s: &'a [u8], d: usize) {
        tv!(self, "octets", V::Oct(self.base.s(s)), d)
    }
    fn visit_ber_optional_mut(&mut self, o: Option<&'a mut BerObject<'a>>, d: usize) {
        let v = V::Opt(o.as_ref().map(|x| Box::new(self.base.n(x))));
        self.ev.push(Ev::Typed("optional", v, d));
        if self.change {
            if let Some(x) = o {
                x.content = BerObjectContent::Null;
            }
        }
    }
    fn visit_ber_printablestring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        tv!(self, "str19", V::Str(19, self.base.s(s.as_bytes())), d);
        drop_char(self.change, s);
    }
    fn visit_ber_relative_oid_mut(&mut self, o: &'a mut Oid, d: usize) {
        tv!(self, "reloid", V::RelOid(self.base.s(o.as_bytes())), d)
    }
    fn visit_ber_sequence_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) {
        tv!(self, "seq", V::Seq(l.iter().map(|x| self.base.n(x)).collect()), d);
        if self.change && l.len() > 3 {
            l.truncate(3);
        }
    }
    fn visit_ber_set_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) {
        tv!(self, "set", V::Set(l.iter().map(|x| self.base.n(x)).collect()), d);
        if self.change && l.len() > 1 {
            l.swap(0, 1);
        }
    }
    fn visit_ber_teletexstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        tv!(self, "str20", V::Str(20, self.base.s(s.as_bytes())), d);
        drop_char(self.change, s);
    }
    fn visit_ber_tagged_mut(&mut self, c: &'a mut Class, t: &'a mut Tag, o: &'a mut BerObject<'a>, d: usize) {
        tv!(self, "tagged", V::Tagged(*c as u8, t.0, Box::new(self.base.n(o))), d);
        if self.change {
            t.0 ^= 1;
        }
    }
    fn visit_ber_utctime_mut(&mut self, t: &'a ASN1DateTime, d: usize) {
        tv!(self, "utctime", V::Utc(tm(t)), d)
    }
    fn visit_ber_utf8string_mut(&mut self, s: &'a str, d: usize) {
        tv!(self, "str12", V::Str(12, self.base.s(s.as_bytes())), d)
    }
    fn visit_ber_universalstring_mut(&mut self, s: &'a mut &'_ [u8], d: usize) {
        tv!(self, "univ", V::Univ(self.base.s(s)), d);
        if self.change && !s.is_empty() {
            *s = &s[1..];
        }
    }
    fn visit_ber_videotextstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        tv!(self, "str21", V::Str(21, self.base.s(s.as_bytes())), d);
        drop_char(self.change, s);
    }
    fn visit_ber_visiblestring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        tv!(self, "str26", V::Str(26, self.base.s(s.as_bytes())), d);
        drop_char(self.change, s);
    }
    fn visit_ber_unknown_mut(&mut self, a: &'_ mut Any<'a>, d: usize) {
        tv!(self, "unknown", self.base.unk(a), d);
        if self.change && !a.data.is_empty() {
            a.data = &a.data[1..];
        }
    }
}
fn drop_char(change: bool, s: &mut &str) {
    if change {
        let k = s.chars().next().map_or(0, |c| c.len_utf8());
        *s = &s[k..];
    }
}
/// What a changing visitor leaves behind, and the calls it sees, computed on the model
pub fn expected_events(n: &mut N, d: usize, change: bool, text: &[u8], out: &mut Vec<Ev>) {
    out.push(Ev::General(n.clone(), d));
    if change {
        n.h.tag ^= 1;
    }
    let name = match &n.v {
        V::Eoc => "eoc",
        V::Bool(_) => "bool",
        V::Int(_) => "integer",
        V::Bits(..) => "bitstring",
        V::Oct(_) => "octets",
        V::Null => "null",
        V::Enum(_) => "enum",
        V::Oid(_) => "oid",
        V::RelOid(_) => "reloid",
        V::Str(t, _) => match t {
            7 => "str7",
            12 => "str12",
            18 => "str18",
            19 => "str19",
            20 => "str20",
            21 => "str21",
            22 => "str22",
            25 => "str25",
            26 => "str26",
            _ => "str27",
        },
        V::Bmp(_) => "bmp",
        V::Univ(_) => "univ",
        V::Seq(_) => "seq",
        V::Set(_) => "set",
        V::Utc(_) => "utctime",
        V::Gen(_) => "gentime",
        V::Unk(..) => "unknown",
        V::Opt(_) => "optional",
        V::Tagged(..) => "tagged",
    };
    out.push(Ev::Typed(name, n.v.clone(), d));
    let tail = |s: &mut S| {
        if s.1 > 0 {
            *s = sl(s.0 + 1, s.1 - 1);
        }
    };
    if change {
        match &mut n.v {
            V::Bits(u, _) => *u ^= 1,
            V::Bool(b) => *b = !*b,
            V::Enum(e) => *e ^= 1,
            V::Int(s) | V::Bmp(s) | V::Univ(s) | V::Unk(_, _, _, _, s) => tail(s),
            V::Str(t, s) if *t != 12 => {
                let k = if s.1 == 0 {
                    0
                } else {
                    match text[s.0] {
                        0..=0x7f => 1,
                        0xc0..=0xdf => 2,
                        0xe0..=0xef => 3,
                        _ => 4,
                    }
                };
                *s = sl(s.0 + k, s.1 - k);
            }
            V::Opt(Some(o)) => o.v = V::Null,
            V::Tagged(_, t, _) => *t ^= 1,
            V::Seq(l) => l.truncate(3),
            V::Set(l) => {
                if l.len() > 1 {
                    l.swap(0, 1)
                }
            }
            _ => (),
        }
    }
    if let V::Seq(l) | V::Set(l) = &mut n.v {
        for k in l {
            expected_events(k, d + 1, change, text, out);
        }
    }
}

// ---------------------------------------------------------------- exercising everything
struct Quiet(usize);
impl<'a> Visit<'a> for Quiet {
    fn visit_ber(&mut self, _: &'_ BerObject<'a>, d: usize) {
        self.0 = self.0.wrapping_add(d);
    }
}
struct QuietMut(usize);
impl<'a> VisitMut<'a> for QuietMut {
    fn visit_ber_mut(&mut self, _: &'_ mut BerObject<'a>, d: usize) {
        self.0 = self.0.wrapping_add(d);
    }
}
pub struct Sink(pub usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
pub fn pretty(o: &BerObject, indent: usize, inc: usize, rec: bool, hdr: bool) -> Sink {
    use std::fmt::Write;
    let mut p = o.as_pretty(indent, inc);
    if !rec {
        p.unset_flag(PrettyPrinterFlag::Recursive);
    }
    if hdr {
        p.set_flag(PrettyPrinterFlag::ShowHeader);
    }
    let mut s = Sink(0);
    let _ = write!(s, "{p:?}");
    s
}
/// a hash of everything that can be asked of an object (also used to compare runs)
pub fn ask(o: &BerObject, b: Base, r: &mut Rng, out: &mut Vec<String>) {
    macro_rules! w { ($($x:expr),*) => { $( out.push(format!("{:?}", $x)); )* } }
    w!(o.as_i64(), o.as_i32(), o.as_u64(), o.as_u32(), o.as_bool());
    w!(o.as_bigint().map(|x| x.to_string()), o.as_biguint().map(|x| x.to_string()));
    w!(o.as_oid().map(|x| b.s(x.as_bytes())), o.as_oid_val().map(|x| b.s(x.as_bytes())));
    w!(o.as_optional().map(|x| x.map(|y| b.n(y))), o.as_tagged().map(|(c, t, y)| (c as u8, t.0, b.n(y))));
    w!(o.as_bitstring_ref().map(|x| b.s(x.data)), o.as_bitstring().map(|x| b.s(x.data)), o.as_bitslice().map(|x| x.len()));
    w!(o.as_sequence().map(|l| l.len()), o.as_set().map(|l| l.len()), o.as_slice().map(|x| b.s(x)), o.as_str().map(|x| b.s(x.as_bytes())));
    w!(o.class() as u8, o.tag().0, len(o.length()), o.is_universal(), o.is_application(), o.is_contextspecific(), o.is_private(), o.is_primitive(), o.is_constructed());
    w!(o.assert_class(o.class()), o.assert_tag(o.tag()), o.assert_constructed(), o.assert_primitive());
    if let Ok(bs) = o.as_bitstring() {
        for n in [0usize, 1, 7, 8, 63, 64, r.below(1000), usize::MAX, usize::MAX / 8, usize::MAX - 7, bs.data.len().wrapping_mul(8).wrapping_sub(1)] {
            w!(bs.is_set(n));
        }
        w!(bs.as_bitslice().map(|s| s.count_ones()), bs.as_ref().len());
    }
    w!(o.ref_iter().count());
}
pub fn exercise(o: &BerObject<'static>, base: &'static [u8], r: &mut Rng) {
    let b = Base(base);
    let mut sink = vec![];
    ask(o, b, r, &mut sink);
    pretty(o, r.below(4), r.below(4), true, r.chance(1, 2));
    if r.chance(1, 4) {
        pretty(o, r.below(300), r.below(40), r.chance(1, 2), true);
        if base.len() < 60 && r.chance(1, 20) {
            pretty(o, *r.pick(&[0, 65535, 65536, 100_000]), *r.pick(&[1, 40_000, 65536]), true, true);
        }
        use std::fmt::Write;
        let _ = write!(Sink(0), "{o:?} {o:#?}");
    }
    let _ = o.clone() == *o;
    let _ = o.clone().into_iter().count();
    if let BerObjectContent::Sequence(l) | BerObjectContent::Set(l) = &o.content {
        for k in 0..l.len() {
            let _ = lib(|| &o[k]);
        }
        for c in l {
            if r.chance(1, 1 + l.len() / 4) {
                ask(c, b, r, &mut sink);
            }
        }
    }
    // an object of any shape can be walked
    let leaked: &'static BerObject<'static> = unsafe { &*(o as *const BerObject<'static>) };
    Quiet(0).run(leaked);
    Quiet(0).run_at(leaked, r.below(1000));
    let mut c = Box::new(o.clone());
    let cm: &'static mut BerObject<'static> = unsafe { &mut *(&mut *c as *mut BerObject<'static>) };
    QuietMut(0).run_at(cm, r.below(1000));
    drop(c);
    let _ = o.to_vec();
    let _ = cookie_factory::gen_simple(ber_encode_object(o), Vec::new());
    let any: &[u8] = if base.is_empty() { base } else { &base[..r.below(base.len().min(64) + 1)] };
    let _ = cookie_factory::gen_simple(ber_encode_object_raw(&o.header, &o.content), Vec::new());
    let _ = cookie_factory::gen_simple(ber_encode_header(&o.header), Vec::new());
    let _ = cookie_factory::gen_simple(ber_encode_tagged_explicit(Tag(rand_tag(r)), class(r.byte()), o), Vec::new());
    let _ = cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(rand_tag(r)), class(r.byte()), o), Vec::new());
    let mut small = [0u8; 16];
    let k = r.below(17);
    let _ = cookie_factory::gen_simple(ber_encode_header(&o.header), &mut small[..k]);
    if let BerObjectContent::Unknown(a) = &o.content {
        let _ = BerObject::try_from(a);
        let _ = BerObject::try_from(a.clone());
    }
    let q = o.clone().set_raw_tag(Some(any));
    let _ = q == *o;
    let _ = q.to_vec();
}
