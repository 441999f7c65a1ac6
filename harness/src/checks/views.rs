//! C17, C18, C23: visitors, pretty printer, views of objects
use super::util::*;
use crate::gen::*;
use crate::model::{self, *};
use crate::rt::*;
use crate::snap::*;
use der_parser::asn1_rs::{Any, FromBer};
use der_parser::ber::*;
use der_parser::error::BerError;
use der_parser::num_bigint::{BigInt, BigUint};
use der_parser::oid::Oid;
use std::borrow::Cow;

/// Objects of every origin: parsed, built by the combinators, converted, built by hand.
fn objects(c: &Case) -> Vec<(&'static str, BerObject<'static>, &'static [u8])> {
    let mut r = c.rng();
    let i = place(0, &c.input);
    let mut v = vec![];
    if let Ok((_, o)) = der_parser::parse_ber(i) {
        v.push(("parse_ber", o, i));
    }
    if r.chance(1, 3) {
        if let Ok((_, o)) = der_parser::parse_der(i) {
            v.push(("parse_der", o, i));
        }
    }
    if let Ok((h, _)) = model::header(i, 0, i.len(), false) {
        if h.class != 0 {
            if let Ok((_, o)) = sut::explicit(false, h.tag, i, &|x| der_parser::parse_ber(x)) {
                v.push(("explicit", o, i));
            }
            let as_tag = *r.pick(&[Tag::Sequence, Tag::Set, Tag::OctetString, Tag::Integer, Tag::BitString, Tag::Utf8String]);
            if let Ok((_, o)) = sut::implicit(false, h.tag, i, &parse_ber_content(as_tag)) {
                v.push(("implicit", o, i));
            }
        }
    }
    if r.chance(1, 3) {
        if let Ok((_, o)) = parse_ber_optional(der_parser::parse_ber)(i) {
            v.push(("optional", o, i));
        }
    }
    if r.chance(1, 3) {
        if let Ok((_, a)) = Any::from_ber(i) {
            if let Ok(o) = BerObject::try_from(a) {
                v.push(("try_from", o, i));
            }
        }
    }
    let hb = hand_buf(1, &c.input);
    let big = r.chance(1, 40);
    let d = if big { 1 } else { r.below(5) };
    let opt = Hand { parsable: r.chance(1, 3), optional: r.chance(2, 3), tagged: r.chance(2, 3), custom_header: r.chance(1, 2) };
    let o = if big {
        let n = match r.below(3) {
            0 => r.range(250, 260),
            1 => r.below(70),
            _ => r.below(1100),
        };
        let l = (0..n).map(|_| hand(&mut r, hb, if n > 300 { 0 } else { d }, &opt)).collect();
        if r.chance(1, 2) {
            BerObject::from_seq(l)
        } else {
            BerObject::from_set(l)
        }
    } else {
        let mut o = hand(&mut r, hb, d, &opt);
        if r.chance(1, 25) {
            for _ in 0..r.range(1, 70) {
                o = match r.below(if opt.tagged { 4 } else { 2 }) {
                    0 => BerObject::from_seq(vec![o]),
                    1 => BerObject::from_set(vec![o, BerObject::from_obj(BerObjectContent::Null)]),
                    2 => BerObject::from_obj(BerObjectContent::Tagged(class(r.byte()), Tag(rand_tag(&mut r)), Box::new(o))),
                    _ if opt.optional => BerObject::from_obj(BerObjectContent::Optional(Some(Box::new(o)))),
                    _ => BerObject::from_seq(vec![BerObject::from_int_slice(&hb[..1]), o]),
                };
            }
        }
        o
    };
    v.push(("hand", o, hb));
    v
}
fn fixed_cases(emit: &mut dyn FnMut(Case)) {
    let mut g = Gen::plain(17);
    for &t in UNIV {
        for k in 0..40u64 {
            let c = g.content(t, if k % 2 == 0 { DER } else { BER });
            let v = if t == 16 || t == 17 {
                let mut c = vec![];
                for _ in 0..k % 6 {
                    c.extend(g.elem(Opt { depth: 3, ..BER }));
                }
                g.wrap(0, t, &c, Opt { indef: 30, ..BER })
            } else {
                g.tlv(0, false, t, &c, 10)
            };
            emit(Case::new(v, k));
        }
    }
    for k in 1..50usize {
        let c = model::tlv(0, false, 2, &[k as u8]);
        let v = g.nest(k, c, DER);
        emit(Case::new(v, k as u64));
    }
    for k in 0..3000u64 {
        let n = (k % 60) as usize;
        let v = g.bytes(n);
        emit(Case::new(v, k.wrapping_mul(0x9e3779b97f4a7c15)));
    }
}
fn any_case(g: &mut Gen) -> Case {
    let p = g.r.u64();
    let v = match g.r.below(5) {
        0 => {
            let n = g.size(300);
            g.bytes(n)
        }
        1 => g.elem(DER),
        _ => g.input(),
    };
    Case::new(v, p)
}
/// the object outlives every use below
fn ext<'x>(o: &'x BerObject<'static>) -> &'static BerObject<'static> {
    unsafe { &*(o as *const BerObject<'static>) }
}
fn ext_mut(o: &mut BerObject<'static>) -> &'static mut BerObject<'static> {
    unsafe { &mut *(o as *mut BerObject<'static>) }
}

// ---------------------------------------------------------------- C17
pub struct C17;
impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "objects of every origin are walked with a recording visitor and with a recording and changing mutable visitor; the event sequence and the object left behind are compared with those computed on an independent snapshot; non-trivial: at least one walk with a nested object"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        fixed_cases(emit)
    }
    fn gen(&self, g: &mut Gen) -> Case {
        any_case(g)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = Rng::new(c.param ^ 0x17);
        for (origin, o, buf) in objects(c) {
            let b = Base(buf);
            let before = b.n(&o);
            let d0 = match r.below(6) {
                0 | 1 => 0,
                2 => 1 << 40,
                _ => r.below(5000),
            };
            let mut n = before.clone();
            let mut want = vec![];
            expected_events(&mut n, d0, false, buf, &mut want);
            if want.len() > 2 {
                st.nontrivial();
            }
            st.add("walks", 1);
            st.add("callbacks", 2 * want.len() as u64);
            st.max("objects_in_one_walk", want.len() as u64 / 2);
            st.max("height", model::height(&before) as u64);
            st.distinct("value_kinds_by_origin", hash64(&[origin.as_bytes(), format!("{:?}", std::mem::discriminant(&before.v)).as_bytes()]));
            let cmp = |how: &str, got: &[Ev], want: &[Ev]| -> Result<(), String> {
                if got == want {
                    return Ok(());
                }
                let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
                Err(format!("{how} ({origin}): call {k} of {} is {}, expected (of {}) {}", got.len(), ev(got.get(k)), want.len(), ev(want.get(k))))
            };
            let mut l = Log { base: b, ev: vec![] };
            if d0 == 0 && r.chance(1, 2) {
                l.run(ext(&o));
            } else {
                l.run_at(ext(&o), d0);
            }
            cmp("visitor", &l.ev, &want)?;
            if b.n(&o) != before {
                return Err(format!("the visitor changed the object ({origin})"));
            }
            // the same visitor again: no state is left anywhere
            if r.chance(1, 8) {
                l.ev.clear();
                l.run_at(ext(&o), d0);
                cmp("visitor, second walk", &l.ev, &want)?;
            }
            let mut o2 = Box::new(o.clone());
            let mut m = MutLog { base: b, ev: vec![], change: false };
            if d0 == 0 && r.chance(1, 2) {
                m.run(ext_mut(&mut o2));
            } else {
                m.run_at(ext_mut(&mut o2), d0);
            }
            cmp("mutable visitor", &m.ev, &want)?;
            if b.n(&o2) != before {
                return Err(format!("the mutable visitor changed the object although no callback did ({origin})"));
            }
            let mut want = vec![];
            expected_events(&mut n, d0, true, buf, &mut want);
            let mut m = MutLog { base: b, ev: vec![], change: true };
            m.run_at(ext_mut(&mut o2), d0);
            cmp("changing mutable visitor", &m.ev, &want)?;
            let left = b.n(&o2);
            if left != n {
                return Err(format!("after the changes of the callbacks the object is {} instead of {} ({origin})", short(&left), short(&n)));
            }
            if n != before {
                st.add("changed_walks", 1);
            }
            if b.n(&o) != before {
                return Err(format!("changing a clone changed the original ({origin})"));
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the depth given to run_at is far from usize::MAX"]
    }
}
fn ev(e: Option<&Ev>) -> String {
    e.map_or("(none)".into(), |e| format!("{e:?}").chars().take(300).collect())
}
fn short(n: &N) -> String {
    format!("{n:?}").chars().take(400).collect()
}

// ---------------------------------------------------------------- C18
fn hexslice(b: &[u8]) -> String {
    let mut s = String::from("[");
    for (k, x) in b.iter().enumerate() {
        if k > 0 {
            s.push(' ');
        }
        s.push_str(&format!("{x:02x}"));
    }
    s.push(']');
    s
}
fn pad(n: usize, s: &mut String) {
    for _ in 0..n {
        s.push(' ');
    }
}
/// What the pretty printer has to write
fn render(o: &BerObject, indent: usize, inc: usize, rec: bool, hdr: bool, s: &mut String) {
    use BerObjectContent as C;
    pad(indent, s);
    if hdr {
        let h = &o.header;
        let t = match h.class() {
            Class::Universal => h.tag().to_string(),
            Class::ContextSpecific => h.tag().0.to_string(),
            c => format!("{} {}", c, h.tag().0),
        };
        let l = match h.length() {
            Length::Definite(n) => n.to_string(),
            Length::Indefinite => "Indefinite".into(),
        };
        *s += &format!("[{t}]{} {l} ", if h.is_constructed() { "+" } else { "" });
    }
    match &o.content {
        C::EndOfContent => *s += "EndOfContent",
        C::Boolean(true) => *s += "Boolean(true)",
        C::Boolean(false) => *s += "Boolean(false)",
        C::Integer(i) => *s += &format!("Integer({})", hexslice(i)),
        C::Enum(e) => *s += &format!("Enum({e})"),
        C::OID(o) => *s += &format!("OID({o:?})"),
        C::RelativeOID(o) => *s += &format!("RelativeOID({o:?})"),
        C::Null => *s += "Null",
        C::OctetString(v) => *s += &format!("OctetString({})", hexslice(v)),
        C::BitString(u, v) => *s += &format!("BitString({u},{})", hexslice(v.data)),
        C::GeneralizedTime(t) => *s += &format!("GeneralizedTime(\"{t}\")"),
        C::UTCTime(t) => *s += &format!("UTCTime(\"{t}\")"),
        C::VisibleString(x) => *s += &format!("VisibleString(\"{x}\")"),
        C::GeneralString(x) => *s += &format!("GeneralString(\"{x}\")"),
        C::GraphicString(x) => *s += &format!("GraphicString(\"{x}\")"),
        C::PrintableString(x) => *s += &format!("PrintableString(\"{x}\")"),
        C::NumericString(x) => *s += &format!("NumericString(\"{x}\")"),
        C::UTF8String(x) => *s += &format!("UTF8String(\"{x}\")"),
        C::IA5String(x) => *s += &format!("IA5String(\"{x}\")"),
        C::T61String(x) => *s += &format!("T61String({x})"),
        C::VideotexString(x) => *s += &format!("VideotexString({x})"),
        C::ObjectDescriptor(x) => *s += &format!("ObjectDescriptor(\"{x}\")"),
        C::BmpString(x) => {
            let u: Vec<u16> = x.chunks_exact(2).map(|a| (a[0] as u16) << 8 | a[1] as u16).collect();
            match String::from_utf16(&u) {
                Ok(t) => *s += &format!("BmpString(\"{t}\")\n"),
                e => *s += &format!("BmpString({e:?}) <error decoding utf32 string>\n"),
            }
        }
        C::UniversalString(x) => {
            let mut t = Some(String::new());
            for a in x.chunks_exact(4) {
                let v = a.iter().fold(0u32, |v, d| v << 8 | *d as u32);
                match (char::from_u32(v), &mut t) {
                    (Some(c), Some(q)) => q.push(c),
                    _ => t = None,
                }
            }
            match t {
                Some(t) => *s += &format!("UniversalString(\"{t}\")\n"),
                None => *s += &format!("UniversalString({x:?}) <error decoding utf32 string>\n"),
            }
        }
        C::Optional(None) => *s += "NONE",
        C::Optional(Some(o)) => *s += &format!("OPTION {o:?}"),
        C::Tagged(c, t, o) => {
            *s += &format!("ContextSpecific [{c} {}] {{\n", t.0);
            render(o, indent + inc, inc, rec, hdr, s);
            pad(indent, s);
            s.push('}');
        }
        C::Sequence(l) | C::Set(l) => {
            *s += if matches!(o.content, C::Set(_)) { "Set" } else { "Sequence" };
            if rec {
                *s += "[\n";
                for x in l {
                    render(x, indent + inc, inc, rec, hdr, s);
                }
                pad(indent, s);
                s.push(']');
            }
        }
        C::Unknown(a) => *s += &format!("Unknown {}", hexslice(a.data)),
    }
}
struct Limited {
    left: usize,
    got: String,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
pub struct C18;
impl Check for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "objects of every origin are printed with every combination of flags (set through every route) and varying indentation; the text is compared with a reference renderer, repeated, and written to a failing writer; non-trivial: every printed object"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        fixed_cases(emit)
    }
    fn gen(&self, g: &mut Gen) -> Case {
        any_case(g)
    }
    fn max_input(&self) -> usize {
        1 << 16
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        use std::fmt::Write;
        let mut r = Rng::new(c.param ^ 0x18);
        for (origin, o, buf) in objects(c) {
            let b = Base(buf);
            let before = b.n(&o);
            let cnt = model::count(&before);
            for k in 0..4u32 {
                let (rec, hdr) = (k & 1 != 0, k & 2 != 0);
                let (ind, inc) = match r.below(8) {
                    0 | 1 => (0, 2),
                    2 => (0, 0),
                    3 if cnt < 200 => (r.below(700), r.below(70)),
                    // wider than a format width can be
                    5 if cnt < 12 && r.chance(1, 8) => (*r.pick(&[0, 1, 65000, 65534, 65535, 65536, 65537, 1 << 17]), *r.pick(&[0, 1, 2, 536, 9000, 65535, 65536, 70000])),
                    4 if cnt == 1 => (*r.pick(&[255, 256, 257, 65535, 1023, 4096]), r.below(1 << 20)),
                    _ => (r.below(9), r.below(9)),
                };
                let mut want = String::new();
                render(&o, ind, inc, rec, hdr, &mut want);
                let route = r.below(4);
                let p = match route {
                    0 => {
                        let mut f = vec![];
                        if rec {
                            f.push(PrettyPrinterFlag::Recursive);
                        }
                        if hdr {
                            f.push(PrettyPrinterFlag::ShowHeader);
                        }
                        if r.chance(1, 2) {
                            f.reverse();
                        }
                        if r.chance(1, 3) {
                            let g = f.clone();
                            f.extend(g);
                        }
                        PrettyBer::new(&o, f, ind, inc)
                    }
                    1 => {
                        // through every state
                        let mut p = if r.chance(1, 2) {
                            o.as_pretty(ind, inc)
                        } else {
                            let f = (0..r.below(7)).map(|_| *r.pick(&[PrettyPrinterFlag::Recursive, PrettyPrinterFlag::ShowHeader])).collect();
                            PrettyBer::new(&o, f, ind, inc)
                        };
                        for _ in 0..r.below(6) {
                            let f = *r.pick(&[PrettyPrinterFlag::Recursive, PrettyPrinterFlag::ShowHeader]);
                            if r.chance(1, 2) {
                                p.set_flag(f);
                            } else {
                                p.unset_flag(f);
                            }
                        }
                        for (f, on) in [(PrettyPrinterFlag::ShowHeader, hdr), (PrettyPrinterFlag::Recursive, rec)] {
                            if on {
                                p.set_flag(f);
                            } else {
                                p.unset_flag(f);
                            }
                        }
                        p
                    }
                    2 if ind >= inc => {
                        // as a nested object of another printer
                        let other = BerObject::from_obj(BerObjectContent::Null);
                        let mut f = vec![];
                        if hdr {
                            f.push(PrettyPrinterFlag::ShowHeader);
                        }
                        if rec {
                            for _ in 0..r.range(1, 4) {
                                f.insert(0, PrettyPrinterFlag::Recursive);
                            }
                        }
                        let q = PrettyBer::new(&other, f, ind - inc, inc);
                        let z = format!("{:?}", q.next_indent(&o));
                        if z != want {
                            return Err(diff("next_indent", origin, &z, &want));
                        }
                        st.add("next_indent", 1);
                        continue;
                    }
                    _ => {
                        let mut p = o.as_pretty(ind, inc);
                        if !rec {
                            p.unset_flag(PrettyPrinterFlag::Recursive);
                        }
                        if hdr {
                            p.set_flag(PrettyPrinterFlag::ShowHeader);
                        }
                        p
                    }
                };
                if p.is_flag_set(PrettyPrinterFlag::Recursive) != rec || p.is_flag_set(PrettyPrinterFlag::ShowHeader) != hdr {
                    return Err("a flag is not as it was set".into());
                }
                let got = format!("{p:?}");
                if got != want {
                    return Err(diff(&format!("recursive={rec} header={hdr} indent={ind} increment={inc}"), origin, &got, &want));
                }
                st.nontrivial();
                st.add("texts", 1);
                st.add("text_octets", got.len() as u64);
                st.max("longest_text", got.len() as u64);
                st.distinct("texts", hash64(&[got.as_bytes()]));
                if r.chance(1, 6) {
                    if format!("{p:?}") != want {
                        return Err("printing twice gives two texts".into());
                    }
                    let k = r.below(want.len() + 2);
                    let mut w = Limited { left: k, got: String::new() };
                    let res = write!(w, "{p:?}");
                    if res.is_ok() != (k >= want.len()) || !want.starts_with(&w.got) {
                        return Err(format!("a writer that takes {k} of {} octets: reported {res:?}, wrote {:?}", want.len(), w.got));
                    }
                    st.add("limited_writers", 1);
                }
            }
            if b.n(&o) != before {
                return Err("printing changed the object".into());
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["OBJECT IDENTIFIER, time, tag and class texts are those of the asn1-rs Display/Debug implementations"]
    }
}
fn diff(how: &str, origin: &str, got: &str, want: &str) -> String {
    let k = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(20);
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.min(s.len())..(k + 160).min(s.len())]).into_owned();
    format!("{how} ({origin}): text differs near octet {k}: {:?} instead of {:?}", cut(got), cut(want))
}

// ---------------------------------------------------------------- C23
fn value_tag(v: &V) -> u32 {
    match v {
        V::Eoc => 0,
        V::Bool(_) => 1,
        V::Int(_) => 2,
        V::Bits(..) => 3,
        V::Oct(_) => 4,
        V::Null => 5,
        V::Oid(_) => 6,
        V::Enum(_) => 10,
        V::RelOid(_) => 13,
        V::Seq(_) => 16,
        V::Set(_) => 17,
        V::Utc(_) => 23,
        V::Gen(_) => 24,
        V::Univ(_) => 28,
        V::Bmp(_) => 30,
        V::Str(t, _) => *t,
        V::Unk(_, _, t, _, _) | V::Tagged(_, t, _) => *t,
        V::Opt(None) => 0,
        V::Opt(Some(n)) => value_tag(&n.v),
    }
}
/// equality of values by content, with the object headers (identifier octets only when both are known)
fn deep_eq(i: &[u8], a: &N, j: &[u8], b: &N) -> bool {
    let s = |b: &[u8], s: &S| b.get(s.0..s.0 + s.1).map(|x| x.to_vec());
    // (the comparison of headers, by asn1-rs, leaves lengths out)
    if (a.h.class, a.h.cons, a.h.tag) != (b.h.class, b.h.cons, b.h.tag) {
        return false;
    }
    match (&a.v, &b.v) {
        (V::Seq(x), V::Seq(y)) | (V::Set(x), V::Set(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| deep_eq(i, p, j, q)),
        (V::Int(x), V::Int(y)) | (V::Oct(x), V::Oct(y)) | (V::Oid(x), V::Oid(y)) | (V::RelOid(x), V::RelOid(y)) | (V::Bmp(x), V::Bmp(y)) | (V::Univ(x), V::Univ(y)) => s(i, x) == s(j, y),
        (V::Bits(u, x), V::Bits(w, y)) => u == w && s(i, x) == s(j, y),
        (V::Str(t, x), V::Str(w, y)) => t == w && s(i, x) == s(j, y),
        (V::Unk(c, p, t, _, x), V::Unk(d, q, w, _, y)) => (c, p, t) == (d, q, w) && s(i, x) == s(j, y),
        (V::Opt(Some(x)), V::Opt(Some(y))) => deep_eq(i, x, j, y),
        (V::Tagged(c, t, x), V::Tagged(d, w, y)) => (c, t) == (d, w) && deep_eq(i, x, j, y),
        (x, y) => x == y,
    }
}
/// an iterator driven in a random way, next to a cursor into the `n` expected elements
fn walk<T, I: Iterator<Item = T>>(what: &str, mut it: I, n: usize, same: &dyn Fn(&T, usize) -> bool, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let mut at = 0usize;
    let mut log = String::new();
    let ok = |x: Option<T>, k: usize, log: &str| match x {
        Some(x) if k < n && same(&x, k) => Ok(()),
        None if k >= n => Ok(()),
        x => Err(format!("iterating {what} over {n} elements: {log} should give {}, gives {}", if k < n { format!("element {k}") } else { "nothing".into() }, if x.is_some() { "another element" } else { "nothing" })),
    };
    for _ in 0..r.range(1, 9) {
        let left = n.saturating_sub(at);
        match r.below(6) {
            0 | 1 => {
                log += "next ";
                ok(it.next(), at, &log)?;
                at += 1;
            }
            2 => {
                let k = match r.below(3) {
                    0 => r.below(4),
                    1 => left + r.below(3),
                    _ => r.below(left + 1),
                };
                log += &format!("nth({k}) ");
                ok(it.nth(k), at.saturating_add(k), &log)?;
                at = at.saturating_add(k + 1);
            }
            3 => {
                let k = r.below(left + 2);
                log += &format!("by_ref.take({k}).count ");
                let c = it.by_ref().take(k).count();
                if c != k.min(left) {
                    return Err(format!("iterating {what} over {n} elements: {log} gives {c}, {left} are left"));
                }
                at += c;
            }
            4 => {
                let k = r.below(left + 2);
                log += &format!("by_ref.find(#{k}) ");
                let mut j = 0;
                let x = it.by_ref().find(|_| {
                    j += 1;
                    j > k
                });
                ok(x, at + k, &log)?;
                at = if k < left { at + k + 1 } else { at.max(n) };
            }
            _ => {
                let (lo, hi) = it.size_hint();
                log += "size_hint ";
                if lo > left || hi.is_some_and(|h| h < left) {
                    return Err(format!("iterating {what} over {n} elements: {log} gives {lo}..{hi:?}, {left} are left"));
                }
            }
        }
    }
    let left = n.saturating_sub(at);
    let (mut j, mut wrong) = (at, false);
    match r.below(6) {
        0 => {
            log += "count";
            wrong = it.count() != left;
        }
        1 => {
            log += "last";
            let x = it.last();
            wrong = match x {
                Some(x) => left == 0 || !same(&x, n - 1),
                None => left != 0,
            };
        }
        2 => {
            log += "fold";
            it.fold((), |_, x| {
                wrong |= j >= n || !same(&x, j);
                j += 1;
            });
            wrong |= j < n;
        }
        3 => {
            let (s, k) = (r.below(left + 2), r.range(1, 4));
            log += &format!("skip({s}).step_by({k})");
            let mut j = at + s;
            for x in it.skip(s).step_by(k) {
                wrong |= j >= n || !same(&x, j);
                j += k;
            }
            wrong |= j < n;
        }
        4 => {
            log += "for_each";
            it.for_each(|x| {
                wrong |= j >= n || !same(&x, j);
                j += 1;
            });
            wrong |= j < n;
        }
        _ => {
            log += "all/collect";
            let v: Vec<T> = it.collect();
            wrong = v.len() != left || v.iter().enumerate().any(|(k, x)| !same(x, at + k));
        }
    }
    if wrong {
        return Err(format!("iterating {what} over {n} elements: {log} gives other elements than the {left} left"));
    }
    st.add("iterator_walks", 1);
    Ok(())
}
fn iterate(o: &BerObject<'static>, b: Base, origin: &str, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let n = b.n(o);
    let elems: Option<&Vec<N>> = match &n.v {
        V::Seq(l) | V::Set(l) => Some(l),
        _ => None,
    };
    let by_value: Vec<N> = match elems {
        Some(l) => l.clone(),
        None => vec![n.clone()],
    };
    let mut it = o.clone().into_iter();
    let mut got = vec![];
    for _ in 0..by_value.len() + 1 {
        match it.next() {
            Some(x) => got.push(b.n(&x)),
            None => break,
        }
    }
    if got != by_value {
        return Err(format!("by-value iteration ({origin}) yields {} objects, expected {}: {:.300}", got.len(), by_value.len(), format!("{got:?}")));
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err(format!("by-value iteration ({origin}) goes on after its end"));
        }
    }
    let v: Vec<N> = o.clone().into_iter().map(|x| b.n(&x)).collect();
    if v != by_value {
        return Err(format!("collecting the by-value iteration ({origin}) differs from stepping it"));
    }
    let mut fl = vec![];
    for x in o.clone() {
        fl.push(b.n(&x));
    }
    if fl != by_value {
        return Err(format!("a for loop by value ({origin}) differs"));
    }
    // other ways of driving the same iterator
    let k = r.below(by_value.len() + 2);
    let mut it = o.clone().into_iter();
    let (lo, hi) = it.size_hint();
    if lo > by_value.len() || hi.is_some_and(|h| h < by_value.len()) {
        return Err(format!("size_hint ({origin}) excludes the real size"));
    }
    if it.nth(k).map(|x| b.n(&x)) != by_value.get(k).cloned() {
        return Err(format!("nth({k}) by value ({origin}) is another element"));
    }
    if it.next().map(|x| b.n(&x)) != by_value.get(k + 1).cloned() {
        return Err(format!("the element after nth({k}) by value ({origin}) is another one"));
    }
    if o.clone().into_iter().count() != by_value.len() || o.clone().into_iter().last().map(|x| b.n(&x)) != by_value.last().cloned() {
        return Err(format!("count or last by value ({origin}) is wrong"));
    }
    if o.clone().into_iter().fold(0, |a, _| a + 1) != by_value.len() {
        return Err(format!("fold by value ({origin}) is wrong"));
    }
    for _ in 0..2 {
        walk(&format!("by value ({origin})"), o.clone().into_iter(), by_value.len(), &|x, k| b.n(x) == by_value[k], r, st)?;
    }
    // by reference: the very elements
    let s = ext(o);
    let list: &[BerObject] = match &s.content {
        BerObjectContent::Sequence(l) | BerObjectContent::Set(l) => l,
        _ => &[],
    };
    let mut it = s.ref_iter();
    for (k, e) in list.iter().enumerate() {
        match it.next() {
            Some(x) if std::ptr::eq(x, e) => (),
            x => return Err(format!("by-reference iteration ({origin}): element {k} is {x:?}")),
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err(format!("by-reference iteration ({origin}) goes on after its end"));
        }
    }
    let mut it = s.ref_iter();
    let (lo, hi) = it.size_hint();
    if lo > list.len() || hi.is_some_and(|h| h < list.len()) {
        return Err(format!("size_hint by reference ({origin}) excludes the real size"));
    }
    match (it.nth(k), list.get(k)) {
        (Some(x), Some(y)) if std::ptr::eq(x, y) => (),
        (None, None) => (),
        _ => return Err(format!("nth({k}) by reference ({origin}) is another element")),
    }
    if s.ref_iter().count() != list.len() || s.ref_iter().fold(0, |a, _| a + 1) != list.len() {
        return Err(format!("count by reference ({origin}) is wrong"));
    }
    for _ in 0..3 {
        walk(&format!("by reference ({origin})"), s.ref_iter(), list.len(), &|x, k| std::ptr::eq(*x, &list[k]), r, st)?;
    }
    for (k, e) in list.iter().enumerate() {
        if list.len() > 64 && !r.chance(64, list.len()) && k + 1 != list.len() && k != 255 && k != 256 {
            continue;
        }
        if !std::ptr::eq(lib(|| &s[k]), e) {
            return Err(format!("index {k} ({origin}) is another element"));
        }
    }
    for k in [list.len(), list.len() + 1, usize::MAX, r.u64() as usize | 1 << 32] {
        if r.chance(1, 20) && no_panic(|| lib(|| &s[k]).header.tag()).is_ok() {
            return Err(format!("index {k} of {} elements ({origin}) returns an object", list.len()));
        }
    }
    st.add("iterated", 1);
    st.add("elements", by_value.len() as u64);
    st.max("elements_of_one_object", by_value.len() as u64);
    Ok(())
}
fn accessors(o: &BerObject<'static>, b: Base, origin: &str, st: &mut Stats) -> Result<(), String> {
    let n = b.n(o);
    let c = &o.content;
    let bytes = |s: &S| &b.0[s.0..s.0 + s.1];
    macro_rules! same {
        ($name:expr, $a:expr, $c:expr, $want:expr) => {{
            let w = $want;
            let x = $a.ok();
            if x != w {
                return Err(format!("{} ({origin}) of {}: {:?} instead of {:?}", $name, short(&n), x, w));
            }
            let x = $c.ok();
            if x != w {
                return Err(format!("{} of the contents ({origin}) of {}: {:?} instead of {:?}", $name, short(&n), x, w));
            }
            st.add(if w.is_some() { "accessor_answers" } else { "accessor_refusals" }, 2);
        }};
    }
    same!("as_bool", o.as_bool(), c.as_bool(), if let V::Bool(x) = n.v { Some(x) } else { None });
    let oid = if let V::Oid(s) | V::RelOid(s) = n.v { Some(s) } else { None };
    same!("as_oid", o.as_oid().map(|x| b.s(x.as_bytes())), c.as_oid().map(|x| b.s(x.as_bytes())), oid);
    same!("as_oid_val", o.as_oid_val().map(|x| b.s(x.as_bytes())), c.as_oid_val().map(|x| b.s(x.as_bytes())), oid);
    let opt = if let V::Opt(x) = &n.v { Some(x.as_ref().map(|x| (**x).clone())) } else { None };
    same!("as_optional", o.as_optional().map(|x| x.map(|y| b.n(y))), c.as_optional().map(|x| x.map(|y| b.n(y))), opt);
    let tg = if let V::Tagged(c, t, x) = &n.v { Some((*c, *t, (**x).clone())) } else { None };
    same!("as_tagged", o.as_tagged().map(|(c, t, y)| (c as u8, t.0, b.n(y))), c.as_tagged().map(|(c, t, y)| (c as u8, t.0, b.n(y))), tg);
    let bits = if let V::Bits(_, s) = n.v { Some(s) } else { None };
    same!("as_bitstring", o.as_bitstring().map(|x| b.s(x.data)), c.as_bitstring().map(|x| b.s(x.data)), bits);
    same!("as_bitstring_ref", o.as_bitstring_ref().map(|x| b.s(x.data)), c.as_bitstring_ref().map(|x| b.s(x.data)), bits);
    let list = |l: &Vec<BerObject>| l.iter().map(|x| b.n(x)).collect::<Vec<_>>();
    same!("as_sequence", o.as_sequence().map(list), c.as_sequence().map(list), if let V::Seq(l) = &n.v { Some(l.clone()) } else { None });
    same!("as_set", o.as_set().map(list), c.as_set().map(list), if let V::Set(l) = &n.v { Some(l.clone()) } else { None });
    let slice = match &n.v {
        V::Int(s) | V::Bits(_, s) | V::Oct(s) | V::Str(_, s) | V::Bmp(s) | V::Univ(s) | V::Unk(_, _, _, _, s) => Some(*s),
        _ => None,
    };
    same!("as_slice", o.as_slice().map(|x| b.s(x)), c.as_slice().map(|x| b.s(x)), slice);
    same!("as_str", o.as_str().map(|x| b.s(x.as_bytes())), c.as_str().map(|x| b.s(x.as_bytes())), if let V::Str(_, s) = n.v { Some(s) } else { None });
    let bs = slice.map(|s| bytes(&s).iter().map(|x| x.count_ones() as usize).sum::<usize>());
    if slice.is_none_or(|s| s.1 < 5000) {
        same!("as_bitslice", o.as_bitslice().map(|x| (x.len(), x.count_ones())), c.as_bitslice().map(|x| (x.len(), x.count_ones())), bs.map(|k| (slice.unwrap_or((0, 0)).1 * 8, k)));
    }
    // numbers exist for integers only (and unsigned ones for bit strings and enumerated values)
    let numeric = matches!(n.v, V::Int(_));
    let unsigned = numeric || matches!(n.v, V::Bits(..) | V::Enum(_));
    if !numeric && (o.as_i64().is_ok() || o.as_i32().is_ok() || c.as_i64().is_ok() || c.as_i32().is_ok() || o.as_bigint().is_ok() || o.as_biguint().is_ok()) {
        return Err(format!("a signed or big number read from something else ({origin}): {}", short(&n)));
    }
    if !unsigned && (o.as_u64().is_ok() || o.as_u32().is_ok() || c.as_u64().is_ok() || c.as_u32().is_ok()) {
        return Err(format!("an unsigned number read from something else ({origin}): {}", short(&n)));
    }
    if (o.as_u64().ok(), o.as_u32().ok(), o.as_i64().ok(), o.as_i32().ok()) != (c.as_u64().ok(), c.as_u32().ok(), c.as_i64().ok(), c.as_i32().ok()) {
        return Err("the number accessors of object and contents differ".into());
    }
    if let V::Int(s) = &n.v {
        let x = bytes(s);
        if x.len() <= 9 && !x.is_empty() {
            let v = x.iter().fold(if x[0] >= 0x80 { -1i128 } else { 0 }, |a, d| a << 8 | *d as i128);
            let check = |got: Option<i128>, lo: i128, hi: i128, name: &str| {
                let fits = v >= lo && v <= hi;
                match got {
                    Some(g) if g == v && fits => Ok(()),
                    None if !fits => Ok(()),
                    // sign octets beyond the width
                    None if v < 0 && x.len() as i128 > 128 => Ok(()),
                    None if v < 0 && (x.len() > 8 || name.ends_with("32") && x.len() > 4) => Ok(()),
                    g => Err(format!("{name} ({origin}) of the integer {v}: {g:?}")),
                }
            };
            check(o.as_i64().ok().map(i128::from), i64::MIN as i128, i64::MAX as i128, "as_i64")?;
            check(o.as_i32().ok().map(i128::from), i32::MIN as i128, i32::MAX as i128, "as_i32")?;
            check(o.as_u64().ok().map(i128::from), 0, u64::MAX as i128, "as_u64")?;
            check(o.as_u32().ok().map(i128::from), 0, u32::MAX as i128, "as_u32")?;
            if o.as_bigint() != Ok(BigInt::from(v)) {
                return Err(format!("as_bigint ({origin}) of {v}: {:?}", o.as_bigint()));
            }
            if o.as_biguint().ok() != u128::try_from(v).ok().map(BigUint::from) {
                return Err(format!("as_biguint ({origin}) of {v}: {:?}", o.as_biguint()));
            }
        }
    }
    if let V::Enum(e) = n.v {
        if o.as_u64() != Ok(e) || o.as_u32().ok() != u32::try_from(e).ok() {
            return Err(format!("number of the enumerated value {e}: {:?} {:?}", o.as_u64(), o.as_u32()));
        }
    }
    // header views
    let h = &n.h;
    if (o.class() as u8, o.tag().0, len(o.length())) != (h.class, h.tag, h.len)
        || (o.is_universal(), o.is_application(), o.is_contextspecific(), o.is_private()) != (h.class == 0, h.class == 1, h.class == 2, h.class == 3)
        || (o.is_constructed(), o.is_primitive()) != (h.cons, !h.cons)
        || (o.assert_constructed().is_ok(), o.assert_primitive().is_ok()) != (h.cons, !h.cons)
    {
        return Err(format!("the header views ({origin}) of {h:?} differ from the header"));
    }
    for k in 0..4u8 {
        if o.assert_class(class(k)).is_ok() != (k == h.class) {
            return Err(format!("assert_class({k}) ({origin}) on {h:?}"));
        }
    }
    for t in [h.tag, h.tag ^ 1, h.tag.wrapping_add(32), h.tag ^ 0x100, h.tag ^ 0x8000_0000, 0] {
        if o.assert_tag(Tag(t)).is_ok() != (t == h.tag) {
            return Err(format!("assert_tag({t}) ({origin}) on {h:?}"));
        }
    }
    if let BerObjectContent::BitString(_, x) = c {
        if x.as_ref() != x.data {
            return Err("as_ref of a bit string is not its data".into());
        }
    }
    Ok(())
}
fn construct(o: &BerObject<'static>, b: Base, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let v = b.v(&o.content);
    let tag = value_tag(&v);
    let plain = N { h: H { class: 0, cons: tag == 16 || tag == 17, tag, len: Some(0), raw: None }, v: v.clone() };
    let mut built = vec![("from_obj", BerObject::from_obj(o.content.clone())), ("From<BerObjectContent>", o.content.clone().into())];
    match &o.content {
        BerObjectContent::Sequence(l) => built.push(("from_seq", BerObject::from_seq(l.clone()))),
        BerObjectContent::Set(l) => built.push(("from_set", BerObject::from_set(l.clone()))),
        BerObjectContent::Integer(s) => built.push(("from_int_slice", BerObject::from_int_slice(s))),
        BerObjectContent::OID(x) => built.push(("From<Oid>", x.clone().into())),
        _ => (),
    }
    for (name, x) in built {
        let n = b.n(&x);
        if n != plain {
            return Err(format!("{name}: built {} instead of {}", short(&n), short(&plain)));
        }
        st.add("constructed", 1);
    }
    let hd = Header::new(class(r.byte()), r.chance(1, 2), Tag(rand_tag(r)), if r.chance(1, 4) { Length::Indefinite } else { Length::Definite(r.u64() as usize) });
    let x = BerObject::from_header_and_content(hd.clone(), o.content.clone());
    if b.n(&x) != (N { h: b.h(&hd), v: v.clone() }) {
        return Err("from_header_and_content: header or contents changed".into());
    }
    let raw: &'static [u8] = unsafe { &*(&b.0[..r.below(b.0.len().min(9) + 1)] as *const [u8]) };
    let with = o.clone().set_raw_tag(Some(raw));
    let mut want = b.n(o);
    want.h.raw = Some(b.s(raw));
    if b.n(&with) != want {
        return Err("set_raw_tag changed something else, or not the identifier octets".into());
    }
    let without = with.set_raw_tag(None);
    want.h.raw = None;
    if b.n(&without) != want {
        return Err("set_raw_tag(None) does not only remove the identifier octets".into());
    }
    Ok(())
}
pub struct C23;
impl Check for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "objects of every origin, and all objects nested in them, are iterated by value and reference in every way, indexed in and out of range, asked through every accessor, rebuilt through every constructor and compared; each answer is compared with an independent snapshot; non-trivial: every object"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        fixed_cases(emit);
        for n in [0usize, 1, 2, 3, 15, 16, 17, 127, 128, 255, 256, 257, 1023, 1024, 4096, 65535, 65536, 65537] {
            for t in [16u32, 17] {
                let mut c = vec![];
                for k in 0..n {
                    if n < 5000 {
                        c.extend([2, 2, (k >> 8) as u8, k as u8]);
                    } else {
                        c.extend([5, 0]);
                    }
                }
                emit(Case::new(model::tlv(0, true, t, &c), n as u64));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        any_case(g)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = Rng::new(c.param ^ 0x23);
        let objs = objects(c);
        for (origin, o, buf) in &objs {
            let b = Base(buf);
            let before = b.n(o);
            st.nontrivial();
            st.distinct("value_kinds_by_origin", hash64(&[origin.as_bytes(), format!("{:?}", std::mem::discriminant(&before.v)).as_bytes()]));
            let mut todo = vec![o];
            let mut left = 300;
            while let Some(x) = todo.pop() {
                iterate(x, b, origin, &mut r, st)?;
                accessors(x, b, origin, st)?;
                construct(x, b, &mut r, st)?;
                match &x.content {
                    BerObjectContent::Sequence(l) | BerObjectContent::Set(l) => todo.extend(l.iter().take(60)),
                    BerObjectContent::Tagged(_, _, y) => todo.push(y),
                    BerObjectContent::Optional(Some(y)) => todo.push(y),
                    _ => (),
                }
                left -= 1;
                if left == 0 || model::count(&before) > 20_000 {
                    break;
                }
            }
            if b.n(o) != before || *o != o.clone() {
                return Err(format!("the object changed or is not equal to its clone ({origin})"));
            }
            for (_, o2, buf2) in &objs {
                let n2 = Base(buf2).n(o2);
                if (*o == *o2) != deep_eq(buf, &before, buf2, &n2) && !raw_matters(&before, &n2) {
                    return Err(format!("equality of {} and {} is {}", short(&before), short(&n2), *o == *o2));
                }
                st.add("equalities", 1);
            }
            // one change anywhere makes it another object
            let mut o2 = Box::new(o.clone());
            let mut m = MutLog { base: b, ev: vec![], change: true };
            m.run(ext_mut(&mut o2));
            let n2 = b.n(&o2);
            if (*o == *o2) != deep_eq(buf, &before, buf, &n2) {
                return Err(format!("equality of {} and its changed copy {} is {}", short(&before), short(&n2), *o == *o2));
            }
        }
        // an object identifier built from other octets
        let own = Oid::new(Cow::Owned(c.input.clone()));
        let x = BerObject::from(own);
        match x.as_oid() {
            Ok(y) if y.as_bytes() == c.input => (),
            y => return Err(format!("From<Oid> of owned octets: {y:?}")),
        }
        if BerObjectContent::Null.as_slice() != Err(BerError::BerTypeError) {
            return Err("as_slice of NULL".into());
        }
        Ok(())
    }
}
/// both know their identifier octets, and these may differ although the tags are equal
fn raw_matters(a: &N, b: &N) -> bool {
    fn any(n: &N) -> bool {
        n.h.raw.is_some()
            || match &n.v {
                V::Seq(l) | V::Set(l) => l.iter().any(any),
                V::Opt(Some(x)) | V::Tagged(_, _, x) => any(x),
                _ => false,
            }
    }
    any(a) && any(b) && a.h.tag == b.h.tag
}
