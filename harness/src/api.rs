//! Every way of parsing one element, with its model.
use crate::model::{self, *};
use crate::rng::Rng;
use crate::snap::*;
use der_parser::ber::*;
use der_parser::der::*;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Gen(bool),
    Rec(bool, usize),
    Tag(bool, u32),
    Typed(bool, usize),
    Int(bool, u8, bool),
    Slice(bool, u32),
    Hdr(bool),
    /// header, then content as the header's tag, with a depth limit
    TwoStep(bool, usize),
    /// header, then der_read_element_content
    DerContent,
    AnyR(usize),
    AnyTagR(u32, usize),
    /// BerObject::try_from(Any) of what parse_ber_any reads
    FromAny(bool),
    Any,
    /// content (forms 1 and 2) parsers
    Content(bool, u8, u32, usize),
    /// content parsers given a hand-made header: (der, form, tag, length, constructed, depth)
    Made(bool, u8, u32, Option<usize>, bool, usize),
}
impl P {
    pub fn der(&self) -> bool {
        match self {
            P::Gen(d) | P::Rec(d, _) | P::Tag(d, _) | P::Typed(d, _) | P::Int(d, _, _) | P::Slice(d, _) | P::Hdr(d) | P::TwoStep(d, _) | P::Content(d, ..) | P::Made(d, ..) => *d,
            P::DerContent => true,
            _ => false,
        }
    }
    /// the same entry point of the BER family
    pub fn to_ber(&self) -> Option<P> {
        Some(match self.clone() {
            P::Gen(_) => P::Gen(false),
            P::Rec(_, n) => P::Rec(false, n),
            P::Tag(_, t) => P::Tag(false, t),
            P::Typed(_, t) => P::Typed(false, t),
            P::Int(_, a, b) => P::Int(false, a, b),
            P::Slice(_, t) => P::Slice(false, t),
            P::Hdr(_) => P::Hdr(false),
            P::TwoStep(_, n) => P::TwoStep(false, n),
            P::Content(_, a, b, c) => P::Content(false, a, b, c),
            P::Made(_, a, b, c, d, e) => P::Made(false, a, b, c, d, e),
            P::DerContent => P::Gen(false),
            _ => return None,
        })
    }
}
pub fn run(p: &P, i: &[u8]) -> Out {
    let b = Base(i);
    match p {
        P::Gen(false) => out_obj(i, der_parser::parse_ber(i)),
        P::Gen(true) => out_obj(i, der_parser::parse_der(i)),
        P::Rec(false, d) => out_obj(i, parse_ber_recursive(i, *d)),
        P::Rec(true, d) => out_obj(i, parse_der_recursive(i, *d)),
        P::Tag(d, t) => out_obj(i, sut::with_tag(*d, i, *t)),
        P::Typed(false, k) => out_obj(i, sut::typed()[*k].1(i)),
        P::Typed(true, k) => out_obj(i, sut::typed()[*k].2(i)),
        P::Int(d, w, s) => out(i, sut::int(*d, *w, *s, i), |x| OV::Int(*x)),
        P::Slice(d, t) => out(i, sut::slice(*d, i, *t), |x| OV::Sl(b.s(x))),
        P::Hdr(false) => out(i, ber_read_element_header(i), |x| OV::Hdr(b.h(x))),
        P::Hdr(true) => out(i, der_read_element_header(i), |x| OV::Hdr(b.h(x))),
        P::TwoStep(false, d) => out_obj(
            i,
            ber_read_element_header(i).and_then(|(r, h)| {
                let (r, c) = ber_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), *d)?;
                Ok((r, BerObject::from_header_and_content(h, c)))
            }),
        ),
        P::TwoStep(true, d) => out_obj(
            i,
            der_read_element_header(i).and_then(|(r, h)| {
                let (r, c) = der_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), *d)?;
                Ok((r, BerObject::from_header_and_content(h, c)))
            }),
        ),
        P::DerContent => out_obj(i, der_read_element_header(i).and_then(|(r, h)| der_read_element_content(r, h))),
        P::AnyR(d) => out_obj(i, parse_ber_any_r(i, *d)),
        P::AnyTagR(t, d) => out_obj(i, parse_ber_any_with_tag_r(i, Tag(*t), *d)),
        P::Any => out(i, parse_ber_any(i), |a| OV::Obj(N { h: b.h(&a.header), v: b.unk(a) })),
        P::FromAny(by_ref) => out_obj(
            i,
            parse_ber_any(i).and_then(|(r, a)| {
                let o = if *by_ref { BerObject::try_from(&a) } else { BerObject::try_from(a) };
                Ok((r, o?))
            }),
        ),
        P::Content(d, form, t, depth) => {
            let hd = if *d { der_read_element_header(i) } else { ber_read_element_header(i) };
            out(
                i,
                hd.and_then(|(r, h)| if *form == 1 { sut::content(*d, r, *t, &h, *depth) } else { sut::content2(*d, r, *t, h, *depth) }),
                |c| OV::Val(b.v(c)),
            )
        }
        P::Made(d, form, t, l, cons, depth) => {
            let l = l.map_or(Length::Indefinite, Length::Definite);
            let h = Header::new(Class::ContextSpecific, *cons, Tag(t ^ 1), l);
            let r = match form {
                1 => sut::content(*d, i, *t, &h, *depth),
                2 => sut::content2(*d, i, *t, h, *depth),
                _ if *d => der_read_element_content_as(i, Tag(*t), l, *cons, *depth),
                _ => ber_read_element_content_as(i, Tag(*t), l, *cons, *depth),
            };
            out(i, r, |c| OV::Val(b.v(c)))
        }
    }
}
fn obj(r: R<(N, usize)>) -> R<(OV, usize)> {
    r.map(|(n, p)| (OV::Obj(n), p))
}
/// value of an INTEGER's contents if it fits in 128 bits
pub fn int_value(b: &[u8]) -> Option<i128> {
    let neg = b.first().is_some_and(|x| x & 0x80 != 0);
    let mut t = b;
    while t.len() > 16 {
        if t[0] != if neg { 0xff } else { 0 } || (t[1] & 0x80 != 0) != neg {
            return None;
        }
        t = &t[1..];
    }
    let mut v: i128 = if neg { -1 } else { 0 };
    for &x in t {
        v = (v << 8) | x as i128;
    }
    Some(v)
}
pub fn expect(p: &P, i: &[u8]) -> R<(OV, usize)> {
    let n = i.len();
    match p {
        P::Gen(false) => obj(model::ber(i, MAXREC)),
        P::Gen(true) | P::DerContent => obj(model::der(i, MAXREC)),
        P::Rec(false, d) | P::AnyR(d) => obj(model::ber(i, *d)),
        P::Rec(true, d) => obj(model::der(i, *d)),
        P::Tag(false, t) => obj(model::ber_with_tag(i, *t)),
        P::Tag(true, t) => obj(model::der_with_tag(i, *t)),
        P::Typed(false, k) => obj(model::ber_with_tag(i, sut::typed()[*k].0)),
        P::Typed(true, k) => obj(model::der_with_tag(i, sut::typed()[*k].0)),
        P::Hdr(d) => model::header(i, 0, n, *d).map(|(h, p)| (OV::Hdr(h), p)),
        P::Slice(d, t) => {
            let (h, p) = model::header(i, 0, n, *d)?;
            let (c, e) = model::content(i, p, n, &h, MAXREC).map_err(|e| match e {
                // the container forms use complete parsers for definite lengths
                E::Inc if h.len.is_some() => E::Err(K::Other),
                e => e,
            })?;
            if h.tag != *t {
                return Err(E::Err(K::Tag));
            }
            Ok((OV::Sl(sl(c.0, c.1)), e))
        }
        P::Int(d, w, s) => {
            let (h, p) = model::header(i, 0, n, *d)?;
            let (c, e) = model::content(i, p, n, &h, MAXREC)?;
            if h.tag != 2 {
                return Err(E::Err(K::Tag));
            }
            if h.cons {
                return Err(E::Err(K::Other));
            }
            let b = &i[c.0..c.0 + c.1];
            if *d {
                model::der_content_as(i, p, n, 2, h.len, false, 1)?;
            }
            let neg = b.first().is_some_and(|x| x & 0x80 != 0);
            if neg && !*s {
                return Err(E::Err(K::Negative));
            }
            let v = int_value(b).ok_or(E::Err(K::TooLarge))?;
            let (lo, hi) = int_range(*w, *s);
            if v < lo || v > hi {
                return Err(E::Err(K::TooLarge));
            }
            Ok((OV::Int(v), e))
        }
        P::TwoStep(d, depth) => {
            let (h, p) = model::header(i, 0, n, *d)?;
            let (v, e) = if *d { model::der_content_as(i, p, n, h.tag, h.len, h.cons, *depth)? } else { model::ber_content_as(i, p, n, h.tag, h.len, h.cons, *depth)? };
            Ok((OV::Obj(N { h, v }), e))
        }
        P::Content(d, _, t, depth) => {
            let (h, p) = model::header(i, 0, n, *d)?;
            let (v, e) = if *d { model::der_content_as(i, p, n, *t, h.len, h.cons, *depth)? } else { model::ber_content_as(i, p, n, *t, h.len, h.cons, *depth)? };
            Ok((OV::Val(v), e))
        }
        P::Made(d, _, t, l, cons, depth) => {
            let (v, e) = if *d { model::der_content_as(i, 0, n, *t, *l, *cons, *depth)? } else { model::ber_content_as(i, 0, n, *t, *l, *cons, *depth)? };
            Ok((OV::Val(v), e))
        }
        P::AnyTagR(t, d) => {
            if *d == 0 {
                return Err(E::Err(K::MaxDepth));
            }
            let (h, p) = model::header(i, 0, n, false)?;
            let (c, e) = model::content(i, p, n, &h, MAXREC)?;
            if h.tag != *t {
                return Err(E::Err(K::Tag));
            }
            let v = model::value(i, &h, c, *d)?;
            Ok((OV::Obj(N { h, v }), e))
        }
        P::Any => {
            let (h, p) = model::header(i, 0, n, false)?;
            let (c, e) = model::content(i, p, n, &h, MAXREC)?;
            let v = V::Unk(h.class, h.cons, h.tag, h.len, sl(c.0, c.1));
            Ok((OV::Obj(N { h, v }), e))
        }
        P::FromAny(_) => {
            let (h, p) = model::header(i, 0, n, false)?;
            let (c, e) = model::content(i, p, n, &h, MAXREC)?;
            // contents read as the universal type, whatever the class
            let (v, _) = model::ber_content_as(i, c.0, c.0 + c.1, h.tag, Some(c.1), h.cons, MAXREC)?;
            Ok((OV::Obj(N { h, v }), e))
        }
    }
}
pub fn int_range(w: u8, s: bool) -> (i128, i128) {
    match (w, s) {
        (32, true) => (i32::MIN as i128, i32::MAX as i128),
        (32, false) => (0, u32::MAX as i128),
        (_, true) => (i64::MIN as i128, i64::MAX as i128),
        (_, false) => (0, u64::MAX as i128),
    }
}
/// A negative number written with more sign octets than the target type has octets may also be
/// refused as too large.
pub fn int_tolerated(i: &[u8], p: &P, o: &Out) -> bool {
    if let (P::Int(d, w, true), Out::Err(k, _)) = (p, o) {
        if k == "IntegerTooLarge" {
            if let Ok((h, pos)) = model::header(i, 0, i.len(), *d) {
                if let Some(l) = h.len {
                    return l > *w as usize / 8 && i.get(pos).is_some_and(|x| *x == 0xff);
                }
            }
        }
    }
    false
}
/// Compare an entry point with the model
pub fn check(p: &P, i: &[u8]) -> Result<Out, String> {
    let o = run(p, i);
    let m = expect(p, i);
    if let Err(e) = agree(&o, &m) {
        if !int_tolerated(i, p, &o) {
            return Err(format!("{p:?}: {e}"));
        }
    }
    Ok(o)
}
/// An entry point that makes sense for this input, or any
pub fn pick(r: &mut Rng, i: &[u8], der: Option<bool>) -> P {
    let d = der.unwrap_or_else(|| r.chance(1, 2));
    let tag = match model::header(i, 0, i.len(), false) {
        Ok((h, _)) => h.tag,
        Err(_) => (i.first().copied().unwrap_or(0) & 0x1f) as u32,
    };
    let t = if r.chance(7, 8) { tag } else { r.below(40) as u32 };
    let depth = match r.below(4) {
        0 => MAXREC,
        1 => r.below(6),
        2 => r.below(60),
        _ => MAXREC + 1,
    };
    loop {
        let p = match r.below(16) {
            0 | 1 => P::Gen(d),
            2 => P::Rec(d, depth),
            3 => P::Tag(d, t),
            4 | 5 => match sut::typed().iter().position(|x| x.0 == t) {
                Some(k) => P::Typed(d, k),
                None => continue,
            },
            6 => P::Int(d, *r.pick(&[32, 64]), r.chance(1, 2)),
            7 => P::Slice(d, t),
            8 => P::Hdr(d),
            9 => P::TwoStep(d, depth),
            10 => P::DerContent,
            11 => P::AnyR(depth),
            12 => P::AnyTagR(t, depth),
            13 => P::FromAny(r.chance(1, 2)),
            14 => P::Any,
            _ => P::Content(d, r.range(1, 2) as u8, t, depth),
        };
        if der.is_some_and(|x| x != p.der()) {
            continue;
        }
        return p;
    }
}
/// A content parser with a hand-made header: the input is (the start of) the contents
pub fn pick_made(r: &mut Rng, i: &[u8], d: bool) -> P {
    let t = match r.below(4) {
        0 => *r.pick(&[16, 17]),
        1 => r.below(31) as u32,
        2 => *r.pick(&[1, 2, 3, 4, 5, 6, 10, 12, 30, 28]),
        _ => *r.pick(&[0, 11, 14, 15, 29, 31, 36, 127, 128, 16383, u32::MAX]),
    };
    let l = match r.below(6) {
        0 | 1 => None,
        2 | 3 => Some(i.len()),
        4 => Some(r.below(i.len() + 3)),
        _ => Some(*r.pick(&[0, 1, i.len() + 1, 0xffff_ffff, 0x1_0000_0000, usize::MAX, usize::MAX - 1, isize::MAX as usize])),
    };
    let depth = *r.pick(&[0, 1, 2, 3, MAXREC, MAXREC, usize::MAX]);
    P::Made(d, r.below(3) as u8, t, l, r.chance(1, 2), depth)
}
/// All entry points that apply to an element with this tag
pub fn all_for(tag: u32, der: bool) -> Vec<P> {
    let mut v = vec![P::Gen(der), P::Rec(der, MAXREC), P::Tag(der, tag), P::Hdr(der), P::TwoStep(der, MAXREC), P::Slice(der, tag), P::Content(der, 1, tag, MAXREC), P::Content(der, 2, tag, MAXREC)];
    if let Some(k) = sut::typed().iter().position(|x| x.0 == tag) {
        v.push(P::Typed(der, k));
    }
    if tag == 2 {
        for w in [32, 64] {
            v.push(P::Int(der, w, true));
            v.push(P::Int(der, w, false));
        }
    }
    if der {
        v.push(P::DerContent);
    } else {
        v.extend([P::AnyR(MAXREC), P::AnyTagR(tag, MAXREC), P::FromAny(false), P::FromAny(true), P::Any]);
    }
    v
}

/// Combinators around the library's own parsers
#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    /// sequence_of / set_of of any element
    ListOf(bool, bool),
    ListOfV(bool, bool),
    Defined(bool, bool),
    Explicit(bool, u32),
    Implicit(bool, u32, u32),
    ImplicitG(bool, u32, u32),
    ImplicitFn(bool, u32, u32),
    ExplicitOpt(bool, u32),
    Optional(bool),
    OptTag(bool, u32),
}
impl Q {
    pub fn to_ber(&self) -> Q {
        match self.clone() {
            Q::ListOf(_, k) => Q::ListOf(false, k),
            Q::ListOfV(_, k) => Q::ListOfV(false, k),
            Q::Defined(_, k) => Q::Defined(false, k),
            Q::Explicit(_, t) => Q::Explicit(false, t),
            Q::Implicit(_, t, i) => Q::Implicit(false, t, i),
            Q::ImplicitG(_, t, i) => Q::ImplicitG(false, t, i),
            Q::ImplicitFn(_, t, i) => Q::ImplicitFn(false, t, i),
            Q::ExplicitOpt(_, t) => Q::ExplicitOpt(false, t),
            Q::Optional(_) => Q::Optional(false),
            Q::OptTag(_, t) => Q::OptTag(false, t),
        }
    }
}
fn kind(set: bool) -> sut::Kind {
    if set {
        sut::Kind::Set
    } else {
        sut::Kind::Seq
    }
}
fn gen_parser(der: bool) -> for<'a> fn(&'a [u8]) -> der_parser::error::BerResult<'a> {
    if der {
        der_parser::parse_der
    } else {
        der_parser::parse_ber
    }
}
pub fn run_q(q: &Q, i: &[u8]) -> Out {
    let b = Base(i);
    match q {
        Q::ListOf(d, s) => out_obj(i, sut::list_of(*d, kind(*s), i, &|x| gen_parser(*d)(x))),
        Q::ListOfV(d, s) => out(i, sut::list_of_vobj(*d, kind(*s), i, &mut |x| gen_parser(*d)(x)), |l| OV::List(l.iter().map(|o| b.n(o)).collect())),
        Q::Defined(d, s) => out_obj(
            i,
            sut::defined(*d, kind(*s), i, &mut |x| {
                let mut v = vec![];
                let mut x = x;
                while !x.is_empty() && v.len() < 3 {
                    let (r, o) = gen_parser(*d)(x)?;
                    v.push(o);
                    x = r;
                }
                Ok((x, v))
            }),
        ),
        Q::Explicit(d, t) => out_obj(i, sut::explicit(*d, *t, i, &|x| gen_parser(*d)(x))),
        Q::Implicit(d, t, k) => out_obj(i, sut::implicit_content(*d, *t, *k, i)),
        Q::ImplicitG(d, t, k) => out(i, sut::implicit_content2(*d, *t, *k, i), |c| OV::Val(b.v(c))),
        Q::ImplicitFn(d, t, k) => out_obj(i, sut::implicit_fn(*d, *t, i, &|x, h, n| sut::content(*d, x, *k, h, n))),
        Q::ExplicitOpt(d, t) => out_obj(i, sut::explicit_optional(*d, *t, i, &|x| gen_parser(*d)(x))),
        Q::Optional(d) => out_obj(i, sut::optional(i, &mut |x| gen_parser(*d)(x))),
        Q::OptTag(d, t) => out_obj(i, sut::optional(i, &mut |x| sut::with_tag(*d, x, *t))),
    }
}
pub fn pick_q(r: &mut Rng, i: &[u8], der: bool) -> Q {
    let (tag, t0) = match model::header(i, 0, i.len(), false) {
        Ok((h, p)) => (h.tag, i.get(p).map_or(4, |x| (x & 0x1f) as u32)),
        Err(_) => ((i.first().copied().unwrap_or(0) & 0x1f) as u32, 2),
    };
    let t = if r.chance(7, 8) { tag } else { r.below(40) as u32 };
    let s = if r.chance(7, 8) { t == 17 } else { r.chance(1, 2) };
    let inner = if r.chance(1, 3) { t0 } else { r.below(31) as u32 };
    match r.below(10) {
        0 => Q::ListOf(der, s),
        1 => Q::ListOfV(der, s),
        2 => Q::Defined(der, s),
        3 => Q::Explicit(der, t),
        4 => Q::Implicit(der, t, inner),
        5 => Q::ImplicitG(der, t, inner),
        6 => Q::ImplicitFn(der, t, inner),
        7 => Q::ExplicitOpt(der, t),
        8 => Q::Optional(der),
        _ => Q::OptTag(der, t),
    }
}
/// Model of a combinator around the library's parsers. Only Ok and not Ok are meant.
pub fn expect_q(q: &Q, i: &[u8]) -> R<(OV, usize)> {
    let n = i.len();
    let cont = |d: bool, tag: Option<u32>| -> R<(H, S, usize)> {
        let (h, p) = model::header(i, 0, n, d)?;
        let (c, e) = model::content(i, p, n, &h, MAXREC)?;
        if tag.is_some_and(|t| t != h.tag) {
            return Err(E::Err(K::Tag));
        }
        Ok((h, c, e))
    };
    let item = |d: bool, p: usize, e: usize| if d { model::der_at(i, p, e, MAXREC) } else { model::ber_at(i, p, e, MAXREC) };
    let bare = |t: u32, cons: bool| H { class: 0, cons, tag: t, len: Some(0), raw: None };
    match q {
        Q::ListOf(d, s) | Q::ListOfV(d, s) | Q::Defined(d, s) => {
            let (_, c, e) = cont(*d, Some(if *s { 17 } else { 16 }))?;
            let mut v = vec![];
            let mut p = c.0;
            while p < c.0 + c.1 && !(matches!(q, Q::Defined(..)) && v.len() == 3) {
                let (o, p2) = item(*d, p, c.0 + c.1)?;
                v.push(o);
                p = p2;
            }
            if matches!(q, Q::ListOfV(..)) {
                return Ok((OV::List(v), e));
            }
            let h = bare(if *s { 17 } else { 16 }, true);
            Ok((OV::Obj(N { h, v: if *s { V::Set(v) } else { V::Seq(v) } }), e))
        }
        Q::Explicit(d, t) => {
            let (h, c, e) = cont(*d, Some(*t))?;
            if h.class == 0 || !h.cons {
                return Err(E::Err(K::Other));
            }
            let (o, _) = item(*d, c.0, c.0 + c.1)?;
            Ok((OV::Obj(N { v: V::Tagged(h.class, h.tag, Box::new(o)), h }), e))
        }
        Q::Implicit(d, t, k) | Q::ImplicitG(d, t, k) | Q::ImplicitFn(d, t, k) => {
            let (h, c, e) = cont(*d, Some(*t))?;
            let (v, _) = if *d { model::der_content_as(i, c.0, c.0 + c.1, *k, Some(c.1), h.cons, MAXREC)? } else { model::ber_content_as(i, c.0, c.0 + c.1, *k, Some(c.1), h.cons, MAXREC)? };
            Ok((if matches!(q, Q::ImplicitG(..)) { OV::Val(v) } else { OV::Obj(N { h, v }) }, e))
        }
        Q::ExplicitOpt(d, t) => Ok(match expect_q(&Q::Explicit(*d, *t), i) {
            Ok((OV::Obj(o), e)) => (OV::Obj(N { h: o.h.clone(), v: V::Opt(Some(Box::new(o))) }), e),
            _ => (OV::Obj(N { h: bare(0, false), v: V::Opt(None) }), 0),
        }),
        Q::Optional(d) => opt(if *d { model::der(i, MAXREC) } else { model::ber(i, MAXREC) }),
        Q::OptTag(d, t) => opt(if *d { model::der_with_tag(i, *t) } else { model::ber_with_tag(i, *t) }),
    }
}
fn opt(r: R<(N, usize)>) -> R<(OV, usize)> {
    Ok(match r {
        Ok((o, e)) => (OV::Obj(N { h: o.h.clone(), v: V::Opt(Some(Box::new(o))) }), e),
        Err(_) => (OV::Obj(N { h: H { class: 0, cons: false, tag: 0, len: Some(0), raw: None }, v: V::Opt(None) }), 0),
    })
}
pub fn check_q(q: &Q, i: &[u8]) -> Result<Out, String> {
    let o = run_q(q, i);
    let m = expect_q(q, i);
    agree(&o, &m).map_err(|e| format!("{q:?}: {e}"))?;
    Ok(o)
}
