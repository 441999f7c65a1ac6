//! C01-C08: parsing
use super::util::*;
use crate::api::{self, P, Q};
use crate::gen::*;
use crate::model::{self, *};
use crate::rt::*;
use crate::snap::*;
use der_parser::ber::*;

/// every entry point, for crash hunting
fn everything(i: &'static [u8], r: &mut Rng, st: &mut Stats) {
    let tag = match model::header(i, 0, i.len(), false) {
        Ok((h, _)) => h.tag,
        Err(_) => (i.first().copied().unwrap_or(0) & 0x1f) as u32,
    };
    let small = i.len() < 600;
    for der in [false, true] {
        let mut ps = api::all_for(tag, der);
        if small {
            for k in 0..sut::typed().len() {
                ps.push(P::Typed(der, k));
            }
            for t in [1u32, 2, 3, 4, 10, 16, 17, 23, 24, 28, 30, 31, 40] {
                ps.push(P::Content(der, r.range(1, 2) as u8, t, 50));
            }
            ps.push(P::Rec(der, usize::MAX));
            ps.push(P::TwoStep(der, usize::MAX));
        }
        for d in [0usize, 1, 2, 3, r.below(60)] {
            ps.push(P::Rec(der, d));
            ps.push(P::TwoStep(der, d));
            ps.push(P::Content(der, 1, tag, d));
        }
        if !der {
            ps.push(P::AnyR(r.below(5)));
            ps.push(P::AnyTagR(tag, r.below(5)));
        }
        for p in ps {
            let o = api::run(&p, i);
            st.add("parses", 1);
            if o.ok() {
                st.add("accepted", 1);
            }
        }
        for _ in 0..if small { 14 } else { 4 } {
            let q = api::pick_q(r, i, der);
            api::run_q(&q, i);
            st.add("combinator_parses", 1);
        }
        // contents with a header that does not belong to them
        let h = Header::new(class(r.byte()), r.chance(1, 2), Tag(r.below(40) as u32), if r.chance(1, 6) { Length::Indefinite } else { Length::Definite(match r.below(4) { 0 => i.len(), 1 => r.u64() as usize, _ => r.below(i.len() + 3) }) });
        for t in [tag, r.below(32) as u32, 2, 3, 30, 16] {
            let _ = sut::content(der, i, t, &h, r.below(60));
            let _ = sut::content2(der, i, t, h.clone(), r.below(60));
        }
        let _ = der_parser::der::der_read_element_content(i, h.clone());
        let _ = der_parser::der::der_read_element_content_as(i, h.tag(), h.length(), h.is_constructed(), r.below(60));
        let _ = ber_read_element_content_as(i, h.tag(), h.length(), h.is_constructed(), r.below(60));
        let any = der_parser::asn1_rs::Any::new(h.clone(), i);
        let _ = BerObject::try_from(&any);
        let _ = BerObject::try_from(any);
    }
    let _ = sut::deprecated_visiblestring(i);
}
pub struct C01;
impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "grammar-generated, mutated and random inputs are parsed through every entry point in a buffer that ends at an inaccessible page, and every operation is applied to the results and to hand-built objects, with overflow checks and a step limit; non-trivial: at least one parser accepted the input, or an object was hand-built"
    }
    fn big(&self, t: Tier) -> usize {
        if t == Tier::Quick { 140_100 } else { 300_000 }
    }
    fn fixed(&self, t: Tier, emit: &mut dyn FnMut(Case)) {
        emit(Case::new(vec![], 0));
        // short inputs, exhaustively up to two octets
        for a in 0..=255u8 {
            emit(Case::new(vec![a], a as u64));
        }
        let step = if t == Tier::Quick { 5 } else { 1 };
        for a in 0..=255u16 {
            for b in (0..=255u16).step_by(step) {
                emit(Case::new(vec![a as u8, (b + a % step as u16).min(255) as u8], 1));
            }
        }
        // every type with short contents
        for tag in 0..32u8 {
            for l in 0..3u8 {
                for x in [0u8, 1, 7, 8, 0x30, 0x5a, 0x7f, 0x80, 0xfe, 0xff] {
                    let mut v = vec![tag, l];
                    v.extend(vec![x; l as usize]);
                    emit(Case::new(v.clone(), 2));
                    v[0] |= 0x20;
                    emit(Case::new(v, 3));
                }
            }
        }
        // long runs of one octet, as an integer and in general
        for n in [1000usize, 70_000, if t == Tier::Quick { 300_000 } else { 1_000_000 }] {
            for x in [0u8, 0xff, 0x30, 0x24, 0x80, 0xa0, 0x1f] {
                emit(Case::new(model::tlv(0, false, 2, &vec![x; n]), 4));
                emit(Case::new(model::tlv(0, false, 3, &vec![x; n]), 4));
                emit(Case::new(model::tlv(0, true, 16, &vec![x; n]), 4));
                emit(Case::new(vec![x; n], 5));
            }
            let mut v = vec![];
            while v.len() < n {
                v.extend([0x30, 0x80]);
            }
            emit(Case::new(v, 6));
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        Case::new(g.input(), p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let mut r = c.rng();
        everything(i, &mut r, st);
        let mut objs: Vec<BerObject<'static>> = vec![];
        if let Ok((_, o)) = der_parser::parse_ber(i) {
            objs.push(o);
        }
        if let Ok((_, o)) = der_parser::parse_der(i) {
            objs.push(o);
        }
        if i.len() < 20_000 {
            if let Ok((h, _)) = model::header(i, 0, i.len(), false) {
                if let Ok((_, o)) = sut::explicit(false, h.tag, i, &|x| der_parser::parse_ber(x)) {
                    objs.push(o);
                }
                if let Ok((_, o)) = sut::explicit_optional(false, h.tag, i, &|x| der_parser::parse_ber(x)) {
                    objs.push(o);
                }
                if let Ok((_, o)) = sut::implicit_content(false, h.tag, r.below(31) as u32, i) {
                    objs.push(o);
                }
            }
        }
        if !objs.is_empty() {
            st.nontrivial();
        }
        for o in &objs {
            if i.len() < 20_000 || !matches!(o.content, BerObjectContent::Sequence(_) | BerObjectContent::Set(_)) || r.chance(1, 4) {
                exercise(o, i, &mut r);
                st.add("objects_exercised", 1);
            }
        }
        if i.len() < 4000 {
            let b = hand_buf(1, i);
            let h = Hand { parsable: false, optional: true, tagged: true, custom_header: true };
            for _ in 0..3 {
                let d = r.below(5);
                let o = hand(&mut r, b, d, &h);
                exercise(&o, b, &mut r);
                st.add("hand_built_exercised", 1);
                st.nontrivial();
            }
        }
        Ok(())
    }
}

fn rand_p(r: &mut Rng, i: &[u8]) -> P {
    api::pick(r, i, None)
}
/// could one more level around these make a difference?
fn nested(parts: &[(usize, usize, N)], indef: bool) -> bool {
    fn depth(n: &N) -> usize {
        match &n.v {
            V::Seq(l) | V::Set(l) => 1 + l.iter().map(depth).max().unwrap_or(0),
            // indefinite lengths inside are followed, too
            V::Unk(..) => 1 + (n.h.len.is_none()) as usize * 50,
            _ => 1 + (n.h.len.is_none()) as usize * 50,
        }
    }
    let d = parts.iter().map(|p| depth(&p.2)).max().unwrap_or(0);
    d + indef as usize > 30
}
pub struct C02;
impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "inputs are parsed through random entry points and combinators; consumed octets are compared with the extent of the first element computed by the reference framing, and the parse is repeated on the element alone and followed by other octets; concatenations are parsed to the end; non-trivial: a parser accepted"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        // every universal type, followed by every octet
        let mut g = Gen::plain(7);
        for &t in UNIV {
            for k in 0..24u64 {
                let o = if k % 2 == 0 { DER } else { BER };
                let mut v = if t == 16 || t == 17 {
                    let c = g.elem(Opt { depth: 2, ..o });
                    g.wrap(0, t, &c, Opt { indef: 50, ..o })
                } else {
                    let c = g.content(t, o);
                    g.tlv(0, false, t, &c, 30)
                };
                v.push((k * 11) as u8);
                emit(Case::new(v, k));
            }
        }
        // sizes around the changes of length form
        for n in [0usize, 1, 126, 127, 128, 129, 255, 256, 257, 65534, 65535, 65536, 65537] {
            for tag in [2u32, 4, 12, 30] {
                let mut v = model::tlv(0, false, tag, &vec![if tag == 30 { 0 } else { b'a' }; n]);
                v.extend([0, 0]);
                emit(Case::new(v, n as u64));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        if g.r.chance(1, 3) {
            let o = Opt { depth: 2, ..g.any_opt() };
            let mut v = vec![];
            for _ in 0..g.r.range(2, 8) {
                v.extend(g.elem(o));
            }
            return Case::new(v, p);
        }
        Case::new(g.input(), p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let mut r = c.rng();
        let frame = model::frame(i);
        let n = if i.len() > 50_000 { 3 } else { 8 };
        for _ in 0..n {
            let (name, f): (String, Box<dyn Fn(&[u8]) -> Out>) = if r.chance(2, 3) {
                let p = rand_p(&mut r, i);
                (format!("{p:?}"), Box::new(move |x| api::run(&p, x)))
            } else {
                let d = r.chance(1, 2);
                let q = api::pick_q(&mut r, i, d);
                (format!("{q:?}"), Box::new(move |x| api::run_q(&q, x)))
            };
            let o = f(i);
            st.add("parses", 1);
            let Out::Ok(cons, v) = &o else { continue };
            let absent = matches!(v, OV::Obj(N { v: V::Opt(None), .. }));
            let hdr = name.starts_with("Hdr");
            let e = if absent {
                0
            } else if hdr {
                match model::header(i, 0, i.len(), false) {
                    Ok((_, p)) => p,
                    Err(_) => continue,
                }
            } else {
                match frame {
                    Ok(e) => e,
                    Err(_) => return Err(format!("{name}: accepted, but no complete element is present: {}", o.short())),
                }
            };
            st.nontrivial();
            st.add("accepted", 1);
            if *cons != Some(e) {
                return Err(format!("{name}: consumed {cons:?}, the element is {e} octets"));
            }
            if absent {
                continue;
            }
            // alone and followed by something else
            let alone = place(1, &i[..e]);
            let o2 = f(alone);
            if o2 != o {
                return Err(format!("{name}: the octets after the element change the result: with them {} without {}", o.short(), o2.short()));
            }
            let mut w = i[..e].to_vec();
            let k = r.range(1, 9);
            let tail = match r.below(6) {
                0 => vec![0; 1 + r.below(6)],
                1 => i[..e.min(64)].to_vec(),
                2 => vec![*r.pick(&[0u8, 0x30, 0x80, 0xff, 0x1f, 0x05]); 1 + r.below(3)],
                _ => Gen::plain(r.u64()).bytes(k),
            };
            w.extend(&tail);
            let o3 = f(place(2, &w));
            if o3 != o {
                return Err(format!("{name}: followed by {} the result changes: {} / {}", hex(&tail), o.short(), o3.short()));
            }
            st.add("trailing_variants", 2);
        }
        // one after the other
        for der in [false, true] {
            let mut pos = 0;
            let mut k = 0;
            let mut parts: Vec<(usize, usize, N)> = vec![];
            while pos < i.len() && k < 40 {
                let rest = &i[pos..];
                let res = if der { der_parser::parse_der(rest) } else { der_parser::parse_ber(rest) };
                let Ok((rem, o)) = res else { break };
                let e = match model::frame(rest) {
                    Ok(e) => e,
                    Err(_) => return Err(format!("element {k} at {pos}: accepted, but not complete")),
                };
                if consumed(rest, rem) != Some(e) {
                    return Err(format!("element {k} at {pos}: remainder is not what follows the element ({:?} instead of {e})", consumed(rest, rem)));
                }
                let alone = place(3, &rest[..e]);
                let r2 = if der { der_parser::parse_der(alone) } else { der_parser::parse_ber(alone) };
                match r2 {
                    Ok((rm, o2)) if rm.is_empty() && Base(alone).n(&o2) == Base(rest).n(&o) => parts.push((pos, e, Base(alone).n(&o2))),
                    _ => return Err(format!("element {k} at {pos} parsed in a concatenation and alone differ")),
                }
                pos += e;
                k += 1;
                st.add("concatenated", 1);
            }
            st.max("elements_in_a_row", k);
            // the same elements inside another one
            let eoc = parts.iter().any(|(_, _, n)| n.h.class == 0 && n.h.tag == 0);
            let tag = *r.pick(&[16u32, 17]);
            let whole = if !der && !eoc && r.chance(1, 2) {
                [&[0x20 | tag as u8, 0x80], &i[..pos], &[0, 0]].concat()
            } else {
                model::tlv(0, true, tag, &i[..pos])
            };
            let w = place(3, &whole);
            let Ok((h, at)) = model::header(w, 0, w.len(), false) else { continue };
            let res = if der { der_parser::parse_der(w) } else { der_parser::parse_ber(w) };
            let items = match res {
                Ok((rem, BerObject { content: BerObjectContent::Sequence(l) | BerObjectContent::Set(l), .. })) if rem.is_empty() => l,
                // one level deeper than alone
                Err(_) if nested(&parts, h.len.is_none()) => continue,
                res => return Err(format!("the elements parse one after the other, but not inside another one: {:?}", out_obj(w, res).short())),
            };
            if items.len() != parts.len() || items.iter().zip(&parts).any(|(o, (p, e, n))| Base(&w[at + p..at + p + e]).n(o) != *n) {
                return Err(format!("{} elements parsed one after the other and inside another one ({}) differ", parts.len(), items.len()));
            }
            st.add("lists_compared", 1);
        }
        Ok(())
    }
}

fn bmp_bytes(n: &N) -> usize {
    match &n.v {
        V::Bmp(s) => s.1,
        V::Seq(l) | V::Set(l) => l.iter().map(bmp_bytes).sum(),
        _ => 0,
    }
}
fn outside(v: &V) -> bool {
    let o = |s: &S| s.0 == OUTSIDE;
    match v {
        V::Int(s) | V::Oct(s) | V::Bits(_, s) | V::Oid(s) | V::RelOid(s) | V::Str(_, s) | V::Bmp(s) | V::Univ(s) | V::Unk(_, _, _, _, s) => o(s),
        V::Seq(l) | V::Set(l) => l.iter().any(|n| outside(&n.v) || n.h.raw.is_some_and(|r| o(&r))),
        V::Opt(Some(n)) | V::Tagged(_, _, n) => outside(&n.v) || n.h.raw.is_some_and(|r| o(&r)),
        _ => false,
    }
}
/// values compared slice by slice only (what they denote is C06's business)
fn opaque_raw(o: &BerObject, b: Base) -> Result<(), String> {
    match &o.content {
        BerObjectContent::Unknown(a) if a.header.class() != Class::Universal => {
            let (x, y) = (b.h(&o.header), b.h(&a.header));
            if x != y {
                return Err(format!("an opaque object has the header {x:?}, its contents {y:?}"));
            }
        }
        BerObjectContent::Sequence(l) | BerObjectContent::Set(l) => {
            for o in l {
                opaque_raw(o, b)?;
            }
        }
        _ => (),
    }
    Ok(())
}
pub struct C03;
impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "every slice, string, raw identifier and OID held by a decoded object is located in the caller's buffer and compared with the offsets of the reference decoder, and the memory requested while decoding is compared with a bound that depends on the number of elements only; non-trivial: an object was decoded"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        for &tag in PRIMS {
            for n in [0usize, 1, 2, 8, 127, 128, 4000, 60_000] {
                let c: Vec<u8> = match tag {
                    1 => vec![0xff],
                    5 => vec![],
                    10 => vec![1],
                    23 => b"991231235959Z".to_vec(),
                    24 => b"19991231235959.5Z".to_vec(),
                    30 | 28 => [0u8, 0, 0, 0x41].repeat(n / 4),
                    _ => vec![b'1'; n],
                };
                let mut v = model::tlv(0, false, tag, &c);
                v.extend([1, 2, 3]);
                emit(Case::new(v.clone(), 1));
                emit(Case::new(model::tlv(0, true, 16, &model::tlv(0, false, tag, &c).repeat(3)), 2));
            }
        }
        for class in 0..4u8 {
            for tag in [0u32, 8, 29, 31, 127, 128, 16384, 1 << 21, 1 << 28, u32::MAX] {
                emit(Case::new(model::tlv(class, false, tag, &vec![7; 60_000]), 3));
                emit(Case::new(model::tlv(0, true, 17, &model::tlv(class, true, tag, b"\x02\x01\x05")), 4));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        Case::new(g.input(), p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let mut r = c.rng();
        for _ in 0..4 {
            let p = rand_p(&mut r, i);
            let o = api::run(&p, i);
            if let Out::Ok(_, v) = &o {
                let bad = match v {
                    OV::Obj(n) => outside(&n.v) || n.h.raw.is_some_and(|r| r.0 == OUTSIDE),
                    OV::Val(v) => outside(v),
                    OV::Sl(s) => s.0 == OUTSIDE,
                    OV::Hdr(h) => h.raw.is_some_and(|r| r.0 == OUTSIDE),
                    _ => false,
                };
                if bad {
                    return Err(format!("{p:?}: a slice of the result lies outside the caller's buffer: {}", o.short()));
                }
                if let Ok((mv, mc)) = api::expect(&p, i) {
                    st.nontrivial();
                    st.add("objects", 1);
                    agree(&o, &Ok((mv, mc))).map_err(|e| format!("{p:?}: {e}"))?;
                }
            }
        }
        for _ in 0..2 {
            let d = r.chance(1, 2);
            let q = api::pick_q(&mut r, i, d);
            let o = api::run_q(&q, i);
            if let (Out::Ok(_, v), Ok(m)) = (&o, api::expect_q(&q, i)) {
                st.nontrivial();
                st.add("combinator_objects", 1);
                // header of a list combinator result is synthetic
                let _ = v;
                agree(&o, &Ok(m)).map_err(|e| format!("{q:?}: {e}"))?;
            }
        }
        // the header repeated inside an opaque object shows the same identifier octets
        for o in [der_parser::parse_ber(i), der_parser::parse_der(i)].into_iter().flatten() {
            opaque_raw(&o.1, Base(i))?;
        }
        // accessors give the same slices, not copies
        if let Ok((_, o)) = der_parser::parse_ber(i) {
            let b = Base(i);
            let want = match b.v(&o.content) {
                V::Int(s) | V::Oct(s) | V::Bits(_, s) | V::Str(_, s) | V::Bmp(s) | V::Univ(s) | V::Unk(_, _, _, _, s) => Some(s),
                _ => None,
            };
            match (want, o.as_slice()) {
                (Some(s), Ok(x)) if b.s(x) == s => (),
                (None, Err(_)) => (),
                (w, g) => return Err(format!("as_slice returns {:?}, the object holds {w:?}", g.map(|x| b.s(x)))),
            }
            if let Ok(x) = o.as_str() {
                if Some(b.s(x.as_bytes())) != want {
                    return Err("as_str is not the octets of the string".into());
                }
            }
        }
        // memory
        let m = model::ber(i, MAXREC).ok();
        let (nodes, bmp) = m.as_ref().map_or((i.len() / 2 + 1, i.len()), |(n, _)| (model::count(n), bmp_bytes(n)));
        for der in [false, true] {
            let (ok, total, peak) = alloc_of(|| if der { der_parser::parse_der(i).is_ok() } else { der_parser::parse_ber(i).is_ok() });
            if ok && m.is_some() {
                let bound = 4096 + 1200 * nodes as u64 + 12 * bmp as u64;
                st.max("peak_bytes", peak);
                st.add("memory_checked", 1);
                if peak > bound {
                    return Err(format!("decoding {} octets with {nodes} elements needed {peak} bytes of memory (total {total}), more than {bound}: contents are copied", i.len()));
                }
            }
        }
        Ok(())
    }
}

pub struct C04;
impl C04 {
    /// Elements whose contents may be anything, announced with a length that is not there (yet): up to the
    /// maximum object size it is a prefix of a valid encoding, beyond it there is nothing to wait for
    fn announced(i: &'static [u8], r: &mut Rng, st: &mut Stats) -> Result<(), String> {
        const MAX: usize = 0xffff_ffff;
        for der in [false, true] {
            let Ok((h, at)) = model::header(i, 0, i.len(), der) else { continue };
            let Some(l) = h.len else { continue };
            if h.class == 0 && (h.tag != 4 || h.cons) {
                continue;
            }
            let d = r.range(1, 60);
            if l > MAX {
                let ps = if der {
                    vec![P::Gen(true), P::Rec(true, MAXREC), P::Rec(true, d)]
                } else if h.class == 0 {
                    vec![P::Content(false, 1, 4, d), P::Content(false, 2, 4, d), P::TwoStep(false, d), P::Typed(false, sut::typed().iter().position(|x| x.0 == 4).unwrap())]
                } else {
                    vec![]
                };
                for p in ps {
                    match api::run(&p, i) {
                        Out::Err(..) => st.add("beyond_the_maximum_refused", 1),
                        o => return Err(format!("{p:?}: {l} octets of contents are announced, more than an object can have, and the answer is {}", o.short())),
                    }
                }
                continue;
            }
            st.nontrivial();
            let mut ps = vec![P::Gen(der), P::Rec(der, d)];
            if h.class == 0 {
                ps.extend([P::Tag(der, 4), P::TwoStep(der, d), P::Content(der, 1, 4, d), P::Content(der, 2, 4, d), P::Typed(der, sut::typed().iter().position(|x| x.0 == 4).unwrap())]);
            }
            if !der {
                ps.extend([P::AnyR(d), P::AnyTagR(h.tag, d), P::FromAny(false), P::FromAny(true), P::Any]);
            }
            for p in ps {
                match api::run(&p, i) {
                    Out::Inc => {
                        let have = i.len() - at;
                        if let Some(n) = crate::snap::NEEDED.with(|c| c.get()) {
                            if n < l - have || n > l + at {
                                return Err(format!("{p:?}: {n} more octets are asked for with {have} of {l} octets of contents present"));
                            }
                        }
                        st.add("announced_incomplete", 1);
                    }
                    o => return Err(format!("{p:?}: {l} octets of contents are announced and {} present, the answer is {}", i.len() - at, o.short())),
                }
            }
        }
        Ok(())
    }
}
impl Check for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "every strict prefix of valid encodings is given to the element parsers (must be incomplete), and complete outermost elements with arbitrary contents are given to all of them (must not be incomplete); non-trivial: the element is complete"
    }
    fn big(&self, t: Tier) -> usize {
        if t == Tier::Quick { 70_000 } else { 150_000 }
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        let mut g = Gen::plain(11);
        for &t in UNIV {
            for k in 0..16u64 {
                let o = if k % 2 == 0 { DER } else { BER };
                let v = if t == 16 || t == 17 {
                    let c = g.elem(Opt { depth: 3, ..o });
                    g.wrap(0, t, &c, Opt { indef: 50, ..o })
                } else {
                    let c = g.content(t, o);
                    g.tlv(0, false, t, &c, 30)
                };
                emit(Case::new(v, k));
            }
        }
        for n in [127usize, 128, 255, 256, 65535, 65536] {
            emit(Case::new(model::tlv(0, false, 4, &vec![1; n]), 1));
            emit(Case::new(model::tlv(2, true, 40, &vec![1; n]), 2));
        }
        // lengths announced of contents that are not there
        for id in [&[4u8][..], &[0x80], &[0xa3], &[0x5f, 0x81, 1], &[0xff, 0x1f], &[0xc0]] {
            for l in [1u64, 127, 128, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x7fff_ffff_ffff_ffff, u64::MAX - 20, u64::MAX] {
                for have in [0usize, 1, 40] {
                    if l <= have as u64 {
                        continue;
                    }
                    for w in [1usize, 2, 3, 4, 5, 8] {
                        if w < 8 && l >> (8 * w) != 0 {
                            continue;
                        }
                        let mut v = [id, &[0x80 + w as u8]].concat();
                        v.extend(&l.to_be_bytes()[8 - w..]);
                        v.extend(std::iter::repeat(5).take(have));
                        emit(Case::new(v, l));
                    }
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        Case::new(g.input(), p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let mut r = c.rng();
        let tag = match model::header(i, 0, i.len(), false) {
            Ok((h, _)) => h.tag,
            Err(_) => return Ok(()),
        };
        let e = match model::frame(i) {
            Ok(e) => e,
            // not complete: must not be accepted
            Err(E::Inc) => {
                for der in [false, true] {
                    for p in api::all_for(tag, der) {
                        if p == P::Hdr(der) {
                            continue;
                        }
                        let o = api::run(&p, i);
                        if o.ok() {
                            return Err(format!("{p:?}: accepted, but the element is not complete: {}", o.short()));
                        }
                        st.add("truncated_as_given", 1);
                    }
                }
                return Self::announced(i, &mut r, st);
            }
            Err(_) => return Ok(()),
        };
        st.nontrivial();
        for der in [false, true] {
            for p in api::all_for(tag, der) {
                let o = api::run(&p, i);
                st.add("complete_inputs", 1);
                if o == Out::Inc {
                    return Err(format!("{p:?}: incomplete, but the element is entirely present ({e} of {} octets)", i.len()));
                }
            }
            for d in [0, 1, 2, r.below(60)] {
                for p in [P::Rec(der, d), P::TwoStep(der, d), P::Content(der, 1, tag, d)] {
                    if api::run(&p, i) == Out::Inc {
                        return Err(format!("{p:?}: incomplete, but the element is entirely present"));
                    }
                }
            }
            // contents read as another type
            let t = r.below(31) as u32;
            for p in [P::Content(der, 1, t, MAXREC), P::Content(der, 2, t, MAXREC), P::Tag(der, t)] {
                if api::run(&p, i) == Out::Inc {
                    return Err(format!("{p:?}: incomplete, but the element is entirely present"));
                }
            }
        }
        // prefixes
        let cuts: Vec<usize> = if e <= 120 {
            (0..e).collect()
        } else {
            let mut v: Vec<usize> = (0..12.min(e)).collect();
            v.extend((1..8).map(|k| e - k));
            for _ in 0..20 {
                v.push(r.below(e));
            }
            v
        };
        let hdr_end = model::header(i, 0, i.len(), false).map_or(0, |x| x.1);
        for der in [false, true] {
            let ps: Vec<P> = api::all_for(tag, der).into_iter().filter(|p| api::expect(p, i).is_ok()).collect();
            for p in &ps {
                if cuts.len() > 60 && !r.chance(1, 2) {
                    continue;
                }
                for &k in &cuts {
                    if matches!(p, P::Hdr(_)) && k >= hdr_end {
                        continue;
                    }
                    let pre = place(1, &i[..k]);
                    let o = api::run(p, pre);
                    st.add("prefixes", 1);
                    if o.ok() {
                        return Err(format!("{p:?}: the first {k} of {e} octets are accepted: {}", o.short()));
                    }
                    // the parsers of a complete container and a cut identifier are refused otherwise
                    let inc = api::expect(p, pre).err() == Some(E::Inc) && !matches!(p, P::Slice(..));
                    if o == Out::Inc {
                        let n = crate::snap::NEEDED.with(|c| c.get());
                        if let Some(n) = n {
                            st.add("octets_asked_for", 1);
                            let exact = k >= hdr_end && model::header(i, 0, i.len(), false).is_ok_and(|(h, _)| h.len.is_some());
                            if n == 0 || n > e || (exact && n < e - k) {
                                return Err(format!("{p:?}: {n} more octets are asked for after {k} of {e}"));
                            }
                        }
                    }
                    if inc && o != Out::Inc {
                        return Err(format!("{p:?}: the first {k} of {e} octets of a valid encoding are refused as {} instead of incomplete", o.short()));
                    }
                }
            }
        }
        Ok(())
    }
    fn max_input(&self) -> usize {
        70_000
    }
}

pub struct C05;
impl C05 {
    fn hostile(kind: u64, n: usize) -> Vec<u8> {
        match kind {
            0 => [0x30u8, 0x80].repeat(n),
            1 => [0x24u8, 0x80].repeat(n),
            2 => [0xa0u8, 0x80].repeat(n),
            3 => [0x31u8, 0x80].repeat(n),
            4 | 5 | 6 => {
                // definite lengths, n levels, every length fits
                let mut v = Vec::with_capacity(6 * n);
                for k in 0..n {
                    v.push(if kind == 4 { 0x30 } else if kind == 5 { 0xa0 } else { [0x30, 0x31][k % 2] });
                    v.push(0x84);
                    v.extend((((n - 1 - k) * 6) as u32).to_be_bytes());
                }
                v
            }
            7 => {
                let mut v = [0x30u8, 0x80].repeat(n);
                v.extend(vec![0; 2 * n]);
                v
            }
            8 => {
                // an indefinite length inside a definite one
                let inner = [0x30u8, 0x80].repeat(n);
                let mut v = model::tlv(0, true, 16, &inner);
                v.extend([0, 0]);
                v
            }
            9 => [0x3fu8, 0x81, 0x01, 0x80].repeat(n),
            _ => {
                let mut v = vec![];
                for k in 0..n {
                    v.extend(if k % 3 == 0 { vec![0x30, 0x80, 2, 1, 1] } else { vec![0x31, 0x80] });
                }
                v
            }
        }
    }
}
impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "objects of exactly known nesting (definite, indefinite and mixed lengths, with siblings) are parsed with limits around their nesting through all depth-limited parsers on a 2 MiB stack; hostile nesting up to 10^6 levels; non-trivial: nesting within 2 of a limit, or hostile"
    }
    fn stack(&self) -> usize {
        2 << 20
    }
    fn big(&self, t: Tier) -> usize {
        if t == Tier::Quick { 20_000 } else { 70_000 }
    }
    fn fixed(&self, t: Tier, emit: &mut dyn FnMut(Case)) {
        for kind in 0..=10u64 {
            for n in [49usize, 50, 51, 100, 1000, 100_000, if t == Tier::Quick { 200_000 } else { 1_000_000 }] {
                emit(Case::new(C05::hostile(kind, n), 1 << 60));
            }
        }
        for k in 0..56u64 {
            for s in 0..6u64 {
                emit(Case::new(vec![], (s << 32) | k));
            }
        }
        // one level has very many elements before or after the one that is nested
        for n in [7u64, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096] {
            for k in [1u64, 2, 3, 5, 24, 47, 48, 49] {
                for s in 0..2 {
                    if n < 500 || k < 4 && s == 0 {
                        emit(Case::new(vec![], 1 << 59 | n << 36 | s << 32 | k));
                    }
                }
            }
        }
        // limits far above the default one
        for k in [62u64, 63, 64, 99, 100, 126, 127, 128, 199, 200, 253, 254, 255, 256, 257, 300, 510, 511, 512, 700, 1000, 1023, 1024] {
            for s in 0..if t == Tier::Quick { 4 } else { 16 } {
                emit(Case::new(vec![], (s << 32) | k));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        if g.r.chance(1, 6) {
            let o = g.any_opt();
            let c = g.prim(o);
            let k = g.r.range(40, 60);
            let v = g.nest(k, c, o);
            return Case::new(v, (1 << 60) | (g.r.u64() >> 8));
        }
        if g.r.chance(1, 200) {
            let n = g.r.range(1000, 30_000);
            let k = g.r.below(11) as u64;
            return Case::new(C05::hostile(k, n), 1 << 60);
        }
        let k = match g.r.below(30) {
            0 => g.r.range(60, 400),
            1..=10 => g.r.range(46, 54),
            11..=20 => g.r.below(8),
            _ => g.r.below(60),
        };
        if g.r.chance(1, 6) {
            let n = g.r.below(300) as u64;
            return Case::new(vec![], 1 << 59 | n << 36 | (g.r.below(16) as u64) << 32 | k.clamp(1, 60) as u64);
        }
        Case::new(vec![], ((g.r.u64() >> 37) << 32) | k as u64)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let planted = c.input.is_empty() && c.param >> 60 == 0;
        let k = (c.param & 0xffff_ffff) as usize;
        if planted && k > 60 {
            // the caller asks for limits beyond the default one: the stack is the caller's matter
            return on_stack(512 << 20, || no_panic(|| C05::go(c, st, true, k))).and_then(|r| r);
        }
        C05::go(c, st, planted, k)
    }
    fn mutable(&self) -> bool {
        false
    }
}
impl C05 {
    fn go(c: &Case, st: &mut Stats, planted: bool, k: usize) -> Result<(), String> {
        let mut r = c.rng();
        let mut indef = false;
        let mut strict = false;
        let data = if planted {
            // k constructed levels around a primitive: nesting k + 1
            let mut g = Gen::plain(c.param);
            let der = g.r.chance(1, 2);
            strict = der;
            let mut o = if der { DER } else { BER };
            o.nonuniv = 0;
            o.indef = *g.r.pick(&[0, 0, 20, 100]);
            indef = !der && o.indef > 0;
            let tag = *g.r.pick(&[1u32, 2, 4, 5, 12]);
            let pc = g.content(tag, DER);
            let p = model::tlv(0, false, tag, &pc);
            if c.param >> 59 == 0 {
                g.nest(k.min(2000), p, o)
            } else {
                // k levels, one of them wide
                let wide = (c.param >> 36 & 0x1f_ffff) as usize;
                let at = g.r.below(k);
                let (sib, after): (&[u8], bool) = (*g.r.pick(&[&[5u8, 0][..], &[2, 1, 7], &[0x30, 0]]), g.r.chance(1, 4));
                // (an empty sequence is no deeper than the element itself)
                let mut v = p;
                for l in 0..k {
                    if l == at {
                        let w = sib.repeat(wide);
                        v = if after { [&v[..], &w].concat() } else { [&w[..], &v].concat() };
                    }
                    v = model::tlv(0, true, 16 + (l % 2) as u32, &v);
                }
                indef = false;
                v
            }
        } else {
            c.input.clone()
        };
        let i = place(0, &data);
        let mut limits = vec![0usize, 1, 2, 49, 50, 51, 52, r.below(80)];
        if planted {
            limits.extend([k.saturating_sub(1), k, k + 1, k + 2, k + 3]);
        }
        limits.sort();
        limits.dedup();
        let big = !planted && i.len() > 3000;
        for der in [false, true] {
            let mut ps = vec![P::Gen(der), P::Tag(der, 16), P::Tag(der, 17), P::Slice(der, 16)];
            for &d in &limits {
                ps.extend([P::Rec(der, d), P::TwoStep(der, d)]);
                ps.push(P::Content(der, 1, 16, d));
                ps.push(P::Content(der, 2, 17, d));
                if !der {
                    ps.extend([P::AnyR(d), P::AnyTagR(16, d)]);
                }
            }
            if !der {
                ps.extend([P::FromAny(true), P::Any]);
            } else {
                ps.push(P::DerContent);
            }
            for p in ps {
                let o = api::run(&p, i);
                st.add("parses", 1);
                if big {
                    // hostile sizes: an answer is enough, unless the depth limit is plainly exceeded
                    let deep = match &o {
                        Out::Ok(_, OV::Obj(n)) => model::height(n) > 60,
                        _ => false,
                    };
                    if deep {
                        return Err(format!("{p:?}: accepted an object nested more than 60 levels"));
                    }
                    st.nontrivial();
                    continue;
                }
                let m = api::expect(&p, i);
                agree(&o, &m).map_err(|e| format!("{p:?}: {e}"))?;
                if let (Err(E::Err(K::MaxDepth)), Out::Err(kind, _)) = (&m, &o) {
                    st.add("limit_refusals", 1);
                    st.nontrivial();
                    // (a wrong tag or another defect may be noticed first)
                    let n = i.len();
                    let free = || if der { model::der(i, 300).map(|x| x.1) } else { model::ber(i, 300).map(|x| x.1) };
                    let only = (planted && (strict || !der)) || n < 3000 && matches!(free(), Ok(_) | Err(E::Err(K::MaxDepth)));
                    let tagged = !only || matches!(p, P::AnyTagR(t, _) | P::Tag(_, t) if model::header(i, 0, i.len(), false).map_or(true, |(h, _)| h.tag != t));
                    if kind != "BerMaxDepth" && !tagged {
                        return Err(format!("{p:?}: nesting beyond the limit is refused as {kind}"));
                    }
                }
                if planted && !indef && (strict || !der) {
                    // the direct statement: accepted iff nesting <= limit
                    let d = match p {
                        P::Gen(_) => 50,
                        P::Rec(_, d) | P::AnyR(d) | P::TwoStep(_, d) => d,
                        _ => continue,
                    };
                    let want = k + 1 <= d;
                    if k + 1 + 2 >= d && k + 1 <= d + 2 {
                        st.nontrivial();
                        st.add("around_the_limit", 1);
                        st.distinct("nesting_and_limit", (k * 1000 + d) as u64);
                    }
                    if o.ok() != want {
                        return Err(format!("{p:?}: nesting {} is {} ({}) {}", k + 1, if want { "refused" } else { "accepted" }, o.short(), hex(i)));
                    }
                }
            }
        }
        // combinators: limit is the default one
        if planted && k <= 60 {
            let at = data[0] & 0x3f;
            for d in [false, true] {
                let mut qs = vec![];
                if at == 0x30 || at == 0x31 {
                    let mut w = data.clone();
                    w[0] = 0xa2;
                    let t = (at & 0x1f) as u32;
                    qs.push((w.clone(), vec![Q::Implicit(d, 2, t), Q::ImplicitG(d, 2, t), Q::ImplicitFn(d, 2, t)]));
                    qs.push((data.clone(), vec![Q::ListOf(d, at == 0x31), Q::ListOfV(d, at == 0x31), Q::Defined(d, at == 0x31)]));
                }
                qs.push((model::tlv(2, true, 2, &data), vec![Q::Explicit(d, 2), Q::ExplicitOpt(d, 2)]));
                qs.push((data.clone(), vec![Q::Optional(d), Q::OptTag(d, (at & 0x1f) as u32)]));
                for (w, qs) in qs {
                    let i = place(0, &w);
                    for q in qs {
                        let o = api::check_q(&q, i)?;
                        st.add("combinators", 1);
                        if let (Err(E::Err(K::MaxDepth)), Out::Err(kind, _)) = (api::expect_q(&q, i), &o) {
                            st.add("limit_refusals", 1);
                            if kind != "BerMaxDepth" && (strict || !d) {
                                return Err(format!("{q:?}: nesting beyond the limit is refused as {kind}"));
                            }
                        }
                    }
                }
            }
        }
        if !big {
            for _ in 0..4 {
                let d = r.chance(1, 2);
                let q = api::pick_q(&mut r, i, d);
                api::check_q(&q, i)?;
                st.add("combinators", 1);
            }
        } else {
            for q in [Q::ListOf(false, false), Q::ListOf(true, true), Q::Explicit(false, 0), Q::Explicit(true, 0), Q::Implicit(false, 0, 16), Q::Implicit(true, 16, 16), Q::Optional(false), Q::ExplicitOpt(false, 0)] {
                api::run_q(&q, i);
                st.add("combinators", 1);
            }
        }
        Ok(())
    }
}

pub struct C06;
impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "BER entry points are compared with an independent reference decoder (acceptance, header fields, type, value, offsets) on generated, mutated and enumerated inputs; non-trivial: accepted by at least one side"
    }
    fn big(&self, t: Tier) -> usize {
        if t == Tier::Quick { 300_000 } else { 4 << 20 }
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        // every identifier octet with a few contents
        for b in 0..=255u8 {
            for c in [&b""[..], b"\x00", b"\xff", b"\x01\x02", b"\x02\x01\x05", b"2512312359Z", b"991231235959Z", b"20991231235959Z"] {
                let mut v = vec![b];
                if b & 0x1f == 0x1f {
                    v.push(0x22);
                }
                v.push(c.len() as u8);
                v.extend(c);
                emit(Case::new(v.clone(), 0));
                if b & 0x20 != 0 {
                    let mut w = vec![b];
                    if b & 0x1f == 0x1f {
                        w.extend([0x81, 0x22]);
                    }
                    w.push(0x80);
                    w.extend(c);
                    w.extend([0, 0]);
                    emit(Case::new(w, 1));
                }
            }
        }
        // length forms
        for n in [0usize, 1, 3, 127, 128, 300] {
            for k in 1..=12usize {
                let mut v = vec![0x04, 0x80 | k as u8];
                let b = (n as u128).to_be_bytes();
                v.extend(&b[16 - k..]);
                if k >= 2 || n < 256 {
                    v.extend(vec![0x55; n]);
                    emit(Case::new(v, 2));
                }
            }
        }
        // tag numbers
        for bits in 0..34u32 {
            for d in [-1i64, 0, 1] {
                let t = (1i64 << bits) + d;
                if t < 0 || t > u32::MAX as i64 {
                    continue;
                }
                for class in 0..4 {
                    emit(Case::new(model::tlv(class, bits % 2 == 0, t as u32, b"\x05\x00"), 3));
                }
            }
        }
        // enumerated values
        for k in 0..=9usize {
            for f in [0u8, 1, 0x7f, 0x80, 0xff] {
                let mut c = vec![0; k];
                c.push(f);
                emit(Case::new(model::tlv(0, false, 10, &c), 4));
                let c = vec![f; k];
                emit(Case::new(model::tlv(0, false, 10, &c), 4));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        if g.r.chance(1, 3) {
            let o = Opt { depth: g.r.range(1, 6), bad: if g.r.chance(1, 4) { 10 } else { 0 }, ..BER };
            return Case::new(g.elem(o), p);
        }
        Case::new(g.input(), p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let mut r = c.rng();
        let o = api::check(&P::Gen(false), i)?;
        st.add("compared", 1);
        let note = |o: &Out, st: &mut Stats| {
            if let Out::Ok(_, v) = o {
                st.nontrivial();
                if let OV::Obj(n) = v {
                    st.max("nodes", model::count(n) as u64);
                    st.max("height", model::height(n) as u64);
                    fn walk(n: &N, st: &mut Stats) {
                        st.distinct("type_class_form", (n.h.class as u64) << 40 | (n.h.cons as u64) << 39 | (n.h.len.is_none() as u64) << 38 | n.h.tag as u64);
                        if let V::Seq(l) | V::Set(l) = &n.v {
                            l.iter().for_each(|x| walk(x, st));
                        }
                    }
                    walk(n, st);
                }
            }
        };
        note(&o, st);
        let k = if i.len() > 20_000 { 2 } else { 6 };
        for _ in 0..k {
            let p = api::pick(&mut r, i, Some(false));
            let o = api::check(&p, i)?;
            note(&o, st);
            st.add("compared", 1);
        }
        // contents, with a header made by the caller
        if i.len() < 20_000 {
            let skip = model::header(i, 0, i.len(), false).map_or(0, |x| x.1);
            for x in [i, &i[skip..]] {
                let p = api::pick_made(&mut r, x, false);
                let o = api::check(&p, x)?;
                st.add(if o.ok() { "made_headers_ok" } else { "made_headers_refused" }, 1);
            }
        }
        Ok(())
    }
}

/// one encoding that breaks exactly one DER rule, and the constraint that names it
fn violation(g: &mut Gen) -> (Vec<u8>, &'static str) {
    match g.r.below(9) {
        0 => {
            let c = g.elem(Opt { depth: 2, ..DER });
            let (cl, t) = if g.r.chance(1, 2) { *g.r.pick(&[(0u8, 16u32), (0, 17), (2, 0), (1, 5), (3, 40), (2, 31)]) } else { (0, g.r.range(1, 31) as u32) };
            let mut v = model::enc_tag(cl, true, t);
            v.push(0x80);
            v.extend(c);
            v.extend([0, 0]);
            (v, "IndefiniteLength")
        }
        1 => {
            let b = g.r.range(1, 254) as u8;
            (vec![1, 1, b], "InvalidBoolean")
        }
        2 => (vec![2, 0], "IntegerEmpty"),
        3 => {
            let mut c = g.int(true);
            if c[0] >= 0x80 {
                c[0] &= 0x7f;
                if c.len() > 1 && c[0] == 0 && c[1] < 0x80 {
                    c[1] |= 0x80;
                }
            }
            for _ in 0..g.r.range(1, 3) {
                c.insert(0, 0);
            }
            if c[1] >= 0x80 {
                c.insert(0, 0);
            }
            (model::tlv(0, false, 2, &c), "IntegerLeadingZeroes")
        }
        4 => {
            let mut c = g.int(true);
            c[0] |= 0x80;
            for _ in 0..g.r.range(1, 3) {
                c.insert(0, 0xff);
            }
            (model::tlv(0, false, 2, &c), "IntegerLeadingFF")
        }
        5 => {
            let t = *g.r.pick(&[3u32, 4, 7, 12, 18, 19, 20, 21, 22, 25, 26, 27, 28, 30]);
            let c = if g.r.chance(1, 2) { g.content(t, DER) } else { model::tlv(0, false, t, b"\x00") };
            // (contents wrong in themselves may be noticed first)
            let p = model::tlv(0, false, t, &c);
            (model::tlv(0, true, t, &c), if model::der(&p, 2).is_ok() { "Constructed" } else { "" })
        }
        6 => {
            let u = g.r.range(1, 7) as u8;
            let n = g.r.range(1, 9);
            let mut c = g.bytes(n);
            c[n - 1] |= 1 << g.r.below(u as usize);
            c.insert(0, u);
            (model::tlv(0, false, 3, &c), "UnusedBitsNotZero")
        }
        7 => {
            let mut c = g.bits(true);
            if c.len() == 1 {
                c.push(0);
            }
            c[0] = *g.r.pick(&[8u8, 9, 15, 16, 64, 127, 128, 200, 255]);
            (model::tlv(0, false, 3, &c), "")
        }
        _ => {
            let utc = g.r.chance(1, 2);
            loop {
                let c = g.time(utc, false);
                if c.last() != Some(&b'Z') {
                    let name = if model::time(&c, utc).is_some() { "MissingTimeZone" } else { "" };
                    return (model::tlv(0, false, if utc { 23 } else { 24 }, &c), name);
                }
            }
        }
    }
}
pub struct C07;
impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "valid DER trees (must be accepted) and the same trees with exactly one violation of a DER rule planted at a random place and depth (must be refused, naming the rule), plus comparison of every DER entry point with the reference decoder on arbitrary inputs; non-trivial: valid tree or planted violation"
    }
    fn big(&self, t: Tier) -> usize {
        if t == Tier::Quick { 300_000 } else { 4 << 20 }
    }
    fn fixed(&self, t: Tier, emit: &mut dyn FnMut(Case)) {
        for s in 0..if t == Tier::Quick { 4000 } else { 100_000 } {
            emit(Case::new(vec![], s));
        }
        // every boolean, every first two octets of an integer, every unused bit pattern
        for b in 0..=255u8 {
            emit(Case::new(vec![1, 1, b], 0));
            for b2 in [0u8, 1, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xff] {
                emit(Case::new(vec![2, 2, b, b2], 0));
                emit(Case::new(vec![2, 3, b, b2, b], 0));
                emit(Case::new(vec![0x30, 4, 2, 2, b, b2], 0));
                emit(Case::new(vec![3, 2, b2 & 0xf, b], 0));
                emit(Case::new(vec![0x31, 4, 3, 2, b2 & 0xf, b], 0));
            }
            for u in 0..10 {
                emit(Case::new(vec![3, 3, u, 0, b], 0));
            }
            emit(Case::new(vec![2, 1, b], 0));
            emit(Case::new([&[23u8, 13][..], b"991231235959", &[b]].concat(), 0));
            emit(Case::new([&[24u8, 15][..], b"19991231235959", &[b]].concat(), 0));
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        match g.r.below(4) {
            0 | 1 => Case::new(vec![], p),
            2 => {
                let (v, _) = violation(g);
                let k = g.r.below(6);
                Case::new(g.nest(k, v, DER), p)
            }
            _ => Case::new(g.input(), p),
        }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = c.rng();
        if c.input.is_empty() {
            let mut g = Gen::plain(c.param);
            let o = Opt { depth: g.r.range(1, 4), maxlen: 60, ..DER };
            if g.r.chance(1, 4) {
                // a valid tree
                let v = g.elem(o);
                let i = place(0, &v);
                st.nontrivial();
                st.add("valid_trees", 1);
                let Ok((h, _)) = model::header(i, 0, i.len(), false) else { return Ok(()) };
                for p in api::all_for(h.tag, true) {
                    let out = api::check(&p, i)?;
                    if p == P::Gen(true) && !out.ok() {
                        return Err(format!("a valid DER object is refused: {}", out.short()));
                    }
                }
                return Ok(());
            }
            let (bad, name) = violation(&mut g);
            let mut v = bad;
            let depth = match g.r.below(4) {
                0 => 0,
                1 => 1,
                2 => g.r.range(1, 6),
                _ => g.r.range(1, 48),
            };
            for _ in 0..depth {
                let mut w = vec![];
                for _ in 0..g.r.below(3) {
                    w.extend(g.elem(Opt { depth: 1, maxlen: 20, ..DER }));
                }
                w.extend(&v);
                for _ in 0..g.r.below(3) {
                    w.extend(g.elem(Opt { depth: 1, maxlen: 20, ..DER }));
                }
                v = model::tlv(0, true, if g.r.chance(2, 3) { 16 } else { 17 }, &w);
            }
            let i = place(0, &v);
            st.nontrivial();
            st.add("planted", 1);
            st.distinct("planted_rule_and_depth", hash64(&[name.as_bytes(), &[depth as u8]]));
            let Ok((h, _)) = model::header(i, 0, i.len(), false) else { return Ok(()) };
            for p in api::all_for(h.tag, true) {
                if matches!(p, P::Hdr(_) | P::Slice(..)) && !(name == "IndefiniteLength" && depth == 0) {
                    continue;
                }
                // type by type: reading the element as what it is
                if matches!(p, P::Int(..)) && depth == 0 && h.tag == 2 && h.cons {
                    continue;
                }
                if matches!(p, P::Int(..)) {
                    // may be refused for its size first
                    if api::run(&p, i).ok() {
                        return Err(format!("{p:?}: accepts an INTEGER violating {name}"));
                    }
                    continue;
                }
                let nonuniv_opaque = h.class != 0;
                let out = api::run(&p, i);
                match &out {
                    Out::Err(k, _) => {
                        if !nonuniv_opaque && name != "" && *k != format!("DerConstraintFailed({name})") {
                            return Err(format!("{p:?}: violation of {name} at depth {depth} refused as {k}"));
                        }
                    }
                    _ => return Err(format!("{p:?}: violation of {} at depth {depth} gives {}", if name.is_empty() { "a DER rule" } else { name }, out.short())),
                }
            }
            if h.tag == 26 && h.class == 0 {
                let o = crate::snap::out_obj(i, sut::deprecated_visiblestring(i));
                match &o {
                    Out::Err(k, _) if name == "" || *k == format!("DerConstraintFailed({name})") => st.add("deprecated_alias", 1),
                    _ => return Err(format!("visiblestring: violation of {} gives {}", if name.is_empty() { "a DER rule" } else { name }, o.short())),
                }
            }
            // every combinator around the library's own parsers, here and under an explicit tag
            let w = model::tlv(2, true, 3, i);
            let w = place(1, &w);
            for (q, x) in [
                (Q::Defined(true, false), i),
                (Q::Defined(true, true), i),
                (Q::ListOfV(true, h.tag == 17), i),
                (Q::Optional(true), i),
                (Q::OptTag(true, h.tag), i),
                (Q::Implicit(true, h.tag, h.tag), i),
                (Q::ImplicitG(true, h.tag, h.tag), i),
                (Q::ImplicitFn(true, h.tag, h.tag), i),
                (Q::Explicit(true, 3), w),
                (Q::ExplicitOpt(true, 3), w),
            ] {
                api::check_q(&q, x)?;
                st.add("combinators", 1);
            }
            // the list combinators, too
            if depth > 0 {
                let q = Q::ListOf(true, h.tag == 17);
                let o = api::run_q(&q, i);
                if o.ok() {
                    return Err(format!("{q:?}: accepts an item violating {name}"));
                }
            }
            return Ok(());
        }
        let i = place(0, &c.input);
        let o = api::check(&P::Gen(true), i)?;
        st.add("compared", 1);
        if o.ok() {
            st.nontrivial();
        }
        for _ in 0..5 {
            let p = api::pick(&mut r, i, Some(true));
            let o = api::check(&p, i)?;
            if o.ok() {
                st.nontrivial();
            }
            st.add("compared", 1);
        }
        let skip = model::header(i, 0, i.len(), false).map_or(0, |x| x.1);
        for x in [i, &i[skip..]] {
            let p = api::pick_made(&mut r, x, true);
            let o = api::check(&p, x)?;
            st.add(if o.ok() { "made_headers_ok" } else { "made_headers_refused" }, 1);
        }
        let q = api::pick_q(&mut r, i, true);
        api::check_q(&q, i)?;
        Ok(())
    }
}

pub struct C08;
impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "every DER entry point and combinator and its BER counterpart are run on the same input; non-trivial: DER accepted it"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        let mut g = Gen::plain(5);
        for &t in UNIV {
            for k in 0..24u64 {
                let o = if k % 4 == 3 { BER } else { DER };
                let v = if t == 16 || t == 17 {
                    let c = g.elem(Opt { depth: 2, ..o });
                    g.wrap(0, t, &c, o)
                } else {
                    let c = g.content(t, o);
                    g.tlv(0, false, t, &c, 20)
                };
                emit(Case::new(v.clone(), k));
                emit(Case::new(model::tlv(2, true, k as u32, &v), k));
                emit(Case::new(model::tlv(0, true, 16, &v), k));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        if g.r.chance(1, 2) {
            let v = g.elem(Opt { depth: g.r.clone().range(1, 5), long: 10, ..DER });
            if g.r.chance(1, 3) {
                let (cl, t) = (g.r.range(1, 3) as u8, g.tag());
                return Case::new(model::tlv(cl, true, t, &v), p);
            }
            return Case::new(v, p);
        }
        Case::new(g.input(), p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let mut r = c.rng();
        let tag = match model::header(i, 0, i.len(), false) {
            Ok((h, _)) => h.tag,
            Err(_) => (i.first().copied().unwrap_or(0) & 0x1f) as u32,
        };
        let mut ps = api::all_for(tag, true);
        for _ in 0..3 {
            ps.push(api::pick(&mut r, i, Some(true)));
        }
        for p in ps {
            let d = api::run(&p, i);
            st.add("pairs", 1);
            if !d.ok() {
                continue;
            }
            st.nontrivial();
            st.add("der_accepted", 1);
            let Some(q) = p.to_ber() else { continue };
            let b = api::run(&q, i);
            if b != d {
                return Err(format!("{p:?} gives {} but {q:?} gives {}", d.short(), b.short()));
            }
        }
        for _ in 0..5 {
            let q = api::pick_q(&mut r, i, true);
            let d = api::run_q(&q, i);
            st.add("combinator_pairs", 1);
            let present = |o: &Out| match o {
                Out::Ok(_, OV::Obj(N { v: V::Opt(None), .. })) => false,
                o => o.ok(),
            };
            if !present(&d) {
                continue;
            }
            st.nontrivial();
            let b = api::run_q(&q.to_ber(), i);
            if b != d {
                return Err(format!("{q:?} gives {} but its BER form gives {}", d.short(), b.short()));
            }
        }
        Ok(())
    }
}
