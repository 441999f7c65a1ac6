//! C12, C13: serialization
use super::util::*;
use crate::api::{self, P};
use crate::gen::*;
use crate::model::{self, *};
use crate::rt::*;
use crate::snap::*;
use cookie_factory::gen_simple;
use der_parser::ber::*;
use std::cell::Cell;
use std::io::Write;

/// what has to survive: class, tag, constructed flag and value; slices by content
fn same(i: &[u8], a: &N, j: &[u8], b: &N) -> Result<(), String> {
    let s = |b: &[u8], s: &S| b.get(s.0..s.0 + s.1).map(|x| x.to_vec());
    if (a.h.class, a.h.cons, a.h.tag) != (b.h.class, b.h.cons, b.h.tag) {
        return Err(format!("header {:?} became {:?}", a.h, b.h));
    }
    let ok = match (&a.v, &b.v) {
        (V::Seq(x), V::Seq(y)) | (V::Set(x), V::Set(y)) => {
            if x.len() != y.len() {
                return Err(format!("{} elements became {}", x.len(), y.len()));
            }
            for (p, q) in x.iter().zip(y) {
                same(i, p, j, q)?;
            }
            true
        }
        (V::Int(x), V::Int(y)) | (V::Oct(x), V::Oct(y)) | (V::Oid(x), V::Oid(y)) | (V::RelOid(x), V::RelOid(y)) | (V::Bmp(x), V::Bmp(y)) | (V::Univ(x), V::Univ(y)) => s(i, x) == s(j, y),
        (V::Bits(u, x), V::Bits(w, y)) => u == w && s(i, x) == s(j, y),
        (V::Str(t, x), V::Str(w, y)) => t == w && s(i, x) == s(j, y),
        (V::Unk(c, p, t, _, x), V::Unk(d, q, w, _, y)) => (c, p, t) == (d, q, w) && s(i, x) == s(j, y),
        (x, y) => x == y,
    };
    if !ok {
        return Err(format!("{:?} became {:?}", a.v, b.v));
    }
    Ok(())
}
fn reparsable(n: &N) -> bool {
    match &n.v {
        V::Opt(_) | V::Tagged(..) => false,
        // four fraction digits only exist without a zone
        V::Gen(t) | V::Utc(t) => t.ms.unwrap_or(0) <= 999,
        V::Seq(l) | V::Set(l) => l.iter().all(reparsable),
        _ => true,
    }
}
fn check_bytes(what: &str, o: &BerObject, b: Base, st: &mut Stats, r: &mut Rng) -> Result<Vec<u8>, String> {
    let n = b.n(o);
    let mut want = vec![];
    model::enc_node(b.0, &n, &mut want);
    let got = o.to_vec().map_err(|e| format!("{what}: to_vec fails: {e:?}"))?;
    if got != want {
        return Err(format!("{what}: serializes to {} instead of {}", hexs(&got), hexs(&want)));
    }
    st.add("serialized", 1);
    st.max("encoding_octets", want.len() as u64);
    if r.chance(1, 3) {
        // appended to what the writer already holds
        let pre = vec![0xEE; r.below(5)];
        let v = gen_simple(ber_encode_object(o), pre.clone()).map_err(|e| format!("{what}: ber_encode_object fails: {e:?}"))?;
        if v[..pre.len()] != pre || v[pre.len()..] != want[..] {
            return Err(format!("{what}: ber_encode_object and to_vec differ"));
        }
        if n.v != V::Opt(None) {
            let mut c = vec![];
            model::enc_value(b.0, &n.v, &mut c);
            let h = o.header.clone().with_length(Length::Definite(c.len()));
            let v = gen_simple(ber_encode_object_raw(&h, &o.content), Vec::new()).map_err(|e| format!("{what}: raw encoding fails: {e:?}"))?;
            if v != want {
                return Err(format!("{what}: raw encoding with the right length is {} instead of {}", hexs(&v), hexs(&want)));
            }
        }
    }
    Ok(want)
}
pub fn hexs(b: &[u8]) -> String {
    if b.len() > 120 {
        format!("{}..({} octets)", hex(&b[..120]), b.len())
    } else {
        hex(b)
    }
}
pub struct C12;
impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "parsed objects (BER, DER, explicit, implicit, optional) and hand-built ones are serialized, compared octet for octet with a reference encoder, and parsed again; non-trivial: an object was serialized"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        let mut g = Gen::plain(12);
        for &t in UNIV {
            for k in 0..60u64 {
                let o = if k % 2 == 0 { DER } else { BER };
                let v = if t == 16 || t == 17 {
                    let mut c = vec![];
                    for _ in 0..k % 5 {
                        c.extend(g.elem(Opt { depth: 2, ..o }));
                    }
                    g.wrap(0, t, &c, Opt { indef: 50, ..o })
                } else {
                    let c = g.content(t, o);
                    g.tlv(0, false, t, &c, 10)
                };
                emit(Case::new(v, k));
            }
        }
        for n in [0usize, 1, 126, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, 1 << 20] {
            for tag in [4u32, 3, 12] {
                let c = vec![0u8; n];
                emit(Case::new(model::tlv(0, false, tag, &c), 1));
                emit(Case::new(model::tlv(0, true, 16, &model::tlv(0, false, tag, &c)), 1));
                emit(Case::new(model::tlv(2, true, 77, &model::tlv(0, false, tag, &c)), 1));
            }
        }
        for tag in [0u32, 1, 30, 31, 32, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, u32::MAX] {
            for class in 1..4u8 {
                for cons in [false, true] {
                    emit(Case::new(model::tlv(class, cons, tag, &[2, 1, 5]), 1));
                }
            }
        }
        for x in [0u32, 1, 127, 128, 255, 256, 32767, 32768, 65535, 1 << 23, (1 << 24) - 1, 1 << 31, u32::MAX] {
            emit(Case::new(model::tlv(0, false, 10, &x.to_be_bytes()), 1));
        }
        for k in 0..400u64 {
            emit(Case::new(vec![k as u8; (k % 40) as usize], k << 20));
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        let v = match g.r.below(4) {
            0 => {
                let n = g.size(400);
                g.bytes(n)
            }
            1 => g.elem(DER),
            _ => g.input(),
        };
        Case::new(v, p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = c.rng();
        let i = place(0, &c.input);
        let b = Base(i);
        for der in [false, true] {
            let res = if der { der_parser::parse_der(i) } else { der_parser::parse_ber(i) };
            let Ok((_, o)) = res else { continue };
            st.nontrivial();
            st.add("parsed", 1);
            let enc = check_bytes("parsed object", &o, b, st, &mut r)?;
            let n = b.n(&o);
            if reparsable(&n) {
                let e = place(1, &enc);
                match der_parser::parse_ber(e) {
                    Ok((rem, o2)) if rem.is_empty() => {
                        same(i, &n, e, &Base(e).n(&o2))?;
                        // and once more: a fixed point
                        if o2.to_vec().ok().as_ref() != Some(&enc) {
                            return Err("serializing the parsed serialization gives other octets".into());
                        }
                        st.add("round_trips", 1);
                    }
                    x => return Err(format!("the serialization {} is parsed as {x:?}", hexs(&enc))),
                }
                if der {
                    // minimal lengths do not make a DER object invalid
                    let ok = der_parser::parse_der(e).map(|(rem, o3)| (rem.is_empty(), Base(e).n(&o3)));
                    match ok {
                        Ok((true, n3)) => same(i, &n, e, &n3)?,
                        x => return Err(format!("a DER object serializes to {}, which DER refuses: {x:?}", hexs(&enc))),
                    }
                    if enc == i {
                        st.add("byte_identical_der", 1);
                    }
                }
            }
        }
        // what the combinators build
        if let Ok((h, _)) = model::header(i, 0, i.len(), false) {
            if h.class != 0 {
                if let Ok((_, o)) = sut::explicit(false, h.tag, i, &|x| der_parser::parse_ber(x)) {
                    st.nontrivial();
                    let enc = check_bytes("explicit", &o, b, st, &mut r)?;
                    let n = b.n(&o);
                    if let V::Tagged(_, _, inner) = &n.v {
                        if reparsable(inner) {
                            let e = place(2, &enc);
                            match sut::explicit(false, h.tag, e, &|x| der_parser::parse_ber(x)) {
                                Ok((rem, o2)) if rem.is_empty() => {
                                    let n2 = Base(e).n(&o2);
                                    let V::Tagged(c2, t2, inner2) = &n2.v else { return Err("not tagged".into()) };
                                    if (*c2, *t2) != (h.class, h.tag) {
                                        return Err("explicit tag or class changed".into());
                                    }
                                    same(i, inner, e, inner2)?;
                                    st.add("explicit_round_trips", 1);
                                }
                                x => return Err(format!("explicit: the serialization {} is parsed as {x:?}", hexs(&enc))),
                            }
                        }
                    }
                }
                let k = *r.pick(&[2u32, 4, 16, 17, 3, 12, 1, 10]);
                if let Ok((_, o)) = sut::implicit_content(false, h.tag, k, i) {
                    st.nontrivial();
                    let enc = check_bytes("implicit", &o, b, st, &mut r)?;
                    let n = b.n(&o);
                    if reparsable(&n) {
                        let e = place(2, &enc);
                        match sut::implicit_content(false, h.tag, k, e) {
                            Ok((rem, o2)) if rem.is_empty() => {
                                same(i, &n, e, &Base(e).n(&o2))?;
                                st.add("implicit_round_trips", 1);
                            }
                            x => return Err(format!("implicit: the serialization {} is parsed as {x:?}", hexs(&enc))),
                        }
                    }
                }
                if let Ok((_, o)) = sut::explicit_optional(false, h.tag, i, &|x| der_parser::parse_ber(x)) {
                    check_bytes("explicit optional", &o, b, st, &mut r)?;
                }
            }
        }
        // hand-built
        if i.len() <= 4000 {
            let hb = hand_buf(3, i);
            for parsable in [true, false] {
                let d = r.below(5);
                let o = hand(&mut r, hb, d, &Hand { parsable, optional: !parsable, tagged: !parsable, custom_header: !parsable });
                st.nontrivial();
                st.add("hand_built", 1);
                let enc = check_bytes("hand-built object", &o, Base(hb), st, &mut r)?;
                if parsable {
                    let e = place(4, &enc);
                    match der_parser::parse_ber(e) {
                        Ok((rem, o2)) if rem.is_empty() => {
                            same(hb, &Base(hb).n(&o), e, &Base(e).n(&o2)).map_err(|x| format!("hand-built object: {x}"))?;
                            st.add("hand_built_round_trips", 1);
                        }
                        x => return Err(format!("hand-built object: the serialization {} is parsed as {x:?}", hexs(&enc))),
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- failing writers
thread_local! {
    static CALLS: Cell<usize> = const { Cell::new(0) };
    /// (write call that fails, how)
    static FAULT: Cell<(usize, u8)> = const { Cell::new((usize::MAX, 0)) };
    static HIT: Cell<bool> = const { Cell::new(false) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[derive(Default)]
struct Faulty(Vec<u8>);
impl AsRef<[u8]> for Faulty {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = CALLS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let (k, how) = FAULT.with(|f| f.get());
        if n == k {
            HIT.with(|h| h.set(true));
            match how {
                0 => return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")),
                1 => return Ok(0),
                _ => {
                    let l = if how == 2 { b.len() - 1 } else { b.len() / 2 };
                    self.0.extend(&b[..l]);
                    return Ok(l);
                }
            }
        }
        let room = LIMIT.with(|l| l.get()).saturating_sub(self.0.len());
        let l = b.len().min(room);
        self.0.extend(&b[..l]);
        Ok(l)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn reset(fault: (usize, u8), limit: usize) {
    CALLS.with(|c| c.set(0));
    FAULT.with(|c| c.set(fault));
    HIT.with(|c| c.set(false));
    LIMIT.with(|c| c.set(limit));
}
type Emit<'x> = &'x dyn Fn(Faulty) -> Result<Faulty, cookie_factory::GenError>;
fn faults(what: &str, want: &[u8], f: Emit, st: &mut Stats, r: &mut Rng) -> Result<(), String> {
    reset((usize::MAX, 0), usize::MAX);
    match f(Faulty::default()) {
        Ok(w) if w.0 == want => (),
        Ok(w) => return Err(format!("{what}: wrote {} instead of {}", hexs(&w.0), hexs(want))),
        Err(e) => return Err(format!("{what}: fails on a working writer: {e:?}")),
    }
    let calls = CALLS.with(|c| c.get());
    st.max("write_calls", calls as u64);
    let mut ks: Vec<usize> = (1..=calls.min(24)).collect();
    if calls > 24 {
        for _ in 0..8 {
            ks.push(r.range(1, calls));
        }
        ks.push(calls);
    }
    for k in ks {
        for how in 0..4u8 {
            reset((k, how), usize::MAX);
            let res = f(Faulty::default());
            st.add("faults_injected", 1);
            if !HIT.with(|h| h.get()) {
                reset((usize::MAX, 0), usize::MAX);
                continue;
            }
            if let Ok(w) = res {
                // a writer that takes less can be asked again; one that fails cannot be ignored
                if how == 0 || w.0 != want {
                    reset((usize::MAX, 0), usize::MAX);
                    return Err(format!("{what}: write call {k} of {calls} {} but success is reported with {} of {} octets", ["fails", "takes nothing", "takes all but one octet", "takes half"][how as usize], w.0.len(), want.len()));
                }
            }
        }
    }
    // room for L octets only
    let mut ls = vec![0usize, 1, 2, 3, want.len().saturating_sub(1), want.len(), want.len() + 1, r.below(want.len() + 1), r.below(want.len() + 1)];
    ls.dedup();
    for l in ls {
        reset((usize::MAX, 0), l);
        let res = f(Faulty::default());
        st.add("limited_writers", 1);
        let bad = match &res {
            Ok(w) => l < want.len() || w.0 != want,
            Err(_) => l >= want.len(),
        };
        if bad {
            reset((usize::MAX, 0), usize::MAX);
            return Err(format!("{what}: {} octets to write, room for {l}: {:?}", want.len(), res.map(|w| w.0.len())));
        }
    }
    reset((usize::MAX, 0), usize::MAX);
    Ok(())
}
pub struct C13;
fn hdr_bytes(h: &H) -> Vec<u8> {
    let mut v = model::enc_tag(h.class, h.cons, h.tag);
    match h.len {
        Some(n) => v.extend(model::enc_len(n)),
        None => v.push(0x80),
    }
    v
}
impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "headers of every class, form, tag magnitude and length magnitude, and objects (parsed and hand-built) with explicit, implicit and raw encoding, are written to working writers, writers failing at each write call in four ways, and writers with limited room, and compared with the reference encoder; non-trivial: every case"
    }
    fn fixed(&self, t: Tier, emit: &mut dyn FnMut(Case)) {
        let n = if t == Tier::Quick { 6000 } else { 60_000 };
        for k in 0..n {
            emit(Case::new(vec![], k));
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        let v = if g.r.chance(1, 2) {
            let o = g.any_opt();
            g.elem(Opt { maxlen: 300, ..o })
        } else {
            let n = g.size(300);
            g.bytes(n)
        };
        Case::new(v, p)
    }
    fn max_input(&self) -> usize {
        5000
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = c.rng();
        st.nontrivial();
        // headers
        for _ in 0..4 {
            let len = match r.below(5) {
                0 => None,
                1 => Some(*r.pick(&[0usize, 1, 126, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, u32::MAX as usize, 1 << 32, (1 << 40) - 1, 1 << 48, 1 << 56, usize::MAX])),
                2 => {
                    let s = r.below(64);
                    Some((r.u64() >> s) as usize)
                }
                _ => Some(r.below(300)),
            };
            let h = H { class: r.below(4) as u8, cons: r.chance(1, 2), tag: rand_tag(&mut r), len, raw: None };
            let l = match len {
                Some(n) => Length::Definite(n),
                None => Length::Indefinite,
            };
            let hdr = Header::new(class(h.class), h.cons, Tag(h.tag), l);
            // the raw octets remembered from a parse are not what is asked for
            let hdr = if r.chance(1, 4) { hdr.with_raw_tag(Some((&[0x1f, 0x81, 0x00][..r.below(3) + 1]).into())) } else { hdr };
            let want = hdr_bytes(&h);
            st.add("headers", 1);
            st.distinct("header", hash64(&[&want]));
            faults("ber_encode_header", &want, &|w| gen_simple(ber_encode_header(&hdr), w), st, &mut r)?;
            let mut buf = [0xEEu8; 24];
            for k in 0..=want.len() + 2 {
                buf.fill(0xEE);
                let ok = gen_simple(ber_encode_header(&hdr), &mut buf[..k]).is_ok();
                if ok != (k >= want.len()) || (ok && buf[..want.len()] != want[..]) || buf[k.max(want.len())..].iter().any(|x| *x != 0xEE) {
                    return Err(format!("header {h:?} into a buffer of {k} octets: ok={ok}, {}", hex(&buf)));
                }
            }
            if len.is_some() || h.cons {
                let w = place(5, &want);
                match api::run(&P::Hdr(false), w) {
                    Out::Ok(Some(n), OV::Hdr(g)) if n == want.len() && (g.class, g.cons, g.tag, g.len) == (h.class, h.cons, h.tag, h.len) => st.add("headers_decoded_back", 1),
                    o => return Err(format!("header {h:?} encodes to {}, which decodes to {}", hex(&want), o.short())),
                }
            }
        }
        // objects
        let i = place(0, &c.input);
        let hb = hand_buf(1, i);
        let mut objs: Vec<(BerObject<'static>, &'static [u8])> = vec![];
        if let Ok((_, o)) = der_parser::parse_ber(i) {
            objs.push((o, i));
        }
        let d = r.below(4);
        objs.push((hand(&mut r, hb, d, &Hand { parsable: false, optional: true, tagged: true, custom_header: true }), hb));
        for (o, base) in &objs {
            let n = Base(base).n(o);
            if model::count(&n) > 60 {
                continue;
            }
            let (t, cl) = (rand_tag(&mut r), r.below(4) as u8);
            let mut inner = vec![];
            model::enc_node(base, &n, &mut inner);
            let mut val = vec![];
            model::enc_value(base, &n.v, &mut val);
            let want = model::tlv(cl, true, t, &inner);
            faults("explicit", &want, &|w| gen_simple(ber_encode_tagged_explicit(Tag(t), class(cl), o), w), st, &mut r)?;
            let want = model::tlv(cl, n.h.cons, t, &val);
            faults("implicit", &want, &|w| gen_simple(ber_encode_tagged_implicit(Tag(t), class(cl), o), w), st, &mut r)?;
            let mut want = hdr_bytes(&n.h);
            want.extend(&val);
            faults("raw", &want, &|w| gen_simple(ber_encode_object_raw(&o.header, &o.content), w), st, &mut r)?;
            faults("object", &inner, &|w| gen_simple(ber_encode_object(o), w), st, &mut r)?;
            st.add("objects", 1);
        }
        Ok(())
    }
}
